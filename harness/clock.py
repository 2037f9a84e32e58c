"""Reading reports at chosen instants and in chosen time zones: the process
runs under libfaketime, which looks at FAKETIME at every call."""

import datetime
import os
import time

import observe
import snapshot

ENV = {"LD_PRELOAD": "/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1", "FAKETIME_FMT": "%s", "FAKETIME_NO_CACHE": "1",
       "DONT_FAKE_MONOTONIC": "1", "FAKETIME": "1600000000", "TZ": "UTC0"}


def set_clock(stamp, sec, zone):
    at = datetime.datetime.strptime(stamp, "%Y-%m-%d %H:%M:%S").replace(tzinfo=datetime.timezone.utc).timestamp() + sec
    os.environ["TZ"] = zone
    time.tzset()
    os.environ["FAKETIME"] = "%d" % at
    if int(time.time()) != int(at):
        raise RuntimeError("the clock cannot be set")


def clock_mode(prop):
    want = observe.WANT[prop]

    def build(case):
        ap = observe.load()
        cls = ap.Metar if case["kind"] == "METAR" else ap.Taf
        given = {}
        if case["gy"]:
            given["year"] = case["y"]
        if case["gm"]:
            given["month"] = case["mo"]
        return cls(case["text"], **given)

    def run(case):
        o = dict(case)
        set_clock(case["now"], case["sec"], case["zone"])
        try:
            rep = build(case)
            o.update(observe.read_report(case["kind"], rep, want))
            o["out"] = "ok"
        except Exception as e:  # noqa
            o["out"] = observe.outcome_of(e)
            return o
        if case["gy"] and case["gm"]:
            first = snapshot.tree(rep)
            set_clock(case["now2"], 0, case["zone2"])
            again = snapshot.difference(first, snapshot.tree(rep)) or snapshot.difference(first, snapshot.tree(build(case)))
            o["again"] = again
        return o

    return run, lambda c, why: dict(c, out=why)
