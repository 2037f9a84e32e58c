"""Histories: lists under scripts of operations, reports under scripts of
questions, and threads that read reports by turns."""

import itertools
import json
import os
import sys
import tempfile
import threading

import observe
import snapshot
from observe import S


# -- C22 -----------------------------------------------------------------------
def at(v, path):
    for x in path.split(".") if path else []:
        v = v[int(x)] if x.isdigit() else getattr(v, x)
    return v


def kind_of(e):
    return type(e).__name__


def lists_mode(prop):
    def run(case):
        o = dict(case, res=[], out="ok")
        try:
            lst = at(observe.build(case["kind"], case["text"], case["y"], case["mo"]), case["path"])
        except Exception as e:  # noqa
            o["out"] = observe.outcome_of(e)
            return o
        its = {}
        for op in case["ops"]:
            o["res"].append(answer(case, lst, its, op))
        return o

    def answer(case, lst, its, op):
        k = op["o"]
        try:
            if k == "iter":
                its[op["i"]] = iter(lst)
            elif k in ("next", "own"):
                try:
                    return [S(next(its[op["i"]] if k == "next" else lst).code)]
                except StopIteration:
                    return ["Stop"]
            elif k == "drop":
                del its[op["i"]]
            elif k == "all":
                return [S(x.code) for x in itertools.islice(lst, 50)]
            elif k == "len":
                return ["%d" % len(lst)]
            elif k == "codes":
                return [S(c) for c in lst.codes]
            elif k == "items":
                return [S(x.code) for x in lst.items]
            elif k == "idx":
                return [S(lst[op["i"]].code)]
            elif k == "text":
                str(lst), lst.as_dict(), lst.to_json()
            elif k == "add":
                item = at(observe.build(case["kind"], case["lead"] + " " + op["c"], case["y"], case["mo"]), case["path"])[0]
                lst.add(item)
            return ["ok"]
        except Exception as e:  # noqa
            return [kind_of(e)]

    return run, lambda c, why: dict(c, res=[], out=why)


# -- C23 -----------------------------------------------------------------------
def in_child(f):
    """f() in a fork, its output to stdout and stderr captured: (result or None, how it ended, printed)."""
    with tempfile.TemporaryFile() as said, tempfile.TemporaryFile() as result:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.dup2(said.fileno(), 1)
                os.dup2(said.fileno(), 2)
                sys.stdout, sys.stderr = os.fdopen(1, "w", closefd=False), os.fdopen(2, "w", closefd=False)
                r = f()
                sys.stdout.flush()
                sys.stderr.flush()
                result.write(json.dumps(r).encode())
                result.flush()
                code = 0
            except BaseException as e:  # noqa
                result.write(json.dumps("error %s: %s" % (type(e).__name__, e)).encode())
                result.flush()
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        result.seek(0)
        said.seek(0)
        text = result.read().decode()
        printed = said.read(80).decode("utf-8", "replace")
        if status != 0:
            return None, "ended %d %s" % (status, text), printed
        return json.loads(text), "ok", printed


def make(rep):
    return observe.build(rep["kind"], rep["text"], rep["y"], rep["mo"])


def walk(v, path="", depth=3):
    """The paths of the objects of a report."""
    yield path
    if depth == 0:
        return
    for n in snapshot.shown(v):
        x = getattr(v, n)
        if snapshot.ours(x):
            yield from walk(x, path + "." + n if path else n, depth - 1)
    if hasattr(type(v), "__iter__") and snapshot.ours(v):
        for i in range(len(v)):
            yield from walk(v[i], "%s.%d" % (path, i), depth - 1)


def survey(rep):
    """The outcome of a report, its questions and its lists."""
    try:
        v = make(rep)
    except Exception as e:  # noqa
        return {"out": observe.outcome_of(e), "questions": [], "lists": []}
    qs, ls = [], []
    for p in walk(v):
        x = at(v, p)
        qs += [p + "|" + q for q in snapshot.questions(x)]
        if hasattr(type(x), "__iter__"):
            ls.append(p)
    return {"out": "ok", "questions": sorted(qs), "lists": sorted(ls)}


def reply(v, question):
    p, q = question.rsplit("|", 1)
    try:
        return snapshot.digest(snapshot.tree(snapshot.ask(at(v, p), q), 4))
    except Exception as e:  # noqa
        return "raise " + kind_of(e)


def script_of(case, surveys):
    """The operations with their questions and lists filled in."""
    out, parsed, opened = [], set(), 0
    for op in case["ops"]:
        r = op["r"]
        if op["o"] == "step":
            if opened:
                out.append({"e": "step", "r": 0, "k": op["m"] % opened, "path": ""})
            continue
        if op["o"] == "parse" or r not in parsed:
            out.append({"e": "parse", "r": r, "k": 0, "path": ""})
            parsed.add(r)
        s = surveys[r - 1]
        if s["out"] != "ok":
            continue
        if op["o"] == "ask":
            out.append({"e": "ask", "r": r, "k": 0, "path": s["questions"][op["m"] % len(s["questions"])]})
        elif op["o"] == "iter" and s["lists"]:
            out.append({"e": "iter", "r": r, "k": opened, "path": s["lists"][op["m"] % len(s["lists"])]})
            opened += 1
        elif op["o"] == "spoil":
            out.append({"e": "spoil", "r": r, "k": 0, "path": ""})
            parsed.discard(r)
        elif op["o"] == "dump":
            out.append({"e": "dump", "r": r, "k": 0, "path": ""})
    return out


def reference(rep, script, r):
    """What fresh parses of one report answer to the script's questions."""
    def f():
        ref = {"out": "", "answers": {}, "lists": {}, "whole": ""}
        try:
            ref["whole"] = snapshot.snapshot(make(rep))
            ref["out"] = "ok"
        except Exception as e:  # noqa
            ref["out"] = observe.outcome_of(e)
            return ref
        for x in script:
            if x["r"] == r and x["e"] == "ask" and x["path"] not in ref["answers"]:
                ref["answers"][x["path"]] = reply(make(rep), x["path"])
            if x["r"] == r and x["e"] == "iter" and x["path"] not in ref["lists"]:
                v = at(make(rep), x["path"])
                ref["lists"][x["path"]] = [snapshot.snapshot(v[i]) for i in range(len(v))]
        return ref
    return f


def spoil(x):
    """Empty a dictionary or list that a report gave away, and all it holds."""
    if isinstance(x, dict):
        for y in list(x.values()):
            spoil(y)
        x.clear()
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x[:] = ["spoilt"]


def play(case, script):
    def f():
        have, its, out = {}, [], []
        for x in script:
            x = dict(x)
            if x["e"] == "parse":
                try:
                    have[x["r"]] = make(case["reports"][x["r"] - 1])
                    x["d"] = "ok"
                except Exception as e:  # noqa
                    x["d"] = observe.outcome_of(e)
            elif x["e"] == "ask":
                x["d"] = reply(have[x["r"]], x["path"])
            elif x["e"] == "dump":
                x["d"] = snapshot.snapshot(have[x["r"]])
            elif x["e"] == "spoil":
                v = have[x["r"]]
                for mine in (v.as_dict(), v.unparsed_groups, v.sections):
                    spoil(mine)
                x["d"] = "ok"
            elif x["e"] == "iter":
                its.append(iter(at(have[x["r"]], x["path"])))
                x["d"] = "ok"
            else:
                try:
                    x["d"] = snapshot.snapshot(next(its[x["k"]]))
                except StopIteration:
                    x["d"] = "Stop"
            x["k"] += 1
            out.append(x)
        return out
    return f


def summary(case, refs, events, outs, said):
    bad = [x for x in outs if x != "ok"]
    return {"id": case["id"], "text": " // ".join(x["text"] for x in case["reports"]), "refs": refs, "events": events or [],
            "out": bad[0] if bad else "ok", "printed": "".join(said)}


EMPTY = {"out": "", "answers": {"": ""}, "lists": {"": []}, "whole": ""}


def filled(ref):
    """TLC has no empty records."""
    return {k: (v if v != {} else EMPTY[k]) for k, v in (ref or EMPTY).items()}


def history_mode(prop):
    def run(case):
        surveys, outs, said = [], [], []
        for r in case["reports"]:
            s, how, printed = in_child(lambda: survey(r))
            surveys.append(s or {"out": how, "questions": [], "lists": []})
            outs.append(how)
            said.append(printed)
        script = script_of(case, surveys)
        refs = []
        for i, r in enumerate(case["reports"]):
            ref, how, printed = in_child(reference(r, script, i + 1))
            refs.append(filled(ref))
            outs.append(how)
            said.append(printed)
        events, how, printed = in_child(play(case, script))
        return summary(case, refs, events, outs + [how], said + [printed])

    return run, lambda c, why: summary(c, [EMPTY for _ in c["reports"]], [], [why], [])


class Turns:
    """Threads take turns: the one whose turn it is runs a given number of
    lines of aeromet_py, then the next one goes on.  A thread that cannot go
    on (it waits for another one) loses its turn."""

    def __init__(self, n, lines):
        self.alive = list(range(n))
        self.turn, self.left, self.at, self.lines = 0, lines[0], 0, lines
        self.cond = threading.Condition()
        self.ticks = 0

    def next(self):
        i = self.alive.index(self.turn) if self.turn in self.alive else -1
        self.turn = self.alive[(i + 1) % len(self.alive)] if self.alive else -1
        self.at = (self.at + 1) % len(self.lines)
        self.left = self.lines[self.at]
        self.cond.notify_all()

    def wait(self, me):
        while self.turn != me:
            seen = self.ticks
            if not self.cond.wait(0.2) and seen == self.ticks and self.turn != me:
                self.turn = me
                self.left = self.lines[self.at]

    def line(self, me):
        with self.cond:
            self.wait(me)
            self.ticks += 1
            self.left -= 1
            if self.left <= 0:
                self.next()
                self.wait(me)

    def done(self, me):
        with self.cond:
            self.alive.remove(me)
            if self.turn == me:
                self.next()


def concurrently(reports, lines):
    turns = Turns(len(reports), lines)
    out = [None] * len(reports)
    base = os.path.join(observe.REPO, "aeromet_py")

    def body(me):
        often = {}

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if not f.startswith(base):
                return None
            if event == "line":
                key = (f, frame.f_lineno)
                often[key] = often.get(key, 0) + 1
                if often[key] <= 200:  # not every row of the table of stations
                    turns.line(me)
            return tracer

        sys.settrace(tracer)
        try:
            v = make(reports[me])
            out[me] = ["ok", snapshot.snapshot(v)]
        except Exception as e:  # noqa
            out[me] = [observe.outcome_of(e), ""]
        finally:
            sys.settrace(None)
            turns.done(me)

    threads = [threading.Thread(target=body, args=(i,)) for i in range(len(reports))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out


def threads_mode(prop):
    def run(case):
        outs, said, refs = [], [], []
        for i, r in enumerate(case["reports"]):
            ref, how, printed = in_child(reference(r, [], i + 1))
            refs.append(filled(ref))
            outs.append(how)
            said.append(printed)
        res, how, printed = in_child(lambda: concurrently(case["reports"], case["lines"]))
        events = []
        for i, x in enumerate(res or []):
            events.append({"e": "parse", "r": i + 1, "k": 1, "path": "in a thread", "d": x[0]})
            if x[0] == "ok":
                events.append({"e": "dump", "r": i + 1, "k": 1, "path": "in a thread", "d": x[1]})
        return summary(case, refs, events, outs + [how], said + [printed])

    return run, lambda c, why: summary(c, [EMPTY for _ in c["reports"]], [], [why], [])
