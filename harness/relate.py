"""Modes whose records relate two views of the same thing."""

import datetime
import json
import os

import observe
import snapshot
from observe import N, S, stamp


def attempt(kind, text, y, mo, truncate=False):
    """(report or None, outcome, message)"""
    try:
        return observe.build(kind, text, y, mo, truncate), "ok", ""
    except Exception as e:  # noqa
        return None, observe.outcome_of(e), str(e)


def dead(case, why):
    return dict(case, out=why)


# -- C05 -----------------------------------------------------------------------
def truncate_mode(prop):
    def run(case):
        o = dict(case)
        a = (case["kind"], case["text"], case["y"], case["mo"])
        rep, o["out"], _ = attempt(*a)
        cut, o["tout"], o["msg"] = attempt(*a, True)
        o["raw"], o["allunparsed"], o["d"], o["td"] = "", [], "", ""
        if rep is not None:
            o["raw"] = S(rep.raw_code)
            o["allunparsed"] = [S(g) for g in rep.unparsed_groups]
            o["d"] = snapshot.snapshot(rep) if not o["allunparsed"] else ""
        if cut is not None:
            o["td"] = snapshot.snapshot(cut)
        return o

    return run, lambda c, why: dict(c, out=why, tout=why, msg="", raw="", allunparsed=[], d="", td="")


# -- C07 -----------------------------------------------------------------------
def layout_mode(prop):
    def run(case):
        o = dict(case)
        rep, o["out"], _ = attempt(case["kind"], case["text"], case["y"], case["mo"])
        ref, o["cout"], _ = attempt(case["kind"], case["canon"], case["y"], case["mo"])
        o["raw"] = S(rep.raw_code) if rep is not None else ""
        o["differs"] = snapshot.difference(snapshot.tree(rep), snapshot.tree(ref)) if rep is not None and ref is not None else ""
        return o

    return run, lambda c, why: dict(c, out=why, cout="", raw="", differs="")


# -- C24 -----------------------------------------------------------------------
def tag(v):
    """A value as a text that tells its type."""
    if v is None:
        return "none"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (int, float)):
        return "n:%d" % round(v * 10**6)
    if isinstance(v, datetime.datetime) or type(v).__name__ == "Time":
        return "s:" + stamp(v)
    return "<%s>" % type(v).__name__


def flat(v, path="", out=None):
    out = {} if out is None else out
    if isinstance(v, dict) and v:
        for k in v:
            flat(v[k], "%s.%s" % (path, k) if path else str(k), out)
    elif isinstance(v, (list, tuple)) and v:
        for i, x in enumerate(v):
            flat(x, "%s.%d" % (path, i), out)
    else:
        out[path] = "{}" if isinstance(v, dict) else "[]" if isinstance(v, (list, tuple)) else tag(v)
    return out


def digest(v):
    return "#" + snapshot.digest(json.loads(json.dumps(v)))


def guarded(f):
    try:
        return f()
    except Exception as e:  # noqa
        return "raise %s" % type(e).__name__


def shown(v):
    """The public properties of v with plain values."""
    out = {}
    for n in snapshot.shown(v):
        x = getattr(v, n)
        if x is None or isinstance(x, (str, bool, int, float, datetime.datetime)) or type(x).__name__ == "Time":
            out[n] = tag(x)
    return out


def node(role, v):
    d = guarded(v.as_dict)
    n = {"role": role, "flat": flat(d) if isinstance(d, dict) else {"": str(d)}, "dict": guarded(lambda: digest(v.as_dict())),
         "json": guarded(lambda: "#" + snapshot.digest(json.loads(v.to_json()))), "p": shown(v)}
    n["len"] = guarded(lambda: str(len(v)))
    if role == "rvr":
        for e in ("low", "high"):
            mark = observe.mark(getattr(v, e + "_range"), getattr(v, e + "_in_meters"))
            n["p"][e + "mark"] = "s:" + mark if mark else "none"
    if role == "trendind":
        a, b = v.forecast_period
        n["p"]["init"], n["p"]["end"] = tag(a), tag(b)
    if role in ("changeind",):
        n["p"]["from"], n["p"]["until"] = tag(v.valid.period_from), tag(v.valid.period_until)
    return n


def top(v):
    """The entries of a dictionary: plain values tagged, others as digests."""
    d = guarded(v.as_dict)
    if not isinstance(d, dict):
        return {"": str(d)}
    out = {}
    for k, x in d.items():
        out[k] = digest(x) if isinstance(x, (dict, list, tuple)) else tag(x)
    return out


def entries(v, key):
    """The entries of what is under a key of a dictionary: label -> digest."""
    d = guarded(v.as_dict)
    x = d.get(key) if isinstance(d, dict) else None
    if isinstance(x, dict):
        return {str(k): digest(y) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return {str(k): digest(y) for k, y in enumerate(x)}
    return {"": "missing"}


def dict_mode(prop):
    def part(v, table, lists):
        nodes, ls = {}, {}
        for n, (attr, _, many) in table.items():
            x = getattr(v, attr)
            if many:
                ls[n] = {"nodes": [node(n, y) for y in x], "entries": entries(v, attr), "len": len(x), "own": {k: digest(y) for k, y in x.as_dict().items()},
                         "json": guarded(lambda: "#" + snapshot.digest(json.loads(x.to_json()))), "dict": guarded(lambda: digest(x.as_dict()))}
            else:
                nodes[n] = node(n, x)
        return nodes, ls

    def run(case):
        o = dict(case)
        rep, o["out"], _ = attempt(case["kind"], case["text"], case["y"], case["mo"])
        if rep is None:
            return o
        o["top"], o["p"] = top(rep), shown(rep)
        o["dict"], o["json"] = guarded(lambda: digest(rep.as_dict())), guarded(lambda: "#" + snapshot.digest(json.loads(rep.to_json())))
        o["sections"], o["unparsed"] = digest(list(rep.sections)), digest(list(rep.unparsed_groups))
        o["nodes"], o["lists"] = part(rep, observe.BODY[case["kind"]], True)
        ps = rep.weather_trends if case["kind"] == "METAR" else rep.changes_forecasted
        o["plabels"] = {k: digest(y) for k, y in ps.as_dict().items()}
        o["pentries"] = entries(rep, "weather_trends" if case["kind"] == "METAR" else "changes_forecasted")
        o["periods"] = []
        for p in ps:
            nodes, ls = part(p, observe.PERIOD, False)
            ind = ("trendind", p.trend_indicator) if case["kind"] == "METAR" else ("changeind", p.change_indicator)
            o["periods"].append({"top": top(p), "p": shown(p), "dict": guarded(lambda: digest(p.as_dict())),
                                 "json": guarded(lambda: "#" + snapshot.digest(json.loads(p.to_json()))), "nodes": nodes, "lists": ls, "ind": node(*ind)})
        return o

    return run, dead


# -- C25 -----------------------------------------------------------------------
DIR, SPD, DST, TMP = ("degrees", "radians", "gradians"), ("knot", "mps", "kph", "miph"), ("meters", "kilometers", "sea_miles", "feet"), ("celsius", "kelvin", "fahrenheit", "rankine")
SEA = ("meters", "centimeters", "decimeters", "feet", "inches")
QUANTITIES = {  # element: [(prefix of the views, the units)]
    "wind": [("direction_in_", DIR), ("speed_in_", SPD), ("gust_in_", SPD)], "windvar": [("from_in_", DIR), ("to_in_", DIR)],
    "vis": [("in_", DST), ("direction_in_", DIR)], "minvis": [("in_", DST), ("direction_in_", DIR)], "rvr": [("low_in_", DST), ("high_in_", DST)],
    "cloud": [("height_in_", DST)], "temps": [("temperature_in_", TMP), ("dewpoint_in_", TMP)], "press": [("in_", ("hPa", "inHg", "mbar", "bar", "atm"))],
    "sea": [("temperature_in_", TMP), ("height_in_", SEA)], "tmax": [("in_", TMP)], "tmin": [("in_", TMP)],
}


FACTORS = ("FT_TO_M", "SMI_TO_KM", "KM_TO_SMI", "KM_TO_M", "M_TO_KM", "M_TO_SMI", "M_TO_FT", "M_TO_DM", "M_TO_CM", "M_TO_IN", "DEGREES_TO_RADIANS", "DEGREES_TO_GRADIANS",
           "KNOT_TO_MPS", "KNOT_TO_MIPH", "KNOT_TO_KPH", "MPS_TO_KNOT", "HPA_TO_INHG", "INHG_TO_HPA", "HPA_TO_BAR", "BAR_TO_HPA", "MBAR_TO_HPA", "HPA_TO_MBAR", "HPA_TO_ATM")
PAIRS = [("celsius", "kelvin"), ("celsius", "fahrenheit"), ("celsius", "rankine")]


def conversion(case):
    """What the public conversions make of a temperature, there and back, and their factors."""
    o = dict(case)
    try:
        observe.load()
        from aeromet_py.utils import Conversions as c
        t = case["hundredths"] / 100
        o["fn"] = {}
        for a, b in PAIRS + [(b, a) for a, b in PAIRS]:
            there, back = getattr(c, a + "_to_" + b), getattr(c, b + "_to_" + a)
            o["fn"][a + "_to_" + b] = {"there": N(there(t)), "back": N(back(there(t)))}
        o["factors"] = {n: N(getattr(c, n)) for n in FACTORS if hasattr(c, n)}
        o["out"] = "ok"
    except Exception as e:  # noqa
        o["out"] = observe.outcome_of(e)
    return o


BUILT = {"Direction": DIR, "Speed": SPD, "Distance": DST, "Temperature": TMP, "Pressure": ("hPa", "inHg", "mbar", "bar", "atm")}


def quantity(case):
    """A quantity built from a number's text, or a direction from a cardinal point."""
    o = dict(case, v={}, cardinal="")
    try:
        observe.load()
        from aeromet_py.reports import models
        cls = getattr(models, case["cls"])
        x = cls.from_cardinal(case["code"]) if case["cardinal_of"] else cls(case["code"])
        o["v"] = {u: N(getattr(x, "in_" + u)) for u in BUILT[case["cls"]]}
        o["v"]["value"] = N(x.value)
        o["cardinal"] = S(x.cardinal) if case["cls"] == "Direction" else ""
        o["out"] = "ok"
    except Exception as e:  # noqa
        o["out"] = observe.outcome_of(e)
    return o


def units_mode(prop):
    def run(case):
        if case["kind"] == "CONVERSION":
            return conversion(case)
        if case["kind"] == "QUANTITY":
            return quantity(case)
        o = dict(case)
        rep, o["out"], _ = attempt(case["kind"], case["text"], case["y"], case["mo"])
        if rep is None:
            return o
        qs, seen = [], set()
        try:
            parts = [(rep, observe.BODY[case["kind"]])] + [(p, observe.PERIOD) for p in observe.periods_of(case["kind"], rep)]
            for part, table in parts:
                for n, (attr, _, many) in table.items():
                    for x in (list(getattr(part, attr)) if many else [getattr(part, attr)]):
                        for prefix, units in QUANTITIES.get(n, ()):
                            v = {u: N(getattr(x, prefix + u)) for u in units}
                            q = {"of": n + " " + prefix, "v": v}
                            if n in ("press", "tmax", "tmin"):
                                v["value"] = N(x.value)
                            key = json.dumps(q)
                            if key not in seen:
                                seen.add(key)
                                qs.append(q)
            o["quantities"] = qs
        except Exception as e:  # noqa
            o["out"] = "read " + observe.outcome_of(e)
        return o

    return run, dead


# -- C26 -----------------------------------------------------------------------
def contents(kind, rep):
    """Digests of what each part of a report holds, the body first."""
    def of(part, table):
        return {n: snapshot.digest([snapshot.tree(y) for y in getattr(part, attr)] if many else snapshot.tree(getattr(part, attr)))
                for n, (attr, _, many) in table.items()}

    def derived(part):
        return {"fr": S(part.flight_rules), "cavok": S(part.should_be_cavok()), "ceiling": S(part.clouds.ceiling)}

    ps = observe.periods_of(kind, rep)
    whole = [S(g) for g in rep.unparsed_groups]
    below = sum(len(p.unparsed_groups) for p in ps)
    out = [dict(of(rep, observe.BODY[kind]), **derived(rep), unparsed=snapshot.digest(whole[: len(whole) - below] if below else whole))]
    for p in ps:
        out.append(dict(of(p, observe.PERIOD), **derived(p), unparsed=snapshot.digest([S(g) for g in p.unparsed_groups])))
    return out


def pair_mode(prop):
    def run(case):
        o = dict(case)
        kind2 = "TAF" if "groups" in case else case["kind"]
        a, o["out"], _ = attempt(case["kind"], case["text"], case["y"], case["mo"])
        b, o["out2"], _ = attempt(kind2, case["text2"], case["y"], case["mo"])
        if a is not None and b is not None:
            if "groups" in case:
                o["parts"] = [part_elements(a), part_elements(a.weather_trends[0]), part_elements(b), part_elements(b.changes_forecasted[0])]
            else:
                o["a"], o["b"] = contents(kind2, a), contents(kind2, b)
        return o

    def part_elements(part):
        """The elements of the four shared kinds: [name, code, digest of all it shows]."""
        out = []
        for n, (attr, _, many) in observe.PERIOD.items():
            for x in (list(getattr(part, attr)) if many else [getattr(part, attr)]):
                out.append({"n": n, "code": S(x.code), "d": snapshot.digest(snapshot.tree(x))})
        return {"els": out, "derived": "%s %s %s" % (part.flight_rules, part.should_be_cavok(), part.clouds.ceiling)}

    return run, lambda c, why: dict(c, out=why, out2=why)


# -- C27 -----------------------------------------------------------------------
def station_mode(prop):
    with open(os.environ["VERIF_DB"]) as f:
        db = json.load(f)
    names = db["countries"]

    def run(case):
        o = dict(case)
        o["entry"] = [dict(x, countryname=S(names.get(x["country"]))) for x in db[case.get("by", "ICAO")].get(case["station"], [])]
        if "by" in case:
            try:
                observe.load()
                from aeromet_py.reports.models import Station
                o["st"], o["out"] = observe._station(Station(case["station"], case["by"]))["s"], "ok"
            except Exception as e:  # noqa
                o["out"] = observe.outcome_of(e)
            return o
        rep, o["out"], _ = attempt(case["kind"], case["text"], case["y"], case["mo"])
        if rep is not None:
            o["st"] = observe._station(rep.station)["s"]
        return o

    return run, dead


# -- C30 -----------------------------------------------------------------------
def helper_mode(prop):
    def run(case):
        o = dict(case, got=[])
        try:
            observe.load()
            from aeromet_py import utils
            if case["op"] == "split":
                got = utils.split_sentence(case["text"], list(case["keywords"]), case["count"], case["space"])
            else:
                name = {"visibility": "visibility", "windshear": "windshear", "change": "change_indicator"}[case["op"]]
                got = [getattr(utils, "sanitize_" + name)(case["text"])]
            o["got"], o["out"] = [g if isinstance(g, str) else repr(g) for g in got], "ok"
        except Exception as e:  # noqa
            o["out"] = observe.outcome_of(e)
        return o

    return run, lambda c, why: dict(c, out=why, got=[])
