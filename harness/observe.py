"""What a Metar or Taf object shows through its public interface, as the flat
records the TLA+ module Trace reads.  Nothing here interprets a report."""

import datetime
import re
import sys

sys.dont_write_bytecode = True
REPO = "/repo"


def load():
    """Import aeromet_py from /repo, whatever else is installed."""
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import aeromet_py

    assert aeromet_py.__file__.startswith(REPO + "/"), aeromet_py.__file__
    return aeromet_py


def S(v):
    """A text, none or truth value."""
    if v is None:
        return "<None>"
    if v is True:
        return "<True>"
    if v is False:
        return "<False>"
    if isinstance(v, str):
        return v
    return "<%s:%s>" % (type(v).__name__, v)


def limbs(n):
    out = []
    while True:
        n, r = divmod(n, 1000)
        out.append(r)
        if n == 0:
            return out


def N(v):
    """A number (or none)."""
    if v is None:
        return {"k": "none"}
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return {"k": "other", "t": "%s:%s" % (type(v).__name__, v)}
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return {"k": "nan"}
    return {"k": "num", "s": -1 if v < 0 else 1, "l": limbs(round(abs(v) * 10**9))}


def stamp(t):
    if t is None:
        return "<None>"
    if type(t).__name__ == "Time" and type(t).__module__.startswith("aeromet_py"):
        t = t.time
    if not isinstance(t, datetime.datetime):
        return "<%s:%s>" % (type(t).__name__, t)
    s = "%04d-%02d-%02d %02d:%02d:%02d" % (t.year, t.month, t.day, t.hour, t.minute, t.second)
    if t.microsecond:
        s += ".%06d" % t.microsecond
    if t.utcoffset():
        s += "%+d" % t.utcoffset().total_seconds()
    return s


def minutes(delta):
    return "%g" % (delta.total_seconds() / 60) if isinstance(delta, datetime.timedelta) else S(delta)


def el(s, q=None):
    d = {"s": s}
    if q is not None:
        d["q"] = q
    return d


def _wind(w):
    return el({"code": S(w.code), "cardinal": S(w.cardinal_direction), "variable": S(w.variable)},
              {"deg": N(w.direction_in_degrees), "spd": N(w.speed_in_knot), "gust": N(w.gust_in_knot)})


def _windvar(w):
    return el({"code": S(w.code), "fromcard": S(w.from_cardinal_direction), "tocard": S(w.to_cardinal_direction)},
              {"from": N(w.from_in_degrees), "to": N(w.to_in_degrees)})


def _vis(v):
    return el({"code": S(v.code), "cardinal": S(v.cardinal_direction), "cavok": S(v.cavok)},
              {"m": N(v.in_meters), "deg": N(v.direction_in_degrees)})


def _minvis(v):
    return el({"code": S(v.code), "cardinal": S(v.cardinal_direction)},
              {"m": N(v.in_meters), "deg": N(v.direction_in_degrees)})


def mark(text, number):
    """The text before the number of a runway range ("" if there is none)."""
    if number is None or not isinstance(text, str):
        return "" if text in (None, "") else "<%s>" % text
    head = []
    for w in text.split():
        if w[:1].isdigit():
            break
        head.append(w)
    return " ".join(head)


def _rvr(r):
    return el({"code": S(r.code), "name": S(r.name), "trend": S(r.trend),
               "lowmark": mark(r.low_range, r.low_in_meters), "highmark": mark(r.high_range, r.high_in_meters)},
              {"low": N(r.low_in_meters), "high": N(r.high_in_meters)})


def _weather(w):
    return el({"code": S(w.code), "int": S(w.intensity), "desc": S(w.description), "prec": S(w.precipitation),
               "obsc": S(w.obscuration), "other": S(w.other)})


def _cloud(c):
    return el({"code": S(c.code), "cover": S(c.cover), "oktas": S(c.oktas), "type": S(c.cloud_type)},
              {"ft": N(c.height_in_feet), "m": N(c.height_in_meters)})


def _temps(t):
    return el({"code": S(t.code)}, {"t": N(t.temperature_in_celsius), "d": N(t.dewpoint_in_celsius)})


def _press(p):
    return el({"code": S(p.code)}, {"hpa": N(p.in_hPa)})


def _recent(w):
    return el({"code": S(w.code), "desc": S(w.description), "prec": S(w.precipitation), "obsc": S(w.obscuration), "other": S(w.other)})


def _shear(w):
    return el({"code": S(w.code), "all": S(w.all_), "name": S(w.name)})


def _sea(s):
    return el({"code": S(s.code), "state": S(s.state)}, {"t": N(s.temperature_in_celsius), "h": N(s.height_in_meters)})


def _rwystate(r):
    return el({"code": S(r.code), "name": S(r.name), "deposits": S(r.deposits), "contamination": S(r.contamination),
               "depth": S(r.deposits_depth), "friction": S(r.surface_friction), "snoclo": S(r.snoclo), "clrd": S(r.clrd)})


def _type(t):
    return el({"code": S(t.code), "type": S(t.type_)})


def _modifier(m):
    return el({"code": S(m.code), "desc": S(m.description)})


def _station(s):
    return el({"code": S(s.code), "name": S(s.name), "icao": S(s.icao), "iata": S(s.iata), "synop": S(s.synop), "lat": S(s.latitude),
               "lon": S(s.longitude), "elev": S(s.elevation), "country": S(s.country)})


def _time(t):
    return el({"code": S(t.code), "stamp": stamp(t.time), "y": str(t.year), "mo": str(t.month), "d": str(t.day), "h": str(t.hour), "mi": str(t.minute)})


def _nil(m):
    return el({"code": S(m.code), "desc": S(m.description), "missing": S(m.is_missing)})


def _cnl(c):
    return el({"code": S(c.code), "cancelled": S(c.is_cancelled)})


def _valid(v):
    return el({"code": S(v.code), "from": stamp(v.period_from), "until": stamp(v.period_until), "dur": minutes(v.duration)})


def _taftemp(t):
    return el({"code": S(t.code), "stamp": stamp(t.time)}, {"c": N(t.in_celsius)})


def _trendind(i):
    a, b = i.forecast_period
    return el({"code": S(i.code), "translation": S(i.translation), "init": stamp(a), "end": stamp(b), "from": stamp(i.period_from),
               "until": stamp(i.period_until), "at": stamp(i.period_at)})


def _changeind(i):
    v = i.valid
    return el({"code": S(i.code), "translation": S(i.translation), "from": stamp(v.period_from), "until": stamp(v.period_until), "dur": minutes(v.duration)})


BODY = {  # name: (attribute, reader, is a list)
    "METAR": {
        "type": ("type_", _type, 0), "station": ("station", _station, 0), "time": ("time", _time, 0), "modifier": ("modifier", _modifier, 0),
        "wind": ("wind", _wind, 0), "windvar": ("wind_variation", _windvar, 0), "vis": ("prevailing_visibility", _vis, 0),
        "minvis": ("minimum_visibility", _minvis, 0), "rvr": ("runway_ranges", _rvr, 1), "weather": ("weathers", _weather, 1),
        "cloud": ("clouds", _cloud, 1), "temps": ("temperatures", _temps, 0), "press": ("pressure", _press, 0),
        "recent": ("recent_weather", _recent, 0), "shear": ("windshears", _shear, 1), "sea": ("sea_state", _sea, 0), "rwystate": ("runway_state", _rwystate, 0),
    },
    "TAF": {
        "type": ("type_", _type, 0), "station": ("station", _station, 0), "time": ("time", _time, 0), "modifier": ("modifier", _modifier, 0),
        "nil": ("missing", _nil, 0), "valid": ("valid", _valid, 0), "cnl": ("cancelled", _cnl, 0), "wind": ("wind", _wind, 0),
        "vis": ("prevailing_visibility", _vis, 0), "weather": ("weathers", _weather, 1), "cloud": ("clouds", _cloud, 1),
        "tmax": ("max_temperatures", _taftemp, 1), "tmin": ("min_temperatures", _taftemp, 1),
    },
}
PERIOD = {"wind": ("wind", _wind, 0), "vis": ("prevailing_visibility", _vis, 0), "weather": ("weathers", _weather, 1), "cloud": ("clouds", _cloud, 1)}


def code_only(g):
    return {"s": {"code": S(g.code)}}


DECIMAL = re.compile(r"-?(?<![\d.])\d+\.\d(?![\d.])")


def words(x):
    """The text form of x: its lines with "#" for every number with one decimal, and these numbers."""
    t = str(x)
    if not isinstance(t, str):
        t = "<%s>" % type(t).__name__
    lines = [y.strip() for y in DECIMAL.sub("#", t).replace("\u00b0", "~").split("\n")]
    return {"t": [y.encode("ascii", "backslashreplace").decode() for y in lines if y], "n": [N(float(y)) for y in DECIMAL.findall(t)]}


def worded(g):
    return {"s": {"code": S(g.code)}, "w": words(g)}


def read_part(obj, table, want):
    out = {}
    if "words" in want:
        for n, (attr, reader, many) in table.items():
            v = getattr(obj, attr)
            out[n] = [worded(x) for x in v] if many else worded(v)
            if many:
                out[n + "list"] = words(v)
        if "station" in table:
            out["station"]["s"] = _station(obj.station)["s"]
        return out
    for n, (attr, reader, many) in table.items():
        full = n in want
        if not full and "codes" not in want:
            continue
        v = getattr(obj, attr)
        if not full:
            reader = code_only
        out[n] = [reader(x) for x in v] if many else reader(v)
        if full and n == "shear":
            out["shearnames"], out["shearall"] = [S(x) for x in v.names if x is not None], S(v.all_runways)
    if "derived" in want:
        out["fr"] = S(obj.flight_rules)
        out["cavok"] = S(obj.should_be_cavok())
        out["ceiling"] = S(obj.clouds.ceiling)
    return out


def periods_of(kind, rep):
    return list(rep.weather_trends) if kind == "METAR" else list(rep.changes_forecasted)


def read_report(kind, rep, want):
    """The observation of a report: the parts `want` names."""
    ps = periods_of(kind, rep)
    o = {}
    whole = [S(g) for g in rep.unparsed_groups]
    b = read_part(rep, BODY[kind], want)
    o["p"] = []
    below = 0
    for p in ps:
        r = read_part(p, PERIOD, want)
        r["unparsed"] = [S(g) for g in p.unparsed_groups]
        below += len(r["unparsed"])
        if "ind" in want:
            r["ind"] = _trendind(p.trend_indicator) if kind == "METAR" else _changeind(p.change_indicator)
        elif "words" in want:
            r["ind"] = worded(p.trend_indicator if kind == "METAR" else p.change_indicator)
            r["w"] = words(p)
        elif "codes" in want:
            r["ind"] = code_only(p.trend_indicator if kind == "METAR" else p.change_indicator)
        r["code"] = S(p.code)
        o["p"].append(r)
    b["unparsed"] = whole[: len(whole) - below] if below else whole
    o["allunparsed"] = whole
    o["b"] = b
    if "words" in want:
        o["w"] = words(rep)
        o["periods"] = words(rep.weather_trends if kind == "METAR" else rep.changes_forecasted)
    if "sections" in want:
        o["sections"] = [S(x) for x in rep.sections]
        o["body"] = S(rep.body)
        if kind == "METAR":
            o["trend"], o["remark"] = S(rep.trend), S(rep.remark)
        else:
            o["changes"] = S(rep.weather_changes)
    o["raw"] = S(rep.raw_code)
    return o


# What each property's clauses read (besides the outcome, unparsed groups and codes of periods).
WANT = {
    "C01": {"codes"}, "C02": {"codes"}, "C03": {"codes"}, "C04": set(), "C06": {"sections"}, "C08": {"codes", "time"},
    "C09": {"codes", "ind"}, "C10": {"codes", "valid"}, "C11": {"codes", "ind"}, "C12": {"codes", "ind"}, "C13": {"tmax", "tmin"},
    "C14": {"wind", "windvar"}, "C15": {"vis", "minvis"}, "C16": {"cloud", "derived"}, "C17": {"weather", "recent"},
    "C18": {"temps", "press", "sea"}, "C19": {"rvr", "shear", "rwystate"}, "C20": {"derived"}, "C21": {"derived"},
    "C28": {"type", "modifier", "nil", "cnl"}, "C29": {"words"},
}


def everything(rep, kind):
    """Read every documented property of a report, its periods and its elements."""
    import snapshot

    def touch(o, depth):
        for n in snapshot.shown(o):
            v = getattr(o, n)
            if depth and snapshot.ours(v):
                touch(v, depth - 1)
        str(o)
        for n in ("as_dict", "to_json", "should_be_cavok"):
            if hasattr(o, n):
                getattr(o, n)()
        if hasattr(type(o), "__iter__"):
            for x in o:
                touch(x, depth - 1)
    touch(rep, 3)


def build(kind, text, y, mo, truncate=False):
    ap = load()
    cls = ap.Metar if kind == "METAR" else ap.Taf
    return cls(text, year=y, month=mo, truncate=truncate)


def outcome_of(e):
    return type(e).__name__ if type(e).__name__ in ("RangeError", "ParserError") else "err:%s: %s" % (type(e).__name__, str(e)[:80])


def observe(case, want, full=False):
    """One case {id, kind, text, y, mo} -> its record."""
    o = dict(case)
    try:
        rep = build(case["kind"], case["text"], case["y"], case["mo"])
    except Exception as e:  # noqa
        o["out"] = outcome_of(e)
        return o
    try:
        if full:
            everything(rep, case["kind"])
        o.update(read_report(case["kind"], rep, want))
        o["out"] = "ok"
    except Exception as e:  # noqa
        o["out"] = "read " + outcome_of(e)
    return o
