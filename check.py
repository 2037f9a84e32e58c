#!/usr/bin/env python3
"""Decide one property of aeromet-py: check.py PROPERTY [quick|thorough]."""

import concurrent.futures
import json
import os
import re
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import clock  # noqa: E402
import runner  # noqa: E402

# property: [(family, size per shard in the quick and in the thorough tier, cap)]
PLANS = {
    "C01": [("small", 2, 3), ("reports", 150, 4000), ("scan", 200, 4000), ("sections", 60, 1500), ("full", 30, 500), ("long", 40, 700)],
    "C02": [("small", 3, 4), ("scan", 300, 5000), ("reports", 100, 3000), ("long", 40, 700)],
    "C03": [("departures", 700, 12000), ("alldepart", 0, 1), ("reports", 40, 1000), ("long", 20, 400)],
    "C04": [("wild", 300, 6000), ("full", 60, 800), ("departures", 200, 4000), ("derived", 150, 2000), ("scan", 100, 2000), ("sections", 60, 1000), ("long", 60, 1200), ("pump", 0, 1)],
    "C06": [("sections", 500, 8000), ("full", 30, 500), ("reports", 60, 1500), ("long", 60, 800)],
    "C08": [("time", 500, 8000), ("timegrid", 0, 1)],
    "C09": [("trendclock", 600, 10000), ("trendgrid", 0, 1)],
    "C10": [("valid", 600, 10000), ("validgrid", 0, 1)],
    "C11": [("change", 400, 8000), ("changegrid", 0, 1)],
    "C12": [("chain", 350, 7000), ("chaingrid", 0, 1)],
    "C13": [("temp", 450, 8000), ("tempgrid", 0, 1), ("values", 0, 0), ("dense", 100, 1500)],
    "C14": [("values", 0, 0), ("departures", 60, 1500), ("reports", 60, 1500), ("dense", 250, 4000)],
    "C15": [("values", 0, 0), ("departures", 60, 1500), ("reports", 60, 1500), ("dense", 250, 4000)],
    "C16": [("values", 0, 0), ("derived", 200, 4000), ("reports", 60, 1500), ("dense", 200, 3000)],
    "C17": [("values", 0, 0), ("departures", 60, 1500), ("reports", 60, 1500), ("dense", 200, 3000)],
    "C18": [("values", 0, 0), ("departures", 60, 1500), ("reports", 60, 1500), ("dense", 400, 8000)],
    "C19": [("values", 0, 0), ("departures", 60, 1500), ("reports", 60, 1500), ("dense", 300, 6000)],
    "C20": [("derived", 400, 6000), ("grid", 7, 1)],
    "C21": [("derived", 400, 6000), ("grid", 7, 1)],
    "C29": [("values", 0, 0), ("reports", 100, 2500), ("full", 30, 400), ("chain", 40, 1000), ("trendclock", 40, 1000), ("temp", 30, 600), ("dense", 30, 600)],
    "C28": [("values", 0, 0), ("headers", 0, 1), ("reports", 200, 4000), ("scan", 100, 2000)],
}
CAPS = {"quick": 120, "thorough": 100000}
QUICK_CAPS = {"C29": 6}
RULE = {
    "small": "every sequence of groups up to the bound over an alphabet with a group of every kind, in each report part",
    "reports": "random reports in reporting order with perturbations", "scan": "random groups in any order and number in each part",
    "sections": "random keyword structures", "full": "more periods and temperatures than fit, and just as many",
    "departures": "groups one or two characters away from well-formed ones", "alldepart": "every one-character departure (deleted, inserted or replaced by every ASCII character) of a group of every form, in parts that show every kind",
    "long": "texts of up to 60 more groups and groups of up to 100 characters", "pump": "groups of every form with a stretch of up to three characters repeated some sixty times", "wild": "printable ASCII text with keywords", "derived": "visibility, weather and clouds around the limits", "grid": "every visibility with every single layer",
    "time": "report times, month and year ends", "trendclock": "trend periods in the two hours after the report", "valid": "TAF validities", "change": "TAF change periods",
    "chain": "chains of TAF changes", "shadow": "pairs of full reports that differ in whole parts or in a remark of every word", "temp": "TAF temperatures", "layout": "reports laid out with blanks, tabs, newlines and end signs", "conversions": "temperatures through the public conversions", "same": "the same groups in four parts", "isolate": "reports that differ in one part",
    "dense": "reports as full as can be of every member of the smaller forms, and random members of the others",
    "trendgrid": "report times at the ends of days, months and years with every moment of their two hours", "validgrid": "validities across the ends of months, and any two days",
    "changegrid": "periods and FM times in validities across the ends of months", "chaingrid": "every sequence of change kinds up to four, and samples up to eight",
    "tempgrid": "every order of up to five temperatures, and every hour up to the third day", "timegrid": "every day of common and leap years", "headers": "every sequence of header words",
    "helpers": "sentences, keywords, counts and sides for the cutting helper, and words for the joining ones, all sequences of up to three among them",
    "quantities": "quantities built from the texts of numbers, every degree and cardinal point among them",
    "values": "every value of every field of the property's groups, in every part",
}


def reading(prop):
    def check(run, thorough):
        plan = []
        for fam, quick, deep in PLANS[prop]:
            plan.append((fam, deep if thorough else quick, QUICK_CAPS.get(prop, CAPS["quick"]) if not thorough else CAPS["thorough"]))
        cases = run.generate(plan)
        lines = run.drive("read", cases)
        if prop == "C08":
            n = len(lines)
            moments = run.generate([("clock", 3000 if thorough else 200, 40)])
            for c in moments:
                c["id"] += n
            lines += run.drive("clock", moments, env=clock.ENV)
        small = any(p[0] == "small" for p in plan)
        run.validate(lines, config="TraceInv.cfg" if small else "Trace.cfg")
        return "; ".join(RULE[p[0]] for p in plan)
    return check


RELATE = {  # property: (mode, plan)
    "C05": ("truncate", [("reports", 120, 3000), ("sections", 120, 2500), ("full", 40, 600), ("departures", 120, 2500), ("wild", 60, 1200), ("chain", 40, 800), ("long", 40, 700)]),
    "C07": ("layout", [("layout", 350, 7000)]),
    "C24": ("dict", [("reports", 70, 1800), ("full", 25, 400), ("chain", 25, 500), ("long", 10, 200), ("trendclock", 30, 600), ("temp", 30, 500), ("values", 0, 0), ("dense", 60, 900)]),
    "C25": ("units", [("dense", 80, 1200), ("conversions", 150, 2000), ("quantities", 0, 0), ("values", 0, 0), ("reports", 60, 1500)]),
    "C30": ("helper", [("helpers", 900, 12000)]),
    "C26": ("pair", [("same", 160, 3500), ("isolate", 700, 9000), ("shadow", 150, 3000)]),
}


def relating(prop):
    mode, plans = RELATE[prop]

    def check(run, thorough):
        caps = {"C24": (6, 400), "C25": (30, 1000)}.get(prop, (120, 100000))
        cases = run.generate([(f, deep if thorough else quick, caps[1] if thorough else caps[0]) for f, quick, deep in plans])
        run.validate(run.drive(mode, cases), module="Relate", config="Relate.cfg")
        return "; ".join(RULE[p[0]] for p in plans)
    return check


def tables():
    """The rows of the station and country tables of the working tree, as literals; as the tables give them if they are built."""
    import ast

    def rows(path):
        with open(os.path.join("/repo/aeromet_py/database", path)) as f:
            tree = ast.parse(f.read())
        for x in tree.body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, (ast.List, ast.Tuple, ast.Dict)):
                try:
                    t = ast.literal_eval(x.value)
                except ValueError:
                    continue
                if len(t) > 50:
                    return t
        return None

    def built(what):
        code = "import sys, json; sys.path.insert(0, '/repo'); from aeromet_py.database import *; A = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'; print(json.dumps(%s))" % what
        r = subprocess.run([runner.VENV, "-B", "-c", code], stdout=subprocess.PIPE, text=True, timeout=120)
        if r.returncode:
            raise runner.CheckError("no table of stations")
        return json.loads(r.stdout)

    def table(path, what):
        try:
            t = rows(path)
        except (OSError, SyntaxError):
            t = None
        return built(what) if t is None else t
    return (table("stations.py", "[list(r) for r in get_stations()]"),
            table("countries.py", "{x + y: get_country(x + y) for x in A for y in A if get_country(x + y)}"))


def stations(run, thorough):
    rows, countries = tables()
    db, others = {}, {"IATA": {}, "SYNOP": {}}
    for r in rows:
        name, icao, iata, synop, lat, lon, elev, country = r
        entry = {"name": name, "icao": icao, "iata": iata, "synop": synop, "lat": lat, "lon": lon, "elev": elev, "country": country}
        db.setdefault(icao, []).append(entry)
        for by, code in (("IATA", iata), ("SYNOP", synop)):
            if code and code != "None":
                others[by].setdefault(code, []).append(entry)
    dbf, cf, lf = run.path("db.json"), run.path("codes.json"), run.path("lookups.json")
    with open(dbf, "w") as f:
        json.dump(dict(others, ICAO=db, countries=countries), f)
    with open(lf, "w") as f:
        json.dump([[by, c] for by in sorted(others) for c in sorted(others[by])], f)
    # the codes of all stations, and what else of them could be taken for one
    codes = sorted(c for c in db if len(c) == 4 and c != "None")
    near = {str(r[i]).upper()[k:][:4] for r in rows for i in range(len(r)) for k in (0, -4)}
    codes += sorted(c for c in near if re.fullmatch("[A-Z][A-Z0-9]{3}", c) and c not in db)
    with open(cf, "w") as f:
        json.dump(codes, f)
    n = len(codes) + 4000 if not thorough else len(codes) * 5
    m = sum(len(x) for x in others.values())
    cases = run.generate([("stations", n), ("lookups", m + 2000 if not thorough else m * 5)], env={"CODES": cf, "LOOKUPS": lf})
    run.validate(run.drive("station", cases, env={"VERIF_DB": dbf}), module="Relate", config="Relate.cfg")
    return "every station of the database, all else in it that could be taken for a code, codes one character away from one and random codes; every IATA and SYNOP code and ones near to them"


def lists(run, thorough):
    run.model("MCLists", "MCLists.cfg")
    cases = run.generate([("lists", 4 if thorough else 3, 40), ("listwalk", 4000 if thorough else 250, 40)])
    run.validate(run.drive("lists", cases), module="ListTrace", config="ListTrace.cfg")
    return "every script of list operations up to the bound and random longer ones, on a list of every kind, from empty to full"


def histories(run, thorough):
    cases = run.generate([("history", 1500 if thorough else 60, 40), ("marathon", 12 if thorough else 1, 40)])
    cases = [c for k in range(runner.SHARDS) for c in cases[k::runner.SHARDS]]  # the long ones spread over the workers
    lines = run.drive("history", cases)
    threads = run.generate([("threads", 700 if thorough else 25, 40)])
    for c in threads:
        c["id"] += len(cases)
    lines += run.drive("threads", threads)
    run.validate(lines, module="HistoryTrace", config="HistoryTrace.cfg")
    return "random histories of up to three reports that are parsed, asked and iterated, and of up to 140 reports in one process; threads that read reports by turns"


MODELS = {"C08": "MCClock", "C09": "MCClock", "C10": "MCClock", "C11": "MCClock", "C13": "MCClock", "C12": "MCChain", "C16": "MCRules", "C20": "MCRules", "C21": "MCRules", "C30": "MCHelpers"}


def modelled(prop, check):
    """The check, while the specification's own model of it is explored."""
    def both(run, thorough):
        with concurrent.futures.ThreadPoolExecutor(1) as pool:
            model = pool.submit(run.model, MODELS[prop], MODELS[prop] + ".cfg", {"TIER": "thorough" if thorough else "quick"})
            rule = check(run, thorough)
            model.result()
        return rule
    return both


CHECKS = {p: reading(p) for p in PLANS}
CHECKS.update({p: relating(p) for p in RELATE})
CHECKS.update({p: modelled(p, CHECKS[p]) for p in MODELS})
CHECKS.update({"C22": lists, "C23": histories, "C27": stations})
CHECKS = dict(sorted(CHECKS.items()))

if __name__ == "__main__":
    sys.exit(runner.main(CHECKS))
