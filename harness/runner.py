"""Shared machinery: TLC in shards, the driver, verdicts, evidence, findings."""

import concurrent.futures
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
VENV = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8


class CheckError(Exception):
    """The check itself could not be carried out."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.distinct = self.traces = self.cases = 0
        self.bad = []  # (record, clauses)
        self.samples = []
        self.notes = {}
        self.n = itertools.count(1)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.tmp, "%03d-%s" % (next(self.n), name))

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, config, env, extra=(), heap="3g", limit=780):
        meta = self.path("meta")
        cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss16m", "-Dfile.encoding=UTF-8", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.tmp, "-cp", JARS, "tlc2.TLC",
               "-workers", "1", "-fp", "0", "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", os.path.join(SPEC, config), os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="utf-8", errors="replace", timeout=limit)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout) or re.search(r"states generated: (\d+)()", r.stdout)
        st = (int(m.group(1)), int(m.group(2) or m.group(1))) if m else (0, 0)
        ok = not re.search(r"^Error:", r.stdout, re.M) and ("No error has been found" in r.stdout or "-simulate" in extra)
        return ok, r.stdout, st

    def generate(self, plan, shards=SHARDS, env=None):
        """The cases of a plan [(family, size, cap)], written by TLC from Gen."""
        pf = self.path("plan.ndjson")
        with open(pf, "w") as f:
            for p in plan:
                f.write(json.dumps({"f": p[0], "size": p[1], "cap": p[2] if len(p) > 2 else 40, "pr": p[3] if len(p) > 3 else self.prop}) + "\n")

        def one(k):
            out = self.path("gen%d." % k)
            ok, log, st = self.tlc("Gen", "Gen.cfg", dict(env or {}, PLAN=pf, OUT=out, SHARD=k, SHARDS=shards), ["-seed", str(self.seed * 1009 + k * 7919 + 1)])
            if not ok:
                raise CheckError("generation failed: " + log[-2000:])
            cases = []
            for i in range(len(plan)):
                with open(out + str(i + 1), encoding="utf-8") as f:
                    cases.append([json.loads(x) for x in f])
            return cases, st

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        out, seen = [], set()
        for fam in range(len(plan)):
            for cases, _ in res:
                for c in cases[fam]:
                    key = json.dumps(c, sort_keys=True)
                    if key not in seen:
                        seen.add(key)
                        c["id"] = len(out) + 1
                        out.append(c)
        for _, st in res:
            self.states += st[0]
            self.distinct += st[1]
        return out

    # -- real code -----------------------------------------------------------
    def drive(self, mode, cases, env=None, arg=None):
        src, dst = self.path("in.ndjson"), self.path("out.ndjson")
        with open(src, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        e = dict(os.environ, VERIF_TMP=self.tmp, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
        e.pop("PYTHONPATH", None)
        e.update(env or {})
        r = subprocess.run([VENV, os.path.join(VERIF, "harness", "drive.py"), mode, arg or self.prop, src, dst, str(SHARDS)], env=e, cwd=self.tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="utf-8", errors="replace", timeout=800)
        if r.returncode != 0:
            raise CheckError("driver failed: " + r.stdout[-2000:])
        with open(dst, encoding="utf-8") as f:
            return f.read().split("\n")[:-1]

    # -- trace validation ------------------------------------------------------
    def validate(self, lines, module="Trace", config="Trace.cfg", prop=None, shards=SHARDS, env=None):
        """TLC's verdict on every record; the broken ones go to self.bad."""
        recs = {}
        for x in lines:
            d = json.loads(x)
            recs[d["id"]] = x
        assert len(recs) == len(lines), "ids are not unique"

        def one(chunk, depth=0):
            if not chunk:
                return {}, 0, 0
            f = self.path("trace.ndjson")
            with open(f, "w", encoding="utf-8") as h:
                h.write("".join(x + "\n" for x in chunk))
            ok, log, st = self.tlc(module, config, dict(env or {}, TRACE=f, PROP=prop or self.prop))
            verdicts = {}
            for m in re.finditer(r'^"V\|(\d+)\|(.*)"$', log, re.M):
                verdicts[int(m.group(1))] = m.group(2)
            os.unlink(f)
            if "is violated" in log:
                raise CheckError("the specification breaks its own invariant:\n" + log[-3000:])
            missing = [x for x in chunk if json.loads(x)["id"] not in verdicts]
            if missing:
                if len(chunk) == 1 and "evaluating the nested" in log:
                    # a record the specification cannot read: the code shows what no report may show
                    return {json.loads(chunk[0])["id"]: "the record does not fit the specification"}, 0, 0
                if len(chunk) == 1 or depth > 14:
                    raise CheckError("no verdict on %s\n%s" % (chunk[0][:500], log[-2500:]))
                h = (len(missing) + 1) // 2
                for half in (missing[:h], missing[h:]):
                    v, a, b = one(half, depth + 1)
                    verdicts.update(v)
            elif not ok:
                raise CheckError("TLC fails:\n" + log[-3000:])
            return verdicts, st[0], st[1]

        # no chunk so long that TLC's queue of states goes to the disk, where text beyond ASCII is spoiled
        k = max(1, min(shards, (len(lines) + 49) // 50), -(-len(lines) // 4000))
        chunks = [lines[i::k] for i in range(k)]
        with concurrent.futures.ThreadPoolExecutor(min(k, shards)) as ex:
            for v, a, b in ex.map(one, chunks):
                self.states += a
                self.distinct += b
                self.traces += len(v)
                for i, fails in v.items():
                    if fails:
                        self.bad.append((json.loads(recs[i]), fails))
        for x in lines[:: max(1, len(lines) // 4)][:4]:
            d = json.loads(x)
            self.samples.append({n: d[n] for n in d if n in ("kind", "text", "y", "mo", "out", "script", "canon", "group", "code")} or {"record": x[:300]})
        self.bad.sort(key=lambda r: r[0]["id"])

    def model(self, module, config, env=None, extra=()):
        """Model check a specification on its own: all its states."""
        ok, log, st = self.tlc(module, config, env or {}, extra)
        if not ok:
            raise CheckError("model %s fails:\n%s" % (module, log[-3000:]))
        self.states += st[0]
        self.distinct += st[1]
        self.notes.setdefault("models", []).append({"module": module, "states": st[0], "distinct": st[1]})
        return log

    # -- the end -----------------------------------------------------------------
    def findings(self):
        out = []
        with open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) text=(\".*?[^\\]\") (.*)", line)
                if m and m.group(1) == self.prop:
                    out.append((json.loads(m.group(2)), m.group(3)))
        return out

    def finish(self, rule):
        known = self.findings()
        new = []
        hit = {}
        for rec, fails in self.bad:
            for text, what in known:
                if rec.get("text") == text:
                    hit[text] = what
                    break
            else:
                new.append((rec, fails))
        for text, what in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        cov = {"states": self.distinct, "transitions": self.states, "traces_validated_against_impl": self.traces, "samples": self.samples[:12], "rule": rule}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC 1.8.0 and the Python driver report faithfully", "inputs beyond the listed families are not explored"],
              "wall_s": round(time.time() - self.start, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            os.makedirs(OUT, exist_ok=True)
            rp = os.path.join(OUT, "%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump([{"record": r, "fails": c} for r, c in new[:50]], f, indent=1)
            for r, c in new[:5]:
                print("  %s  <-  %s" % (c[:300], json.dumps({k: r[k] for k in ("kind", "text", "y", "mo", "out", "script", "canon", "group") if k in r})[:600]))
            print("%d of %d traces break %s" % (len(new), self.traces, self.prop))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("ok: property=%s traces=%d states=%d %.1fs" % (self.prop, self.traces, self.distinct, time.time() - self.start))
        return 0


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py PROPERTY [quick|thorough]\nproperties: " + " ".join(checks))
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(prop, tier, seed)
    try:
        rule = checks[prop](run, tier == "thorough")
        return run.finish(rule)
    except (CheckError, subprocess.TimeoutExpired, AssertionError) as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2
    finally:
        run.close()
