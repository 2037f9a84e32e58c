#!/usr/bin/env python3
"""Sees that the tools the checks need are there and that the specification parses."""
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
with tempfile.TemporaryDirectory(prefix="verif-setup-") as tmp:
    for m in sorted(x for x in os.listdir(os.path.join(V, "spec")) if x.endswith(".cfg")):
        name = m[:-4]
        if not os.path.exists(os.path.join(V, "spec", name + ".tla")):
            continue
        r = subprocess.run(["java", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tla2sany.SANY", name + ".tla"], cwd=os.path.join(V, "spec"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or "rror" in r.stdout.replace("Errors: 0", ""):
            print(r.stdout[-2000:])
            sys.exit("setup: %s does not parse" % name)
        print("parsed", name)
subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.dont_write_bytecode=True; sys.path.insert(0, '/repo'); import aeromet_py"], check=True)
print("setup ok")
