#!/usr/bin/env python3
"""replay.py REPLAY.json: runs the failing case of a replay file against the real code again."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
d = json.load(open(sys.argv[1]))
f = d.get("failing_input")
if not f:
    print("no failing input was found; undischarged obligations:")
    for o in d["failed_obligations"]:
        print(" ", o["Fn"], o["Kind"], o["Name"], o.get("Pos", ""))
    sys.exit(1)
tmp = tempfile.mkdtemp()
try:
    mod = open(HERE + "/harness/go.mod").read().replace("=> /repo", "=> " + os.path.realpath(REPO))
    open(tmp + "/go.mod", "w").write(mod)
    shutil.copy(HERE + "/harness/go.sum", tmp + "/go.sum")
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="")
    subprocess.run(["go", "build", "-mod=mod", "-modfile=" + tmp + "/go.mod", "-o", tmp + "/h", "."], cwd=HERE + "/harness", env=env, check=True)
    p = subprocess.run([tmp + "/h", "-prop", f["property"], "-case", str(f.get("case", 0)), "-n", "1"], env=dict(env, VERIF_SEED=str(f.get("seed", 1)), VERIF_DICT=d.get("dictionary", "")))
    sys.exit(p.returncode)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
