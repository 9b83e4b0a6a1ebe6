#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree:
 1. builds the contract verifier (govc/) and discharges every obligation of the
    contracts tagged with the property, generated from the current source;
 2. runs the concrete harness (harness/): the bounded, labelled check of what is
    outside the contracts, and the search for a failing input when an obligation
    fails.
Exit 0: every obligation discharged and no failing input. Exit 1 with a
VIOLATION line otherwise. Evidence: evidence/<property>.json.
"""
import json, os, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="")
CORES = 8

ASSUMPTIONS = [
    "machine floats are treated as real numbers (no rounding, NaN or infinity) and ints as mathematical integers; conversions to uint8 are modulo 256",
    "a nil slice and an empty slice are the same value; pointer parameters of a contract do not alias",
    "Go standard library and third-party functions obey the models in govc/externs.go (listed in trusted_base when used)",
    "the translation from Go SSA to verification conditions (govc, built on golang.org/x/tools/go/ssa) and the solvers are correct",
]


def numbers():
    """the numbers in the source under test, for the generator"""
    import re
    out = set()
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "testdata", "example")]
        for f in fs:
            if f.endswith(".go") and not f.endswith("_test.go"):
                for t in re.findall(r"(?<![\w.])\d+(?:\.\d+)?", open(os.path.join(d, f), errors="replace").read()):
                    v = float(t)
                    if v <= 1000:
                        out.add(v)
    return " ".join("%g" % v for v in sorted(out))


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=ENV, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode("utf8", "replace")
        return 124, out


def build(tmp):
    def engine():
        return run(["go", "build", "-mod=vendor", "-o", tmp + "/govc", "."], 300, cwd=HERE + "/govc")

    def harness():
        mod = open(HERE + "/harness/go.mod").read().replace("=> /repo", "=> " + os.path.realpath(REPO))
        open(tmp + "/go.mod", "w").write(mod)
        shutil.copy(HERE + "/harness/go.sum", tmp + "/go.sum")
        return run(["go", "build", "-mod=mod", "-modfile=" + tmp + "/go.mod", "-o", tmp + "/harness", "."], 300, cwd=HERE + "/harness")

    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(engine), ex.submit(harness)
        for what, (rc, out) in (("verifier", a.result()), ("harness", b.result())):
            if rc:
                print("ERROR: building the %s failed\n%s" % (what, out[-4000:]))
                sys.exit(2)


def verify(tmp, known):
    """known: a failing input was found, so the failed obligations are wanted but need no long search"""
    thorough = TIER == "thorough"
    cmd = [tmp + "/govc", "-repo", REPO, "-contracts", HERE + "/contracts", "-prop", PROP, "-out", tmp + "/govc.json",
           "-timeout", "60s" if thorough else "12s", "-limit", "400s" if thorough else "150s", "-budget", "120s" if known else "2400s" if thorough else "450s"]
    rc, out = run(cmd, 3000 if thorough else 560)
    try:
        rep = json.load(open(tmp + "/govc.json"))
    except Exception:
        rep = {"Error": "the verifier gave no report (exit %d): %s" % (rc, out[-2000:]), "Obligations": 0, "Discharged": 0, "Failed": [], "Functions": []}
    rep["cmd"] = "govc -repo %s -contracts contracts -prop %s" % (REPO, PROP)
    rep["text"] = out
    return rep


def explore(tmp, n, budget, base, procs=CORES):
    """the harness, in parallel with different seeds; returns the reports and the first failure"""
    def one(k):
        out = "%s/h%d_%d.json" % (tmp, base, k)
        env = dict(ENV, VERIF_SEED=str((SEED + base) * 100 + k), VERIF_DICT=DICT)
        try:
            p = subprocess.run([tmp + "/harness", "-prop", PROP, "-n", str(n), "-budget", "%ds" % budget, "-out", out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 60, env=env)
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, txt = 124, "no end"
        try:
            return rc, json.load(open(out)), txt
        except Exception:
            return rc, None, txt

    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, range(procs)))
    cases, calls, fail = 0, {}, None
    for rc, rep, txt in res:
        if rep is None:
            # the process died: a stack overflow or an endless run in the code under test
            if fail is None:
                fail = {"property": PROP, "call": "harness process", "input": "", "detail": "the process ended with %s:\n%s" % (rc, txt[:3000])}
            continue
        cases += rep["cases"]
        for k, v in rep["calls"].items():
            calls[k] = calls.get(k, 0) + v
        if "failure" in rep and (fail is None or len(rep["failure"]["input"]) < len(fail["input"]) or not fail["input"]):
            fail = rep["failure"]
    return cases, calls, fail, res


def main():
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % PROP)
    try:
        return body(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def body(tmp):
    build(tmp)
    global DICT
    DICT = numbers()
    cfg = json.load(open(HERE + "/harness/cases.json"))
    n = cfg["cases"].get(PROP, cfg["default"])
    budget = 25
    if TIER == "thorough":
        n, budget = n * 40, 600
    cases, calls, fail, res = explore(tmp, n, budget, 0)
    rep = verify(tmp, fail)
    rank = {"sat": 0, "unknown": 1, "timeout": 2}
    failed = sorted(rep.get("Failed") or [], key=lambda o: rank.get(o.get("Status"), 3))
    proof_ok = not failed and not rep.get("Error") and rep["Obligations"] == rep["Discharged"]
    if not proof_ok and not fail:
        # look longer for an input that shows the failed obligation
        cases2, calls2, fail, res = explore(tmp, n * 20, 150, 50)
        cases += cases2
        for k, v in calls2.items():
            calls[k] = calls.get(k, 0) + v
    sample = []
    for rc, r, txt in res:
        if r and r.get("samples"):
            sample += r["samples"]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": rep["Obligations"],
            "discharged": rep["Discharged"],
            "checker_cmd": rep["cmd"] + " (z3 4.8.12, z3-new, cvc5 as back ends)",
            "trusted_base": sorted(set((rep.get("Trust") or []) + ["govc (this repository): SSA to verification conditions", "z3 / cvc5", "golang.org/x/tools/go/ssa"])),
            "functions_under_contract": [{"function": f["Name"], "obligations": f["Obligations"], "discharged": f["Discharged"], "paths": f["Paths"], "inlined": f.get("Inlined") or [], "callees_by_contract": f.get("ByContract") or []} for f in (rep.get("Functions") or [])],
            "obligations_by_kind": rep.get("ByKind") or {},
            "obligations_by_back_end": rep.get("BySolver") or {},
            "solver_seconds": round(rep.get("SolverTime", 0), 3),
            "specification_functions": rep.get("Specs") or [],
            "sample_obligations": [{k: o.get(k) for k in ("Fn", "Kind", "Name", "Status", "Solver")} for o in (rep.get("Sample") or [])[:8]],
            "undischarged": [{k: o.get(k) for k in ("Fn", "Kind", "Name", "Pos", "Status")} for o in failed],
            "bounded_stand_in": {
                "label": "bounded: generated cases, never counted as proved",
                "bound": "%d generated cases from seed %d" % (cases, SEED),
                "evaluations": cases, "calls": calls, "samples": sample[:3],
            },
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": 0, "violations": 0,
    }
    if rep.get("Error"):
        ev["coverage"]["verifier_error"] = rep["Error"]
    viol = None
    if fail or not proof_ok:
        os.makedirs(HERE + "/evidence/replay", exist_ok=True)
        path = HERE + "/evidence/replay/%s.json" % PROP
        data = {"property": PROP, "failed_obligations": failed[:20], "verifier_error": rep.get("Error")}
        if fail:
            data["failing_input"] = fail
            data["dictionary"] = DICT
            data["replay"] = "cd /verif && python3 replay.py %s" % path
        else:
            data["verifier_output"] = rep["text"][-6000:]
        json.dump(data, open(path, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s" % (PROP, path)
        for o in failed[:10]:
            print("undischarged: %s [%s] %s %s (%s)" % (o.get("Fn"), o.get("Kind"), o.get("Name"), o.get("Pos") or "", o.get("Status")))
        if rep.get("Error"):
            print("verifier: " + rep["Error"][:500])
        if fail:
            print("failing input for %s:\n%s\n%s" % (fail["call"], fail["input"][:1500], fail["detail"][:800]))
        else:
            viol += " no-failing-input-found"
        ev["violations"] = 1
    ev["wall_s"] = round(time.time() - T0, 2)
    json.dump(ev, open(HERE + "/evidence/%s.json" % PROP, "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d functions, %d concrete cases, %.1fs" % (PROP, rep["Discharged"], rep["Obligations"], len(rep.get("Functions") or []), cases, time.time() - T0))
    if viol:
        print(viol)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
