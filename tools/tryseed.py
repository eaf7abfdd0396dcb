#!/usr/bin/env python3
"""Try planted changes on a scratch clone of /repo: tryseed.py [--checks=C01,C02 | --no-check] [--skip-clean] ID..."""
import json, os, shutil, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
W = Path("/tmp/w/ts")
R = W / "repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    r = sh(f"bash {W}/build.sh")
    if r.returncode:
        return "build fails: " + (r.stdout + r.stderr)[-1500:]
    sh(f"python3 /opt/vp/run_gtests.py {R}/_build > {W}/lines.txt; python3 /opt/vp/results.py {W}/o.json lines:{W}/lines.txt")
    b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(W / "o.json"))
    m = [t for t in b["stable"] if t not in o["passed"]]
    return f"tests fail: {m}" if m else ""


W.mkdir(parents=True, exist_ok=True)
if not R.exists():
    sh(f"git clone -q /repo {R}")
sh("git fetch -q; git reset -q --hard origin/HEAD", cwd=R)
assert sh("git rev-parse HEAD", cwd=R).stdout == sh("git rev-parse HEAD", cwd="/repo").stdout
(W / "build.sh").write_text(Path("/opt/vp/build.sh").read_text().replace("/repo", str(R)))
env = dict(os.environ, VERIF_REPO=str(R), VERIF_BUILD=str(W / "b"))
for i in sys.argv[1:]:
    if i.startswith("--"):
        continue
    d = V / "seeded" / i
    meta = json.load(open(d / "meta.json"))
    rep = {}
    if "--skip-clean" not in sys.argv:
        r = sh(f"bash {d}/demo.sh", cwd=R)
        rep["demo clean"] = r.returncode
        if r.returncode:
            print(i, "demo fails on the clean tree:", (r.stdout + r.stderr)[-1500:])
    a = sh(f"git apply {d}/patch.diff", cwd=R)
    if a.returncode:
        print(i, "does not apply", a.stderr)
        continue
    try:
        rep["tests"] = tests() or "ok"
        r = sh(f"bash {d}/demo.sh", cwd=R)
        rep["demo patched"] = r.returncode
        rep["demo says"] = (r.stdout + r.stderr).strip()[-200:]
        for p in next((x[9:].split(",") for x in sys.argv if x.startswith("--checks=")), [meta["property"]]):
            if "--no-check" in sys.argv:
                continue
            t = time.time()
            r = sh(f"python3-vt -W ignore check.py {p} quick", cwd=V, env=env)
            rep[p] = f"{'caught' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED'} rc {r.returncode} in {time.time() - t:.0f} s: " + " | ".join(l[:160] for l in (r.stdout + r.stderr).strip().splitlines()[-2:])
    finally:
        sh("git checkout -q -- .", cwd=R)
    good = rep.get("demo clean", 0) == 0 and rep["tests"] == "ok" and rep["demo patched"] != 0
    print(i, "COUNTS" if good else "DOES NOT COUNT", json.dumps(rep, indent=1), flush=True)
