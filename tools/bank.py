#!/usr/bin/env python3
"""Try a bank of small planted bugs (tools/bank/*.py: BUGS = [(name, checks, [(file, old, new)...])]) on a
scratch clone of /repo: does each compile, pass the stable tests, and do the named checks catch it?
bank.py RESULTS.jsonl [name substrings...]"""
import json, os, runpy, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
W = Path(os.environ.get("BANK_DIR", "/tmp/w/bank"))
R = W / "repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    r = sh(f"bash {W}/build.sh")
    if r.returncode:
        return "build fails: " + (r.stdout + r.stderr)[-800:]
    sh(f"python3 /opt/vp/run_gtests.py {R}/_build > {W}/lines.txt; python3 /opt/vp/results.py {W}/o.json lines:{W}/lines.txt")
    b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(W / "o.json"))
    m = [t for t in b["stable"] if t not in o["passed"]]
    return f"tests fail: {m}" if m else ""


W.mkdir(parents=True, exist_ok=True)
if not R.exists():
    sh(f"git clone -q /repo {R}")
sh("git fetch -q; git reset -q --hard origin/HEAD", cwd=R)
(W / "build.sh").write_text(Path("/opt/vp/build.sh").read_text().replace("/repo", str(R)))
env = dict(os.environ, VERIF_REPO=str(R), VERIF_BUILD=str(W / "b"))
out = Path(sys.argv[1])
done = {json.loads(l)["name"] for l in out.open()} if out.exists() else set()
for f in sorted((V / "tools/bank").glob("*.py")):
    for name, checks, edits in runpy.run_path(str(f))["BUGS"]:
        if (sys.argv[2:] and not any(x in name for x in sys.argv[2:])) or (name in done and not sys.argv[2:]):
            continue
        sh("git checkout -q -- .", cwd=R)
        rep = {"name": name}
        bad = False
        for fn, old, new in edits:
            p = R / fn
            t = p.read_text()
            if t.count(old) != 1:
                rep["error"] = f"{fn}: {t.count(old)} matches of {old[:60]}"
                bad = True
                break
            p.write_text(t.replace(old, new))
        if not bad:
            rep["error"] = tests()
        if not rep["error"]:
            for c in checks.split():
                t = time.time()
                r = sh(f"python3-vt -W ignore check.py {c} quick", cwd=V, env=env)
                rep[c] = {1: "caught", 0: "MISSED"}.get(r.returncode, f"rc {r.returncode}")
                rep[c + "_says"] = f"{time.time() - t:.0f} s " + " | ".join(l[:200] for l in (r.stdout + r.stderr).strip().splitlines()[-3:])
        sh("git checkout -q -- .", cwd=R)
        with out.open("a") as g:
            g.write(json.dumps(rep) + "\n")
        print(name, rep.get("error") or " ".join(f"{c}:{rep[c]}" for c in checks.split()), flush=True)
        if any(rep.get(c) != "caught" for c in checks.split()):
            print("   ", {k: v for k, v in rep.items() if k.endswith("_says")}, flush=True)
