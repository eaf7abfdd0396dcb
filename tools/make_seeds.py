#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions in tools/seedsrc/*.py:
each defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo, files={})]."""
import json, re, runpy, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
WT = Path("/tmp/w/seedwt")
BASE = "807ee14"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, check=True, capture_output=True, text=True, **kw).stdout


only = set(sys.argv[1:])
if WT.exists():
    shutil.rmtree("/tmp/w/seedwt")
sh(f"git clone -q --no-hardlinks /repo {WT}")
for f in sorted((V / "tools" / "seedsrc").glob("*.py")):
    for s in runpy.run_path(str(f))["SEEDS"]:
        if only and s["id"] not in only:
            continue
        sh("git checkout -q -- .", cwd=WT)
        for name, old, new in s["edits"]:
            p = WT / name
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], name, t.count(old), old)
            p.write_text(t.replace(old, new))
            blame = sh(f"git diff -U0 -- {name}", cwd=WT)
            orig = sh(f"git show {BASE}:{name}", cwd=WT).splitlines()
            gone = [l[1:] for l in blame.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not any(l in orig and l.strip() for l in gone):
                print("WARNING", s["id"], "changes no original line of", name)
        d = V / "seeded" / s["id"]
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(sh("git diff", cwd=WT))
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        py = s.get("python", "python3")
        (d / "demo.sh").write_text(f'#!/bin/bash\nexec {py} "$(dirname "$0")/demo.py"\n')
        (d / "demo.py").write_text("from kit import *\n" + s["demo"].lstrip("\n"))
        for k in ("kit.py", "json-schema.hpp"):
            shutil.copy(V / "tools" / "seedkit" / k, d)
        for k, v in s.get("files", {}).items():
            (d / k).write_text(v.lstrip("\n"))
        for k in s.get("copy", []):
            shutil.copy(V / k, d)
        print(s["id"])
shutil.rmtree("/tmp/w/seedwt")
