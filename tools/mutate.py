#!/usr/bin/env python3
"""Mutation campaign on a scratch copy: mutate.py OUT.jsonl SEED COUNT [path substring ...]
Plants small random changes (one at a time) in src, drops those which do not compile or which the
stable tests notice, and runs the checks that are anchored in the file until one fires."""
import json, os, random, re, shutil, subprocess, sys, time
from pathlib import Path

W = Path(os.environ.get("MUT_DIR", "/tmp/w/mutate"))
R, B, V = W / "repo", W / "build", W / "verif"

MAP = [
    ("Newtonsolver", ["C01", "C28"]), ("Timeevolver", ["C01", "C28", "C02"]), ("Model/Balancelaw", ["C08", "C07", "C03"]),
    ("Model/Scheme", ["C03", "C07"]), ("Gas/Gasnode", ["C04", "C03", "C29"]), ("Gas/Pipe", ["C07", "C03", "C02", "C29"]),
    ("Gas/Gasedge", ["C27", "C29", "C06", "C04"]), ("Gas/Compressorstation", ["C24", "C19", "C03", "C18"]), ("Gas/Controlvalve", ["C24", "C19", "C03", "C18"]),
    ("Gas/Shortpipe", ["C24", "C03"]), ("Gas/Shortcomponent", ["C24", "C02", "C03"]), ("Gas/ConstraintSink", ["C25", "C04", "C19", "C27"]),
    ("Gas/", ["C04", "C03", "C29"]), ("Gaspowerconnection/", ["C06", "C03", "C19"]),
    ("StochasticPQ", ["C12", "C05"]), ("Power/", ["C05", "C03", "C02"]), ("Stochastics", ["C12"]),
    ("Componentclasses", ["C27", "C02", "C19", "C25"]), ("Networkproblem/Networkproblem", ["C27", "C03", "C19", "C15", "C28"]),
    ("Networkproblem/include", ["C27", "C19"]),
    ("Model/Network/", ["C13", "C29", "C15", "C04"]), ("Netfactory", ["C15", "C13", "C14"]), ("Componentfactory", ["C14", "C18", "C13"]),
    ("InterpolatingVector", ["C09", "C10", "C20"]), ("Timedata", ["C10"]), ("unit_conversion", ["C11", "C13"]), ("Matrixhandler", ["C22"]),
    ("Mathfunctions", ["C08", "C03", "C07"]), ("json_schema/schema_key", ["C17"]), ("json_schema/schema_gen", ["C18"]),
    ("json_schema/", ["C18", "C13", "C14"]), ("aux_json", ["C17", "C13"]), ("ComponentJson", ["C15", "C13", "C14"]), ("Input_Output", ["C16"]),
    ("Grazer/helpers", ["C10", "C13", "C24"]), ("Grazer/commands", ["C16", "C25", "C10", "C02", "C13"]), ("Grazer/", ["C13", "C16"]),
    ("ConstraintJacobian", ["C21"]), ("ImplicitOptimizer", ["C19", "C21", "C20", "C25"]), ("ControlStateCache", ["C20", "C19"]),
    ("IpoptWrapper", ["C25", "C20"]), ("Optimization_helpers", ["C25", "C19", "C20"]), ("helper_functions", ["C26"]), ("Misc", ["C16", "C26", "C13"]),
]

OPS = [
    (r"(?<=[\w\)\]] )\+(?= [\w\(])", ["-"]), (r"(?<=[\w\)\]] )-(?= [\w\(])", ["+"]), (r"(?<=[\w\)\]] )\*(?= [\w\(])", ["/"]), (r"(?<=[\w\)\]] )/(?= [\w\(])", ["*"]),
    (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]), (r"(?<= )<=(?= )", ["<"]), (r"(?<= )>=(?= )", [">"]),
    (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]), (r"(?<= )\+=(?= )", ["-=", "="]), (r"(?<= )-=(?= )", ["+=", "="]),
    (r" \+ 1\b(?!\.)", ["", " + 2"]), (r" - 1\b(?!\.)", ["", " - 2"]), (r"(?<![\w.\"])0(?![\w.\"])", ["1"]), (r"(?<![\w.\"])1(?![\w.\"])", ["0", "2"]),
    (r"(?<![\w.])0\.5(?![\w])", ["0.25"]), (r"(?<![\w.])1\.0(?![\w])", ["2.0", "0.0"]), (r"(?<![\w.])2\.0(?![\w])", ["1.0"]), (r"(?<![\w.])0\.0(?![\w])", ["1.0"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bnot ", [""]), (r"&&", ["||"]),
    (r"\.front\(\)", [".back()"]), (r"\.back\(\)", [".front()"]), (r"\bbegin\(\)", ["end()"]),
    (r"\bstart", ["end"]), (r"\bend_", ["start_"]), (r"\blast_", ["new_"]), (r"\bnew_", ["last_"]), (r"\bcos\b", ["sin"]), (r"\bsin\b", ["cos"]),
    (r"\blower", ["upper"]), (r"\bupper", ["lower"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"\bfrom\b", ["to"]), (r"_P\b", ["_Q"]), (r"_Q\b", ["_P"]),
    (r"\bcols\(\)", ["rows()"]), (r"\brows\(\)", ["cols()"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def prepare():
    W.mkdir(parents=True, exist_ok=True)
    for d in (R, V):
        shutil.rmtree(d, ignore_errors=True)
    sh(f"git clone -q /repo {R}; rm -rf {R}/_build; mkdir -p {V}; cd /verif; git archive HEAD | tar x -C {V}")
    (W / "build.sh").write_text(Path("/opt/vp/build.sh").read_text().replace("/repo", str(R)))
    r = sh(f"bash {W}/build.sh")
    assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]


def tests():
    r = sh(f"bash {W}/build.sh")
    if r.returncode:
        return "compile"
    r = sh(f"python3 /opt/vp/run_gtests.py {R}/_build > {W}/lines.txt; python3 /opt/vp/results.py {W}/o.json lines:{W}/lines.txt", timeout=300)
    b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(W / "o.json"))
    return "tests" if any(t not in o["passed"] for t in b["stable"]) else ""


def candidates(paths):
    out = []
    for f in sorted(list((R / "src").rglob("*.cpp")) + list((R / "src").rglob("*.hpp")) + (list((R / "helper_functions").glob("*.cpp")) if any("helper" in p for p in paths) else [])):
        rel = str(f.relative_to(R))
        if "EquationDerivativeCache" in rel or "Costgradient" in rel or (paths and not any(p in rel for p in paths)):
            continue
        incomment = False
        for n, l in enumerate(f.read_text().split("\n")):
            s = l.strip()
            if "/*" in s:
                incomment = True
            if "*/" in s:
                incomment = False
                continue
            if incomment or not s or s.startswith(("//", "#", "*", "namespace", "class ", "struct ", "template", "using", "assert", "<<", "public", "private")) or "assert(" in s or "std::cout" in s or "gthrow" in s or "throw " in s:
                continue
            code = l.split("//")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2:
                        continue
                    for rep in reps:
                        out.append((rel, n, l, code[:m.start()] + rep + code[m.end():]))
            # dropped statement
            if re.match(r"\s*[\w:.\->\[\]()]+ (=|\+=|-=) .*;$", code) or re.match(r"\s*[\w:.\->]+\(.*\);$", code):
                out.append((rel, n, l, re.match(r"\s*", l).group() + ";"))
    return out


def main():
    out, seed, count, paths = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    if not os.environ.get("MUT_KEEP"):
        prepare()
    rng = random.Random(seed)
    cand = candidates(paths)
    # one mutant per line at most, files about equally likely by the root of their size
    files = {}
    for c in cand:
        files.setdefault(c[0], []).append(c)
    print(len(cand), "candidates in", len(files), "files", flush=True)
    done, seen = 0, set()
    while done < count and files:
        f = rng.choices(list(files), [len(v) ** .6 for v in files.values()])[0]
        c = files[f].pop(rng.randrange(len(files[f])))
        if not files[f]:
            del files[f]
        rel, n, old, new = c
        if (rel, n) in seen and rng.random() < .8:
            continue
        seen.add((rel, n))
        p = R / rel
        src = p.read_text()
        L = src.split("\n")
        L[n] = new
        p.write_text("\n".join(L))
        rec = {"file": rel, "line": n + 1, "old": old.strip(), "new": new.strip()}
        t0 = time.time()
        try:
            try:
                rec["tests"] = tests()
            except subprocess.TimeoutExpired:
                rec["tests"] = "hang"
            if not rec["tests"]:
                done += 1
                checks = next((v for k, v in MAP if k in rel), ["C03", "C15", "C13"])
                if os.environ.get("MUT_CHECKS"):
                    checks = os.environ["MUT_CHECKS"].split(",")
                for c in checks:
                    try:
                        r = sh(f"VERIF_REPO={R} VERIF_BUILD={B} VERIF_SEED=1 nice python3-vt -W ignore check.py {c} quick", cwd=V, timeout=900)
                        rec[c] = r.returncode
                        if r.returncode:
                            rec["says"] = (r.stdout + r.stderr).strip()[-300:]
                    except subprocess.TimeoutExpired:
                        rec[c] = "timeout"
                    if rec[c] == 1 and not os.environ.get("MUT_ALL"):
                        break
                rec["caught"] = any(rec.get(c) == 1 for c in checks)
                rec["s"] = round(time.time() - t0)
                print(("caught  " if rec["caught"] else "SURVIVES"), rec["s"], rel, n + 1, "|", rec["old"], "->", rec["new"], {c: rec[c] for c in checks if c in rec}, flush=True)
                with open(out, "a") as o:
                    o.write(json.dumps(rec) + "\n")
        finally:
            p.write_text(src)


main()
