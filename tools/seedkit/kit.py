"""Helpers of the demonstrations: build grazer from the current directory's sources
into a scratch directory, run small problems, and remove everything again."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path.cwd()
TMP = Path(tempfile.mkdtemp(prefix="demo_"))
atexit.register(shutil.rmtree, TMP, True)


def _sources():
    out = []
    for cm in sorted((REPO / "src").rglob("CMakeLists.txt")):
        text = re.sub(r"#.*", "", cm.read_text())
        for cpp in sorted(cm.parent.glob("*.cpp")):
            if re.search(r"(?<![\w/])" + re.escape(cpp.name) + r"(?!\w)", text) and cpp not in out:
                out.append(cpp)
        for m in re.findall(r"[\w./-]+/[\w.-]+\.cpp", text):
            p = (cm.parent / m).resolve()
            if p.exists() and p not in out:
                out.append(p)
    return out


def build(program=None, flags="-O0", only=None):
    """the grazer executable, or `program` (a .cpp next to this file) linked with its sources"""
    inc = TMP / "shim" / "nlohmann"
    inc.mkdir(parents=True, exist_ok=True)
    shutil.copy(HERE / "json-schema.hpp", inc)
    incs = [f"-I{TMP / 'shim'}"] + [f"-I{p}" for p in sorted((REPO / "src").rglob("include")) if p.is_dir()]
    base = ["g++", "-std=c++17", "-w", *flags.split(), "-DHAVE_CSTDDEF", "-DGRAZER_VERSION=demo", *incs,
            "-isystem", "/usr/include/eigen3", f"-I{REPO}/Randutils/include", "-isystem", "/usr/include/coin"]
    srcs = [s for s in _sources() if not (program and s.name == "grazer.cpp")]
    if only:
        srcs = [s for s in srcs if re.search(only, str(s)) and s.name not in ("schema_generation.cpp", "schema_key_insertion.cpp")]
    if program:
        srcs.append(HERE / program)

    def one(a):
        i, s = a
        o = TMP / f"{i}.o"
        extra = ["-DSetBoolValue(a,b)=SetStringValue(a,(b)?\"yes\":\"no\")"] if s.name == "Adaptor.cpp" else []
        r = subprocess.run(base + extra + ["-c", str(s), "-o", str(o)], capture_output=True, text=True)
        if r.returncode:
            sys.exit(f"demo: {s} does not compile\n{r.stderr[-2000:]}")
        return str(o)
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs)))
    exe = TMP / "program"
    san = [f for f in flags.split() if f.startswith("-fsanitize")]
    r = subprocess.run(["g++", *san, *objs, "-o", str(exe), "-lipopt", "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        sys.exit(f"demo: linking failed\n{r.stderr[-2000:]}")
    return exe


_n = [0]


def problem(**files):
    """a fresh directory with problem/<name>.json"""
    _n[0] += 1
    d = TMP / f"case{_n[0]}"
    (d / "problem").mkdir(parents=True)
    for k, v in files.items():
        if v is not None:
            (d / "problem" / f"{k}.json").write_text(v if isinstance(v, str) else json.dumps(v, indent=1))
    return d


def run(exe, d, command="run", timeout=60):
    """(exit status, text, states or None, controls or None)"""
    try:
        r = subprocess.run([str(exe), command, str(d)], cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", "", None, None
    out = sorted((d / "output").glob("*")) if (d / "output").exists() else []
    load = lambda n: json.loads((out[-1] / n).read_text()) if out and (out[-1] / n).exists() else None
    return r.returncode, r.stdout + r.stderr, load("states.json"), load("controls.json")


def component(states, i):
    """the data of component i"""
    for part in states.values():
        for cs in part.values():
            for c in cs:
                if c["id"] == i:
                    return c["data"]
    raise KeyError(i)


def check(ok, text):
    if not ok:
        print("demo: broken:", text)
        sys.exit(1)


def settings(t0=0.0, t1=3600.0, dt=1800.0, tol=1e-8, simplified=False, defaults=None, **more):
    pd = {"simulation_settings": {"use_simplified_newton": simplified, "maximal_number_of_newton_iterations": 100, "tolerance": tol, "retries": 0,
                                  "start_time": t0, "end_time": t1, "desired_delta_t": dt},
          "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json", "defaults": defaults or {}}}
    pd.update(more)
    return pd


def const(i, t0, t1, *v):
    return {"id": i, "data": [{"time": t0, "values": list(v)}, {"time": t1, "values": list(v)}]}


def pipe(i, a, b, length=10000.0, diameter=0.6, roughness=1e-5, dx=5000.0):
    return {"id": i, "from": a, "to": b, "length": {"value": length, "unit": "m"}, "diameter": {"value": diameter, "unit": "m"},
            "roughness": {"value": roughness, "unit": "m"}, "desired_delta_x": dx, "balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme"}


def initial(i, *points):
    """points: (x, pressure in bar, flow)"""
    return {"id": i, "data": [{"x": x, "values": [p, q]} for x, p, q in points]}
