"""Units: all prefixes and units of every kind, malformed units, and runs with pipes in other units."""
import copy, math, random
from fractions import Fraction as F
from lib import core, e2e, netgen, physics as ph
from lib.unit import Unit, Died, is_error

KINDS = {
    "length": {"m": F(1), "in": F("0.0254"), "ft": F("0.3048"), "yd": F("0.9144"), "mi": F("1609.344")},
    "area": {"m^2": F(1), "ac": F("4046.9"), "acre": F("4046.9")},
    "volume": {"m^3": F(1), "L": F(1, 1000), "l": F(1, 1000)},
    "pressure": {"Pa": F(1), "bar": F(100000), "atm": F(101325), "psi": F("6894.757")},
    "frequency": {"Hz": F(1), "per_min": F(1, 60), "per_minute": F(1, 60)},
    "force": {"N": F(1)},
    "power": {"W": F(1), "PS": F("735.49875")},
    "mass": {"g": F(1, 1000), "t": F(1000), "oz": F("0.028349523125"), "lb": F("0.45359237")},
    "volume_flux": {"m_cube_per_s": F(1), "1000m_cube_per_hour": F(1000, 3600)},
    "temperature": {"K": F(1), "C": F(1), "Celsius": F(1), "F": F(5, 9)},
}
OFFSET = {"C": F("273.15"), "Celsius": F("273.15"), "F": F("459.67") * 5 / 9}
PREFIX = {"Y": 24, "Z": 21, "E": 18, "P": 15, "T": 12, "G": 9, "M": 6, "k": 3, "h": 2, "da": 1, "": 0, "d": -1, "c": -2, "m": -3,
          "mu": -6, "n": -9, "p": -12, "f": -15, "a": -18, "z": -21, "y": -24}


def readings(kind, text):
    """(factor, offset) for every way to split prefix and unit"""
    out = []
    for u, f in KINDS[kind].items():
        if text.endswith(u) and text[:len(text) - len(u)] in PREFIX:
            e = PREFIX[text[:len(text) - len(u)]]
            k = int(u.split("^")[1]) if "^" in u else 1
            out.append((f * F(10) ** (e * k), OFFSET.get(u, F(0))))
    return out


def number(rng):
    n = rng.choice([str(rng.randrange(1000)), f"{rng.uniform(0, 100):.3f}", f"{rng.randrange(1, 50)}e{rng.randrange(0, 6)}",
                    f"{rng.randrange(1, 50)}e-{rng.randrange(1, 9)}", f".{rng.randrange(1, 999)}", f"{rng.uniform(1, 9):.5f}e-2", "1", "0", "100", "1000"])
    return n, F(n) if "e" not in n else F(n.split("e")[0]) * F(10) ** int(n.split("e")[1])


def value(rng):
    return rng.choice([1, 0, -1, 5, rng.uniform(-1e3, 1e3), 10 ** rng.uniform(-12, 12), -10 ** rng.uniform(-5, 5), rng.randrange(10**6), 1 / 3])


# never a quantity, whatever the kind
BROKEN = ["", " ", "x", "kk", "1", "1 ", "5 5 {u}", "{u} ", " {u}", "{u}{u}x", "-5 {u}", "+5 {u}", "5  {u}", "5{u}", "5\t{u}", "1,5 {u}", "1e {u}", "e5 {u}", "abc {u}", "5 k {u}",
          "{u}\n", "{u}^2", "{u}/s", "1e+3 {u}", "0x10 {u}", "1.5.5 {u}", "nan {u}", "inf {u}", "1e999 {u}", "5 x{u}", "kM{u}", "xx{u}", "{u}s", "1. 5 {u}", "\u00b5{u}", "5\u00a0{u}"]


def library(exe):
    def fn(c, rng, d):
        todo = []
        if c.i < len(KINDS):                          # every prefix with every unit
            kind = list(KINDS)[c.i]
            for p in PREFIX:
                for u in KINDS[kind]:
                    for v in (1, value(rng)):
                        todo.append((kind, v, None, p + u))
                    todo.append((kind, value(rng), number(rng), p + u))
        else:
            for _ in range(300):
                kind = rng.choice(list(KINDS))
                k = rng.random()
                if k < .5:
                    todo.append((kind, value(rng), rng.choice([None, number(rng)]), rng.choice(list(PREFIX)) + rng.choice(list(KINDS[kind]))))
                elif k < .75:                         # a unit of some kind, perhaps another one
                    other = rng.choice(list(KINDS))
                    todo.append((kind, value(rng), rng.choice([None, number(rng)]), rng.choice(list(PREFIX)) + rng.choice(list(KINDS[other]))))
                else:
                    u = rng.choice(list(PREFIX)) + rng.choice(list(KINDS[kind]))
                    t = rng.choice(BROKEN).format(u=u)
                    if rng.random() < .3:             # a random edit
                        t = list(u)
                        j = rng.randrange(len(t) + 1)
                        t[j:j + rng.choice([0, 1])] = rng.choice(["", "x", "_", "1", "Q", "^"])
                        t = "".join(t)
                    todo.append((kind, value(rng), "broken", t))
        req, want = [], []
        for kind, v, n, text in todo:
            if n == "broken":
                r = readings(kind, text)
                req.append([kind, {"value": v, "unit": text}])
            else:
                r = readings(kind, text)
                if n is not None:
                    r = [(f * n[1], o) for f, o in r]
                req.append([kind, {"value": v, "unit": text if n is None else n[0] + " " + text}])
            want.append([F(v) * f + o for f, o in r])
            c.sig(kind, n == "broken", text[:3], bool(r))
        for _ in range(10):                           # malformed measures
            kind = rng.choice(list(KINDS))
            u = rng.choice(list(KINDS[kind]))
            req.append([kind, rng.choice([{"value": 1}, {"unit": u}, {}, {"value": "1", "unit": u}, {"value": 1, "unit": 5}, {"value": 1, "unit": u, "more": 1},
                                          {"value": None, "unit": u}, [1, u], 5, None, u, {"value": [1], "unit": u}, {"Value": 1, "unit": u}, {"value": True, "unit": u}])])
            want.append([])
        with Unit(exe) as U:
            try:
                got = U("units", list=req)
            except Died as e:
                c.violation("abort", f"converting units aborts: {e}", {"requests.json": req})
                return
        for q, w, g in zip(req, want, got):
            rep = {"quantity.json": q}
            if is_error(g):
                if w:
                    c.violation(f"refused/{q[0]}", f"the {q[0]} {q[1]} is refused: {g['error'][:200]}", rep)
                c.count("errors")
                continue
            if not w:
                c.violation(f"accepted/{q[0]}", f"{q[1]} is no {q[0]}, the answer is {g}", rep)
                continue
            c.count("converted")
            if len(w) > 1 and len(set(w)) > 1:
                c.count("ambiguous")
            for x in w:
                off = [o for t, o in OFFSET.items() if q[1]["unit"].endswith(t)] if q[0] == "temperature" else []
                eps = 1e-14 * (abs(x) + sum(2 * o for o in off)) * 8
                if math.isfinite(g) and abs(F(g) - x) <= eps:
                    break
            else:
                c.violation(f"wrong/{q[0]}", f"the {q[0]} {q[1]} is {g!r}, expected {float(w[0])!r}", rep)
    return fn


LEN = list(KINDS["length"])


def respell(rng, m):
    """the same length in another unit"""
    L = ph.metres(m)
    while True:
        p, u = rng.choice(list(PREFIX)), rng.choice(LEN)
        f = float(F(10) ** PREFIX[p] * KINDS["length"][u])
        if not 1e-9 < L / f < 1e12:
            continue
        if rng.random() < .3:
            n = rng.choice(["100", "2.5", "1e3", "4e-2", ".5"])
            return {"value": L / f / float(n), "unit": f"{n} {p}{u}"}
        return {"value": L / f, "unit": p + u}


def runs(exe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, gas=True, power=False, nodes=(2, 4), steps=(2, 5))
        pipes = prob["topology"]["connections"]["Pipe"]
        for p in pipes:
            L = ph.metres(p["length"])
            p["desired_delta_x"] = L / (rng.choice([1, 2, 4]) - rng.uniform(.2, .8))
        prob["problem_data"]["simulation_settings"]["tolerance"] = 1e-6
        for p in pipes:
            for k in ("length", "diameter", "roughness"):
                p[k] = {"value": ph.metres(p[k]), "unit": "m"}
        P, O, ctl, r = e2e.simulate(c, exe, d / "a", prob)
        if O is None:
            return
        q = copy.deepcopy(prob)
        for p in q["topology"]["connections"]["Pipe"]:
            for k in ("length", "diameter", "roughness"):
                p[k] = respell(rng, p[k])
                c.sig(p[k]["unit"])
        P2, O2, ctl, r2 = e2e.simulate(c, exe, d / "b", q)
        if O2 is None:      # counts as unsolved; rounding may decide in few cases only
            return
        c.count("equal_runs")
        for i in O.comp:
            for e, f in zip(O.comp[i][2], O2.comp[i][2]):
                for key in ("pressure", "flow"):
                    for x, y in zip(e.get(key, []), f.get(key, [])):
                        if abs(x["value"] - y["value"]) > 1e-3 + 1e-5 * abs(x["value"]):
                            c.violation("run/differs", f"{i} {key} at {e['time']}: {x['value']} in metres, {y['value']} in other units", e2e.replay(q, r2))
                            return
                        c.count("values")
        # one bad unit: an error
        p = rng.choice(q["topology"]["connections"]["Pipe"])
        k = rng.choice(["length", "diameter", "roughness"])
        p[k] = rng.choice([{"value": 1, "unit": rng.choice(["kg", "Pa", "m^2", "xm", "", "M", "meter", "km2", "5 5 m", "-1 m", "s", "1e999 m"])}, {"value": 1}, {"value": "1", "unit": "m"},
                           {"unit": "m"}, 5, "5 m", None, {"value": 1, "unit": "m", "x": 1}])
        core.write_problem(d / "c", q)
        r = core.grazer_run(exe, d / "c", timeout=60)
        s, _ = core.read_output(d / "c")
        c.count("bad_units")
        if r.crash() or r.timed_out:
            c.violation("run/crash", str(r.crash() or "hang"), e2e.replay(q, r))
        elif r.rc == 0 or s is not None:
            c.violation("run/accepted", f"a pipe with {k} {p[k]} is accepted", e2e.replay(q, r))
    return fn


def check(ctx):
    exe, grazer = core.build("plain/unit", "plain/grazer")
    ctx.rule = "a case is about 300 conversions, or a network run with its pipes in metres and in other units; distinct: kind, form and prefix or unit"
    ctx.assumptions = ["rounding of 1e-13 is granted to a conversion", "runs that differ in the rounding of lengths agree to 1e-5"]
    e2e.run_cases(ctx, library(exe), 4000 if ctx.thorough else 130, 200 if ctx.thorough else 15, chunksize=1)
    e2e.run_cases(ctx, runs(grazer), 10000 if ctx.thorough else 500, 300 if ctx.thorough else 25, first=10**6)
