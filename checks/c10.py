"""Time grids: generated intervals through the library and through whole runs."""
import math, random
from fractions import Fraction as F
from lib import core, e2e, opte2e as oe, physics as ph
from lib.unit import Unit, Died, is_error


def counts(a, b, d):
    """numbers of points of the coarsest grid from a to b not coarser than d (exact,
    two where rounding of the quotient decides)"""
    q = (F(b) - F(a)) / F(d)
    n = -((-q.numerator) // q.denominator)
    out = {n + 1}
    r = round(q)
    # the quotient as the program can see it: start and end were rounded
    eps = F(1, 10**12) * max(1, q) + (abs(F(a)) + abs(F(b))) / F(d) / 2**50
    if r >= 1 and abs(q - r) <= eps:
        out |= {r + 1, r + 2}
    return out


def interval(rng):
    k = rng.random()
    if k < .25:
        a, d, n = 0.0, rng.choice([.1, .2, .3, .7, 1 / 3, 1e-3, 60.0, 300.0, 900.0, 3600.0]), rng.randint(1, 3000)
        return a, a + d * n, d
    if k < .5:
        a = rng.choice([0.0, 1e6, -1e6, rng.uniform(-1e5, 1e5), 1.6e9, 12345.678])
        d = rng.choice([rng.uniform(1e-3, 1e4), 10 ** rng.uniform(-4, 5)])
        return a, a + d * rng.randint(1, 2000), d
    if k < .75:
        a = rng.choice([0.0, rng.uniform(-1e4, 1e4), 3600.0 * rng.randint(0, 9000)])
        h = rng.choice([rng.uniform(1, 1e5), 3600.0 * rng.randint(1, 200), 86400.0])
        return a, a + h, h / rng.uniform(.3, 1500)
    if k < .9:      # many steps
        a = rng.choice([0.0, rng.uniform(-1e3, 1e3)])
        n = rng.choice([rng.randint(10**4, 10**6), rng.randint(10**6, 2 * 10**9)])
        d = rng.choice([.1, .3, rng.uniform(.01, 10), 60.0])
        return a, a + n * d, d
    a = rng.uniform(-1e3, 1e3)
    return a, math.nextafter(a + rng.uniform(1, 100), 1e9), rng.uniform(100, 1e6)


def judge_points(c, where, p, a, b, rep):
    n = len(p)
    m = max(abs(a), abs(b))
    eps = 1e-12 * m + 1e-300
    if p[0] != a:
        c.violation(f"{where}/start", f"the first point is {p[0]!r}, the start {a!r}", rep)
    elif abs(p[-1] - b) > eps:
        c.violation(f"{where}/end", f"the last point is {p[-1]!r}, the end {b!r} ({n} points)", rep)
    elif any(not y > x for x, y in zip(p, p[1:])):
        c.violation(f"{where}/increasing", "the points are not strictly increasing", rep)
    else:
        h = (b - a) / (n - 1)
        for k in range(n):
            if abs(p[k] - (a + k * h)) > 4 * eps:
                c.violation(f"{where}/equidistant", f"point {k} of {n} is {p[k]!r} instead of {a + k * h!r}", rep)
                break
        return True


def library(exe):
    def fn(c, rng, d):
        with Unit(exe) as U:
            for _ in range(150):
                a, b, dt = interval(rng)
                if not b > a:
                    continue
                want = counts(a, b, dt)
                pts = max(want) <= (400000 if rng.random() < .1 else 5000)
                kind = rng.choice(["sde", "settings", "sne", "sdn"])
                if kind in ("sne", "sdn"):
                    n = rng.choice([2, 3, rng.randint(2, 3000)]) if kind == "sne" else rng.randint(1, 3000)
                    q = dict(kind=kind, a=a, b=b, n=n, delta=dt, points=True)
                    want = {n}
                    if kind == "sdn":
                        b = a + dt * (n - 1)
                    pts = (b - a) / max(1, n - 1) > 1e-9 * max(abs(a), abs(b))
                    q["points"] = pts
                elif kind == "settings":
                    q = dict(kind=kind, settings={"start_time": a, "end_time": b, "desired_delta_t": dt})
                else:
                    q = dict(kind=kind, a=a, b=b, delta=dt, points=pts)
                rep = {"request.json": q}
                try:
                    r = U("grid", **q)
                except Died as e:
                    c.violation(f"{kind}/abort", f"the grid of {q} aborts: {e}", rep)
                    continue
                if min(want) >= 2**31 - 4:
                    continue
                c.count(kind)
                if is_error(r):
                    if max(want) < 2**31 - 4 and (b - a) / max(want) > 1e-12 * max(abs(a), abs(b)):
                        c.violation(f"{kind}/refused", f"{q} is refused: {r['error']}", rep)
                    continue
                n = r["n"]
                if n not in want:
                    c.violation(f"{kind}/number", f"{q}: {n} points, expected {sorted(want)}", rep)
                    continue
                first = r.get("first", r.get("start"))
                if first != a or (kind == "settings" and r["end"] != b):
                    c.violation(f"{kind}/ends", f"{q}: {r}", rep)
                if n > 1 and kind != "sdn" and abs(r["delta"] - (b - a) / (n - 1)) > 1e-12 * (r["delta"]):
                    c.violation(f"{kind}/delta", f"{q}: step {r['delta']!r}, expected {(b - a) / (n - 1)!r}", rep)
                if kind == "sdn" and r["delta"] != dt:
                    c.violation(f"{kind}/delta", f"{q}: step {r['delta']!r}", rep)
                if pts and "points" in r and n > 1:
                    if len(r["points"]) != n:
                        c.violation(f"{kind}/points", f"{q}: {len(r['points'])} points, announced {n}", rep)
                    else:
                        judge_points(c, kind, r["points"], a, b, rep)
                        c.count("points", n)
                c.sig(kind, n if n < 50 else int(math.log2(n)) * 100, a == 0)
            # requests that have no grid
            for _ in range(40):
                a = rng.choice([0.0, rng.uniform(-1e5, 1e5)])
                h, dt, n = rng.choice([100.0, 1.0]), rng.choice([1.0, 10.0]), rng.choice([2, 10])
                kind = rng.choice(["sde", "settings", "sne", "sdn"])
                what = rng.choice(["h", "dt" if kind != "sne" else "n", "n" if kind in ("sne", "sdn") else "dt"])
                if kind == "sdn" and what == "h":
                    what = "dt"
                if what == "h":
                    h = rng.choice([0.0, -1.0, -100.0])
                elif what == "dt":
                    dt = rng.choice([0.0, -1.0, -1e300, 1e-300, 5e-324, 1e-13, -0.0] if kind != "sdn" else [0.0, -1.0, -0.0])
                else:
                    n = rng.choice([0, -1, -5, -2**31] + ([1] if kind == "sne" else []))
                q = dict(kind=kind, a=a, b=a + h, delta=dt, n=n, points=False)
                if kind == "settings":
                    q = dict(kind=kind, settings={"start_time": a, "end_time": a + h, "desired_delta_t": dt})
                    if rng.random() < .2:
                        k = rng.choice(list(q["settings"]))
                        if rng.random() < .5:
                            del q["settings"][k]
                        else:
                            q["settings"][k] = rng.choice(["5", None, [1], {}])
                try:
                    r = U("grid", **q)
                except Died as e:
                    c.violation(f"{kind}/abort", f"the grid of {q} aborts: {e}", {"request.json": q})
                    continue
                c.count("impossible")
                if not is_error(r):
                    c.violation(f"{kind}/accepted", f"{q} has no grid, the answer is {r}", {"request.json": q})
    return fn


def power_problem(t0, t1, dt):
    bc = lambda v: [{"time": t0 - abs(t0) * 1e-6 - 1, "values": v}, {"time": t1 + abs(t1) * 1e-6 + 1, "values": v}]
    return {"problem_data": {"simulation_settings": {"use_simplified_newton": True, "maximal_number_of_newton_iterations": 50, "tolerance": 1e-6, "retries": 0,
                                                     "start_time": t0, "end_time": t1, "desired_delta_t": dt},
                             "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json", "defaults": {}}},
            "topology": {"nodes": {"Vphinode": [{"id": "V", "G": 1.0, "B": -10.0}], "PQnode": [{"id": "Q", "G": 1.0, "B": -10.0}]},
                         "connections": {"Transmissionline": [{"id": "T", "from": "V", "to": "Q", "G": -1.0, "B": 10.0}]}},
            "boundary": {"nodes": {"Vphinode": [{"id": "V", "data": bc([1.0, 0.0])}], "PQnode": [{"id": "Q", "data": bc([-.2, -.1])}]}, "connections": {}},
            "initial": {"nodes": {"Vphinode": [{"id": "V", "data": [{"x": 0, "values": [1.0, 0.0]}]}], "PQnode": [{"id": "Q", "data": [{"x": 0, "values": [1.0, 0.0]}]}]}, "connections": {}}}


def gas_problem(t0, t1, dt, pipe):
    lo, hi = t0 - abs(t0) * 1e-6 - 1, t1 + abs(t1) * 1e-6 + 1
    bc = lambda v: [{"time": lo, "values": v}, {"time": hi, "values": v}]
    one = lambda ty, i, v: {ty: [{"id": i, "data": bc([v])}]}
    topo = {"nodes": {"Pressureboundarynode": [{"id": "A"}], "ConstraintSink": [{"id": "B"}]},
            "connections": {"Compressorstation": [{"id": "C", "from": "A", "to": "B"}]}}
    init = {"Compressorstation": [{"id": "C", "data": [{"x": 0, "values": [60.0, 10.0]}, {"x": 1, "values": [62.0, 10.0]}]}]}
    if pipe:
        topo["nodes"]["Innode"] = [{"id": "M"}]
        topo["connections"]["Compressorstation"][0]["to"] = "M"
        topo["connections"]["Pipe"] = [{"id": "P", "from": "M", "to": "B", "length": {"value": 10, "unit": "km"}, "diameter": {"value": 1, "unit": "m"},
                                        "roughness": {"value": 1e-5, "unit": "m"}, "desired_delta_x": 1e5, "balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme"}]
        init["Pipe"] = [{"id": "P", "data": [{"x": 0, "values": [62.0, 10.0]}, {"x": 10001, "values": [62.0, 10.0]}]}]
    pr = power_problem(t0, t1, dt)
    pr["problem_data"]["optimize"] = True
    empty = {"nodes": {}, "connections": {}}
    pr.update(topology=topo, boundary={"nodes": {**one("Pressureboundarynode", "A", 60.0), **one("ConstraintSink", "B", 10.0)}, "connections": {}},
              initial={"nodes": {}, "connections": init}, control={"nodes": {}, "connections": one("Compressorstation", "C", 2.0)},
              lower_bounds={"nodes": {}, "connections": one("Compressorstation", "C", 0.0)}, upper_bounds={"nodes": {}, "connections": one("Compressorstation", "C", 20.0)},
              constraint_lower_bounds={"nodes": one("ConstraintSink", "B", 40.0), "connections": {}},
              constraint_upper_bounds={"nodes": one("ConstraintSink", "B", 80.0), "connections": {}})
    return pr


def all_times(x):
    """the time lists of all components"""
    out = []
    for part in x.values():
        for cs in part.values():
            for comp in cs:
                out.append((comp["id"], [e["time"] for e in comp["data"]]))
    return out


BAD = [{"desired_delta_t": 100.0, "number_of_steps": 3}, {}, {"desired_delta_t": 0}, {"desired_delta_t": -10.0}, {"desired_delta_t": 1e-300},
       {"number_of_steps": 0}, {"number_of_steps": 1}, {"number_of_steps": -4}, {"number_of_steps": "three"}, {"desired_delta_t": "60"},
       {"desired_delta_t": None}, {"number_of_steps": None}, {"number_of_steps": [3]}]


def runs(exe):
    def fn(c, rng, d):
        t0, t1, dt = interval(rng)
        while not (2 <= max(counts(t0, t1, dt)) <= 400) or abs(t0) > 1e8:
            t0, t1, dt = interval(rng)
        simulate = rng.random() < .35
        if simulate:
            prob = power_problem(t0, t1, dt)
            c.count("simulations")
        else:
            while not (2 <= max(counts(t0, t1, dt)) <= 40) or abs(t0) > 1e8 or dt < 1:
                t0, t1, dt = interval(rng)
            prob = gas_problem(t0, t1, dt, rng.random() < .5)
        pd = prob["problem_data"]
        bad = False
        every = None
        if not simulate:
            k = rng.random()
            if k < .25:
                pd["control_settings"] = rng.choice(BAD)
                bad = True
            elif k < .55:
                pd["control_settings"] = {"number_of_steps": rng.choice([2, 3, rng.randint(2, 40)])}
            elif k < .85:
                cd = rng.choice([dt, dt * rng.uniform(.4, 4), (t1 - t0) / rng.randint(1, 30), (t1 - t0) * 3,
                                 (t1 - t0) / (rng.randint(1, 200) + rng.choice([1e-7, 1e-5, 1e-3, -1e-3, .1, .5, -1e-7]))])
                pd["control_settings"] = {"desired_delta_t": cd}
            every = rng.choice([None, 1, 2, 3, 4, 5, 7, 39, 1000, 0, -3, 2.5, "2"])
            if every is not None:
                pd["constraint_settings"] = {"evaluate_constraints_every_n": every}
        core.write_problem(d, prob)
        (d / "ipopt.opt").write_text(oe.IPOPT.format(it=rng.choice([0, 1])))
        r = core.grazer_run(exe, d, timeout=60, cwd=d)
        rep = dict(e2e.replay(prob, r), **{"ipopt.opt": (d / "ipopt.opt").read_text()})
        if r.timed_out or r.crash():
            c.violation("run/crash", str(r.crash() or "hang"), rep)
            return
        s, ctl = core.read_output(d)
        if bad:
            c.count("bad_settings")
            if r.rc == 0 or s is not None:
                c.violation("run/settings accepted", f"the control settings {pd['control_settings']} are accepted", rep)
            return
        if r.rc != 0:
            c.violation("run/failed", f"the run fails: {r.text[-500:]}", rep)
            return
        want = counts(t0, t1, dt)
        for i, ts in all_times(s):
            if len(ts) not in want:
                c.violation("run/number", f"{i}: {len(ts)} times, expected {want}", rep)
                return
            judge_points(c, "run", ts, t0, t1, rep)
            n = len(ts)
        c.count("state_points", n)
        if simulate:
            c.sig("sim", n)
            return
        cs = pd.get("control_settings")
        want = {n} if cs is None else {cs["number_of_steps"]} if "number_of_steps" in cs else counts(t0, t1, cs["desired_delta_t"])
        for i, ts in all_times(ctl):
            if len(ts) not in want:
                c.violation("control/number", f"{i}: {len(ts)} control points, expected {want}", rep)
                return
            judge_points(c, "control", ts, t0, t1, rep)
            c.count("control_points", len(ts))
        m = max(1, every) if isinstance(every, int) else 1
        ng = -(-(n - 1) // m)
        neq = oe.printed(r.text, "Total number of inequality constraints...............:")
        n1 = oe.printed(r.text, "Total number of equality constraints.................:")
        if neq is None or n1 is None or neq + n1 != ng:
            c.violation("constraint/number", f"{n} states, constraints every {every}: Ipopt has {neq} + {n1} constraints, expected {ng}", rep)
        c.count("constraint_points", ng)
        c.sig("opt", n, len(ts), ng)
    return fn


def check(ctx):
    exe, grazer = core.build("plain/unit", "plain/grazer")
    ctx.rule = ("a case is 190 grids requested from the library or one run; distinct: kind of grid, number of points, start at zero or not; "
                "for runs the numbers of state, control and constraint points")
    ctx.assumptions = ["where the quotient of interval and step is an integer up to 1e-12 either number of steps is accepted",
                       "ends of a grid may differ from the requested end by rounding (1e-12 relative)"]
    e2e.run_cases(ctx, library(exe), 4000 if ctx.thorough else 120, 300 if ctx.thorough else 15, chunksize=1)
    e2e.run_cases(ctx, runs(grazer), 20000 if ctx.thorough else 900, 400 if ctx.thorough else 25, first=10**6)
