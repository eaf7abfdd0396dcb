"""Optimizations through the real executable: problems with bounds and constraints."""
import copy, math, re
import numpy as np
from . import core, e2e, netgen, physics as ph

IPOPT = "max_iter {it}\nmax_cpu_time 20\nsb yes\n"


def sinks(prob):
    return [c["id"] for c in prob["topology"]["nodes"].get("ConstraintSink", [])]


def pressures(P, O, ids):
    """id -> pressures in bar at all times, from the attached edges"""
    out = {}
    for i in ids:
        for e, (t, cc) in P.edges.items():
            if t != "Transmissionline" and i in (cc["from"], cc["to"]):
                k = 0 if cc["from"] == i else -1
                out[i] = np.array([x["pressure"][k]["value"] for x in O.comp[e][2]])
                break
    return out


def make(c, rng, exe, d, constraints=True, **kw):
    """a problem with all optimization files, its simulation with the initial controls;
    None if it cannot be simulated"""
    opts = dict(gas=True, power=rng.random() < .15, nodes=(2, 4), pnodes=(2, 3), steps=(2, 8), constraints=constraints, need_control=True)
    opts.update(kw)
    prob, g = netgen.make(rng, **opts)
    if not prob.get("control"):
        return None
    s = prob["problem_data"]["simulation_settings"]
    s["tolerance"] = 1e-8
    for p in prob["topology"]["connections"].get("Pipe", []):
        p["desired_delta_x"] = ph.metres(p["length"]) / rng.choice([.9, 1.9])
    P, O, _, r = e2e.simulate(c, exe, d / "sim", prob, expect_ok=False)
    if O is None:
        return None
    ids = sinks(prob)
    base = pressures(P, O, ids)
    prob = copy.deepcopy(prob)
    pd = prob["problem_data"]
    pd["optimize"] = True
    every = rng.choice([None, 1, 1, 2, 3, 5, 100, -1, 0])
    if every is not None:
        pd["constraint_settings"] = {"evaluate_constraints_every_n": every}
    t0, t1 = P.t0, P.t1
    # bounds of the controls
    lo, up = {}, {}
    for t, cs in prob["control"]["connections"].items():
        for comp in cs:
            vals = [e["values"][0] for e in comp["data"]]
            width = rng.choice([2.0, 10.0, 30.0])
            a = rng.choice([0.0, 0.0, min(vals) - rng.uniform(0, 3)])
            b = max(a + rng.choice([.5, width]), max(vals) + rng.choice([0, 1, -1]))
            if b <= a:
                b = a + 1.0
            ts = netgen.knots(rng, t0, t1)
            lo.setdefault(t, []).append({"id": comp["id"], "data": [{"time": x, "values": [a + rng.choice([0, 0, rng.uniform(0, .2) * (b - a)])]} for x in ts]})
            ts = netgen.knots(rng, t0, t1)
            up.setdefault(t, []).append({"id": comp["id"], "data": [{"time": x, "values": [b - rng.choice([0, 0, rng.uniform(0, .2) * (b - a)])]} for x in ts]})
    prob["lower_bounds"] = {"connections": lo, "nodes": {}}
    prob["upper_bounds"] = {"connections": up, "nodes": {}}
    glo, gup = [], []
    for i in ids:
        p = base[i]
        kind = rng.random()
        low = p.min() - rng.uniform(.2, 5) if kind < .5 else p.min() + rng.uniform(-.5, 3)
        high = max(p.max() + rng.uniform(.2, 10), low + .5) if kind < .7 else max(low + .3, p.max() - rng.uniform(0, 1))
        ts = netgen.knots(rng, t0, t1)
        glo.append({"id": i, "data": [{"time": x, "values": [low - rng.choice([0, 0, rng.uniform(0, 1)])]} for x in ts]})
        ts = netgen.knots(rng, t0, t1)
        gup.append({"id": i, "data": [{"time": x, "values": [high + rng.choice([0, 0, rng.uniform(0, 1)])]} for x in ts]})
    prob["constraint_lower_bounds"] = {"nodes": {"ConstraintSink": glo} if glo else {}, "connections": {}}
    prob["constraint_upper_bounds"] = {"nodes": {"ConstraintSink": gup} if gup else {}, "connections": {}}
    return prob, P, O


def run(exe, d, prob, it=60, timeout=100, **kw):
    core.write_problem(d, prob)
    (d / "ipopt.opt").write_text(IPOPT.format(it=it))
    return core.grazer_run(exe, d, timeout=timeout, cwd=d, **kw)


def bounds(prob, which):
    return {x["id"]: x["data"] for part in prob[which].values() for cs in part.values() for x in cs}


def constraint_times(P, prob):
    n = prob["problem_data"].get("constraint_settings", {}).get("evaluate_constraints_every_n", 1)
    n = max(1, n)
    idx = list(range(1, len(P.times), n))
    idx[-1] = len(P.times) - 1
    return idx


def weights(t):
    w = np.zeros(len(t))
    w[:-1] += np.diff(t) / 2
    w[1:] += np.diff(t) / 2
    return w


def cost(P, ctl):
    """trapezoidal rule without the start, squares of the compressors' controls"""
    w = weights(P.times)
    s = 0.0
    for e, (t, cc) in P.edges.items():
        if t == "Compressorstation":
            s += sum(w[k] * ph.interp(ctl[e], P.times[k])[0] ** 2 for k in range(1, len(P.times)))
    return float(s)


def printed(text, name):
    m = re.search(re.escape(name) + r"\s*([-+0-9.eEnainf]+)", text)
    return float(m.group(1)) if m else None
