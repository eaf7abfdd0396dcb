"""Pairs of simulations of the same system: restarts, shifted clocks, longer and shorter
horizons, the two Newton variants, repetitions, finer output of the controls."""
from lib import core, e2e, meta, netgen
from checks.c14 import clone


def restart(c, rng, g, prob, O, n):
    k = rng.choice([0, 1, n // 2, n - 2, rng.randrange(n - 1)])
    k = max(0, min(n - 2, k))
    q = clone(prob)
    q["problem_data"].pop("control_settings", None)
    sim = q["problem_data"]["simulation_settings"]
    sim["start_time"] = g.t0 + k * g.dt
    q["initial"] = meta.initial_from(g, O.comp, k)
    c.count("restarted_steps", n - k)
    return q, dict(k1=k), f"restart at step {k}"


def shift(c, rng, g, prob, O, n):
    s = rng.choice([1.0, -g.t0, 86400.0, -86400.0 * 365, 86400.0 * 3650, -g.t1, rng.randrange(-10**6, 10**6) / 64])
    q = clone(prob)
    sim = q["problem_data"]["simulation_settings"]
    sim["start_time"] += s
    sim["end_time"] += s
    meta.shift_times(q["boundary"], s)
    if "control" in q:
        meta.shift_times(q["control"], s)
    return q, dict(shift=s), f"shift by {s}"


def horizon(c, rng, g, prob, O, n):
    if n < 3:
        return None
    m = rng.randrange(2, n)
    q = clone(prob)
    q["problem_data"].pop("control_settings", None)
    q["problem_data"]["simulation_settings"]["end_time"] = g.t0 + (m - 1) * g.dt
    return q, dict(n=m), f"only the first {m} points"


def later_data(c, rng, g, prob, O, n):
    """values after the end and before the start are nobody's business; also values between two
    grid points, if there are knots at both of them"""
    q = clone(prob)
    for part in ("boundary", "control"):
        for _, _, x in meta.comps(q.get(part, {})):
            pts = x["data"]
            if pts[-1]["time"] <= g.t1:
                pts.append({"time": pts[-1]["time"] + rng.choice([1.0, 1e5]), "values": [v * -3 + 50 for v in pts[-1]["values"]]})
            if pts[0]["time"] >= g.t0:
                pts.insert(0, {"time": pts[0]["time"] - rng.choice([1.0, 1e5]), "values": [v * 5 - 9 for v in pts[0]["values"]]})
            # inner points on the straight line between their neighbours
            for _ in range(rng.choice([0, 1, 3])):
                j = rng.randrange(len(pts) - 1)
                a, b = pts[j], pts[j + 1]
                w = rng.uniform(.1, .9)
                t = a["time"] + w * (b["time"] - a["time"])
                if a["time"] < t < b["time"] and min(t - a["time"], b["time"] - t) > 1e-3:
                    w = (t - a["time"]) / (b["time"] - a["time"])
                    pts.insert(j + 1, {"time": t, "values": [u + w * (v - u) for u, v in zip(a["values"], b["values"])]})
    return q, {}, "data outside of the horizon and collinear data"


def newton(c, rng, g, prob, O, n):
    q = clone(prob)
    sim = q["problem_data"]["simulation_settings"]
    sim["use_simplified_newton"] = not sim["use_simplified_newton"]
    sim["retries"] = rng.choice([0, 1, 3])
    sim["maximal_number_of_newton_iterations"] = rng.choice([100, 500])
    sim["tolerance"] = rng.choice([1e-8, 3e-9])
    return q, {}, "other Newton variant"


def repeat(c, rng, g, prob, O, n):
    return clone(prob), dict(tol=0.0), "repetition"


KINDS = [restart, restart, shift, horizon, later_data, newton, repeat]


def pairs(exe):
    def fn(c, rng, d):
        g = netgen.Gen(rng, large=.03, gas="maybe", power="maybe", nodes=(2, 7), pnodes=(2, 7), steps=(2, 9))
        # a grid of dyadic numbers, hit exactly
        n = rng.randint(3, 9)
        g.t0, g.dt = float(rng.choice([0, 0, 3600, -500])), float(rng.choice([60, 300, 450.5, 900]))
        g.t1 = g.t0 + g.dt * (n - 1)
        prob = clone(g.problem())
        sim = prob["problem_data"]["simulation_settings"]
        sim.update(tolerance=1e-8, use_simplified_newton=rng.random() < .5)
        prob["problem_data"].pop("control_settings", None)
        P, O, ctl, r = e2e.simulate(c, exe, d / "a", prob)
        if O is None:
            return
        if any(len(x[2]) != n for x in O.comp.values()):
            c.violation("points", f"{n} time points expected", e2e.replay(prob, r))
            return
        if not meta.physical(O.comp):
            c.count("unphysical")
            return
        for num, kind in enumerate(rng.sample(KINDS, 3)):
            what = kind(c, rng, g, prob, O, n)
            if not what:
                continue
            q, cmp, text = what
            s, states = meta.run(d / f"{kind.__name__}{num}", q, exe)
            rep = e2e.replay(q, s)
            rep.update({f"original_{k}.json": v for k, v in prob.items() if v is not None})
            if s.crash() or s.timed_out:
                c.violation("crash", f"{text}: {s.crash() or 'hangs'}", rep)
                continue
            if states is None:
                c.failed = f"{text}: {s.text}"
                if not e2e.numerical(s.text):
                    c.violation("refused/" + kind.__name__, f"{text}: {s.text[-300:]}", rep)
                continue
            c.count(kind.__name__)
            c.sig(kind.__name__, text, *e2e.typesig(P))
            dif = meta.diff(O.comp, meta.table(states), **cmp)
            if dif:
                c.violation(kind.__name__, f"{text}: {dif}", dict(rep, **{"states.json": states, "original_states.json": O.raw}))
            if c.i < 4:
                c.sample = {"change": text, "points": n, "components": len(O.comp)}
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = "a case is a deterministic problem together with a restart point, shift, horizon, other Newton variant or repetition (distinct: these and the mix of components)"
    ctx.assumptions = ["results of two runs are compared to 2e-6 relative, as either is only solved to its tolerance (repetitions exactly)",
                       "the time grids are dyadic, so that two runs have the very same time points"]
    t = ctx.thorough
    e2e.run_cases(ctx, pairs(exe), 60000 if t else 900, 500 if t else 30, max_fail=.15)
