"""Shape of the results and the initial state, from input and output files alone."""
import math
import numpy as np
from lib import core, e2e, netgen, physics as ph


def retime(prob, rng):
    """another grid: steps which do not divide the horizon"""
    s = prob["problem_data"]["simulation_settings"]
    h = s["end_time"] - s["start_time"]
    for _ in range(20):
        dt = rng.choice([h / rng.randint(2, 60) * rng.uniform(.9, 1.1), h * rng.uniform(1, 3), h / 3.3])
        if abs(h / dt - round(h / dt)) > 1e-3:
            s["desired_delta_t"] = dt
            return


def state0(c, P, O, rep):
    for i, (part, t, data) in O.comp.items():
        e = data[0]
        ini = P.init[i]["data"]
        if t == "Pipe":
            L = ph.metres(P.edges[i][1]["length"])
            n = ph.npoints(L, P.edges[i][1]["desired_delta_x"])
            if len(e["flow"]) in ph.grid_options(L, P.edges[i][1]["desired_delta_x"]):
                n = len(e["flow"])
            xs = np.linspace(0, L, n)
            for k, w in enumerate(("pressure", "flow")):
                if len(e[w]) != n:
                    c.violation("points", f"pipe {i}: {len(e[w])} {w} points instead of {n}", rep)
                    continue
                gx = np.array([v["x"] for v in e[w]])
                gv = np.array([v["value"] for v in e[w]])
                want = np.array([ph.interp(ini, x, "x")[k] for x in xs])
                if not np.all(np.abs(gx - xs) <= 1e-9 * L):
                    c.violation("x", f"pipe {i}: published points {gx} instead of {xs}", rep)
                if not np.all(np.abs(gv - want) <= 1e-8 * (1 + np.abs(want))):
                    c.violation("initial/Pipe", f"pipe {i}: initial {w} {gv} instead of {want} (data {ini})", rep)
                c.count("pipe_points", n)
            c.sig("pipe", n, len(ini))
        elif part == "connections":
            for k, w in enumerate(("pressure", "flow")):
                got = [v["value"] for v in e[w]]
                want = [x["values"][k] for x in ini]
                if len(got) != len(want) or any(not abs(a - b) <= 1e-8 * (1 + abs(b)) for a, b in zip(got, want)):
                    c.violation("initial/" + t, f"{t} {i}: initial {w} {got} instead of {want}", rep)
                if len(got) == len(want) and any(not abs(v["x"] - x["x"]) <= 1e-9 for q in data for v, x in zip(q[w], ini)):
                    c.violation("x", f"{t} {i}: {w} published at {[v['x'] for v in e[w]]} instead of {[x['x'] for x in ini]}", rep)
            c.sig(t, len(ini))
        else:
            V, ph0 = ini[0]["values"]
            if not (abs(e["V"] - V) <= 1e-9 * (1 + abs(V)) and abs(e["phi"] - ph0) <= 1e-9 * (1 + abs(ph0))):
                c.violation("initial/" + t, f"{t} {i}: initial V, phi {e['V']}, {e['phi']} instead of {V}, {ph0}", rep)
            c.sig(t)
        c.count("initial_" + t)
        for q in data:
            vals = [v["value"] for w in ("pressure", "flow") for v in q.get(w, [])] + [q[w] for w in ("V", "phi", "P", "Q") if w in q]
            if not all(isinstance(v, (int, float)) and math.isfinite(v) for v in vals) or not vals:
                c.violation("notfinite", f"{t} {i} at {q.get('time')}: {vals}", rep)
        if abs(data[-1]["time"] - P.t1) > 1e-9 * max(1, abs(P.t1)):
            c.violation("end", f"{t} {i} ends at {data[-1]['time']} instead of {P.t1}", rep)


def case(exe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.03, gas="maybe", power="maybe", stochastic=rng.random() < .2,
                              nodes=(2, 9), steps=rng.choice([(1, 3), (3, 12), (20, 40)]), constraints=rng.random() < .2)
        if rng.random() < .5:
            retime(prob, rng)
        P, O, ctl, r = e2e.simulate(c, exe, d, prob)
        if O is None:
            return
        state0(c, P, O, e2e.replay(prob, r))
        c.sig("times", len(P.times))
        c.count("times", len(P.times))
        c.count("results", len(O.comp))
        if c.i < 3:
            c.sample = {"types": e2e.typesig(P), "times": len(P.times), "t0": P.t0, "t1": P.t1}
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = ("a case is a simulated random network; non-trivial and distinct: (component type, number of published and of "
                "supplied points) and numbers of time points")
    e2e.run_cases(ctx, case(exe), 30000 if ctx.thorough else 2500, 600 if ctx.thorough else 20)
