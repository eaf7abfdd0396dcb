"""Analytic derivatives against differences of the evaluated functions."""
import json
import numpy as np
from lib import core, e2e, netgen, physics as ph
from lib.lab import Lab, LabDied, LabError

NAMES = ["equations/new state", "equations/last state", "equations/control", "constraints/state", "constraints/control",
         "cost/state", "cost/control", "penalty/state", "penalty/control"]
STEPS = (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7)


def randomize(prob, rng):
    """any admissible state, all regimes of flow"""
    mag = rng.choice([0.002, 0.02, 0.1, 1, 30, 60, 120])
    for t, cs in prob["initial"]["connections"].items():
        for c in cs:
            for e in c["data"]:
                q = rng.choice([1, -1]) * mag * rng.choice([rng.uniform(.3, 3), rng.uniform(.8, 1.2), 0.01])
                if t == "Gaspowerconnection":
                    q = rng.choice([rng.uniform(-60, 60), rng.uniform(60, 200), -rng.uniform(60, 200), rng.uniform(-5, 5), 59.9, -59.9])
                e["values"] = [rng.uniform(10, 120), q]
    for t, cs in prob["initial"]["nodes"].items():
        for c in cs:
            for e in c["data"]:
                e["values"] = [rng.uniform(.5, 1.5), rng.uniform(-3, 3)]


def compare(c, name, J, F, x, f0, who, rep, small=0.1):
    """J against differences of F (batch of points -> batch of values) at x"""
    n = x.size
    if not n or not J.shape[0]:
        return
    best = np.full(J.shape, np.inf)
    bestD = np.zeros(J.shape)
    scale = np.maximum(np.abs(x), small)
    with np.errstate(all="ignore"):
        for h in STEPS:
            # 4th order differences in every direction at once
            H = h * scale
            pts = np.concatenate([x + s * np.diag(H) for s in (2, 1, -1, -2)])
            V = F(pts).reshape(4, n, -1)
            D = ((-V[0] + 8 * V[1] - 8 * V[2] + V[3]) / (12 * H[:, None])).T
            e = np.abs(D - J)
            e[~np.isfinite(e)] = np.inf
            m = e < best
            best[m] = e[m]
            bestD[m] = D[m]
        rows = np.sum(np.abs(J) * scale, axis=1) + np.abs(f0)
        tol = 2e-5 * np.maximum(np.abs(J), np.abs(bestD)) + 1e-9 * rows[:, None] / scale + 1e-13
    badm = ~(best <= tol)
    c.count("entries", int(np.count_nonzero(J)))
    c.count("pairs", J.size)
    if badm.any():
        i, j = map(int, np.argwhere(badm)[int(np.argmax((best / tol)[badm]))] if np.isfinite(best[badm]).all() else np.argwhere(badm)[0])
        c.violation(name, f"derivative of row {i} ({who(i)}) by {j} ({who(j)}): {J[i, j]!r}, differences give {bestD[i, j]!r} "
                    f"(x_j = {x[j]!r}); {int(badm.sum())} wrong entries", rep)


def case(labexe):
    def fn(c, rng, d):
        stoch = rng.random() < .2
        prob, g = netgen.make(rng, large=0.03, gas="maybe", power="maybe", nodes=(2, 5), pnodes=(2, 5), steps=(2, 4), stochastic=stoch,
                              constraints=rng.random() < .5, controls=rng.random() < .8)
        for p in prob["topology"]["connections"].get("Pipe", []):
            p["desired_delta_x"] = ph.metres(p["length"]) / rng.choice([.9, 1.9, 2.9])
            p["roughness"]["value"] *= rng.choice([1, 1, 20])
        for t in ("Compressorstation", "Controlvalve"):
            for x in prob["topology"]["connections"].get(t, []):
                if rng.random() < .5:
                    x["cost_weight"] = rng.choice([2.0, 0.5])
        randomize(prob, rng)
        core.write_problem(d, prob)
        npr = np.random.default_rng(rng.randrange(2**32))
        with Lab(labexe) as L:
            try:
                L.load(d)
                body(c, rng, npr, L, prob)
            except LabError as e:
                e2e.refused(c, e, locals().get("rep"))
            except LabDied as e:
                c.violation("crash", str(e), e2e.replay(prob))
    return fn


def body(c, rng, npr, L, prob):
    P = ph.Problem(prob)
    owner = {}
    types = {i: t for i, (t, _) in list(P.nodes.items()) + list(P.edges.items())}
    for i, v in L.indices():
        for k in range(v[1], v[2]):
            owner[k] = f"{types.get(i)}[{k - v[1]}]"
    who = lambda k: owner.get(k, f"#{k}")
    t0 = rng.uniform(P.t0, P.t0 + .5 * (P.t1 - P.t0))
    t1 = t0 + rng.choice([30.0, 300.0, .5 * (P.t1 - P.t0)])
    t1 = min(t1, P.t1)
    x = np.array(L.x0)
    last = x * (1 + npr.uniform(-.05, .05, x.size))
    new = x * (1 + npr.uniform(-.05, .05, x.size))
    u = np.array([rng.choice([0.0, rng.uniform(-10, 10), rng.uniform(0, 8)]) for _ in range(L.nc)])
    rep = dict(e2e.replay(prob), **{"point.json": {"t0": t0, "t1": t1, "last": list(last), "new": list(new), "control": list(u)}})
    L.call("prepare", data=[[t0, t1], last, u])
    f0 = L.eval(t0, t1, last, new, u)[0]
    if not np.all(np.isfinite(f0)):
        c.violation("evaluate", f"equations are not finite at an admissible state: rows {np.flatnonzero(~np.isfinite(f0))[:5]}", rep)
        return
    g0 = L.fun(2, t1, new, u)[0]
    base = [f0, f0, f0, g0, g0] + [L.fun(w, t1, new, u)[0] for w in (0, 0, 1, 1)]
    F = [lambda p: L.eval(t0, t1, last, p, u), lambda p: L.eval(t0, t1, p, new, u), lambda p: L.eval(t0, t1, last, new, p),
         lambda p: L.fun(2, t1, p, u), lambda p: L.fun(2, t1, new, p),
         lambda p: L.fun(0, t1, p, u), lambda p: L.fun(0, t1, new, p),
         lambda p: L.fun(1, t1, p, u), lambda p: L.fun(1, t1, new, p)]
    for w in range(9):
        at = last if w == 1 else u if w in (2, 4, 6, 8) else new
        J = L.jac(w, 0, t0, t1, last, new, u)
        # filled at another state, then refilled in place
        other = (L.x0 * 1.3, L.x0 * .8, u + 1.0)
        L.jac(w, 0, t0, t1, *other)
        J2 = L.jac(w, 1, t0, t1, last, new, u)
        if J.shape != J2.shape or not np.allclose(J, J2, rtol=1e-12, atol=1e-13 * (1 + np.max(np.abs(J), initial=0))):
            c.violation(f"refill {NAMES[w]}", f"refilled matrix differs from the one built anew by {np.max(np.abs(J - J2))}", rep)
        compare(c, NAMES[w], J, F[w], at, base[w], who if w < 3 else (lambda k: f"#{k}"), rep)
        c.count("matrices")
    c.sig(e2e.typesig(P), round(float(np.log10(np.abs(x).min() + 1e-9))))
    for t in set(types.values()):
        c.count("with_" + t)
    if c.i < 3:
        c.sample = {"types": e2e.typesig(P), "states": L.ns, "controls": L.nc, "constraints": L.ng}


def check(ctx):
    labexe, = core.build("plain/lab")
    ctx.rule = ("a case is a network at a random admissible state (all flow regimes, both directions); all nine derivative matrices are "
                "compared with 4th order differences of six step sizes; distinct: mix of component types and smallest state magnitude")
    ctx.assumptions = ["an entry is accepted if any of six step sizes confirms it to 2e-5 relative (or 1e-9 of its row)"]
    e2e.run_cases(ctx, case(labexe), 20000 if ctx.thorough else 1500, 600 if ctx.thorough else 25)
