"""Objective, gradient and constraint values of the optimizer."""
import math
import numpy as np
from lib import core, e2e, opt, physics as ph
from lib.lab import Lab, LabDied, LabError, OBJ, COST, PENALTY, CONS, GRAD, STATES
from lib.opt import close

STEPS = (1e-1, 1e-2, 1e-3)


def toy_case(c, rng, L):
    s = opt.toy_subject(rng, L)
    T = s.toy
    ref = T.run(s.times, s.ct, s.gt, s.x)
    if ref is None:
        c.count("skipped")
        return
    s.make()
    order = [OBJ, COST, PENALTY, CONS, GRAD, STATES]
    rng.shuffle(order)
    got = {}
    for k, o in enumerate(order):
        ok, v = L.o(o, s.x, newx=(k == 0))
        if not ok:
            c.violation("toy/refused", f"function {o} fails at a point where the simulation is possible", s.rep(function=o))
            return
        got[o] = v
    sc = 1 + np.max(np.abs(ref["states"]))
    for o, name, want in ((COST, "cost", [ref["cost"]]), (PENALTY, "penalty", [ref["penalty"]]), (OBJ, "objective", [ref["cost"] + ref["penalty"]]),
                          (GRAD, "gradient", ref["grad"]), (CONS, "constraints", ref["cons"]), (STATES, "states", ref["states"].ravel())):
        want = np.asarray(want, float)
        size = (1 + np.max(np.abs(want), initial=0)) * (1 + abs(s.times[-1])) * sc if o in (COST, PENALTY, OBJ, GRAD) else sc**2 * (1 + np.max(np.abs(want), initial=0))
        if not close(got[o], want, 1e-7, 1e-9 * size):
            c.violation("toy/" + name, f"{name} is {got[o][:6]}, must be {want[:6]}", s.rep(got=got[o], want=want))
        c.count("toy_" + name)
    c.sig("toy", T.ns, T.nc, T.ng, len(s.times), len(s.ct), len(s.gt))


def net_case(c, rng, L, d):
    s = opt.network_subject(rng, L, d, constraints=rng.random() < .6)
    if s is None:
        c.count("skipped")
        return
    prob = s.prob
    # a perturbed control vector
    x = s.x + s.npr.uniform(-1, 1, s.x.size) * rng.choice([0, .1, 1.0])
    s.x = x
    s.make()
    ok, obj = L.o(OBJ, x)
    if not ok:
        c.failed = "objective not computable"
        c.count("unsolvable")
        return
    obj = obj[0]
    _, cost = L.o(COST, x, newx=False)
    _, pen = L.o(PENALTY, x, newx=False)
    ok, st = L.o(STATES, x, newx=False)
    okg, g = L.o(GRAD, x, newx=False)
    okc, cons = L.o(CONS, x, newx=False) if L.ng else (True, np.zeros(0))
    if not (ok and okg and okc):
        c.violation("net/refused", "a function fails where the objective is computable", s.rep())
        return
    st = st.reshape(len(s.times), L.ns)
    try:
        ref = L.simulate(s.times, s.ct, x)
    except LabError as e:
        c.violation("net/simulate", f"simulation fails where the optimizer's works: {e}", s.rep())
        return
    if not np.allclose(st, ref, rtol=1e-6, atol=1e-6):
        c.violation("net/states", f"states of the optimizer deviate from the simulation by {np.max(np.abs(st - ref))}", s.rep())
    # the operating cost: the square of the compressors' controls
    P = ph.Problem(prob)
    comp = []
    for i, v in L.indices():
        if v[4 - 1] >= 0 and P.edges.get(i, ("", 0))[0] == "Compressorstation":
            comp.append(v[3])
    w = opt.weights(s.times)
    X = x.reshape(len(s.ct), L.nc)
    U = np.array([[np.interp(t, s.ct, X[:, j]) for j in range(L.nc)] for t in s.times])
    want = float(sum(w[i] * sum(U[i, j]**2 for j in comp) for i in range(1, len(s.times))))
    sc = abs(want) + 1e-9 * w.sum()
    if abs(cost[0] - want) > 1e-9 * sc:
        c.violation("net/cost", f"cost {cost[0]}, compressors' operation costs {want}", s.rep())
    if abs(obj - cost[0] - pen[0]) > 1e-9 * (abs(obj) + abs(pen[0]) + abs(cost[0])):
        c.violation("net/objective", f"objective {obj} is not cost {cost[0]} + penalty {pen[0]}", s.rep())
    # the analytic gradient of the known cost
    gw = np.zeros_like(X)
    for i in range(1, len(s.times)):
        t = s.times[i]
        k = int(np.clip(np.searchsorted(s.ct, t, side="left"), 1, len(s.ct) - 1))
        lam = min(1.0, (t - s.ct[k - 1]) / (s.ct[k] - s.ct[k - 1]))
        for j in comp:
            gw[k - 1, j] += (1 - lam) * 2 * U[i, j] * w[i]
            gw[k, j] += lam * 2 * U[i, j] * w[i]
    gsc = 2 * np.max(np.abs(U), initial=0) * w.sum()
    if pen[0] == 0 and not close(g, gw.ravel(), 1e-6, 1e-9 * gsc + 1e-12):
        j = int(np.argmax(np.abs(g - gw.ravel())))
        c.violation("net/gradient", f"gradient[{j}] is {g[j]}, must be {gw.ravel()[j]}", s.rep(got=g, want=gw))
    # constraint values: pressures of the ConstraintSinks along the simulated trajectory
    if L.ng:
        want = []
        for t in s.gt:
            k = int(np.argmin(np.abs(s.times - t)))
            u = U[k]
            want.append(L.fun(2, t, st[k], u)[0])
        want = np.ravel(want)
        if not close(cons, want, 1e-9, 1e-9):
            c.violation("net/constraints", f"constraints {cons[:5]} are not those of the states at the constraint times {want[:5]}", s.rep())
        # and they are pressures in bar
        ends = {}
        ind = {i: v for i, v in L.indices()}
        for i, v in ind.items():
            if v[5] >= 0 and v[5] < v[6]:
                att = [(e, 0 if cc["from"] == i else 1) for e, (t, cc) in P.edges.items() if t not in ("Transmissionline",) and i in (cc["from"], cc["to"])]
                ends[v[5]] = (i, att[0])
        for row, (i, (e, side)) in ends.items():
            ty = P.edges[e][0]
            sv = ind[e]
            for m, t in enumerate(s.gt):
                k = int(np.argmin(np.abs(s.times - t)))
                z = st[k, sv[1]:sv[1] + 2] if side == 0 else st[k, sv[2] - 2:sv[2]]
                p = ph.p_of_rho(z[0]) / ph.BAR if ty == "Pipe" else z[0]
                if not abs(cons[m * L.ng + row] - p) <= 1e-6 * (1 + abs(p)):
                    c.violation("net/pressure", f"constraint of {i} at {t} is {cons[m * L.ng + row]}, the pressure of {e} there is {p} bar", s.rep())
        c.count("constraint_values", cons.size)
    # directional differences of the objective
    v = s.npr.normal(size=x.size)
    best = math.inf
    for h in STEPS:
        f = []
        for k in (2, 1, -1, -2):
            ok, y = L.o(OBJ, x + k * h * v)
            f.append(y[0] if ok else math.nan)
        D = (-f[0] + 8 * f[1] - 8 * f[2] + f[3]) / (12 * h)
        if math.isfinite(D):
            best = min(best, abs(D - g @ v))
    if math.isfinite(best) and best > 1e-5 * (np.abs(g) @ np.abs(v)) + 1e-7 * abs(obj) + 1e-9:
        c.violation("net/difference", f"the gradient deviates by {best} from the objective's differences ({g @ v})", s.rep(direction=v))
    c.count("net_gradients")
    c.sig("net", e2e.typesig(P), len(s.times), len(s.ct), len(s.gt))
    if c.i < 6:
        c.sample = {"types": e2e.typesig(P), "cost": cost[0], "gradient norm": float(np.linalg.norm(g)), "constraints": cons[:3].tolist()}


def case(labexe):
    def fn(c, rng, d):
        with Lab(labexe) as L:
            try:
                if rng.random() < .45:
                    for _ in range(6):
                        toy_case(c, rng, L)
                else:
                    net_case(c, rng, L, d)
            except LabDied as e:
                c.violation("crash", str(e), str(e))
            except LabError as e:
                e2e.refused(c, e, locals().get("rep"))
    return fn


def check(ctx):
    labexe, = core.build("plain/lab")
    ctx.rule = ("a case is an optimizer on a synthetic nonlinear problem (values known from forward sensitivities) or on a random network "
                "(values recomputed from the simulated trajectory); distinct: sizes, component types and grid sizes")
    ctx.assumptions = ["operating costs are the squares of the compressors' controls (cost_weight is not used by the program)"]
    e2e.run_cases(ctx, case(labexe), 40000 if ctx.thorough else 1500, 600 if ctx.thorough else 22)
