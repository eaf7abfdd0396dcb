"""Optimizations judged from their input, output and log."""
import numpy as np
from lib import core, e2e, netgen, opt, opte2e as oe, physics as ph, samples
from lib.lab import Lab, LabDied, LabError
from checks import c02


def case(exe):
    def fn(c, rng, d):
        made = oe.make(c, rng, exe, d, constraints=rng.random() < .85)
        if made is None:
            c.count("skipped")
            return
        judge(c, rng, exe, d, *made)
    return fn


def judge(c, rng, exe, d, prob, P0, O0, its=(2, 5, 60, 60, 60, 60)):
    r = oe.run(exe, d / "opt", prob, it=rng.choice(its))
    rep = dict(e2e.replay(prob, r), **{"ipopt.opt": (d / "opt" / "ipopt.opt").read_text()})
    if r.timed_out:
        c.count("timeout")
        return
    if r.crash():
        c.violation("crash", r.crash(), rep)
        return
    text = r.text
    optimal = "EXIT: Optimal Solution Found" in text
    failed = "FAILED" in text or "failed" in text.lower().replace("restoration failed", "failed")
    if r.rc != 0:
        c.count("errors")
        if optimal:
            c.violation("optimum lost", f"an optimum was found, but the run ends with {r.rc}: {text[-400:]}", rep)
        s, _ = core.read_output(d / "opt")
        if s is not None:
            c.violation("results of failure", "the run reports an error and leaves results", rep)
        return
    if "EXIT:" in text and not optimal and not failed:
        c.violation("failure unreported", f"Ipopt did not find an optimum and nothing says so: {text[text.index('EXIT:'):][:200]}", rep)
    if optimal and "FAILED TO FIND" in text:
        c.violation("success denied", "Ipopt found an optimum, the run reports a failure", rep)
    s, ctl = core.read_output(d / "opt")
    if s is None or ctl is None or "__broken__" in s or "__broken__" in ctl:
        c.violation("output", "a finished optimization left no complete results", rep)
        return
    P, O = ph.Problem(prob), None
    rep["states.json"], rep["controls.json"] = s, ctl
    try:
        O = ph.Output(s)
        for k, m in ph.structure(P, O):
            c.violation("structure/" + k, m, rep)
            return
        u = ph.cref(ctl)
    except (KeyError, ValueError, TypeError) as e:
        c.violation("output", f"unusable results: {e!r}", rep)
        return
    # the controls: all components, the control grid, the bounds
    if set(u) != set(P.ctrl):
        c.violation("controls", f"published controls of {sorted(u)}, controlled are {sorted(P.ctrl)}", rep)
        return
    for part in ctl:
        for t, cs in ctl[part].items():
            for x in cs:
                if P.edges.get(x["id"], ("",))[0] != t:
                    c.violation("controls/type", f"the control of {x['id']} is filed under {t}", rep)
    set_ = prob["problem_data"].get("control_settings")
    for i, data in u.items():
        ts = np.array([e["time"] for e in data])
        opts = {len(P.times)} if set_ is None else {set_["number_of_steps"]} if "number_of_steps" in set_ else ph.grid_options(P.t1 - P.t0, set_["desired_delta_t"])
        if len(ts) not in opts:
            c.violation("control grid", f"{i}: {len(ts)} control points instead of {opts}", rep)
            return
        if np.max(np.abs(ts - np.linspace(P.t0, P.t1, len(ts)))) > 1e-9 * max(1, abs(P.t0), abs(P.t1)):
            c.violation("control grid", f"{i}: control points {ts}", rep)
            return
        lo, up = oe.bounds(prob, "lower_bounds")[i], oe.bounds(prob, "upper_bounds")[i]
        for e in data:
            v = e["values"][0]
            a, b = ph.interp(lo, e["time"])[0], ph.interp(up, e["time"])[0]
            if a > b:
                continue
            eps = 1e-7 * max(1, abs(a), abs(b))
            c.count("control_values")
            c.count("at_bounds", int(min(v - a, b - v) < 1e-4))
            if not a - eps <= v <= b + eps:
                c.violation("bounds", f"{i} at {e['time']}: control {v} is not in [{a}, {b}]", rep)
    # the states are the trajectory of these controls
    e2e.judge(c, P, O, u, None, prob, r, keyprefix="trajectory/")
    c02.state0(c, P, O, rep)
    # constraints
    ids = oe.sinks(prob)
    pr = oe.pressures(P, O, ids)
    idx = oe.constraint_times(P, prob)
    vl = vu = 0.0
    glo, gup = oe.bounds(prob, "constraint_lower_bounds"), oe.bounds(prob, "constraint_upper_bounds")
    for i in ids:
        for k in idx:
            a, b = ph.interp(glo[i], P.times[k])[0], ph.interp(gup[i], P.times[k])[0]
            vl, vu = max(vl, a - pr[i][k]), max(vu, pr[i][k] - b)
            c.count("constraint_values")
            if optimal and not a - 3e-4 <= pr[i][k] <= b + 3e-4:
                c.violation("constraint", f"an optimum is reported; the pressure of {i} at {P.times[k]} (point {k} of {len(P.times) - 1}) is {pr[i][k]}, not in [{a}, {b}]", rep)
            if optimal and min(abs(pr[i][k] - a), abs(pr[i][k] - b)) < 1e-2:
                c.count("active_constraints")
    for name, v in (("lower", vl), ("upper", vu)):
        w = oe.printed(text, f"Maximum {name} constraint violation:")
        if ids and (w is None or abs(w - v) > 1e-4 * abs(v) + 2e-6):
            c.violation("reported violation", f"the reported {name} constraint violation is {w}, that of the published states is {v}", rep)
    # the number of constraints Ipopt sees
    neq = oe.printed(text, "Total number of inequality constraints...............:")
    n1 = oe.printed(text, "Total number of equality constraints.................:")
    if neq is not None and n1 is not None and neq + n1 != len(ids) * len(idx):
        c.violation("constraint grid", f"Ipopt has {neq} + {n1} constraints, {len(ids)} nodes at {len(idx)} times are expected", rep)
    # costs
    want = oe.cost(P, u)
    got = oe.printed(text, "\nCost:")
    scale = 1e-4 * abs(want) + 1e-6 * (P.t1 - P.t0)
    if got is None or abs(got - want) > scale:
        c.violation("cost", f"the reported cost is {got}, that of the published controls is {want}", rep)
    pen, obj = oe.printed(text, "Penalty:"), oe.printed(text, "Overall objective:")
    # an optimization that fails at its first point never sees an objective
    seen = optimal or oe.printed(text, "Number of objective function evaluations             =") != 0
    if None in (pen, obj) or seen and abs(obj - want - pen) > scale + 1e-4 * abs(pen):
        c.violation("objective", f"the reported objective is {obj}, the cost is {want}, the penalty {pen}", rep)
    # compared to the initial controls
    u0 = {i: [{"time": t, "values": [P0.control(i, t)]} for t in P.cgrid] for i in P.ctrl}
    p0 = oe.pressures(P0, O0, ids)
    inside = all(ph.interp(oe.bounds(prob, "lower_bounds")[i], e["time"])[0] - 1e-9 <= e["values"][0] <= ph.interp(oe.bounds(prob, "upper_bounds")[i], e["time"])[0] + 1e-9
                 for i, data in u0.items() for e in data)
    feasible = inside and all(ph.interp(glo[i], P.times[k])[0] <= p0[i][k] <= ph.interp(gup[i], P.times[k])[0] for i in ids for k in idx)
    if optimal:
        c.count("optimal")
        if feasible:
            c.count("feasible_start")
            j0 = oe.cost(P, u0)
            if want > j0 * (1 + 1e-6) + 1e-5 * (P.t1 - P.t0):
                c.violation("worse", f"the optimum costs {want}, the feasible initial controls {j0}", rep)
            c.count("improved", int(want < .99 * j0))
    else:
        c.count("not_optimal")
    c.sig(e2e.typesig(P), len(idx), optimal)
    if c.i < 4:
        c.sample = {"types": e2e.typesig(P), "control points": len(P.cgrid), "constraints": len(ids) * len(idx), "optimal": optimal, "cost": want}


def stationary(x, lo, up, g, J, cons, glo, gup, act=1e-3):
    """distance of the gradient from the cone of the active bounds' and constraints' gradients"""
    from scipy.optimize import nnls
    cols = []
    for j in range(len(x)):
        e = np.zeros(len(x))
        e[j] = 1
        cols += [e] * int(x[j] - lo[j] < act) + [-e] * int(up[j] - x[j] < act)
    for i in range(len(cons)):
        cols += [J[i]] * int(cons[i] - glo[i] < act) + [-J[i]] * int(gup[i] - cons[i] < act)
    if not cols:
        return float(np.linalg.norm(g))
    return nnls(np.array(cols).T, g)[1]


def synthetic(c, rng, L, d):
    """a synthetic problem with known values, through the adaptor and Ipopt"""
    it = rng.choice([rng.randint(0, 20), 300, 300, 300])
    (d / "ipopt.opt").write_text(f"max_iter {it}\nmax_cpu_time 20\nsb yes\n")
    s = opt.toy_subject(rng, L, fail=rng.choice([1e9, 1e9, .7]))
    n, m = s.x.size, len(s.gt) * L.ng
    a, b = s.npr.uniform(-1, 0, n), s.npr.uniform(0, 1, n)
    s.x = np.clip(s.x, a, b) if rng.random() < .7 else s.x
    r0 = s.toy.run(s.times, s.ct, s.gt, s.x)
    g0 = r0["cons"] if r0 is not None else np.zeros(m)
    shift = rng.choice([0, 0, 0, s.npr.uniform(-.5, .5), 1.0])
    w = rng.choice([1, .1])
    glo, gup = g0 + shift - np.abs(s.npr.uniform(.01, w, m)), g0 + shift + np.abs(s.npr.uniform(.01, w, m))
    # what Ipopt is told
    s.wrapped = True
    s.make(a, b, glo, gup)
    ints, parts = L.nlp()
    rep = s.rep(lower=a, upper=b, constraint_lower=glo, constraint_upper=gup, **{"ipopt.opt": it})
    c.count("told_problems")
    if parts is None:
        c.violation("told", f"Ipopt is told sizes {ints}, there are {n} controls, {m} constraints, {L.nnz} derivatives", rep)
        return
    for name, v, w in zip(("lower bounds", "upper bounds", "lower constraint bounds", "upper constraint bounds", "start"), parts, (a, b, glo, gup, s.x)):
        if v.shape != np.shape(w) or not np.allclose(v, w, rtol=1e-10, atol=1e-12):
            c.violation("told/" + name, f"the {name} told to Ipopt are {v}, given were {w}", rep)
            return
    ok, rows, cols = L.struct()
    if ints[4] != 1 or not np.array_equal(parts[5], rows) or not np.array_equal(parts[6], cols):
        c.violation("told/structure", "the structure of the constraint Jacobian told to Ipopt is not that of the optimizer", rep)
        return
    # the answer kept at the end of an optimization
    if r0 is not None:
        x1 = np.clip(s.x + s.npr.uniform(-.3, .3, n), a, b)
        r1 = s.toy.run(s.times, s.ct, s.gt, x1)
        ok1 = L.o(0, s.x)[0] and L.o(0, x1)[0]
        if r1 is not None and ok1:
            got = L.finalize(x1, r1["cons"], r1["cost"] + r1["penalty"], rng.random() < .7)
            want = (r1["cost"] + r1["penalty"], r1["cost"], r1["penalty"], x1, r1["cons"])
            for name, v, w in zip(("objective", "cost", "penalty", "solution", "constraints"), got, want):
                if not opt.close(v, w, 1e-6, 1e-8):
                    c.violation("kept/" + name, f"after the end of an optimization the {name} is {v}, must be {w}", rep)
                    return
    # the whole
    s.wrapped = False
    s.make(a, b, glo, gup)
    st, o, co, pe, x = L.ipopt()
    c.count("synthetic_optimizations")
    c.sig("synthetic", s.toy.ns, s.toy.nc, s.toy.ng, len(s.times), len(s.ct), len(s.gt), st)
    if not x.size:
        c.count("synthetic_unsolved")
        if r0 is not None and st == 0:
            c.violation("synthetic/nothing", "success without a solution", rep)
        return
    r = s.toy.run(s.times, s.ct, s.gt, x)
    if r is None:
        c.count("synthetic_unsolved")
        return
    if not (opt.close(co, r["cost"], 1e-5, 1e-7) and opt.close(pe, r["penalty"], 1e-5, 1e-7)):
        c.violation("synthetic/cost", f"status {st}: cost {co} and penalty {pe} are reported, those of the solution are {r['cost']} and {r['penalty']}", dict(rep, x=x.tolist()))
    if st != 0:
        return
    c.count("synthetic_optimal")
    if not opt.close(o, r["cost"] + r["penalty"], 1e-5, 1e-6):
        c.violation("synthetic/objective", f"the reported objective is {o}, that of the solution {r['cost'] + r['penalty']}", dict(rep, x=x.tolist()))
    if np.any(x < a - 1e-7) or np.any(x > b + 1e-7):
        c.violation("synthetic/bounds", f"the optimal controls {x} leave their bounds {a}, {b}", rep)
    if np.any(r["cons"] < glo - 3e-4) or np.any(r["cons"] > gup + 3e-4):
        c.violation("synthetic/constraints", f"the constraints {r['cons']} of the optimal controls leave their bounds {glo}, {gup}", dict(rep, x=x.tolist()))
    res = stationary(x, a, b, r["grad"], r["cjac"], r["cons"], glo, gup)
    if res > 1e-3 * (1 + np.linalg.norm(r["grad"])):
        c.violation("synthetic/stationary", f"the optimal controls are not stationary: the gradient {r['grad']} is {res} away from that of the active bounds", dict(rep, x=x.tolist()))
    if r0 is not None and np.all((s.x >= a) & (s.x <= b)) and np.all((r0["cons"] >= glo) & (r0["cons"] <= gup)):
        c.count("synthetic_feasible_start")
        if o > r0["cost"] + r0["penalty"] + 1e-5 * (1 + abs(o)):
            c.count("synthetic_worse")     # another local minimum: possible


def both(exe, labexe):
    whole = case(exe)

    def fn(c, rng, d):
        if rng.random() < .75:
            whole(c, rng, d)
            return
        d.mkdir(parents=True, exist_ok=True)
        try:
            with Lab(labexe, cwd=d) as L:
                for _ in range(5):
                    synthetic(c, rng, L, d)
        except LabDied as e:
            c.violation("crash", str(e), str(e))
        except LabError as e:
            e2e.refused(c, e, None)
    return fn


def sample(exe):
    """the optimization problems that come with grazer, on shorter horizons"""
    def fn(c, rng, d):
        names = [n for n in samples.available() if "constraint_lower_bounds" in samples.load(n)]
        if not names:
            return
        name = names[c.i % len(names)]
        prob = samples.vary(samples.load(name), rng)
        pd = prob["problem_data"]
        pd["control_settings"] = {"number_of_steps": rng.choice([2, 3, 4])}
        pd["constraint_settings"] = {"evaluate_constraints_every_n": rng.choice([1, 2, 3, 10])}
        s = pd["simulation_settings"]
        s.update(end_time=s["start_time"] + rng.randint(3, 6) * s["desired_delta_t"], tolerance=1e-8)
        P, O, _, r = e2e.simulate(c, exe, d / "sim", prob)
        if O is None:
            return
        pd["optimize"] = True
        c.count("sample_optimizations")
        judge(c, rng, exe, d, prob, P, O, its=(1, 2, 3, 20))
    return fn


def check(ctx):
    exe, labexe = core.build("plain/grazer", "plain/lab")
    ctx.rule = ("a case is an optimization of a random gas network with random bounds of controls and pressures, feasible or not, on random control "
                "and constraint grids, or of a synthetic problem with known values and derivatives through the adaptor for Ipopt; distinct: component types, number of constraint times and outcome")
    ctx.assumptions = ["Ipopt's default tolerances (constraints to 1e-4, bounds relaxed by 1e-8) are granted"]
    e2e.run_cases(ctx, both(exe, labexe), 20000 if ctx.thorough else 400, 600 if ctx.thorough else 50, chunksize=1)
    e2e.run_cases(ctx, sample(exe), 200 if ctx.thorough else 8, 300 if ctx.thorough else 25, first=2 * 10**6, chunksize=1)
