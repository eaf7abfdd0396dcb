"""Every reported state solves the equations of its step; otherwise an error and no results."""
import math
import numpy as np
from lib import core, e2e, netgen, physics as ph, samples
from lib.lab import Lab, LabDied, LabError


def hostile(prob, rng):
    s = prob["problem_data"]["simulation_settings"]
    s["maximal_number_of_newton_iterations"] = rng.choice([0, 1, 1, 2, 3, 4, 6, 100])
    s["retries"] = rng.choice([0, 0, 1, 2, 3])
    s["tolerance"] = 10.0 ** rng.uniform(-13, -1)
    kind = rng.choice(["plain", "plain", "initial", "jump", "extreme"])
    ini = prob["initial"]
    if kind == "initial":
        f = rng.choice([0.3, 0.7, 1.5])
        for t, cs in ini["connections"].items():
            for c in cs:
                for e in c["data"]:
                    e["values"] = [e["values"][0] * rng.uniform(1 - .5 * f, 1 + f), e["values"][1] + rng.uniform(-50, 50) * f]
        for t, cs in ini["nodes"].items():
            for c in cs:
                for e in c["data"]:
                    e["values"] = [e["values"][0] * rng.uniform(1 - .3 * f, 1 + .3 * f), e["values"][1] + rng.uniform(-1, 1) * f]
    elif kind == "jump":
        for part in prob["boundary"].values():
            for t, cs in part.items():
                for c in cs:
                    k = rng.randrange(len(c["data"]))
                    c["data"][k]["values"] = [v * rng.uniform(-2, 5) for v in c["data"][k]["values"]]
    elif kind == "extreme":
        allc = [e for part in (ini, prob["boundary"]) for p in part.values() for cs in p.values() for c in cs for e in c["data"]]
        if allc:
            for _ in range(rng.randint(1, 3)):
                e = rng.choice(allc)
                k = rng.randrange(len(e["values"]))
                e["values"][k] = rng.choice([0.0, -1.0, 1e-300, 1e300, 1e12, -1e12, 1e5, -60.0])
    return kind


def labnorms(lab, P, d):
    """residual norms of a simulation with the library"""
    lab.load(d)
    cv = lab.controls(P.cgrid) if lab.nc else np.zeros((0, 0))
    ct = P.cgrid if lab.nc else []
    X = lab.simulate(P.times, ct, cv)
    out = []
    for k in range(1, len(P.times)):
        # the control in force
        u = [float(np.interp(P.times[k], P.cgrid, cv[:, j])) for j in range(lab.nc)] if lab.nc else []
        r = lab.eval(P.times[k - 1], P.times[k], X[k - 1], X[k], u)[0]
        out.append(float(np.linalg.norm(r)))
    return X, out


def case(exe, labexe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.03, gas="maybe", power="maybe", nodes=(2, 6), steps=(2, 6), constraints=rng.random() < .1)
        kind = "standard"
        if rng.random() < .6:
            kind = hostile(prob, rng)
        P, O, ctl, r = e2e.simulate(c, exe, d, prob, expect_ok=(kind == "standard"))
        if c.viol:
            return
        rep = e2e.replay(prob, r)
        Pr = ph.Problem(prob)
        simp = prob["problem_data"]["simulation_settings"]["use_simplified_newton"]
        with Lab(labexe) as lab:
            try:
                X, norms = labnorms(lab, P or Pr, d)
                ok = True
            except LabError as e:
                ok, err = False, str(e)
            except LabDied as e:
                c.violation("crash/lab", str(e), rep)
                return
        if r.rc == 0:
            if not ok:
                c.violation("verdict", f"the executable reports success, the library fails: {err}", rep)
                return
            worst = max(norms)
            if not worst <= Pr.tol * (1 + 1e-6):
                c.violation("norm/" + ("simplified" if simp else "full"), f"residual norms {norms} exceed the tolerance {Pr.tol} ({kind})", rep)
            e2e.judge(c, P, O, ph.cref(ctl), None if Pr.tol >= 1e-10 else {"gasflow", "gaspressure", "active"}, prob, r)
            c.count("steps_checked", len(norms))
            c.count("solved_" + kind)
            c.sig("ok", kind, simp, round(math.log10(Pr.tol)), prob["problem_data"]["simulation_settings"]["maximal_number_of_newton_iterations"])
        else:
            if ok:
                c.violation("verdict2", f"the executable fails, the library succeeds: {r.text[-300:]}", rep)
            if "rror" not in r.text:
                c.violation("message", f"failure without a message: {r.text[-300:]}", rep)
            if any(f.stat().st_size for f in d.rglob("states.json")):
                c.violation("states", "a failed run wrote states", rep)
            c.count("refused_" + kind)
            c.sig("fail", kind, simp, (r.text.strip().splitlines() or [""])[-1][:40])
        if c.i < 4:
            c.sample = {"kind": kind, "rc": r.rc, "tolerance": Pr.tol, "norms": norms[:4] if ok else None}
    return fn


def check(ctx):
    exe, labexe = core.build("plain/grazer", "plain/lab")
    ctx.rule = ("a case is a network with standard or hostile solver settings, initial and boundary values, run by the executable and "
                "the library; distinct: outcome, kind of hostility, Newton variant, order of the tolerance and iteration limit or message")
    e2e.run_cases(ctx, case(exe, labexe), 30000 if ctx.thorough else 2500, 600 if ctx.thorough else 22, max_fail=.04)
    samples.run(ctx, exe, None, 200 if ctx.thorough else 8, 200 if ctx.thorough else 20)
