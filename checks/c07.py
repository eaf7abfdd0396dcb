"""Box scheme and friction recomputed from input and output files alone."""
from lib import core, e2e, netgen, physics as ph, samples

KINDS = {"pipe0", "pipe1", "mass"}


def units(prob, rng):
    for p in prob["topology"]["connections"].get("Pipe", []):
        L = ph.metres(p["length"])
        if rng.random() < .3:
            p["desired_delta_x"] = rng.choice([L / rng.uniform(5, 25), L, L * .51, L * 2])
        if rng.random() < .2:      # rough and smooth pipes
            p["roughness"] = {"value": rng.choice([1e-6, 1e-3, 5e-3]), "unit": "m"}
        if rng.random() < .15:
            p["length"] = {"value": L / 1609.344, "unit": "mi"}
        if rng.random() < .15:
            p["diameter"] = {"value": ph.metres(p["diameter"]) / .0254, "unit": "in"}


def lowflow(prob, rng):
    """tiny flows: laminar and transitional regimes"""
    f = rng.choice([1e-4, 3e-4, 1e-3, 3e-3])
    for k, bs in prob["boundary"]["nodes"].items():
        if k in ("Source", "Sink", "ConstraintSink"):
            for b in bs:
                for e in b["data"]:
                    e["values"] = [v * f for v in e["values"]]
    for k, cs in prob["initial"]["connections"].items():
        if k == "Transmissionline":
            continue
        ps = [e["values"][0] for c in cs for e in c["data"]]
        for c in cs:
            for e in c["data"]:
                e["values"] = [e["values"][0], e["values"][1] * f]


def case(exe):
    def fn(c, rng, d):
        low = rng.random() < .35
        prob, g = netgen.make(rng, large=.03, gas=True, power=False, nodes=rng.choice([(2, 3), (2, 6)]), controls=not low and rng.random() < .3,
                              steps=rng.choice([(2, 5), (5, 15)]))
        if low:
            lowflow(prob, rng)
            prob["problem_data"]["simulation_settings"]["tolerance"] = 1e-9
        units(prob, rng)
        if rng.random() < .2:
            s = prob["problem_data"]["simulation_settings"]
            s["desired_delta_t"] = s["desired_delta_t"] / rng.choice([4, 16])
        P, O, ctl, r = e2e.simulate(c, exe, d, prob)
        if O is None:
            return
        e2e.judge(c, P, O, ph.cref(ctl), KINDS, prob, r)
        for eid, (t, e) in P.edges.items():
            if t == "Pipe":
                D = ph.metres(e["diameter"])
                k = D / (ph.area(D) * ph.ETA) * ph.RHO0
                for s in O.comp[eid][2][1:]:
                    for v in s["flow"]:
                        re = k * abs(v["value"])
                        reg = "laminar" if re < 2000 else "transition" if re < 4000 else "turbulent"
                        c.count("re_" + reg)
                        c.sig(reg, v["value"] > 0, len(s["flow"]), e["length"]["unit"], e["diameter"]["unit"])
        if c.i < 3:
            c.sample = {"types": e2e.typesig(P), "times": len(P.times)}
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = ("a case is a simulated gas network; distinct: friction regime, direction of flow, number of points and units "
                "of a pipe")
    e2e.run_cases(ctx, case(exe), 30000 if ctx.thorough else 2200, 600 if ctx.thorough else 22, max_fail=.3)
    samples.run(ctx, exe, {"pipe0", "pipe1", "mass"}, 200 if ctx.thorough else 8, 200 if ctx.thorough else 20)
    for reg in ("laminar", "transition", "turbulent"):
        if not ctx.counters.get("re_" + reg) and not ctx.violations:
            raise core.HarnessError(f"regime {reg} was never reached")
