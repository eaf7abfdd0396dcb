"""Compressors, control valves and short pipes recomputed from input and output files alone."""
from lib import core, e2e, netgen, physics as ph, samples

KINDS = {"active", "activeflow"}


def case(exe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.03, gas=True, power=rng.random() < .2, need_control=True, nodes=rng.choice([(3, 5), (4, 10)]),
                              steps=rng.choice([(2, 5), (5, 12)]), constraints=rng.random() < .2)
        # optimization data next to a simulation must not matter
        if rng.random() < .2:
            prob["problem_data"]["optimize"] = False
        P, O, ctl, r = e2e.simulate(c, exe, d, prob)
        if O is None:
            return
        e2e.judge(c, P, O, None, KINDS, prob, r)
        mix = tuple((t, sum(1 for x, _ in P.edges.values() if x == t)) for t in ("Compressorstation", "Controlvalve", "Shortpipe"))
        c.sig(mix, len(P.cgrid), len(P.times))
        for t, n in mix:
            c.count(t, n)
        if c.i < 3:
            c.sample = {"mix": mix, "control points": len(P.cgrid), "times": len(P.times)}
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = "a case is a simulated gas network; distinct: numbers of active elements, control points and time points"
    e2e.run_cases(ctx, case(exe), 40000 if ctx.thorough else 3500, 600 if ctx.thorough else 20)
    samples.run(ctx, exe, {"active", "activeflow"}, 200 if ctx.thorough else 8, 200 if ctx.thorough else 20)
