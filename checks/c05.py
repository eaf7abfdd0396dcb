"""AC power flow recomputed from input and output files alone."""
from lib import core, e2e, netgen, physics as ph, samples

KINDS = {"power", "powerout"}


def case(exe):
    def fn(c, rng, d):
        coupled = rng.random() < .25
        prob, g = netgen.make(rng, large=0.04, gas=coupled, power=True, coupling=coupled, stochastic=rng.random() < .4, nodes=(2, 3),
                              pnodes=rng.choice([(2, 4), (3, 9), (8, 16)]), steps=(2, 6))
        if rng.random() < .5:      # defaults and unusual admittances
            for t, ns in prob["topology"]["nodes"].items():
                for n in ns:
                    if "G" in n and rng.random() < .4:
                        n["G"] += rng.choice([0.5, 1.0, -0.2])
                        n["B"] += rng.choice([0.1, -0.1])
        P, O, ctl, r = e2e.simulate(c, exe, d, prob)
        if O is None:
            return
        e2e.judge(c, P, O, None, KINDS, prob, r)
        deg = {}
        for t, e in P.edges.values():
            if t == "Transmissionline":
                deg.setdefault(e["from"], []).append("+")
                deg.setdefault(e["to"], []).append("-")
        for n, a in deg.items():
            c.sig(P.nodes[n][0], "".join(sorted(a)), len(P.bnd.get(n, {}).get("data", [])))
            c.count("node_" + P.nodes[n][0])
        if c.i < 3:
            c.sample = {"types": e2e.typesig(P), "times": len(P.times)}
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = ("a case is a simulated random power grid (sometimes coupled to gas); distinct: a node type with the "
                "orientations of its attached lines and the number of its boundary values")
    e2e.run_cases(ctx, case(exe), 40000 if ctx.thorough else 3000, 600 if ctx.thorough else 20, max_fail=.2)
    samples.run(ctx, exe, KINDS, 200 if ctx.thorough else 8, 200 if ctx.thorough else 20)
