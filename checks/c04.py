"""Gas nodes: flow balance and equal pressures, from input and output files alone."""
from lib import core, e2e, netgen, physics as ph, samples


def case(exe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.03, gas=True, power=rng.random() < .3, nodes=rng.choice([(2, 4), (3, 8), (6, 14)]),
                              steps=(3, 6), constraints=rng.random() < .3)
        P, O, ctl, r = e2e.simulate(c, exe, d, prob)
        if O is None:
            return
        e2e.judge(c, P, O, ph.cref(ctl), {"gasflow", "gaspressure"}, prob, r)
        deg = {}
        for t, e in P.edges.values():
            if t != "Transmissionline":
                for w in ("from", "to"):
                    n = e[w]
                    deg.setdefault(n, []).append(("+" if w == "from" else "-") + t)
        for n, att in deg.items():
            if n in P.nodes and P.nodes[n][0] in GASNODES:
                c.sig(P.nodes[n][0], tuple(sorted(att)))
                c.count("node_" + P.nodes[n][0])
                c.count("degree_%d" % min(len(att), 6))
        if c.i < 3:
            c.sample = {"types": e2e.typesig(P), "times": len(P.times)}
    return fn


GASNODES = ("Source", "Sink", "ConstraintSink", "Innode", "Pressureboundarynode")




def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = ("a case is a simulated random gas(-power) network; non-trivial and distinct: a node type "
                "with its multiset of attached edge types and directions")
    e2e.run_cases(ctx, case(exe), 40000 if ctx.thorough else 3000, 600 if ctx.thorough else 20)
    samples.run(ctx, exe, {"gasflow", "gaspressure"}, 200 if ctx.thorough else 8, 200 if ctx.thorough else 20)
