"""Gas-power couplings recomputed from input and output files alone."""
from lib import core, e2e, netgen, physics as ph, samples

KINDS = {"coupling", "gasflow", "gaspressure"}


def case(exe):
    def fn(c, rng, d):
        # power demand decides the regime: some plants must run far beyond +-60 m^3/s
        prob, g = netgen.make(rng, large=0.03, gas=True, power=True, coupling=True, nodes=(2, 5), pnodes=(2, 5), steps=(2, 5),
                              pressure_nodes=True, controls=rng.random() < .3)
        P, O, ctl, r = e2e.simulate(c, exe, d, prob)
        if O is None:
            return
        e2e.judge(c, P, O, ph.cref(ctl), KINDS, prob, r)
        for eid, (t, e) in P.edges.items():
            if t == "Gaspowerconnection":
                for k in O.comp[eid][2][1:]:
                    q = k["flow"][0]["value"]
                    reg = "g2p" if q > 60 else "p2g" if q < -60 else "pos" if q > 0 else "neg"
                    c.count("regime_" + reg)
                    c.sig(reg, P.nodes[e["from"]][0], round(q), e["gas2power_q_coeff"] > e["power2gas_q_coeff"])
        if c.i < 3:
            c.sample = {"types": e2e.typesig(P), "times": len(P.times)}
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = ("a case is a simulated coupled network; distinct: regime of the coupling, type of its gas node, flow rounded "
                "to 1 m^3/s, order of the coefficients")
    e2e.run_cases(ctx, case(exe), 40000 if ctx.thorough else 3500, 600 if ctx.thorough else 20)
    samples.run(ctx, exe, KINDS, 200 if ctx.thorough else 8, 200 if ctx.thorough else 20)
    for reg in ("g2p", "p2g", "pos", "neg"):
        if not ctx.counters.get("regime_" + reg) and not ctx.violations:
            raise core.HarnessError(f"regime {reg} was never reached")
