"""Index ranges of all components and the reach of their equations."""
import numpy as np
from lib import core, e2e, netgen, physics as ph
from lib.lab import Lab, LabDied, LabError

POWER = ("Vphinode", "PVnode", "PQnode", "StochasticPQnode", "ExternalPowerplant")


def expected(P):
    """id -> (states, controls, constraints) as sets of possible numbers"""
    out = {}
    for i, (t, c) in P.nodes.items():
        out[i] = ({2} if t in POWER else {0}, {0}, {1} if t == "ConstraintSink" else {0})
    for i, (t, c) in P.edges.items():
        if t == "Pipe":
            n = {2 * m for m in ph.grid_options(ph.metres(c["length"]), c["desired_delta_x"])}
        else:
            n = {"Transmissionline": {0}, "Gaspowerconnection": {2}}.get(t, {4})
        out[i] = (n, {1} if t in ("Compressorstation", "Controlvalve") else {0}, {0})
    return out


def ranges(c, L, P, rep):
    """the owner of every state index"""
    ind = L.indices()
    want = expected(P)
    owner = {}
    ids = [i for i, _ in ind]
    if sorted(ids) != sorted(want):
        c.violation("components", f"components of the network differ from those of the topology: {set(ids) ^ set(want)}", rep)
        return None
    for kind, off, total in (("state", 1, L.ns), ("control", 3, L.nc), ("constraint", 5, L.ng)):
        cover = [None] * total
        for i, v in ind:
            a, b = v[off], v[off + 1]
            n = b - a if a >= 0 else 0
            if n not in want[i][(off - 1) // 2]:
                c.violation(f"size/{kind}", f"{i} ({(P.nodes.get(i) or P.edges.get(i))[0]}) has {n} {kind} indices [{a},{b}), expected {want[i][(off - 1) // 2]}", rep)
                return None
            for k in range(a, b) if n else ():
                if not 0 <= k < total:
                    c.violation(f"range/{kind}", f"{kind} index {k} of {i} is not below the total {total}", rep)
                    return None
                if cover[k] is not None:
                    c.violation(f"shared/{kind}", f"{kind} index {k} belongs to {cover[k]} and {i}", rep)
                    return None
                cover[k] = i
        if None in cover:
            c.violation(f"hole/{kind}", f"{kind} index {cover.index(None)} of {total} belongs to nobody", rep)
            return None
        c.count(kind + "s", total)
        if kind == "state":
            owner = cover
    return owner


def case(labexe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.05, gas="maybe", power="maybe", nodes=(2, 9), pnodes=(2, 8), steps=(2, 3), stochastic=rng.random() < .3,
                              constraints=rng.random() < .4)
        core.write_problem(d, prob)
        rep = e2e.replay(prob)
        P = ph.Problem(prob)
        npr = np.random.default_rng(rng.randrange(2**32))
        with Lab(labexe) as L:
            try:
                L.load(d)
                owner = ranges(c, L, P, rep)
                if owner is None:
                    return
                # graph of nodes and edges
                nb = {}
                for e, (t, cc) in P.edges.items():
                    for n in (cc["from"], cc["to"]):
                        nb.setdefault(e, set()).add(n)
                        nb.setdefault(n, set()).add(e)

                def ball(i, r):
                    s = {i}
                    for _ in range(r):
                        s |= {x for y in s for x in nb.get(y, ())}
                    return s
                reach = {i: ball(i, 3 if i in P.edges else 2) for i in set(owner)}
                x = np.array(L.x0)
                u = npr.uniform(0, 5, L.nc)
                t0, t1 = P.times[0], P.times[1]
                L.call("prepare", data=[[t0, t1], x, u])
                last, new = x * (1 + npr.uniform(-.03, .03, x.size)), x * (1 + npr.uniform(-.03, .03, x.size))
                base = L.eval(t0, t1, last, new, u)[0]
                for fill in (float("nan"), 1e6, -3.25):
                    v = L.call("evaldirty", data=[[t0, t1, fill], last, new, u])[1]
                    same = (v == base) | (np.isnan(v) & np.isnan(base)) | (np.abs(v - base) <= 1e-9 * np.abs(base))
                    if not same.all():
                        k = int(np.argmin(same))
                        c.violation("written", f"equation {k} ({owner[k]}) is {v[k]} if the residual is filled with {fill} beforehand, else {base[k]}", rep)
                        return
                if not np.all(np.isfinite(base)):
                    c.violation("unwritten", f"equation {int(np.argmin(np.isfinite(base)))} is not finite", rep)
                    return
                # who influences whom
                comps = sorted(set(owner))
                own = {i: np.array([o == i for o in owner]) for i in comps}
                for which in ("new", "last"):
                    X = np.tile(new if which == "new" else last, (len(comps), 1))
                    for k, i in enumerate(comps):
                        X[k, own[i]] *= 1 + npr.uniform(.01, .03, int(own[i].sum()))
                        X[k, own[i]] += 1e-3
                    V = L.eval(t0, t1, last if which == "new" else X, X if which == "new" else new, u)
                    for k, i in enumerate(comps):
                        changed = np.abs(V[k] - base) > 1e-9 * np.abs(base)
                        for r in np.flatnonzero(changed):
                            o = owner[r]
                            ok = i in reach[o] if which == "new" else i == o
                            if not ok:
                                c.violation(f"reach/{which}", f"equation {r} of {o} depends on the {which} state of {i}, which is not near", rep)
                                return
                        c.count("influences", int(changed.sum()))
                # controls act on their own component only
                for i, v in L.indices():
                    if v[3] >= 0 and v[4] > v[3]:
                        w = u.copy()
                        w[v[3]] += 1.5
                        changed = np.abs(L.eval(t0, t1, last, new, w)[0] - base) > 1e-9 * np.abs(base)
                        if {owner[r] for r in np.flatnonzero(changed)} != {i}:
                            c.violation("reach/control", f"the control of {i} acts on {({owner[r] for r in np.flatnonzero(changed)})}", rep)
                        c.count("controls_moved")
                # constraints depend on the edges of their node only
                if L.ng:
                    g0 = L.fun(2, t1, new, u)[0]
                    rows = {v[5]: i for i, v in L.indices() if v[5] >= 0 and v[6] > v[5]}
                    for k, i in enumerate(comps):
                        y = new.copy()
                        y[own[i]] *= 1.02
                        ch = np.abs(L.fun(2, t1, y, u)[0] - g0) > 1e-12 * np.abs(g0)
                        for r in np.flatnonzero(ch):
                            if i not in nb[rows[r]]:
                                c.violation("reach/constraint", f"the constraint of {rows[r]} depends on {i}, which is not attached", rep)
                        c.count("constraint_influences", int(ch.sum()))
                # every equation restricts something, no column is free
                J = L.jac(0, 0, t0, t1, last, new, u)
                if np.any(~J.any(axis=1)) or np.any(~J.any(axis=0)):
                    k = int(np.argmin(J.any(axis=1))) if np.any(~J.any(axis=1)) else int(np.argmin(J.any(axis=0)))
                    c.violation("empty", f"row or column {k} ({owner[k]}) of the Jacobian is empty", rep)
                c.sig(e2e.typesig(P))
                if c.i < 4:
                    c.sample = {"types": e2e.typesig(P), "states": L.ns, "controls": L.nc, "constraints": L.ng}
            except LabDied as e:
                c.violation("crash", str(e), rep)
            except LabError as e:
                e2e.refused(c, e, locals().get("rep"))
    return fn


def check(ctx):
    labexe, = core.build("plain/lab")
    ctx.rule = ("a case is a network; its index ranges are compared with the component types, and every component's states and controls are "
                "moved to see which equations and constraints react; distinct: mixes of component types")
    e2e.run_cases(ctx, case(labexe), 20000 if ctx.thorough else 1500, 600 if ctx.thorough else 20)
