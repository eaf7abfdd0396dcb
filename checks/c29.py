"""Two descriptions of the same physical network."""
from lib import core, e2e, meta, netgen
from checks.c14 import clone


def rev_entry(e):
    """published entry of a reversed gas edge"""
    f = dict(e)
    for key, sg in (("pressure", 1), ("flow", -1)):
        xs = [p["x"] for p in e[key]]
        vs = [p["value"] for p in e[key]][::-1]
        f[key] = [{"x": x, "value": sg * v} for x, v in zip(xs, vs)]
    return f


def rev_init(g, O, i):
    sec, t, data = O[i]
    return {"id": i, "data": meta.state_values(g, {i: (sec, t, [rev_entry(data[0])])}, i, 0)}


def reverse(c, rng, g, prob, O):
    """edges pointing the other way"""
    q = clone(prob)
    q["initial"] = meta.initial_from(g, O, 0)
    E = dict(O)
    n = 0
    for t in ("Pipe", "Shortpipe", "Transmissionline"):
        for x in q["topology"]["connections"].get(t, []):
            if rng.random() < .5:
                continue
            x["from"], x["to"] = x["to"], x["from"]
            n += 1
            if t == "Transmissionline":
                continue
            i = x["id"]
            init = q["initial"]["connections"][t]
            init[[y["id"] for y in init].index(i)] = rev_init(g, O, i)
            E[i] = (O[i][0], t, [rev_entry(e) for e in O[i][2]])
    return (q, E, f"{n} edges reversed") if n else None


def negative(c, rng, g, prob, O):
    """a sink is a source of negative flow"""
    q = clone(prob)
    n = 0
    moves = []
    for a, b in (("Source", "Sink"), ("Sink", "Source")):
        for x in list(q["topology"]["nodes"].get(a, [])):
            if rng.random() < .5:
                moves.append((a, b, x["id"]))
    for a, b, i in moves:
        for part in ("topology", "boundary"):
            src = q[part]["nodes"][a]
            x = next(y for y in src if y["id"] == i)
            src.remove(x)
            q[part]["nodes"].setdefault(b, []).append(x)
            if part == "boundary":
                for p in x["data"]:
                    p["values"] = [-v for v in p["values"]]
        n += 1
    return (q, O, f"{n} sinks and sources exchanged") if n else None


def innode(c, rng, g, prob, O):
    """an inner node is a source of nothing"""
    q = clone(prob)
    ins = q["topology"]["nodes"].get("Innode", [])
    take = [x for x in ins if rng.random() < .6]
    if not take:
        return None
    for x in take:
        ins.remove(x)
        t = rng.choice(["Source", "Sink"])
        q["topology"]["nodes"].setdefault(t, []).append(x)
        ts = rng.choice([[g.t0, g.t1], [g.t0 - 5, g.t0 + .3 * (g.t1 - g.t0), g.t1 + 1]])
        q["boundary"]["nodes"].setdefault(t, []).append({"id": x["id"], "data": [{"time": s, "values": [0.0]} for s in ts]})
    if not ins:
        del q["topology"]["nodes"]["Innode"]
    return q, O, f"{len(take)} inner nodes made boundary nodes"


def parallel(c, rng, g, prob, O):
    """a line is as good as two of half its admittance"""
    q = clone(prob)
    ls = q["topology"]["connections"].get("Transmissionline", [])
    take = [x for x in ls if rng.random() < .5]
    if not take:
        return None
    for x in take:
        w = rng.choice([.5, .25, rng.random()])
        y = dict(x, id=netgen.ident(rng, "T", g.used))
        y["G"], y["B"] = x["G"] * w, x["B"] * w
        x["G"], x["B"] = x["G"] * (1 - w), x["B"] * (1 - w)
        if rng.random() < .5:
            y["from"], y["to"] = y["to"], y["from"]
        ls.insert(rng.randrange(len(ls) + 1), y)
    return q, O, f"{len(take)} lines doubled"


def shunt(c, rng, g, prob, O):
    """the phase angle has no absolute meaning"""
    q = clone(prob)
    s = rng.choice([1.0, -0.3, 3.0])
    n = 0
    for part in ("boundary",):
        for sec, t, x in meta.comps(q[part]):
            if t in ("Vphinode", "ExternalPowerplant"):
                for p in x["data"]:
                    p["values"][1] += s
                n += 1
    for sec, t, x in meta.comps(q["initial"]):
        if sec == "nodes":
            for p in x["data"]:
                p["values"][1] += s
    E = {}
    for i, (sec, t, data) in O.items():
        E[i] = (sec, t, [dict(e, phi=e["phi"] + s) for e in data]) if sec == "nodes" else O[i]
    return (q, E, f"angles turned by {s}") if n else None


def detour(c, rng, g, prob, O):
    """an edge of a gas network attached by means of a short pipe"""
    q = clone(prob)
    es = [(t, x) for t in ("Pipe", "Shortpipe", "Compressorstation", "Controlvalve") for x in q["topology"]["connections"].get(t, [])]
    take = rng.sample(es, min(len(es), rng.choice([1, 1, 2, 3])))
    if not take:
        return None
    q["initial"] = meta.initial_from(g, O, 0)
    E = dict(O)
    for t, x in take:
        end = rng.choice(["from", "to"])
        at = x[end]
        new = netgen.ident(rng, "n", g.used)
        eid = netgen.ident(rng, "s", g.used)
        x[end] = new
        q["topology"]["nodes"].setdefault("Innode", []).append({"id": new})
        data = []
        fwd = rng.random() < .5
        for e in O[x["id"]][2]:
            j = 0 if end == "from" else -1
            p, f = e["pressure"][j]["value"], e["flow"][j]["value"]
            # flow of the edge in its own direction; the short pipe points to the new node or away from it
            f = f if fwd == (end == "from") else -f
            data.append({"time": e["time"], "pressure": [{"x": 0.0, "value": p}, {"x": 1.0, "value": p}],
                         "flow": [{"x": 0.0, "value": f}, {"x": 1.0, "value": f}]})
        q["topology"]["connections"].setdefault("Shortpipe", []).append({"id": eid, "from": at if fwd else new, "to": new if fwd else at})
        E[eid] = ("connections", "Shortpipe", data)
        q["initial"]["connections"].setdefault("Shortpipe", []).append({"id": eid, "data": meta.state_values(g, E, eid, 0)})
    # at the start the state need not fulfil the coupling conditions
    return q, E, f"{len(take)} edges attached by short pipes"


def union(c, rng, g, prob, O):
    """a second network next to it"""
    h = netgen.Gen(rng, gas="maybe", power="maybe", nodes=(2, 5), pnodes=(2, 5), t0=g.t0)
    h.t0, h.t1, h.dt, h.used = g.t0, g.t1, g.dt, g.used
    p2 = clone(h.problem())
    q = clone(prob)
    for f in ("topology", "boundary", "initial", "control"):
        for sec, t, x in meta.comps(p2.get(f, {})):
            l = q.setdefault(f, {"nodes": {}, "connections": {}}).setdefault(sec, {}).setdefault(t, [])
            l.insert(rng.randrange(len(l) + 1), x)
    other = {x["id"] for _, _, x in meta.comps(p2["topology"])}
    return q, O, f"a network of {len(other)} components next to it", other


KINDS = [reverse, reverse, negative, innode, parallel, shunt, detour, union]


def pairs(exe):
    def fn(c, rng, d):
        g = netgen.Gen(rng, large=.03, gas="maybe", power="maybe", nodes=(2, 7), pnodes=(2, 7), steps=(2, 5))
        prob = clone(g.problem())
        sim = prob["problem_data"]["simulation_settings"]
        sim.update(tolerance=1e-8, use_simplified_newton=rng.random() < .3)
        cs = prob["problem_data"].pop("control_settings", None)
        P, O, ctl, r = e2e.simulate(c, exe, d / "a", prob)
        if O is None:
            return
        if not meta.physical(O.comp):
            c.count("unphysical")
            return
        done = 0
        for kind in rng.sample(KINDS, len(KINDS)):
            if done == 3:
                break
            what = kind(c, rng, g, prob, O.comp)
            if not what:
                continue
            done += 1
            q, E, text = what[:3]
            skip = what[3] if len(what) > 3 else ()
            s, states = meta.run(d / f"{kind.__name__}{done}", q, exe)
            rep = e2e.replay(q, s)
            rep.update({f"original_{k}.json": v for k, v in prob.items() if v is not None})
            if s.crash() or s.timed_out:
                c.violation("crash", f"{text}: {s.crash() or 'hangs'}", rep)
                continue
            if states is None:
                c.failed = f"{text}: {s.text}"
                if not e2e.numerical(s.text):
                    c.violation("refused/" + kind.__name__, f"{text}: {s.text[-300:]}", rep)
                continue
            c.count(kind.__name__)
            c.sig(kind.__name__, text, *e2e.typesig(P))
            dif = meta.diff(E, meta.table(states), skip=skip)
            if dif:
                c.violation(kind.__name__, f"{text}: {dif}", dict(rep, **{"states.json": states, "original_states.json": O.raw}))
            if c.i < 4:
                c.sample = {"change": text, "components": len(O.comp)}
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = "a case is a problem and another description of the same network (distinct: kind and extent of the change, mix of components)"
    ctx.assumptions = ["results of two runs are compared to 2e-6 relative, as either is only solved to its tolerance",
                       "compressor stations and control valves are directed and are not reversed"]
    t = ctx.thorough
    e2e.run_cases(ctx, pairs(exe), 60000 if t else 900, 500 if t else 30, max_fail=.15)
