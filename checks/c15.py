"""The same problem with its entries in another order, with surplus entries, with other ids."""
import copy, json
from lib import core, corrupt, e2e, meta, netgen
from checks.c14 import clone

FILES = ("topology", "boundary", "initial", "control")


def shuffled(rng, x, key=None):
    """other order of components and keys; data points keep their order"""
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return {k: shuffled(rng, x[k], k) for k in ks}
    if isinstance(x, list):
        y = [shuffled(rng, v) for v in x]
        if x and isinstance(x[0], dict) and "id" in x[0]:
            how = rng.random()
            if how < .6:
                rng.shuffle(y)
            elif how < .8:
                y.reverse()
            else:
                y.sort(key=lambda v: v["id"], reverse=rng.random() < .5)
        return y
    return x


def surplus(c, rng, prob):
    """entries for components that are not in the topology"""
    used = {x["id"] for s, t, cs, k in corrupt.comps(prob["topology"]) for x in [cs[k]]}
    all_types = ["Source", "Sink", "Pressureboundarynode", "PQnode", "PVnode", "Vphinode", "Innode", "ConstraintSink"]
    for f in ("boundary", "initial", "control"):
        if f not in prob:
            continue
        for _ in range(rng.choice([0, 1, 2, 4])):
            cs = corrupt.comps(prob[f])
            if not cs:
                continue
            s, t, l, k = rng.choice(cs)
            e = clone(l[k])
            # neighbours of existing ids, extreme ids
            i = rng.choice(sorted(used))
            new = rng.choice([i + "0", i + " ", i[:-1], "", "!", "~~", "zzz", "AAA", "Ω", i.upper(), i.lower(), "0"])
            if new in used or any(x["id"] == new for x in l):
                continue
            e["id"] = new
            for p in e["data"]:
                p["values"] = [v * 3 + 7 for v in p["values"]]
            if rng.random() < .75:
                l.insert(rng.randrange(len(l) + 1), e)
                used.add(new)
            elif f == "boundary":
                # a type that does not occur in the topology
                t2 = rng.choice(all_types)
                if t2 not in prob["topology"].get(s, {}):
                    prob[f].setdefault(s, {}).setdefault(t2, []).append(e)
                    used.add(new)
                else:
                    continue
            else:
                continue
            c.count("surplus_" + f)


def renamed(rng, prob):
    """other ids, chosen such that other orders of components result"""
    ids = sorted({x["id"] for s, t, cs, k in corrupt.comps(prob["topology"]) for x in [cs[k]]})
    used = set()
    new = {}
    for i in ids:
        while True:
            n = rng.choice(["", "a", "A", "n", "10", "9", "é", "\\", "\"", "/", ".", "_", "\n", "id", "null", "{}"]) + str(rng.choice([rng.randrange(30), rng.randrange(10**7)])) + rng.choice(["", "", " ", "x", "\t"])
            if n not in used:
                break
        used.add(n)
        new[i] = n
    q = clone(prob)
    for f in FILES:
        if f in q:
            for s, t, cs, k in corrupt.comps(q[f]):
                e = cs[k]
                e["id"] = new[e["id"]]
                for end in ("from", "to"):
                    if end in e:
                        e[end] = new[e[end]]
    return q, new


def far(a, b, scale):
    return not abs(a - b) <= 2e-6 * max(abs(a), abs(b), scale)


def compare(O1, O2, name=lambda i: i):
    """first difference of two outputs"""
    if {name(i) for i in O1} != set(O2):
        return f"components {sorted(O1)[:5]} and {sorted(O2)[:5]}"
    for i in O1:
        s, t, x = O1[i]
        s2, t2, y = O2[name(i)]
        if (s, t) != (s2, t2) or len(x) != len(y):
            return f"{i}: {s}/{t} with {len(x)} times, {s2}/{t2} with {len(y)} times"
        for p, q in zip(x, y):
            if p.keys() != q.keys():
                return f"{i}: keys {sorted(p)} and {sorted(q)}"
            for k in p:
                u, v = p[k], q[k]
                if isinstance(u, list):
                    if len(u) != len(v):
                        return f"{i}/{k}: sizes {len(u)} and {len(v)}"
                    for e, f in zip(u, v):
                        if any(far(e[z], f[z], 1.0) for z in e if isinstance(e[z], (int, float))):
                            return f"{i}/{k} at time {p.get('time')}: {e} and {f}"
                elif isinstance(u, (int, float)) and far(u, v, 1.0):
                    return f"{i}/{k} at time {p.get('time')}: {u!r} and {v!r}"
    return None


def same(exe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.04, gas="maybe", power="maybe", nodes=(2, 7), pnodes=(2, 7), steps=(2, 4), stochastic=rng.random() < .3)
        prob = clone(prob)
        prob["problem_data"]["simulation_settings"].update(tolerance=1e-8, use_simplified_newton=False)
        P, O, ctl, r = e2e.simulate(c, exe, d / "a", prob)
        stoch = any(t == "StochasticPQnode" for t, _ in P.nodes.values()) if P else False
        q = clone(prob)
        name = lambda i: i
        how = []
        if rng.random() < .5 and not stoch:
            q, new = renamed(rng, q)
            name = new.get
            how.append("renamed")
        if rng.random() < .6:
            surplus(c, rng, q)
            how.append("surplus")
        if rng.random() < .8 or not how:
            q = shuffled(rng, q)
            how.append("order")
        if rng.random() < .3:
            q = {k: json.dumps(v, indent=rng.choice([None, 0, 3]), ensure_ascii=rng.random() < .5) for k, v in q.items()}
            how.append("text")
        core.write_problem(d / "b", q)
        s = core.grazer_run(exe, d / "b")
        rep = e2e.replay(q, s)
        rep.update({f"original_{k}.json": v for k, v in prob.items() if v is not None})
        if s.crash() or s.timed_out:
            c.violation("crash", s.crash() or "hangs", rep)
            return
        if r.rc or s.rc:
            # a component order may decide a borderline Newton iteration, but not more often
            if s.rc and not r.rc:
                c.failed = f"{how}: {s.text}"
                if not e2e.numerical(s.text):
                    c.violation("refused", f"{how}: {s.text[-300:]}", rep)
            return
        if not meta.physical(O.comp):
            c.count("unphysical")
            return
        c.count("pairs")
        for h in how:
            c.count(h)
        c.sig(*e2e.typesig(P), tuple(how))
        out = core.read_output(d / "b")[0]
        comp = {x["id"]: (sec, t, x["data"]) for sec in out for t, cs in out[sec].items() for x in cs}
        diff = compare(O.comp, comp, name)
        if diff:
            c.violation("differs", f"{how}: {diff}", dict(rep, **{"states.json": out}))
        if c.i < 3:
            c.sample = {"changes": how, "components": len(O.comp)}
    return fn


def wrong(exe):
    fs = [corrupt.duplicate, corrupt.duplicate_entry, corrupt.missing_entry]

    def fn(c, rng, d):
        prob, g = netgen.make(rng, gas="maybe", power="maybe", nodes=(2, 5), pnodes=(2, 5), steps=(2, 3))
        prob = clone(prob)
        f = fs[c.i % 3]
        what = f(rng, prob)
        if not what:
            return
        prob = shuffled(rng, prob)
        core.write_problem(d, prob)
        r = core.grazer_run(exe, d)
        c.count(f.__name__)
        c.sig(f.__name__, what[:12], len(prob["topology"]["nodes"]))
        rep = e2e.replay(prob, r)
        if r.crash() or r.timed_out:
            c.violation("crash", f"{what}: {r.crash() or 'hangs'}", rep)
        elif r.rc == 0:
            c.violation("accepted/" + f.__name__, f"{what}: the run reports success", rep)
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = "a case is a problem and a rearrangement of it (distinct: component mix and kind of rearrangement), or a problem with a duplicate or missing entry"
    ctx.assumptions = ["results are compared to 2e-6 relative, since the order of the components may change rounding",
                       "stochastic problems are not renamed, as noise may depend on the order"]
    t = ctx.thorough
    e2e.run_cases(ctx, same(exe), 40000 if t else 700, 400 if t else 20, max_fail=.2)
    e2e.run_cases(ctx, wrong(exe), 20000 if t else 600, 100 if t else 6, first=10**6)
