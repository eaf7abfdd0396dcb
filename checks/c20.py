"""Any order of optimizer calls gives the answers of a fresh optimizer."""
import numpy as np
from lib import core, e2e, opt
from lib.lab import Lab, LabDied, LabError, OBJ, COST, PENALTY, CONS, GRAD, CJAC, STATES
from lib.opt import close

NAMES = ["objective", "cost", "penalty", "constraints", "gradient", "Jacobian", "states"]


def sequence(c, rng, L, s, pool, kind):
    """pool: control vectors; the answers of fresh optimizers first"""
    funs = [OBJ, COST, PENALTY, GRAD, STATES] + ([CONS, CJAC] if L.ng else [])
    ref = {}
    for k, x in enumerate(pool):
        for f in funs:
            s.make()
            ref[k, f] = L.o(f, x)
    oks = [{ref[k, f][0] for f in funs} for k in range(len(pool))]
    for k, o in enumerate(oks):
        if len(o) > 1:
            c.violation(f"{kind}/disagree", f"vector {k}: some functions succeed, others fail: {[(NAMES[f], ref[k, f][0]) for f in funs]}", s.rep(pool=[p.tolist() for p in pool]))
            return
    s.make()
    hist, last = [], None
    n = rng.choice([6, 15, 40])
    for _ in range(n):
        k = rng.randrange(len(pool)) if (last is None or rng.random() < .45) else last
        f = rng.choice(funs)
        # ipopt tells when the vector differs from the one of the last call;
        # telling too often is harmless
        newx = k != last or rng.random() < .05
        hist.append((NAMES[f], k, newx))
        ok, v = L.o(f, pool[k], newx=newx)
        last = k
        wok, w = ref[k, f]
        c.count("calls")
        if ok != wok:
            c.violation(f"{kind}/verdict/{NAMES[f]}", f"after {hist}: {'succeeds' if ok else 'fails'}, alone it {'succeeds' if wok else 'fails'}",
                        s.rep(pool=[p.tolist() for p in pool], history=hist))
            return
        if not ok:
            c.count("failing_calls")
            continue
        sc = max(1e-6, float(np.max(np.abs(w), initial=0)))
        if not close(v, w, 2e-5 if kind == "net" else 1e-6, (2e-6 if kind == "net" else 1e-8) * sc):
            i = int(np.argmax(np.abs(v - w)))
            c.violation(f"{kind}/{NAMES[f]}", f"after {hist}: entry {i} is {v[i]!r}, alone it is {w[i]!r}",
                        s.rep(pool=[p.tolist() for p in pool], history=hist, got=v, want=w))
            return
    c.sig(kind, len(pool), tuple(h[:2] for h in hist[:6]))
    if c.i < 4:
        c.sample = {"kind": kind, "history": hist[:8]}


def states_cache(c, rng, L, s, kind, bad=None):
    """the cache of simulated states: whatever was asked before, the states belong to the request"""
    t = s.times
    grids = [t, t[0] + (t - t[0]) * rng.choice([.5, .75]), t]
    if len(t) > 2:
        g = t.copy()
        g[1:-1] += .3 * np.diff(t).min()
        grids.append(g)
    cts = [s.ct, np.array([s.ct[0] - 1.0, s.ct[-1] + 1.0])]
    if len(s.ct) > 2:
        g = s.ct.copy()
        g[1] = .5 * (g[1] + g[0])
        cts.append(g)
    inits = [L.x0, L.x0 * 1.01 + .001]
    pool = []
    for _ in range(rng.randint(2, 4)):
        ct = rng.choice(cts)
        cv = (s.npr.uniform(-1, 1, len(ct) * L.nc) if kind == "toy" else np.tile(s.x[:L.nc], len(ct)) + s.npr.uniform(-1, 1, len(ct) * L.nc))
        if rng.random() < .25 and bad is not None:
            cv[rng.randrange(len(cv)):] = bad
        a = [rng.choice(grids), ct, cv, rng.choice(inits)]
        pool.append(a)
        # neighbours: one thing differs
        for _ in range(rng.randint(1, 3)):
            b = list(a)
            k = rng.randrange(4)
            if k == 0:
                b[0] = rng.choice(grids)
            elif k == 1:
                other = [x for x in cts if len(x) == len(ct)]
                b[1] = rng.choice(other)
            elif k == 2:
                b[2] = a[2].copy()
                b[2][rng.randrange(len(cv))] = rng.choice([s.npr.uniform(-1, 1), *( [bad] if bad is not None else [])]) if kind == "toy" else a[2][0] + .5
            else:
                b[3] = rng.choice(inits)
            pool.append(b)
    ref = []
    for a in pool:
        L.cache(0)
        ref.append(L.cache(rng.choice([1, 2]), *a))
    L.cache(0)
    hist = []
    for _ in range(rng.choice([5, 15, 30])):
        k, w = rng.randrange(len(pool)), rng.choice([1, 2, 2])
        hist.append((k, "refresh" if w == 1 else "check"))
        ok, v = L.cache(w, *pool[k])
        wok, r = ref[k]
        c.count("cache_calls")
        c.count("cache_failures", not ok)
        if ok != wok or (ok and not close(v, r, 1e-6, 1e-8 + 1e-6 * float(np.max(np.abs(r))))):
            c.violation(f"cache/{kind}", f"after {hist}: the states " + (f"deviate by {np.max(np.abs(v - r)) if v.shape == r.shape else 'shape'} from those of the request alone" if ok == wok else f"are {'' if ok else 'not '}supplied, alone they are {'' if wok else 'not '}"),
                        s.rep(history=hist, pool=[[x.tolist() for x in a] for a in pool]))
            return
    c.sig("cache", kind, len(pool), tuple(hist[:6]))


def case(labexe):
    def fn(c, rng, d):
        with Lab(labexe) as L:
            try:
                if rng.random() < .6:
                    s = opt.toy_subject(rng, L, fail=5.0)
                    pool = [s.x] + [s.npr.uniform(-1, 1, s.x.size) for _ in range(rng.randint(1, 3))]
                    if rng.random() < .6:     # fails from some time on, or everywhere
                        y = pool[-1].copy().reshape(len(s.ct), L.nc)
                        k = rng.randrange(len(s.ct))
                        y[k:, 0] = 1e3
                        pool.append(y.ravel())
                    if rng.random() < .2:     # the initial controls fail
                        s.x = pool[-1]
                    sequence(c, rng, L, s, pool, "toy")
                    if not c.viol and L.nc:
                        states_cache(c, rng, L, s, "toy", 1e3)
                else:
                    s = opt.network_subject(rng, L, d, constraints=rng.random() < .7)
                    if s is None:
                        c.count("skipped")
                        return
                    pool = [s.x] + [s.x + s.npr.uniform(-1, 1, s.x.size) for _ in range(rng.randint(1, 2))]
                    if rng.random() < .5:
                        y = s.x.copy()
                        y[rng.randrange(len(y)):] = rng.choice([-1e7, np.nan, -1e9])
                        pool.append(y)
                    sequence(c, rng, L, s, pool, "net")
                    if not c.viol and rng.random() < .5:
                        states_cache(c, rng, L, s, "net", -1e7)
            except LabDied as e:
                c.violation("crash", str(e), str(e))
            except LabError as e:
                e2e.refused(c, e, locals().get("rep"))
    return fn


def check(ctx):
    labexe, = core.build("plain/lab")
    ctx.rule = ("a case is a random history of calls of all optimizer functions at two to five control vectors, some of which cannot be "
                "simulated; every answer is compared with that of a fresh optimizer; distinct: beginnings of histories")
    ctx.assumptions = ["new_x is announced whenever the vector differs from that of the previous call (ipopt's contract)"]
    e2e.run_cases(ctx, case(labexe), 30000 if ctx.thorough else 1200, 600 if ctx.thorough else 22)
