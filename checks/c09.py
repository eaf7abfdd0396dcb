"""Data series against an exact rational model of their definition."""
import bisect, json, math, os
from fractions import Fraction as Fr
import numpy as np
from lib import core, e2e
from lib.unit import Unit, Died, is_error

KINDS = ("own", "eigen", "data", "mapped", "const", "boundary", "initial")


def number(rng):
    return rng.choice([rng.uniform(-100, 100), float(rng.randrange(-50, 50)), 10 ** rng.uniform(-8, 8), 0.0, rng.uniform(-1, 1) * 1e5])


def points(rng, n):
    scale, start = 10 ** rng.uniform(-3, 5), rng.choice([0.0, rng.uniform(-1e4, 1e4), -5.0])
    p = [start]
    for _ in range(n - 1):
        p.append(p[-1] + scale * rng.choice([1.0, rng.uniform(.001, 3)]))
    return p


class Model:
    """the specification: points and values, piecewise linear in between"""
    def __init__(self, p, v):
        self.p, self.v = list(p), [list(x) for x in v]

    def at(self, t):
        """exact value and admissible deviation, or None outside"""
        p = self.p
        if t < p[0] or t > p[-1]:
            eps = 1e-9 * max(1, abs(p[0]), abs(p[-1]))
            if p[0] - eps < t < p[-1] + eps:
                return "edge"
            return None
        k = min(max(bisect.bisect_left(p, t), 1), len(p) - 1) if len(p) > 1 else 0
        if k == 0 or t == p[-1]:
            return [(Fr(x), 0) for x in self.v[-1 if t == p[-1] else 0]]
        if t == p[0]:
            return [(Fr(x), 0) for x in self.v[0]]
        if t == p[k]:
            return [(Fr(x), 4e-16 * max(abs(x), abs(y))) for x, y in zip(self.v[k], self.v[k - 1])]
        a, b = Fr(p[k - 1]), Fr(p[k])
        l = (Fr(t) - a) / (b - a)
        cond = max(abs(a), abs(b)) / (b - a)
        out = []
        for x, y in zip(self.v[k - 1], self.v[k]):
            w = (1 - l) * Fr(x) + l * Fr(y)
            out.append((w, 1e-15 * (8 * max(abs(x), abs(y)) + 4 * float(cond) * abs(y - x))))
        return out


def same(got, want):
    if isinstance(got, dict) or len(got) != len(want):
        return False
    for g, (w, tol) in zip(got, want):
        if not math.isfinite(g) or abs(Fr(g) - w) > Fr(tol):
            return False
    return True


def history(c, rng, U):
    kind = rng.choice(KINDS)
    n, m = rng.choice([1, 2, 2, 3, 5, 17, 200]), rng.choice([1, 1, 2, 3, 10])
    req = {}
    if kind == "data":
        first, delta = rng.choice([0.0, rng.uniform(-100, 100)]), 10 ** rng.uniform(-3, 4)
        p = [first + k * delta for k in range(n)]
        req["data"] = [first, delta, n]
    else:
        p = points(rng, n)
    vals = [[number(rng) for _ in range(m)] for _ in range(n)]
    flat = [x for v in vals for x in v]
    if kind in ("boundary", "initial"):
        key = "time" if kind == "boundary" else "x"
        req["json"] = {"id": "a", "data": [{key: t, "values": v} for t, v in zip(p, vals)]}
        req["schema"] = m if kind == "boundary" else None
    M = Model(p, vals)
    mem2 = [number(rng) for _ in flat]
    ops, want = [], []

    def ask(op, w):
        ops.append(op)
        want.append(w)

    def flatten():
        return [(Fr(x), 0) for v in M.v for x in v]

    def probe(k):
        for _ in range(k):
            r = rng.random()
            if r < .3:
                t = rng.choice(M.p)
            elif r < .75 and n > 1:
                i = rng.randrange(n - 1)
                t = M.p[i] + rng.choice([.5, rng.random(), 1e-9, 1 - 1e-9]) * (M.p[i + 1] - M.p[i])
            elif r < .85:
                t = math.nextafter(rng.choice(M.p), rng.choice([-math.inf, math.inf]))
            else:
                t = rng.choice([M.p[0] - rng.uniform(.01, 10) * max(1, abs(M.p[0])) * rng.choice([1, 1e-3, 1e-6]), M.p[-1] + rng.uniform(.01, 10) * max(1, abs(M.p[-1])) * rng.choice([1, 1e-3, 1e-6])])
            ask(["at", t], M.at(t))
    probe(6)
    writable = kind != "const"
    for _ in range(rng.randrange(2, 12)):
        i = rng.randrange(n)
        op = rng.choice(["index", "badindex", "point", "set", "bulk", "badbulk", "push", "zero", "all", "points", "copy", "assign", "badassign", "move", "resample", "memory", "poke", "reset", "sizes", "badset"])
        if not writable and op in ("set", "bulk", "badbulk", "push", "zero", "assign", "badassign", "badset"):
            op = "all"
        if op in ("memory", "poke") and kind not in ("mapped", "const"):
            op = "points"
        if op == "reset" and kind != "const":
            op = "index"
        if op == "index":
            ask([op, i], [(Fr(x), 0) for x in M.v[i]])
        elif op == "badindex":
            ask(["index", rng.choice([-1, n, n + 5, -7])], "error")
        elif op == "badset":
            ask(["set", rng.choice([-1, n, n + 5]), [0.0] * m], "error")
        elif op == "point":
            ask([op, i], ("num", M.p[i]))
        elif op == "set":
            x = [number(rng) for _ in range(m)]
            M.v[i] = x
            ask([op, i, x[:]], "done")
        elif op == "bulk":
            M.v = [[number(rng) for _ in range(m)] for _ in range(n)]
            ask([op, [x for v in M.v for x in v]], "done")
        elif op == "badbulk":
            ask(["bulk", [1.0] * (n * m + rng.choice([1, -1]))], "error")
        elif op == "push":
            lo = M.p[i - 1] if i else M.p[0] - 3
            hi = M.p[i + 1] if i + 1 < n else M.p[-1] + 3
            t = lo + rng.uniform(.2, .8) * (hi - lo)
            M.p[i], M.v[i] = t, [number(rng) for _ in range(m)]
            ask([op, i, t, M.v[i][:]], "done")
        elif op == "zero":
            M.v = [[0.0] * m for _ in range(n)]
            ask([op], "done")
        elif op == "all":
            ask([op], flatten())
        elif op == "points":
            ask([op], [(Fr(x), 0) for x in M.p])
        elif op == "sizes":
            ask([op], ("raw", [n, m, n * m]))
        elif op == "copy":
            ask([op], ("copy", flatten()))
        elif op == "move":
            ask([op, rng.choice([0, 1, 3]), rng.random() < .5], flatten())
        elif op == "assign":
            M.v = [[number(rng) for _ in range(m)] for _ in range(n)]
            ask([op, M.p[:], [x for v in M.v for x in v]], "done")
        elif op == "badassign":
            q = M.p[:] + [M.p[-1] + 1] if rng.random() < .5 else [x + .5 for x in M.p]
            ask(["assign", q, [1.0] * (len(q) * m)], "error")
        elif op == "resample":
            q = sorted({rng.uniform(M.p[0], M.p[-1]) for _ in range(5)} | {M.p[0], M.p[-1]})
            w = []
            for t in q:
                w += M.at(t)
            ask([op, q], w)
        elif op == "memory":
            ask([op], flatten() if kind == "mapped" or not getattr(M, "reset", 0) else "any")
        elif op == "poke":
            k = rng.randrange(n * m)
            x = number(rng)
            if not getattr(M, "reset", 0):
                M.v[k // m][k % m] = x
            ask([op, k, x], "done")
        elif op == "reset":
            M.reset = 1
            M.v = [mem2[k * m:(k + 1) * m] for k in range(n)]
            ask([op], "done")
        probe(rng.choice([0, 0, 1, 3]))
    ask(["all"], flatten())
    req.update(kind=kind, points=p, inner=m, memory=flat, memory2=mem2, ops=ops)
    rep = {"request.json": req}
    try:
        res = U("series", **req)
    except Died as e:
        c.violation(f"crash {kind}", f"a {kind} series aborts: {e}", rep)
        return
    if is_error(res):
        c.violation(f"refused {kind}", f"a correct {kind} series with {n} points is refused: {res['error']}", rep)
        return
    for op, w, a in zip(ops, want, res["answers"]):
        c.count("op_" + op[0])
        if w == "any" or w == "edge":
            continue
        if w is None or w == "error":
            ok = is_error(a)
        elif w == "done":
            ok = a is None
        elif isinstance(w, tuple) and w[0] == "num":
            ok = a == w[1]
        elif isinstance(w, tuple) and w[0] == "raw":
            ok = a == w[1]
        elif isinstance(w, tuple):
            # equal copy with the same values; changing the copy changes neither
            ok = not is_error(a) and a[0] is True and same(a[1], w[1]) and (len(a) < 4 or (a[2] is False or w[1][0][0] + 1 == w[1][0][0]) and same(a[3], w[1]))
        else:
            ok = same(a, w)
        if not ok:
            show = [float(x) for x, _ in w] if isinstance(w, list) else "an error" if w is None else w
            c.violation(f"{op[0]}", f"{kind} series with {n} points of {m} values: {str(op)[:200]} gives {str(a)[:300]}, expected {str(show)[:300]}", rep)
            return
    c.sig(kind, n, m)


def bad_json(c, rng, U):
    """series in files which are no series"""
    n, m = rng.randrange(2, 6), rng.randrange(1, 4)
    p = points(rng, n)
    boundary = rng.random() < .5
    key = "time" if boundary else "x"
    data = [{key: t, "values": [number(rng) for _ in range(m)]} for t in p]
    i = rng.randrange(n)
    what = rng.choice(["order", "more", "fewer", "nopoint", "novalues", "text", "textvalue", "other", "empty", "null", "listvalue", "number", "none", "object"])
    if what == "order":
        i = rng.randrange(1, n)
        data[i][key], data[i - 1][key] = data[i - 1][key], data[i][key]
    elif what == "more":
        data[i]["values"].append(1.0)
    elif what == "fewer":
        data[i]["values"].pop()
    elif what == "nopoint":
        del data[i][key]
    elif what == "novalues":
        del data[i]["values"]
    elif what == "text":
        data[i][key] = "0"
    elif what == "textvalue":
        data[i]["values"][0] = "1"
    elif what == "other":
        data[i]["x" if boundary else "time"] = data[i].pop(key)
    elif what == "empty":
        data = []
    elif what == "null":
        data[i]["values"][0] = None
    elif what == "listvalue":
        data[i]["values"][0] = [1]
    elif what == "number":
        data[i] = 3
    elif what == "none":
        data = None
    elif what == "object":
        data = {"a": data[0]}
    req = dict(kind="json", schema=m if boundary else None, json={"id": "a", "data": data}, inner=m, points=[], memory=[], ops=[["all"]])
    try:
        a = U("series", **req)
    except Died as e:
        c.violation(f"abort/{what}", f"a series in a file ({what}) aborts the program: {e}", {"request.json": req})
        return
    if not is_error(a):
        c.violation(f"accepted/{what}", f"a malformed series ({what}) is accepted: {json.dumps(data)[:300]} gives {a}", {"request.json": req})
    c.count("malformed_" + what)


def mutant(c, rng, U):
    """unsorted points in the other constructors"""
    n = rng.randrange(2, 6)
    p = points(rng, n)
    i = rng.randrange(1, n)
    p[i], p[i - 1] = p[i - 1], p[i]
    req = dict(kind="own", points=p, inner=1, memory=[0.0] * n, ops=[["all"]])
    try:
        a = U("series", **req)
    except Died as e:
        c.violation("abort/unsorted", f"unsorted points abort: {e}", {"request.json": req})
        return
    if not is_error(a):
        c.violation("accepted/unsorted", f"unsorted points {p} are accepted", {"request.json": req})
    req = dict(kind=rng.choice(["mapped", "const"]), points=sorted(p), inner=2, memory=[0.0] * (2 * n + rng.choice([1, -1, 2, -2])), ops=[["all"]])
    a = U("series", **req)
    if not is_error(a):
        c.violation("accepted/memory", f"a view of {n} points with two values on {len(req['memory'])} numbers is accepted", {"request.json": req})
    c.count("bad_constructions", 2)


def case(exe):
    def fn(c, rng, d):
        with Unit(exe) as U:
            for _ in range(25):
                history(c, rng, U)
            for _ in range(5):
                bad_json(c, rng, U)
            mutant(c, rng, U)
    return fn


def check(ctx):
    exe, = core.build("plain/unit")
    ctx.rule = ("a case is 25 histories of up to twelve operations on one data series in one of seven storages (own, from a grid, view on memory, "
                "read only view, read from a boundary or initial file), probed at, between, next to and outside its points and compared with exact "
                "rational interpolation; and six malformed series; distinct: storage, number of points and of values")
    e2e.run_cases(ctx, case(exe), 20000 if ctx.thorough else 400, 300 if ctx.thorough else 20)
