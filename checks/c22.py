"""Sparse matrices filled by the handlers against a dense model."""
import math
import numpy as np
from lib import core, e2e, netgen, physics as ph
from lib.lab import Lab, LabDied, LabError
from lib.unit import Unit, Died, is_error


def ops(rng, r, c, pool):
    out = []
    if r and c:
        tiny = rng.random() < .15
        for _ in range(rng.choice([0, 1, 3, 10, 40, 120])):
            if pool and rng.random() < .6:
                i, j = rng.choice(pool)
            else:
                i, j = rng.randrange(r), rng.randrange(c)
                pool.append((i, j))
            # dyadic numbers: sums are exact in every order
            v = rng.choice([0.0, rng.randrange(-4096, 4096) / 64.0, rng.randrange(-4, 4) * 2.0 ** 30, 1.0, -1.0])
            out.append([i, j, math.ldexp(v, -120) if tiny else v])
        if out and rng.random() < .3:      # cancel some entries
            out += [[i, j, -v] for i, j, v in rng.sample(out, rng.randrange(1, len(out) + 1))]
    return out


def model(r, c, tr, o):
    M = np.zeros((r, c))
    pat = set()
    for i, j, v in o:
        a, b = (j, i) if tr else (i, j)
        M[a, b] += v
        pat.add((a, b))
    return M, pat


def case(exe):
    def fn(c, rng, d):
        with Unit(exe) as U:
            for _ in range(25):
                r, cc = rng.choice([1, 2, 3, 7, 20]), rng.choice([1, 2, 3, 7, 20])
                tr = rng.random() < .5
                pool, rounds = [], []
                R, C = (cc, r) if tr else (r, cc)     # callers' view
                for k in range(rng.randrange(1, 6)):
                    kind = rng.choice(["build", "twice"] + ["refill"] * 3 * (k > 0))
                    if rng.random() < .3:
                        pool = []
                    rounds.append([kind, ops(rng, R, C, pool)] + ([ops(rng, R, C, pool)] if kind == "twice" else []))
                req = dict(rows=r, cols=cc, transposed=tr, rounds=rounds)
                try:
                    res = U("matrix", **req)
                except Died as e:
                    c.violation("crash", f"aborts: {e}", {"request.json": req})
                    return
                if is_error(res):
                    c.violation("error", f"admissible operations are refused: {res['error']}", {"request.json": req})
                    return
                old = set()
                for k, (rd, (vals, pat)) in enumerate(zip(rounds, res)):
                    M, want = model(r, cc, tr, rd[2] if rd[0] == "twice" else rd[1])
                    got = np.array(vals, float).reshape(r, cc)
                    pos = [tuple(x) for x in pat]
                    if not np.array_equal(got, M):
                        i, j = map(int, np.argwhere(got != M)[0])
                        c.violation(f"value {rd[0]}", f"round {k} ({rd[0]}{', transposed' if tr else ''}): entry ({i},{j}) is {got[i, j]}, the contributions sum to {M[i, j]}", {"request.json": req})
                        return
                    if len(set(pos)) != len(pos):
                        c.violation("pattern twice", f"round {k}: an entry is stored twice", {"request.json": req})
                        return
                    if not want <= set(pos):
                        c.violation(f"pattern {rd[0]}", f"round {k} ({rd[0]}): entry {sorted(want - set(pos))[0]} is not part of the pattern", {"request.json": req})
                        return
                    if rd[0] == "refill" and not old <= set(pos):
                        c.violation("pattern lost", f"round {k}: refilling removed {sorted(old - set(pos))[0]} from the pattern", {"request.json": req})
                        return
                    if rd[0] != "refill" and set(pos) != want:
                        c.violation("pattern surplus", f"round {k}: {sorted(set(pos) - want)[0]} is in the pattern though nothing was added there", {"request.json": req})
                        return
                    old = set(pos)
                    c.count(rd[0])
                    c.count("additions", len(rd[1]))
                    c.count("cancelled", sum(1 for x in want if M[x] == 0))
        c.sig(c.i)
    return fn


def network(labexe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.04, gas="maybe", power="maybe", nodes=(2, 6), pnodes=(2, 5), steps=(2, 3), constraints=rng.random() < .5)
        core.write_problem(d, prob)
        rep = e2e.replay(prob)
        npr = np.random.default_rng(rng.randrange(2**32))
        with Lab(labexe) as L:
            try:
                L.load(d)
                t0 = prob["problem_data"]["simulation_settings"]["start_time"]
                t1 = t0 + 60.0
                pts = []
                for k in range(4):
                    f = npr.choice([0.0, 1.0, .5, -1.0], L.x0.size) if k == 1 else npr.uniform(.8, 1.2, L.x0.size)
                    pts.append((L.x0 * npr.uniform(.9, 1.1, L.x0.size), L.x0 * np.where(np.abs(L.x0) > 20, 1, f), npr.uniform(-5, 5, L.nc)))
                L.call("prepare", data=[[t0, t1], pts[0][0], pts[0][2]])
                for w in range(9):
                    fresh = []
                    for p in pts:
                        fresh.append(L.jac(w, 0, t0, t1, *p))
                    for k in [rng.randrange(4) for _ in range(5)]:
                        J = L.jac(w, 1, t0, t1, *pts[k])
                        if J.shape != fresh[k].shape:
                            c.violation(f"network {w}", "the shape changes when refilled", rep)
                            return
                        F = fresh[k]
                        row = np.max(np.where(np.isfinite(F), np.abs(F), 0), axis=1, initial=0)[:, None]
                        with np.errstate(invalid="ignore"):
                            # outside of the domain of the equations entries may be no numbers, here as there
                            bad = ~((np.abs(J - F) <= 1e-11 * (np.abs(F) + .01 * row)) | (J == F) | (~np.isfinite(J) & ~np.isfinite(F)))
                        if bad.any():
                            i, j = map(int, np.argwhere(bad)[0])
                            c.violation(f"network {w}", f"matrix {w}: entry ({i},{j}) is {J[i, j]} when refilled, {fresh[k][i, j]} when built anew", rep)
                            return
                        c.count("refilled_jacobians")
                c.sig(e2e.typesig(ph.Problem(prob)))
            except LabDied as e:
                c.violation("crash", str(e), rep)
            except LabError as e:
                e2e.refused(c, e, locals().get("rep"))
    return fn


def check(ctx):
    exe, lab = core.build("plain/unit", "plain/lab")
    ctx.rule = "a case is 25 histories of up to five fills (new, twice with one handler, in place) of one matrix, regular or transposed, with repeated, cancelling and zero entries, compared exactly with a dense model; and the Jacobians of networks built anew and refilled"
    e2e.run_cases(ctx, case(exe), 20000 if ctx.thorough else 600, 300 if ctx.thorough else 10)
    e2e.run_cases(ctx, network(lab), 20000 if ctx.thorough else 300, 300 if ctx.thorough else 10)
