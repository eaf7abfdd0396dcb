"""Structure, values and causality of the constraint Jacobian."""
import numpy as np
from lib import core, e2e, opt, physics as ph
from lib.lab import Lab, LabDied, LabError, OBJ, CONS, GRAD, CJAC, STATES
from lib.opt import close


def causal(s, L):
    """mask of the entries that may be nonzero"""
    m = np.zeros((len(s.gt) * L.ng, len(s.ct) * L.nc), bool)
    for j in range(len(s.ct)):
        start = s.ct[j - 1] if j else -np.inf       # acts (by interpolation) from here on
        for i, t in enumerate(s.gt):
            if t > start:
                m[i * L.ng:(i + 1) * L.ng, j * L.nc:(j + 1) * L.nc] = True
    return m


def jacobian(c, rng, L, s, kind):
    if rng.random() < .5:
        L.o(rng.choice([OBJ, GRAD, CONS]), s.x)
        ok, v = L.o(CJAC, s.x, newx=False)
    else:
        ok, v = L.o(CJAC, s.x)
    if not ok:
        return None
    J, bad, r, cc = opt.dense(L, v, len(s.gt) * L.ng)
    for b in bad:
        c.violation(f"{kind}/structure/{b.split(' ')[-1]}", f"structure: {b}", s.rep(rows=r, cols=cc))
    if bad:
        return None
    if not np.all(np.isfinite(v)):
        c.violation(f"{kind}/nan", "values of the Jacobian are not finite or not filled", s.rep(values=v))
        return None
    m = causal(s, L)
    if np.any(J[~m] != 0):
        i, j = np.argwhere((J != 0) & ~m)[0]
        c.violation(f"{kind}/causality", f"constraint row {i} depends on control {j}, which acts later: {J[i, j]}", s.rep())
    c.count("positions", len(r))
    return J


def toy_case(c, rng, L):
    s = opt.toy_subject(rng, L)
    if not s.toy.ng:
        return
    ref = s.toy.run(s.times, s.ct, s.gt, s.x)
    if ref is None:
        return
    s.make()
    J = jacobian(c, rng, L, s, "toy")
    if J is None:
        if not c.viol:
            c.violation("toy/refused", "the Jacobian cannot be computed", s.rep())
        return
    want = ref["cjac"]
    sc = 1 + np.max(np.abs(want), initial=0)
    if not close(J, want, 1e-7, 1e-9 * sc):
        i, j = np.unravel_index(np.argmax(np.abs(J - want)), J.shape)
        c.violation("toy/values", f"entry ({i},{j}) is {J[i, j]!r}, must be {want[i, j]!r}", s.rep(got=J, want=want))
    c.count("toy_jacobians")
    c.sig("toy", s.toy.ns, s.toy.nc, s.toy.ng, len(s.times), len(s.ct), len(s.gt))


def net_case(c, rng, L, d):
    s = opt.network_subject(rng, L, d)
    if s is None or not L.ng:
        c.count("skipped")
        return
    x = s.x = s.x + s.npr.uniform(-1, 1, s.x.size) * rng.choice([0, .1, 1.0])
    s.make()
    J = jacobian(c, rng, L, s, "net")
    if J is None:
        c.count("unsolvable")
        if not c.viol:
            c.failed = "Jacobian not computable"
        return
    # forward sensitivities
    ok, st = L.o(STATES, x, newx=False)
    want = opt.sensitivities(L, s.times, s.ct, s.gt, x, st.reshape(len(s.times), L.ns))
    rows = np.max(np.abs(want), axis=1)[:, None] + 1e-4
    badm = ~(np.abs(J - want) <= 1e-6 * np.abs(want) + 1e-7 * rows)
    if badm.any():
        i, j = np.argwhere(badm)[0]
        c.violation("net/sensitivity", f"entry ({i},{j}) is {J[i, j]!r}, forward sensitivities give {want[i, j]!r}", s.rep(J=J, want=want))
    c.count("net_entries", int(np.count_nonzero(want)))
    # differences by single controls and in a random direction
    dirs = [s.npr.normal(size=x.size)]
    for j in rng.sample(range(x.size), min(x.size, 4)):
        e = np.zeros(x.size)
        e[j] = 1
        dirs.append(e)
    scale = np.max(np.abs(J)) + 1e-12
    for n, v in enumerate(dirs):
        best = np.full(J.shape[0], np.inf)
        for h in (.3, .1, .01, 1e-3, 1e-4, 3e-5, 6e-6, 1e-6):
            f = []
            for k in (2, 1, -1, -2):
                ok, y = L.o(CONS, x + k * h * v)
                f.append(y if ok else np.full(J.shape[0], np.nan))
            D = (-f[0] + 8 * f[1] - 8 * f[2] + f[3]) / (12 * h)
            e = np.abs(D - J @ v)
            best = np.where(np.isfinite(e) & (e < best), e, best)
        badr = np.isfinite(best) & (best > 1e-2 * (np.abs(J) @ np.abs(v)) + 1e-4 * (1 + scale))
        if badr.any():
            i = int(np.argmax(badr))
            c.violation("net/values", f"row {i} in direction {'random' if n == 0 else int(np.argmax(v))}: {(J @ v)[i]!r} deviates by {best[i]} from differences",
                        s.rep(direction=v, J=J))
        c.count("directions")
    c.sig("net", e2e.typesig(ph.Problem(s.prob)), len(s.times), len(s.ct), len(s.gt))
    if c.i < 6:
        c.sample = {"types": e2e.typesig(ph.Problem(s.prob)), "shape": J.shape, "nonzeros": int(np.count_nonzero(J))}


def case(labexe):
    def fn(c, rng, d):
        with Lab(labexe) as L:
            try:
                if rng.random() < .45:
                    for _ in range(6):
                        toy_case(c, rng, L)
                else:
                    net_case(c, rng, L, d)
            except LabDied as e:
                c.violation("crash", str(e), str(e))
            except LabError as e:
                e2e.refused(c, e, locals().get("rep"))
    return fn


def check(ctx):
    labexe, = core.build("plain/lab")
    ctx.rule = ("a case is the constraint Jacobian of a synthetic problem (against forward sensitivities) or of a network (against differences "
                "of the constraint values); distinct: sizes, component types and grid sizes")
    ctx.assumptions = ["positions not listed in the structure are zero"]
    e2e.run_cases(ctx, case(labexe), 40000 if ctx.thorough else 1500, 600 if ctx.thorough else 22)
