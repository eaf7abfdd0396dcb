"""Optimizers to be observed: synthetic problems with known values and
networks, on state, control and constraint grids in all relations."""
import numpy as np
from . import core, e2e, netgen, physics as ph
from .lab import OBJ, COST, PENALTY, CONS, GRAD, CJAC, STATES
from .toy import Toy, grids

BIG = 1e18


class Subject:
    """an optimizer in a Lab: times, ct, gt, controls x0; self.toy or self.prob"""

    wrapped = False    # ask through the wrapper for Ipopt

    def make(self, lo=None, up=None, glo=None, gup=None):
        n, m = len(self.ct) * self.L.nc, len(self.gt) * self.L.ng
        b = [np.full(k, s * BIG) if v is None else v for v, k, s in ((lo, n, -1), (up, n, 1), (glo, m, -1), (gup, m, 1))]
        return self.L.opt(self.times, self.ct, self.gt, self.x, *b, wrapped=self.wrapped)

    def rep(self, **kw):
        d = {k: v.tolist() for k, v in (("times", self.times), ("control_times", self.ct), ("constraint_times", self.gt), ("x", self.x))}
        d.update({k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in kw.items()})
        out = {"point.json": d}
        if self.toy:
            out["toy.json"] = self.toy.describe()
        else:
            out.update(e2e.replay(self.prob))
        return out


def toy_subject(rng, L, fail=1e9, **kw):
    s = Subject()
    s.L, s.toy, s.prob = L, Toy(rng, fail=fail), None
    s.times, s.ct, s.gt = grids(rng)
    s.toy.tame(float(np.max(np.diff(s.times))))
    npr = np.random.default_rng(rng.randrange(2**32))
    s.npr = npr
    s.x = npr.uniform(-1, 1, len(s.ct) * s.toy.nc)
    s.wrapped = rng.random() < .5
    s.toy.send(L, simplified=kw.get("simplified", rng.random() < .5), tol=kw.get("tol", 1e-12))
    return s


def network_subject(rng, L, d, constraints=True, **kw):
    s = Subject()
    s.L, s.toy = L, None
    prob, g = netgen.make(rng, gas=True, power=rng.random() < .25, nodes=(2, 5), pnodes=(2, 3), steps=(2, 7),
                          constraints=constraints, need_control=True, **kw)
    if not prob.get("control"):
        return None
    prob["problem_data"]["simulation_settings"].update(tolerance=1e-8, maximal_number_of_newton_iterations=100)
    # cells stay coarse: differences of whole trajectories
    for p in prob["topology"]["connections"].get("Pipe", []):
        p["desired_delta_x"] = ph.metres(p["length"]) / rng.choice([.9, 1.9])
    core.write_problem(d, prob)
    L.load(d)
    s.prob = prob
    P = ph.Problem(prob)
    s.times = P.times
    t = s.times
    k = rng.random()
    if k < .4:
        s.ct = t.copy()
    elif k < .6:
        s.ct = np.linspace(t[0], t[-1], rng.randint(2, 2 * len(t) + 1))
    elif k < .8:
        s.ct = np.array(sorted({t[0], t[-1], *[rng.uniform(t[0], t[-1]) for _ in range(rng.randint(0, len(t)))]}))
    else:
        s.ct = P.cgrid
    inner = list(t[1:])
    s.gt = np.array(sorted(rng.sample(inner, rng.randint(1, len(inner)))))
    if rng.random() < .5:
        s.gt[-1] = t[-1]
    s.gt = np.unique(s.gt) if L.ng else np.zeros(0)
    if not L.ng:
        s.gt = t[1:]
    s.npr = np.random.default_rng(rng.randrange(2**32))
    s.x = L.controls(s.ct).ravel()
    s.wrapped = rng.random() < .5
    return s


def weights(times):
    t = np.asarray(times)
    w = np.empty(len(t))
    w[0] = .5 * (t[1] - t[0])
    w[-1] = .5 * (t[-1] - t[-2])
    w[1:-1] = .5 * (t[2:] - t[:-2])
    return w


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))


def dense(L, values, m):
    """the constraint Jacobian from structure and values; problems of the structure"""
    ok, r, c = L.struct()
    J = np.zeros((m, L.nx))
    bad = []
    if not ok:
        bad.append("the structure is refused")
    if len(r) != len(values):
        bad.append("wrong size")
    if len(r) and (r.min() < 0 or r.max() >= m or c.min() < 0 or c.max() >= L.nx):
        bad.append(f"positions out of range: rows {r.min()}..{r.max()} of {m}, columns {c.min()}..{c.max()} of {L.nx}")
        return J, bad, r, c
    if len(set(zip(r.tolist(), c.tolist()))) != len(r):
        bad.append("a position is listed twice")
    J[r, c] = values
    return J, bad, r, c


def fd(f, x, cols, steps, scale):
    """derivatives of the vector function f by the given columns; several step sizes (list of arrays)"""
    out = []
    for h in steps:
        D = []
        for j in cols:
            hj = h * scale[j]
            v = []
            for s in (2, 1, -1, -2):
                y = x.copy()
                y[j] += s * hj
                v.append(f(y))
            if any(w is None for w in v):
                D.append(None)
            else:
                D.append((-v[0] + 8 * v[1] - 8 * v[2] + v[3]) / (12 * hj))
        out.append(D)
    return out


def sensitivities(L, times, ct, gt, x, states):
    """constraint Jacobian by forward sensitivities from the matrices of the problem"""
    nct, nc, ns = len(ct), L.nc, L.ns
    N = nct * nc
    S = np.zeros((ns, N))
    out = []
    for i in range(1, len(times)):
        t0, t1 = times[i - 1], times[i]
        k = int(np.clip(np.searchsorted(ct, t1, side="left"), 1, nct - 1))
        lam = min(1.0, (t1 - ct[k - 1]) / (ct[k] - ct[k - 1]))
        W = np.zeros((nc, N))
        for j in range(nc):
            W[j, (k - 1) * nc + j] = 1 - lam
            W[j, k * nc + j] = lam
        u = W @ x
        a = (0, t0, t1, states[i - 1], states[i], u)
        S = np.linalg.solve(L.jac(0, *a), -L.jac(1, *a) @ S - L.jac(2, *a) @ W)
        if np.any(gt == t1):
            out.append(L.jac(3, *a) @ S + L.jac(4, *a) @ W)
    return np.array(out).reshape(-1, N)
