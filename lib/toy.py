"""The synthetic problem of harness/toy.hpp in Python, with forward
sensitivities instead of adjoints."""
import numpy as np


class Toy:
    def __init__(self, rng, fail=1e9):
        g = np.random.default_rng(rng.randrange(2**32))
        ns, nc, ng = rng.randint(1, 6), rng.randint(1, 3), rng.choice([0, 1, 1, 2, 3])
        if rng.random() < .03:
            ns, nc, ng = rng.randint(7, 20), rng.randint(2, 9), rng.randint(2, 9)
        self.ns, self.nc, self.ng = ns, nc, ng
        sp = lambda r, c, d: g.uniform(-1, 1, (r, c)) * (g.random((r, c)) < d)
        self.A = np.diag(g.uniform(1.5, 3, ns)) + .3 * sp(ns, ns, .6) / ns
        if ns > 1 and rng.random() < .3:      # rows in another order: structurally nontrivial
            self.A = self.A[g.permutation(ns)]
        self.B = sp(ns, ns, .6)
        self.C = sp(ns, nc, .7)
        self.G = sp(ng, ns, .7)
        self.H = sp(ng, nc, .5)
        lin = rng.random() < .3
        self.e, self.s, self.m = (g.uniform(-.05, .05, ns) * (not lin), g.uniform(-.3, .3, ns), g.uniform(-.05, .05, ns) * (not lin))
        self.q, self.w, self.pn = g.uniform(-1, 1, ns), g.uniform(-1, 1, ns), g.uniform(-.2, .2, ns)
        self.x0 = g.uniform(-1, 1, ns)
        self.r, self.c, self.pu = g.uniform(-1, 1, nc), g.uniform(-1, 1, nc), g.uniform(-.2, .2, nc)
        self.gam, self.del_, self.kap, self.mu = (g.uniform(-.5, .5, ng) for _ in range(4))
        self.z = g.uniform(-1, 1)
        self.f, self.g, self.o, self.k = (g.uniform(-.05, .05, ns) * (not lin) for _ in range(4))
        self.y, self.tw, self.th = g.uniform(-.1, .1, ns), g.uniform(-1, 1, ns), g.uniform(-.5, .5, ng)
        self.fail = fail

    def tame(self, dt):
        """bounded states for steps up to dt: one well separated solution"""
        self.C, self.s, self.y = self.C / dt / max(1, self.nc), self.s / dt, self.y / dt
        self.B = self.B / np.maximum(1, np.sum(np.abs(self.B), axis=1))[:, None]

    def send(self, L, tol=1e-12, simplified=True, maxiter=60, retries=0):
        L.call("toy", self.ns, self.nc, self.ng, maxiter, retries, int(simplified), data=[
            [tol, self.fail, self.z], self.A, self.B, self.C, self.G, self.H, self.e, self.s, self.m, self.q, self.w, self.pn, self.x0,
            self.r, self.c, self.pu, self.gam, self.del_, self.kap, self.mu,
            self.f, self.g, self.o, self.k, self.y, self.tw, self.th])
        L.ns, L.nc, L.ng, L.x0 = self.ns, self.nc, self.ng, self.x0

    def describe(self):
        return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in vars(self).items()}

    def E(self, t0, t1, l, n, u):
        return self.A @ n + self.e * n**3 - self.B @ l - (t1 - t0) * (self.C @ u + self.s * np.sin(t1) - self.y * np.cos(t1) * n) + self.m * n * u[0] \
            + self.f * l**2 + self.g * l * n + (self.o * l + self.k * u[0]) * u[0]

    def En(self, t0, t1, l, n, u):
        return self.A + np.diag(3 * self.e * n**2 + self.m * u[0] + self.g * l + (t1 - t0) * self.y * np.cos(t1))

    def step(self, t0, t1, l, u):
        n = l.copy()
        for _ in range(60):
            r = self.E(t0, t1, l, n, u)
            n = n - np.linalg.solve(self.En(t0, t1, l, n, u), r)
            if np.linalg.norm(r) < 1e-13:
                return n
        return n if np.linalg.norm(self.E(t0, t1, l, n, u)) < 1e-9 else None

    def run(self, times, ct, gt, x):
        """objective, its gradient, constraints and their Jacobian (dense)"""
        nct = len(ct)
        X = x.reshape(nct, self.nc)
        N = nct * self.nc
        l, S = self.x0.copy(), np.zeros((self.ns, N))
        cost = pen = 0.0
        grad = np.zeros(N)
        cons, cj, states = [], [], [l]
        n = len(times)
        for i in range(1, n):
            t0, t1 = times[i - 1], times[i]
            dt = t1 - t0
            # u = W x
            k = int(np.clip(np.searchsorted(ct, t1, side="left"), 1, nct - 1))
            lam = (t1 - ct[k - 1]) / (ct[k] - ct[k - 1])
            W = np.zeros((self.nc, N))
            for j in range(self.nc):
                W[j, (k - 1) * self.nc + j] = 1 - lam
                W[j, k * self.nc + j] = lam
            u = W @ x
            if u[0] > self.fail:
                return None
            nw = self.step(t0, t1, l, u)
            if nw is None:
                return None
            dEdu = -dt * self.C
            dEdu[:, 0] += self.m * nw + self.o * l + 2 * self.k * u[0]
            dEdl = -self.B + np.diag(2 * self.f * l + self.g * nw + self.o * u[0])
            S = np.linalg.solve(self.En(t0, t1, l, nw, u), -dEdl @ S - dEdu @ W)
            wgt = .5 * ((times[i + 1] if i + 1 < n else times[i]) - times[i - 1])
            cost += wgt * (self.q @ nw**2 + (self.w + np.cos(t1) * self.tw) @ nw + self.r @ u**2 + t1 * self.c @ u + self.z * nw[0] * u[0])
            pen += wgt * (self.pn @ nw**4 + self.pu @ u**4)
            fn = 2 * self.q * nw + self.w + np.cos(t1) * self.tw + 4 * self.pn * nw**3
            fn[0] += self.z * u[0]
            fu = 2 * self.r * u + t1 * self.c + 4 * self.pu * u**3
            fu[0] += self.z * nw[0]
            grad += wgt * (fn @ S + fu @ W)
            if self.ng and t1 in gt:
                cons.append(self.G @ nw + self.gam * nw[0]**2 + self.kap * t1 + self.mu * nw[0] * u[0] + self.del_ * u[0]**2 + self.H @ u
                            + np.cos(t1) * self.th * (nw[0] + u[0]))
                gn = self.G.copy()
                gn[:, 0] += 2 * self.gam * nw[0] + self.mu * u[0] + np.cos(t1) * self.th
                gu = self.H.copy()
                gu[:, 0] += 2 * self.del_ * u[0] + self.mu * nw[0] + np.cos(t1) * self.th
                cj.append(gn @ S + gu @ W)
            l = nw
            states.append(l)
        return {"cost": cost, "penalty": pen, "grad": grad, "cons": np.array(cons).ravel(),
                "cjac": np.array(cj).reshape(-1, N), "states": np.array(states)}


def grids(rng, t0=0.0, t1=None):
    """state, control and constraint times in all relations"""
    t0 = rng.choice([t0, t0 - 3.5, t0 + 1000.0])
    h = rng.choice([1.0, 4.0, 0.3])
    n = rng.randint(1, 12) if rng.random() > .02 else rng.randint(30, 70)
    times = np.linspace(t0, t0 + h * n, n + 1)
    if n > 2 and rng.random() < .3:
        times = np.sort(np.concatenate([[times[0], times[-1]], times[0] + (times[-1] - times[0]) * np.array([rng.uniform(.02, .98) for _ in range(n - 1)])]))
        if rng.random() < .3:       # a point next to another one
            i = rng.choice([1, n - 1, rng.randint(1, n - 1)])
            e = rng.choice([1e-3, 3e-4, 1e-4])
            times[i] = times[i + 1] - e * (times[-1] - times[0]) if rng.random() < .5 else times[i - 1] + e * (times[-1] - times[0])
    k = rng.random()
    if k < .3:
        ct = times.copy()
    elif k < .5:
        ct = np.linspace(times[0], times[-1], rng.randint(2, 3))
    elif k < .7:
        ct = np.linspace(times[0], times[-1], rng.randint(2, 2 * n + 3))
    elif k < .85:
        lo, hi = times[0] - rng.choice([0, .5 * h]), times[-1] + rng.choice([0, .7 * h])
        ct = np.array(sorted({lo, hi, *[rng.uniform(lo, hi) for _ in range(rng.randint(0, n + 2))]}))
    else:
        ct = np.array(sorted({times[0], times[-1], *rng.sample(list(times), min(len(times), rng.randint(1, n)))}))
    inner = list(times[1:])
    m = rng.choice([1, n, rng.randint(1, n)])
    gt = np.array(sorted(rng.sample(inner, m)))
    if rng.random() < .5:
        gt[-1] = times[-1]
    return times, ct, np.unique(gt)
