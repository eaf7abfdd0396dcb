"""Client of harness/lab.cpp."""
import json, os, subprocess, tempfile
import numpy as np
from . import core


class LabDied(Exception):
    """the library aborted or crashed"""


class LabError(Exception):
    """an exception in the library"""


class Lab:
    def __init__(self, exe, env=None, cwd=None):
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ, LAB_QUIET="1", **core.SAN_ENV)
        e.update(env or {})
        self.p = subprocess.Popen([str(exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=e, cwd=cwd, preexec_fn=core.limits())

    wrapped = False

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def died(self):
        self.p.kill()
        rc = self.p.wait()
        self.err.seek(0)
        text = self.err.read().decode(errors="replace")[-6000:]
        core.OBSERVED.append((core.Result(rc, "", text).crash() or f"rc {rc}", "lab", text))
        raise LabDied(f"rc {rc}: {text[-1500:]}")

    def call(self, cmd, *ints, data=()):
        a = np.concatenate([np.asarray(x, float).ravel() for x in data]) if len(data) else np.zeros(0)
        head = f"{cmd} {' '.join(str(int(i)) for i in ints)} @{a.size}\n"
        return self._rpc(head.encode() + a.tobytes())

    def _rpc(self, raw):
        try:
            self.p.stdin.write(raw)
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            self.died()
        if not line:
            self.died()
        line = line.decode(errors="replace").rstrip("\n")
        if line.startswith("err "):
            raise LabError(line[4:])
        head, _, n = line.rpartition(" @")
        n = int(n)
        self.text = ""
        if " |" in head:
            head, _, self.text = head.partition(" |")
        ints = [int(x) for x in head.split()[1:]]
        buf = self.p.stdout.read(8 * n) if n else b""
        if len(buf) != 8 * n:
            self.died()
        return ints, np.frombuffer(buf, float)

    # ---- convenience
    def load(self, d):
        (self.ns, self.nc, self.ng), self.x0 = self._rpc(f"load {d}\n".encode())
        return self

    def eval(self, t0, t1, last, new, u):
        """last, new, u: (K,n) arrays -> (K,ns)"""
        last, new, u = (np.atleast_2d(np.asarray(x, float)) for x in (last, new, u))
        K = max(last.shape[0], new.shape[0], u.shape[0])
        b = [np.broadcast_to(x, (K, x.shape[1])) for x in (last, new, u.reshape(u.shape[0], self.nc))]
        return self.call("eval", K, data=[[t0, t1], np.hstack(b)])[1].reshape(K, self.ns)

    def fun(self, which, t, s, u):
        s, u = np.atleast_2d(s), np.atleast_2d(u)
        K = max(s.shape[0], u.shape[0])
        b = [np.broadcast_to(s, (K, self.ns)), np.broadcast_to(u.reshape(u.shape[0], self.nc), (K, self.nc))]
        return self.call("fun", which, K, data=[[t], np.hstack(b)])[1].reshape(K, self.ng if which == 2 else 1)

    def jac(self, which, mode, t0, t1, last, new, u):
        (r, c, nnz), v = self.call("jac", which, mode, data=[[t0, t1], last, new, u])
        return v.reshape(r, c)

    def simulate(self, times, ct=(), cv=()):
        return self.call("simulate", len(times), len(ct), data=[times, ct, cv])[1].reshape(len(times), self.ns)

    def controls(self, ct):
        return self.call("controls", len(ct), data=[ct])[1].reshape(len(ct), self.nc)

    def indices(self):
        ints, _ = self.call("indices")
        names = json.loads(bytes.fromhex(self.text).decode())
        return [(n, ints[7 * k:7 * k + 7]) for k, n in enumerate(names)]

    def opt(self, times, ct, gt, ic, lo, up, glo, gup, wrapped=False):
        (self.nx, self.nco, self.nnz), v = self.call("opt", len(times), len(ct), len(gt), int(wrapped), data=[times, ct, gt, ic, lo, up, glo, gup])
        self.wrapped = wrapped
        return v

    def finalize(self, x, g, obj, success=True):
        """objective, cost, penalty, solution, constraints kept by the wrapper"""
        _, v = self.call("w", 6, int(success), data=[x, g, [obj]])
        return v[0], v[1], v[2], v[3:3 + self.nx], v[3 + self.nx:]

    def nlp(self):
        """what Ipopt is told: sizes, lower, upper, constraint lower, constraint upper, start, rows, columns"""
        i, v = self.call("w", 7, 0)
        if not i[-1]:
            return i, None
        parts, k = [], 0
        for n in (self.nx, self.nx, self.nco, self.nco, self.nx, self.nnz, self.nnz):
            parts.append(v[k:k + n])
            k += n
        return i, parts

    def ipopt(self):
        """status, objective, cost, penalty, solution"""
        (st,), v = self.call("ipopt")
        return st, v[0], v[1], v[2], v[3:]

    def cache(self, what, times=(), ct=(), cv=(), init=()):
        """0: new cache; 1: refresh, 2: check and supply -> (ok, states)"""
        (ok,), v = self.call("cache", what, len(times), len(ct), data=[times, ct, cv, init] if what else [])
        return bool(ok), v

    def struct(self):
        (ok,), v = self.call("ostruct")
        n = v.size // 2
        return ok, v[:n].astype(int), v[n:].astype(int)

    def o(self, what, x, newx=True):
        via = "w" if self.wrapped and what in (OBJ, CONS, GRAD, CJAC) else "o"
        (ok,), v = self.call(via, what, int(newx), data=[x])
        return bool(ok), v


OBJ, COST, PENALTY, CONS, GRAD, CJAC, STATES = range(7)
