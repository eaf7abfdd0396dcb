"""Pairs of simulations: problems built from the results of others, and comparison of results."""
import json
from lib import core
from checks.c14 import clone

FILES = ("topology", "boundary", "initial", "control")
BASE_TOL = 2e-6


def comps(part):
    for sec in part:
        for t, cs in part[sec].items():
            for c in cs:
                yield sec, t, c


def pipe_length(g, eid):
    return g.truth[eid]["L"]


def state_values(g, O, i, k):
    """initial values for component i from its published state at step k"""
    sec, t, data = O[i]
    e = data[k]
    if sec == "nodes":
        return [{"x": 0.0, "values": [e["V"], e["phi"]]}]
    pts = [{"x": p["x"], "values": [p["value"], q["value"]]} for p, q in zip(e["pressure"], e["flow"])]
    if t == "Pipe":
        # one more point, so that the data surely reaches the end of the pipe
        pts.append({"x": max(pts[-1]["x"], pipe_length(g, i)) * (1 + 1e-6), "values": list(pts[-1]["values"])})
    return pts


def initial_from(g, O, k):
    init = {"nodes": {}, "connections": {}}
    for i, (sec, t, data) in O.items():
        init[sec].setdefault(t, []).append({"id": i, "data": state_values(g, O, i, k)})
    return init


def shift_times(part, s):
    for _, _, c in comps(part):
        for p in c["data"]:
            p["time"] += s


def table(states):
    return {x["id"]: (sec, t, x["data"]) for sec in states for t, cs in states[sec].items() for x in cs}


def physical(comp):
    """all pressures (bar) are far away from vacuum and from the pole of the equation of state; elsewhere
    two runs may find different solutions"""
    return all(1.0 < p["value"] < 250.0 for sec, t, data in comp.values() if sec == "connections" for e in data for p in e["pressure"])


def far(a, b, tol):
    return not abs(a - b) <= tol * max(abs(a), abs(b), 1.0)


def diff(O1, O2, k1=0, k2=0, n=None, shift=0.0, tol=BASE_TOL, skip=()):
    """first difference of O1 from its step k1 on and O2 from its step k2 on (n steps; all if None)"""
    if set(O1) - set(skip) != set(O2) - set(skip):
        return f"components {sorted(set(O1) ^ set(O2))[:6]} occur on one side only"
    for i in O1:
        if i in skip:
            continue
        s, t, x = O1[i]
        s2, t2, y = O2[i]
        if (s, t) != (s2, t2):
            return f"{i}: {s}/{t} and {s2}/{t2}"
        x, y = x[k1:], y[k2:]
        if n is not None:
            x, y = x[:n], y[:n]
        if len(x) != len(y) or (n is not None and len(x) != n):
            return f"{i}: {len(x)} and {len(y)} time points"
        for p, q in zip(x, y):
            if p.keys() != q.keys():
                return f"{i}: keys {sorted(p)} and {sorted(q)}"
            for key in p:
                u, v = p[key], q[key]
                if isinstance(u, list):
                    if len(u) != len(v):
                        return f"{i}/{key}: {len(u)} and {len(v)} points"
                    for e, f in zip(u, v):
                        if any(far(e[z], f[z], tol) for z in e if isinstance(e[z], (int, float))):
                            return f"{i} ({t}) {key} at time {p['time']}: {e} and {f}"
                elif key == "time":
                    if not abs(u + shift - v) <= 1e-9 * max(1, abs(u), abs(v)):
                        return f"{i}: time {u} and {v}"
                elif far(u, v, tol):
                    return f"{i} ({t}) {key} at time {p['time']}: {u!r} and {v!r}"
    return None


def run(d, prob, exe, **kw):
    core.write_problem(d, prob)
    r = core.grazer_run(exe, d, **kw)
    if r.rc == 0 and not r.timed_out and not r.crash():
        s, _ = core.read_output(d)
        if s is not None and "__broken__" not in s:
            return r, s
    return r, None
