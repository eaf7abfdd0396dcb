"""Independent evaluation of grazer's model equations on an output file.

Every equation is evaluated from the *input files* and the *output file* only.
A residual comes with the scale of its largest term, which bounds rounding."""
import math
import numpy as np

BAR = 1e5
RHO0 = 0.785
T0, TC, Z0 = 273.15, 192.033, 1.005
P0, PC, T = 1.01325 * BAR, 46.4512 * BAR, 283.15
ALPHA = 0.257 / PC - 0.533 * TC / (PC * T)
ETA = 1e-5
C2 = P0 * T / (Z0 * T0 * RHO0)
KAPPA = 60.0


def p_of_rho(rho):
    return C2 * rho / (1 - ALPHA * C2 * rho)


def rho_of_p(p):
    return p / (C2 * (1 + ALPHA * p))


def dp_drho(rho):
    return C2 / (1 - ALPHA * C2 * rho) ** 2


def area(d):
    return math.pi * (d / 2) ** 2


def swamee(Re, d, r):
    return 0.25 / np.log10(r / (3.7 * d) + 5.74 / Re ** 0.9) ** 2


def dswamee(Re, d, r):
    a = r / (3.7 * d) + 5.74 / Re ** 0.9
    da = -0.9 * 5.74 / Re ** 1.9
    return -0.5 / np.log10(a) ** 3 * da / (a * math.log(10))


def lam(Re, d, r):
    """lambda for Re >= 2000"""
    Re = np.asarray(Re, float)
    # cubic Hermite in t in [0,1]
    t = (Re - 2000.0) / 2000.0
    f0, g0 = 64 / 2000.0, -64 / 2000.0 ** 2 * 2000.0
    f1, g1 = swamee(4000.0, d, r), dswamee(4000.0, d, r) * 2000.0
    h = (f0 * (1 + 2 * t) * (1 - t) ** 2 + g0 * t * (1 - t) ** 2
         + f1 * t ** 2 * (3 - 2 * t) + g1 * t ** 2 * (t - 1))
    return np.where(Re > 4000, swamee(np.maximum(Re, 4000), d, r), h)


def source1(rho, q, d, r):
    A = area(d)
    coeff = d / (A * ETA) * RHO0
    Re = coeff * np.abs(q)
    pre = -RHO0 / (2 * A * d)
    laminar = pre * 64 / coeff * q / rho
    other = pre * lam(np.maximum(Re, 2000), d, r) * np.abs(q) * q / rho
    return np.where(Re < 2000, laminar, other)


def npoints(L, ddx):
    return int(math.ceil(L / ddx)) + 1


def g2p(q, g, p):
    if q > KAPPA:
        return g * q
    if q < -KAPPA:
        return p * q
    r = q / KAPPA
    return q * (0.5 * (g + p) - 0.75 * (p - g) * r + 0.25 * (p - g) * r ** 3)


def interp(data, t, key="time"):
    xs = [e[key] for e in data]
    n = len(data[0]["values"])
    return [float(np.interp(t, xs, [e["values"][k] for e in data])) for k in range(n)]


UNITS = {"m": 1.0, "in": .0254, "ft": .3048, "yd": .9144, "mi": 1609.344}
PREFIX = {"Y": 1e24, "Z": 1e21, "E": 1e18, "P": 1e15, "T": 1e12, "G": 1e9, "M": 1e6, "k": 1e3, "h": 1e2, "da": 10.,
          "": 1., "d": .1, "c": 1e-2, "m": 1e-3, "mu": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "a": 1e-18, "z": 1e-21, "y": 1e-24}


def metres(m):
    u = m["unit"]
    num = 1.0
    if " " in u:
        n, u = u.split(" ")
        num = float(n)
    for name in sorted(UNITS, key=len, reverse=True):
        if u.endswith(name) and u[:-len(name)] in PREFIX:
            return m["value"] * num * PREFIX[u[:-len(name)]] * UNITS[name]
    raise ValueError(u)


def tgrid(t0, t1, dt):
    n = int(math.ceil((t1 - t0) / dt))
    return n + 1


def grid_options(h, dt):
    """numbers of points of the coarsest grid not coarser than dt; two if
    rounding decides"""
    n = int(math.ceil(h / dt))
    r = round(h / dt)
    if abs(h / dt - r) < 1e-9 * max(1, r) and r >= 1:
        return {n + 1, r + 1, r + 2} if n != r else {r + 1, r + 2}
    return {n + 1}


def merged(comp, type_, defaults):
    d = dict(defaults.get(type_, {}))
    d.update(comp)
    return d


class Problem:
    def __init__(self, prob):
        self.prob = prob
        pd = prob["problem_data"]
        s = pd["simulation_settings"]
        self.t0, self.t1, self.dt = s["start_time"], s["end_time"], s["desired_delta_t"]
        self.tol = s["tolerance"]
        self.times = np.linspace(self.t0, self.t1, tgrid(self.t0, self.t1, self.dt))
        defaults = pd["problem_data"].get("defaults", {})
        topo = prob["topology"]
        self.nodes, self.edges = {}, {}
        for t, cs in topo["nodes"].items():
            for c in cs:
                self.nodes[c["id"]] = (t, merged(c, t, defaults))
        for t, cs in topo["connections"].items():
            for c in cs:
                self.edges[c["id"]] = (t, merged(c, t, defaults))
        self.bnd = {c["id"]: c for part in ("nodes", "connections") for cs in prob["boundary"].get(part, {}).values() for c in cs}
        self.init = {c["id"]: c for part in ("nodes", "connections") for cs in prob["initial"].get(part, {}).values() for c in cs}
        cj = prob.get("control") or {}
        self.ctrl = {c["id"]: c for part in ("nodes", "connections") for cs in cj.get(part, {}).values() for c in cs}
        cs = pd.get("control_settings")
        if cs is None:
            n = tgrid(self.t0, self.t1, self.dt)
        elif "desired_delta_t" in cs:
            n = tgrid(self.t0, self.t1, cs["desired_delta_t"])
        else:
            n = cs["number_of_steps"]
        self.cgrid = np.linspace(self.t0, self.t1, max(n, 2))

    def control(self, eid, t, controls=None):
        """the value of the control at t: the given values are sampled at the
        control grid and interpolated linearly between them"""
        if controls is not None:
            data = controls[eid]
            return interp(data, t)[0]
        vals = [interp(self.ctrl[eid]["data"], c)[0] for c in self.cgrid]
        return float(np.interp(t, self.cgrid, vals))


class Output:
    """states.json, by component id"""
    def __init__(self, states):
        self.comp = {}
        self.raw = states
        for part in states:
            for t, cs in states[part].items():
                for c in cs:
                    if c["id"] in self.comp:
                        raise ValueError(f"component {c['id']} twice in the output")
                    self.comp[c["id"]] = (part, t, c["data"])


def cref(controls_json):
    if not controls_json:
        return None
    return {c["id"]: c["data"] for part in controls_json for cs in controls_json[part].values() for c in cs}


def structure(P, O):
    first = next((d for _, _, d in O.comp.values()), None)
    if first is not None and len(first) != len(P.times) and len(first) in grid_options(P.t1 - P.t0, P.dt):
        if len(P.cgrid) == len(P.times) and P.prob["problem_data"].get("control_settings") is None:
            P.cgrid = np.linspace(P.t0, P.t1, len(first))
        P.times = np.linspace(P.t0, P.t1, len(first))
    yield from _structure(P, O)


def _structure(P, O):
    """yields (key, message) for every deviation of the shape of the output"""
    want = {}
    for nid, (t, c) in P.nodes.items():
        if t in ("Vphinode", "PVnode", "PQnode", "StochasticPQnode", "ExternalPowerplant"):
            want[nid] = ("nodes", t)
    for eid, (t, c) in P.edges.items():
        if t != "Transmissionline":
            want[eid] = ("connections", t)
    for i, w in want.items():
        if i not in O.comp:
            yield "missing", f"component {i} ({w[1]}) has no results"
        elif O.comp[i][:2] != w:
            yield "misplaced", f"component {i} ({w[1]}) is filed under {O.comp[i][:2]}"
    for i in O.comp:
        if i not in want:
            yield "surplus", f"results of the unknown component {i}"
    for i, (part, t, data) in O.comp.items():
        ts = [e["time"] for e in data]
        if len(ts) != len(P.times):
            yield "grid", f"{i}: {len(ts)} time points instead of {len(P.times)}"
        else:
            err = np.max(np.abs(np.array(ts) - P.times)) if len(ts) else 0
            if not err <= 1e-9 * max(1, abs(P.t0), abs(P.t1)):
                yield "grid", f"{i}: times deviate by {err} from the equidistant grid"
            elif ts[0] != P.t0:
                yield "grid", f"{i}: first time {ts[0]} is not the start time {P.t0}"


class Step:
    """all equations of one time step; add(kind, where, residual, scale)"""


def endstates(P, O, k):
    """gas edges' boundary (p bar, q) at time index k: eid -> (start, end)"""
    out = {}
    for eid, (t, c) in P.edges.items():
        if t == "Transmissionline":
            continue
        e = O.comp[eid][2][k]
        pr, fl = e["pressure"], e["flow"]
        out[eid] = ((pr[0]["value"], fl[0]["value"]), (pr[-1]["value"], fl[-1]["value"]))
    return out


def residuals(P, O, controls=None, kinds=None, stride=1):
    """yield (kind, where, time, residual, scale). kinds: gasflow gaspressure
    pipe0 pipe1 active activeflow power coupling fixed"""
    want = lambda k: kinds is None or k in kinds
    gasnodes = {}
    for eid, (t, c) in P.edges.items():
        if t == "Transmissionline":
            continue
        gasnodes.setdefault(c["from"], []).append((eid, 0, 1))
        if t != "Gaspowerconnection":
            gasnodes.setdefault(c["to"], []).append((eid, 1, -1))
    lines = {}
    for eid, (t, c) in P.edges.items():
        if t == "Transmissionline":
            lines.setdefault(c["from"], []).append((c["G"], c["B"], c["to"]))
            lines.setdefault(c["to"], []).append((c["G"], c["B"], c["from"]))
    prev = None
    cells = {}
    for k in range(len(P.times)):
        if k == 0:
            for eid, (t, c) in P.edges.items():
                if t == "Pipe":
                    cells[eid] = pipe_arrays(O, eid, 0)
            continue
        t_new = float(O.comp[next(iter(O.comp))][2][k]["time"])
        t_last = float(O.comp[next(iter(O.comp))][2][k - 1]["time"])
        # --- gas nodes
        if want("gasflow") or want("gaspressure"):
            ends = endstates(P, O, k)
            for nid, att in gasnodes.items():
                ty = P.nodes[nid][0]
                vals = [(ends[e][side], s) for e, side, s in att]
                ps = [v[0][0] for v in vals]
                if ty == "Pressureboundarynode":
                    pb = interp(P.bnd[nid]["data"], t_new)[0]
                    for (e, side, s), p in zip(att, ps):
                        yield "gaspressure", f"{nid} ({ty}) pressure of {e}", t_new, p - pb, max(abs(p), abs(pb))
                    continue
                for (e, side, s), p in zip(att[1:], ps[1:]):
                    yield "gaspressure", f"{nid} ({ty}) pressure of {e} vs {att[0][0]}", t_new, p - ps[0], max(abs(p), abs(ps[0]))
                b = 0.0
                if ty in ("Source", "Sink", "ConstraintSink"):
                    b = interp(P.bnd[nid]["data"], t_new)[0]
                    if ty != "Source":
                        b = -b
                tot = sum(s * v[1] for v, s in vals) - b
                yield "gasflow", f"{nid} ({ty})", t_new, tot, sum(abs(v[1]) for v, s in vals) + abs(b)
        # --- edges
        for eid, (t, c) in P.edges.items():
            if t == "Pipe" and (want("pipe0") or want("pipe1")):
                rho, q, xs = pipe_arrays(O, eid, k)
                rl, ql, _ = cells[eid]
                yield from pipe_residual(P, eid, c, t_last, t_new, rl, ql, rho, q)
                cells[eid] = (rho, q, xs)
            elif t in ("Shortpipe", "Compressorstation", "Controlvalve") and (want("active") or want("activeflow")):
                e = O.comp[eid][2][k]
                (pa, pb), (qa, qb) = [[v["value"] for v in e[w]] for w in ("pressure", "flow")]
                u = 0.0
                if t != "Shortpipe":
                    u = P.control(eid, t_new, controls)
                    if t == "Controlvalve":
                        u = -u
                yield "active", f"{t} {eid}", t_new, pb - pa - u, abs(pa) + abs(pb) + abs(u)
                yield "activeflow", f"{t} {eid}", t_new, qb - qa, abs(qa) + abs(qb)
            elif t == "Gaspowerconnection" and want("coupling"):
                e = O.comp[eid][2][k]
                q = e["flow"][0]["value"]
                pw, _, sc = pq(P, O, lines, c["to"], k)
                yield "coupling", f"{eid}", t_new, pw - g2p(q, c["gas2power_q_coeff"], c["power2gas_q_coeff"]), sc + abs(pw)
        # --- power nodes
        if any(want(w) for w in ("power", "fixed", "powerout", "stochastic", "stochdev")):
            for nid, (t, c) in P.nodes.items():
                if nid not in O.comp or nid not in P.bnd:
                    continue
                e = O.comp[nid][2][k]
                Pn, Qn, sc = pq(P, O, lines, nid, k)
                yield "powerout", f"{nid} ({t}) P", t_new, e["P"] - Pn, sc
                yield "powerout", f"{nid} ({t}) Q", t_new, e["Q"] - Qn, sc
                b = interp(P.bnd[nid]["data"], t_new)
                if t in ("Vphinode", "ExternalPowerplant"):
                    yield "power", f"{nid} ({t}) V", t_new, e["V"] - b[0], abs(b[0])
                    yield "power", f"{nid} ({t}) phi", t_new, e["phi"] - b[1], abs(b[1])
                elif t == "PVnode":
                    yield "power", f"{nid} ({t}) P", t_new, Pn - b[0], sc
                    yield "power", f"{nid} ({t}) V", t_new, e["V"] - b[1], abs(b[1])
                elif t == "PQnode":
                    yield "power", f"{nid} ({t}) P", t_new, Pn - b[0], sc
                    yield "power", f"{nid} ({t}) Q", t_new, Qn - b[1], sc
                elif t == "StochasticPQnode":
                    for w, v, bb in (("P", Pn, b[0]), ("Q", Qn, b[1])):
                        cut = c["cut_off_factor"]
                        if bb != 0:
                            lo, hi = sorted(((1 - cut) * bb, (1 + cut) * bb))
                            yield "stochastic", f"{nid} {w} in [{lo},{hi}]", t_new, max(0.0, lo - v, v - hi), sc
                        yield "stochdev", f"{nid} {w}_deviation", t_new, e[w + "_deviation"] - (v - bb), sc


def pq(P, O, lines, nid, k):
    c = P.nodes[nid][1]
    e = O.comp[nid][2][k]
    V, ph = e["V"], e["phi"]
    Pn = c["G"] * V * V
    Qn = -c["B"] * V * V
    sc = (abs(c["G"]) + abs(c["B"])) * V * V
    for g, b, other in lines.get(nid, []):
        o = O.comp[other][2][k]
        d = ph - o["phi"]
        Pn += V * o["V"] * (g * math.cos(d) + b * math.sin(d))
        Qn += V * o["V"] * (g * math.sin(d) - b * math.cos(d))
        sc += abs(V * o["V"]) * (abs(g) + abs(b)) * (1 + abs(ph) + abs(o["phi"]))
    return Pn, Qn, sc


def pipe_arrays(O, eid, k):
    e = O.comp[eid][2][k]
    p = np.array([v["value"] for v in e["pressure"]]) * BAR
    q = np.array([v["value"] for v in e["flow"]])
    return rho_of_p(p), q, np.array([v["x"] for v in e["pressure"]])


def pipe_residual(P, eid, c, t_last, t_new, rl, ql, rn, qn):
    L, d, r = metres(c["length"]), metres(c["diameter"]), metres(c["roughness"])
    n = npoints(L, c["desired_delta_x"])
    if len(rn) != n and len(rn) in grid_options(L, c["desired_delta_x"]):
        n = len(rn)
    if len(rn) != n:
        yield "pipe0", f"{eid}: {len(rn)} points instead of {n}", t_new, float(len(rn) - n), 0.0
        return
    dx = L / (n - 1)
    dt = t_new - t_last
    A = area(d)
    f0 = RHO0 / A * qn
    p = p_of_rho(rn)
    f1 = A / RHO0 * p + RHO0 / A * qn * qn / rn
    s1 = source1(rn, qn, d, r)
    k = dt / dx
    r0 = 0.5 * (rn[:-1] + rn[1:]) - 0.5 * (rl[:-1] + rl[1:]) - k * (f0[:-1] - f0[1:])
    cond = np.abs(p) / dp_drho(rn) + np.abs(rn)          # rho is recovered from p
    condl = np.abs(p_of_rho(rl)) / dp_drho(rl) + np.abs(rl)
    sc0 = cond[:-1] + cond[1:] + condl[:-1] + condl[1:] + k * (np.abs(f0[:-1]) + np.abs(f0[1:]))
    r1 = 0.5 * (qn[:-1] + qn[1:]) - 0.5 * (ql[:-1] + ql[1:]) - k * (f1[:-1] - f1[1:]) - 0.5 * dt * (s1[:-1] + s1[1:])
    f1c = np.abs(f1) + RHO0 / A * qn * qn / rn * cond / rn
    s1 = s1 * cond / rn
    sc1 = np.abs(qn[:-1]) + np.abs(qn[1:]) + k * (np.abs(f1c[:-1]) + np.abs(f1c[1:])) + dt * (np.abs(s1[:-1]) + np.abs(s1[1:]))
    for name, rr, ss in (("pipe0", r0, sc0), ("pipe1", r1, sc1)):
        i = int(np.argmax(np.abs(rr) - 2e-13 * ss)) if np.all(np.isfinite(rr)) else int(np.argmax(~np.isfinite(rr)))
        yield name, f"pipe {eid} cell {i} of {n - 1}", t_new, float(rr[i]), float(ss[i])
    # global mass balance of the pipe: sum of the cells' mass equations
    tot = float(np.sum(r0)) * dx
    yield "mass", f"pipe {eid} total mass", t_new, tot / max(1.0, dx * (n - 1)), float(np.max(sc0))


def bad(res, scale, tol):
    """is the residual beyond the solver's tolerance and rounding?"""
    return not (abs(res) <= 1.001 * tol + 2e-12 * scale)
