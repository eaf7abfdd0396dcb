"""Equation of state and friction law of a pipe against the documented formulas."""
import math
import numpy as np
from lib import core, e2e, physics as ph
from lib.unit import Unit, Died, is_error


def close(a, b, tol, floor=0.0):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + floor


def around(x):
    """points in and close to x, on both sides"""
    out = [x]
    for k in (1, 3, 1000, 10**6, 10**9):
        out += [x + k * math.ulp(x), x - k * math.ulp(x)]
    return out


def case(exe):
    def fn(c, rng, d_):
        with Unit(exe) as U:
            for _ in range(6):
                body(c, rng, U)
        c.sig(c.i)
    return fn


def body(c, rng, U):
    d = rng.choice([.05, .1, .5, 1.0, 1.2, rng.uniform(.05, 2)])
    r = d * rng.choice([1e-6, 1e-5, 1e-4, 1e-3, .02, .05, rng.uniform(1e-7, .05)])
    pipe = {"diameter": {"value": d, "unit": "m"}, "roughness": {"value": r, "unit": "m"}}
    A = ph.area(d)
    coeff = d / (A * ph.ETA) * ph.RHO0
    ps = sorted({0.0, *(rng.uniform(.01, 400) * 1e5 for _ in range(30)), *(10 ** rng.uniform(-3, 7.5) for _ in range(20)), ph.P0, 1e5, 1e7})
    rhos = [ph.rho_of_p(p) for p in ps]
    Re = sorted({x for b in (2000.0, 4000.0) for x in around(b) if x >= 2000} | {rng.uniform(2000, 4000) for _ in range(20)} | {10 ** rng.uniform(3.31, 9) for _ in range(30)})
    qs = sorted({x / coeff for b in (2000.0, 4000.0) for x in around(b)} | {0.0, 5e-324} | {10 ** rng.uniform(-9, 3.5) for _ in range(40)} | {rng.uniform(1500, 4500) / coeff for _ in range(20)})
    states = [[rng.choice(rhos[1:]), s * q] for q in qs for s in (1, -1)]
    for k in range(0, len(states), 2):
        states[k + 1][0] = states[k][0]
    req = dict(pipe=pipe, d=d, r=r, rho=rhos, p=ps, state=states, Re=Re, q=qs)
    rep = {"request.json": req}
    try:
        o = U("balance", **req)
    except Died as e:
        c.violation("crash", f"aborts on admissible states: {e}", rep)
        return
    V = lambda key, msg: c.violation(key, f"diameter {d} m, roughness {r} m: {msg}", rep)
    c.count("pressures", len(ps)); c.count("states", len(states)); c.count("reynolds_numbers", len(Re))
    # equation of state
    for k, p in enumerate(ps):
        rho = rhos[k]
        if not close(o["rho"][k], rho, 1e-12):
            V("rho", f"density at {p} Pa is {o['rho'][k]}, should be {rho}")
        if not close(o["p"][k], p, 1e-11):
            V("p", f"pressure at density {rho} is {o['p'][k]}, should be {p}")
        if not close(o["dp"][k], float(ph.dp_drho(rho)), 1e-11):
            V("dp", f"slope of the pressure at density {rho} is {o['dp'][k]}, should be {ph.dp_drho(rho)}")
        if k and p > ps[k - 1] * (1 + 1e-9) + 1e-9 and not (o["rho"][k] > o["rho"][k - 1] and o["p"][k] > o["p"][k - 1]):
            V("monotone", f"pressure and density do not grow between {ps[k - 1]} and {p} Pa")
    # friction factor
    def value(x):
        return x if not is_error(x) else math.nan
    for k, x in enumerate(Re):
        l, dl = value(o["lambda"][k]), value(o["dlambda"][k])
        w = float(ph.lam(x, d, r))
        if not close(l, w, 1e-10):
            V("lambda", f"friction factor at Re {x!r} is {l}, should be {w}")
        if not (0 < l < 1):
            V("positive", f"friction factor at Re {x!r} is {l}")
        if x > 4000:
            wd = float(ph.dswamee(x, d, r))
        else:
            t = (x - 2000) / 2000
            f0, g0, f1, g1 = .032, -.032, ph.swamee(4000., d, r), ph.dswamee(4000., d, r) * 2000
            wd = float((f1 - f0) * (6 * t - 6 * t * t) + g0 * (1 - 4 * t + 3 * t * t) + g1 * (3 * t * t - 2 * t)) / 2000
        if not close(dl, wd, 1e-9, 1e-14):
            V("dlambda", f"slope of the friction factor at Re {x!r} is {dl}, should be {wd}")
        if x >= 4000:
            e = value(o["exact"][k])
            mu = 1 / math.sqrt(e) if e > 0 else math.nan
            if not abs(mu + 2 * math.log10(2.51 / x * mu + r / (3.71 * d))) < 1e-9:
                V("exact", f"the exact friction factor {e} at Re {x} does not satisfy the Colebrook-White equation")
            elif not .9 < e / l < 1.1:
                V("approximation", f"exact and approximate friction at Re {x} are {e} and {l}")
    if not close(o["coeff"], coeff, 1e-12):
        V("coeff", f"coefficient of the Reynolds number is {o['coeff']}, should be {coeff}")
    for k, q in enumerate(qs):
        if not close(o["Reynolds"][k], coeff * q, 1e-12, 1e-300):
            V("Reynolds", f"Reynolds number at {q} m^3/s is {o['Reynolds'][k]}, should be {coeff * q}")
    # balance law
    for k, (rho, q) in enumerate(states):
        p = ph.p_of_rho(rho)
        where = f"at density {rho}, flow {q!r} (Re {coeff * abs(q)})"
        f = [ph.RHO0 / A * q, A / ph.RHO0 * p + ph.RHO0 / A * q * q / rho]
        for i in (0, 1):
            if not close(o["flux"][k][i], f[i], 1e-11):
                V("flux", f"flux[{i}] {where} is {o['flux'][k][i]}, should be {f[i]}")
        df = [0, ph.RHO0 / A, None, 2 * ph.RHO0 / A * q / rho]
        a, b = A / ph.RHO0 * ph.dp_drho(rho), -ph.RHO0 / A * q * q / (rho * rho)
        for i in (0, 1, 3):
            if not close(o["dflux"][k][i], df[i], 1e-11):
                V("dflux", f"derivative {i} of the flux {where} is {o['dflux'][k][i]}, should be {df[i]}")
        if not close(o["dflux"][k][2], a + b, 1e-11, 1e-11 * (abs(a) + abs(b))):
            V("dflux", f"derivative 2 of the flux {where} is {o['dflux'][k][2]}, should be {a + b}")
        s0, s = o["source"][k]
        if s0 != 0:
            V("source0", f"source of mass {where} is {s0}")
        w = float(ph.source1(rho, q, d, r))
        if not close(s, w, 1e-10, 1e-300):
            V("source", f"friction force {where} is {s}, should be {w}")
        if s * q > 0 or (q != 0 and abs(q) > 1e-200 and not s * q < 0) or (q == 0 and s != 0):
            V("opposes", f"friction force {where} is {s}")
        ds = o["dsource"][k]
        if is_error(ds):
            V("dsource", f"derivative of the friction {where}: {ds['error']}")
        else:
            if ds[0] != 0 or ds[1] != 0:
                V("dsource0", f"derivative of the mass source {where} is {ds[:2]}")
            if not close(ds[2], -w / rho, 1e-10, 1e-300):
                V("dsource/rho", f"derivative of the friction by density {where} is {ds[2]}, should be {-w / rho}")
            x = coeff * abs(q)
            pre = -ph.RHO0 / (2 * A * d)
            if x < 2000:
                wd = pre * 64 / coeff / rho
            elif x > 4000:
                wd = pre / rho * (float(ph.dswamee(x, d, r)) * coeff * q * q + 2 * float(ph.swamee(x, d, r)) * abs(q))
            else:
                h = 1e-5 * abs(q)
                lamf = lambda y: float(ph.lam(coeff * y, d, r))
                t = (x - 2000) / 2000
                f0, g0, f1, g1 = .032, -.032, ph.swamee(4000., d, r), ph.dswamee(4000., d, r) * 2000
                dl = float((f1 - f0) * (6 * t - 6 * t * t) + g0 * (1 - 4 * t + 3 * t * t) + g1 * (3 * t * t - 2 * t)) / 2000
                wd = pre / rho * (dl * coeff * q * q + 2 * lamf(abs(q)) * abs(q))
            if not close(ds[3], wd, 1e-8):
                V("dsource/q", f"derivative of the friction by flow {where} is {ds[3]}, should be {wd}")
            if k % 2 and not is_error(o["dsource"][k - 1]) and not close(o["dsource"][k - 1][3], ds[3], 1e-12):
                V("even", f"slope of the friction {where} differs from that at {-q}")
        if k % 2 and o["source"][k - 1][1] != -s and not close(o["source"][k - 1][1], -s, 1e-13):
            V("odd", f"friction {where} is {s}, at {-q} it is {o['source'][k - 1][1]}")
        # conversions
        if not (close(o["p_qvol"][k][0], p, 1e-11) and o["p_qvol"][k][1] == q):
            V("p_qvol", f"pressure and flow {where} are {o['p_qvol'][k]}, should be {[p, q]}")
        if not (close(o["bar"][k][0], p / 1e5, 1e-11) and o["bar"][k][1] == q):
            V("bar", f"pressure in bar and flow {where} are {o['bar'][k]}, should be {[p / 1e5, q]}")
        if not (close(o["back"][k][0], rho, 1e-11) and o["back"][k][1] == q):
            V("inverse", f"converted to bar and back, the state {[rho, q]} is {o['back'][k]}")
        g = [float(ph.dp_drho(rho)), 0, 0, 1]
        if not all(close(x, y, 1e-11) for x, y in zip(o["dp_qvol"][k], g)):
            V("dp_qvol", f"derivative of pressure and flow {where} is {o['dp_qvol'][k]}, should be {g}")
        if not all(close(x, y, 1e-12) for x, y in zip(o["dbar"][k], [1e-5, 0, 0, 1])):
            V("dbar", f"derivative of the conversion to bar {where} is {o['dbar'][k]}")
    # continuity of the friction force over all flows (neighbouring points of qs)
    line = [o["source"][2 * k][1] * states[2 * k][0] for k in range(len(qs))]
    for k in range(1, len(qs)):
        if line[k] > line[k - 1] + 1e-12 * abs(line[k]) and qs[k - 1] * coeff < 1999:
            V("growing", f"friction force does not grow with the flow between {qs[k - 1]} and {qs[k]}")
    c.count("flows_laminar", sum(q * coeff < 2000 for q in qs))
    c.count("flows_transitional", sum(2000 <= q * coeff <= 4000 for q in qs))
    c.count("flows_turbulent", sum(q * coeff > 4000 for q in qs))


def check(ctx):
    exe, = core.build("plain/unit")
    ctx.rule = ("a case is six pipes; pressures from 1e-3 Pa to 400 bar, flows of both signs and Reynolds numbers from 0 to 1e9, the regime "
                "limits 2000 and 4000 approached by one unit in the last place from both sides; compared with independently coded formulas")
    e2e.run_cases(ctx, case(exe), 20000 if ctx.thorough else 150, 300 if ctx.thorough else 20)
