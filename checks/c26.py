"""The helper tools on the results of generated problems."""
import json, math, os, shutil, statistics
from lib import core, e2e, meta, netgen
from checks.c14 import clone

TOOLS = ["extract_new_initial_condition", "generate_printing_csv", "generate_control_printing_csv", "get_mean_sigma",
         "get_quantiles", "compute_reference_discrepance", "include_seed_in_boundaryvalues", "remove_seed_from_boundaryvalues",
         "increase_pressure", "change_inflow", "sum_outflow", "move_to_category", "normalize_jsons", "stringify_value_json",
         "insert_positions", "construct_gaspowerconnection", "oup"]
GAS = ("Pipe", "Shortpipe", "Gaspowerconnection", "Compressorstation", "Controlvalve")


class Tool:
    def __init__(self, c, exes, prob):
        self.c, self.exes, self.prob = c, exes, prob

    def __call__(self, name, *args, cwd, ok=True, stdin=None):
        r = core.run([str(self.exes[name]), *map(str, args)], cwd=cwd, timeout=60, **({"stdin": stdin} if stdin else {}))
        if r.timed_out or r.crash():
            self.bad(name, "crash", f"{r.crash() or 'hangs'}")
            return None
        if ok and r.rc != 0:
            self.bad(name, "refused", r.text[-300:])
            return None
        self.c.count(name)
        return r

    def bad(self, name, key, msg, **files):
        self.c.violation(f"{name}/{key}", f"{name}: {msg}", dict(e2e.replay(self.prob), **files))


def load(p):
    try:
        return json.loads(p.read_text())
    except (OSError, ValueError):
        return None


def dump(p, j):
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_text(json.dumps(j))


def close(a, b, tol=1e-12, scale=0.0):
    return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= tol * max(abs(a), abs(b), scale))


def by_id(part):
    return {c["id"]: (sec, t, c) for sec, t, c in meta.comps(part)}


def plain(part):
    """contents without order of the components and without empty types"""
    return {k: (s, t, json.dumps(c, sort_keys=True)) for k, (s, t, c) in by_id(part).items()}


def csv(p):
    try:
        lines = p.read_text().splitlines()
    except OSError:
        return None
    return [[x.strip() for x in l.split(",")] for l in lines]


# ------------------------------------------------------------------ one run
def continue_run(c, rng, d, T, g, prob, O, states, exe):
    data = next(iter(O.comp.values()))[2]
    times = [e["time"] for e in data]
    n = len(times)
    k = rng.choice([0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)])
    mode = rng.choice(["exact", "exact", "between", "before", "after"])
    if mode == "exact":
        t, want = times[k], k
    elif mode == "between" and n > 1:
        j = rng.randrange(n - 1)
        t, want = times[j] + rng.uniform(.2, .8) * (times[j + 1] - times[j]), j + 1
    elif mode == "after":
        t, want = times[-1] + rng.choice([1.0, 1e6]), n - 1
    else:
        mode, t, want = "before", times[0] - rng.choice([1.0, 1e6]), 0
    out = d / "newinitial.json"
    if T("extract_new_initial_condition", d / "states.json", out, repr(t), cwd=d) is None:
        return
    new = load(out)
    rep = {"newinitial.json": new, "states.json": states}
    if new is None:
        T.bad("extract_new_initial_condition", "output", "leaves no readable file")
        return
    got = by_id(new)
    if set(got) != set(O.comp):
        T.bad("extract_new_initial_condition", "components", f"components {sorted(set(got) ^ set(O.comp))[:5]} on one side only", **rep)
        return
    for i, (sec, ty, dat) in O.comp.items():
        e = dat[want]
        if sec == "nodes":
            exp = [(0.0, [e["V"], e["phi"]])]
        else:
            exp = [(p["x"], [p["value"], q["value"]]) for p, q in zip(e["pressure"], e["flow"])]
        s2, t2, comp = got[i]
        have = [(p["x"], p["values"]) for p in comp["data"]]
        if (s2, t2) != (sec, ty) or have != exp:
            at = [x["time"] for x in dat if have == ([(0.0, [x["V"], x["phi"]])] if sec == "nodes" else
                  [(p["x"], [p["value"], q["value"]]) for p, q in zip(x["pressure"], x["flow"])])]
            T.bad("extract_new_initial_condition", "values" if mode == "exact" else mode,
                  f"asked for time {t} ({mode}) the state of {i} is to be the published one of time {dat[want]['time']}" + (f", it is the one of time {at[0]}" if at else ", it is none of the published ones"), **rep)
            return
    c.sig("extract", mode, ty, n)
    # the extracted file continues the run
    if want < n - 1 and meta.physical(O.comp):
        q = clone(prob)
        q["problem_data"]["simulation_settings"]["start_time"] = times[want]
        q["initial"] = new
        r, s = meta.run(d / "continued", q, exe)
        if s is None:
            if not e2e.numerical(r.text):
                T.bad("extract_new_initial_condition", "continue", f"the run cannot be continued from time {times[want]}: {r.text[-300:]}", **rep)
            return
        dif = meta.diff(O.comp, meta.table(s), k1=want)
        if dif:
            T.bad("extract_new_initial_condition", "continue", f"continued from time {times[want]}: {dif}", **rep)
        c.count("continued_runs")


def tabulate(c, rng, d, T, states, controls):
    ids = [(sec, t, x) for sec, t, x in meta.comps(states) if "/" not in x["id"]]
    for sec, t, x in rng.sample(ids, min(4, len(ids))):
        i = x["id"]
        w = d / "csv"
        w.mkdir(exist_ok=True)
        if T("generate_printing_csv", d / "states.json", i, cwd=w) is None:
            return
        if sec == "nodes":
            tab = csv(w / f"{i}.csv")
            keys = [k for k in x["data"][0] if k != "time"]
            if tab is None or len(tab) != len(x["data"]) + 1 or tab[0][:1] != ["time"] or sorted(tab[0][1:]) != sorted(keys):
                T.bad("generate_printing_csv", "shape", f"{i}.csv: {tab and tab[:2]}", **{"states.json": states})
                return
            for row, e in zip(tab[1:], x["data"]):
                exp = [e[h] for h in tab[0]]
                if len(row) != len(exp) or any(not close(float(a), b) for a, b in zip(row, exp)):
                    T.bad("generate_printing_csv", "values", f"{i} at time {e['time']}: {row}, published are {exp}", **{"states.json": states})
                    return
        else:
            keys = [k for k in x["data"][0] if k != "time"]
            for key in keys:
                tab = csv(w / f"{i}_{key}.csv")
                xs = [p["x"] for p in x["data"][0][key]]
                if tab is None or len(tab) != len(x["data"]) + 1 or len(tab[0]) != len(xs) + 1 or any(not close(float(a), b) for a, b in zip(tab[0][1:], xs)):
                    T.bad("generate_printing_csv", "shape", f"{i}_{key}.csv: {tab and tab[:2]}", **{"states.json": states})
                    return
                for row, e in zip(tab[1:], x["data"]):
                    exp = [e["time"]] + [p["value"] for p in e[key]]
                    if len(row) != len(exp) or any(not close(float(a), b) for a, b in zip(row, exp)):
                        T.bad("generate_printing_csv", "values", f"{i} {key} at time {e['time']}: {row}, published are {exp}", **{"states.json": states})
                        return
        c.sig("csv", t, len(x["data"]))
        c.count("tabulated_rows", len(x["data"]))
    # a component which is not there
    r = T("generate_printing_csv", d / "states.json", "no such component", cwd=d, ok=False)
    if r is not None and r.rc == 0:
        T.bad("generate_printing_csv", "unknown", "an unknown component is tabulated")
    if controls:
        dump(d / "controls.json", controls)
        for sec, t, x in meta.comps(controls):
            i = x["id"]
            if "/" in i:
                continue
            w = d / "ccsv"
            w.mkdir(exist_ok=True)
            if T("generate_control_printing_csv", d / "controls.json", i, cwd=w) is None:
                return
            tab = csv(w / f"{i}.csv")
            m = len(x["data"][0]["values"])
            if tab is None or len(tab) != len(x["data"]) + 1 or len(tab[0]) != m + 1:
                T.bad("generate_control_printing_csv", "shape", f"{i}.csv: {tab and tab[:2]}", **{"controls.json": controls})
                return
            for row, e in zip(tab[1:], x["data"]):
                exp = [e["time"]] + e["values"]
                if len(row) != len(exp) or any(not close(float(a), b) for a, b in zip(row, exp)):
                    T.bad("generate_control_printing_csv", "values", f"{i}: {row}, published are {exp}", **{"controls.json": controls})
                    return


# ------------------------------------------------------- changes of the input
def only(T, tool, before, after, allowed, what, prob):
    """allowed(sec, type, component before) -> component wanted after"""
    b, a = by_id(before), by_id(after)
    if set(b) != set(a):
        T.bad(tool, "components", f"components {sorted(set(a) ^ set(b))[:5]} on one side only")
        return False
    for i, (sec, t, x) in b.items():
        want = allowed(sec, t, clone(x))
        s2, t2, y = a[i]
        if (sec, t) != (s2, t2) or not same(want, y):
            T.bad(tool, "change", f"{what}: {i} ({t}) becomes {json.dumps(y)[:300]}, wanted {json.dumps(want)[:300]}")
            return False
    return True


def same(x, y, tol=1e-12):
    if isinstance(x, dict):
        return isinstance(y, dict) and x.keys() == y.keys() and all(same(x[k], y[k], tol) for k in x)
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and all(same(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, str):
        return x == y
    return close(x, y, tol)


def change_inputs(c, rng, d, T, prob):
    w = d / "in"
    core.write_problem(w, prob)
    P = w / "problem"
    # pressures
    before = load(P / "initial.json")
    dp = rng.choice([1.0, -2.5, 0.0, 1e-3, 12.0])
    if T("increase_pressure", w, repr(dp), cwd=d) is not None:
        after = load(P / "initial.json")

        def raised(sec, t, x):
            if t in GAS:
                for p in x["data"]:
                    p["values"][0] += dp
            return x
        if after is None:
            T.bad("increase_pressure", "output", "the file is unreadable afterwards")
        elif only(T, "increase_pressure", before, after, raised, f"pressure raised by {dp}", prob):
            c.sig("pressure", dp, len(by_id(before)))
        dump(P / "initial.json", before)
    # inflow: constant at the sources
    q = clone(prob)
    src = q["boundary"]["nodes"].get("Source", [])
    if src:
        for x in src:
            v = rng.uniform(1, 50) if x is src[0] or rng.random() < .8 else -rng.uniform(0, .5 / len(src))
            ts = [p["time"] for p in x["data"]]
            x["data"] = [{"time": s, "values": [v]} for s in (ts[0], ts[-1])]
        dump(P / "boundary.json", q["boundary"])
        total = sum(x["data"][0]["values"][0] for x in src)
        new = rng.choice([1.0, 100.0, total, rng.uniform(1, 500)])
        if T("change_inflow", repr(new), cwd=w) is not None:
            after = load(P / "boundary.json")

            def scaled(sec, t, x):
                if t == "Source":
                    for p in x["data"]:
                        p["values"][0] *= new / total
                return x
            if after is None:
                T.bad("change_inflow", "output", "the file is unreadable afterwards")
            elif only(T, "change_inflow", q["boundary"], after, scaled, f"inflow changed from {total} to {new}", q):
                c.sig("inflow", len(src))
        dump(P / "boundary.json", prob["boundary"])
    sp = prob["initial"]["connections"].get("Shortpipe")
    if sp:
        summed = clone(prob["initial"])
        sp = summed["connections"]["Shortpipe"]
        for x in sp:
            for p in x["data"]:
                p["values"] = [v + rng.choice([0, 1]) * rng.uniform(-2, 2) for v in p["values"]]
        dump(d / "outflow.json", summed)
        r = T("sum_outflow", d / "outflow.json", cwd=d)
        if r is not None:
            fl = [x["data"][1]["values"][1] for x in sp]
            try:
                v = float(r.out.split()[-1])
                if not abs(v - sum(fl)) <= 1e-5 * max([1.0, abs(sum(fl))] + [abs(f) for f in fl]):
                    T.bad("sum_outflow", "sum", f"the outflows {fl} are summed to {v}")
            except (ValueError, IndexError):
                T.bad("sum_outflow", "output", f"prints {r.out[-100:]!r}")
    # numbers as text
    for f in ("boundary", "initial"):
        out = d / f"text_{f}.json"
        if T("stringify_value_json", P / f"{f}.json", out, cwd=d) is None:
            continue
        after = load(out)

        def text(x, y):
            for p, s in zip(x["data"], y["data"]):
                if [type(v) for v in s["values"]] != [str] * len(p["values"]):
                    return f"{s['values']} is no list of texts"
                if any(not abs(float(v) - u) <= 1e-8 * max(1.0, abs(u)) for v, u in zip(s["values"], p["values"])):
                    return f"{p['values']} is written as {s['values']}"
                s["values"] = p["values"]
            return None if same(x, y, 0.0) else "more than the values is changed"
        a, b = by_id(after or {}), by_id(prob[f])
        if set(a) != set(b):
            T.bad("stringify_value_json", "components", f"components {sorted(set(a) ^ set(b))[:5]} on one side only")
            continue
        for i in b:
            m = text(b[i][2], a[i][2]) if len(a[i][2].get("data", [])) == len(b[i][2]["data"]) else "data points are lost"
            if m:
                T.bad("stringify_value_json", "values", f"{i} in {f}: {m}")
                break
    # the files as such
    if "control" not in prob:
        dump(P / "control.json", {"nodes": {}, "connections": {}})
    files = [f for f in meta.FILES]
    before = {f: load(P / f"{f}.json") for f in files}
    if T("normalize_jsons", cwd=P) is not None:
        for f in files:
            if load(P / f"{f}.json") != before[f]:
                T.bad("normalize_jsons", "change", f"{f}.json has another content afterwards")
    cand = [(sec, t, x["id"]) for sec, t, x in meta.comps(before["topology"])]
    sec, t, i = rng.choice(cand)
    to = rng.choice([u for s, u, _ in cand if s == sec] + ["Sink" if sec == "nodes" else "Shortpipe", "Newtype"])
    if T("move_to_category", t, to, i, cwd=P) is not None:
        for f in files:
            a, b = by_id(load(P / f"{f}.json") or {}), by_id(before[f])
            want = {k: ((s, to, x) if k == i else (s, u, x)) for k, (s, u, x) in b.items()}
            if a != want:
                bad = sorted(k for k in set(a) | set(want) if a.get(k) != want.get(k))
                T.bad("move_to_category", "change", f"{f}.json: {i} moved from {t} to {to}, but {bad[:4]} differ")
                break
        c.sig("move", t, to)
    # positions
    pos, roads = {}, rng.random() < .4
    for sec, t, x in meta.comps(before["topology"]):
        if sec == "nodes" or roads:
            pos.setdefault(sec, {}).setdefault(t, []).append({"id": x["id"], "x": rng.uniform(-9, 9), "y": rng.randrange(99)})
    for l in [l for s in pos.values() for l in s.values()]:
        rng.shuffle(l)
        if rng.random() < .3:
            l.append({"id": "zzz surplus", "x": 1, "y": 2})
    dump(d / "pos.json", pos)
    dump(d / "top.json", before["topology"])
    if T("insert_positions", d / "top.json", d / "pos.json", d / "placed.json", cwd=d) is not None:
        after = load(d / "placed.json")
        where = {y["id"]: y for _, _, y in meta.comps(pos)}
        if after is None:
            T.bad("insert_positions", "output", "no readable output")
        else:
            only(T, "insert_positions", before["topology"], after,
                 lambda sec, t, x: dict(x, x=where[x["id"]]["x"], y=where[x["id"]]["y"]) if sec in pos else x, "positions", prob)


def add_coupling(c, rng, d, T, prob):
    """a further coupling is a copy of an existing one between the given nodes"""
    cat, tool = "Gaspowerconnection", "construct_gaspowerconnection"
    if not prob["topology"]["connections"].get(cat):
        return
    w = d / "couple"
    a, b = f"{rng.randrange(1000)}", f"{rng.choice(['N', ''])}{rng.randrange(1000)}x"
    new = f"g2p_{a}_{b}"
    parts = {k: clone(prob.get(k) or {"nodes": {}, "connections": {}}) for k in ("topology", "boundary", "initial", "control")}
    for k in ("boundary", "control"):          # the tool treats all files alike
        if rng.random() < .5 and not parts[k].setdefault("connections", {}).get(cat):
            parts[k]["connections"][cat] = [{"id": x["id"], "data": [{"time": 0.0, "values": [rng.uniform(-5, 5)]}]} for x in parts["topology"]["connections"][cat]]
    if any(x["id"] == new for p in parts.values() for _, _, x in meta.comps(p)):
        return
    for k, p in parts.items():
        dump(w / f"{k}.json", p)
    if T(tool, a, b, cwd=w) is None:
        return
    for k, p in parts.items():
        after = load(w / f"{k}.json")
        if after is None:
            T.bad(tool, "output", f"{k}.json is unreadable afterwards")
            return
        have = [(s, t, x) for s, t, x in meta.comps(after) if x["id"] == new]
        old = p["connections"].get(cat)
        if len(have) != (1 if old else 0):
            T.bad(tool, "number", f"{len(have)} new entries in {k}.json instead of {1 if old else 0}")
            return
        for s, t, x in have:
            if k == "topology" and (x["from"], x["to"]) != ("node_" + a, b):
                T.bad(tool, "ends", f"the new coupling goes from {x['from']} to {x['to']}, wanted are node_{a} and {b}")
                return
            rest = {u: v for u, v in x.items() if u not in ("id", "from", "to")}
            if t != cat or not any(same({u: v for u, v in o.items() if u not in ("id", "from", "to")}, rest) for o in old):
                T.bad(tool, "copy", f"the new entry {json.dumps(x)[:300]} in {k}.json is no copy of another coupling")
                return
            after[s][t].remove(x)
        if not only(T, tool, p, after, lambda s, t, x: x, f"a coupling added to {k}.json", prob):
            return
    # a second time it is refused and nothing changes
    saved = {k: (w / f"{k}.json").read_bytes() for k in parts}
    r = T(tool, a, b, cwd=w, ok=False)
    if r is not None and (r.rc == 0 or any((w / f"{k}.json").read_bytes() != v for k, v in saved.items())):
        T.bad(tool, "again", "the coupling is added twice")
    c.sig("coupling", len(parts["topology"]["connections"][cat]), bool(prob.get("control")))


def process(exes):
    """the tool that writes a realization of the process of the stochastic loads"""
    def fn(c, rng, d):
        T = Tool(c, exes, {"problem_data": {}})
        d.mkdir(parents=True, exist_ok=True)
        start = rng.choice([0.0, 0.0, rng.uniform(-50, 50)])
        n = rng.choice([1, 2, 3, 10, 49, 98, 103, rng.randrange(1, 200), rng.randrange(1, 200), rng.randrange(200, 3000)])
        length = rng.choice([1.0, 10.0, rng.uniform(.1, 100)])
        mu = rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2)
        theta = rng.choice([0.0, 10 ** rng.uniform(-2, 1)])
        sigma = rng.choice([0.0, abs(mu) * 10 ** rng.uniform(-3, 0)])
        stab, cut = rng.choice([.2, .5, 1.0, 1.9]), rng.choice([.1, .5, 1.0, 3.0])
        if theta * length / n / stab > 50:
            return
        args = [start, start + length, n, mu, theta, sigma, stab, cut]

        def bad(key, msg):
            c.violation(f"oup/{key}", f"oup {' '.join(map(repr, args))}: {msg}", {"arguments": args})
        paths = []
        for name in ("a.csv", "b.csv"):
            if T("oup", *map(repr, args), name, cwd=d) is None:
                return
            tab = csv(d / name)
            try:
                assert tab[0] == ["time", "value"]
                pts = [(float(a), float(b)) for a, b in tab[1:]]
            except (AssertionError, TypeError, ValueError, IndexError):
                bad("output", f"{tab and tab[:3]} is no table of times and values")
                return
            paths.append(pts)
            m = len(pts) - 1
            eps = 2e-5 * (max(abs(start), abs(start + length)) + 1e-9)
            if m < n or m % n:
                bad("points", f"{m} steps written, wanted are {n} or a multiple")
                return
            for k, (t, v) in enumerate(pts):
                if not abs(t - (start + length * k / m)) <= eps:
                    bad("times", f"point {k} of {m} has the time {t} instead of {start + length * k / m}")
                    return
                if not abs(v - mu) <= cut * abs(mu) * (1 + 1e-4) + 2e-5 * abs(mu):
                    bad("cut-off", f"value {v} is outside of {mu} * (1 +- {cut})")
                    return
            if not abs(pts[0][1] - mu) <= 1e-5 * abs(mu) or sigma == 0 and any(abs(v - mu) > 2e-5 * abs(mu) for _, v in pts):
                bad("mean", "the process starts at its mean, and without noise it stays there")
                return
            h = length / m
            if m == n and theta * h < .999 * stab and sigma and m >= 100:
                # explicit Euler steps; those that touch the cut-off are left out
                z = [(b - a - theta * (mu - a) * h) / (sigma * math.sqrt(h)) for (_, a), (_, b) in zip(pts, pts[1:])
                     if abs(b - mu) < cut * abs(mu) * .999]
                if len(z) == m:
                    dig = 1e-5 * max(abs(v) for _, v in pts) / (sigma * math.sqrt(h))
                    var, mean = sum(x * x for x in z) / m, sum(z) / m
                    if abs(mean) > 8 / math.sqrt(m) + dig or abs(var - 1) > 8 * math.sqrt(2 / m) + 3 * dig + dig * dig:
                        bad("noise", f"the increments have mean {mean} and variance {var} of the wanted one")
                        return
                    c.count("noise")
        if sigma and paths[0] == paths[1] and n > 2:
            bad("repeated", "two realizations are equal")
        c.sig("process", n if n < 10 else n // 50 * 50, len(paths[0]) > n + 1, theta == 0, sigma == 0, stab, cut)
    return fn


def single(exe, exes):
    def fn(c, rng, d):
        g = netgen.Gen(rng, large=.02, gas="maybe", power="maybe", nodes=(2, 7), pnodes=(2, 6), steps=(2, 7))
        n = rng.randint(2, 7)
        g.t0, g.dt = float(rng.choice([0, 0, 3600, -500, 86400.25])), float(rng.choice([60, 300, 450.5, 900, 142.8125]))
        g.t1 = g.t0 + g.dt * (n - 1)
        prob = clone(g.problem())
        prob["problem_data"]["simulation_settings"]["tolerance"] = 1e-8
        prob["problem_data"].pop("control_settings", None)     # its grid would be another one after a restart
        P, O, ctl, r = e2e.simulate(c, exe, d / "a", prob)
        if O is None:
            return
        T = Tool(c, exes, prob)
        dump(d / "states.json", O.raw)
        continue_run(c, rng, d, T, g, prob, O, O.raw, exe)
        controls = clone(prob.get("control"))
        for l in [l for s in controls.values() for l in s.values()] if controls else ():
            l.sort(key=lambda x: x["id"].encode())       # as in a published controls.json
        tabulate(c, rng, d, T, O.raw, controls)
        change_inputs(c, rng, d, T, prob)
        add_coupling(c, rng, d, T, prob)
        if c.i < 4:
            c.sample = {"components": len(O.comp), "steps": n}
    return fn


# ------------------------------------------------------------- many runs
def series(runs):
    """(id, type, step, quantity, index) -> (x, values over the runs)"""
    tab = {}
    for s in runs:
        for sec, t, x in meta.comps(s):
            for k, e in enumerate(x["data"]):
                for key, v in e.items():
                    if key == "time":
                        continue
                    for j, u in enumerate(v if isinstance(v, list) else [{"x": None, "value": v}]):
                        tab.setdefault((x["id"], sec, t, k, key, j), (e["time"], u["x"], []))[2].append(u["value"])
    return tab


def get(out, tab, key, suffix, T, tool):
    i, sec, t, k, q, j = key
    time, x, _ = tab[key]
    comp = [y for y in out.get(sec, {}).get(t, []) if y["id"] == i]
    try:
        assert len(comp) == 1
        e = comp[0]["data"][k]
        assert e["time"] == time
        v = e[q + suffix]
        if x is None:
            return float(v)
        assert v[j]["x"] == x
        return float(v[j]["value"])
    except (AssertionError, KeyError, IndexError, TypeError, ValueError):
        T.bad(tool, "shape", f"no value of {q}{suffix} of {i} at time {time}", **{"result.json": out})
        return None


def ensemble(exe, exes):
    def fn(c, rng, d):
        gas = rng.random() < .35
        prob, g = netgen.make(rng, gas=gas, power=True, pnodes=(2, 4), nodes=(2, 4), steps=(1, 4), stochastic=True, seeded=False)
        m = rng.choice([1, 2, 3, 4, 5, 7, 10, 11, 12, 20])
        runs = []
        T = Tool(c, exes, prob)
        for k in range(m):
            _, O, _, r = e2e.simulate(c, exe, d / "sim", prob)
            if O is None:
                return
            if any(len(a[2]) != len(b[2]) for a, b in zip(O.comp.values(), runs[0].comp.values())) if runs else False:
                return
            runs.append(O)
            shutil.rmtree(d / "sim")
        raw = [O.raw for O in runs]
        w = d / "w"
        for k, s in enumerate(raw):
            dump(w / "output" / f"{rng.choice(['output', 'outputx', 'output_'])}{k}.json", s)
        dump(w / "output" / ".hidden.json", {"nodes": 5})
        tab = series(raw)
        rep = {f"run{k}.json": s for k, s in enumerate(raw)} if m <= 5 else {"run0.json": raw[0]}
        # mean and standard deviation
        if T("get_mean_sigma", cwd=w) is not None:
            out = load(w / "mean_and_sigma.json")
            if out is None:
                T.bad("get_mean_sigma", "output", "no readable output", **rep)
            for key, (_, _, v) in tab.items() if out else ():
                mu = get(out, tab, key, "_mean", T, "get_mean_sigma")
                sg = get(out, tab, key, "_sigma", T, "get_mean_sigma")
                if mu is None or sg is None:
                    break
                scale = max(map(abs, v))
                if not abs(mu - statistics.fmean(v)) <= 1e-11 * max(1e-300, scale):
                    T.bad("get_mean_sigma", "mean", f"{key}: mean of {v} is given as {mu}", **rep)
                    break
                a, b = (statistics.stdev(v), statistics.pstdev(v)) if m > 1 else (0.0, 0.0)
                if not min(abs(sg - a), abs(sg - b) if m == 1 else math.inf) <= 1e-9 * a + 1e-7 * scale * 1e-6:
                    T.bad("get_mean_sigma", "sigma", f"{key}: the standard deviation of {v} is given as {sg}, it is {a}", **rep)
                    break
                c.count("means")
        # quantiles: nested intervals of published values around the median
        shutil.copytree(w / "output", w / "runs")
        if T("get_quantiles", "runs", "q.json", cwd=w) is not None:
            out = load(w / "q.json")
            if out is None:
                T.bad("get_quantiles", "output", "no readable output", **rep)
            for key, (_, _, v) in tab.items() if out else ():
                s = sorted(v)
                vals = [get(out, tab, key, x, T, "get_quantiles") for x in
                        ("_q_three_low", "_q_two_low", "_q_one_low", "_median", "_q_one_high", "_q_two_high", "_q_three_high")]
                if None in vals:
                    break
                if any(x not in v for x in vals):
                    T.bad("get_quantiles", "values", f"{key}: {vals} are not among the values {s}", **rep)
                    break
                if vals != sorted(vals):
                    T.bad("get_quantiles", "order", f"{key}: {vals} is not sorted", **rep)
                    break
                if len(set(v)) == m:
                    for x, f in zip(vals, (.05, .125, .25, .5, .75, .875, .95)):
                        # any customary definition of a quantile is within one place of f*m
                        if abs(s.index(x) + .5 - f * m) > 1.51:
                            T.bad("get_quantiles", "rank", f"{key}: {x} is number {s.index(x) + 1} of {m} values, wanted is the quantile {f}", **rep)
                            break
                c.count("quantiles")
        # largest difference to a reference
        ref = raw[rng.randrange(m)]
        dump(w / "ref.json", ref)
        if T("compute_reference_discrepance", "ref.json", "output", "dis.json", cwd=w) is not None:
            out = load(w / "dis.json")
            if out is None:
                T.bad("compute_reference_discrepance", "output", "no readable output", **rep)
            rt = series([ref])
            for key, (_, _, v) in tab.items() if out else ():
                x = get(out, tab, key, "", T, "compute_reference_discrepance")
                if x is None:
                    break
                want = max(abs(u - rt[key][2][0]) for u in v)
                if not close(x, want, 1e-12, scale=max(map(abs, v))):
                    T.bad("compute_reference_discrepance", "values", f"{key}: {x} instead of {want}", **rep)
                    break
                c.count("discrepances")
        # seeds
        pd = d / "seeded"
        core.write_problem(pd, prob)
        k = rng.randrange(m)
        dump(d / "one.json", raw[k])
        seeds = {x["id"]: x["seed"] for _, _, x in meta.comps(raw[k]) if "seed" in x}
        if T("include_seed_in_boundaryvalues", pd, d / "one.json", cwd=d) is not None:
            after = load(pd / "problem" / "boundary.json")
            if after is None:
                T.bad("include_seed_in_boundaryvalues", "output", "the file is unreadable afterwards")
            elif only(T, "include_seed_in_boundaryvalues", prob["boundary"], after,
                      lambda s, t, x: dict(x, seed=seeds[x["id"]]) if x["id"] in seeds else x, "seeds", prob):
                q = dict(prob, boundary=after)
                r, s = meta.run(d / "again", q, exe)
                if s is None or meta.diff(runs[k].comp, meta.table(s), tol=0.0):
                    T.bad("include_seed_in_boundaryvalues", "replay", f"the run is not reproduced: {r.text[-200:] if s is None else meta.diff(runs[k].comp, meta.table(s), tol=0.0)}", **rep)
                if T("remove_seed_from_boundaryvalues", pd, cwd=d) is not None:
                    only(T, "remove_seed_from_boundaryvalues", prob["boundary"], load(pd / "problem" / "boundary.json") or {}, lambda s, t, x: x, "seeds removed", prob)
        c.sig("ensemble", m, gas, len(seeds))
        if c.i < 1000003:
            c.sample = {"realizations": m, "components": len(runs[0].comp)}
    return fn


def check(ctx):
    exe, *rest = core.build("plain/grazer", *[f"plain/helper_{t}" for t in TOOLS])
    exes = dict(zip(TOOLS, rest))
    ctx.rule = "a case is a result file, an input file or a set of runs given to a tool (distinct: tool, mode, kind of component, number of runs)"
    ctx.assumptions = ["the tools for several runs are given the files in the layout they document themselves (one folder of files)",
                       "sigma is the standard deviation of a sample; a quantile may be any published value within one place of the wanted rank"]
    t = ctx.thorough
    e2e.run_cases(ctx, single(exe, exes), 30000 if t else 400, 300 if t else 25, max_fail=.15)
    e2e.run_cases(ctx, ensemble(exe, exes), 1010000 if t else 120, 250 if t else 20, max_fail=.15, first=1000000)
    e2e.run_cases(ctx, process(exes), 100000 if t else 300, 60 if t else 8, first=2000000)
