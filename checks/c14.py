"""Runs with default values against runs with every value written out."""
import copy, json
from lib import core, corrupt, e2e, netgen

FIXED = {"id", "from", "to"}
# parameters that may be exchanged between components without making the problem absurd
SHARE = {"Pipe": ["desired_delta_x", "balancelaw", "scheme", "roughness", "diameter"],
         "StochasticPQnode": ["stability_parameter", "cut_off_factor", "sigma_P", "theta_P", "sigma_Q", "theta_Q", "number_of_stochastic_steps"],
         "Gaspowerconnection": ["gas2power_q_coeff", "power2gas_q_coeff"]}
OTHERS = {"Pipe": {"desired_delta_x": 17.0, "length": {"value": 3.0, "unit": "km"}, "diameter": {"value": 9.0, "unit": "km"}, "roughness": {"value": 1.0, "unit": "m"}},
          "Transmissionline": {"G": 77.0, "B": -500.0}, "PQnode": {"G": 99.0, "B": 99.0}, "PVnode": {"G": -99.0, "B": 9.0}, "Vphinode": {"G": 5e3, "B": 5e3},
          "ExternalPowerplant": {"G": 99.0, "B": -1.0},
          "StochasticPQnode": {"G": 99.0, "B": 3.0, "sigma_P": 5.0, "theta_P": 7.0, "sigma_Q": 5.0, "theta_Q": 7.0, "cut_off_factor": 90.0, "stability_parameter": 1e-3,
                               "number_of_stochastic_steps": 3},
          "Gaspowerconnection": {"gas2power_q_coeff": 9.0, "power2gas_q_coeff": 8.0}}
NVALS = {"Source": 1, "Sink": 1, "Pressureboundarynode": 1, "PQnode": 2, "PVnode": 2, "Vphinode": 2, "ExternalPowerplant": 2, "StochasticPQnode": 2, "ConstraintSink": 1}


def clone(x):
    return json.loads(json.dumps(x))


def share(rng, prob):
    """let components of a type have equal values more often than by chance"""
    for sec in ("nodes", "connections"):
        for t, cs in prob["topology"][sec].items():
            for k in SHARE.get(t, []):
                if len(cs) > 1 and rng.random() < .6:
                    src = rng.choice(cs)
                    for c in cs:
                        if rng.random() < .7:
                            c[k] = clone(src[k])
        for t, cs in prob["boundary"].get(sec, {}).items():
            if len(cs) > 1 and t in ("PQnode", "StochasticPQnode", "PVnode") and rng.random() < .4:
                src = rng.choice(cs)
                for c in cs:
                    if rng.random() < .7:
                        for k in src:
                            if k != "id":
                                c[k] = clone(src[k])


def with_defaults(c, rng, prob):
    """the same problem, said with defaults"""
    q = clone(prob)
    dflt = {}
    removed = 0
    for sec in ("nodes", "connections"):
        for t, cs in q["topology"][sec].items():
            if not cs:
                continue
            keys = sorted({k for x in cs for k in x} - FIXED)
            for k in keys:
                if rng.random() < .35:
                    continue
                v = clone(rng.choice(cs)[k])
                dflt.setdefault(t, {})[k] = v
                same = [x for x in cs if x[k] == v]
                c.count("explicit_wins", len(cs) - len(same))
                if isinstance(v, dict) and "unit" in v and rng.random() < .4:
                    # part of a quantity is missing
                    part = rng.choice(["unit", "value"])
                    for x in cs:
                        if x[k].get(part) == v.get(part) and rng.random() < .8:
                            del x[k][part]
                            removed += 1
                            c.count("partial")
                    continue
                for x in same:
                    if rng.random() < .8:
                        del x[k]
                        removed += 1
        for t, bs in list(q["boundary"].get(sec, {}).items()):
            if not bs or not q["topology"][sec].get(t) or rng.random() < .4:
                continue
            b = clone(rng.choice(bs))
            if rng.random() < .7:
                del b["id"]
            dflt.setdefault(t, {})["boundary_values"] = b
            strip = lambda x: {k: v for k, v in x.items() if k != "id"}
            keep = []
            for x in bs:
                if strip(x) == strip(b) and rng.random() < .8:
                    removed += 1
                    c.count("boundary_removed")
                else:
                    if rng.random() < .5 and x.get("seed") == b.get("seed") and "seed" in x:
                        del x["seed"]
                        c.count("seed_removed")
                    elif "seed" in b and "seed" not in x:
                        pass
                    keep.append(x)
            q["boundary"][sec][t] = keep
            if not keep and rng.random() < .5:
                del q["boundary"][sec][t]
    # values of types and for types that are not affected
    present = {t for sec in ("nodes", "connections") for t, cs in prob["topology"][sec].items()}
    for t, d in OTHERS.items():
        if t not in present and rng.random() < .5:
            dflt[t] = clone(d)
            c.count("foreign")
        elif t in present and rng.random() < .5:
            # a default nobody needs
            for k, v in d.items():
                cs = [x for sec in ("nodes", "connections") for x in q["topology"][sec].get(t, [])]
                if k not in dflt.get(t, {}) and all(k in x for x in cs) and rng.random() < .7:
                    if isinstance(v, dict) and any(set(v) - set(x[k]) for x in cs):
                        continue
                    dflt.setdefault(t, {})[k] = clone(v)
                    c.count("unneeded", len(cs))
    pd = q["problem_data"]["problem_data"]
    pd["defaults"] = dflt
    return q, removed


def equal(a, b, path=""):
    """first difference of two results or None"""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: {str(a)[:80]} and {str(b)[:80]}"
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"{path}: keys {sorted(a)} and {sorted(b)}"
        for k in a:
            d = equal(a[k], b[k], f"{path}/{k}")
            if d:
                return d
    elif isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} and {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            d = equal(x, y, f"{path}/{x['id'] if isinstance(x, dict) and 'id' in x else i}")
            if d:
                return d
    elif a != b:
        return f"{path}: {a!r} and {b!r}"
    return None


def equivalent(exe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, large=0.04, gas="maybe", power="maybe", nodes=(2, 6), pnodes=(2, 7), steps=(2, 4), stochastic=rng.random() < .4)
        prob = clone(prob)
        share(rng, prob)
        prob["problem_data"]["problem_data"]["defaults"] = {}
        if rng.random() < .3:
            del prob["problem_data"]["problem_data"]["defaults"]
        P, O, ctl, r = e2e.simulate(c, exe, d / "a", prob)
        q, removed = with_defaults(c, rng, prob)
        core.write_problem(d / "b", q)
        s = core.grazer_run(exe, d / "b")
        rep = e2e.replay(q, s)
        rep.update({f"explicit_{k}.json": v for k, v in prob.items() if v is not None})
        if s.crash() or s.timed_out:
            c.violation("crash", s.crash() or "hangs", rep)
            return
        if (s.rc == 0) != (r.rc == 0):
            c.violation("accepted", f"with defaults the run {'succeeds' if s.rc == 0 else 'fails'}, without it does not: {(s if s.rc else r).text[-300:]}", rep)
            return
        if r.rc:
            return
        c.count("pairs")
        c.count("values_from_defaults", removed)
        c.sig(*e2e.typesig(P), tuple(sorted((t, tuple(sorted(v))) for t, v in q["problem_data"]["problem_data"]["defaults"].items())))
        diff = equal(core.read_output(d / "a")[0], core.read_output(d / "b")[0])
        if diff:
            c.violation("differs", f"results with defaults differ: {diff}", rep)
        if c.i < 3:
            c.sample = {"defaults": q["problem_data"]["problem_data"]["defaults"], "values taken from them": removed}
    return fn


def wrong(exe):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, gas="maybe", power="maybe", nodes=(2, 4), pnodes=(2, 4), steps=(2, 3), stochastic=rng.random() < .3)
        prob = clone(prob)
        comps = corrupt.comps(prob["topology"])
        sec, t, cs, k = rng.choice(comps)
        keys = sorted(set(cs[k]) - FIXED)
        how = rng.choice(["unknown", "type", "used type", "gap"] if keys else ["unknown", "type"])
        dflt = {}
        if how == "unknown":
            name = rng.choice(["x", "Id", "", "colour", "boundary", "boundary_value", "G" if sec == "connections" and t != "Transmissionline" else "length",
                               rng.choice(keys) + " " if keys else "q", "sigma_p", "desired_delta_t"])
            dflt = {t: {name: rng.choice([1.0, "m", {"value": 1.0, "unit": "m"}, {}, None])}}
            if t == "Pipe" and name == "length":
                return
        elif how == "type":
            dflt = {t: rng.choice([[], 5, "x", [{"G": 1.0}], True])}
        elif how == "used type":
            key = rng.choice(keys)
            dflt = {t: {key: corrupt.wrong(rng, cs[k][key])}}
            del cs[k][key]
        else:
            # the default is filed under another type
            key = rng.choice(keys)
            others = [u for u in OTHERS if u != t and key in OTHERS[u]]
            other = rng.choice(others or ["Pipe"])
            dflt = {other: {key: clone(cs[k][key])}} if others else {}
            del cs[k][key]
        prob["problem_data"]["problem_data"]["defaults"] = dflt
        core.write_problem(d, prob)
        r = core.grazer_run(exe, d)
        rep = e2e.replay(prob, r)
        c.count("wrong_" + how.replace(" ", "_"))
        c.sig(how, t, json.dumps(dflt)[:40])
        if r.crash() or r.timed_out:
            c.violation("crash", f"defaults {dflt}: {r.crash() or 'hangs'}", rep)
        elif r.rc == 0:
            c.violation("wrong/" + how, f"{how}: defaults {dflt} are accepted", rep)
        elif core.read_output(d)[0] is not None:
            c.violation("results", "the run fails and leaves results", rep)
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = "a case is a problem said with and without defaults (distinct: component mix and the defaulted parameters), or a problem with wrong defaults"
    ctx.assumptions = ["defaults of a type without components are not looked at", "the same binary runs both problems, their results must be equal bit by bit"]
    t = ctx.thorough
    e2e.run_cases(ctx, equivalent(exe), 40000 if t else 700, 400 if t else 20, max_fail=.2)
    e2e.run_cases(ctx, wrong(exe), 20000 if t else 500, 150 if t else 6, first=10**6)
