"""Generated schemas, applied by an independent validator to problems that a run accepts or rejects."""
import copy, json, re
import jsonschema
from lib import core, corrupt, e2e, netgen
from checks import c14

FILES = ("problem_data", "topology", "initial", "boundary", "control")
LENGTH = ["m", "ft", "in", "mi", "yd"]
PREFIXES = ["", "Y", "Z", "E", "P", "T", "G", "M", "k", "h", "da", "d", "c", "m", "mu", "n", "p", "f", "a", "z", "y"]


def unit(rng):
    """a unit of length, mostly one that exists"""
    u = rng.choice(PREFIXES) + rng.choice(LENGTH)
    k = rng.random()
    if k < .5:
        n = rng.choice(["2", "100", "0.5", ".25", "1e3", "2.5e-2", "7e0", "1.0", "12"])
        u = n + " " + u
    if k > .9:
        u = rng.choice([u + " ", " " + u, u.upper(), "1E3 m", "+1 m", "-1 m", "1e+3 m", "m2", "Pa", u + "m", "1. m", "1  m", "e3 m"])
    return u


def schemas(exe, d):
    """(schemas, Result) generated for the problem in d"""
    r = core.run([exe, "schema", "make-full-factory", d], timeout=60)
    out = {}
    for f in FILES:
        p = d / "schemas" / f"{f}_schema.json"
        if p.is_file():
            try:
                out[f] = json.loads(p.read_text())
            except ValueError:
                pass
    return out, r


def rejected(sch, prob):
    """file -> first error for the files the schemas reject"""
    out = {}
    for f in FILES:
        if f in prob and f in sch and prob[f] is not None:
            e = next(jsonschema.Draft7Validator(sch[f]).iter_errors(prob[f]), None)
            if e is not None:
                out[f] = f"{e.message[:200]} at {'/'.join(map(str, e.absolute_path))}"
    return out


def problem(c, rng, **kw):
    o = dict(gas="maybe", power="maybe", nodes=(2, 5), pnodes=(2, 5), steps=(1, 2), stochastic=rng.random() < .3)
    if rng.random() < .2:
        o.update(gas=True, power=False, constraints=True)
    o.update(kw)
    prob, _ = netgen.make(rng, **o)
    prob = c14.clone(prob)
    if rng.random() < .6:
        for p in prob["topology"]["connections"].get("Pipe", []):
            for k in ("length", "diameter", "roughness"):
                if rng.random() < .15:
                    p[k]["unit"] = unit(rng)
    if rng.random() < .6:
        c14.share(rng, prob)
        prob, n = c14.with_defaults(c, rng, prob)
        for v in prob["problem_data"]["problem_data"]["defaults"].values():
            v.get("boundary_values", {}).pop("id", None)     # nobody gives all components one id
        c.count("values_from_defaults", n)
    elif rng.random() < .5:
        prob["problem_data"]["problem_data"].pop("defaults")
    return prob


def accepts(exe, d, prob):
    core.write_problem(d, prob)
    r = core.grazer_run(exe, d, timeout=60)
    return (r.rc == 0, r)


def refuses_input(r):
    """a run that stopped before it began to simulate"""
    return r.rc not in (0, None) and "data read" not in r.out


def valid(exe):
    def fn(c, rng, d):
        prob = problem(c, rng)
        ok, r = accepts(exe, d, prob)
        rep = e2e.replay(prob, r)
        if not ok:
            c.count("run_refused")
        sch, s = schemas(exe, d)
        if not ok:
            return
        c.count("accepted_problems")
        if s.rc != 0 or len(sch) != len(FILES):
            c.violation("generation", f"a run accepts the problem, but its schemas are not generated: rc {s.rc}, {sorted(sch)}: {s.text[-300:]}", rep)
            return
        rep.update({f"{k}_schema.json": v for k, v in sch.items()})
        for f, x in sch.items():
            try:
                jsonschema.Draft7Validator.check_schema(x)
            except jsonschema.SchemaError as e:
                c.violation("invalid schema/" + f, f"the schema of {f} is no draft 7 schema: {e.message[:300]}", rep)
        for f, m in rejected(sch, prob).items():
            c.violation("rejects/" + f, f"a run accepts this problem, the schema of {f} does not: {m}", rep)
        # a property with a default is not required: leave more of them out
        dflt = prob["problem_data"]["problem_data"].get("defaults", {})
        q = copy.deepcopy(prob)
        gone = 0
        for sec, t, cs, k in corrupt.comps(q["topology"]):
            for key in dflt.get(t, {}):
                if key in cs[k] and rng.random() < .5:
                    del cs[k][key]
                    gone += 1
        for f, m in rejected(sch, q).items():
            c.violation("default required/" + f, f"properties with defaults are left out, and the schema of {f} says {m}", dict(rep, **{"topology.json": q["topology"]}))
        c.count("left_out", gone)
        c.sig(sorted(t for s in q["topology"].values() for t in s), sorted((t, tuple(sorted(v))) for t, v in dflt.items()))
        if c.i < 2:
            c.sample = {"types": sorted(t for s in q["topology"].values() for t in s), "defaults": dflt}
    return fn


def sections(rng, p):
    f = rng.choice([f for f in FILES[1:] if f in p])
    k = rng.random()
    if k < .4:
        s = rng.choice(["nodes", "connections"])
        p[f][s] = rng.choice([5, "x", None, [], True, [p[f].get(s)]])
        return f"{f}: {s} is a {type(p[f][s]).__name__}"
    c = corrupt.pick(rng, p[f])
    if not c:
        return None
    s, t, cs, _ = c
    if k < .7:
        p[f][s][t] = rng.choice([5, "x", None, True, {"id": "x"}, {c["id"]: c for c in cs}])
        return f"{f}: the list of {t} is a {type(p[f][s][t]).__name__}"
    new = rng.choice(["Foo", t.lower(), t + "s", "", t + " "])
    p[f][s][new] = p[f][s].pop(t)
    return f"{f}: type {new!r} in {s}"


def whole(rng, p):
    f = rng.choice([f for f in FILES if f in p])
    p[f] = rng.choice([[], [1], 5, "x", None, True, [p[f]]])
    return f"{f} is {str(p[f])[:20]}"


def settings(rng, p):
    pd = p["problem_data"]
    s = pd["simulation_settings"]
    how = rng.choice(["drop", "type", "section", "pointer"])
    if how == "drop":
        k = rng.choice(corrupt.SETTINGS)
        del s[k]
    elif how == "type":
        k = rng.choice(corrupt.SETTINGS)
        s[k] = corrupt.wrong(rng, s[k])
    elif how == "section":
        k = rng.choice(["simulation_settings", "problem_data"])
        if rng.random() < .5:
            del pd[k]
        else:
            pd[k] = rng.choice([5, [], "x", None])
    else:
        k = rng.choice(["topology_json", "boundary_json"])
        if rng.random() < .5:
            del pd["problem_data"][k]
        else:
            pd["problem_data"][k] = rng.choice([5, None, [], True])
    return f"problem_data: {how} {k}"


FAULTS = [corrupt.drop_required, corrupt.drop_required, corrupt.type_required, corrupt.type_required, corrupt.type_unit, corrupt.unknown_type, corrupt.component_type,
          corrupt.entry_keys, corrupt.entry_keys, corrupt.entry_types, corrupt.entry_types, corrupt.value_count, corrupt.value_count, corrupt.initial_x, corrupt.initial_x, sections, whole, settings]


def invalid(exe):
    def fn(c, rng, d):
        prob = problem(c, rng)
        ok, r = accepts(exe, d / "ok", prob)
        if not ok:
            return
        sch, s = schemas(exe, d / "ok")
        if len(sch) != len(FILES) or rejected(sch, prob):
            c.count("base_rejected")
            return
        for k in range(12):
            q = c14.clone(prob)
            what = None
            while not what:
                fault = rng.choice(FAULTS)
                try:
                    what = fault(rng, q)
                except (KeyError, IndexError, TypeError):
                    q, what = c14.clone(prob), None
            if "empty" in what and fault is corrupt.entry_keys:
                continue
            if fault is corrupt.type_unit and any(isinstance(v, dict) for v in prob["problem_data"]["problem_data"].get("defaults", {}).get("Pipe", {}).values()):
                continue        # the default may complete it
            if fault is corrupt.drop_required and any(what.endswith(" without " + k) for v in prob["problem_data"]["problem_data"].get("defaults", {}).values() for k in v):
                continue        # the default may replace it
            r = None
            bad = rejected(sch, {k: v for k, v in q.items() if v is not None})
            if q.get(what.split(":")[0].split()[0], 0) is None:
                bad[what] = "null"
            c.count("faults_" + fault.__name__)
            if bad:
                c.count("rejected_by_schema")
                continue
            ran, r = accepts(exe, d / f"m{k}", q)
            if refuses_input(r):
                c.violation("accepts/" + fault.__name__ + "/" + what.split(":")[0], f"{what}: the run refuses it, the schemas accept it: {r.text[-300:]}", dict(e2e.replay(q, r), **{f"{a}_schema.json": b for a, b in sch.items()}))
            else:
                c.count("accepted_by_both" if ran else "no_input_error")
            c.sig(fault.__name__, what[:30], ran)
    return fn


def foreign(exe):
    """schemas are never written over other files"""
    def fn(c, rng, d):
        prob = problem(c, rng)
        core.write_problem(d, prob)
        s = d / "schemas"
        s.mkdir()
        kind = rng.choice(["file", "dir", "old"])
        if kind == "file":
            (s / rng.choice(["notes.txt", "data.json", "my_topology.json", ".x"])).write_text("precious")
        elif kind == "dir":
            (s / "topology_schema.json").mkdir()
        else:
            for f in FILES:
                (s / f"{f}_schema.json").write_text("outdated")
        before = {p.name: p.read_bytes() for p in s.iterdir() if p.is_file()}
        sch, r = schemas(exe, d)
        after = {p.name: p.read_bytes() for p in s.iterdir() if p.is_file()}
        c.count("schemas_" + kind)
        rep = e2e.replay(prob, r)
        if r.crash() or r.timed_out:
            c.violation("crash", str(r.crash() or "hang"), rep)
        if kind == "old":
            if r.rc == 0 and len(sch) != len(FILES):
                c.violation("outdated", "outdated schemas are not replaced", rep)
        elif r.rc == 0:
            c.violation("foreign accepted", f"schemas are generated into a directory with other content: {sorted(after)}", rep)
        elif any(after.get(k) != v for k, v in before.items()):
            c.violation("foreign damaged", "a foreign file in the directory of schemas was changed", rep)
        c.sig(kind, r.rc)
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = "a case is a problem and its schemas, applied to its five files by python's jsonschema, or one such problem with up to 12 single faults; distinct: types, defaults, faults"
    ctx.assumptions = ["the validator used is python's jsonschema (draft 7); grazer brings no own one to this sandbox",
                       "a file is complete if it has both nodes and connections"]
    t = ctx.thorough
    e2e.run_cases(ctx, valid(exe), 30000 if t else 800, 250 if t else 15)
    e2e.run_cases(ctx, invalid(exe), 30000 if t else 700, 400 if t else 18, first=10**6)
    e2e.run_cases(ctx, foreign(exe), 500 if t else 60, 60 if t else 5, first=2 * 10**6)
