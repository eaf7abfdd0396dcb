"""Corruptions of problems that must be errors. Each function changes a problem (a dict name -> json) in place
and returns a description, or None if it does not apply. Names of the functions are the kinds."""
import copy, json

POWER = ("Vphinode", "PVnode", "PQnode", "StochasticPQnode", "ExternalPowerplant")
REQUIRED = {"Pipe": ["length", "diameter", "roughness", "desired_delta_x", "balancelaw", "scheme"], "Transmissionline": ["G", "B"],
            "Gaspowerconnection": ["gas2power_q_coeff", "power2gas_q_coeff"]}
for _t in POWER:
    REQUIRED[_t] = ["G", "B"]
REQUIRED["StochasticPQnode"] = ["G", "B", "stability_parameter", "cut_off_factor", "sigma_P", "sigma_Q", "theta_P", "theta_Q", "number_of_stochastic_steps"]
NOBOUNDARY = ("Innode",)


def comps(js, sections=("nodes", "connections")):
    return [(s, t, cs, k) for s in sections for t, cs in js.get(s, {}).items() if isinstance(cs, list) for k in range(len(cs))]


def pick(rng, js, **kw):
    """a random component: section, type, list, index"""
    c = comps(js, **kw)
    return rng.choice(c) if c else None


def wrong(rng, v):
    """a value of another type"""
    if isinstance(v, bool):
        return rng.choice(["true", 1.5, None, [], {}])
    if isinstance(v, (int, float)):
        return rng.choice([str(v), None, [v], {"value": v}, True])
    if isinstance(v, str):
        return rng.choice([5, None, [v], {"id": v}, True])
    if isinstance(v, list):
        return rng.choice([5, None, "data", True])
    return rng.choice([5, None, "data", [], True])


# ------------------------------------------------------------------ topology
def drop_required(rng, p):
    c = pick(rng, p["topology"])
    s, t, cs, k = c
    keys = ["id"] + (["from", "to"] if s == "connections" else []) + REQUIRED.get(t, [])
    key = rng.choice(keys)
    del cs[k][key]
    return f"topology: {t} without {key}"


def type_required(rng, p):
    s, t, cs, k = pick(rng, p["topology"])
    keys = ["id"] + (["from", "to"] if s == "connections" else []) + REQUIRED.get(t, [])
    key = rng.choice(keys)
    cs[k][key] = wrong(rng, cs[k][key])
    return f"topology: {t} with {key} = {cs[k][key]!r}"


def type_unit(rng, p):
    pipes = p["topology"].get("connections", {}).get("Pipe", [])
    if not pipes:
        return None
    c = rng.choice(pipes)
    key = rng.choice(["length", "diameter", "roughness"])
    c[key] = rng.choice([{"value": 1}, {"unit": "m"}, {"value": "1", "unit": "m"}, {"value": 1, "unit": 1}, {"value": 1, "unit": "kg"}, {"value": 1, "unit": ""},
                         {"value": 1, "unit": "mm", "x": 1}, {}])
    return f"topology: Pipe with {key} = {c[key]}"


def unknown_law(rng, p):
    pipes = p["topology"].get("connections", {}).get("Pipe", [])
    if not pipes:
        return None
    c = rng.choice(pipes)
    key = "scheme"
    c[key] = rng.choice(["", "x", c[key] + "2", c[key].lower(), "Implicitboxschem"])
    return f"topology: {key} {c[key]!r}"


def dangling(rng, p):
    c = pick(rng, p["topology"], sections=("connections",))
    if not c:
        return None
    s, t, cs, k = c
    key = rng.choice(["from", "to"])
    e = cs[k]
    e[key] = rng.choice([e[key] + "x", "", e["id"], e[key][:-1] + "\u00df", " " + e[key]])
    return f"topology: {t} {e['id']} with {key} = {e[key]!r}"


def self_loop(rng, p):
    c = pick(rng, p["topology"], sections=("connections",))
    if not c:
        return None
    s, t, cs, k = c
    e = cs[k]
    if rng.random() < .5:
        e["to"] = e["from"]
    else:
        e["from"] = e["to"]
    return f"topology: {t} {e['id']} from a node to itself"


def duplicate(rng, p):
    """the same id twice in the topology; boundary data stay"""
    s, t, cs, k = pick(rng, p["topology"])
    e = copy.deepcopy(cs[k])
    if rng.random() < .5:
        cs.insert(rng.randrange(len(cs) + 1), e)
        return f"topology: {e['id']} twice"
    other = pick(rng, p["topology"])
    o = other[2][other[3]]
    if o["id"] == e["id"]:
        return None
    o["id"] = e["id"]
    return f"topology: id of {e['id']} taken also by {other[1]}"


def unknown_type(rng, p):
    s, t, cs, k = pick(rng, p["topology"])
    new = rng.choice(["Foo", t.lower(), t + "s", "", "Node", "Pipe" if s == "nodes" else "Innode"])
    if new in p["topology"][s]:
        return None
    if rng.random() < .5:
        p["topology"][s][new] = p["topology"][s].pop(t)
    else:
        p["topology"][s].setdefault(new, []).append({"id": "extra"} if s == "nodes" else {"id": "extra", "from": cs[k]["from"], "to": cs[k]["to"]})
    return f"topology: type {new!r} in {s}"


def component_type(rng, p):
    """a component that is no object"""
    f = rng.choice([x for x in ("topology", "boundary", "initial", "control") if x in p])
    c = pick(rng, p[f])
    if not c:
        return None
    s, t, cs, k = c
    cs[k] = rng.choice([5, "x", None, [], True, [cs[k]]])
    return f"{f}: a {t} that is {json.dumps(cs[k])[:20]}"


# ------------------------------------------------------- files with series
def files(p):
    return [f for f in ("boundary", "initial", "control", "lower_bounds", "upper_bounds", "constraint_lower_bounds", "constraint_upper_bounds") if f in p and comps(p[f])]


def used(p, f):
    """components of file f that exist"""
    ids = {c["id"] for s, t, cs, k in comps(p["topology"]) for c in [cs[k]]}
    return [x for x in comps(p[f]) if x[2][x[3]]["id"] in ids]


def choose(rng, p):
    f = rng.choice(files(p))
    c = used(p, f)
    return (f,) + rng.choice(c) if c else None


def missing_entry(rng, p):
    c = choose(rng, p)
    if not c:
        return None
    f, s, t, cs, k = c
    how = rng.choice(["entry", "type", "section", "all", "rename"])
    i = cs[k]["id"]
    if how == "entry":
        del cs[k]
    elif how == "type":
        del p[f][s][t]
    elif how == "section":
        del p[f][s]
    elif how == "all":
        p[f] = rng.choice([{}, {"nodes": {}, "connections": {}}])
    else:
        cs[k]["id"] = i + "q"
    return f"{f}: nothing for {i} ({how})"


def duplicate_entry(rng, p):
    c = choose(rng, p)
    if not c:
        return None
    f, s, t, cs, k = c
    e = copy.deepcopy(cs[k])
    cs.insert(rng.randrange(len(cs) + 1), e)
    return f"{f}: {e['id']} twice"


def entry_keys(rng, p):
    c = choose(rng, p)
    if not c:
        return None
    f, s, t, cs, k = c
    e = cs[k]
    d = e["data"]
    pos = "x" if f == "initial" else "time"
    how = rng.choice(["id", "data", "empty", "pos", "values", "datatype", "entrytype"])
    i = e["id"]
    if how in ("id", "data"):
        del e[how]
    elif how == "empty":
        e["data"] = []
    elif how == "pos":
        del rng.choice(d)[pos]
    elif how == "values":
        del rng.choice(d)["values"]
    elif how == "datatype":
        e["data"] = rng.choice([5, None, "x", {"time": 0}, True])
    else:
        d[rng.randrange(len(d))] = rng.choice([5, None, "x", [], True])
    return f"{f}: entry of {i}, {how}"


def entry_types(rng, p):
    c = choose(rng, p)
    if not c:
        return None
    f, s, t, cs, k = c
    e = cs[k]
    pos = "x" if f == "initial" else "time"
    x = rng.choice(e["data"])
    how = rng.choice(["id", pos, "values", "value"])
    if how == "id":
        e["id"] = rng.choice([5, None, [], {}, True])
    elif how == "value":
        j = rng.randrange(len(x["values"]))
        x["values"][j] = wrong(rng, x["values"][j])
    else:
        x[how] = wrong(rng, x[how])
    return f"{f}: {e.get('id')} with another type of {how}"


def value_count(rng, p):
    c = choose(rng, p)
    if not c:
        return None
    f, s, t, cs, k = c
    d = cs[k]["data"]
    if not all(x["values"] for x in d):
        return None
    how = rng.choice(["one", "all"])
    n = rng.choice([-1, 1, 1, 3])
    for x in [rng.choice(d)] if how == "one" else d:
        if n < 0:
            x["values"].pop()
        else:
            x["values"].extend([x["values"][0]] * n)
    return f"{f}: {cs[k]['id']} with {n:+} values in {how}"


def initial_x(rng, p):
    """a component without extension has its values at other places than 0 (and 1)"""
    c = [x for x in used(p, "initial") if x[1] != "Pipe"] if "initial" in p else []
    if not c:
        return None
    s, t, cs, k = rng.choice(c)
    d = cs[k]["data"]
    j = rng.randrange(len(d))
    d[j]["x"] = rng.choice([.3, .7, 1e-3, -1.0, 2.0, .999]) if rng.random() < .7 else d[j]["x"] + rng.choice([-.5, .5])
    return f"initial: {cs[k]['id']} has its values at x = {[x['x'] for x in d]}"


def unsorted(rng, p):
    c = choose(rng, p)
    if not c:
        return None
    f, s, t, cs, k = c
    d = cs[k]["data"]
    pos = "x" if f == "initial" else "time"
    if len(d) < 2:
        return None
    i, j = rng.sample(range(len(d)), 2)
    if d[i][pos] == d[j][pos]:
        return None
    d[i], d[j] = d[j], d[i]
    return f"{f}: points of {cs[k]['id']} swapped"


def short_range(rng, p):
    c = choose(rng, p)
    if not c:
        return None
    f, s, t, cs, k = c
    d = cs[k]["data"]
    if f == "initial":
        if t != "Pipe":
            return None
        d[-1]["x"] = d[-2]["x"] + .5 * (d[-1]["x"] - d[-2]["x"])
        comp = [x for x in p["topology"]["connections"]["Pipe"] if x["id"] == cs[k]["id"]][0]
        from . import physics
        if d[-1]["x"] > .99 * physics.metres(comp["length"]):
            return None
    else:
        s = p["problem_data"]["simulation_settings"]
        t0, t1 = s["start_time"], s["end_time"]
        if rng.random() < .5:
            d[-1]["time"] = t1 - .01 * (t1 - t0)
            if len(d) > 1 and d[-2]["time"] >= d[-1]["time"]:
                return None
        else:
            # the first grid time after the start is evaluated for sure
            d[0]["time"] = t1 - .005 * (t1 - t0)
            if len(d) > 1:
                del d[1:-1]
                if d[-1]["time"] <= d[0]["time"]:
                    return None
    return f"{f}: points of {cs[k]['id']} do not cover the range"


# ------------------------------------------------------------- problem_data
SETTINGS = ["start_time", "end_time", "desired_delta_t", "tolerance", "maximal_number_of_newton_iterations", "retries", "use_simplified_newton"]


def settings(rng, p):
    pd = p["problem_data"]
    s = pd["simulation_settings"]
    how = rng.choice(["drop", "type", "end", "step", "section"])
    if how == "drop":
        k = rng.choice(SETTINGS)
        del s[k]
    elif how == "type":
        k = rng.choice(SETTINGS)
        s[k] = wrong(rng, s[k])
        k += " = " + repr(s[k])
    elif how == "end":
        k = s["end_time"] = rng.choice([s["start_time"], s["start_time"] - 1, s["start_time"] - 1e9])
    elif how == "step":
        k = s["desired_delta_t"] = rng.choice([0, -1, -1e9, 1e-300])
    else:
        k = rng.choice(["simulation_settings", "problem_data"])
        if rng.random() < .5:
            del pd[k]
        else:
            pd[k] = rng.choice([5, [], "x", None])
    return f"problem_data: {how} {k}"


def pointers(rng, p):
    pd = p["problem_data"]["problem_data"]
    k = rng.choice(["topology_json", "boundary_json"])
    if rng.random() < .4:
        del pd[k]
    else:
        pd[k] = rng.choice(["nowhere.json", "", 5, None, [], ".", "../problem", True, "topology.json\u0000" if False else "Topology.json"])
    return f"problem_data: {k} is {pd.get(k, 'missing')!r}"


def control_settings(rng, p):
    if not p.get("control") or not comps(p["control"]):
        return None
    pd = p["problem_data"]
    pd["control_settings"] = rng.choice([{"desired_delta_t": 100.0, "number_of_steps": 3}, {}, {"desired_delta_t": 0}, {"desired_delta_t": -10.0}, {"number_of_steps": 0},
                                         {"number_of_steps": 1}, {"number_of_steps": -4}, {"number_of_steps": "3"}, {"desired_delta_t": "60"}, {"desired_delta_t": None},
                                         {"number_of_steps": [3]}])
    return f"problem_data: control_settings {pd['control_settings']}"


# -------------------------------------------------------------------- files
def missing_file(rng, p):
    f = rng.choice(["problem_data", "topology", "boundary", "initial"] + [f for f in files(p) if f in ("control", "lower_bounds", "upper_bounds", "constraint_lower_bounds", "constraint_upper_bounds")])
    p[f] = None
    return f"{f}: missing file"


def broken_file(rng, p):
    f = rng.choice(["problem_data", "topology", "boundary", "initial"] + files(p))
    text = json.dumps(p[f], indent=rng.choice([None, 1]))
    how = rng.choice(["cut", "empty", "replace", "delete", "insert", "nul"])
    for _ in range(100):
        k = rng.randrange(len(text))
        if how == "cut":
            t = text[:k]
        elif how == "empty":
            t = rng.choice(["", " ", "\n"])
        elif how == "nul":
            t = text[:k] + "\0" + text[k + 1:]
        elif how == "replace":
            t = text[:k] + rng.choice("{}[],:\"x0-") + text[k + 1:]
        elif how == "delete":
            t = text[:k] + text[k + 1:]
        else:
            t = text[:k] + rng.choice("{}[],:\"x0-") + text[k:]
        try:
            json.loads(t, strict=True, parse_constant=lambda x: 1 / 0)
        except ValueError as e:
            if "Extra data" in str(e):      # a complete value followed by garbage: nothing is claimed
                continue
            p[f] = t
            return f"{f}: broken file ({how})"
        except ZeroDivisionError:
            continue
    return None


def no_object(rng, p):
    f = rng.choice(["problem_data", "topology", "initial"])
    p[f] = rng.choice([[], "[1, 2]", "5", '"x"', "null", "true", [p[f]]])
    return f"{f}: {json.dumps(p[f])[:30]} instead of an object"


STRUCTURAL = [drop_required, type_required, type_unit, unknown_law, unknown_type, component_type, entry_keys, entry_types, value_count]
ALL = STRUCTURAL + [initial_x, dangling, self_loop, duplicate, missing_entry, duplicate_entry, unsorted, short_range, settings, pointers, control_settings, missing_file, broken_file, no_object]


# ------------------------------------------- changes that may be fine as well
def scramble(rng, p, n=None):
    """random changes anywhere; returns a description"""
    said = []
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        f = rng.choice([k for k, v in p.items() if isinstance(v, (dict, list))] or [None])
        if f is None:
            break
        path, holder, key = [f], p, f
        x = p[f]
        while isinstance(x, (dict, list)) and x and rng.random() < .93:
            holder = x
            key = rng.choice(list(x)) if isinstance(x, dict) else rng.randrange(len(x))
            path.append(key)
            x = x[key]
        how = rng.choice(["delete", "value", "value", "dup", "swap", "number", "key"])
        if how == "delete" and holder is not p:
            del holder[key]
        elif how == "dup" and isinstance(holder, list):
            holder.insert(rng.randrange(len(holder) + 1), copy.deepcopy(holder[key]))
        elif how == "swap" and isinstance(holder, list) and len(holder) > 1:
            j = rng.randrange(len(holder))
            holder[key], holder[j] = holder[j], holder[key]
        elif how == "key" and isinstance(holder, dict) and holder is not p:
            holder[str(key) + rng.choice(["", "x", " "])] = holder.pop(key)
        elif how == "number" and isinstance(x, (int, float)) and not isinstance(x, bool):
            if "delta" in str(key) or "step" in str(key) or "end_time" == key or "iterations" in str(key) or "retries" in str(key):
                holder[key] = rng.choice([0, -1, -x, x * 2, x * 1e6 if "desired" in str(key) else x + 1])
            else:
                holder[key] = rng.choice([0, -x, x * 1e6, x * 1e-6, -1, 1, 1e300, -1e300, 1e-300, 2**31, 2**63, -2**31 - 1, 1.5])
        else:
            holder[key] = rng.choice([None, 0, -1, 1, "", "x", [], {}, True, False, [[]], {"id": 5}, {"id": "x"}, [{}], [0], -0.0])
        said.append("/".join(map(str, path)) + " " + how)
    return "; ".join(said)
