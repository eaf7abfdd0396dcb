"""Drawings of networks, and heat maps of results, read back from the TeX files."""
import json, math, re
from lib import core, e2e, meta, netgen
from checks.c14 import clone

TOOLS = ["draw_gaslib_graph", "draw_power_graph", "draw_heatmap_gaslib", "draw_heatmap_power"]
GAS_NODES = {"Source": "green", "Sink": "red", "Innode": "black"}
GAS_EDGES = ("Pipe", "Controlvalve", "Compressorstation", "Shortpipe")
HEAT_EDGES = ("Pipe", "Controlvalve", "Compressorstation")
POWER_NODES = {"Vphinode": "green", "PQnode": "red", "PVnode": "blue", "StochasticPQnode": "red", "ExternalPowerplant": "green"}
NUM = r"\s*([-+0-9.einfa]+)\s*"
RGB = re.compile(r"\{\s*rgb:\s*red,\s*(-?\d+);\s*green,\s*(-?\d+);\s*blue,\s*(-?\d+)\s*\}")


class Picture:
    """what a TeX file shows: nodes {id: (options, x, y)}, edges [(options, from, to)]; own: the nodes of the network"""
    def __init__(self, text, ids):
        self.whole = "\\begin{document}" in text and text.rstrip().endswith("\\end{document}") and "\\end{tikzpicture}" in text
        self.nodes, self.edges, self.label, self.twice = {}, [], {}, []
        for m in re.finditer(r"\\node(.*?)\(([^()]*)\)\s*at\s*\(" + NUM + "," + NUM + r"\)\s*\{(.*?)\};", text):
            if m[2] in self.nodes:
                self.twice.append(m[2])
            self.nodes[m[2]] = (m[1], float(m[3]), float(m[4]))
            self.label[m[2]] = m[5]
        for m in re.finditer(r"\\draw(.*?)\(([^()]*)\)\s*--\s*\(([^()]*)\)\s*;", text):
            self.edges.append((m[1], m[2], m[3]))
        self.legend = {}
        for i, (o, x, y) in self.nodes.items():
            if i not in ids:
                v = re.search(r"\\selectfont\s*" + NUM + r"\}", o)
                self.legend[i] = (float(v[1]) if v else None, x, y)


def color(opts):
    m = RGB.search(opts)
    return tuple(int(x) for x in m.groups()) if m else None


def fn(exe, exes):
    def one(c, rng, d):
        part = rng.choice(["gas", "power", "power", "both"])
        weird = rng.random() < .3
        sto = part == "power" and rng.random() < .4
        g = netgen.Gen(rng, large=.03, gas=part != "power", power=part != "gas", nodes=(2, 8), pnodes=(2, 8), steps=(2, 6), weird=weird, stochastic=sto)
        prob = clone(g.problem())
        topo = prob["topology"]
        if any(re.search(r"[()\[\]{};,\\]", x["id"]) for _, _, x in meta.comps(topo)):
            return
        spread = 10 ** rng.uniform(-1, 4)
        cx, cy = rng.choice([0.0, rng.uniform(-1, 1) * spread * 3]), rng.choice([0.0, rng.uniform(-1, 1) * spread * 3])
        for t in topo["nodes"]:
            for x in topo["nodes"][t]:
                x["x"], x["y"] = cx + rng.uniform(-1, 1) * spread, cy + rng.uniform(-1, 1) * spread
        heat = rng.random() < .75
        states = None
        if heat:
            # the tools ask for pressure or power only; what else is in the result doesn't matter
            if part == "gas" and rng.random() < .5 or part == "power" and rng.random() < .5:
                states = invented(rng, topo)
            else:
                _, O, _, r = e2e.simulate(c, exe, d / "a", clone(prob))
                if O is None:
                    return
                states = O.raw
        core.write_problem(d, {k: v for k, v in prob.items()})
        (d / "topology.json").write_text(json.dumps(topo))
        if states:
            (d / "states.json").write_text(json.dumps(states))
        where = {x["id"]: (t, x["x"], x["y"]) for t in topo["nodes"] for x in topo["nodes"][t]}
        for tool in TOOLS:
            gas, hot = "gaslib" in tool, "heatmap" in tool
            if hot and not heat or part == ("power" if gas else "gas"):
                continue
            kinds = GAS_NODES if gas else POWER_NODES
            shown = {i: w for i, w in where.items() if w[0] in kinds and not (gas and hot and w[0] == "Sink")}
            if not shown or hot and gas and not any(topo["connections"].get(t) for t in HEAT_EDGES):
                continue
            scale = rng.choice([1.0, 10.0, 100.0, .5, .1, rng.uniform(.01, 50)])
            args = ["topology.json"] + (["states.json"] if hot else []) + ["out.tex"] + ([repr(scale)] if rng.random() < .8 else [])
            given = args[-1] != "out.tex"
            if (d / "out.tex").exists():
                (d / "out.tex").unlink()
            r = core.run([str(exes[tool]), *args], cwd=d, timeout=60)
            rep = {"topology.json": topo, "states.json": states, "arguments": args}

            def bad(key, msg):
                c.violation(f"{tool}/{key}", f"{tool}: {msg}", rep)
            if r.timed_out or r.crash():
                bad("crash", r.crash() or "hangs")
                continue
            if r.rc != 0:
                bad("refused", r.text[-300:])
                continue
            try:
                text = (d / "out.tex").read_bytes().decode(errors="replace")     # labels may be cut within a character
            except OSError as e:
                bad("output", f"no picture: {e}")
                continue
            rep["out.tex"] = text
            P = Picture(text, shown)
            c.count(tool)
            if not P.whole:
                bad("incomplete", "the document is not complete")
                continue
            if P.twice:
                bad("twice", f"{P.twice[:3]} drawn more than once")
                continue
            rest = set(P.nodes) - set(shown)
            if set(shown) - set(P.nodes) or (rest and not hot) or rest & set(where):
                bad("nodes", f"missing nodes {sorted(set(shown) - set(P.nodes))[:5]}, surplus {sorted(rest)[:5]}")
                continue
            # places: the coordinates up to a shift, divided by the factor
            ids = sorted(shown)
            extent = max(max(abs(shown[i][k] - shown[ids[0]][k]) for i in ids) for k in (1, 2))
            big = max(max(abs(v) for v in P.nodes[i][1:]) for i in ids)
            a = ids[0]
            if not given and len(ids) > 1 and extent > 0:
                # the default isn't judged, only that it is one factor
                i = max(ids, key=lambda i: abs(shown[i][1] - shown[a][1]))
                dx = P.nodes[i][1] - P.nodes[a][1]
                scale = (shown[i][1] - shown[a][1]) / dx if dx else math.inf
            fail = False
            for i in ids:
                for k in (1, 2):
                    want, have = (shown[i][k] - shown[a][k]) / scale, P.nodes[i][k] - P.nodes[a][k]
                    if not abs(want - have) <= 4e-5 * max(big, extent / abs(scale)):
                        bad("place", f"{i} lies {shown[i][k] - shown[a][k]} from {a}, with factor {scale} that is {want}, drawn at distance {have}")
                        fail = True
                        break
                if fail:
                    break
            if fail:
                continue
            # edges
            types = (HEAT_EDGES if hot else GAS_EDGES) if gas else ("Transmissionline",)
            want = sorted(tuple(sorted((x["from"], x["to"]))) for t in types for x in topo["connections"].get(t, []))
            own = [e for e in P.edges if e[1] in where]
            have = sorted(tuple(sorted(x[1:])) for x in own)
            if have != want:
                w, h = set(want), set(have)
                bad("edges", f"edges {sorted(w - h)[:3]} missing, {sorted(h - w)[:3]} surplus, {len(own)} drawn of {len(want)}")
                continue
            # colours by type
            if not (hot and not gas):
                for i in ids:
                    m = re.search(r"draw=\s*(\w+)", P.nodes[i][0])
                    if not m or m[1] != kinds[shown[i][0]]:
                        bad("color", f"{i} is a {shown[i][0]} and drawn in {m and m[1]} instead of {kinds[shown[i][0]]}")
                        break
            c.sig(tool, len(ids) if len(ids) < 10 else len(ids) // 10 * 10, given, tuple(sorted({w[0] for w in shown.values()})), len(own))
            if hot:
                heatmap(c, tool, gas, P, topo, states, ids, own, shown, bad)
        if c.i < 3:
            c.sample = {"part": part, "nodes": len(where), "heat": heat}
    return one


def invented(rng, topo):
    """results in the published layout with values a simulation would hardly show"""
    res = {"nodes": {}, "connections": {}}
    n = rng.randint(1, 6)
    mode = rng.choice(["usual", "negative", "equal", "wide", "one"])
    lo, hi = {"usual": (30, 80), "negative": (-200, -3), "equal": (7, 7), "wide": (-1e4, 1e4), "one": (1, 2)}[mode]

    def val():
        return rng.uniform(lo, hi) if mode != "one" or rng.random() < .9 else 100.0
    for t, l in topo["nodes"].items():
        if t in POWER_NODES:
            res["nodes"][t] = [{"id": x["id"], "data": [{"time": float(k), "P": val(), "Q": rng.uniform(-1e5, 1e5), "V": 1.0, "phi": 0.0} for k in range(n)]} for x in l]
    for t, l in topo["connections"].items():
        if t in GAS_EDGES:
            res["connections"][t] = []
            for x in l:
                m = rng.randint(2, 5) if t == "Pipe" else 2
                res["connections"][t].append({"id": x["id"], "data": [
                    {"time": float(k), "pressure": [{"x": float(j), "value": val()} for j in range(m)],
                     "flow": [{"x": float(j), "value": rng.uniform(-1e5, 1e5)} for j in range(m)]} for k in range(n)]})
    for s in res.values():
        for l in s.values():
            rng.shuffle(l)
    return res


def heatmap(c, tool, gas, P, topo, states, ids, own, shown, bad):
    sec = "connections" if gas else "nodes"
    types = HEAT_EDGES if gas else tuple(POWER_NODES)
    best, every = {}, []
    for t in types:
        for x in states[sec].get(t, []):
            v = [max(u["value"] for u in e["pressure"]) if gas else e["P"] for e in x["data"]]
            every += v
            best[x["id"]] = max(v)
    if not best:
        return
    top = max(best.values())
    # the scale: labels of the legend, from its lower to its upper end
    scale = sorted((y, v) for v, x, y in P.legend.values() if v is not None)
    right = max(P.nodes[i][1] for i in ids)
    if len(scale) < 2:
        bad("legend", "there is no scale with values")
        return
    if any(x < right - 1e-4 * max(1, abs(right)) for _, x, _ in P.legend.values()):
        bad("legend-place", "the scale does not lie right of the network")
        return
    low, high = scale[0][1], scale[-1][1]
    same = max(y for y, _ in scale) - min(y for y, _ in scale) <= 1e-9
    tol = 6e-4 + 1e-5 * max(abs(low), abs(high))
    if same:           # all nodes at one height
        low, high = min(v for _, v in scale), max(v for _, v in scale)
    if abs(high - top) > tol:
        bad("legend-top", f"the scale ends at {high}, the largest value is {top}")
        return
    if not min(every) - tol <= low <= min(best.values()) + tol:
        bad("legend-bottom", f"the scale starts at {low}, the values start at {min(every)}, the smallest to be shown is {min(best.values())}")
        return
    if any(b[1] < a[1] - tol for a, b in zip(scale, scale[1:])) and not same:
        bad("legend-order", f"values {[v for _, v in scale]}")
        return
    c.count("scales")
    # its colours
    at = {i: y for i, (v, x, y) in P.legend.items()}
    bars = sorted((at[a], color(o)) for o, a, b in P.edges if a in at and b in at)
    if len(bars) < 10 or any(b[1] is None for b in bars):
        bad("legend-bars", f"{len(bars)} coloured parts")
        return
    if high - low <= 4 * tol or same:
        return
    cols = [b[1] for b in bars]
    if not (cols[0][2] > 200 > cols[0][0] and cols[-1][0] > 200 > cols[-1][2]):
        bad("legend-ends", f"the scale goes from {cols[0]} to {cols[-1]} (red, green, blue), not from blue to red")
        return
    n = len(cols)

    def expected(v):
        """colours of the scale around the value"""
        f = (v - low) / (high - low)
        w = 1.5 / n + tol / (high - low)
        return [cols[min(n - 1, max(0, k))] for k in range(math.floor((f - w) * n), math.ceil((f + w) * n) + 1)]

    if gas:
        by = {}
        for t in HEAT_EDGES:
            for x in topo["connections"].get(t, []):
                by.setdefault(tuple(sorted((x["from"], x["to"]))), []).append(x["id"])
        for (a, b), l in by.items():
            have = sorted(color(o) or (-1, -1, -1) for o, u, v in own if sorted((u, v)) == [a, b])
            if len(l) == 1:
                if not inside(have[0], expected(best[l[0]])):
                    bad("heat", f"{l[0]} reaches {best[l[0]]} on a scale from {low} to {high}, its colour is {have[0]}, there the scale has {expected(best[l[0]])[1]}")
                    return
            else:      # some assignment of the colours to the parallel edges
                if sum(any(inside(h, expected(best[i])) for h in have) for i in l) < len(l):
                    bad("heat", f"parallel edges {l} have colours {have}")
                    return
            c.count("coloured")
    else:
        for i in ids:
            h = color(P.nodes[i][0])
            if h is None or not inside(h, expected(best[i])):
                bad("heat", f"{i} ({shown[i][0]}) reaches {best[i]} on a scale from {low} to {high}, its colour is {h}, there the scale has {expected(best[i])[1]}")
                return
            c.count("coloured")


def inside(h, cols):
    return all(min(x[k] for x in cols) - 9 <= h[k] <= max(x[k] for x in cols) + 9 for k in range(3))


def check(ctx):
    exe, *rest = core.build("plain/grazer", *[f"plain/helper_{t}" for t in TOOLS])
    exes = dict(zip(TOOLS, rest))
    ctx.rule = "a case is a network drawn by all tools that apply to it (distinct: tool, number of nodes and edges, kinds of nodes, given or default factor)"
    ctx.assumptions = ["numbers in drawings have six digits, numbers of the scale are rounded to 3 decimals", "TeX itself is not run; labels and line widths are not judged"]
    t = ctx.thorough
    e2e.run_cases(ctx, fn(exe, exes), 200000 if t else 700, 400 if t else 25, max_fail=.15)
