"""Random, well posed problems for grazer, as dicts name -> json."""
import math, random

STANDARD = {"use_simplified_newton": True, "maximal_number_of_newton_iterations": 100,
            "tolerance": 1e-8, "retries": 0}


def ident(rng, base, used, weird=True):
    """a fresh id; ids look alike on purpose (prefixes of each other, numbers
    whose lexicographic and numeric order differ, non-ascii letters)"""
    while True:
        s = base + rng.choice(["", "_", "-", " "] if weird else ["_"]) + str(rng.choice(
            [rng.randrange(12), rng.randrange(120), rng.randrange(10**6)]))
        if weird and rng.random() < 0.1:
            s += rng.choice(["ä", "Z", "a", "0", "/x", ".y", "\"q"])
        if weird and rng.random() < 0.02:
            s += "_long" * rng.choice([4, 8, 16])
        s = getattr(used, "prefix", "") + s
        if s not in used:
            used.add(s)
            return s


class Ids(set):
    """the ids in use; now and then all of them have a long beginning in common"""
    def __init__(self, rng, weird=True):
        super().__init__()
        self.prefix = ""
        if weird and rng.random() < .03:
            self.prefix = (rng.choice(["net", "Gasnetz/", "\u00fc"]) * 100)[:rng.choice([7, 12, 20, 40, 60])]


def knots(rng, t0, t1, n=None, dense=False):
    """strictly increasing times covering [t0,t1]"""
    n = rng.choice([2, 2, 3, 5] if not dense else [10, 20, 40, 100]) if n is None else n
    lo = t0 - rng.choice([0, 0, 0.3 * (t1 - t0)])
    hi = t1 + rng.choice([0, 0, 0.7 * (t1 - t0)])
    inner = sorted(rng.uniform(lo, hi) for _ in range(n - 2))
    pts = [lo] + inner + [hi]
    return [lo] + [p for i, p in enumerate(inner) if p - pts[i] > 1e-3 * (hi - lo) and hi - p > 1e-3 * (hi - lo)] + [hi]


def series(rng, ts, gens):
    return [{"time": t, "values": [g() for g in gens]} for t in ts]


def lengthunit(rng, metres):
    unit, f = rng.choice([("m", 1.0), ("km", 1e3), ("mm", 1e-3), ("cm", 1e-2), ("ft", 0.3048), ("100 m", 100.0), ("dm", 0.1), ("m", 1.0)])
    return {"value": metres / f, "unit": unit}, metres / f * f


class Gen:
    def __init__(self, rng, **o):
        self.rng = rng
        self.o = dict(gas=True, power=True, coupling=True, controls=True, stochastic=False,
                      weird=True, nodes=(2, 7), pnodes=(2, 7), steps=(3, 10), constraints=False,
                      pressure_nodes=True, t0=None, tamed=False, large=0.0)
        self.o.update(o)
        self.hub = self.dense = self.fine = False
        if rng.random() < 2 * self.o["large"]:     # now and then something of real size
            kind = rng.choice(["size", "size", "size", "long", "hub", "knots", "fine"])
            if kind == "size":
                self.o.update(nodes=(20, 80), pnodes=(20, 80), steps=(2, 4))
            elif kind == "long":
                self.o.update(nodes=(2, 3), pnodes=(2, 3), steps=rng.choice([(20, 40), (100, 130), (257, 300)]))
            elif kind == "hub":            # one node with many edges
                self.hub = True
                self.o.update(nodes=(8, 24), pnodes=(8, 24), steps=(2, 4))
            elif kind == "knots":
                self.dense = True
            else:
                self.fine = True
        self.used = Ids(rng, self.o["weird"])
        self.topo = {"nodes": {}, "connections": {}}
        self.bnd = {"nodes": {}, "connections": {}}
        self.init = {"nodes": {}, "connections": {}}
        self.ctrl = {"nodes": {}, "connections": {}}
        self.truth = {}            # our own reading of parameters with units
        t0 = self.o["t0"] if self.o["t0"] is not None else rng.choice([0, 0, 0, 3600, -500, 12345.5])
        steps = rng.randint(*self.o["steps"])
        dt = rng.choice([60.0, 300.0, 450.0, 900.0, rng.randrange(3200, 76800) / 64])
        if rng.random() < .06:
            dt = rng.choice([.5, 4.0, 3600.0])
        self.t0, self.t1 = t0, t0 + dt * steps
        self.dt = dt * rng.choice([1.0, 1.0, 1.0, 1.0309]) if steps > 1 else dt

    # ---------------------------------------------------------------- gas
    def gas(self):
        rng, o = self.rng, self.o
        n = rng.randint(*o["nodes"])
        names = [ident(rng, rng.choice(["n", "N", "node"]), self.used, o["weird"]) for _ in range(n)]
        p0 = rng.choice([rng.uniform(50, 80)] * 4 + [rng.uniform(15, 40), rng.uniform(90, 170)])
        dense = .8 * p0        # about the density
        # tree + extra pipes
        edges = [(0 if self.hub and rng.random() < .9 else rng.randrange(i), i) for i in range(1, n)]
        types = []
        short = {}
        for (a, b) in edges:
            t = rng.choice(["Pipe"] * 5 + ["Shortpipe"] + (["Compressorstation", "Controlvalve"] if o["controls"] else []))
            types.append(t)
        if "Pipe" not in types:
            types[rng.randrange(len(types))] = "Pipe"
        if o.get("need_control") and not any(t in ("Compressorstation", "Controlvalve") for t in types):
            if len(types) > 1:
                cand = [i for i, t in enumerate(types) if t != "Pipe" or types.count("Pipe") > 1]
                types[rng.choice(cand)] = rng.choice(["Compressorstation", "Controlvalve"])
        for _ in range(rng.choice([0, 0, 1, 2]) if n > 2 else rng.choice([0, 0, 1])):
            a, b = rng.sample(range(n), 2)
            edges.append((a, b))
            types.append("Pipe")
        extra_start = n - 1
        # orientation
        edges = [(a, b) if rng.random() < 0.6 else (b, a) for a, b in edges]
        # node types
        deg = [0] * n
        for a, b in edges:
            deg[a] += 1
            deg[b] += 1
        inj = [0.0] * n       # flow into the net
        kinds = []
        for i in range(n):
            k = rng.choice(["Source", "Sink", "Innode", "Innode"]) if deg[i] > 1 else rng.choice(["Source", "Sink"])
            if o["constraints"] and k == "Sink" and rng.random() < 0.6:
                k = "ConstraintSink"
            kinds.append(k)
        if o["constraints"] and "ConstraintSink" not in kinds:
            kinds[rng.randrange(n)] = "ConstraintSink"
        base = {}
        for i, k in enumerate(kinds):
            if k == "Source":
                inj[i] = rng.uniform(0, 60)
            elif k in ("Sink", "ConstraintSink"):
                inj[i] = -rng.uniform(0, 60)
        # the slack: one flow node (balance) or a pressure node
        flow = [i for i, k in enumerate(kinds) if k != "Innode"]
        slack = rng.choice(flow) if flow else 0
        usepress = o["pressure_nodes"] and rng.random() < 0.55
        if o["constraints"] and kinds[slack] == "ConstraintSink":
            others = [i for i in range(n) if kinds[i] != "ConstraintSink"]
            if others:
                slack = rng.choice(others)
            else:
                usepress = False
        if usepress:
            kinds[slack] = "Pressureboundarynode"
        elif kinds[slack] == "Innode":
            kinds[slack] = "Source"
        inj[slack] = 0.0
        inj[slack] = -sum(inj)
        # flows on the tree
        flows = [0.0] * len(edges)
        for e in range(extra_start, len(edges)):
            flows[e] = rng.uniform(-5, 5)
            inj[edges[e][0]] -= flows[e]
            inj[edges[e][1]] += flows[e]
        # undo effect on the boundary values: they keep `inj0`
        inj0 = list(inj)
        for e in range(extra_start, len(edges)):
            inj0[edges[e][0]] += flows[e]
            inj0[edges[e][1]] -= flows[e]
        need = list(inj)
        order = list(range(n))
        tree = {i: [] for i in range(n)}
        for e in range(n - 1):
            a, b = edges[e]
            tree[a].append((b, e))
            tree[b].append((a, e))
        seen, stack, post = {0}, [0], []
        par = {}
        while stack:
            u = stack.pop()
            post.append(u)
            for v, e in tree[u]:
                if v not in seen:
                    seen.add(v)
                    par[v] = (u, e)
                    stack.append(v)
        for v in reversed(post):
            if v in par:
                u, e = par[v]
                f = need[v]              # flows from v to u
                flows[e] = f if edges[e][0] == v else -f
                need[u] += f
        # dimensions of the pipes; scale the flows to a moderate pressure drop
        dims = [(rng.choice([rng.uniform(300, 3000), rng.uniform(3000, 30000)]), rng.uniform(0.4, 1.1) if rng.random() > .12 or self.coupled else rng.uniform(.08, .4)) if t == "Pipe" else None
                for t in types]
        common = rng.uniform(0.4, 1.1)      # many pipes of one diameter
        dims = [(d[0], common) if d and rng.random() < .3 else d for d in dims]
        drop = sum(0.015 * L / d * (0.785 * q / (0.785 * d * d)) ** 2 / (2 * dense) for q, dm in zip(flows, dims) if dm for L, d in [dm]) / 1e5
        factor = min(1.0, math.sqrt(.1 * p0 / drop)) if drop > 0 else 1.0
        flows = [f * factor for f in flows]
        inj0 = [f * factor for f in inj0]
        mass = sum(dense * L * 0.785 * d * d for dm in dims if dm for L, d in [dm])
        # no pressure node: unbalanced flows must not empty the pipes
        maxamp = 1e9 if usepress else 0.03 * mass / (0.785 * (self.t1 - self.t0) * n)
        self.usepress, self.maxq = usepress, min(80.0, 0.1 * mass / (0.785 * (self.t1 - self.t0)))
        # topology, boundary, initial
        press = [p0] * n
        # pressures differ only over active elements, which start with the control
        self.gasnames, self.gaskinds = names, kinds
        for i, nm in enumerate(names):
            self.topo["nodes"].setdefault(kinds[i], []).append({"id": nm})
        self.gasedges = []
        jumps = {}
        for (a, b), t, q in zip(edges, types, flows):
            jumps[(a, b)] = 0.0
        # control values: slowly varying, start around c0
        c0 = {}
        for e, t in enumerate(types):
            if t in ("Compressorstation", "Controlvalve"):
                c0[e] = rng.choice([0.0, rng.uniform(0, 8)])
        for v in post[1:]:
            u, e = par[v]
            c = c0.get(e, 0.0)
            if types[e] == "Controlvalve":
                c = -c
            # p_end - p_start = c
            press[v] = press[u] + c if edges[e][1] == v else press[u] - c
        for e, ((a, b), t, q) in enumerate(zip(edges, types, flows)):
            eid = ident(rng, rng.choice(["e", "p", "E"]), self.used, o["weird"])
            comp = {"id": eid, "from": names[a], "to": names[b]}
            tr = {"type": t, "from": names[a], "to": names[b]}
            if t == "Pipe":
                comp["length"], tr["L"] = lengthunit(rng, dims[e][0])
                comp["diameter"], tr["d"] = lengthunit(rng, dims[e][1])
                comp["roughness"], tr["r"] = lengthunit(rng, rng.choice([8e-6, 1e-5, 1e-4, 5e-4]))
                comp["desired_delta_x"] = rng.choice([tr["L"], tr["L"] / 2, tr["L"] / 3.7, max(500.0, tr["L"] / 9), tr["L"] * 3])
                if self.fine and rng.random() < .5:
                    comp["desired_delta_x"] = tr["L"] / rng.choice([64.5, 130.2, 300.1])
                tr["ddx"] = comp["desired_delta_x"]
                comp["balancelaw"] = "Isothermaleulerequation"
                comp["scheme"] = "Implicitboxscheme"
                m = rng.choice([2, 2, 3, 5])
                xs = [0.0] + sorted(rng.uniform(0.01, 0.99) * tr["L"] for _ in range(m - 2)) + [tr["L"] * (1 + 1e-9) + 1e-6]
                if rng.random() < 0.3:
                    xs[-1] *= 1.3
                data = [{"x": x, "values": [press[a] + (press[b] - press[a]) * min(1, x / tr["L"]) + rng.uniform(-.02, .02), q]} for x in xs]
            else:
                data = [{"x": 0.0, "values": [press[a], q]}, {"x": 1.0, "values": [press[b], q]}]
            self.topo["connections"].setdefault(t, []).append(comp)
            self.init["connections"].setdefault(t, []).append({"id": eid, "data": data})
            if e in c0:
                ts = knots(rng, self.t0, self.t1, dense=self.dense)
                amp = rng.choice([0.0, 1.0, 3.0])
                self.ctrl["connections"].setdefault(t, []).append(
                    {"id": eid, "data": series(rng, ts, [lambda: c0[e] + rng.uniform(-amp, amp)])})
            self.truth[eid] = tr
            self.gasedges.append((eid, t, a, b))
        for i, nm in enumerate(names):
            k = kinds[i]
            if k == "Innode":
                continue
            ts = knots(rng, self.t0, self.t1, dense=self.dense)
            if k == "Pressureboundarynode":
                v = press[i]
                amp = rng.choice([0, 0.1, 0.5])
            else:
                v = inj0[i] if k == "Source" else -inj0[i]
                amp = min(maxamp, rng.choice([0, 0, 1, 5]) * (0.2 + factor))
            self.bnd["nodes"].setdefault(k, []).append(
                {"id": nm, "data": series(rng, ts, [lambda: v + rng.uniform(-amp, amp)])})
        self.press = press

    # -------------------------------------------------------------- power
    def power(self, nplants=0):
        rng, o = self.rng, self.o
        n = max(rng.randint(*o["pnodes"]), nplants + 1)
        names = [ident(rng, rng.choice(["N", "P", "bus"]), self.used, o["weird"]) for _ in range(n)]
        edges = [(0 if self.hub and rng.random() < .9 else rng.randrange(i), i) for i in range(1, n)]
        for _ in range(rng.choice([0, 1, 2])):
            if n > 2:
                a, b = rng.sample(range(n), 2)
                if (a, b) not in edges and (b, a) not in edges:
                    edges.append((a, b))
        while rng.random() < 0.25:          # double circuits
            edges.append(rng.choice(edges))
        kinds = [rng.choice(["PVnode", "PQnode", "PQnode"] + (["StochasticPQnode"] * 3 if o["stochastic"] else []))
                 for _ in range(n)]
        slack = rng.randrange(n) if not self.hub else 0
        kinds[slack] = "Vphinode"
        plants = []
        if nplants:
            cand = [i for i in range(n) if i != slack or rng.random() < 0.3]
            rng.shuffle(cand)
            for i in cand[:nplants]:
                kinds[i] = "ExternalPowerplant"
                plants.append(names[i])
        if o["stochastic"] and "StochasticPQnode" not in kinds:
            i = rng.choice([i for i in range(n) if kinds[i] in ("PVnode", "PQnode")] or [None])
            if i is not None:
                kinds[i] = "StochasticPQnode"
        G, B = [0.0] * n, [0.0] * n
        params = {}
        for a, b in edges:
            r, x = rng.uniform(0, 0.05), rng.uniform(0.05, 0.3)
            if rng.random() < .7:              # the circuits of a double line are mostly equal
                r, x = params.setdefault((a, b), (r, x))
            if rng.random() < 0.5:
                a, b = b, a
            g, bb = r / (r * r + x * x), x / (r * r + x * x)
            G[a] += g; G[b] += g
            B[a] -= bb; B[b] -= bb
            eid = ident(rng, "TL", self.used, o["weird"])
            self.topo["connections"].setdefault("Transmissionline", []).append(
                {"id": eid, "from": names[a], "to": names[b], "G": -g, "B": bb})
        self.slackphi = rng.choice([0.0, rng.uniform(-.5, .5), rng.uniform(-9, 9)])
        for i, nm in enumerate(names):
            k = kinds[i]
            node = {"id": nm, "G": G[i] + rng.choice([0, 0, rng.uniform(0, .05)]), "B": B[i] + rng.choice([0, 0, rng.uniform(-.05, .05)])}
            ts = knots(rng, self.t0, self.t1, dense=self.dense)
            bc = {"id": nm}
            if k in ("Vphinode", "ExternalPowerplant"):
                v, ph = rng.uniform(.97, 1.05), self.slackphi
                if k == "ExternalPowerplant":
                    ph += rng.uniform(-.1, .1)
                bc["data"] = series(rng, ts, [lambda: v + rng.uniform(-.005, .005), lambda: ph + rng.uniform(-.01, .01)])
                iv = [v, ph]
            elif k == "PVnode":
                v, p = rng.uniform(.97, 1.05), rng.uniform(-.3, .4)
                bc["data"] = series(rng, ts, [lambda: p + rng.uniform(-.05, .05), lambda: v + rng.choice([0, 1]) * rng.uniform(-.005, .005)])
                iv = [v, 0.0]
            else:
                p, q = rng.uniform(-.4, .1), rng.uniform(-.15, .1)
                bc["data"] = series(rng, ts, [lambda: p + rng.uniform(-.05, .05), lambda: q + rng.uniform(-.03, .03)])
                iv = [1.0, 0.0]
            if k == "StochasticPQnode":
                node.update(stability_parameter=rng.uniform(.2, 1.5), cut_off_factor=rng.uniform(.1, .5),
                            sigma_P=rng.choice([0.0, rng.uniform(0, 2e-3)]), theta_P=rng.choice([1e-3, rng.uniform(1e-5, 5e-2)]),
                            sigma_Q=rng.choice([0.0, rng.uniform(0, 1e-3)]), theta_Q=rng.choice([1e-3, rng.uniform(1e-5, 5e-2)]),
                            number_of_stochastic_steps=rng.choice([1, 10, 100, 333]))
                if o.get("seeded", True):
                    bc["seed"] = [rng.randrange(2**32) for _ in range(8)]
            self.topo["nodes"].setdefault(k, []).append(node)
            self.bnd["nodes"].setdefault(k, []).append(bc)
            self.init["nodes"].setdefault(k, []).append({"id": nm, "data": [{"x": 0.0, "values": iv}]})
        # flat start relative to the slack angle
        sp = self.slackphi
        for k in ("PVnode", "PQnode", "StochasticPQnode"):
            for c in self.init["nodes"].get(k, []):
                c["data"][0]["values"][1] = sp + self.rng.uniform(-.02, .02)
        self.plants = plants

    # ----------------------------------------------------------- coupling
    def couple(self):
        rng = self.rng
        for nm in self.plants:
            i = rng.randrange(len(self.gasnames))
            if self.usepress and rng.random() < 0.7:     # big flows next to the pressure node
                i = self.gaskinds.index("Pressureboundarynode")
            big = self.usepress and self.gaskinds[i] == "Pressureboundarynode"
            # the plant's power is about +-1
            lo = 0.003 if big else max(0.02, 1.5 / self.maxq)
            eid = ident(rng, "g2p", self.used, self.o["weird"])
            self.topo["connections"].setdefault("Gaspowerconnection", []).append(
                {"id": eid, "from": self.gasnames[i], "to": nm,
                 "gas2power_q_coeff": rng.choice([lo, lo * rng.uniform(1, 5), 0.1256 + lo]),
                 "power2gas_q_coeff": rng.choice([lo, lo * rng.uniform(1, 5), 0.4356729 + lo])})
            self.init["connections"].setdefault("Gaspowerconnection", []).append(
                {"id": eid, "data": [{"x": 0.0, "values": [self.press[i], rng.uniform(-2, 2)]}]})

    def problem(self):
        rng, o = self.rng, self.o
        gas, power = o["gas"], o["power"]
        if gas == "maybe":
            gas = rng.random() < .7
        if power == "maybe":
            power = (not gas) or rng.random() < .5
        self.coupled = bool(gas and power and o["coupling"])
        if gas:
            self.gas()
        if power:
            self.power(rng.choice([1, 1, 2]) if gas and o["coupling"] else 0)
        if gas and power and o["coupling"]:
            self.couple()
        # shuffle everything: the order of entries must not matter
        for part in (self.topo, self.bnd, self.init, self.ctrl):
            for k in ("nodes", "connections"):
                for t in part[k]:
                    rng.shuffle(part[k][t])
        sim = dict(STANDARD)
        sim.update(start_time=self.t0, end_time=self.t1, desired_delta_t=self.dt,
                   use_simplified_newton=rng.random() < .5,
                   tolerance=rng.choice([1e-8, 1e-8, 1e-6]))
        pd = {"simulation_settings": sim,
              "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json", "defaults": {}}}
        if self.ctrl["connections"]:
            c = rng.random()
            if c < .35:
                pd["control_settings"] = {"desired_delta_t": rng.choice([self.dt, self.dt * 2.5, (self.t1 - self.t0)])}
            elif c < .6:
                pd["control_settings"] = {"number_of_steps": rng.choice([2, 3, 7])}
        prob = {"problem_data": pd, "topology": self.topo, "boundary": self.bnd, "initial": self.init}
        if self.ctrl["connections"]:
            prob["control"] = self.ctrl
        return prob


def make(rng, **o):
    g = Gen(rng, **o)
    p = g.problem()
    return p, g
