"""Stochastic loads: the process, its random numbers, and whole runs replayed from their published seeds."""
import copy, json, math, random
from lib import core, e2e, netgen, physics as ph
from lib.unit import Unit, Died, is_error


def em(last, theta, mu, dt, sigma, cut, zs):
    """the Euler-Maruyama scheme with len(zs) substeps; None for the zero mean (no cut-off)"""
    h = dt / len(zs)
    x, big = last, abs(last) + abs(mu)
    lo, hi = sorted(((1 - cut) * mu, (1 + cut) * mu))
    for z in zs:
        x = x + theta * (mu - x) * h + sigma * z * math.sqrt(h)
        if mu != 0:
            x = min(max(x, lo), hi)
        big = max(big, abs(x))
    return x, big


def substeps(N, theta, dt, stab):
    """admissible numbers of substeps"""
    if theta * dt / N < stab * (1 - 1e-12):
        return [N]
    n = math.ceil(theta * dt / stab)
    opts = [n + 1, n, n + 2]
    if theta * dt / N <= stab * (1 + 1e-12):
        opts.append(N)
    return opts


def process(exe):
    def fn(c, rng, d):
        with Unit(exe) as U:
            for _ in range(120):
                mu = rng.choice([rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-1e3, 1e3), 1e-6, 0.0])
                q = dict(stability=rng.uniform(.05, 1.95), cut=rng.choice([0.0, .1, .5, 1.0, 3.0, rng.uniform(0, 2)]), mu=mu,
                         last=rng.choice([mu, mu * rng.uniform(-3, 3), rng.uniform(-3, 3)]), theta=rng.choice([0.0, 10 ** rng.uniform(-6, 0)]),
                         dt=rng.choice([1.0, 60.0, 900.0, rng.uniform(.1, 5000)]), sigma=rng.choice([0.0, 10 ** rng.uniform(-4, 0)]), steps=rng.choice([1, 2, 10, 100, 1000]))
                zs = [rng.gauss(0, 1) for _ in range(rng.choice([1, 7, 500]))]
                try:
                    r = U("oup", samples=zs, **q)
                except Died as e:
                    c.violation("oup/abort", f"{q}: {e}", {"request.json": q})
                    continue
                if is_error(r):
                    c.violation("oup/refused", f"{q}: {r}", {"request.json": q})
                    continue
                n = r["asked"]
                rep = {"request.json": dict(q, samples=zs)}
                c.count("processes")
                if n not in substeps(q["steps"], q["theta"], q["dt"], q["stability"]):
                    c.violation("oup/substeps", f"{n} substeps, expected {substeps(q['steps'], q['theta'], q['dt'], q['stability'])[:1]}: {q}", rep)
                    continue
                if abs(r["sd"] - math.sqrt(q["dt"] / n)) > 1e-12 * r["sd"] or not r["sdsame"]:
                    c.violation("oup/deviation", f"the increments have standard deviation {r['sd']}, substeps of {q['dt'] / n}: {q}", rep)
                x, big = em(q["last"], q["theta"], mu, q["dt"], q["sigma"], q["cut"], [zs[i % len(zs)] for i in range(n)])
                c.sig(n if n < 20 else int(math.log2(n)) * 20, mu > 0, mu == 0, q["sigma"] > 0, q["cut"] > 1)
                amp = 1 + (abs(1 - q["theta"] * q["dt"] / n) > 1) * 1e3
                if abs(r["value"] - x) > 1e-11 * amp * (big + q["sigma"] * math.sqrt(q["dt"])) * max(1, n / 10):
                    c.violation("oup/value", f"{r['value']} instead of {x}: {q}", rep)
                lo, hi = sorted(((1 - q["cut"]) * mu, (1 + q["cut"]) * mu))
                if mu != 0 and not lo - 1e-12 * abs(mu) <= r["value"] <= hi + 1e-12 * abs(mu):
                    c.violation("oup/cutoff", f"{r['value']} is not in [{lo}, {hi}]: {q}", rep)
                c.count("cut", int(mu != 0 and r["value"] in (lo, hi)))
            for _ in range(15):     # no stable process
                q = dict(stability=.5, cut=.1, last=1.0, theta=1e-3, mu=1.0, dt=100.0, sigma=.1, steps=10)
                q.update(rng.choice([{"stability": 0.0}, {"stability": 2.0}, {"stability": -1.0}, {"stability": 3.0}, {"theta": -1e-3}, {"steps": -1}, {"steps": -10},
                                     {"theta": 1e12}, {"theta": 1e300}]))
                try:
                    r = U("oup", samples=[0.0], **q)
                except Died as e:
                    c.violation("oup/abort", f"{q}: {e}", {"request.json": q})
                    continue
                c.count("impossible")
                if not is_error(r):
                    c.violation("oup/accepted", f"{q} gives {r}", {"request.json": q})
            # the random numbers
            n = 4000
            seed = [rng.randrange(2**32) for _ in range(8)]
            for trunc in (False, True):
                sd = 10 ** rng.uniform(-3, 3)
                q = dict(truncated=trunc, n=n, sd=sd, seed=seed)
                a = U("noise", **q)
                b = U("noise", **q)
                other = U("noise", **dict(q, seed=seed[:-1] + [seed[-1] ^ (1 << rng.randrange(32))]))
                one, two = U("noise", truncated=trunc, n=n, sd=sd), U("noise", truncated=trunc, n=n, sd=sd)
                again = U("noise", truncated=trunc, n=n, sd=sd, seed=one["used"])
                mean = rng.uniform(-5, 5)
                shifted = U("noise", mean=mean, **q)
                rep = {"request.json": q}
                if a != b or a["used"] != seed:
                    c.violation("noise/reproduce", f"the same seed gives other numbers, or {a['used']} is published for {seed}", rep)
                if again["samples"] != one["samples"]:
                    c.violation("noise/published", f"the published seed {one['used']} does not reproduce the numbers", rep)
                if any(len(set(x["samples"]) & set(a["samples"])) > n // 100 for x in (other, one, two)) or one["samples"] == two["samples"] or one["used"] == two["used"]:
                    c.violation("noise/same", "different seeds give the same numbers", rep)
                if any(abs(x - (mean + y)) > 1e-9 * (abs(mean) + 3 * sd) for x, y in zip(shifted["samples"], a["samples"])):
                    c.violation("noise/mean", "numbers with a mean are not the shifted ones", rep)
                for x in (a, other, one, two):
                    if len(set(x["samples"])) < n - 1:
                        c.violation("noise/repeated", f"{n} random numbers take only {len(set(x['samples']))} values", rep)
                    v = [y / sd for y in x["samples"]]
                    m, s2 = sum(v) / n, sum(y * y for y in v) / n
                    ac = sum(p * q_ for p, q_ in zip(v, v[1:])) / n
                    want = .7737 if trunc else 1.0
                    tails = sum(abs(y) > 2 for y in v)
                    if abs(m) > 8 / math.sqrt(n) or abs(s2 - want) > 12 / math.sqrt(n) or abs(ac) > 8 / math.sqrt(n) or (trunc and tails) or (not trunc and not 60 < tails < 400):
                        c.violation("noise/distribution", f"truncated {trunc}: mean {m}, variance {s2}, autocorrelation {ac}, {tails} of {n} outside 2 deviations", rep)
                    c.count("random_numbers", n)
    return fn


def nodes(prob):
    return {x["id"]: x for x in prob["topology"]["nodes"].get("StochasticPQnode", [])}


def raw(d):
    """content of the states file"""
    f = [p for p in (d / "output").glob("*/states.json")]
    return f[0].read_bytes() if len(f) == 1 else None


def runs(grazer, unit):
    def fn(c, rng, d):
        prob, g = netgen.make(rng, gas=rng.random() < .1, power=True, pnodes=(2, 5), steps=rng.choice([(2, 8), (8, 40)]), stochastic=True, seeded=rng.random() < .6)
        st = nodes(prob)
        if not st:
            return
        prob["problem_data"]["simulation_settings"]["tolerance"] = 1e-9
        bnd = {x["id"]: x for x in prob["boundary"]["nodes"]["StochasticPQnode"]}
        for i, n in st.items():
            k = rng.random()
            if k < .2:
                n["sigma_P"] = n["sigma_Q"] = 0.0
            elif k < .6:
                n["cut_off_factor"] = rng.choice([5.0, .01, 1.0])
            n["number_of_stochastic_steps"] = rng.choice([1, 3, 10, 50])
            if rng.random() < .15:
                n["theta_P"] = rng.choice([.5, 0.0])
        P, O, ctl, r = e2e.simulate(c, grazer, d / "a", prob)
        if O is None:
            return
        rep = e2e.replay(prob, r)
        first = raw(d / "a")
        rep["states.json"] = first
        e2e.judge(c, P, O, ctl, {"stochastic", "stochdev", "powerout"}, prob, r)
        seeds = {}
        states = json.loads(first)["nodes"].get("StochasticPQnode", [])
        for x in states:
            s = x.get("seed")
            if not isinstance(s, list) or len(s) != 8 or not all(isinstance(v, int) and 0 <= v < 2**32 for v in s):
                c.violation("seed/missing", f"{x.get('id')} publishes the seed {s}", rep)
                return
            seeds[x["id"]] = s
            if "seed" in bnd[x["id"]] and bnd[x["id"]]["seed"] != s:
                c.violation("seed/other", f"{x['id']} publishes {s}, given is {bnd[x['id']]['seed']}", rep)
                return
        unseeded = [i for i in st if "seed" not in bnd[i]]
        if len({tuple(seeds[i]) for i in unseeded}) < len(unseeded):
            c.violation("seed/equal", "two nodes without seed got the same one", rep)
        # replay from the published seeds; bit by bit
        q = copy.deepcopy(prob)
        for x in q["boundary"]["nodes"]["StochasticPQnode"]:
            x["seed"] = seeds[x["id"]]
        P2, O2, _, r2 = e2e.simulate(c, grazer, d / "b", q)
        if O2 is None or raw(d / "b") != first:
            c.violation("replay", "the published seeds do not reproduce the run", dict(rep, **{"states2.json": raw(d / "b")}))
            return
        c.count("replayed")
        noisy = [i for i in st if st[i]["sigma_P"] > 0 and st[i]["cut_off_factor"] >= .01]
        if noisy and unseeded:
            if e2e.simulate(c, grazer, d / "c", prob)[1] is None:
                return
            if raw(d / "c") == first:
                c.violation("fresh", "two runs without seeds are the same", rep)
            c.count("fresh")
        # every step is the Euler-Maruyama step of the numbers of the node's seed
        retried = "retrying" in r.text
        with Unit(unit) as U:
            for i, n in st.items():
                N, stab, cut = n["number_of_stochastic_steps"], n["stability_parameter"], n["cut_off_factor"]
                data = O.comp[i][2]
                dts = [y - x for x, y in zip(P.times, P.times[1:])]
                np_, nq = substeps(N, n["theta_P"], dts[0], stab)[0], substeps(N, n["theta_Q"], dts[0], stab)[0]
                total = (np_ + nq + 4) * len(dts) * 2
                if total > 200000:
                    continue
                z = U("noise", truncated=False, n=total, sd=1.0, seed=seeds[i])["samples"]
                # all explanations so far: order of the two powers, position in the sequence of numbers
                # (at a cut-off several positions may give the same values)
                hyp = {(o, 0) for o in ("PQ", "QP")}
                same = True
                for k in range(1, len(P.times)):
                    b = ph.interp(P.bnd[i]["data"], P.times[k])
                    nxt, tried = set(), None
                    for order, pos in sorted(hyp):
                        for repeats in range(3):
                            for a in substeps(N, n["theta_P"], dts[k - 1], stab):
                                for bq in substeps(N, n["theta_Q"], dts[k - 1], stab):
                                    cnt = {"P": a, "Q": bq}
                                    at = pos + repeats * (a + bq)
                                    ok = True
                                    val = {}
                                    for w in order:
                                        m = b[0] if w == "P" else b[1]
                                        zs = z[at:at + cnt[w]]
                                        at += cnt[w]
                                        if len(zs) < cnt[w]:
                                            ok = False
                                            break
                                        x, big = em(data[k - 1][w], n["theta_" + w], m, dts[k - 1], n["sigma_" + w], cut, zs)
                                        val[w] = x
                                        if abs(x - data[k][w]) > 1e-6 * max(1, abs(x), big):
                                            ok = False
                                    tried = tried or val
                                    if ok:
                                        nxt.add((order, at))
                            if not retried and nxt:
                                break
                    if not nxt:
                        c.violation("step", f"{i} at {P.times[k]}: P, Q = {data[k]['P']}, {data[k]['Q']}, the process gives {tried} (last {data[k - 1]['P']}, {data[k - 1]['Q']})", rep)
                        same = False
                        break
                    if len(nxt) > 60 and not n["sigma_P"] == n["sigma_Q"] == 0:
                        c.count("ambiguous")
                        break
                    hyp = {("PQ", 0)} if n["sigma_P"] == n["sigma_Q"] == 0 else nxt
                    c.count("steps")
                    for w, m in (("P", b[0]), ("Q", b[1])):
                        if n["sigma_" + w] == 0:
                            c.count("relaxations")
                        lo, hi = sorted(((1 - cut) * m, (1 + cut) * m))
                        c.count("at_cutoff", int(m != 0 and min(data[k][w] - lo, hi - data[k][w]) < 1e-7))
                if not same:
                    return
                c.sig(np_, nq, cut > 1, n["sigma_P"] > 0, n["sigma_Q"] > 0, "seed" in bnd[i], len(P.times))
        # other seeds, other noise; only for the node concerned
        if noisy and len(P.times) > 2:
            i = rng.choice(noisy)
            q2 = copy.deepcopy(q)
            for x in q2["boundary"]["nodes"]["StochasticPQnode"]:
                if x["id"] == i:
                    x["seed"] = [v ^ (1 << rng.randrange(32)) if j == 0 else v for j, v in enumerate(x["seed"])]
            P3, O3, _, r3 = e2e.simulate(c, grazer, d / "e", q2, expect_ok=False)
            if O3 is not None:
                n = st[i]
                free = any(abs(abs(e["P"] / ph.interp(P.bnd[i]["data"], e["time"])[0] - 1) - n["cut_off_factor"]) > 1e-6 for e in O.comp[i][2][1:])
                if free and all(abs(x["P"] - y["P"]) < 1e-12 for x, y in zip(O3.comp[i][2], O.comp[i][2])):
                    c.violation("seed/ignored", f"another seed of {i} gives the same power", rep)
                for j in st:
                    if j != i and any(abs(x["P"] - y["P"]) > 1e-5 for x, y in zip(O3.comp[j][2], O.comp[j][2])):
                        c.violation("seed/leak", f"another seed of {i} changes the power of {j}", rep)
                c.count("reseeded")
    return fn


def seeds(exe):
    """malformed seeds and settings"""
    def fn(c, rng, d):
        prob, g = netgen.make(rng, gas=False, power=True, pnodes=(2, 4), steps=(2, 3), stochastic=True)
        if not nodes(prob):
            return
        b = rng.choice(prob["boundary"]["nodes"]["StochasticPQnode"])
        n = nodes(prob)[b["id"]]
        k = rng.choice(["seed", "stab", "theta", "steps", "type"])
        if k == "seed":
            b["seed"] = rng.choice([[1, 2, 3], [], list(range(7)), "12345678", 5, [1, 2, 3, "4", 5, 6, 7, 8], {"a": 1}, [[1]] * 8, None])
        elif k == "stab":
            n["stability_parameter"] = rng.choice([0, 2, -1, 5])
        elif k == "theta":
            w = rng.choice(["theta_P", "theta_Q"])
            n[w] = rng.choice([-1e-3, -5, 1e12, 1e200])
        elif k == "steps":
            n["number_of_stochastic_steps"] = rng.choice([-1, -100])
        else:
            n[rng.choice(["theta_P", "theta_Q", "sigma_P", "sigma_Q", "stability_parameter", "cut_off_factor", "number_of_stochastic_steps"])] = rng.choice(["1", None, [1], {}])
        core.write_problem(d, prob)
        r = core.grazer_run(exe, d, timeout=30)
        s, _ = core.read_output(d)
        c.count("bad_" + k)
        rep = e2e.replay(prob, r)
        if r.crash() or r.timed_out:
            c.violation("bad/crash/" + k, str(r.crash() or "hang"), rep)
        elif r.rc == 0 or s is not None:
            c.violation("bad/accepted/" + k, f"{n} with {b.get('seed')} is accepted", rep)
    return fn


def check(ctx):
    exe, grazer = core.build("plain/unit", "plain/grazer")
    ctx.rule = "a case is 120 processes with recorded samples, or a run of a grid with stochastic loads, its replays and its recomputation; distinct: substeps, signs, cut-off and noise of a node"
    ctx.assumptions = ["the order in which active and reactive power draw their numbers is free, and a retried step may draw again",
                       "statistics of the random numbers have bounds of 8 standard errors"]
    t = ctx.thorough
    e2e.run_cases(ctx, process(exe), 2000 if t else 90, 200 if t else 12, chunksize=1)
    e2e.run_cases(ctx, runs(grazer, exe), 20000 if t else 500, 400 if t else 25, first=10**6)
    e2e.run_cases(ctx, seeds(grazer), 3000 if t else 200, 100 if t else 10, first=2 * 10**6)
