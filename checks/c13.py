"""Corrupted problems through the real executable."""
import copy, json
from lib import core, corrupt, e2e, netgen, physics as ph
from checks import c10


def base(rng):
    k = rng.random()
    if k < .2:
        p = c10.gas_problem(rng.choice([0.0, 100.0]), 1000.0, rng.choice([250.0, 333.0]), rng.random() < .7)
        return json.loads(json.dumps(p))
    prob, g = netgen.make(rng, large=0.04, gas="maybe", power="maybe", nodes=(2, 5), pnodes=(2, 4), steps=(2, 4), stochastic=rng.random() < .3, constraints=rng.random() < .2)
    return json.loads(json.dumps(prob))


def launch(c, exe, d, prob, what, timeout):
    core.write_problem(d, prob)
    (d / "ipopt.opt").write_text("max_iter 3\nmax_cpu_time 5\nsb yes\n")
    r = core.grazer_run(exe, d, timeout=timeout, cwd=d, mem_gb=None if "asan" in str(exe) else 4)
    rep = e2e.replay(prob, r)
    rep["corruption.txt"] = what
    if r.crash():
        c.violation("crash", f"{what}: {r.crash()}", rep)
        return None, None, rep
    s, _ = core.read_output(d)
    if r.rc and len(r.text.strip().splitlines()) < 2 and "rror" not in r.text:
        c.violation("message", f"{what}: exit status {r.rc} without a message: {r.text!r}", rep)
    return r, s, rep


def definite(exe, timeout=30):
    def fn(c, rng, d):
        prob = base(rng)
        for _ in range(20):
            f = corrupt.ALL[(c.i + _) % len(corrupt.ALL)]
            what = f(rng, prob)
            if what:
                break
            prob = base(rng)
        else:
            return
        if rng.random() < .15:       # a second fault does not repair the first
            q = json.loads(json.dumps(prob))
            try:
                more = rng.choice(corrupt.STRUCTURAL)(rng, q)
            except (KeyError, TypeError, AttributeError, IndexError, ValueError):
                more = None
            if more and more.split(":")[0] != what.split(":")[0]:
                prob = q
                what += " and " + more
        c.count(f.__name__)
        c.sig(f.__name__, what.split(" ")[0], prob["problem_data"].get("optimize", False) if isinstance(prob["problem_data"], dict) else None, len(what) % 7)
        r, s, rep = launch(c, exe, d, prob, what, timeout)
        if r is None:
            return
        if r.timed_out:
            c.violation("hang", f"{what}: the run does not finish", rep)
        elif r.rc == 0:
            c.violation("accepted/" + f.__name__, f"{what}: the run reports success", rep)
        elif s is not None:
            c.violation("results/" + f.__name__, f"{what}: the run fails and leaves results", rep)
        if c.i < 4:
            c.sample = {"corruption": what, "message": r.text[-300:]}
    return fn


def scrambled(exe, timeout=30):
    def fn(c, rng, d):
        prob = base(rng)
        if rng.random() < .1:
            what = "random topology graph"
            nodes = [(t, n["id"]) for t, cs in prob["topology"]["nodes"].items() for n in cs]
            for t, cs in prob["topology"]["connections"].items():
                for e in cs:
                    if rng.random() < .5:
                        e[rng.choice(["from", "to"])] = rng.choice(nodes)[1]
        elif rng.random() < .1:
            what = "components without neighbours"
            cs = [x for x in corrupt.comps(prob["topology"], sections=("connections",))]
            for s, t, l, k in cs:
                if rng.random() < .6:
                    l[k] = None
            for t in prob["topology"]["connections"]:
                prob["topology"]["connections"][t] = [x for x in prob["topology"]["connections"][t] if x is not None]
        else:
            what = corrupt.scramble(rng, prob)
        r, s, rep = launch(c, exe, d, prob, what, timeout)
        if r is None:
            return
        if r.timed_out:
            c.count("timeouts")
            c.violation("hang", f"{what}: the run does not finish in {timeout} s", rep)
            return
        c.sig(what.split("/")[0], r.rc, r.text[-60:] if r.rc else 0)
        if r.rc == 0:
            c.count("still_fine")
            # then the results are complete and hold everywhere
            if s is None or "__broken__" in s:
                c.violation("no results", f"{what}: success without readable results", rep)
                return
            if "null" in json.dumps(s):
                c.violation("nan", f"{what}: success, the results contain NaN or infinity", dict(rep, **{"states.json": s}))
        else:
            c.count("refused")
            if s is not None:
                c.violation("results", f"{what}: the run fails and leaves results", rep)
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = ("a case is a valid problem with one definite fault (or two), or with random changes anywhere; distinct: kind and place of the fault, "
                "or place and message")
    ctx.assumptions = ["a JSON value followed by further text in the same file is not claimed to be an error",
                       "equal adjacent points of a series are a jump"]
    t = ctx.thorough
    e2e.run_cases(ctx, definite(exe), 60000 if t else 2600, 350 if t else 20)
    e2e.run_cases(ctx, scrambled(exe), 60000 if t else 2200, 350 if t else 20, first=10**6)
