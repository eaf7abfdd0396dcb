"""The sample problems that come with grazer (/repo/data): large realistic networks,
run as they are and with changed grids, loads and Newton variants. Missing or changed samples are left out."""
import copy, json
from . import core, e2e, physics as ph

NAMES = ("base", "base_optimization", "basetest", "one_pipeline", "optimization_test", "steady_base_optimization")
FILES = ("problem_data", "topology", "boundary", "initial", "control", "lower_bounds", "upper_bounds",
         "constraint_lower_bounds", "constraint_upper_bounds")
_CACHE = {}


def load(name):
    if name not in _CACHE:
        d = core.REPO / "data" / name / "problem"
        try:
            p = {f: json.loads((d / f"{f}.json").read_text()) for f in FILES if (d / f"{f}.json").exists()}
            ph.Problem(p)
            for f in p.values():
                f.pop("$schema", None)
            _CACHE[name] = p
        except (OSError, ValueError, KeyError, TypeError, AttributeError):
            _CACHE[name] = None
    return copy.deepcopy(_CACHE[name])


def available():
    return [n for n in NAMES if load(n) is not None]


def vary(prob, rng):
    """a shorter run on another grid with slightly other loads"""
    pd = prob["problem_data"]
    s = pd["simulation_settings"]
    pd["optimize"] = False
    h = s["end_time"] - s["start_time"]
    dt = s["desired_delta_t"] * rng.choice([1, 1, .5, .77])
    s["desired_delta_t"] = dt
    s["end_time"] = s["start_time"] + min(h, dt * rng.randint(3, 9) * rng.choice([1, .93]))
    s["use_simplified_newton"] = rng.random() < .5
    s["retries"] = rng.choice([0, 3])
    f = 1 + rng.uniform(-.02, .02)
    for t, cs in prob["boundary"].get("nodes", {}).items():
        if t in ("Sink", "Source", "ConstraintSink", "PQnode"):
            for c in cs:
                for e in c["data"]:
                    e["values"] = [v * f for v in e["values"]]
    return prob


def run(ctx, exe, kinds, n, budget, also=None):
    """judge the residuals of the given kinds on the samples and n variations; `also` is called with
    (case, problem, output, controls, files, result)"""
    names = available()
    ctx.count("samples_available", len(names))
    if not names:
        return

    def fn(c, rng, d):
        k = c.i - 10 ** 6
        name = names[k % len(names)]
        prob = load(name)
        if k >= len(names):
            prob = vary(prob, rng)
        else:
            prob["problem_data"]["optimize"] = False
        P, O, ctl, r = e2e.simulate(c, exe, d, prob, timeout=100)
        if O is None:
            return
        e2e.judge(c, P, O, ph.cref(ctl), kinds, prob, r, keyprefix="sample/")
        if also:
            also(c, P, O, ctl, prob, r)
        c.count("sample_runs")
        c.sig("sample", name, k)
    e2e.run_cases(ctx, fn, len(names) + n, budget, first=10 ** 6, chunksize=1)
