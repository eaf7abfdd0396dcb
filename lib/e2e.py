"""Run many generated problems through the real executable, each in a worker
process which also judges the result."""
import json, multiprocessing, os, random, shutil, signal, time, traceback
from pathlib import Path
from . import core, netgen, physics as ph


class Case:
    """what a worker reports about one case"""
    def __init__(self, i):
        self.i, self.counts, self.viol, self.sigs = i, {}, [], []
        self.sample = None
        self.error = None
        self.failed = None        # a well posed problem that was not solved

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, key, msg, replay=None):
        if not any(v[0] == key for v in self.viol):
            self.viol.append((key, msg, replay))

    def sig(self, *s):
        self.sigs.append(s)


ALARM = 240     # seconds; cases take a few at most
GRACE = ALARM + 15
_ARGS = _STOP = None


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


def _work(i):
    if _STOP is not None and _STOP.value:
        return None
    c = Case(i)
    fn, pid, seed, scratch, hang = _ARGS
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ALARM)
    rng = random.Random(f"{pid}/{seed}/{i}")
    d = Path(scratch) / f"c{i}"
    try:
        fn(c, rng, d)
    except core.HarnessError as e:
        c.error = f"case {i}: {e}"
    except Hang:
        c.count("hangs")
        if hang:
            c.violation("hang", f"no answer within {ALARM} s: " + traceback.format_exc()[-900:])
    except (OSError, MemoryError):
        c.error = f"case {i}:\n" + traceback.format_exc()
    except Exception:
        # the judges cope with every result of the tree they were made for: these results are unusable
        c.violation("unusable", "the results cannot be judged: " + traceback.format_exc()[-1200:])
    finally:
        signal.alarm(0)
        shutil.rmtree(d, ignore_errors=True)
    return c


def _batch(cases):
    return [c for c in map(_work, cases) if c]


def run_cases(ctx, fn, n, budget, max_fail=0.10, jobs=core.JOBS, first=0, chunksize=4, hang=True):
    """fn(case, rng, dir) for n cases or until budget seconds are over"""
    global _ARGS, _STOP
    _ARGS = (fn, ctx.pid, ctx.seed, str(ctx.scratch), hang)
    budget *= float(os.environ.get("VERIF_BUDGET_SCALE", 1))     # for trying a workload beyond its registered time
    t0 = time.time()
    errors, fails, done = [], [], 0
    mp = multiprocessing.get_context("fork")
    _STOP = mp.Value("b", 0, lock=False)
    with mp.Pool(jobs) as pool:
        results = pool.imap_unordered(_batch, [range(k, min(k + chunksize, first + n)) for k in range(first, first + n, chunksize)])
        while True:
            try:
                batch = results.next(timeout=.5)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                batch = []
            if time.time() - t0 > budget:
                # no new cases; those under way are waited for, they may hang
                _STOP.value = 1
                if time.time() - t0 > budget + GRACE:
                    errors.append("a worker does not answer")
                    pool.terminate()
                    break
            for c in batch:
                done += 1
                if c.error:
                    errors.append(c.error)
                if c.failed:
                    fails.append((c.i, c.failed))
                for k, v in c.counts.items():
                    ctx.count(k, v)
                for key, msg, rep in c.viol:
                    ctx.violation(key, f"case {c.i}: {msg}", rep)
                ctx.evaluations += 1
                for s in c.sigs:
                    ctx.distinct.add(core.hashlib.md5(repr(s).encode()).hexdigest()[:16])
                if c.sample is not None:
                    ctx.sample(c.sample)
            if len(ctx.violations) > 40:
                pool.terminate()
                break
    ctx.count("cases", done)
    if fails:
        ctx.count("unsolved", len(fails))
        if len(fails) > max_fail * done and len(fails) >= 5:
            ctx.violation("unsolved", f"{len(fails)} of {done} well posed problems were not solved, e.g. case {fails[0][0]}: {fails[0][1][-500:]}")
    if errors:
        if len(errors) > 0.02 * done or not ctx.violations:
            print(errors[0])
            raise core.HarnessError(f"{len(errors)} of {done} cases failed in the harness")
    return done


def simulate(case, exe, d, prob, name="", timeout=60, expect_ok=True, **kw):
    """(P, O, controls, Result): None for O if the run failed or its output is unusable"""
    core.write_problem(d, prob)
    r = core.grazer_run(exe, d, timeout=timeout, **kw)
    rep = replay(prob, r)
    if r.timed_out:
        case.violation("hang" + name, "the run did not finish", rep)
        return None, None, None, r
    if r.crash():
        case.violation("crash" + name, r.crash(), rep)
        return None, None, None, r
    if r.rc != 0:
        if expect_ok:
            case.failed = r.text
        return None, None, None, r
    s, c = core.read_output(d)
    if s is None or "__broken__" in s or (c and "__broken__" in c):
        case.violation("output" + name, "a successful run left no readable results", rep)
        return None, None, None, r
    P = ph.Problem(prob)
    try:
        O = ph.Output(s)
    except (KeyError, ValueError, TypeError) as e:
        case.violation("output" + name, f"unusable results: {e!r}", dict(rep, states=s))
        return None, None, None, r
    for k, m in ph.structure(P, O):
        case.violation("structure/" + k, m, dict(rep, **{"states.json": s}))
        return None, None, None, r
    return P, O, c, r


def replay(prob, r=None):
    d = {f"{k}.json": v for k, v in prob.items() if v is not None}
    if r is not None:
        d["output.txt"] = r.text
        d["HOWTO.txt"] = "put the json files into DIR/problem/ and call grazer run DIR"
    return d


def judge(case, P, O, controls, kinds, prob, r, tolfac=1.0, keyprefix=""):
    """residuals of the given kinds; True if all are fine"""
    ok = True
    n = {}
    try:
        for kind, where, t, res, sc in ph.residuals(P, O, controls=controls, kinds=kinds):
            n[kind] = n.get(kind, 0) + 1
            if kinds is not None and kind not in kinds:
                continue
            if ph.bad(res, sc, P.tol * tolfac):
                ok = False
                ty = where.split(" ")[0] if kind in ("active", "activeflow") else ""
                case.violation(f"{keyprefix}{kind}{'/' + ty if ty else ''}",
                               f"{where} at time {t}: residual {res:.6g} (scale {sc:.3g}, tolerance {P.tol})",
                               replay(prob, r))
    except (KeyError, IndexError, TypeError) as e:
        case.violation(f"{keyprefix}unusable", f"the results lack data: {e!r}", replay(prob, r))
        return False
    for k, v in n.items():
        case.count("eq_" + k, v)
    return ok


def refused(case, error, rep=None):
    """an exception of the library at an admissible problem"""
    if numerical(str(error)):
        case.count("not_solvable")
    else:
        case.violation("refused", f"an admissible problem is refused: {str(error)[-400:]}", rep)


def numerical(text):
    """is this the message of a solver that did not converge?"""
    return any(w in text for w in ("onverge", "retr", "singular", "inimal stepsize", "irrevocably", "decompose"))


def typesig(P):
    """the mix of component types and sizes of a problem"""
    c = {}
    for t, _ in list(P.nodes.values()) + list(P.edges.values()):
        c[t] = c.get(t, 0) + 1
    return tuple(sorted(c.items()))
