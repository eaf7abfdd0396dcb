"""The workloads of the other checks, and raw bytes, through an executable and a library built with
AddressSanitizer, UndefinedBehaviorSanitizer and checked standard containers; some also under valgrind.
What the results are is not judged here."""
import json, os, random, re, shutil
from lib import core, e2e, netgen
from checks import c01, c02, c03, c08, c09, c10, c11, c12, c13, c14, c15, c17, c18, c19, c20, c21, c22, c25, c27, c29

# a request for more memory than there is, is refused by the sanitizers' allocator with a report of its own
MEMORY = ("out of memory", "out-of-memory", "allocation-size-too-big", "exceeds maximum supported size", "hard rss limit", "requested allocation size",
          "failed to allocate", "std::bad_alloc", "calloc parameters overflow")
ENV = {"ASAN_OPTIONS": core.SAN_ENV["ASAN_OPTIONS"].replace("allocator_may_return_null=0", "allocator_may_return_null=1") +
       ":hard_rss_limit_mb=3500:detect_invalid_pointer_pairs=2:check_initialization_order=1:strict_string_checks=1:detect_container_overflow=1",
       "UBSAN_OPTIONS": core.SAN_ENV["UBSAN_OPTIONS"]}


def place(text):
    """the innermost own frame of a report"""
    for m in re.finditer(r"#\d+ \S+ in (.+?) (?:/\S*?/)?((?:src|app|harness)/\S+?:\d+|\(\S+\))", text):
        if "/src/" in m.group(0) or "/app" in m.group(0):
            return f"{m.group(1)[:80]} {m.group(2)}"
    m = re.search(r"(\S+\.[ch]pp:\d+)(?::\d+)?: (?:runtime error|.*Assertion)", text)
    return m.group(1) if m else ""


def kind(desc, text):
    m = re.search(r"AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan/" + m.group(1)
    m = re.search(r"runtime error: (.{0,60})", text)
    if m:
        return "ubsan/" + re.sub(r"[0-9.e+-]+", "#", m.group(1))[:40].strip().replace(" ", "-")
    if "Assertion" in text:
        return "assertion"
    return "crash"


def watched(name, inner):
    """inner's workload, of which only the sanitizers' verdict is kept"""
    def fn(c, rng, d):
        del core.OBSERVED[:]
        n0 = core.STARTED[0]
        quiet = e2e.Case(c.i)
        quiet.count = lambda *a: None
        try:
            inner(quiet, rng, d)
        except Exception as e:      # the oracles of other checks are not in question here
            c.count("interrupted_" + name)
            c.count("interrupted")
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
        c.count("processes", core.STARTED[0] - n0)
        c.count("from_" + name)
        for s in quiet.sigs:
            c.sig(name, *s)
        for desc, cmd, text in core.OBSERVED:
            if any(m in text for m in MEMORY):
                c.count("memory_refused")
                continue
            rep = next((dict(v[2]) for v in quiet.viol if isinstance(v[2], dict)), {})
            rep["command.txt"] = cmd
            rep["report.txt"] = text[-20000:]
            p = d / "problem"
            if p.is_dir():
                for f in sorted(p.glob("*.json")):
                    try:
                        rep.setdefault(f.name, f.read_bytes())
                    except OSError:
                        pass
            c.violation(f"{kind(desc, text)}/{place(text)}"[:150], f"{name}: {desc[:200]} in {cmd[:200]} at {place(text)}", rep)
        del core.OBSERVED[:]
    return fn


# ------------------------------------------------------------------------- raw bytes
TOKENS = [b"{", b"}", b"[", b"]", b",", b":", b"\"", b"\\", b"null", b"true", b"-", b"1e999", b"1e-999", b"-0", b"9223372036854775808", b"18446744073709551616",
          b"-9223372036854775809", b"\x00", b"\xff", b"\xef\xbb\xbf", b"\\ud800", b"\\u0000", b"NaN", b"\"id\":", b"\"data\":[]", b"\"values\":[]", b"\"nodes\":{}",
          b"4294967296", b"2147483648", b"-1", b"0", b"1e308", b"5e-324", b"\"\"", b"[[[[[[[[[[", b"{}", b"\"defaults\":", b"\"Pipe\":", b"\"boundary_values\":"]


def mangle(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        k = rng.randrange(8)
        i = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[i:i] = rng.choice(TOKENS)
        elif k == 2:
            del b[i:i + rng.choice([1, 1, 5, 50])]
        elif k == 3:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + rng.choice([3, 30, 300])]
        elif k == 4:
            b[i:i + rng.choice([1, 4])] = rng.choice(TOKENS)
        elif k == 5 and rng.random() < .3:
            del b[i:]
        elif k == 6:
            m = list(re.finditer(rb"-?\d+(\.\d+)?(e[+-]?\d+)?", bytes(b)))
            if m:
                m = rng.choice(m)
                b[m.start():m.end()] = rng.choice([b"0", b"-1", b"1e308", b"-1e308", b"1e-308", b"2147483647", b"-2147483648", b"4294967295", b"9223372036854775807",
                                                   b"18446744073709551615", b"0.1", b"null", b"\"5\"", b"1e999", b"3", b"1000"])
        elif k == 7:
            m = list(re.finditer(rb"\"[^\"]*\"", bytes(b)))
            if len(m) > 1:
                x, y = rng.choice(m), rng.choice(m)
                b[x.start():x.end()] = y.group(0)
    return bytes(b)


def raw(exe):
    def fn(c, rng, d):
        prob = c13.base(rng)
        texts = {k: json.dumps(v).encode() for k, v in prob.items()}
        for k in rng.sample(sorted(texts), rng.choice([1, 1, 2])):
            texts[k] = mangle(rng, texts[k])
        core.write_problem(d, texts)
        (d / "ipopt.opt").write_text("max_iter 2\nmax_cpu_time 3\nsb yes\n")
        r = core.grazer_run(exe, d, timeout=25)
        c.sig(r.rc, r.text[-50:] if r.rc else 0)
        if rng.random() < .25:
            core.run([exe, "schema", "make-full-factory", d], timeout=25, cwd=d)
            core.run([exe, "schema", "insert-key", d], timeout=25, cwd=d)
    return fn


EXTREME = [0, -1, 1, 1e308, -1e308, 5e-324, 4294967295, 4294967296.0, 4294967297, 2147483647, 2147483648, -2147483649, 3e9, 2**63, 2**64 - 1, -2**63, 1e18, 1e-300, .5, True, "1"]


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    elif isinstance(x, (int, float)) and not isinstance(x, bool):
        yield path


def numbers(exe):
    """numbers of extreme size in well-formed problems"""
    def fn(c, rng, d):
        prob = json.loads(json.dumps(c13.base(rng)))
        for _ in range(rng.choice([1, 1, 1, 2])):
            if rng.random() < .1:
                prob["problem_data"]["control_settings"] = {rng.choice(["number_of_steps", "desired_delta_t"]): 5}
            if rng.random() < .1:
                prob["problem_data"]["constraint_settings"] = {"evaluate_constraints_every_n": 2}
            if rng.random() < .1:
                for e in prob["boundary"].get("nodes", {}).get("StochasticPQnode", []):
                    e["seed"] = [rng.randrange(2**32) for _ in range(8)]
            # by the last key first, otherwise data series are hit nearly always
            by = {}
            for p in leaves(prob):
                by.setdefault(next((k for k in reversed(p) if isinstance(k, str)), ""), []).append(p)
            p = rng.choice(by[rng.choice(sorted(by))])
            x = prob
            for k in p[:-1]:
                x = x[k]
            v = rng.choice(EXTREME)
            x[p[-1]] = v
            c.sig(*[k for k in p if isinstance(k, str)][-2:], v)
        core.write_problem(d, prob)
        (d / "ipopt.opt").write_text("max_iter 2\nmax_cpu_time 3\nsb yes\n")
        r = core.grazer_run(exe, d, timeout=25)
        c.sig(r.rc, r.text[-50:] if r.rc else 0)
    return fn


def commands(exe):
    """strange command lines and directories"""
    def fn(c, rng, d):
        prob = c13.base(rng)
        core.write_problem(d / "ok", prob)
        (d / "empty").mkdir(parents=True)
        (d / "file").write_text("x")
        (d / "bad" / "problem").mkdir(parents=True)
        for n in ("problem_data.json", "topology.json", "initial.json", "boundary.json", "control.json"):
            f = d / "bad" / "problem" / n
            k = rng.randrange(6)
            if k == 0:
                f.mkdir()
            elif k == 1:
                f.symlink_to(n)
            elif k == 2:
                f.write_bytes(rng.randbytes(rng.randrange(200)))
            elif k == 3:
                f.write_text("[" * 500 + "]" * 500)
            elif k == 4:
                f.write_text("")
        args = ["run", "schema", "make-full-factory", "insert-key", "--help", "-h", "--version", "-v", "", " ", "-", "--", "-x", "--run", "\u00e9\ud7ff", "%s%n", "a" * 5000,
                "ok", "empty", "file", "bad", "ok/", "ok/problem", "../" + d.name + "/ok", "nonexistent/x", "/dev/null", "ok\n"]
        for _ in range(6):
            a = [rng.choice(args) for _ in range(rng.randrange(5))]
            if rng.random() < .6:
                a = rng.choice([["run"], ["schema", "make-full-factory"], ["schema", "insert-key"]]) + [rng.choice(args[17:])] + a[:rng.choice([0, 0, 1])]
            r = core.run([exe, *a], timeout=25, cwd=d)
            c.sig(tuple(x[:12] for x in a), r.rc)
    return fn


# -------------------------------------------------------------------------- valgrind
def valgrind(exe):
    vg = shutil.which("valgrind")

    def fn(c, rng, d):
        if not vg:
            return
        k = rng.random()
        prob, g = netgen.make(rng, large=0.03, gas="maybe", power="maybe", nodes=(2, 6), pnodes=(2, 6), steps=(1, 4), stochastic=rng.random() < .4, constraints=rng.random() < .3)
        if k < .35:
            prob = json.loads(json.dumps(prob))
            what = c13.corrupt.scramble(rng, prob)
        elif k < .5:
            f = rng.choice(c13.corrupt.ALL)
            prob = json.loads(json.dumps(prob))
            try:
                f(rng, prob)
            except (KeyError, TypeError, IndexError, ValueError, AttributeError):
                pass
        elif k < .6:
            prob = c13.clone_opt(rng) if hasattr(c13, "clone_opt") else prob
        core.write_problem(d, prob)
        pd = prob.get("problem_data")
        if isinstance(pd, dict) and pd.get("optimize"):
            pd["optimize"] = False          # linear solvers of Ipopt are none of our business
            core.write_problem(d, prob)
        cmds = [["run", d]]
        if rng.random() < .3:
            cmds = [["schema", "make-full-factory", d], ["schema", "insert-key", d]] + cmds
        for cmd in cmds:
            r = core.run([vg, "-q", "--error-exitcode=97", "--num-callers=14", "--exit-on-first-error=yes", exe, *cmd], timeout=150, cwd=d)
            if r.timed_out:
                c.count("timeout")
                continue
            c.count("valgrind")
            c.sig("vg", cmd[0], r.rc, r.text[-40:] if r.rc else 0)
            if r.rc == 97 or re.search(r"==\d+== +(Invalid|Conditional|Use of unin|Syscall param)", r.text):
                m = re.search(r"==\d+== ((?:Invalid|Conditional|Use of|Syscall param|Argument|Process).*)", r.text)
                c.violation("valgrind/" + (m.group(1)[:60] if m else "?"), f"valgrind: {m.group(1) if m else r.text[-300:]}", dict(e2e.replay(prob, r)))
    return fn


def check(ctx):
    os.environ.update(ENV)
    core.SAN_ENV.update(ENV)
    core.NO_AS = True
    grazer, lab, unit = core.build("asan/grazer", "asan/lab", "asan/unit")
    plain, = core.build("plain/grazer")
    ctx.rule = ("a case is one of the workloads of the other checks (valid, extreme, malformed, defaulted, permuted problems; optimizations; schema commands; library calls), "
                "files with altered bytes or odd command lines, under the sanitizers, or a run under valgrind; distinct: workload and its own distinction")
    ctx.assumptions = ["objects inside one allocation are only kept apart where standard containers check their bounds (Eigen's assertions are on)",
                       "refusing more memory than the machine has is no undefined behaviour; leaks are not looked for",
                       "Ipopt, MUMPS, BLAS and CLI11 are used as installed and not instrumented"]
    t = ctx.thorough
    loads = [("scrambled", c13.scrambled(grazer), 700), ("definite", c13.definite(grazer), 500), ("raw", raw(grazer), 700), ("numbers", numbers(grazer), 600), ("commands", commands(grazer), 60),
             ("simulation", c02.case(grazer), 150), ("hostile", c01.case(grazer, lab), 120), ("optimization", c25.case(grazer), 24),
             ("schema", c18.valid(grazer), 60), ("schema_faults", c18.invalid(grazer), 40), ("insert", c17.plain(grazer), 60),
             ("defaults", c14.equivalent(grazer), 50), ("rearranged", c15.same(grazer), 50), ("described", c29.pairs(grazer), 20), ("times", c10.runs(grazer), 60),
             ("series", c09.case(unit), 12), ("grids", c10.library(unit), 3), ("units", c11.library(unit), 3), ("balance", c08.case(unit), 5),
             ("matrix", c22.case(unit), 12), ("process", c12.process(unit), 3),
             ("derivatives", c03.case(lab), 40), ("optimizer", c20.case(lab), 60), ("gradient", c19.case(lab), 60), ("jacobian", c21.case(lab), 60), ("indices", c27.case(lab), 60)]
    first = 0
    total = sum(n for _, _, n in loads)
    todo = [(n, f, k) for n, f, k in loads]
    for name, f, n in todo:
        first += 10**5
        e2e.run_cases(ctx, watched(name, f), n * 60 if t else n, 24 if t else 12, first=first, chunksize=2, hang=False)
    e2e.run_cases(ctx, valgrind(plain), 2000 if t else 60, 150 if t else 25, first=10**7, chunksize=1, hang=False)
    for name, _, _ in loads:
        if ctx.counters.get("interrupted_" + name, 0) > .2 * ctx.counters.get("from_" + name, 0) and not ctx.violations:
            raise core.HarnessError(f"most cases of the workload {name} failed in the harness")
    if not ctx.counters.get("from_raw") or not ctx.counters.get("from_optimizer"):
        raise core.HarnessError("a workload did not run")
