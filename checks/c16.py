"""Many runs of one problem at the same time, with any previous content of its output
directory, and with every file system call of a run failing."""
import json, os, shutil, subprocess, sys
from lib import core, e2e, faults, netgen, opte2e as oe

ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


def small(c, rng, exe, d, optimize):
    if optimize:
        made = oe.make(c, rng, exe, d / "make", steps=(2, 3), nodes=(2, 3), pnodes=(2, 2))
        return made and made[0]
    return netgen.make(rng, gas="maybe", power="maybe", nodes=(2, 4), pnodes=(2, 3), steps=(2, 4))[0]


def reference(exe, d, prob):
    """name -> text of the results, or None"""
    core.write_problem(d, prob)
    opt(d, prob)
    r = core.grazer_run(exe, d, timeout=100, env=ENV)
    outs = core.outputs(d)
    if r.rc != 0 or len(outs) != 1:
        return None
    return {f.name: f.read_bytes() for f in outs[0].iterdir() if f.is_file()}


def opt(d, prob):
    if prob["problem_data"].get("optimize"):
        (d / "ipopt.opt").write_text(oe.IPOPT.format(it=2))


def litter(rng, d):
    """previous content of the output directory"""
    o = d / "output"
    o.mkdir(exist_ok=True)
    for _ in range(rng.randrange(5)):
        n = rng.choice(["2021.03.04_05:06:07.8", "2099.12.31_23:59:59.999", "old", "states.json", "a b", ".hidden", "output_1", "problem"]) + rng.choice(["", "", str(rng.randrange(100))])
        if os.path.lexists(o / n):
            continue
        k = rng.random()
        if k < .6:
            (o / n / "problem").mkdir(parents=True)
            for f in ("states.json", "controls.json", "problem/topology.json", "notes"):
                (o / n / f).write_text("precious " + f + str(rng.random()))
        elif k < .8:
            (o / n).write_text("precious")
        else:
            (o / n).symlink_to(rng.choice(["nowhere", "../problem", "."]))


def furnish(rng, d):
    """more content of the directory of the problem"""
    p = d / "problem"
    for n in rng.sample(["notes.txt", "data/old/topology.json", "data/values.csv", ".git/config", "a b/ä.json", "backup/initial.json"], rng.randrange(4)):
        (p / n).parent.mkdir(parents=True, exist_ok=True)
        (p / n).write_text("user's " + n)
    if rng.random() < .4:
        (d / "shared").mkdir(exist_ok=True)
        n = rng.choice(["topology.json", "boundary.json", "problem_data.json"])
        shutil.move(p / n, d / "shared" / n)
        (p / n).symlink_to(rng.choice(["../shared/" + n, d.absolute() / "shared" / n]))
    if rng.random() < .15:
        (d / "shared/more").mkdir(parents=True, exist_ok=True)
        (d / "shared/more/x").write_text("x")
        (p / "linked").symlink_to("../shared/more")


def problem_files(g):
    """what a copy of the problem must contain"""
    out = {}
    for root, _, names in os.walk(g / "problem", followlinks=True):
        for n in names:
            f = os.path.join(root, n)
            out[os.path.relpath(f, g / "problem")] = open(f, "rb").read()
    return out


def intact(c, key, what, before, d, rep):
    after = faults.tree(d)
    for n, x in before.items():
        if n not in after or after[n] != x:
            c.violation(key + "/damaged", f"{what}: {n} {'is gone' if n not in after else f'changed from {x!r:.100} to {after[n]!r:.100}'}", rep)
            return None
    return after


def fresh(before, after):
    """the new output directories: name -> (files, copy of the problem)"""
    out = {}
    for n, x in after.items():
        p = n.split("/")
        if p[0] != "output" or len(p) < 2 or f"output/{p[1]}" in before:
            continue
        e = out.setdefault(p[1], ({}, {}))
        if len(p) == 3 and isinstance(x, bytes):
            e[0][p[2]] = x
        elif len(p) > 3 and p[2] == "problem" and isinstance(x, bytes):
            e[1]["/".join(p[3:])] = x
    return out


def complete(new, ref, prob):
    """does this directory hold the whole results and the problem?"""
    return new[0] == ref and new[1] == prob


def together(exe, shim):
    def fn(c, rng, d):
        d.mkdir()
        prob = small(c, rng, exe, d, rng.random() < .15)
        ref = prob and reference(exe, d / "ref", prob)
        if not ref:
            c.count("skipped")
            return
        for attempt in range(2):
            g = d / f"g{attempt}"
            core.write_problem(g, prob)
            opt(g, prob)
            if rng.random() < .5:
                furnish(rng, g)
            if rng.random() < .7:
                litter(rng, g)
            before = faults.tree(g)
            files = problem_files(g)
            n = rng.choice([2, 4, 8, 8, 16])
            mode = rng.choice(["plain", "align", "align", "align", "coarse", "coarse"])
            env = dict(os.environ, **ENV, LD_PRELOAD=str(shim), SHIM_LOG=str(d / "log"))
            if mode != "plain":
                env.update(SHIM_ALIGN="200")
                if rng.random() < .5:
                    env.update(SHIM_DELAY=str(rng.choice([500, 3000, 20000])), SHIM_SEED=str(rng.randrange(1000)))
            if mode == "coarse":
                env.update(SHIM_COARSE=str(rng.choice([5, 10, 100])))
            ps = [subprocess.Popen([str(exe), "run", str(g)], cwd=g, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True) for _ in range(n)]
            rs = []
            for p in ps:
                try:
                    t, _ = p.communicate(timeout=100)
                except subprocess.TimeoutExpired:
                    p.kill()
                    t, _ = p.communicate()
                rs.append((p.returncode, t.decode(errors="replace")))
            what = f"{n} runs together ({mode})"
            rep = dict({k + ".json": v for k, v in prob.items()}, **{f"run{i}.log": f"rc {r}\n{t}" for i, (r, t) in enumerate(rs)})
            after = intact(c, "together", what, before, g, rep)
            if after is None:
                return
            new = fresh(before, after)
            rep["directories.txt"] = "\n".join(f"{k}: {sorted(v[0])} {sorted(v[1])}" for k, v in new.items())
            good = [r for r in rs if r[0] == 0]
            full = [k for k, v in new.items() if complete(v, ref, files)]
            c.count("runs", n)
            c.count("successes", len(good))
            c.count("directories", len(new))
            if any(r[0] < 0 for r in rs):
                c.violation("together/crash", f"{what}: {[r for r in rs if r[0] < 0][0]}", rep)
            if len(full) < len(good):
                c.violation("together/shared", f"{what}: {len(good)} runs succeeded and left complete results in only {len(full)} of {len(new)} new directories", rep)
            # a name is taken by another run at most once, there are 20 tries
            if mode != "coarse" and len(good) < n:
                c.violation("together/failed", f"{what}: {n - len(good)} of {n} runs failed: {[r for r in rs if r[0]][0][1][-300:]}", rep)
            if any(k for k, v in new.items() if len([f for f in v[0] if f not in ref])):
                c.violation("together/surplus", f"{what}: unexpected files in the output", rep)
            log = (d / "log").read_text().splitlines() if (d / "log").exists() else []
            c.count("names_taken", log.count("mkdir 17"))
            c.sig(n, mode, len(full), len(new), len(before))
            shutil.rmtree(g)
            (d / "log").unlink(missing_ok=True)
    return fn


def history(exe, shim):
    """several runs one after the other, also when the clock gives the same name again"""
    def fn(c, rng, d):
        g = d / "g"
        known = {}
        fix = rng.randrange(10**9, 2 * 10**9)
        litter_done = False
        for k in range(rng.randint(2, 4)):
            prob = small(c, rng, exe, d, False)
            ref = reference(exe, d / f"ref{k}", prob)
            if not ref:
                c.count("skipped")
                return
            shutil.rmtree(g / "problem", ignore_errors=True)
            core.write_problem(g, prob)
            shutil.rmtree(g / "shared", ignore_errors=True)
            if rng.random() < .5:
                furnish(rng, g)
            if not litter_done:
                litter(rng, g)
                litter_done = True
            before = faults.tree(g)
            files = problem_files(g)
            env = dict(ENV)
            same = rng.random() < .5
            if same:
                env.update(LD_PRELOAD=str(shim), SHIM_FIX=str(fix), SHIM_FIX_CALLS=str(rng.choice([0, 0, 2, 3, 5, 15])), SHIM_LOG=str(d / "log"))
            r = core.grazer_run(exe, g, env=env)
            rep = e2e.replay(prob, r)
            after = intact(c, "history", f"run {k} of a problem", before, g, rep)
            if after is None:
                return
            if r.crash() or r.timed_out:
                c.violation("history/crash", str(r.crash() or "hang"), rep)
            new = fresh(before, after)
            if r.rc == 0 and not any(complete(v, ref, files) for v in new.values()):
                c.violation("history/incomplete", f"run {k} succeeded without complete results: {[(n, sorted(v[0])) for n, v in new.items()]}", rep)
            if r.rc and not same:
                c.violation("history/failed", f"run {k} failed: {r.text[-300:]}", rep)
            c.count("same_name" if same else "later")
            c.count("succeeded" if r.rc == 0 else "refused")
            c.sig("history", k, same, r.rc)
    return fn


def broken(exe):
    """every call that concerns the problem's directory fails once or for good"""
    def fn(c, rng, d):
        d.mkdir()
        optimize = rng.random() < .35
        prob = small(c, rng, exe, d, optimize)
        ref = prob and reference(exe, d / "ref", prob)
        if not ref:
            c.count("skipped")
            return
        m = d / "model"
        core.write_problem(m, prob)
        opt(m, prob)
        if rng.random() < .3:
            (m / "problem/data").mkdir()
            (m / "problem/data/notes").write_text("user's notes")
        if rng.random() < .6:
            litter(rng, m)
        probe = d / "g"
        shutil.copytree(m, probe, symlinks=True)
        listed, _ = faults.calls([exe, "run", probe], probe, cwd=probe, timeout=100, env=ENV)
        # Ipopt reads its options itself, and never returns from a failing read
        listed = [x for x in listed if "ipopt.opt" not in x[2]]
        if not listed:
            raise core.HarnessError("no system calls seen")
        shutil.rmtree(probe)
        plans = faults.plans(listed)
        # the writing is the interesting part
        late = [p for p in plans if p[0].split("#")[0] in ("write", "writev", "mkdir", "rename", "copy_file_range", "sendfile", "fchmod", "chmod")]
        rng.shuffle(plans)
        rng.shuffle(late)
        todo = [("fault", p) for p in late[:25] + plans[:25]]
        todo += [("size", rng.choice([0, 1, rng.randrange(len(x) + 1), len(x) - 1])) for x in ref.values() for _ in range(6)]
        c.count("calls", len(listed))
        for kind, what in todo:
            g = d / "g"
            shutil.copytree(m, g, symlinks=True)
            before = faults.tree(g)
            files = problem_files(g)
            cmd = [exe, "run", g]
            if kind == "fault":
                label, plan = what
                r, happened = faults.inject(plan, cmd, log=d / "log", timeout=100, cwd=g, env=ENV)
                c.count("faults_happened" if happened else "faults_not_reached")
                killed = "killed" in label
                key = label.split("#")[0] + " " + label.split()[-1]
            else:
                r, label, key, killed, happened = core.run(cmd, timeout=100, fsize=what, cwd=g, env=ENV), f"file size limit {what}", "size", False, True
                c.count("size_limits")
            rep = dict(e2e.replay(prob, r), **{"fault.txt": label})
            if r.timed_out or (r.crash() and not killed):
                c.violation("crash/" + key, f"{label}: {r.crash() or 'hang'}", rep)
            after = intact(c, "fault", label, before, g, rep)
            if after is not None and r.rc == 0:
                new = fresh(before, after)
                if not any(complete(v, ref, files) for v in new.values()):
                    c.violation("fault/incomplete " + key, f"{label}: the run reports success and leaves {[(n, {f: len(x) for f, x in v[0].items()}, len(v[1])) for n, v in new.items()]}; complete are { {f: len(x) for f, x in ref.items()} } and {len(files)}", rep)
            c.count("success_in_spite" if r.rc == 0 else "errors" if not killed else "kills")
            c.sig(optimize, key, r.rc == 0)
            shutil.rmtree(g)
    return fn


def places(exe):
    """an output directory that cannot be used"""
    def fn(c, rng, d):
        prob = small(c, rng, exe, d, False)
        ref = reference(exe, d / "ref", prob)
        if not ref:
            return
        g = d / "g"
        core.write_problem(g, prob)
        k = rng.choice(["file", "dangling", "link to file", "link"])
        o = g / "output"
        if k == "file":
            o.write_text("precious")
        elif k == "dangling":
            o.symlink_to("nowhere")
        elif k == "link to file":
            (g / "x").write_text("precious")
            o.symlink_to("x")
        else:
            (g / "results").mkdir()
            o.symlink_to("results")
        before = faults.tree(g)
        r = core.grazer_run(exe, g, env=ENV)
        rep = e2e.replay(prob, r)
        c.count("place_" + k)
        if r.crash() or r.timed_out:
            c.violation("place/crash", str(r.crash() or "hang"), rep)
        after = intact(c, "place", f"output is a {k}", before, g, rep)
        if after is not None and r.rc == 0:
            files = {n: x for n, x in after.items() if n.startswith("results/") and isinstance(x, bytes)}
            if not all(any(n.endswith("/" + f) and x == y for n, x in files.items()) for f, y in ref.items()):
                c.violation("place/incomplete", f"output is a {k}: success without results", rep)
        c.sig("place", k, r.rc == 0)
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    shim = ctx.scratch / "shim.so"
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, core.VERIF / "lib" / "shim.c", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        raise core.HarnessError("the shim does not compile: " + r.stderr[-500:])
    ctx.rule = "a case is two batches of 2 to 16 simultaneous runs, a history of runs on one directory, or a run repeated with up to 60 different faults; distinct: number of runs, clock, directories, or system call, fault and outcome"
    ctx.assumptions = ["strace injects the faults at system calls and a preloaded library delays calls and aligns clocks; both only change what the operating system could do as well",
                       "with a clock coarser than the real one a run may give up after its 20 tries, with an error"]
    t = ctx.thorough
    e2e.run_cases(ctx, together(exe, shim), 1500 if t else 40, 300 if t else 15, first=0, jobs=4, chunksize=1)
    e2e.run_cases(ctx, history(exe, shim), 3000 if t else 80, 120 if t else 8, first=10**6)
    e2e.run_cases(ctx, broken(exe), 2000 if t else 80, 600 if t else 25, first=2 * 10**6, chunksize=1)
    e2e.run_cases(ctx, places(exe), 400 if t else 24, 60 if t else 5, first=3 * 10**6)
