"""insert-key on generated problem directories, with every file system call failing once
(or for good), the process dying there, and with every file size limit."""
import json, math, shutil
from lib import core, e2e, faults, netgen

TYPES = ["boundary", "control", "initial", "topology", "problem_data"]


def value(rng, depth=0):
    k = rng.randrange(10 if depth < 4 else 7)
    if k == 0:
        return rng.choice([0, -1, 2**31, 2**53 + 1, -2**63, 2**64 - 1, rng.randrange(10**9)])
    if k in (1, 2):
        return rng.choice([0.1, -1e-300, 1e300, 5e-324, -0.5, rng.uniform(-1e6, 1e6), rng.random(), 1e22])
    if k == 3:
        return rng.choice([True, False, None])
    if k in (4, 5, 6):
        return rng.choice(["", "a", "ä\u2028\U0001f600", "\"\\/\b\f\n\r\t\u0001", "x" * rng.randrange(300), "$schema", "id"])
    if k in (7,):
        return [value(rng, depth + 1) for _ in range(rng.randrange(6))]
    return {rng.choice(["a", "b", "", "id", "ä", "$id", "$schema", "k" * 30, str(rng.random())]): value(rng, depth + 1) for _ in range(rng.randrange(6))}


def text(rng, js):
    return json.dumps(js, indent=rng.choice([None, 1, "\t", 7]), ensure_ascii=rng.random() < .5)


BAD = ["", " \n", "{", "[]", "[1, 2]", "3", "null", "\"text\"", "{\"a\": 1", "{\"a\": 1}}", "{\"a\": 1} {\"b\": 2}", "{\"a\": 1}\n// comment\n",
       "{\"a\": 1,}", "{'a': 1}", "{\"a\": 01}", "{\"a\": NaN}", "{\"a\": 1e999}", b"{\"a\": \"\xff\"}", "\ufeff[]", "{\"a\": \"\\ud800\"}", "{\"a\": \"tab\there\"}", "{a: 1}", "{\"a\"}", "{} 1"]


def make(rng, d, big=True, bad=.25):
    """a directory; returns type -> old json | bytes of an unusable file | None (absent)"""
    pd, sd = d / "problem", d / "schemas"
    for x in (pd, sd):
        x.mkdir(parents=True)
    prob = None
    if rng.random() < .4:
        prob, _ = netgen.make(rng, gas="maybe", power="maybe", nodes=(2, 4), pnodes=(2, 4))
    old, raw = {}, {}
    for t in TYPES:
        if rng.random() < .85:
            (sd / f"{t}_schema.json").write_text("{}")
        k = rng.random()
        if k < .12:
            continue
        if k < .12 + bad / len(TYPES) * 2:
            b = rng.choice(BAD)
            if rng.random() < .3 and prob and t in prob:
                s = json.dumps(prob[t])
                b = s[:rng.randrange(len(s))]
            b = b if isinstance(b, bytes) else b.encode()
            (pd / f"{t}.json").write_bytes(b)
            old[t] = b
            continue
        js = prob[t] if prob and t in prob else {k2: v for k2, v in ((str(value(rng, 9)), value(rng)) for _ in range(rng.randrange(12)))}
        if big and rng.random() < .2:
            js = dict(js, filler=[value(rng, 3) for _ in range(rng.choice([300, 3000]))])
        if rng.random() < .25:
            js = dict([("$schema", rng.choice(["old", f"../schemas/{t}_schema.json", ""]))] + list(js.items()))
        s = text(rng, js)
        f = pd / f"{t}.json"
        if rng.random() < .07:
            (d / f"elsewhere_{t}.json").write_text(s)
            f.symlink_to(d / f"elsewhere_{t}.json")
        else:
            f.write_text(s)
        old[t] = json.loads(s)
    for n in rng.sample(["topology.json.tmp0", "initial.json.tmp0", "initial.json.tmp1", "boundary.json~", "boundary.json.bak", "topology.tmp", "lower_bounds.json", "notes.txt", ".topology.json.swp"], rng.randrange(4)):
        (pd / n).write_text("precious " + n)
    return old


def same(a, b):
    """equal json, with the keys in the same order; numbers as doubles"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return isinstance(b, (int, float)) and not isinstance(b, (dict, list)) and (float(a) == float(b))


def expected(t, old):
    return dict({"$schema": f"../schemas/{t}_schema.json"}, **(old or {}))


def judge(c, key, what, old, before, d, done, killed, rep):
    """every file old or new; all new if the command succeeded"""
    after = faults.tree(d)
    for name in sorted(set(before) | set(after)):
        t = next((t for t in TYPES if name == f"problem/{t}.json"), None)
        a, b = before.get(name), after.get(name)
        if t is None:
            if name not in before:
                if not killed:
                    c.violation(key + "/surplus", f"{what}: a new file {name} is left", rep)
            elif name not in after or a != b:
                c.violation(key + "/other", f"{what}: {name} {'is gone' if name not in after else 'changed'}", rep)
            continue
        if name in before and name not in after:
            c.violation(key + "/lost", f"{what}: {name} is gone", rep)
            continue
        bad = isinstance(old.get(t), bytes)
        schema = f"schemas/{t}_schema.json" in before
        is_old = name in before and a == b
        is_new = False
        if not bad and schema and (done or not is_old):
            try:
                content = (d / name).read_bytes()
                is_new = same(json.loads(content.decode()), expected(t, old.get(t)))
            except (ValueError, OSError, UnicodeDecodeError):
                pass
        if bad or not schema:
            if not is_old:
                c.violation(key + ("/unparsable" if bad else "/no schema"), f"{what}: {name} {'is not a json object' if bad else 'has no schema'} and changed from {a!r:.200} to {b!r:.200}", rep)
        elif done and not is_new:
            c.violation(key + "/incomplete", f"{what}: the command succeeded, {name} is {b!r:.300} instead of {expected(t, old.get(t))!r:.300}", rep)
        elif not is_old and not is_new:
            c.violation(key + "/corrupt", f"{what}: {name} is neither old nor new: {b!r:.300}", rep)
        c.count("files_new" if is_new else "files_old")
    if done and any(isinstance(old.get(t), bytes) and f"schemas/{t}_schema.json" in before for t in TYPES):
        c.violation(key + "/unreported", f"{what}: a file that is no json object is not reported", rep)
    if done:
        for t in TYPES:
            if f"schemas/{t}_schema.json" in before and f"problem/{t}.json" not in after:
                c.violation(key + "/missing", f"{what}: the command succeeded without writing {t}.json", rep)


def plain(exe):
    def fn(c, rng, d):
        d.mkdir()
        old = make(rng, d / "g")
        before = faults.tree(d / "g")
        rep = {k.replace("/", "_"): v for k, v in before.items() if isinstance(v, bytes)}
        r = core.run([exe, "schema", "insert-key", d / "g"], timeout=60)
        rep["run.log"] = r.text
        if r.crash() or r.timed_out:
            c.violation("crash", str(r.crash() or "hang"), rep)
        usable = not any(isinstance(v, bytes) for t, v in old.items() if f"schemas/{t}_schema.json" in before)
        if usable and r.rc != 0:
            c.violation("refused", f"insert-key fails: {r.text[-300:]}", rep)
        judge(c, "plain", "unhindered", old, before, d / "g", r.rc == 0, False, rep)
        c.count("rejected" if r.rc else "rewritten")
        c.sig(r.rc, sorted((t, type(v).__name__) for t, v in old.items()), len(before))
        if r.rc == 0:        # once more
            b2 = faults.tree(d / "g")
            new = {t: json.loads(b2[f"problem/{t}.json"].decode()) for t in TYPES if isinstance(b2.get(f"problem/{t}.json"), bytes) and f"schemas/{t}_schema.json" in b2}
            r = core.run([exe, "schema", "insert-key", d / "g"], timeout=60)
            if r.rc:
                c.violation("again/refused", f"a second insert-key fails: {r.text[-300:]}", rep)
            judge(c, "again", "a second time", dict(old, **new), b2, d / "g", r.rc == 0, False, rep)
            c.count("repeated")
    return fn


def faulty(exe, size):
    def fn(c, rng, d):
        d.mkdir()
        m = d / "model"
        old = make(rng, m, big=size, bad=.1)
        shutil.copytree(m, d / "probe" / "g", symlinks=True)
        listed, r0 = faults.calls([exe, "schema", "insert-key", d / "probe" / "g"], d / "probe" / "g", timeout=60)
        if not listed:
            raise core.HarnessError("no system calls seen")
        plans = faults.plans(listed)
        rng.shuffle(plans)
        c.count("calls", len(listed))
        todo = [("fault", p) for p in plans[:60]]
        top = max([len(v) for v in faults.tree(d / "probe" / "g").values() if isinstance(v, bytes)] + [1])
        todo += [("size", rng.choice([0, 1, rng.randrange(top + 1), rng.randrange(top + 1), top - 1])) for _ in range(8)]
        for kind, what in todo:
            g = d / "g"
            shutil.copytree(m, g, symlinks=True)
            before = faults.tree(g)
            cmd = [exe, "schema", "insert-key", g]
            if kind == "fault":
                label, plan = what
                # the path is longer or shorter, the numbers of the calls are the same
                r, happened = faults.inject(plan, cmd, log=d / "log", timeout=60)
                c.count("faults_happened" if happened else "faults_not_reached")
                killed = "killed" in label
                key = label.split("#")[0] + " " + label.split()[-1]
            else:
                r, label, key, killed = core.run(cmd, timeout=60, fsize=what), f"file size limit {what}", "size", False
                c.count("size_limits")
            rep = {k.replace("/", "_"): v for k, v in before.items() if isinstance(v, bytes)}
            rep["run.log"] = f"{label}\nrc {r.rc}\n{r.text}"
            if r.timed_out or (r.crash() and not killed):
                c.violation("crash/" + key, f"{label}: {r.crash() or 'hang'}", rep)
            judge(c, key, label, old, before, g, r.rc == 0, killed or r.rc is None or r.rc < 0 or r.rc == 137, rep)
            c.sig(key, r.rc == 0)
            shutil.rmtree(g)
    return fn


def runs(exe):
    """the keys change nothing for a run"""
    def fn(c, rng, d):
        prob, g = netgen.make(rng, gas="maybe", power="maybe", nodes=(2, 3), pnodes=(2, 3), steps=(2, 3))
        core.write_problem(d, prob)
        r1 = core.run([exe, "run", d], timeout=60)
        s1, c1 = core.read_output(d)
        for cmd in ("make-full-factory", "insert-key"):
            r = core.run([exe, "schema", cmd, d], timeout=60)
            if r.rc:
                c.violation("schema " + cmd, f"{cmd} fails: {r.text[-300:]}", e2e.replay(prob, r))
                return
        shutil.rmtree(d / "output", ignore_errors=True)
        r2 = core.run([exe, "run", d], timeout=60)
        s2, c2 = core.read_output(d)
        c.count("runs_compared")
        if (r1.rc, s1, c1) != (r2.rc, s2, c2):
            c.violation("run", f"the inserted keys change a run: {r1.rc} {r2.rc} {r2.text[-300:]}", e2e.replay(prob, r2))
        c.sig("run", r1.rc)
    return fn


def check(ctx):
    exe, = core.build("plain/grazer")
    ctx.rule = "a case is a problem directory and one insert-key on it, or up to 68 repetitions each with another fault; distinct: kinds of files, or system call, fault and outcome"
    ctx.assumptions = ["strace injects the faults; a killed process dies at a system call, and no power failure follows",
                       "files left by a killed process next to the problem's files are accepted"]
    t = ctx.thorough
    e2e.run_cases(ctx, plain(exe), 20000 if t else 600, 150 if t else 10)
    e2e.run_cases(ctx, faulty(exe, False), 4000 if t else 60, 400 if t else 25, first=10**6, chunksize=1)
    e2e.run_cases(ctx, faulty(exe, True), 1000 if t else 8, 200 if t else 8, first=2 * 10**6, chunksize=1)
    e2e.run_cases(ctx, runs(exe), 500 if t else 40, 60 if t else 10, first=3 * 10**6)
