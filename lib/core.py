"""Shared machinery of the checks: building, running, reporting."""
import ctypes, hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", VERIF / "build"))
JOBS = max(2, min(8, len(os.sched_getaffinity(0))))


class HarnessError(Exception):
    """The check itself could not do its work: no verdict."""


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = {}          # key -> (message, replay)
        self.rule = ""
        self.assumptions = []
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif_{pid}_"))
        self.known = load_known().get(pid, [])
        self.replaydir = VERIF / "evidence" / "replay" / pid
        shutil.rmtree(self.replaydir, ignore_errors=True)

    # ---- coverage -------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, sig, nontrivial=True, n=1):
        """one evaluated case, sig identifies it"""
        self.evaluations += n
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    # ---- verdicts -------------------------------------------------------
    def violation(self, key, message, replay=None):
        """replay: dict filename->text | Path of a directory | text"""
        key = str(key)
        if key in self.violations:
            return
        d = self.replaydir / hashlib.md5(key.encode()).hexdigest()[:10]
        d.mkdir(parents=True, exist_ok=True)
        (d / "violation.txt").write_text(f"property {self.pid}\nkey {key}\nseed {self.seed}\n\n{message}\n")
        try:
            if isinstance(replay, (str, bytes)):
                (d / "replay.txt").write_text(replay if isinstance(replay, str) else replay.decode(errors="replace"))
            elif isinstance(replay, dict):
                for k, v in replay.items():
                    if isinstance(v, bytes):
                        v = v.decode(errors="replace")
                    (d / k).write_text(v if isinstance(v, str) else json.dumps(v, indent=1, default=str))
            elif isinstance(replay, Path) and replay.exists():
                if replay.is_dir():
                    shutil.copytree(replay, d / replay.name, dirs_exist_ok=True, symlinks=True)
                else:
                    shutil.copy(replay, d / replay.name)
        except OSError as e:
            (d / "replay_error.txt").write_text(str(e))
        self.violations[key] = (message, d)

    def finish(self):
        unlisted = []
        for key, (msg, d) in self.violations.items():
            known = next((k for k in self.known if key.startswith(k[0])), None)
            if known:
                print(f"KNOWN-FINDING: property={self.pid} {known[1]}")
            else:
                unlisted.append((key, msg, d))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": LEVELS.get(self.pid, "exploration"),
              "coverage": {"evaluations": self.evaluations,
                           "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule,
                           "samples": self.samples or ["(none)"],
                           "observed": self.counters},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(unlisted)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        tmp = VERIF / "evidence" / f".{self.pid}.tmp"
        tmp.write_text(json.dumps(ev, indent=1, default=str))
        tmp.replace(VERIF / "evidence" / f"{self.pid}.json")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if unlisted:
            for key, msg, d in unlisted[:10]:
                print(f"  [{key}] {msg[:600]}")
                print(f"VIOLATION property={self.pid} replay={d}")
            return 1
        if not self.evaluations or not self.distinct:
            print("nothing was observed: no verdict")
            return 2
        print(f"{self.pid}: held on {self.evaluations} evaluations "
              f"({len(self.distinct)} distinct), {self.counters}, {ev['wall_s']} s")
        return 0


LEVELS = {"C16": "fault_enumeration", "C17": "fault_enumeration"}


def load_known():
    """known_findings.txt: 'known: property=<id> key=<key prefix> | <text>'"""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: property="):
                head, _, text = line[len("known: property="):].partition(" | ")
                pid, _, key = head.partition(" key=")
                out.setdefault(pid.strip(), []).append((key.strip(), text.strip()))
    return out


# ---- building -----------------------------------------------------------
def build(*targets):
    """(re)build targets from /repo's working tree; returns their paths"""
    BUILD.mkdir(parents=True, exist_ok=True)
    subprocess.run([sys.executable, str(VERIF / "tools/gen_ninja.py"), str(BUILD)], check=True)
    r = subprocess.run(["ninja", "-C", str(BUILD), "-j", str(JOBS), *targets],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("build failed:\n" + (r.stdout + r.stderr)[-4000:])
    return [BUILD / t for t in targets]


# ---- running ------------------------------------------------------------
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:malloc_context_size=10",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}


OBSERVED = []      # (description, command, text) of every crash in this process, for C23
STARTED = [0]      # processes started


class Result:
    def __init__(self, rc, out, err, timed_out=False):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def text(self):
        return self.out + self.err

    def crash(self):
        """a crash description or None"""
        t = self.text
        if "AddressSanitizer" in t or "runtime error:" in t:
            for line in t.splitlines():
                if "runtime error:" in line or "ERROR: AddressSanitizer" in line or "SUMMARY:" in line:
                    return "sanitizer: " + line.strip()[:300]
            return "sanitizer report"
        if self.rc is not None and self.rc < 0:
            return f"killed by signal {-self.rc}: " + t.strip()[-300:]
        if self.rc in (134, 139, 136):
            return f"abort/crash rc {self.rc}: " + t.strip()[-300:]
        return None


NO_AS = False      # sanitizers reserve a lot of address space


try:
    PRCTL = ctypes.CDLL(None).prctl
except (OSError, AttributeError):
    PRCTL = None


def limits(mem_gb=None, fsize=None):
    def f():
        if PRCTL:
            PRCTL(1, signal.SIGKILL)      # PR_SET_PDEATHSIG: nothing outlives the worker which started it
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb and not NO_AS:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    return f


def run(cmd, **kw):
    r = _run(cmd, **kw)
    STARTED[0] += 1
    if r.crash():
        OBSERVED.append((r.crash(), " ".join(str(x) for x in cmd), r.text))
    return r


def _run(cmd, timeout=120, cwd=None, stdin=None, env=None, mem_gb=None, fsize=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    p = subprocess.Popen([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         cwd=cwd, env=e, start_new_session=True, preexec_fn=limits(mem_gb, fsize))
    try:
        o, er = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        return Result(p.returncode, o.decode(errors="replace"), er.decode(errors="replace"))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return Result(None, o.decode(errors="replace"), er.decode(errors="replace"), True)
    except BaseException:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        raise


def pmap(fn, items, jobs=JOBS):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


# ---- problems -----------------------------------------------------------
def write_problem(d, prob):
    """prob: dict name -> json (problem_data, topology, ...)"""
    d = Path(d)
    (d / "problem").mkdir(parents=True, exist_ok=True)
    for name, js in prob.items():
        if js is None:
            continue
        f = d / "problem" / f"{name}.json"
        if isinstance(js, bytes):
            f.write_bytes(js)
        else:
            f.write_text(js if isinstance(js, str) else json.dumps(js, indent=1))
    return d


def outputs(d):
    """the output directories of a problem directory, sorted"""
    o = Path(d) / "output"
    return sorted(p for p in o.iterdir() if p.is_dir()) if o.is_dir() else []


def read_output(d):
    """(states, controls) of the only output of directory d (None if absent)"""
    outs = outputs(d)
    if len(outs) != 1:
        return None, None
    res = []
    for n in ("states.json", "controls.json"):
        f = outs[0] / n
        if f.exists():
            try:
                res.append(json.loads(f.read_text()))
            except ValueError as e:
                res.append({"__broken__": str(e)})
        else:
            res.append(None)
    return tuple(res)


def grazer_run(exe, d, timeout=120, **kw):
    cwd = kw.pop("cwd", d)
    return run([exe, "run", d], timeout=timeout, cwd=cwd, **kw)
