"""Client of harness/unit.cpp: JSON lines; a new process after each death."""
import json, math, os, subprocess, tempfile
from . import core


class Died(Exception):
    pass


class Unit:
    def __init__(self, exe, env=None):
        self.exe, self.env, self.p = exe, env, None

    def start(self):
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ, **core.SAN_ENV)
        e.update(self.env or {})
        self.p = subprocess.Popen([str(self.exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e,
                                  preexec_fn=core.limits())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def __call__(self, cmd, **kw):
        if not self.p:
            self.start()
        kw["cmd"] = cmd
        line = b""
        try:
            self.p.stdin.write((json.dumps(enc(kw)) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            pass
        if not line.endswith(b"\n"):
            self.p.kill()
            rc = self.p.wait()
            self.err.seek(0)
            text = self.err.read().decode(errors="replace")[-6000:]
            self.p.stdout.close()
            self.err.close()
            self.p = None
            core.OBSERVED.append((core.Result(rc, "", text).crash() or f"rc {rc}", json.dumps(enc(kw))[:2000], text))
            raise Died(f"rc {rc}: {text}")
        r = json.loads(line)
        if isinstance(r, dict) and "protocol" in r:
            raise core.HarnessError(f"unit harness: {r['protocol']}")
        return dec(r)


SPECIAL = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}


def enc(x):
    if isinstance(x, float):
        return x if math.isfinite(x) else ("nan" if x != x else "inf" if x > 0 else "-inf")
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if hasattr(x, "tolist"):
        return enc(x.tolist())
    return x


def dec(x):
    if isinstance(x, str):
        return SPECIAL.get(x, x)
    if isinstance(x, dict):
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def is_error(x):
    return isinstance(x, dict) and "error" in x
