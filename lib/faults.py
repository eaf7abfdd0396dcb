"""Fault injection at the system call boundary with strace: list the calls of a command
that concern a directory, then repeat it with one of them failing, or killed there."""
import re, uuid
from pathlib import Path
from . import core

# errors a working program can meet at a call
ERRORS = {"write": ["ENOSPC", "EIO", "EINTR"], "writev": ["ENOSPC", "EIO"], "pwrite64": ["ENOSPC"],
          "sendfile": ["ENOSPC", "EIO"], "copy_file_range": ["ENOSPC", "EIO"],
          "read": ["EIO"], "pread64": ["EIO"], "readv": ["EIO"], "getdents64": ["EIO"],
          "open": ["EMFILE", "EACCES"], "openat": ["EMFILE", "EACCES"], "creat": ["ENOSPC"],
          "close": ["EIO"], "fsync": ["EIO"], "fdatasync": ["EIO"], "ftruncate": ["EIO"], "fallocate": ["ENOSPC"],
          "rename": ["ENOSPC", "EACCES"], "renameat": ["ENOSPC"], "renameat2": ["ENOSPC"],
          "link": ["ENOSPC"], "linkat": ["ENOSPC"], "symlink": ["ENOSPC"], "unlink": ["EACCES"], "unlinkat": ["EACCES"],
          "mkdir": ["ENOSPC", "EACCES"], "mkdirat": ["ENOSPC"], "rmdir": ["EACCES"],
          "chmod": ["EPERM"], "fchmod": ["EPERM"], "fchmodat": ["EPERM"],
          "stat": ["EIO"], "lstat": ["EIO"], "fstat": ["EIO"], "newfstatat": ["EIO"], "statx": ["EIO"], "access": ["EIO"]}
PERSISTENT = {"write", "writev", "openat", "rename", "mkdir", "sendfile", "copy_file_range"}


def _strace(args, cmd, **kw):
    return core.run(["strace", "-f", *args, *cmd], **kw)


def calls(cmd, directory, **kw):
    """[(name, n, text)]: the n-th call of name, for calls that concern the directory"""
    log = Path(directory).parent / f"strace_{uuid.uuid4().hex}"
    r = _strace(["-y", "-o", log, "-e", "trace=%file,%desc"], cmd, **kw)
    if not log.exists():
        raise core.HarnessError("strace does not work: " + r.text[-500:])
    n, out = {}, []
    for line in log.read_text(errors="replace").splitlines():
        m = re.match(r"\d+ +(\w+)\((.*)", line)
        if not m:
            continue
        name = m.group(1)
        n[name] = n.get(name, 0) + 1
        if str(directory) in m.group(2):
            out.append((name, n[name], m.group(2)))
    log.unlink()
    return out, r


def plans(listed, kill=True, errors=True):
    """[(label, strace argument)] one for every fault at every listed call"""
    out = []
    for name, n, _ in listed:
        for e in ERRORS.get(name, []) if errors else []:
            out.append((f"{name}#{n} {e}", f"inject={name}:error={e}:when={n}"))
            if name in PERSISTENT and e != "EINTR":
                out.append((f"{name}#{n}+ {e}", f"inject={name}:error={e}:when={n}+"))
        if kill:
            out.append((f"{name}#{n} killed", f"inject={name}:signal=SIGKILL:when={n}"))
    return out


def inject(plan, cmd, **kw):
    """run with the fault; (Result, whether the fault happened)"""
    log = Path(kw.pop("log"))
    r = _strace(["-o", log, "-e", plan.replace("inject=", "trace=").split(":")[0], "-e", plan], cmd, **kw)
    t = log.read_text(errors="replace") if log.exists() else ""
    if log.exists():
        log.unlink()
    return r, "INJECTED" in t or "killed by SIGKILL" in t or r.rc in (-9, 137)


def tree(d):
    """content of a directory: relative path -> bytes | link | None (a directory)"""
    out = {}
    for p in sorted(Path(d).rglob("*")):
        k = str(p.relative_to(d))
        if p.is_symlink():
            out[k] = "-> " + str(p.readlink())
        elif p.is_dir():
            out[k] = None
        elif p.is_file():
            out[k] = p.read_bytes()
        else:
            out[k] = "special"
    return out
