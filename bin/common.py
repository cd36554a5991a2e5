"""Shared plumbing of the checks: builds, child processes, replays, evidence."""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CORES = min(8, os.cpu_count() or 8)
START = time.time()


def log(*a):
    print(f"[{time.time() - START:6.1f}s]", *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    """The check could not give an answer."""


def env_clean(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def limits(mem_gb=8):
    def f():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Done:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def crashed(self):
        """Ended by a signal that a memory error or an abort raises, or by a sanitizer."""
        return not self.timed_out and (self.rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL,
                                                   -signal.SIGFPE, -signal.SIGTRAP, 134, 139, 77))


def run(cmd, timeout, cwd=None, env=None, mem_gb=8):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", preexec_fn=limits(mem_gb))
    try:
        out, err = p.communicate(timeout=timeout)
        return Done(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Done(p.returncode, out, err, True)


class lock:
    """One build at a time per directory, also across concurrent checks."""

    def __init__(self, name):
        os.makedirs(os.path.join(OUT, "locks"), exist_ok=True)
        self.f = open(os.path.join(OUT, "locks", name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def write_evidence(prop, tier, level, coverage, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(time.time() - START, 1),
                   "violations": violations}, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def known_findings(prop):
    """Entries `finding: property=<id> key=<signature> <what>`; fixed entries suppress nothing."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def violation(prop, path, text=""):
    if text:
        print(text)
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def fresh(path):
    """An empty directory below OUT."""
    assert os.path.abspath(path).startswith(OUT + os.sep)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path
