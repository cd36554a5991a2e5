"""The program generator's common part: building gecs once, compiling and running many programs,
searching, shrinking, replays and evidence."""
import copy, random, threading
from common import *
import world as wd

TECH_ASSUME = ["rustc, its borrow checker and its auto-trait rules are right.",
               "The set logic in /verif/bin (a few lines per property) states the property correctly.",
               "Bounded search: programs that are not generated are not decided."]


class Lib:
    def __init__(self, rlib, deps, tag):
        self.rlib, self.deps, self.tag = rlib, deps, tag


def build_lib(feats=(), release=False):
    tag = "lib-" + ("-".join(feats) or "none") + ("-rel" if release else "")
    with lock(tag):
        d = os.path.join(OUT, "ws", tag)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(f"""[package]
name = "probe"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
gecs = {{ path = "/repo", default-features = false, features = [{", ".join('"' + x + '"' for x in feats)}] }}
""")
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write("pub use gecs;\n")
        src = os.path.join(VERIF, "harness", "Cargo.lock")
        cmd = ["cargo", "build", "--offline", "-q", "--message-format=json", "--manifest-path", os.path.join(d, "Cargo.toml")]
        if release:
            cmd.append("--release")
        target = os.path.join(OUT, "t", tag)
        r = run(cmd, 600, env=env_clean({"CARGO_TARGET_DIR": target}), mem_gb=0)
        if r.rc != 0:
            raise CheckError("building gecs failed:\n" + "\n".join(rendered(r.out))[-4000:] + r.err[-2000:])
        rlib = None
        for line in r.out.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "gecs":
                rlib = next((x for x in j["filenames"] if x.endswith(".rlib")), rlib)
        if not rlib:
            raise CheckError("gecs was built but its library was not found")
        return Lib(rlib, os.path.join(target, "release" if release else "debug", "deps"), tag)


def rendered(text):
    out = []
    for line in text.splitlines():
        try:
            j = json.loads(line)
            m = j.get("message")
            if isinstance(m, dict) and m.get("rendered"):
                out.append(m["rendered"])
        except ValueError:
            pass
    return out


class Compiled:
    def __init__(self, ok, err, exe, out=""):
        self.ok, self.err, self.exe, self.out = ok, err, exe, out


class Scratch:
    """A directory for one run's programs, removed at the end."""

    def __init__(self, prop):
        self.dir = fresh(os.path.join(OUT, "run", f"{prop}-{os.getpid()}"))
        self.n = 0
        self.lock = threading.Lock()
        self.compiles = 0

    def path(self):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, f"p{self.n}")

    def rustc(self, lib, src, emit="link", extra=(), opt=False):
        """Compiles one program. ok is None when rustc itself failed (time, memory, internal error)."""
        base = self.path()
        with open(base + ".rs", "w") as f:
            f.write(src)
        cmd = ["rustc", "--edition", "2021", "-Cdebuginfo=0", "--crate-name", "prog", "--extern", f"gecs={lib.rlib}",
               "-L", f"dependency={lib.deps}", base + ".rs", "-o", base + ".out", "--crate-type", "bin" if emit == "link" else "lib"]
        if emit != "link":
            cmd += ["--emit", "metadata"]
        if opt:
            cmd += ["-O"]
        self.compiles += 1
        r = run(cmd + list(extra), 120, env=env_clean(), mem_gb=6)
        os.unlink(base + ".rs")
        if r.timed_out or r.rc not in (0, 1) or "internal compiler error" in r.err or "the compiler unexpectedly panicked" in r.err \
                or "No space left" in r.err or "linking with" in r.err or "can't find crate for `gecs`" in r.err:
            return Compiled(None, r.err[-2000:] or f"rustc ended with {r.rc}", None)
        if r.rc == 0 and emit != "link":
            try:
                os.unlink(base + ".out")
            except OSError:
                pass
        return Compiled(r.rc == 0, r.err, base + ".out", r.out)

    def execute(self, c, timeout=60):
        r = run([c.exe], timeout, env=env_clean({"RUST_BACKTRACE": "0"}), mem_gb=4)
        try:
            os.unlink(c.exe)
        except OSError:
            pass
        return r

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Result:
    """What one generated specification showed."""

    def __init__(self):
        self.fails = []      # messages
        self.cases = []      # (distinguishing text, non-trivial)
        self.sample = None
        self.stats = {}
        self.error = None    # no answer

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def brief(err, n=700):
    lines = [l for l in err.splitlines() if l.strip()]
    return "\n".join(lines[:14])[:n]


def diff(want, got, limit=6):
    out = []
    for k in want:
        if k not in got:
            out.append(f"section {k} is missing")
        elif want[k] != got[k]:
            a, b = list(want[k]), list(got[k])
            for x in list(a):
                if x in b:
                    b.remove(x)
                    a.remove(x)
            out.append(f"section {k}: expected {a[:3]} but got {b[:3]}")
    return out[:limit]


def search(prop, mod, tier, args, seeds, workers=CORES, cap=None):
    """mod: gen(rng, index), evaluate(env, spec) -> Result, reductions(spec), RULE, setup(tier) -> env."""
    env = mod.setup(tier)
    env["scratch"] = Scratch(prop)
    try:
        return _search(prop, mod, tier, env, seeds, workers, cap)
    finally:
        env["scratch"].close()


def _search(prop, mod, tier, env, seeds, workers, cap):
    end = time.time() + (cap or (200 if tier == "quick" else 5400))
    total = dict(specs=0, evaluations=0, stats={})
    seen, samples, errors, bad, nontrivial = set(), [], [], [], set()
    log("ready")

    def one(i):
        if time.time() > end or len(bad) >= 6:
            return None
        rng = random.Random(SEED * 1_000_003 + i)
        spec = mod.gen(rng, i, tier)
        try:
            r = mod.evaluate(env, spec)
        except CheckError as e:
            r = Result()
            r.error = str(e)
        if r.fails:
            bad.append((spec, r))
        return i, spec, r

    with ThreadPoolExecutor(workers) as ex:
        for x in ex.map(one, range(seeds)):
            if x is None:
                continue
            i, spec, r = x
            total["specs"] += 1
            total["evaluations"] += len(r.cases)
            for t, nt in r.cases:
                h = hashlib.sha1(t.encode()).digest()[:10]
                seen.add(h)
                if nt:
                    nontrivial.add(h)
            for k, v in r.stats.items():
                total["stats"][k] = total["stats"].get(k, 0) + v
            if r.sample and len(samples) < 5:
                samples.append(r.sample)
            if r.error:
                errors.append(f"specification {i}: {r.error}")
    log(f"{total['specs']} specifications, {total['evaluations']} cases, {len(bad)} failing, {env['scratch'].compiles} compilations")
    hit = None
    for spec, r in bad[:3]:
        again = mod.evaluate(env, spec)
        if not again.fails:
            errors.append("not reproduced: " + r.fails[0][:400])
            continue
        spec = shrink(mod, env, spec, 75 if tier == "quick" else 300)
        r = mod.evaluate(env, spec)
        if not r.fails:
            errors.append("shrinking lost the failure")
            continue
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": prop, "spec": spec}, sort_keys=True, indent=1)
        path = os.path.join(d, f"{prop}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "what": r.fails[:5], "replay_with": f"python3 bin/check.py {prop} replay {path}",
                       "spec": spec, "source": mod.source(spec).splitlines()}, f, indent=1)
        hit = (path, r.fails[0])
        break
    cov = {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": len(nontrivial),
        "distinct": len(seen),
        "rule": mod.RULE,
        "samples": samples or ["none"],
        "specifications": total["specs"],
        "rustc_invocations": env["scratch"].compiles,
        "seen": total["stats"],
        "notes": errors[:20],
    }
    cov.update(env.get("more", {}))
    write_evidence(prop, tier, "exploration", cov, 1 if hit else 0, TECH_ASSUME)
    if hit:
        violation(prop, hit[0], hit[1])
        return 1
    if errors:
        for e in errors[:10]:
            log("ERROR", e)
        # single programs without an answer do not stop the rest from deciding, many do
        if len(errors) > max(2, total["specs"] // 20) or any(e.startswith(("not repro", "shrinking")) for e in errors):
            return 2
    if not total["evaluations"]:
        log("ERROR nothing was run")
        return 2
    print(f"OK property={prop} cases={total['evaluations']} nontrivial={len(nontrivial)} programs={env['scratch'].compiles} wall={time.time() - START:.0f}s")
    return 0


def shrink(mod, env, spec, budget):
    end = time.time() + budget

    def bad(s):
        if time.time() > end:
            return False
        try:
            return bool(mod.evaluate(env, s).fails)
        except (CheckError, AssertionError, IndexError, KeyError, ValueError):
            return False

    progress = True
    with ThreadPoolExecutor(CORES) as ex:
        while progress and time.time() < end:
            progress = False
            cands = list(mod.reductions(spec))
            for i in range(0, len(cands), CORES):
                part = cands[i:i + CORES]
                hit = next((c for c, ok in zip(part, ex.map(bad, part)) if ok), None)
                if hit is not None:
                    spec, progress = hit, True
                    break
                if time.time() > end:
                    break
    return spec


def drop_each(spec, key):
    """Copies of spec with half of, then single elements of, a list removed."""
    l = spec.get(key, [])
    if len(l) > 2:
        h = len(l) // 2
        for part in (l[:h], l[h:]):
            s = copy.deepcopy(spec)
            s[key] = copy.deepcopy(part)
            yield s
    for i in range(len(l)):
        s = copy.deepcopy(spec)
        del s[key][i]
        yield s


def main(prop, tier, args):
    mod = __import__(prop.lower())
    if tier == "replay":
        spec = json.load(open(args[0]))["spec"]
        env = mod.setup("quick")
        env["scratch"] = Scratch(prop)
        try:
            r = mod.evaluate(env, spec)
        finally:
            env["scratch"].close()
        for f in r.fails:
            print(" ", f)
        if r.fails:
            violation(prop, args[0])
            return 1
        print("OK: does not reproduce" if not r.error else "no answer: " + r.error)
        return 2 if r.error else 0
    return search(prop, mod, tier, args, mod.SPECS[tier])
