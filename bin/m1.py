"""The history engine: builds it in several configurations, searches, confirms, shrinks."""
import array
from common import *

# name -> cargo profile, features, extra rustc flags, toolchain
VARIANTS = {
    "dev": dict(profile="dev", feats=["events", "c32"]),
    "rel": dict(profile="release", feats=[]),
    "relev": dict(profile="release", feats=["events"]),
    "wrapdev": dict(profile="dev", feats=["wrap"]),
    "wraprel": dict(profile="release", feats=["wrap", "events"]),
    "asan": dict(profile="release", feats=["sysalloc", "events"], asan=True),
}
CTX = {"C07", "C10", "C13"}


class Exe:
    def __init__(self, name, path, hook, dropped, asan=False, args=()):
        self.name, self.path, self.hook, self.dropped, self.asan = name, path, hook, dropped, asan
        self.seed, self.random, self.only = args or (SEED, 2, "")

    def env(self):
        e = env_clean()
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=64"
        return e

    def run(self, args, timeout):
        return run([self.path] + [str(a) for a in args], timeout, env=self.env(), mem_gb=0 if self.asan else 6)


def gen_ws(tag, seed, c32, random, only=""):
    d = os.path.join(OUT, "ws", tag)
    os.makedirs(d, exist_ok=True)
    cmd = [sys.executable, os.path.join(VERIF, "bin", "gen_worlds.py"), d, "--seed", str(seed), "--random", str(random)]
    if c32:
        cmd.append("--c32")
    if only:
        cmd += ["--only", only]
    r = run(cmd, 60)
    if r.rc != 0:
        raise CheckError("gen_worlds: " + r.err[-2000:])
    return d


def build(name, v, seed, random=2, only="", jobs=None):
    """Builds one configuration; leaves out the hook or single worlds that do not compile."""
    feats = list(v["feats"])
    c32 = "c32" in feats
    tag = f"{name}-{seed}-{random}" + ("-" + re.sub(r"\W", "", only) if only else "")
    with lock("m1-" + name):
        target = os.path.join(OUT, "t", name)
        skip, hook, tried = [], True, 0
        while True:
            tried += 1
            d = gen_ws(tag, seed, c32, random, only)
            if skip:
                drop_worlds(d, skip)
            f = feats + (["hook"] if hook else [])
            flags = "--cfg gecs_verif" if hook else ""
            cmd = ["cargo"]
            if v.get("asan"):
                cmd.append("+nightly")
                flags += " -Zsanitizer=address"
            cmd += ["build", "--offline", "-q", "--manifest-path", os.path.join(d, "Cargo.toml")]
            if v.get("asan"):
                cmd += ["--target", "x86_64-unknown-linux-gnu"]
            if v["profile"] == "release":
                cmd.append("--release")
            if f:
                cmd += ["--features", ",".join("run/" + x for x in f)]
            if jobs:
                cmd += ["-j", str(jobs)]
            r = run(cmd, 800, env=env_clean({"CARGO_TARGET_DIR": target, "RUSTFLAGS": flags.strip()}), mem_gb=0)
            if r.rc == 0:
                exe = os.path.join(target, "x86_64-unknown-linux-gnu" if v.get("asan") else "",
                                   "release" if v["profile"] == "release" else "debug", "run")
                # keep a private copy: another check may rebuild in the same target directory
                keep = os.path.join(OUT, "bin", str(os.getpid()), tag)
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy2(exe, keep)
                return Exe(name, keep, hook, skip, bool(v.get("asan")), (seed, random, only))
            if r.timed_out:
                raise CheckError(f"building {name} timed out")
            if hook and "verif_" in r.err:
                hook = False
                log(f"{name}: building without the hook")
                continue
            bad = sorted(set(re.findall(r"could not compile `(w_\w+)`", r.err)))
            if bad and tried < 6 and len(skip) + len(bad) < 40:
                # a world that does not compile is not this machine's business, unless it is all of them
                skip += bad
                members = [x for x in os.listdir(d) if x.startswith("w_")]
                if set(members) - set(skip):
                    log(f"{name}: leaving out {bad}")
                    continue
                skip = []
            if hook:
                hook = False
                log(f"{name}: building without the hook")
                continue
            raise CheckError(f"building {name} failed:\n" + r.err[-6000:])


def drop_worlds(d, skip):
    for f in ("Cargo.toml", "run/Cargo.toml", "run/src/main.rs"):
        p = os.path.join(d, f)
        s = open(p).read()
        for w in skip:
            if f == "Cargo.toml":
                s = s.replace(f', "{w}"', "")
            elif f == "run/Cargo.toml":
                s = re.sub(rf'^{w} = .*\n', "", s, flags=re.M)
                s = re.sub(rf', "{w}/\w+"', "", s)
            else:
                s = re.sub(rf"harness::Entry \{{ meta: &{w}::META, make: {w}::make \}}(, )?", "", s)
        open(p, "w").write(s)


def build_all(specs, optional=()):
    """specs: list of (name, variant dict, kwargs) built concurrently; None for an optional one that fails."""
    def one(s):
        try:
            return build(s[0], s[1], **s[2])
        except CheckError as e:
            if s[0] not in optional:
                raise
            log(f"{s[0]} left out: {e}")
            return None

    with ThreadPoolExecutor(len(specs)) as ex:
        return list(ex.map(one, specs))


def nest_matrix(exes, tier):
    """Every ordered pair of runtime-borrowed accesses of the smaller worlds: the second is made
    while the first is held, twice. Returns (exe, text, number of pairs)."""
    out = []
    for exe in exes:
        if exe.asan:
            continue
        info = exe.run(["info"], 30).out
        for name, cols, nq in re.findall(r"world (\w+) cols (\S+) queries (\d+)", info):
            cols, nq = [int(x) for x in cols.split(",")], int(nq)
            if sum(cols) > (9 if tier == "quick" else 14):
                continue
            acc = []

            def add(kind, a=0, ci=0, mut=0, q=0, key=0):
                x = 1 << 13 | mut << 3 | a << 4 | ci << 8 | q << 16 | key << 26
                for hi in range(16):
                    if (x | hi << 28) % 7 == kind and (x | hi << 28):
                        acc.append(x | hi << 28)
                        return

            for a, n in enumerate(cols):
                for ci in range(n):
                    for mut in (0, 1):
                        add(2, a, ci, mut)
                        add(4, a, ci, mut)
                for q in range(nq):
                    add(0, a, 0, 0, q, q & 1)
            for q in range(nq):
                add(1, 0, 0, 0, q)
            add(6)
            acc = sorted(set(acc))
            head = [f"world {name}", "New 1 0 0 0 0 0"]
            for a in range(len(cols)):
                head += [f"Create {w} {a} {w} {a} 1 0" for w in (0, 0)]
            pairs = [(x, y) for x in acc for y in acc]
            for i in range(0, len(pairs), 400):
                part = pairs[i:i + 400]
                out.append((exe, "\n".join(head + [f"Nest 0 {x} {y} 0 0 0"
                                                   for x, y in part]) + "\n", len(part)))
    return out


# cases per second of one worker on the unchanged tree with all cores busy (dev, rel, asan)
RATES = {
    "C01": {"dev": 133, "rel": 140, "asan": 17},
    "C02": {"dev": 133, "rel": 190, "asan": 31},
    "C03": {"dev": 277, "rel": 385, "asan": 54},
    "C04": {"dev": 108, "rel": 170, "asan": 28},
    "C06": {"dev": 168, "rel": 190, "asan": 41},
    "C07": {"dev": 125, "rel": 152, "asan": 21},
    "C08": {"dev": 60, "rel": 90, "asan": 20},
    "C09": {"dev": 194, "rel": 251, "asan": 37},
    "C10": {"dev": 60, "rel": 76, "asan": 16},
    "C11": {"dev": 276, "rel": 331, "asan": 69},
    "C12": {"dev": 133, "rel": 158, "asan": 24},
    "C13": {"dev": 91, "rel": 129, "asan": 19},
    "C14": {"dev": 300, "rel": 310, "asan": 44},
    "C17": {"dev": 174, "rel": 220, "relev": 220, "asan": 30},
}


def rate(prop, name):
    return RATES.get(prop, {}).get(name, RATES.get(prop, {}).get("rel", 60))


def tags_of(fail):
    return set(fail["base"]), set(fail["ctx"])


class Search:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cov = dict(cases=0, evals=0, flags={}, ops={}, worlds={}, samples=[], rule="", configs={})
        self.digests = set()
        self.nontrivial = 0
        self.suspects = []       # (exe, case text, kind, message)
        self.foreign = {}
        self.errors = []
        self.notes = []
        self.more = {}

    def search(self, jobs):
        """jobs: list of (exe, profile, seed, first, last, time cap)."""
        base = fresh(os.path.join(OUT, "run", f"{self.prop}-{os.getpid()}"))

        def one(n_job):
            n, (exe, profile, seed, a, b, cap) = n_job
            pos, res = a, []
            part = 0
            while pos < b:
                d = os.path.join(base, f"{n}-{part}")
                os.makedirs(d)
                r = exe.run(["search", profile, seed, pos, b, cap, d], cap + 120)
                res.append((exe, profile, seed, d, r))
                if r.rc == 0:
                    break
                try:
                    at = int(open(os.path.join(d, "cur")).read().split()[0])
                except Exception:
                    at = None
                if at is None or not r.crashed or part >= 3:
                    break
                pos, part = at + 1, part + 1
            return res

        with ThreadPoolExecutor(CORES) as ex:
            results = [x for l in ex.map(one, enumerate(jobs)) for x in l]
        for exe, profile, seed, d, r in results:
            self.take(exe, profile, seed, d, r)
        shutil.rmtree(base, ignore_errors=True)

    def dump(self, exe, profile, seed, idx):
        r = exe.run(["dump", profile, seed, idx], 60)
        if r.rc != 0:
            raise CheckError(f"dump failed: {r.err[-500:]}")
        return r.out

    def take(self, exe, profile, seed, d, r):
        conf = self.cov["configs"].setdefault(f"{exe.name}/{profile}", dict(cases=0))
        sp = os.path.join(d, "stats")
        if r.rc == 0 and os.path.exists(sp):
            s = json.load(open(sp))
            conf["cases"] += s["cases"]
            self.cov["cases"] += s["cases"]
            self.cov["evals"] += s["evals"]
            self.cov["rule"] = s["rule"]
            for k in ("flags", "ops", "worlds"):
                for x, n in s[k].items():
                    self.cov[k][x] = self.cov[k].get(x, 0) + n
            if len(self.cov["samples"]) < 6:
                self.cov["samples"] += s["samples"][:2]
            a = array.array("Q")
            with open(os.path.join(d, "digests"), "rb") as f:
                a.frombytes(f.read())
            self.digests.update(a)
            self.nontrivial += s["nontrivial"]
        elif r.timed_out:
            idx = open(os.path.join(d, "cur")).read().strip()
            self.errors.append(f"{exe.name}: a worker did not finish, at case {idx} of {profile} seed {seed}")
        elif r.crashed:
            idx = int(open(os.path.join(d, "cur")).read().split()[0])
            self.suspects.append((exe, self.dump(exe, profile, seed, idx), "crash", f"the process died ({r.rc}) in case {idx}: {r.err[-400:]}", (profile, seed, idx)))
        else:
            self.errors.append(f"{exe.name}: worker ended with {r.rc}: {r.err[-800:]}")
        fp = os.path.join(d, "fails")
        if os.path.exists(fp):
            for line in open(fp):
                try:
                    f = json.loads(line)
                except ValueError:
                    continue
                own = [x for x in f["fails"] if self.prop in x["base"]]
                ctx = [x for x in f["fails"] if self.prop in x["ctx"] and self.prop in CTX]
                for x in f["fails"]:
                    for t in x["base"]:
                        if t != self.prop:
                            self.foreign[t] = self.foreign.get(t, 0) + 1
                if own:
                    self.suspects.append((exe, self.dump(exe, profile, seed, f["case"]), "own", own[0]["msg"], (profile, seed, f["case"])))
                elif ctx:
                    self.suspects.append((exe, self.dump(exe, profile, seed, f["case"]), "ctx", ctx[0]["msg"], (profile, seed, f["case"])))

    # -- confirmation and shrinking ------------------------------------------------------------

    def verdict(self, exe, text, timeout=60):
        """(crashed, list of failures) of one case."""
        with tempfile.NamedTemporaryFile("w", suffix=".txt", dir=OUT, delete=False) as f:
            f.write(text)
        try:
            r = exe.run(["replay", f.name, self.prop], timeout)
        finally:
            os.unlink(f.name)
        if r.timed_out:
            return None, []
        if r.crashed:
            return True, []
        try:
            return False, json.loads(r.out.strip().splitlines()[-1]).get("fails", [])
        except (ValueError, IndexError):
            return None, []

    def holds(self, kind, v):
        crashed, fails = v
        if kind == "crash":
            return crashed is True
        if kind == "own":
            return any(self.prop in f["base"] for f in fails)
        return bool(fails) or crashed is True

    def shrink(self, exe, text, kind, budget=60):
        lines = text.strip().splitlines()
        head, ops = lines[0], lines[1:]
        end = time.time() + budget

        def bad(sub):
            return self.holds(kind, self.verdict(exe, "\n".join([head] + sub) + "\n", 30))

        # cut the tail first: failures carry their step
        v = self.verdict(exe, text)
        steps = [f["step"] for f in v[1] if kind != "own" or self.prop in f["base"]]
        if steps and bad(ops[:min(steps) + 1]):
            ops = ops[:min(steps) + 1]
        n = 2
        with ThreadPoolExecutor(CORES) as ex:
            while len(ops) > 1 and time.time() < end:
                size = max(1, (len(ops) + n - 1) // n)
                cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
                hit = None
                for c, ok in zip(cands, ex.map(bad, cands)):
                    if ok:
                        hit = c
                        break
                if hit is not None:
                    ops, n = hit, max(n - 1, 2)
                elif size == 1:
                    break
                else:
                    n = min(len(ops), n * 2)
            # smaller numbers read better
            i = 0
            while i < len(ops) and time.time() < end:
                w = ops[i].split()
                cands = []
                for j in range(1, len(w)):
                    if w[j] != "0":
                        cands.append(w[:j] + ["0"] + w[j + 1:])
                        if len(w[j]) > 2:
                            cands.append(w[:j] + [str(int(w[j]) % 64)] + w[j + 1:])
                subs = [ops[:i] + [" ".join(c)] + ops[i + 1:] for c in cands]
                hit = next((s for s, ok in zip(subs, ex.map(bad, subs)) if ok), None)
                if hit is not None and hit != ops:
                    ops = hit
                else:
                    i += 1
        return "\n".join([head] + ops) + "\n"

    def singles(self, cases):
        """Single given cases: (exe, text, time limit)."""
        if not cases:
            return

        def one(c):
            exe, text, limit = c
            with tempfile.NamedTemporaryFile("w", suffix=".txt", dir=OUT, delete=False) as f:
                f.write(text)
            try:
                return exe.run(["replay", f.name, self.prop], limit)
            finally:
                os.unlink(f.name)

        with ThreadPoolExecutor(4) as ex:
            for (exe, text, limit), r in zip(cases, ex.map(one, cases)):
                what = text.strip().replace("\n", "; ")
                if r.crashed:
                    self.suspects.append((exe, text, "crash", f"the process died ({r.rc}): {r.err[-400:]}", None))
                    continue
                try:
                    d = json.loads(r.out.strip().splitlines()[-1])
                except (ValueError, IndexError):
                    d = None
                if r.timed_out and "Big 3" in text:
                    # an addition to the search; slow is not wrong
                    self.notes.append(f"{exe.name}: {what}: not finished in {limit} s")
                    continue
                if r.timed_out or d is None or "error" in d:
                    self.errors.append(f"{exe.name}: {what}: no answer ({r.rc}) {r.err[-300:]} {d}")
                    continue
                self.cov["cases"] += 1
                self.digests.add(int(hashlib.sha1((exe.name + text).encode()).hexdigest()[:15], 16))
                self.more.setdefault("long_histories", []).append(f"{exe.name}: {what} -> {','.join(d['flags'])}")
                own = [x for x in d["fails"] if self.prop in x["base"]]
                for x in d["fails"]:
                    for t in x["base"]:
                        if t != self.prop:
                            self.foreign[t] = self.foreign.get(t, 0) + 1
                if own:
                    self.suspects.append((exe, text, "own", own[0]["msg"], None))

    def bulk(self, cases, label):
        """Many short given cases: (exe, text, items in it)."""
        def one(c):
            return self.verdict(c[0], c[1], 120)

        total = 0
        with ThreadPoolExecutor(CORES) as ex:
            for (exe, text, n), (crashed, fails) in zip(cases, ex.map(one, cases)):
                if crashed is None:
                    self.errors.append(f"{exe.name}: {label}: no answer")
                    continue
                total += n
                self.cov["cases"] += 1
                self.digests.add(int(hashlib.sha1((exe.name + text).encode()).hexdigest()[:15], 16))
                if crashed:
                    self.suspects.append((exe, text, "crash", "the process died", None))
                elif any(self.prop in f["base"] for f in fails):
                    self.suspects.append((exe, text, "own", fails[0]["msg"], None))
        self.more[label] = total

    def range_bad(self, exe, kind, origin, first):
        """Does running cases first..=idx in one process still fail at idx?"""
        profile, seed, idx = origin
        d = tempfile.mkdtemp(dir=OUT)
        try:
            r = exe.run(["search", profile, seed, first, idx + 1, 60, d], 120)
            if r.crashed:
                return True
            if kind == "crash" or r.rc != 0:
                return False
            for line in open(os.path.join(d, "fails")):
                f = json.loads(line)
                if f["case"] == idx and any(self.prop in x["base"] or self.prop in x["ctx"] for x in f["fails"]):
                    return True
            return False
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def save(self, exe, body, what, suffix="txt"):
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        name = hashlib.sha1((exe.name + body).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{self.prop}-{exe.name}-{name}.{suffix}")
        with open(path, "w") as f:
            f.write(f"# property {self.prop}; configuration {exe.name}; world seed {exe.seed}; random {exe.random}; only {exe.only or '-'}\n")
            f.write(f"# replay with: python3 bin/check.py {self.prop} replay {path}\n")
            f.write("".join(f"# {l}\n" for l in what.splitlines()))
            f.write(body)
        return path

    def confirm(self):
        """Returns the replay path of a confirmed, minimized violation, or None."""
        order = {"own": 0, "crash": 1, "ctx": 2}
        todo = sorted(self.suspects, key=lambda s: (order[s[2]], s[0].asan))[:8]
        unrep = []
        for exe, text, kind, msg, origin in todo:
            if not self.holds(kind, self.verdict(exe, text)):
                unrep.append((exe, text, kind, msg, origin))
                continue
            small = self.shrink(exe, text, kind)
            crashed, fails = self.verdict(exe, small)
            if not self.holds(kind, (crashed, fails)):
                small = text
                crashed, fails = self.verdict(exe, small)
            if kind == "ctx" and not crashed and not any(self.prop in f["ctx"] or self.prop in f["base"] for f in fails):
                self.foreign["elsewhere"] = self.foreign.get("elsewhere", 0) + 1
                continue
            what = "the process dies (memory error or abort)" if crashed else "; ".join(
                f["msg"] for f in fails if kind != "own" or self.prop in f["base"])[:1500]
            return self.save(exe, small, what), what
        # a failure that needs the cases before it (memory corrupted earlier, say)
        for exe, text, kind, msg, origin in unrep[:4]:
            if kind == "ctx" or origin is None:
                continue
            for back in (0, 8, 64, 512):
                first = max(0, origin[2] - back)
                if self.range_bad(exe, kind, origin, first) and self.range_bad(exe, kind, origin, first):
                    what = f"in a run of cases {first}..={origin[2]}: {msg}"
                    return self.save(exe, f"range {origin[0]} {origin[1]} {first} {origin[2]} {kind}\n", what), what
        for exe, _, kind, msg, _ in unrep:
            self.errors.append(f"{exe.name}: not reproduced: {msg[:300]}")
        return None
