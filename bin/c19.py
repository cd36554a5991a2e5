"""C19: crate features and build profiles change nothing but what they document.

The same generated histories and programs run in all 8 feature sets, with debug assertions on and off; what
they observe must be equal everywhere (with wrapping_version, equal among the configurations that have it
once a generation counter has reached its end)."""
from progs import *
import m1, world as wd, c05

FEATS = {"events": "events", "c32": "32_components", "wrap": "wrapping_version"}
SETS = [[f for j, f in enumerate(FEATS) if i >> j & 1] for i in range(8)]
CONFIGS = [(("dev" if prof == "dev" else "rel") + "".join("-" + f for f in s), prof, s) for s in SETS for prof in ("dev", "release")]
N = {"quick": dict(C19=1100, C19w=500, C19s=24, each=48, wide=300, progs=8), "thorough": dict(C19=60000, C19w=24000, C19s=1500, each=4000, wide=9000, progs=160)}
# the histories of the other properties: only the verdict must be the same everywhere
OTHERS = ["C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17"]
RULE = ("One case is one generated history run in every one of the 16 configurations (8 feature sets, debug assertions on and off), with a digest over everything it "
        "observes and the model's verdict compared between configurations; or one generated world with its queries compiled and run in all of them, outputs compared; "
        "or one declaration with a component count around the limit of 16 or 32. Distinct by text; non-trivial when entities were created, destroyed and read back, "
        "when a generation counter reached its end (histories with preset counters), when the program has queries, or when the count is next to a limit.")
ASSUME = ["The instrumented components, the checking allocator and the reference model in /verif/harness are right.",
          "Bounded search over histories and programs; optimization levels differ together with debug assertions.",
          "rustc, std and the x86-64 target behave as documented."]


class State:
    def __init__(self):
        self.fails = []      # (message, replay body)
        self.errors = []
        self.cov = {}


def vdict(prof, feats, asan=False):
    return dict(profile=prof, feats=list(feats) + (["sysalloc"] if asan else []), asan=asan)


def build_everything(st, tier):
    only, rnd = ("Basic,Layouts,Tiny", 1) if tier == "quick" else ("Basic,Layouts,Heap,Single,Tiny", 4)
    jobs = []
    for name, prof, feats in CONFIGS:
        jobs.append(("exe", name, (f"q19{name}", vdict(prof, feats), dict(seed=SEED, random=rnd, only=only, jobs=2))))
    for name, prof, feats in CONFIGS:
        if "c32" in feats and ("events" in feats) == (prof == "dev") and "wrap" not in feats:
            jobs.append(("wide", name, (f"q19w{name}", vdict(prof, feats), dict(seed=SEED, random=0, only="Wide", jobs=2))))
    if tier == "thorough":
        jobs.append(("asan", "asan-wrap", ("q19asan", vdict("release", ["wrap", "events"], True), dict(seed=SEED, random=rnd, only=only, jobs=2))))
    for name, prof, feats in CONFIGS:
        jobs.append(("lib", name, ([FEATS[f] for f in feats], prof == "release")))

    def one(j):
        kind, name, a = j
        try:
            return build_lib(*a) if kind == "lib" else m1.build(a[0], a[1], **a[2])
        except CheckError as e:
            return e

    with ThreadPoolExecutor(CORES - 1) as ex:
        res = list(ex.map(one, jobs))
    exes, wides, libs, asan = {}, {}, {}, None
    for (kind, name, _), x in zip(jobs, res):
        if kind == "asan":
            asan = None if isinstance(x, CheckError) else x
            continue
        {"exe": exes, "wide": wides, "lib": libs}[kind][name] = x
    good = [n for n, x in libs.items() if not isinstance(x, CheckError)]
    for n, x in libs.items():
        if isinstance(x, CheckError):
            if good and re.search(r"error(\[E\d+\])?:", str(x)) and "could not compile" in str(x) + "could not compile":
                st.fails.append((f"gecs builds as {good[0]} but not as {n}: {str(x)[:700]}", {"kind": "lib", "config": n}))
            else:
                st.errors.append(f"{n}: {x}")
    for d in (exes, wides):
        ok = [n for n, x in d.items() if not isinstance(x, CheckError)]
        for n, x in d.items():
            if isinstance(x, CheckError):
                st.errors.append(f"{n}: {str(x)[:1500]}")
        drops = {n: tuple(d[n].dropped) for n in ok}
        if len(set(drops.values())) > 1:
            # the set of worlds must be the same everywhere for the histories to be
            st.errors.append(f"worlds compile in some configurations only: {drops}")
        for n in list(d):
            if n not in ok:
                del d[n]
    return exes, wides, {n: libs[n] for n in good}, asan


# -- histories ---------------------------------------------------------------------------------------

def digests(exe, profile, seed, a, b, cap):
    """{index: (digest, number of failures, non-trivial)}; a crash is the digest "crash"."""
    out, pos, crashes = {}, a, 0
    while pos < b and crashes < 4:
        r = exe.run(["digests", profile, seed, pos, b], cap)
        last = pos - 1
        for line in r.out.splitlines():
            w = line.split()
            if len(w) == 4:
                out[int(w[0])] = (w[1], int(w[2]), int(w[3]))
                last = int(w[0])
        if r.rc == 0:
            break
        if not r.crashed:
            raise CheckError(f"{exe.name}: digests ended with {'its time' if r.timed_out else r.rc}: {r.err[-500:]}")
        crashes += 1
        out[last + 1] = ("crash", 1, 1)
        pos = last + 2
    return out


def collect(exes, profile, n, cap):
    first = {"C19": 5_000_000, "C19w": 6_000_000, "C02": 7_000_000, "C19s": 9_000_000}.get(profile, 8_000_000)
    step = max(1, (n + 3) // 4)
    jobs = [(name, a, min(a + step, first + n)) for name in exes for a in range(first, first + n, step)]
    jobs.sort(key=lambda j: j[1])
    res = {name: {} for name in exes}
    with ThreadPoolExecutor(CORES) as ex:
        for (name, _, _), d in zip(jobs, ex.map(lambda j: digests(exes[j[0]], profile, SEED, j[1], j[2], cap), jobs)):
            res[name].update(d)
    return res


def observe(exe, text, limit=60):
    """What one configuration makes of one case: (digest or "crash", [messages])."""
    with tempfile.NamedTemporaryFile("w", suffix=".txt", dir=OUT, delete=False) as f:
        f.write(text)
    try:
        r = exe.run(["replay", f.name], limit)
    finally:
        os.unlink(f.name)
    if r.timed_out:
        return None
    if r.crashed:
        return "crash", [f"the process died ({r.rc})"]
    try:
        j = json.loads(r.out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None
    if "error" in j:
        return None
    return j["digest"], [x["msg"] for x in j["fails"]]


def differ(x, y, same_rules):
    """Do two configurations disagree on a case? With and without wrapping only the model's verdict is compared."""
    if x is None or y is None:
        return False
    return bool(x[1]) != bool(y[1]) or (same_rules and x[0] != y[0])


def shrink_pair(e1, e2, text, same_rules, budget):
    lines = text.strip().splitlines()
    head, ops = lines[0], lines[1:]
    end = time.time() + budget

    def bad(sub):
        t = "\n".join([head] + sub) + "\n"
        return differ(observe(e1, t), observe(e2, t), same_rules)

    n = 2
    with ThreadPoolExecutor(CORES) as ex:
        while len(ops) > 1 and time.time() < end:
            size = max(1, (len(ops) + n - 1) // n)
            cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            hit = next((c for c, ok in zip(cands, ex.map(bad, cands)) if ok), None)
            if hit is not None:
                ops, n = hit, max(n - 1, 2)
            elif size == 1:
                break
            else:
                n = min(len(ops), n * 2)
    return "\n".join([head] + ops) + "\n"


def suspects(st, exes, profile, res, same_rules_of):
    """Cases on which configurations disagree, confirmed and shrunk."""
    names = list(exes)
    idx = sorted(set.union(*[set(d) for d in res.values()]) if res else ())
    found, foreign, tried = 0, 0, 0
    for i in idx:
        obs = {n: res[n].get(i) for n in names if i in res[n]}
        verdicts = {o[1] > 0 for o in obs.values()}
        groups = {}
        for n, o in obs.items():
            groups.setdefault(same_rules_of(n), set()).add(o[0])
        if len(verdicts) == 1 and True in verdicts:
            foreign += 1
        if len(verdicts) == 1 and all(len(g) == 1 for g in groups.values()):
            continue
        if found >= 2 or tried >= 6:
            continue
        tried += 1
        ns = list(obs)
        pair = next(((a, b) for a in ns for b in ns if a < b and differ(
            (obs[a][0], ["x"] * obs[a][1]), (obs[b][0], ["x"] * obs[b][1]), same_rules_of(a) == same_rules_of(b))), None)
        if not pair:
            continue
        a, b = pair
        text = exes[a].run(["dump", profile, SEED, i], 60).out
        same = same_rules_of(a) == same_rules_of(b)
        if not differ(observe(exes[a], text), observe(exes[b], text), same):
            st.errors.append(f"case {i} of {profile}: {a} and {b} disagree, not reproduced alone: {obs[a]} {obs[b]}")
            continue
        found += 1
        text = shrink_pair(exes[a], exes[b], text, same, 40)
        x, y = observe(exes[a], text), observe(exes[b], text)
        st.fails.append((f"the same history gives different results as {a} ({x[0]} {x[1][:2]}) and as {b} ({y[0]} {y[1][:2]})",
                         {"kind": "history", "configs": [a, b], "same": same, "case": text.splitlines(), "worlds": [exes[a].seed, exes[a].random, exes[a].only]}))
    return foreign


def limits(st, tier, exes, cap):
    """Archetypes filled to 2^24 entities, and positions reused 2^17 times and more, per configuration."""
    rel = [n for n in exes if n.startswith("rel")]
    if tier == "quick":
        todo = [("rel", 2), ("rel-c32", 3), ("rel-events-c32-wrap", 5)]
        todo = [(n, f"Big 0 {i} {x} {SEED * 31 + i} 0 0") for i, (n, x) in enumerate(todo)] + [(n, f"Big {1 + i % 2} {i} {17 + i % 4} {SEED + i} 0 0") for i, n in enumerate(exes)]
    else:
        todo = [(n, f"Big 0 {i} {x} {SEED * 31 + i} 0 0") for i, n in enumerate(rel) for x in (0, 2, 3, 5)] + [(n, f"Big {1 + i % 2} {i} {b} {SEED + i} 0 0") for i, n in enumerate(exes) for b in (17, 20, 24)]
    todo = [(n, "world Tiny\n" + t + "\n") for n, t in todo if n in exes]
    with ThreadPoolExecutor(4) as ex:
        got = list(ex.map(lambda j: observe(exes[j[0]], j[1], cap), todo))
    ok = {}
    for (n, t), o in zip(todo, got):
        if o is None:
            st.errors.append(f"{n}: {t.split(chr(10))[1]}: no answer")
        else:
            ok.setdefault((n, not o[1]), []).append((n, t, o))
    st.cov["limits"] = {"long_histories": len(todo)}
    for (kind, fine), runs in ok.items():
        if fine:
            continue
        for n, t, o in runs[:1]:
            # the same history must hold where no feature is on
            base = "rel" if "rel" in exes else next(iter(exes))
            if n != base:
                b = observe(exes[base], t, cap)
                if b and b[1]:
                    st.cov["limits"]["fails_without_features_too"] = str(b[1][:1])
                    continue
                st.fails.append((f"as {n}: {o[1][:2]}", {"kind": "history", "configs": [base, n], "same": False, "case": t.splitlines(), "worlds": [exes[n].seed, exes[n].random, exes[n].only]}))
    return len(todo)


# -- programs ----------------------------------------------------------------------------------------

def prog_spec(rng, i):
    while True:
        s = c05.gen(rng, i, "quick")
        s["neg"] = []
        s["queries"] = s["queries"][:4]
        return s


def big_spec(rng, n, m):
    """Archetypes with n and m components."""
    names = [f"Many{chr(97 + k // 26)}{chr(97 + k % 26)}" for k in range(max(n, m) + 3)]
    archs = [{"name": "Foos", "comps": [{"n": c} for c in rng.sample(names, n)], "ents": 2}, {"name": "Bars", "comps": [{"n": c} for c in rng.sample(names, m)], "ents": 1},
             {"name": "Zed", "comps": [{"n": c} for c in rng.sample(names, 3)], "ents": 2}]
    rng.shuffle(archs)
    spec = {"name": None, "archs": archs, "queries": [], "neg": []}
    while len(spec["queries"]) < 3:
        ps = wd.gen_params(rng, spec)
        if wd.verdict(spec, ps)[0] == "ok" and not wd.clashes(spec, ps):
            spec["queries"].append({"params": ps, "world": 0})
    return spec


def outputs(sc, libs, spec, names):
    """{config: (exit code, sections) or ("rejected", message) or None}"""
    src = wd.program(spec)

    def one(n):
        c = sc.rustc(libs[n], src, opt=n.startswith("rel"))
        if c.ok is None:
            return None
        if not c.ok:
            return "rejected", brief(c.err)
        x = sc.execute(c)
        return None if x.timed_out else (x.rc, wd.parse_out(x.out))

    with ThreadPoolExecutor(CORES) as ex:
        return dict(zip(names, ex.map(one, names)))


def compare_outputs(out):
    """A message when configurations disagree."""
    have = {n: o for n, o in out.items() if o is not None}
    if len(have) < 2:
        return None
    ref = next(iter(have))
    for n, o in have.items():
        if o[0] != have[ref][0]:
            return f"{ref}: {str(have[ref])[:300]}; {n}: {str(o)[:500]}"
        if o[0] != "rejected" and o[1] != have[ref][1]:
            return f"{ref} and {n} print different things: {diff(have[ref][1], o[1])}"
    return None


def programs(st, tier, libs, sc):
    names = sorted(libs)
    n_prog, specs = N[tier]["progs"], []
    rng = random.Random(SEED * 7919 + 19)
    for i in range(n_prog):
        specs.append(("any", prog_spec(rng, i), names))
    c32 = [n for n in names if "c32" in n]
    for i in range(2 if tier == "quick" else 24):
        pair = [(17, 32), (16, 31), (18, 25), (24, 20)][i % 4] if i < 4 else (rng.randint(17, 32), rng.randint(15, 32))
        specs.append(("wide", big_spec(rng, *pair), c32))
    cases, nontriv = [], set()
    for kind, spec, where in specs:
        if st.fails:
            break
        out = outputs(sc, libs, spec, where)
        missing = [n for n, o in out.items() if o is None]
        if missing:
            st.errors.append(f"no answer from a program in {missing}")
        msg = compare_outputs(out)
        if msg is None and kind == "wide":
            o = next((o for o in out.values() if o), None)
            if o and o[0] == "rejected":
                msg = "archetypes of up to 32 components are rejected with 32_components: " + o[1]
            elif o:
                d = diff(wd.expected(spec), o[1])
                msg = f"archetypes of 17 to 32 components: {d}" if d else None
        if msg:
            st.fails.append((msg, {"kind": "program", "spec": spec, "configs": where, "wide": kind == "wide"}))
        t = wd.decl(spec, False) + str(spec["queries"])
        cases.append(t)
        nontriv.add(t)
    # the limit on components
    counts = [(n, m) for n in (1, 15, 16, 17, 18, 24, 31, 32, 33, 34) for m in ((2,) if tier == "quick" else (1, 2, 16))]

    def limit(job):
        n, m, where = job
        spec = big_spec(random.Random(n * 100 + m), n, m)
        spec["queries"] = []
        c = sc.rustc(libs[where], wd.PRELUDE + "".join(f"pub struct {x}(pub u64);\n" for x in wd.tags(spec)) + wd.decl(spec, True) + "\n", emit="metadata")
        return c.ok, (c.err or "")

    jobs = [(n, m, w) for n, m in counts for w in names if tier == "thorough" or w.startswith("dev") or (n in (16, 17, 32, 33))]
    with ThreadPoolExecutor(CORES) as ex:
        for (n, m, w), (ok, err) in zip(jobs, ex.map(limit, jobs)):
            want = n <= (32 if "c32" in w else 16)
            cases.append(f"{n} {m} {w}")
            nontriv.add(f"{n} {m} {w}")
            if ok is None:
                st.errors.append(f"{n} components as {w}: no answer")
            elif ok != want:
                st.fails.append((f"an archetype of {n} components is {'accepted' if ok else 'rejected'} as {w}: {brief(err, 400)}", {"kind": "limit", "n": n, "m": m, "config": w}))
    st.cov["programs"] = {"compiled_and_run_in_all_configurations": len(specs), "component_counts_compiled": len(jobs)}
    return cases, nontriv


# -- entry -------------------------------------------------------------------------------------------

def save(msg, body):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(body, sort_keys=True)
    path = os.path.join(d, f"C19-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        json.dump({"property": "C19", "what": msg, "replay_with": f"python3 bin/check.py C19 replay {path}", **body}, f, indent=1)
    return path


def paced(st, tier, profile, count):
    """How many histories to run: all of them, unless a slow machine has already used up the time of a quick run."""
    late = time.time() - START
    if tier != "quick" or late < 400:
        return count
    count = count // 5 if late < 540 else 0
    st.cov.setdefault("cut_short_for_time", []).append(f"{profile}: {count} histories, {late:.0f} s into the run")
    return count


def main(tier, args):
    if tier == "replay":
        return replay(args[0])
    st = State()
    exes, wides, libs, asan = build_everything(st, tier)
    log("built", len(exes), "engines,", len(wides), "wide,", len(libs), "libraries;", len(st.fails), "failures", st.errors[:1])
    if len(exes) < 2 or len(libs) < 2:
        for e in st.errors:
            log("ERROR", e)
        if not st.fails:
            return 2
    n = N[tier]
    cap = 300 if tier == "quick" else 5000
    wraps = lambda x: "wrap" in x
    cases, nontriv, foreign, samples = 0, 0, {}, []
    distinct = 0
    if not st.fails:
        own = lambda x: x
        for profile, group in [("C19", lambda x: True), ("C19s", lambda x: True), ("C19w", wraps)] + [(p, own) for p in OTHERS]:
            if st.fails:
                break
            hook = all(e.hook for e in exes.values())
            if profile == "C19w" and not hook:
                st.cov.setdefault("notes", []).append("without the hook no counter can be preset: no histories at the end of the generation counters")
                continue
            count = paced(st, tier, profile, n.get(profile, n["each"]))
            if not count:
                continue
            res = collect(exes, profile, count, cap)
            foreign[profile] = suspects(st, exes, profile, res, group)
            ref = res[next(iter(exes))]
            cases += len(ref)
            distinct += len({d[0] for d in ref.values()})
            # a history whose counters end differs by configuration, so any of them may have reached the end
            nontriv += len({ref[i][0] for i in ref if any(res[x].get(i, (0, 0, 0))[2] for x in exes)})
            st.cov[profile] = {"histories": len(ref), "configurations": sorted(exes), "fail_everywhere_and_so_are_not_about_configurations": foreign[profile],
                               "different_with_and_without_wrapping": sum(1 for i in ref if len({res[x][i][0] for x in exes if i in res[x]}) > 1)}
            for i in list(ref)[:2]:
                if exes:
                    e = next(iter(exes.values()))
                    t = e.run(["dump", profile, SEED, i], 30).out.splitlines()
                    samples.append(f"{profile} history {i}, {len(exes)} configurations, digest {ref[i][0]}: {t[0]}; " + " ".join(x.split()[0] for x in t[1:18]))
            log(profile, len(ref), "histories in", len(exes), "configurations;", len(st.fails), "failures")
        base_ok = not foreign.get("C19")
        if not st.fails:
            cases += limits(st, tier, exes, cap)
            log("limits;", len(st.fails), "failures")
        for profile in ("C19", "C02", "C04"):
            if not wides or st.fails:
                break
            count = paced(st, tier, "wide " + profile, n["wide"])
            if not count:
                continue
            res = collect(wides, profile, count, cap)
            f = suspects(st, wides, profile, res, lambda x: True)
            ref = res[next(iter(wides))]
            cases += len(ref)
            nontriv += sum(1 for v in ref.values() if v[2])
            if f and base_ok and not st.fails:
                i = next(i for i in sorted(ref) if ref[i][1])
                a = next(iter(wides))
                text = wides[a].run(["dump", profile, SEED, i], 60).out
                o = observe(wides[a], text)
                if o and o[1]:
                    st.fails.append((f"archetypes of 17 to 32 components fail where smaller ones do not: {o[1][:2]}",
                                     {"kind": "history", "configs": [a], "case": text.splitlines(), "worlds": [wides[a].seed, wides[a].random, "Wide"], "wide": True}))
            st.cov["wide_" + profile] = len(ref)
        log("wide worlds", len(st.fails), "failures")
        if asan and not st.fails:
            res = collect({"asan-wrap": asan}, "C19w", n["C19w"] // 8, cap)["asan-wrap"]
            st.cov["C19w_with_address_sanitizer"] = len(res)
            for i, v in res.items():
                if v[0] == "crash" or v[1]:
                    text = asan.run(["dump", "C19w", SEED, i], 60).out
                    o = observe(asan, text)
                    if o and o[1]:
                        st.fails.append((f"with wrapping_version under AddressSanitizer: {o[1][:2]}", {"kind": "history", "configs": ["asan-wrap"], "case": text.splitlines(), "worlds": [asan.seed, asan.random, asan.only]}))
                        break
    pc, pn = [], set()
    if libs and not st.fails:
        sc = Scratch("C19")
        try:
            pc, pn = programs(st, tier, libs, sc)
        finally:
            sc.close()
    log("programs", len(pc))
    if tier == "thorough" and not st.fails:
        for n_ in ("rel-wrap", "rel-events-wrap"):
            if n_ in exes:
                t = f"world {'Tiny'}\nBig 1 0 33 {SEED} 0 0\n"
                o = exes[n_].run(["info"], 10) and observe_long(exes[n_], t)
                st.cov.setdefault("real_wraparound_without_hook", []).append(f"{n_}: {o}")
                if o and o[1]:
                    st.fails.append((f"2^33 reuses of one position: {o[1][:2]}", {"kind": "history", "configs": [n_], "case": t.splitlines(), "worlds": [exes[n_].seed, exes[n_].random, exes[n_].only]}))
    cov = {"evaluations": cases + len(pc), "distinct_nontrivial": nontriv + len(pn), "rule": RULE,
           "samples": samples or ["none"], "executions_of_histories": sum(v["histories"] * len(v["configurations"]) for v in st.cov.values() if isinstance(v, dict) and "histories" in v),
           "by_part": st.cov, "notes": st.errors[:10]}
    hit = None
    if st.fails:
        msg, body = st.fails[0]
        hit = save(msg, body)
    write_evidence("C19", tier, "exploration", cov, 1 if hit else 0, ASSUME)
    if hit:
        violation("C19", hit, st.fails[0][0])
        return 1
    if st.errors:
        for e in st.errors[:10]:
            log("ERROR", e)
        return 2
    print(f"OK property=C19 cases={cov['evaluations']} nontrivial={cov['distinct_nontrivial']} executions={cov['executions_of_histories']} wall={time.time() - START:.0f}s")
    return 0


def observe_long(exe, text):
    with tempfile.NamedTemporaryFile("w", suffix=".txt", dir=OUT, delete=False) as f:
        f.write(text)
    try:
        r = exe.run(["replay", f.name], 3000)
    finally:
        os.unlink(f.name)
    if r.crashed:
        return "crash", ["the process died"]
    try:
        j = json.loads(r.out.strip().splitlines()[-1])
        return j["digest"], [x["msg"] for x in j["fails"]]
    except (ValueError, IndexError, KeyError):
        return None


def config(name):
    return next(c for c in CONFIGS if c[0] == name)


def replay(path):
    b = json.load(open(path))
    bad = []
    if b["kind"] == "history":
        seed, rnd, only = b["worlds"]
        text = "\n".join(b["case"]) + "\n"
        obs = []
        for n in b["configs"]:
            v = vdict("release", ["wrap", "events"], True) if n == "asan-wrap" else vdict(*config(n)[1:])
            tag = "q19asan" if n == "asan-wrap" else ("q19w" if only == "Wide" else "q19") + n
            obs.append(observe(m1.build(tag, v, seed, random=rnd, only=only), text, 600))
            print(" ", n, obs[-1])
        if None in obs:
            return 2
        bad = (len(obs) == 1 and obs[0][1]) or (len(obs) == 2 and differ(obs[0], obs[1], b["same"]))
    elif b["kind"] == "lib":
        _, prof, feats = config(b["config"])
        try:
            build_lib([FEATS[f] for f in feats], prof == "release")
        except CheckError as e:
            bad = [str(e)]
    else:
        sc = Scratch("C19")
        try:
            names = b["configs"] if b["kind"] == "program" else [b["config"]]
            libs = {n: build_lib([FEATS[f] for f in config(n)[2]], config(n)[1] == "release") for n in names}
            if b["kind"] == "limit":
                spec = big_spec(random.Random(b["n"] * 100 + b["m"]), b["n"], b["m"])
                spec["queries"] = []
                n = names[0]
                c = sc.rustc(libs[n], wd.PRELUDE + "".join(f"pub struct {x}(pub u64);\n" for x in wd.tags(spec)) + wd.decl(spec, True) + "\n", emit="metadata")
                bad = c.ok is not None and c.ok != (b["n"] <= (32 if "c32" in n else 16))
            else:
                out = outputs(sc, libs, b["spec"], names)
                bad = compare_outputs(out)
                o = next((o for o in out.values() if o), None)
                if not bad and b.get("wide") and o:
                    bad = o[0] == "rejected" or diff(wd.expected(b["spec"]), o[1])
                print(" ", bad)
        finally:
            sc.close()
    if bad:
        violation("C19", path, b["what"])
        return 1
    print("OK: does not reproduce")
    return 0
