#!/usr/bin/env python3
"""check.py Cxx quick|thorough      decide one property on /repo's working tree
check.py Cxx replay FILE          run one replay file again

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: no answer (a build failed, a worker did not finish, ...)."""
import atexit, traceback
from common import *
import m1

LEVEL = {"C10": "fault_enumeration"}
M1 = {"C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17"}

# cases per second of one worker on the unchanged tree (dev, release), measured; sets the fixed amount of work
RATE = {}
# about how long the random search runs on an idle machine, and when it is cut off
QUICK_SECS, CAP = 32, 200


def cleanup():
    shutil.rmtree(os.path.join(OUT, "bin", str(os.getpid())), ignore_errors=True)


def single(world, *ops):
    return f"world {world}\n" + "".join(o + "\n" for o in ops)


def extra_cases(prop, tier, exes):
    """Histories too long for the random search, as (exe, case text, time limit)."""
    out = []
    rel = [e for e in exes if e.name.startswith("rel")]
    if prop == "C12":
        starts = [0, 2, 3, 4, 5, 7]
        for i, s in enumerate(starts if tier == "quick" else list(range(8)) * 4):
            w = ["Tiny", "Single", "Tiny"][i % 3]
            out.append((rel[0], single(w, f"Big 0 {i} {s} {SEED * 100 + i} 0 0"), 120))
        if tier == "thorough":
            dev = [e for e in exes if e.name == "dev"]
            for s in range(8):
                out.append((dev[0], single(["Single", "Tiny"][s % 2], f"Big 0 {s} {s} {SEED * 77 + s} 0 0"), 600))
    if prop == "C01":
        for i, bits in enumerate([9, 17, 18, 22, 24] if tier == "quick" else [9, 17, 18, 24, 25, 26]):
            out.append((rel[i % len(rel)], single(["Tiny", "Single"][i % 2], f"Big 1 {i} {bits} {SEED + i} 0 0"), 120))
    if prop == "C09":
        for i, bits in enumerate([9, 17, 22, 24] if tier == "quick" else [9, 17, 22, 24, 25, 25]):
            out.append((rel[i % len(rel)], single(["Tiny", "Single"][i % 2], f"Big 2 {i} {bits} {SEED + i} 0 0"), 120))
    if prop == "C08":
        for i, bits in enumerate([24, 24] if tier == "quick" else [26, 27, 28, 33]):
            out.append((rel[0], single(["Tiny", "Single"][i % 2], f"Big 1 {i} {bits} {SEED + i} 0 0"), 120 if bits < 30 else 3000))
    # hundreds of thousands of entities and more, in small and in large archetypes
    if prop in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C12", "C13", "C17"):
        worlds = ["Single", "Basic", "Tiny", "Heap", "Layouts", "Many"]
        sizes = [66_000, 1_100_000, 131_100, 262_200, 100_000, 33_000, 2_200_000, 524_300]
        for i in range(8 if tier == "quick" else 96):
            k = int(prop[1:]) + i + SEED * 5
            w, n = worlds[i % 6], sizes[i % 8]
            if tier != "quick" and i % 8 == 6 and w in ("Single", "Tiny"):
                n = 9_000_000
            if w in ("Many", "Heap"):
                n = min(n, 300_000)
            out.append((rel[i % len(rel)], single(w, f"Big 3 {k} {n + k * 37 % 1000} {k * 1009 + i} 0 0"), 120))
        for i, e in enumerate([e for e in exes if not e.name.startswith("rel")]):
            out.append((e, single(worlds[(int(prop[1:]) + i) % 4], f"Big 3 {i} {66_000 + i} {SEED * 3 + i} 0 0"), 200))
    if prop in ("C01", "C02", "C06", "C08"):
        out.append((rel[0], single(["Tiny", "Single"][int(prop[1:]) % 2], f"Big 0 {SEED} {SEED + 3} {SEED} 0 0"), 120))
    return out


def run_m1(prop, tier):
    quick = tier == "quick"
    rand = 2 if quick else 6
    names = ["dev", "relev" if prop == "C17" else "rel"]
    if prop in ("C03", "C04", "C10"):
        names.append("asan")
    if not quick:
        names += ["relev" if prop != "C17" else "rel"] if prop not in ("C17",) else []
        names += [n for n in ("asan",) if n not in names]
    specs = [(n, m1.VARIANTS[n], dict(seed=SEED, random=rand)) for n in names]
    exes = m1.build_all(specs, optional=("asan",))
    have = [e for e in exes if e]
    log("built", [e.name for e in have])
    s = m1.Search(prop, tier)
    s.notes = [f"{n} could not be built and was left out" for n, e in zip(names, exes) if e is None]
    for e in have:
        if not e.hook:
            s.notes.append(f"{e.name}: built without the hook; generation counters cannot be preset")
        if e.dropped:
            s.notes.append(f"{e.name}: worlds left out because they do not compile: {e.dropped}")
    secs = QUICK_SECS if quick else 420
    cap = CAP if quick else secs * 3
    jobs = []
    for e in have:
        workers = {2: 4, 3: 3, 4: 2}[len(have)]
        if e.asan:
            workers = 2
        rate = m1.rate(prop, e.name)
        per = max(20, int(rate * secs))
        for w in range(workers):
            first = (w + 1) * 10_000_000 + {"dev": 0, "rel": 1, "relev": 2, "asan": 3}[e.name] * 1_000_000_000
            jobs.append((e, prop, SEED, first, first + per, cap))
    # histories with thousands of entities, as a second set of jobs; about 0.1 s each
    large = []
    for e in have if prop != "C11" else []:
        for w in range(1 if e.asan else 4 if len(have) == 2 else 3):
            first = 500_000_000 + w * 1_000_000 + {"dev": 0, "rel": 1, "relev": 2, "asan": 3}[e.name] * 100_000_000
            large.append((e, prop + "s", SEED, first, first + (8 if e.asan else 40) * (1 if quick else 30), cap))
    jobs.sort(key=lambda j: -j[4])
    jobs += large
    s.search(jobs)
    log("searched", s.cov["cases"], "cases;", len(s.suspects), "suspects;", s.foreign)
    s.singles(extra_cases(prop, tier, have))
    if prop == "C11":
        s.bulk(m1.nest_matrix(have, tier), "ordered_pairs_of_borrowed_accesses_enumerated")
    return s, have


def finish(prop, tier, s, have):
    hit = s.confirm()
    known = [k for k in known_findings(prop)]
    cov = s.cov
    coverage = {
        "evaluations": cov["cases"],
        "distinct_nontrivial": len(s.digests),
        "rule": "One case is one generated history of operations, run on the real library and on the reference model with comparison "
                "after each operation. Distinct by its text; non-trivial when: " + cov["rule"],
        "samples": cov["samples"][:6],
        "single_comparisons_against_the_model": cov["evals"],
        "cases_by_configuration": {k: v["cases"] for k, v in cov["configs"].items()},
        "cases_by_world": cov["worlds"],
        "operations_generated": cov["ops"],
        "cases_reaching": cov["flags"],
        "failures_of_other_properties_seen": s.foreign,
        "notes": s.notes + s.errors,
    }
    for k, v in getattr(s, "more", {}).items():
        coverage[k] = v
    write_evidence(prop, tier, LEVEL.get(prop, "exploration"), coverage, 1 if hit else 0, ASSUME)
    if hit:
        violation(prop, hit[0], hit[1])
        return 1
    if s.errors:
        for e in s.errors:
            log("ERROR", e)
        return 2
    if cov["cases"] == 0:
        log("ERROR nothing was run")
        return 2
    print(f"OK property={prop} cases={cov['cases']} nontrivial={len(s.digests)} comparisons={cov['evals']} wall={time.time() - START:.0f}s")
    return 0


ASSUME = [
    "The instrumented component types, the checking allocator and the reference model in /verif/harness are right.",
    "Bounded search: what no generated case reaches is not decided.",
    "rustc, std and the x86-64 target behave as documented.",
]


def replay_m1(prop, path):
    text = open(path).read()
    m = re.search(r"configuration (\S+); world seed (\d+); random (\d+); only (\S+)", text)
    name, seed, rand, only = (m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)) if m else ("dev", SEED, 2, "-")
    exe = m1.build(name, m1.VARIANTS[name], seed, random=rand, only="" if only == "-" else only)
    s = m1.Search(prop, "quick")
    body = "".join(l for l in text.splitlines(True) if not l.startswith("#"))
    if body.startswith("range "):
        w = body.split()
        bad = s.range_bad(exe, w[5], (w[1], int(w[2]), int(w[4])), int(w[3]))
        crashed, fails = bad, []
    else:
        crashed, fails = s.verdict(exe, body, 3600)
        bad = crashed is True or any(prop in f["base"] or prop in f["ctx"] for f in fails)
        if crashed is None:
            log("no verdict")
            return 2
    for f in fails:
        print(f"  step {f['step']} {f['base']} (context {f['ctx']}): {f['msg']}")
    if crashed:
        print("  the process died")
    if bad:
        violation(prop, path)
        return 1
    print("OK: does not reproduce")
    return 0


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    os.makedirs(OUT, exist_ok=True)
    atexit.register(cleanup)
    try:
        if prop in M1:
            if tier == "replay":
                return replay_m1(prop, sys.argv[3])
            s, have = run_m1(prop, tier)
            return finish(prop, tier, s, have)
        if prop == "C19":
            import c19
            return c19.main(tier, sys.argv[3:])
        import progs
        return progs.main(prop, tier, sys.argv[3:])
    except CheckError as e:
        log("ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
