"""C05: queries act on exactly the archetypes whose component set satisfies them."""
from progs import *
from world import *

SPECS = {"quick": 56, "thorough": 1600}
RULE = ("One case is one query (a parameter list) with one of the five macros over one generated world, compiled and run on a world "
        "with live entities, all outcomes compared with set logic; or one query that must be rejected by the compiler while the same "
        "program with a valid query is accepted. Distinct by declaration, parameter list and macro; non-trivial when the query matches "
        "a non-empty proper subset of the archetypes, or must be rejected.")


def setup(tier):
    return {"lib": build_lib()}


def gen(rng, index, tier):
    while True:
        # now and then many archetypes and long lists of parameters
        big = index % 14 == 9
        if big:
            archs, pool = gen_archs(rng, n=[66, 18, 33, 24, 130][index // 14 % 5], maxcomps=rng.choice([2, 3, 12, 16]), pool=rng.choice([5, 20, 40, 70]))
        else:
            archs, pool = gen_archs(rng)
        if rng.random() < 0.4:
            gen_ids(rng, archs)
        for a in archs:
            a["ents"] = rng.choice([0, 1, 1, 2]) if big else rng.choice([0, 1, 2, 2, 3])
        spec = {"name": rng.choice(WORLDS), "namepos": rng.randint(0, 6), "archs": archs, "queries": [], "neg": []}
        twins = [c for c in COMPS if c not in pool and any(c.lower() == x.lower() for x in pool)]
        spec["extra"] = [c for c in rng.sample(COMPS, 3) if c not in pool] + rng.sample(twins, min(2, len(twins)))
        for _ in range(400):
            ps = gen_params(rng, spec, spec["extra"])
            st, m = verdict(spec, ps)
            q = {"params": ps, "world": rng.randint(0, 3), "ret": rng.random() < 0.3}
            if big:
                q["macros"] = rng.sample(MACROS, 2)
            if st == "ok" and len(spec["queries"]) < ((1 if len(archs) > 40 else 2) if big else 8) and not clashes(spec, ps):
                # proper subsets mostly
                if big and len(m) > 12:
                    continue
                if len(m) < len(archs) or rng.random() < 0.3:
                    spec["queries"].append(q)
            elif st != "ok" and len(spec["neg"]) < 4 and (st == "amb" or rng.random() < 0.5):
                spec["neg"].append({"params": ps, "world": q["world"], "macros": [rng.choice(MACROS)]})
        if spec["queries"]:
            return spec


OKQ = [{"params": [{"t": "EntAny", "mut": False}], "macros": ["iter"]}]


def source(spec):
    s = program(spec)
    for n in spec["neg"]:
        s += "\n// must be rejected: ecs_" + n["macros"][0] + "!(.., |" + plist(n["params"], False) + "| ..)"
    return s


def evaluate(env, spec):
    r = Result()
    sc, lib = env["scratch"], env["lib"]
    D = decl(spec, True)
    nl = len(live_archs(spec))
    for q in spec["queries"]:
        assert verdict(spec, q["params"])[0] == "ok"
    c = sc.rustc(lib, program(spec))
    if c.ok is None:
        r.error = c.err
        return r
    if not c.ok:
        b = sc.rustc(lib, program(spec, queries=[]))
        if not b.ok:
            # declarations are not what this check decides
            r.error = "the world alone does not compile: " + brief(b.err)
            return r
        for q in spec["queries"]:
            for m in q.get("macros", MACROS):
                one = dict(q, macros=[m])
                x = sc.rustc(lib, program(spec, queries=[one]), emit="metadata")
                if x.ok is False:
                    r.fails.append(f"a query that matches archetypes {verdict(spec, q['params'])[1]} is rejected: "
                                   f"ecs_{m}!(|{plist(q['params'], False)}|)\n{brief(x.err)}")
                    return r
        r.error = "does not compile, yet each query alone does: " + brief(c.err)
        return r
    run_ = sc.execute(c)
    got = parse_out(run_.out)
    want = expected(spec)
    if run_.timed_out:
        r.error = "the program did not finish"
        return r
    d = diff(want, got)
    own = [x for x in d if x.startswith("section q")]
    if d and not own:
        # what is wrong is not about queries
        r.count("failures outside queries")
    for x in own:
        qi = int(re.match(r"section q(\d+)", x).group(1))
        q = spec["queries"][qi]
        r.fails.append(f"|{plist(q['params'], False)}| {x} (exit {run_.rc}) {run_.err[-300:]}")
    for q in spec["queries"]:
        st, m = verdict(spec, q["params"])
        for mac in q.get("macros", MACROS):
            r.cases.append((D + plist(q["params"], False) + mac, 0 < len(m) < nl))
            r.count("ecs_" + mac)
        for p in q["params"]:
            r.count("parameter " + p["t"])
        r.count(f"matched {len(m)} of {nl}")
    for n in spec["neg"]:
        st, _ = verdict(spec, n["params"])
        assert st != "ok"
        x = sc.rustc(lib, program(spec, queries=[n]), emit="metadata")
        if x.ok is None:
            r.error = x.err
            return r
        r.cases.append((D + plist(n["params"], False) + n["macros"][0], True))
        r.count("must be rejected: " + ("ambiguous OneOf" if st == "amb" else "no archetype"))
        if x.ok:
            r.fails.append(f"accepted by the compiler although {'a OneOf matches two components of one archetype' if st == 'amb' else 'no archetype matches'}: "
                           f"ecs_{n['macros'][0]}!(|{plist(n['params'], False)}|)")
    q = spec["queries"][0] if spec["queries"] else None
    if q:
        r.sample = (f"{D}\nquery |{plist(q['params'], False)}| binds archetypes {verdict(spec, q['params'])[1]}; rejected: "
                    + "; ".join("|" + plist(n["params"], False) + "|" for n in spec["neg"][:2]))
    return r


def reductions(spec):
    for key in ("neg", "queries"):
        yield from drop_each(spec, key)
    for key in ("queries", "neg"):
        for i, q in enumerate(spec[key]):
            for m in q.get("macros", MACROS):
                if len(q.get("macros", MACROS)) > 1:
                    s = copy.deepcopy(spec)
                    s[key][i]["macros"] = [m]
                    yield s
            for j in range(len(q["params"])):
                if len(q["params"]) > 1:
                    s = copy.deepcopy(spec)
                    del s[key][i]["params"][j]
                    yield s
    for i in range(len(spec["archs"])):
        if len(spec["archs"]) > 1:
            s = copy.deepcopy(spec)
            del s["archs"][i]
            yield s
    for i, a in enumerate(spec["archs"]):
        for j in range(len(a["comps"])):
            if len(a["comps"]) > 1:
                s = copy.deepcopy(spec)
                del s["archs"][i]["comps"][j]
                yield s
        if a.get("ents", 2) > 1:
            s = copy.deepcopy(spec)
            s["archs"][i]["ents"] = 1
            yield s
