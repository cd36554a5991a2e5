"""C16: #[cfg]-disabled archetypes, components and query parameters behave as absent."""
from progs import *
from world import *

SPECS = {"quick": 90, "thorough": 4000}
RULE = ("One case is a declaration, or a query with one of the five macros over it, decorated with #[cfg] predicates and compared with its twin in which the "
        "disabled items are deleted and the enabled ones are not annotated: same verdict of the compiler, same output. Distinct by the decorated "
        "text; non-trivial when it has a disabled item and its predicates take both values, or when the twin is rejected.")


def setup(tier):
    return {"lib": build_lib()}


def some_cfgs(rng, pool, want):
    """One to three predicates from the pool whose conjunction has the wanted value."""
    for _ in range(60):
        c = [rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        if on(c) == want:
            return c
    return ["all()" if want else "any()"]


def gen(rng, index, tier):
    while True:
        # few predicates repeat often, many appear in all orders
        fam = rng.choice([None] * 6 + FAMILIES)
        # now and then many archetypes and predicates; more than some 120 exceed the compiler's recursion limit
        big = index % 18 == 7
        pool = [gen_pred(rng, fam=None if big else fam) for _ in range(rng.choice([40, 70] if big else [1, 2, 3, 4, 6, 9, 14]))]
        archs, cpool = gen_archs(rng, n=rng.choice([5, 9, 18]) if big else None, maxcomps=12 if big else 7, pool=rng.choice([8, 20]) if big else None)
        p_arch, p_comp = rng.choice([(0.2, 0.5), (0.5, 0.2), (0.8, 0.8), (0.4, 0.4)])
        keep = rng.choice([0.5, 0.6, 0.75])
        for a in archs:
            a["ents"] = rng.choice([1, 2, 2, 3])
            a["swap"] = rng.random() < 0.4
            if rng.random() < p_arch:
                a["cfgs"] = some_cfgs(rng, pool, rng.random() < keep)
            for c in a["comps"]:
                c["swap"] = rng.random() < 0.4
                if rng.random() < p_comp:
                    c["cfgs"] = some_cfgs(rng, pool, rng.random() < keep)
        # disabled items that would be wrong if they counted: repeated and undefined names
        for a in archs:
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                c = {"n": rng.choice([rng.choice(cpool), "Undef1", "Undef2"]), "cfgs": some_cfgs(rng, pool, False), "swap": rng.random() < 0.5}
                a["comps"].insert(rng.randint(0, len(a["comps"])), c)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            nm = rng.choice([a["name"] for a in archs] + ["UndefArch"])
            cs = [{"n": n} for n in rng.sample(cpool, rng.randint(1, min(3, len(cpool))))]
            if rng.random() < 0.3:
                cs.append({"n": "Undef1"})
            for c in cs:
                if rng.random() < 0.4:
                    c["cfgs"] = some_cfgs(rng, pool, rng.random() < 0.5)
            archs.insert(rng.randint(0, len(archs)), {"name": nm, "comps": cs, "cfgs": some_cfgs(rng, pool, False), "swap": rng.random() < 0.5})
        spec = {"name": rng.choice(WORLDS), "namepos": rng.randint(0, 6), "archs": archs, "queries": [], "neg": []}
        la = live_archs(spec)
        if not la or any(not cs or any(c["n"].startswith("Undef") for c in cs) for _, cs in la):
            continue
        if rng.random() < 0.6:
            enabled = [{"comps": cs} for _, cs in la]
            gen_ids(rng, enabled)
            for (a, _), e in zip(la, enabled):
                a.update({k: e[k] for k in ("id", "style") if k in e})
            for it in archs + [c for a in archs for c in a["comps"]]:
                if not on(it.get("cfgs", [])) and rng.random() < 0.6:
                    it["id"] = rng.choice([0, 1, 2, 3, 5, 255])
        if ids(spec) is None:
            continue
        dead = [c["n"] for a in archs for c in a["comps"]] + cpool
        spec["extra"] = sorted({n for n in dead if not n.startswith("Undef")})
        for _ in range(300):
            if len(spec["queries"]) >= 5 and len(spec["neg"]) >= 2:
                break
            qpool = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 5]))] if rng.random() < 0.5 else [gen_pred(rng, fam=rng.choice([fam, None])) for _ in range(rng.choice([1, 2, 4, 7]))]
            ps = gen_params(rng, spec, spec["extra"] if rng.random() < 0.4 else ())
            if rng.random() < 0.06:
                ps = []
            for p in ps:
                if p["t"] != "One" and rng.random() < 0.5:
                    p["cfgs"] = some_cfgs(rng, qpool, True)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                t = rng.choice(["C", "C", "C", "Ent", "Dir", "EntAny", "DirAny", "EntWild", "DirWild"])
                p = {"t": t, "mut": False, "cfgs": some_cfgs(rng, qpool, False)}
                if t == "C":
                    p["c"] = rng.choice(spec["extra"] + ["Undef1"] + [x["c"] for x in ps if x["t"] == "C"])
                    p["mut"] = rng.random() < 0.5
                elif t in ("Ent", "Dir"):
                    p["a"] = rng.choice([a["name"] for a in archs] + ["UndefArch"])
                if ps and rng.random() < 0.3:
                    # the two alternatives of one name
                    j = rng.randrange(len(ps))
                    ps[j].setdefault("as", "both")
                    p["as"] = ps[j]["as"]
                    if any(x.get("as") == "both" and x is not ps[j] and on(x.get("cfgs", [])) and on(ps[j].get("cfgs", [])) for x in ps):
                        ps[j].pop("as")
                        p.pop("as")
                ps.insert(rng.randint(0, len(ps)), p)
            named = [x.get("as") for x in params_on(ps) if x.get("as")]
            if len(set(named)) != len(named) or not any(p.get("cfgs") for p in ps):
                continue
            st, m = verdict(spec, ps)
            q = {"params": ps, "world": rng.randint(0, 3), "ret": rng.random() < 0.3}
            if st == "ok" and len(spec["queries"]) < 5 and not clashes(spec, ps):
                if rng.random() < 0.4:
                    q["macros"] = [rng.choice(MACROS)]
                spec["queries"].append(q)
            elif st != "ok" and len(spec["neg"]) < 2:
                spec["neg"].append({"params": ps, "world": q["world"], "macros": [rng.choice(MACROS)]})
        if not (any(it.get("cfgs") for it in archs + [c for a in archs for c in a["comps"]]) or any(p.get("cfgs") for q in spec["queries"] for p in q["params"])):
            continue
        return spec


def snake(n):
    return None if re.search(r"\d", n) or re.search(r"[A-Z]{2}", n) else re.sub(r"(?<!^)([A-Z])", r"_\1", n).lower()


def full(spec, strip, queries=None):
    """The program, and code that names every generated field and variant."""
    la = live_archs(spec)
    W = spec["name"] or "EcsWorld"
    s = program(spec, strip=strip, queries=queries)
    o = ["fn every(w: &mut " + W + ", lab: &Lab) { println!(\"S every\");"]
    p = o.append
    if all(snake(a["name"]) for a, _ in la):
        caps = ", ".join(f"{snake(a['name'])}: {i + 2}" for i, (a, _) in enumerate(la))
        p(f"  let c = {W}Capacity {{ {caps} }};")
        p(f"  let x = {W}::with_capacity(c); let {W} {{ {', '.join(snake(a['name']) for a, _ in la)} }} = x;")
        for i, (a, _) in enumerate(la):
            p(f"  println!(\"  cap {i} {{}}\", {snake(a['name'])}.capacity() >= {i + 2});")
    for i, (a, cs) in enumerate(la):
        n = a["name"]
        if not all(snake(c["n"]) for c in cs) or any(snake(c["n"]) in ("entity", "index") for c in cs):
            continue
        f = [snake(c["n"]) for c in cs]
        p(f"  {{ let ar = w.archetype_mut::<{n}>(); let s = ar.get_all_slices_mut(); println!(\"  slices {i} {{}}\", s.entity.len());")
        for x, c in zip(f, cs):
            p(f"    for z in s.{x}.iter() {{ let z: &{c['n']} = z; println!(\"   {x} {{}}\", z.v()); }}")
        p("  }")
        lits = ", ".join(f"{x}: {c['n']}(7)" for x, c in zip(f, cs))
        p(f"  let k = {n}Components {{ {lits} }}; let e = w.create::<{n}>(k.into_tuple());")
        p(f"  {{ let v = w.view(e).unwrap(); println!(\"  view {i} {{}}\", {' + '.join('v.' + x + '.v()' for x in f)}); }}")
        p(f"  {{ let b = w.borrow(e).unwrap(); println!(\"  borrow {i} {{}}\", {' + '.join('b.component::<' + c['n'] + '>().v()' for c in cs)}); }}")
        p(f"  let {n}Components {{ {', '.join(f)} }} = w.destroy(e).unwrap(); println!(\"  gone {i} {{}}\", {' + '.join(x + '.v()' for x in f)});")
    arms = "\n".join(f"      Ok(SelectArchetype::{a['name']}) => {i}," for i, (a, _) in enumerate(la))
    p(f"  for id in 0..=255u8 {{ let k = match SelectArchetype::try_from(id) {{\n{arms}\n      Err(_) => continue }}; println!(\"  pick {{}} {{}}\", id, k); }}")
    arms = " ".join(f"SelectEntity::{a['name']}(x) => {{ let x: Entity<{a['name']}> = x; {i} }}" for i, (a, _) in enumerate(la))
    p(f"  for e in lab.keys() {{ let k = match SelectEntity::try_from(*e).unwrap() {{ {arms} }}; println!(\"  sel {{}} {{}}\", lab[e], k); }}")
    p("}")
    return s.replace("println!(\"S base\");", "every(&mut w, &lab); println!(\"S base\");") + "\n".join(o) + "\n"


def source(spec):
    return full(spec, False, spec["queries"] + spec["neg"])


def disabled(q):
    return [p for p in q["params"] if not on(p.get("cfgs", []))]


def compare(env, r, spec, queries, what):
    """True when both are accepted and print the same; adds a failure otherwise."""
    sc, lib = env["scratch"], env["lib"]
    b = sc.rustc(lib, full(spec, True, queries), extra=CFG_FLAGS)
    a = sc.rustc(lib, full(spec, False, queries), extra=CFG_FLAGS)
    if a.ok is None or b.ok is None:
        r.error = a.err if a.ok is None else b.err
        return False
    if a.ok != b.ok:
        bad = a if not a.ok else b
        r.fails.append(f"{what}: the decorated program is {'accepted' if a.ok else 'rejected'}, its twin without the disabled items is "
                       f"{'accepted' if b.ok else 'rejected'}:\n{decl(spec, False)}\n{brief(bad.err)}")
        return False
    if not a.ok:
        return None
    x, y = sc.execute(a), sc.execute(b)
    if x.timed_out or y.timed_out:
        r.error = "a program did not finish"
        return False
    d = diff(parse_out(y.out), parse_out(x.out))
    if d or x.rc != y.rc:
        r.fails.append(f"{what}: exit {x.rc} against {y.rc}; {d}\n{decl(spec, False)}\n" +
                       "\n".join("|" + plist(q["params"], False) + "|" for q in queries) + x.err[-300:])
        return False
    return True


def evaluate(env, spec):
    r = Result()
    D = decl(spec, False)
    la = live_archs(spec)
    if not la:
        raise ValueError("empty")
    items = spec["archs"] + [c for a in spec["archs"] for c in a["comps"]]
    vals = {truth(c) for it in items for c in it.get("cfgs", [])}
    ok = compare(env, r, spec, spec["queries"], "all queries")
    if ok is False and r.fails and "rejected" in r.fails[0] and len(spec["queries"]) > 1:
        pass
    if ok is None:
        # the twin does not compile either, so what remains is compared one by one
        r.count("twins that are rejected as a whole")
        if compare(env, r, spec, [], "no query"):
            for q in spec["queries"]:
                compare(env, r, spec, [q], "|" + plist(q["params"], False) + "|")
    if r.error or r.fails:
        return r
    r.cases.append((D, len(vals) == 2 and any(not on(it.get("cfgs", [])) for it in items)))
    preds = {c for it in items for c in it.get("cfgs", [])}
    r.count(f"declarations with {'no' if not preds else '1' if len(preds) == 1 else '2-4' if len(preds) < 5 else '5 or more'} predicates")
    for it in spec["archs"]:
        if it.get("cfgs"):
            r.count("archetype " + ("kept" if on(it["cfgs"]) else "disabled"))
        for c in it["comps"]:
            if c.get("cfgs"):
                r.count("component " + ("kept" if on(c["cfgs"]) else "disabled"))
    for q in spec["queries"]:
        for p in q["params"]:
            if p.get("cfgs"):
                r.count(f"parameter {p['t']} " + ("kept" if on(p["cfgs"]) else "disabled"))
        for m in q.get("macros", MACROS):
            qv = {truth(c) for p in q["params"] for c in p.get("cfgs", [])}
            r.cases.append((D + plist(q["params"], False) + m, bool(disabled(q)) and len(qv) == 2))
            r.count("ecs_" + m)
    for n in spec["neg"]:
        x = compare(env, r, spec, [n], f"ecs_{n['macros'][0]}!(|{plist(n['params'], False)}|)")
        if x is None:
            r.cases.append((D + plist(n["params"], False) + n["macros"][0], True))
            r.count("queries that must be rejected")
    q = next((q for q in spec["queries"] if disabled(q)), None)
    if q:
        r.sample = f"{D}\nquery |{plist(q['params'], False)}| behaves as |{plist(q['params'], True)}|"
    return r


def reductions(spec):
    import c05
    yield from c05.reductions(spec)
    for i, a in enumerate(spec["archs"]):
        for j, it in enumerate([a] + a["comps"]):
            for k in ("cfgs", "id", "swap"):
                if it.get(k) and not (k == "cfgs" and not on(it[k]) and ("Undef" in it.get("n", it.get("name", "")) or len(it[k]) == 1)):
                    s = copy.deepcopy(spec)
                    t = s["archs"][i] if j == 0 else s["archs"][i]["comps"][j - 1]
                    if k == "cfgs" and len(t[k]) > 1:
                        t[k] = [c for c in t[k] if on([c]) == on(t[k])][:1]
                    else:
                        t.pop(k)
                    yield s
    for key in ("queries", "neg"):
        for i, q in enumerate(spec[key]):
            for j, p in enumerate(q["params"]):
                if len(p.get("cfgs", [])) > 1 or (p.get("cfgs") and on(p["cfgs"])):
                    s = copy.deepcopy(spec)
                    t = s[key][i]["params"][j]
                    if on(t["cfgs"]):
                        t.pop("cfgs")
                    else:
                        t["cfgs"] = [c for c in t["cfgs"] if not on([c])][:1]
                    yield s
