"""C15: archetype and component ids follow the discriminant rule and are unique."""
from progs import *
from world import *

SPECS = {"quick": 400, "thorough": 4000}
RULE = ("One case is one declaration with explicit, implicit and #[cfg]-disabled ids. Where the discriminant rule gives distinct ids up to 255, "
        "the program must compile and every way to read an id must agree with the fold; otherwise it must be rejected while the same declaration "
        "without its explicit ids is accepted. Distinct by declaration; non-trivial when it mixes explicit and implicit ids, or must be rejected.")


def setup(tier):
    return {"lib": build_lib()}


def put(rng, it, n):
    it["id"] = n
    it["style"] = rng.choice([0, 0, 1, 2, 3, 4])


def gen(rng, index, tier):
    mode = index % 3
    while True:
        if index % 100 == 13:
            # very many archetypes: all ids taken, or more
            mode = 0 if index % 200 == 13 else 2
            n = rng.choice([100, 200, 254, 255, 256] if mode == 0 else [257, 258, 300])
            archs, pool = gen_archs(rng, n=n, pool=3, maxcomps=1)
        else:
            archs, pool = gen_archs(rng, n=rng.choice([1, 2, 3, 4, 5, 7]), pool=rng.randint(4, 20), maxcomps=rng.choice([9, 9, 16]))
        for a in archs:
            a["ents"] = 1
        if rng.random() < 0.5:
            for a in archs:
                if len(archs) > 1 and rng.random() < 0.3:
                    a["cfgs"] = rng.sample(sorted(PREDS), rng.choice([1, 1, 2]))
                a["swap"] = rng.random() < 0.3
                for c in a["comps"]:
                    if len(a["comps"]) > 1 and rng.random() < 0.25:
                        c["cfgs"] = rng.sample(sorted(PREDS), rng.choice([1, 1, 2]))
                    c["swap"] = rng.random() < 0.3
        spec = {"name": rng.choice(WORLDS), "namepos": rng.randint(0, 5), "archs": archs, "queries": []}
        la = live_archs(spec)
        if not la or any(not cs for _, cs in la):
            continue
        gen_ids(rng, archs, rng.choice([0.1, 0.3, 0.6]))
        for a in archs:
            gen_ids(rng, [a])
        for it in archs + [c for a in archs for c in a["comps"]]:
            # what is disabled may say anything
            if not on(it.get("cfgs", [])) and rng.random() < 0.6:
                put(rng, it, rng.choice([0, 1, 2, 3, 255]))
        groups = [[a for a, _ in la]] + [cs for _, cs in la]
        g = rng.choice([x for x in groups if len(x) > 1] or groups)
        if mode == 0 and rng.random() < 0.7:
            # counting right up to the end
            k = rng.randint(1, len(g))
            for it in g:
                it.pop("id", None)
            put(rng, g[-k], 256 - k)
        if mode == 1:
            # a repeated id, implicit or explicit
            i, j = rng.randrange(len(g)), rng.randrange(len(g))
            f = fold(g)
            if f and i != j:
                put(rng, g[i], max(0, f[j] - rng.choice([0, 0, 1, 1, 2])))
        if mode == 2 and rng.random() < 0.6:
            # counting past the end
            k = rng.randint(1, len(g))
            for it in g[-k:]:
                it.pop("id", None)
            put(rng, g[-k], rng.choice([255, 256 - k + 1, 256, 257, 300, 65536]))
        bad = [it for x in groups for it in x if it.get("id") is not None and it["id"] > 255]
        off = [it for it in archs + [c for a in archs for c in a["comps"]] if it not in sum(groups, []) and (it.get("id") or 0) > 255]
        if off:
            continue
        valid = ids(spec) is not None and not bad
        if valid != (mode == 0) and rng.random() < 0.8:
            continue
        return spec


def body(spec):
    """Everything that reports an id, printed."""
    la = live_archs(spec)
    W = spec["name"] or "EcsWorld"
    tg = tags(spec)
    o = [program(spec, queries=[]).replace("fn main()", "fn base_main()")]
    p = o.append
    p("fn main() { let (mut w, lab) = mk(); println!(\"S more\"); println!(\"  n {}\", " + W + "::NUM_ARCHETYPES);")
    for i, (a, cs) in enumerate(la):
        n = a["name"]
        p(f"  println!(\"  arch {i} const {{}}\", {n}::ARCHETYPE_ID);")
        p(f"  {{ let e = w.archetype::<{n}>().entities()[0]; let d = w.to_direct(e).unwrap();")
        p(f"    println!(\"  arch {i} typed {{}}\", e.archetype_id()); println!(\"  arch {i} any {{}}\", e.into_any().archetype_id());")
        p(f"    println!(\"  arch {i} raw {{}}\", EntityAny::from_raw(e.into_any().raw()).unwrap().archetype_id());")
        p(f"    println!(\"  arch {i} direct {{}}\", d.archetype_id()); println!(\"  arch {i} directany {{}}\", d.into_any().archetype_id());")
        p(f"    println!(\"  arch {i} selectid {{}}\", SelectArchetype::from(e).archetype_id());")
        p(f"    match SelectEntity::try_from(e.into_any()) {{ Ok(SelectEntity::{n}(x)) => println!(\"  arch {i} select {{}}\", x.archetype_id()), _ => println!(\"  arch {i} select wrong\") }}")
        p(f"    match SelectEntityDirect::try_from(d.into_any()) {{ Ok(SelectEntityDirect::{n}(x)) => println!(\"  arch {i} selectdirect {{}}\", x.archetype_id()), _ => println!(\"  arch {i} selectdirect wrong\") }} }}")
        p(f"  ecs_iter!(w, |e: &Entity<{n}>| {{ println!(\"  arch {i} iter {{}}\", MatchedArchetype::ARCHETYPE_ID); }});")
        for c in cs:
            t = tg[c["n"]]
            p(f"  println!(\"  comp {i} {t} const {{}}\", <{n} as ArchetypeHas<{c['n']}>>::COMPONENT_ID);")
            p(f"  println!(\"  comp {i} {t} macro {{}}\", ecs_component_id!({c['n']}, {n}));")
            p(f"  ecs_iter!(w, |e: &Entity<{n}>, c: &{c['n']}| {{ println!(\"  comp {i} {t} iter {{}}\", ecs_component_id!({c['n']})); }});")
            p(f"  {{ const K: u8 = ecs_component_id!({c['n']}, {n}); println!(\"  comp {i} {t} const2 {{}}\", K); }}")
    arms = " ".join(f"Ok(SelectArchetype::{a['name']}) => println!(\"  pick {{}} {i}\", id)," for i, (a, _) in enumerate(la))
    p(f"  for id in 0..=255u8 {{ match SelectArchetype::try_from(id) {{ {arms} Err(_) => {{}} }} }}")
    p("}")
    return "\n".join(o) + "\n"


def want(spec):
    la, tg = live_archs(spec), tags(spec)
    aid, cid = ids(spec)
    out = [f"n {len(la)}"]
    for i, (a, cs) in enumerate(la):
        out += [f"arch {i} {k} {aid[i]}" for k in ("const", "typed", "any", "raw", "direct", "directany", "selectid", "select", "selectdirect", "iter")]
        out.append(f"pick {aid[i]} {i}")
        for j, c in enumerate(cs):
            out += [f"comp {i} {tg[c['n']]} {k} {cid[i][j]}" for k in ("const", "macro", "iter", "const2")]
    return {"more": sorted(out)}


def valid(spec):
    la = live_archs(spec)
    big = any((it.get("id") or 0) > 255 for it in spec["archs"] + [c for a in spec["archs"] for c in a["comps"]])
    return ids(spec) is not None and not big


def source(spec):
    return body(spec) if valid(spec) else decl(spec, False) + "\n// must be rejected\n"


def no_ids(spec):
    s = copy.deepcopy(spec)
    for it in s["archs"] + [c for a in s["archs"] for c in a["comps"]]:
        it.pop("id", None)
    return s


def evaluate(env, spec):
    r = Result()
    sc, lib = env["scratch"], env["lib"]
    D = decl(spec, False)
    la = live_archs(spec)
    if not la or any(not cs for _, cs in la):
        raise ValueError("empty")
    items = [[a for a, _ in la]] + [cs for _, cs in la]
    mixed = any(any(x.get("id") is not None for x in g) and any(x.get("id") is None for x in g) for g in items)
    if valid(spec):
        r.cases.append((D, mixed))
        c = sc.rustc(lib, body(spec), extra=CFG_FLAGS)
        if c.ok is None:
            r.error = c.err
        elif not c.ok:
            # ids or something else? the same declaration with plain ids decides
            b = sc.rustc(lib, body(no_ids(spec)), extra=CFG_FLAGS, emit="metadata")
            if b.ok:
                r.fails.append(f"valid ids {ids(spec)} are rejected:\n{D}\n{brief(c.err)}")
            else:
                r.error = "does not compile even without explicit ids: " + brief(c.err)
        else:
            x = sc.execute(c)
            d = diff(want(spec), parse_out(x.out))
            if d or x.rc != 0:
                r.fails.append(f"{D}\n{d} (exit {x.rc}) {x.err[-300:]}")
        r.count("declarations that must be accepted")
        if any((f or [0])[-1] == 255 for f in map(fold, items)):
            r.count("counting up to 255")
        r.sample = f"{D}\nexpected ids {ids(spec)}" if mixed else None
    else:
        r.cases.append((D, True))
        src = program(spec, queries=[]) if False else PRELUDE + "".join(
            f"pub struct {n}(pub u64);\n" for n in tags(spec)) + D + "\nfn main() {}\n"
        c = sc.rustc(lib, src, extra=CFG_FLAGS, emit="metadata")
        t = no_ids(spec)
        if c.ok is None:
            r.error = c.err
        elif c.ok:
            r.fails.append(f"accepted although ids repeat or pass 255 ({[fold(g) for g in items]}):\n{D}")
        elif env.get("twins", 0) < 25:
            env["twins"] = env.get("twins", 0) + 1
            b = sc.rustc(lib, src.replace(D, decl(t, False)), extra=CFG_FLAGS, emit="metadata")
            if not b.ok:
                r.error = "the twin without explicit ids is rejected too: " + brief(b.err)
        r.count("declarations that must be rejected")
    return r


def reductions(spec):
    for i in range(len(spec["archs"])):
        if len(spec["archs"]) > 1:
            s = copy.deepcopy(spec)
            del s["archs"][i]
            yield s
    for i, a in enumerate(spec["archs"]):
        for j in range(len(a["comps"])):
            if len(a["comps"]) > 1:
                s = copy.deepcopy(spec)
                del s["archs"][i]["comps"][j]
                yield s
    for i, a in enumerate(spec["archs"]):
        for it in [a] + a["comps"]:
            for k in ("id", "cfgs", "swap", "comma"):
                if it.get(k):
                    s = copy.deepcopy(spec)
                    t = s["archs"][i] if it is a else s["archs"][i]["comps"][a["comps"].index(it)]
                    t.pop(k)
                    yield s
