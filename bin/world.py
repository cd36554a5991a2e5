"""World declarations and queries as data: rendering to Rust, and what they mean by set logic."""
import random, re

# predicates and their values in the configuration the programs are compiled in
PREDS = {
    "any()": False, "all()": True, "not(any())": True, "not(all())": False,
    'feature = "on"': True, 'feature = "off"': False, "flag_on": True, "flag_off": False,
    "not(flag_off)": True, "not(flag_on)": False, 'all(flag_on, not(feature = "off"))': True,
    'any(flag_off, feature = "off")': False, 'any(flag_off, flag_on)': True, "all(flag_on, flag_off)": False,
    'not(any(flag_off, feature = "off"))': True, "all(any(), flag_on)": False, 'target_pointer_width = "64"': True,
    'not(target_pointer_width = "64")': False, "debug_assertions": True, "not(debug_assertions)": False,
    "F0": False, "f_0": False, "f00": False, 'key = "f0"': False, 'f0 = "f0"': False, 'key = "o ne"': False, 'key = "two "': True, 'Key = "one"': False,
    'key = "one"': True, 'key = "two"': False, 'any(key = "two", key = "one")': True, 'all(key = "two", key = "one")': False,
}
# predicates alike in all but the last characters, or in all but the first
LONG = "a_flag_whose_name_is_so_long_that_nobody_would_ever_compare_all_of_it_number_"
LATE = "_is_how_the_name_of_this_flag_begins_and_the_rest_is_the_same_for_all_of_them"
TEXT = "a feature whose name is so long that nobody would ever compare all of it and the number "


def spelled(word, change, form="{}"):
    """Twelve predicates made from one word by changing it at the places the bits of a number say."""
    return [form.format("".join(change(ch) if at < 4 and k >> at & 1 else ch for at, ch in enumerate(word))) for k in range(12)]


# alike but for letter case, underscores, blanks, or marks that mean something outside of a string; every other one is set
ALIKE = [
    spelled("zoom", str.upper), spelled("wide", lambda ch: ch + "_"), spelled("Last", str.swapcase, 'feature = "{}"'),
    spelled("tail", lambda ch: ch + " ", 'mode = "{}"'), spelled("mark", lambda ch: ch + ",", 'mode = "{}"'),
    spelled("deep", lambda ch: ch + ")", 'mode = "{}"'), spelled("open", lambda ch: "(" + ch, 'feature = "{}"'),
    spelled("dash", lambda ch: ch + "-", 'feature = "{}"'), spelled("hash", lambda ch: ch + "#", 'mode = "{}"'),
    [f'{a} = "{b}"' for a in ("one", "two", "six") for b in ("one", "two", "six", "")],
    [f'side = "{k:012b}"' for k in range(12)],
]
SPELLED = {pred: k % 2 == 0 for fam in ALIKE for k, pred in enumerate(fam)}
assert len(SPELLED) == 12 * len(ALIKE)
CFG_FLAGS = [y for k in range(0, 12, 2) for x in (f"{LONG}{k}", f"f{k}{LATE}", f'feature="{TEXT}{k}"', f'{LONG}="{k}"') for y in ("--cfg", x)]
CFG_FLAGS += ["--cfg", 'key="two "']
CFG_FLAGS += [x for pred, v in SPELLED.items() if v for x in ("--cfg", pred.replace(" = ", "="))]
CFG_FLAGS += [x for k in range(0, 12, 2) for x in ("--cfg", f"f{k}")] + ["--cfg", 'feature="on"', "--cfg", "flag_on", "--cfg", 'key="one"', "-A", "unexpected_cfgs"]

# names that share prefixes with each other and with the names the macros know
COMPS = ["Foo", "FooBar", "FooBarBaz", "Bar", "BarBaz", "Ba", "Baz", "EntityName", "EntityAnything", "OneOfUs", "WithFoo",
         "WithoutBar", "Optional", "Health", "HealthMax", "Max", "Position", "PositionOld", "Old", "A", "B", "C", "Ab", "Abc",
         "DirectHit", "AnyHit", "Archetype2", "Num1", "Num12", "X1y2",
         # alike but for the case of one letter
         "Foobar", "FoobarBaz", "FooBarbaz", "Barbaz", "Healthmax", "Positionold", "Withfoo", "Directhit", "EntityNAme"]
ARCHS = ["ArchFoo", "ArchFooBar", "Arch", "ArchFo", "Foos", "Bars", "ArchBaz", "Wall", "WallTall", "Tall", "EntityHolder", "ArchDirectory",
         "ArchEntityDir", "Any", "Zed", "ArchOneOf", "Arch2", "Arch22", "Archfoo", "ArchFoobar", "Walltall", "Entityholder"]
WORLDS = [None, "World1", "MyWorld", "W", "EcsWorld", "BigOldWorld"]


def split_args(text):
    out, depth, cur, quoted = [], 0, "", False
    for ch in text:
        quoted ^= ch == '"'
        depth += ((ch == "(") - (ch == ")")) * (not quoted)
        if ch == "," and depth == 0 and not quoted:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return [x for x in out + [cur.strip()] if x]


def truth(pred):
    """The value of a predicate where f0, f2, .. are set and f1, f3, .. are not (and the fixed ones above)."""
    pred = pred.strip()
    if pred in PREDS:
        return PREDS[pred]
    if pred in SPELLED:
        return SPELLED[pred]
    m = re.fullmatch(r"f(\d+)|" + LONG + r"(\d+)|f(\d+)" + LATE + '|feature = "' + TEXT + r'(\d+)"|' + LONG + r' = "(\d+)"', pred)
    if m:
        return int(next(x for x in m.groups() if x)) % 2 == 0
    op, args = pred.split("(", 1)
    vals = [truth(x) for x in split_args(args.rsplit(")", 1)[0])]
    return {"all": all, "any": any, "not": lambda v: not v[0]}[op.strip()](vals)


FAMILIES = ["f{}", LONG + "{}", "f{}" + LATE, 'feature = "' + TEXT + '{}"', LONG + ' = "{}"',
            "all(all(), all(all(), not(any())), not(any(any(), any())), f{})", "any(any(), any(any(), all(any(), flag_on)), f{}, all(flag_off, flag_off))"] + ALIKE


def gen_pred(rng, depth=2, fam=None):
    x = rng.random()
    if depth == 0 or x < 0.5:
        k = rng.randint(0, 11)
        fam = fam or rng.choice(["f{}"] * 6 + FAMILIES)
        return fam[k] if isinstance(fam, list) else fam.format(k)
    if x < 0.65:
        return rng.choice(sorted(PREDS))
    op = rng.choice(["all", "any", "not"])
    if op == "not":
        return f"not({gen_pred(rng, depth - 1, fam)})"
    args = [gen_pred(rng, depth - 1, fam) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    return f"{op}({', '.join(args)}{',' if args and rng.random() < 0.2 else ''})"


def on(cfgs):
    return all(truth(c) for c in cfgs)


def attrs(cfgs, strip):
    return "" if strip else "".join(f"#[cfg({c})] " for c in cfgs)


def live_archs(spec):
    """[(arch, [enabled components])] of the enabled archetypes, in order."""
    return [(a, [c for c in a["comps"] if on(c.get("cfgs", []))]) for a in spec["archs"] if on(a.get("cfgs", []))]


def fold(items):
    """The discriminant rule; None when an id repeats or passes 255."""
    out, last = [], None
    for it in items:
        nid = it.get("id")
        last = nid if nid is not None else (0 if last is None else last + 1)
        if last > 255 or last in out:
            return None
        out.append(last)
    return out


def ids(spec):
    la = live_archs(spec)
    a = fold([x for x, _ in la])
    c = [fold(cs) for _, cs in la]
    return None if a is None or None in c else (a, c)


def idtext(it):
    if it.get("id") is None:
        return None
    n, style = it["id"], it.get("style", 0)
    return {1: f"0x{n:X}", 2: f"{n}u8", 3: f"0b{n:b}", 4: f"0{n}"}.get(style, str(n))


def decl(spec, strip):
    o = ["ecs_world! {"]
    if spec["name"]:
        pos = spec.get("namepos", 0)
    lines = []
    for a in spec["archs"]:
        if strip and not on(a.get("cfgs", [])):
            continue
        comps = []
        for c in a["comps"]:
            if strip and not on(c.get("cfgs", [])):
                continue
            i = idtext(c)
            parts = [attrs(c.get("cfgs", []), strip), f"#[component_id({i})] " if i is not None else ""]
            if c.get("swap"):
                parts.reverse()
            comps.append("".join(parts) + c["n"])
        i = idtext(a)
        parts = [attrs(a.get("cfgs", []), strip), f"#[archetype_id({i})] " if i is not None else ""]
        if a.get("swap"):
            parts.reverse()
        lines.append("    " + "".join(parts) + f"ecs_archetype!({a['name']}, {', '.join(comps)}{',' if a.get('comma') else ''});")
    if spec["name"]:
        lines.insert(min(pos, len(lines)), f"    ecs_name!({spec['name']});")
    return "\n".join(o + lines + ["}"])


# -- queries ---------------------------------------------------------------------------------------

def params_on(params):
    return [p for p in params if on(p.get("cfgs", []))]


def bind(params, arch, comps):
    """The component each parameter binds to in one archetype; False: not matched; None: ambiguous."""
    names = [c["n"] for c in comps]
    out, amb, miss = [], False, False
    for p in params_on(params):
        t = p["t"]
        if t == "C":
            miss |= p["c"] not in names
            out.append(p["c"])
        elif t == "One":
            hit = [c for c in p["cs"] if c in names]
            amb |= len(hit) > 1
            miss |= not hit
            out.append(hit[0] if hit else None)
        elif t in ("Ent", "Dir"):
            miss |= p["a"] != arch["name"]
            out.append(None)
        else:
            out.append(None)
    return None if amb else False if miss else out


def verdict(spec, params):
    """("ok", [indices of matched archetypes]) or ("amb"/"none", None)."""
    r = [bind(params, a, cs) for a, cs in live_archs(spec)]
    if None in r:
        return "amb", None
    m = [i for i, x in enumerate(r) if x is not False]
    return ("ok", m) if m else ("none", None)


def clashes(spec, params):
    """Does some matched archetype bind one column twice with a mutable parameter among them?"""
    ps = params_on(params)
    for a, cs in live_archs(spec):
        b = bind(params, a, cs)
        if b:
            for i, x in enumerate(b):
                for j in range(i):
                    if x is not None and x == b[j] and (ps[i]["mut"] or ps[j]["mut"]):
                        return True
    return False


def ptype(p):
    t = p["t"]
    return {"C": lambda: p["c"], "One": lambda: f"OneOf<{', '.join(p['cs'])}>", "Ent": lambda: f"Entity<{p['a']}>",
            "Dir": lambda: f"EntityDirect<{p['a']}>", "EntAny": lambda: "EntityAny", "DirAny": lambda: "EntityDirectAny",
            "EntWild": lambda: "Entity<_>", "DirWild": lambda: "EntityDirect<_>"}[t]()


def pname(i, p):
    return p.get("as") or f"p{i}"


def plist(params, strip):
    out = []
    for i, p in enumerate(params):
        if strip and not on(p.get("cfgs", [])):
            continue
        out.append(f"{attrs(p.get('cfgs', []), strip)}{pname(i, p)}: &{'mut ' if p.get('mut') else ''}{ptype(p)}")
    return ", ".join(out)


def gen_params(rng, spec, extra=()):
    """A random parameter list over the enabled part of the world (or a little beside it)."""
    la = live_archs(spec)
    have = sorted({c["n"] for _, cs in la for c in cs})
    ps = []
    a, cs = rng.choice(la)
    focus = [c["n"] for c in cs] if rng.random() < 0.7 else have
    for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5]) if len(la) < 18 else rng.choice([1, 2, 3, 5, 8, 12])):
        x = rng.random()
        m = rng.random() < 0.4
        if x < 0.45 and focus:
            ps.append({"t": "C", "c": rng.choice(focus), "mut": m})
        elif x < 0.65:
            pool = have + list(extra)
            k = min(len(pool), rng.choice([1, 2, 2, 3, 3, 4] if len(la) < 18 else [1, 2, 3, 5, 9, 14]))
            ps.append({"t": "One", "cs": rng.sample(pool, k), "mut": m})
        elif x < 0.72:
            ps.append({"t": "Ent", "a": a["name"], "mut": False})
        elif x < 0.79:
            ps.append({"t": "Dir", "a": a["name"], "mut": False})
        else:
            ps.append({"t": rng.choice(["EntAny", "DirAny", "EntWild", "DirWild"]), "mut": False})
    return ps


def gen_archs(rng, n=None, nocfg=True, maxcomps=6, pool=None):
    n = n or rng.choice([1, 2, 3, 3, 4, 5, 6])
    names = rng.sample(ARCHS if n <= len(ARCHS) else ARCHS + [f"Row{k}" for k in range(n)], n)
    pool = pool or rng.randint(3, 9)
    cpool = rng.sample(COMPS if pool <= len(COMPS) else COMPS + [f"Part{k}" for k in range(pool)], pool)
    if rng.random() < 0.4:
        # with the names that are nearly the same
        for c in list(cpool):
            like = [x for x in COMPS if x not in cpool and (x.lower() == c.lower() or x.startswith(c) or c.startswith(x))]
            if like and len(cpool) < 10:
                cpool.append(rng.choice(like))
    archs, seen = [], set()
    for nm in names:
        cs = rng.sample(cpool, rng.randint(1, min(maxcomps, len(cpool))))
        if archs and rng.random() < 0.25:
            # nearly the same set as another archetype
            base = [c["n"] for c in rng.choice(archs)["comps"]]
            cs = [c for c in base if rng.random() < 0.8] or base[:1]
            more = [c for c in cpool if c not in cs]
            if more and rng.random() < 0.5:
                cs.append(rng.choice(more))
            rng.shuffle(cs)
        archs.append({"name": nm, "comps": [{"n": c} for c in cs], "comma": rng.random() < 0.3})
    return archs, cpool


def gen_ids(rng, archs, p=0.4):
    """Valid explicit ids here and there."""
    for items, lvl in [(archs, 0)] + [(a["comps"], 1) for a in archs]:
        for _ in range(20):
            for it in items:
                it.pop("id", None)
                if rng.random() < p * (0.6 if lvl else 1):
                    it["id"] = rng.choice([0, 1, 2, 3, 7, 127, 128, 200, 254, 255, rng.randint(0, 255)])
                    it["style"] = rng.choice([0, 0, 0, 1, 2, 3, 4])
            if fold(items):
                break
        else:
            for it in items:
                it.pop("id", None)


# -- the program -----------------------------------------------------------------------------------

PRELUDE = """#![allow(warnings)]
use gecs::prelude::*;
use std::collections::HashMap;
pub trait Tag { const T: u64; fn v(&self) -> u64; fn add(&mut self, x: u64); }
pub type Rec = (char, u64, u64);
pub type Lab = HashMap<EntityAny, u64>;
pub fn rc<X: Tag>(x: &X) -> Rec { ('c', X::T, x.v()) }
pub fn same<X>(_: &X, _: &X) {}
"""

MACROS = ["find", "find_borrow", "iter", "iter_borrow", "iter_destroy"]
STEP = 1_000_000_000


def value(label, tag):
    return label * 1000 + tag


def tags(spec):
    # names beginning with Undef are never defined: only disabled items use them
    names = sorted({c["n"] for a in spec["archs"] for c in a["comps"] if not c["n"].startswith("Undef")} | set(spec.get("extra", [])))
    return {n: i + 1 for i, n in enumerate(names)}


def labels(spec):
    """[(archetype index among the enabled, label)] of the live entities."""
    return [(i, i * 100 + j) for i, (a, _) in enumerate(live_archs(spec)) for j in range(a.get("ents", 2))]


def rec_code(spec, i, p, dirs):
    t = p["t"]
    n = pname(i, p)
    if t in ("C", "One"):
        if p["mut"]:
            return f"{{ let r = rc(&*{n}); {n}.add({STEP}); r }}"
        return f"rc({n})"
    ty = {"Ent": lambda: f"Entity<{p['a']}>", "EntWild": lambda: "Entity<MatchedArchetype>", "EntAny": lambda: "EntityAny",
          "Dir": lambda: f"EntityDirect<{p['a']}>", "DirWild": lambda: "EntityDirect<MatchedArchetype>",
          "DirAny": lambda: "EntityDirectAny"}[t]()
    if t.startswith("Ent"):
        return f"{{ let x: &{ty} = {n}; ('e', x.archetype_id() as u64, lab[&x.into_any()]) }}"
    if dirs:
        return f"{{ let x: &{ty} = {n}; dirs.push(x.into_any()); ('d', x.archetype_id() as u64, dirs.len() as u64 - 1) }}"
    return f"{{ let x: &{ty} = {n}; ('d', x.archetype_id() as u64, 0) }}"


def program(spec, strip=False, queries=None):
    """The whole program; `strip` deletes what #[cfg] disables instead of writing the attribute."""
    la = live_archs(spec)
    W = spec["name"] or "EcsWorld"
    tg = tags(spec)
    o = [PRELUDE]
    p = o.append
    for n, t in tg.items():
        p(f"#[derive(Clone)] pub struct {n}(pub u64); impl Tag for {n} {{ const T: u64 = {t}; "
          f"fn v(&self) -> u64 {{ self.0 }} fn add(&mut self, x: u64) {{ self.0 += x; }} }}")
    p(decl(spec, strip))
    p(f"fn mk() -> ({W}, Lab) {{ let mut w = {W}::new(); let mut lab = Lab::new();")
    for i, (a, cs) in enumerate(la):
        def tup(label):
            return "(" + "".join(f"{c['n']}({value(label, tg[c['n']])})," for c in cs) + ")"
        p(f"  let gone = w.create::<{a['name']}>({tup(99)});")
        for j in range(a.get("ents", 2)):
            p(f"  lab.insert(w.create::<{a['name']}>({tup(i * 100 + j)}).into_any(), {i * 100 + j});")
        p("  w.destroy(gone);")
    p("  (w, lab) }")
    p(f"fn dump(w: &mut {W}, lab: &Lab) {{ let mut v: Vec<(u64, u64, u64)> = Vec::new();")
    for i, (a, cs) in enumerate(la):
        p(f"  {{ let ar = w.archetype_mut::<{a['name']}>(); let es: Vec<u64> = ar.entities().iter().map(|e| lab[&e.into_any()]).collect();")
        p(f"    println!(\"  len {i} {{}} {{}}\", ar.len(), es.len());")
        for c in cs:
            p(f"    for (k, x) in ar.get_slice::<{c['n']}>().iter().enumerate() {{ v.push((es[k], {c['n']}::T, x.v())); }}")
        p("  }")
    p("  v.sort(); for x in v { println!(\"  now {} {} {}\", x.0, x.1, x.2); } }")
    p(f"fn res(w: &{W}, lab: &Lab, d: EntityDirectAny) -> u64 {{")
    for i, (a, cs) in enumerate(la):
        p(f"  if d.archetype_id() == {a['name']}::ARCHETYPE_ID {{ return w.archetype::<{a['name']}>().borrow(d).map_or(9998, |b| lab[&b.entity().into_any()]); }}")
    p("  9999 }")
    p(f"fn show(w: &{W}, lab: &Lab, mut vis: Vec<Vec<Rec>>, dirs: &Vec<EntityDirectAny>) {{ for v in vis.iter_mut() {{ for r in v.iter_mut() {{ "
      "if r.0 == 'd' && !dirs.is_empty() { r.2 = res(w, lab, dirs[r.2 as usize]); } } } vis.sort(); "
      "for v in vis { print!(\"  vis\"); for r in v { print!(\" {}:{}:{}\", r.0, r.1, r.2); } println!(); } }")
    calls = []
    for qi, q in enumerate(spec["queries"] if queries is None else queries):
        ps = plist(q["params"], strip)
        act = [(i, x) for i, x in enumerate(q["params"]) if on(x.get("cfgs", []))]
        for m in q.get("macros", MACROS):
            dirs = m != "iter_destroy"
            rec = "vec![('a', MatchedArchetype::ARCHETYPE_ID as u64, 0)" + "".join(", " + rec_code(spec, i, x, dirs) for i, x in act) + "]"
            fn = f"q{qi}_{m}"
            calls.append(fn)
            how = (q.get("world", 0) + MACROS.index(m)) % 4
            setup, W_ = {0: ("", "w"), 1: (f"let wr = &mut w;", "wr"), 2: (f"struct Ctx {{ world: {W} }} let mut ctx = Ctx {{ world: w }};", "ctx.world"),
                         3: (f"struct Ctx<'a> {{ inner: (u8, &'a mut {W}) }} let mut ctx = Ctx {{ inner: (0, &mut w) }};", "ctx.inner.1")}[how]
            back = {2: "let mut w = ctx.world;"}.get(how, "")
            p(f"fn {fn}(base: &{W}, lab: &Lab) {{ println!(\"S {fn}\");")
            head = f"let mut w = base.clone(); let mut dirs: Vec<EntityDirectAny> = Vec::new(); {setup} let mut vis: Vec<Vec<Rec>> = Vec::new();"
            tail = f"{back} show(&w, lab, vis, &dirs); dump(&mut w, lab);"
            if m in ("iter", "iter_borrow"):
                p(f"  {head} ecs_{m}!({W_}, |{ps}| {{ vis.push({rec}); }}); {tail} }}")
            elif m == "iter_destroy":
                # content decides, so that the order of visits does not matter
                p(f"  {head} ecs_iter_destroy!({W_}, |{ps}| {{ let v = {rec}; "
                  "let odd = v.iter().find_map(|r| match r.0 { 'c' => Some(r.2 / 1000 % 2 == 1), 'e' => Some(r.2 % 2 == 1), _ => None }).unwrap_or(false); "
                  f"vis.push(v); if odd {{ EcsStepDestroy::ContinueDestroy }} else {{ EcsStepDestroy::Continue }} }}); {tail} }}")
            else:
                for kind in range(4):
                    p(f"  {{ println!(\" key {kind}\"); {head} let mut n = 0u64; let mut got: Vec<(u64, Option<u64>, u64)> = Vec::new();")
                    for i, (a, cs) in enumerate(la):
                        ent = f"(e.0).try_into().unwrap()"
                        key = {0: f"let key: Entity<{a['name']}> = Entity::try_from(*e.0).unwrap();", 1: "let key: EntityAny = *e.0;",
                               2: f"let t: Entity<{a['name']}> = Entity::try_from(*e.0).unwrap(); let key: EntityDirect<{a['name']}> = base.to_direct(t).unwrap();",
                               3: f"let t: Entity<{a['name']}> = Entity::try_from(*e.0).unwrap(); let key: EntityDirectAny = base.to_direct(t).unwrap().into_any();"}[kind]
                        if kind in (1, 3) and i > 0:
                            continue
                        flt = f"e.0.archetype_id() == {a['name']}::ARCHETYPE_ID" if kind in (0, 2) else "true"
                        if kind == 3:
                            key = "let key: EntityDirectAny = match SelectEntity::try_from(*e.0).unwrap() { " + " ".join(
                                f"SelectEntity::{x['name']}(t) => base.to_direct(t).unwrap().into_any()," for x, _ in la) + " };"
                        ret = "-> u64 " if q.get("ret") else ""
                        p(f"    for e in lab.iter() {{ if {flt} {{ {key} n = 0; let r = ecs_{m}!({W_}, key, |{ps}| {ret}{{ n += 1; vis.push({rec}); n + 40 }}); got.push((*e.1, r, n)); }} }}")
                    p("    got.sort(); for g in got { println!(\"  got {} {:?} {}\", g.0, g.1, g.2); }")
                    p(f"    {tail} }}")
                p("}")
    p("fn main() { let (w, lab) = mk();")
    p(f"  println!(\"S ids\"); println!(\"  n {{}}\", {W}::NUM_ARCHETYPES);")
    for i, (a, cs) in enumerate(la):
        p(f"  println!(\"  arch {i} {{}}\", {a['name']}::ARCHETYPE_ID);")
        for c in cs:
            p(f"  println!(\"  comp {i} {tg[c['n']]} {{}}\", <{a['name']} as ArchetypeHas<{c['n']}>>::COMPONENT_ID);")
    p("  let mut w = w; println!(\"S base\"); dump(&mut w, &lab);")
    for c in calls:
        p(f"  {c}(&w, &lab);")
    p("}")
    return "\n".join(o) + "\n"


def expected(spec, queries=None):
    """What the program must print, as {section: sorted lines}."""
    la, tg, lb = live_archs(spec), tags(spec), labels(spec)
    aid, cid = ids(spec)
    out = {}
    out["ids"] = [f"n {len(la)}"] + [x for i, (a, cs) in enumerate(la) for x in
                                     [f"arch {i} {aid[i]}"] + [f"comp {i} {tg[c['n']]} {cid[i][k]}" for k, c in enumerate(cs)]]

    def dump(vals):
        lines = []
        for i, (a, cs) in enumerate(la):
            n = sum(1 for (ai, l) in lb if ai == i and (l, tg[cs[0]["n"]]) in vals)
            lines.append(f"len {i} {n} {n}")
        return lines + [f"now {l} {t} {v}" for (l, t), v in vals.items()]

    base = {(l, tg[c["n"]]): value(l, tg[c["n"]]) for i, l in lb for c in la[i][1]}
    out["base"] = dump(base)
    for qi, q in enumerate(spec["queries"] if queries is None else queries):
        ps = params_on(q["params"])
        st, matched = verdict(spec, q["params"])
        assert st == "ok"
        b = {i: bind(q["params"], *la[i]) for i in matched}

        def visit(i, l, dirs):
            r = [f"a:{aid[i]}:0"]
            for x, c in zip(ps, b[i]):
                if c is not None:
                    r.append(f"c:{tg[c]}:{value(l, tg[c])}")
                elif x["t"].startswith("Ent"):
                    r.append(f"e:{aid[i]}:{l}")
                else:
                    r.append(f"d:{aid[i]}:{l if dirs else 0}")
            return "vis " + " ".join(r)

        def after(drop_odd):
            vals = dict(base)
            for i, l in lb:
                if i in b:
                    if drop_odd and l % 2 == 1 and any(c is not None or x["t"].startswith("Ent") for x, c in zip(ps, b[i])):
                        for c in la[i][1]:
                            del vals[(l, tg[c["n"]])]
                        continue
                    for x, c in zip(ps, b[i]):
                        if c is not None and x["mut"]:
                            vals[(l, tg[c])] += STEP
            return vals

        for m in q.get("macros", MACROS):
            if m in ("iter", "iter_borrow"):
                out[f"q{qi}_{m}"] = [visit(i, l, True) for i, l in lb if i in b] + dump(after(False))
            elif m == "iter_destroy":
                out[f"q{qi}_{m}"] = [visit(i, l, False) for i, l in lb if i in b] + dump(after(True))
            else:
                lines = []
                for kind in range(4):
                    lines += [f"key {kind}"]
                    lines += [f"got {l} {'Some(41) 1' if i in b else 'None 0'}" for i, l in lb]
                    lines += [visit(i, l, True) for i, l in lb if i in b] + dump(after(False))
                out[f"q{qi}_{m}"] = lines
    return {k: sorted(v) for k, v in out.items()}


def parse_out(text):
    out, cur = {}, None
    for line in text.splitlines():
        if line.startswith("S "):
            cur = out.setdefault(line[2:].strip(), [])
        elif cur is not None:
            cur.append(line.strip())
    return {k: sorted(v) for k, v in out.items()}
