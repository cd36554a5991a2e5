#!/usr/bin/env python3
"""Writes the Rust source of the worlds the history engine drives.

gen_worlds.py DIR --seed N [--c32] [--random K] [--only A,B]

DIR becomes a cargo workspace: one library crate per world and the binary `run`.
"""
import argparse, os, random, re

KINDS = {"CompZero": 0, "CompByte": 1, "CompPlain": 2, "CompWord": 3, "CompAlign": 4, "CompWide": 5,
         "CompPad": 6, "CompBox": 7, "CompText": 8, "CompList": 9, "CompBulk": 10, "CompHalf": 11,
         "CompUnit": 12}
NUMS = []
for i in range(32):
    n = "Num" + "AB"[i // 16] + "abcdefghijklmnop"[i % 16]
    NUMS.append(n)
    KINDS[n] = 32 + i


def snake(n):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", n).lower()


STATIC = [
    ("Basic", [("ArchOne", None, ["CompWord", "CompPlain"]),
               ("ArchTwo", 128, ["CompBox", "CompWord", "CompByte"]),
               ("ArchThree", None, ["CompText", "CompPlain"])]),
    ("Layouts", [("ArchByte", 255, ["CompByte"]),
                 ("ArchZero", 0, ["CompZero"]),
                 ("ArchAlign", 7, ["CompByte", "CompAlign", "CompZero", "CompWide"]),
                 ("ArchPad", None, ["CompPad", "CompHalf", "CompBulk", "CompByte"])]),
    ("Heap", [("ArchHeap", 3, ["CompBox", "CompText", "CompList"]),
              ("ArchHeapTwo", None, ["CompList", "CompZero", "CompBox", "CompWord"])]),
    ("Many", [("ArchLots", None, ["CompWord", "CompBox", "CompByte", "CompAlign", "CompPlain", "CompText",
                                  "CompZero", "CompPad", "CompHalf", "NumAa", "NumAb", "NumAc", "NumAd",
                                  "NumAe", "NumAf", "NumAg"]),
              ("ArchNine", 200, ["NumAc", "NumAd", "CompWide", "NumAe", "CompList", "NumAf", "CompUnit",
                                 "NumAg", "CompByte"])]),
    ("Single", [("ArchOnly", 128, ["CompWord"])]),
    ("Tiny", [("ArchUnit", None, ["CompUnit"]),
              ("ArchTail", 254, ["CompUnit", "CompPlain"])]),
]
C32 = ("Wide", [("ArchSeventeen", None, NUMS[:16] + ["CompBox"]),
                ("ArchFull", 77, ["CompText", "CompZero"] + NUMS[2:31] + ["CompWord"]),
                ("ArchTwentyfour", None, NUMS[8:31] + ["CompByte"])])


def random_world(rng, i):
    pool = [k for k in KINDS if k.startswith("Comp")] + NUMS[:4]
    archs, used, last = [], set(), None
    names = ["ArchRed", "ArchRedder", "ArchBlue", "ArchB", "ArchGreen", "ArchGreenish"]
    rng.shuffle(names)
    for j in range(rng.randint(1, 5)):
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        comps = rng.sample(pool, n)
        nid = None
        if rng.random() < 0.5 or last == 255 or (last is not None and last + 1 in used):
            while nid is None or nid in used:
                nid = rng.choice([0, 1, 2, 63, 64, 127, 128, 254, 255, rng.randint(0, 255)]
                                 + [u ^ (1 << b) for u in sorted(used) for b in (7, 6, 4, rng.randint(0, 7))])
        real = nid if nid is not None else (0 if last is None else last + 1)
        used.add(real)
        last = real
        archs.append((names[j], nid, comps))
    return ("Rand" + "ABCDEFGHIJ"[i], archs)


def ids(archs):
    out, last = [], None
    for _, nid, _ in archs:
        last = nid if nid is not None else (0 if last is None else last + 1)
        out.append(last)
    return out


# query params: ("C", comp, mut) ("One", [comps], mut) ("Ent", arch) ("EntAny",) ...
def matches(params, name, comps):
    for p in params:
        if p[0] == "C" and p[1] not in comps:
            return False
        if p[0] == "One":
            n = sum(1 for c in p[1] if c in comps)
            if n > 1:
                return None
            if n == 0:
                return False
        if p[0] in ("Ent", "Dir") and p[1] != name:
            return False
    return True


def matched(params, archs):
    r = [matches(params, n, c) for n, _, c in archs]
    if None in r or True not in r:
        return None
    return [i for i, x in enumerate(r) if x]


def make_queries(rng, archs):
    qs = []

    def add(ps):
        if matched(ps, archs) is not None and ps not in qs:
            qs.append(ps)

    count = {}
    for _, _, cs in archs:
        for c in cs:
            count[c] = count.get(c, 0) + 1
    shared = sorted(count, key=lambda c: (-count[c], c))
    add([("EntAny",), ("DirAny",)])
    add([("C", shared[0], True), ("EntAny",), ("DirWild",)])
    # OneOf over a partition that hits several archetypes
    for _ in range(200):
        pick = rng.sample(sorted(count), min(len(count), rng.randint(2, 4))) if len(count) > 1 else []
        m = matched([("One", pick, True)], archs) if pick else None
        if m and (len(m) > 1 or len(archs) == 1):
            add([("EntWild",), ("One", pick, True), ("DirAny",)])
            break
    # every component of one archetype, typed handles
    big = max(range(len(archs)), key=lambda i: len(archs[i][2]))
    n, _, cs = archs[big]
    add([("Ent", n)] + [("C", c, i % 2 == 0) for i, c in enumerate(cs)] + [("Dir", n)])
    for n, _, cs in archs:
        if len(cs) >= 2:
            a, b = rng.sample(cs, 2)
            add([("C", a, False), ("DirWild",), ("C", b, True), ("EntWild",)])
    add([("C", shared[0], False), ("EntAny",)])
    for _ in range(2):
        n, _, cs = rng.choice(archs)
        k = rng.randint(1, min(3, len(cs)))
        ps = [("C", c, rng.random() < 0.6) for c in rng.sample(cs, k)]
        ps.insert(rng.randint(0, len(ps)), ("EntAny",))
        if rng.random() < 0.5:
            ps.insert(rng.randint(0, len(ps)), ("DirAny",))
        add(ps)
    return qs[:8]


def p_text(i, p):
    t = p[0]
    if t == "C":
        return f"p{i}: &{'mut ' if p[2] else ''}{p[1]}"
    if t == "One":
        return f"p{i}: &{'mut ' if p[2] else ''}OneOf<{', '.join(p[1])}>"
    return {"Ent": lambda: f"p{i}: &Entity<{p[1]}>", "Dir": lambda: f"p{i}: &EntityDirect<{p[1]}>",
            "EntAny": lambda: f"p{i}: &EntityAny", "DirAny": lambda: f"p{i}: &EntityDirectAny",
            "EntWild": lambda: f"p{i}: &Entity<_>", "DirWild": lambda: f"p{i}: &EntityDirect<_>"}[t]()


def p_meta(p, archs):
    t = p[0]
    if t == "C":
        return f"P::C({KINDS[p[1]]}, {str(p[2]).lower()})"
    if t == "One":
        return f"P::One(&[{', '.join(str(KINDS[c]) for c in p[1])}], {str(p[2]).lower()})"
    if t in ("Ent", "Dir"):
        return f"P::{t}({[a[0] for a in archs].index(p[1])})"
    return f"P::{t}"


def visit(params):
    ent, direct, cells = "None", "None", []
    for i, p in enumerate(params):
        if p[0] in ("Ent", "EntAny", "EntWild"):
            ent = f"Some(p{i}.into_any())"
        elif p[0] in ("Dir", "DirAny", "DirWild"):
            direct = f"Some(p{i}.into_any())"
        else:
            cells.append(f"Cell::{'M' if p[2] else 'R'}(p{i})")
    return (f"f(&mut Visit {{ arch: ix(MatchedArchetype::ARCHETYPE_ID), ent: {ent}, direct: {direct}, "
            f"index: None, cells: &mut [{', '.join(cells)}] }})")


def gen_world(rng, i, name, archs):
    W = "World" + name
    aid = ids(archs)
    qs = make_queries(rng, archs)
    o = []
    p = o.append
    p("#![allow(unused_variables, unused_mut, unused_imports, dead_code, unused_parens, non_snake_case)]")
    p("use harness::api::*;")
    p("ecs_world! {")
    p(f"    ecs_name!({W});")
    for n, nid, cs in archs:
        if nid is not None:
            p(f"    #[archetype_id({nid})]")
        p(f"    ecs_archetype!({n}, {', '.join(cs)});")
    p("}")
    p("fn ix(id: u8) -> usize { META.arch_by_id(id).expect(\"known archetype id\") }")
    p("fn step(x: u32) -> EcsStep { if x & 1 == 1 { EcsStep::Break } else { EcsStep::Continue } }")
    p("fn stepd(x: u32) -> EcsStepDestroy { match x & 3 { 0 => EcsStepDestroy::Continue, 1 => EcsStepDestroy::Break, "
      "2 => EcsStepDestroy::ContinueDestroy, _ => EcsStepDestroy::BreakDestroy } }")
    p(f"pub static META: Meta = Meta {{ name: \"{name}\", archs: &[")
    for (n, _, cs), d in zip(archs, aid):
        p(f"  ArchMeta {{ name: \"{n}\", id: {d}, kinds: &[{', '.join(str(KINDS[c]) for c in cs)}] }},")
    p("], queries: &[")
    for q in qs:
        text = ", ".join(p_text(k, x) for k, x in enumerate(q))
        p(f"  QueryMeta {{ text: \"{text}\", params: &[{', '.join(p_meta(x, archs) for x in q)}], "
          f"matched: &{matched(q, archs)} }},")
    p("] };")
    p(f"pub fn make(ctor: u32, caps: &[usize]) -> Box<dyn Api> {{ match ctor {{ 0 => Box::new({W}::new()), "
      f"1 => Box::new({W}::default()), _ => Box::new({W}::with_capacity({W}Capacity {{ "
      + ", ".join(f"{snake(a[0])}: caps[{k}]" for k, a in enumerate(archs)) + " })) } }")

    for k, (n, nid, cs) in enumerate(archs):
        p(f"fn read_{k}(c: &{n}Components) -> Vec<Result<u64, String>> {{ vec!["
          + ", ".join(f"c.{snake(x)}.read()" for x in cs) + "] }")
        p(f"fn read_get_{k}(c: {n}Components) -> Vec<Result<u64, String>> {{ vec!["
          + ", ".join(f"c.get::<{x}>().read()" for x in cs) + "] }")
        p(f"fn read_mut_{k}(mut c: {n}Components) -> Vec<Result<u64, String>> {{ vec!["
          + ", ".join(f"c.get_mut::<{x}>().read()" for x in cs) + "] }")
        p(f"fn read_tup_{k}(c: {n}Components) -> Vec<Result<u64, String>> {{ let t = c.into_tuple(); vec!["
          + ", ".join(f"t.{j}.read()" for j, x in enumerate(cs)) + "] }")
        p(f"fn tup_{k}(v: &[u64]) -> ({', '.join(cs)},) {{ ("
          + ", ".join(f"{x}::make(v[{j}])" for j, x in enumerate(cs)) + ",) }")
        # named fields written in another order than declared
        p(f"fn comps_{k}(v: &[u64]) -> {n}Components {{ {n}Components {{ "
          + ", ".join(f"{snake(x)}: {x}::make(v[{j}])" for j, x in reversed(list(enumerate(cs)))) + " } }")
        # a conversion written by the user, which may panic once the components exist
        p(f"struct Lazy{k}<'a>(&'a [u64]);")
        p(f"impl From<Lazy{k}<'_>> for {n}Components {{ fn from(v: Lazy{k}<'_>) -> Self {{ "
          f"user(|| {{ let c = comps_{k}(v.0); harness::comp::burn_into(); c }}) }} }}")

    def per(sig, body, dead=""):
        p(f"    fn {sig} {{ match a {{")
        for k, (n, nid, cs) in enumerate(archs):
            p(f"        {k} => {{ {body(k, n, snake(n), cs)} }}")
        p(f"        _ => unreachable!(),")
        p("    } }")

    p(f"impl Api for {W} {{")
    p("    fn meta(&self) -> &'static Meta { &META }")
    each = " ".join(f"w.{snake(a[0])}.clone_from(&self.{snake(a[0])});" for a in archs)
    lit = ", ".join(f"{snake(a[0])}: self.{snake(a[0])}.clone()" for a in archs)
    p(f"    fn x_clone(&self, how: u32) -> Box<dyn Api> {{ let w = match how {{ 0 => self.clone(), 1 => {W} {{ {lit} }}, "
      f"2 => {{ let mut w = {W}::new(); w.clone_from(self); w }}, _ => {{ let mut w = {W}::default(); {each} w }} }}; Box::new(w) }}")
    p(f"    fn x_clone_onto(&self, to: &mut dyn Api, each: bool) {{ let w = to.x_any().downcast_mut::<{W}>().unwrap(); "
      f"if each {{ {each} }} else {{ w.clone_from(self) }} }}")
    p("    fn x_any(&mut self) -> &mut dyn std::any::Any { self }")
    p("    fn x_move(self: Box<Self>) -> Box<dyn Api> { let w = *self; Box::new(w) }")
    per("x_len(&self, a: usize) -> (usize, bool)",
        lambda k, n, s, cs: f"(self.{s}.len(), self.archetype::<{n}>().is_empty())")
    per("x_cap(&self, a: usize) -> usize", lambda k, n, s, cs: f"self.{s}.capacity()")
    per("x_create(&mut self, a: usize, v: &[u64], how: u32) -> EntityAny",
        lambda k, n, s, cs: f"match how % 6 {{ 0 => self.create::<{n}>(tup_{k}(v)).into_any(), "
                            f"4 => self.create::<{n}>(Lazy{k}(v)).into_any(), 5 => self.{s}.create(Lazy{k}(v)).into(), "
                            f"1 => self.{s}.create(tup_{k}(v)).into_any(), "
                            f"2 => self.create::<{n}>(comps_{k}(v)).into(), "
                            f"_ => self.archetype_mut::<{n}>().create(comps_{k}(v)).into() }}")
    per("x_create_within(&mut self, a: usize, v: &[u64], how: u32) -> Result<EntityAny, Vec<Result<u64, String>>>",
        lambda k, n, s, cs: f"match how % 6 {{ 0 => self.create_within_capacity::<{n}>(tup_{k}(v)), "
                            f"4 => self.create_within_capacity::<{n}>(Lazy{k}(v)), 5 => self.{s}.create_within_capacity(Lazy{k}(v)), "
                            f"1 => self.{s}.create_within_capacity(tup_{k}(v)), "
                            f"2 => self.create_within_capacity::<{n}>(comps_{k}(v)), "
                            f"_ => self.archetype_mut::<{n}>().create_within_capacity(comps_{k}(v)) }}"
                            f".map(|e| e.into_any()).map_err(|c| read_{k}(&c))")
    per("x_contains(&self, a: usize, k: Key, world: bool) -> bool",
        lambda k, n, s, cs: f"g_contains::<{n}, {W}>(self, k, world)")
    per("x_resolve(&self, a: usize, k: Key) -> Option<usize>",
        lambda k, n, s, cs: f"g_resolve::<{n}, {W}>(self, k)")
    per("x_to_direct(&self, a: usize, k: Key, world: bool) -> Option<EntityDirectAny>",
        lambda k, n, s, cs: f"g_to_direct::<{n}, {W}>(self, k, world)")
    per("x_destroy(&mut self, a: usize, k: Key, world: bool, how: u32) -> Option<Option<Vec<Result<u64, String>>>>",
        lambda k, n, s, cs: f"let r: &dyn Fn({n}Components) -> Vec<Result<u64, String>> = match how & 3 {{ "
                            f"0 => &|c| user(|| read_{k}(&c)), 1 => &|c| user(|| read_get_{k}(c)), "
                            f"2 => &|c| user(|| read_mut_{k}(c)), _ => &|c| user(|| read_tup_{k}(c)) }}; "
                            f"g_destroy::<{n}, {W}>(self, k, world, r)")

    def view(k, n, s, cs):
        get = (f"match (k, world) {{ (Key::T(e), true) => World::view(self, te::<{n}>(e)), "
               f"(Key::DT(e), true) => World::view(self, td::<{n}>(e)), "
               f"(Key::T(e), false) => self.{s}.view(te::<{n}>(e)), (Key::DT(e), false) => self.{s}.view(td::<{n}>(e)), "
               f"(Key::A(e), _) => self.{s}.view(e), (Key::DA(e), _) => self.{s}.view(e) }}")
        fields = ", ".join(f"Cell::M(v.{snake(x)})" for x in cs)
        one = " ".join(f"f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [Cell::R(v.component::<{x}>())] }}); "
                       f"f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [Cell::M(v.component_mut::<{x}>())] }});"
                       for x in cs)
        return (f"let v = {get}; let Some(mut v) = v else {{ return false }}; "
                f"let (ent, index) = (Some(v.entity.into_any()), Some(v.index())); "
                f"if how & 1 == 0 {{ f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [{fields}] }}); }} "
                f"else {{ {one} }} true")
    per("x_view(&mut self, a: usize, k: Key, world: bool, how: u32, f: F) -> bool", view)

    def getb(n, s):
        return (f"match (k, world) {{ (Key::T(e), true) => World::borrow(self, te::<{n}>(e)), "
                f"(Key::DT(e), true) => World::borrow(self, td::<{n}>(e)), "
                f"(Key::T(e), false) => self.{s}.borrow(te::<{n}>(e)), (Key::DT(e), false) => self.{s}.borrow(td::<{n}>(e)), "
                f"(Key::A(e), _) => self.{s}.borrow(e), (Key::DA(e), _) => self.{s}.borrow(e) }}")

    def borrow(k, n, s, cs):
        one = " ".join(f"f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [Cell::R(&*b.component::<{x}>())] }}); "
                       f"f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [Cell::M(&mut *twin.component_mut::<{x}>())] }});"
                       for x in cs)
        guards = " ".join(f"let mut g{j} = b.component_mut::<{x}>();" for j, x in enumerate(cs))
        cells = ", ".join(f"Cell::M(&mut *g{j})" for j, x in enumerate(cs))
        rguards = " ".join(f"let g{j} = b.component::<{x}>();" for j, x in enumerate(cs))
        rcells = ", ".join(f"Cell::R(&*g{j})" for j, x in enumerate(cs))
        return (f"let b = {getb(n, s)}; let Some(b) = b else {{ return false }}; "
                f"let (ent, index) = (Some(b.entity().into_any()), Some(b.index())); "
                f"let twin = b; match how % 3 {{ 0 => {{ {one} }} "
                f"1 => {{ {guards} f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [{cells}] }}); }} "
                f"_ => {{ {rguards} f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [{rcells}] }}); }} }} true")
    per("x_borrow(&self, a: usize, k: Key, world: bool, how: u32, f: F) -> bool", borrow)

    def bcell(k, n, s, cs):
        arms = " ".join(
            f"({j}, false) => {{ let g = b.component::<{x}>(); f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [Cell::R(&*g)] }}); }} "
            f"({j}, true) => {{ let mut g = b.component_mut::<{x}>(); f(&mut Visit {{ arch: {k}, ent, direct: None, index, cells: &mut [Cell::M(&mut *g)] }}); }}"
            for j, x in enumerate(cs))
        return (f"let world = false; let b = {getb(n, s)}; let Some(b) = b else {{ return false }}; "
                f"let (ent, index) = (Some(b.entity().into_any()), Some(b.index())); match (c, m) {{ {arms} _ => unreachable!() }} true")
    per("x_borrow_cell(&self, a: usize, k: Key, c: usize, m: bool, f: F) -> bool", bcell)

    def sl(get, getm):
        def body(k, n, s, cs):
            arms = []
            for j, x in enumerate(cs):
                for m, g in ((False, get), (True, getm)):
                    it = "iter_mut().enumerate()" if m else "iter().enumerate()"
                    cell = "Cell::M(x)" if m else "Cell::R(x)"
                    mut = "mut " if m and "borrow" in g else ""
                    arms.append(f"({j}, {str(m).lower()}) => {{ let {mut}s = self.{s}.{g}::<{x}>(); for (i, x) in s.{it} {{ "
                                f"if f(&mut Visit {{ arch: {k}, ent: None, direct: None, index: Some(i), cells: &mut [{cell}] }}) & 1 == 1 {{ break; }} }} }}")
            return f"match (c, m) {{ {' '.join(arms)} _ => unreachable!() }}"
        return body
    per("x_slice(&mut self, a: usize, c: usize, m: bool, f: F)", sl("get_slice", "get_slice_mut"))
    per("x_borrow_slice(&self, a: usize, c: usize, m: bool, f: F)", sl("borrow_slice", "borrow_slice_mut"))

    def hold(k, n, s, cs):
        arms = " ".join(f"({j}, false) => {{ let s = self.{s}.borrow_slice::<{x}>(); f(s.len()); }} "
                        f"({j}, true) => {{ let s = self.{s}.borrow_slice_mut::<{x}>(); f(s.len()); }}" for j, x in enumerate(cs))
        return f"match (c, m) {{ {arms} _ => unreachable!() }}"
    per("x_hold_slice(&self, a: usize, c: usize, m: bool, f: &mut dyn FnMut(usize))", hold)

    def allsl(k, n, s, cs):
        cells = ", ".join(f"Cell::M(&mut s.{snake(x)}[i])" for x in cs)
        lens = ", ".join(f"s.{snake(x)}.len()" for x in cs)
        mn = f"[{lens}].into_iter().min().unwrap().min(s.entity.len())"
        return (f"let s = self.{s}.get_all_slices_mut(); for i in 0..{mn} {{ "
                f"if f(&mut Visit {{ arch: {k}, ent: Some(s.entity[i].into_any()), direct: None, index: Some(i), cells: &mut [{cells}] }}) & 1 == 1 {{ break; }} }} "
                f"user(|| vec![s.entity.len(), {lens}])")
    per("x_all_slices(&mut self, a: usize, f: F) -> Vec<usize>", allsl)

    def it(k, n, s, cs):
        pat = "".join(f", c{j}" for j in range(len(cs)))
        r = ", ".join(f"Cell::R(c{j})" for j in range(len(cs)))
        m = ", ".join(f"Cell::M(c{j})" for j in range(len(cs)))
        v = "f(&mut Visit {{ arch: {k}, ent: Some(e.into_any()), direct: None, index: Some(i), cells: &mut [{c}] }}) & 1 == 1"
        return (f"if m {{ for (i, (e{pat})) in self.{s}.iter_mut().enumerate() {{ if {v.format(k=k, c=m)} {{ break; }} }} }} "
                f"else {{ for (i, (e{pat})) in self.archetype_mut::<{n}>().iter().enumerate() {{ if {v.format(k=k, c=r)} {{ break; }} }} }}")
    per("x_iter(&mut self, a: usize, m: bool, f: F)", it)
    def its(k, n, s, cs):
        pat = "".join(f", c{j}" for j in range(len(cs)))
        r = ", ".join(f"Cell::R(c{j})" for j in range(len(cs)))
        m = ", ".join(f"Cell::M(c{j})" for j in range(len(cs)))
        v = "|i, (e{p})| {{ f(&mut Visit {{ arch: {k}, ent: Some(e.into_any()), direct: None, index: Some(i), cells: &mut [{c}] }}); }}"
        return (f"if m {{ script(self.{s}.iter_mut(), how, len, false, {v.format(p=pat, k=k, c=m)}) }} "
                f"else {{ script(self.{s}.iter(), how, len, false, {v.format(p=pat, k=k, c=r)}) }}")
    per("x_iter_script(&mut self, a: usize, m: bool, how: u32, len: usize, f: F) -> Vec<String>", its)
    per("x_entities(&self, a: usize) -> Vec<EntityAny>", lambda k, n, s, cs: f"g_entities::<{n}, {W}>(self)")
    per("x_entity_at(&self, a: usize, i: usize) -> Option<EntityAny>", lambda k, n, s, cs: f"g_entity_at::<{n}, {W}>(self, i)")

    def queries(sig, macro, conv, key=False):
        p(f"    fn {sig} {{ match q {{")
        for k, q in enumerate(qs):
            text = ", ".join(p_text(j, x) for j, x in enumerate(q))
            if key:
                call = (f"match k {{ Key::T(e) | Key::A(e) => {macro}!(self, e, |{text}| -> u32 {{ {visit(q)} }}), "
                        f"Key::DT(e) | Key::DA(e) => {macro}!(self, e, |{text}| {{ {visit(q)} }}) }}")
                p(f"        {k} => {call},")
            else:
                p(f"        {k} => {{ {macro}!(self, |{text}| {{ {conv}({visit(q)}) }}); }}")
        p("        _ => unreachable!(),")
        p("    } }")
    queries("x_query_iter(&mut self, q: usize, f: F)", "ecs_iter", "step")
    queries("x_query_iter_borrow(&self, q: usize, f: F)", "ecs_iter_borrow", "step")
    queries("x_query_iter_destroy(&mut self, q: usize, f: F)", "ecs_iter_destroy", "stepd")
    # closures that return nothing, or EcsStep where EcsStepDestroy is expected
    p("    fn x_query_iter_as(&mut self, q: usize, how: u32, f: F) { match (q, how) {")
    for k, q in enumerate(qs[:2]):
        text = ", ".join(p_text(j, x) for j, x in enumerate(q))
        p(f"        ({k}, 0) => {{ ecs_iter!(self, |{text}| {{ {visit(q)}; }}); }}")
        p(f"        ({k}, 1) => {{ ecs_iter_borrow!(self, |{text}| {{ {visit(q)}; }}); }}")
        p(f"        ({k}, 2) => {{ ecs_iter_destroy!(self, |{text}| {{ {visit(q)}; }}); }}")
        p(f"        ({k}, _) => {{ ecs_iter_destroy!(self, |{text}| {{ step({visit(q)}) }}); }}")
    p("        _ => unreachable!(),")
    p("    } }")
    queries("x_find(&mut self, q: usize, k: Key, f: F) -> Option<u32>", "ecs_find", "", True)
    queries("x_find_borrow(&self, q: usize, k: Key, f: F) -> Option<u32>", "ecs_find_borrow", "", True)

    def farch(macro, borrow):
        def body(k, n, s, cs):
            # two parameter orders: handles first / handles last
            qa = [("Ent", n)] + [("C", c, j % 2 == k % 2) for j, c in enumerate(cs)] + [("DirWild",)]
            qb = [("C", c, j % 2 == (k + 1) % 2) for j, c in reversed(list(enumerate(cs)))] + [("EntAny",), ("DirAny",)]
            ta = ", ".join(p_text(j, x) for j, x in enumerate(qa))
            tb = ", ".join(p_text(j, x) for j, x in enumerate(qb))
            return (f"match k {{ Key::T(e) => {{ let key = te::<{n}>(e); {macro}!(self, key, |{ta}| {{ {visit(qa)} }}) }} "
                    f"Key::DT(e) => {{ let key = td::<{n}>(e); {macro}!(self, key, |{tb}| {{ {visit(qb)} }}) }} "
                    f"Key::A(e) => {macro}!(self, e, |{tb}| {{ {visit(qb)} }}), "
                    f"Key::DA(e) => {macro}!(self, e, |{ta}| {{ {visit(qa)} }}) }}")
        return body
    per("x_find_arch(&mut self, a: usize, k: Key, f: F) -> Option<u32>", farch("ecs_find", False))
    per("x_find_arch_borrow(&self, a: usize, k: Key, f: F) -> Option<u32>", farch("ecs_find_borrow", True))

    p("    fn x_preset(&mut self, a: usize, slot: &dyn Fn(u32) -> u32, arch: u32) -> bool {")
    p("        #[cfg(feature = \"hook\")] { match a { "
      + " ".join(f"{k} => self.{snake(x[0])}.data.verif_preset_versions(slot, arch)," for k, x in enumerate(archs))
      + " _ => unreachable!() } return true; }")
    p("        #[cfg(not(feature = \"hook\"))] { false }")
    p("    }")
    p("    fn x_events(&self, a: usize) -> Option<(Vec<EntityAny>, Vec<EntityAny>)> {")
    p("        #[cfg(feature = \"events\")] { return Some(match a { "
      + " ".join(f"{k} => (self.{snake(x[0])}.iter_created().map(|e| e.into_any()).collect(), "
                 f"self.{snake(x[0])}.iter_destroyed().map(|e| e.into_any()).collect())," for k, x in enumerate(archs))
      + " _ => unreachable!() }); }")
    p("        #[cfg(not(feature = \"events\"))] { None }")
    p("    }")
    p("    fn x_events_world(&self, created: bool) -> Option<(Vec<EntityAny>, Vec<(usize, Option<usize>)>)> {")
    p("        #[cfg(feature = \"events\")] { fn go<'a>(mut it: impl Iterator<Item = &'a EntityAny>) -> (Vec<EntityAny>, Vec<(usize, Option<usize>)>) { "
      "let (mut v, mut h) = (Vec::new(), vec![it.size_hint()]); while let Some(e) = it.next() { v.push(*e); h.push(it.size_hint()); } "
      "h.push(it.size_hint()); (v, h) } return Some(if created { go(self.iter_created()) } else { go(self.iter_destroyed()) }); }")
    p("        #[cfg(not(feature = \"events\"))] { None }")
    p("    }")
    p("    fn x_events_script(&self, a: Option<usize>, created: bool, how: u32, len: usize) -> Option<(Vec<String>, Vec<(usize, EntityAny)>)> {")
    p("        #[cfg(feature = \"events\")] { let mut v = Vec::new(); let n = match (a, created) { "
      "(None, true) => script(self.iter_created(), how, len, true, |i, e| v.push((i, *e))), "
      "(None, false) => script(self.iter_destroyed(), how, len, true, |i, e| v.push((i, *e))), "
      + " ".join(f"(Some({k}), true) => script(self.{snake(x[0])}.iter_created(), how, len, false, |i, e| v.push((i, e.into_any()))), "
                 f"(Some({k}), false) => script(self.archetype::<{x[0]}>().iter_destroyed(), how, len, false, |i, e| v.push((i, e.into_any()))),"
                 for k, x in enumerate(archs))
      + " _ => unreachable!() }; return Some((n, v)); }")
    p("        #[cfg(not(feature = \"events\"))] { None }")
    p("    }")
    p("    fn x_clear_events(&mut self, a: Option<usize>) {")
    p("        #[cfg(feature = \"events\")] match a { None => self.clear_events(), "
      + " ".join(f"Some({k}) => self.{snake(x[0])}.clear_events()," for k, x in enumerate(archs)) + " _ => unreachable!() }")
    p("    }")
    per("x_conv(&self, a: usize, e: EntityAny) -> Conv", lambda k, n, s, cs: f"g_conv::<{n}>(e)")
    per("x_conv_direct(&self, a: usize, e: EntityDirectAny) -> Vec<String>", lambda k, n, s, cs: f"g_conv_direct::<{n}>(e)")
    # A single-archetype world has irrefutable matches, hence no wildcard arm here.
    sarms = " ".join(f"SelectEntity::{x[0]}(t) => Some(({k}, Some(t.into_any())))," for k, x in enumerate(archs))
    saarms = " ".join(f"SelectArchetype::{x[0]} => Some(({k}, None))," for k, x in enumerate(archs))
    sdarms = " ".join(f"SelectEntityDirect::{x[0]}(t) => Some(({k}, Some(t.into_any())))," for k, x in enumerate(archs))
    arms = " ".join(f"Ok(SelectEntity::{x[0]}(t)) => Some(({k}, Some(t.into_any())))," for k, x in enumerate(archs))
    aarms = " ".join(f"Ok(SelectArchetype::{x[0]}) => Some(({k}, None))," for k, x in enumerate(archs))
    darms = " ".join(f"Ok(SelectEntityDirect::{x[0]}(t)) => Some(({k}, Some(t.into_any())))," for k, x in enumerate(archs))
    p("    fn x_select(&self, e: EntityAny) -> Vec<(&'static str, Option<(usize, Option<EntityAny>)>)> { vec![ "
      f"(\"SelectEntity::try_from(EntityAny)\", match SelectEntity::try_from(e) {{ {arms} Err(_) => None }}), "
      f"(\"SelectArchetype::try_from(EntityAny)\", match SelectArchetype::try_from(e) {{ {aarms} Err(_) => None }}) ] }}")
    p("    fn x_select_direct(&self, e: EntityDirectAny) -> Vec<(&'static str, Option<(usize, Option<EntityDirectAny>)>)> { vec![ "
      f"(\"SelectEntityDirect::try_from(EntityDirectAny)\", match SelectEntityDirect::try_from(e) {{ {darms} Err(_) => None }}) ] }}")
    aarms2 = " ".join(f"Ok(s @ SelectArchetype::{x[0]}) => Some(({k}, s.archetype_id()))," for k, x in enumerate(archs))
    p(f"    fn x_select_id(&self, id: u8) -> Option<(usize, u8)> {{ match SelectArchetype::try_from(id) {{ {aarms2} Err(_) => None }} }}")
    per("x_select_typed(&self, a: usize, e: EntityAny) -> Vec<(&'static str, Option<(usize, Option<EntityAny>)>)>",
        lambda k, n, s, cs: f"let t = te::<{n}>(e); vec![(\"SelectEntity::from(Entity<A>)\", match SelectEntity::from(t) {{ {sarms} }}), "
                            f"(\"SelectEntity::from(&Entity<A>)\", match SelectEntity::from(&t) {{ {sarms} }}), "
                            f"(\"SelectArchetype::from(Entity<A>)\", match SelectArchetype::from(t) {{ {saarms} }})]")
    per("x_select_typed_direct(&self, a: usize, e: EntityDirectAny) -> Vec<(&'static str, Option<(usize, Option<EntityDirectAny>)>)>",
        lambda k, n, s, cs: f"let t = td::<{n}>(e); vec![(\"SelectEntityDirect::from(EntityDirect<A>)\", match SelectEntityDirect::from(t) {{ {sdarms} }}), "
                            f"(\"SelectEntityDirect::from(&EntityDirect<A>)\", match SelectEntityDirect::from(&t) {{ {sdarms} }}), "
                            f"(\"SelectArchetype::from(EntityDirect<A>)\", match SelectArchetype::from(t) {{ {saarms} }})]")
    per("x_typed_eq(&self, a: usize, x: EntityAny, y: EntityAny) -> (bool, bool)",
        lambda k, n, s, cs: f"g_eq(&te::<{n}>(x), &te::<{n}>(y))")
    per("x_typed_eq_direct(&self, a: usize, x: EntityDirectAny, y: EntityDirectAny) -> (bool, bool)",
        lambda k, n, s, cs: f"g_eq(&td::<{n}>(x), &td::<{n}>(y))")
    per("x_forged_typed(&mut self, a: usize, e: EntityAny, what: u32) -> Forged",
        lambda k, n, s, cs: f"g_forged::<{n}, {W}>(self, e, what)")
    per("x_forged_typed_direct(&mut self, a: usize, e: EntityDirectAny, what: u32) -> Forged",
        lambda k, n, s, cs: f"g_forged_direct::<{n}, {W}>(self, e, what)")
    p("}")
    return "\n".join(o) + "\n"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("dir")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--c32", action="store_true")
    ap.add_argument("--random", type=int, default=2)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    rng = random.Random(a.seed * 7919 + 17)
    worlds = STATIC + [C32] * a.c32
    if a.only:
        worlds = [w for w in worlds if w[0] in a.only.split(",")]
    for i in range(a.random):
        worlds.append(random_world(rng, i))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    feats = ["events", "c32", "wrap", "sysalloc", "hook"]
    members, entries = [], []

    def put(path, text):
        path = os.path.join(a.dir, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)

    for i, (n, archs) in enumerate(worlds):
        c = "w_" + snake(n)
        members.append(c)
        put(f"{c}/Cargo.toml", f"""[package]
name = "{c}"
version = "0.0.0"
edition = "2021"
[features]
""" + "".join(f'{f} = ["harness/{f}"]\n' for f in feats) + f"""[dependencies]
harness = {{ path = "{here}/harness" }}
gecs = {{ path = "/repo", default-features = false }}
""")
        put(f"{c}/src/lib.rs", gen_world(random.Random(a.seed * 31 + i), i, n, archs))
        entries.append(f"harness::Entry {{ meta: &{c}::META, make: {c}::make }}")
    put("run/Cargo.toml", """[package]
name = "run"
version = "0.0.0"
edition = "2021"
[features]
""" + "".join(f'{f} = [' + ", ".join(f'"{m}/{f}"' for m in ["harness"] + members) + ']\n' for f in feats)
        + f"""[dependencies]
harness = {{ path = "{here}/harness" }}
""" + "".join(f'{m} = {{ path = "../{m}" }}\n' for m in members))
    put("run/src/main.rs", "fn main() { harness::main(&[" + ", ".join(entries) + "]) }\n")
    put("Cargo.toml", """[workspace]
resolver = "2"
members = [""" + ", ".join(f'"{m}"' for m in ["run"] + members) + """]
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
[profile.release]
opt-level = 2
debug = 0
debug-assertions = false
overflow-checks = false
incremental = false
codegen-units = 16
""")


main()
