"""C18: expansions are free of unsafe, and unsound client programs do not compile while their sound twins do."""
from progs import *
from world import *
from c16 import snake

SPECS = {"quick": 60, "thorough": 1500}
RULE = ("One case is a client function over a generated world with component types of all Send/Sync kinds: an unsound one that must be rejected by the compiler "
        "(found in a batch, confirmed alone), or its sound twin that must be accepted; or one generated program whose expansion is searched for the token "
        "`unsafe` and which must be accepted under forbid(unsafe_code). Distinct by program text; non-trivial when it must be rejected, "
        "or when the searched expansion holds queries.")

# name: (type, value, Send, Sync)
KINDS = {
    "u64": ("u64", "7", 1, 1), "string": ("String", "String::new()", 1, 1), "unit": ("()", "()", 1, 1),
    "arr": ("[Vec<u8>; 3]", "Default::default()", 1, 1), "fnp": ("fn(u8) -> u8", "|x| x", 1, 1),
    "dynss": ("Box<dyn StdAny + Send + Sync>", "Box::new(1u8)", 1, 1), "atomic": ("Arc<AtomicU8>", "Default::default()", 1, 1),
    "cell": ("Cell<u32>", "Cell::new(1)", 1, 0), "refcell": ("RefCell<String>", "Default::default()", 1, 0),
    "dyns": ("Box<dyn StdAny + Send>", "Box::new(1u8)", 1, 0), "recv": ("Option<std::sync::mpsc::Receiver<u8>>", "None", 1, 0),
    "guard": ("Option<MutexGuard<'static, u8>>", "None", 0, 1),
    "rc": ("Rc<u32>", "Rc::new(1)", 0, 0), "ptr": ("*const u8", "std::ptr::null()", 0, 0), "ptrm": ("*mut u64", "std::ptr::null_mut()", 0, 0),
    "arccell": ("Arc<Cell<u8>>", "Default::default()", 0, 0), "dyn": ("Box<dyn StdAny>", "Box::new(1u8)", 0, 0),
    "refc": ("Option<&'static Cell<u8>>", "None", 0, 0), "phantom": ("PhantomData<Rc<u8>>", "PhantomData", 0, 0), "weak": ("std::rc::Weak<u8>", "Default::default()", 0, 0),
}
FRIENDLY = [k for k, v in KINDS.items() if v[2] and v[3]]

PRE = """#![allow(warnings)]
#![forbid(unsafe_code)]
use gecs::prelude::*;
use std::{any::Any as StdAny, cell::{Cell, RefCell}, marker::PhantomData, rc::Rc, sync::{Arc, MutexGuard, atomic::AtomicU8}};
fn hold<T: ?Sized>(_: &T) {}
fn is_static<T: 'static>(_: T) {}
fn is_any<T>(_: T) {}
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn copy<T: Copy>() {}
fn yes<T>() {}
fn vsend<T: Send>(_: T) {}
fn vsync<T: Sync>(_: T) {}
"""

# What to hold: name -> (code that ends with `h` bound, exclusive access to component columns?, needs the events feature)
HOLD = {
    "view": ("let mut h = W.view(K).unwrap();", 1), "view field": ("let h = W.view(K).unwrap().F;", 1),
    "view component": ("let mut v = W.view(K).unwrap(); let h = v.component::<C>();", 1),
    "view component_mut": ("let mut v = W.view(K).unwrap(); let h = v.component_mut::<C>();", 1),
    "view entity": ("let h = W.view(K).unwrap().entity;", 0), "view reborrow": ("let v = W.view(K).unwrap(); let h = &*v.F;", 1),
    "option of view": ("let mut h = W.view(K);", 1),
    "archetype view": ("let mut h = W.archetype_mut::<A>().view(K).unwrap();", 1), "archetype view by any": ("let mut h = W.archetype_mut::<A>().view(n).unwrap();", 1),
    "archetype view by directany": ("let h = W.archetype_mut::<A>().view(q).unwrap().F;", 1),
    "field view": ("let mut h = W.a.view(K).unwrap();", 1),
    "borrow": ("let h = W.borrow(K).unwrap();", 0), "borrow copy": ("let h = { let b = W.borrow(K).unwrap(); b };", 0), "borrow component": ("let b = W.borrow(K).unwrap(); let h = b.component::<C>();", 0),
    "borrow component_mut": ("let b = W.borrow(K).unwrap(); let h = b.component_mut::<C>();", 0),
    "borrow entity": ("let b = W.borrow(K).unwrap(); let h = b.entity();", 0), "archetype borrow": ("let h = W.archetype::<A>().borrow(K).unwrap();", 0),
    "field borrow": ("let h = W.a.borrow(n).unwrap();", 0),
    "get_slice": ("let h = W.archetype_mut::<A>().get_slice::<C>();", 1), "get_slice_mut": ("let h = W.archetype_mut::<A>().get_slice_mut::<C>();", 1),
    "field get_slice": ("let h = W.a.get_slice::<C>();", 1), "slice element": ("let h = &W.archetype_mut::<A>().get_slice::<C>()[0];", 1),
    "slice element mut": ("let h = &mut W.archetype_mut::<A>().get_slice_mut::<C>()[0];", 1), "slice iter": ("let mut h = W.archetype_mut::<A>().get_slice::<C>().iter();", 1),
    "slice iter_mut": ("let mut h = W.archetype_mut::<A>().get_slice_mut::<C>().iter_mut();", 1),
    "all slices": ("let h = W.archetype_mut::<A>().get_all_slices_mut();", 1), "all slices field": ("let h = W.archetype_mut::<A>().get_all_slices_mut().F;", 1),
    "all slices entity": ("let h = W.archetype_mut::<A>().get_all_slices_mut().entity;", 0), "all slices element": ("let sl = W.archetype_mut::<A>().get_all_slices_mut(); let h = &mut sl.F[0];", 1),
    "borrow_slice": ("let h = W.archetype::<A>().borrow_slice::<C>();", 0), "borrow_slice_mut": ("let h = W.archetype::<A>().borrow_slice_mut::<C>();", 0),
    "borrow_slice element": ("let sl = W.archetype::<A>().borrow_slice::<C>(); let h = &sl[0];", 0),
    "borrow_slice_mut element": ("let mut sl = W.archetype::<A>().borrow_slice_mut::<C>(); let h = &mut sl[0];", 0),
    "mapped borrow_slice": ("let h = std::cell::Ref::map(W.archetype::<A>().borrow_slice::<C>(), |s| &s[0]);", 0),
    "entities": ("let h = W.archetype::<A>().entities();", 0), "entities element": ("let h = &W.archetype::<A>().entities()[0];", 0),
    "iter": ("let mut h = W.archetype_mut::<A>().iter();", 1), "iter_mut": ("let mut h = W.archetype_mut::<A>().iter_mut();", 1),
    "iter item": ("let h = W.archetype_mut::<A>().iter().next().unwrap();", 1), "iter_mut item": ("let h = W.archetype_mut::<A>().iter_mut().next().unwrap();", 1),
    "iter item entity": ("let h = W.archetype_mut::<A>().iter().next().unwrap().0;", 0), "iter item component": ("let h = W.archetype_mut::<A>().iter().next().unwrap().N;", 1),
    "iter_mut item component": ("let h = W.archetype_mut::<A>().iter_mut().next().unwrap().N;", 1),
    "collected iter": ("let h: Vec<_> = W.archetype_mut::<A>().iter().collect();", 1), "collected iter_mut": ("let h: Vec<_> = W.archetype_mut::<A>().iter_mut().collect();", 1),
    "iter_mut last": ("let h = W.a.iter_mut().last();", 1), "mapped iter_mut": ("let h = W.a.iter_mut().map(|x| x.N).next();", 1),
    "archetype": ("let h = W.archetype::<A>();", 0), "archetype_mut": ("let h = W.archetype_mut::<A>();", 1),
    "archetype field": ("let h = &W.a;", 0), "archetype field mut": ("let h = &mut W.a;", 1),
    "generic view": ("let mut h = gview::<World_, A, _>(&mut W, K);", 1), "generic slice": ("let h = gslice::<A>(&mut W.a);", 1),
    "iter_created": ("let mut h = W.iter_created();", 0), "iter_destroyed": ("let mut h = W.iter_destroyed();", 0),
    "iter_created item": ("let h = W.iter_created().next();", 0), "archetype iter_created": ("let mut h = W.archetype::<A>().iter_created();", 0),
    "archetype iter_destroyed item": ("let h = W.archetype::<A>().iter_destroyed().next();", 0),
}
EVENTS = {k for k in HOLD if "iter_created" in k or "iter_destroyed" in k}

CHANGE = {
    "create": "W.create::<A>(T);", "create_within_capacity": "let _ = W.create_within_capacity::<A>(T);", "create another": "W.create::<B>(U);",
    "destroy": "W.destroy(e2);", "destroy any": "W.destroy(n);", "destroy direct": "W.destroy(d);", "destroy directany": "W.destroy(q);",
    "archetype create": "W.archetype_mut::<A>().create(T);", "archetype destroy": "W.archetype_mut::<A>().destroy(e2);",
    "archetype create_within_capacity": "let _ = W.archetype_mut::<A>().create_within_capacity(T);",
    "field create": "W.a.create(T);", "field destroy": "W.a.destroy(n);", "replace archetype": "W.a = A::new();", "replace world": "W = World_::new();",
    "take world": "std::mem::take(&mut W);", "swap worlds": "std::mem::swap(&mut W, &mut World_::new());", "take archetype": "std::mem::take(&mut W.a);",
    "iter_destroy": "ecs_iter_destroy!(W, |_e: &EntityAny| { EcsStepDestroy::ContinueDestroy });", "iter_destroy some": "ecs_iter_destroy!(W, |c: &mut C| { EcsStepDestroy::BreakDestroy });",
    "generic create": "gcreate::<World_, A>(&mut W, T);", "generic destroy": "gdestroy(&mut W, e2);",
}
OWNED = {"drop world": "drop(W);", "move world": "let moved = W;", "move archetype": "let moved = W.a;"}
CLEAR = {"clear_events": "W.clear_events();", "archetype clear_events": "W.archetype_mut::<A>().clear_events();"}

# things that must not be writable: (must be rejected, twin)
READONLY = {
    "view entity": ("*W.view(K).unwrap().entity = e2;", "let _x = *W.view(K).unwrap().entity;"),
    "all slices entity": ("W.archetype_mut::<A>().get_all_slices_mut().entity[0] = e2;", "let _x = W.archetype_mut::<A>().get_all_slices_mut().entity[0];"),
    "all slices entity swap": ("W.archetype_mut::<A>().get_all_slices_mut().entity.swap(0, 1);", "W.archetype_mut::<A>().get_all_slices_mut().F.swap(0, 1);"),
    "entities": ("W.archetype_mut::<A>().entities()[0] = e2;", "let _x = W.archetype_mut::<A>().entities()[0];"),
    "iter_mut entity": ("*W.archetype_mut::<A>().iter_mut().next().unwrap().0 = e2;", "let _x = *W.archetype_mut::<A>().iter_mut().next().unwrap().0;"),
    "iter entity": ("*W.archetype_mut::<A>().iter().next().unwrap().0 = e2;", "let _x = *W.archetype_mut::<A>().iter().next().unwrap().0;"),
    "borrow entity": ("*W.borrow(K).unwrap().entity() = e2;", "let _x = *W.borrow(K).unwrap().entity();"),
    "get_slice": ("W.archetype_mut::<A>().get_slice::<C>()[0] = V;", "W.archetype_mut::<A>().get_slice_mut::<C>()[0] = V;"),
    "borrow_slice": ("W.archetype::<A>().borrow_slice::<C>()[0] = V;", "W.archetype::<A>().borrow_slice_mut::<C>()[0] = V;"),
    "iter component": ("*W.archetype_mut::<A>().iter().next().unwrap().N = V;", "*W.archetype_mut::<A>().iter_mut().next().unwrap().N = V;"),
    "view component": ("let mut v = W.view(K).unwrap(); *v.component::<C>() = V;", "let mut v = W.view(K).unwrap(); *v.component_mut::<C>() = V;"),
    "component_mut of shared view": ("let mut v = W.view(K).unwrap(); let r = &v; *r.component_mut::<C>() = V;", "let mut v = W.view(K).unwrap(); let r = &mut v; *r.component_mut::<C>() = V;"),
    "borrow component": ("let b = W.borrow(K).unwrap(); *b.component::<C>() = V;", "let b = W.borrow(K).unwrap(); *b.component_mut::<C>() = V;"),
    "view of shared archetype": ("let r = W.archetype::<A>(); let h = r.view(K);", "let r = W.archetype_mut::<A>(); let h = r.view(K);"),
    "slice of shared archetype": ("let r = W.archetype::<A>(); let h = r.get_slice::<C>();", "let r = W.archetype_mut::<A>(); let h = r.get_slice::<C>();"),
    "slice_mut of shared archetype": ("let r = W.archetype::<A>(); let h = r.get_slice_mut::<C>();", "let r = W.archetype_mut::<A>(); let h = r.get_slice_mut::<C>();"),
    "all slices of shared archetype": ("let r = W.archetype::<A>(); let h = r.get_all_slices_mut();", "let r = W.archetype_mut::<A>(); let h = r.get_all_slices_mut();"),
    "iter of shared archetype": ("let r = W.archetype::<A>(); let h = r.iter();", "let r = W.archetype_mut::<A>(); let h = r.iter();"),
    "iter_mut of shared archetype": ("let r = W.archetype::<A>(); let h = r.iter_mut();", "let r = W.archetype_mut::<A>(); let h = r.iter_mut();"),
    "create in shared archetype": ("let r = W.archetype::<A>(); r.create(T);", "let r = W.archetype_mut::<A>(); r.create(T);"),
    "destroy in shared archetype": ("let r = W.archetype::<A>(); r.destroy(e2);", "let r = W.archetype_mut::<A>(); r.destroy(e2);"),
    "create in shared world": ("let r = &W; r.create::<A>(T);", "let r = &mut W; r.create::<A>(T);"),
    "destroy in shared world": ("let r = &W; r.destroy(K);", "let r = &mut W; r.destroy(K);"),
    "archetype_mut of shared world": ("let r = &W; r.archetype_mut::<A>();", "let r = &mut W; r.archetype_mut::<A>();"),
    "view in shared world": ("let r = &W; let h = r.view(K);", "let r = &mut W; let h = r.view(K);"),
    "query component": ("ecs_iter!(W, |c: &C| { *c = V; });", "ecs_iter!(W, |c: &mut C| { *c = V; });"),
    "find component": ("ecs_find!(W, K, |c: &C| { *c = V; });", "ecs_find!(W, K, |c: &mut C| { *c = V; });"),
    "borrow query component": ("ecs_iter_borrow!(W, |c: &C| { *c = V; });", "ecs_iter_borrow!(W, |c: &mut C| { *c = V; });"),
    "find_borrow component": ("ecs_find_borrow!(W, K, |c: &C| { *c = V; });", "ecs_find_borrow!(W, K, |c: &mut C| { *c = V; });"),
    "query entity": ("ecs_iter!(W, |e: &Entity<A>| { *e = e2; });", "ecs_iter!(W, |e: &Entity<A>| { let _x = *e == e2; });"),
    "query any": ("ecs_iter_borrow!(W, |e: &EntityAny| { *e = n; });", "ecs_iter_borrow!(W, |e: &EntityAny| { let _x = *e == n; });"),
    "iter in shared world": ("let r = &W; ecs_iter!(r, |c: &mut C| {});", "let r = &mut W; ecs_iter!(r, |c: &mut C| {});"),
    "find in shared world": ("let r = &W; ecs_find!(r, K, |c: &mut C| {});", "let r = &mut W; ecs_find!(r, K, |c: &mut C| {});"),
    "iter_destroy in shared world": ("let r = &W; ecs_iter_destroy!(r, |c: &C| { EcsStepDestroy::ContinueDestroy });", "let r = &mut W; ecs_iter_destroy!(r, |c: &C| { EcsStepDestroy::ContinueDestroy });"),
    "typed key of another archetype": ("W.view::<B, _>(e);", "W.view::<A, _>(e);"),
    "archetype lookup by another's key": ("W.archetype_mut::<B>().view(e);", "W.archetype_mut::<A>().view(e);"),
    "missing component": ("W.archetype_mut::<A>().get_slice::<Missing>();", "W.archetype_mut::<A>().get_slice::<C>();"),
}

# two accesses through one view or archetype: (unsound, sound)
ALIAS = {
    "component_mut twice": ("let mut v = W.view(K).unwrap(); let x = v.component_mut::<C>(); let y = v.component_mut::<C>(); hold(&x); hold(&y);",
                            "let mut v = W.view(K).unwrap(); let x = v.component_mut::<C>(); hold(&x); let y = v.component_mut::<C>(); hold(&y);"),
    "component then component_mut": ("let mut v = W.view(K).unwrap(); let x = v.component::<C>(); let y = v.component_mut::<C>(); hold(&x); hold(&y);",
                                     "let mut v = W.view(K).unwrap(); let x = v.component::<C>(); let y = v.component::<C>(); hold(&x); hold(&y);"),
    "component_mut then field": ("let mut v = W.view(K).unwrap(); let x = v.component_mut::<C>(); let y = &mut *v.F; hold(&x); hold(&y);",
                                 "let mut v = W.view(K).unwrap(); let x = v.component_mut::<C>(); hold(&x); let y = &mut *v.F; hold(&y);"),
    "field then component": ("let mut v = W.view(K).unwrap(); let y = &mut *v.F; let x = v.component::<C>(); hold(&x); hold(&y);",
                             "let mut v = W.view(K).unwrap(); let y = &mut *v.F; hold(&y); let x = v.component::<C>(); hold(&x);"),
    "component_mut beyond a moved field": ("let mut v = W.view(K).unwrap(); let x = v.component_mut::<C>(); let y = v.F; hold(&x); hold(&y);",
                                           "let mut v = W.view(K).unwrap(); { let x = v.component_mut::<C>(); hold(&x); } let y = v.F; hold(&y);"),
    "view copied": ("let v = W.view(K).unwrap(); let u = v; hold(&v); hold(&u);", "let v = W.view(K).unwrap(); let u = v; hold(&u);"),
    "slices copied": ("let v = W.a.get_all_slices_mut(); let u = v; hold(&v); hold(&u);", "let v = W.a.get_all_slices_mut(); let u = v; hold(&u);"),
    "view cloned": ("let v = W.view(K).unwrap(); let u = v.clone(); hold(&v); hold(&u);", "let v = W.view(K).unwrap(); hold(&v);"),
    "iter_mut cloned": ("let v = W.a.iter_mut(); let u = v.clone(); hold(&v); hold(&u);", "let v = W.a.iter_mut(); hold(&v);"),
    "iter_mut copied": ("let v = W.a.iter_mut(); let u = v; hold(&v); hold(&u);", "let v = W.a.iter_mut(); let u = v; hold(&u);"),
    "component beyond components": ("let x; { let c: <A as Archetype>::Components = T.into(); x = c.get::<C>(); } hold(x);",
                                    "let c: <A as Archetype>::Components = T.into(); let x = c.get::<C>(); hold(x);"),
    "components get_mut twice": ("let mut c: <A as Archetype>::Components = T.into(); let x = c.get_mut::<C>(); let y = c.get_mut::<C>(); hold(x); hold(y);",
                                 "let mut c: <A as Archetype>::Components = T.into(); let x = c.get_mut::<C>(); hold(x); let y = c.get_mut::<C>(); hold(y);"),
    "component kept while components move": ("let c: <A as Archetype>::Components = T.into(); let x = c.get::<C>(); let t = c.into_tuple(); hold(x);",
                                             "let c: <A as Archetype>::Components = T.into(); hold(c.get::<C>()); let t = c.into_tuple();"),
    "short handle reference": ("let r: &'static EntityAny = { let l = e; (&l).into() };", "let l = e; let r: &EntityAny = (&l).into();"),
    "short direct reference": ("let r: &'static EntityDirectAny = { let l = d; (&l).into() };", "let l = d; let r: &EntityDirectAny = (&l).into();"),
    "component reference outlives borrow guard": ("let x; { let b = W.borrow(K).unwrap(); x = &*b.component::<C>(); } hold(x);", "let b = W.borrow(K).unwrap(); let g = b.component::<C>(); let x = &*g; hold(x);"),
    "reference outlives slice guard": ("let x; { let g = W.archetype::<A>().borrow_slice::<C>(); x = &g[..]; } hold(x);", "let g = W.archetype::<A>().borrow_slice::<C>(); let x = &g[..]; hold(x);"),
    "reference outlives slice_mut guard": ("let x; { let mut g = W.archetype::<A>().borrow_slice_mut::<C>(); x = &mut g[..]; } hold(x);", "let mut g = W.archetype::<A>().borrow_slice_mut::<C>(); let x = &mut g[..]; hold(x);"),
}
# through one `&mut` to the archetype
ARCH_FORMS = ("W.archetype_mut::<A>()", "W.archetype::<A>()", "W.a.", "W.a;")

MUT_ENT = ["Entity<A>", "Entity<_>", "EntityAny", "EntityDirect<A>", "EntityDirect<_>", "EntityDirectAny"]
QUERY = {
    "find": lambda ps, body, key="K": f"ecs_find!(W, {key}, |{ps}| {{ {body} }});",
    "find_borrow": lambda ps, body, key="K": f"ecs_find_borrow!(W, {key}, |{ps}| {{ {body} }});",
    "iter": lambda ps, body, key="": f"ecs_iter!(W, |{ps}| {{ {body} }});",
    "iter_borrow": lambda ps, body, key="": f"ecs_iter_borrow!(W, |{ps}| {{ {body} }});",
    "iter_destroy": lambda ps, body, key="": f"ecs_iter_destroy!(W, |{ps}| {{ {body} EcsStepDestroy::Continue }});",
}
# how the function gets at its world: (parameters, the expression, owned?)
ACCESS = {"owned": ("mut w: World_", "w", 1), "mut ref": ("w: &mut World_", "(*w)", 0), "struct": ("mut s: Holder", "s.inner", 1),
          "nested ref": ("s: &mut (u8, Box<Holder>)", "s.1.inner", 0), "boxed": ("mut w: Box<World_>", "(*w)", 1)}
KEYS = {"e": "e", "direct": "d"}
GROUPS = ["keep", "keep", "keep", "keep", "closure", "closure", "escape", "escape", "static", "dangle", "pair", "pair", "alias", "alias", "samearch", "samearch", "readonly", "readonly", "mutent", "mutent", "twice", "twice",
          "auto", "auto", "auto", "thread", "thread"]


def setup(tier):
    return {"libs": [build_lib(f) for f in ((), ("events",), ("events", "32_components"), ("wrapping_version",))]}


def gen(rng, index, tier):
    while True:
        archs, pool = gen_archs(rng, n=rng.choice([1, 2, 2, 3]), maxcomps=5)
        if all(snake(a["name"]) and all(snake(c["n"]) for c in a["comps"]) for a in archs):
            break
    kinds = {}
    mode = rng.random()
    for c in sorted({c["n"] for a in archs for c in a["comps"]}):
        kinds[c] = rng.choice(FRIENDLY if mode < 0.45 else list(KINDS))
    if mode < 0.3:
        # only one that is not
        kinds[rng.choice(sorted(kinds))] = rng.choice(list(KINDS))
    if rng.random() < 0.3:
        gen_ids(rng, archs)
    lib = rng.choice([0, 0, 1, 1, 2, 3])
    ev = lib in (1, 2)
    spec = {"name": rng.choice(WORLDS), "namepos": 0, "archs": archs, "kinds": kinds, "lib": lib, "cases": [], "queries": []}
    holds = [h for h in HOLD if ev or h not in EVENTS]
    for _ in range(60 if tier == "quick" else 100):
        a = rng.randrange(len(archs))
        c = {"g": rng.choice(GROUPS), "a": a, "b": rng.randrange(len(archs)), "c": rng.randrange(len(archs[a]["comps"])), "w": rng.choice(list(ACCESS)), "k": rng.choice(list(KEYS))}
        g = c["g"]
        if g == "keep":
            c["h"] = rng.choice(holds)
            c["s"] = rng.choice(list(CHANGE) + (list(OWNED) if ACCESS[c["w"]][2] else []) + (list(CLEAR) * 4 if c["h"] in EVENTS else []))
            if c["s"] == "move archetype" and c["w"] == "boxed":
                pass
        elif g == "closure":
            c["m"], c["s"] = rng.choice(list(QUERY)), rng.choice([s for s in CHANGE])
            c["p"] = rng.choice(["c: &C", "c: &mut C", "x: &Entity<A>, c: &C", "x: &EntityAny", "x: &EntityDirect<_>, c: &mut C"])
        elif g == "escape":
            c["m"], c["s"] = rng.choice(list(QUERY)), rng.choice(list(CHANGE))
            c["p"] = rng.choice(["&C", "&mut C", "&Entity<A>", "&EntityAny", "&Entity<_>", "&EntityDirectAny", "&EntityDirect<A>", "&OneOf<C, Nowhere>", "&mut OneOf<C, Nowhere>"])
        elif g in ("static", "dangle"):
            c["h"] = rng.choice(holds)
        elif g == "pair":
            excl = [h for h in holds if HOLD[h][1]]
            c["h"], c["h2"] = rng.choice(excl), rng.choice([h for h in holds if h not in ()])
            if rng.random() < 0.5:
                c["h"], c["h2"] = c["h2"], c["h"]
        elif g == "alias":
            c["r"] = rng.choice(list(ALIAS))
        elif g == "samearch":
            only = lambda t: "W." in t and all(x.startswith(ARCH_FORMS) for x in re.findall(r"W\b.*", t))
            hs = [h for h in holds if only(HOLD[h][0]) and HOLD[h][0].count("W") == 1 and not h.startswith("archetype field") and h not in ("archetype", "archetype_mut")]
            c["h"] = rng.choice(hs)
            if rng.random() < 0.5:
                c["h2"] = rng.choice([h for h in hs if HOLD[h][1] or HOLD[c["h"]][1]] or ["iter_mut"])
                if not (HOLD[c["h"]][1] or HOLD[c["h2"]][1]):
                    c["h2"] = "iter_mut"
            else:
                c["s"] = rng.choice([k for k, v in CHANGE.items() if only(v) and k != "replace archetype"])
        elif g == "readonly":
            c["r"] = rng.choice(list(READONLY))
        elif g == "mutent":
            c["m"], c["t"] = rng.choice(list(QUERY)), rng.choice(MUT_ENT)
            c["with"] = rng.choice(["", "c: &C, ", "c: &mut C, "])
        elif g == "twice":
            c["m"] = rng.choice(["find", "iter", "iter_destroy"])
            c["t"] = [rng.choice(["C", "C", "OneOf<C, Nowhere>", "OneOf<Nowhere, C>"]) for _ in range(2)]
            c["mut"] = rng.choice([[1, 1], [1, 1], [0, 1], [1, 0]])
            c["with"] = rng.choice(["", "x: &EntityAny, ", "x: &Entity<_>, "])
            c["pos"] = rng.randint(0, 2)
        elif g == "auto":
            c["t"] = rng.choice(["world", "world", "world", "archetype", "archetype", "ref", "borrow", "view", "slices", "iter", "iter_mut", "handles", "handles", "handles", "select"])
            c["tr"] = rng.choice(["send", "sync"])
        elif g == "thread":
            c["t"] = rng.choice(["share", "share archetype", "move", "move", "borrow", "view", "ref in scope"])
        spec["cases"].append(c)
    # queries whose expansion is searched
    for _ in range(200):
        ps = gen_params(rng, spec)
        if verdict(spec, ps)[0] == "ok" and not clashes(spec, ps) and len(spec["queries"]) < 7:
            for p in ps:
                if p["t"] != "One" and rng.random() < 0.2:
                    p["cfgs"] = rng.choice([["all()"], ["f2"], ["not(f1)", "f0"]])
            if rng.random() < 0.2:
                ps.insert(0, {"t": "C", "c": "Undef1", "mut": False, "cfgs": ["f1"]})
            spec["queries"].append({"params": ps, "world": rng.randint(0, 3), "ret": rng.random() < 0.3})
    return spec


def sub(text, env):
    return re.sub(r"\b(W|K|A|B|C|F|N|T|U|V|a|World_)\b", lambda m: env.get(m.group(1), m.group(1)), text)


def ok_kind(spec, comps, i):
    return all(KINDS[spec["kinds"][c["n"]]][i] for c in comps)


def functions(spec, i, c):
    """(text of the function that must be rejected or None, text of the one that must be accepted or None, description)."""
    g = c["g"]
    A = spec["archs"][c["a"]]
    B = spec["archs"][c["b"]]
    cs = A["comps"]
    C = cs[c["c"]]["n"]
    val = lambda n: f"{n}({KINDS[spec['kinds'][n]][1]})"
    tup = lambda comps: "(" + "".join(val(x["n"]) + "," for x in comps) + ")"
    par, W, owned = ACCESS[c["w"]]
    env = {"W": W, "K": KEYS[c["k"]], "A": A["name"], "B": B["name"], "C": C, "F": snake(C), "N": str(c["c"] + 1), "T": tup(cs), "U": tup(B["comps"]),
           "V": val(C), "a": snake(A["name"]), "World_": spec["name"] or "EcsWorld"}
    s = lambda t: sub(t, env)
    world = env["World_"]
    dparams = s("e: Entity<A>, e2: Entity<A>, d: EntityDirect<A>, n: EntityAny, q: EntityDirectAny")
    fn = lambda name, body, p=None: f"fn {name}({(p or s(par))}, {dparams}) {{ {body} }}"
    bad, good = f"bad_{i}", f"good_{i}"
    if g == "keep":
        ch = s({**CHANGE, **OWNED, **CLEAR}[c["s"]])
        h = s(HOLD[c["h"]][0])
        return fn(bad, f"{h} {ch} hold(&h);"), fn(good, f"{{ {h} hold(&h); }} {ch}"), f"{c['h']} kept across {c['s']} ({c['w']} world)"
    if g == "closure":
        ch = s(CHANGE[c["s"]])
        q = QUERY[c["m"]]
        return (fn(bad, s(q(c["p"], "\0")).replace("\0", ch)), fn(good, s(q(c["p"], "")) + " " + ch), f"{c['s']} inside the closure of ecs_{c['m']}!(|{c['p']}|)")
    if g == "escape":
        ch = s(CHANGE[c["s"]])
        q = QUERY[c["m"]]
        # one type for all archetypes
        x = "{ let r: &EntityAny = x.into(); r }" if c["p"] == "&Entity<_>" else "x"
        copy_ = "*" + x if "Ent" in c["p"] else "hold(x)"
        ps = "x: " + c["p"]
        return (fn(bad, "let mut out = Vec::new(); " + s(q(ps, f"out.push({x});")) + f" {ch} hold(&out);"),
                fn(good, "let mut out = Vec::new(); " + s(q(ps, f"out.push({copy_});")) + f" {ch} hold(&out);"),
                f"parameter {c['p']} of ecs_{c['m']}! kept across {c['s']}")
    if g == "static":
        h = s(HOLD[c["h"]][0])
        return fn(bad, f"{h} is_static(h);"), fn(good, f"{h} is_any(h);"), f"{c['h']} treated as 'static"
    if g == "dangle":
        h = sub(HOLD[c["h"]][0], dict(env, W="w"))
        return (fn(bad, f"let mut keep = None; {{ let mut w = {world}::new(); {h} keep = Some(h); }} hold(&keep);", "_: u8"),
                fn(good, f"let mut w = {world}::new(); let mut keep = None; {{ {h} keep = Some(h); hold(&keep); }}", "_: u8") if not re.search(r"let (mut )?(v|b|sl) =", h) else
                fn(good, f"let mut w = {world}::new(); {h} let keep = Some(h); hold(&keep);", "_: u8"), f"{c['h']} outlives its world")
    if g == "pair":
        h, h2 = s(HOLD[c["h"]][0]), s(HOLD[c["h2"]][0])
        ren = lambda t: re.sub(r"\bh\b", "h2", t)
        return (fn(bad, f"{h} {ren(h2)} hold(&h); hold(&h2);"), fn(good, f"{{ {h} hold(&h); }} {ren(h2)} hold(&h2);"), f"{c['h']} and {c['h2']} at once")
    if g == "alias":
        b, t = ALIAS[c["r"]]
        return fn(bad, s(b)), fn(good, s(t)), c["r"]
    if g == "samearch":
        ar = lambda t: re.sub(r"W\.archetype(_mut)?::<A>\(\)|W\.a\b", "ar", t)
        h = s(ar(HOLD[c["h"]][0]))
        get = s("let ar = W.archetype_mut::<A>();")
        if "h2" in c:
            h2 = re.sub(r"\bh\b", "h2", s(ar(HOLD[c["h2"]][0])))
            return (fn(bad, f"{get} {h} {h2} hold(&h); hold(&h2);"), fn(good, f"{get} {{ {h} hold(&h); }} {h2} hold(&h2);"), f"{c['h']} and {c['h2']} of one archetype at once")
        ch = s(ar(CHANGE[c["s"]]))
        return fn(bad, f"{get} {h} {ch} hold(&h);"), fn(good, f"{get} {{ {h} hold(&h); }} {ch}"), f"{c['h']} kept across {c['s']} of the same archetype"
    if g == "readonly":
        b, t = READONLY[c["r"]]
        if B is A and "another" in c["r"]:
            return None, fn(good, s(t)), "sound half of " + c["r"]
        if not owned and "shared world" in c["r"]:
            pass
        return fn(bad, s(b)), fn(good, s(t)), f"write through {c['r']}"
    if g == "mutent":
        q = QUERY[c["m"]]
        return fn(bad, s(q(f"{c['with']}x: &mut {c['t']}", ""))), fn(good, s(q(f"{c['with']}x: &{c['t']}", ""))), f"&mut {c['t']} in ecs_{c['m']}!"
    if g == "twice":
        q = QUERY[c["m"]]

        def plist_(m):
            l = [f"x{j}: &{'mut ' if m[j] else ''}{t}" for j, t in enumerate(c["t"])]
            if c["with"]:
                l.insert(min(c["pos"], 2), c["with"].rstrip(", "))
            return ", ".join(l)
        return fn(bad, s(q(plist_(c["mut"]), "hold(x0); hold(x1);"))), fn(good, s(q(plist_([0, 0]), "hold(x0); hold(x1);"))), f"|{plist_(c['mut'])}| in ecs_{c['m']}!"
    if g == "auto":
        tr, i_ = c["tr"], 2 if c["tr"] == "send" else 3
        t = c["t"]
        allc = [x for a in spec["archs"] for x in a["comps"]]
        pos = lambda ty: f"fn {good}() {{ yes::<{ty}>(); }}"
        if t in ("world", "archetype"):
            ty, comps = (world, allc) if t == "world" else (A["name"], cs)
            if tr == "send" and ok_kind(spec, comps, 2):
                return None, f"fn {good}() {{ send::<{ty}>(); }}", f"{t} of Send components is Send"
            return f"fn {bad}() {{ {tr}::<{ty}>(); }}", pos(ty), f"{t} is {tr.title()} ({'components all' if ok_kind(spec, comps, i_) else 'not every component'} {tr.title()})"
        if t == "ref":
            return f"fn {bad}() {{ send::<&{world}>(); }}", pos("&" + world), "&world is Send"
        if t == "borrow":
            return (fn(bad, s(f"v{tr}(W.borrow(K).unwrap());")), fn(good, s("is_any(W.borrow(K).unwrap());")), f"borrow is {tr.title()}")
        if t in ("view", "slices", "iter", "iter_mut"):
            ex = {"view": "W.view(K).unwrap()", "slices": "W.a.get_all_slices_mut()", "iter": "W.a.iter()", "iter_mut": "W.a.iter_mut()"}[t]
            need = 3 if t == "iter" else i_
            if ok_kind(spec, cs, need):
                return None, fn(good, s(f"is_any({ex});")), f"{t} exists"
            return fn(bad, s(f"v{tr}({ex});")), fn(good, s(f"is_any({ex});")), f"{t} over components that are not is {tr.title()}"
        n = A["name"]
        if t == "handles":
            hs = [f"Entity<{n}>", f"EntityDirect<{n}>", "EntityAny", "EntityDirectAny", f"Option<Entity<{n}>>", f"&'static Entity<{n}>", f"Vec<EntityDirect<{n}>>"]
            return None, f"fn {good}() {{ " + " ".join(f"send::<{x}>(); sync::<{x}>();" + ("" if x.startswith("Vec") else f" copy::<{x}>();") for x in hs) + " }", "handles are Copy + Send + Sync"
        return None, f"fn {good}() {{ " + " ".join(f"send::<{x}>(); sync::<{x}>(); copy::<{x}>();" for x in ("SelectEntity", "SelectEntityDirect", "SelectArchetype")) + " }", "selectors are Copy + Send + Sync"
    if g == "thread":
        allc = [x for a in spec["archs"] for x in a["comps"]]
        t = c["t"]
        p, W_ = s("mut w: World_"), "w"
        if t == "move":
            f = f"std::thread::spawn(move || {{ let w = w; hold(&w); }});"
            return (None, fn(good, f, p), "moving a world of Send components to a thread") if ok_kind(spec, allc, 2) else (fn(bad, f, p), fn(good, "let f = move || { let w = w; hold(&w); }; f();", p), "moving a world to a thread")
        body = {"share": "hold(&w.archetype::<A>().len());", "share archetype": "hold(&r.len());", "borrow": "hold(&b);", "view": "hold(&v);", "ref in scope": "hold(&r.archetype::<A>().len());"}[t]
        pre = {"share": "", "share archetype": "let r = &w.a;", "borrow": "let b = w.borrow(K).unwrap();", "view": "let v = w.view(K).unwrap();", "ref in scope": "let r = &w;"}[t]
        if t == "view" and ok_kind(spec, cs, 3) and ok_kind(spec, cs, 2):
            return None, fn(good, s(f"{pre} (|| {{ {body} }})();"), p), "view used by a closure"
        if t == "view":
            # by reference from two threads
            if ok_kind(spec, cs, 3):
                return None, fn(good, s(f"{pre} (|| {{ {body} }})();"), p), "view used by a closure"
        return (fn(bad, s(f"{pre} std::thread::scope(|z| {{ z.spawn(|| {{ {body} }}); {body} }});"), p), fn(good, s(f"{pre} let f = || {{ {body} }}; f(); {body}"), p), f"{t} from two threads")
    raise ValueError(g)


def head(spec):
    o = [PRE]
    for n, k in spec["kinds"].items():
        o.append(f"pub struct {n}(pub {KINDS[k][0]});")
    o.append("pub struct Missing;")
    o.append(decl(spec, False))
    w = spec["name"] or "EcsWorld"
    o.append(f"pub struct Holder {{ pub tag: u8, pub inner: {w} }}")
    o.append(GENERIC)
    for a in spec["archs"]:
        n, c = a["name"], a["comps"][0]["n"]
        o.append(f"impl First for {n} {{ type First = {c}; fn first(&mut self) -> &mut [{c}] {{ self.get_slice_mut::<{c}>() }} }}")
    return "\n".join(o) + "\n"


GENERIC = """fn gcreate<X: WorldHas<Y>, Y: Archetype>(w: &mut X, c: impl Into<Y::Components>) -> Entity<Y> { w.create::<Y>(c) }
fn gdestroy<X: World + WorldCanResolve<K>, K: EntityKey>(w: &mut X, k: K) -> K::DestroyOutput { w.destroy(k) }
fn gview<X: WorldHas<A>, A: Archetype + ArchetypeCanResolve<K>, K: EntityKey>(w: &mut X, k: K) -> A::View<'_> { w.archetype_mut::<A>().view(k).unwrap() }
pub trait First: Archetype { type First; fn first(&mut self) -> &mut [Self::First]; }
fn gslice<A: First>(a: &mut A) -> &mut [A::First] { a.first() }
"""


def build(spec):
    """[(index, bad, good, description)]"""
    return [(i,) + functions(spec, i, c) for i, c in enumerate(spec["cases"])]


def source(spec):
    return head(spec) + "\n".join(f"// {d}\n// must be rejected:\n{b}\n// must be accepted:\n{g}" for _, b, g, d in build(spec)) + "\n"


def error_lines(err):
    """Lines of the program that errors point at, with the codes, and the errors that point nowhere."""
    lines, loose = {}, []
    for l in err.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("level") != "error" or not j.get("spans"):
            if j.get("level") == "error" and not j["message"].startswith("aborting"):
                loose.append(j["message"])
            continue
        for sp in j["spans"]:
            if not sp["is_primary"]:
                continue
            while sp:
                lines.update({k: (j.get("code") or {}).get("code", "macro") for k in range(sp["line_start"], sp["line_end"] + 1)})
                sp = (sp.get("expansion") or {}).get("span")
    return lines, loose


def text_errors(err):
    return "\n".join(json.loads(l).get("rendered", "") for l in err.splitlines() if l.startswith("{") and '"error"' in l)


def batch(env, spec, pick):
    """Compiles the chosen functions together; returns (accepted as a whole, {index: code of an error}, message)."""
    src = head(spec)
    at = {}
    for i, f in pick:
        src = src if src.endswith("\n") else src + "\n"
        at[src.count("\n") + 1] = i
        src += f + "\n"
    c = env["scratch"].rustc(env["libs"][spec["lib"]], src, emit="metadata", extra=["--error-format=json"])
    if c.ok is None:
        raise CheckError(c.err)
    if c.ok:
        return True, {}, ""
    lines, loose = error_lines(c.err)
    return False, {at[l]: lines[l] for l in lines if l in at}, text_errors(c.err)


STAGE = {"mutent": 0, "auto": 1, "thread": 1}


def tokens(text):
    """Rust text without comments, strings and character literals."""
    return re.sub(r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\'\\])\'', " ", text, flags=re.S)


def expansion(env, spec, r):
    src = PRELUDE.replace("#![allow(warnings)]", "#![allow(warnings)]\n#![forbid(unsafe_code)]")
    full = program(dict(spec, extra=[]), queries=spec["queries"]).replace(PRELUDE, src).replace("#[derive(Clone)] pub struct", "pub struct")
    tg = tags(spec)
    full += "".join(f"impl Clone for {n} {{ fn clone(&self) -> Self {{ {n}(self.0) }} }}\n" for n in tg)
    lib = env["libs"][spec["lib"]]
    c = env["scratch"].rustc(lib, full, emit="metadata", extra=CFG_FLAGS)
    if c.ok is None:
        raise CheckError(c.err)
    x = expand(env, lib, full)
    r.cases.append((full, True))
    r.count("expansions searched")
    bad = []
    t = tokens(x)
    for m in re.finditer(r"\bunsafe\b", t):
        ctx = t[m.start():m.start() + 120].replace("\n", " ")
        # what the compiler's own derives write
        if re.match(r"unsafe impl(<[^{]*>)?\s+::core::clone::TrivialClone\b", ctx):
            continue
        bad.append(t[max(0, m.start() - 80):m.start() + 120].replace("\n", " "))
    if bad:
        r.fails.append("the expansion contains unsafe: " + " | ".join(bad[:2]))
    elif not c.ok:
        if "E0453" in c.err or "unsafe" in c.err:
            r.fails.append("not accepted under forbid(unsafe_code): " + brief(c.err))
        else:
            r.error = "the program with queries does not compile: " + brief(c.err)
    r.count("lines of expansion searched", x.count("\n"))


def expand(env, lib, src):
    sc = env["scratch"]
    base = sc.path()
    with open(base + ".rs", "w") as f:
        f.write(src)
    cmd = ["rustc", "--edition", "2021", "--crate-name", "prog", "--extern", f"gecs={lib.rlib}", "-L", f"dependency={lib.deps}", base + ".rs",
           "--crate-type", "lib", "-Zunpretty=expanded"] + CFG_FLAGS
    sc.compiles += 1
    x = run(cmd, 120, env=env_clean({"RUSTC_BOOTSTRAP": "1"}), mem_gb=6)
    os.unlink(base + ".rs")
    if x.timed_out or x.rc != 0 or len(x.out) < 1000:
        raise CheckError("expanding failed: " + brief(x.err))
    return x.out


def evaluate(env, spec):
    r = Result()
    all_ = build(spec)
    goods = [(i, g) for i, b, g, d in all_ if g]
    desc = {i: d for i, b, g, d in all_}
    ok, wrong, msg = batch(env, spec, goods)
    if not ok:
        base_ok, _, base_msg = batch(env, spec, [])
        if not base_ok:
            # is it forbid(unsafe_code)?
            r.error = "the world alone does not compile: " + msg[:1500]
            if "unsafe" in base_msg:
                r.fails.append("not accepted under forbid(unsafe_code): " + base_msg[:900])
            return r
        for i, g in goods:
            if not wrong or i in wrong:
                o, _, m = batch(env, spec, [(i, g)])
                if not o:
                    r.fails.append(f"a sound program is rejected ({desc[i]}):\n{g}\n{brief(m)}")
        if not r.fails:
            r.error = "sound programs are rejected together, accepted alone: " + msg[:800]
        return r
    for i, g in goods:
        r.cases.append((decl(spec, False) + str(spec["kinds"]) + g.replace(f"good_{i}", "f"), False))
    for stage in (0, 1, 2):
        pick = [(i, b) for i, b, g, d in all_ if b and STAGE.get(spec["cases"][i]["g"], 2) == stage]
        pick = [(i, b) for i, b in pick]
        # unresolved names and types stop the borrow checker, so those go separately
        early = [(i, b) for i, b in pick if spec["cases"][i]["g"] == "readonly" and re.search("another|missing", spec["cases"][i]["r"])]
        for part in (early, [x for x in pick if x not in early]):
            if not part:
                continue
            ok, wrong, msg = batch(env, spec, part)
            for i, b in part:
                r.cases.append((decl(spec, False) + str(spec["kinds"]) + b.replace(f"bad_{i}", "f"), True))
                r.count(f"unsound: {spec['cases'][i]['g']} {wrong.get(i, '-')}")
                if i not in wrong:
                    r.count("confirmed alone")
                    o, _, m = batch(env, spec, [(i, b)])
                    if o:
                        r.fails.append(f"an unsound program is accepted ({desc[i]}):\n{b}")
    for i, b, g, d in all_:
        if spec["cases"][i].get("h") and b:
            r.count("held: " + spec["cases"][i]["h"])
    if spec["queries"]:
        expansion(env, spec, r)
    x = next(((b, g, d) for i, b, g, d in all_ if b and g), None)
    if x:
        r.sample = f"{x[2]}\nmust be rejected: {x[0]}\nmust be accepted: {x[1]}"
    return r


def reductions(spec):
    yield from drop_each(spec, "cases")
    for q in drop_each(spec, "queries"):
        yield q
    if spec["cases"] and spec["queries"]:
        s = copy.deepcopy(spec)
        s["queries"] = []
        yield s
    for i in range(len(spec["archs"])):
        if len(spec["archs"]) > 1 and not any(i in (c["a"], c["b"]) for c in spec["cases"]):
            s = copy.deepcopy(spec)
            del s["archs"][i]
            for c in s["cases"]:
                c["a"] -= c["a"] > i
                c["b"] -= c["b"] > i
            names = {c["n"] for a in s["archs"] for c in a["comps"]}
            s["kinds"] = {k: v for k, v in s["kinds"].items() if k in names}
            yield s
