//! Executes a case on real worlds and on the reference model, comparing as it goes.

use crate::api::*;
use crate::ops::*;
use crate::{alloc, comp, Entry};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

/// The bit of property n.
pub const fn c(n: u32) -> u32 {
    1 << n
}
pub fn tag_names(t: u32) -> Vec<String> {
    (1..20).filter(|n| t & c(*n) != 0).map(|n| format!("C{n:02}")).collect()
}

pub const MAX_CAP: usize = 1 << 24;
pub const DEBUG: bool = cfg!(debug_assertions);
pub const WRAP: bool = cfg!(feature = "wrap");
pub const EVENTS: bool = cfg!(feature = "events");
pub const CHECKED_ALLOC: bool = !cfg!(feature = "sysalloc");

// What happened in a case; used for the non-triviality rules.
macro_rules! flags { ($($n:ident = $b:expr),* $(,)?) => {
    $(pub const $n: u64 = 1 << $b;)*
    pub const FLAG_NAMES: &[(&str, u64)] = &[$((stringify!($n), 1 << $b)),*];
} }
flags! {
    F_CREATE = 0, F_DESTROY = 1, F_GREW = 2, F_STALE_REUSED = 3, F_RELOCATED = 4, F_RELOCATED_READ = 5,
    F_WRITE = 6, F_CROSS_PATH_READ = 7, F_FAILED_CREATE = 8, F_CLONED = 9, F_ITER_MULTI = 10,
    F_ITER_BREAK = 11, F_ID_DESTROY = 12, F_ID_SURVIVE = 13, F_ID_BREAK = 14, F_DIRECT_AFTER_CREATE = 15,
    F_DIRECT_AFTER_REMOVE = 16, F_FORGE_NEAR = 17, F_FORGE_HIT = 18, F_FORGE_DIRECT = 19, F_PANIC_CLOSURE = 20,
    F_PANIC_CLONE = 21, F_PANIC_DROP = 22, F_PANIC_VERSION = 23, F_CONFLICT = 24, F_GRANTED_NESTED = 25,
    F_UNWOUND_NEST = 26, F_REFILL_AFTER_REMOVE = 27, F_DIVERGED_BOTH = 28, F_CONV_EDGE = 29, F_EVENTS_MULTI = 30,
    F_CLEARED = 31, F_LONG_REUSE = 32, F_BOUNDARY = 33, F_AFTER_PANIC_USE = 34, F_DIRECT_IN_LOOP = 35,
    F_BIG = 36, F_DROP_LIVE = 37, F_UNCHECKED_CONV = 38, F_DIRECT_ISSUED = 39, F_MANY_COLUMNS = 40,
    F_EVENT_PATHS = 41, F_WRAPPED = 42, F_JUMP = 43, F_ADAPTORS = 44, F_LARGE = 45,
}

pub type Errs = Vec<(u32, String)>;

pub enum Pan {
    Injected,
    Msg(String),
}
impl std::fmt::Debug for Pan {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Pan::Injected => write!(f, "injected panic"),
            Pan::Msg(m) => write!(f, "panic: {m}"),
        }
    }
}

/// Runs a call into gecs with panics caught and allocations attributed.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, Pan> {
    match catch_unwind(AssertUnwindSafe(|| alloc::gecs(f))) {
        Ok(r) => Ok(r),
        Err(p) => Err(if p.is::<comp::Injected>() {
            Pan::Injected
        } else if let Some(s) = p.downcast_ref::<String>() {
            Pan::Msg(s.clone())
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Pan::Msg(s.to_string())
        } else {
            Pan::Msg("?".into())
        }),
    }
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub arch: usize,
    pub any: EntityAny,
    pub vals: Vec<u64>,
    pub alive: bool,
    pub moved: bool,
    /// place in the list of live entities
    pub at: usize,
    /// last written through this path
    pub wrote: u32,
}

#[derive(Clone, Default)]
pub struct MArch {
    pub live: Vec<usize>,
    pub cap: usize,
    pub removals: u64,
    pub structural: u64,
    /// known archetype version, only after a preset
    pub ver: Option<u64>,
    pub wrapped: bool,
    pub touched: bool,
    pub created: Vec<EntityAny>,
    pub destroyed: Vec<EntityAny>,
}

#[derive(Clone)]
pub struct Dir {
    pub any: EntityDirectAny,
    pub ent: usize,
    pub arch: usize,
    pub removals: u64,
    pub structural: u64,
}

#[derive(Clone)]
pub struct Model {
    pub ents: Vec<Ent>,
    pub archs: Vec<MArch>,
    pub by_raw: HashMap<(u32, u32), usize>,
    pub issued: HashSet<(u32, u32)>,
    pub dead: Vec<usize>,
    pub dirs: Vec<Dir>,
    /// properties whose precondition this world has been through
    pub ctx: u32,
    /// clone relations: (family, number of changes since)
    pub cloned: bool,
    pub changes: u64,
    pub slot_wrapped: bool,
}

impl Model {
    pub fn n_live(&self) -> usize {
        self.archs.iter().map(|a| a.live.len()).sum()
    }
    pub fn nth_live(&self, sel: u32) -> Option<usize> {
        let n = self.n_live();
        if n == 0 {
            return None;
        }
        let mut i = sel as usize % n;
        for a in &self.archs {
            if i < a.live.len() {
                return Some(a.live[i]);
            }
            i -= a.live.len();
        }
        None
    }
    pub fn live_in(&self, a: usize, sel: u32) -> Option<usize> {
        let l = &self.archs[a].live;
        if l.is_empty() { None } else { Some(l[sel as usize % l.len()]) }
    }
    pub fn nth_dead(&self, sel: u32) -> Option<usize> {
        let n = self.dead.len();
        if n == 0 {
            None
        } else if sel & 1 == 0 {
            Some(self.dead[n - 1 - (sel as usize >> 1) % n.min(8)])
        } else {
            Some(self.dead[(sel as usize >> 1) % n])
        }
    }
    fn add(&mut self, arch: usize, any: EntityAny, vals: Vec<u64>) -> usize {
        let id = self.ents.len();
        let a = &mut self.archs[arch];
        self.ents.push(Ent { arch, any, vals, alive: true, moved: false, at: a.live.len(), wrote: 0 });
        a.live.push(id);
        a.structural += 1;
        a.touched = true;
        if EVENTS {
            a.created.push(any);
        }
        self.by_raw.insert(any.raw(), id);
        self.issued.insert(any.raw());
        self.changes += 1;
        id
    }
    fn kill(&mut self, id: usize) {
        let (arch, any) = (self.ents[id].arch, self.ents[id].any);
        self.ents[id].alive = false;
        if self.by_raw.get(&any.raw()) == Some(&id) {
            self.by_raw.remove(&any.raw());
        }
        self.dead.push(id);
        let a = &mut self.archs[arch];
        let at = self.ents[id].at;
        assert!(a.live[at] == id, "live entity is listed");
        a.live.swap_remove(at);
        if let Some(x) = a.live.get(at) {
            self.ents[*x].at = at;
        }
        a.removals += 1;
        a.structural += 1;
        if EVENTS {
            a.destroyed.push(any);
        }
        if let Some(v) = a.ver.as_mut() {
            *v += 1;
            if *v > u32::MAX as u64 {
                *v = 1;
                a.wrapped = true;
                let x = arch;
                self.dirs.retain(|d| d.arch != x);
            }
        }
        if any.raw().1 == u32::MAX {
            self.slot_wrapped = true;
        }
        self.changes += 1;
    }
    /// True if removing this entity must hit a generation counter's end.
    fn overflow(&self, id: usize) -> bool {
        let e = &self.ents[id];
        e.any.raw().1 == u32::MAX || self.archs[e.arch].ver == Some(u32::MAX as u64)
    }
}

pub struct Wd {
    pub api: Box<dyn Api>,
    pub m: Model,
}

/// What one lookup showed.
#[derive(Default, Debug)]
pub struct Seen {
    pub hit: bool,
    pub calls: u32,
    pub archs: Vec<usize>,
    pub ents: Vec<EntityAny>,
    pub idx: Vec<usize>,
    pub vals: Vec<(usize, Result<u64, String>)>,
    pub dirs: Vec<EntityDirectAny>,
    pub bad: Vec<String>,
}

pub fn comp_index(meta: &Meta, a: usize, k: Kind) -> Option<usize> {
    meta.archs[a].kinds.iter().position(|x| *x == k)
}

impl Seen {
    fn rec(&mut self, meta: &Meta, v: &mut Visit) {
        alloc::user(|| {
            self.calls += 1;
            self.archs.push(v.arch);
            self.ents.extend(v.ent);
            self.idx.extend(v.index);
            self.dirs.extend(v.direct);
            for cell in v.cells.iter() {
                match comp_index(meta, v.arch, cell.get().kind()) {
                    Some(i) => self.vals.push((i, cell.get().read())),
                    None => self.bad.push(format!("component of kind {} bound for archetype {}", cell.get().kind(), v.arch)),
                }
            }
        })
    }
}

pub fn any_of(k: Key) -> Option<EntityAny> {
    match k {
        Key::T(e) | Key::A(e) => Some(e),
        _ => None,
    }
}

pub const PATHS: u32 = 12;
pub const PATH_NAMES: [&str; 12] = [
    "World::contains", "Archetype::contains", "Archetype::resolve", "World::to_direct", "Archetype::to_direct",
    "view", "borrow", "ecs_find!", "ecs_find_borrow!", "ecs_find! (all columns)", "ecs_find_borrow! (all columns)",
    "Borrow::component",
];

/// Queries of this world that match archetype `a`.
fn query_for(meta: &Meta, a: usize, sel: u32) -> Option<usize> {
    let v: Vec<usize> = (0..meta.queries.len()).filter(|q| meta.queries[*q].matched.contains(&a)).collect();
    if v.is_empty() { None } else { Some(v[sel as usize % v.len()]) }
}

/// One lookup. `write`: new values to store in every mutable cell that is handed out.
pub fn look(w: &mut Wd, a: usize, k: Key, path: u32, sel: u32, write: Option<&[u64]>) -> Result<(Seen, Vec<usize>), Pan> {
    let meta = w.api.meta();
    let mut s = Seen::default();
    let mut wrote: Vec<usize> = Vec::new();
    let api = &mut w.api;
    let world = sel & 1 == 0;
    let how = sel >> 1;
    let r = {
        let s = &mut s;
        let wrote = &mut wrote;
        let mut f = |v: &mut Visit| {
            s.rec(meta, v);
            if let Some(new) = write {
                alloc::user(|| {
                    for cell in v.cells.iter_mut() {
                        if let Cell::M(x) = cell {
                            if let Some(i) = comp_index(meta, v.arch, x.kind()) {
                                if i < new.len() {
                                    x.set(new[i]);
                                    wrote.push(i);
                                }
                            }
                        }
                    }
                });
            }
            7u32
        };
        call(|| match path % PATHS {
            0 => (api.x_contains(a, k, true), None, None),
            1 => (api.x_contains(a, k, false), None, None),
            2 => {
                let i = api.x_resolve(a, k);
                (i.is_some(), i, None)
            }
            p @ (3 | 4) => {
                let d = api.x_to_direct(a, k, p == 3);
                (d.is_some(), None, d)
            }
            5 => (api.x_view(a, k, world, how, &mut f), None, None),
            6 => (api.x_borrow(a, k, world, how, &mut f), None, None),
            p @ (7 | 8) => match query_for(meta, a, how) {
                Some(q) => {
                    let r = if p == 7 { api.x_find(q, k, &mut f) } else { api.x_find_borrow(q, k, &mut f) };
                    (r == Some(7), None, None)
                }
                None => (api.x_contains(a, k, world), None, None),
            },
            9 => (api.x_find_arch(a, k, &mut f) == Some(7), None, None),
            10 => (api.x_find_arch_borrow(a, k, &mut f) == Some(7), None, None),
            _ => {
                let n = meta.archs[a].kinds.len();
                (api.x_borrow_cell(a, k, (how as usize >> 1) % n, how & 1 == 0, &mut f), None, None)
            }
        })
    };
    let (hit, idx, dir) = r?;
    s.hit = hit;
    if let Some(i) = idx {
        s.idx.push(i);
        // resolve plus slice accessors
        match call(|| w.api.x_entity_at(a, i))? {
            Some(e) => s.ents.push(e),
            None => s.bad.push(format!("resolve gave index {i} with {} entities", w.m.archs[a].live.len())),
        }
        let n = meta.archs[a].kinds.len();
        let cc = how as usize % n;
        let (m, b) = (sel & 4 != 0, sel & 8 != 0);
        let s2 = &mut s;
        let wrote = &mut wrote;
        let mut f = |v: &mut Visit| {
            if v.index == Some(i) {
                s2.rec(meta, v);
                if let (Some(new), Cell::M(x)) = (write, &mut v.cells[0]) {
                    alloc::user(|| x.set(new[cc]));
                    alloc::user(|| wrote.push(cc));
                }
                return 1;
            }
            0
        };
        call(|| if b { w.api.x_borrow_slice(a, cc, m, &mut f) } else { w.api.x_slice(a, cc, m, &mut f) })?;
        if s.vals.is_empty() {
            s.bad.push(format!("slice of component {cc} has no item {i}"));
        }
    }
    s.dirs.extend(dir);
    Ok((s, wrote))
}

/// Compares a lookup with what the model expects. `exp` is the entity that must be designated.
pub fn judge(w: &mut Wd, what: &str, a: usize, exp: Option<usize>, s: &Seen, tags: u32, errs: &mut Errs) {
    let m = &w.m;
    match exp {
        None => {
            if s.hit || s.calls > 0 {
                errs.push((c(1) | tags, format!("{what}: accepted a handle that designates no live entity ({s:?})")));
            }
        }
        Some(id) => {
            let e = &m.ents[id];
            if !s.hit {
                errs.push((c(1) | tags, format!("{what}: rejected live entity {:?}", e.any)));
                return;
            }
            for x in &s.ents {
                if *x != e.any {
                    errs.push((c(1) | c(2) | tags, format!("{what}: designates {x:?} instead of {:?}", e.any)));
                }
            }
            for x in &s.archs {
                if *x != a {
                    errs.push((c(1) | c(5) | tags, format!("{what}: ran for archetype {x} instead of {a}")));
                }
            }
            for b in &s.bad {
                errs.push((c(1) | c(2) | tags, format!("{what}: {b}")));
            }
            for (i, v) in &s.vals {
                match v {
                    Ok(v) if *v == e.vals[*i] => {}
                    Ok(v) => errs.push((c(2) | tags, format!("{what}: component {i} of {:?} is {v}, last written {}", e.any, e.vals[*i]))),
                    Err(x) => errs.push((c(2) | c(4) | tags, format!("{what}: component {i} of {:?} is {x}", e.any))),
                }
            }
        }
    }
    if exp.is_some() && !(s.idx.is_empty() && s.dirs.is_empty()) {
        let id = exp.unwrap();
        let any = w.m.ents[id].any;
        let api = &w.api;
        if !s.idx.is_empty() {
            for i in &s.idx {
                if matches!(call(|| api.x_entity_at(a, *i)), Ok(x) if x != Some(any)) {
                    errs.push((c(1) | tags, format!("{what}: index {i} is not the position of {any:?}")));
                }
            }
        }
        for d in &s.dirs {
            check_direct_valid(&**api, a, *d, any, what, c(9) | tags, errs);
        }
    }
}

/// The direct handle must be accepted and designate `any`.
pub fn check_direct_valid(api: &dyn Api, a: usize, d: EntityDirectAny, any: EntityAny, what: &str, tags: u32, errs: &mut Errs) {
    let id = api.meta().archs[a].id;
    if d.archetype_id() != id {
        errs.push((tags | c(14), format!("{what}: direct handle has archetype id {} instead of {id}", d.archetype_id())));
        return;
    }
    for k in [Key::DT(d), Key::DA(d)] {
        match call(|| api.x_resolve(a, k).map(|i| api.x_entity_at(a, i))) {
            Ok(Some(Some(e))) if e == any => {}
            Ok(x) => errs.push((tags, format!("{what}: fresh direct handle {d:?} of {any:?} resolves to {x:?}"))),
            Err(p) => errs.push((tags, format!("{what}: fresh direct handle {d:?} of {any:?}: {p:?}"))),
        }
    }
    if !matches!(call(|| api.x_contains(a, Key::DA(d), true)), Ok(true)) {
        errs.push((tags, format!("{what}: fresh direct handle {d:?} of {any:?} is not contained")));
    }
}

pub struct Fail {
    pub base: u32,
    pub ctx: u32,
    pub step: usize,
    pub msg: String,
}

pub struct Eng<'e> {
    pub entry: &'e Entry,
    pub all: &'e [Entry],
    pub meta: &'static Meta,
    pub worlds: Vec<Wd>,
    /// handles and direct handles of worlds other than the one they will be shown to
    pub strangers: Vec<EntityAny>,
    pub strange_dirs: Vec<(usize, EntityDirectAny)>,
    pub stamp: u64,
    pub fails: Vec<Fail>,
    /// Failures that carry one of these properties are kept first (0: all alike).
    pub own: u32,
    pub n_own: usize,
    pub n_all: usize,
    pub errs: Errs,
    pub step: usize,
    pub ctx: u32,
    pub flags: u64,
    pub digest: u64,
    pub trace: Option<Vec<String>>,
    pub big: u64,
    pub evals: u64,
    base_live: i64,
}

const CAPS: &[usize] = &[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 16, 30, 33, 64, 100];

impl<'e> Eng<'e> {
    pub fn new(all: &'e [Entry], world: &str) -> Option<Eng<'e>> {
        let entry = all.iter().find(|e| e.meta.name == world)?;
        comp::reset();
        alloc::take_errors();
        Some(Eng {
            entry,
            all,
            meta: entry.meta,
            worlds: Vec::new(),
            strangers: Vec::new(),
            strange_dirs: Vec::new(),
            stamp: 0,
            fails: Vec::new(),
            own: 0,
            n_own: 0,
            n_all: 0,
            errs: Vec::new(),
            step: 0,
            ctx: 0,
            flags: 0,
            digest: 0xcbf2_9ce4_8422_2325,
            trace: None,
            big: 0,
            evals: 0,
            base_live: alloc::LIVE.load(Relaxed),
        })
    }

    pub fn dig(&mut self, x: u64) {
        self.digest = (self.digest ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ (x >> 7);
        if let Some(t) = self.trace.as_mut() {
            t.push(format!("{} {x:x}", self.step));
        }
    }
    fn dig_ent(&mut self, e: EntityAny) {
        let (k, v) = e.raw();
        self.dig(((k as u64) << 32) | v as u64);
    }

    /// Moves collected errors into the failure list with the context of world `wi`.
    pub fn flush(&mut self, wi: Option<usize>) {
        if self.errs.is_empty() {
            return;
        }
        let mut ctx = self.ctx;
        if let Some(w) = wi.and_then(|i| self.worlds.get(i)) {
            ctx |= w.m.ctx;
        }
        for (base, msg) in std::mem::take(&mut self.errs) {
            let own = self.own == 0 || (base | ctx) & self.own != 0;
            self.n_all += 1;
            self.n_own += own as usize;
            if own || self.n_all <= 12 {
                self.fails.push(Fail { base, ctx, step: self.step, msg });
            }
        }
    }
    fn err(&mut self, tags: u32, msg: String) {
        self.errs.push((tags, msg));
    }

    pub fn run(&mut self, case: &Case, limit: usize) {
        for (i, op) in case.ops.iter().enumerate() {
            self.step = i;
            // a call the harness relies on may panic on a broken tree
            if let Err(p) = catch_unwind(AssertUnwindSafe(|| self.op(op))) {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                self.err(0, format!("unexpected panic: {}", m.unwrap_or_default()));
                self.flush(None);
                break;
            }
            self.flush(None);
            if self.n_own >= limit || self.n_all > 4000 {
                break;
            }
        }
        self.step = case.ops.len();
        self.finish();
    }

    /// Drops every world and checks that nothing is left.
    fn finish(&mut self) {
        comp::disarm();
        for wi in 0..self.worlds.len() {
            self.sweep(wi, 3);
            self.flush(Some(wi));
        }
        let mut ctx = 0;
        while let Some(w) = self.worlds.pop() {
            ctx |= w.m.ctx;
            let Wd { api, m } = w;
            if m.n_live() > 0 {
                self.flags |= F_DROP_LIVE;
            }
            if let Err(p) = call(|| drop(api)) {
                self.err(c(4) | c(10), format!("dropping a world: {p:?}"));
            }
            self.registry();
        }
        if CHECKED_ALLOC {
            let n = alloc::LIVE.load(Relaxed) - self.base_live;
            if n != 0 {
                self.err(c(4), format!("{n} blocks allocated by gecs are still allocated after every world was dropped"));
            }
        }
        let old = self.ctx;
        self.ctx |= ctx;
        self.flush(None);
        self.ctx = old;
    }

    /// Instances alive must be exactly those of the live entities of all worlds.
    fn registry(&mut self) {
        let (mut n, mut z, mut b) = (0i64, 0i64, 0i64);
        for w in &self.worlds {
            for (a, am) in w.m.archs.iter().enumerate() {
                let l = am.live.len() as i64;
                for k in self.meta.archs[a].kinds {
                    match k {
                        0 => z += l,
                        1 => b += l,
                        3..=11 => n += l,
                        _ => {}
                    }
                }
            }
        }
        let got = comp::live();
        if got != (n, z, b) {
            let more = got.0 > n || got.1 > z || got.2 > b;
            let less = got.0 < n || got.1 < z || got.2 < b;
            let what = match (more, less) {
                (true, false) => "leaked",
                (false, true) => "dropped too often or while alive",
                _ => "leaked and lost",
            };
            self.err(c(4), format!("component instances (instrumented, zero-sized, byte) are {got:?}, live entities own {:?}: {what}", (n, z, b)));
        }
        for e in comp::take_errors() {
            self.err(c(4) | c(2), e);
        }
        for e in alloc::take_errors() {
            self.err(c(4) | c(2), e.to_string());
        }
    }

    /// Cheap checks after every operation.
    fn invariants(&mut self, wi: usize) {
        let w = &mut self.worlds[wi];
        for a in 0..w.m.archs.len() {
            let (len, empty) = w.api.x_len(a);
            let cap = w.api.x_cap(a);
            let want = w.m.archs[a].live.len();
            if len != want || empty != (want == 0) {
                self.errs.push((c(12), format!("archetype {a}: len {len} is_empty {empty} with {want} live entities")));
            }
            if cap < len {
                self.errs.push((c(12), format!("archetype {a}: capacity {cap} < len {len}")));
            }
            if cap != w.m.archs[a].cap {
                let was = w.m.archs[a].cap;
                self.errs.push((c(12), format!("archetype {a}: capacity went from {was} to {cap} without a creation")));
                w.m.archs[a].cap = cap;
            }
        }
        self.registry();
        self.flush(Some(wi));
    }

    pub fn new_vals(&mut self, a: usize) -> Vec<u64> {
        self.stamp += 1;
        let s = self.stamp;
        self.meta.archs[a].kinds.iter().enumerate().map(|(i, k)| comp::trunc(*k, comp::mix(s, 100 + i as u64))).collect()
    }

    fn op(&mut self, op: &Op) {
        self.evals += 1;
        let a = op.a;
        match op.k {
            K::New => {
                if self.worlds.len() < 4 {
                    self.new_world(a[0], a[1]);
                }
                return;
            }
            K::Big => return crate::big::big(self, a),
            _ => {}
        }
        if self.worlds.is_empty() {
            return;
        }
        let wi = a[0] as usize % self.worlds.len();
        let na = self.meta.archs.len();
        let ar = a[1] as usize % na;
        if self.ctx & c(10) != 0 {
            self.flags |= F_AFTER_PANIC_USE;
        }
        match op.k {
            K::New | K::Big => {}
            K::Create => {
                self.create(wi, ar, false, a[2]);
            }
            K::Within => {
                self.create(wi, ar, true, a[2]);
            }
            K::Destroy => {
                if let Some(id) = self.worlds[wi].m.nth_live(a[1]) {
                    self.destroy(wi, id, a[2], a[3] & 1 == 0, a[3] >> 1);
                }
            }
            K::DestroyDead => {
                if let Some(id) = self.worlds[wi].m.nth_dead(a[1]) {
                    self.destroy_dead(wi, id, a[2], a[3]);
                }
            }
            K::Write => {
                if let Some(id) = self.worlds[wi].m.nth_live(a[1]) {
                    self.write(wi, id, a[2], a[3], a[4]);
                }
            }
            K::Probe => {
                let m = &self.worlds[wi].m;
                let id = if a[5] % 3 == 0 { m.nth_live(a[1]) } else { m.nth_dead(a[1]) }.or(m.nth_live(a[1]));
                if let Some(id) = id {
                    self.probe(wi, id, a[2], a[3], a[4]);
                }
            }
            K::Sweep => self.sweep(wi, a[1]),
            K::IterDestroy => self.iter_destroy(wi, a[1], a[2], a[3], a[4], -1),
            K::Clone => self.clone_world(wi, a[1]),
            K::DropWorld => {
                if self.worlds.len() > 1 {
                    self.drop_world(wi, -1);
                    self.registry();
                    self.flush(None);
                    return;
                }
            }
            K::TakeDirect => {
                if let Some(id) = self.worlds[wi].m.nth_live(a[1]) {
                    self.take_direct(wi, id, a[2], a[3]);
                }
            }
            K::ProbeDirect => self.probe_direct(wi, a[1], a[2], a[3]),
            K::ClearEvents => self.clear_events(wi, a[1], a[2]),
            K::Fill => self.fill(wi, ar, a[2]),
            K::Burst => {
                for i in 0..a[2] % 80 {
                    if self.worlds[wi].m.n_live() > 300 {
                        break;
                    }
                    self.create(wi, ar, false, a[3].wrapping_add(i));
                }
            }
            K::Surge => self.surge(wi, ar, a[2], a[3]),
            K::Mass => self.mass(wi, ar, a[2], a[3]),
            K::Move => self.move_world(wi),
            K::Iter => self.iter(wi, a[1], a[2], a[3], a[4], a[5]),
            K::Events => self.events(wi, a[1]),
            K::Churn => self.churn(wi, ar, a[2], a[3]),
            K::Forge => self.forge(wi, a[1], a[2], a[3], a[4], a[5]),
            K::ForgeDirect => self.forge_direct(wi, a[1], a[2], a[3], a[4]),
            K::PanicClosure => self.panic_closure(wi, a[1], a[2], a[3], a[4]),
            K::PanicClone => self.panic_clone(wi, a[1]),
            K::PanicInto => self.panic_into(wi, ar, a[2], a[3]),
            K::PanicDrop => {
                if self.panic_drop(wi, a[1], a[2], a[3], a[4]) {
                    return;
                }
            }
            K::Preset => self.preset(wi, ar, a[2], a[3], a[4]),
            K::Nest => self.nest(wi, &a),
            K::Conv => self.conv(wi, a[1], a[2], a[3], a[4]),
            K::BadCap => self.bad_cap(a[1], a[2]),
            K::Unborrowed => self.unborrowed(wi),
            K::Jump => self.jump(wi, ar, a[2], a[3]),
        }
        if wi < self.worlds.len() {
            self.flush(Some(wi));
            self.invariants(wi);
        }
    }

    fn new_world(&mut self, ctor: u32, capseed: u32) {
        let na = self.meta.archs.len();
        let mut r = Rng::new(capseed as u64, 77);
        let caps: Vec<usize> = (0..na).map(|_| if capseed == 0 { 0 } else { *r.pick(CAPS) }).collect();
        let ctor = ctor % 4; // half of the worlds with chosen capacities
        let make = self.entry.make;
        let api = match call(|| make(ctor, &caps)) {
            Ok(w) => w,
            Err(p) => {
                self.err(c(12), format!("constructing a world with capacities {caps:?}: {p:?}"));
                return;
            }
        };
        let mut m = Model {
            ents: vec![],
            archs: vec![MArch::default(); na],
            by_raw: HashMap::new(),
            issued: HashSet::new(),
            dead: vec![],
            dirs: vec![],
            ctx: 0,
            cloned: false,
            changes: 0,
            slot_wrapped: false,
        };
        for a in 0..na {
            let cap = api.x_cap(a);
            if ctor >= 2 && cap < caps[a] {
                self.err(c(12), format!("archetype {a}: capacity {cap} after with_capacity({})", caps[a]));
            }
            m.archs[a].cap = cap;
            self.dig(cap as u64);
        }
        self.worlds.push(Wd { api, m });
        let wi = self.worlds.len() - 1;
        self.invariants(wi);
    }

    pub fn create(&mut self, wi: usize, a: usize, within: bool, how: u32) -> Option<usize> {
        let vals = self.new_vals(a);
        self.evals += 1;
        let w = &mut self.worlds[wi];
        let len = w.m.archs[a].live.len();
        let cap = w.m.archs[a].cap;
        let full = len >= cap;
        let pure = w.m.archs[a].removals == 0;
        let api = &mut w.api;
        let before = alloc::COUNT.load(Relaxed);
        let r = if within {
            call(|| api.x_create_within(a, &vals, how))
        } else {
            call(|| Ok(api.x_create(a, &vals, how)))
        };
        let after = alloc::COUNT.load(Relaxed);
        let what = if within { "create_within_capacity" } else { "create" };
        let now = api.x_cap(a);
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                self.err(c(12), format!("{what} with len {len} and capacity {cap}: {p:?}"));
                return None;
            }
        };
        if now < cap {
            self.errs.push((c(12), format!("{what}: capacity went from {cap} down to {now}")));
        }
        if (within || !full) && now != cap {
            self.errs.push((c(12), format!("{what}: capacity went from {cap} to {now} with len {len}")));
        }
        if now > cap {
            self.flags |= F_GREW;
        }
        w.m.archs[a].cap = now;
        let any = match r {
            Ok(any) => any,
            Err(back) => {
                self.flags |= F_FAILED_CREATE;
                if !full {
                    self.errs.push((c(12), format!("create_within_capacity failed with len {len} < capacity {cap}")));
                }
                for (i, v) in back.iter().enumerate() {
                    if *v != Ok(vals[i]) {
                        self.errs.push((c(12) | c(4) | c(2), format!("create_within_capacity returned {v:?} for component {i}, given {}", vals[i])));
                    }
                }
                self.dig(1);
                self.flush(Some(wi));
                return None;
            }
        };
        if within && full {
            self.errs.push((c(12), format!("create_within_capacity succeeded with len {len} = capacity {cap}")));
        }
        if !full && pure && !EVENTS && CHECKED_ALLOC && after != before {
            self.errs.push((c(12), format!("{what} with len {len} < capacity {cap} allocated")));
        }
        self.flags |= F_CREATE;
        if self.meta.archs[a].kinds.len() > 8 {
            self.flags |= F_MANY_COLUMNS;
        }
        let id = self.meta.archs[a].id;
        if any.archetype_id() != id {
            self.errs.push((c(14) | c(1), format!("{what} returned a handle with archetype id {} instead of {id}", any.archetype_id())));
        }
        let w = &mut self.worlds[wi];
        if w.m.by_raw.contains_key(&any.raw()) {
            self.errs.push((c(8), format!("{what} returned {any:?}, the handle of another live entity")));
        } else if w.m.issued.contains(&any.raw()) && !(WRAP && w.m.slot_wrapped) {
            // the destroyed entity's handle is accepted again
            self.errs.push((c(8) | c(1), format!("{what} returned {any:?}, a handle issued before")));
        }
        if any.raw().1 == u32::MAX {
            self.flags |= F_BOUNDARY;
        }
        if !w.m.archs[a].destroyed.is_empty() || w.m.archs[a].removals > 0 {
            if let Some(d) = w.m.dead.last() {
                if w.m.ents[*d].any.raw().0 == any.raw().0 {
                    self.flags |= F_STALE_REUSED;
                }
            }
        }
        let e = w.m.add(a, any, vals);
        // the whole world changed address or not, the new handle must work
        let ok = call(|| (w.api.x_contains(a, Key::T(any), true), w.api.x_contains(a, Key::A(any), true)));
        if !matches!(ok, Ok((true, true))) {
            self.errs.push((c(1), format!("{what}: the returned handle {any:?} is not contained: {ok:?}")));
        }
        self.dig_ent(any);
        self.dig(now as u64);
        self.flush(Some(wi));
        Some(e)
    }

    /// A key of the requested kind for a live entity.
    fn key(&mut self, wi: usize, id: usize, kind: u32) -> Option<Key> {
        let e = &self.worlds[wi].m.ents[id];
        let (any, a) = (e.any, e.arch);
        match kind % 4 {
            0 => Some(Key::T(any)),
            1 => Some(Key::A(any)),
            k => {
                let api = &self.worlds[wi].api;
                let src = if kind & 4 == 0 { Key::T(any) } else { Key::A(any) };
                match call(|| api.x_to_direct(a, src, kind & 8 == 0)) {
                    Ok(Some(d)) => Some(if k == 2 { Key::DT(d) } else { Key::DA(d) }),
                    x => {
                        self.err(c(1) | c(9), format!("to_direct of live entity {any:?}: {x:?}"));
                        None
                    }
                }
            }
        }
    }

    fn note_relocation(m: &mut Model, a: usize, last: Option<EntityAny>, gone: EntityAny, flags: &mut u64) {
        if let Some(l) = last {
            if l != gone {
                if let Some(x) = m.by_raw.get(&l.raw()).copied() {
                    m.ents[x].moved = true;
                    *flags |= F_RELOCATED;
                }
            }
        }
        let _ = a;
    }

    pub fn destroy(&mut self, wi: usize, id: usize, kind: u32, world: bool, how: u32) {
        let Some(k) = self.key(wi, id, kind) else {
            self.flush(Some(wi));
            return;
        };
        self.evals += 1;
        let w = &mut self.worlds[wi];
        let (a, any) = (w.m.ents[id].arch, w.m.ents[id].any);
        let over = w.m.overflow(id) && !WRAP;
        let api = &mut w.api;
        let last = api.x_len(a).0.checked_sub(1).and_then(|i| api.x_entity_at(a, i));
        let r = call(|| api.x_destroy(a, k, world, how));
        let what = format!("destroy({k:?}, world {world})");
        match r {
            Ok(Some(ret)) => {
                if over {
                    self.errs.push((c(8), format!("{what} went past the end of a generation counter without a panic")));
                }
                if let Some(v) = ret {
                    self.flags |= F_CROSS_PATH_READ;
                    for (i, x) in v.iter().enumerate() {
                        if *x != Ok(w.m.ents[id].vals[i]) {
                            self.errs.push((c(2) | c(4), format!("{what} returned {x:?} for component {i}, last written {}", w.m.ents[id].vals[i])));
                        }
                    }
                    self.digest = self.digest.wrapping_add(v.len() as u64);
                }
                w.m.kill(id);
                Self::note_relocation(&mut w.m, a, last, any, &mut self.flags);
                self.flags |= F_DESTROY | [F_EVENT_PATHS, 0, 0, 0][(kind % 4) as usize];
                if w.m.slot_wrapped || w.m.archs[a].wrapped {
                    self.flags |= F_WRAPPED;
                }
            }
            Ok(None) => {
                self.errs.push((c(1), format!("{what} rejected a live entity")));
                let gone = !matches!(call(|| api.x_contains(a, Key::T(any), true)), Ok(true));
                if gone {
                    w.m.kill(id);
                }
            }
            Err(p) => {
                if !over {
                    self.errs.push((c(1) | c(10), format!("{what}: {p:?}")));
                } else {
                    self.flags |= F_PANIC_VERSION;
                    self.ctx |= c(10);
                }
                self.after_panic_on(wi, id);
            }
        }
        self.dig(2);
        let w = &mut self.worlds[wi];
        if !w.m.ents[id].alive {
            for k in [Key::T(any), Key::A(any)] {
                if !matches!(call(|| w.api.x_contains(a, k, true)), Ok(false)) {
                    self.errs.push((c(1), format!("{any:?} is still contained after destroy")));
                }
            }
        }
        self.flush(Some(wi));
    }

    /// A panic escaped while `id` was being destroyed: it must be fully present or fully absent.
    fn after_panic_on(&mut self, wi: usize, id: usize) {
        let w = &mut self.worlds[wi];
        let (a, any) = (w.m.ents[id].arch, w.m.ents[id].any);
        match call(|| w.api.x_contains(a, Key::T(any), true)) {
            Ok(true) => {}
            Ok(false) => w.m.kill(id),
            Err(p) => self.errs.push((c(10), format!("contains({any:?}) after a panic: {p:?}"))),
        }
        self.flush(Some(wi));
        self.probe_all(wi, id, 0);
        self.check_events(wi);
        self.flush(Some(wi));
    }

    fn destroy_dead(&mut self, wi: usize, id: usize, kind: u32, how: u32) {
        let w = &mut self.worlds[wi];
        let e = &w.m.ents[id];
        let (a, any) = (e.arch, e.any);
        if w.m.by_raw.contains_key(&any.raw()) {
            return; // reissued after a documented wraparound
        }
        let k = if kind & 1 == 0 { Key::T(any) } else { Key::A(any) };
        let r = call(|| w.api.x_destroy(a, k, how & 1 == 0, how >> 1));
        if !matches!(r, Ok(None)) {
            self.err(c(1), format!("destroy({k:?}) of a destroyed entity: {r:?}"));
        }
    }

    fn write(&mut self, wi: usize, id: usize, path: u32, kind: u32, sel: u32) {
        let a = self.worlds[wi].m.ents[id].arch;
        let new = self.new_vals(a);
        let Some(k) = self.key(wi, id, kind) else { return };
        let w = &mut self.worlds[wi];
        // only paths that hand out something
        let path = [5, 6, 7, 8, 9, 10, 11, 2][path as usize % 8];
        let r = look(w, a, k, path, sel, Some(&new));
        let what = format!("{} with {k:?} (writing)", PATH_NAMES[path as usize]);
        match r {
            Ok((s, wrote)) => {
                // values were read before they were written, except when one path visits twice
                let twice = s.calls > 1;
                let mut s = s;
                if twice {
                    s.vals.clear();
                }
                judge(w, &what, a, Some(id), &s, 0, &mut self.errs);
                for i in wrote {
                    w.m.ents[id].vals[i] = new[i];
                }
                w.m.ents[id].wrote = path + 1;
                w.m.changes += 1;
                self.flags |= F_WRITE;
            }
            Err(p) => self.err(c(2) | c(1), format!("{what}: {p:?}")),
        }
        self.flush(Some(wi));
    }

    /// One lookup through one path, live or dead.
    fn probe(&mut self, wi: usize, id: usize, path: u32, kind: u32, sel: u32) {
        self.evals += 1;
        let w = &self.worlds[wi];
        let e = &w.m.ents[id];
        let (a, any, alive) = (e.arch, e.any, e.alive);
        let path = path % PATHS;
        let (k, exp) = if alive {
            let Some(k) = self.key(wi, id, kind) else { return };
            (k, Some(id))
        } else {
            // in a documented wraparound the same bits may be live again
            let exp = w.m.by_raw.get(&any.raw()).copied();
            (if kind & 1 == 0 { Key::T(any) } else { Key::A(any) }, exp)
        };
        let w = &mut self.worlds[wi];
        let what = format!("{} with {k:?}", PATH_NAMES[path as usize]);
        match look(w, a, k, path, sel, None) {
            Ok((s, _)) => {
                judge(w, &what, a, exp, &s, 0, &mut self.errs);
                if alive && !s.vals.is_empty() {
                    if w.m.ents[id].moved {
                        self.flags |= F_RELOCATED_READ;
                    }
                    let p = w.m.ents[id].wrote;
                    if p != 0 && p != path + 1 {
                        self.flags |= F_CROSS_PATH_READ;
                    }
                }
                let mut x = s.hit as u64;
                for (i, v) in &s.vals {
                    x = x.wrapping_mul(31).wrapping_add(*i as u64 ^ v.as_ref().copied().unwrap_or(9));
                }
                for i in &s.idx {
                    x = x.wrapping_mul(33).wrapping_add(*i as u64);
                }
                // remember direct handles for later
                if exp.is_some() && w.m.dirs.len() < 64 {
                    for d in &s.dirs {
                        let (removals, structural) = (w.m.archs[a].removals, w.m.archs[a].structural);
                        w.m.dirs.push(Dir { any: *d, ent: id, arch: a, removals, structural });
                        self.flags |= F_DIRECT_ISSUED;
                    }
                }
                self.dig(x);
            }
            Err(p) => self.err(c(1) | c(2), format!("{what}: {p:?}")),
        }
        // no other archetype knows it
        let na = self.meta.archs.len();
        if matches!(k, Key::A(_) | Key::DA(_)) && matches!(path, 1 | 2 | 4 | 5 | 6 | 11) && na > 1 {
            let b = (a + 1 + (sel >> 4) as usize % (na - 1)) % na;
            let t = if matches!(k, Key::A(_)) { c(1) } else { c(9) };
            let w = &mut self.worlds[wi];
            let what = format!("{} of archetype {b} with {k:?} of archetype {a}", PATH_NAMES[path as usize]);
            match look(w, b, k, path, sel, None) {
                Ok((s, _)) if s.hit || s.calls > 0 => self.err(t, format!("{what}: accepted, {:?}", s.ents)),
                Ok(_) => {}
                Err(p) => self.err(t, format!("{what}: {p:?}")),
            }
            if sel % 5 == 0 && self.errs.is_empty() {
                let w = &mut self.worlds[wi];
                match call(|| w.api.x_destroy(b, k, false, sel >> 6).is_some()) {
                    Ok(false) => {}
                    x => self.err(t, format!("destroy by archetype {b} with {k:?} of archetype {a}: {x:?}")),
                }
            }
        }
        // a live entity is invisible to queries that do not match its archetype
        if alive && sel % 7 == 0 {
            if let Some(q) = (0..self.meta.queries.len()).find(|q| !self.meta.queries[*q].matched.contains(&a)) {
                let w = &mut self.worlds[wi];
                let mut n = 0;
                let mut f = |_: &mut Visit| {
                    n += 1;
                    1u32
                };
                let r = call(|| if sel & 1 == 0 { w.api.x_find(q, Key::A(any), &mut f) } else { w.api.x_find_borrow(q, Key::A(any), &mut f) });
                if !matches!(r, Ok(None)) || n > 0 {
                    self.err(c(5), format!("find of {any:?} with a query that does not match its archetype: {r:?}, closure ran {n} times"));
                }
            }
        }
        self.flush(Some(wi));
    }

    fn probe_all(&mut self, wi: usize, id: usize, salt: u32) {
        let alive = self.worlds[wi].m.ents[id].alive;
        for path in 0..PATHS {
            for kind in 0..if alive { 4 } else { 2 } {
                self.probe(wi, id, path, kind + 4 * (salt & 3), salt.wrapping_mul(2654435761).wrapping_add(path * 7 + kind));
            }
        }
    }

    /// Every live entity, a sample of the dead ones, every direct handle, every archetype.
    fn sweep(&mut self, wi: usize, salt: u32) {
        let na = self.meta.archs.len();
        for a in 0..na {
            self.check_arch(wi, a, salt);
        }
        let m = &self.worlds[wi].m;
        let live: Vec<usize> = m.archs.iter().flat_map(|x| x.live.iter().copied()).collect();
        let dead = m.dead.clone();
        let ndirs = m.dirs.len();
        let step = 1 + live.len() / 24;
        for (i, id) in live.iter().enumerate() {
            if i % step == 0 || live.len() - i <= 2 {
                self.probe_all(wi, *id, salt.wrapping_add(i as u32));
            } else {
                // resolve is followed by a walk over a slice
                let path = i as u32 % PATHS;
                let path = if path == 2 && live.len() > 400 && i % 509 > 12 { 0 } else { path };
                self.probe(wi, *id, path, salt >> 3, salt.wrapping_add(i as u32));
            }
            if self.n_own > 60 || self.n_all > 4000 {
                return;
            }
        }
        let step = 1 + dead.len() / 24;
        for (i, id) in dead.iter().enumerate() {
            if i % step == 0 || dead.len() - i <= 4 {
                self.probe_all(wi, *id, salt.wrapping_add(i as u32));
            }
        }
        for i in 0..ndirs {
            self.probe_direct(wi, i as u32, salt.wrapping_add(i as u32), salt);
        }
        self.check_events(wi);
        self.flush(Some(wi));
    }

    /// entities(), slices and iterators of one archetype against the model.
    fn check_arch(&mut self, wi: usize, a: usize, salt: u32) {
        let meta = self.meta;
        let w = &mut self.worlds[wi];
        let want: HashSet<(u32, u32)> = w.m.archs[a].live.iter().map(|i| w.m.ents[*i].any.raw()).collect();
        let ents = match call(|| w.api.x_entities(a)) {
            Ok(e) => e,
            Err(p) => {
                self.err(c(6), format!("entities() of archetype {a}: {p:?}"));
                return;
            }
        };
        let got: HashSet<(u32, u32)> = ents.iter().map(|e| e.raw()).collect();
        if got != want || ents.len() != want.len() {
            self.errs.push((c(6) | c(1), format!("entities() of archetype {a} lists {} handles, {} of them live, {} entities are live", ents.len(), got.intersection(&want).count(), want.len())));
        }
        let mut n = 0;
        let mut bad: Vec<(u32, String)> = Vec::new();
        let m = &w.m;
        let mut f = |v: &mut Visit| {
            alloc::user(|| {
                let i = v.index.unwrap_or(n);
                n += 1;
                if n > ents.len() + 64 {
                    std::panic::panic_any(comp::Injected);
                }
                let e = v.ent.or_else(|| ents.get(i).copied());
                if v.ent.is_some() && salt % 5 == 0 && v.ent != ents.get(i).copied() {
                    bad.push((c(6), format!("item {i} is {:?}, entities()[{i}] is {:?}", v.ent, ents.get(i))));
                }
                let Some(id) = e.and_then(|e| m.by_raw.get(&e.raw())) else {
                    bad.push((c(6), format!("item {i} belongs to no live entity")));
                    return 0;
                };
                for cell in v.cells.iter() {
                    let Some(ci) = comp_index(meta, a, cell.get().kind()) else { continue };
                    match cell.get().read() {
                        Ok(x) if x == m.ents[*id].vals[ci] => {}
                        Ok(x) => bad.push((c(2) | c(6), format!("item {i}: component {ci} of {:?} is {x}, last written {}", m.ents[*id].any, m.ents[*id].vals[ci]))),
                        Err(x) => bad.push((c(2) | c(4) | c(6), format!("item {i}: component {ci} of {:?} is {x}", m.ents[*id].any))),
                    }
                }
                0
            })
        };
        let nc = meta.archs[a].kinds.len();
        let path = salt % 5;
        let r = call(|| match path {
            0 => {
                w.api.x_all_slices(a, &mut f);
            }
            1 => w.api.x_iter(a, false, &mut f),
            2 => w.api.x_iter(a, true, &mut f),
            3 => w.api.x_slice(a, (salt / 5) as usize % nc, salt & 1 == 0, &mut f),
            _ => w.api.x_borrow_slice(a, (salt / 5) as usize % nc, salt & 1 == 0, &mut f),
        });
        let name = ["get_all_slices_mut", "iter", "iter_mut", "get_slice", "borrow_slice"][path as usize];
        if let Err(p) = r {
            bad.push((c(6), format!("{p:?}")));
        }
        if n != w.m.archs[a].live.len() {
            bad.push((c(6), format!("{n} items with {} live entities", w.m.archs[a].live.len())));
        }
        bad.truncate(4);
        self.errs.extend(bad.into_iter().map(|(t, s)| (t, format!("{name} of archetype {a}: {s}"))));
        if path == 0 {
            if let Ok(lens) = call(|| w.api.x_all_slices(a, &mut |_| 1)) {
                if lens.iter().any(|l| *l != w.m.archs[a].live.len()) {
                    self.errs.push((c(6), format!("get_all_slices_mut of archetype {a}: lengths {lens:?} with {} live entities", w.m.archs[a].live.len())));
                }
            }
        }
        for e in &ents {
            let (k, v) = e.raw();
            self.digest = self.digest.wrapping_mul(0x100_0000_01B3) ^ ((k as u64) << 32 | v as u64);
        }
        self.flush(Some(wi));
    }

    /// A pass over one archetype or one query, possibly left early and possibly writing.
    fn iter(&mut self, wi: usize, path: u32, q: u32, sel: u32, brk: u32, write: u32) {
        self.evals += 1;
        let meta = self.meta;
        let na = meta.archs.len();
        let path = path % 10;
        if path >= 7 {
            return self.iter_script(wi, q as usize % na, sel & 256 != 0, brk);
        }
        let nq = meta.queries.len().max(1);
        let query = path < 2 && !meta.queries.is_empty();
        let qi = q as usize % nq;
        let a0 = q as usize % na;
        let archs: Vec<usize> = if query { meta.queries[qi].matched.to_vec() } else { vec![a0] };
        let nc = meta.archs[a0].kinds.len();
        let ci = sel as usize % nc;
        let mutable = sel & 256 != 0;
        let w = &mut self.worlds[wi];
        let total: usize = archs.iter().map(|a| w.m.archs[*a].live.len()).sum();
        // brk: visit after which to leave; beyond the total means never
        let stop = if brk % 3 == 0 { usize::MAX } else { (brk / 3) as usize % (total + 1) };
        let ents = w.api.x_entities(a0);
        self.stamp += 1;
        let stamp = self.stamp;
        let mut n = 0usize;
        let mut seen: HashMap<usize, u32> = HashMap::new();
        let mut bad: Vec<(u32, String)> = Vec::new();
        let mut newdirs: Vec<(EntityDirectAny, usize, usize)> = Vec::new();
        let mut order: u64 = 0;
        let after_stop = stop;
        {
            let m = &mut w.m;
            let mut f = |v: &mut Visit| -> u32 {
                alloc::user(|| {
                    let i = n;
                    n += 1;
                    if i > total + 64 {
                        std::panic::panic_any(comp::Injected);
                    }
                    if i > after_stop {
                        bad.push((c(6), format!("closure ran again after it returned Break at visit {after_stop}")));
                        return 1;
                    }
                    let e = v.ent.or_else(|| v.index.and_then(|x| ents.get(x).copied()));
                    let id = e.and_then(|e| m.by_raw.get(&e.raw())).copied();
                    if let Some(e) = e {
                        order = order.wrapping_mul(0x9E37_79B9).wrapping_add((e.raw().0 as u64) << 32 | e.raw().1 as u64);
                    }
                    let Some(id) = id else {
                        bad.push((c(6), format!("visit {i} presents {e:?}, which is no live entity")));
                        return 0;
                    };
                    if m.ents[id].arch != v.arch || !archs.contains(&v.arch) {
                        bad.push((c(6) | c(5), format!("visit {i} presents {e:?} of archetype {} as archetype {}", m.ents[id].arch, v.arch)));
                    }
                    *seen.entry(id).or_insert(0) += 1;
                    if let Some(d) = v.direct {
                        newdirs.push((d, id, v.arch));
                    }
                    for cell in v.cells.iter_mut() {
                        let Some(ci) = comp_index(meta, v.arch, cell.get().kind()) else {
                            bad.push((c(5), format!("visit {i}: bound to a component the archetype lacks")));
                            continue;
                        };
                        match cell.get().read() {
                            Ok(x) if x == m.ents[id].vals[ci] => {}
                            Ok(x) => bad.push((c(6) | c(2), format!("visit {i}: component {ci} of {e:?} is {x}, last written {}", m.ents[id].vals[ci]))),
                            Err(x) => bad.push((c(6) | c(2) | c(4), format!("visit {i}: component {ci} of {e:?} is {x}"))),
                        }
                        if write % 2 == 1 {
                            if let Cell::M(x) = cell {
                                let nv = comp::trunc(x.kind(), comp::mix(stamp, (id * 64 + ci) as u64));
                                x.set(nv);
                                m.ents[id].vals[ci] = nv;
                                m.ents[id].wrote = 20 + path;
                            }
                        }
                    }
                    (i == stop) as u32
                })
            };
            let api = &mut w.api;
            let r = call(|| match path {
                0 | 1 if query && qi < 2 && stop == usize::MAX && sel & 512 != 0 => api.x_query_iter_as(qi, path, &mut f),
                0 if query => api.x_query_iter(qi, &mut f),
                1 if query => api.x_query_iter_borrow(qi, &mut f),
                2 => api.x_iter(a0, mutable, &mut f),
                3 => api.x_slice(a0, ci, mutable, &mut f),
                4 => api.x_borrow_slice(a0, ci, mutable, &mut f),
                _ => {
                    api.x_all_slices(a0, &mut f);
                }
            });
            if let Err(p) = r {
                bad.push((c(6), format!("{p:?}")));
            }
        }
        if write % 2 == 1 {
            w.m.changes += 1;
            self.flags |= F_WRITE;
        }
        let want = if stop >= total { total } else { stop + 1 };
        if bad.is_empty() && n != want {
            bad.push((c(6), format!("{n} visits instead of {want} ({total} live entities, break at {stop})")));
        }
        if stop < total {
            self.flags |= F_ITER_BREAK;
        }
        if seen.values().any(|x| *x > 1) {
            bad.push((c(6), "an entity was visited more than once".into()));
        }
        if archs.iter().filter(|a| !w.m.archs[**a].live.is_empty()).count() > 1 || (na == 1 && total > 1) {
            self.flags |= F_ITER_MULTI;
        }
        let name = if query {
            format!("{} |{}|", ["ecs_iter!", "ecs_iter_borrow!"][path as usize], meta.queries[qi].text)
        } else {
            format!("{} of archetype {a0}", ["", "", "iter/iter_mut", "get_slice", "borrow_slice", "get_all_slices_mut", "get_all_slices_mut"][path as usize])
        };
        bad.truncate(4);
        self.errs.extend(bad.into_iter().map(|(t, s)| (t, format!("{name}: {s}"))));
        for (j, (d, id, a)) in newdirs.iter().enumerate() {
            let any = w.m.ents[*id].any;
            if j < 12 {
                check_direct_valid(&*w.api, *a, *d, any, &name, c(9), &mut self.errs);
            }
            if w.m.dirs.len() < 64 && j % 3 == 0 {
                let (removals, structural) = (w.m.archs[*a].removals, w.m.archs[*a].structural);
                w.m.dirs.push(Dir { any: *d, ent: *id, arch: *a, removals, structural });
                self.flags |= F_DIRECT_ISSUED;
            }
        }
        self.dig(order);
        self.flush(Some(wi));
    }

    /// Archetype::iter/iter_mut consumed through nth, skip, take, find, last, count, fold, ...
    fn iter_script(&mut self, wi: usize, a: usize, m: bool, how: u32) {
        self.evals += 1;
        self.flags |= F_ADAPTORS;
        let meta = self.meta;
        let w = &mut self.worlds[wi];
        let len = w.m.archs[a].live.len();
        let mut bad: Vec<(u32, String)> = Vec::new();
        // the order of a plain pass
        let mut order: Vec<Option<EntityAny>> = Vec::new();
        let r = call(|| w.api.x_iter(a, m, &mut |v| alloc::user(|| {
            order.push(v.ent);
            (order.len() > len + 64) as u32
        })));
        let model = &w.m;
        let mut seen: HashSet<usize> = HashSet::new();
        let mut f = |v: &mut Visit| {
            alloc::user(|| {
                let i = v.index.unwrap();
                if v.ent != order.get(i).copied().flatten() {
                    bad.push((c(6), format!("item {i} is {:?}, a plain pass gives {:?}", v.ent, order.get(i))));
                }
                let Some(id) = v.ent.and_then(|e| model.by_raw.get(&e.raw())).copied() else {
                    bad.push((c(6), format!("item {i} belongs to no live entity")));
                    return 0;
                };
                if !seen.insert(id) {
                    bad.push((c(6), format!("{:?} was given twice", v.ent)));
                }
                for cell in v.cells.iter() {
                    let Some(ci) = comp_index(meta, a, cell.get().kind()) else { continue };
                    match cell.get().read() {
                        Ok(x) if x == model.ents[id].vals[ci] => {}
                        x => bad.push((c(2) | c(6), format!("item {i}: component {ci} of {:?} is {x:?}, last written {}", v.ent, model.ents[id].vals[ci]))),
                    }
                }
                0
            })
        };
        let r2 = call(|| w.api.x_iter_script(a, m, how, len, &mut f));
        for p in [r.err(), r2.as_ref().err().map(|p| Pan::Msg(format!("{p:?}")))].into_iter().flatten() {
            bad.push((c(6), format!("{p:?}")));
        }
        for n in r2.unwrap_or_default() {
            bad.push((c(6), n));
        }
        bad.truncate(4);
        let name = if m { "iter_mut" } else { "iter" };
        self.errs.extend(bad.into_iter().map(|(t, s)| (t, format!("{name} of archetype {a}, by other methods than next: {s}"))));
        self.flush(Some(wi));
    }

    /// ecs_iter_destroy! with decisions drawn from `seed` in one of several styles.
    /// `boom`: visit at which the closure panics, or -1.
    fn iter_destroy(&mut self, wi: usize, q: u32, seed: u32, style: u32, at: u32, boom: i64) {
        self.evals += 1;
        let meta = self.meta;
        if meta.queries.is_empty() {
            return;
        }
        let qi = q as usize % meta.queries.len();
        let archs = meta.queries[qi].matched;
        let w = &mut self.worlds[wi];
        let start: HashSet<usize> = archs.iter().flat_map(|a| w.m.archs[*a].live.iter().copied()).collect();
        let total = start.len();
        let mut rng = Rng::new(seed as u64, 5);
        let at = at as usize % (total + 1);
        let style = style % 10;
        // Entities whose destruction must panic at the end of a generation counter.
        let name = format!("ecs_iter_destroy! |{}|", meta.queries[qi].text);
        let mut n = 0usize;
        let mut seen: HashMap<usize, u32> = HashMap::new();
        let mut bad: Vec<(u32, String)> = Vec::new();
        let mut killed: Vec<usize> = Vec::new();
        let mut gone: HashSet<usize> = HashSet::new();
        let mut last: Option<(usize, bool)> = None; // entity being visited, destroy wanted
        let mut stopped: Option<usize> = None;
        let mut dirs: Vec<(EntityDirectAny, usize, usize, usize)> = Vec::new(); // handle, entity, arch, removals so far in arch
        let mut removed: HashMap<usize, usize> = HashMap::new();
        let mut order = 0u64;
        self.stamp += 1;
        let stamp = self.stamp;
        let r = {
            let m = &mut w.m;
            let (bad, seen, killed, dirs, removed, order) = (&mut bad, &mut seen, &mut killed, &mut dirs, &mut removed, &mut order);
            let gone = &mut gone;
            let (last, stopped, n) = (&mut last, &mut stopped, &mut n);
            let mut f = |v: &mut Visit| -> u32 {
                let (i, out) = alloc::user(|| {
                    let i = *n;
                    *n += 1;
                    if i > total + 64 {
                        std::panic::panic_any(comp::Injected);
                    }
                    // the previous visit's destruction has been done by now
                    if let Some((p, true)) = *last {
                        killed.push(p);
                        gone.insert(p);
                        *removed.entry(m.ents[p].arch).or_insert(0) += 1;
                    }
                    *last = None;
                    if let Some(s) = *stopped {
                        bad.push((c(7), format!("closure ran again after Break at visit {s}")));
                        return (i, 1);
                    }
                    let id = v.ent.and_then(|e| m.by_raw.get(&e.raw())).copied();
                    if let Some(e) = v.ent {
                        *order = order.wrapping_mul(0x9E37_79B9).wrapping_add((e.raw().0 as u64) << 32 | e.raw().1 as u64);
                    }
                    let Some(id) = id else {
                        bad.push((c(7), format!("visit {i} presents {:?}, which was not alive when the loop started", v.ent)));
                        return (i, 0);
                    };
                    if !start.contains(&id) || gone.contains(&id) {
                        bad.push((c(7), format!("visit {i} presents {:?}, which does not match or was destroyed", v.ent)));
                    }
                    if m.ents[id].arch != v.arch {
                        bad.push((c(7) | c(5), format!("visit {i}: archetype {} for an entity of {}", v.arch, m.ents[id].arch)));
                    }
                    *seen.entry(id).or_insert(0) += 1;
                    if seen[&id] > 1 {
                        bad.push((c(7), format!("visit {i} presents {:?} again", v.ent)));
                    }
                    if let Some(d) = v.direct {
                        dirs.push((d, id, v.arch, removed.get(&v.arch).copied().unwrap_or(0)));
                    }
                    for cell in v.cells.iter_mut() {
                        let Some(ci) = comp_index(meta, v.arch, cell.get().kind()) else { continue };
                        match cell.get().read() {
                            Ok(x) if x == m.ents[id].vals[ci] => {}
                            Ok(x) => bad.push((c(7) | c(2), format!("visit {i}: component {ci} of {:?} is {x}, last written {}", v.ent, m.ents[id].vals[ci]))),
                            Err(x) => bad.push((c(7) | c(2) | c(4), format!("visit {i}: component {ci} of {:?} is {x}", v.ent))),
                        }
                        if seed & 1 == 1 {
                            if let Cell::M(x) = cell {
                                let nv = comp::trunc(x.kind(), comp::mix(stamp, (id * 64 + ci) as u64));
                                x.set(nv);
                                m.ents[id].vals[ci] = nv;
                                m.ents[id].wrote = 30;
                            }
                        }
                    }
                    let out = match style {
                        0 | 1 => [0, 2, 0, 2, 2, 0][rng.below(6)],
                        2 => 2,
                        3 => 0,
                        4 => if i == at { 0 } else { 2 },
                        5 => if i == at { 2 } else { 0 },
                        6 => if i == at { 1 } else { [0, 2][rng.below(2)] },
                        7 => if i == at { 3 } else { [0, 2][rng.below(2)] },
                        9 => (i == at) as u32,
                        _ => if rng.chance(1, 8) { [1, 3][rng.below(2)] } else { (i as u32 & 1) * 2 },
                    };
                    if out & 1 == 1 {
                        *stopped = Some(i);
                    }
                    *last = Some((id, out & 2 == 2));
                    (i, out)
                });
                if boom == i as i64 {
                    alloc::user(|| *last = None);
                    std::panic::panic_any(comp::Injected);
                }
                out
            };
            let api = &mut w.api;
            let how = if style == 3 { 2 } else { 3 };
            if (style == 3 || style == 9) && qi < 2 && seed & 2 != 0 {
                call(|| api.x_query_iter_as(qi, how, &mut f))
            } else {
                call(|| api.x_query_iter_destroy(qi, &mut f))
            }
        };
        let mut tail: Option<usize> = None;
        if let Some((p, true)) = last {
            if r.is_ok() {
                killed.push(p);
            } else {
                tail = Some(p);
            }
        }
        let over_expected = tail.map(|p| w.m.overflow_after(p, &killed)).unwrap_or(false);
        let mut moved: Vec<usize> = Vec::new();
        for id in &killed {
            if !w.m.ents[*id].alive {
                continue;
            }
            if w.m.overflow(*id) && !WRAP {
                bad.push((c(8), "the loop went past the end of a generation counter without a panic".into()));
            }
            w.m.kill(*id);
            moved.push(*id);
        }
        w.m.ctx |= c(7);
        match &r {
            Ok(()) => {
                if boom >= 0 && (boom as usize) < n {
                    bad.push((c(10), "a closure panic did not leave the loop".into()));
                }
                let want = match stopped {
                    Some(s) => s + 1,
                    None => total,
                };
                if bad.is_empty() && n != want {
                    bad.push((c(7), format!("{n} visits instead of {want} ({total} matching entities)")));
                }
            }
            Err(Pan::Injected) if boom >= 0 && boom as usize == n - 1 => {
                self.flags |= F_PANIC_CLOSURE;
                self.ctx |= c(10);
            }
            Err(Pan::Injected) if comp::fired() > 0 && tail.is_some() => {
                self.flags |= F_PANIC_DROP;
                self.ctx |= c(10);
            }
            Err(p) => {
                if over_expected && !WRAP {
                    self.flags |= F_PANIC_VERSION;
                    self.ctx |= c(10);
                } else {
                    bad.push((c(7) | c(10), format!("{p:?}")));
                }
            }
        }
        if killed.len() > 1 {
            self.flags |= F_ID_DESTROY | F_DESTROY;
        }
        if killed.len() < n {
            self.flags |= F_ID_SURVIVE;
        }
        if stopped.is_some() && n < total {
            self.flags |= F_ID_BREAK;
        }
        bad.truncate(4);
        self.errs.extend(bad.into_iter().map(|(t, s)| (t, format!("{name}: {s}"))));
        self.dig(order);
        self.flush(Some(wi));
        comp::disarm();
        if let Some(p) = tail {
            self.after_panic_on(wi, p);
        }
        // exactly the flagged ones are gone
        let w = &mut self.worlds[wi];
        for (k, id) in start.iter().enumerate() {
            let e = &w.m.ents[*id];
            let (a, any, alive) = (e.arch, e.any, e.alive);
            let key = if k & 1 == 0 { Key::T(any) } else { Key::A(any) };
            let r = call(|| w.api.x_contains(a, key, k & 2 == 0));
            if !matches!(r, Ok(x) if x == alive) {
                self.errs.push((c(7) | c(1), format!("{name}: {any:?} contained {r:?} after the loop, it was {}", if alive { "not flagged" } else { "flagged" })));
            }
        }
        let mut rem: HashMap<usize, usize> = HashMap::new();
        for id in &killed {
            *rem.entry(w.m.ents[*id].arch).or_insert(0) += 1;
        }
        if let Some(p) = tail {
            if !w.m.ents[p].alive {
                *rem.entry(w.m.ents[p].arch).or_insert(0) += 1;
            }
        }
        let many = dirs.len() > 600;
        for (j, (d, id, a, before)) in dirs.iter().enumerate() {
            if many && j % 13 > 0 && j > 64 && dirs.len() - j > 64 {
                continue;
            }
            let any = w.m.ents[*id].any;
            let now = rem.get(a).copied().unwrap_or(0);
            if now == *before {
                self.flags |= F_DIRECT_IN_LOOP;
                check_direct_valid(&*w.api, *a, *d, any, &format!("{name}: direct handle handed to the closure"), c(7) | c(9), &mut self.errs);
                if w.m.dirs.len() < 64 {
                    let (removals, structural) = (w.m.archs[*a].removals, w.m.archs[*a].structural);
                    w.m.dirs.push(Dir { any: *d, ent: *id, arch: *a, removals, structural });
                }
            } else if !w.m.archs[*a].wrapped {
                let r = call(|| (w.api.x_resolve(*a, Key::DA(*d)), w.api.x_contains(*a, Key::DT(*d), true)));
                if !matches!(r, Ok((None, false))) {
                    self.errs.push((c(7) | c(9), format!("{name}: direct handle of visit {j} is accepted after a later removal: {r:?}")));
                }
            }
        }
        self.flush(Some(wi));
    }

    fn clone_world(&mut self, wi: usize, sel: u32) {
        if sel % 8 == 7 && self.worlds.len() > 1 {
            return self.clone_onto(wi, sel >> 3);
        }
        if self.worlds.len() >= 5 {
            return;
        }
        let how = [0, 0, 0, 0, 0, 1, 2, 3][sel as usize % 8];
        self.evals += 1;
        let before = comp::clones();
        let w = &mut self.worlds[wi];
        let api = &w.api;
        let r = call(|| api.x_clone(how));
        let api2 = match r {
            Ok(x) => x,
            Err(p) => {
                self.err(c(13) | c(11), format!("clone: {p:?}"));
                return;
            }
        };
        let want: usize = w.m.archs.iter().enumerate().map(|(a, am)| am.live.len() * self.meta.archs[a].kinds.iter().filter(|k| **k != 2 && **k < 12).count()).sum();
        let did = (comp::clones() - before) as usize;
        if did != want {
            self.errs.push((c(4), format!("clone cloned {did} components, {want} are live")));
        }
        for a in 0..self.meta.archs.len() {
            let x = (w.api.x_len(a), w.api.x_cap(a), w.api.x_entities(a), w.api.x_events(a));
            let y = (api2.x_len(a), api2.x_cap(a), api2.x_entities(a), api2.x_events(a));
            if x.0 != y.0 || how < 2 && x.1 != y.1 {
                self.errs.push((c(13), format!("clone: archetype {a} has (len, empty), capacity {:?} {} instead of {:?} {}", y.0, y.1, x.0, x.1)));
            }
            if how < 2 && x.2 != y.2 {
                self.errs.push((c(13), format!("clone: archetype {a} lists other entities or another order")));
            }
            if x.3 != y.3 {
                self.errs.push((c(13) | c(17), format!("clone: archetype {a} has other pending events")));
            }
        }
        w.m.ctx |= c(13);
        w.m.cloned = true;
        w.m.changes = 0;
        let mut m = w.m.clone();
        for a in 0..m.archs.len() {
            m.archs[a].cap = api2.x_cap(a);
        }
        self.worlds.push(Wd { api: api2, m });
        self.flags |= F_CLONED;
        let j = self.worlds.len() - 1;
        self.flush(Some(j));
        self.sweep(j, self.stamp as u32);
        self.invariants(j);
    }

    /// Keeps some handles of a world that ends, to present them to others.
    fn estrange(&mut self, m: &Model) {
        for am in &m.archs {
            for id in am.live.iter().take(4) {
                self.strangers.push(m.ents[*id].any);
            }
        }
        for d in m.dirs.iter().take(6) {
            self.strange_dirs.push((d.arch, d.any));
        }
    }

    /// clone_from onto another world, whose entities end there.
    fn clone_onto(&mut self, wi: usize, sel: u32) {
        let n = self.worlds.len();
        let j = (wi + 1 + sel as usize % (n - 1)) % n;
        self.sweep(j, sel);
        let mut old = self.worlds.remove(j);
        let wi = wi - (wi > j) as usize;
        self.estrange(&old.m);
        let before = comp::clones();
        let (api, to) = (&self.worlds[wi].api, &mut old.api);
        let each = sel & 64 != 0;
        if let Err(p) = call(|| api.x_clone_onto(&mut **to, each)) {
            self.err(c(13) | c(11), format!("clone_from: {p:?}"));
            return;
        }
        let w = &mut self.worlds[wi];
        let want: usize = w.m.archs.iter().enumerate().map(|(a, am)| am.live.len() * self.meta.archs[a].kinds.iter().filter(|k| **k != 2 && **k < 12).count()).sum();
        let did = (comp::clones() - before) as usize;
        if did != want {
            self.errs.push((c(4), format!("clone_from cloned {did} components, {want} are live")));
        }
        w.m.ctx |= c(13);
        w.m.cloned = true;
        w.m.changes = 0;
        let mut m = w.m.clone();
        for a in 0..m.archs.len() {
            // like any clone_from, it may reuse the allocations that were there
            m.archs[a].cap = old.api.x_cap(a);
            if w.api.x_events(a) != old.api.x_events(a) {
                self.errs.push((c(13) | c(17), format!("clone_from: archetype {a} has other pending events")));
            }
        }
        self.worlds.push(Wd { api: old.api, m });
        self.flags |= F_CLONED;
        let j = self.worlds.len() - 1;
        self.registry();
        self.flush(Some(j));
        self.sweep(j, self.stamp as u32);
        self.invariants(j);
    }

    fn drop_world(&mut self, wi: usize, fuse: i64) {
        let Wd { api, m } = self.worlds.remove(wi);
        if m.n_live() > 0 {
            self.flags |= F_DROP_LIVE;
        }
        self.estrange(&m);
        let before = comp::fired();
        comp::arm_drop(fuse);
        let r = call(|| drop(api));
        comp::disarm();
        match r {
            Ok(()) => {}
            Err(Pan::Injected) if comp::fired() > before => {
                self.flags |= F_PANIC_DROP;
                self.ctx |= c(10);
            }
            Err(p) => self.err(c(4) | c(10), format!("dropping a world: {p:?}")),
        }
        let _ = m.ctx;
    }

    fn take_direct(&mut self, wi: usize, id: usize, how: u32, sel: u32) {
        self.evals += 1;
        let w = &mut self.worlds[wi];
        let (a, any) = (w.m.ents[id].arch, w.m.ents[id].any);
        let k = if how & 1 == 0 { Key::T(any) } else { Key::A(any) };
        let d = match (how >> 1) % 4 {
            0 => call(|| w.api.x_to_direct(a, k, sel & 1 == 0)),
            1 => {
                // a direct handle turned into a direct handle
                call(|| w.api.x_to_direct(a, k, true).and_then(|d| w.api.x_to_direct(a, if sel & 2 == 0 { Key::DT(d) } else { Key::DA(d) }, sel & 1 == 0)))
            }
            2 => {
                let mut d = None;
                call(|| w.api.x_find_arch(a, k, &mut |v| {
                    d = v.direct;
                    1
                }))
                .map(|_| d)
            }
            _ => {
                let mut d = None;
                let api = &w.api;
                let mut inside = None;
                let r = call(|| api.x_find_arch_borrow(a, k, &mut |v| {
                    d = v.direct;
                    inside = d.map(|d| api.x_resolve(a, Key::DA(d)));
                    1
                }))
                .map(|_| d);
                if inside != Some(api.x_resolve(a, Key::T(any))) {
                    self.errs.push((c(9), format!("direct handle used inside ecs_find_borrow! of {any:?} resolves to {inside:?}")));
                }
                r
            }
        };
        match d {
            Ok(Some(d)) => {
                check_direct_valid(&*w.api, a, d, any, "direct handle just issued", c(9), &mut self.errs);
                let (removals, structural) = (w.m.archs[a].removals, w.m.archs[a].structural);
                if w.m.dirs.len() >= 64 {
                    let drop = w.m.dirs.len() / 2;
                    w.m.dirs.remove(drop);
                }
                w.m.dirs.push(Dir { any: d, ent: id, arch: a, removals, structural });
                self.flags |= F_DIRECT_ISSUED;
            }
            x => self.errs.push((c(9) | c(1), format!("no direct handle for live entity {any:?}: {x:?}"))),
        }
        self.flush(Some(wi));
    }

    /// Uses a recorded direct handle.
    fn probe_direct(&mut self, wi: usize, sel: u32, path: u32, how: u32) {
        self.evals += 1;
        let w = &mut self.worlds[wi];
        if w.m.dirs.is_empty() {
            return;
        }
        let i = sel as usize % w.m.dirs.len();
        let d = w.m.dirs[i].clone();
        let am = &w.m.archs[d.arch];
        let removed = am.removals > d.removals;
        let same = am.structural == d.structural;
        let path = path % (PATHS + 1);
        let k = if how & 1 == 0 { Key::DT(d.any) } else { Key::DA(d.any) };
        let alive = w.m.ents[d.ent].alive;
        let name = if path == PATHS { "destroy" } else { PATH_NAMES[path as usize] };
        let what = format!("{name} with direct handle {:?} of {:?}", k, w.m.ents[d.ent].any);
        if removed {
            self.flags |= F_DIRECT_AFTER_REMOVE;
            if path == PATHS {
                let r = call(|| w.api.x_destroy(d.arch, k, how & 2 == 0, how >> 2));
                if !matches!(r, Ok(None)) {
                    self.err(c(9), format!("{what}, issued before a removal: {r:?}"));
                    self.flush(Some(wi));
                }
                return;
            }
            match look(w, d.arch, k, path, how >> 1, None) {
                Ok((s, _)) => {
                    if s.hit || s.calls > 0 {
                        let other = s.ents.iter().any(|e| *e != w.m.ents[d.ent].any);
                        let t = if other || !alive { c(9) | c(1) } else { c(9) };
                        self.err(t, format!("{what}, issued before a removal: accepted"));
                    }
                }
                Err(p) => self.err(c(9), format!("{what}, issued before a removal: {p:?}")),
            }
        } else if path == PATHS {
            // a real destruction; only sometimes
            if how % 5 == 0 && same && !w.m.overflow(d.ent) {
                let (a, any) = (d.arch, w.m.ents[d.ent].any);
                let last = w.api.x_len(a).0.checked_sub(1).and_then(|i| w.api.x_entity_at(a, i));
                let r = call(|| w.api.x_destroy(a, k, how & 2 == 0, how >> 2));
                match r {
                    Ok(Some(ret)) => {
                        for (i, x) in ret.iter().flatten().enumerate() {
                            if *x != Ok(w.m.ents[d.ent].vals[i]) {
                                self.errs.push((c(9) | c(2), format!("{what} returned {x:?} for component {i}")));
                            }
                        }
                        w.m.kill(d.ent);
                        Self::note_relocation(&mut w.m, a, last, any, &mut self.flags);
                        self.flags |= F_DESTROY | F_EVENT_PATHS;
                        if !matches!(call(|| w.api.x_contains(a, Key::T(any), true)), Ok(false)) {
                            self.errs.push((c(9) | c(1), format!("{what} destroyed another entity")));
                        }
                    }
                    x => self.err(c(9), format!("{what}, with no change since it was issued: {x:?}")),
                }
            }
        } else {
            if !same {
                self.flags |= F_DIRECT_AFTER_CREATE;
            }
            match look(w, d.arch, k, path, how >> 1, None) {
                Ok((s, _)) => {
                    if s.hit || same {
                        let mut e = Errs::new();
                        judge(w, &what, d.arch, Some(d.ent), &s, c(9), &mut e);
                        self.errs.extend(e);
                    }
                }
                Err(p) => self.err(c(9), format!("{what}: {p:?}")),
            }
        }
        self.flush(Some(wi));
    }

    fn clear_events(&mut self, wi: usize, which: u32, a: u32) {
        let w = &mut self.worlds[wi];
        let na = self.meta.archs.len();
        let all = which % 3 == 0;
        let a = a as usize % na;
        let arg = if all { None } else { Some(a) };
        if let Err(p) = call(|| w.api.x_clear_events(arg)) {
            self.errs.push((c(17), format!("clear_events: {p:?}")));
        }
        for i in 0..na {
            if all || i == a {
                if !w.m.archs[i].created.is_empty() {
                    self.flags |= F_CLEARED;
                }
                w.m.archs[i].created.clear();
                w.m.archs[i].destroyed.clear();
            }
        }
        w.m.changes += 1;
        self.check_events(wi);
    }

    fn events(&mut self, wi: usize, how: u32) {
        self.evals += 1;
        self.check_events(wi);
        if !EVENTS {
            return;
        }
        let na = self.meta.archs.len();
        let w = &mut self.worlds[wi];
        for j in 0..4 {
            let how = how.wrapping_add(j * 977);
            let created = j & 1 == 0;
            let a = if j < 2 { None } else { Some((how >> 4) as usize % na) };
            let plain = match a {
                None => call(|| w.api.x_events_world(created)).ok().flatten().map(|x| x.0),
                Some(a) => call(|| w.api.x_events(a)).ok().flatten().map(|x| if created { x.0 } else { x.1 }),
            };
            let Some(plain) = plain else { continue };
            let name = format!("{}::iter_{}, by other methods than next", if a.is_some() { "Archetype" } else { "World" }, if created { "created" } else { "destroyed" });
            match call(|| w.api.x_events_script(a, created, how, plain.len())) {
                Ok(Some((notes, items))) => {
                    for n in notes {
                        self.errs.push((c(17), format!("{name}: {n}")));
                    }
                    for (i, e) in items {
                        if plain.get(i) != Some(&e) {
                            self.errs.push((c(17), format!("{name}: item {i} is {e:?}, a plain pass gives {:?}", plain.get(i))));
                            break;
                        }
                    }
                }
                x => self.errs.push((c(17), format!("{name}: {:?}", x.map(|_| ())))),
            }
        }
        self.flush(Some(wi));
    }

    fn check_events(&mut self, wi: usize) {
        if !EVENTS {
            return;
        }
        let w = &mut self.worlds[wi];
        let na = self.meta.archs.len();
        let sorted = |v: &[EntityAny]| {
            let mut v: Vec<(u32, u32)> = v.iter().map(|e| e.raw()).collect();
            v.sort();
            v
        };
        let mut with = 0;
        let (mut allc, mut alld) = (Vec::new(), Vec::new());
        for a in 0..na {
            let Some((cr, de)) = w.api.x_events(a) else { return };
            let am = &w.m.archs[a];
            if !am.created.is_empty() && !am.destroyed.is_empty() {
                with += 1;
            }
            if sorted(&cr) != sorted(&am.created) {
                self.errs.push((c(17), format!("iter_created of archetype {a} has {} events, {} entities were created since the last clear", cr.len(), am.created.len())));
            }
            if sorted(&de) != sorted(&am.destroyed) {
                self.errs.push((c(17), format!("iter_destroyed of archetype {a} has {} events, {} entities were destroyed since the last clear", de.len(), am.destroyed.len())));
            }
            allc.extend(am.created.iter().copied());
            alld.extend(am.destroyed.iter().copied());
        }
        if with > 1 || (na == 1 && with == 1) {
            self.flags |= F_EVENTS_MULTI;
        }
        for (created, want) in [(true, allc), (false, alld)] {
            let Ok(Some((got, hints))) = call(|| w.api.x_events_world(created)) else {
                self.errs.push((c(17), "world event iterator panicked".into()));
                continue;
            };
            let name = if created { "iter_created" } else { "iter_destroyed" };
            if sorted(&got) != sorted(&want) {
                self.errs.push((c(17), format!("World::{name} yields {} events, the archetypes' union is {}", got.len(), want.len())));
            }
            for (i, h) in hints.iter().enumerate() {
                let left = got.len().saturating_sub(i);
                if *h != (left, Some(left)) {
                    self.errs.push((c(17), format!("World::{name}: size_hint after {i} items is {h:?} with {left} left")));
                    break;
                }
            }
        }
        self.flush(Some(wi));
    }

    /// Creates within capacity until refused.
    fn fill(&mut self, wi: usize, a: usize, how: u32) {
        let (len, cap, removals) = {
            let am = &self.worlds[wi].m.archs[a];
            (am.live.len(), am.cap, am.removals)
        };
        if cap - len.min(cap) > 150 {
            return;
        }
        let mut n = 0;
        while self.create(wi, a, true, how.wrapping_add(n)).is_some() {
            n += 1;
            if n as usize > cap + 2 {
                break;
            }
        }
        if n as usize != cap - len {
            let ctx = if self.worlds[wi].m.cloned { c(13) } else { 0 };
            self.err(c(12) | ctx, format!("archetype {a} with len {len} and capacity {cap} took {n} more entities"));
        } else if removals > 0 && n > 1 {
            self.flags |= F_REFILL_AFTER_REMOVE;
        }
        self.flush(Some(wi));
    }

    /// Creates hundreds to tens of thousands of entities: up to, just short of or just past a power of two.
    fn surge(&mut self, wi: usize, a: usize, n: u32, how: u32) {
        let mut rng = Rng::new(n as u64, 31);
        let len = self.worlds[wi].m.archs[a].live.len();
        let k = [8, 9, 10, 10, 11, 11, 12, 12, 13, 13, 14, 15][rng.below(12)];
        let goal = match rng.below(4) {
            0 => (1usize << k) - 1,
            1 => 1 << k,
            2 => (1 << k) + 1,
            _ => (1 << k) + rng.below(1 << k),
        };
        // the live count, or the number created, reaches the goal
        let n = if goal > len && rng.chance(2, 3) { goal - len } else { goal };
        for i in 0..n {
            if self.worlds.iter().map(|w| w.m.n_live()).sum::<usize>() > 60_000 {
                break;
            }
            self.create(wi, a, how & 7 == 0, how.wrapping_add(i as u32));
            if self.n_own > 40 || self.n_all > 4000 {
                return;
            }
        }
        if self.worlds[wi].m.archs[a].live.len() > 1000 {
            self.flags |= F_LARGE;
        }
    }

    /// Destroys many entities of one archetype in a pattern.
    fn mass(&mut self, wi: usize, a: usize, pattern: u32, seed: u32) {
        let mut order: Vec<usize> = self.worlds[wi].m.archs[a].live.clone();
        if order.is_empty() {
            return;
        }
        // the dense order of the archetype itself
        if let Ok(ents) = call(|| self.worlds[wi].api.x_entities(a)) {
            let m = &self.worlds[wi].m;
            let dense: Vec<usize> = ents.iter().filter_map(|e| m.by_raw.get(&e.raw()).copied()).collect();
            if dense.len() == order.len() {
                order = dense;
            }
        }
        let mut rng = Rng::new(seed as u64, 9);
        match pattern % 8 {
            0 => {}
            1 => order.reverse(),
            2 => {
                order = order.iter().copied().step_by(2).collect();
            }
            3 => {
                let n = order.len();
                order.remove(seed as usize % n);
            }
            4 => {
                let n = order.len();
                order.truncate(n.div_ceil(2));
            }
            5 => {
                let n = order.len();
                order = order.split_off(n / 2);
            }
            6 => {
                for i in (1..order.len()).rev() {
                    order.swap(i, rng.below(i + 1));
                }
            }
            _ => order.retain(|_| rng.chance(2, 3)),
        }
        for (i, id) in order.into_iter().enumerate() {
            self.destroy(wi, id, seed.wrapping_add(i as u32), (seed >> 4).wrapping_add(i as u32) & 1 == 0, i as u32);
            if self.n_own > 40 || self.n_all > 4000 {
                break;
            }
        }
    }

    fn move_world(&mut self, wi: usize) {
        let Wd { api, m } = self.worlds.remove(wi);
        match call(|| api.x_move()) {
            Ok(api) => self.worlds.insert(wi, Wd { api, m }),
            Err(p) => self.err(c(2), format!("moving a world: {p:?}")),
        }
    }

    /// Recycles positions of one archetype.
    fn churn(&mut self, wi: usize, a: usize, n: u32, how: u32) {
        let n = n % 260;
        for i in 0..n {
            let Some(id) = self.create(wi, a, (how >> 3) & 1 == 0 && self.worlds[wi].m.archs[a].live.len() < self.worlds[wi].m.archs[a].cap, i) else { return };
            let victim = if how & 4 == 0 { id } else { self.worlds[wi].m.live_in(a, how.wrapping_mul(i)).unwrap_or(id) };
            self.destroy(wi, victim, how.wrapping_add(i), i & 1 == 0, i);
            if self.n_own > 20 || self.n_all > 4000 {
                return;
            }
        }
        if n > 40 {
            self.flags |= F_LONG_REUSE;
        }
    }

    // ---- forged and foreign handles ------------------------------------------------------------

    fn pick_raw(&self, wi: usize, src: u32, edit: u32, bits: u32) -> (u32, u32) {
        let w = &self.worlds[wi];
        let na = self.meta.archs.len();
        let mut rng = Rng::new(bits as u64, 3);
        let other = (wi + 1 + bits as usize % self.worlds.len().max(1)) % self.worlds.len();
        let base = match src % 8 {
            0 | 1 => w.m.nth_live(bits).map(|i| w.m.ents[i].any.raw()),
            2 | 3 => w.m.nth_dead(bits).map(|i| w.m.ents[i].any.raw()),
            4 => self.worlds[other].m.nth_live(bits).map(|i| self.worlds[other].m.ents[i].any.raw()),
            5 => self.worlds[other].m.nth_dead(bits).map(|i| self.worlds[other].m.ents[i].any.raw()),
            6 if !self.strangers.is_empty() => Some(self.strangers[bits as usize % self.strangers.len()].raw()),
            _ => None,
        };
        let (mut k, mut v) = base.unwrap_or_else(|| {
            let id = self.meta.archs[rng.below(na)].id as u32;
            ((rng.below(8) as u32) << 8 | id, 1 + rng.below(3) as u32)
        });
        let a = self.meta.archs.iter().position(|x| x.id == k as u8).unwrap_or(0);
        let (cap, len) = (w.m.archs[a].cap as u32, w.m.archs[a].live.len() as u32);
        let low = k & 0xFF;
        let pos = k >> 8;
        match edit % 20 {
            0 => {}
            1 => v = v.wrapping_add(1).max(1),
            2 => v = v.wrapping_sub(1).max(1),
            3 => v = 1,
            4 => v = u32::MAX,
            5 => k = (pos.wrapping_add(1) << 8) | low,
            6 => k = (pos.wrapping_sub(1) << 8) | low,
            7 => k = (cap << 8) | low,
            8 => k = (cap.wrapping_sub(1) << 8) | low,
            9 => k = (len << 8) | low,
            10 => k = (cap.wrapping_add(1) << 8) | low,
            11 => k = (0x00FF_FFFF << 8) | low,
            12 => k = (pos << 8) | self.meta.archs[rng.below(na)].id as u32,
            13 => k = (pos << 8) | (rng.u32() & 0xFF),
            14 => k ^= 1 << rng.below(32),
            15 => v = (v ^ (1 << rng.below(32))).max(1),
            16 => {
                k = rng.u32();
                v = rng.u32().max(1);
            }
            17 => k = ((cap + rng.below(64) as u32) << 8) | low,
            18 => {
                v = 1 + rng.below(6) as u32;
                k = ((rng.below(cap as usize + 2) as u32) << 8) | low;
            }
            _ => k = ((rng.below(cap.max(1) as usize) as u32) << 8) | low,
        }
        (k, v)
    }

    /// Shows an arbitrary bit pattern to one lookup path.
    fn forge(&mut self, wi: usize, src: u32, edit: u32, bits: u32, path: u32, how: u32) {
        self.evals += 1;
        let raw = self.pick_raw(wi, src, edit, bits);
        let e = match call(|| EntityAny::from_raw(raw)) {
            Ok(Ok(e)) => e,
            x => {
                self.err(c(14), format!("from_raw({raw:?}): {:?}", x.map(|y| y.map(|z| z.raw()))));
                return;
            }
        };
        let meta = self.meta;
        let na = meta.archs.len();
        let w = &mut self.worlds[wi];
        let live = w.m.by_raw.get(&raw).copied();
        let declared = meta.arch_by_id(e.archetype_id());
        if edit % 20 != 0 && live.is_none() {
            self.flags |= F_FORGE_NEAR;
        }
        if live.is_some() {
            self.flags |= F_FORGE_HIT;
        }
        let what0 = format!("forged {:?} {e:?}", raw);
        // archetype at which it is used
        let a = match how % 3 {
            0 => declared.unwrap_or(bits as usize % na),
            _ => (bits >> 5) as usize % na,
        };
        let here = declared == Some(a);
        let exp = if here { live } else { None };
        let path = path % 16;
        if path >= 13 {
            // unchecked conversion to a typed handle
            self.flags |= F_UNCHECKED_CONV;
            match call(|| w.api.x_forged_typed(a, e, how / 3)) {
                Ok(f) => {
                    let name = format!("{what0} converted unchecked to archetype {a}, path {}", how / 3 % 6);
                    match (f.hit, exp) {
                        (None, None) => {}
                        (None, Some(_)) => self.err(c(1), format!("{name}: rejected a live entity")),
                        (Some(_), None) => self.err(c(3), format!("{name}: accepted")),
                        (Some(Some(x)), Some(id)) if x != w.m.ents[id].any => self.err(c(3), format!("{name}: designates {x:?}")),
                        _ => {}
                    }
                }
                Err(p) => {
                    if exp.is_some() {
                        self.err(c(1), format!("{what0}: {p:?}"));
                    }
                }
            }
            self.flush(Some(wi));
            return;
        }
        // World-level calls ignore `a`: they dispatch on the id in the handle.
        let typed = here && how & 64 == 0;
        let k = if typed { Key::T(e) } else { Key::A(e) };
        if path == 12 {
            // destroy
            let world = how & 8 == 0;
            let exp = if world && !typed { live } else { exp };
            let aa = if world && !typed { declared.unwrap_or(a) } else { a };
            match exp {
                Some(id) => self.destroy(wi, id, if typed { 0 } else { 1 }, world, how),
                None => {
                    let r = call(|| w.api.x_destroy(aa, k, world, how >> 4));
                    if matches!(r, Ok(Some(_))) {
                        self.err(c(3), format!("destroy with {what0}: destroyed something"));
                    }
                }
            }
            self.flush(Some(wi));
            return;
        }
        let world_level = matches!(path, 0 | 3 | 7 | 8) && !typed || (path == 9 || path == 10) && !typed;
        let (aa, exp) = if world_level { (declared.unwrap_or(a), live) } else { (a, exp) };
        let what = format!("{} with {what0} as {k:?} at archetype {aa}", PATH_NAMES[path as usize]);
        match look(w, aa, k, path, how >> 2, None) {
            Ok((s, _)) => {
                let mut errs = Errs::new();
                // An id this world does not declare can only be absent.
                judge(w, &what, aa, exp, &s, 0, &mut errs);
                for (t, m) in errs {
                    // rejecting is always safe; anything else is C03's business
                    let t = if exp.is_some() && !s.hit { t } else { t | c(3) };
                    self.errs.push((t, m));
                }
            }
            Err(p) => {
                if exp.is_some() {
                    self.err(c(1), format!("{what}: {p:?}"));
                }
            }
        }
        self.flush(Some(wi));
    }

    /// Shows a direct handle of another world (or of this world's past) to a lookup path.
    fn forge_direct(&mut self, wi: usize, src: u32, sel: u32, path: u32, how: u32) {
        self.evals += 1;
        let n = self.worlds.len();
        let other = (wi + 1 + src as usize % n.max(1)) % n;
        let na = self.meta.archs.len();
        if src % 5 == 3 {
            let near = self.meta.archs[sel as usize % na].id;
            let d = crate::shelf::direct(near, sel >> 3);
            if self.meta.arch_by_id(d.archetype_id()).is_none() {
                self.flags |= F_FORGE_DIRECT;
                let w = &mut self.worlds[wi];
                let a = how as usize % na;
                let k = Key::DA(d);
                let r = match path % 13 {
                    12 => call(|| w.api.x_destroy(a, k, how & 32 == 0, how >> 6).is_some()),
                    p => look(w, a, k, p, how >> 2, None).map(|(s, _)| s.hit || s.calls > 0),
                };
                if let Ok(true) = r {
                    self.err(c(3), format!("path {} accepts {d:?}, whose archetype id this world does not declare", path % 13));
                }
                self.flush(Some(wi));
                return;
            }
        }
        let (da, d) = if src % 5 == 3 {
            let near = self.meta.archs[sel as usize % na].id;
            let d = crate::shelf::direct(near, sel >> 3);
            (self.meta.arch_by_id(d.archetype_id()).unwrap(), d)
        } else if src % 5 == 4 && !self.strange_dirs.is_empty() {
            self.strange_dirs[sel as usize % self.strange_dirs.len()]
        } else if src % 2 == 0 && !self.worlds[other].m.dirs.is_empty() {
            let o = &self.worlds[other].m.dirs;
            let x = &o[sel as usize % o.len()];
            (x.arch, x.any)
        } else {
            let o = &self.worlds[other];
            let Some(id) = o.m.nth_live(sel) else { return };
            let e = &o.m.ents[id];
            match call(|| o.api.x_to_direct(e.arch, Key::T(e.any), true)) {
                Ok(Some(d)) => (e.arch, d),
                _ => return,
            }
        };
        self.flags |= F_FORGE_DIRECT;
        // Which live entity of this world has exactly this direct handle now?
        let w = &mut self.worlds[wi];
        let mut owner = None;
        for id in w.m.archs[da].live.clone() {
            let any = w.m.ents[id].any;
            if matches!(call(|| w.api.x_to_direct(da, Key::T(any), true)), Ok(Some(x)) if x == d) {
                owner = Some(id);
            }
        }
        let path = path % 15;
        let what0 = format!("foreign direct handle {d:?} of archetype {da}");
        let unchecked = path >= 13;
        let a = if how & 1 == 0 { da } else { (how >> 1) as usize % na };
        let exp = if a == da { owner } else { None };
        if unchecked {
            self.flags |= F_UNCHECKED_CONV;
            match call(|| w.api.x_forged_typed_direct(a, d, how >> 3)) {
                Ok(f) => match (f.hit, exp) {
                    (Some(_), None) => self.err(c(3), format!("{what0} converted unchecked to archetype {a}: accepted")),
                    (Some(Some(x)), Some(id)) if x != w.m.ents[id].any => self.err(c(3), format!("{what0} designates {x:?}")),
                    _ => {}
                },
                Err(_) => {}
            }
            self.flush(Some(wi));
            return;
        }
        let typed = a == da && how & 16 == 0;
        let k = if typed { Key::DT(d) } else { Key::DA(d) };
        if path == 12 {
            if exp.is_none() && !(owner.is_some() && !typed) {
                let r = call(|| w.api.x_destroy(a, k, how & 32 == 0, how >> 6));
                if matches!(r, Ok(Some(_))) {
                    self.err(c(3), format!("destroy with {what0} destroyed something"));
                }
            }
            self.flush(Some(wi));
            return;
        }
        let world_level = matches!(path, 0 | 3 | 7 | 8 | 9 | 10) && !typed;
        let (aa, exp) = if world_level { (da, owner) } else { (a, exp) };
        let what = format!("{} with {what0} as {k:?} at archetype {aa}", PATH_NAMES[path as usize]);
        if let Ok((s, _)) = look(w, aa, k, path, how >> 2, None) {
            if s.hit || s.calls > 0 {
                let mut errs = Errs::new();
                judge(w, &what, aa, exp, &s, c(3), &mut errs);
                self.errs.extend(errs);
            }
        }
        self.flush(Some(wi));
    }

    // ---- panics ----------------------------------------------------------------------------------

    /// The closure of one of the query macros panics at its k-th visit.
    fn panic_closure(&mut self, wi: usize, mac: u32, q: u32, k: u32, seed: u32) {
        let meta = self.meta;
        if meta.queries.is_empty() {
            return;
        }
        let qi = q as usize % meta.queries.len();
        let archs = meta.queries[qi].matched;
        let total: usize = archs.iter().map(|a| self.worlds[wi].m.archs[*a].live.len()).sum();
        if total == 0 {
            return;
        }
        let k = k as usize % total;
        match mac % 6 {
            0 | 1 => {
                self.iter_destroy(wi, q, seed, seed % 3, 0, k as i64);
            }
            mm => {
                let w = &mut self.worlds[wi];
                let target = archs.iter().flat_map(|a| w.m.archs[*a].live.iter().copied()).nth(k).unwrap();
                let (ta, tany) = (w.m.ents[target].arch, w.m.ents[target].any);
                let _ = ta;
                self.stamp += 1;
                let stamp = self.stamp;
                let mut n = 0;
                let m = &mut w.m;
                let mut f = |v: &mut Visit| -> u32 {
                    alloc::user(|| {
                        let i = n;
                        n += 1;
                        if let Some(id) = v.ent.and_then(|e| m.by_raw.get(&e.raw())).copied() {
                            for cell in v.cells.iter_mut() {
                                if let Cell::M(x) = cell {
                                    if let Some(ci) = comp_index(meta, v.arch, x.kind()) {
                                        let nv = comp::trunc(x.kind(), comp::mix(stamp, (id * 64 + ci) as u64));
                                        x.set(nv);
                                        m.ents[id].vals[ci] = nv;
                                    }
                                }
                            }
                        }
                        if i == k || mm >= 4 {
                            std::panic::panic_any(comp::Injected);
                        }
                        0
                    })
                };
                let api = &mut w.api;
                let r = call(|| match mm {
                    2 => api.x_query_iter(qi, &mut f),
                    3 => api.x_query_iter_borrow(qi, &mut f),
                    4 => {
                        api.x_find(qi, Key::A(tany), &mut f);
                    }
                    _ => {
                        api.x_find_borrow(qi, Key::A(tany), &mut f);
                    }
                });
                w.m.changes += 1;
                if !matches!(r, Err(Pan::Injected)) {
                    self.err(c(10), format!("a panic in a closure of macro {mm} came out as {r:?}"));
                } else {
                    self.flags |= F_PANIC_CLOSURE;
                    self.ctx |= c(10);
                }
            }
        }
        self.flush(Some(wi));
        self.unborrowed(wi);
        self.sweep(wi, seed);
    }

    /// The conversion handed to create panics: nothing may have been created.
    fn panic_into(&mut self, wi: usize, a: usize, how: u32, seed: u32) {
        let vals = self.new_vals(a);
        let w = &mut self.worlds[wi];
        let api = &mut w.api;
        let before = comp::fired();
        comp::arm_into();
        let r = if how & 2 == 0 {
            call(|| { api.x_create(a, &vals, 4 + (how & 1)); true })
        } else {
            call(|| api.x_create_within(a, &vals, 4 + (how & 1)).is_ok())
        };
        comp::disarm();
        // whether room was made before the conversion ran is not stated
        let now = api.x_cap(a);
        let am = &mut w.m.archs[a];
        if now < am.cap || (now > am.cap && (how & 2 != 0 || am.live.len() < am.cap)) {
            self.errs.push((c(12), format!("a create whose conversion panicked took the capacity from {} to {now}", am.cap)));
        }
        am.cap = now;
        if matches!(r, Err(Pan::Injected)) && comp::fired() > before {
            self.flags |= F_PANIC_CLOSURE;
            self.ctx |= c(10);
        } else {
            self.err(c(10), format!("a panic in a conversion into components came out as {r:?}"));
        }
        self.registry();
        self.flush(Some(wi));
        self.sweep(wi, seed);
    }

    fn panic_clone(&mut self, wi: usize, k: u32) {
        if self.worlds.len() >= 5 {
            return;
        }
        let w = &mut self.worlds[wi];
        let want: usize = w.m.archs.iter().enumerate().map(|(a, am)| am.live.len() * self.meta.archs[a].kinds.iter().filter(|k| **k != 2 && **k < 12).count()).sum();
        if want == 0 {
            return;
        }
        let before = comp::fired();
        comp::arm_clone((k as usize % want) as i64);
        let api = &w.api;
        let how = (k >> 16) & 1;
        let r = call(|| api.x_clone(how));
        comp::disarm();
        match r {
            Err(Pan::Injected) if comp::fired() > before => {
                self.flags |= F_PANIC_CLONE;
                self.ctx |= c(10);
            }
            Ok(_) => self.err(c(4), format!("cloning {want} components did not reach clone number {}", k as usize % want)),
            Err(p) => self.err(c(10) | c(13), format!("clone: {p:?}")),
        }
        self.registry();
        self.flush(Some(wi));
        self.unborrowed(wi);
        self.sweep(wi, k);
    }

    /// A component's Drop panics inside gecs. Returns true if the world is gone.
    fn panic_drop(&mut self, wi: usize, mode: u32, sel: u32, k: u32, seed: u32) -> bool {
        match mode % 3 {
            0 => {
                let Some(id) = self.worlds[wi].m.nth_live(sel) else { return false };
                let Some(key) = self.key(wi, id, 1 + 2 * (seed & 1)) else { return false };
                let w = &mut self.worlds[wi];
                let a = w.m.ents[id].arch;
                if w.m.overflow(id) {
                    return false;
                }
                let n = self.meta.archs[a].kinds.iter().filter(|k| **k != 2 && **k < 12).count();
                if n == 0 {
                    return false;
                }
                let before = comp::fired();
                comp::arm_drop((k as usize % n) as i64);
                let r = call(|| w.api.x_destroy(a, key, true, 0));
                comp::disarm();
                match r {
                    Err(Pan::Injected) if comp::fired() > before => {
                        self.flags |= F_PANIC_DROP;
                        self.ctx |= c(10);
                        self.after_panic_on(wi, id);
                    }
                    Ok(Some(_)) => {
                        // no component was dropped inside the call: leaked or dropped later
                        w.m.kill(id);
                        self.err(c(4), format!("destroy({key:?}) dropped fewer than {n} components"));
                    }
                    x => self.err(c(1) | c(10), format!("destroy({key:?}) of a live entity: {x:?}")),
                }
                self.registry();
                self.flush(Some(wi));
                self.sweep(wi, seed);
                false
            }
            1 => {
                comp::arm_drop((k % 24) as i64);
                self.iter_destroy(wi, sel, seed, seed % 3, 0, -1);
                comp::disarm();
                self.registry();
                self.flush(Some(wi));
                self.sweep(wi, seed);
                false
            }
            _ => {
                if self.worlds.len() < 2 {
                    return false;
                }
                let m = &self.worlds[wi].m;
                let n: usize = m.archs.iter().enumerate().map(|(a, am)| am.live.len() * self.meta.archs[a].kinds.iter().filter(|k| **k != 2 && **k < 12).count()).sum();
                if n == 0 {
                    return false;
                }
                self.drop_world(wi, (k as usize % n) as i64);
                self.registry();
                self.flush(None);
                true
            }
        }
    }

    fn bad_cap(&mut self, sel: u32, by: u32) {
        let na = self.meta.archs.len();
        let mut caps = vec![3usize; na];
        caps[sel as usize % na] = match by % 5 {
            0 | 1 => MAX_CAP + 1,
            2 => MAX_CAP + 1 + by as usize,
            3 => MAX_CAP * 2,
            _ => usize::MAX >> (by % 40),
        };
        if caps[sel as usize % na] <= MAX_CAP {
            return;
        }
        let make = self.entry.make;
        let r = call(|| make(2, &caps));
        if r.is_ok() {
            self.err(c(12), format!("with_capacity({caps:?}) did not panic"));
        }
        self.ctx |= c(10);
    }

    fn preset(&mut self, wi: usize, a: usize, slot: u32, arch: u32, seed: u32) {
        let w = &mut self.worlds[wi];
        if w.m.archs[a].touched {
            return;
        }
        fn version(kind: u32, rng: &mut Rng) -> u32 {
            match kind % 9 {
                0 => u32::MAX,
                1 => u32::MAX - 1,
                2 => u32::MAX - rng.below(6) as u32,
                3 => (1 << 8) - 1 - rng.below(3) as u32,
                4 => (1 << 16) - 1 - rng.below(3) as u32,
                5 => (1 << 24) - 1 - rng.below(3) as u32,
                6 => (1 << 31) - 1 - rng.below(3) as u32,
                7 => rng.u32().max(1),
                _ => 1 + rng.below(4) as u32,
            }
        }
        let mut rng = Rng::new(seed as u64, 21);
        let s0 = version(slot, &mut rng);
        let av = version(arch, &mut rng);
        let mixed = slot & 64 != 0;
        let f = move |i: u32| -> u32 {
            if mixed && i % 2 == 1 {
                1 + i
            } else {
                s0.saturating_sub(if mixed { i % 3 } else { 0 }).max(1)
            }
        };
        match call(|| w.api.x_preset(a, &f, av)) {
            Ok(true) => {
                w.m.archs[a].ver = Some(av as u64);
                w.m.dirs.retain(|d| d.arch != a);
            }
            Ok(false) => {}
            Err(p) => self.err(0, format!("preset: {p:?}")),
        }
    }

    /// Empties an archetype and lets its counters jump ahead by a power of two, as if its positions
    /// had been recycled that often; then reuses the positions and shows the old handles.
    fn jump(&mut self, wi: usize, a: usize, bits: u32, seed: u32) {
        let live = self.worlds[wi].m.archs[a].live.clone();
        if live.len() > 24 || self.worlds[wi].m.archs[a].wrapped {
            return;
        }
        // direct handles that will be stale
        for id in live.iter().take(4) {
            self.take_direct(wi, *id, seed, seed >> 3);
        }
        for (i, id) in live.iter().enumerate() {
            self.destroy(wi, *id, (seed >> 5).wrapping_add(i as u32), i & 1 == 0, i as u32);
        }
        // counters that count modulo 2^k or 2^k - 1 come back around here
        let by = (1u64 << (bits % 31)).saturating_add((seed >> 9) as u64 % 5).saturating_sub(3).max(1);
        let w = &mut self.worlds[wi];
        if !w.m.archs[a].live.is_empty() {
            return;
        }
        let mut top: HashMap<u32, u64> = HashMap::new();
        for e in w.m.ents.iter().filter(|e| e.arch == a) {
            let (k, v) = e.any.raw();
            let t = top.entry(k >> 8).or_insert(0);
            *t = (*t).max(v as u64);
        }
        let av = w.m.archs[a].ver.unwrap_or(1 + w.m.archs[a].removals) + by;
        let max = top.values().max().copied().unwrap_or(0);
        if max + by > u32::MAX as u64 - 1000 || av > u32::MAX as u64 - 1000 || top.is_empty() {
            return;
        }
        let f = |i: u32| (top.get(&i).copied().unwrap_or(1) + by) as u32;
        match call(|| w.api.x_preset(a, &f, av as u32)) {
            Ok(true) => w.m.archs[a].ver = Some(av),
            Ok(false) => return,
            Err(p) => {
                self.err(0, format!("preset: {p:?}"));
                return;
            }
        }
        self.flags |= F_JUMP;
        for i in 0..live.len().max(2) {
            self.create(wi, a, false, seed.wrapping_add(i as u32));
        }
        // every old handle of the reused positions, on a few paths each
        let m = &self.worlds[wi].m;
        let old: Vec<usize> = m.dead.iter().rev().copied().filter(|d| m.ents[*d].arch == a).take(40).collect();
        for (i, id) in old.into_iter().enumerate() {
            let s = seed.wrapping_add(i as u32);
            for p in 0..4 {
                self.probe(wi, id, s.wrapping_mul(7).wrapping_add(p * 5), s.wrapping_add(p), s >> 4);
            }
            self.destroy_dead(wi, id, s, s >> 1);
        }
        let n = self.worlds[wi].m.dirs.len() as u32;
        for i in 0..n {
            self.probe_direct(wi, i, seed.wrapping_add(i * 5), seed >> 2);
            self.probe_direct(wi, i, seed.wrapping_add(i * 5 + 6), seed >> 7);
        }
    }

    // ---- runtime borrows -------------------------------------------------------------------------

    /// Every column can be borrowed mutably and the world can be cloned.
    fn unborrowed(&mut self, wi: usize) {
        let w = &self.worlds[wi];
        let mut errs = Errs::new();
        for a in 0..self.meta.archs.len() {
            for ci in 0..self.meta.archs[a].kinds.len() {
                let mut n = usize::MAX;
                if let Err(p) = call(|| w.api.x_hold_slice(a, ci, true, &mut |l| n = l)) {
                    errs.push((c(11), format!("borrow_slice_mut of component {ci} of archetype {a} with nothing borrowed: {p:?}")));
                }
            }
        }
        self.errs.extend(errs);
        self.flush(Some(wi));
    }

    fn nest(&mut self, wi: usize, args: &[u32; 6]) {
        self.evals += 1;
        let na = self.meta.archs.len();
        let mut st: Vec<Vec<i32>> = (0..na).map(|a| vec![0; self.meta.archs[a].kinds.len()]).collect();
        let w = &self.worlds[wi];
        let mut n = Nest { w, meta: self.meta, errs: Errs::new(), flags: 0, steps: 0, digest: 7 };
        n.level(&args[1..], &mut st);
        let Nest { errs, flags, steps, digest, .. } = n;
        self.evals += steps;
        self.flags |= flags;
        self.errs.extend(errs);
        self.dig(digest);
        self.flush(Some(wi));
        self.unborrowed(wi);
    }

    // ---- conversions -----------------------------------------------------------------------------

    fn conv(&mut self, wi: usize, src: u32, bits: u32, edge: u32, sel: u32) {
        self.evals += 1;
        let mut rng = Rng::new(bits as u64, 11);
        let na = self.meta.archs.len();
        const POS: &[u32] = &[0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537, 0x7F_FFFF, 0x80_0000, 0xFF_FFFE, 0xFF_FFFF];
        const VER: &[u32] = &[1, 2, 3, 255, 256, 65535, 65536, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF];
        const IDS: &[u32] = &[0, 1, 2, 3, 7, 63, 64, 127, 128, 129, 253, 254, 255];
        let raw = match src % 3 {
            0 => self.pick_raw(wi, bits % 6, 0, sel),
            1 => {
                self.flags |= F_CONV_EDGE;
                let own = self.meta.archs[rng.below(na)].id as u32;
                let id = match edge % 4 {
                    0 | 2 => own,
                    1 => own ^ (1 << rng.below(8)),
                    _ => *rng.pick(IDS),
                };
                ((*rng.pick(POS) << 8) | id, *rng.pick(VER))
            }
            _ => {
                let id = if edge & 1 == 0 { self.meta.archs[rng.below(na)].id as u32 } else { rng.u32() & 255 };
                (rng.u32() << 8 | id, rng.u32().max(1))
            }
        };
        let w = &self.worlds[wi];
        let mut errs = Errs::new();
        let t = c(14);
        if call(|| EntityAny::from_raw((raw.0, 0)).is_ok()).unwrap_or(true) {
            errs.push((t, format!("from_raw(({}, 0)) was accepted", raw.0)));
        }
        let e = match call(|| EntityAny::from_raw(raw)) {
            Ok(Ok(e)) => e,
            _ => {
                self.err(t, format!("from_raw({raw:?}) was refused"));
                return;
            }
        };
        if e.raw() != raw {
            errs.push((t, format!("from_raw({raw:?}).raw() is {:?}", e.raw())));
        }
        if e.into_any().raw() != raw || e.into_any().archetype_id() != e.archetype_id() {
            errs.push((t, format!("into_any of {e:?}")));
        }
        // Eq and Hash against near misses and itself
        let alt = match sel % 5 {
            0 => (raw.0 ^ (1 << rng.below(32)), raw.1),
            1 => (raw.0, (raw.1 ^ (1 << rng.below(32))).max(1)),
            2 => (raw.1, raw.0.max(1)),
            3 => (raw.0.wrapping_add(256), raw.1),
            _ => raw,
        };
        if let Ok(x) = EntityAny::from_raw(alt) {
            if (x == e) != (alt == raw) || (x != e) == (alt == raw) {
                errs.push((t, format!("{raw:?} == {alt:?} is {}", x == e)));
            }
            if x == e && h64(&x) != h64(&e) {
                errs.push((t, format!("equal handles {raw:?} hash differently")));
            }
            for a in 0..na {
                let id = self.meta.archs[a].id;
                if e.archetype_id() == id && x.archetype_id() == id {
                    match call(|| w.api.x_typed_eq(a, e, x)) {
                        Ok((eq, h)) => {
                            if eq != (alt == raw) || (eq && !h) {
                                errs.push((t, format!("typed {raw:?} == {alt:?} is {eq}, hashes equal {h}")));
                            }
                        }
                        Err(p) => errs.push((t, format!("typed comparison: {p:?}"))),
                    }
                }
            }
        }
        for a in 0..na {
            let id = self.meta.archs[a].id;
            let is = e.archetype_id() == id;
            let cv = match call(|| w.api.x_conv(a, e)) {
                Ok(x) => x,
                Err(p) => {
                    errs.push((t, format!("conversions of {raw:?} to archetype {a}: {p:?}")));
                    continue;
                }
            };
            if cv.try_from != is.then_some(e) || cv.try_from_err.is_some() == is {
                errs.push((t, format!("try_from {raw:?} (id {}) to archetype with id {id}: {:?} {:?}", e.archetype_id(), cv.try_from, cv.try_from_err)));
            }
            if cv.try_from_err.as_deref().is_some_and(|x| x != "InvalidEntityType") {
                errs.push((t, format!("try_from error {:?}", cv.try_from_err)));
            }
            if cv.from_any != is.then_some(e) {
                errs.push((t, format!("from_any {raw:?} to archetype with id {id}: {:?}", cv.from_any)));
            }
            if is && cv.unchecked != Some(e) {
                errs.push((t, format!("from_any_unchecked {raw:?}: {:?}", cv.unchecked)));
            }
            if cv.typed_id != id {
                errs.push((t, format!("typed archetype_id {} instead of {id}", cv.typed_id)));
            }
            for n in cv.typed_notes {
                errs.push((t, format!("{raw:?} as archetype {a}: {n}")));
            }
        }
        let declared = self.meta.arch_by_id(e.archetype_id());
        if let Ok(v) = call(|| w.api.x_select(e)) {
            for (name, got) in v {
                let ok = match (got, declared) {
                    (None, None) => true,
                    (Some((a, x)), Some(d)) => a == d && x.is_none_or(|x| x == e),
                    _ => false,
                };
                if !ok {
                    errs.push((t, format!("{name} of {raw:?} (id {}) gave {got:?}", e.archetype_id())));
                }
            }
        } else {
            errs.push((t, "Select conversion panicked".into()));
        }
        if let Some(d) = declared {
            match call(|| w.api.x_select_typed(d, e)) {
                Ok(v) => {
                    for (name, got) in v {
                        if !matches!(got, Some((a, x)) if a == d && x.is_none_or(|x| x == e)) {
                            errs.push((t, format!("{name} of {raw:?} gave {got:?}")));
                        }
                    }
                }
                Err(p) => errs.push((t, format!("Select conversion: {p:?}"))),
            }
        }
        for k in [(sel & 255) as u8, e.archetype_id(), self.meta.archs[sel as usize % na].id] {
            match call(|| w.api.x_select_id(k)) {
                Ok(got) => {
                    let want = self.meta.arch_by_id(k).map(|a| (a, k));
                    if got != want {
                        errs.push((t | c(15), format!("SelectArchetype::try_from({k}) gave {got:?} instead of {want:?}")));
                    }
                }
                Err(p) => errs.push((t, format!("SelectArchetype::try_from({k}): {p:?}"))),
            }
        }
        // a direct handle of another world type
        let d = crate::shelf::direct(self.meta.archs[edge as usize % na].id, sel);
        for a in 0..na {
            match call(|| w.api.x_conv_direct(a, d)) {
                Ok(n) => errs.extend(n.into_iter().map(|n| (t, n))),
                Err(p) => errs.push((t, format!("direct conversions: {p:?}"))),
            }
        }
        let declared = self.meta.arch_by_id(d.archetype_id());
        match call(|| w.api.x_select_direct(d)) {
            Ok(v) => {
                for (name, got) in v {
                    let ok = match (got, declared) {
                        (None, None) => true,
                        (Some((a, x)), Some(k)) => a == k && x.is_none_or(|x| x == d),
                        _ => false,
                    };
                    if !ok {
                        errs.push((t, format!("{name} of {d:?} gave {got:?}")));
                    }
                }
            }
            Err(p) => errs.push((t, format!("Select conversion: {p:?}"))),
        }
        // direct handles of two entities
        if let Some(id) = w.m.nth_live(sel) {
            let x = &w.m.ents[id];
            let y = &w.m.ents[w.m.nth_live(sel / 7 + 1).unwrap()];
            let dx = call(|| w.api.x_to_direct(x.arch, Key::T(x.any), true));
            let dy = call(|| w.api.x_to_direct(y.arch, Key::A(y.any), sel & 1 == 0));
            if let (Ok(Some(dx)), Ok(Some(dy))) = (dx, dy) {
                let same = x.any == y.any;
                if (dx == dy) != same || (dx != dy) == same || (same && h64(&dx) != h64(&dy)) {
                    errs.push((t, format!("direct handles {dx:?} and {dy:?} of {:?} and {:?} compare {}", x.any, y.any, dx == dy)));
                }
                if (x.any == y.any) != (x.any.raw() == y.any.raw()) {
                    errs.push((t, "EntityAny equality".into()));
                }
                if x.arch == y.arch {
                    match call(|| w.api.x_typed_eq_direct(x.arch, dx, dy)) {
                        Ok((eq, h)) if eq == same && (!eq || h) => {}
                        r => errs.push((t, format!("typed direct handles of {:?} and {:?}: {r:?}", x.any, y.any))),
                    }
                }
                if dx.archetype_id() != self.meta.archs[x.arch].id {
                    errs.push((t, format!("direct handle of archetype {} has id {}", x.arch, dx.archetype_id())));
                }
                for a in 0..na {
                    match call(|| w.api.x_conv_direct(a, dx)) {
                        Ok(n) => errs.extend(n.into_iter().map(|n| (t, n))),
                        Err(p) => errs.push((t, format!("direct conversions: {p:?}"))),
                    }
                }
                let both = [call(|| w.api.x_select_direct(dx)), call(|| w.api.x_select_typed_direct(x.arch, dx))];
                for r in both {
                    match r {
                        Ok(v) => {
                            for (name, got) in v {
                                if !matches!(got, Some((a, z)) if a == x.arch && z.is_none_or(|z| z == dx)) {
                                    errs.push((t, format!("{name} of {dx:?} gave {got:?}")));
                                }
                            }
                        }
                        Err(p) => errs.push((t, format!("Select conversion: {p:?}"))),
                    }
                }
            }
        }
        self.errs.extend(errs);
        self.flush(Some(wi));
    }
}

impl Model {
    /// Would removing `id` overflow once the entities in `before` are gone?
    fn overflow_after(&self, id: usize, before: &[usize]) -> bool {
        let e = &self.ents[id];
        let n = before.iter().filter(|x| self.ents[**x].arch == e.arch).count() as u64;
        e.any.raw().1 == u32::MAX || self.archs[e.arch].ver.is_some_and(|v| v + n == u32::MAX as u64)
    }
}

/// Interpreter of nested runtime-borrowed accesses with a model of the columns' borrow state.
struct Nest<'a> {
    w: &'a Wd,
    meta: &'static Meta,
    errs: Errs,
    flags: u64,
    steps: u64,
    digest: u64,
}

impl<'a> Nest<'a> {
    fn level(&mut self, rest: &[u32], st: &mut Vec<Vec<i32>>) {
        let Some((x, tail)) = rest.split_first() else { return };
        let x = *x;
        if x == 0 {
            return;
        }
        self.steps += 1;
        let w = self.w;
        let meta = self.meta;
        let na = meta.archs.len();
        let kind = x % 7;
        let mutable = (x >> 3) & 1 == 1;
        let a = (x >> 4) as usize % na;
        let ci = (x >> 8) as usize % meta.archs[a].kinds.len();
        let twice = (x >> 13) & 1 == 1;
        let boom = (x >> 14) & 3 == 3;
        let q = (x >> 16) as usize;
        let esel = x >> 20;
        let keyk = (x >> 26) & 1;
        let depth = st.iter().flatten().filter(|s| **s != 0).count();
        // (archetype, component, mutable) wanted, one list per closure call
        let one = |cols: Vec<(usize, usize, bool)>| vec![cols];
        let target = w.m.live_in(a, esel);
        let key = target.map(|id| if keyk == 0 { Key::T(w.m.ents[id].any) } else { Key::A(w.m.ents[id].any) });
        let cols_of = |qi: usize, a: usize| -> Vec<(usize, usize, bool)> {
            meta.queries[qi]
                .params
                .iter()
                .filter_map(|p| match p {
                    P::C(k, m) => Some((a, comp_index(meta, a, *k).unwrap(), *m)),
                    P::One(ks, m) => Some((a, ks.iter().find_map(|k| comp_index(meta, a, *k)).unwrap(), *m)),
                    _ => None,
                })
                .collect()
        };
        let find_q = query_for(meta, a, q as u32);
        let iter_q = if meta.queries.is_empty() { None } else { Some(q % meta.queries.len()) };
        let plan: Vec<Vec<(usize, usize, bool)>> = match kind {
            0 => match (key, find_q) {
                (Some(_), Some(qi)) => one(cols_of(qi, a)),
                _ => vec![],
            },
            1 => match iter_q {
                Some(qi) => meta.queries[qi].matched.iter().flat_map(|a| vec![cols_of(qi, *a); w.m.archs[*a].live.len()]).collect(),
                None => vec![],
            },
            2 | 3 => match key {
                Some(_) => one(vec![(a, ci, mutable)]),
                None => vec![],
            },
            4 | 5 => one(vec![(a, ci, mutable)]),
            _ => one(meta.archs.iter().enumerate().flat_map(|(a, x)| (0..x.kinds.len()).map(move |c| (a, c, false))).collect()),
        };
        let clash = |st: &Vec<Vec<i32>>, cols: &[(usize, usize, bool)]| cols.iter().any(|(a, ci, m)| if *m { st[*a][*ci] != 0 } else { st[*a][*ci] < 0 });
        let mut expect_calls = 0;
        let mut expect_panic = false;
        for cols in &plan {
            if clash(st, cols) {
                expect_panic = true;
                break;
            }
            expect_calls += 1;
        }
        let inner_boom = boom && kind != 6 && expect_calls > 0;
        let mut calls = 0usize;
        let what = format!("{} (nested in {depth} borrowed columns)", match kind {
            0 => format!("ecs_find_borrow! |{}| on archetype {a}", find_q.map(|q| meta.queries[q].text).unwrap_or("-")),
            1 => format!("ecs_iter_borrow! |{}|", iter_q.map(|q| meta.queries[q].text).unwrap_or("-")),
            2 | 3 => format!("Borrow::component{} {ci} of archetype {a}", if mutable { "_mut" } else { "" }),
            4 | 5 => format!("borrow_slice{} of component {ci} of archetype {a}", if mutable { "_mut" } else { "" }),
            _ => "clone".to_string(),
        });
        let result = {
            let this = &mut *self;
            let calls = &mut calls;
            let plan = &plan;
            let mut body = |v: Option<&mut Visit>| -> u32 {
                alloc::user(|| {
                    let i = *calls;
                    *calls += 1;
                    if i > expect_calls + 64 {
                        std::panic::panic_any(comp::Injected);
                    }
                    if let Some(v) = v {
                        // what we were handed must be this entity's own value
                        let id = v.ent.and_then(|e| w.m.by_raw.get(&e.raw())).copied();
                        for cell in v.cells.iter() {
                            if let (Some(id), Some(c2)) = (id, comp_index(meta, v.arch, cell.get().kind())) {
                                match cell.get().read() {
                                    Ok(x) if x == w.m.ents[id].vals[c2] => {}
                                    x => this.errs.push((c(2), format!("{what}: component {c2} of {:?} is {x:?}", v.ent))),
                                }
                            }
                        }
                    }
                    if i == 0 {
                        if let Some(cols) = plan.first() {
                            for (a, ci, m) in cols {
                                st[*a][*ci] += if *m { -1000 } else { 1 };
                            }
                            if depth > 0 && !cols.is_empty() {
                                this.flags |= F_GRANTED_NESTED;
                            }
                            this.level(tail, st);
                            if twice {
                                this.level(tail, st);
                            }
                            for (a, ci, m) in cols {
                                st[*a][*ci] -= if *m { -1000 } else { 1 };
                            }
                        }
                    }
                    if inner_boom && i + 1 == expect_calls.min(2) {
                        std::panic::panic_any(comp::Injected);
                    }
                    0
                })
            };
            let api = &w.api;
            call(|| match kind {
                0 => {
                    if let (Some(k), Some(qi)) = (key, find_q) {
                        api.x_find_borrow(qi, k, &mut |v| body(Some(v)));
                    }
                }
                1 => {
                    if let Some(qi) = iter_q {
                        api.x_query_iter_borrow(qi, &mut |v| body(Some(v)));
                    }
                }
                2 | 3 => {
                    if let Some(k) = key {
                        api.x_borrow_cell(a, k, ci, mutable, &mut |v| body(Some(v)));
                    }
                }
                4 | 5 => api.x_hold_slice(a, ci, mutable, &mut |_| {
                    body(None);
                }),
                _ => {
                    let copy = api.x_clone(0);
                    drop(copy);
                    alloc::user(|| ());
                }
            })
        };
        if kind == 6 {
            calls = expect_calls;
        }
        let t = c(11);
        match result {
            Ok(()) => {
                if expect_panic {
                    self.errs.push((t, format!("{what}: granted although a column is borrowed incompatibly")));
                } else if inner_boom {
                    self.errs.push((t | c(10), format!("{what}: swallowed a panic")));
                } else if calls != expect_calls {
                    self.errs.push((t, format!("{what}: {calls} closure calls instead of {expect_calls}")));
                }
            }
            Err(Pan::Injected) if inner_boom => self.flags |= F_UNWOUND_NEST,
            Err(p) => {
                if !expect_panic {
                    self.errs.push((t, format!("{what}: refused although nothing conflicts: {p:?}")));
                } else {
                    self.flags |= F_CONFLICT;
                    if calls != expect_calls {
                        self.errs.push((t, format!("{what}: closure ran {calls} times before the conflict instead of {expect_calls}")));
                    }
                }
            }
        }
        self.digest = self.digest.wrapping_mul(31).wrapping_add(calls as u64 * 2 + expect_panic as u64);
    }
}
