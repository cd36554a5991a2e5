//! One object-safe view of a generated world. The implementations are written by
//! bin/gen_worlds.py; every method reaches gecs through exactly one access path.

pub use crate::alloc::user;
pub use crate::comp::*;
pub use gecs::prelude::*;

#[derive(Clone, Copy, Debug)]
pub enum Key {
    /// typed `Entity<A>`
    T(EntityAny),
    /// `EntityAny`
    A(EntityAny),
    /// typed `EntityDirect<A>`
    DT(EntityDirectAny),
    /// `EntityDirectAny`
    DA(EntityDirectAny),
}

pub enum Cell<'a> {
    R(&'a dyn Comp),
    M(&'a mut dyn Comp),
}
impl<'a> Cell<'a> {
    pub fn get(&self) -> &dyn Comp {
        match self {
            Cell::R(c) => *c,
            Cell::M(c) => &**c,
        }
    }
}

/// What one closure call / iterator item / view exposes.
pub struct Visit<'a, 'b> {
    pub arch: usize,
    pub ent: Option<EntityAny>,
    pub direct: Option<EntityDirectAny>,
    pub index: Option<usize>,
    pub cells: &'a mut [Cell<'b>],
}

pub type F<'f> = &'f mut dyn FnMut(&mut Visit) -> u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    /// component kind, mutable
    C(Kind, bool),
    /// one of these kinds, mutable
    One(&'static [Kind], bool),
    /// Entity<arch>
    Ent(usize),
    EntAny,
    EntWild,
    Dir(usize),
    DirAny,
    DirWild,
}

pub struct ArchMeta {
    pub name: &'static str,
    pub id: u8,
    pub kinds: &'static [Kind],
}
pub struct QueryMeta {
    pub text: &'static str,
    pub params: &'static [P],
    pub matched: &'static [usize],
}
pub struct Meta {
    pub name: &'static str,
    pub archs: &'static [ArchMeta],
    pub queries: &'static [QueryMeta],
}
impl Meta {
    pub fn arch_by_id(&self, id: u8) -> Option<usize> {
        self.archs.iter().position(|a| a.id == id)
    }
}

/// Results of the conversions of one handle, for C14.
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Conv {
    /// Entity::<A>::try_from(any).ok().map(into_any)
    pub try_from: Option<EntityAny>,
    pub try_from_err: Option<String>,
    /// from_any, or None if it panicked
    pub from_any: Option<EntityAny>,
    /// from_any_unchecked, only called when the archetype id matches
    pub unchecked: Option<EntityAny>,
    pub typed_id: u8,
    pub typed_notes: Vec<String>,
}

pub trait Api {
    fn meta(&self) -> &'static Meta;
    /// 0: the world's clone, 1: its archetypes' clones, 2 and 3: clone_from onto a new world, onto its archetypes
    fn x_clone(&self, how: u32) -> Box<dyn Api>;
    fn x_clone_onto(&self, to: &mut dyn Api, each: bool);
    fn x_any(&mut self) -> &mut dyn std::any::Any;
    fn x_move(self: Box<Self>) -> Box<dyn Api>;
    fn x_len(&self, a: usize) -> (usize, bool);
    fn x_cap(&self, a: usize) -> usize;
    fn x_create(&mut self, a: usize, v: &[u64], how: u32) -> EntityAny;
    fn x_create_within(&mut self, a: usize, v: &[u64], how: u32) -> Result<EntityAny, Vec<Result<u64, String>>>;
    fn x_contains(&self, a: usize, k: Key, world: bool) -> bool;
    fn x_resolve(&self, a: usize, k: Key) -> Option<usize>;
    fn x_to_direct(&self, a: usize, k: Key, world: bool) -> Option<EntityDirectAny>;
    /// None: absent. Some(None): destroyed, values not returned. Some(Some(v)): returned values.
    fn x_destroy(&mut self, a: usize, k: Key, world: bool, how: u32) -> Option<Option<Vec<Result<u64, String>>>>;
    fn x_view(&mut self, a: usize, k: Key, world: bool, how: u32, f: F) -> bool;
    fn x_borrow(&self, a: usize, k: Key, world: bool, how: u32, f: F) -> bool;
    /// One component of one entity through Borrow; `c` indexes the archetype's components.
    fn x_borrow_cell(&self, a: usize, k: Key, c: usize, m: bool, f: F) -> bool;
    fn x_slice(&mut self, a: usize, c: usize, m: bool, f: F);
    fn x_borrow_slice(&self, a: usize, c: usize, m: bool, f: F);
    /// Calls f once with the guard held, whatever the length.
    fn x_hold_slice(&self, a: usize, c: usize, m: bool, f: &mut dyn FnMut(usize));
    fn x_all_slices(&mut self, a: usize, f: F) -> Vec<usize>;
    fn x_iter(&mut self, a: usize, m: bool, f: F);
    /// Consumes iter/iter_mut through other Iterator methods than next; see `script`.
    fn x_iter_script(&mut self, a: usize, m: bool, how: u32, len: usize, f: F) -> Vec<String>;
    fn x_entities(&self, a: usize) -> Vec<EntityAny>;
    fn x_entity_at(&self, a: usize, i: usize) -> Option<EntityAny>;
    fn x_query_iter(&mut self, q: usize, f: F);
    fn x_query_iter_borrow(&self, q: usize, f: F);
    fn x_query_iter_as(&mut self, q: usize, how: u32, f: F);
    fn x_query_iter_destroy(&mut self, q: usize, f: F);
    fn x_find(&mut self, q: usize, k: Key, f: F) -> Option<u32>;
    fn x_find_borrow(&self, q: usize, k: Key, f: F) -> Option<u32>;
    /// find with a typed key and all the archetype's components
    fn x_find_arch(&mut self, a: usize, k: Key, f: F) -> Option<u32>;
    fn x_find_arch_borrow(&self, a: usize, k: Key, f: F) -> Option<u32>;
    fn x_preset(&mut self, a: usize, slot: &dyn Fn(u32) -> u32, arch: u32) -> bool;
    /// (created, destroyed) of one archetype; None without the events feature
    fn x_events(&self, a: usize) -> Option<(Vec<EntityAny>, Vec<EntityAny>)>;
    /// World level: items, and the size_hint before each next() and after the end
    fn x_events_world(&self, created: bool) -> Option<(Vec<EntityAny>, Vec<(usize, Option<usize>)>)>;
    /// Event iterators of one archetype or of the world consumed through other methods than next.
    fn x_events_script(&self, a: Option<usize>, created: bool, how: u32, len: usize) -> Option<(Vec<String>, Vec<(usize, EntityAny)>)>;
    fn x_clear_events(&mut self, a: Option<usize>);
    fn x_conv(&self, a: usize, e: EntityAny) -> Conv;
    fn x_conv_direct(&self, a: usize, e: EntityDirectAny) -> Vec<String>;
    /// Select* results: indices of the archetype selected, or None
    fn x_select(&self, e: EntityAny) -> Vec<(&'static str, Option<(usize, Option<EntityAny>)>)>;
    fn x_select_direct(&self, e: EntityDirectAny) -> Vec<(&'static str, Option<(usize, Option<EntityDirectAny>)>)>;
    fn x_select_typed(&self, a: usize, e: EntityAny) -> Vec<(&'static str, Option<(usize, Option<EntityAny>)>)>;
    fn x_select_typed_direct(&self, a: usize, e: EntityDirectAny) -> Vec<(&'static str, Option<(usize, Option<EntityDirectAny>)>)>;
    /// (==, hashes equal) of the two handles as typed handles; != is checked to be its negation
    fn x_typed_eq(&self, a: usize, x: EntityAny, y: EntityAny) -> (bool, bool);
    fn x_typed_eq_direct(&self, a: usize, x: EntityDirectAny, y: EntityDirectAny) -> (bool, bool);
    fn x_select_id(&self, id: u8) -> Option<(usize, u8)>;
    /// Looks up an unchecked typed conversion of any handle.
    fn x_forged_typed(&mut self, a: usize, e: EntityAny, what: u32) -> Forged;
    fn x_forged_typed_direct(&mut self, a: usize, e: EntityDirectAny, what: u32) -> Forged;
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Forged {
    /// Some(entity) if the call accepted the handle
    pub hit: Option<Option<EntityAny>>,
}

pub fn vals<A: Archetype>(c: &A::Components, f: &[fn(&A::Components) -> Result<u64, String>]) -> Vec<Result<u64, String>> {
    f.iter().map(|g| g(c)).collect()
}

pub fn te<A: Archetype>(e: EntityAny) -> Entity<A> {
    Entity::<A>::from_any(e)
}
pub fn td<A: Archetype>(e: EntityDirectAny) -> EntityDirect<A> {
    EntityDirect::<A>::from_any(e)
}

/// Generic access paths that need no generated names.
pub trait Full<A: Archetype>:
    World
    + WorldHas<A>
    + WorldCanResolve<Entity<A>>
    + WorldCanResolve<EntityDirect<A>>
    + WorldCanResolve<EntityAny>
    + WorldCanResolve<EntityDirectAny>
{
}
impl<A: Archetype, W> Full<A> for W where
    W: World
        + WorldHas<A>
        + WorldCanResolve<Entity<A>>
        + WorldCanResolve<EntityDirect<A>>
        + WorldCanResolve<EntityAny>
        + WorldCanResolve<EntityDirectAny>
{
}

pub fn g_contains<A, W>(w: &W, k: Key, world: bool) -> bool
where
    W: Full<A>,
    A: Archetype + ArchetypeCanResolve<EntityAny> + ArchetypeCanResolve<EntityDirectAny>,
{
    let ar: &A = w.archetype::<A>();
    match (k, world) {
        (Key::T(e), true) => World::contains(w, te::<A>(e)),
        (Key::A(e), true) => World::contains(w, e),
        (Key::DT(e), true) => World::contains(w, td::<A>(e)),
        (Key::DA(e), true) => World::contains(w, e),
        (Key::T(e), false) => ar.contains(te::<A>(e)),
        (Key::A(e), false) => ar.contains(e),
        (Key::DT(e), false) => ar.contains(td::<A>(e)),
        (Key::DA(e), false) => ar.contains(e),
    }
}
pub fn g_resolve<A, W>(w: &W, k: Key) -> Option<usize>
where
    W: Full<A>,
    A: Archetype + ArchetypeCanResolve<EntityAny> + ArchetypeCanResolve<EntityDirectAny>,
{
    let ar: &A = w.archetype::<A>();
    match k {
        Key::T(e) => ar.resolve(te::<A>(e)),
        Key::A(e) => ar.resolve(e),
        Key::DT(e) => ar.resolve(td::<A>(e)),
        Key::DA(e) => ar.resolve(e),
    }
}
pub fn g_to_direct<A, W>(w: &W, k: Key, world: bool) -> Option<EntityDirectAny>
where
    W: Full<A>,
    A: Archetype + ArchetypeCanResolve<EntityAny> + ArchetypeCanResolve<EntityDirectAny>,
{
    let ar: &A = w.archetype::<A>();
    match (k, world) {
        (Key::T(e), true) => World::to_direct(w, te::<A>(e)).map(Into::into),
        (Key::A(e), true) => World::to_direct(w, e),
        (Key::DT(e), true) => World::to_direct(w, td::<A>(e)).map(Into::into),
        (Key::DA(e), true) => World::to_direct(w, e),
        (Key::T(e), false) => ar.to_direct(te::<A>(e)).map(Into::into),
        (Key::A(e), false) => ar.to_direct(e),
        (Key::DT(e), false) => ar.to_direct(td::<A>(e)).map(Into::into),
        (Key::DA(e), false) => ar.to_direct(e),
    }
}
/// Consumes an iterator by a pseudo-random sequence of Iterator methods. Used on the iterator under
/// test and on 0..len, which says which item each call must give.
fn script_run<I: Iterator>(mut it: I, how: u32) -> (Vec<Option<I::Item>>, Vec<usize>, Vec<(usize, Option<usize>)>) {
    let mut r = crate::ops::Rng::new(how as u64, 808);
    let (mut items, mut counts, mut hints) = (Vec::new(), Vec::new(), vec![it.size_hint()]);
    for _ in 0..r.below(7) {
        match r.below(9) {
            0 | 1 => items.push(it.next()),
            2 | 3 => {
                let k = [0, 0, 1, 1, 2, 3, 5, 17][r.below(8)];
                items.push(it.nth(k));
            }
            4 => {
                let k = r.below(4);
                items.extend(it.by_ref().take(k).map(Some));
            }
            5 => {
                let (k, s) = (r.below(4), 1 + r.below(3));
                items.extend(it.by_ref().skip(k).step_by(s).take(2).map(Some));
            }
            6 => {
                // a fold that is left early
                let mut left = r.below(4);
                let x = it.by_ref().try_for_each(|x| {
                    items.push(Some(x));
                    left = left.wrapping_sub(1);
                    if left == usize::MAX { Err(()) } else { Ok(()) }
                });
                counts.push(x.is_ok() as usize);
            }
            7 => {
                let mut left = r.below(5);
                let x = it.find(|_| {
                    left = left.wrapping_sub(1);
                    left == usize::MAX
                });
                items.push(x);
            }
            _ => {
                let k = r.below(3);
                counts.push(it.by_ref().take(k).count());
            }
        }
        hints.push(it.size_hint());
    }
    match r.below(7) {
        0 => counts.push(it.count()),
        1 => items.push(it.last()),
        2 => it.for_each(|x| items.push(Some(x))),
        3 => {
            let n = it.fold(0, |n, x| {
                items.push(Some(x));
                n + 1
            });
            counts.push(n);
        }
        4 => items.extend(it.skip(1).map(Some)),
        5 => {
            let rest: Vec<_> = it.collect();
            items.extend(rest.into_iter().map(Some));
        }
        _ => {}
    }
    (items, counts, hints)
}

/// `f` gets every item handed out with the place in the sequence it must have.
pub fn script<I: Iterator>(it: I, how: u32, len: usize, exact: bool, mut f: impl FnMut(usize, I::Item)) -> Vec<String> {
    let (items, counts, hints) = user(|| script_run(it, how));
    user(|| {
        let (want, wcounts, whints) = script_run(0..len, how);
        let mut notes = Vec::new();
        if items.len() != want.len() || items.iter().zip(&want).any(|(x, y)| x.is_some() != y.is_some()) {
            let show = |v: Vec<bool>| v.iter().map(|b| if *b { 'x' } else { '-' }).collect::<String>();
            notes.push(format!("items given {} instead of {} (sequence {how})", show(items.iter().map(|x| x.is_some()).collect()), show(want.iter().map(|x| x.is_some()).collect())));
        }
        if counts != wcounts {
            notes.push(format!("counts {counts:?} instead of {wcounts:?} (sequence {how})"));
        }
        for (h, w) in hints.iter().zip(&whints) {
            if h.0 > w.0 || h.1.is_some_and(|h| h < w.0) || exact && h != w {
                notes.push(format!("size_hint {h:?} with {} items left (sequence {how})", w.0));
            }
        }
        for (x, i) in items.into_iter().zip(want) {
            if let (Some(x), Some(i)) = (x, i) {
                f(i, x);
            }
        }
        notes
    })
}

pub fn g_entities<A, W>(w: &W) -> Vec<EntityAny>
where
    W: Full<A>,
    A: Archetype,
{
    w.archetype::<A>().entities().iter().map(|e| e.into_any()).collect()
}
pub fn g_entity_at<A, W>(w: &W, i: usize) -> Option<EntityAny>
where
    W: Full<A>,
    A: Archetype,
{
    w.archetype::<A>().entities().get(i).map(|e| e.into_any())
}
/// Destroys and passes the returned components, if any, to `read`.
pub fn g_destroy<A, W>(
    w: &mut W,
    k: Key,
    world: bool,
    read: &dyn Fn(A::Components) -> Vec<Result<u64, String>>,
) -> Option<Option<Vec<Result<u64, String>>>>
where
    W: Full<A>,
    A: Archetype + ArchetypeCanResolve<EntityAny> + ArchetypeCanResolve<EntityDirectAny>,
{
    if world {
        match k {
            Key::T(e) => World::destroy(w, te::<A>(e)).map(|c| Some(read(c))),
            Key::A(e) => World::destroy(w, e).map(|()| None),
            Key::DT(e) => World::destroy(w, td::<A>(e)).map(|c| Some(read(c))),
            Key::DA(e) => World::destroy(w, e).map(|()| None),
        }
    } else {
        let ar: &mut A = w.archetype_mut::<A>();
        match k {
            Key::T(e) => ar.destroy(te::<A>(e)).map(|c| Some(read(c))),
            Key::A(e) => ar.destroy(e).map(|c| Some(read(c))),
            Key::DT(e) => ar.destroy(td::<A>(e)).map(|c| Some(read(c))),
            Key::DA(e) => ar.destroy(e).map(|c| Some(read(c))),
        }
    }
}

fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

pub fn g_eq<T: PartialEq + std::hash::Hash>(x: &T, y: &T) -> (bool, bool) {
    #[allow(clippy::nonminimal_bool)]
    let eq = x == y;
    assert!(eq != (x != y), "== and != agree");
    (eq, h64(x) == h64(y))
}

pub fn h64<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn g_conv<A: Archetype>(e: EntityAny) -> Conv {
    let id_ok = e.archetype_id() == A::ARCHETYPE_ID;
    let tf = Entity::<A>::try_from(e);
    let mut notes = Vec::new();
    let mut typed_id = A::ARCHETYPE_ID;
    if let Ok(mut t) = tf {
        typed_id = t.archetype_id();
        if h64(&t) != h64(&t.into_any()) {
            // Not required by the property: only equal handles of one type must hash equally.
        }
        let back: EntityAny = t.into();
        if back != e {
            notes.push(format!("From<Entity<A>> gave {back:?}"));
        }
        let r: &EntityAny = (&t).into();
        if *r != e {
            notes.push(format!("From<&Entity<A>> gave {r:?}"));
        }
        {
            let r: &mut EntityAny = (&mut t).into();
            if *r != e {
                notes.push(format!("From<&mut Entity<A>> gave {r:?}"));
            }
        }
        if t.into_any().raw() != e.raw() {
            notes.push(format!("into_any().raw() is {:?}", t.into_any().raw()));
        }
        let t2 = t;
        if t2 != t || t2.clone() != t || h64(&t2) != h64(&t) {
            notes.push("a copy is not equal or hashes differently".into());
        }
        if let Ok(t3) = EntityAny::from_raw(e.raw()).map(|x| Entity::<A>::from_any(x)) {
            if t3 != t || h64(&t3) != h64(&t) {
                notes.push("round trip through raw is not equal or hashes differently".into());
            }
        }
    }
    Conv {
        try_from: tf.as_ref().ok().map(|t| t.into_any()),
        try_from_err: tf.err().map(|e| format!("{e:?}")),
        from_any: quiet(|| Entity::<A>::from_any(e).into_any()),
        unchecked: if id_ok { Some(Entity::<A>::from_any_unchecked(e).into_any()) } else { None },
        typed_id,
        typed_notes: notes,
    }
}

pub fn g_conv_direct<A: Archetype>(e: EntityDirectAny) -> Vec<String> {
    let mut notes = Vec::new();
    let id_ok = e.archetype_id() == A::ARCHETYPE_ID;
    let tf = EntityDirect::<A>::try_from(e);
    if tf.is_ok() != id_ok {
        notes.push(format!("EntityDirect::try_from ok={} for id {}", tf.is_ok(), e.archetype_id()));
    }
    if let Err(x) = &tf {
        if format!("{x:?}") != "InvalidEntityType" {
            notes.push(format!("EntityDirect::try_from error {x:?}"));
        }
    }
    let fa = quiet(|| EntityDirect::<A>::from_any(e).into_any());
    if fa.is_some() != id_ok || (id_ok && fa != Some(e)) {
        notes.push(format!("EntityDirect::from_any gave {fa:?}"));
    }
    if let Ok(mut t) = tf {
        if t.archetype_id() != A::ARCHETYPE_ID || e.archetype_id() != A::ARCHETYPE_ID {
            notes.push("EntityDirect archetype_id".into());
        }
        let back: EntityDirectAny = t.into();
        if back != e || t.into_any() != e || back.into_any() != e {
            notes.push(format!("From<EntityDirect<A>> gave {back:?}"));
        }
        let un = EntityDirect::<A>::from_any_unchecked(e);
        if un != t || h64(&un) != h64(&t) || h64(&back) != h64(&e) {
            notes.push("EntityDirect::from_any_unchecked differs".into());
        }
        let r: &EntityDirectAny = (&t).into();
        if *r != e {
            notes.push("From<&EntityDirect<A>>".into());
        }
        let r: &mut EntityDirectAny = (&mut t).into();
        if *r != e {
            notes.push("From<&mut EntityDirect<A>>".into());
        }
    }
    notes
}

pub fn g_forged<A, W>(w: &mut W, e: EntityAny, what: u32) -> Forged
where
    W: Full<A>,
    A: Archetype + ArchetypeCanResolve<EntityAny> + ArchetypeCanResolve<EntityDirectAny>,
{
    let t = Entity::<A>::from_any_unchecked(e);
    let _ = user(|| format!("{t} {t:?} {e} {e:?}"));
    let hit = match what % 6 {
        0 => World::contains(w, t).then_some(None),
        1 => w.archetype::<A>().contains(t).then_some(None),
        2 => {
            let ar = w.archetype::<A>();
            ar.resolve(t).map(|i| Some(ar.entities()[i].into_any()))
        }
        3 => World::to_direct(w, t).map(|_| None),
        4 => w.archetype::<A>().borrow(t).map(|b| Some(b.entity().into_any())),
        _ => w.archetype_mut::<A>().view(t).map(|v| {
            let _ = v.index();
            None
        }),
    };
    Forged { hit }
}
pub fn g_forged_direct<A, W>(w: &mut W, e: EntityDirectAny, what: u32) -> Forged
where
    W: Full<A>,
    A: Archetype + ArchetypeCanResolve<EntityAny> + ArchetypeCanResolve<EntityDirectAny>,
{
    let t = EntityDirect::<A>::from_any_unchecked(e);
    let _ = user(|| format!("{t} {t:?} {e} {e:?}"));
    let hit = match what % 6 {
        0 => World::contains(w, t).then_some(None),
        1 => w.archetype::<A>().contains(t).then_some(None),
        2 => {
            let ar = w.archetype::<A>();
            ar.resolve(t).map(|i| Some(ar.entities()[i].into_any()))
        }
        3 => World::to_direct(w, t).map(|_| None),
        4 => w.archetype::<A>().borrow(t).map(|b| Some(b.entity().into_any())),
        _ => w.archetype_mut::<A>().view(t).map(|v| {
            let _ = v.index();
            None
        }),
    };
    Forged { hit }
}
