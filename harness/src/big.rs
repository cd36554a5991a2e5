//! Histories of millions of operations: the 2^24 limit and long reuse of one position.
//! They keep a compact model of their own (handle and value per creation number).

use crate::api::*;
use crate::engine::*;
use crate::ops::Rng;
use std::collections::HashSet;

pub fn big(g: &mut Eng, a: [u32; 6]) {
    g.flags |= F_BIG;
    match a[0] % 4 {
        0 => limit(g, a[1], a[2], a[3]),
        3 => scale(g, a[1], a[2], a[3]),
        x => reuse(g, a[1], a[2], a[3], x == 2),
    }
    g.flush(None);
}

fn value(meta: &Meta, a: usize, n: u64, out: &mut Vec<u64>) {
    out.clear();
    for (i, k) in meta.archs[a].kinds.iter().enumerate() {
        out.push(crate::comp::trunc(*k, crate::comp::mix(n, 100 + i as u64)));
    }
}

fn cells_ok(meta: &Meta, a: usize, v: &Visit, want: &[u64]) -> bool {
    v.cells.iter().all(|x| match comp_index(meta, a, x.get().kind()) {
        Some(i) => x.get().read() == Ok(want[i]),
        None => false,
    })
}

/// Fills one archetype to the limit, goes past it, removes and refills.
fn limit(g: &mut Eng, asel: u32, start: u32, seed: u32) {
    let meta = g.meta;
    let na = meta.archs.len();
    let a = asel as usize % na;
    let mut rng = Rng::new(seed as u64, 4242);
    let mut caps = vec![0usize; na];
    caps[a] = match start % 8 {
        0 | 1 => 0,
        2 => MAX_CAP,
        3 => MAX_CAP - 1,
        4 => MAX_CAP / 2 - 1,
        5 => MAX_CAP / 2,
        6 => MAX_CAP / 2 - 2 - rng.below(1000),
        _ => MAX_CAP - 1 - rng.below(MAX_CAP / 2),
    };
    let t = c(12);
    let make = g.entry.make;
    let mut w = match call(|| make(2, &caps)) {
        Ok(w) => w,
        Err(p) => return g.errs.push((t, format!("with_capacity({}): {p:?}", caps[a]))),
    };
    let mut cap = w.x_cap(a);
    if cap < caps[a] {
        g.errs.push((t, format!("capacity {cap} after with_capacity({})", caps[a])));
    }
    let mut handles: Vec<(u32, u32)> = Vec::with_capacity(MAX_CAP + 4);
    let mut used = vec![0u64; MAX_CAP / 64];
    let mut odd: HashSet<(u32, u32)> = HashSet::new();
    let mut v = Vec::new();
    let how = rng.u32();
    while handles.len() < MAX_CAP {
        let n = handles.len();
        if n >= cap {
            value(meta, a, n as u64, &mut v);
            match call(|| w.x_create_within(a, &v, how)) {
                Ok(Err(back)) => {
                    if back.iter().zip(&v).any(|(x, y)| *x != Ok(*y)) {
                        g.errs.push((t | c(4), format!("create_within_capacity at len {n} returned {back:?}")));
                    }
                }
                r => {
                    g.errs.push((t, format!("create_within_capacity at len {n} = capacity: {:?}", r.map(|x| x.is_ok()))));
                    return;
                }
            }
        }
        value(meta, a, n as u64, &mut v);
        let e = match call(|| w.x_create(a, &v, how)) {
            Ok(e) => e,
            Err(p) => {
                g.errs.push((t, format!("create at len {n}: {p:?}")));
                return;
            }
        };
        let now = w.x_cap(a);
        if now < cap || (n < cap && now != cap) || now <= n || now > MAX_CAP {
            g.errs.push((t, format!("create at len {n}: capacity went from {cap} to {now}")));
            return;
        }
        cap = now;
        let (k, ver) = e.raw();
        let pos = (k >> 8) as usize;
        let fresh = if ver == 1 && k & 255 == meta.archs[a].id as u32 {
            let bit = 1u64 << (pos % 64);
            let old = used[pos / 64] & bit == 0;
            used[pos / 64] |= bit;
            old
        } else {
            odd.insert((k, ver))
        };
        if !fresh {
            g.errs.push((c(8), format!("creation {n} returned {e:?}, a handle issued before")));
            return;
        }
        handles.push((k, ver));
        if n % (1 << 20) == 0 && w.x_len(a) != (n + 1, false) {
            g.errs.push((t, format!("len {:?} after {} creations", w.x_len(a), n + 1)));
        }
    }
    g.evals += MAX_CAP as u64;
    if cap != MAX_CAP || w.x_len(a).0 != MAX_CAP {
        g.errs.push((t, format!("full archetype: capacity {cap} len {}", w.x_len(a).0)));
    }
    value(meta, a, 7, &mut v);
    for i in 0..2 {
        // past the end
        if call(|| w.x_create(a, &v, how + i)).is_ok() {
            g.errs.push((t, "create beyond 2^24 entities succeeded".into()));
            return;
        }
        if !matches!(call(|| w.x_create_within(a, &v, how + i)), Ok(Err(_))) {
            g.errs.push((t, "create_within_capacity beyond 2^24 entities succeeded".into()));
            return;
        }
        if w.x_len(a).0 != MAX_CAP || w.x_cap(a) != MAX_CAP {
            g.errs.push((t | c(10), format!("len {} capacity {} after a refused creation", w.x_len(a).0, w.x_cap(a))));
        }
    }
    g.ctx |= c(10);
    let any = |h: (u32, u32)| EntityAny::from_raw(h).unwrap();
    // the model: creation number of every handle
    let mut alive: Vec<bool> = vec![true; handles.len()];
    let probe = |g: &mut Eng, w: &mut Box<dyn Api>, handles: &[(u32, u32)], alive: &[bool], n: usize| {
        let e = any(handles[n]);
        let mut want = Vec::new();
        value(meta, a, n as u64, &mut want);
        let k = if n % 2 == 0 { Key::T(e) } else { Key::A(e) };
        let mut ok = true;
        let r = call(|| {
            let i = w.x_resolve(a, k);
            let hit = w.x_view(a, k, true, 0, &mut |v| {
                ok &= v.ent == Some(e) && v.index == i && cells_ok(meta, a, v, &want);
                0
            });
            (i.is_some(), hit, w.x_contains(a, k, true))
        });
        g.evals += 1;
        if !matches!(r, Ok(x) if x == (alive[n], alive[n], alive[n])) {
            g.errs.push((c(1), format!("handle {e:?} in an archetype of 2^24: {r:?}, alive {}", alive[n])));
        } else if !ok {
            g.errs.push((c(1) | c(2), format!("handle {e:?} in an archetype of 2^24 designates another entity or value")));
        }
    };
    for i in 0..4000usize {
        let n = match i {
            0..=9 => i,
            10..=19 => handles.len() - 1 - (i - 10),
            _ => rng.below(handles.len()),
        };
        probe(g, &mut w, &handles, &alive, n);
        if g.errs.len() > 5 {
            return;
        }
    }
    // one full pass
    let mut items = 0usize;
    let mut sum = 0u64;
    let mut wrong = 0;
    let _ = call(|| {
        w.x_iter(a, false, &mut |v| {
            items += 1;
            sum = sum.wrapping_add(v.ent.map(|e| e.raw().0 as u64 * 31 + e.raw().1 as u64).unwrap_or(0));
            if v.index != Some(items - 1) {
                wrong += 1;
            }
            0
        })
    });
    let want = handles.iter().fold(0u64, |s, h| s.wrapping_add(h.0 as u64 * 31 + h.1 as u64));
    if items != MAX_CAP || sum != want || wrong > 0 {
        g.errs.push((c(6), format!("a pass over 2^24 entities shows {items} items, handle sum {sum} instead of {want}")));
    }
    // remove some, refill
    let mut gone = Vec::new();
    for i in 0..3000usize {
        let n = match i {
            0 => 0,
            1 => handles.len() - 1,
            2 => 1,
            _ => rng.below(handles.len()),
        };
        if !alive[n] {
            continue;
        }
        let e = any(handles[n]);
        let k = if i % 2 == 0 { Key::T(e) } else { Key::A(e) };
        if !matches!(call(|| w.x_destroy(a, k, i % 3 == 0, i as u32)), Ok(Some(_))) {
            g.errs.push((c(1), format!("destroy of {e:?} in an archetype of 2^24 was refused")));
            return;
        }
        alive[n] = false;
        gone.push(n);
    }
    let live = MAX_CAP - gone.len();
    if w.x_len(a).0 != live || w.x_cap(a) != MAX_CAP {
        g.errs.push((t, format!("len {} capacity {} with {live} live entities", w.x_len(a).0, w.x_cap(a))));
    }
    for n in &gone {
        probe(g, &mut w, &handles, &alive, *n);
    }
    let mut refilled = 0;
    let mut seen: HashSet<(u32, u32)> = HashSet::new();
    loop {
        let n = handles.len();
        value(meta, a, n as u64, &mut v);
        let r = if refilled % 2 == 1 && refilled < gone.len() {
            call(|| Ok(w.x_create(a, &v, how)))
        } else {
            call(|| w.x_create_within(a, &v, how))
        };
        match r {
            Ok(Ok(e)) => {
                let (k, ver) = e.raw();
                let bit = 1u64 << ((k >> 8) % 64);
                let old = ver == 1 && used[(k >> 8) as usize / 64] & bit != 0;
                if old || odd.contains(&(k, ver)) || !seen.insert((k, ver)) {
                    g.errs.push((c(8), format!("refilling returned {e:?}, a handle issued before")));
                    return;
                }
                handles.push((k, ver));
                alive.push(true);
                refilled += 1;
            }
            Ok(Err(_)) => break,
            Err(p) => {
                g.errs.push((t, format!("refilling: {p:?}")));
                return;
            }
        }
        if refilled > gone.len() + 2 {
            break;
        }
    }
    if refilled != gone.len() {
        g.errs.push((t, format!("{refilled} creations fit after {} removals", gone.len())));
    }
    for i in 0..3000usize {
        let n = if i < 1500 { handles.len() - 1 - i.min(handles.len() - 1) } else { rng.below(handles.len()) };
        probe(g, &mut w, &handles, &alive, n);
    }
    for n in &gone {
        probe(g, &mut w, &handles, &alive, *n);
    }
    g.errs.truncate(20);
}

/// Does this lookup path accept the handle? Destroy included: only for handles that must be refused.
fn accepts(w: &mut Box<dyn Api>, a: usize, k: Key, path: u32) -> bool {
    match path % 13 {
        0 => w.x_contains(a, k, true),
        1 => w.x_contains(a, k, false),
        2 => w.x_resolve(a, k).is_some(),
        3 => w.x_to_direct(a, k, true).is_some(),
        4 => w.x_to_direct(a, k, false).is_some(),
        5 => w.x_view(a, k, path & 16 == 0, 0, &mut |_| 0),
        6 => w.x_borrow(a, k, path & 16 == 0, 2, &mut |_| 0),
        7 => w.x_find_arch(a, k, &mut |_| 0).is_some(),
        8 => w.x_find_arch_borrow(a, k, &mut |_| 0).is_some(),
        9 => w.x_borrow_cell(a, k, 0, false, &mut |_| 0),
        10 => w.x_destroy(a, k, true, 0).is_some(),
        11 => w.x_destroy(a, k, false, 0).is_some(),
        _ => {
            let q = w.meta().queries.iter().position(|q| q.matched.contains(&a));
            match q {
                Some(q) => w.x_find(q, k, &mut |_| 0).is_some(),
                None => w.x_contains(a, k, true),
            }
        }
    }
}

/// Recycles a few positions 2^bits times; every handle must be new, and the handles of 1, 2, 4, ...
/// cycles ago must stay dead, on every lookup path. With `dirs`, the same for direct handles.
fn reuse(g: &mut Eng, asel: u32, bits: u32, seed: u32, dirs: bool) {
    let meta = g.meta;
    let na = meta.archs.len();
    let a = asel as usize % na;
    let mut rng = Rng::new(seed as u64, 99);
    let caps = vec![[0usize, 1, 2, 3][seed as usize % 4]; na];
    let make = g.entry.make;
    let mut w = match call(|| make(2, &caps)) {
        Ok(w) => w,
        Err(p) => return g.errs.push((c(12), format!("with_capacity({caps:?}): {p:?}"))),
    };
    let full = bits >= 32;
    let cycles: u64 = if full { u64::MAX } else { 1 << bits };
    let mut v = Vec::new();
    value(meta, a, 5, &mut v);
    // bystanders that must survive
    let mut by = Vec::new();
    for _ in 0..seed as usize / 4 % 3 {
        match call(|| w.x_create(a, &v, 0)) {
            Ok(e) => by.push(e),
            Err(p) => return g.errs.push((c(12), format!("create: {p:?}"))),
        }
    }
    let mut set: HashSet<(u32, u32)> = by.iter().map(|e| e.raw()).collect();
    let mut map: Vec<u64> = if bits > 22 { vec![0; 1 << 26] } else { Vec::new() };
    let mut home: Option<u32> = None;
    let mut ring: Vec<EntityAny> = Vec::new();
    let keep = if full { 0 } else { rng.below(3) };
    // the generations each position has had, and every direct handle
    let record = bits <= 25;
    let mut dists: Vec<u64> = (0..=bits.min(32)).flat_map(|j| [(1u64 << j) - 1, 1 << j, (1 << j) + 1]).filter(|d| *d > 0).collect();
    dists.sort();
    dists.dedup();
    let mut hist: Vec<(u32, Vec<u32>)> = Vec::new();
    let mut direct: Vec<EntityDirectAny> = Vec::new();
    let mut n = 0u64;
    let mut panicked = false;
    while n < cycles {
        let r = call(|| {
            // a block of cycles per catch
            for i in 0..4096u64 {
                let now = n + i;
                let e = w.x_create(a, &v, i as u32);
                let (k, ver) = e.raw();
                let fresh = if !map.is_empty() && (home.is_none() || home == Some(k)) {
                    home = Some(k);
                    let (word, bit) = (ver as usize / 64, 1u64 << (ver % 64));
                    let f = map[word] & bit == 0;
                    map[word] |= bit;
                    f
                } else {
                    crate::alloc::user(|| set.insert((k, ver)))
                };
                if !fresh {
                    let again = w.x_contains(a, Key::T(e), true);
                    return Some((c(8) | if again { c(1) } else { 0 }, format!("creation {now} returned {e:?}, a handle issued before")));
                }
                // all distances when the count is near a power of two, else one of them
                let near = (0..8).any(|x| (now + x).wrapping_sub(4).is_power_of_two());
                let pick = ((now as u32).wrapping_mul(0x9E37_79B1) >> 25) as usize;
                let near_paths = |p: u32| if near { p..p + 13 } else { now as u32 % 13..now as u32 % 13 + 1 };
                if record {
                    let at = hist.iter().position(|h| h.0 == k).unwrap_or_else(|| {
                        crate::alloc::user(|| hist.push((k, Vec::new())));
                        hist.len() - 1
                    });
                    let len = hist[at].1.len();
                    for (j, d) in dists.iter().enumerate() {
                        let d = *d as usize;
                        if d > len {
                            break;
                        }
                        if !near && pick != j {
                            continue;
                        }
                        let Ok(old) = EntityAny::from_raw((k, hist[at].1[len - d])) else { continue };
                        let paths = near_paths(0);
                        for p in paths {
                            let key = if (now + p as u64) & 1 == 0 { Key::T(old) } else { Key::A(old) };
                            if accepts(&mut w, a, key, p) {
                                return Some((c(1), format!("{old:?}, destroyed {d} reuses of its position ago, is accepted by path {p} in cycle {now}, while {e:?} lives there")));
                            }
                        }
                    }
                    crate::alloc::user(|| hist[at].1.push(ver));
                }
                if dirs {
                    let Some(x) = w.x_to_direct(a, if i & 1 == 0 { Key::T(e) } else { Key::A(e) }, i & 2 == 0) else {
                        return Some((c(9) | c(1), format!("no direct handle for live {e:?} in cycle {now}")));
                    };
                    if i % 64 == 0 && w.x_resolve(a, Key::DA(x)).and_then(|i| w.x_entity_at(a, i)) != Some(e) {
                        return Some((c(9), format!("fresh direct handle {x:?} of {e:?} does not designate it in cycle {now}")));
                    }
                    for (j, d) in dists.iter().enumerate() {
                        // a removal follows the issue of every handle but the first `keep`
                        if now < d + keep as u64 {
                            break;
                        }
                        if !near && pick != j {
                            continue;
                        }
                        let old = direct[(now - d) as usize];
                        let paths = near_paths(0);
                        for p in paths {
                            let key = if (now + p as u64) & 1 == 0 { Key::DT(old) } else { Key::DA(old) };
                            if accepts(&mut w, a, key, p) {
                                return Some((c(9), format!("{old:?}, issued {d} removals ago, is accepted by path {p} in cycle {now}")));
                            }
                        }
                    }
                    crate::alloc::user(|| direct.push(x));
                }
                crate::alloc::user(|| ring.push(e));
                while ring.len() > keep {
                    let e = ring[0];
                    if w.x_destroy(a, Key::T(e), true, 0).is_none() {
                        return Some((c(1), format!("destroy of live {e:?} was refused in cycle {now}")));
                    }
                    ring.remove(0);
                }
            }
            None
        });
        match r {
            Ok(None) => n += 4096,
            Ok(Some((t, m))) => {
                g.errs.push((t, m));
                return;
            }
            Err(p) => {
                panicked = true;
                if !full || n < (1u64 << 32) - 3 * 4096 {
                    g.errs.push((c(8) | c(1), format!("recycling a position panicked after {n} cycles: {p:?}")));
                } else {
                    g.flags |= F_PANIC_VERSION;
                }
                break;
            }
        }
        if full && n > (1u64 << 32) + 8192 {
            break;
        }
    }
    if full && !panicked && !WRAP {
        g.errs.push((c(8), format!("{n} cycles on one position without a panic")));
    }
    g.evals += n;
    for e in by {
        if !matches!(call(|| w.x_contains(a, Key::T(e), true)), Ok(true)) {
            g.errs.push((c(1), format!("bystander {e:?} is lost after {n} cycles")));
        }
    }
    // a sample of everything ever destroyed
    for (k, vers) in &hist {
        for i in 0..20_000usize {
            let j = if i < 64 { i } else { rng.below(vers.len()) };
            let Some(old) = vers.get(j).and_then(|v| EntityAny::from_raw((*k, *v)).ok()) else { continue };
            if ring.contains(&old) {
                continue;
            }
            let key = if i & 1 == 0 { Key::A(old) } else { Key::T(old) };
            if !matches!(call(|| accepts(&mut w, a, key, i as u32)), Ok(false)) {
                g.errs.push((c(1), format!("stale {old:?} is accepted after {n} cycles")));
                return;
            }
        }
    }
    for i in 0..if direct.is_empty() || n <= keep as u64 { 0 } else { 20_000usize } {
        let old = direct[if i < 64 { direct.len() - 1 - i.min(direct.len() - 1) } else { rng.below(direct.len()) }];
        let key = if i & 1 == 0 { Key::DA(old) } else { Key::DT(old) };
        if !matches!(call(|| accepts(&mut w, a, key, i as u32)), Ok(false)) {
            g.errs.push((c(9), format!("stale {old:?} is accepted after {n} cycles")));
            return;
        }
    }
    g.flags |= F_LONG_REUSE;
}

/// One archetype of a `scale` history: what was created in it, by creation number.
struct Col {
    a: usize,
    handles: Vec<(u32, u32)>,
    stamp: Vec<u32>,
    alive: Vec<bool>,
    live: usize,
    /// latest creation at each position
    at: Vec<u32>,
    cap: usize,
    created: Vec<(u32, u32)>,
    destroyed: Vec<(u32, u32)>,
    /// how many of these were before the last clear of the events
    shown: (usize, usize),
}

impl Col {
    fn new(a: usize) -> Col {
        Col { a, handles: vec![], stamp: vec![], alive: vec![], live: 0, at: vec![], cap: 0, created: vec![], destroyed: vec![], shown: (0, 0) }
    }
    fn find(&self, e: EntityAny) -> Option<usize> {
        let i = *self.at.get((e.raw().0 >> 8) as usize)? as usize;
        (i < self.handles.len() && self.handles[i] == e.raw() && self.alive[i]).then_some(i)
    }
    fn add(&mut self, e: EntityAny, stamp: u32) {
        let (k, ver) = e.raw();
        let pos = (k >> 8) as usize;
        if self.at.len() <= pos {
            self.at.resize(pos + 1, u32::MAX);
        }
        self.at[pos] = self.handles.len() as u32;
        self.handles.push((k, ver));
        self.stamp.push(stamp);
        self.alive.push(true);
        self.created.push((k, ver));
        self.live += 1;
    }
    fn kill(&mut self, i: usize) {
        self.alive[i] = false;
        self.live -= 1;
        self.destroyed.push(self.handles[i]);
    }
    fn value(&self, meta: &Meta, i: usize, c: usize) -> u64 {
        crate::comp::trunc(meta.archs[self.a].kinds[c], crate::comp::mix(self.stamp[i] as u64, 100 + c as u64))
    }
}

/// Is what a visit shows what was last written? Writes new values when `write` is given.
fn visit_ok(meta: &Meta, col: &mut Col, v: &mut Visit, i: usize, write: Option<u32>) -> Result<(), String> {
    let mut wrote = false;
    let n = v.cells.len();
    for cell in v.cells.iter() {
        let Some(ci) = comp_index(meta, v.arch, cell.get().kind()) else { return Err(format!("a component of kind {}", cell.get().kind())) };
        let (got, want) = (cell.get().read(), col.value(meta, i, ci));
        if got != Ok(want) {
            return Err(format!("component {ci} is {got:?} instead of {want}"));
        }
    }
    // only when all of its components can be written, for there is one stamp per entity
    if let Some(s) = write {
        if n == meta.archs[col.a].kinds.len() && v.cells.iter().all(|c| matches!(c, Cell::M(_))) {
            for cell in v.cells.iter_mut() {
                if let Cell::M(x) = cell {
                    let ci = comp_index(meta, v.arch, x.kind()).unwrap();
                    x.set(crate::comp::trunc(x.kind(), crate::comp::mix(s as u64, 100 + ci as u64)));
                }
            }
            wrote = true;
        }
    }
    if wrote {
        col.stamp[i] = write.unwrap();
    }
    Ok(())
}

/// Histories with up to millions of entities in one archetype and some in another: growth, passes,
/// ecs_iter_destroy, lookups of the living and the dead, direct handles, events and clones.
fn scale(g: &mut Eng, asel: u32, target: u32, seed: u32) {
    let meta = g.meta;
    let na = meta.archs.len();
    let a = asel as usize % na;
    let mut rng = Rng::new(seed as u64, 31);
    let mut caps = vec![0usize; na];
    caps[a] = match seed % 4 {
        0 | 1 => 0,
        2 => target as usize,
        _ => rng.below(target as usize + 1),
    };
    let make = g.entry.make;
    let mut w = match call(|| make(2, &caps)) {
        Ok(w) => w,
        Err(p) => return g.errs.push((c(12), format!("with_capacity({caps:?}): {p:?}"))),
    };
    let mut cols: Vec<Col> = (0..na).map(Col::new).collect();
    for x in &mut cols {
        x.cap = w.x_cap(x.a);
        if x.cap < caps[x.a] {
            g.errs.push((c(12), format!("capacity {} after with_capacity({caps:?})", x.cap)));
        }
    }
    let any = |h: (u32, u32)| EntityAny::from_raw(h).unwrap();
    let qs: Vec<usize> = (0..meta.queries.len())
        .filter(|q| meta.queries[*q].matched.contains(&a) && meta.queries[*q].params.iter().any(|p| matches!(p, P::Ent(_) | P::EntAny | P::EntWild)))
        .collect();
    let mut issued: HashSet<(u32, u32)> = HashSet::new();
    let mut stamp = 1u32;
    let mut v = Vec::new();
    for round in 0..3u32 {
        // grow; every 16th goes to another archetype
        let goal = if round == 0 { target as usize } else { cols[a].live + (target as usize - cols[a].live) * (2 + rng.below(3)) / 4 };
        let mut n = 0u32;
        while cols[a].live < goal {
            n += 1;
            let x = if na > 1 && n % 16 == 0 { (a + 1 + n as usize / 16 % (na - 1)) % na } else { a };
            stamp += 1;
            value(meta, x, stamp as u64, &mut v);
            let col = &mut cols[x];
            let within = col.live < col.cap && n % 5 == 0;
            let r = if within { call(|| w.x_create_within(x, &v, n)) } else { call(|| Ok(w.x_create(x, &v, n))) };
            let e = match r {
                Ok(Ok(e)) => e,
                r => return g.errs.push((c(12), format!("creation with len {} and capacity {} (within capacity: {within}): {:?}", col.live, col.cap, r.map(|x| x.is_ok())))),
            };
            let now = w.x_cap(x);
            if if col.live < col.cap { now != col.cap } else { now <= col.live || now > MAX_CAP } {
                return g.errs.push((c(12), format!("creation with len {}: capacity went from {} to {now}", col.live, col.cap)));
            }
            col.cap = now;
            if !issued.insert(e.raw()) {
                return g.errs.push((c(8), format!("creation {} returned {e:?}, a handle issued before", col.handles.len())));
            }
            if col.at.get((e.raw().0 >> 8) as usize).is_some_and(|i| *i != u32::MAX && col.alive[*i as usize]) {
                return g.errs.push((c(8) | c(1), format!("creation {} returned {e:?}, at the position of a live entity", col.handles.len())));
            }
            col.add(e, stamp);
        }
        g.evals += n as u64;
        for col in &cols {
            if w.x_len(col.a) != (col.live, col.live == 0) {
                g.errs.push((c(12), format!("len {:?} with {} live entities", w.x_len(col.a), col.live)));
            }
        }
        // passes over everything
        for pass in 0..3u32 {
            let kind = (round + pass * 2 + seed) % 5;
            stamp += 1;
            let write = if pass < 2 { Some(stamp) } else { None };
            let over: Vec<usize> = if kind < 2 || qs.is_empty() { vec![a] } else { meta.queries[qs[(round + pass) as usize % qs.len()]].matched.to_vec() };
            let name = ["iter", "iter_mut", "ecs_iter!", "ecs_iter_borrow!", "ecs_iter! (closure without a result)"][kind as usize];
            let mut seen: Vec<Vec<bool>> = cols.iter().map(|x| vec![false; x.handles.len()]).collect();
            let mut bad: Option<(u32, String)> = None;
            let mut items = 0usize;
            let r = {
                let (cols, seen, bad, items) = (&mut cols, &mut seen, &mut bad, &mut items);
                let mut f = |v: &mut Visit| -> u32 {
                    *items += 1;
                    if bad.is_some() {
                        return 0;
                    }
                    crate::alloc::user(|| {
                        let Some((e, i)) = v.ent.and_then(|e| Some((e, cols[v.arch].find(e)?))) else {
                            *bad = Some((c(6), format!("{name} presents {:?}, which is not alive", v.ent)));
                            return;
                        };
                        if std::mem::replace(&mut seen[v.arch][i], true) {
                            *bad = Some((c(6), format!("{name} presents {e:?} twice")));
                        }
                        let arch = v.arch;
                        if let Err(x) = visit_ok(meta, &mut cols[arch], v, i, write) {
                            *bad = Some((c(6) | c(2), format!("{name} presents {e:?}: {x}")));
                        }
                    });
                    0
                };
                let q = qs.get((round + pass) as usize % qs.len().max(1)).copied().unwrap_or(0);
                match if qs.is_empty() { kind % 2 } else { kind } {
                    0 => call(|| w.x_iter(a, false, &mut f)),
                    1 => call(|| w.x_iter(a, true, &mut f)),
                    2 => call(|| w.x_query_iter(q, &mut f)),
                    3 => call(|| w.x_query_iter_borrow(q, &mut f)),
                    _ if q < 2 => call(|| w.x_query_iter_as(q, 0, &mut f)),
                    _ => call(|| w.x_query_iter(q, &mut f)),
                }
            };
            let want: usize = over.iter().map(|x| cols[*x].live).sum();
            if let Err(p) = r {
                bad.get_or_insert((c(6), format!("{name}: {p:?}")));
            }
            if items != want {
                bad.get_or_insert((c(6), format!("{name} presents {items} entities of {want}")));
            }
            if let Some(x) = bad {
                return g.errs.push(x);
            }
            g.evals += items as u64;
        }
        // lookups of the living, the dead and other archetypes' entities
        let mut dirs: Vec<(EntityDirectAny, usize, usize)> = Vec::new();
        for x in 0..na {
            if cols[x].handles.is_empty() {
                continue;
            }
            for j in 0..if x == a { 3000usize } else { 300 } {
                let total = cols[x].handles.len();
                let i = match j {
                    0..=7 => j.min(total - 1),
                    8..=15 => total - 1 - (j - 8).min(total - 1),
                    // around powers of two
                    16..=90 => ((1usize << ((j - 16) / 3)) + (j - 16) % 3).wrapping_sub(1).min(total - 1),
                    _ => rng.below(total),
                };
                let e = any(cols[x].handles[i]);
                let k = if j % 2 == 0 { Key::T(e) } else { Key::A(e) };
                let col = &mut cols[x];
                let (mut bad, mut elsewhere) = (None, None);
                let r = {
                    let (col, bad, elsewhere) = (&mut *col, &mut bad, &mut elsewhere);
                    let mut f = |v: &mut Visit| -> u32 {
                        crate::alloc::user(|| {
                            if v.ent.is_some_and(|y| y != e) || !col.alive[i] {
                                *bad = Some((c(1), format!("{e:?} (alive: {}) designates {:?}", col.alive[i], v.ent)));
                            } else if let Err(y) = visit_ok(meta, col, v, i, None) {
                                *bad = Some((c(1) | c(2), format!("{e:?}: {y}")));
                            }
                        });
                        0
                    };
                    call(|| match j % 5 {
                        0 => w.x_view(x, k, j % 3 == 0, j as u32, &mut f),
                        1 => w.x_borrow(x, k, j % 3 == 0, j as u32, &mut f),
                        2 => w.x_find_arch(x, k, &mut f).is_some(),
                        3 => w.x_find_arch_borrow(x, k, &mut f).is_some(),
                        _ => match w.x_resolve(x, k) {
                            Some(at) => {
                                if w.x_entity_at(x, at) != Some(e) {
                                    *elsewhere = Some((c(1), format!("{e:?} resolves to {at}, where {:?} is", w.x_entity_at(x, at))));
                                }
                                true
                            }
                            None => false,
                        },
                    })
                };
                g.evals += 1;
                if !matches!(r, Ok(y) if y == cols[x].alive[i]) {
                    return g.errs.push((c(1), format!("{e:?}, alive: {}, lookup: {r:?}", cols[x].alive[i])));
                }
                if let Some(y) = bad.or(elsewhere) {
                    return g.errs.push(y);
                }
                if cols[x].alive[i] && j % 4 == 0 {
                    match call(|| w.x_to_direct(x, k, j % 8 == 0)) {
                        Ok(Some(d)) => dirs.push((d, x, i)),
                        y => return g.errs.push((c(9) | c(1), format!("to_direct of live {e:?}: {y:?}"))),
                    }
                } else if na > 1 && j % 4 == 1 {
                    let b = (x + 1 + j % (na - 1)) % na;
                    let path = [1, 2, 4, 5, 6, 9][j / 4 % 6];
                    if !matches!(call(|| accepts(&mut w, b, Key::A(e), path)), Ok(false)) {
                        return g.errs.push((c(1), format!("{e:?} of archetype {x} is accepted by archetype {b}, path {path}")));
                    }
                }
            }
        }
        for (d, x, i) in &dirs {
            let e = any(cols[*x].handles[*i]);
            let r = call(|| w.x_resolve(*x, Key::DA(*d)).and_then(|at| w.x_entity_at(*x, at)));
            if !matches!(r, Ok(Some(y)) if y == e) {
                return g.errs.push((c(9), format!("fresh {d:?} of {e:?} designates {r:?}")));
            }
        }
        // a clone that goes its own way
        if round == 1 {
            let how = seed % 2;
            let mut o = match call(|| w.x_clone(how)) {
                Ok(o) => o,
                Err(p) => return g.errs.push((c(13), format!("clone of {} entities: {p:?}", cols[a].live))),
            };
            for col in &cols {
                let x = (w.x_len(col.a), w.x_cap(col.a), w.x_entities(col.a), w.x_events(col.a));
                let y = (o.x_len(col.a), o.x_cap(col.a), o.x_entities(col.a), o.x_events(col.a));
                if x != y {
                    return g.errs.push((c(13), format!("the clone of archetype {} with {} entities differs in length, capacity, order or events", col.a, col.live)));
                }
            }
            for (d, x, i) in dirs.iter().take(100) {
                let e = any(cols[*x].handles[*i]);
                let mut ok = false;
                let (col, ok2) = (&mut cols[*x], &mut ok);
                let r = call(|| o.x_find_arch(*x, Key::DA(*d), &mut |v| crate::alloc::user(|| {
                    *ok2 = v.ent == Some(e) && visit_ok(meta, col, v, *i, None).is_ok();
                    0
                })));
                if !ok {
                    return g.errs.push((c(13), format!("{d:?} of {e:?} in the clone: {r:?}")));
                }
            }
            // the same calls give the same handles; what is done to the clone is not done to the original
            let mut late = Vec::new();
            for j in 0..200u32 {
                let i = rng.below(cols[a].handles.len());
                if cols[a].alive[i] && !late.contains(&i) {
                    late.push(i);
                    let _ = call(|| o.x_destroy(a, Key::T(any(cols[a].handles[i])), j % 2 == 0, j));
                }
                stamp += 1;
                value(meta, a, stamp as u64, &mut v);
                let _ = call(|| o.x_create(a, &v, j));
            }
            for i in late {
                if !matches!(call(|| w.x_contains(a, Key::A(any(cols[a].handles[i])), true)), Ok(true)) {
                    return g.errs.push((c(13), "destroying in the clone destroyed in the original".into()));
                }
            }
            if let Err(p) = call(|| drop(o)) {
                g.errs.push((c(13) | c(4), format!("dropping the clone: {p:?}")));
            }
        }
        // removals
        let before: Vec<usize> = cols.iter().map(|x| x.destroyed.len()).collect();
        let style = (seed + round) % 4;
        let mut bad: Option<(u32, String)> = None;
        if style < 3 && !qs.is_empty() {
            let q = qs[(seed / 4 + round) as usize % qs.len()];
            let mut seen: Vec<Vec<bool>> = cols.iter().map(|x| vec![false; x.handles.len()]).collect();
            let mut doomed: Vec<(usize, usize)> = Vec::new();
            let want: usize = meta.queries[q].matched.iter().map(|x| cols[*x].live).sum();
            let mut items = 0usize;
            let r = {
                let (cols, seen, bad, doomed, items) = (&mut cols, &mut seen, &mut bad, &mut doomed, &mut items);
                let rng = &mut rng;
                let mut f = |v: &mut Visit| -> u32 {
                    *items += 1;
                    if bad.is_some() {
                        return 1;
                    }
                    crate::alloc::user(|| {
                        let Some((e, i)) = v.ent.and_then(|e| Some((e, cols[v.arch].find(e)?))) else {
                            *bad = Some((c(7), format!("ecs_iter_destroy! presents {:?}, which is not alive", v.ent)));
                            return 1;
                        };
                        if std::mem::replace(&mut seen[v.arch][i], true) {
                            *bad = Some((c(7), format!("ecs_iter_destroy! presents {e:?} twice")));
                        }
                        let arch = v.arch;
                        if let Err(x) = visit_ok(meta, &mut cols[arch], v, i, None) {
                            *bad = Some((c(7) | c(2), format!("ecs_iter_destroy! presents {e:?}: {x}")));
                        }
                        let die = match style {
                            0 => rng.chance(1, 2),
                            1 => rng.chance(31, 32),
                            _ => rng.chance(1, 500),
                        };
                        if die {
                            doomed.push((arch, i));
                        }
                        die as u32 * 2
                    })
                };
                call(|| w.x_query_iter_destroy(q, &mut f))
            };
            if let Err(p) = r {
                bad.get_or_insert((c(7), format!("ecs_iter_destroy!: {p:?}")));
            }
            if items != want {
                bad.get_or_insert((c(7), format!("ecs_iter_destroy! presents {items} entities of {want}")));
            }
            g.evals += items as u64;
            for (x, i) in doomed {
                cols[x].kill(i);
            }
        } else {
            for j in 0..cols[a].live as u32 / 3 {
                let i = match j % 3 {
                    0 => rng.below(cols[a].handles.len()),
                    1 => j as usize,
                    _ => cols[a].handles.len() - 1 - j as usize,
                };
                if !cols[a].alive[i] {
                    continue;
                }
                let e = any(cols[a].handles[i]);
                let k = if j % 2 == 0 { Key::T(e) } else { Key::A(e) };
                match call(|| w.x_destroy(a, k, j % 3 == 0, j)) {
                    Ok(Some(ret)) => {
                        for (ci, x) in ret.into_iter().flatten().enumerate() {
                            if x != Ok(cols[a].value(meta, i, ci)) {
                                bad.get_or_insert((c(2) | c(4), format!("destroy of {e:?} returns {x:?} for component {ci}")));
                            }
                        }
                        cols[a].kill(i);
                    }
                    r => {
                        bad.get_or_insert((c(1), format!("destroy of live {e:?}: {:?}", r.is_ok())));
                    }
                }
            }
        }
        if let Some(x) = bad {
            return g.errs.push(x);
        }
        for col in &cols {
            if w.x_len(col.a).0 != col.live || w.x_cap(col.a) != col.cap {
                g.errs.push((c(12) | c(7), format!("archetype {}: len {:?} capacity {} with {} live entities and capacity {} before", col.a, w.x_len(col.a), w.x_cap(col.a), col.live, col.cap)));
            }
        }
        for (j, (d, x, i)) in dirs.iter().enumerate() {
            let removed = cols[*x].destroyed.len() > before[*x];
            let ok = match call(|| w.x_resolve(*x, if j % 2 == 0 { Key::DA(*d) } else { Key::DT(*d) })) {
                Ok(Some(at)) => !removed && w.x_entity_at(*x, at) == Some(any(cols[*x].handles[*i])),
                Ok(None) => removed,
                Err(_) => false,
            };
            if !ok {
                return g.errs.push((c(9), format!("{d:?}: removals since {removed}, judged otherwise")));
            }
        }
        for j in 0..2000usize {
            let d = &cols[a].destroyed;
            if d.is_empty() {
                break;
            }
            let h = d[if j < 50 { d.len() - 1 - j.min(d.len() - 1) } else { rng.below(d.len()) }];
            let k = if j % 2 == 0 { Key::T(any(h)) } else { Key::A(any(h)) };
            if !matches!(call(|| accepts(&mut w, a, k, j as u32)), Ok(false)) {
                return g.errs.push((c(1), format!("{:?} was destroyed and is accepted by path {}", any(h), j % 13)));
            }
        }
        // events since the last clear
        for col in &mut cols {
            if let Some((cr, de)) = w.x_events(col.a) {
                let sort = |mut v: Vec<(u32, u32)>| {
                    v.sort();
                    v
                };
                let raw = |v: &[EntityAny]| sort(v.iter().map(|e| e.raw()).collect());
                let (wc, wd) = (sort(col.created[col.shown.0..].to_vec()), sort(col.destroyed[col.shown.1..].to_vec()));
                if raw(&cr) != wc || raw(&de) != wd {
                    g.errs.push((c(17), format!("archetype {}: {} and {} events, {} entities were created and {} destroyed", col.a, cr.len(), de.len(), wc.len(), wd.len())));
                    return;
                }
                if round != 1 {
                    w.x_clear_events(Some(col.a));
                    col.shown = (col.created.len(), col.destroyed.len());
                }
            }
        }
    }
    if let Err(p) = call(|| drop(w)) {
        g.errs.push((c(4), format!("dropping the world: {p:?}")));
    }
    g.flags |= F_RELOCATED_READ;
}
