//! Random cases. The operation mix depends on the property a run is for.

use crate::engine::*;
use crate::ops::*;
use crate::Entry;

type W = Vec<(K, u32)>;

fn base() -> W {
    vec![
        (K::Create, 14), (K::Within, 5), (K::Destroy, 10), (K::DestroyDead, 2), (K::Write, 5), (K::Probe, 10),
        (K::Sweep, 3), (K::IterDestroy, 2), (K::Clone, 1), (K::DropWorld, 1), (K::TakeDirect, 2), (K::ProbeDirect, 3),
        (K::ClearEvents, 1), (K::Fill, 2), (K::Burst, 2), (K::Mass, 2), (K::Move, 1), (K::Iter, 3), (K::Events, 1),
        (K::Churn, 1),
    ]
}

fn with(mut w: W, more: &[(K, u32)]) -> W {
    for (k, n) in more {
        match w.iter_mut().find(|x| x.0 == *k) {
            Some(x) => x.1 = *n,
            None => w.push((*k, *n)),
        }
    }
    w
}

pub fn weights(profile: &str) -> W {
    let b = base();
    match profile {
        "C01" => with(b, &[(K::Probe, 16), (K::DestroyDead, 4), (K::Sweep, 5), (K::Churn, 3), (K::Mass, 3), (K::Jump, 3)]),
        "C02" => with(b, &[(K::Write, 16), (K::Probe, 14), (K::Sweep, 5), (K::Iter, 6), (K::IterDestroy, 3), (K::Mass, 3)]),
        "C03" => with(b, &[(K::Forge, 34), (K::ForgeDirect, 12), (K::New, 3), (K::Mass, 5), (K::Burst, 3), (K::DropWorld, 2), (K::Clone, 2), (K::TakeDirect, 5), (K::Sweep, 1)]),
        "C04" => with(b, &[(K::PanicInto, 1), (K::Within, 9), (K::Clone, 4), (K::DropWorld, 4), (K::IterDestroy, 5), (K::Mass, 3), (K::PanicClone, 1), (K::PanicDrop, 1), (K::PanicClosure, 1)]),
        "C06" => with(b, &[(K::Iter, 24), (K::Sweep, 4), (K::Mass, 4), (K::Burst, 3)]),
        "C07" => with(b, &[(K::IterDestroy, 26), (K::Burst, 9), (K::Sweep, 4), (K::ProbeDirect, 5)]),
        "C08" => with(b, &[(K::Churn, 2), (K::Mass, 5), (K::Burst, 4), (K::Sweep, 1), (K::Probe, 3), (K::Clone, 2), (K::Jump, 2)]),
        "C09" => with(b, &[(K::TakeDirect, 20), (K::ProbeDirect, 24), (K::IterDestroy, 5), (K::Clone, 2), (K::Iter, 4), (K::Jump, 5)]),
        "C10" => with(b, &[(K::PanicInto, 4), (K::PanicClosure, 8), (K::PanicClone, 7), (K::PanicDrop, 10), (K::Nest, 6), (K::BadCap, 1), (K::IterDestroy, 4), (K::Sweep, 4), (K::Burst, 4), (K::Unborrowed, 1), (K::TakeDirect, 4), (K::ProbeDirect, 5)]),
        "C11" => with(b, &[(K::Nest, 60), (K::Unborrowed, 2), (K::Sweep, 1), (K::PanicClosure, 2)]),
        "C12" => with(b, &[(K::Fill, 12), (K::Within, 10), (K::Mass, 8), (K::Burst, 5), (K::Churn, 3), (K::BadCap, 1), (K::Clone, 2), (K::Sweep, 1)]),
        "C13" => with(b, &[(K::Clone, 7), (K::DropWorld, 4), (K::Fill, 5), (K::Mass, 4), (K::Sweep, 6), (K::Write, 8), (K::TakeDirect, 4), (K::ProbeDirect, 5), (K::Events, 2)]),
        "C14" => with(b, &[(K::Conv, 50), (K::Churn, 3), (K::Sweep, 1)]),
        "C17" => with(b, &[(K::PanicInto, 1), (K::Events, 10), (K::ClearEvents, 7), (K::IterDestroy, 6), (K::Within, 8), (K::Destroy, 14), (K::Fill, 3), (K::Clone, 2), (K::Mass, 3), (K::PanicClosure, 1)]),
        // the same history in every configuration: nothing that may legitimately differ
        "C19" => with(b, &[(K::PanicInto, 1), (K::Nest, 3), (K::PanicClosure, 1), (K::PanicClone, 1), (K::PanicDrop, 1), (K::Conv, 2), (K::ClearEvents, 1), (K::Events, 1)]),
        _ => b,
    }
}

/// Properties whose profile includes histories at the end of the generation counters.
fn preset_chance(profile: &str) -> (u32, u32) {
    match profile {
        "C08" => (1, 2),
        "C01" | "C07" | "C09" | "C17" => (1, 8),
        "C10" => (1, 4),
        "C19w" => (1, 1),
        _ => (0, 1),
    }
}

pub fn gen_case(all: &[Entry], profile: &str, seed: u64, index: u64) -> Case {
    // histories with thousands of entities
    let (profile, large) = match profile.strip_suffix('s') {
        Some(p) => (p, true),
        None => (profile, false),
    };
    let p = large as u64 * 977 + profile.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    let mut r = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(index), p);
    let world = all[r.below(all.len())].meta.name.to_string();
    let mut ops = Vec::new();
    let mut ws = weights(if profile == "C19w" { "C08" } else { profile });
    if large {
        // those grow a model or check every pair
        ws.retain(|x| !matches!(x.0, K::Churn | K::Burst | K::Nest | K::Unborrowed));
        let total: u32 = ws.iter().map(|x| x.1).sum();
        ws.push((K::Surge, total / 5 + 1));
        for x in ws.iter_mut().filter(|x| matches!(x.0, K::Mass | K::IterDestroy | K::Iter | K::Clone)) {
            x.1 = x.1.max(total / 14);
        }
    }
    let op = |r: &mut Rng, k: K, ops: &mut Vec<Op>| {
        let mut a = [0u32; 6];
        for x in a.iter_mut() {
            *x = r.u32();
        }
        match k {
            K::New => {
                // capacity zero often
                if r.chance(1, 3) {
                    a[1] = 0;
                }
            }
            K::Nest => {
                // depth 1 to 5
                let d = 1 + r.below(5);
                for x in a.iter_mut().skip(1 + d) {
                    *x = 0;
                }
                // an outer panic and repeats only sometimes
                for x in a.iter_mut().skip(1) {
                    if *x != 0 && r.chance(1, 2) {
                        *x &= !(1 << 13);
                    }
                    if *x != 0 && r.chance(2, 3) {
                        *x &= !(1 << 14);
                    }
                }
                // often in the same archetype, so that columns meet
                if r.chance(2, 3) {
                    let (first, mask) = (a[1], 0xF0u32);
                    for x in a.iter_mut().skip(2) {
                        if *x != 0 {
                            *x = *x & !mask | first & mask;
                        }
                    }
                    if r.chance(1, 2) {
                        for x in a.iter_mut().skip(2) {
                            if *x != 0 {
                                *x = *x & !0x1F00 | first & 0x1F00;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        ops.push(Op { k, a });
    };
    op(&mut r, K::New, &mut ops);
    let (n, d) = preset_chance(profile);
    if n > 0 && !large && r.chance(n, d) {
        for _ in 0..1 + r.below(3) {
            op(&mut r, K::Preset, &mut ops);
        }
    }
    if large {
        op(&mut r, K::Surge, &mut ops);
    }
    if profile == "C03" && r.chance(3, 4) {
        op(&mut r, K::New, &mut ops);
    }
    let len = match r.below(10) {
        _ if large => 5 + r.below(22),
        0 => 6 + r.below(10),
        1..=6 => 15 + r.below(40),
        _ => 40 + r.below(90),
    };
    let mut left = 0;
    let mut scaled: W = ws.clone();
    while ops.len() < len {
        if left == 0 {
            left = 5 + r.below(25);
            let phase = r.below(5);
            scaled = ws
                .iter()
                .map(|(k, n)| {
                    let f = match (phase, k) {
                        (0, K::Create | K::Within | K::Burst | K::Fill) => 3,
                        (0, K::Destroy | K::Mass) => 1,
                        (1, K::Destroy | K::Mass | K::IterDestroy) => 3,
                        (1, K::Create | K::Within | K::Burst) => 1,
                        (2, K::Churn | K::Destroy | K::Create) => 3,
                        (_, K::DropWorld | K::Clone) if r.chance(1, 3) => 0,
                        _ => 2,
                    };
                    (*k, n * f)
                })
                .collect();
        }
        left -= 1;
        let total: u32 = scaled.iter().map(|x| x.1).sum();
        let mut at = r.below(total as usize) as u32;
        let mut k = K::Create;
        for (x, n) in &scaled {
            if at < *n {
                k = *x;
                break;
            }
            at -= n;
        }
        op(&mut r, k, &mut ops);
    }
    Case { world, ops }
}

/// The stated rule for a case to count as non-trivial for its property.
pub fn rule(profile: &str) -> &'static str {
    match profile.trim_end_matches('s') {
        "C01" => "a position was reused after its entity's destruction, another entity was relocated by a removal, and stale handles were probed",
        "C02" => "an entity relocated by a swap-remove was read, or a value written through one path was read through another",
        "C03" => "a handle that designates no live entity but is derived from a real one by a small edit, or a foreign direct handle, was presented",
        "C04" => "entities were destroyed and a world was dropped with live entities, after growth, a clone, a refused creation or a relocation",
        "C06" => "a pass over at least two populated archetypes, or one left early, after removals",
        "C07" => "one ecs_iter_destroy! pass destroyed at least two entities and kept at least one, or left early",
        "C08" => "a position was reused, or a generation counter was near its end",
        "C09" => "a direct handle was used after a creation or a removal in its archetype, or taken inside ecs_iter_destroy!",
        "C10" => "a panic (closure, Clone, Drop, counter overflow or borrow conflict) escaped gecs and the world was used afterwards",
        "C11" => "a nested access was refused for a conflict or granted while other columns were borrowed",
        "C12" => "the archetype was refilled to capacity after removals, grew, or refused a creation",
        "C13" => "a world was cloned and original or clone changed afterwards",
        "C14" => "boundary bit patterns (extreme positions, generations, ids) were converted in a world with live entities",
        "C17" => "two archetypes had both creations and destructions logged, or a non-empty log was cleared, with a destruction by another path than the typed key",
        "C19w" => "a generation counter reached its end",
        _ => "entities were created, destroyed and read back",
    }
}

pub fn nontrivial(profile: &str, f: u64) -> bool {
    let has = |x: u64| f & x != 0;
    let all = |x: u64| f & x == x;
    match profile.trim_end_matches('s') {
        "C01" => all(F_STALE_REUSED | F_RELOCATED),
        "C02" => has(F_RELOCATED_READ) || all(F_WRITE | F_CROSS_PATH_READ),
        "C03" => has(F_FORGE_NEAR | F_FORGE_DIRECT | F_UNCHECKED_CONV),
        "C04" => all(F_DESTROY | F_DROP_LIVE) && has(F_GREW | F_CLONED | F_FAILED_CREATE | F_RELOCATED),
        "C06" => has(F_ITER_MULTI | F_ITER_BREAK) && has(F_DESTROY),
        "C07" => all(F_ID_DESTROY | F_ID_SURVIVE) || has(F_ID_BREAK),
        "C08" => has(F_STALE_REUSED | F_BOUNDARY | F_PANIC_VERSION | F_LONG_REUSE),
        "C09" => has(F_DIRECT_AFTER_CREATE | F_DIRECT_AFTER_REMOVE | F_DIRECT_IN_LOOP),
        "C10" => has(F_AFTER_PANIC_USE) || has(F_PANIC_CLOSURE | F_PANIC_CLONE | F_PANIC_DROP | F_PANIC_VERSION | F_CONFLICT),
        "C11" => has(F_CONFLICT | F_GRANTED_NESTED),
        "C12" => has(F_REFILL_AFTER_REMOVE | F_GREW | F_FAILED_CREATE),
        "C13" => has(F_CLONED),
        "C14" => has(F_CONV_EDGE) && has(F_CREATE),
        "C17" => has(F_EVENTS_MULTI | F_CLEARED) && has(F_EVENT_PATHS | F_ID_DESTROY),
        "C19w" => has(F_WRAPPED | F_PANIC_VERSION | F_BOUNDARY),
        _ => all(F_CREATE | F_DESTROY),
    }
}
