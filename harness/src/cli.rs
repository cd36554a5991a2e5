//! run search PROFILE SEED FROM TO SECONDS DIR   one worker
//! run replay FILE                                one case, verdict as JSON
//! run dump PROFILE SEED INDEX                    the text of a case
//! run digests PROFILE SEED FROM TO               one digest per case
//! run trace FILE                                 digest after every step
//! run info                                       worlds and build configuration

use crate::engine::*;
use crate::gen::*;
use crate::ops::*;
use crate::{comp, Entry};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

fn fails_json(fails: &[Fail]) -> String {
    list(
        &fails
            .iter()
            .map(|f| {
                let t: Vec<String> = tag_names(f.base).iter().map(|x| js(x)).collect();
                let x: Vec<String> = tag_names(f.ctx).iter().map(|x| js(x)).collect();
                format!("{{\"base\":{},\"ctx\":{},\"step\":{},\"msg\":{}}}", list(&t), list(&x), f.step, js(&f.msg))
            })
            .collect::<Vec<_>>(),
    )
}

fn flags_json(f: u64) -> String {
    list(&FLAG_NAMES.iter().filter(|x| f & x.1 != 0).map(|x| js(x.0)).collect::<Vec<_>>())
}

fn hash(s: &str) -> u64 {
    crate::api::h64(&s)
}

fn quiet() {
    if std::env::var("VERIF_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // the first panic allocates things that live forever
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(comp::Injected));
    let _ = std::panic::catch_unwind(|| panic!("warm {}", 1));
    // and so do the thread-local registries
    comp::reset();
}

/// The property a profile is for, as a mask; C19 looks at everything.
fn mask(profile: &str) -> u32 {
    match profile.get(1..3).and_then(|x| x.parse::<u32>().ok()) {
        Some(19) | None => 0,
        Some(n) => c(n),
    }
}

fn num(a: &[String], i: usize) -> u64 {
    a.get(i).and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub fn main(all: &[Entry]) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    quiet();
    match a.first().map(|s| s.as_str()) {
        Some("search") => search(all, &a[1], num(&a, 2), num(&a, 3), num(&a, 4), num(&a, 5), &a[6]),
        Some("digests") => {
            for i in num(&a, 3)..num(&a, 4) {
                let case = gen_case(all, &a[1], num(&a, 2), i);
                let Some(mut g) = Eng::new(all, &case.world) else { continue };
                g.run(&case, 5);
                println!("{i} {:016x} {} {}", g.digest, g.fails.len(), nontrivial(&a[1], g.flags) as u32);
            }
        }
        Some("dump") => print!("{}", gen_case(all, &a[1], num(&a, 2), num(&a, 3)).text()),
        Some(m @ ("replay" | "trace")) => {
            let text = std::fs::read_to_string(&a[1]).expect("replay file");
            let case = Case::parse(&text).expect("case");
            let Some(mut g) = Eng::new(all, &case.world) else {
                println!("{{\"error\":\"no world {}\"}}", case.world);
                return;
            };
            if m == "trace" {
                g.trace = Some(Vec::new());
            }
            g.own = a.get(2).map_or(0, |p| mask(p));
            g.run(&case, 60);
            for t in g.trace.iter().flatten() {
                println!("{t}");
            }
            println!("{{\"fails\":{},\"flags\":{},\"digest\":\"{:016x}\"}}", fails_json(&g.fails), flags_json(g.flags), g.digest);
        }
        Some("info") => {
            for e in all {
                let cols: Vec<String> = e.meta.archs.iter().map(|a| a.kinds.len().to_string()).collect();
                println!("world {} cols {} queries {}", e.meta.name, cols.join(","), e.meta.queries.len());
            }
            println!("debug {DEBUG} events {EVENTS} wrap {WRAP}");
        }
        _ => {
            eprintln!("usage: run search|replay|trace|dump|digests|info");
            std::process::exit(3);
        }
    }
}

fn search(all: &[Entry], profile: &str, seed: u64, from: u64, to: u64, secs: u64, dir: &str) {
    let start = Instant::now();
    let end = Duration::from_secs(secs);
    let cur = format!("{dir}/cur");
    let mut cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(cur).unwrap();
    let mut out = std::fs::File::create(format!("{dir}/fails")).unwrap();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut flags: BTreeMap<&str, u64> = BTreeMap::new();
    let mut ops: BTreeMap<&str, u64> = BTreeMap::new();
    let mut worlds: BTreeMap<String, u64> = BTreeMap::new();
    let (mut cases, mut evals, mut nontriv, mut failing, mut own) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut i = from;
    while i < to && start.elapsed() < end {
        use std::io::Seek;
        let _ = cur.seek(std::io::SeekFrom::Start(0));
        let _ = cur.write_all(format!("{i:020}\n").as_bytes());
        let case = gen_case(all, profile, seed, i);
        let mut g = Eng::new(all, &case.world).unwrap();
        g.own = mask(profile);
        g.run(&case, 12);
        cases += 1;
        evals += g.evals;
        *worlds.entry(case.world.clone()).or_insert(0) += 1;
        for o in &case.ops {
            *ops.entry(o.k.name()).or_insert(0) += 1;
        }
        for (n, b) in FLAG_NAMES {
            if g.flags & b != 0 {
                *flags.entry(n).or_insert(0) += 1;
            }
        }
        if nontrivial(profile, g.flags) {
            nontriv += 1;
            seen.insert(hash(&case.text()));
            if samples.len() < 3 && nontriv % 7 == 1 {
                samples.push(format!("case {i} of world {}: {} operations ({}), {}", case.world, case.ops.len(),
                    case.ops.iter().take(14).map(|o| o.k.name()).collect::<Vec<_>>().join(" "), flags_json(g.flags).replace('"', "")));
            }
        }
        if !g.fails.is_empty() {
            failing += 1;
            own += (g.n_own > 0) as u64;
            if g.n_own == 0 && failing > 300 {
                i += 1;
                continue;
            }
            let _ = writeln!(out, "{{\"case\":{i},\"fails\":{}}}", fails_json(&g.fails));
            let _ = out.flush();
            if own > 40 {
                break;
            }
        }
        i += 1;
    }
    let map = |m: &BTreeMap<&str, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    let wm = worlds.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    let mut d = std::fs::File::create(format!("{dir}/digests")).unwrap();
    let mut bytes = Vec::with_capacity(seen.len() * 8);
    for x in &seen {
        bytes.extend_from_slice(&x.to_le_bytes());
    }
    let _ = d.write_all(&bytes);
    let s = samples.iter().map(|x| js(x)).collect::<Vec<_>>();
    std::fs::write(
        format!("{dir}/stats"),
        format!(
            "{{\"cases\":{cases},\"evals\":{evals},\"nontrivial\":{nontriv},\"failing\":{failing},\"next\":{i},\"rule\":{},\"flags\":{},\"ops\":{},\"worlds\":{{{wm}}},\"samples\":{},\"secs\":{:.2}}}",
            js(rule(profile)), map(&flags), map(&ops), list(&s), start.elapsed().as_secs_f64()
        ),
    )
    .unwrap();
}
