#![allow(dead_code)]
mod api;
mod conc;
mod config;
mod delay;
mod engines;
mod held;
mod ordinary;
mod policy;
mod report;
mod rng;
mod seq;
mod types;
mod watch;
mod wgl;

use report::*;
use std::{
    cell::RefCell,
    collections::BTreeMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::*},
        Mutex,
    },
    time::{Duration, Instant},
};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// The message and place of the last panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<seq::Expected>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub const PROPS: [&str; 21] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
];

pub struct Budget {
    pub until: Instant,
    pub max_cases: u64,
    pub threads: usize,
}

/// Runs numbered cases of an engine in parallel until the budget is used up.
pub fn drive(
    run: &mut Run,
    engine: &'static str,
    b: &Budget,
    only: Option<u64>,
    nontrivial: impl Fn(&BTreeMap<&'static str, u64>) -> bool + Sync,
    case: impl Fn(u64) -> seq::CaseOut + Sync,
) {
    drive_h(run, engine, b, only, nontrivial, |i| (case(i), false))
}

/// As `drive`, for cases that may leave threads behind (the second place).
pub fn drive_h(
    run: &mut Run,
    engine: &'static str,
    b: &Budget,
    only: Option<u64>,
    nontrivial: impl Fn(&BTreeMap<&'static str, u64>) -> bool + Sync,
    case: impl Fn(u64) -> (seq::CaseOut, bool) + Sync,
) {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new((Stats::default(), Vec::<Found>::new()));
    let accepts = |v: &Viol| v.tags.iter().any(|t| *t == run.prop || *t == "ALL");
    std::thread::scope(|sc| {
        for _ in 0..if only.is_some() { 1 } else { b.threads } {
            sc.spawn(|| {
                let mut st = Stats::default();
                loop {
                    let i = match only {
                        Some(i) => {
                            if stop.swap(true, SeqCst) {
                                break;
                            }
                            i
                        }
                        None => {
                            if stop.load(Relaxed) || Instant::now() >= b.until {
                                break;
                            }
                            next.fetch_add(1, Relaxed)
                        }
                    };
                    if only.is_none() && i >= b.max_cases {
                        break;
                    }
                    watch::case(engine, i);
                    let (out, hung) = case(i);
                    watch::idle();
                    if hung {
                        stop.store(true, Relaxed);
                    }
                    st.evaluations += 1;
                    if nontrivial(&out.st) {
                        let mut h = 0u64;
                        for l in &out.log {
                            for b in l.bytes() {
                                h = h.wrapping_mul(0x100_0000_01b3) ^ b as u64;
                            }
                        }
                        st.distinct.insert(h);
                        if !matches!(engine, "seq" | "policy" | "config") {
                            st.sched.insert(h);
                        }
                        if st.samples.is_empty() {
                            let n = out.log.len();
                            let mut s: Vec<&str> = out.log.iter().map(|x| x.as_str()).collect();
                            s.truncate(25);
                            st.samples.push(format!(
                                "[{engine} case {i}] {} :: {} ({n} steps)",
                                out.config,
                                s.join("; ")
                            ));
                        }
                    }
                    for (k, v) in &out.st {
                        *st.counts.entry(k).or_default() += v;
                    }
                    if let Err(v) = out.r {
                        let hit = accepts(&v);
                        let mut t = total.lock().unwrap();
                        if t.1.len() < 50 {
                            t.1.push(Found {
                                engine,
                                case: i,
                                config: out.config,
                                viol: v,
                                log: out.log,
                            });
                        }
                        if hit {
                            stop.store(true, Relaxed);
                        }
                    }
                }
                total.lock().unwrap().0.merge(st);
            });
        }
    });
    let (st, found) = total.into_inner().unwrap();
    run.stats.merge(st);
    for f in found {
        run.note(f);
    }
}

/// Engines that speak to a property, with the share of the time each gets.
fn plan(prop: &str) -> Vec<(&'static str, f64)> {
    match prop {
        "C01" | "C10" | "C11" | "C12" | "C18" => vec![("conc", 0.75), ("coop", 0.25)],
        "C08" | "C09" | "C16" => vec![("seq", 0.4), ("conc", 0.4), ("coop", 0.2)],
        "C13" => vec![("seq", 0.45), ("conc", 0.45), ("coop", 0.1)],
        "C06" => vec![("seq", 0.45), ("ord", 0.2), ("conc", 0.25), ("coop", 0.1)],
        "C03" | "C05" => vec![("seq", 0.6), ("conc", 0.3), ("coop", 0.1)],
        "C04" => vec![("seq", 0.5), ("conc", 0.3), ("coop", 0.1), ("held", 0.1)],
        "C19" => vec![("seq", 0.65), ("conc", 0.35)],
        "C07" => vec![("policy", 1.0)],
        "C21" => vec![("held", 0.85), ("coop", 0.15)],
        "C14" => vec![("coop", 1.0)],
        "C15" => vec![("seq", 0.35), ("conc", 0.4), ("coop", 0.25)],
        "C20" => vec![("config", 0.5), ("seq", 0.5)],
        "C17" => vec![("ord", 0.3), ("conc", 0.5), ("coop", 0.2)],
        _ => vec![("seq", 1.0)],
    }
}

fn main() {
    install_panic_hook();
    let prop = std::env::args()
        .nth(1)
        .expect("usage: mokacheck <property>");
    let prop: &'static str = PROPS
        .iter()
        .find(|p| **p == prop)
        .expect("unknown property");
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let only: Option<(String, u64)> = std::env::var("VERIF_ONLY").ok().and_then(|s| {
        let (e, c) = s.split_once(':')?;
        Some((e.to_string(), c.parse().ok()?))
    });
    let only_engine = std::env::var("VERIF_ENGINE").ok();
    let mut run = Run {
        prop: prop.into(),
        tier: tier.clone(),
        seed,
        start: Instant::now(),
        stats: Stats::default(),
        found: vec![],
        other: BTreeMap::new(),
        inconclusive: vec![],
        rules: vec![],
        assumptions: vec![],
        extra: vec![],
    };
    let secs: f64 = std::env::var("VERIF_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 600.0 } else { 30.0 });
    watch::start(prop, &tier, seed, secs);
    let o = only.as_ref().map(|o| o.1);
    for (engine, share) in plan(prop) {
        if only.as_ref().is_some_and(|o| o.0 != engine) {
            continue;
        }
        if only_engine.as_ref().is_some_and(|e| e != engine) {
            continue;
        }
        let b = Budget {
            until: Instant::now() + Duration::from_secs_f64(secs * share),
            max_cases: u64::MAX,
            threads: 8,
        };
        engines::run(&mut run, prop, engine, seed, &b, o);
        if !run.found.is_empty() {
            break;
        }
    }
    for f in run.found.iter().take(3) {
        let p = run.write_replay(f);
        println!("{} {} :: {}", f.viol.tags.join("+"), f.viol.msg, f.config);
        println!("VIOLATION property={} replay={}", run.prop, p.display());
    }
    for (p, n, t) in report::known_list() {
        if *p == run.prop {
            println!("KNOWN-FINDING: property={p} [{n}] {t}");
        }
    }
    if only.is_none() {
        run.write_evidence(run.found.len());
    }
    println!(
        "{prop} {tier} seed {seed}: {} evaluations, {} distinct non-trivial, {} interleavings, {} violations, {:.1} s",
        run.stats.evaluations,
        run.stats.distinct.len(),
        run.stats.sched.len(),
        run.found.len(),
        run.start.elapsed().as_secs_f64()
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        println!("{:?}", run.stats.counts);
    }
    for (k, v) in &run.other {
        println!("note: {v}x seen, not judged by {prop}: {k}");
    }
    for i in &run.inconclusive {
        println!("inconclusive: {i}");
    }
    std::process::exit(if run.found.is_empty() { 0 } else { 1 });
}
