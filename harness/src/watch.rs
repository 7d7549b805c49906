//! The watchdog: calls that never return, runaway memory, and runs that do not end.
//!
//! A call is judged to never return when its thread either used 15 s of CPU time in it, or was
//! asleep at every sample for 20 s without using any CPU time, or was found asleep at nearly all
//! samples for 75 s (it sleeps and looks again, over and over), in a phase in which nothing but
//! the cache can keep it. Wall-clock time alone never gives a verdict.
use crate::report::*;
use std::{
    collections::BTreeMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::*},
        Arc, Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

pub struct Slot {
    tid: u32,
    ticks: AtomicU64,
    busy: AtomicBool,
    label: Mutex<(&'static str, u64, String)>,
    op: Mutex<&'static str>,
}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static META: OnceLock<(&'static str, String, u64)> = OnceLock::new();

thread_local! {
    static SLOT: Arc<Slot> = {
        let s = Arc::new(Slot {
            tid: tid(),
            ticks: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            label: Mutex::new(("", 0, String::new())),
            op: Mutex::new(""),
        });
        SLOTS.lock().unwrap().push(Arc::clone(&s));
        s
    };
}

pub fn tid() -> u32 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// State and CPU ticks used of a thread.
pub fn thread_stat(tid: u32) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    Some((
        f[0].chars().next()?,
        f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?,
    ))
}

/// This thread begins a case.
pub fn case(engine: &'static str, case: u64) {
    SLOT.with(|s| {
        *s.label.lock().unwrap() = (engine, case, String::new());
        s.ticks.fetch_add(1, SeqCst);
    })
}

pub fn config(c: &str) {
    SLOT.with(|s| s.label.lock().unwrap().2 = c.to_string())
}

/// This thread goes into a call, or a few, of the cache.
pub fn op(name: &'static str) {
    SLOT.with(|s| {
        *s.op.lock().unwrap() = name;
        s.ticks.fetch_add(1, Relaxed);
        s.busy.store(true, SeqCst);
    })
}

/// It is back.
pub fn idle() {
    SLOT.with(|s| {
        s.busy.store(false, SeqCst);
        s.ticks.fetch_add(1, Relaxed);
    })
}

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

pub fn start(prop: &'static str, tier: &str, seed: u64, secs: f64) {
    let _ = META.set((prop, tier.to_string(), seed));
    std::thread::spawn(move || watch(secs));
}

fn give(tags: &[&'static str], engine: &'static str, case: u64, config: String, msg: String) -> ! {
    let (prop, tier, seed) = META.get().unwrap();
    let mut run = Run {
        prop: prop.to_string(),
        tier: tier.clone(),
        seed: *seed,
        start: Instant::now(),
        stats: Stats::default(),
        found: vec![],
        other: BTreeMap::new(),
        inconclusive: vec![],
        rules: vec![
            "watchdog: calls that never return, and memory that grows without bound".into(),
        ],
        assumptions: vec![],
        extra: vec![],
    };
    let f = Found {
        engine,
        case,
        config,
        viol: Viol {
            tags: tags.to_vec(),
            msg,
        },
        log: vec![],
    };
    if run.accepts(&f.viol) {
        let p = run.write_replay(&f);
        println!("{} {} :: {}", f.viol.tags.join("+"), f.viol.msg, f.config);
        println!("VIOLATION property={} replay={}", run.prop, p.display());
        run.stats.evaluations = 1;
        run.write_evidence(1);
        std::process::exit(1);
    }
    println!(
        "no answer for {}: {} {} :: {}",
        run.prop,
        f.viol.tags.join("+"),
        f.viol.msg,
        f.config
    );
    std::process::exit(3);
}

fn watch(secs: f64) {
    let t0 = Instant::now();
    // ticks, since, CPU then, asleep ever since, samples, samples asleep
    let mut seen: BTreeMap<u32, (u64, Instant, u64, bool, u32, u32)> = BTreeMap::new();
    loop {
        std::thread::sleep(Duration::from_millis(500));
        if t0.elapsed().as_secs_f64() > secs + 300.0 {
            println!("no answer: the run did not end in time");
            std::process::exit(3);
        }
        let slots: Vec<Arc<Slot>> = SLOTS.lock().unwrap().clone();
        if rss() > 14 << 30 {
            let l: Vec<_> = slots
                .iter()
                .map(|s| s.label.lock().unwrap().clone())
                .collect();
            let (e, c, _) = l.iter().max_by_key(|l| l.1).cloned().unwrap_or_default();
            let tags: &[&'static str] = match e {
                "conc" => &["C16", "C17", "C01"],
                _ => &["C16", "C17", "C06", "C01"],
            };
            give(
                tags,
                e,
                c,
                format!("{l:?}"),
                "memory grew beyond 14 GB while caches of a few thousand small entries were in use"
                    .into(),
            );
        }
        for s in slots {
            let t = s.ticks.load(SeqCst);
            let Some((state, cpu)) = thread_stat(s.tid) else {
                continue;
            };
            let e = seen
                .entry(s.tid)
                .or_insert((t, Instant::now(), cpu, true, 0, 0));
            if e.0 != t || !s.busy.load(SeqCst) {
                *e = (t, Instant::now(), cpu, true, 0, 0);
                continue;
            }
            if state != 'S' || cpu != e.2 {
                e.3 = false;
            }
            e.4 += 1;
            e.5 += u32::from(state == 'S');
            let polls = e.1.elapsed() > Duration::from_secs(75) && e.4 > 120 && e.5 * 20 > e.4 * 19;
            let asleep = e.3 && e.1.elapsed() > Duration::from_secs(20);
            let burns = cpu > e.2 + 1500;
            if asleep || burns || polls {
                let (en, c, cfg) = s.label.lock().unwrap().clone();
                let op = *s.op.lock().unwrap();
                give(
                    &["ALL"],
                    en,
                    c,
                    cfg,
                    format!(
                        "{op} {}",
                        if burns {
                            "used more than 15 s of CPU time and has not returned"
                        } else if polls {
                            "sleeps and looks again for more than a minute"
                        } else {
                            "sleeps for good, though no other thread holds anything"
                        }
                    ),
                );
            }
        }
    }
}
