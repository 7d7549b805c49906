//! Injected delays at the marked points of the cache, per thread.
use crate::rng::Rng;
use std::{
    cell::RefCell,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::*},
        Arc,
    },
    time::{Duration, Instant},
};

/// All the marked points, to choose hot ones from.
pub const SITES: &[&str] = &[
    "base.insert.ts_taken",
    "base.insert.map_updated",
    "base.invalidate_all.now_taken",
    "base.invalidate_if.now_taken",
    "base.handle_remove.unadmitted",
    "base.handle_admit",
    "base.maintenance.start",
    "base.maintenance.logs_applied",
    "base.record_read",
    "base.retry.before_future",
    "base.update.before_notify",
    "base.maintenance.before_lru",
    "base.maintenance.before_store",
    "base.invalidate_entries",
    "base.evict.before_remove",
    "base.admit.before_victim",
    "base.get.looked_up",
    "base.get.before_touch",
    "base.schedule.before_listen",
    "base.schedule.listened",
    "base.schedule.loop",
    "base.schedule.before_send",
    "key_lock.before_lock",
    "key_lock.drop",
    "cache.invalidate.before_notify",
    "cache.invalidate.before_remove",
    "cache.invalidate.removed",
    "cache.invalidate.before_schedule",
    "cache.insert.before_schedule",
    "init.waiter_inserted",
    "init.waiter_found",
    "init.before_init",
    "init.before_insert",
    "init.inserted",
    "compute.waiter_inserted",
    "compute.looked_up",
    "compute.evaluated",
    "waiter.before_remove",
    "waiter.removed",
    "housekeeper.before_lock",
    "housekeeper.before_notify",
    "iter.key",
    "invalidator.before_empty",
    "invalidator.scanned",
    "cht.remove.before_cas",
    "cht.insert.before_cas",
    "cht.rehash.bucket",
    "cht.rehash.before_sentinel",
    "cht.swing",
    "user.listener",
    "user.init",
    "user.compute",
    "user.pred",
    "user.weigh",
];

/// What the threads of one round share.
#[derive(Default)]
pub struct Pace {
    /// Completed operations.
    pub ops: AtomicU64,
    pub over: AtomicBool,
    pub stalls: AtomicU64,
    pub delays: AtomicU64,
}

pub struct Delay {
    pub rng: Rng,
    pub hot: Vec<&'static str>,
    /// Chance out of 1000 of a delay at a hot / other site.
    pub hot_p: u64,
    pub bg_p: u64,
    pub pace: Arc<Pace>,
}

thread_local! {
    static DELAY: RefCell<Option<Delay>> = const { RefCell::new(None) };
}

pub fn set(d: Option<Delay>) {
    DELAY.with(|c| *c.borrow_mut() = d);
}

fn spin(us: u64) {
    let t = Instant::now();
    while t.elapsed() < Duration::from_micros(us) {
        std::hint::spin_loop();
    }
}

/// No delays for now: a round that does not end is looked at.
static CALM: AtomicBool = AtomicBool::new(false);

pub fn calm(on: bool) {
    CALM.store(on, SeqCst);
}

/// The point hook.
pub fn at(site: &'static str) {
    if CALM.load(Relaxed) {
        return;
    }
    let act = DELAY.with(|c| {
        let Ok(mut g) = c.try_borrow_mut() else {
            return None;
        };
        let d = g.as_mut()?;
        let hot = d.hot.contains(&site);
        let p = if hot { d.hot_p } else { d.bg_p };
        if !d.rng.chance(p, 1000) {
            return None;
        }
        let k = d.rng.below(if hot { 10 } else { 6 });
        Some((k, d.rng.next(), Arc::clone(&d.pace)))
    });
    let Some((k, r, pace)) = act else { return };
    pace.delays.fetch_add(1, Relaxed);
    match k {
        0 | 1 => std::thread::yield_now(),
        2 | 3 => spin(r % 20),
        4 => spin(r % 150),
        5 => std::thread::sleep(Duration::from_micros(20 + r % 280)),
        _ => {
            // Wait for the others to get on.
            pace.stalls.fetch_add(1, Relaxed);
            let until = pace.ops.load(SeqCst) + 1 + r % 12;
            let t = Instant::now();
            while pace.ops.load(SeqCst) < until
                && !pace.over.load(SeqCst)
                && t.elapsed() < Duration::from_millis(3)
            {
                std::thread::yield_now();
            }
        }
    }
}

/// The async point hook, for futures driven by threads.
pub fn at_async(site: &'static str) -> u32 {
    at(site);
    0
}
