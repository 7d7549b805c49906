//! Engine O: maintenance by ordinary operations alone. `run_pending_tasks` is never called.
use crate::{
    api::*,
    report::*,
    rng::{mix, Rng},
    seq::CaseOut,
    types::*,
    watch,
};
use moka::{verif::MockClock, Expiry};
use std::{
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering::*},
        Arc,
    },
    time::Duration,
};

/// Length of the queues of pending writes and of pending reads.
const QUEUE: u64 = 384;

struct Fixed(Duration);
impl Expiry<Key, Val> for Fixed {
    fn expire_after_create(&self, _: &Key, _: &Val, _: std::time::Instant) -> Option<Duration> {
        Some(self.0)
    }
}

struct O {
    cfg: Cfg,
    api: Box<dyn Api>,
    clock: MockClock,
    tracker: Arc<Tracker>,
    told: Arc<AtomicU64>,
    nseg: u64,
    keys: BTreeSet<u32>,
    log: Vec<String>,
    st: BTreeMap<&'static str, u64>,
    rng: Rng,
    slow: u64,
}

fn sec(n: u64) -> Duration {
    Duration::from_secs(n)
}

impl O {
    fn new(rng: &mut Rng, bounded: bool, mock: bool) -> Self {
        let kind = match rng.below(5) {
            0 | 1 => Kind::Sync,
            2 | 3 => Kind::Fut,
            _ => Kind::Seg(*rng.pick(&[1usize, 2, 4])),
        };
        let cfg = Cfg {
            kind,
            hash: *rng.pick(&[
                HashKind::Good(1),
                HashKind::Good(2),
                HashKind::Identity,
                HashKind::HighBits(6),
            ]),
            cap: bounded.then(|| *rng.pick(&[1u64, 2, 7, 30, 100, 500])),
            lru: rng.chance(1, 2),
            weigher: bounded && rng.chance(1, 3),
            listener: rng.chance(1, 2),
            async_listener: rng.chance(1, 2),
            mock,
            ..Cfg::default()
        };
        Self::with(cfg, rng)
    }
    fn with(cfg: Cfg, rng: &mut Rng) -> Self {
        let tracker = Tracker::new();
        set_tracker(Some(Arc::clone(&tracker)));
        let clock = MockClock::new();
        let told = Arc::new(AtomicU64::new(0));
        // Each call of a slow listener takes a part of the time that maintenance may take.
        let slow = if cfg.mock && rng.chance(1, 3) {
            *rng.pick(&[1u64, 30, 120])
        } else {
            0
        };
        let (t2, c2) = (Arc::clone(&told), clock.clone());
        let mut hooks = Hooks {
            listener: Some(Arc::new(move |_, _, _| {
                t2.fetch_add(1, SeqCst);
                if slow > 0 {
                    c2.advance(Duration::from_millis(slow));
                }
            })),
            expiry: Some(Arc::new(Fixed(sec(50)))),
            ..Hooks::default()
        };
        if cfg.async_listener {
            let seed = rng.next();
            let n = AtomicU64::new(0);
            hooks.listener_suspend = Some(Arc::new(move || {
                (mix(seed ^ n.fetch_add(1, Relaxed)) % 4).saturating_sub(1) as u32
            }));
        }
        let api = build(&cfg, &hooks, cfg.mock.then_some(&clock));
        let nseg = match cfg.kind {
            Kind::Seg(n) => n.next_power_of_two() as u64,
            _ => 1,
        };
        watch::config(&format!("{cfg}"));
        O {
            cfg,
            api,
            clock,
            tracker,
            told,
            nseg,
            keys: BTreeSet::new(),
            log: vec![],
            st: BTreeMap::new(),
            rng: Rng::new(rng.next()),
            slow,
        }
    }
    fn hit(&mut self, k: &'static str, n: u64) {
        *self.st.entry(k).or_default() += n;
    }
    fn insert(&mut self, k: u32) {
        let w = self.rng.below(5) as u32;
        let v = Val::new(&self.tracker, k, w, 0);
        self.keys.insert(k);
        watch::op("insert");
        self.api.insert(Key::new(k, &self.tracker), v);
        self.hit("inserts", 1);
    }
    fn limit(&self) -> u64 {
        let n = self.nseg;
        self.cfg.cap.unwrap().div_ceil(n) * n
    }
    fn stored(&self) -> (u64, u64) {
        let (mut n, mut w) = (0, 0);
        for (_, v) in self.api.iter() {
            n += 1;
            w += if self.cfg.weigher {
                v.weight() as u64
            } else {
                1
            };
        }
        (n, w)
    }
    fn small_step(&mut self) {
        // (Well within the interval at which maintenance is due anyway.)
        if self.rng.chance(1, 4) {
            self.clock
                .advance(Duration::from_nanos(self.rng.below(3000)));
        }
    }
    /// A bounded number of ordinary operations that work off what is pending.
    fn work_off(&mut self, rounds: u64, present: bool) -> &'static str {
        let how = self.rng.below(4);
        let keys: Vec<u32> = self.keys.iter().copied().collect();
        let hot = if present {
            self.api.iter().next().map(|(k, _)| k.k())
        } else {
            Some(900_000)
        };
        let name = match (how, hot) {
            (0, Some(_)) if self.nseg == 1 => "overwrites of one key",
            (1, Some(_)) if self.nseg == 1 => "get_with of one key",
            (2, _) if self.nseg == 1 && !present => "reads of a missing key",
            _ => "reads",
        };
        self.log
            .push(format!("work off by {rounds} rounds of {name}"));
        // A few operations a round, but much time between them, or many.
        let many = self.rng.chance(1, 2);
        let (rounds, per) = if many { (rounds, 130) } else { (rounds + 6, 2) };
        for _ in 0..rounds {
            let ms = self.rng.range(310, 3000);
            self.clock
                .advance(Duration::from_millis(if many { ms } else { 3000 }));
            watch::op("ordinary operations");
            match name {
                "overwrites of one key" => {
                    for _ in 0..per {
                        self.insert(hot.unwrap());
                    }
                }
                "get_with of one key" => {
                    let t = Arc::clone(&self.tracker);
                    for _ in 0..per {
                        let k = hot.unwrap();
                        self.keys.insert(k);
                        self.api.get_with(KeyArg::Owned(Key::new(k, &t)), &mut || {
                            Val::new(&t, k, 1, 0)
                        });
                    }
                }
                "reads of a missing key" => {
                    for _ in 0..per {
                        let _ = self.api.get(&Kq(800_000));
                    }
                }
                _ => {
                    let mut n = 0;
                    while n < per {
                        for k in &keys {
                            let _ = self.api.get(&Kq(*k));
                            n += 1;
                        }
                        if keys.is_empty() {
                            break;
                        }
                    }
                }
            }
        }
        name
    }

    /// Writes alone keep the overflow within the backlog, and a few more operations work it
    /// off.
    fn overflow(&mut self) -> R {
        let mut next = 0u32;
        for _ in 0..self.rng.range(1, 4) {
            let n = self.rng.range(300, 2500);
            self.log.push(format!("{n} inserts"));
            for i in 0..n {
                let k = if self.rng.chance(1, 10) && next > 0 {
                    self.rng.below(next as u64) as u32
                } else {
                    next += 1;
                    next - 1
                };
                self.insert(k);
                if self.rng.chance(1, 50) {
                    self.api.invalidate(&Kq(k));
                }
                self.small_step();
                if i % 100 == 99 {
                    let (n, _) = self.stored();
                    let max = self.limit() + self.nseg * (QUEUE + 2);
                    if !self.cfg.weigher && n > max {
                        return viol(
                            &["C17", "C06"],
                            format!("{n} entries are stored with capacity {:?}: more than the backlog of {QUEUE} pending writes", self.cfg.cap),
                        );
                    }
                    self.hit("backlog_checks", 1);
                }
            }
            let how = self.work_off(6, true);
            let (n, w) = self.stored();
            let slack = if how == "reads" {
                0
            } else if self.cfg.weigher {
                4
            } else {
                1
            };
            if w > self.limit() + slack {
                return viol(
                    &["C17", "C06"],
                    format!("{n} entries of weight {w} are stored with capacity {:?} although {how} came long after the last insert", self.cfg.cap),
                );
            }
            self.hit("worked_off", 1);
        }
        Ok(())
    }

    /// What is expired or invalidated leaves with ordinary operations.
    fn hidden(&mut self, how: u64) -> R {
        let n = *self.rng.pick(&[1u64, 10, 100, 383, 384, 385, 800, 1600]);
        self.log.push(format!("{n} inserts, then expiry way {how}"));
        for k in 0..n {
            self.insert(k as u32);
            self.small_step();
        }
        if self.rng.chance(1, 2) {
            self.work_off(1, true);
        }
        match how {
            0..=2 => self.clock.advance(sec(60)),
            3 => {
                self.clock.advance(Duration::from_nanos(1));
                self.api.invalidate_all();
                self.clock.advance(Duration::from_nanos(1));
            }
            _ => {
                self.clock.advance(Duration::from_nanos(1));
                assert!(self.api.invalidate_if(Box::new(|_, _| true)));
                self.clock.advance(Duration::from_nanos(1));
            }
        }
        let rounds = 8 + 2 * n / QUEUE + if self.slow > 0 { n / 64 } else { 0 };
        let made = self.tracker.vals_made.load(SeqCst);
        let by = self.work_off(rounds, false);
        let ec = self.api.entry_count();
        let (stored, _) = self.stored();
        let max = u64::from(matches!(
            by,
            "overwrites of one key" | "get_with of one key"
        ));
        if ec > max || stored > max {
            return viol(
                &["C17"],
                format!("{n} entries were hidden, then came {rounds} rounds of {by}: {ec} entries are still counted, {stored} stored"),
            );
        }
        let told = self.told.load(SeqCst);
        if self.cfg.listener && told < made {
            return viol(
                &["C17", "C08"],
                format!("{made} values were written and then hidden, then came {rounds} rounds of {by}: only {told} departures were reported"),
            );
        }
        self.hit("hidden_worked_off", n);
        let t = Arc::clone(&self.tracker);
        // What stays: the working key, and the queues' contents.
        let most = (max + 3 * QUEUE + 16) as i64;
        if n as i64 > most && reclaim_until(|| t.vals.load(SeqCst) <= most) == Reclaim::Retained {
            return viol(
                &["C17", "C16"],
                format!(
                    "{} values are alive after {n} were hidden and {rounds} rounds of {by}",
                    t.vals.load(SeqCst)
                ),
            );
        }
        Ok(())
    }

    /// Updates of a few keys leave a bounded number of old values.
    fn updates(&mut self) -> R {
        let n = self.rng.range(2500, 6000);
        let k = self.rng.range(1, 3) as u32;
        let how = self.rng.below(4);
        self.log.push(format!("{n} updates of {k} keys, way {how}"));
        for i in 0..n {
            let k = i as u32 % k;
            if i % 20 == 0 {
                watch::op("updates");
            }
            match how {
                0 => self.insert(k),
                1 => {
                    self.insert(k);
                    self.api.invalidate(&Kq(k));
                }
                2 => {
                    self.insert(k);
                    let _ = self.api.get(&Kq(k));
                }
                _ => {
                    let t = Arc::clone(&self.tracker);
                    self.keys.insert(k);
                    let _ = self.api.upsert(KeyArg::Owned(Key::new(k, &t)), &mut |_| {
                        Val::new(&t, k, 1, 0)
                    });
                }
            }
            self.small_step();
        }
        let t = Arc::clone(&self.tracker);
        let most = (self.nseg * (3 * QUEUE + 16)) as i64;
        if n as i64 > most + 500
            && reclaim_until(|| t.vals.load(SeqCst) <= most) == Reclaim::Retained
        {
            return viol(
                &["C17", "C16"],
                format!(
                    "{} values are alive after {n} updates of {k} keys",
                    t.vals.load(SeqCst)
                ),
            );
        }
        self.hit("update_runs", 1);
        Ok(())
    }

    /// Several threads write at once.
    fn threads(&mut self, case: u64) -> R {
        let nth = self.rng.range(2, 6);
        let per = self.rng.range(400, 2500);
        let seed = self.rng.next();
        self.log.push(format!("{nth} threads, {per} inserts each"));
        watch::idle();
        std::thread::scope(|sc| {
            for th in 0..nth {
                let (api, tracker) = (&self.api, &self.tracker);
                let cfg = &self.cfg;
                sc.spawn(move || {
                    set_tracker(Some(Arc::clone(tracker)));
                    STRICT_BLOCK.with(|s| s.set(false));
                    watch::case("ord", case);
                    watch::config(&format!("{cfg}, {nth} threads of {per} inserts"));
                    watch::op("concurrent inserts");
                    let mut rng = Rng::of(&[seed, th]);
                    for i in 0..per {
                        if i % 20 == 0 {
                            watch::op("concurrent inserts");
                        }
                        let k = (th * per + i) as u32;
                        api.insert(Key::new(k, tracker), Val::new(tracker, k, 1, 0));
                        if rng.chance(1, 6) {
                            let _ = api.get(&Kq(rng.below(nth * per) as u32));
                        }
                        if rng.chance(1, 20) {
                            api.invalidate(&Kq(k));
                        }
                    }
                    watch::idle();
                    set_tracker(None);
                });
            }
        });
        self.hit("inserts", nth * per);
        let (n, _) = self.stored();
        // Maintenance by another thread may have been interrupted between taking in a queue of
        // writes and evicting for them.
        let max = self.limit() + self.nseg * (3 * QUEUE + 2 * nth);
        if !self.cfg.weigher && n > max {
            return viol(
                &["C17", "C06"],
                format!("{n} entries are stored with capacity {:?} right after {nth} threads inserted {per} each", self.cfg.cap),
            );
        }
        self.hit("backlog_checks", 1);
        Ok(())
    }
}

pub fn run_case(_prop: &'static str, seed: u64, case: u64) -> CaseOut {
    let mut rng = Rng::of(&[seed, 0x0D, case]);
    STRICT_BLOCK.with(|s| s.set(true));
    let shape = rng.below(8);
    let coin = rng.chance(1, 2);
    let mut o = match shape {
        0..=2 => O::new(&mut rng, true, true),
        3..=5 => {
            let mut c = O::new(&mut rng, false, true).cfg;
            let how = rng.below(5);
            match how {
                0 => c.ttl = Some(sec(50)),
                1 => c.tti = Some(sec(50)),
                2 => c.expiry = true,
                _ => {}
            }
            c.inval = how == 4 || rng.chance(1, 3);
            let mut o = O::with(c, &mut rng);
            o.log.push(format!("how {how}"));
            o
        }
        6 => O::new(&mut rng, coin, true),
        _ => O::new(&mut rng, true, coin),
    };
    let config = format!("shape {shape} {} slow={}", o.cfg, o.slow);
    watch::config(&config);
    let how = match (o.cfg.ttl, o.cfg.tti, o.cfg.expiry, o.cfg.inval) {
        (Some(_), ..) => 0,
        (_, Some(_), ..) => 1,
        (_, _, true, _) => 2,
        (.., true) => 4,
        _ => 3,
    };
    let r = catch_unwind(AssertUnwindSafe(|| match shape {
        0..=2 => o.overflow(),
        3..=5 => o.hidden(how),
        6 => o.updates(),
        _ => o.threads(case),
    }));
    let r = match r {
        Ok(r) => r,
        Err(_) => viol(
            &["ALL"],
            format!("an operation panicked: {}", crate::last_panic()),
        ),
    };
    watch::op("dropping the cache");
    let (st, log) = (std::mem::take(&mut o.st), std::mem::take(&mut o.log));
    drop(o);
    watch::idle();
    set_tracker(None);
    CaseOut { config, st, log, r }
}
