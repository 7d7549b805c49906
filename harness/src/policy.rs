//! Engine P: eviction decisions against an exact recency list and exact request counts.
//!
//! Maintenance runs after every write and every burst of reads, so that the order in which the
//! cache hears of them is the order in which they were made. Under LRU the expected victims are
//! exact. Under TinyLFU they are exact but for collisions in the frequency sketch, which depend
//! on the hasher: a mismatch counts when the same script fails under several hashers.
use crate::{api::*, report::*, rng::Rng, seq::CaseOut, types::*, watch};
use moka::{notification::RemovalCause, verif::MockClock, Expiry};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, VecDeque},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

/// Deadlines that never come, and that most calls move.
struct Far;
impl Far {
    fn at(&self, k: &Key, by: u64) -> Option<Duration> {
        match (k.k() as u64).wrapping_mul(0x9e37_79b9).wrapping_add(by) % 4 {
            0 => None,
            n => Some(Duration::from_secs(1_000_000 << (3 * n + by % 3))),
        }
    }
}
impl Expiry<Key, Val> for Far {
    fn expire_after_create(&self, k: &Key, _: &Val, _: Instant) -> Option<Duration> {
        self.at(k, 0)
    }
    fn expire_after_read(
        &self,
        k: &Key,
        _: &Val,
        at: Instant,
        d: Option<Duration>,
        _: Instant,
    ) -> Option<Duration> {
        let _ = at;
        match k.k() % 3 {
            0 => d,
            1 => self.at(k, d.map_or(1, |d| d.as_micros() as u64)),
            _ => d.map_or(Some(Duration::from_secs(5_000_000)), |d| {
                Some(d + Duration::from_secs(3))
            }),
        }
    }
    fn expire_after_update(
        &self,
        k: &Key,
        _: &Val,
        _: Instant,
        d: Option<Duration>,
    ) -> Option<Duration> {
        self.at(k, d.map_or(2, |d| d.as_micros() as u64))
    }
}

struct P {
    cfg: Cfg,
    api: Box<dyn Api>,
    clock: MockClock,
    tracker: Arc<Tracker>,
    events: Arc<Mutex<Vec<(u32, RemovalCause)>>>,
    cap: u64,
    /// All weights and the capacity are multiplied by this.
    scale: u32,
    /// From the least to the most recently used.
    order: VecDeque<(u32, u64)>,
    freq: HashMap<u32, u32>,
    counting: bool,
    reads: u64,
    next: u32,
    log: Vec<String>,
    st: BTreeMap<&'static str, u64>,
    rng: Rng,
}

impl P {
    fn new(mut cfg: Cfg, scale: u32, rng: Rng) -> Self {
        let cap = cfg.cap.unwrap();
        cfg.cap = Some(cap * scale as u64);
        let tracker = Tracker::new();
        let events: Arc<Mutex<Vec<(u32, RemovalCause)>>> = Arc::default();
        let mut hooks = Hooks::default();
        let ev = Arc::clone(&events);
        hooks.listener = Some(Arc::new(move |k: Arc<Key>, _v, c| {
            ev.lock().unwrap().push((k.k(), c));
        }));
        if cfg.weigher {
            hooks.weigher = Some(Arc::new(|_k, v: &Val| v.weight()));
        }
        if cfg.expiry {
            hooks.expiry = Some(Arc::new(Far));
        }
        let clock = MockClock::new();
        let api = build(&cfg, &hooks, Some(&clock));
        P {
            cap,
            scale,
            cfg,
            api,
            clock,
            tracker,
            events,
            order: VecDeque::new(),
            freq: HashMap::new(),
            counting: false,
            reads: 0,
            next: 0,
            log: vec![],
            st: BTreeMap::new(),
            rng,
        }
    }
    fn hit(&mut self, k: &'static str) {
        *self.st.entry(k).or_default() += 1;
    }
    fn total(&self) -> u64 {
        self.order.iter().map(|x| x.1).sum()
    }
    fn f(&self, k: u32) -> u32 {
        self.freq.get(&k).copied().unwrap_or(0).min(15)
    }
    fn has(&self, k: u32) -> bool {
        self.order.iter().any(|x| x.0 == k)
    }
    fn settle(&mut self) {
        self.clock.advance(Duration::from_micros(1));
        self.api.run_pending();
    }
    /// Requests are counted from the time the cache is half full.
    fn maybe_count(&mut self) {
        if self.total() >= self.cap / 2 {
            self.counting = true;
        }
    }
    fn touch(&mut self, k: u32) {
        if let Some(i) = self.order.iter().position(|x| x.0 == k) {
            let e = self.order.remove(i).unwrap();
            self.order.push_back(e);
        }
    }
    /// Reads of `k`, at most 60.
    fn read(&mut self, k: u32, n: u32) -> R {
        self.log.push(format!("get k{k} x{n}"));
        watch::op("get");
        for _ in 0..n {
            let g = self.api.get(&Kq(k)).is_some();
            if g != self.has(k) {
                return viol(&["C07"], format!("get of k{k} hits: {g}, expected: {}", !g));
            }
        }
        if self.counting {
            *self.freq.entry(k).or_default() += n;
            self.reads += n as u64;
        }
        self.touch(k);
        self.settle();
        self.hit("reads");
        Ok(())
    }
    /// Reads that are not requests of the value.
    fn peek(&mut self, k: u32, n: u32) {
        self.log.push(format!("contains k{k} x{n}"));
        for _ in 0..n {
            let _ = self.api.contains(&Kq(k));
        }
        self.settle();
        self.hit("peeks");
    }
    fn scan(&mut self) {
        self.log.push("iterate".into());
        let _ = self.api.iter().count();
        self.settle();
    }
    fn invalidate(&mut self, k: u32) {
        self.log.push(format!("invalidate k{k}"));
        self.api.invalidate(&Kq(k));
        self.order.retain(|x| x.0 != k);
        self.settle();
        self.events.lock().unwrap().clear();
    }
    /// The entries at the LRU end that weigh `w` together, or as many as there are.
    fn prefix(&self, need: u64) -> (Vec<u32>, bool) {
        let (mut v, mut s) = (vec![], 0);
        for (k, w) in &self.order {
            if s >= need {
                break;
            }
            v.push(*k);
            s += w;
        }
        (v, s >= need)
    }
    fn sum(&self, ks: &[u32]) -> u32 {
        ks.iter().map(|k| self.f(*k)).sum()
    }
    /// Inserts or updates, and judges which entries leave.
    fn insert(&mut self, k: u32, w: u64, how: u64) -> R {
        self.log.push(format!(
            "insert k{k} w{w} (requests {}, {} in the cache)",
            self.f(k),
            if self.has(k) { "already" } else { "not" }
        ));
        watch::op("insert");
        let id = self.tracker.fresh_id();
        let v = Val::with_id(&self.tracker, id, k, w as u32 * self.scale, 0);
        let was = self.has(k);
        if how == 1 && !was {
            let mut v = Some(v);
            self.api
                .get_with(KeyArg::Owned(Key::new(k, &self.tracker)), &mut || {
                    v.take().unwrap()
                });
            if self.counting {
                *self.freq.entry(k).or_default() += 1;
                self.reads += 1;
            }
        } else {
            self.api.insert(Key::new(k, &self.tracker), v);
        }
        let before = self.order.clone();
        let free_total = self.total();
        self.settle();
        let evs: Vec<u32> = self
            .events
            .lock()
            .unwrap()
            .drain(..)
            .filter(|e| e.1 == RemovalCause::Size)
            .map(|e| e.0)
            .collect();
        let got: BTreeSet<u32> = evs.iter().copied().collect();
        if got.len() != evs.len() {
            return viol(
                &["C07", "C08"],
                format!("an entry was evicted twice: {evs:?}"),
            );
        }
        let mut legal: Vec<(Vec<u32>, &'static str)> = vec![];
        let pop = |order: &VecDeque<(u32, u64)>, cap: u64| -> Vec<u32> {
            let mut t: u64 = order.iter().map(|x| x.1).sum();
            let mut v = vec![];
            for (k, w) in order {
                if t <= cap {
                    break;
                }
                v.push(*k);
                t -= w;
            }
            v
        };
        if was {
            self.touch(k);
            self.order.back_mut().unwrap().1 = w;
            legal.push((pop(&self.order, self.cap), "update"));
            self.hit("updates");
        } else if free_total + w <= self.cap {
            self.order.push_back((k, w));
            legal.push((vec![], "room"));
        } else if w > self.cap {
            self.order.push_back((k, w));
            legal.push((vec![k], "too big"));
            self.hit("too_big");
        } else if self.cfg.lru {
            self.order.push_back((k, w));
            legal.push((pop(&self.order, self.cap), "lru"));
            self.hit("lru_evictions");
        } else {
            self.hit("contests");
            let c = self.f(k);
            // The entries that weigh what the newcomer weighs, or just make room for it.
            let (p1, e1) = self.prefix(w);
            let (p2, _) = self.prefix(free_total + w - self.cap);
            let (s1, s2) = (self.sum(&p1), self.sum(&p2));
            let diff = c as i64 - s1 as i64;
            self.hit(match diff {
                0 => "contests_tied",
                1 => "contests_won_by_one",
                -1 => "contests_lost_by_one",
                _ => "contests_clear",
            });
            if e1 && c > s1 {
                legal.push((p1.clone(), "admitted"));
            }
            if c > s2 {
                legal.push((p2, "admitted"));
            }
            if !e1 || c <= s1 {
                legal.push((vec![k], "rejected"));
            }
            self.order.push_back((k, w));
        }
        let ok = legal
            .iter()
            .find(|(l, _)| l.iter().copied().collect::<BTreeSet<u32>>() == got);
        let Some((l, why)) = ok else {
            let show: Vec<String> = before
                .iter()
                .take(8)
                .map(|(k, w)| format!("k{k} w{w} f{}", self.f(*k)))
                .collect();
            return viol(
                &["C07"],
                format!(
                    "inserting k{k} (weight {w}, {} requests) evicted {evs:?}; legal: {legal:?}; by recency: {show:?} of {} weighing {free_total} with capacity {}",
                    self.f(k), before.len(), self.cap
                ),
            );
        };
        if self.cfg.lru && !was && *l != evs {
            return viol(
                &["C07"],
                format!("entries were evicted in the order {evs:?}, not {l:?}"),
            );
        }
        if *why == "admitted" {
            self.hit("admitted");
        }
        if *why == "rejected" {
            self.hit("rejected");
        }
        if !l.is_empty() {
            self.hit("evictions");
        }
        self.order.retain(|x| !got.contains(&x.0));
        self.maybe_count();
        Ok(())
    }
    /// The model's entries are those of the cache.
    fn compare(&mut self) -> R {
        watch::op("contains_key");
        for i in 0..self.order.len() {
            let k = self.order[i].0;
            if !self.api.contains(&Kq(k)) {
                return viol(
                    &["C07"],
                    format!("k{k} is gone, and no eviction was reported or expected"),
                );
            }
        }
        let n = self.api.iter().count();
        if n != self.order.len() {
            return viol(
                &["C07"],
                format!("{n} entries are stored, {} expected", self.order.len()),
            );
        }
        self.hit("compares");
        Ok(())
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn weight(&mut self) -> u64 {
        if !self.cfg.weigher {
            return 1;
        }
        match self.rng.below(12) {
            0 => 0,
            1 => self.cap + 1 + self.rng.below(3),
            2 => self.cap,
            3..=5 => 1 + self.rng.below(self.cap / 2 + 1),
            _ => 1 + self.rng.below(self.cap / 8 + 1),
        }
    }

    fn random(&mut self) -> R {
        // Fill.
        let full = self.rng.chance(4, 5);
        loop {
            let w = if self.cfg.weigher {
                1 + self.rng.below(self.cap / 6 + 1)
            } else {
                1
            };
            if self.total() + w > self.cap || (!full && self.total() > self.cap / 2) {
                break;
            }
            let k = self.fresh();
            self.insert(k, w, 0)?;
        }
        let steps = self.rng.range(20, 120);
        for _ in 0..steps {
            if self.reads > 1000 {
                break;
            }
            if self.rng.chance(1, 14) {
                let s = 1 << self.rng.below(20);
                self.log.push(format!("{s} s pass"));
                self.clock.advance(Duration::from_secs(s));
                self.settle();
            }
            if self.cfg.inval && self.rng.chance(1, 14) {
                self.log.push("invalidate_entries_if none".to_string());
                watch::op("invalidate_entries_if");
                self.api.invalidate_if(Box::new(|_, _| false));
                self.clock.advance(Duration::from_micros(5));
                self.settle();
            }
            let n = self.order.len() as u64;
            // Somewhere near the LRU end, or anywhere.
            let pick = |s: &mut Self| -> Option<u32> {
                if n == 0 {
                    return None;
                }
                let i = if s.rng.chance(1, 2) {
                    s.rng.below(n.min(3))
                } else {
                    s.rng.below(n)
                };
                Some(s.order[i as usize].0)
            };
            match self.rng.below(14) {
                0..=3 => {
                    if let Some(k) = pick(self) {
                        let c = 1 + self.rng.below(3) as u32;
                        self.read(k, c)?;
                    }
                }
                4 => {
                    if let Some(k) = pick(self) {
                        let w = self.weight();
                        self.insert(k, w, 0)?;
                    }
                }
                5 => {
                    if let Some(k) = pick(self) {
                        let c = 1 + self.rng.below(12) as u32;
                        self.peek(k, c);
                    }
                }
                6 => {
                    if self.rng.chance(1, 2) {
                        self.scan();
                    } else if let Some(k) = pick(self) {
                        self.invalidate(k);
                    }
                }
                7 => {
                    // A scan of one-time keys.
                    for _ in 0..self.rng.range(2, 12) {
                        let k = self.fresh();
                        let how = self.rng.below(2);
                        self.insert(k, 1, how)?;
                    }
                }
                _ => {
                    // A newcomer that is about as popular as its victims.
                    let k = self.fresh();
                    let w = self.weight();
                    let (p, _) = self.prefix(w);
                    let t = self.sum(&p) as i64 + self.rng.below(4) as i64 - 1;
                    let t = t.clamp(0, 15) as u32;
                    if self.rng.chance(1, 3) {
                        let c = self.rng.below(9) as u32;
                        self.peek(k, c);
                    }
                    if t > 0 && !self.cfg.lru {
                        self.read(k, t)?;
                    }
                    let how = self.rng.below(5);
                    self.insert(k, w, how)?;
                    if self.rng.chance(1, 4) {
                        // And once more.
                        let w = self.weight();
                        self.insert(k, w, 0)?;
                    }
                }
            }
            if self.rng.chance(1, 6) {
                self.compare()?;
            }
        }
        self.compare()
    }

    /// Popularity lasts for a while, and fades.
    fn aging(&mut self) -> R {
        let window = 10 * self.cap.max(128);
        for _ in 0..self.cap {
            let k = self.fresh();
            self.insert(k, 1, 0)?;
        }
        let a = 1;
        self.read(a, 30)?;
        for i in 1..self.order.len() {
            let k = self.order[0].0;
            let _ = i;
            if k == a {
                break;
            }
            self.read(k, 1)?;
        }
        while self.order[0].0 != a {
            let k = self.order[0].0;
            self.read(k, 1)?;
        }
        let mut noise = 1_000_000;
        let mut make = |s: &mut Self, n: u64| {
            watch::op("get");
            for i in 0..n {
                noise += 1;
                let _ = s.api.get(&Kq(noise));
                if i % 50 == 49 {
                    s.settle();
                }
            }
            s.settle();
        };
        let done = self.reads;
        make(self, (window * 4 / 10).saturating_sub(done));
        let k = self.fresh();
        self.read(k, 4)?;
        self.insert(k, 1, 0)?;
        if !self.has(a) {
            return viol(&["C07"], format!("k{a}, requested 30 times within the sample, lost to a newcomer requested 4 times"));
        }
        self.hit("popular_kept");
        make(self, window * 6);
        self.freq.clear();
        let k = self.fresh();
        self.read(k, 14)?;
        self.freq.insert(k, 14);
        self.insert(k, 1, 0)?;
        if self.has(a) || !self.has(k) {
            return viol(
                &["C07"],
                format!("k{a}, not requested for six sample periods, still beats a newcomer with 14 requests"),
            );
        }
        self.hit("popular_faded");
        Ok(())
    }

    /// Requests that leave as many odd counters as possible when the sketch is aged.
    fn odd(&mut self) -> R {
        const SEED: [u64; 4] = [
            0xc3a5_c85c_97cb_3127,
            0xb492_b66f_be98_f273,
            0x9ae1_6a3b_2f90_404f,
            0xcbf2_9ce4_8422_2325,
        ];
        let table = self.cap.next_power_of_two();
        let window = 10 * self.cap;
        let want = (window / 2 + 10 + 2 * self.rng.below(30)) as usize;
        let mut used = BTreeSet::new();
        let mut keys = vec![];
        let mut h = self.rng.next() as u32 as u64;
        let mut tries = 0u64;
        while keys.len() < want && tries < 20_000_000 {
            tries += 1;
            h = (h + 1) & 0xffff_ffff;
            let start = (h & 3) << 2;
            let c: Vec<(u64, u64)> = (0..4)
                .map(|i| {
                    let mut x = h.wrapping_add(SEED[i]).wrapping_mul(SEED[i]);
                    x = x.wrapping_add(x >> 32);
                    (x & (table - 1), start + i as u64)
                })
                .collect();
            if c.iter().any(|c| used.contains(c)) {
                continue;
            }
            used.extend(c);
            keys.push(h as u32);
        }
        for _ in 0..self.cap {
            let k = self.fresh();
            self.insert(k, 1, 0)?;
        }
        self.log.push(format!("{} chosen requests", window));
        watch::op("get");
        let mut n = 0u64;
        for (i, k) in keys.iter().enumerate() {
            for _ in 0..if ((i as u64) * 2 + keys.len() as u64) < window {
                3
            } else {
                1
            } {
                if n == window + 5 {
                    break;
                }
                n += 1;
                let _ = self.api.get(&Kq(*k));
                if n % 50 == 0 {
                    self.settle();
                }
            }
        }
        self.settle();
        self.hit("odd_sketches");
        // What is requested now counts.
        self.freq.clear();
        let k = self.fresh() + 5_000;
        self.read(k, 12)?;
        self.freq.insert(k, 12);
        self.freq.extend(self.order.iter().map(|x| (x.0, 0)));
        self.insert(k, 1, 0)?;
        self.compare()
    }
}

pub fn run_case(prop: &'static str, seed: u64, case: u64) -> CaseOut {
    let _ = prop;
    let mut rng = Rng::of(&[seed, 0xC, case]);
    STRICT_BLOCK.with(|s| s.set(true));
    let shape = match rng.below(40) {
        0 => 1,
        1 => 2,
        _ => 0,
    };
    let mut cfg = Cfg {
        kind: match rng.below(5) {
            0 | 1 => Kind::Sync,
            2 => Kind::Seg(1),
            _ => Kind::Fut,
        },
        lru: shape == 0 && rng.chance(1, 3),
        weigher: shape == 0 && rng.chance(1, 2),
        listener: true,
        async_listener: rng.chance(1, 2),
        cap: Some(*rng.pick(&[1u64, 2, 3, 5, 10, 24, 60])),
        initial: if rng.chance(1, 8) { Some(300) } else { None },
        // Deadlines far away, which only make for more work.
        ttl: if rng.chance(1, 3) {
            Some(Duration::from_secs(1_000_000_000))
        } else {
            None
        },
        tti: if rng.chance(1, 3) {
            Some(Duration::from_secs(1_500_000_000))
        } else {
            None
        },
        expiry: rng.chance(1, 3),
        inval: rng.chance(1, 3),
        ..Cfg::default()
    };
    match shape {
        1 => cfg.cap = Some(*rng.pick(&[20u64, 64, 130, 200])),
        2 => cfg.cap = Some(*rng.pick(&[130u64, 140, 258, 260])),
        _ if cfg.weigher => cfg.cap = Some(*rng.pick(&[10u64, 40, 100, 1000])),
        _ => {}
    }
    let mut scale = 1;
    if cfg.weigher && rng.chance(1, 4) {
        let c = cfg.cap.unwrap() as u32;
        scale = u32::MAX / (c + 4);
    }
    let tries = if cfg.lru { 1 } else { 4 };
    let mut first: Option<CaseOut> = None;
    for t in 0..tries {
        let mut cfg = cfg.clone();
        cfg.hash = match shape {
            2 => HashKind::Identity,
            _ => HashKind::Good(rng.next()),
        };
        let cfgs = format!("{cfg} shape={shape} scale={scale}");
        watch::config(&cfgs);
        let mut p = P::new(cfg, scale, Rng::of(&[seed, 0xD, case]));
        set_tracker(Some(Arc::clone(&p.tracker)));
        let r = catch_unwind(AssertUnwindSafe(|| match shape {
            0 => p.random(),
            1 => p.aging(),
            _ => p.odd(),
        }));
        let panicked = r.is_err();
        let r = match r {
            Ok(r) => r,
            Err(_) => viol(
                &["ALL"],
                format!("an operation panicked: {}", crate::last_panic()),
            ),
        };
        let out = CaseOut {
            config: cfgs,
            st: std::mem::take(&mut p.st),
            log: std::mem::take(&mut p.log),
            r,
        };
        set_tracker(None);
        if panicked {
            std::mem::forget(p);
            return out;
        }
        drop(p);
        if out.r.is_ok() {
            let mut out = out;
            if t > 0 {
                *out.st.entry("sketch_collisions").or_default() += 1;
            }
            return out;
        }
        if first.is_none() {
            first = Some(out);
        }
    }
    first.unwrap()
}
