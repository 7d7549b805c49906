//! Engine A: random single-caller histories against a reference model.
//!
//! The model knows the latest write to each key, when it was written and last
//! accessed, its own deadline, and whether a bulk invalidation covers it. Whether the
//! cache still stores it is known exactly when there is a listener, and up to legal
//! size evictions otherwise.
use crate::{
    api::*,
    report::*,
    rng::{mix, Rng},
    types::*,
    watch,
};
use moka::{ops::compute::CompResult, verif::MockClock, Expiry};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex, Weak},
    time::Duration,
};

/// Per-entry deadlines are kept with this resolution (ns).
pub const U: u64 = 4096;
const LAG: u64 = 2_500_000_000;
const SEC: u64 = 1_000_000_000;
/// The last instant of the cache's clock.
const MAX_NS: u64 = u64::MAX - 1;

fn span(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(MAX_NS).min(MAX_NS)
}
fn plus(t: u64, d: Duration) -> u64 {
    t.saturating_add(span(d)).min(MAX_NS)
}
/// When an entry with `d` left at `t` expires, at the resolution of the deadlines.
fn deadline(t: u64, d: Duration) -> u64 {
    let n = plus(t, d) / U * U;
    n.min(u64::MAX / U * U - U)
}

#[derive(Clone, Debug)]
pub struct ME {
    pub id: u64,
    pub w: u32,
    pub tag: u32,
    pub lm: u64,
    pub la: u64,
    pub exp: Option<u64>,
    pub inv_all: bool,
    pub inv_pred: bool,
    pub kept: Option<u64>,
    pub step: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HK {
    Create,
    Read,
    Update,
}

#[derive(Clone, Debug)]
struct HCall {
    kind: HK,
    key: u32,
    id: u64,
    at: std::time::Instant,
    cur: Option<Duration>,
    lm: Option<std::time::Instant>,
    ret: Option<Duration>,
}

/// The expiry of a case: random, but recorded.
struct RecExpiry {
    st: Mutex<(Rng, Vec<HCall>)>,
    style: u64,
    /// The answers to creations, reads and updates for now.
    forced: Mutex<Option<[Option<Duration>; 3]>>,
    _token: Arc<()>,
}

impl RecExpiry {
    fn rand_dur(rng: &mut Rng, style: u64) -> Option<Duration> {
        if style == 9 {
            // Extremes.
            let year = 365 * 86_400u64;
            return match rng.below(14) {
                0 => None,
                1 | 2 => Some(Duration::ZERO),
                3 => Some(Duration::MAX),
                4 => Some(Duration::from_nanos(u64::MAX)),
                5 => Some(Duration::from_nanos(u64::MAX - 1)),
                6 => Some(Duration::from_nanos(u64::MAX / U * U)),
                7 => Some(Duration::from_nanos(u64::MAX / U * U - U)),
                8 => Some(Duration::from_secs(1000 * year)),
                9 => Some(Duration::from_secs(5_000_000 * year)),
                10 => Some(Duration::from_nanos(1u64 << rng.range(12, 63))),
                11 => Some(Duration::from_nanos((1u64 << rng.range(14, 63)) - U)),
                12 => Some(Duration::from_secs(rng.range(1, 600 * year))),
                _ => Some(Duration::from_nanos(U)),
            };
        }
        let m = if style == 3 { 2 } else { rng.below(10) };
        let n = match m {
            0 => return None,
            1 => 0,
            2..=4 => rng.range(1, 40) * U,
            5 | 6 => rng.range(1, 40) * (100_000_000 / U) * U,
            7 => rng.range(1, 100) * (SEC / U) * U,
            8 => rng.range(1, 1000) * (60 * SEC / U) * U,
            _ => rng.range(1, 400) * (86_400 * SEC / U) * U,
        };
        Some(Duration::from_nanos(n))
    }
    fn answer(
        &self,
        kind: HK,
        k: &Key,
        v: &Val,
        at: std::time::Instant,
        cur: Option<Duration>,
        lm: Option<std::time::Instant>,
    ) -> Option<Duration> {
        let mut g = self.st.lock().unwrap();
        let (rng, log) = &mut *g;
        let echo = match (kind, self.style) {
            (HK::Create, _) => false,
            // Only the creation hook decides.
            (_, 0) => true,
            (HK::Read, 1) => true,
            _ => rng.chance(1, 3),
        };
        let ret = if let Some(f) = *self.forced.lock().unwrap() {
            f[kind as usize]
        } else if echo {
            cur
        } else {
            Self::rand_dur(rng, self.style)
        };
        log.push(HCall {
            kind,
            key: k.k(),
            id: v.id(),
            at,
            cur,
            lm,
            ret,
        });
        // Where the model takes the answer to be the unchanged one, the trait's own
        // default gives it.
        match kind {
            HK::Create if ret.is_none() => Unadorned.expire_after_create(k, v, at),
            HK::Read if ret == cur => {
                Unadorned.expire_after_read(k, v, at, cur, lm.expect("no time of writing"))
            }
            HK::Update if ret == cur => Unadorned.expire_after_update(k, v, at, cur),
            _ => ret,
        }
    }
}

/// An expiry with the default methods only.
struct Unadorned;
impl Expiry<Key, Val> for Unadorned {}

impl Expiry<Key, Val> for RecExpiry {
    fn expire_after_create(&self, k: &Key, v: &Val, t: std::time::Instant) -> Option<Duration> {
        self.answer(HK::Create, k, v, t, None, None)
    }
    fn expire_after_read(
        &self,
        k: &Key,
        v: &Val,
        t: std::time::Instant,
        d: Option<Duration>,
        lm: std::time::Instant,
    ) -> Option<Duration> {
        self.answer(HK::Read, k, v, t, d, Some(lm))
    }
    fn expire_after_update(
        &self,
        k: &Key,
        v: &Val,
        t: std::time::Instant,
        d: Option<Duration>,
    ) -> Option<Duration> {
        self.answer(HK::Update, k, v, t, d, None)
    }
}

#[derive(Clone, Debug)]
struct Ev {
    key: u32,
    id: u64,
    vkey: u32,
    cause: RemovalCause,
    intact: bool,
}

/// How an expected read hook call sees the entry.
struct Expect {
    kind: Option<HK>,
    key: u32,
    id: u64,
    cur: Option<Option<u64>>,
    lm: Option<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Dep {
    Write,
    Remove,
}

pub struct Case {
    cfg: Cfg,
    apis: Vec<Option<Box<dyn Api>>>,
    cur: usize,
    clock: MockClock,
    tracker: Arc<Tracker>,
    rng: Rng,
    model: BTreeMap<u32, ME>,
    departed: Vec<(u32, ME, Dep)>,
    weaks: HashMap<u64, Weak<VInner>>,
    events: Arc<Mutex<Vec<Ev>>>,
    hooks_log: Option<Arc<RecExpiry>>,
    token: Arc<()>,
    nkeys: u32,
    churns: u32,
    step: u64,
    overflow_step: u64,
    used_inval: bool,
    inval_since_settle: bool,
    shrunk: bool,
    stored_at_settle: BTreeSet<u32>,
    written_since: BTreeSet<u32>,
    cap_eff: Option<u64>,
    nseg: u64,
    pub log: Vec<String>,
    pub st: BTreeMap<&'static str, u64>,
    s: u64,
    focus: &'static str,
    ops_since_maint: u64,
    max_weight: u32,
}

/// Payload of the panics that a case causes on purpose.
pub struct Expected(#[allow(dead_code)] pub u64);

fn d2(n: u64) -> Duration {
    Duration::from_nanos(n)
}

pub fn gen_cfg(rng: &mut Rng, prop: &str) -> (Cfg, u32) {
    let mut c = Cfg::default();
    let has_exp = rng.chance(1, 4);
    c.kind = match rng.below(10) {
        0..=3 => Kind::Sync,
        4..=5 => Kind::Seg(*rng.pick(&[1usize, 2, 3, 4, 8])),
        _ => Kind::Fut,
    };
    if prop == "C19" {
        c.kind = Kind::Seg(*rng.pick(&[1usize, 2, 3, 4, 5, 8, 16, 64]));
    }
    c.hash = match rng.below(10) {
        0..=4 => HashKind::Good(rng.next()),
        5 => HashKind::Identity,
        6 => HashKind::Constant,
        7 => HashKind::LowBits(3),
        8 => HashKind::HighBits(5),
        _ => HashKind::Good(7),
    };
    c.listener = rng.chance(1, 2);
    c.async_listener = rng.chance(1, 2);
    c.inval = rng.chance(1, 3);
    c.lru = rng.chance(1, 2);
    c.initial = if rng.chance(1, 5) {
        Some(*rng.pick(&[0usize, 1, 10, 1000]))
    } else {
        None
    };
    let mut ttl = rng.chance(1, 4);
    let mut tti = rng.chance(1, 4);
    let mut expiry = has_exp;
    let mut bounded = rng.chance(2, 5);
    c.weigher = rng.chance(1, 3);
    match prop {
        "C02" => {
            if rng.chance(1, 2) {
                ttl = false;
                tti = false;
                expiry = false;
                bounded = false;
            }
        }
        "C03" => {
            expiry = rng.chance(1, 8);
            bounded = rng.chance(1, 5);
            match rng.below(3) {
                0 => {
                    ttl = true;
                    tti = false
                }
                1 => {
                    ttl = false;
                    tti = true
                }
                _ => {
                    ttl = true;
                    tti = true
                }
            }
        }
        "C04" => {
            expiry = true;
            bounded = rng.chance(1, 5);
        }
        "C05" => {
            c.inval = rng.chance(4, 5);
            bounded = rng.chance(1, 6);
        }
        "C06" => bounded = true,
        "C08" => c.listener = true,
        "C20" => {
            bounded = rng.chance(2, 3);
            c.weigher = rng.chance(2, 3);
            ttl = rng.chance(1, 3);
            tti = rng.chance(1, 3);
            expiry = rng.chance(1, 3);
            c.initial = *rng.pick(&[None, Some(0), Some(1), Some(63), Some(64), Some(100_000)]);
            if c.kind_is_seg() && rng.chance(1, 3) {
                c.kind = Kind::Seg(*rng.pick(&[63, 65, 200]));
            }
        }
        _ => {}
    }
    let mut nkeys = *rng.pick(&[1u32, 2, 4, 8, 16, 32, 64, 200]);
    if rng.chance(
        1,
        if matches!(prop, "C05" | "C09" | "C13" | "C15" | "C16") {
            8
        } else {
            30
        },
    ) {
        // More entries than one eviction batch.
        nkeys = rng.range(390, 1600) as u32;
        if matches!(c.hash, HashKind::Constant | HashKind::LowBits(_)) {
            c.hash = HashKind::HighBits(5);
        }
        if prop == "C15" && rng.chance(2, 3) {
            // For predicate scans under way while entries go.
            c.inval = true;
            bounded = false;
            (ttl, tti, expiry) = (false, false, false);
            if c.kind_is_seg() {
                c.kind = Kind::Sync;
            }
        }
    }
    if bounded {
        let scale = if c.weigher { 4 } else { 1 };
        c.cap = Some(match rng.below(8) {
            0 => 1,
            1 => 2,
            2 => 1_000_000,
            _ => (nkeys as u64 * scale * rng.range(1, 12) / 8).max(1),
        });
    }
    if prop == "C20" && bounded {
        let m = u32::MAX as u64;
        c.cap = Some(*rng.pick(&[
            1,
            2,
            m - 1,
            m,
            m + 1,
            m + 2,
            2 * m,
            2 * m + 3,
            5 * m,
            1 << 53,
            (1 << 53) + 1,
            u64::MAX / 2,
            u64::MAX - 1,
            u64::MAX,
        ]));
        if matches!(c.kind, Kind::Seg(_)) && c.cap.unwrap() > 1 << 53 {
            // (The rounding per segment is not judged.)
            c.cap = Some(u64::MAX / 2 + 1);
        }
    }
    let unit = |rng: &mut Rng, exp: bool| {
        if prop == "C20" && rng.chance(3, 4) {
            let year = 365 * 86_400u64;
            return match rng.below(8) {
                0 => Duration::ZERO,
                1 => Duration::from_nanos(if exp { U } else { 1 }),
                2 => Duration::from_secs(1000 * year),
                3 => Duration::from_secs(999 * year),
                4 => Duration::from_secs(600 * year),
                5 => Duration::from_nanos(u64::MAX / U * U),
                6 => Duration::from_secs(100 * year),
                _ => Duration::from_secs(year),
            };
        }
        let n = match rng.below(6) {
            0 => rng.range(1, 20),
            1 => rng.range(1, 100) * 1000,
            2 => rng.range(1, 1000) * 1_000_000,
            3 => rng.range(1, 100) * SEC,
            4 => rng.range(1, 48) * 3600 * SEC,
            _ => rng.range(100, 500) * 1_000_000,
        };
        let n = if exp { n.div_ceil(U) * U } else { n };
        Duration::from_nanos(n)
    };
    if ttl {
        c.ttl = Some(unit(rng, expiry));
    }
    if tti {
        c.tti = Some(unit(rng, expiry));
    }
    c.expiry = expiry;
    (c, nkeys)
}

impl Case {
    pub fn new(cfg: Cfg, nkeys: u32, mut rng: Rng, focus: &'static str) -> Self {
        let tracker = Tracker::new();
        set_tracker(Some(Arc::clone(&tracker)));
        let clock = MockClock::new();
        let events: Arc<Mutex<Vec<Ev>>> = Arc::default();
        let token = Arc::new(());
        let mut hooks = Hooks::default();
        {
            let ev = Arc::clone(&events);
            let tok = Arc::clone(&token);
            hooks.listener = Some(Arc::new(move |k, v, cause| {
                let _ = &tok;
                ev.lock().unwrap().push(Ev {
                    key: k.k(),
                    id: v.id(),
                    vkey: v.key(),
                    cause,
                    intact: k.intact() && v.intact(),
                });
            }));
        }
        let mut hooks_log = None;
        if cfg.expiry {
            let e = Arc::new(RecExpiry {
                st: Mutex::new((Rng::new(rng.next()), Vec::new())),
                style: if focus == "C20" && rng.chance(2, 3) {
                    9
                } else {
                    rng.below(5)
                },
                forced: Mutex::default(),
                _token: Arc::clone(&token),
            });
            hooks.expiry = Some(e.clone());
            hooks_log = Some(e);
        }
        if cfg.async_listener {
            let seed = rng.next();
            let n = std::sync::atomic::AtomicU64::new(0);
            hooks.listener_suspend = Some(Arc::new(move || {
                let i = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                (mix(seed ^ i) % 4).saturating_sub(1) as u32
            }));
        }
        let (cap_eff, nseg) = match (cfg.cap, cfg.kind) {
            (Some(0), _) => unreachable!("zero capacity"),
            (Some(c), Kind::Seg(n)) => {
                let n = n.next_power_of_two() as u64;
                (Some(c.div_ceil(n)), n)
            }
            (c, Kind::Seg(n)) => (c, n.next_power_of_two() as u64),
            (c, _) => (c, 1),
        };
        let api = build(&cfg, &hooks, Some(&clock));
        drop(hooks);
        let s = if cfg.expiry { U } else { 1 };
        let max_weight = *rng.pick(&[1u32, 3, 8, 100]);
        Case {
            cfg,
            apis: vec![Some(api)],
            cur: 0,
            clock,
            tracker,
            rng,
            model: BTreeMap::new(),
            departed: Vec::new(),
            weaks: HashMap::new(),
            events,
            hooks_log,
            token,
            nkeys,
            churns: 0,
            step: 0,
            overflow_step: 0,
            used_inval: false,
            inval_since_settle: false,
            shrunk: false,
            stored_at_settle: BTreeSet::new(),
            written_since: BTreeSet::new(),
            cap_eff,
            nseg,
            log: Vec::new(),
            st: BTreeMap::new(),
            s,
            focus,
            ops_since_maint: 0,
            max_weight,
        }
    }

    fn c(&self) -> &dyn Api {
        &**self.apis[self.cur].as_ref().unwrap()
    }
    fn now(&self) -> u64 {
        self.clock.elapsed().as_nanos() as u64
    }
    fn hit(&mut self, k: &'static str) {
        *self.st.entry(k).or_default() += 1;
    }
    fn ttl_exp(&self, e: &ME, now: u64) -> bool {
        self.cfg.ttl.is_some_and(|d| plus(e.lm, d) <= now)
    }
    fn tti_exp(&self, e: &ME, now: u64) -> bool {
        self.cfg.tti.is_some_and(|d| plus(e.la, d) <= now)
    }
    fn pe_exp(&self, e: &ME, now: u64) -> bool {
        e.exp.is_some_and(|x| x <= now)
    }
    fn expired(&self, e: &ME, now: u64) -> bool {
        self.ttl_exp(e, now) || self.tti_exp(e, now) || self.pe_exp(e, now)
    }
    fn live(&self, e: &ME) -> bool {
        let now = self.now();
        !e.inv_all && !e.inv_pred && !self.expired(e, now)
    }
    fn live_of(&self, k: u32) -> Option<ME> {
        self.model.get(&k).filter(|e| self.live(e)).cloned()
    }
    fn hidden_tags(&self, e: &ME) -> Vec<&'static str> {
        let now = self.now();
        let mut t = vec![];
        if self.ttl_exp(e, now) || self.tti_exp(e, now) {
            t.push("C03");
        }
        if self.pe_exp(e, now) {
            t.push("C04");
        }
        if e.inv_all || e.inv_pred {
            t.push("C05");
        }
        if self.cfg.kind_is_seg() {
            t.push("C19");
        }
        t
    }
    fn lost_tags(&self) -> Vec<&'static str> {
        let mut t = vec![];
        let c = &self.cfg;
        if c.ttl.is_some() || c.tti.is_some() {
            t.push("C03");
        }
        if c.expiry {
            t.push("C04");
        }
        if self.used_inval {
            t.push("C05");
        }
        if c.cap.is_some() {
            t.push("C06");
        }
        if t.is_empty() {
            t.push("C02");
        }
        if c.kind_is_seg() {
            t.push("C19");
        }
        t
    }
    /// Whether a size eviction of `e` would be legal.
    fn may_evict(&self, e: &ME) -> bool {
        self.cap_eff.is_some() && e.step <= self.overflow_step
    }

    fn mk(&mut self, k: u32) -> Val {
        let w = if self.cfg.weigher {
            let cap = self.cfg.cap.unwrap_or(1000);
            match self.rng.below(40) {
                0 => 0,
                1 => (cap.min(u32::MAX as u64 - 1) + 1) as u32,
                2 => cap.min(u32::MAX as u64) as u32,
                3 if self.focus == "C06" || self.focus == "C09" => u32::MAX,
                4..=20 if self.focus == "C20" => u32::MAX - (self.rng.below(3) as u32),
                _ => self.rng.below(self.max_weight as u64 + 1) as u32,
            }
        } else {
            1
        };
        let tag = self.rng.below(64) as u32;
        let v = Val::new(&self.tracker, k, w, tag);
        self.weaks.insert(v.id(), v.weak());
        v
    }
    fn karg(&mut self, kq: &'static Kq) -> KeyArg<'static> {
        if self.rng.chance(1, 2) {
            KeyArg::Owned(Key::new(kq.0, &self.tracker))
        } else {
            KeyArg::Ref(kq)
        }
    }

    //
    // Effects on the model.
    //

    /// Checks what an operation saw as the current value of `k`.
    fn seen(&mut self, k: u32, seen: Option<u64>, by: &str) -> R {
        let m = self.model.get(&k).cloned();
        match (seen, m) {
            (Some(id), Some(e)) if e.id == id => {
                if self.live(&e) {
                    Ok(())
                } else {
                    let mut t = self.hidden_tags(&e);
                    if t.is_empty() {
                        t.push("C02");
                    }
                    viol(
                        &t,
                        format!("{by} of key {k} served value v{id}, which is hidden: {e:?}"),
                    )
                }
            }
            (Some(id), m) => {
                let mut t = vec!["C02", "C01"];
                if self.cfg.kind_is_seg() {
                    t.push("C19");
                }
                if self.cfg.cap.is_some() || self.cfg.listener {
                    t.push("C08");
                }
                viol(
                    &t,
                    format!("{by} of key {k} served v{id}, but the latest value is {m:?} (none if departed)"),
                )
            }
            (None, Some(e)) if self.live(&e) => {
                if !self.cfg.listener && self.may_evict(&e) {
                    self.model.remove(&k);
                    self.hit("evicted_seen");
                    Ok(())
                } else {
                    viol(
                        &self.lost_tags(),
                        format!("{by} of key {k} found nothing, but live value {e:?} was never removed, expired or legally evicted"),
                    )
                }
            }
            (None, Some(_)) => {
                self.hit("hidden_reads");
                Ok(())
            }
            (None, None) => Ok(()),
        }
    }

    fn take_hooks(&mut self) -> Vec<HCall> {
        match &self.hooks_log {
            Some(h) => std::mem::take(&mut h.st.lock().unwrap().1),
            None => vec![],
        }
    }

    fn remaining(&self, e: &ME, lm: u64, la: u64, now: u64) -> Option<u64> {
        let mut m = e.exp;
        let mut add = |x: Option<u64>| {
            if let Some(x) = x {
                m = Some(m.map_or(x, |y: u64| y.min(x)));
            }
        };
        add(self.cfg.ttl.map(|d| plus(lm, d)));
        add(self.cfg.tti.map(|d| plus(la, d)));
        m.and_then(|x| x.checked_sub(now))
    }

    /// Applies the reads and the write of one operation on `k` to the model, checking
    /// the expiry hooks that were called.
    fn touch(&mut self, k: u32, read: bool, write: Option<&Val>, by: &str) -> R {
        let now = self.now();
        let mut calls = self.take_hooks().into_iter();
        let std_now = self.clock.to_std(d2(now));
        if read {
            let e = self
                .model
                .get(&k)
                .cloned()
                .expect("read of a missing entry");
            if self.cfg.expiry {
                let cur = self.remaining(&e, e.lm, e.la, now);
                match calls.next() {
                    Some(h)
                        if h.kind == HK::Read
                            && h.key == k
                            && h.id == e.id
                            && h.at == std_now
                            && h.cur == cur.map(d2)
                            && h.lm == Some(self.clock.to_std(d2(e.lm))) =>
                    {
                        self.hit("expiry_read");
                        let e = self.model.get_mut(&k).unwrap();
                        if h.ret != h.cur {
                            e.exp = h.ret.map(|d| deadline(now, d));
                        } else if h.ret.is_none() && e.exp.is_some() {
                            e.exp = None;
                        }
                    }
                    h => {
                        return viol(
                            &["C04"],
                            format!("{by} read {e:?} of key {k} with {cur:?} ns left at {now}; the read hook call was {h:?}"),
                        )
                    }
                }
            }
            let e = self.model.get_mut(&k).unwrap();
            e.la = now;
        }
        if let Some(v) = write {
            let old = self.model.remove(&k);
            let was_live = old.as_ref().is_some_and(|e| self.live(e));
            let mut exp = None;
            if self.cfg.expiry {
                let h = calls.next();
                let Some(h) = h else {
                    return viol(&["C04"], format!("{by} wrote {v:?} to key {k} (old {old:?}) but no expiry hook was called"));
                };
                let base_ok = h.key == k && h.id == v.id() && h.at == std_now;
                let kind_ok = if was_live {
                    let o = old.as_ref().unwrap();
                    let cur = self.remaining(o, now, now, now);
                    // Without a listener, the live old value may have been evicted.
                    (h.kind == HK::Update && h.cur == cur.map(d2))
                        || (h.kind == HK::Create && self.may_evict(o))
                } else if old.is_some() {
                    matches!(h.kind, HK::Create | HK::Update)
                } else {
                    h.kind == HK::Create
                };
                if !(base_ok && kind_ok) {
                    return viol(
                        &["C04"],
                        format!("{by} wrote {v:?} to key {k} over {old:?} at {now}; the hook call was {h:?}"),
                    );
                }
                let abs = h.ret.map(|d| deadline(now, d));
                exp = match h.kind {
                    HK::Create => {
                        self.hit("expiry_create");
                        abs
                    }
                    _ => {
                        self.hit("expiry_update");
                        let oe = old.as_ref().and_then(|o| o.exp);
                        if h.ret != h.cur {
                            abs
                        } else if h.ret.is_none() {
                            None
                        } else {
                            oe
                        }
                    }
                };
            }
            self.model.insert(
                k,
                ME {
                    id: v.id(),
                    w: if self.cfg.weigher { v.weight() } else { 1 },
                    tag: v.tag(),
                    lm: now,
                    la: now,
                    exp,
                    inv_all: false,
                    inv_pred: false,
                    kept: None,
                    step: self.step,
                },
            );
            self.written_since.insert(k);
            if let Some(o) = old {
                self.departed.push((k, o, Dep::Write));
                self.hit("overwrites");
            }
            self.note_overflow();
        }
        if let Some(h) = calls.next() {
            return viol(
                &["C04"],
                format!("{by} of key {k} called an expiry hook too often: {h:?}"),
            );
        }
        Ok(())
    }

    fn note_overflow(&mut self) {
        if let Some(cap) = self.cap_eff {
            let sum: u64 = self.model.values().map(|e| e.w as u64).sum();
            if sum > cap {
                self.overflow_step = self.step;
                self.hit("overflows");
            }
        }
    }

    fn depart(&mut self, k: u32) -> Option<ME> {
        let e = self.model.remove(&k)?;
        self.departed.push((k, e.clone(), Dep::Remove));
        self.shrunk = true;
        Some(e)
    }

    /// Handles the listener calls of one operation.
    fn drain(&mut self, by: &str) -> R {
        let evs = std::mem::take(&mut *self.events.lock().unwrap());
        let departed = std::mem::take(&mut self.departed);
        if !self.cfg.listener {
            return Ok(());
        }
        let now = self.now();
        let mut departed: Vec<Option<(u32, ME, Dep)>> = departed.into_iter().map(Some).collect();
        for ev in evs {
            if let Some(l) = self.log.last_mut() {
                let _ = write!(l, " [{:?} k{} v{}]", ev.cause, ev.key, ev.id);
            }
            if !ev.intact {
                return viol(
                    &["C15", "C16"],
                    format!("the listener got a dropped key or value: {ev:?}"),
                );
            }
            let pos = departed.iter().position(|d| {
                d.as_ref()
                    .is_some_and(|(k, e, _)| *k == ev.key && e.id == ev.id)
            });
            let (e, dep) = if let Some(i) = pos {
                let (_, e, dep) = departed[i].take().unwrap();
                (e, Some(dep))
            } else {
                match self.model.get(&ev.key) {
                    Some(e) if e.id == ev.id => {
                        let e = self.model.remove(&ev.key).unwrap();
                        (e, None)
                    }
                    m => {
                        let mut t = vec!["C08"];
                        if self.cfg.kind_is_seg() {
                            t.push("C19");
                        }
                        return viol(
                            &t,
                            format!("{by}: the listener got {ev:?}, but that value is not stored (notified twice, or never stored); stored: {m:?}"),
                        );
                    }
                }
            };
            if ev.vkey != ev.key {
                return viol(
                    &["C08", "C02"],
                    format!("{by}: the listener got the value of another key: {ev:?}"),
                );
            }
            let ttl = self.ttl_exp(&e, now) || self.tti_exp(&e, now);
            let pe = self.pe_exp(&e, now);
            use RemovalCause::*;
            let legit = match ev.cause {
                Expired => ttl || pe,
                Size => self.may_evict(&e),
                Explicit => e.inv_all || e.inv_pred || dep == Some(Dep::Remove),
                Replaced => dep == Some(Dep::Write) && !ttl && !e.inv_all,
            };
            if !legit {
                let mut t = vec!["C08"];
                if dep.is_none() {
                    // Something that should have stayed was removed.
                    match ev.cause {
                        Size => t.push("C06"),
                        Expired => t.extend(["C03", "C04"]),
                        Explicit => t.push("C05"),
                        Replaced => {}
                    }
                }
                return viol(
                    &t,
                    format!("{by}: untruthful removal notification {ev:?} (during {dep:?}) for {e:?} at {now}, cap {:?}", self.cap_eff),
                );
            }
            match ev.cause {
                Expired => self.hit("ev_expired"),
                Size => self.hit("ev_size"),
                Explicit => self.hit("ev_explicit"),
                Replaced => self.hit("ev_replaced"),
            }
            if dep.is_none() && ev.cause != Size {
                self.shrunk = true;
            }
            if ev.cause == Size {
                self.hit("size_evictions");
            }
        }
        if let Some((k, e, d)) = departed.into_iter().flatten().next() {
            let mut t = vec!["C08"];
            if self.cfg.kind_is_seg() {
                t.push("C19");
            }
            return viol(
                &t,
                format!(
                    "{by}: {e:?} of key {k} left the cache ({d:?}) but the listener was not called"
                ),
            );
        }
        Ok(())
    }

    //
    // Operations.
    //

    fn key(&mut self) -> u32 {
        self.rng.below(self.nkeys as u64) as u32
    }

    fn adv(&mut self, n: u64) {
        if n > 0 && (self.cfg.ttl.is_some() || self.cfg.tti.is_some() || self.cfg.expiry) {
            self.shrunk = true;
        }
        self.clock.advance(d2(n));
    }

    fn check_val(&mut self, k: u32, v: &Val, by: &str) -> R {
        if !v.intact() {
            return viol(
                &["C15", "C16"],
                format!("{by} of key {k} returned a dropped value"),
            );
        }
        if v.key() != k {
            return viol(
                &["C02", "C01"],
                format!("{by} of key {k} returned {v:?} of key {}", v.key()),
            );
        }
        Ok(())
    }

    fn check_ent(&mut self, k: u32, e: &Ent, fresh: bool, replaced: Option<bool>, by: &str) -> R {
        let (kk, f, r) = (e.key().k(), e.is_fresh(), e.is_old_value_replaced());
        let v = e.value().clone();
        self.check_val(k, &v, by)?;
        if kk != k || f != fresh || replaced.is_some_and(|x| x != r) {
            return viol(
                &["C02"],
                format!("{by} of key {k} returned an entry with key {kk}, fresh={f} (expected {fresh}), replaced={r} (expected {replaced:?})"),
            );
        }
        Ok(())
    }

    fn op_get(&mut self, k: u32) -> R {
        let r = self.c().get(&Kq(k));
        if let Some(v) = &r {
            self.check_val(k, v, "get")?;
        }
        let id = r.as_ref().map(Val::id);
        let _ = write!(self.log.last_mut().unwrap(), " -> {id:?}");
        drop(r);
        self.seen(k, id, "get")?;
        self.touch(k, id.is_some(), None, "get")?;
        self.hit(if id.is_some() { "hits" } else { "misses" });
        Ok(())
    }

    fn op_contains(&mut self, k: u32) -> R {
        let r = self.c().contains(&Kq(k));
        let _ = write!(self.log.last_mut().unwrap(), " -> {r}");
        let id = if r {
            Some(self.model.get(&k).map_or(0, |e| e.id))
        } else {
            None
        };
        self.seen(k, id, "contains_key")?;
        self.touch(k, false, None, "contains_key")
    }

    fn op_insert(&mut self, k: u32) -> R {
        let v = self.mk(k);
        let _ = write!(self.log.last_mut().unwrap(), " v{} w{}", v.id(), v.weight());
        self.c().insert(Key::new(k, &self.tracker), v.clone());
        self.hit("inserts");
        self.touch(k, false, Some(&v), "insert")
    }

    fn op_remove(&mut self, k: u32, want: bool) -> R {
        let by = if want { "remove" } else { "invalidate" };
        let r = if want {
            self.c().remove(&Kq(k))
        } else {
            self.c().invalidate(&Kq(k));
            None
        };
        let id = r.as_ref().map(Val::id);
        let _ = write!(self.log.last_mut().unwrap(), " -> {id:?}");
        if let Some(v) = &r {
            self.check_val(k, v, by)?;
        }
        drop(r);
        if want {
            match (id, self.model.get(&k).cloned()) {
                // A hidden value may still be handed out to the one who removes it.
                (Some(i), Some(e)) if i == e.id => {}
                (Some(_), _) => self.seen(k, id, by)?,
                (None, Some(e)) if self.live(&e) => self.seen(k, None, by)?,
                (None, _) => {}
            }
        }
        self.hit("removes");
        self.depart(k);
        self.touch(k, false, None, by)
    }

    /// get_with, optionally_get_with, try_get_with, or_insert*: `how`.
    fn op_init(&mut self, k: u32, how: u64) -> R {
        let kq: &'static Kq = leak_kq(k);
        let v = self.mk(k);
        let arg = self.karg(kq);
        let fail = self.rng.chance(1, 4);
        let rep_mod = self.rng.below(3) as u32;
        let mut calls = 0u32;
        let vv = v.clone();
        let mut reps: Vec<(u64, bool)> = vec![];
        // (returned value or none/error, entry flags)
        let mut ent: Option<Ent> = None;
        let mut out: Option<Val> = None;
        let mut failed = false;
        let name;
        let c = self.c();
        let mut has_rep = false;
        let mut can_fail = false;
        match how {
            0 => {
                name = "get_with";
                out = Some(c.get_with(arg, &mut || {
                    calls += 1;
                    vv.clone()
                }));
            }
            1 => {
                name = "optionally_get_with";
                can_fail = true;
                out = c.opt_get_with(arg, &mut || {
                    calls += 1;
                    if fail {
                        None
                    } else {
                        Some(vv.clone())
                    }
                });
                failed = out.is_none();
            }
            2 => {
                name = "try_get_with";
                can_fail = true;
                let r = c.try_get_with(arg, &mut || {
                    calls += 1;
                    if fail {
                        Err(MyErr(vv.id()))
                    } else {
                        Ok(vv.clone())
                    }
                });
                match r {
                    Ok(x) => out = Some(x),
                    Err(e) => {
                        failed = true;
                        if *e != MyErr(v.id()) {
                            return viol(
                                &["C11", "C02"],
                                format!("{name} returned a foreign error {e:?}"),
                            );
                        }
                    }
                }
            }
            3 => {
                name = "or_insert";
                ent = Some(c.or_insert(arg, vv.clone()));
            }
            4 => {
                name = "or_default";
                set_default_val(Some(vv.clone()));
                ent = Some(c.or_default(arg));
                take_default_val();
            }
            5 => {
                name = "or_insert_with";
                ent = Some(c.or_insert_with(arg, &mut || {
                    calls += 1;
                    vv.clone()
                }));
            }
            6 | 7 => {
                has_rep = true;
                let mut rep = |x: &Val| {
                    let r = x.tag() % 3 == rep_mod;
                    reps.push((x.id(), r));
                    r
                };
                let mut init = || {
                    calls += 1;
                    vv.clone()
                };
                if how == 6 {
                    name = "or_insert_with_if";
                    ent = Some(c.or_insert_with_if(arg, &mut init, &mut rep));
                } else {
                    name = "get_with_if";
                    let key = match arg {
                        KeyArg::Owned(k) => k,
                        KeyArg::Ref(q) => Key::new(q.0, &self.tracker),
                    };
                    out = Some(c.get_with_if(key, &mut init, &mut rep));
                }
            }
            8 => {
                name = "or_optionally_insert_with";
                can_fail = true;
                ent = c.or_opt(arg, &mut || {
                    calls += 1;
                    if fail {
                        None
                    } else {
                        Some(vv.clone())
                    }
                });
                failed = ent.is_none();
            }
            _ => {
                name = "or_try_insert_with";
                can_fail = true;
                let r = c.or_try(arg, &mut || {
                    calls += 1;
                    if fail {
                        Err(MyErr(vv.id()))
                    } else {
                        Ok(vv.clone())
                    }
                });
                match r {
                    Ok(x) => ent = Some(x),
                    Err(e) => {
                        failed = true;
                        if *e != MyErr(v.id()) {
                            return viol(
                                &["C11", "C02"],
                                format!("{name} returned a foreign error {e:?}"),
                            );
                        }
                    }
                }
            }
        }
        drop(vv);
        self.hit("inits");
        let rid = out
            .as_ref()
            .map(Val::id)
            .or(ent.as_ref().map(|e| e.value().id()));
        let _ = write!(
            self.log.last_mut().unwrap(),
            " {name} init=v{} w{} -> {rid:?} init ran {calls}",
            v.id(),
            v.weight()
        );
        let live = self.live_of(k);
        let inserted = rid == Some(v.id());
        if how == 3 || how == 4 {
            calls = (inserted) as u32;
        }
        if calls > 1 || (calls == 0 && (inserted || failed)) || (calls == 1 && !inserted && !failed)
        {
            return viol(
                &["C02", "C10"],
                format!("{name} of key {k} returned {rid:?} (failed={failed}) after running its initialiser {calls} times"),
            );
        }
        if failed && !(can_fail && fail) {
            return viol(
                &["C02", "C11"],
                format!("{name} of key {k} failed although its initialiser did not"),
            );
        }
        for (id, _) in &reps {
            if live.as_ref().map(|e| e.id) != Some(*id) {
                let m = self.model.get(&k).cloned();
                let mut t = vec!["C02"];
                if let Some(e) = m.as_ref().filter(|e| e.id == *id) {
                    t.extend(self.hidden_tags(e));
                }
                return viol(&t, format!("{name} of key {k} asked about v{id}, which is not the live value; stored: {m:?}"));
            }
        }
        let replaced_live = has_rep && live.as_ref().is_some_and(|e| e.tag % 3 == rep_mod);
        if let Some(e) = &ent {
            let repl = match &live {
                Some(l) if inserted && replaced_live && self.may_evict(l) => None,
                _ => Some(inserted && replaced_live),
            };
            self.check_ent(k, e, inserted, repl, name)?;
        }
        if let Some(v) = &out {
            let v = v.clone();
            self.check_val(k, &v, name)?;
        }
        drop((out, ent));
        if inserted {
            if replaced_live {
                self.hit("replaced_if");
            } else {
                self.seen(k, None, name)?;
            }
            self.touch(k, false, Some(&v), name)
        } else if failed {
            self.hit("init_failed");
            self.seen(k, None, name)?;
            self.touch(k, false, None, name)
        } else {
            if replaced_live {
                return viol(&["C02"], format!("{name} of key {k} kept {rid:?}, which the replace_if closure asked to replace"));
            }
            self.seen(k, rid, name)?;
            self.touch(k, true, None, name)
        }
    }

    fn op_compute(&mut self, k: u32, how: u64) -> R {
        let kq: &'static Kq = leak_kq(k);
        let v = self.mk(k);
        let arg = self.karg(kq);
        let act = self.rng.below(4); // 0 nop, 1 put, 2 remove, 3 err (try only)
        let act = if how < 2 && act == 3 { 1 } else { act };
        let mut calls = 0;
        let mut saw: Option<u64> = None;
        let mut saw_bad = None;
        let vv = v.clone();
        let mut body = |e: Option<Ent>| {
            calls += 1;
            if let Some(e) = &e {
                saw = Some(e.value().id());
                if e.key().k() != k
                    || e.value().key() != k
                    || e.is_fresh()
                    || e.is_old_value_replaced()
                {
                    saw_bad = Some(format!("{:?} fresh={} ", e.key(), e.is_fresh()));
                }
            }
        };
        let c = self.c();
        let mut res: Option<Result<Comp, MyErr>> = None;
        let mut up: Option<Ent> = None;
        let name;
        match how {
            0 => {
                name = "and_upsert_with";
                up = Some(c.upsert(arg, &mut |e| {
                    body(e);
                    vv.clone()
                }));
            }
            1 => {
                name = "and_compute_with";
                res = Some(Ok(c.compute(arg, &mut |e| {
                    body(e);
                    match act {
                        0 => VOp::Nop,
                        1 => VOp::Put(vv.clone()),
                        _ => VOp::Remove,
                    }
                })));
            }
            _ => {
                let mut f = |e: Option<Ent>| {
                    body(e);
                    Ok(match act {
                        0 => VOp::Nop,
                        1 => VOp::Put(vv.clone()),
                        2 => VOp::Remove,
                        _ => return Err(MyErr(vv.id())),
                    })
                };
                if how == 2 {
                    name = "and_try_compute_with";
                    res = Some(c.try_compute(arg, &mut f));
                } else {
                    name = "and_try_compute_if_nobody_else";
                    res = Some(c.try_compute_nobody(arg, &mut f));
                }
            }
        }
        drop(vv);
        self.hit("computes");
        let put = how == 0 || act == 1;
        let _ = write!(
            self.log.last_mut().unwrap(),
            " {name} act={act} v{} w{} saw {saw:?} -> {}",
            v.id(),
            v.weight(),
            res.as_ref().map_or("entry".into(), |r| match r {
                Ok(c) => comp_name(c).to_string(),
                Err(e) => format!("{e:?}"),
            })
        );
        if calls != 1 {
            return viol(
                &["C12", "C02"],
                format!("{name} of key {k} ran its closure {calls} times"),
            );
        }
        if let Some(b) = saw_bad {
            return viol(
                &["C12", "C02"],
                format!("{name} of key {k} passed a wrong entry {b}"),
            );
        }
        self.seen(k, saw, name)?;
        // The result must describe the transition.
        let stored = self.model.get(&k).cloned();
        let ok = match (&up, &res) {
            (Some(e), _) => {
                e.key().k() == k
                    && e.value().id() == v.id()
                    && e.is_fresh()
                    && e.is_old_value_replaced() == saw.is_some()
            }
            (_, Some(Err(e))) => act == 3 && *e == MyErr(v.id()),
            (_, Some(Ok(c))) => match (act, saw, c) {
                (0, None, CompResult::StillNone(kk)) => kk.k() == k,
                (0, Some(i), CompResult::Unchanged(e)) => {
                    e.value().id() == i && e.key().k() == k && !e.is_fresh()
                }
                (1, None, CompResult::Inserted(e)) => {
                    e.value().id() == v.id() && e.key().k() == k && e.is_fresh()
                }
                (1, Some(_), CompResult::ReplacedWith(e)) => {
                    e.value().id() == v.id() && e.key().k() == k && e.is_fresh()
                }
                (2, None, CompResult::StillNone(kk)) => kk.k() == k,
                (2, Some(i), CompResult::Removed(e)) => e.value().id() == i && e.key().k() == k,
                // The maintenance that the read may trigger removed it in between.
                (2, Some(_), CompResult::StillNone(kk)) => {
                    kk.k() == k
                        && (self.cfg.expiry || stored.as_ref().is_some_and(|m| self.may_evict(m)))
                }
                // A hidden value that was still stored.
                (2, None, CompResult::Removed(e)) => {
                    stored.as_ref().is_some_and(|m| m.id == e.value().id())
                }
                _ => false,
            },
            _ => false,
        };
        if !ok {
            return viol(
                &["C12", "C02"],
                format!("{name} of key {k} with action {act} saw {saw:?} and returned a wrong outcome: {:?} / {:?}", up.map(|e| (e.value().id(), e.is_fresh(), e.is_old_value_replaced())), res.map(|r| r.map(|c| comp_name(&c)))),
            );
        }
        drop((up, res));
        let wrote = put && act != 3 || how == 0;
        if act == 2 && how != 0 {
            self.touch(k, saw.is_some(), None, name)?;
            self.depart(k);
            Ok(())
        } else {
            self.touch(k, saw.is_some(), if wrote { Some(&v) } else { None }, name)
        }
    }

    /// An operation whose closure panics.
    fn op_panic(&mut self, k: u32) -> R {
        let key = Key::new(k, &self.tracker);
        let how = self.rng.below(5);
        let mut ran = false;
        let mut saw = None;
        let r = {
            let c = self.c();
            catch_unwind(AssertUnwindSafe(|| match how {
                0 => drop(c.get_with(KeyArg::Owned(key), &mut || {
                    ran = true;
                    std::panic::panic_any(Expected(1))
                })),
                1 => drop(c.opt_get_with(KeyArg::Owned(key), &mut || {
                    ran = true;
                    std::panic::panic_any(Expected(1))
                })),
                2 => drop(c.try_get_with(KeyArg::Owned(key), &mut || {
                    ran = true;
                    std::panic::panic_any(Expected(1))
                })),
                3 => drop(c.compute(KeyArg::Owned(key), &mut |e| {
                    ran = true;
                    saw = e.map(|e| e.value().id());
                    std::panic::panic_any(Expected(1))
                })),
                _ => drop(c.upsert(KeyArg::Owned(key), &mut |e| {
                    ran = true;
                    saw = e.map(|e| e.value().id());
                    std::panic::panic_any(Expected(1))
                })),
            }))
        };
        let _ = write!(self.log.last_mut().unwrap(), " how={how} ran={ran}");
        match r {
            Err(p) if p.is::<Expected>() && ran => {}
            Err(p) => std::panic::resume_unwind(p),
            Ok(()) if ran => {
                return viol(
                    &["C11", "C12"],
                    format!("the panic of a closure (kind {how}) on key {k} vanished"),
                )
            }
            Ok(()) => {}
        }
        self.hit("panics");
        if how < 3 {
            if ran {
                self.seen(k, None, "get_with (panicking)")?;
                self.touch(k, false, None, "get_with (panicking)")
            } else {
                let id = self.model.get(&k).map(|e| e.id);
                self.seen(k, id, "get_with (not panicking)")?;
                self.touch(k, true, None, "get_with (not panicking)")
            }
        } else {
            self.seen(k, saw, "compute (panicking)")?;
            self.touch(k, saw.is_some(), None, "compute (panicking)")
        }
    }

    fn op_inv_all(&mut self) -> R {
        let s = self.s;
        self.adv(s);
        self.c().invalidate_all();
        self.adv(s);
        self.used_inval = true;
        self.inval_since_settle = true;
        self.shrunk = true;
        self.hit("invalidate_all");
        for e in self.model.values_mut() {
            e.inv_all = true;
        }
        let c = self.take_hooks();
        if !c.is_empty() {
            return viol(&["C04"], "invalidate_all called an expiry hook");
        }
        Ok(())
    }

    /// One predicate, or many pending at once.
    fn op_inv_if(&mut self) -> R {
        if !self.cfg.inval || !self.rng.chance(1, if self.focus == "C05" { 6 } else { 24 }) {
            return self.inv_one(6);
        }
        self.hit("predicate_bursts");
        let n = if self.rng.chance(1, 6) {
            self.rng.range(30, 150)
        } else {
            self.rng.range(2, 12)
        };
        let wide = *self.rng.pick(&[6, 40, 300]);
        let between = self.rng.below(4);
        for _ in 0..n {
            self.step += 1;
            self.log.push("  predicate".into());
            self.inv_one(wide)?;
            self.drain("invalidate_if")?;
            for _ in 0..self.rng.below(between + 1) {
                self.step += 1;
                let k = self.key();
                let ins = self.rng.chance(1, 2);
                self.log
                    .push(format!("  {} k{k}", if ins { "insert" } else { "get" }));
                if ins {
                    self.op_insert(k)?;
                } else {
                    self.op_get(k)?;
                }
                self.drain("between predicates")?;
            }
        }
        Ok(())
    }

    fn inv_one(&mut self, wide: u64) -> R {
        let s = self.s;
        // A value stored at the very instant of the call was stored before it.
        if self.rng.chance(1, 2) {
            self.adv(s);
        }
        let m = self.rng.range(1, wide) as u32;
        let r = self.rng.below(m as u64) as u32;
        let by_key = self.rng.chance(1, 2);
        let tok = Arc::clone(&self.token);
        let f = move |k: &Key, v: &Val| {
            let _ = &tok;
            if by_key {
                k.k() % m == r
            } else {
                v.tag() % m == r
            }
        };
        let ok = self.c().invalidate_if(Box::new(f));
        let _ = write!(
            self.log.last_mut().unwrap(),
            " {} % {m} == {r} -> {ok}",
            if by_key { "key" } else { "tag" }
        );
        if ok != self.cfg.inval {
            return viol(
                &["C05", "C20"],
                format!(
                    "invalidate_entries_if returned ok={ok}, enabled={}",
                    self.cfg.inval
                ),
            );
        }
        self.adv(s);
        if ok {
            self.used_inval = true;
            self.inval_since_settle = true;
            self.shrunk = true;
            self.hit("invalidate_if");
            for (k, e) in self.model.iter_mut() {
                if if by_key { k % m == r } else { e.tag % m == r } {
                    e.inv_pred = true;
                }
            }
        }
        Ok(())
    }

    fn op_iter(&mut self) -> R {
        let mut got: BTreeMap<u32, u64> = BTreeMap::new();
        for (k, v) in self.c().iter() {
            if k.k() != v.key() || !k.intact() || !v.intact() {
                return viol(
                    &["C13", "C02"],
                    format!("the iterator yielded {k:?} with {v:?} of key {}", v.key()),
                );
            }
            if got.insert(k.k(), v.id()).is_some() {
                return viol(
                    &["C13", "C02", "C19"],
                    format!("the iterator yielded key {k:?} twice"),
                );
            }
        }
        self.hit("iters");
        let _ = write!(self.log.last_mut().unwrap(), " -> {} entries", got.len());
        if self.step % 4 == 0 {
            // What is printed is what is iterated.
            let text = self.c().debug();
            let mut shown: Vec<String> = text
                .trim_matches(|c| c == '{' || c == '}')
                .split(", ")
                .filter(|x| !x.is_empty())
                .map(str::to_string)
                .collect();
            let mut want: Vec<String> = got.iter().map(|(k, id)| format!("k{k}: v{id}")).collect();
            shown.sort();
            want.sort();
            if shown != want {
                return viol(
                    &["C13", "C02", "C19"],
                    format!("the printed form shows {shown:?}, iteration {want:?}"),
                );
            }
            self.hit("printed");
        }
        let keys: BTreeSet<u32> = self
            .model
            .keys()
            .copied()
            .chain(got.keys().copied())
            .collect();
        for k in keys {
            if let Err(mut v) = self.seen(k, got.get(&k).copied(), "iter") {
                v.tags.push("C13");
                return Err(v);
            }
        }
        self.touch(0, false, None, "iter")
    }

    /// Iterates while changing other entries.
    fn op_iter_mix(&mut self) -> R {
        let start: BTreeMap<u32, ME> = self
            .model
            .iter()
            .filter(|(_, e)| self.live(e))
            .map(|(k, e)| (*k, e.clone()))
            .collect();
        let c = self.c().dup();
        let mut it = c.iter();
        // The values each key could have during the iteration.
        let mut touched: HashMap<u32, HashSet<u64>> = HashMap::new();
        let mut got: BTreeMap<u32, u64> = BTreeMap::new();
        let burst = self.rng.below(4);
        loop {
            let take = self.rng.range(1, 6);
            let mut done = false;
            for _ in 0..take {
                match it.next() {
                    None => {
                        done = true;
                        break;
                    }
                    Some((k, v)) => {
                        let (k, id) = (k.k(), v.id());
                        if v.key() != k || !v.intact() {
                            return viol(
                                &["C13"],
                                format!("the iterator yielded key {k} with {v:?}"),
                            );
                        }
                        if got.insert(k, id).is_some() {
                            return viol(&["C13"], format!("the iterator yielded key {k} twice"));
                        }
                        let ok = start.get(&k).is_some_and(|e| e.id == id)
                            || touched.get(&k).is_some_and(|s| s.contains(&id));
                        if !ok {
                            let mut t = vec!["C13"];
                            if self.cfg.ttl.is_some() || self.cfg.tti.is_some() {
                                t.push("C03");
                            }
                            if self.cfg.expiry {
                                t.push("C04");
                            }
                            if self.used_inval {
                                t.push("C05");
                            }
                            return viol(
                                &t,
                                format!("the iterator yielded v{id} for key {k}, which was not live during the iteration"),
                            );
                        }
                        // A key nothing touches must show its current value.
                    }
                }
            }
            if done {
                break;
            }
            for _ in 0..self.rng.below(burst * burst * 8 + 1) {
                let k = self.key();
                self.step += 1;
                let n = self.rng.below(6);
                self.log.push(format!("  (iter) op{n} k{k}"));
                match n {
                    0..=2 => self.op_insert(k)?,
                    3 => self.op_remove(k, true)?,
                    4 => self.op_get(k)?,
                    _ => {
                        self.c().run_pending();
                        self.touch(k, false, None, "run_pending_tasks")?;
                    }
                }
                if let Some(e) = self.model.get(&k) {
                    if n < 3 {
                        touched.entry(k).or_default().insert(e.id);
                    }
                }
                if n <= 3 {
                    touched.entry(k).or_default();
                }
                self.drain("operation during iteration")?;
            }
        }
        drop(it);
        self.hit("iter_mixes");
        for (k, e) in start {
            if touched.contains_key(&k) || got.contains_key(&k) {
                continue;
            }
            let Some(m) = self.model.get(&k).cloned() else {
                continue;
            };
            if m.id != e.id || !self.live(&m) {
                continue;
            }
            if !self.cfg.listener && self.may_evict(&m) {
                continue;
            }
            return viol(
                &["C13"],
                format!("the iterator missed key {k}, which held {e:?} all the time"),
            );
        }
        Ok(())
    }

    fn op_advance(&mut self) {
        let now = self.now();
        let s = self.s;
        let n = match self.rng.below(12) {
            0 | 1 => s,
            2 => s * self.rng.range(1, 50),
            3 => 310_000_000,
            4 => SEC * self.rng.range(1, 5),
            5 => SEC * self.rng.range(1, 4000),
            6 => 3600 * SEC * self.rng.range(1, 100),
            _ => {
                // To, or right before, a deadline.
                let mut ds: Vec<u64> = Vec::new();
                for e in self.model.values() {
                    if let Some(d) = self.cfg.ttl {
                        ds.push(plus(e.lm, d));
                    }
                    if let Some(d) = self.cfg.tti {
                        ds.push(plus(e.la, d));
                    }
                    ds.extend(e.exp);
                }
                ds.retain(|d| *d > now && *d < now + 1000 * 86_400 * SEC);
                if ds.is_empty() {
                    s
                } else {
                    let d = *self.rng.pick(&ds) - now;
                    if self.rng.chance(1, 2) {
                        d
                    } else {
                        d.saturating_sub(s)
                    }
                }
            }
        };
        let n = n.div_ceil(s) * s;
        // Stay away from the end of the clock.
        let year = 365 * 86_400 * SEC;
        if self.focus == "C20" && self.rng.chance(1, 12) && now < 400 * year {
            let n = self.rng.range(1, 120) * year / U * U;
            self.adv(n);
            let t = self.now();
            let _ = write!(self.log.last_mut().unwrap(), " {n} ns -> {t}");
        } else if now < 50 * year || (self.focus == "C20" && now < 500 * year) {
            self.adv(n);
            let t = self.now();
            let _ = write!(self.log.last_mut().unwrap(), " {n} ns -> {t}");
        }
    }

    fn settle(&mut self, deep: bool) -> R {
        let rounds = 5 + self.model.len() / 300;
        for _ in 0..rounds {
            self.c().run_pending();
        }
        self.hit("settles");
        self.touch(0, false, None, "run_pending_tasks")?;
        self.drain("run_pending_tasks")?;
        // What is really there?
        let mut got: BTreeMap<u32, u64> = BTreeMap::new();
        let mut wsum = 0u64;
        for (k, v) in self.c().iter() {
            wsum += if self.cfg.weigher {
                v.weight() as u64
            } else {
                1
            };
            if got.insert(k.k(), v.id()).is_some() {
                return viol(
                    &["C13", "C02", "C19"],
                    format!("the iterator yielded key {k:?} twice"),
                );
            }
        }
        let keys: BTreeSet<u32> = self
            .model
            .keys()
            .copied()
            .chain(got.keys().copied())
            .collect();
        for k in keys {
            self.seen(k, got.get(&k).copied(), "iter")?;
        }
        let (ec, ws) = (self.c().entry_count(), self.c().weighted_size());
        let now = self.now();
        let mut extra_n = 0u64;
        let mut extra_w = 0u64;
        let hidden: Vec<(u32, ME)> = self
            .model
            .iter()
            .filter(|(_, e)| !self.live(e))
            .map(|(k, e)| (*k, e.clone()))
            .collect();
        let mut hid_tags: Vec<&'static str> = vec![];
        let newest = self
            .model
            .values()
            .filter(|e| !self.tti_exp(e, now))
            .map(|e| e.la)
            .max();
        for (k, e) in hidden {
            for t in self.hidden_tags(&e) {
                if !hid_tags.contains(&t) {
                    hid_tags.push(t);
                }
            }
            // The access order queue is only roughly sorted: an idle entry can be
            // stuck behind a live one that was read while its insertion was pending.
            // That lasts until the one in front expires or is read again.
            let queued = !e.inv_all
                && !e.inv_pred
                && !self.ttl_exp(&e, now)
                && e.exp.is_none_or(|x| x.saturating_add(LAG) > now)
                && self.tti_exp(&e, now)
                && newest.is_some_and(|la| la > e.la)
                && match e.kept {
                    None => true,
                    Some(t) => plus(t, self.cfg.tti.unwrap()) > now,
                };
            if queued && e.kept.is_none() {
                self.model.get_mut(&k).unwrap().kept = Some(now);
                self.hit("idle_kept");
            }
            let lagging = !e.inv_all
                && !e.inv_pred
                && !self.ttl_exp(&e, now)
                && !self.tti_exp(&e, now)
                && e.exp.is_some_and(|x| x.saturating_add(LAG) > now);
            if lagging || queued {
                extra_n += 1;
                extra_w += e.w as u64;
            } else if self.cfg.listener {
                let mut t = self.hidden_tags(&e);
                t.push("C17");
                return viol(
                    &t,
                    format!("key {k} is hidden ({e:?}) at {now} but maintenance did not remove it"),
                );
            } else {
                self.model.remove(&k);
            }
        }
        let n = got.len() as u64;
        let mut t = vec!["C09"];
        t.extend(&hid_tags);
        let (lo_n, lo_w) = if self.cfg.listener {
            // (Some of the kept ones may be gone, their notifications say which.)
            (n + extra_n, wsum + extra_w)
        } else {
            (n, wsum)
        };
        if ec < lo_n || ec > n + extra_n {
            return viol(
                &t,
                format!("entry_count is {ec} after maintenance, but {n} entries (and up to {extra_n} expiring ones) are stored"),
            );
        }
        if ws < lo_w || ws > wsum + extra_w {
            return viol(
                &t,
                format!("weighted_size is {ws} after maintenance, but the stored weights add up to {wsum} (and up to {extra_w} expiring)"),
            );
        }
        if let Some(cap) = self.cap_eff {
            if wsum > cap.saturating_mul(self.nseg) || ws > cap.saturating_mul(self.nseg) {
                return viol(
                    &["C06", "C19"],
                    format!("after maintenance the weights add up to {wsum} (reported {ws}) with capacity {cap} x {}", self.nseg),
                );
            }
            // Unit weights and nothing removed: the cache is as full as it can be.
            if !self.cfg.weigher && !self.cfg.expiry && !self.shrunk && self.nseg == 1 {
                let all = self.stored_at_settle.union(&self.written_since).count() as u64;
                if n < all.min(cap) {
                    return viol(
                        &["C06"],
                        format!("{n} entries remain of {all} written with capacity {cap}: evicted more than needed"),
                    );
                }
                self.hit("exact_fill_checks");
            }
        }
        self.shrunk = false;
        self.written_since.clear();
        self.stored_at_settle = got.keys().copied().collect();
        if deep {
            self.check_released()?;
        }
        Ok(())
    }

    /// No value that left the cache is alive any more.
    fn check_released(&mut self) -> R {
        let stored: HashSet<u64> = self.model.values().map(|e| e.id).collect();
        let suspects: Vec<Weak<VInner>> = self
            .weaks
            .iter()
            .filter(|(id, _)| !stored.contains(id))
            .map(|(_, w)| w.clone())
            .collect();
        let rec = reclaim_until(|| suspects.iter().all(|w| w.strong_count() == 0));
        if rec == Reclaim::Unknown {
            self.hit("reclaim_unknown");
            return Ok(());
        }
        if rec == Reclaim::Retained {
            let n: Vec<u64> = self
                .weaks
                .iter()
                .filter(|(id, w)| !stored.contains(id) && w.strong_count() > 0)
                .map(|(id, _)| *id)
                .collect();
            return viol(
                &["C16"],
                format!("values {n:?} left the cache but are still retained after maintenance"),
            );
        }
        self.hit("release_checks");
        self.st
            .entry("released_values")
            .and_modify(|n| *n += suspects.len() as u64)
            .or_insert(suspects.len() as u64);
        self.weaks.retain(|id, _| stored.contains(id));
        if self.tracker.bad.load(std::sync::atomic::Ordering::SeqCst) > 0 {
            return viol(
                &["C15", "C16"],
                "a key or value was dropped twice or used after its drop",
            );
        }
        Ok(())
    }

    /// Between maintenance runs, storage exceeds the capacity only by the backlog.
    fn backlog(&mut self) -> R {
        if let (Some(cap), false) = (self.cfg.cap, self.cfg.weigher) {
            if self.nseg == 1 && self.c().iter().count() as u64 > cap.saturating_add(384 + 2) {
                return viol(
                    &["C06", "C17"],
                    format!("more than {cap} + 386 entries are stored"),
                );
            }
        }
        Ok(())
    }

    fn one(&mut self) -> R {
        self.step += 1;
        watch::op("a call");
        let k = self.key();
        let f = self.focus;
        if self.apis.len() > 1 {
            // Any clone is as good as any other.
            loop {
                self.cur = self.rng.below(self.apis.len() as u64) as usize;
                if self.apis[self.cur].is_some() {
                    break;
                }
            }
        }
        let ws: [u32; 16] = [
            14, // 0 get
            4,  // 1 contains
            14, // 2 insert
            3,  // 3 remove
            3,  // 4 invalidate
            if f == "C02" || f == "C04" || f == "C03" {
                12
            } else {
                6
            }, // 5 init
            if f == "C02" || f == "C04" { 8 } else { 4 }, // 6 compute
            1,  // 7 panic
            if f == "C05" { 3 } else { 1 }, // 8 invalidate all
            if f == "C05" { 6 } else { 2 }, // 9 invalidate if
            2,  // 10 iter
            if f == "C13" { 6 } else { 1 }, // 11 iter mix
            if f == "C03" || f == "C04" { 12 } else { 5 }, // 12 advance
            4,  // 13 run pending
            if f == "C09" || f == "C06" { 3 } else { 1 }, // 14 settle
            1,  // 15 clone / bulk
        ];
        let op = self.rng.weighted(&ws);
        // These are rare in any case.
        let op = match op {
            8 | 9 if f != "C05" && self.rng.chance(2, 3) => 0,
            o => o,
        };
        const NAMES: [&str; 16] = [
            "get",
            "contains",
            "insert",
            "remove",
            "invalidate",
            "init",
            "compute",
            "panic",
            "invalidate_all",
            "invalidate_if",
            "iter",
            "iter_mix",
            "advance",
            "run_pending",
            "settle",
            "clone/bulk",
        ];
        self.log.push(format!(
            "#{} t={} {} k{k}",
            self.step,
            self.now(),
            NAMES[op]
        ));
        match op {
            0 => self.op_get(k)?,
            1 => self.op_contains(k)?,
            2 => self.op_insert(k)?,
            3 => self.op_remove(k, true)?,
            4 => self.op_remove(k, false)?,
            5 => {
                let h = self.rng.below(10);
                self.op_init(k, h)?
            }
            6 => {
                let h = self.rng.below(4);
                self.op_compute(k, h)?
            }
            7 => self.op_panic(k)?,
            8 => self.op_inv_all()?,
            9 => {
                self.op_inv_if()?;
                if self.nkeys > 384 && self.rng.chance(1, 2) {
                    self.scans()?;
                }
            }
            10 => self.op_iter()?,
            11 => self.op_iter_mix()?,
            12 => self.op_advance(),
            13 => {
                self.c().run_pending();
                self.touch(k, false, None, "run_pending_tasks")?;
            }
            14 => {
                let deep = self.rng.chance(1, 4);
                self.settle(deep)?
            }
            _ => match self.rng.below(4) {
                0 if self.apis.len() < 6 => {
                    let d = self.c().dup();
                    self.apis.push(Some(d));
                }
                1 if self.apis.iter().filter(|a| a.is_some()).count() > 1 => {
                    self.apis[self.cur] = None;
                    self.cur = self.apis.iter().position(Option::is_some).unwrap();
                }
                2 if self.nkeys > 384 && self.rng.chance(1, 2) => self.sweep()?,
                2 if self.nseg == 1
                    && self.cfg.initial.is_none_or(|n| n <= 1000)
                    && self.rng.chance(1, if f == "C16" { 8 } else { 80 }) =>
                {
                    self.churn()?
                }
                2 if self.rng.chance(1, 60) => {
                    // More updates of one entry than a 16-bit counter holds.
                    self.hit("storms");
                    let n = 65_600 + self.rng.below(400);
                    self.log.push(format!("  {n} inserts"));
                    for _ in 0..n {
                        self.op_insert(k)?;
                        self.drain("storm")?;
                    }
                }
                _ => {
                    // A burst that fills the queues.
                    let n = self.rng.range(10, 300);
                    let gets = self.rng.chance(1, 3);
                    for _ in 0..n {
                        self.step += 1;
                        let k = self.key();
                        self.log.push(format!(
                            "  burst {} k{k}",
                            if gets { "get" } else { "insert" }
                        ));
                        if gets {
                            self.op_get(k)?;
                        } else {
                            self.op_insert(k)?;
                        }
                        self.drain("burst")?;
                    }
                    self.backlog()?;
                }
            },
        }
        self.drain(NAMES[op])?;
        if self.rng.chance(1, 3) {
            let n = self.s * self.rng.range(1, 3);
            self.adv(n);
        }
        Ok(())
    }

    /// Thousands of keys come and go: they must not be kept.
    fn churn(&mut self) -> R {
        let n = self.rng.range(2_500, 3_500) as u32;
        self.churns += 1;
        let base = self.churns * 4_000;
        let how = self.rng.below(4);
        // Half of the time, each key has the same life.
        let same = self.rng.chance(1, 2);
        let mid = self.rng.below(4);
        let settle = self.rng.chance(1, 2);
        if same {
            if let Some(h) = &self.hooks_log {
                let r = &mut self.rng;
                let mut d = || {
                    *r.pick(&[
                        None,
                        Some(Duration::from_nanos(U * 100_000_000)),
                        Some(Duration::from_nanos(U * 300_000_000_000)),
                    ])
                };
                *h.forced.lock().unwrap() = Some([d(), d(), d()]);
            }
        }
        self.log
            .push(format!("  churn of {n} keys from k{base}, way {how}"));
        for k in base..base + n {
            self.step += 1;
            self.log.push(format!("  churn k{k}"));
            self.op_insert(k)?;
            self.drain("churn")?;
            if same && mid > 0 {
                if settle {
                    self.c().run_pending();
                    self.drain("churn")?;
                }
                for _ in 0..mid {
                    if self.rng.chance(1, 2) {
                        self.op_get(k)?;
                    } else {
                        self.op_insert(k)?;
                    }
                    self.drain("churn")?;
                    if settle {
                        self.c().run_pending();
                        self.drain("churn")?;
                    }
                }
            } else if self.rng.chance(1, 2) {
                if self.rng.chance(1, 3) {
                    // The bookkeeping of the insertion is done before the next operations.
                    self.c().run_pending();
                    self.drain("churn")?;
                }
                if self.rng.chance(1, 2) {
                    self.op_get(k)?;
                } else {
                    self.op_insert(k)?;
                }
                self.drain("churn")?;
            }
            match how {
                0 => self.op_remove(k, false)?,
                1 => self.op_remove(k, true)?,
                2 if k % 8 == 7 => {
                    for k in k - 7..=k {
                        self.op_remove(k, false)?;
                    }
                }
                3 if k % 500 == 499 => {
                    let s = self.s;
                    self.adv(s);
                    self.op_inv_all()?;
                }
                _ => {}
            }
            self.drain("churn")?;
        }
        for k in base + n - 500..base + n {
            if how >= 2 {
                self.op_remove(k, false)?;
                self.drain("churn")?;
            }
        }
        if let Some(h) = &self.hooks_log {
            *h.forced.lock().unwrap() = None;
        }
        self.settle(false)?;
        // What stays: the entries, the removed buckets of the table (less than a tenth of its
        // 64 segments of 128), and what its last few segments did not yet drop.
        let t = Arc::clone(&self.tracker);
        let most = (self.model.len() + 1_800) as i64;
        match reclaim_until(|| t.keys.load(std::sync::atomic::Ordering::SeqCst) <= most) {
            Reclaim::Done => self.hit("churns"),
            Reclaim::Unknown => self.hit("reclaim_unknown"),
            Reclaim::Retained => {
                return viol(
                    &["C16"],
                    format!(
                        "{} keys are alive after {n} keys came and went; {} are stored",
                        t.keys.load(std::sync::atomic::Ordering::SeqCst),
                        self.model.len()
                    ),
                )
            }
        }
        Ok(())
    }

    /// The scan of a predicate is under way when the entries at its cursor go or move.
    fn scans(&mut self) -> R {
        for _ in 0..self.rng.range(1, 3) {
            self.adv(self.s / 2);
            self.drain("invalidate_if")?;
            self.log.push("  run_pending".into());
            self.c().run_pending();
            self.drain("run_pending")?;
            self.sweep()?;
        }
        Ok(())
    }

    /// Removes or overwrites about half of the keys.
    fn sweep(&mut self) -> R {
        self.hit("sweeps");
        let kind = self.rng.below(4);
        // A scan's cursor stands somewhere in the order of the writes: the sweep must reach it
        // before maintenance, which comes every 64 writes, moves the cursor on.
        let start = self.rng.below(self.nkeys as u64) as u32;
        self.log.push(format!("  sweep {kind} from k{start}"));
        for i in 0..self.nkeys {
            let k = (start + i) % self.nkeys;
            if self.rng.chance(1, 2) {
                continue;
            }
            self.step += 1;
            match kind {
                0 => self.op_remove(k, false)?,
                1 => self.op_insert(k)?,
                2 => self.op_get(k)?,
                _ if self.rng.chance(1, 2) => self.op_remove(k, true)?,
                _ => self.op_insert(k)?,
            }
            self.drain("sweep")?;
        }
        Ok(())
    }

    pub fn run(&mut self, ops: u64) -> R {
        if self.nkeys > 384 {
            self.hit("big_cases");
            for k in 0..self.nkeys {
                self.step += 1;
                self.log.push(format!("fill k{k}"));
                self.op_insert(k)?;
                self.drain("fill")?;
            }
            if self.cfg.inval && self.rng.chance(1, 2) {
                self.step += 1;
                self.log.push("invalidate_if".into());
                self.adv(self.s);
                self.op_inv_if()?;
                self.scans()?;
            }
        }
        for _ in 0..ops {
            self.one()?;
        }
        self.step += 1;
        self.log.push("final settle".into());
        watch::op("the final run_pending_tasks");
        self.adv(self.s);
        self.settle(true)?;
        if self.rng.chance(1, 2) {
            // Emptying brings everything to zero.
            self.log.push("empty".into());
            let s = self.s;
            if self.rng.chance(1, 2) {
                let keys: Vec<u32> = self.model.keys().copied().collect();
                for k in keys {
                    self.log.push(format!("invalidate k{k}"));
                    self.op_remove(k, false)?;
                    self.drain("invalidate")?;
                }
            } else {
                self.op_inv_all()?;
            }
            self.adv(s);
            self.settle(false)?;
            let (ec, ws) = (self.c().entry_count(), self.c().weighted_size());
            if ec != 0 || ws != 0 {
                return viol(
                    &["C09", "C05"],
                    format!("the emptied cache reports {ec} entries and weight {ws}"),
                );
            }
        }
        // Some operations whose bookkeeping is still pending when the cache goes.
        for _ in 0..self.rng.below(20) {
            let k = self.key();
            self.step += 1;
            self.log.push(format!("late k{k}"));
            if self.rng.chance(1, 2) {
                self.op_insert(k)?;
            } else {
                self.op_get(k)?;
            }
            self.drain("late")?;
        }
        Ok(())
    }

    /// Drops the cache: everything must go, without notifications.
    pub fn finish(mut self) -> (BTreeMap<&'static str, u64>, Vec<String>, R) {
        use std::sync::atomic::Ordering::SeqCst;
        watch::op("dropping the cache");
        self.apis.clear();
        watch::idle();
        self.hooks_log = None;
        self.weaks.clear();
        set_tracker(None);
        let t = Arc::clone(&self.tracker);
        let tok = Arc::clone(&self.token);
        let evs = self.events.lock().unwrap().len();
        let mut r = Ok(());
        if evs > 0 {
            r = viol(&["C08"], "dropping the cache called the listener");
        }
        let (mut st, log) = (std::mem::take(&mut self.st), std::mem::take(&mut self.log));
        drop(self);
        let rec = reclaim_until(|| {
            t.keys.load(SeqCst) == 0 && t.vals.load(SeqCst) == 0 && Arc::strong_count(&tok) == 1
        });
        if t.bad.load(SeqCst) > 0 {
            r = viol(
                &["C15", "C16"],
                "a key or value was dropped twice or used after its drop",
            );
        } else if rec == Reclaim::Unknown {
            *st.entry("reclaim_unknown").or_default() += 1;
        } else if rec == Reclaim::Retained && r.is_ok() {
            r = viol(
                &["C16"],
                format!(
                    "after the last handle was dropped, {} keys, {} values and {} closures remain (of {} keys and {} values made)",
                    t.keys.load(SeqCst),
                    t.vals.load(SeqCst),
                    Arc::strong_count(&tok) - 1,
                    t.keys_made.load(SeqCst),
                    t.vals_made.load(SeqCst)
                ),
            );
        }
        (st, log, r)
    }
}

impl Cfg {
    pub fn kind_is_seg(&self) -> bool {
        matches!(self.kind, Kind::Seg(_))
    }
}

pub fn comp_name(c: &Comp) -> &'static str {
    match c {
        CompResult::StillNone(_) => "StillNone",
        CompResult::Unchanged(_) => "Unchanged",
        CompResult::Inserted(_) => "Inserted",
        CompResult::ReplacedWith(_) => "ReplacedWith",
        CompResult::Removed(_) => "Removed",
    }
}

fn leak_kq(k: u32) -> &'static Kq {
    use std::sync::OnceLock;
    static KEYS: OnceLock<Vec<Kq>> = OnceLock::new();
    &KEYS.get_or_init(|| (0..100_000).map(Kq).collect())[k as usize]
}

/// Runs one case. Returns the observation counts, the log and the verdict.
pub fn run_case(prop: &'static str, seed: u64, case: u64) -> CaseOut {
    let mut rng = Rng::of(&[seed, 0xA, case]);
    let (cfg, nkeys) = gen_cfg(&mut rng, prop);
    let ops = *rng.pick(&[20u64, 60, 120, 250, 500]);
    STRICT_BLOCK.with(|s| s.set(true));
    let cfgs = format!("{cfg} keys={nkeys} ops={ops}");
    watch::config(&cfgs);
    let mut case_ = Case::new(cfg, nkeys, rng, prop);
    let r = catch_unwind(AssertUnwindSafe(|| case_.run(ops)));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let m = crate::last_panic();
            let log = std::mem::take(&mut case_.log);
            let st = std::mem::take(&mut case_.st);
            // The state of the cache is unknown now.
            std::mem::forget(case_);
            set_tracker(None);
            return CaseOut {
                config: cfgs,
                st,
                log,
                r: viol(&["ALL"], format!("an operation panicked: {m}")),
            };
        }
    };
    match r {
        Ok(()) => {
            let (st, log, r) = case_.finish();
            CaseOut {
                config: cfgs,
                st,
                log,
                r,
            }
        }
        Err(mut v) => {
            if prop == "C20" {
                // With extreme settings, whatever goes wrong.
                v.tags.push("C20");
            }
            let log = std::mem::take(&mut case_.log);
            let st = std::mem::take(&mut case_.st);
            CaseOut {
                config: cfgs,
                st,
                log,
                r: Err(v),
            }
        }
    }
}

pub struct CaseOut {
    pub config: String,
    pub st: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub r: R,
}
