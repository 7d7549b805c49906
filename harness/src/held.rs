//! One caller held up inside a closure of its own, and another that must not wait for it.
//!
//! A first thread goes into a call of the cache and is held at one place in it: an initialiser,
//! a replacement condition, a compute closure, the weigher, an expiry hook, an invalidation
//! predicate or a listener that maintenance calls, a listener that its own write calls, or
//! between two items of an iterator. It stays there until the second thread has made a seeded
//! script of calls that are not to wait for it. If one of them does wait, both wait for ever, which
//! the watchdog sees as a thread that sleeps and uses no CPU time.
use crate::{api::*, report::*, rng::Rng, seq::CaseOut, types::*, watch};
use moka::{verif::MockClock, Expiry};
use std::{
    cell::Cell,
    collections::{BTreeMap, BTreeSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU32, Ordering},
        Arc, Condvar, Mutex,
    },
    time::Duration,
};

thread_local!(static HELD: Cell<bool> = const { Cell::new(false) });

/// Where the first thread is held.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Site {
    Init(u8),
    ReplaceIf,
    Compute(u8),
    Weigh,
    Create,
    Update,
    Read,
    Predicate,
    MaintListener,
    OpListener(u8),
    Iter,
}
use Site::*;

/// 0: not reached, 1: held, 2: open.
#[derive(Default)]
struct Gate(Mutex<u8>, Condvar);
impl Gate {
    fn pass(&self) {
        if !HELD.with(|h| h.get()) {
            return;
        }
        let mut g = self.0.lock().unwrap();
        if *g == 0 {
            *g = 1;
            self.1.notify_all();
            while *g == 1 {
                g = self.1.wait(g).unwrap();
            }
        }
    }
    fn open(&self) {
        *self.0.lock().unwrap() = 2;
        self.1.notify_all();
    }
    /// Whether the first thread is held now.
    fn reached(&self) -> bool {
        let g = self.0.lock().unwrap();
        let (g, _) = self
            .1
            .wait_timeout_while(g, Duration::from_secs(60), |g| *g == 0)
            .unwrap();
        *g == 1
    }
}

/// The gate, where it is, and from which call of the read hook on that hook gives deadlines.
struct GateExp(Arc<Gate>, Site, Option<u32>, AtomicU32);
impl Expiry<Key, Val> for GateExp {
    fn expire_after_create(&self, k: &Key, _: &Val, _: std::time::Instant) -> Option<Duration> {
        if self.1 == Create && k.k() == KB {
            self.0.pass();
        }
        // Maintenance finds this one to be late.
        (self.1 == MaintListener && k.k() == KB).then_some(Duration::from_secs(10))
    }
    fn expire_after_read(
        &self,
        k: &Key,
        _: &Val,
        _: std::time::Instant,
        d: Option<Duration>,
        _: std::time::Instant,
    ) -> Option<Duration> {
        if self.1 == Read && k.k() == KB {
            self.0.pass();
        }
        let n = self.3.fetch_add(1, Ordering::Relaxed);
        match self.2 {
            Some(m) if n >= m && k.k() % 3 != 0 && k.k() != KB => Some(DEADLINE),
            _ => d,
        }
    }
    fn expire_after_update(
        &self,
        k: &Key,
        _: &Val,
        _: std::time::Instant,
        d: Option<Duration>,
    ) -> Option<Duration> {
        if self.1 == Update && k.k() == KB {
            self.0.pass();
        }
        d
    }
}

/// What the read hook gives. No clock reaches it before the end of a case.
const DEADLINE: Duration = Duration::from_secs(100);

/// The key that the first thread is held at.
const KB: u32 = 100_000;

fn kq(k: u32) -> Kq {
    Kq(k)
}

struct Case {
    site: Site,
    cfg: Cfg,
    api: Arc<Box<dyn Api>>,
    tracker: Arc<Tracker>,
    clock: MockClock,
    model: BTreeMap<u32, u64>,
    /// What may be seen for the first thread's key.
    kb: BTreeSet<Option<u64>>,
    rng: Rng,
    n: u32,
    /// Writes that may still be queued.
    room: u32,
    same_writes: bool,
    maint: bool,
    bulk: bool,
    log: Vec<String>,
    st: BTreeMap<&'static str, u64>,
}

const TAGS: &[&str] = &["C21", "C01", "C02"];

impl Case {
    fn val(&self, k: u32) -> Val {
        Val::new(&self.tracker, k, 1 + k % 3, 0)
    }
    fn key(&self, k: u32) -> Key {
        Key::new(k, &self.tracker)
    }
    fn hit(&mut self, s: &'static str) {
        *self.st.entry(s).or_default() += 1;
    }
    fn seen(&self, k: u32, got: Option<u64>, by: &str) -> R {
        if k == KB {
            if !self.kb.is_empty() && !self.kb.contains(&got) {
                return viol(
                    TAGS,
                    format!(
                        "{by} of the held call's key gave {got:?}, not one of {:?}",
                        self.kb
                    ),
                );
            }
        } else if self.model.get(&k).copied() != got {
            return viol(
                TAGS,
                format!(
                    "{by} of key {k} gave {got:?}, but {:?} is stored",
                    self.model.get(&k)
                ),
            );
        }
        Ok(())
    }
    fn some_key(&mut self) -> u32 {
        if self.rng.chance(1, 4) {
            KB
        } else {
            self.rng.below(self.n as u64 + 2) as u32
        }
    }
    fn get(&mut self, k: u32) -> R {
        watch::op("a lookup beside a held call");
        let v = self.api.get(&kq(k)).map(|v| v.id());
        watch::idle();
        self.hit("gets");
        self.seen(k, v, "get")
    }
    fn put(&mut self, k: u32) {
        let v = self.val(k);
        let id = v.id();
        watch::op("an insert beside a held call");
        self.api.insert(self.key(k), v);
        watch::idle();
        self.hit("stored_values");
        self.room -= 1;
        if k == KB {
            self.kb = [Some(id)].into();
        } else {
            self.model.insert(k, id);
        }
    }
    fn take(&mut self, k: u32, want: bool) -> R {
        watch::op("a removal beside a held call");
        let v = if want {
            Some(self.api.remove(&kq(k)).map(|v| v.id()))
        } else {
            self.api.invalidate(&kq(k));
            None
        };
        watch::idle();
        self.hit("removals");
        self.room -= 1;
        if let Some(v) = v {
            // A removal may give an entry that is hidden but not yet removed.
            if !(k == KB && matches!(self.site, MaintListener | Predicate)) {
                self.seen(k, v, "remove")?;
            }
        }
        if k == KB {
            self.kb = [None].into();
        } else {
            self.model.remove(&k);
        }
        Ok(())
    }
    fn iter(&mut self) -> R {
        watch::op("an iteration beside a held call");
        let mut got: BTreeMap<u32, u64> = BTreeMap::new();
        for (k, v) in self.api.iter() {
            if got.insert(k.k(), v.id()).is_some() {
                return viol(&["C21", "C13"], format!("iteration gave key {k:?} twice"));
            }
        }
        watch::idle();
        self.hit("iters");
        let ks: BTreeSet<u32> = self
            .model
            .keys()
            .chain(got.keys())
            .copied()
            .chain([KB])
            .collect();
        for k in ks {
            self.seen(k, got.get(&k).copied(), "iteration")?;
        }
        Ok(())
    }

    /// A get-or-initialise call, of one form or another, that finds a value stored.
    fn init_found(&mut self, k: u32) -> R {
        let want = if k == KB {
            match self.kb.iter().next() {
                Some(Some(v)) if self.kb.len() == 1 => *v,
                _ => return Ok(()),
            }
        } else {
            match self.model.get(&k) {
                Some(v) => *v,
                None => return Ok(()),
            }
        };
        let other = self.val(k);
        let api = Arc::clone(&self.api);
        let q = kq(k);
        let key = if self.rng.chance(1, 2) {
            KeyArg::Owned(self.key(k))
        } else {
            KeyArg::Ref(&q)
        };
        let mut ran = false;
        let mut init = || {
            ran = true;
            other.clone()
        };
        watch::op("a get-or-initialise call that finds a value, beside a held call");
        let got = match self.rng.below(8) {
            0 => Some(api.get_with(key, &mut init).id()),
            1 => api.opt_get_with(key, &mut || Some(init())).map(|v| v.id()),
            2 => match api.try_get_with(key, &mut || Ok(init())) {
                Ok(v) => Some(v.id()),
                Err(_) => None,
            },
            3 => Some(api.or_insert_with(key, &mut init).into_value().id()),
            4 => api
                .or_opt(key, &mut || Some(init()))
                .map(|e| e.into_value().id()),
            5 => match api.or_try(key, &mut || Ok(init())) {
                Ok(e) => Some(e.into_value().id()),
                Err(_) => None,
            },
            6 => Some(api.or_insert(key, other.clone()).into_value().id()),
            _ => Some(
                api.or_insert_with_if(key, &mut init, &mut |_| false)
                    .into_value()
                    .id(),
            ),
        };
        watch::idle();
        self.hit("inits_found");
        if ran || got != Some(want) {
            return viol(
                &["C21", "C10", "C02"],
                format!(
                    "a get-or-initialise call of key {k}, where v{want} is stored, gave {got:?}{}",
                    if ran { " and ran its initialiser" } else { "" }
                ),
            );
        }
        Ok(())
    }

    fn script(&mut self) -> R {
        let steps = self.rng.range(4, 40);
        for _ in 0..steps {
            let k = self.some_key();
            let w = k != KB || self.same_writes;
            let _ = write!(self.log[1], " ");
            match self.rng.below(20) {
                0..=3 => {
                    let _ = write!(self.log[1], "get {k}");
                    self.get(k)?
                }
                4 | 5 => {
                    let _ = write!(self.log[1], "contains {k}");
                    watch::op("a containment test beside a held call");
                    let c = self.api.contains(&kq(k));
                    watch::idle();
                    if k != KB && c != self.model.contains_key(&k) {
                        return viol(
                            TAGS,
                            format!(
                                "contains_key of {k} said {c}; stored: {:?}",
                                self.model.get(&k)
                            ),
                        );
                    }
                }
                6 => {
                    let _ = write!(self.log[1], "iterate");
                    self.iter()?
                }
                7 => {
                    let _ = write!(self.log[1], "report");
                    watch::op("entry_count, weighted_size, policy, name, printing, cloning");
                    let _ = self.api.entry_count();
                    let _ = self.api.weighted_size();
                    let _ = self.api.policy();
                    let _ = self.api.name();
                    let _ = self.api.debug();
                    let _ = self.api.dup().get(&kq(k));
                    watch::idle();
                }
                8 | 9 if w && self.room > 0 => {
                    let _ = write!(self.log[1], "insert {k}");
                    self.put(k)
                }
                10 if w && self.room > 0 => {
                    let _ = write!(self.log[1], "remove {k}");
                    let want = self.rng.chance(1, 2);
                    self.take(k, want)?
                }
                11 => {
                    let n = self.rng.range(50, 1000);
                    let _ = write!(self.log[1], "{n} reads");
                    for _ in 0..n {
                        let k = self.some_key();
                        self.get(k)?;
                    }
                    self.hit("read_bursts");
                }
                12 => {
                    let n = (self.rng.range(20, 300) as u32).min(self.room);
                    let _ = write!(self.log[1], "{n} writes");
                    for i in 0..n {
                        let k = 1000 + (i * 7) % 600;
                        if self.model.contains_key(&k) && self.rng.chance(1, 2) {
                            self.take(k, false)?;
                        } else {
                            self.put(k);
                        }
                    }
                    self.hit("write_bursts");
                }
                13 if self.maint => {
                    let _ = write!(self.log[1], "maintain");
                    watch::op("run_pending_tasks beside a held call");
                    self.api.run_pending();
                    watch::idle();
                    self.hit("maintenance");
                }
                14 if k != KB && self.room > 0 => {
                    let _ = write!(self.log[1], "get_with {k}");
                    let v = self.val(k);
                    let id = v.id();
                    let mut v = Some(v);
                    let q = kq(k);
                    let arg = if self.rng.chance(1, 2) {
                        KeyArg::Owned(self.key(k))
                    } else {
                        KeyArg::Ref(&q)
                    };
                    watch::op("get_with of another key than the held call's");
                    let got = self.api.get_with(arg, &mut || v.take().unwrap()).id();
                    watch::idle();
                    self.room -= 1;
                    let want = *self.model.entry(k).or_insert(id);
                    if got != want {
                        return viol(
                            TAGS,
                            format!("get_with of key {k} gave v{got}, not v{want}"),
                        );
                    }
                }
                15 if k != KB && self.room > 0 => {
                    let _ = write!(self.log[1], "upsert {k}");
                    let v = self.val(k);
                    let id = v.id();
                    let mut v = Some(v);
                    let mut old = None;
                    let key = self.key(k);
                    watch::op("upsert of another key than the held call's");
                    let _ = self.api.upsert(KeyArg::Owned(key), &mut |e| {
                        old = e.map(|e| e.value().id());
                        v.take().unwrap()
                    });
                    watch::idle();
                    self.room -= 1;
                    self.seen(k, old, "upsert")?;
                    self.model.insert(k, id);
                }
                16 if self.cfg.inval && self.bulk => {
                    let _ = write!(self.log[1], "predicate");
                    watch::op("invalidate_entries_if beside a held call");
                    self.api.invalidate_if(Box::new(|_, _| false));
                    watch::idle();
                }
                17 if matches!(self.site, Compute(_)) && self.cfg.kind == Kind::Fut => {
                    let _ = write!(self.log[1], "compute-if-nobody-else");
                    let mut ran = false;
                    let key = self.key(KB);
                    watch::op("and_try_compute_if_nobody_else beside a held compute");
                    let _ = self.api.try_compute_nobody(KeyArg::Owned(key), &mut |_| {
                        ran = true;
                        Ok(moka::ops::compute::Op::Nop)
                    });
                    watch::idle();
                    if ran {
                        return viol(
                            &["C12", "C21"],
                            "the closure of and_try_compute_if_nobody_else ran beside another compute of its key",
                        );
                    }
                    self.hit("nobody_else");
                }
                18 | 19 => {
                    let k = if self.rng.chance(1, 2) { KB } else { k };
                    let _ = write!(self.log[1], "get-or-initialise {k}");
                    self.init_found(k)?
                }
                _ => {
                    let _ = write!(self.log[1], "-");
                }
            }
        }
        if self.bulk && self.rng.chance(1, 4) {
            let _ = write!(self.log[1], " invalidate_all");
            self.clock.advance(Duration::from_millis(1));
            watch::op("invalidate_all beside a held call");
            self.api.invalidate_all();
            watch::idle();
            self.clock.advance(Duration::from_millis(1));
            self.model.clear();
            self.kb.clear();
            self.hit("invalidate_all");
        }
        for k in 0..self.n.min(4) {
            self.get(k)?;
        }
        self.iter()
    }
}

/// The held call. `new` is the value it may store.
fn first(site: Site, api: &dyn Api, gate: &Gate, tracker: &Arc<Tracker>, new: Val, byref: bool) {
    let mut new = Some(new);
    let q = kq(KB);
    let key = if byref {
        KeyArg::Ref(&q)
    } else {
        KeyArg::Owned(Key::new(KB, tracker))
    };
    match site {
        Init(i) => {
            let mut f = || {
                gate.pass();
                new.take().unwrap()
            };
            match i {
                0 => drop(api.get_with(key, &mut f)),
                1 => drop(api.opt_get_with(key, &mut || Some(f()))),
                2 => drop(api.try_get_with(key, &mut || Ok(f()))),
                3 => drop(api.or_insert_with(key, &mut f)),
                4 => drop(api.or_opt(key, &mut || Some(f()))),
                5 => drop(api.or_try(key, &mut || Ok(f()))),
                // Nothing comes of these.
                6 => drop(api.opt_get_with(key, &mut || {
                    gate.pass();
                    None
                })),
                _ => drop(api.or_try(key, &mut || {
                    gate.pass();
                    Err(MyErr(1))
                })),
            }
        }
        ReplaceIf => drop(
            api.or_insert_with_if(key, &mut || new.take().unwrap(), &mut |_| {
                gate.pass();
                true
            }),
        ),
        Compute(i) => {
            use moka::ops::compute::Op;
            let mut op = || {
                gate.pass();
                match i % 3 {
                    0 => Op::Put(new.take().unwrap()),
                    1 => Op::Remove,
                    _ => Op::Nop,
                }
            };
            match i {
                0..=2 => drop(api.compute(key, &mut |_| op())),
                3..=5 => drop(api.try_compute(key, &mut |_| Ok(op()))),
                6..=8 => drop(api.try_compute_nobody(key, &mut |_| Ok(op()))),
                _ => drop(api.upsert(key, &mut |_| {
                    gate.pass();
                    new.take().unwrap()
                })),
            }
        }
        Weigh | Create | Update => match tracker.fresh_id() % 3 {
            0 if site != Update => drop(api.get_with(key, &mut || new.take().unwrap())),
            1 => drop(api.upsert(key, &mut |_| new.take().unwrap())),
            _ => api.insert(Key::new(KB, tracker), new.take().unwrap()),
        },
        Read => drop(api.get(&q)),
        Predicate | MaintListener => api.run_pending(),
        OpListener(0) => api.insert(Key::new(KB, tracker), new.take().unwrap()),
        OpListener(1) => drop(api.remove(&q)),
        OpListener(_) => api.invalidate(&q),
        Iter => {
            let mut n = 0;
            for _ in api.iter() {
                n += 1;
                if n == 2 {
                    gate.pass();
                }
            }
        }
    }
}

pub fn run_case(prop: &'static str, seed: u64, case: u64) -> CaseOut {
    let mut rng = Rng::of(&[seed, 0x7, case]);
    let site = match rng.below(16) {
        x if prop == "C04" => *rng
            .pick(&[Predicate, MaintListener, MaintListener, Iter][..if x < 14 { 3 } else { 4 }]),
        0..=2 => Init(rng.below(8) as u8),
        3 => ReplaceIf,
        4..=6 => Compute(rng.below(10) as u8),
        7 => Weigh,
        8 => Create,
        9 => Update,
        10 => Read,
        11 | 12 => Predicate,
        13 => MaintListener,
        14 => OpListener(rng.below(3) as u8),
        _ => Iter,
    };
    let sec = Duration::from_secs;
    let deadlines =
        (prop == "C04" || rng.chance(1, 4)).then(|| *rng.pick(&[0, 1, 50, 200, 390, 500, 700]));
    let by_ttl = deadlines.is_none() && rng.chance(1, 2);
    let cfg = Cfg {
        kind: match rng.below(5) {
            0 | 1 => Kind::Sync,
            2 => Kind::Seg(*rng.pick(&[1, 2, 4])),
            _ => Kind::Fut,
        },
        hash: *rng.pick(&[
            HashKind::Good(1),
            HashKind::Good(2),
            HashKind::Identity,
            HashKind::Constant,
            HashKind::HighBits(6),
        ]),
        cap: rng.chance(1, 2).then_some(1_000_000),
        lru: rng.chance(1, 2),
        weigher: site == Weigh || rng.chance(1, 4),
        ttl: (site == MaintListener && by_ttl).then_some(sec(10)),
        tti: None,
        expiry: matches!(site, Create | Update | Read)
            || site == MaintListener && !by_ttl
            || deadlines.is_some()
            || rng.chance(1, 6),
        listener: matches!(site, MaintListener | OpListener(_)) || rng.chance(1, 3),
        async_listener: rng.chance(1, 2),
        inval: site == Predicate || rng.chance(1, 4),
        initial: *rng.pick(&[None, Some(0), Some(1000)]),
        mock: true,
    };
    let tracker = Tracker::new();
    set_tracker(Some(Arc::clone(&tracker)));
    let gate = Arc::new(Gate::default());
    let clock = MockClock::new();
    let (g1, g2) = (Arc::clone(&gate), Arc::clone(&gate));
    let hooks = Hooks {
        weigher: (site == Weigh).then(|| -> Arc<dyn Fn(&Key, &Val) -> u32 + Send + Sync> {
            Arc::new(move |k, v| {
                if k.k() == KB {
                    g1.pass();
                }
                v.weight()
            })
        }),
        expiry: Some(Arc::new(GateExp(
            Arc::clone(&gate),
            site,
            deadlines,
            AtomicU32::new(0),
        ))),
        listener: Some(Arc::new(move |k, _, _| {
            if matches!(site, MaintListener | OpListener(_)) && k.k() == KB {
                g2.pass();
            }
        })),
        ..Hooks::default()
    };
    let api: Arc<Box<dyn Api>> = Arc::new(build(&cfg, &hooks, Some(&clock)));
    let config = format!("{site:?} {cfg}");
    watch::config(&config);
    // Whether the held call has the lock of its key.
    let locks = cfg.listener && matches!(site, Weigh | Create | Update | Predicate)
        || matches!(site, MaintListener | OpListener(_));
    let maint = !matches!(site, Predicate | MaintListener);
    let mut c = Case {
        site,
        api: Arc::clone(&api),
        tracker: Arc::clone(&tracker),
        clock: clock.clone(),
        model: BTreeMap::new(),
        kb: BTreeSet::new(),
        n: *rng.pick(&[1u32, 3, 20, 100]),
        room: if maint { u32::MAX } else { 300 },
        same_writes: !locks,
        maint,
        // Maintenance that has to look at the held key would wait for its lock.
        bulk: !locks || !maint,
        log: vec![config.clone(), String::new()],
        st: BTreeMap::new(),
        rng,
        cfg,
    };
    let r = catch_unwind(AssertUnwindSafe(|| -> R {
        // Where the key is to be there beforehand.
        let there = match site {
            Init(_) | Create => false,
            Compute(_) | Weigh | Iter => c.rng.chance(1, 2),
            _ => true,
        };
        if there {
            c.put(KB);
        } else {
            c.kb = [None].into();
        }
        clock.advance(sec(5));
        for k in 0..c.n {
            c.put(k);
        }
        c.api.run_pending();
        c.api.run_pending();
        if site == Predicate {
            clock.advance(Duration::from_millis(1));
            let g = Arc::clone(&gate);
            c.api.invalidate_if(Box::new(move |k, _| {
                if k.k() == KB {
                    g.pass();
                }
                k.k() == KB
            }));
            c.kb = [None].into();
            clock.advance(Duration::from_millis(1));
        }
        if site == MaintListener {
            clock.advance(sec(6));
            c.kb = [None].into();
        }
        let new = c.val(KB);
        let id = new.id();
        match site {
            // These may have taken effect already.
            Weigh | Create | Update | OpListener(0) => {
                c.kb.insert(Some(id));
            }
            OpListener(_) => {
                c.kb.insert(None);
            }
            _ => {}
        }
        c.room = if maint { u32::MAX } else { 300 };
        let byref = c.rng.chance(1, 2);
        let (api2, gate2, tr2) = (Arc::clone(&api), Arc::clone(&gate), Arc::clone(&tracker));
        let h = std::thread::spawn(move || {
            HELD.with(|h| h.set(true));
            set_tracker(Some(Arc::clone(&tr2)));
            let r = catch_unwind(AssertUnwindSafe(|| {
                first(site, &**api2, &gate2, &tr2, new, byref)
            }));
            gate2.open();
            set_tracker(None);
            r.map_err(|_| crate::last_panic())
        });
        let held = gate.reached();
        let r = if held {
            c.hit("held");
            c.hit(match site {
                Init(_) | ReplaceIf => "held_in_initialiser",
                Compute(_) => "held_in_compute",
                Weigh => "held_in_weigher",
                Create | Update | Read => "held_in_expiry_hook",
                Predicate => "held_in_predicate",
                MaintListener => "held_in_maintenance_listener",
                OpListener(_) => "held_in_own_listener",
                Iter => "held_in_iteration",
            });
            catch_unwind(AssertUnwindSafe(|| c.script())).unwrap_or_else(|_| {
                viol(
                    TAGS,
                    format!("a call panicked beside a held one: {}", crate::last_panic()),
                )
            })
        } else {
            c.hit("not_held");
            Ok(())
        };
        gate.open();
        watch::op("the end of the held call");
        let first = h.join();
        watch::idle();
        r?;
        match first {
            Ok(Ok(())) => {}
            Ok(Err(p)) => return viol(TAGS, format!("the held call panicked: {p}")),
            Err(_) => return viol(TAGS, "the held call panicked"),
        }
        if held {
            watch::op("run_pending_tasks after the held call");
            c.api.run_pending();
            watch::idle();
            c.kb.clear();
            c.iter()?;
        }
        if deadlines.is_some() {
            clock.advance(DEADLINE * 2);
            watch::op("run_pending_tasks after the deadlines");
            for _ in 0..4 {
                c.api.run_pending();
            }
            let live = c.api.iter().count() as u64;
            let count = c.api.entry_count();
            watch::idle();
            c.hit("expired_by_read_hook_judged");
            if live < c.model.len() as u64 {
                c.hit("expired_by_read_hook");
            }
            if live != count {
                return viol(
                    &["C04", "C05"],
                    format!(
                        "{count} entries are counted and {live} are live, long after the deadlines that the read hook gave and after maintenance"
                    ),
                );
            }
        }
        Ok(())
    }))
    .unwrap_or_else(|_| {
        viol(
            TAGS,
            format!("a call panicked: {}", crate::last_panic()),
        )
    });
    set_tracker(None);
    CaseOut {
        config,
        st: c.st,
        log: c.log,
        r,
    }
}
