//! Engine G: configurations. What a cache reports, what a builder refuses, and the cache of
//! zero capacity.
use crate::{
    api::*,
    report::*,
    rng::Rng,
    seq::{CaseOut, Expected},
    types::*,
    watch,
};
use moka::{ops::compute::CompResult, policy::EvictionPolicy, verif::MockClock, Expiry};
use std::{
    collections::{BTreeMap, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering::*},
        Arc,
    },
    time::Duration,
};

type St = BTreeMap<&'static str, u64>;

const YEAR: u64 = 365 * 86_400;

struct NoExpiry;
impl Expiry<u64, u64> for NoExpiry {}

#[derive(Clone, Debug)]
struct Want {
    kind: Kind,
    own_hasher: bool,
    /// Through `segments()` instead of the segmented builder.
    converted: bool,
    name: Option<String>,
    cap: Option<u64>,
    ttl: Option<Duration>,
    tti: Option<Duration>,
    initial: Option<usize>,
    inval: bool,
    lru: Option<bool>,
    listener: bool,
    expiry: bool,
    weigher: bool,
    order: u64,
    /// Through `new`: nothing set but the capacity.
    plain: Option<u64>,
}

struct Told {
    name: Option<String>,
    cap: Option<u64>,
    segs: usize,
    ttl: Option<Duration>,
    tti: Option<Duration>,
    count: u64,
    weight: u64,
    inval_ok: bool,
    hits: usize,
    wrong: usize,
    debug: usize,
}

macro_rules! opts {
    ($b:ident, $w:ident) => {{
        // The order of the options does not matter.
        for i in 0..10u64 {
            match (i + $w.order) % 10 {
                0 => {
                    if let Some(n) = &$w.name {
                        $b = $b.name(n);
                    }
                }
                1 => {
                    if let Some(c) = $w.cap {
                        $b = $b.max_capacity(c);
                    }
                }
                2 => {
                    if let Some(d) = $w.ttl {
                        $b = $b.time_to_live(d);
                    }
                }
                3 => {
                    if let Some(d) = $w.tti {
                        $b = $b.time_to_idle(d);
                    }
                }
                4 => {
                    if let Some(n) = $w.initial {
                        $b = $b.initial_capacity(n);
                    }
                }
                5 => {
                    if $w.inval {
                        $b = $b.support_invalidation_closures();
                    }
                }
                6 => match $w.lru {
                    None => {}
                    Some(true) => $b = $b.eviction_policy(EvictionPolicy::lru()),
                    Some(false) => $b = $b.eviction_policy(EvictionPolicy::tiny_lfu()),
                },
                7 => {
                    if $w.listener {
                        $b = $b.eviction_listener(|_, _, _| {});
                    }
                }
                8 => {
                    if $w.expiry {
                        $b = $b.expire_after(NoExpiry);
                    }
                }
                _ => {
                    if $w.weigher {
                        $b = $b.weigher(|_k, v| *v as u32 % 7);
                    }
                }
            }
        }
    }};
}

macro_rules! look {
    ($c:ident, $wait:ident, $n:ident) => {{
        let p = $c.policy();
        let mut t = Told {
            name: $c.name().map(str::to_string),
            cap: p.max_capacity(),
            segs: p.num_segments(),
            ttl: p.time_to_live(),
            tti: p.time_to_idle(),
            count: $c.entry_count(),
            weight: $c.weighted_size(),
            inval_ok: false,
            hits: 0,
            wrong: 0,
            debug: 0,
        };
        for k in 0..$n {
            $wait!($c.insert(k, k * 3));
        }
        for k in 0..$n {
            match $wait!($c.get(&k)) {
                Some(v) if v == k * 3 => t.hits += 1,
                Some(_) => t.wrong += 1,
                None => {}
            }
        }
        t.inval_ok = $c.invalidate_entries_if(|_, _| false).is_ok();
        let c2 = $c.clone();
        let p2 = c2.policy();
        if c2.name() != $c.name()
            || p2.max_capacity() != t.cap
            || p2.num_segments() != t.segs
            || p2.time_to_live() != t.ttl
            || p2.time_to_idle() != t.tti
        {
            t.wrong += 1000;
        }
        t.debug = format!("{:?}{:?}", $c, p).len();
        t
    }};
}

macro_rules! now {
    ($e:expr) => {
        $e
    };
}
macro_rules! awaited {
    ($e:expr) => {
        block_on($e)
    };
}

fn make(w: &Want, n: u64) -> Told {
    use moka::{future, sync};
    if let Some(cap) = w.plain {
        return match w.kind {
            Kind::Sync if w.converted => {
                let c: sync::Cache<u64, u64> = sync::CacheBuilder::new(cap).build();
                look!(c, now, n)
            }
            Kind::Sync => {
                let c: sync::Cache<u64, u64> = sync::Cache::new(cap);
                look!(c, now, n)
            }
            Kind::Fut if w.converted => {
                let c: future::Cache<u64, u64> = future::CacheBuilder::new(cap).build();
                look!(c, awaited, n)
            }
            Kind::Fut => {
                let c: future::Cache<u64, u64> = future::Cache::new(cap);
                look!(c, awaited, n)
            }
            Kind::Seg(s) if w.converted => {
                let c: sync::SegmentedCache<u64, u64> =
                    sync::CacheBuilder::new(cap).segments(s).build();
                look!(c, now, n)
            }
            Kind::Seg(s) => {
                let c: sync::SegmentedCache<u64, u64> = sync::SegmentedCache::new(cap, s);
                look!(c, now, n)
            }
        };
    }
    let h = HB(HashKind::Good(w.order));
    match w.kind {
        Kind::Sync => {
            let mut b = sync::Cache::<u64, u64>::builder();
            opts!(b, w);
            if w.own_hasher {
                let c = b.build_with_hasher(h);
                look!(c, now, n)
            } else {
                let c = b.build();
                look!(c, now, n)
            }
        }
        Kind::Fut => {
            let mut b = future::Cache::<u64, u64>::builder();
            opts!(b, w);
            if w.own_hasher {
                let c = b.build_with_hasher(h);
                look!(c, awaited, n)
            } else {
                let c = b.build();
                look!(c, awaited, n)
            }
        }
        Kind::Seg(s) => {
            let mut b = if w.converted {
                let mut b = sync::Cache::<u64, u64>::builder();
                opts!(b, w);
                b.segments(s)
            } else {
                let mut b = sync::SegmentedCache::<u64, u64>::builder(s);
                opts!(b, w);
                b
            };
            if w.order % 5 == 0 {
                // Setting it again changes nothing.
                opts!(b, w);
            }
            if w.own_hasher {
                let c = b.build_with_hasher(h);
                look!(c, now, n)
            } else {
                let c = b.build();
                look!(c, now, n)
            }
        }
    }
}

fn kind(rng: &mut Rng) -> Kind {
    match rng.below(4) {
        0 => Kind::Sync,
        1 => Kind::Fut,
        _ => Kind::Seg(*rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 16, 33, 64])),
    }
}

fn want(rng: &mut Rng) -> Want {
    let dur = |rng: &mut Rng| {
        if rng.chance(1, 2) {
            return None;
        }
        Some(match rng.below(8) {
            0 => Duration::ZERO,
            1 => Duration::from_nanos(1),
            2 => Duration::from_secs(1000 * YEAR),
            3 => Duration::from_secs(1000 * YEAR) - Duration::from_nanos(1),
            4 => Duration::from_nanos(rng.next()),
            5 => Duration::from_secs(rng.below(1000 * YEAR)),
            _ => Duration::from_secs(3600 * rng.range(1, 1000)),
        })
    };
    let mut w = Want {
        kind: kind(rng),
        own_hasher: rng.chance(1, 2),
        converted: rng.chance(1, 2),
        name: match rng.below(4) {
            0 => None,
            1 => Some(String::new()),
            2 => Some("a longer name, mit Umlauten: äöü\n\0".into()),
            _ => Some(format!("c{}", rng.next())),
        },
        cap: match rng.below(5) {
            0 => None,
            1 => Some(0),
            2 => Some(rng.below(100)),
            3 => Some(rng.next()),
            _ => Some(*rng.pick(&[1, u32::MAX as u64, 1 << 53, (1 << 53) + 1, u64::MAX])),
        },
        ttl: dur(rng),
        tti: dur(rng),
        initial: *rng.pick(&[None, None, Some(0), Some(1), Some(1000), Some(300_000)]),
        inval: rng.chance(1, 2),
        lru: *rng.pick(&[None, Some(true), Some(false)]),
        listener: rng.chance(1, 3),
        expiry: rng.chance(1, 3),
        weigher: rng.chance(1, 3),
        order: rng.next() >> 8,
        plain: None,
    };
    if let (Some(cap), true) = (w.cap, rng.chance(1, 6)) {
        w = Want {
            kind: w.kind,
            own_hasher: false,
            converted: w.converted,
            name: None,
            cap: w.cap,
            ttl: None,
            tti: None,
            initial: None,
            inval: false,
            lru: None,
            listener: false,
            expiry: false,
            weigher: false,
            order: w.order,
            plain: Some(cap),
        };
    }
    w
}

/// What a cache reports and whether it applies it.
fn reporting(rng: &mut Rng, st: &mut St, log: &mut Vec<String>) -> R {
    for _ in 0..4 {
        let w = want(rng);
        let n = *rng.pick(&[0u64, 5, 60]);
        log.push(format!("build {w:?}, {n} entries"));
        watch::op("building a cache");
        let t = match catch_unwind(AssertUnwindSafe(|| make(&w, n))) {
            Ok(t) => t,
            Err(_) => {
                return viol(
                    &["C20"],
                    format!(
                        "building or using the cache of {w:?} panicked: {}",
                        crate::last_panic()
                    ),
                )
            }
        };
        let segs_ok = match w.kind {
            Kind::Seg(s) => t.segs == s || t.segs == s.next_power_of_two(),
            _ => t.segs == 1,
        };
        if t.name != w.name || t.cap != w.cap || t.ttl != w.ttl || t.tti != w.tti || !segs_ok {
            return viol(
                &["C20"],
                format!(
                    "built with {w:?}, the cache reports name {:?}, capacity {:?}, {} segments, ttl {:?}, tti {:?}",
                    t.name, t.cap, t.segs, t.ttl, t.tti
                ),
            );
        }
        if t.wrong > 0 {
            return viol(
                &["C20"],
                format!(
                    "{w:?}: {} wrong values or a clone that reports otherwise",
                    t.wrong
                ),
            );
        }
        if t.count != 0 || t.weight != 0 {
            return viol(
                &["C20"],
                format!(
                    "{w:?}: a new cache reports {} entries, weight {}",
                    t.count, t.weight
                ),
            );
        }
        if t.inval_ok != w.inval {
            return viol(
                &["C20"],
                format!("{w:?}: invalidate_entries_if was accepted: {}", t.inval_ok),
            );
        }
        // Lifetimes of an hour and more do not matter here, shorter ones are not judged.
        let long = |d: Option<Duration>| d.is_none_or(|d| d >= Duration::from_secs(3600));
        if w.cap == Some(0) || w.ttl == Some(Duration::ZERO) || w.tti == Some(Duration::ZERO) {
            if t.hits > 0 {
                return viol(
                    &["C20"],
                    format!(
                        "{w:?}: {} entries of zero life or capacity were read",
                        t.hits
                    ),
                );
            }
        } else if long(w.ttl)
            && long(w.tti)
            && w.cap.is_none_or(|c| c >= 1_000_000)
            && t.hits != n as usize
        {
            return viol(
                &["C20"],
                format!("{w:?}: {} of {n} fresh entries were found", t.hits),
            );
        }
        *st.entry("reports").or_default() += 1;
        *st.entry("stored_values").or_default() += n;
    }
    Ok(())
}

/// What a builder refuses.
fn refusing(rng: &mut Rng, st: &mut St, log: &mut Vec<String>) -> R {
    for _ in 0..4 {
        let mut w = want(rng);
        w.plain = None;
        let over = match rng.below(5) {
            0 => Duration::from_secs(1000 * YEAR) + Duration::from_nanos(1),
            1 => Duration::from_secs(1000 * YEAR + 1),
            2 => Duration::MAX,
            3 => Duration::from_secs(u64::MAX),
            _ => Duration::from_secs(rng.range(1000 * YEAR + 1, u64::MAX)),
        };
        let what = rng.below(5);
        match what {
            0 => w.ttl = Some(over),
            1 => w.tti = Some(over),
            2 => {
                w.ttl = Some(over);
                w.tti = Some(over);
            }
            _ => w.kind = Kind::Seg(0),
        }
        log.push(format!("build {w:?}: to be refused"));
        let r = catch_unwind(AssertUnwindSafe(|| {
            if what == 4 {
                drop(moka::sync::SegmentedCache::<u64, u64>::new(
                    w.cap.unwrap_or(10),
                    0,
                ));
            } else {
                make(&w, 0);
            }
        }));
        if r.is_ok() {
            return viol(
                &["C20"],
                format!("the invalid configuration {w:?} was accepted"),
            );
        }
        *st.entry("refusals").or_default() += 1;
    }
    // The short constructors.
    let n = rng.next() >> rng.below(64);
    let s = *rng.pick(&[1usize, 2, 4, 8, 32]);
    let a = moka::sync::Cache::<u64, u64>::new(n);
    let b = moka::sync::SegmentedCache::<u64, u64>::new(n, s);
    let c = moka::future::Cache::<u64, u64>::new(n);
    for (p, name, segs) in [
        (a.policy(), a.name(), 1),
        (b.policy(), b.name(), s),
        (c.policy(), c.name(), 1),
    ] {
        if p.max_capacity() != Some(n)
            || p.num_segments() != segs
            || p.time_to_live().is_some()
            || p.time_to_idle().is_some()
            || name.is_some()
        {
            return viol(
                &["C20"],
                format!("new({n}) with {segs} segments reports {p:?}, name {name:?}"),
            );
        }
    }
    if a.invalidate_entries_if(|_, _| true).is_ok()
        || b.invalidate_entries_if(|_, _| true).is_ok()
        || c.invalidate_entries_if(|_, _| true).is_ok()
    {
        return viol(&["C20"], "a cache of new() accepts predicates");
    }
    *st.entry("stored_values").or_default() += 1;
    Ok(())
}

struct ZeroExpiry;
impl Expiry<Key, Val> for ZeroExpiry {
    fn expire_after_create(&self, k: &Key, _: &Val, _: std::time::Instant) -> Option<Duration> {
        (k.k() % 2 == 0).then(|| Duration::from_secs(k.k() as u64))
    }
}

/// The cache of zero capacity.
fn zero(rng: &mut Rng, st: &mut St, log: &mut Vec<String>) -> R {
    let mut cfg = Cfg {
        kind: kind(rng),
        hash: *rng.pick(&[HashKind::Good(3), HashKind::Constant, HashKind::Identity]),
        cap: Some(0),
        lru: rng.chance(1, 2),
        weigher: rng.chance(1, 2),
        ttl: rng
            .chance(1, 3)
            .then(|| Duration::from_secs(rng.below(100))),
        tti: rng
            .chance(1, 3)
            .then(|| Duration::from_secs(rng.below(100))),
        expiry: rng.chance(1, 3),
        listener: rng.chance(1, 2),
        async_listener: rng.chance(1, 2),
        inval: rng.chance(1, 2),
        initial: *rng.pick(&[None, Some(0), Some(1000)]),
        mock: true,
    };
    cfg.async_listener &= cfg.listener;
    let tracker = Tracker::new();
    set_tracker(Some(Arc::clone(&tracker)));
    let told = Arc::new(AtomicU64::new(0));
    let mut hooks = Hooks {
        expiry: Some(Arc::new(ZeroExpiry)),
        ..Hooks::default()
    };
    let t2 = Arc::clone(&told);
    hooks.listener = Some(Arc::new(move |_, _, _| {
        t2.fetch_add(1, SeqCst);
    }));
    let clock = MockClock::new();
    let api = build(&cfg, &hooks, Some(&clock));
    log.push(format!("zero capacity: {cfg}"));
    watch::config(&format!("{cfg}"));
    let fail = |m: String| viol(&["C20"], format!("zero capacity: {m}"));
    macro_rules! must {
        ($c:expr, $($m:tt)*) => {
            if !$c {
                set_tracker(None);
                return fail(format!($($m)*));
            }
        };
    }
    let steps = rng.range(20, 300);
    let mut runs = 0u64;
    for _ in 0..steps {
        let k = rng.below(6) as u32;
        let q: &Kq = [&Kq(0), &Kq(1), &Kq(2), &Kq(3), &Kq(4), &Kq(5)][k as usize];
        let karg = |rng: &mut Rng| {
            if rng.chance(1, 2) {
                KeyArg::Owned(Key::new(k, &tracker))
            } else {
                KeyArg::Ref(q)
            }
        };
        let v = Val::new(&tracker, k, rng.below(5) as u32, 0);
        let id = v.id();
        let op = rng.below(22);
        log.push(format!("op {op} k{k} v{id}"));
        watch::op("a call on a cache of zero capacity");
        let ka = karg(rng);
        let mut slot = Some(v);
        let mut ran = false;
        let mut init = || {
            ran = true;
            slot.take().expect("the initialiser ran twice")
        };
        let none = |e: &Option<Ent>| e.is_none();
        match op {
            0 => must!(api.get(q).is_none(), "get found k{k}"),
            1 => must!(!api.contains(q), "contains_key found k{k}"),
            2 => api.insert(Key::new(k, &tracker), init()),
            3 => must!(api.remove(q).is_none(), "remove found k{k}"),
            4 => api.invalidate(q),
            5 => {
                let r = api.get_with(ka, &mut init);
                must!(
                    ran && r.id() == id,
                    "get_with ran: {ran}, returned {r:?}, not v{id}"
                );
            }
            6 => {
                let r = api.get_with_if(Key::new(k, &tracker), &mut init, &mut |_| false);
                must!(
                    ran && r.id() == id,
                    "get_with_if ran: {ran}, returned {r:?}, not v{id}"
                );
            }
            7 => {
                let r = api.opt_get_with(ka, &mut || Some(init()));
                must!(
                    ran && r.as_ref().map(Val::id) == Some(id),
                    "optionally_get_with ran: {ran}, returned {r:?}"
                );
            }
            8 => {
                let r = api.opt_get_with(ka, &mut || None);
                must!(r.is_none(), "optionally_get_with of none returned {r:?}");
            }
            9 => {
                let r = api.try_get_with(ka, &mut || Ok(init()));
                must!(
                    ran && r.as_ref().is_ok_and(|v| v.id() == id),
                    "try_get_with ran: {ran}, returned {r:?}"
                );
            }
            10 => {
                let r = api.try_get_with(ka, &mut || Err(MyErr(id)));
                must!(
                    r.as_ref().is_err_and(|e| e.0 == id),
                    "try_get_with of an error returned {r:?}"
                );
            }
            11 => {
                let e = api.or_insert(ka, init());
                must!(
                    e.value().id() == id && e.is_fresh(),
                    "or_insert returned {:?}, fresh: {}",
                    e.value(),
                    e.is_fresh()
                );
            }
            12 => {
                set_default_val(Some(init()));
                let e = api.or_default(ka);
                must!(
                    e.value().id() == id && e.is_fresh(),
                    "or_default returned {:?}, fresh: {}",
                    e.value(),
                    e.is_fresh()
                );
            }
            13 => {
                let e = api.or_insert_with(ka, &mut init);
                must!(
                    ran && e.value().id() == id && e.is_fresh(),
                    "or_insert_with ran: {ran}, returned {:?}",
                    e.value()
                );
            }
            14 => {
                let e = api.or_try(ka, &mut || Ok(init()));
                must!(
                    ran && e
                        .as_ref()
                        .is_ok_and(|e| e.value().id() == id && e.is_fresh()),
                    "or_try_insert_with ran: {ran}"
                );
            }
            15 => {
                let e = api.or_opt(ka, &mut || Some(init()));
                must!(
                    ran && e
                        .as_ref()
                        .is_some_and(|e| e.value().id() == id && e.is_fresh()),
                    "or_optionally_insert_with ran: {ran}"
                );
            }
            16 => {
                let mut found = false;
                let e = api.upsert(ka, &mut |e| {
                    found = !none(&e);
                    init()
                });
                must!(!found, "and_upsert_with saw an entry");
                must!(
                    ran && e.value().id() == id && !e.is_old_value_replaced(),
                    "and_upsert_with ran: {ran}, returned {:?}, replaced: {}",
                    e.value(),
                    e.is_old_value_replaced()
                );
            }
            17 | 18 => {
                let mut found = false;
                let put = rng.chance(1, 2);
                let how = rng.below(3);
                let mut f = |e: Option<Ent>| {
                    found = !none(&e);
                    if put {
                        VOp::Put(init())
                    } else if id % 2 == 0 {
                        VOp::Remove
                    } else {
                        VOp::Nop
                    }
                };
                let r = match how {
                    0 => Ok(api.compute(ka, &mut f)),
                    1 => api.try_compute(ka, &mut |e| Ok(f(e))),
                    _ => api.try_compute_nobody(ka, &mut |e| Ok(f(e))),
                };
                must!(!found, "a compute closure saw an entry");
                let good = match &r {
                    Ok(CompResult::Inserted(e)) => put && e.value().id() == id,
                    Ok(CompResult::StillNone(_)) => !put,
                    _ => false,
                };
                must!(
                    good,
                    "compute (put: {put}) returned {}",
                    r.as_ref().map_or("an error", crate::seq::comp_name)
                );
            }
            19 => {
                match rng.below(3) {
                    0 => api.invalidate_all(),
                    1 => {
                        let ok = api.invalidate_if(Box::new(|_, _| true));
                        must!(ok == cfg.inval, "invalidate_entries_if was accepted: {ok}");
                    }
                    _ => api.run_pending(),
                };
                clock.advance(Duration::from_millis(rng.below(400)));
            }
            20 => {
                let n = api.iter().count();
                must!(n == 0, "the iterator yielded {n} entries");
            }
            _ => {
                // A panicking initialiser.
                let r = catch_unwind(AssertUnwindSafe(|| {
                    api.get_with(ka, &mut || std::panic::panic_any(Expected(2)))
                }));
                must!(r.is_err(), "a panic of the initialiser was lost");
            }
        }
        runs += ran as u64;
        drop(slot);
        let (ec, ws) = (api.entry_count(), api.weighted_size());
        must!(
            ec == 0 && ws == 0,
            "{ec} entries of weight {ws} are reported"
        );
        must!(
            !api.contains(q) && api.get(q).is_none(),
            "k{k} is present after op {op}"
        );
    }
    *st.entry("zero_steps").or_default() += steps;
    *st.entry("stored_values").or_default() += runs;
    for _ in 0..3 {
        api.run_pending();
    }
    must!(api.iter().count() == 0, "the iterator yielded entries");
    must!(
        told.load(SeqCst) == 0,
        "{} departures of values that were never stored were reported",
        told.load(SeqCst)
    );
    // Nothing is kept.
    let t = Arc::clone(&tracker);
    match reclaim_until(|| t.vals.load(SeqCst) == 0) {
        Reclaim::Retained => {
            must!(false, "{} values are retained", t.vals.load(SeqCst));
        }
        Reclaim::Unknown => *st.entry("reclaim_unknown").or_default() += 1,
        Reclaim::Done => {}
    }
    drop(api);
    drop(hooks);
    match reclaim_until(|| t.vals.load(SeqCst) == 0 && t.keys.load(SeqCst) == 0) {
        Reclaim::Retained => {
            must!(false, "{} keys outlive the cache", t.keys.load(SeqCst));
        }
        Reclaim::Unknown => *st.entry("reclaim_unknown").or_default() += 1,
        Reclaim::Done => {}
    }
    set_tracker(None);
    Ok(())
}

/// Several threads on a cache of zero capacity.
fn zero_threads(rng: &mut Rng, st: &mut St, log: &mut Vec<String>) -> R {
    let cfg = Cfg {
        kind: kind(rng),
        cap: Some(0),
        weigher: rng.chance(1, 2),
        listener: rng.chance(1, 2),
        ..Cfg::default()
    };
    log.push(format!("zero capacity, threads: {cfg}"));
    let tracker = Tracker::new();
    let told = Arc::new(AtomicU64::new(0));
    let t2 = Arc::clone(&told);
    let hooks = Hooks {
        listener: Some(Arc::new(move |_, _, _| {
            t2.fetch_add(1, SeqCst);
        })),
        ..Hooks::default()
    };
    let api = build(&cfg, &hooks, None);
    let bad = std::sync::Mutex::new(None::<String>);
    let seed = rng.next();
    let made: std::sync::Mutex<HashMap<u64, u32>> = Default::default();
    std::thread::scope(|sc| {
        for th in 0..3u64 {
            let (api, tracker, bad, made) = (&api, &tracker, &bad, &made);
            sc.spawn(move || {
                set_tracker(Some(Arc::clone(tracker)));
                STRICT_BLOCK.with(|s| s.set(false));
                let mut rng = Rng::of(&[seed, th]);
                for _ in 0..60 {
                    let k = rng.below(3) as u32;
                    let mut mk = || {
                        let v = Val::new(tracker, k, 1, 0);
                        made.lock().unwrap().insert(v.id(), k);
                        v
                    };
                    let got = match rng.below(6) {
                        0 => Some(api.get_with(KeyArg::Owned(Key::new(k, tracker)), &mut mk)),
                        1 => api
                            .opt_get_with(KeyArg::Owned(Key::new(k, tracker)), &mut || Some(mk())),
                        2 => Some(
                            api.upsert(KeyArg::Owned(Key::new(k, tracker)), &mut |_| mk())
                                .into_value(),
                        ),
                        3 => {
                            api.insert(Key::new(k, tracker), mk());
                            continue;
                        }
                        4 => {
                            if api.iter().next().is_some() || api.entry_count() != 0 {
                                *bad.lock().unwrap() = Some("something is stored".into());
                            }
                            continue;
                        }
                        _ => {
                            api.run_pending();
                            continue;
                        }
                    };
                    match got {
                        Some(v) if made.lock().unwrap().get(&v.id()) == Some(&k) => {}
                        v => *bad.lock().unwrap() = Some(format!("k{k} was given {v:?}")),
                    }
                }
                set_tracker(None);
            });
        }
    });
    api.run_pending();
    let n = api.iter().count();
    if let Some(m) = bad.into_inner().unwrap() {
        return viol(&["C20"], format!("zero capacity, threads: {m}"));
    }
    if n > 0 || api.entry_count() > 0 || told.load(SeqCst) > 0 {
        return viol(
            &["C20"],
            format!(
                "zero capacity, threads: {n} entries, {} notifications",
                told.load(SeqCst)
            ),
        );
    }
    *st.entry("zero_thread_rounds").or_default() += 1;
    *st.entry("stored_values").or_default() += made.into_inner().unwrap().len() as u64;
    Ok(())
}

pub fn run_case(_prop: &'static str, seed: u64, case: u64) -> CaseOut {
    let mut rng = Rng::of(&[seed, 0x6, case]);
    let mut st = St::new();
    let mut log = vec![];
    STRICT_BLOCK.with(|s| s.set(true));
    let shape = rng.below(8);
    watch::config("a configuration");
    let r = catch_unwind(AssertUnwindSafe(|| match shape {
        0 | 1 => reporting(&mut rng, &mut st, &mut log),
        2 => refusing(&mut rng, &mut st, &mut log),
        3..=6 => zero(&mut rng, &mut st, &mut log),
        _ => zero_threads(&mut rng, &mut st, &mut log),
    }))
    .unwrap_or_else(|_| {
        set_tracker(None);
        viol(
            &["C20"],
            format!("a call panicked: {}", crate::last_panic()),
        )
    });
    CaseOut {
        config: format!("shape {shape}"),
        st,
        log,
        r,
    }
}
