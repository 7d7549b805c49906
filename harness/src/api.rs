//! One interface over `sync::Cache`, `sync::SegmentedCache` and `future::Cache`.
use crate::types::*;
use moka::{
    ops::compute::{CompResult, Op},
    policy::EvictionPolicy,
    verif::MockClock,
    Entry, Expiry, Policy,
};
use std::{
    future::Future,
    pin::pin,
    sync::{
        atomic::{AtomicBool, Ordering::*},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

pub use moka::notification::RemovalCause;

pub type Ent = Entry<Key, Val>;
pub type Comp = CompResult<Key, Val>;
pub type VOp = Op<Val>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MyErr(pub u64);

/// A second error type, so that `try_get_with` calls of different kinds exist.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MyErr2(pub u64);

pub enum KeyArg<'a> {
    Owned(Key),
    Ref(&'a Kq),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Sync,
    Seg(usize),
    Fut,
}

pub type Listener = Arc<dyn Fn(Arc<Key>, Val, RemovalCause) + Send + Sync>;
pub type Pred = Box<dyn Fn(&Key, &Val) -> bool + Send + Sync>;

#[derive(Clone)]
pub struct Cfg {
    pub kind: Kind,
    pub hash: HashKind,
    pub cap: Option<u64>,
    pub lru: bool,
    pub weigher: bool,
    pub ttl: Option<Duration>,
    pub tti: Option<Duration>,
    pub expiry: bool,
    pub listener: bool,
    pub async_listener: bool,
    pub inval: bool,
    pub initial: Option<usize>,
    pub mock: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            kind: Kind::Sync,
            hash: HashKind::Good(1),
            cap: None,
            lru: false,
            weigher: false,
            ttl: None,
            tti: None,
            expiry: false,
            listener: false,
            async_listener: false,
            inval: false,
            initial: None,
            mock: true,
        }
    }
}

impl std::fmt::Display for Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{:?} hash={:?} cap={:?} {}{} ttl={:?} tti={:?}{}{}{}{}",
            self.kind,
            self.hash,
            self.cap,
            if self.lru { "lru" } else { "lfu" },
            if self.weigher { " weigher" } else { "" },
            self.ttl,
            self.tti,
            if self.expiry { " expiry" } else { "" },
            match (self.listener, self.async_listener) {
                (false, _) => "",
                (true, false) => " listener",
                (true, true) => " async-listener",
            },
            if self.inval { " inval" } else { "" },
            match self.initial {
                None => String::new(),
                Some(n) => format!(" initial={n}"),
            }
        )
    }
}

/// The user callbacks of a cache.
#[derive(Default)]
pub struct Hooks {
    pub listener: Option<Listener>,
    pub weigher: Option<Arc<dyn Fn(&Key, &Val) -> u32 + Send + Sync>>,
    pub expiry: Option<Arc<dyn Expiry<Key, Val> + Send + Sync>>,
    /// Number of polls an async listener suspends.
    pub listener_suspend: Option<Arc<dyn Fn() -> u32 + Send + Sync>>,
    /// A listener that is a future all the way, in place of `listener`.
    pub listener_fut: Option<ListenerFut>,
}

pub type ListenerFut = Arc<
    dyn Fn(Arc<Key>, Val, RemovalCause) -> std::pin::Pin<Box<dyn Future<Output = ()> + Send>>
        + Send
        + Sync,
>;

pub struct ExpArc(pub Arc<dyn Expiry<Key, Val> + Send + Sync>);
impl Expiry<Key, Val> for ExpArc {
    fn expire_after_create(&self, k: &Key, v: &Val, t: std::time::Instant) -> Option<Duration> {
        self.0.expire_after_create(k, v, t)
    }
    fn expire_after_read(
        &self,
        k: &Key,
        v: &Val,
        t: std::time::Instant,
        d: Option<Duration>,
        lm: std::time::Instant,
    ) -> Option<Duration> {
        self.0.expire_after_read(k, v, t, d, lm)
    }
    fn expire_after_update(
        &self,
        k: &Key,
        v: &Val,
        t: std::time::Instant,
        d: Option<Duration>,
    ) -> Option<Duration> {
        self.0.expire_after_update(k, v, t, d)
    }
}

pub trait Api: Send + Sync {
    fn get(&self, k: &Kq) -> Option<Val>;
    fn contains(&self, k: &Kq) -> bool;
    fn insert(&self, k: Key, v: Val);
    fn remove(&self, k: &Kq) -> Option<Val>;
    fn invalidate(&self, k: &Kq);
    fn get_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Val) -> Val;
    fn get_with_if(
        &self,
        k: Key,
        init: &mut dyn FnMut() -> Val,
        rep: &mut (dyn FnMut(&Val) -> bool + Send),
    ) -> Val;
    fn opt_get_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Option<Val>) -> Option<Val>;
    fn try_get_with(
        &self,
        k: KeyArg,
        init: &mut dyn FnMut() -> Result<Val, MyErr>,
    ) -> Result<Val, Arc<MyErr>>;
    /// `try_get_with` with `()` as the error.
    fn try_get_with_unit(
        &self,
        k: Key,
        init: &mut dyn FnMut() -> Result<Val, ()>,
    ) -> Result<Val, Arc<()>>;
    /// `try_get_with` with another error type.
    fn try_get_with2(
        &self,
        k: Key,
        init: &mut dyn FnMut() -> Result<Val, MyErr2>,
    ) -> Result<Val, Arc<MyErr2>>;
    fn or_insert(&self, k: KeyArg, v: Val) -> Ent;
    fn or_default(&self, k: KeyArg) -> Ent;
    fn or_insert_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Val) -> Ent;
    fn or_insert_with_if(
        &self,
        k: KeyArg,
        init: &mut dyn FnMut() -> Val,
        rep: &mut (dyn FnMut(&Val) -> bool + Send),
    ) -> Ent;
    fn or_opt(&self, k: KeyArg, init: &mut dyn FnMut() -> Option<Val>) -> Option<Ent>;
    fn or_try(
        &self,
        k: KeyArg,
        init: &mut dyn FnMut() -> Result<Val, MyErr>,
    ) -> Result<Ent, Arc<MyErr>>;
    fn upsert(&self, k: KeyArg, f: &mut dyn FnMut(Option<Ent>) -> Val) -> Ent;
    fn compute(&self, k: KeyArg, f: &mut dyn FnMut(Option<Ent>) -> VOp) -> Comp;
    fn try_compute(
        &self,
        k: KeyArg,
        f: &mut dyn FnMut(Option<Ent>) -> Result<VOp, MyErr>,
    ) -> Result<Comp, MyErr>;
    /// Only the future cache has this; the others do `try_compute`.
    fn try_compute_nobody(
        &self,
        k: KeyArg,
        f: &mut dyn FnMut(Option<Ent>) -> Result<VOp, MyErr>,
    ) -> Result<Comp, MyErr>;
    fn invalidate_all(&self);
    fn invalidate_if(&self, p: Pred) -> bool;
    fn iter(&self) -> Box<dyn Iterator<Item = (Arc<Key>, Val)> + '_>;
    fn run_pending(&self);
    fn entry_count(&self) -> u64;
    fn weighted_size(&self) -> u64;
    fn policy(&self) -> Policy;
    fn name(&self) -> Option<String>;
    fn debug(&self) -> String;
    fn dup(&self) -> Box<dyn Api>;
}

macro_rules! by_key {
    ($self:ident, $k:ident, $sel:ident => $e:expr) => {
        match $k {
            KeyArg::Owned(k) => {
                let $sel = $self.0.entry(k);
                $e
            }
            KeyArg::Ref(k) => {
                let $sel = $self.0.entry_by_ref(k);
                $e
            }
        }
    };
}

/// Takes turns between two ways of saying the same.
fn flip() -> bool {
    thread_local!(static N: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    N.with(|n| {
        n.set(!n.get());
        n.get()
    })
}

macro_rules! impl_sync {
    ($name:ident, $cache:ty, $get:ident, $try_get:ident) => {
        pub struct $name(pub $cache);
        impl Api for $name {
            fn get(&self, k: &Kq) -> Option<Val> {
                self.0.get(k)
            }
            fn contains(&self, k: &Kq) -> bool {
                self.0.contains_key(k)
            }
            fn insert(&self, k: Key, v: Val) {
                self.0.insert(k, v)
            }
            fn remove(&self, k: &Kq) -> Option<Val> {
                self.0.remove(k)
            }
            fn invalidate(&self, k: &Kq) {
                self.0.invalidate(k)
            }
            #[allow(deprecated)]
            fn get_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Val) -> Val {
                match k {
                    KeyArg::Owned(k) if flip() => self.0.$get(k, || init()),
                    KeyArg::Owned(k) => self.0.get_with(k, || init()),
                    KeyArg::Ref(k) => self.0.get_with_by_ref(k, || init()),
                }
            }
            #[allow(deprecated)]
            fn get_with_if(
                &self,
                k: Key,
                init: &mut dyn FnMut() -> Val,
                rep: &mut (dyn FnMut(&Val) -> bool + Send),
            ) -> Val {
                self.0.get_with_if(k, || init(), |v| rep(v))
            }
            fn opt_get_with(
                &self,
                k: KeyArg,
                init: &mut dyn FnMut() -> Option<Val>,
            ) -> Option<Val> {
                match k {
                    KeyArg::Owned(k) => self.0.optionally_get_with(k, || init()),
                    KeyArg::Ref(k) => self.0.optionally_get_with_by_ref(k, || init()),
                }
            }
            #[allow(deprecated)]
            fn try_get_with(
                &self,
                k: KeyArg,
                init: &mut dyn FnMut() -> Result<Val, MyErr>,
            ) -> Result<Val, Arc<MyErr>> {
                match k {
                    KeyArg::Owned(k) if flip() => self.0.$try_get(k, || init()),
                    KeyArg::Owned(k) => self.0.try_get_with(k, || init()),
                    KeyArg::Ref(k) => self.0.try_get_with_by_ref(k, || init()),
                }
            }
            fn try_get_with_unit(
                &self,
                k: Key,
                init: &mut dyn FnMut() -> Result<Val, ()>,
            ) -> Result<Val, Arc<()>> {
                self.0.try_get_with(k, || init())
            }
            fn try_get_with2(
                &self,
                k: Key,
                init: &mut dyn FnMut() -> Result<Val, MyErr2>,
            ) -> Result<Val, Arc<MyErr2>> {
                self.0.try_get_with(k, || init())
            }
            fn or_insert(&self, k: KeyArg, v: Val) -> Ent {
                by_key!(self, k, s => s.or_insert(v))
            }
            fn or_default(&self, k: KeyArg) -> Ent {
                by_key!(self, k, s => s.or_default())
            }
            fn or_insert_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Val) -> Ent {
                by_key!(self, k, s => s.or_insert_with(|| init()))
            }
            fn or_insert_with_if(
                &self,
                k: KeyArg,
                init: &mut dyn FnMut() -> Val,
                rep: &mut (dyn FnMut(&Val) -> bool + Send),
            ) -> Ent {
                by_key!(self, k, s => s.or_insert_with_if(|| init(), |v| rep(v)))
            }
            fn or_opt(&self, k: KeyArg, init: &mut dyn FnMut() -> Option<Val>) -> Option<Ent> {
                by_key!(self, k, s => s.or_optionally_insert_with(|| init()))
            }
            fn or_try(
                &self,
                k: KeyArg,
                init: &mut dyn FnMut() -> Result<Val, MyErr>,
            ) -> Result<Ent, Arc<MyErr>> {
                by_key!(self, k, s => s.or_try_insert_with(|| init()))
            }
            fn upsert(&self, k: KeyArg, f: &mut dyn FnMut(Option<Ent>) -> Val) -> Ent {
                by_key!(self, k, s => s.and_upsert_with(|e| f(e)))
            }
            fn compute(&self, k: KeyArg, f: &mut dyn FnMut(Option<Ent>) -> VOp) -> Comp {
                by_key!(self, k, s => s.and_compute_with(|e| f(e)))
            }
            fn try_compute(
                &self,
                k: KeyArg,
                f: &mut dyn FnMut(Option<Ent>) -> Result<VOp, MyErr>,
            ) -> Result<Comp, MyErr> {
                by_key!(self, k, s => s.and_try_compute_with(|e| f(e)))
            }
            fn try_compute_nobody(
                &self,
                k: KeyArg,
                f: &mut dyn FnMut(Option<Ent>) -> Result<VOp, MyErr>,
            ) -> Result<Comp, MyErr> {
                self.try_compute(k, f)
            }
            fn invalidate_all(&self) {
                self.0.invalidate_all()
            }
            fn invalidate_if(&self, p: Pred) -> bool {
                self.0.invalidate_entries_if(p).is_ok()
            }
            fn iter(&self) -> Box<dyn Iterator<Item = (Arc<Key>, Val)> + '_> {
                if flip() {
                    Box::new(self.0.iter())
                } else {
                    Box::new((&self.0).into_iter())
                }
            }
            fn run_pending(&self) {
                self.0.run_pending_tasks()
            }
            fn entry_count(&self) -> u64 {
                self.0.entry_count()
            }
            fn weighted_size(&self) -> u64 {
                self.0.weighted_size()
            }
            fn policy(&self) -> Policy {
                self.0.policy()
            }
            fn name(&self) -> Option<String> {
                self.0.name().map(|s| s.to_string())
            }
            fn debug(&self) -> String {
                format!("{:?}", self.0)
            }
            fn dup(&self) -> Box<dyn Api> {
                Box::new($name(self.0.clone()))
            }
        }
    };
}

impl_sync!(SyncC, moka::sync::Cache<Key, Val, HB>, get_with, try_get_with);
impl_sync!(SegC, moka::sync::SegmentedCache<Key, Val, HB>, get_or_insert_with, get_or_try_insert_with);

pub type FCache = moka::future::Cache<Key, Val, HB>;
pub struct FutC(pub FCache);

struct Flag(AtomicBool, std::thread::Thread);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
        self.1.unpark();
    }
}

thread_local! {
    /// When set, `block_on` panics if the future is pending and nothing has woken it.
    pub static STRICT_BLOCK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub const HANG_MSG: &str =
    "operation can never complete: its future is pending and nothing will wake it";

/// Runs a future on this thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(Flag(AtomicBool::new(false), std::thread::current()));
    let waker = Waker::from(Arc::clone(&flag));
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    let strict = STRICT_BLOCK.with(|s| s.get());
    let mut polls = 0u64;
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        polls += 1;
        if strict {
            if polls > 2_000_000 {
                panic!("operation never completes: polled {polls} times");
            }
            if !flag.0.swap(false, SeqCst) {
                panic!("{HANG_MSG}");
            }
        } else {
            while !flag.0.swap(false, SeqCst) {
                std::thread::park();
            }
        }
    }
}

impl Api for FutC {
    fn get(&self, k: &Kq) -> Option<Val> {
        block_on(self.0.get(k))
    }
    fn contains(&self, k: &Kq) -> bool {
        self.0.contains_key(k)
    }
    fn insert(&self, k: Key, v: Val) {
        block_on(self.0.insert(k, v))
    }
    fn remove(&self, k: &Kq) -> Option<Val> {
        block_on(self.0.remove(k))
    }
    fn invalidate(&self, k: &Kq) {
        block_on(self.0.invalidate(k))
    }
    fn get_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Val) -> Val {
        match k {
            KeyArg::Owned(k) => block_on(self.0.get_with(k, async { init() })),
            KeyArg::Ref(k) => block_on(self.0.get_with_by_ref(k, async { init() })),
        }
    }
    #[allow(deprecated)]
    fn get_with_if(
        &self,
        k: Key,
        init: &mut dyn FnMut() -> Val,
        rep: &mut (dyn FnMut(&Val) -> bool + Send),
    ) -> Val {
        block_on(self.0.get_with_if(k, async { init() }, |v| rep(v)))
    }
    fn opt_get_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Option<Val>) -> Option<Val> {
        match k {
            KeyArg::Owned(k) => block_on(self.0.optionally_get_with(k, async { init() })),
            KeyArg::Ref(k) => block_on(self.0.optionally_get_with_by_ref(k, async { init() })),
        }
    }
    fn try_get_with(
        &self,
        k: KeyArg,
        init: &mut dyn FnMut() -> Result<Val, MyErr>,
    ) -> Result<Val, Arc<MyErr>> {
        match k {
            KeyArg::Owned(k) => block_on(self.0.try_get_with(k, async { init() })),
            KeyArg::Ref(k) => block_on(self.0.try_get_with_by_ref(k, async { init() })),
        }
    }
    fn try_get_with_unit(
        &self,
        k: Key,
        init: &mut dyn FnMut() -> Result<Val, ()>,
    ) -> Result<Val, Arc<()>> {
        block_on(self.0.try_get_with(k, async { init() }))
    }
    fn try_get_with2(
        &self,
        k: Key,
        init: &mut dyn FnMut() -> Result<Val, MyErr2>,
    ) -> Result<Val, Arc<MyErr2>> {
        block_on(self.0.try_get_with(k, async { init() }))
    }
    fn or_insert(&self, k: KeyArg, v: Val) -> Ent {
        by_key!(self, k, s => block_on(s.or_insert(v)))
    }
    fn or_default(&self, k: KeyArg) -> Ent {
        by_key!(self, k, s => block_on(s.or_default()))
    }
    fn or_insert_with(&self, k: KeyArg, init: &mut dyn FnMut() -> Val) -> Ent {
        by_key!(self, k, s => block_on(s.or_insert_with(async { init() })))
    }
    fn or_insert_with_if(
        &self,
        k: KeyArg,
        init: &mut dyn FnMut() -> Val,
        rep: &mut (dyn FnMut(&Val) -> bool + Send),
    ) -> Ent {
        by_key!(self, k, s => block_on(s.or_insert_with_if(async { init() }, |v| rep(v))))
    }
    fn or_opt(&self, k: KeyArg, init: &mut dyn FnMut() -> Option<Val>) -> Option<Ent> {
        by_key!(self, k, s => block_on(s.or_optionally_insert_with(async { init() })))
    }
    fn or_try(
        &self,
        k: KeyArg,
        init: &mut dyn FnMut() -> Result<Val, MyErr>,
    ) -> Result<Ent, Arc<MyErr>> {
        by_key!(self, k, s => block_on(s.or_try_insert_with(async { init() })))
    }
    fn upsert(&self, k: KeyArg, f: &mut dyn FnMut(Option<Ent>) -> Val) -> Ent {
        by_key!(self, k, s => block_on(s.and_upsert_with(|e| { let r = f(e); async move { r } })))
    }
    fn compute(&self, k: KeyArg, f: &mut dyn FnMut(Option<Ent>) -> VOp) -> Comp {
        by_key!(self, k, s => block_on(s.and_compute_with(|e| { let r = f(e); async move { r } })))
    }
    fn try_compute(
        &self,
        k: KeyArg,
        f: &mut dyn FnMut(Option<Ent>) -> Result<VOp, MyErr>,
    ) -> Result<Comp, MyErr> {
        by_key!(self, k, s => block_on(s.and_try_compute_with(|e| { let r = f(e); async move { r } })))
    }
    fn try_compute_nobody(
        &self,
        k: KeyArg,
        f: &mut dyn FnMut(Option<Ent>) -> Result<VOp, MyErr>,
    ) -> Result<Comp, MyErr> {
        by_key!(self, k, s => block_on(
            s.and_try_compute_if_nobody_else(|e| { let r = f(e); async move { r } })
        ))
    }
    fn invalidate_all(&self) {
        self.0.invalidate_all()
    }
    fn invalidate_if(&self, p: Pred) -> bool {
        self.0.invalidate_entries_if(p).is_ok()
    }
    fn iter(&self) -> Box<dyn Iterator<Item = (Arc<Key>, Val)> + '_> {
        if flip() {
            Box::new(self.0.iter())
        } else {
            Box::new((&self.0).into_iter())
        }
    }
    fn run_pending(&self) {
        block_on(self.0.run_pending_tasks())
    }
    fn entry_count(&self) -> u64 {
        self.0.entry_count()
    }
    fn weighted_size(&self) -> u64 {
        self.0.weighted_size()
    }
    fn policy(&self) -> Policy {
        self.0.policy()
    }
    fn name(&self) -> Option<String> {
        self.0.name().map(|s| s.to_string())
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn dup(&self) -> Box<dyn Api> {
        Box::new(FutC(self.0.clone()))
    }
}

/// Suspends for a number of polls.
pub struct Suspend(pub u32);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

macro_rules! common_opts {
    ($b:ident, $cfg:ident, $hooks:ident, $clock:ident) => {
        if let Some(c) = $cfg.cap {
            $b = $b.max_capacity(c);
        }
        if $cfg.lru {
            $b = $b.eviction_policy(EvictionPolicy::lru());
        }
        if $cfg.weigher {
            $b = match $hooks.weigher.clone() {
                Some(w) => $b.weigher(move |k, v| w(k, v)),
                None => $b.weigher(|_, v: &Val| v.weight()),
            };
        }
        if let Some(d) = $cfg.ttl {
            $b = $b.time_to_live(d);
        }
        if let Some(d) = $cfg.tti {
            $b = $b.time_to_idle(d);
        }
        if $cfg.expiry {
            $b = $b.expire_after(ExpArc($hooks.expiry.clone().expect("no expiry")));
        }
        if $cfg.inval {
            $b = $b.support_invalidation_closures();
        }
        if let Some(n) = $cfg.initial {
            $b = $b.initial_capacity(n);
        }
        if let Some(c) = $clock {
            $b = $b.verif_clock(c);
        }
    };
}

pub fn build_fut(cfg: &Cfg, hooks: &Hooks, clock: Option<&MockClock>) -> FCache {
    let mut b = moka::future::Cache::<Key, Val, std::collections::hash_map::RandomState>::builder();
    common_opts!(b, cfg, hooks, clock);
    if cfg.listener {
        if let Some(lf) = hooks.listener_fut.clone() {
            b = b.async_eviction_listener(move |k, v, c| lf(k, v, c));
            return b.build_with_hasher(HB(cfg.hash));
        }
        let l = hooks.listener.clone().expect("no listener");
        if cfg.async_listener {
            let sus = hooks.listener_suspend.clone();
            b = b.async_eviction_listener(move |k, v, c| {
                let l = Arc::clone(&l);
                let n = sus.as_ref().map_or(0, |s| s());
                Box::pin(async move {
                    Suspend(n).await;
                    l(k, v, c)
                })
            });
        } else {
            b = b.eviction_listener(move |k, v, c| l(k, v, c));
        }
    }
    b.build_with_hasher(HB(cfg.hash))
}

pub fn build(cfg: &Cfg, hooks: &Hooks, clock: Option<&MockClock>) -> Box<dyn Api> {
    match cfg.kind {
        Kind::Sync => {
            let mut b =
                moka::sync::Cache::<Key, Val, std::collections::hash_map::RandomState>::builder();
            common_opts!(b, cfg, hooks, clock);
            if cfg.listener {
                let l = hooks.listener.clone().expect("no listener");
                b = b.eviction_listener(move |k, v, c| l(k, v, c));
            }
            Box::new(SyncC(b.build_with_hasher(HB(cfg.hash))))
        }
        Kind::Seg(n) => {
            let mut b = moka::sync::SegmentedCache::<
                Key,
                Val,
                std::collections::hash_map::RandomState,
            >::builder(n);
            common_opts!(b, cfg, hooks, clock);
            if cfg.listener {
                let l = hooks.listener.clone().expect("no listener");
                b = b.eviction_listener(move |k, v, c| l(k, v, c));
            }
            Box::new(SegC(b.build_with_hasher(HB(cfg.hash))))
        }
        Kind::Fut => Box::new(FutC(build_fut(cfg, hooks, clock))),
    }
}
