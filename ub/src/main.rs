//! Small multi-threaded workloads for Miri (and the sanitizers). All randomness comes from
//! `RandomState`, that is, from Miri's own seed, so a seed replays workload and schedule.
//!
//! The threads share nothing but the cache and relaxed counters: anything else would order
//! accesses that the cache has to order itself.

use moka::{future, notification::RemovalCause, ops::compute::Op, policy::EvictionPolicy, sync, Expiry};
use std::{
    collections::hash_map::RandomState,
    future::Future,
    hash::{BuildHasher, Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    pin::{pin, Pin},
    sync::{
        atomic::{AtomicU32, AtomicU64, Ordering::Relaxed},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
    thread,
    time::{Duration, Instant},
};

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}

thread_local! {
    /// The how-manieth of the thread's next callbacks panics.
    static BOMB: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Called by all callbacks that may panic.
fn bomb() {
    let _ = BOMB.try_with(|b| {
        let n = b.get();
        if n > 0 {
            b.set(n - 1);
            if n == 1 && !thread::panicking() {
                std::panic::resume_unwind(Box::new("bomb"));
            }
        }
    });
}

/// Whether `eq` and `hash` may panic: that may leave the cache unusable (not unsafe).
static KEY_BOMBS: AtomicU32 = AtomicU32::new(0);
fn key_bomb() {
    if KEY_BOMBS.load(Relaxed) != 0 {
        bomb()
    }
}

/// A key on the heap, so that a use after its release is a use of freed memory.
#[derive(Clone, Debug)]
struct K(Box<u32>);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        key_bomb();
        *self.0 == *o.0
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        key_bomb();
        h.write_u32(*self.0)
    }
}

/// A value on the heap: reading it and releasing it race unless the cache orders them.
#[derive(Debug)]
struct V(Box<[u32; 2]>);
impl Clone for V {
    fn clone(&self) -> V {
        bomb();
        V(self.0.clone())
    }
}
impl V {
    fn new(k: u32, n: u32) -> V {
        V(Box::new([k, n]))
    }
}

#[derive(Clone, Copy, Debug)]
enum H {
    Good,
    /// Equal hashes.
    Same,
    /// One segment of the hash table, spread buckets.
    Seg,
}
struct Hs(H, u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        match self.0 {
            H::Good => Rng(self.1).next(),
            H::Same => 7,
            H::Seg => Rng(self.1).next() >> 3,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = self.1.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
impl BuildHasher for H {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(*self, 0)
    }
}

struct Exp(u64);
impl Exp {
    fn d(&self, k: &K, v: &V) -> Option<Duration> {
        bomb();
        match (*k.0 as u64 + v.0[1] as u64 + self.0) % 5 {
            0 => None,
            1 => Some(Duration::ZERO),
            n => Some(Duration::from_millis(10 << (3 * n))),
        }
    }
}
impl Expiry<K, V> for Exp {
    fn expire_after_create(&self, k: &K, v: &V, _: Instant) -> Option<Duration> {
        self.d(k, v)
    }
    fn expire_after_read(&self, k: &K, v: &V, _: Instant, d: Option<Duration>, _: Instant) -> Option<Duration> {
        if (*k.0).is_multiple_of(2) {
            d
        } else {
            self.d(k, v)
        }
    }
    fn expire_after_update(&self, k: &K, v: &V, _: Instant, _: Option<Duration>) -> Option<Duration> {
        self.d(k, v)
    }
}

#[derive(Default)]
struct Tally {
    notes: AtomicU32,
    hits: AtomicU32,
    ops: AtomicU32,
    inits: AtomicU32,
    items: AtomicU32,
    drops: AtomicU32,
    panics: AtomicU32,
    /// Order of the operations, for the fingerprint of the interleaving.
    stamp: AtomicU64,
}

#[derive(Clone, Debug)]
struct Cfg {
    hash: H,
    keys: u32,
    cap: Option<u64>,
    lru: bool,
    weigher: bool,
    ttl: Option<u64>,
    tti: Option<u64>,
    exp: bool,
    listener: bool,
    slow: bool,
    inval_if: bool,
    nseg: usize,
    threads: usize,
    ops: usize,
    churn: bool,
    panics: bool,
}

macro_rules! build {
    ($b:expr, $c:expr, $seg:tt, $ex:expr) => {{
        let c = $c;
        let mut b = $b.eviction_policy(if c.lru { EvictionPolicy::lru() } else { EvictionPolicy::tiny_lfu() });
        if let Some(n) = c.cap {
            b = b.max_capacity(n);
        }
        if c.weigher {
            b = b.weigher(|_, v: &V| {
                bomb();
                v.0[1] % 3
            });
        }
        if let Some(n) = c.ttl {
            b = b.time_to_live(Duration::from_millis(n));
        }
        if let Some(n) = c.tti {
            b = b.time_to_idle(Duration::from_millis(n));
        }
        if c.exp {
            b = b.expire_after(Exp($ex));
        }
        if c.inval_if {
            b = b.support_invalidation_closures();
        }
        b
    }};
}

/// What the workloads need of a cache; the calls block.
trait Api: Send + Sync {
    fn get(&self, k: &K) -> Option<V>;
    fn insert(&self, k: K, v: V);
    fn remove(&self, k: &K) -> Option<V>;
    fn invalidate(&self, k: &K);
    fn contains(&self, k: &K) -> bool;
    fn get_with(&self, k: K, f: &mut dyn FnMut() -> V) -> V;
    fn try_get_with(&self, k: K, f: &mut dyn FnMut() -> Result<V, u32>) -> Option<V>;
    fn upsert(&self, k: K, f: &mut dyn FnMut(Option<V>) -> V) -> V;
    fn compute(&self, k: K, f: &mut dyn FnMut(Option<V>) -> Op<V>);
    fn iter(&self, f: &mut dyn FnMut(&K, &V));
    fn inval_all(&self);
    fn inval_if(&self, m: u32);
    fn sync(&self);
    fn count(&self) -> u64;
    fn weight(&self) -> u64;
    /// Starts an operation, polls it a few times, and drops it.
    fn dropped(&self, _k: K, _v: V, _what: u64, _polls: u64) {}
}

macro_rules! sync_api {
    ($t:ty, $inval_if:item, $entry:item, $comp:item) => {
        impl Api for $t {
            fn get(&self, k: &K) -> Option<V> {
                self.get(k)
            }
            fn insert(&self, k: K, v: V) {
                self.insert(k, v)
            }
            fn remove(&self, k: &K) -> Option<V> {
                self.remove(k)
            }
            fn invalidate(&self, k: &K) {
                self.invalidate(k)
            }
            fn contains(&self, k: &K) -> bool {
                self.contains_key(k)
            }
            fn get_with(&self, k: K, f: &mut dyn FnMut() -> V) -> V {
                self.get_with(k, f)
            }
            fn try_get_with(&self, k: K, f: &mut dyn FnMut() -> Result<V, u32>) -> Option<V> {
                self.try_get_with(k, f).ok()
            }
            fn iter(&self, f: &mut dyn FnMut(&K, &V)) {
                for (k, v) in self.iter() {
                    f(&k, &v)
                }
            }
            fn inval_all(&self) {
                self.invalidate_all()
            }
            fn sync(&self) {
                self.run_pending_tasks()
            }
            fn count(&self) -> u64 {
                self.entry_count()
            }
            fn weight(&self) -> u64 {
                self.weighted_size()
            }
            $inval_if
            $entry
            $comp
        }
    };
}
sync_api!(
    sync::Cache<K, V, H>,
    fn inval_if(&self, m: u32) {
        let _ = self.invalidate_entries_if(move |k, v| {
            bomb();
            (*k.0 + v.0[1]).is_multiple_of(m)
        });
    },
    fn upsert(&self, k: K, f: &mut dyn FnMut(Option<V>) -> V) -> V {
        self.entry(k).and_upsert_with(|e| f(e.map(|e| e.into_value()))).into_value()
    },
    fn compute(&self, k: K, f: &mut dyn FnMut(Option<V>) -> Op<V>) {
        self.entry(k).and_compute_with(|e| f(e.map(|e| e.into_value())));
    }
);
sync_api!(
    sync::SegmentedCache<K, V, H>,
    fn inval_if(&self, m: u32) {
        let _ = self.invalidate_entries_if(move |k, v| {
            bomb();
            (*k.0 + v.0[1]).is_multiple_of(m)
        });
    },
    fn upsert(&self, k: K, f: &mut dyn FnMut(Option<V>) -> V) -> V {
        self.entry(k).and_upsert_with(|e| f(e.map(|e| e.into_value()))).into_value()
    },
    fn compute(&self, k: K, f: &mut dyn FnMut(Option<V>) -> Op<V>) {
        self.entry(k).and_compute_with(|e| f(e.map(|e| e.into_value())));
    }
);

struct Unpark(thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Unpark(thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        thread::park();
    }
}
fn few_polls<F: Future>(f: F, n: u64) {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Unpark(thread::current())));
    let mut cx = Context::from_waker(&w);
    for _ in 0..n {
        if f.as_mut().poll(&mut cx).is_ready() {
            break;
        }
        thread::yield_now();
    }
}
/// Suspends a few times.
struct Pause(u32);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl Api for future::Cache<K, V, H> {
    fn get(&self, k: &K) -> Option<V> {
        block_on(self.get(k))
    }
    fn insert(&self, k: K, v: V) {
        block_on(self.insert(k, v))
    }
    fn remove(&self, k: &K) -> Option<V> {
        block_on(self.remove(k))
    }
    fn invalidate(&self, k: &K) {
        block_on(self.invalidate(k))
    }
    fn contains(&self, k: &K) -> bool {
        self.contains_key(k)
    }
    fn get_with(&self, k: K, f: &mut dyn FnMut() -> V) -> V {
        block_on(self.get_with(k, async move {
            Pause(1).await;
            f()
        }))
    }
    fn try_get_with(&self, k: K, f: &mut dyn FnMut() -> Result<V, u32>) -> Option<V> {
        block_on(self.try_get_with(k, async move {
            Pause(1).await;
            f()
        }))
        .ok()
    }
    fn upsert(&self, k: K, f: &mut dyn FnMut(Option<V>) -> V) -> V {
        block_on(self.entry(k).and_upsert_with(|e| {
            let v = f(e.map(|e| e.into_value()));
            async move {
                Pause(1).await;
                v
            }
        }))
        .into_value()
    }
    fn compute(&self, k: K, f: &mut dyn FnMut(Option<V>) -> Op<V>) {
        block_on(self.entry(k).and_compute_with(|e| {
            let o = f(e.map(|e| e.into_value()));
            async move {
                Pause(1).await;
                o
            }
        }));
    }
    fn iter(&self, f: &mut dyn FnMut(&K, &V)) {
        for (k, v) in self.iter() {
            f(&k, &v)
        }
    }
    fn inval_all(&self) {
        self.invalidate_all()
    }
    fn inval_if(&self, m: u32) {
        let _ = self.invalidate_entries_if(move |k, v| {
            bomb();
            (*k.0 + v.0[1]).is_multiple_of(m)
        });
    }
    fn sync(&self) {
        block_on(self.run_pending_tasks())
    }
    fn count(&self) -> u64 {
        self.entry_count()
    }
    fn weight(&self) -> u64 {
        self.weighted_size()
    }
    fn dropped(&self, k: K, v: V, what: u64, n: u64) {
        match what {
            0 => few_polls(self.insert(k, v), n),
            1 => few_polls(self.invalidate(&k), n),
            2 => few_polls(
                self.get_with(k, async move {
                    Pause(2).await;
                    v
                }),
                n,
            ),
            3 => few_polls(
                self.entry(k).and_compute_with(|_| async move {
                    Pause(2).await;
                    Op::Put(v)
                }),
                n,
            ),
            4 => few_polls(self.remove(&k), n),
            _ => few_polls(self.run_pending_tasks(), n),
        }
    }
}

fn make(kind: u64, c: &Cfg, t: &Arc<Tally>) -> Box<dyn Fn() -> Box<dyn Api>> {
    let note = {
        let t = Arc::clone(t);
        move |k: Arc<K>, v: V, _: RemovalCause| {
            assert_eq!(*k.0, v.0[0], "a listener was given another key's value");
            bomb();
            t.notes.fetch_add(1, Relaxed);
        }
    };
    match kind {
        0 => {
            let mut b = build!(sync::Cache::builder(), c, false, 3);
            if c.listener {
                let slow = c.slow;
                b = b.eviction_listener(move |k, v, r| {
                    if slow {
                        thread::yield_now();
                    }
                    note(k, v, r)
                });
            }
            let c = b.build_with_hasher(c.hash);
            Box::new(move || Box::new(c.clone()))
        }
        1 => {
            let mut b = build!(sync::Cache::builder().segments(c.nseg), c, true, 3);
            if c.listener {
                b = b.eviction_listener(note);
            }
            let c = b.build_with_hasher(c.hash);
            Box::new(move || Box::new(c.clone()))
        }
        _ => {
            let mut b = build!(future::Cache::builder(), c, false, 3);
            if c.listener {
                if c.slow {
                    b = b.async_eviction_listener(move |k, v, r| {
                        note(k, v, r);
                        Box::pin(Pause(1))
                    });
                } else {
                    b = b.eviction_listener(note);
                }
            }
            let c = b.build_with_hasher(c.hash);
            Box::new(move || Box::new(c.clone()))
        }
    }
}

thread_local! {
    static YIELD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Called by the cache at marked points.
fn point(_: &'static str) {
    let _ = YIELD.try_with(|y| {
        if y.get() != 0 {
            let mut r = Rng(y.get());
            if r.one_in(3) {
                thread::yield_now()
            }
            y.set(r.0 | 1);
        }
    });
}

fn worker(c: &dyn Api, cf: &Cfg, id: u32, mut r: Rng, t: &Tally, isfut: bool) -> u64 {
    let mut fp = 0u64;
    let mut next_key = 0;
    if r.one_in(2) {
        YIELD.with(|y| y.set(r.next() | 1));
    }
    for i in 0..cf.ops {
        let kn = if cf.churn && r.one_in(2) {
            next_key += 1;
            (next_key * 3 + id) % cf.keys.max(1)
        } else {
            r.below(cf.keys as u64) as u32
        };
        let k = K(Box::new(kn));
        let vn = id * 1000 + i as u32;
        let mk = || {
            bomb();
            V::new(kn, vn)
        };
        let hit = |v: &V| {
            assert_eq!(v.0[0], kn, "key {kn} holds another key's value");
            t.hits.fetch_add(1, Relaxed);
        };
        let o = r.below(if cf.churn { 14 } else { 26 });
        fp = fp
            .wrapping_mul(0x100_0000_01b3)
            .wrapping_add(t.stamp.fetch_add(1, Relaxed) << 8 | o);
        t.ops.fetch_add(1, Relaxed);
        let arm = if r.one_in(3) { 1 + r.below(8) } else { 0 };
        let act = || match o {
            0..=3 => c.insert(k, mk()),
            4..=7 => {
                if let Some(v) = c.get(&k) {
                    hit(&v)
                }
            }
            8 => c.invalidate(&k),
            9 => {
                if let Some(v) = c.remove(&k) {
                    hit(&v)
                }
            }
            10 => {
                if cf.churn && !r.one_in(4) {
                    c.insert(k, mk())
                } else {
                    c.sync()
                }
            }
            11 => {
                if !cf.churn || r.one_in(6) {
                    c.iter(&mut |k, v| {
                        assert_eq!(*k.0, v.0[0]);
                        t.items.fetch_add(1, Relaxed);
                    })
                } else {
                    c.insert(k, mk())
                }
            }
            12 => {
                c.contains(&k);
            }
            13 | 14 => {
                let v = c.get_with(k, &mut || {
                    t.inits.fetch_add(1, Relaxed);
                    mk()
                });
                hit(&v);
            }
            15 => {
                let fail = r.one_in(2);
                if let Some(v) = c.try_get_with(k, &mut || {
                    t.inits.fetch_add(1, Relaxed);
                    if fail {
                        Err(1)
                    } else {
                        Ok(mk())
                    }
                }) {
                    hit(&v)
                }
            }
            16 | 17 => {
                let v = c.upsert(k, &mut |o| {
                    if let Some(o) = o {
                        hit(&o)
                    }
                    mk()
                });
                hit(&v);
            }
            18 | 19 => {
                let w = r.below(3);
                c.compute(k, &mut |o| {
                    if let Some(o) = o {
                        hit(&o)
                    }
                    match w {
                        0 => Op::Nop,
                        1 => Op::Put(mk()),
                        _ => Op::Remove,
                    }
                })
            }
            20 => {
                if r.one_in(2) {
                    c.inval_all()
                } else if cf.inval_if {
                    c.inval_if(2 + r.below(3) as u32)
                }
            }
            21 | 22 => {
                c.count();
                c.weight();
            }
            23 => {
                if isfut {
                    t.drops.fetch_add(1, Relaxed);
                    c.dropped(k, mk(), r.below(6), 1 + r.below(3));
                } else {
                    c.insert(k, mk())
                }
            }
            24 => {
                if r.one_in(2) {
                    thread::sleep(Duration::from_millis(r.pick(&[1, 50, 400, 3000])))
                }
            }
            _ => c.sync(),
        };
        if cf.panics {
            BOMB.with(|b| b.set(arm));
            let ok = catch_unwind(AssertUnwindSafe(act)).is_ok();
            BOMB.with(|b| b.set(0));
            if !ok {
                t.panics.fetch_add(1, Relaxed);
            }
        } else {
            act()
        }
    }
    fp
}

fn main() {
    let arg: Vec<u64> = std::env::args().skip(1).filter_map(|a| a.parse().ok()).collect();
    let seed = RandomState::new().build_hasher().finish();
    let mut r = Rng(if arg.len() > 1 { arg[1] } else { seed });
    let scale = arg.first().copied().unwrap_or(1) as usize;
    if scale == 0 {
        return;
    }
    let kind = r.pick(&[0, 0, 0, 1, 2, 2]);
    let churn = r.one_in(3);
    let life = r.below(4);
    let cf = Cfg {
        hash: r.pick(&[H::Good, H::Same, H::Same, H::Seg, H::Seg, H::Seg]),
        keys: if churn { r.pick(&[12, 24]) } else { r.pick(&[1, 2, 2, 3, 5]) },
        cap: r.pick(&[None, None, Some(2), Some(3), Some(8)]),
        lru: r.one_in(2),
        weigher: r.one_in(3),
        ttl: (life & 1 == 1).then(|| r.pick(&[5, 40, 1500])),
        tti: (r.one_in(4)).then(|| r.pick(&[7, 60, 2500])),
        exp: life >= 2,
        listener: r.one_in(2),
        slow: r.one_in(2),
        inval_if: r.one_in(3),
        nseg: r.pick(&[1, 2, 4]),
        threads: r.pick(&[2, 2, 3]),
        ops: (if churn { 14 } else { 9 }) * scale,
        churn,
        panics: r.one_in(4),
    };
    KEY_BOMBS.store(r.one_in(4) as u32, Relaxed);
    moka::verif::set_point_hook(Some(point));
    let t = Arc::new(Tally::default());
    let mut fp = 0u64;
    {
        let handle = make(kind, &cf, &t);
        // Some start with contents.
        if r.one_in(2) {
            let c = handle();
            for n in 0..cf.keys.min(6) {
                c.insert(K(Box::new(n)), V::new(n, n));
            }
        }
        // Dropping a cache takes as long as a dozen operations.
        let (keep, early, leak) = (r.one_in(2), r.one_in(4), r.one_in(2));
        let hs: Vec<_> = (0..cf.threads as u32)
            .map(|id| {
                let (c, cf, r, t) = (handle(), cf.clone(), Rng(r.next()), Arc::clone(&t));
                thread::spawn(move || worker(&*c, &cf, id + 1, r, &t, kind == 2))
            })
            .collect();
        if early {
            // The last thread to end drops the cache.
            drop(handle);
            for h in hs {
                fp = fp.rotate_left(9) ^ h.join().expect("a worker panicked");
            }
        } else {
            for h in hs {
                fp = fp.rotate_left(9) ^ h.join().expect("a worker panicked");
            }
            let c = handle();
            if keep {
                c.sync();
                c.iter(&mut |k, v| assert_eq!(*k.0, v.0[0]));
            }
            if leak {
                std::mem::forget(handle);
            }
        }
    }
    let n = |a: &AtomicU32| a.load(Relaxed);
    println!(
        "RUN kind={kind} fp={fp:016x} threads={} ops={} hits={} notes={} inits={} items={} drops={} panics={} :: {cf:?}",
        cf.threads,
        n(&t.ops),
        n(&t.hits),
        n(&t.notes),
        n(&t.inits),
        n(&t.items),
        n(&t.drops),
        n(&t.panics)
    );
}
