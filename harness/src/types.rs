//! Keys, values and hashers that know when they are created, cloned and dropped.
use crate::rng::mix;
use std::{
    borrow::Borrow,
    cell::RefCell,
    hash::{BuildHasher, Hash, Hasher},
    sync::{
        atomic::{AtomicI64, AtomicU64, Ordering::*},
        Arc, Weak,
    },
};

/// Counts the live instances of the keys and values of one case.
#[derive(Default)]
pub struct Tracker {
    pub keys: AtomicI64,
    pub vals: AtomicI64,
    /// Drops of instances that were not alive.
    pub bad: AtomicU64,
    /// Clones of instances that were not alive.
    pub keys_made: AtomicU64,
    pub vals_made: AtomicU64,
    next_id: AtomicU64,
}

impl Tracker {
    pub fn new() -> Arc<Self> {
        Arc::default()
    }
    pub fn fresh_id(&self) -> u64 {
        self.next_id.fetch_add(1, Relaxed) + 1
    }
}

thread_local! {
    static CURRENT: RefCell<Option<Arc<Tracker>>> = const { RefCell::new(None) };
    static DEFAULT_VAL: RefCell<Option<Val>> = const { RefCell::new(None) };
}

/// Sets the tracker that `Kq::to_owned` uses on this thread.
pub fn set_tracker(t: Option<Arc<Tracker>>) {
    CURRENT.with(|c| *c.borrow_mut() = t);
}
fn cur_tracker() -> Arc<Tracker> {
    CURRENT.with(|c| c.borrow().clone()).expect("no tracker")
}
/// Sets the value that `Val::default()` returns next on this thread.
pub fn set_default_val(v: Option<Val>) {
    DEFAULT_VAL.with(|c| *c.borrow_mut() = v);
}
pub fn take_default_val() -> Option<Val> {
    DEFAULT_VAL.with(|c| c.borrow_mut().take())
}

const ALIVE: u64 = 0xA11F_EA11_FEA1_1FEA;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

/// The borrowed form of a key.
#[derive(Debug, PartialEq, Eq)]
pub struct Kq(pub u32);

impl Hash for Kq {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.0);
    }
}

impl ToOwned for Kq {
    type Owned = Key;
    fn to_owned(&self) -> Key {
        Key::new(self.0, &cur_tracker())
    }
}

pub struct Key {
    q: Kq,
    tracker: Arc<Tracker>,
    canary: u64,
}

impl Key {
    pub fn new(k: u32, t: &Arc<Tracker>) -> Self {
        t.keys.fetch_add(1, AcqRel);
        t.keys_made.fetch_add(1, Relaxed);
        Key {
            q: Kq(k),
            tracker: Arc::clone(t),
            canary: ALIVE,
        }
    }
    pub fn k(&self) -> u32 {
        self.q.0
    }
    pub fn intact(&self) -> bool {
        self.canary == ALIVE
    }
}
impl Drop for Key {
    fn drop(&mut self) {
        if self.canary != ALIVE {
            self.tracker.bad.fetch_add(1, AcqRel);
        }
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
        self.tracker.keys.fetch_sub(1, AcqRel);
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.q.0)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.q.hash(h)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        self.q == o.q
    }
}
impl Eq for Key {}
impl Borrow<Kq> for Key {
    fn borrow(&self) -> &Kq {
        &self.q
    }
}

pub struct VInner {
    pub id: u64,
    pub key: u32,
    pub weight: u32,
    pub tag: u32,
}

pub struct Val {
    inner: Arc<VInner>,
    tracker: Arc<Tracker>,
    canary: u64,
}

impl Val {
    pub fn new(t: &Arc<Tracker>, key: u32, weight: u32, tag: u32) -> Self {
        Self::with_id(t, t.fresh_id(), key, weight, tag)
    }
    pub fn with_id(t: &Arc<Tracker>, id: u64, key: u32, weight: u32, tag: u32) -> Self {
        t.vals.fetch_add(1, AcqRel);
        t.vals_made.fetch_add(1, Relaxed);
        Val {
            inner: Arc::new(VInner {
                id,
                key,
                weight,
                tag,
            }),
            tracker: Arc::clone(t),
            canary: ALIVE,
        }
    }
    pub fn id(&self) -> u64 {
        self.inner.id
    }
    pub fn key(&self) -> u32 {
        self.inner.key
    }
    pub fn weight(&self) -> u32 {
        self.inner.weight
    }
    pub fn tag(&self) -> u32 {
        self.inner.tag
    }
    pub fn weak(&self) -> Weak<VInner> {
        Arc::downgrade(&self.inner)
    }
    pub fn intact(&self) -> bool {
        self.canary == ALIVE
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        if self.canary != ALIVE {
            self.tracker.bad.fetch_add(1, AcqRel);
        }
        self.tracker.vals.fetch_add(1, AcqRel);
        Val {
            inner: Arc::clone(&self.inner),
            tracker: Arc::clone(&self.tracker),
            canary: ALIVE,
        }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        if self.canary != ALIVE {
            self.tracker.bad.fetch_add(1, AcqRel);
        }
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
        self.tracker.vals.fetch_sub(1, AcqRel);
    }
}
impl Default for Val {
    fn default() -> Self {
        take_default_val().expect("no default value")
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.inner.id)
    }
}

/// How keys are hashed.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HashKind {
    /// Well mixed; the seed varies.
    Good(u64),
    /// The key itself.
    Identity,
    /// All keys collide.
    Constant,
    /// Only the low `n` bits differ.
    LowBits(u32),
    /// Only the high `n` bits differ.
    HighBits(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct HB(pub HashKind);

pub struct HBHasher {
    kind: HashKind,
    acc: u64,
}

impl BuildHasher for HB {
    type Hasher = HBHasher;
    fn build_hasher(&self) -> HBHasher {
        HBHasher {
            kind: self.0,
            acc: 0,
        }
    }
}
impl Hasher for HBHasher {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.acc = self.acc.wrapping_mul(0x100_0000_01b3) ^ (*b as u64);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.acc = self
            .acc
            .wrapping_mul(0x100_0000_01b3)
            .wrapping_add(i as u64);
    }
    fn write_u64(&mut self, i: u64) {
        self.acc = mix(self.acc ^ i);
    }
    fn finish(&self) -> u64 {
        match self.kind {
            HashKind::Good(seed) => mix(self.acc ^ mix(seed)),
            HashKind::Identity => self.acc,
            HashKind::Constant => 42,
            HashKind::LowBits(n) => mix(self.acc) & ((1u64 << n) - 1),
            HashKind::HighBits(n) => mix(self.acc) & !(u64::MAX >> n),
        }
    }
}

/// What waiting for memory reclamation showed.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Reclaim {
    Done,
    /// Garbage deferred after the fact was reclaimed several times over, but `done` is
    /// still false.
    Retained,
    /// The reclamation made no progress (e.g. a pinned thread got no CPU time).
    Unknown,
}

/// Pins and flushes the epoch until `done`, or until reclamation has demonstrably gone
/// past everything deferred before the call.
pub fn reclaim_until(mut done: impl FnMut() -> bool) -> Reclaim {
    for i in 0..3000 {
        if done() {
            return Reclaim::Done;
        }
        crossbeam_epoch::pin().flush();
        if i % 64 == 63 {
            std::thread::yield_now();
        }
    }
    for _ in 0..6 {
        let canary = Arc::new(());
        let c = Arc::clone(&canary);
        crossbeam_epoch::pin().defer(move || drop(c));
        let t0 = std::time::Instant::now();
        let mut i = 0u32;
        while Arc::strong_count(&canary) > 1 {
            crossbeam_epoch::pin().flush();
            i += 1;
            if i % 16 == 0 {
                if done() {
                    return Reclaim::Done;
                }
                std::thread::sleep(std::time::Duration::from_micros(200));
                if t0.elapsed().as_secs() > 20 {
                    return Reclaim::Unknown;
                }
            }
        }
        if done() {
            return Reclaim::Done;
        }
    }
    if done() {
        Reclaim::Done
    } else {
        Reclaim::Retained
    }
}
