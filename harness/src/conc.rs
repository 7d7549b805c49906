//! Engine B: threads on one cache, with injected delays, judged after each round from
//! the recorded events (linearizability, exactly-once, conservation, single flight).
#[path = "coop.rs"]
pub mod coop;

use crate::{
    api::*,
    delay::{self, Delay, Pace, SITES},
    report::{self, *},
    rng::{mix, Rng},
    seq::{CaseOut, Expected},
    types::*,
    watch::{self, thread_stat, tid},
    wgl::{self, Lin, Sop, Sub},
};
use moka::{ops::compute::CompResult, ops::compute::Op, verif::MockClock, Expiry};
use std::{
    cell::Cell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    panic::{catch_unwind, panic_any, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::*},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Map operations only: linearizability.
    Map,
    /// Everything, with faults.
    Mixed,
    /// Compute operations and reads only: atomic read-modify-write.
    Comp,
    /// Get-or-initialise operations and reads only.
    Init,
    /// Get-or-initialise operations, reads and removals.
    InitRm,
    /// Bounded, with weights.
    Cap,
    /// Fits exactly: nothing may be evicted.
    Fit,
    /// Iteration over stable entries among churn.
    Iter,
    /// Bulk invalidation; each key has one writer.
    Inval,
    /// Lifetimes with a moving clock; each key has one writer.
    Exp,
    /// All kinds of operations and departures at once, on few keys.
    All,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
enum K {
    Get,
    Contains,
    Insert,
    Remove,
    Invalidate,
    GetWith,
    GetWithIf,
    OptGetWith,
    TryGetWith,
    TryUnit,
    Try2,
    OrInsert,
    OrInsertWith,
    OrInsertWithIf,
    OrOpt,
    OrTry,
    Upsert,
    Compute,
    TryCompute,
    Nobody,
    Iter,
    RunPending,
    Counts,
    InvalAll,
    InvalIf,
    Clock,
}
const KS: [K; 26] = [
    K::Get,
    K::Contains,
    K::Insert,
    K::Remove,
    K::Invalidate,
    K::GetWith,
    K::GetWithIf,
    K::OptGetWith,
    K::TryGetWith,
    K::TryUnit,
    K::Try2,
    K::OrInsert,
    K::OrInsertWith,
    K::OrInsertWithIf,
    K::OrOpt,
    K::OrTry,
    K::Upsert,
    K::Compute,
    K::TryCompute,
    K::Nobody,
    K::Iter,
    K::RunPending,
    K::Counts,
    K::InvalAll,
    K::InvalIf,
    K::Clock,
];

impl K {
    fn init_kind(self) -> Option<usize> {
        Some(match self {
            K::GetWith | K::GetWithIf | K::OrInsertWith | K::OrInsertWithIf => 0,
            K::OptGetWith | K::OrOpt => 1,
            K::TryGetWith | K::OrTry => 2,
            K::TryUnit => 3,
            K::Try2 => 4,
            _ => return None,
        })
    }
    fn comp(self) -> bool {
        matches!(self, K::Upsert | K::Compute | K::TryCompute | K::Nobody)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Plan {
    Ok,
    Fail,
    Panic,
    Remove,
    Nop,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Out {
    Unit,
    Val(Option<u64>),
    Bool(bool),
    /// A failed initialisation, with the id of the error.
    Err(u64),
    ErrNone,
    Panicked,
    Comp(&'static str, Option<u64>),
    /// Its future was dropped on the way (at `resp`).
    Dropped,
}

#[derive(Clone, Debug)]
struct Rec {
    th: u32,
    k: K,
    key: u32,
    inv: u64,
    resp: u64,
    c_inv: u64,
    c_resp: u64,
    plan: Plan,
    new: u64,
    w: u32,
    tag: u32,
    /// When the user closure was entered.
    began: Option<u64>,
    /// When the user closure ran (to its end).
    ran: Option<(u64, u64)>,
    saw: Option<Option<u64>>,
    out: Out,
    fresh: bool,
    items: Vec<(u64, u64, u32, u64)>,
    /// Clock bounds of a bulk invalidation.
    pred: u32,
}

#[derive(Clone, Debug)]
struct LEv {
    enter: u64,
    exit: u64,
    key: u32,
    id: u64,
    vkey: u32,
    cause: RemovalCause,
    intact: bool,
    panicked: bool,
    clock: u64,
    th: u32,
    /// When the operation that called the listener began.
    op: u64,
}

pub struct Round {
    mode: Mode,
    cfg: Cfg,
    nk: u32,
    nth: u32,
    nops: u32,
    tracker: Arc<Tracker>,
    pace: Arc<Pace>,
    seq: AtomicU64,
    clock: MockClock,
    tick: bool,
    max_w: u32,
    stable: u32,
    faults: bool,
    /// Most initialisers fail.
    herd: bool,
    /// How many of 16 user closures use the cache themselves (for higher keys).
    nest: u64,
    nested: AtomicU64,
    mix: Vec<u32>,
    lis: Mutex<Vec<LEv>>,
    lis_in: Vec<AtomicI32>,
    lis_panic_at: u64,
    lis_calls: AtomicU64,
    lis_over: AtomicBool,
    lis_slow: u32,
    init_in: Vec<AtomicI32>,
    comp_in: Vec<AtomicI32>,
    bad: Mutex<Vec<Viol>>,
    recs: Mutex<Vec<Rec>>,
    left: Mutex<u32>,
    cv: Condvar,
    cur: Vec<AtomicU32>,
    tids: Vec<AtomicU32>,
    at_op: Vec<AtomicU64>,
    deadline_dur: Duration,
    /// Do reads change the deadlines?
    exp_reads: bool,
    /// The cache is being given up: listener calls may be cut short.
    closing: AtomicBool,
}

thread_local! {
    /// The thread's number, and when its present operation began.
    static OP: Cell<(u32, u64)> = const { Cell::new((99, u64::MAX)) };
}

impl Round {
    /// Whether entries may expire.
    fn lives(&self) -> bool {
        matches!(self.mode, Mode::Exp | Mode::All)
    }
    fn t(&self) -> u64 {
        self.seq.fetch_add(1, SeqCst)
    }
    fn ck(&self) -> u64 {
        self.clock.elapsed().as_nanos() as u64
    }
    fn bad(&self, tags: &[&'static str], m: String) {
        let mut g = self.bad.lock().unwrap();
        if g.len() < 10 {
            g.push(Viol {
                tags: tags.to_vec(),
                msg: m,
            });
        }
    }
    fn listen(&self, k: &Key, v: &Val, cause: RemovalCause) {
        let enter = self.t();
        let kk = k.k();
        if let Some(c) = self.lis_in.get(kk as usize) {
            if c.fetch_add(1, SeqCst) != 0 {
                self.bad(
                    &["C18"],
                    format!(
                        "two listener calls for key {kk} overlap (second: v{} {cause:?})",
                        v.id()
                    ),
                );
            }
        }
        delay::at("user.listener");
        for _ in 0..self.lis_slow {
            std::thread::yield_now();
        }
        let n = self.lis_calls.fetch_add(1, SeqCst);
        let p = n == self.lis_panic_at;
        if let Some(c) = self.lis_in.get(kk as usize) {
            c.fetch_sub(1, SeqCst);
        }
        let clock = self.ck();
        self.lis.lock().unwrap().push(LEv {
            enter,
            exit: self.t(),
            key: kk,
            id: v.id(),
            vkey: v.key(),
            cause,
            intact: k.intact() && v.intact(),
            panicked: p,
            clock,
            th: OP.with(|o| o.get().0),
            op: OP.with(|o| o.get().1),
        });
        if p {
            self.lis_over.store(true, SeqCst);
            panic_any(Expected(0));
        }
    }
}

/// Fixed-duration per-entry expiry, chosen by the value's tag.
struct TagExpiry {
    unit: Duration,
    /// Do reads change the deadline?
    reads: bool,
}
impl TagExpiry {
    fn of(&self, v: &Val) -> Option<Duration> {
        match v.tag() {
            0 => None,
            n => Some(self.unit * n),
        }
    }
}
impl Expiry<Key, Val> for TagExpiry {
    fn expire_after_create(&self, _k: &Key, v: &Val, _t: Instant) -> Option<Duration> {
        self.of(v)
    }
    fn expire_after_update(
        &self,
        _k: &Key,
        v: &Val,
        _t: Instant,
        _d: Option<Duration>,
    ) -> Option<Duration> {
        self.of(v)
    }
    fn expire_after_read(
        &self,
        _k: &Key,
        v: &Val,
        _t: Instant,
        d: Option<Duration>,
        _m: Instant,
    ) -> Option<Duration> {
        if !self.reads {
            return d;
        }
        match mix(v.id() ^ 77) % 5 {
            0 => None,
            1 => Some(self.unit * 2),
            2 => Some(self.unit * 30),
            3 => self.of(v),
            _ => d,
        }
    }
}

fn modes(prop: &str) -> &'static [(Mode, u32)] {
    use Mode::*;
    match prop {
        "C01" => &[(Map, 6), (Fit, 1), (Mixed, 1)],
        "C03" => &[(Exp, 1)],
        "C04" => &[(Exp, 3), (All, 1)],
        "C05" => &[(Inval, 1)],
        "C06" => &[(Cap, 3), (Fit, 3), (All, 1)],
        "C08" => &[
            (Mixed, 3),
            (Cap, 4),
            (Map, 2),
            (Exp, 1),
            (Inval, 1),
            (All, 2),
        ],
        "C09" => &[
            (Mixed, 3),
            (Cap, 3),
            (Map, 3),
            (Exp, 1),
            (Inval, 1),
            (All, 3),
        ],
        "C10" => &[(Init, 4), (InitRm, 3), (Mixed, 1), (All, 1)],
        "C11" => &[(Init, 3), (InitRm, 3), (Mixed, 1), (Comp, 2)],
        "C12" => &[(Comp, 5), (Mixed, 1), (All, 1)],
        "C13" => &[(Iter, 1)],
        "C16" => &[
            (Mixed, 3),
            (Cap, 3),
            (Map, 2),
            (Exp, 2),
            (Iter, 1),
            (InitRm, 1),
            (Inval, 1),
            (All, 2),
        ],
        "C18" => &[
            (Map, 4),
            (Mixed, 2),
            (Cap, 3),
            (Inval, 1),
            (Exp, 1),
            (All, 6),
        ],
        "C19" => &[
            (All, 1),
            (Mixed, 1),
            (Map, 1),
            (Cap, 1),
            (Iter, 1),
            (Inval, 1),
            (Init, 1),
        ],
        _ => &[
            (Mixed, 3),
            (Map, 1),
            (Cap, 3),
            (Comp, 1),
            (InitRm, 2),
            (Inval, 1),
            (Exp, 1),
            (Iter, 1),
            (Fit, 1),
            (All, 2),
        ],
    }
}

fn mix_of(mode: Mode, rng: &mut Rng, listener: bool) -> Vec<u32> {
    let mut m = vec![0u32; KS.len()];
    let mut set = |k: K, w: u32| m[k as usize] = w;
    match mode {
        Mode::Map | Mode::Fit => {
            set(K::Get, 30);
            set(K::Contains, 8);
            set(K::Insert, 35);
            set(K::RunPending, 4);
            set(K::Counts, 1);
            if mode == Mode::Map {
                set(K::Remove, 12);
                set(K::Invalidate, 8);
                set(K::Iter, 3);
            }
        }
        Mode::Mixed | Mode::Cap | Mode::All => {
            if mode == Mode::All {
                set(K::InvalAll, 1);
                set(K::InvalIf, 2);
                set(K::Clock, 14);
            }
            set(K::Get, 20);
            set(K::Contains, 5);
            set(K::Insert, 30);
            set(K::Remove, 8);
            set(K::Invalidate, 6);
            set(K::GetWith, 5);
            set(K::GetWithIf, 2);
            set(K::OptGetWith, 3);
            set(K::TryGetWith, 3);
            set(K::TryUnit, 2);
            set(K::Try2, 2);
            set(K::OrInsert, 3);
            set(K::OrInsertWith, 3);
            set(K::OrInsertWithIf, 2);
            set(K::OrOpt, 2);
            set(K::OrTry, 2);
            set(K::Upsert, 4);
            set(K::Compute, 6);
            set(K::TryCompute, 4);
            set(K::Nobody, 3);
            set(K::Iter, 2);
            set(K::RunPending, 4);
            set(K::Counts, 1);
        }
        Mode::Comp => {
            set(K::Get, 15);
            set(K::Contains, 3);
            set(K::Upsert, 15);
            set(K::Compute, 25);
            set(K::TryCompute, 15);
            set(K::Nobody, 10);
            set(K::RunPending, 2);
        }
        Mode::Init | Mode::InitRm => {
            set(K::Get, 8);
            set(K::GetWith, 16);
            set(K::OptGetWith, 10);
            set(K::TryGetWith, 10);
            set(K::TryUnit, 6);
            set(K::Try2, 5);
            set(K::OrInsertWith, 8);
            set(K::OrOpt, 6);
            set(K::OrTry, 6);
            set(K::OrInsert, 3);
            if mode == Mode::InitRm {
                set(K::Remove, 12);
                set(K::Invalidate, 12);
                set(K::GetWithIf, 4);
                set(K::OrInsertWithIf, 4);
            }
        }
        Mode::Iter => {
            set(K::Insert, 40);
            set(K::Remove, 15);
            set(K::Invalidate, 12);
            set(K::Get, 6);
            set(K::Iter, 6);
            set(K::RunPending, 2);
            set(K::Compute, 3);
        }
        Mode::Inval => {
            set(K::Get, 40);
            set(K::Contains, 10);
            set(K::Insert, 35);
            set(K::Remove, 3);
            set(K::Invalidate, 2);
            set(K::InvalAll, 4);
            set(K::InvalIf, 6);
            set(K::Iter, 4);
            set(K::RunPending, 6);
        }
        Mode::Exp => {
            set(K::Get, 40);
            set(K::Contains, 10);
            set(K::Insert, 35);
            set(K::Remove, 3);
            set(K::Invalidate, 2);
            set(K::Clock, 12);
            set(K::Iter, 4);
            set(K::RunPending, 6);
        }
    }
    // Leave some kinds out now and then, to have the others meet more often.
    if !matches!(mode, Mode::Inval | Mode::Exp | Mode::Iter) {
        for w in m.iter_mut() {
            if rng.chance(1, 4) {
                *w = 0;
            } else if rng.chance(1, 6) {
                *w *= 5;
            }
        }
    }
    let _ = listener;
    if m.iter().all(|w| *w == 0) {
        m[K::Get as usize] = 1;
    }
    m
}

fn gen(prop: &str, seed: u64, case: u64) -> (Round, Rng) {
    let mut rng = Rng::of(&[seed, 0xB, case]);
    let ms = modes(prop);
    let ws: Vec<u32> = ms.iter().map(|m| m.1).collect();
    let mode = ms[rng.weighted(&ws)].0;
    let mut cfg = Cfg {
        kind: match rng.below(10) {
            0..=3 => Kind::Sync,
            4 => Kind::Seg(*rng.pick(&[2usize, 4, 8])),
            _ => Kind::Fut,
        },
        hash: match rng.below(8) {
            0..=3 => HashKind::Good(rng.next()),
            4 => HashKind::Identity,
            5 => HashKind::Constant,
            6 => HashKind::LowBits(2),
            _ => HashKind::HighBits(4),
        },
        lru: rng.chance(1, 2),
        weigher: rng.chance(1, 2),
        listener: rng.chance(1, 2),
        async_listener: rng.chance(1, 2),
        initial: if rng.chance(1, 6) { Some(64) } else { None },
        ..Cfg::default()
    };
    if prop == "C19" {
        cfg.kind = Kind::Seg(*rng.pick(&[2usize, 3, 4, 8, 16]));
    }
    if matches!(prop, "C08" | "C18") {
        cfg.listener = true;
    }
    let mut nth = rng.range(2, 5) as u32;
    let mut herd = false;
    let mut nk = *rng.pick(&[1u32, 1, 2, 2, 3, 4, 8]);
    let mut nops = *rng.pick(&[12u32, 24, 40, 80]);
    let mut stable = 0;
    let mut max_w = 1;
    if cfg.weigher {
        max_w = *rng.pick(&[2u32, 5, 20]);
    }
    let mut tick = false;
    let mut faults = false;
    let unit_ns = *rng.pick(&[100u64, 10_000, 1_000_000_000]);
    match mode {
        Mode::Map => {
            if rng.chance(1, if prop == "C01" { 3 } else { 8 }) {
                // Enough keys to have the table grow and shrink.
                nk = rng.range(40, 400) as u32;
                nops = rng.range(100, 300) as u32;
                if rng.chance(1, 2) {
                    // All in one segment of the table.
                    cfg.hash = HashKind::Identity;
                }
            }
        }
        Mode::Fit => {
            nk = rng.range(1, 12) as u32;
            cfg.cap = Some(nk as u64 * max_w as u64);
            if let Kind::Seg(_) = cfg.kind {
                cfg.kind = Kind::Sync;
            }
            nops = *rng.pick(&[40u32, 80, 150]);
        }
        Mode::Cap => {
            nk = rng.range(2, 24) as u32;
            cfg.cap = Some(rng.range(1, nk as u64 * max_w as u64 / 2 + 1));
            nops = *rng.pick(&[40u32, 80, 200]);
            faults = rng.chance(1, 4);
        }
        Mode::Mixed => faults = rng.chance(1, 2),
        Mode::Comp => {
            nk = rng.range(1, 2) as u32;
            faults = rng.chance(1, 2);
        }
        Mode::Init | Mode::InitRm => {
            nk = rng.range(1, 2) as u32;
            nops = rng.range(4, 24) as u32;
            faults = prop == "C11" || rng.chance(1, 2);
            if faults && rng.chance(1, if prop == "C11" { 4 } else { 8 }) {
                // Many callers, most of which fail, one after the other.
                herd = true;
                nk = 1;
                nth = rng.range(10, 24) as u32;
                nops = rng.range(1, 4) as u32;
            }
        }
        Mode::Iter => {
            nk = *rng.pick(&[8u32, 60, 300]);
            stable = *rng.pick(&[0u32, 5, 60, 300, 900]);
            nops = rng.range(40, 200) as u32;
            if matches!(cfg.hash, HashKind::Constant | HashKind::LowBits(_)) && stable > 60 {
                stable = 60;
            }
            if rng.chance(1, 2) {
                cfg.initial = None;
            }
        }
        Mode::Inval => {
            cfg.inval = true;
            tick = true;
            nk = rng.range(1, 40) as u32;
            nops = *rng.pick(&[40u32, 80, 150]);
        }
        Mode::All => {
            tick = true;
            nk = *rng.pick(&[1u32, 1, 2, 3, 8]);
            nops = *rng.pick(&[40u32, 80, 150]);
            faults = rng.chance(1, 4);
            cfg.inval = rng.chance(1, 2);
            if rng.chance(1, 3) {
                cfg.cap = Some(rng.range(1, nk as u64 * max_w as u64 / 2 + 1));
            }
            if rng.chance(1, 3) {
                cfg.ttl = Some(Duration::from_nanos(unit_ns * rng.range(1, 20)));
            }
            if rng.chance(1, 3) {
                cfg.tti = Some(Duration::from_nanos(unit_ns * rng.range(1, 20)));
            }
            cfg.expiry = rng.chance(2, 3);
        }
        Mode::Exp => {
            tick = true;
            nk = rng.range(1, 10) as u32;
            nops = *rng.pick(&[40u32, 80, 150]);
            let r = rng.below(4);
            if r == 0 || r == 3 {
                cfg.ttl = Some(Duration::from_nanos(unit_ns * rng.range(2, 20)));
            }
            if r == 1 || r == 3 {
                cfg.tti = Some(Duration::from_nanos(unit_ns * rng.range(2, 20)));
            }
            if r == 2 || prop == "C04" {
                cfg.expiry = true;
                // A returned duration equal to the one that is left (by these) means
                // "no change"; keep them apart.
                for d in [&mut cfg.ttl, &mut cfg.tti].into_iter().flatten() {
                    *d += Duration::from_nanos(7);
                }
            }
        }
    }
    if matches!(mode, Mode::Map | Mode::Mixed | Mode::Cap | Mode::All) && rng.chance(1, 4) {
        // A few operations only: the last ones decide what is left at rest.
        nops = rng.range(2, 8) as u32;
    }
    let nest = if !herd
        && matches!(
            mode,
            Mode::Mixed | Mode::Cap | Mode::All | Mode::Comp | Mode::Init | Mode::InitRm
        )
        && rng.chance(1, 4)
    {
        nk = nk.max(rng.range(2, 4) as u32);
        *rng.pick(&[4u64, 8, 12])
    } else {
        0
    };
    let mut mixv = mix_of(mode, &mut rng, cfg.listener);
    if herd && rng.chance(2, 3) {
        // All of one kind, as only these wait for each other.
        let k = *rng.pick(&[K::GetWith, K::OptGetWith, K::TryGetWith, K::TryUnit]);
        mixv = vec![0; KS.len()];
        mixv[k as usize] = 1;
    }
    if !matches!(cfg.kind, Kind::Fut) && mixv[K::Nobody as usize] > 0 {
        mixv[K::Nobody as usize] = 0;
        mixv[K::TryCompute as usize] += 1;
    }
    let lis_panic_at = if cfg.listener
        && faults_listener(mode)
        && rng.chance(1, if prop == "C18" { 5 } else { 40 })
    {
        rng.below(10)
    } else {
        u64::MAX
    };
    let exp_reads = mode == Mode::All && rng.chance(1, 2);
    if exp_reads {
        mixv[K::InvalAll as usize] = 0;
    }
    let n_idx = (nk + stable) as usize;
    let at = |n: usize| (0..n).map(|_| AtomicI32::new(0)).collect::<Vec<_>>();
    let r = Round {
        mode,
        nk,
        nth,
        nops,
        tracker: Tracker::new(),
        pace: Arc::default(),
        seq: AtomicU64::new(1),
        clock: MockClock::new(),
        tick,
        max_w,
        stable,
        faults,
        herd,
        nest,
        nested: AtomicU64::new(0),
        mix: mixv,
        lis: Mutex::default(),
        lis_in: at(n_idx),
        lis_panic_at,
        lis_calls: AtomicU64::new(0),
        lis_over: AtomicBool::new(false),
        lis_slow: if rng.chance(1, 4) {
            rng.range(1, 30) as u32
        } else {
            0
        },
        init_in: at(n_idx * 5),
        comp_in: at(n_idx),
        bad: Mutex::default(),
        recs: Mutex::default(),
        left: Mutex::new(nth),
        cv: Condvar::new(),
        cur: (0..nth).map(|_| AtomicU32::new(0)).collect(),
        tids: (0..nth).map(|_| AtomicU32::new(0)).collect(),
        at_op: (0..nth).map(|_| AtomicU64::new(0)).collect(),
        deadline_dur: Duration::from_nanos(unit_ns),
        exp_reads,
        closing: AtomicBool::new(false),
        cfg,
    };
    (r, rng)
}

/// Whether a marked point can be passed in the round at all.
fn relevant(rd: &Round, site: &str) -> bool {
    let cfg = &rd.cfg;
    let any = |f: fn(K) -> bool| KS.iter().any(|k| f(*k) && rd.mix[*k as usize] > 0);
    let inits = any(|k| k.init_kind().is_some());
    let comps = any(K::comp);
    let fut = matches!(cfg.kind, Kind::Fut);
    let p = |x: &str| site.starts_with(x);
    if p("init.") || site == "user.init" {
        inits
    } else if p("compute.") || site == "user.compute" {
        comps
    } else if p("waiter.") {
        inits || comps
    } else if site == "iter.key" {
        rd.mix[K::Iter as usize] > 0
    } else if p("invalidator.")
        || matches!(
            site,
            "user.pred" | "base.invalidate_entries" | "base.invalidate_if.now_taken"
        )
    {
        cfg.inval
    } else if site == "base.invalidate_all.now_taken" {
        rd.mix[K::InvalAll as usize] > 0
    } else if p("key_lock.")
        || matches!(
            site,
            "user.listener" | "base.update.before_notify" | "cache.invalidate.before_notify"
        )
    {
        cfg.listener
    } else if site == "user.weigh" {
        cfg.weigher
    } else if matches!(
        site,
        "base.admit.before_victim" | "base.maintenance.before_lru"
    ) {
        cfg.cap.is_some()
    } else if p("base.schedule.")
        || p("housekeeper.")
        || matches!(
            site,
            "base.maintenance.start" | "base.record_read" | "base.retry.before_future"
        )
    {
        fut
    } else if p("cht.rehash.") || site == "cht.swing" {
        rd.nk + rd.stable > 30 || rd.nops * rd.nth > 150
    } else if site == "base.evict.before_remove" {
        cfg.cap.is_some() || rd.tick || cfg.inval
    } else {
        true
    }
}

fn faults_listener(mode: Mode) -> bool {
    matches!(mode, Mode::Map | Mode::Mixed | Mode::Cap | Mode::All)
}

struct Worker {
    rd: Arc<Round>,
    api: Arc<Box<dyn Api>>,
    th: u32,
    rng: Rng,
    out: Vec<Rec>,
}

/// Counts a user closure as running.
struct InFlight<'a>(&'a AtomicI32);
impl Drop for InFlight<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

impl Worker {
    fn run(&mut self) {
        let n = self.rd.nops;
        for i in 0..n {
            let k = KS[self.rng.weighted(&self.rd.mix)];
            self.rd.cur[self.th as usize].store(k as u32 + 1, SeqCst);
            self.rd.at_op[self.th as usize].store(i as u64, SeqCst);
            let r = self.op(k);
            self.out.push(r);
            self.rd.pace.ops.fetch_add(1, SeqCst);
        }
        self.rd.cur[self.th as usize].store(0, SeqCst);
    }

    /// An operation on a key above `key`, from a user closure.
    fn nested(rd: &Arc<Round>, api: &Arc<Box<dyn Api>>, th: u32, key: u32, id: u64) {
        let mut rng = Rng::of(&[id, 4711]);
        if key + 1 >= rd.nk || !rng.chance(rd.nest, 16) {
            return;
        }
        let was = OP.with(|o| o.get());
        let k = KS[rng.weighted(&rd.mix)];
        let k = match k {
            K::InvalAll | K::InvalIf | K::Clock => K::Get,
            _ => k,
        };
        let key = rng.range(key as u64 + 1, rd.nk as u64 - 1) as u32;
        let mut w = Worker {
            rd: Arc::clone(rd),
            api: Arc::clone(api),
            th,
            rng,
            out: vec![],
        };
        let r = w.op_at(k, key);
        rd.recs.lock().unwrap().push(r);
        rd.nested.fetch_add(1, SeqCst);
        OP.with(|o| o.set(was));
    }

    fn op(&mut self, k: K) -> Rec {
        let rd = Arc::clone(&self.rd);
        let rng = &mut self.rng;
        let single_writer = matches!(rd.mode, Mode::Inval | Mode::Exp);
        let write = matches!(k, K::Insert | K::Remove | K::Invalidate);
        let key = if single_writer && write {
            // Keys are owned by threads.
            let own = rd.nk.div_ceil(rd.nth);
            (rng.below(own as u64) as u32 * rd.nth + self.th).min(u32::MAX)
        } else {
            // A few of many keys see most of the traffic, the others move the table.
            let many = rd.mode == Mode::Map && rd.nk >= 40;
            let n = if many && rng.chance(1, 2) { 4 } else { rd.nk };
            rng.below(n as u64) as u32
        };
        let key = if single_writer && key >= rd.nk {
            // This thread owns nothing at that place: read instead.
            rng.below(rd.nk as u64) as u32
        } else {
            key
        };
        let k = if single_writer && write && key % rd.nth != self.th {
            K::Get
        } else {
            k
        };
        self.op_at(k, key)
    }

    fn op_at(&mut self, k: K, key: u32) -> Rec {
        let rd = Arc::clone(&self.rd);
        let th = self.th;
        let rng = &mut self.rng;
        let tr = &rd.tracker;
        let id = tr.fresh_id();
        let w = if rd.cfg.weigher {
            rng.below(rd.max_w as u64 + 1) as u32
        } else {
            1
        };
        let tag = rng.below(4) as u32;
        let plan = if k.init_kind().is_some() {
            match rng.below(10) {
                0..=8 if rd.herd => Plan::Panic,
                0 | 1 if rd.faults => Plan::Fail,
                2 if rd.faults => Plan::Panic,
                _ => Plan::Ok,
            }
        } else if matches!(k, K::Compute | K::TryCompute | K::Nobody) {
            match rng.below(12) {
                0 if rd.faults => Plan::Fail,
                1 if rd.faults => Plan::Panic,
                2 | 3 => Plan::Nop,
                4..=6 => Plan::Remove,
                _ => Plan::Ok,
            }
        } else if k == K::Upsert && rd.faults && rng.chance(1, 10) {
            Plan::Panic
        } else {
            Plan::Ok
        };
        // A future initialiser that can fail only by panicking.
        let plan = match (k, plan) {
            (
                K::GetWith | K::GetWithIf | K::OrInsertWith | K::OrInsertWithIf | K::Compute,
                Plan::Fail,
            ) => Plan::Panic,
            (_, p) => p,
        };
        let by_ref = rng.chance(1, 2);
        let q = Kq(key);
        let karg = |by_ref: bool| {
            if by_ref {
                KeyArg::Ref(&q)
            } else {
                KeyArg::Owned(Key::new(key, tr))
            }
        };
        if rd.tick {
            rd.clock.advance(Duration::from_nanos(1));
        }
        let c_inv = rd.ck();
        let mut rec = Rec {
            th: self.th,
            k,
            key,
            inv: 0,
            resp: 0,
            c_inv,
            c_resp: 0,
            plan,
            new: 0,
            w,
            tag,
            began: None,
            ran: None,
            saw: None,
            out: Out::Unit,
            fresh: false,
            items: vec![],
            pred: 0,
        };
        let api = Arc::clone(&self.api);
        let ran: Cell<Option<(u64, u64)>> = Cell::new(None);
        let saw: Cell<Option<Option<u64>>> = Cell::new(None);
        let mk = || Val::with_id(tr, id, key, w, tag);
        // The body of an initialiser.
        let init = |fail: bool| -> bool {
            let kind = k.init_kind().unwrap();
            let s = rd.t();
            let c = &rd.init_in[key as usize * 5 + kind];
            if c.fetch_add(1, SeqCst) != 0 {
                rd.bad(
                    &["C10"],
                    format!("two initialisers of kind {kind} for key {key} run at once"),
                );
            }
            let _g = InFlight(c);
            delay::at("user.init");
            Self::nested(&rd, &api, th, key, id);
            if ran.get().is_some() {
                rd.bad(
                    &["C10"],
                    format!("one call ran its initialiser twice ({k:?})"),
                );
            }
            ran.set(Some((s, rd.t())));
            if plan == Plan::Panic {
                panic_any(Expected(id));
            }
            fail
        };
        let comp = |e: Option<&Ent>| {
            let s = rd.t();
            let c = &rd.comp_in[key as usize];
            if c.fetch_add(1, SeqCst) != 0 {
                rd.bad(
                    &["C12"],
                    format!("two compute closures for key {key} run at once ({k:?})"),
                );
            }
            let _g = InFlight(c);
            if let Some(e) = e {
                if !e.value().intact() || e.value().key() != key || e.key().k() != key {
                    rd.bad(
                        &["C12", "C01"],
                        format!("compute for {key} was given {e:?}"),
                    );
                }
            }
            saw.set(Some(e.map(|e| e.value().id())));
            delay::at("user.compute");
            Self::nested(&rd, &api, th, key, id);
            ran.set(Some((s, rd.t())));
            if plan == Plan::Panic {
                panic_any(Expected(id));
            }
        };
        let vid = |v: &Val| {
            if !v.intact() || v.key() != key {
                rd.bad(
                    &["C01", "C02", "C15"],
                    format!("{k:?} of {key} returned v{} of key {}", v.id(), v.key()),
                );
            }
            v.id()
        };
        rec.inv = rd.t();
        OP.with(|o| o.set((rec.th, rec.inv)));
        let res = catch_unwind(AssertUnwindSafe(|| -> Out {
            match k {
                K::Get => Out::Val(api.get(&q).map(|v| vid(&v))),
                K::Contains => Out::Bool(api.contains(&q)),
                K::Insert => {
                    api.insert(Key::new(key, tr), mk());
                    Out::Unit
                }
                K::Remove => Out::Val(api.remove(&q).map(|v| vid(&v))),
                K::Invalidate => {
                    api.invalidate(&q);
                    Out::Unit
                }
                K::GetWith => {
                    let v = api.get_with(karg(by_ref), &mut || {
                        init(false);
                        mk()
                    });
                    Out::Val(Some(vid(&v)))
                }
                K::GetWithIf => {
                    let v = api.get_with_if(
                        Key::new(key, tr),
                        &mut || {
                            init(false);
                            mk()
                        },
                        &mut |v: &Val| v.tag() == 0,
                    );
                    Out::Val(Some(vid(&v)))
                }
                K::OptGetWith => match api.opt_get_with(karg(by_ref), &mut || {
                    if init(plan == Plan::Fail) {
                        None
                    } else {
                        Some(mk())
                    }
                }) {
                    Some(v) => Out::Val(Some(vid(&v))),
                    None => Out::ErrNone,
                },
                K::TryGetWith => match api.try_get_with(karg(by_ref), &mut || {
                    if init(plan == Plan::Fail) {
                        Err(MyErr(id))
                    } else {
                        Ok(mk())
                    }
                }) {
                    Ok(v) => Out::Val(Some(vid(&v))),
                    Err(e) => Out::Err(e.0),
                },
                K::TryUnit => match api.try_get_with_unit(Key::new(key, tr), &mut || {
                    if init(plan == Plan::Fail) {
                        Err(())
                    } else {
                        Ok(mk())
                    }
                }) {
                    Ok(v) => Out::Val(Some(vid(&v))),
                    Err(_) => Out::ErrNone,
                },
                K::Try2 => match api.try_get_with2(Key::new(key, tr), &mut || {
                    if init(plan == Plan::Fail) {
                        Err(MyErr2(id))
                    } else {
                        Ok(mk())
                    }
                }) {
                    Ok(v) => Out::Val(Some(vid(&v))),
                    Err(e) => Out::Err(e.0),
                },
                K::OrInsert => {
                    let e = api.or_insert(karg(by_ref), mk());
                    rec.fresh = e.is_fresh();
                    Out::Val(Some(vid(e.value())))
                }
                K::OrInsertWith => {
                    let e = api.or_insert_with(karg(by_ref), &mut || {
                        init(false);
                        mk()
                    });
                    rec.fresh = e.is_fresh();
                    Out::Val(Some(vid(e.value())))
                }
                K::OrInsertWithIf => {
                    let e = api.or_insert_with_if(
                        karg(by_ref),
                        &mut || {
                            init(false);
                            mk()
                        },
                        &mut |v: &Val| v.tag() == 0,
                    );
                    rec.fresh = e.is_fresh();
                    Out::Val(Some(vid(e.value())))
                }
                K::OrOpt => match api.or_opt(karg(by_ref), &mut || {
                    if init(plan == Plan::Fail) {
                        None
                    } else {
                        Some(mk())
                    }
                }) {
                    Some(e) => {
                        rec.fresh = e.is_fresh();
                        Out::Val(Some(vid(e.value())))
                    }
                    None => Out::ErrNone,
                },
                K::OrTry => match api.or_try(karg(by_ref), &mut || {
                    if init(plan == Plan::Fail) {
                        Err(MyErr(id))
                    } else {
                        Ok(mk())
                    }
                }) {
                    Ok(e) => {
                        rec.fresh = e.is_fresh();
                        Out::Val(Some(vid(e.value())))
                    }
                    Err(e) => Out::Err(e.0),
                },
                K::Upsert => {
                    let e = api.upsert(karg(by_ref), &mut |e| {
                        comp(e.as_ref());
                        mk()
                    });
                    rec.fresh = true;
                    Out::Val(Some(vid(e.value())))
                }
                K::Compute | K::TryCompute | K::Nobody => {
                    let r = if k == K::Compute {
                        Ok(api.compute(karg(by_ref), &mut |e| {
                            comp(e.as_ref());
                            match plan {
                                Plan::Remove => Op::Remove,
                                Plan::Nop => Op::Nop,
                                _ => Op::Put(mk()),
                            }
                        }))
                    } else {
                        let mut f = |e: Option<Ent>| {
                            comp(e.as_ref());
                            match plan {
                                Plan::Remove => Ok(Op::Remove),
                                Plan::Nop => Ok(Op::Nop),
                                Plan::Fail => Err(MyErr(id)),
                                _ => Ok(Op::Put(mk())),
                            }
                        };
                        if k == K::TryCompute {
                            api.try_compute(karg(by_ref), &mut f)
                        } else {
                            api.try_compute_nobody(karg(by_ref), &mut f)
                        }
                    };
                    match r {
                        Err(e) => {
                            if e.0 != id {
                                rd.bad(&["C12"], "a compute returned another call's error".into());
                            }
                            Out::Err(e.0)
                        }
                        Ok(c) => {
                            let n = crate::seq::comp_name(&c);
                            let v = match &c {
                                CompResult::StillNone(_) => None,
                                CompResult::Inserted(e)
                                | CompResult::ReplacedWith(e)
                                | CompResult::Unchanged(e)
                                | CompResult::Removed(e) => Some(vid(e.value())),
                            };
                            Out::Comp(n, v)
                        }
                    }
                }
                K::Iter => {
                    let mut t0 = rd.t();
                    let mut it = api.iter();
                    let mut items = vec![];
                    while let Some((kk, v)) = it.next() {
                        let t1 = rd.t();
                        if kk.k() != v.key() || !v.intact() || !kk.intact() {
                            rd.bad(
                                &["C13", "C15"],
                                format!(
                                    "iterator yielded key {} with v{} of {}",
                                    kk.k(),
                                    v.id(),
                                    v.key()
                                ),
                            );
                        }
                        items.push((t0, t1, kk.k(), v.id()));
                        t0 = rd.t();
                    }
                    rec.items = items;
                    Out::Unit
                }
                K::RunPending => {
                    api.run_pending();
                    Out::Unit
                }
                K::Counts => {
                    let _ = api.entry_count();
                    let _ = api.weighted_size();
                    let _ = api.debug();
                    Out::Unit
                }
                K::InvalAll => {
                    api.invalidate_all();
                    Out::Unit
                }
                K::InvalIf => {
                    let t = tag;
                    let ok = api.invalidate_if(Box::new(move |_k, v: &Val| {
                        delay::at("user.pred");
                        v.tag() == t
                    }));
                    if ok != rd.cfg.inval {
                        rd.bad(
                            &["C05", "C20"],
                            format!("invalidate_entries_if returned {ok}"),
                        );
                    }
                    Out::Unit
                }
                K::Clock => {
                    let n = match mix(id) % 4 {
                        0 => 1,
                        1 => mix(id ^ 7) % 8,
                        _ => 1 + mix(id ^ 9) % 3,
                    };
                    rd.clock.advance(rd.deadline_dur * n as u32);
                    if rd.mode == Mode::All && mix(id ^ 5) % 4 == 0 {
                        // Past a tick of the timer wheel.
                        rd.clock.advance(Duration::from_secs(2));
                    }
                    Out::Unit
                }
            }
        }));
        rec.c_resp = rd.ck();
        if rd.tick {
            // Before `resp`: what starts after it has a later clock.
            rd.clock.advance(Duration::from_nanos(1));
        }
        rec.resp = rd.t();
        rec.new = id;
        rec.pred = tag;
        rec.ran = ran.get();
        rec.saw = saw.get();
        rec.out = match res {
            Ok(o) => o,
            Err(p) => {
                match p.downcast_ref::<Expected>() {
                    Some(e) if e.0 == id => {}
                    Some(_) => rd.bad(
                        &["C11", "C18"],
                        format!("{k:?} got the panic of another call or of the listener"),
                    ),
                    None => rd.bad(&["ALL"], format!("{k:?} panicked: {}", crate::last_panic())),
                }
                Out::Panicked
            }
        };
        rec
    }
}

pub struct Hung;

/// Runs one round. `Err(Hung)` in the second place means that threads were left behind.
pub fn run_case(prop: &'static str, seed: u64, case: u64) -> (CaseOut, bool) {
    let (mut rd, mut rng) = gen(prop, seed, case);
    let cfgs = format!(
        "{:?} {} threads={} keys={}+{} ops={}{}{}",
        rd.mode,
        rd.cfg,
        rd.nth,
        rd.nk,
        rd.stable,
        rd.nops,
        if rd.herd {
            " herd"
        } else if rd.nest > 0 {
            " nested"
        } else if rd.faults {
            " faults"
        } else {
            ""
        },
        if rd.lis_panic_at != u64::MAX {
            " panicking-listener"
        } else {
            ""
        },
    );
    STRICT_BLOCK.with(|s| s.set(false));
    // Delay plan.
    let nhot = rng.range(1, 3);
    let hot: Vec<&'static str> = {
        // Mostly points that the round can pass.
        let rel: Vec<&'static str> = if rd.nk >= 40 && rng.chance(1, 2) {
            SITES
                .iter()
                .copied()
                .filter(|s| s.starts_with("cht."))
                .collect()
        } else if rng.chance(1, 8) {
            SITES.to_vec()
        } else {
            SITES.iter().copied().filter(|s| relevant(&rd, s)).collect()
        };
        (0..nhot).map(|_| *rng.pick(&rel)).collect()
    };
    let hot_p = *rng.pick(&[50u64, 200, 500]);
    let bg_p = *rng.pick(&[0u64, 5, 30]);
    let quiet = rng.chance(1, 6);
    rd.cur.shrink_to_fit();
    let rd = Arc::new(rd);
    let mut hooks = Hooks::default();
    let weak = Arc::downgrade(&rd);
    let token = Arc::new(());
    {
        let tok = Arc::clone(&token);
        let w = weak.clone();
        hooks.listener = Some(Arc::new(move |k, v, c| {
            let _ = &tok;
            if let Some(rd) = w.upgrade() {
                rd.listen(&k, &v, c)
            }
        }));
    }
    if rd.cfg.weigher {
        hooks.weigher = Some(Arc::new(|_k, v: &Val| {
            delay::at("user.weigh");
            v.weight()
        }));
    }
    if rd.cfg.expiry {
        hooks.expiry = Some(Arc::new(TagExpiry {
            unit: rd.deadline_dur,
            reads: rd.exp_reads,
        }));
    }
    let api = Arc::new(build(&rd.cfg, &hooks, Some(&rd.clock)));
    drop(hooks);
    set_tracker(Some(Arc::clone(&rd.tracker)));
    // Stable entries: their ids are kept for the iteration oracle.
    let mut stable: HashMap<u32, u64> = HashMap::new();
    let mut pre: Vec<Rec> = vec![];
    for i in 0..rd.stable {
        let key = rd.nk + i;
        let id = rd.tracker.fresh_id();
        let inv = rd.t();
        api.insert(
            Key::new(key, &rd.tracker),
            Val::with_id(&rd.tracker, id, key, 1, 1),
        );
        stable.insert(key, id);
        let resp = rd.t();
        pre.push(Rec {
            th: 99,
            k: K::Insert,
            key,
            inv,
            resp,
            c_inv: 0,
            c_resp: 0,
            plan: Plan::Ok,
            new: id,
            w: 1,
            tag: 1,
            began: None,
            ran: None,
            saw: None,
            out: Out::Unit,
            fresh: false,
            items: vec![],
            pred: 0,
        });
    }
    let mut handles = vec![];
    for th in 0..rd.nth {
        let rd = Arc::clone(&rd);
        let api = Arc::clone(&api);
        let wr = Rng::of(&[seed, case, th as u64, 77]);
        let hot = hot.clone();
        handles.push(std::thread::spawn(move || {
            rd.tids[th as usize].store(tid(), SeqCst);
            set_tracker(Some(Arc::clone(&rd.tracker)));
            if !quiet {
                delay::set(Some(Delay {
                    rng: Rng::of(&[seed, case, th as u64, 78]),
                    hot,
                    hot_p,
                    bg_p,
                    pace: Arc::clone(&rd.pace),
                }));
            }
            let mut w = Worker {
                rd: Arc::clone(&rd),
                api,
                th,
                rng: wr,
                out: vec![],
            };
            let r = catch_unwind(AssertUnwindSafe(|| w.run()));
            if r.is_err() {
                rd.bad(
                    &["ALL"],
                    format!("the monitor of a thread panicked: {}", crate::last_panic()),
                );
            }
            rd.recs.lock().unwrap().append(&mut w.out);
            drop(w);
            delay::set(None);
            set_tracker(None);
            let mut l = rd.left.lock().unwrap();
            *l -= 1;
            rd.pace.ops.fetch_add(1, SeqCst);
            if *l <= 1 {
                rd.pace.over.store(true, SeqCst);
            }
            rd.cv.notify_all();
        }));
    }
    let hung = wait(&rd);
    delay::calm(false);
    let mut st: BTreeMap<&'static str, u64> = BTreeMap::new();
    if let Some(v) = hung {
        std::mem::forget(api);
        return (
            CaseOut {
                config: cfgs,
                st,
                log: dump(&rd.recs.lock().unwrap()),
                r: Err(v),
            },
            true,
        );
    }
    for h in handles {
        let _ = h.join();
    }
    let mut recs = std::mem::take(&mut *rd.recs.lock().unwrap());
    recs.extend(pre);
    recs.sort_by_key(|r| r.inv);
    let mut j = Judge {
        rd: &rd,
        api: &**api,
        recs: &recs,
        stable: &stable,
        st: &mut st,
        prop,
    };
    let mut r = j.judge();
    *st.entry("rounds").or_default() += 1;
    *st.entry("nested_ops").or_default() += rd.nested.load(SeqCst);
    *st.entry("ops").or_default() += recs.len() as u64;
    *st.entry("delays").or_default() += rd.pace.delays.load(SeqCst);
    *st.entry("stalls").or_default() += rd.pace.stalls.load(SeqCst);
    let log = dump(&recs);
    // Release of everything.
    let do_rel = prop == "C16" || case % 16 == 0;
    let tracker = Arc::clone(&rd.tracker);
    watch::config(&cfgs);
    watch::op("dropping the cache");
    drop(api);
    watch::idle();
    drop(rd);
    set_tracker(None);
    if r.is_ok() && tracker.bad.load(SeqCst) > 0 {
        r = viol(
            &["C15", "C16"],
            "a key or value was dropped twice or used after its drop",
        );
    }
    if r.is_ok() && do_rel {
        match reclaim_until(|| {
            tracker.keys.load(SeqCst) == 0
                && tracker.vals.load(SeqCst) == 0
                && Arc::strong_count(&token) == 1
        }) {
            Reclaim::Done => *st.entry("released_all").or_default() += 1,
            Reclaim::Unknown => *st.entry("reclaim_unknown").or_default() += 1,
            Reclaim::Retained => {
                r = viol(
                    &["C16"],
                    format!(
                    "after the last handle was dropped, {} keys, {} values and {} closures remain",
                    tracker.keys.load(SeqCst),
                    tracker.vals.load(SeqCst),
                    Arc::strong_count(&token) - 1
                ),
                )
            }
        }
    }
    (
        CaseOut {
            config: cfgs,
            st,
            log,
            r,
        },
        false,
    )
}

/// Waits for the threads; judges whether they can still get on.
fn wait(rd: &Round) -> Option<Viol> {
    let mut l = rd.left.lock().unwrap();
    let t0 = Instant::now();
    loop {
        let (g, to) = rd
            .cv
            .wait_timeout_while(l, Duration::from_secs(4), |l| *l > 0)
            .unwrap();
        l = g;
        if !to.timed_out() {
            return None;
        }
        // Nothing ended for a while: no more delays. Sample the threads.
        delay::calm(true);
        drop(l);
        let snap = |rd: &Round| -> Vec<Option<(char, u64, u64)>> {
            (0..rd.nth as usize)
                .map(|i| {
                    if rd.cur[i].load(SeqCst) == 0 {
                        return None;
                    }
                    thread_stat(rd.tids[i].load(SeqCst))
                        .map(|(s, c)| (s, c, rd.at_op[i].load(SeqCst)))
                })
                .collect()
        };
        let a = snap(rd);
        let mut asleep = true;
        for _ in 0..20 {
            std::thread::sleep(Duration::from_millis(300));
            let b = snap(rd);
            if a != b || b.iter().flatten().any(|x| x.0 != 'S') {
                asleep = false;
                break;
            }
        }
        let live: Vec<usize> = (0..rd.nth as usize)
            .filter(|i| rd.cur[*i].load(SeqCst) != 0)
            .collect();
        if asleep && !live.is_empty() && *rd.left.lock().unwrap() > 0 {
            return Some(hang_viol(
                rd,
                &live,
                "sleep for good: no thread runs, none is in a user callback that waits",
            ));
        }
        // A thread that burns CPU within one operation.
        if t0.elapsed() > Duration::from_secs(10) {
            let a = snap(rd);
            std::thread::sleep(Duration::from_secs(15));
            let b = snap(rd);
            let hot: Vec<usize> = live
                .iter()
                .copied()
                .filter(|i| match (&a[*i], &b[*i]) {
                    // 10 s of CPU time in one call.
                    (Some(x), Some(y)) => x.2 == y.2 && y.1 > x.1 + 1000,
                    _ => false,
                })
                .collect();
            if !hot.is_empty() {
                return Some(hang_viol(rd, &hot, "used more than 10 s of CPU time"));
            }
        }
        l = rd.left.lock().unwrap();
    }
}

fn hang_viol(rd: &Round, live: &[usize], how: &str) -> Viol {
    let ops: Vec<K> = live
        .iter()
        .map(|i| KS[(rd.cur[*i].load(SeqCst).max(1) - 1) as usize])
        .collect();
    let mut tags = vec!["C17"];
    if ops.iter().any(|k| k.init_kind().is_some()) {
        tags.push("C10");
        if rd.faults {
            tags.push("C11");
        }
    }
    if ops.iter().any(|k| k.comp()) {
        tags.push("C12");
        if rd.faults {
            tags.push("C11");
        }
    }
    if rd.lis_panic_at != u64::MAX {
        tags.push("C18");
    }
    if rd.mode == Mode::Iter && ops.contains(&K::Iter) {
        tags.push("C13");
    }
    if rd.mode == Mode::Map {
        tags.push("C01");
    }
    Viol {
        tags,
        msg: format!("threads in {ops:?} {how}"),
    }
}

fn dump(recs: &[Rec]) -> Vec<String> {
    let mut v: Vec<&Rec> = recs.iter().collect();
    v.sort_by_key(|r| r.inv);
    v.iter()
        .map(|r| {
            format!(
                "t{} {}..{} {:?} k{} new=v{} w={} tag={} plan={:?} ran={:?} saw={:?} fresh={} -> {:?} clk {}..{} items={:?}",
                r.th, r.inv, r.resp, r.k, r.key, r.new, r.w, r.tag, r.plan, r.ran, r.saw, r.fresh, r.out, r.c_inv, r.c_resp,
                r.items.iter().take(20).collect::<Vec<_>>()
            )
        })
        .collect()
}

struct Judge<'a> {
    rd: &'a Round,
    api: &'a dyn Api,
    recs: &'a [Rec],
    stable: &'a HashMap<u32, u64>,
    st: &'a mut BTreeMap<&'static str, u64>,
    prop: &'static str,
}

/// A stored value.
#[derive(Clone, Debug)]
struct Sv {
    key: u32,
    w: u32,
    tag: u32,
    /// It was stored somewhere in between.
    lo: u64,
    hi: u64,
    c_lo: u64,
    c_hi: u64,
    /// It may not have been stored: the operation was dropped.
    maybe: bool,
}

impl Judge<'_> {
    fn hit(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.st.entry(k).or_default() += n;
        }
    }

    fn may_vanish(&self) -> bool {
        matches!(
            self.rd.mode,
            Mode::Cap | Mode::Inval | Mode::Exp | Mode::All
        )
    }

    /// The values that were stored, or may have been.
    fn stored(&self) -> BTreeMap<u64, Sv> {
        let rd = self.rd;
        let mut stored: BTreeMap<u64, Sv> = BTreeMap::new();
        for r in self.recs {
            let mut add = |lo: u64| {
                stored.insert(
                    r.new,
                    Sv {
                        key: r.key,
                        w: if rd.cfg.weigher { r.w } else { 1 },
                        tag: r.tag,
                        lo,
                        hi: r.resp,
                        c_lo: r.c_inv,
                        c_hi: r.c_resp,
                        maybe: r.out == Out::Dropped,
                    },
                );
            };
            if r.out == Out::Dropped {
                match (r.k, r.ran, r.plan) {
                    (K::Insert | K::OrInsert, ..) => add(r.inv),
                    (_, Some(x), Plan::Ok) => add(x.1),
                    _ => {}
                }
                continue;
            }
            match r.k {
                K::Insert => add(r.inv),
                K::OrInsert if r.out == Out::Val(Some(r.new)) => add(r.inv),
                K::Upsert if r.out != Out::Panicked => add(r.ran.map_or(r.inv, |x| x.1)),
                k if k.init_kind().is_some() => {
                    if let (Some(x), Plan::Ok) = (r.ran, r.plan) {
                        add(x.1)
                    }
                }
                K::Compute | K::TryCompute | K::Nobody => {
                    if let Out::Comp("Inserted" | "ReplacedWith", _) = r.out {
                        add(r.ran.map_or(r.inv, |x| x.1))
                    }
                }
                _ => {}
            }
        }
        stored
    }

    /// After one ordinary operation on an absent key, departures are reported.
    fn probe(&mut self, how: u64) -> R {
        let stored = self.stored();
        let q = Kq(u32::MAX - 1);
        watch::op("an operation after all others were dropped");
        match how {
            0 => {
                let _ = self.api.get(&q);
            }
            1 => self.api.invalidate(&q),
            _ => {
                let _ = self.api.remove(&q);
            }
        }
        watch::idle();
        let snap = self.api.iter().map(|(k, v)| (k.k(), v.id())).collect();
        self.hit("probes", 1);
        self.notifications(&stored, Some(&snap))
    }

    fn judge(&mut self) -> R {
        let bad = self.rd.bad.lock().unwrap().clone();
        let mine = bad
            .iter()
            .find(|v| v.tags.contains(&self.prop) || v.tags.contains(&"ALL"));
        if let Some(v) = mine.or(bad.first()) {
            return Err(v.clone());
        }
        let rd = self.rd;
        let stored = self.stored();
        self.hit("stored_values", stored.len() as u64);
        self.per_op(&stored)?;
        if !self.may_vanish() && rd.nk <= 64 {
            self.linear(&stored)?;
        } else if rd.mode == Mode::Cap {
            self.linear(&stored)?;
        }
        if rd.mode == Mode::Map && rd.nk > 64 {
            self.linear(&stored)?;
        }
        if matches!(rd.mode, Mode::Init | Mode::InitRm | Mode::Mixed) {
            self.single_flight()?;
        }
        if matches!(rd.mode, Mode::Inval) {
            self.invalidation(&stored)?;
        }
        if matches!(rd.mode, Mode::Exp) {
            self.lifetimes(&stored)?;
        }
        self.iteration(&stored)?;
        self.rest(&stored)
    }

    /// Judges each operation by itself.
    fn per_op(&mut self, stored: &BTreeMap<u64, Sv>) -> R {
        for r in self.recs {
            if r.out == Out::Dropped {
                if let Some(Some(v)) = r.saw {
                    if stored
                        .get(&v)
                        .map_or(true, |s| s.key != r.key || s.lo > r.resp)
                    {
                        return viol(
                            &["C12"],
                            format!("{:?} of key {} saw v{v}, which was not stored", r.k, r.key),
                        );
                    }
                }
                continue;
            }
            let vid = match &r.out {
                Out::Val(Some(v)) => Some(*v),
                Out::Comp(_, Some(v)) => Some(*v),
                _ => None,
            };
            if let Some(v) = vid {
                match stored.get(&v) {
                    None => {
                        return viol(
                            &["C01", "C10", "C12"],
                            format!(
                                "{:?} of key {} returned v{v}, which no call stored",
                                r.k, r.key
                            ),
                        )
                    }
                    Some(s) if s.key != r.key => {
                        return viol(
                            &["C01", "C10", "C12"],
                            format!("{:?} of key {} returned v{v} of key {}", r.k, r.key, s.key),
                        )
                    }
                    Some(s) if s.lo > r.resp => {
                        return viol(
                            &["C01", "C10", "C12"],
                            format!(
                                "{:?} of key {} returned v{v} before it was made",
                                r.k, r.key
                            ),
                        )
                    }
                    _ => {}
                }
            }
            if r.k.init_kind().is_some() || r.k == K::OrInsert {
                let own = vid == Some(r.new);
                if own != (r.ran.is_some() && r.plan == Plan::Ok) && r.k != K::OrInsert {
                    return viol(
                        &["C10", "C11"],
                        format!(
                            "{:?} of key {}: initialiser ran: {:?} ({:?}), but the call returned {:?} (own value v{})",
                            r.k, r.key, r.ran, r.plan, r.out, r.new
                        ),
                    );
                }
                if r.k != K::GetWith && r.k != K::GetWithIf && vid.is_some() {
                    let has = matches!(
                        r.k,
                        K::OrInsert | K::OrInsertWith | K::OrInsertWithIf | K::OrOpt | K::OrTry
                    );
                    if has && r.fresh != own {
                        return viol(
                            &["C10", "C02"],
                            format!(
                                "{:?} of key {}: is_fresh is {} but own value: {own}",
                                r.k, r.key, r.fresh
                            ),
                        );
                    }
                }
                if r.out == Out::Panicked && !(r.ran.is_some() && r.plan == Plan::Panic) {
                    return viol(
                        &["C11"],
                        format!("{:?} of key {} panicked, but not its closure", r.k, r.key),
                    );
                }
                let failed = matches!(r.out, Out::Err(_) | Out::ErrNone);
                if failed && r.ran.is_some() && r.plan != Plan::Fail {
                    return viol(
                        &["C11"],
                        format!(
                            "{:?} of key {} failed although its initialiser did not",
                            r.k, r.key
                        ),
                    );
                }
                if failed && r.ran.is_none() {
                    // Someone's failure, of the same kind, at the same time.
                    let kind = r.k.init_kind();
                    let ok = self.recs.iter().any(|o| {
                        o.key == r.key
                            && o.k.init_kind() == kind
                            && o.plan == Plan::Fail
                            && o.ran.is_some()
                            && o.inv < r.resp
                            && o.resp > r.inv
                            && match r.out {
                                Out::Err(e) => e == o.new,
                                _ => true,
                            }
                    });
                    if !ok {
                        return viol(
                            &["C11"],
                            format!("{:?} of key {} failed with {:?}, which no concurrent initialiser of its kind returned", r.k, r.key, r.out),
                        );
                    }
                }
            }
            if r.k.comp() {
                if r.out != Out::Panicked && r.ran.is_none() {
                    if r.k == K::Nobody {
                        // Refused: another compute must have been there.
                        let Out::Comp(n, _) = &r.out else {
                            return viol(&["C12"], "a refused compute has an odd result");
                        };
                        if !matches!(*n, "Unchanged" | "StillNone") {
                            return viol(&["C12"], format!("a refused compute returned {n}"));
                        }
                        let other = self.recs.iter().any(|o| {
                            o.k.comp()
                                && o.key == r.key
                                && (o.th != r.th || o.inv != r.inv)
                                && o.inv < r.resp
                                && o.resp > r.inv
                        });
                        if !other {
                            return viol(&["C12"], "try_compute_if_nobody_else was refused with no other compute around");
                        }
                        continue;
                    }
                    return viol(
                        &["C12"],
                        format!("{:?} of key {} never ran its closure", r.k, r.key),
                    );
                }
                if let (Out::Comp(n, v), Some(saw)) = (&r.out, r.saw) {
                    let want: &[&str] = match (r.plan, saw) {
                        (Plan::Ok, None) => &["Inserted"],
                        (Plan::Ok, Some(_)) => &["ReplacedWith"],
                        (Plan::Nop, None) => &["StillNone"],
                        (Plan::Nop, Some(_)) => &["Unchanged"],
                        (Plan::Remove, None) => &["StillNone", "Removed"],
                        (Plan::Remove, Some(_)) => &["Removed", "StillNone"],
                        _ => &[],
                    };
                    let mut ok = want.contains(n);
                    if ok && self.rd.mode == Mode::Comp {
                        ok = match (r.plan, saw) {
                            (Plan::Remove, None) => *n == "StillNone",
                            (Plan::Remove, Some(x)) => *n == "Removed" && *v == Some(x),
                            _ => true,
                        };
                    }
                    match (r.plan, saw) {
                        (Plan::Ok, _) => ok &= *v == Some(r.new),
                        (Plan::Nop, s) => ok &= *v == s,
                        _ => {}
                    }
                    if !ok {
                        return viol(
                            &["C12"],
                            format!(
                                "{:?} of key {} saw {saw:?}, did {:?} and returned {n} {v:?}",
                                r.k, r.key, r.plan
                            ),
                        );
                    }
                }
                if r.out == Out::Panicked && r.plan != Plan::Panic {
                    return viol(
                        &["C11", "C12"],
                        format!("{:?} of key {} panicked, but not its closure", r.k, r.key),
                    );
                }
                if matches!(r.out, Out::Err(_)) && r.plan != Plan::Fail {
                    return viol(
                        &["C12"],
                        format!(
                            "{:?} of key {} failed although its closure did not",
                            r.k, r.key
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    fn subs(&self, stored: &BTreeMap<u64, Sv>) -> BTreeMap<u32, Vec<Sub>> {
        let atomic = self.rd.mode == Mode::Comp;
        let mut m: BTreeMap<u32, Vec<Sub>> = BTreeMap::new();
        for (i, r) in self.recs.iter().enumerate() {
            let mut put = |inv: u64, resp: u64, key: u32, op: Sop| {
                m.entry(key).or_default().push(Sub {
                    inv,
                    resp,
                    op,
                    who: i as u32,
                })
            };
            let key = r.key;
            if r.out == Out::Dropped {
                let ended = r.ran.map(|x| x.1);
                match r.k {
                    K::Insert | K::OrInsert => put(r.inv, r.resp, key, Sop::MaybeW(r.new)),
                    K::Remove | K::Invalidate => put(r.inv, r.resp, key, Sop::MaybeD),
                    K::Iter => {
                        for (a, b, k, v) in &r.items {
                            put(*a, *b, *k, Sop::R(Some(*v)));
                        }
                    }
                    k if k.init_kind().is_some() => {
                        if let (Some(a), false) =
                            (r.began, matches!(k, K::GetWithIf | K::OrInsertWithIf))
                        {
                            put(r.inv, a, key, Sop::R(None));
                        }
                        if let (Some(b), Plan::Ok) = (ended, r.plan) {
                            put(b, r.resp, key, Sop::MaybeW(r.new));
                        }
                    }
                    k if k.comp() => {
                        let (Some(a), Some(saw)) = (r.began, r.saw) else {
                            continue;
                        };
                        put(r.inv, a, key, Sop::R(saw));
                        let Some(b) = ended else { continue };
                        match r.plan {
                            Plan::Ok if atomic => {
                                put(b, r.resp, key, Sop::MaybeRmw(saw, Some(r.new)))
                            }
                            Plan::Remove if atomic => put(b, r.resp, key, Sop::MaybeRmw(saw, None)),
                            Plan::Ok => put(b, r.resp, key, Sop::MaybeW(r.new)),
                            Plan::Remove => put(b, r.resp, key, Sop::MaybeD),
                            _ => {}
                        }
                    }
                    _ => {}
                }
                continue;
            }
            match (&r.k, &r.out) {
                (K::Get, Out::Val(v)) => put(r.inv, r.resp, key, Sop::R(*v)),
                (K::Contains, Out::Bool(b)) => put(r.inv, r.resp, key, Sop::Has(*b)),
                (K::Insert, _) => put(r.inv, r.resp, key, Sop::W(r.new)),
                (K::Remove, Out::Val(v)) => put(r.inv, r.resp, key, Sop::D(*v)),
                (K::Invalidate, _) => put(r.inv, r.resp, key, Sop::Dx),
                (K::Iter, _) => {
                    for (a, b, k, v) in &r.items {
                        put(*a, *b, *k, Sop::R(Some(*v)));
                    }
                }
                (K::OrInsert, Out::Val(Some(v))) if *v == r.new => {
                    put(r.inv, r.resp, key, Sop::R(None));
                    put(r.inv, r.resp, key, Sop::W(*v));
                }
                (k, out) if k.init_kind().is_some() || *k == K::OrInsert => match (r.ran, out) {
                    (Some((a, b)), _) => {
                        if !matches!(k, K::GetWithIf | K::OrInsertWithIf) {
                            put(r.inv, a, key, Sop::R(None));
                        }
                        if r.plan == Plan::Ok {
                            put(b, r.resp, key, Sop::W(r.new));
                        }
                    }
                    (None, Out::Val(Some(v))) => {
                        // Read from the cache, or shared by the call that made it.
                        // (Or by an earlier call that got it, and passed it on.)
                        let shared = self.recs.iter().any(|o| {
                            o.key == key
                                && o.k.init_kind() == k.init_kind()
                                && k.init_kind().is_some()
                                && (o.out == Out::Val(Some(*v))
                                    || (o.out == Out::Dropped && o.new == *v))
                                && (o.new == *v || o.inv < r.inv)
                                && o.resp > r.inv
                                && o.inv < r.resp
                        });
                        if !shared {
                            put(r.inv, r.resp, key, Sop::R(Some(*v)));
                        }
                    }
                    _ => {}
                },
                (k, out) if k.comp() => {
                    let (Some((a, b)), Some(saw)) = (r.ran, r.saw) else {
                        if let Out::Comp(_, v) = out {
                            // Refused: it looked the key up.
                            put(r.inv, r.resp, key, Sop::R(*v));
                        }
                        continue;
                    };
                    let new = match out {
                        Out::Comp("Inserted" | "ReplacedWith", _) => Some(Some(r.new)),
                        Out::Comp("Removed", _) => Some(None),
                        Out::Comp("StillNone", _) if r.plan == Plan::Remove => Some(None),
                        Out::Val(_) => Some(Some(r.new)),
                        _ => None,
                    };
                    if atomic {
                        match new {
                            Some(n) => put(r.inv, r.resp, key, Sop::Rmw(saw, n)),
                            None => put(r.inv, b, key, Sop::R(saw)),
                        }
                        let _ = a;
                    } else {
                        put(r.inv, a, key, Sop::R(saw));
                        match (new, out) {
                            (Some(Some(v)), _) => put(b, r.resp, key, Sop::W(v)),
                            (Some(None), Out::Comp(_, v)) => put(b, r.resp, key, Sop::D(*v)),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        let _ = stored;
        m
    }

    fn linear(&mut self, stored: &BTreeMap<u64, Sv>) -> R {
        let van = self.may_vanish();
        let mut m = self.subs(stored);
        let tags: &[&'static str] = match self.rd.mode {
            Mode::Map => &["C01"],
            Mode::Fit => &["C01", "C06"],
            Mode::Comp => &["C12"],
            Mode::Init | Mode::InitRm => &["C10", "C11"],
            Mode::Iter => &["C13", "C01"],
            Mode::Cap => &["C01", "C09"],
            _ => &["C01", "C12", "C10"],
        };
        for (k, s) in m.iter_mut() {
            match wgl::check(s, None, van) {
                Lin::Yes => {
                    self.hit("lin_keys", 1);
                    self.hit("lin_ops", s.len() as u64);
                }
                Lin::TooBig => self.hit("lin_skipped", 1),
                Lin::No(e) => {
                    let e: String = e.chars().take(1500).collect();
                    return viol(
                        tags,
                        format!("the history of key {k} is not linearizable: {e}"),
                    );
                }
            }
        }
        Ok(())
    }

    fn single_flight(&mut self) -> R {
        let removal = self.rd.mode != Mode::Init;
        let mut shared = 0;
        for r in self.recs {
            if r.k.init_kind().is_some() && r.ran.is_none() && matches!(r.out, Out::Val(_)) {
                shared += 1;
            }
        }
        self.hit("shared_or_cached", shared);
        if removal {
            return Ok(());
        }
        for kind in 0..5 {
            let mut seen: HashMap<u32, u64> = HashMap::new();
            for r in self.recs {
                if r.k.init_kind() == Some(kind)
                    && r.ran.is_some()
                    && r.plan == Plan::Ok
                    && r.out != Out::Dropped
                {
                    if let Some(o) = seen.insert(r.key, r.new) {
                        return viol(
                            &["C10"],
                            format!(
                                "two initialisers of kind {kind} succeeded for key {}, which was never removed (v{o}, v{})",
                                r.key, r.new
                            ),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    /// Each key has one writer: what it must and must not see.
    fn invalidation(&mut self, stored: &BTreeMap<u64, Sv>) -> R {
        let rd = self.rd;
        let invs: Vec<&Rec> = self
            .recs
            .iter()
            .filter(|r| matches!(r.k, K::InvalAll | K::InvalIf))
            .collect();
        let hits = |i: &Rec, s: &Sv| i.k == K::InvalAll || i.pred == s.tag;
        // Nothing that was invalidated is seen again.
        let mut views = 0;
        let (mut known, mut known_d) = (0, 0);
        for r in self.recs {
            let mut seen: Vec<(u64, u64, u64)> = vec![];
            match (&r.k, &r.out) {
                (K::Get, Out::Val(Some(v))) => seen.push((r.inv, r.resp, *v)),
                (K::Iter, _) => {
                    for (a, b, _, v) in &r.items {
                        seen.push((*a, *b, *v))
                    }
                }
                _ => {}
            }
            for (a, b, v) in seen {
                let Some(s) = stored.get(&v) else {
                    return viol(&["C01", "C05"], format!("v{v} was never stored"));
                };
                views += 1;
                let over = self.overwriting(s.key, a, b);
                if let Some(i) = invs
                    .iter()
                    .find(|i| s.hi < i.inv && i.resp < a && hits(i, s))
                {
                    if over && report::known("C05", "overlapping-update") {
                        known += 1;
                        continue;
                    }
                    if s.maybe
                        && !invs
                            .iter()
                            .any(|i| i.k == K::InvalAll && s.hi < i.inv && i.resp < a)
                        && report::known("C05", "dropped-insert-reappears")
                    {
                        known_d += 1;
                        continue;
                    }
                    return viol(
                        &["C05"],
                        format!(
                            "v{v} (key {}, tag {}, stored at {}..{}) was seen at {a} after {:?} at {}..{}",
                            s.key, s.tag, s.lo, s.hi, i.k, i.inv, i.resp
                        ),
                    );
                }
            }
        }
        self.hit("views", views);
        self.hit("known.C05.overlapping-update", known);
        self.hit("known.C05.dropped-insert-reappears", known_d);
        // What was written afterwards stays: judged by the single writer of the key.
        let mut cur: HashMap<u32, Option<(u64, u64)>> = HashMap::new();
        let mut unknown: HashSet<u32> = HashSet::new();
        let mut must = 0;
        let mut mine: Vec<&Rec> = self.recs.iter().collect();
        mine.sort_by_key(|r| (r.th, r.inv));
        for r in mine {
            if r.th >= rd.nth || r.key % rd.nth != r.th {
                continue;
            }
            match r.k {
                K::Insert | K::Remove | K::Invalidate if r.out == Out::Dropped => {
                    unknown.insert(r.key);
                }
                K::Insert => {
                    unknown.remove(&r.key);
                    cur.insert(r.key, Some((r.new, r.inv)));
                }
                K::Remove | K::Invalidate => {
                    if r.k == K::Remove {
                        if let (Out::Val(Some(v)), Some(c)) = (&r.out, cur.get(&r.key)) {
                            if c.map(|c| c.0) != Some(*v) && !unknown.contains(&r.key) {
                                return viol(&["C01", "C05"], format!("remove of key {} returned v{v}, not the latest value {c:?}", r.key));
                            }
                        }
                    }
                    unknown.remove(&r.key);
                    cur.insert(r.key, None);
                }
                K::Get | K::Contains if unknown.contains(&r.key) => {}
                K::Get | K::Contains => {
                    let exp = cur.get(&r.key).copied().flatten();
                    let got = match r.out {
                        Out::Val(v) => v.is_some(),
                        Out::Bool(b) => b,
                        _ => continue,
                    };
                    if let (Out::Val(Some(v)), e) = (&r.out, exp) {
                        if e.map(|e| e.0) != Some(*v) {
                            return viol(
                                &["C01", "C05"],
                                format!(
                                    "the only writer of key {} read v{v} but wrote {e:?} last",
                                    r.key
                                ),
                            );
                        }
                    }
                    if let Some((v, since)) = exp {
                        let s = &stored[&v];
                        let threatened = invs
                            .iter()
                            .any(|i| i.resp > since && i.inv < r.resp && hits(i, s));
                        if !threatened {
                            must += 1;
                            if !got {
                                return viol(
                                    &["C05"],
                                    format!(
                                        "v{v} of key {} (tag {}), stored at {}..{}, is not visible to its only writer at {}, though no invalidation since applies",
                                        r.key, s.tag, s.lo, s.hi, r.inv
                                    ),
                                );
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        self.hit("must_be_visible", must);
        Ok(())
    }

    /// Did some operation come across this value?
    fn witnessed(&self, id: u64) -> bool {
        self.recs.iter().any(|r| {
            r.saw == Some(Some(id))
                || matches!(&r.out, Out::Val(Some(v)) | Out::Comp(_, Some(v)) if *v == id)
                || r.items.iter().any(|i| i.3 == id)
        })
    }

    /// Is an insert of the key in progress between these events?
    fn overwriting(&self, key: u32, a: u64, b: u64) -> bool {
        self.recs
            .iter()
            .any(|o| o.k == K::Insert && o.key == key && o.inv < b && o.resp > a)
    }

    fn lifetimes(&mut self, stored: &BTreeMap<u64, Sv>) -> R {
        let rd = self.rd;
        let ttl = rd.cfg.ttl.map(|d| d.as_nanos() as u64);
        let tti = rd.cfg.tti.map(|d| d.as_nanos() as u64);
        let own = |s: &Sv| {
            (rd.cfg.expiry && s.tag > 0).then(|| rd.deadline_dur.as_nanos() as u64 * s.tag as u64)
        };
        const U: u64 = 4096;
        let tag: &[&'static str] = if rd.cfg.expiry { &["C04"] } else { &["C03"] };
        let (mut views, mut known3, mut known4) = (0, 0, 0);
        for r in self.recs {
            let mut seen: Vec<(u64, u64, u64)> = vec![];
            match (&r.k, &r.out) {
                (K::Get, Out::Val(Some(v))) => seen.push((r.inv, r.resp, *v)),
                (K::Iter, _) => seen.extend(r.items.iter().map(|i| (i.0, i.1, i.3))),
                _ => {}
            }
            for (a, b, v) in seen {
                let Some(s) = stored.get(&v) else {
                    return viol(&["C01"], format!("v{v} was never stored"));
                };
                views += 1;
                let over = self.overwriting(s.key, a, b);
                if ttl.is_some_and(|t| s.c_hi + t <= r.c_inv) {
                    if over && report::known("C03", "overlapping-update") {
                        known3 += 1;
                        continue;
                    }
                    return viol(&["C03"], format!("v{v} of key {} was seen at {}..{} ns, but was written at {}..{} with time to live {ttl:?}", s.key, r.c_inv, r.c_resp, s.c_lo, s.c_hi));
                }
                if own(s).is_some_and(|t| s.c_hi + t <= r.c_inv) {
                    if over && report::known("C04", "overlapping-update") {
                        known4 += 1;
                        continue;
                    }
                    return viol(&["C04"], format!("v{v} of key {} was seen at {}..{} ns, but was written at {}..{} with own lifetime {:?}", s.key, r.c_inv, r.c_resp, s.c_lo, s.c_hi, own(s)));
                }
                if let Some(t) = tti {
                    // Its last possible access before this one.
                    let mut last = s.c_hi;
                    for o in self.recs {
                        if o.inv < r.inv && matches!(&o.out, Out::Val(Some(x)) if *x == v) {
                            last = last.max(o.c_resp);
                        }
                        // Reads that overlap, and writes that share the entry's times.
                        if o.key == s.key && o.inv < r.resp && matches!(o.k, K::Get | K::Insert) {
                            last = last.max(o.c_resp);
                        }
                    }
                    if last + t <= r.c_inv {
                        return viol(&["C03"], format!("v{v} of key {} was seen at {}..{} ns, but was last accessed by {last} with time to idle {t}", s.key, r.c_inv, r.c_resp));
                    }
                }
            }
        }
        self.hit("views", views);
        self.hit("known.C03.overlapping-update", known3);
        self.hit("known.C04.overlapping-update", known4);
        let mut cur: HashMap<u32, Option<u64>> = HashMap::new();
        let mut unknown: HashSet<u32> = HashSet::new();
        let mut must = 0;
        let mut mine: Vec<&Rec> = self.recs.iter().collect();
        mine.sort_by_key(|r| (r.th, r.inv));
        for r in mine {
            if r.th >= rd.nth || r.key % rd.nth != r.th {
                continue;
            }
            match r.k {
                K::Insert | K::Remove | K::Invalidate if r.out == Out::Dropped => {
                    unknown.insert(r.key);
                }
                K::Insert => {
                    unknown.remove(&r.key);
                    cur.insert(r.key, Some(r.new));
                }
                K::Remove | K::Invalidate => {
                    unknown.remove(&r.key);
                    cur.insert(r.key, None);
                }
                K::Get | K::Contains if unknown.contains(&r.key) => {}
                K::Get | K::Contains => {
                    let exp = cur.get(&r.key).copied().flatten();
                    if let (Out::Val(Some(v)), e) = (&r.out, exp) {
                        if e != Some(*v) {
                            return viol(
                                &["C01"],
                                format!(
                                    "the only writer of key {} read v{v} but wrote {e:?} last",
                                    r.key
                                ),
                            );
                        }
                    }
                    let got = match r.out {
                        Out::Val(v) => v.is_some(),
                        Out::Bool(b) => b,
                        _ => continue,
                    };
                    let Some(v) = exp else { continue };
                    let s = &stored[&v];
                    let lim = [ttl, tti, own(s).map(|t| t.saturating_sub(U))]
                        .into_iter()
                        .flatten()
                        .min();
                    if lim.map_or(true, |t| s.c_lo + t > r.c_resp) {
                        must += 1;
                        if !got {
                            return viol(
                                tag,
                                format!(
                                    "v{v} of key {} written at {}..{} ns is hidden from its only writer at {}..{}, within its lifetime (ttl {ttl:?} tti {tti:?} own {:?})",
                                    r.key, s.c_lo, s.c_hi, r.c_inv, r.c_resp, own(s)
                                ),
                            );
                        }
                    }
                }
                _ => {}
            }
        }
        self.hit("must_be_visible", must);
        Ok(())
    }

    fn iteration(&mut self, _stored: &BTreeMap<u64, Sv>) -> R {
        let mut items = 0;
        let mut its = 0;
        for r in self.recs.iter().filter(|r| r.k == K::Iter) {
            its += 1;
            let mut seen: HashMap<u32, u64> = HashMap::new();
            for (_, _, k, v) in &r.items {
                items += 1;
                if let Some(o) = seen.insert(*k, *v) {
                    return viol(
                        &["C13"],
                        format!("an iteration yielded key {k} twice (v{o}, v{v})"),
                    );
                }
            }
            if !self.may_vanish() && r.out != Out::Dropped {
                for (k, v) in self.stable {
                    if seen.get(k) != Some(v) {
                        return viol(
                            &["C13"],
                            format!(
                                "an iteration ({} items) at {}..{} yielded {:?} for key {k}, which held v{v} all the time",
                                r.items.len(), r.inv, r.resp, seen.get(k)
                            ),
                        );
                    }
                }
            }
        }
        self.hit("iterations", its);
        self.hit("iter_items", items);
        Ok(())
    }

    /// At rest: contents, counts, notifications.
    fn rest(&mut self, stored: &BTreeMap<u64, Sv>) -> R {
        watch::op("a call on the cache at rest");
        let r = self.rest_in(stored);
        watch::idle();
        r
    }

    fn rest_in(&mut self, stored: &BTreeMap<u64, Sv>) -> R {
        let rd = self.rd;
        let settle = |api: &dyn Api| {
            for _ in 0..6 {
                api.run_pending();
            }
        };
        settle(self.api);
        let snap: BTreeMap<u32, u64> = {
            let mut m = BTreeMap::new();
            for (k, v) in self.api.iter() {
                if m.insert(k.k(), v.id()).is_some() {
                    return viol(&["C13"], "an iteration at rest yielded a key twice");
                }
            }
            m
        };
        // (Reads may change deadlines, to ones that are over at once.)
        for (k, v) in snap.iter().filter(|_| !rd.exp_reads) {
            let g = self.api.get(&Kq(*k)).map(|v| v.id());
            if g != Some(*v) && !rd.lives() {
                return viol(
                    &["C13", "C01"],
                    format!("at rest, iteration yields v{v} for key {k} but get returns {g:?}"),
                );
            }
        }
        for k in (0..rd.nk + rd.stable).filter(|_| !rd.exp_reads) {
            if !snap.contains_key(&k) && self.api.get(&Kq(k)).is_some() {
                return viol(
                    &["C13", "C19"],
                    format!("at rest, iteration misses key {k}, which get returns"),
                );
            }
        }
        settle(self.api);
        let hidden_possible = rd.lives();
        if !hidden_possible {
            let ec = self.api.entry_count();
            let ws = self.api.weighted_size();
            let w: u64 = snap
                .values()
                .map(|v| stored.get(v).map_or(0, |s| s.w as u64))
                .sum();
            self.hit("rest_checks", 1);
            if ec != snap.len() as u64 {
                return viol(
                    &["C09"],
                    format!(
                        "at rest, entry_count is {ec} but {} entries are stored",
                        snap.len()
                    ),
                );
            }
            if ws != w {
                return viol(
                    &["C09"],
                    format!("at rest, weighted_size is {ws} but the entries weigh {w}"),
                );
            }
        }
        if let Some(c) = rd.cfg.cap {
            let lim = match rd.cfg.kind {
                Kind::Seg(n) => {
                    let n = n.next_power_of_two() as u64;
                    c.div_ceil(n) * n
                }
                _ => c,
            };
            let w: u64 = snap
                .values()
                .map(|v| stored.get(v).map_or(0, |s| s.w as u64))
                .sum();
            let w = w.max(self.api.weighted_size());
            if w > lim {
                return viol(
                    &["C06"],
                    format!("at rest, the entries weigh {w} but the capacity is {lim}"),
                );
            }
        }
        // The final value is explained by the history.
        if !self.may_vanish() {
            let mut m = self.subs(stored);
            let end = rd.t();
            for k in 0..rd.nk {
                let s = m.entry(k).or_default();
                s.push(Sub {
                    inv: end,
                    resp: end + 1,
                    op: Sop::R(snap.get(&k).copied()),
                    who: u32::MAX,
                });
                if let Lin::No(e) = wgl::check(s, None, false) {
                    let e: String = e.chars().take(1500).collect();
                    return viol(
                        &["C01", "C12", "C06"],
                        format!(
                            "at rest, key {k} holds {:?}, which its history does not explain: {e}",
                            snap.get(&k)
                        ),
                    );
                }
            }
        } else {
            for (k, v) in &snap {
                match stored.get(v) {
                    Some(s) if s.key == *k => {}
                    o => return viol(&["C01"], format!("at rest, key {k} holds v{v}: {o:?}")),
                }
            }
        }
        self.notifications(stored, Some(&snap))?;
        // Entries leave as their lifetimes end, without anything else removing them.
        // (What `invalidate_all` hides may stay until its position in a queue comes up.)
        let hidden = self
            .recs
            .iter()
            .any(|r| matches!(r.k, K::InvalAll | K::InvalIf));
        if rd.lives() && !hidden && rd.tracker.fresh_id() % 2 == 0 {
            rd.clock
                .advance(rd.deadline_dur * 100 + Duration::from_secs(10));
            for _ in 0..(snap.len() / 300 + 6) {
                self.api.run_pending();
            }
            let live = self.api.iter().count() as u64;
            let ec = self.api.entry_count();
            self.hit("expired_at_rest", (snap.len() as u64).saturating_sub(live));
            if ec != live {
                return viol(
                    if rd.cfg.expiry { &["C04", "C09"] } else { &["C03", "C09"] },
                    format!("long after all deadlines and after maintenance, {ec} entries are counted but {live} are live"),
                );
            }
        }
        // Empty the cache.
        let how = rd.seq.load(SeqCst) % 3;
        if how == 0 && !rd.lives() {
            for k in snap.keys() {
                self.api.invalidate(&Kq(*k));
            }
        } else {
            rd.clock.advance(Duration::from_nanos(1));
            self.api.invalidate_all();
        }
        if rd.lives() {
            rd.clock
                .advance(rd.deadline_dur * 100 + Duration::from_secs(10));
        }
        for _ in 0..(snap.len() / 300 + 6) {
            self.api.run_pending();
        }
        let (ec, ws) = (self.api.entry_count(), self.api.weighted_size());
        if (ec, ws) != (0, 0) {
            return viol(
                &["C09"],
                format!("after emptying the cache, entry_count is {ec} and weighted_size {ws}"),
            );
        }
        self.notifications(stored, None)?;
        self.hit("emptied", 1);
        // No waiter, queue, lock or timer holds a value of the emptied cache.
        if self.prop == "C16" || rd.seq.load(SeqCst) % 16 == 0 {
            let t = &rd.tracker;
            match reclaim_until(|| t.vals.load(SeqCst) <= 0) {
                Reclaim::Done => self.hit("released_when_empty", 1),
                Reclaim::Unknown => self.hit("reclaim_unknown", 1),
                Reclaim::Retained => {
                    return viol(
                        &["C16"],
                        format!(
                            "{} values are alive although the cache is empty and maintenance ran",
                            t.vals.load(SeqCst)
                        ),
                    )
                }
            }
        }
        Ok(())
    }

    fn notifications(
        &mut self,
        stored: &BTreeMap<u64, Sv>,
        snap: Option<&BTreeMap<u32, u64>>,
    ) -> R {
        let rd = self.rd;
        if !rd.cfg.listener {
            return Ok(());
        }
        let bad = rd.bad.lock().unwrap().first().cloned();
        if let Some(v) = bad {
            return Err(v);
        }
        let lis = rd.lis.lock().unwrap().clone();
        let present: HashSet<u64> = snap.into_iter().flatten().map(|x| *x.1).collect();
        // Entries past their lifetime may still be stored, unseen.
        let hidden_possible = rd.lives() && snap.is_some();
        if let Some(p) = lis.iter().find(|e| e.panicked) {
            // When the operation it panicked in was over, it was disabled. (The segments
            // of a segmented cache notice for themselves.)
            let end = self
                .recs
                .iter()
                .find(|r| r.th == p.th && r.inv == p.op)
                .map_or(p.exit, |r| r.resp);
            let seg = matches!(rd.cfg.kind, Kind::Seg(_));
            let after = lis
                .iter()
                .filter(|e| e.enter > p.exit && (!seg || e.key == p.key))
                .filter(|e| e.th == p.th || e.op == u64::MAX || e.op > end)
                .count();
            self.hit("listener_panics", 1);
            if after > 0 {
                return viol(
                    &["C18"],
                    format!("the listener was called {after} times after its panic was over"),
                );
            }
            return Ok(());
        }
        if rd.lis_panic_at != u64::MAX && rd.lis_over.load(SeqCst) {
            return Ok(());
        }
        let mut seen: HashMap<u64, &LEv> = HashMap::new();
        for e in &lis {
            if !e.intact || e.key != e.vkey {
                return viol(
                    &["C08", "C15"],
                    format!(
                        "the listener was given key {} with a value of key {}",
                        e.key, e.vkey
                    ),
                );
            }
            if let Some(o) = seen.insert(e.id, e) {
                return viol(
                    &["C08"],
                    format!(
                        "v{} of key {} was reported twice ({:?}, {:?})",
                        e.id, e.key, o.cause, e.cause
                    ),
                );
            }
            let Some(s) = stored.get(&e.id) else {
                return viol(&["C08"], format!("v{} was reported but never stored", e.id));
            };
            if s.key != e.key {
                return viol(
                    &["C08"],
                    format!(
                        "v{} was reported with key {} instead of {}",
                        e.id, e.key, s.key
                    ),
                );
            }
            let allowed = match e.cause {
                RemovalCause::Size => {
                    rd.mode == Mode::Cap || (rd.mode == Mode::All && rd.cfg.cap.is_some())
                }
                RemovalCause::Expired => rd.lives(),
                _ => true,
            };
            if !allowed {
                return viol(
                    &[
                        "C08",
                        if e.cause == RemovalCause::Size {
                            "C06"
                        } else {
                            "C03"
                        },
                    ],
                    format!(
                        "v{} of key {} was reported as {:?}, which cannot happen here",
                        e.id, e.key, e.cause
                    ),
                );
            }
        }
        for (id, s) in stored {
            let is = present.contains(id);
            let was = seen.contains_key(id);
            if is && was {
                return viol(
                    &["C08"],
                    format!(
                        "v{id} of key {} is in the cache but was reported ({:?})",
                        s.key, seen[id].cause
                    ),
                );
            }
            if !is && !was && !hidden_possible && !(s.maybe && !self.witnessed(*id)) {
                return viol(
                    &["C08"],
                    format!("v{id} of key {} left the cache unreported", s.key),
                );
            }
        }
        self.hit("notifications", lis.len() as u64);
        for r in self.recs {
            // What a removal returned left by it.
            let v = match (&r.k, &r.out) {
                (K::Remove, Out::Val(Some(v))) => *v,
                (_, Out::Comp("Removed", Some(v))) => *v,
                _ => continue,
            };
            if let Some(e) = seen.get(&v) {
                let ok = e.cause == RemovalCause::Explicit
                    || (rd.lives() && e.cause == RemovalCause::Expired);
                if !ok {
                    return viol(
                        &["C08"],
                        format!(
                            "v{v} was returned by {:?} but reported as {:?}",
                            r.k, e.cause
                        ),
                    );
                }
            }
        }
        // Order per key: values stored one after the other leave in that order.
        let mut by_key: BTreeMap<u32, Vec<&LEv>> = BTreeMap::new();
        for e in &lis {
            by_key.entry(e.key).or_default().push(e);
        }
        for (k, v) in &mut by_key {
            v.sort_by_key(|e| e.enter);
            let mut max_lo: Option<(u64, u64)> = None;
            for e in v.iter() {
                let s = &stored[&e.id];
                if let Some((lo, id)) = max_lo {
                    if s.hi < lo {
                        return viol(
                            &["C18"],
                            format!("key {k}: v{id} was reported before v{}, which was stored (and left) before v{id} was stored", e.id),
                        );
                    }
                }
                if max_lo.map_or(true, |(lo, _)| s.lo > lo) {
                    max_lo = Some((s.lo, e.id));
                }
            }
        }
        let _ = BTreeSet::<u32>::new();
        let _ = self.prop;
        Ok(())
    }
}
