//! Engine C: many operations of one async cache as tasks of a deterministic single-thread
//! executor, which polls, leaves aside and drops them at will. User closures and the listener
//! suspend, too. Judged by the oracles of Engine B, and: no task is left without a wake-up.
use super::*;
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    sync::Weak,
    task::{Context, Poll, Wake, Waker},
};

/// The marked async points, to choose hot ones from.
const ASITES: &[&str] = &[
    "cache.insert.before_schedule",
    "cache.invalidate.before_schedule",
    "housekeeper.before_lock",
    "key_lock.before_lock",
    "init.waiter_found",
    "init.waiter_inserted",
    "init.before_init",
    "init.before_insert",
    "init.inserted",
    "compute.looked_up",
    "compute.evaluated",
    "base.record_read",
    "base.schedule.loop",
    "base.schedule.before_send",
    "base.schedule.listened",
    "base.maintenance.start",
];

struct Pts {
    rng: Rng,
    hot: Vec<&'static str>,
    hot_p: u64,
    bg_p: u64,
    n: u64,
}

thread_local! {
    static PTS: RefCell<Option<Pts>> = const { RefCell::new(None) };
}

/// The async point hook.
pub fn at_async(site: &'static str) -> u32 {
    // The real code cannot suspend here, but only in the listener, right afterwards.
    if matches!(
        site,
        "base.update.before_notify" | "cache.invalidate.before_notify" | "base.retry.before_future"
    ) {
        return 0;
    }
    PTS.with(|c| {
        let Ok(mut g) = c.try_borrow_mut() else {
            return 0;
        };
        let Some(d) = g.as_mut() else { return 0 };
        let p = if d.hot.contains(&site) {
            d.hot_p
        } else {
            d.bg_p
        };
        if !d.rng.chance(p, 1000) {
            return 0;
        }
        d.n += 1;
        d.rng.range(1, 3) as u32
    })
}

/// Something a user closure waits for.
#[derive(Default)]
struct Gate {
    open: AtomicBool,
    waker: Mutex<Option<Waker>>,
}
impl Gate {
    fn open(&self) {
        self.open.store(true, SeqCst);
        if let Some(w) = self.waker.lock().unwrap().take() {
            w.wake()
        }
    }
}
struct AtGate(Arc<Gate>);
impl Future for AtGate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0.open.load(SeqCst) {
            return Poll::Ready(());
        }
        *self.0.waker.lock().unwrap() = Some(cx.waker().clone());
        Poll::Pending
    }
}

enum Pause {
    None,
    Yield(u32),
    Gate(Arc<Gate>),
}
impl Pause {
    async fn wait(self) {
        match self {
            Pause::None => {}
            Pause::Yield(n) => Suspend(n).await,
            Pause::Gate(g) => AtGate(g).await,
        }
    }
}

/// What a user closure does.
struct Body {
    /// An operation on another key, before or after it suspends.
    nested: Option<Pin<Box<Nested>>>,
    first: bool,
    pause: Pause,
}
impl Body {
    async fn run(self) {
        let Body {
            nested,
            first,
            pause,
        } = self;
        if !first {
            pause.wait().await;
            if let Some(n) = nested {
                n.await
            }
            return;
        }
        if let Some(n) = nested {
            n.await
        }
        pause.wait().await;
    }
}

/// An operation within the closure of another one.
struct Nested {
    th: u32,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    rec: Arc<Mutex<Rec>>,
    rd: Arc<Round>,
    calls: Arc<Calls>,
    polled: bool,
}
impl Future for Nested {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let was = OP.with(|o| o.get());
        if !self.polled {
            self.polled = true;
            begin(&self.rd, &self.rec);
            self.calls
                .nested
                .lock()
                .unwrap()
                .push(Arc::clone(&self.rec));
        }
        let inv = self.rec.lock().unwrap().inv;
        OP.with(|o| o.set((self.th, inv)));
        let f = self.fut.as_mut().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx)));
        let over = match res {
            Ok(Poll::Pending) => false,
            Ok(Poll::Ready(())) => {
                end(&self.rd, &self.rec, None);
                true
            }
            Err(p) => {
                let o = panicked(&self.rd, &self.calls, &self.rec, p);
                end(&self.rd, &self.rec, Some(o));
                true
            }
        };
        if over {
            self.fut = None;
            self.leave();
        }
        OP.with(|o| o.set(was));
        if over {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Nested {
    fn leave(&self) {
        self.calls
            .nested
            .lock()
            .unwrap()
            .retain(|r| !Arc::ptr_eq(r, &self.rec));
        self.rd
            .recs
            .lock()
            .unwrap()
            .push(self.rec.lock().unwrap().clone());
        self.rd.nested.fetch_add(1, SeqCst);
    }
}
impl Drop for Nested {
    fn drop(&mut self) {
        if self.fut.is_none() {
            return;
        }
        if !self.polled {
            self.fut = None;
            return;
        }
        let was = OP.with(|o| o.get());
        let inv = {
            let r = self.rec.lock().unwrap();
            dropping(&self.calls, &r);
            r.inv
        };
        OP.with(|o| o.set((self.th, inv)));
        self.fut = None;
        end(&self.rd, &self.rec, Some(Out::Dropped));
        self.leave();
        OP.with(|o| o.set(was));
    }
}

/// An operation's first poll.
fn begin(rd: &Round, rec: &Mutex<Rec>) {
    if rd.tick {
        rd.clock.advance(Duration::from_nanos(1));
    }
    let mut r = rec.lock().unwrap();
    r.c_inv = rd.ck();
    r.inv = rd.t();
}

fn end(rd: &Round, rec: &Mutex<Rec>, out: Option<Out>) {
    let mut r = rec.lock().unwrap();
    r.c_resp = rd.ck();
    if rd.tick {
        rd.clock.advance(Duration::from_nanos(1));
    }
    r.resp = rd.t();
    if let Some(o) = out {
        r.out = o;
    }
}

/// An operation that has begun is about to be dropped.
fn dropping(calls: &Calls, r: &Rec) {
    calls.failed.fetch_add(1, SeqCst);
    let writes = !matches!(r.k, K::Get | K::Contains | K::RunPending | K::Iter);
    let mut d = calls.dropped.lock().unwrap();
    d.insert(r.inv, writes.then_some(r.key));
}

/// Judges the panic of an operation.
fn panicked(rd: &Round, calls: &Calls, rec: &Mutex<Rec>, p: Box<dyn std::any::Any + Send>) -> Out {
    let r = rec.lock().unwrap();
    match p.downcast_ref::<Expected>() {
        Some(e) if e.0 == r.new => {
            calls.failed.fetch_add(1, SeqCst);
        }
        Some(_) => rd.bad(
            &["C11", "C18"],
            format!("{:?} got the panic of another call or of the listener", r.k),
        ),
        // This is known: it gives up when 200 others have failed.
        None if calls.failed.load(SeqCst) >= 199
            && r.began.is_none()
            && crate::last_panic().starts_with("Too many retries")
            && report::known("C11", "gives-up-after-200") =>
        {
            calls.gave_up.fetch_add(1, SeqCst);
            return Out::Dropped;
        }
        None => rd.bad(
            &["ALL"],
            format!("{:?} panicked: {}", r.k, crate::last_panic()),
        ),
    }
    Out::Panicked
}

#[derive(Default)]
struct Gates {
    list: Mutex<Vec<Weak<Gate>>>,
    made: AtomicU64,
    /// No more gates.
    always_open: AtomicBool,
}
impl Gates {
    /// `how`: chances out of 16 of a gate and of a few yields.
    fn pause(&self, rng: &mut Rng, how: (u64, u64)) -> Pause {
        let r = rng.below(16);
        if r < how.0 && !self.always_open.load(SeqCst) {
            let g = Arc::<Gate>::default();
            self.list.lock().unwrap().push(Arc::downgrade(&g));
            self.made.fetch_add(1, SeqCst);
            Pause::Gate(g)
        } else if r < how.0 + how.1 {
            Pause::Yield(rng.range(1, 4) as u32)
        } else {
            Pause::None
        }
    }
    fn open_all(&self) {
        for g in self.list.lock().unwrap().drain(..) {
            if let Some(g) = g.upgrade() {
                g.open()
            }
        }
    }
    fn take(&self, rng: &mut Rng) -> Option<Arc<Gate>> {
        let mut l = self.list.lock().unwrap();
        while !l.is_empty() {
            let i = rng.below(l.len() as u64) as usize;
            if let Some(g) = l.swap_remove(i).upgrade() {
                return Some(g);
            }
        }
        None
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

struct Task {
    th: u32,
    fut: Pin<Box<dyn Future<Output = ()>>>,
    flag: Arc<Flag>,
    waker: Waker,
    rec: Arc<Mutex<Rec>>,
    polls: u32,
    /// The number of its last poll.
    last: u64,
}

/// The listener calls in progress, and the operations that were dropped.
#[derive(Default)]
struct Calls {
    /// Key, value and operation of each.
    now: Mutex<Vec<(u32, u64, u64)>>,
    /// When they began, and their keys if they write.
    dropped: Mutex<HashMap<u64, Option<u32>>>,
    known: AtomicU64,
    gave_up: AtomicU64,
    /// Operations that panicked as planned, or were dropped.
    failed: AtomicU64,
    /// Those within closures that are under way.
    nested: Mutex<Vec<Arc<Mutex<Rec>>>>,
}

/// Notices a listener future that is not run to its end.
struct InListener {
    rd: Arc<Round>,
    calls: Arc<Calls>,
    key: u32,
    id: u64,
    done: bool,
}
impl Drop for InListener {
    fn drop(&mut self) {
        self.calls.now.lock().unwrap().retain(|c| c.1 != self.id);
        if !self.done && !self.rd.closing.load(SeqCst) {
            self.rd.bad(
                &["C14", "C08"],
                format!(
                    "the listener's future for v{} of key {} was dropped before its end",
                    self.id, self.key
                ),
            );
        }
    }
}

async fn listen(
    rd: Arc<Round>,
    calls: Arc<Calls>,
    k: Arc<Key>,
    v: Val,
    cause: RemovalCause,
    pause: Pause,
) {
    let enter = rd.t();
    let kk = k.k();
    let op = OP.with(|o| o.get());
    {
        let mut now = calls.now.lock().unwrap();
        let dropped = calls.dropped.lock().unwrap();
        for c in now.iter().filter(|c| c.0 == kk) {
            // The other one is of a dropped update or removal: this is known.
            if dropped.get(&c.2) == Some(&Some(kk)) && report::known("C18", "dropped-mid-listener")
            {
                calls.known.fetch_add(1, SeqCst);
                continue;
            }
            rd.bad(
                &["C18"],
                format!(
                    "two listener calls for key {kk} overlap (v{}, v{} {cause:?})",
                    c.1,
                    v.id()
                ),
            );
        }
        now.push((kk, v.id(), op.1));
    }
    let mut g = InListener {
        rd: Arc::clone(&rd),
        calls,
        key: kk,
        id: v.id(),
        done: false,
    };
    pause.wait().await;
    let n = rd.lis_calls.fetch_add(1, SeqCst);
    let p = n == rd.lis_panic_at;
    g.done = true;
    drop(g);
    let clock = rd.ck();
    rd.lis.lock().unwrap().push(LEv {
        enter,
        exit: rd.t(),
        key: kk,
        id: v.id(),
        vkey: v.key(),
        cause,
        intact: k.intact() && v.intact(),
        panicked: p,
        clock,
        th: op.0,
        op: op.1,
    });
    if p {
        rd.lis_over.store(true, SeqCst);
        panic_any(Expected(0));
    }
}

struct Coop {
    rd: Arc<Round>,
    cache: FCache,
    gates: Arc<Gates>,
    calls: Arc<Calls>,
    rng: Rng,
    /// How user closures suspend.
    user: (u64, u64),
    fresh_wakers: bool,
}

struct OpArgs {
    k: K,
    key: u32,
    id: u64,
    w: u32,
    tag: u32,
    plan: Plan,
    by_ref: bool,
    body: Body,
    jump: u64,
    chop: u64,
}

impl Coop {
    /// `above`: for a key above this one, from a user closure.
    fn args(&mut self, th: u32, above: Option<u32>) -> OpArgs {
        let rd = Arc::clone(&self.rd);
        let rng = &mut self.rng;
        let mut k = KS[rng.weighted(&rd.mix)];
        let single_writer = matches!(rd.mode, Mode::Inval | Mode::Exp);
        let write = matches!(k, K::Insert | K::Remove | K::Invalidate);
        let mut key = rng.below(rd.nk as u64) as u32;
        if single_writer && write {
            let own = rd.nk.div_ceil(rd.nth);
            key = rng.below(own as u64) as u32 * rd.nth + th;
            if key >= rd.nk {
                key = rng.below(rd.nk as u64) as u32;
            }
            if key % rd.nth != th {
                k = K::Get;
            }
        }
        if let Some(a) = above {
            key = rng.range(a as u64 + 1, rd.nk as u64 - 1) as u32;
            if matches!(k, K::InvalAll | K::InvalIf | K::Clock) {
                k = K::Get;
            }
        }
        let w = if rd.cfg.weigher {
            rng.below(rd.max_w as u64 + 1) as u32
        } else {
            1
        };
        let plan = if k.init_kind().is_some() {
            match rng.below(10) {
                _ if rd.herd && (rd.nth > 200 || rng.chance(9, 10)) => Plan::Panic,
                0 | 1 if rd.faults => Plan::Fail,
                2 if rd.faults => Plan::Panic,
                _ => Plan::Ok,
            }
        } else if matches!(k, K::Compute | K::TryCompute | K::Nobody) {
            match rng.below(12) {
                0 if rd.faults => Plan::Fail,
                1 if rd.faults => Plan::Panic,
                2 | 3 => Plan::Nop,
                4..=6 => Plan::Remove,
                _ => Plan::Ok,
            }
        } else if k == K::Upsert && rd.faults && rng.chance(1, 10) {
            Plan::Panic
        } else {
            Plan::Ok
        };
        let plan = match (k, plan) {
            (
                K::GetWith | K::GetWithIf | K::OrInsertWith | K::OrInsertWithIf | K::Compute,
                Plan::Fail,
            ) => Plan::Panic,
            (_, p) => p,
        };
        let (by_ref, tag) = (rng.chance(1, 2), rng.below(4) as u32);
        let (jump, chop) = (
            rng.next(),
            if rng.chance(1, 2) { 0 } else { rng.range(1, 9) },
        );
        let pause = self.gates.pause(rng, self.user);
        let first = rng.chance(1, 2);
        let nested = if (k.init_kind().is_some() || k.comp())
            && key + 1 < rd.nk
            && rng.chance(rd.nest, 16)
        {
            let (rec, fut) = self.operation(th, Some(key));
            Some(Box::pin(Nested {
                th,
                fut: Some(fut),
                rec,
                rd: Arc::clone(&rd),
                calls: Arc::clone(&self.calls),
                polled: false,
            }))
        } else {
            None
        };
        OpArgs {
            k,
            key,
            id: rd.tracker.fresh_id(),
            w,
            tag,
            plan,
            by_ref,
            body: Body {
                nested,
                first,
                pause,
            },
            jump,
            chop,
        }
    }

    fn operation(
        &mut self,
        th: u32,
        above: Option<u32>,
    ) -> (Arc<Mutex<Rec>>, Pin<Box<dyn Future<Output = ()>>>) {
        let a = self.args(th, above);
        let rec = Arc::new(Mutex::new(Rec {
            th,
            k: a.k,
            key: a.key,
            inv: 0,
            resp: 0,
            c_inv: 0,
            c_resp: 0,
            plan: a.plan,
            new: a.id,
            w: a.w,
            tag: a.tag,
            began: None,
            ran: None,
            saw: None,
            out: Out::Dropped,
            fresh: false,
            items: vec![],
            pred: a.tag,
        }));
        let fut = op(
            Arc::clone(&self.rd),
            self.cache.clone(),
            Arc::clone(&rec),
            a,
        );
        (rec, Box::pin(fut))
    }

    fn start(&mut self, th: u32) -> Task {
        let (rec, fut) = self.operation(th, None);
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        Task {
            th,
            fut,
            waker: Waker::from(Arc::clone(&flag)),
            flag,
            rec,
            polls: 0,
            last: 0,
        }
    }

    /// Polls a task; whether it is over.
    fn poll(&mut self, t: &mut Task) -> bool {
        if self.fresh_wakers && t.polls > 0 {
            t.flag = Arc::new(Flag(AtomicBool::new(false)));
            t.waker = Waker::from(Arc::clone(&t.flag));
        }
        t.flag.0.store(false, SeqCst);
        if t.polls == 0 {
            begin(&self.rd, &t.rec);
        }
        let inv = t.rec.lock().unwrap().inv;
        t.polls += 1;
        OP.with(|o| o.set((t.th, inv)));
        let mut cx = Context::from_waker(&t.waker);
        let out = match catch_unwind(AssertUnwindSafe(|| t.fut.as_mut().poll(&mut cx))) {
            Ok(Poll::Pending) => return false,
            Ok(Poll::Ready(())) => None,
            Err(p) => Some(panicked(&self.rd, &self.calls, &t.rec, p)),
        };
        end(&self.rd, &t.rec, out);
        true
    }

    /// Drops the future of a task.
    fn kill(&mut self, t: Task) -> Option<Rec> {
        let Task {
            fut,
            rec,
            polls,
            th,
            ..
        } = t;
        {
            let r = rec.lock().unwrap();
            OP.with(|o| o.set((th, r.inv)));
            if polls > 0 {
                dropping(&self.calls, &r);
            }
        }
        drop(fut);
        if polls == 0 {
            return None;
        }
        end(&self.rd, &rec, Some(Out::Dropped));
        let r = rec.lock().unwrap().clone();
        Some(r)
    }
}

/// The body of an initialiser.
async fn init(rd: &Round, rec: &Mutex<Rec>, body: Body) -> bool {
    let s = rd.t();
    let (k, key, plan, id) = {
        let mut r = rec.lock().unwrap();
        if r.began.is_some() {
            rd.bad(
                &["C10"],
                format!("one call ran its initialiser twice ({:?})", r.k),
            );
        }
        r.began = Some(s);
        (r.k, r.key, r.plan, r.new)
    };
    let kind = k.init_kind().unwrap();
    let c = &rd.init_in[key as usize * 5 + kind];
    if c.fetch_add(1, SeqCst) != 0 {
        rd.bad(
            &["C10"],
            format!("two initialisers of kind {kind} for key {key} run at once"),
        );
    }
    let _g = InFlight(c);
    body.run().await;
    rec.lock().unwrap().ran = Some((s, rd.t()));
    if plan == Plan::Panic {
        panic_any(Expected(id));
    }
    plan == Plan::Fail
}

/// The body of a compute closure, from its call on.
async fn comp(rd: Arc<Round>, rec: Arc<Mutex<Rec>>, e: Option<Ent>, body: Body) -> Plan {
    let s = rd.t();
    let (k, key, plan, id) = {
        let mut r = rec.lock().unwrap();
        r.began = Some(s);
        r.saw = Some(e.as_ref().map(|e| e.value().id()));
        (r.k, r.key, r.plan, r.new)
    };
    let c = &rd.comp_in[key as usize];
    if c.fetch_add(1, SeqCst) != 0 {
        rd.bad(
            &["C12"],
            format!("two compute closures for key {key} run at once ({k:?})"),
        );
    }
    let _g = InFlight(c);
    if let Some(e) = e {
        if !e.value().intact() || e.value().key() != key || e.key().k() != key {
            rd.bad(
                &["C12", "C01"],
                format!("compute for {key} was given {e:?}"),
            );
        }
    }
    body.run().await;
    rec.lock().unwrap().ran = Some((s, rd.t()));
    if plan == Plan::Panic {
        panic_any(Expected(id));
    }
    plan
}

#[allow(deprecated)]
async fn op(rd: Arc<Round>, c: FCache, rec: Arc<Mutex<Rec>>, a: OpArgs) {
    let OpArgs {
        k,
        key,
        id,
        w,
        tag,
        by_ref,
        body,
        jump,
        chop,
        ..
    } = a;
    let q = Kq(key);
    let tr = Arc::clone(&rd.tracker);
    let mk = || Val::with_id(&tr, id, key, w, tag);
    let own = || Key::new(key, &tr);
    let mut fresh = false;
    let vid = |v: &Val| {
        if !v.intact() || v.key() != key {
            rd.bad(
                &["C01", "C02", "C15"],
                format!("{k:?} of {key} returned v{} of key {}", v.id(), v.key()),
            );
        }
        v.id()
    };
    let some = |v: Val| Out::Val(Some(vid(&v)));
    let (rd1, rec1) = (&*rd, &*rec);
    let plain = move |p: Body| async move {
        init(rd1, rec1, p).await;
        mk()
    };
    let opt = move |p: Body| async move {
        if init(rd1, rec1, p).await {
            None
        } else {
            Some(mk())
        }
    };
    let tri = move |p: Body| async move {
        if init(rd1, rec1, p).await {
            Err(MyErr(id))
        } else {
            Ok(mk())
        }
    };
    macro_rules! sel {
        ($s:ident => $e:expr) => {
            if by_ref {
                let $s = c.entry_by_ref(&q);
                $e
            } else {
                let $s = c.entry(own());
                $e
            }
        };
    }
    let (rd2, rec2) = (Arc::clone(&rd), Arc::clone(&rec));
    let out = match k {
        K::Get => Out::Val(c.get(&q).await.map(|v| vid(&v))),
        K::Contains => Out::Bool(c.contains_key(&q)),
        K::Insert => {
            c.insert(own(), mk()).await;
            Out::Unit
        }
        K::Remove => Out::Val(c.remove(&q).await.map(|v| vid(&v))),
        K::Invalidate => {
            c.invalidate(&q).await;
            Out::Unit
        }
        K::GetWith => some(if by_ref {
            c.get_with_by_ref(&q, plain(body)).await
        } else {
            c.get_with(own(), plain(body)).await
        }),
        K::GetWithIf => some(c.get_with_if(own(), plain(body), |v| v.tag() == 0).await),
        K::OptGetWith => {
            match if by_ref {
                c.optionally_get_with_by_ref(&q, opt(body)).await
            } else {
                c.optionally_get_with(own(), opt(body)).await
            } {
                Some(v) => some(v),
                None => Out::ErrNone,
            }
        }
        K::TryGetWith => {
            match if by_ref {
                c.try_get_with_by_ref(&q, tri(body)).await
            } else {
                c.try_get_with(own(), tri(body)).await
            } {
                Ok(v) => some(v),
                Err(e) => Out::Err(e.0),
            }
        }
        K::TryUnit => match c
            .try_get_with(own(), async { opt(body).await.ok_or(()) })
            .await
        {
            Ok(v) => some(v),
            Err(_) => Out::ErrNone,
        },
        K::Try2 => match c
            .try_get_with(own(), async { tri(body).await.map_err(|e| MyErr2(e.0)) })
            .await
        {
            Ok(v) => some(v),
            Err(e) => Out::Err(e.0),
        },
        K::OrInsert => {
            let e = sel!(s => s.or_insert(mk()).await);
            fresh = e.is_fresh();
            Out::Val(Some(vid(e.value())))
        }
        K::OrInsertWith => {
            let e = sel!(s => s.or_insert_with(plain(body)).await);
            fresh = e.is_fresh();
            Out::Val(Some(vid(e.value())))
        }
        K::OrInsertWithIf => {
            let e = sel!(s => s.or_insert_with_if(plain(body), |v: &Val| v.tag() == 0).await);
            fresh = e.is_fresh();
            Out::Val(Some(vid(e.value())))
        }
        K::OrOpt => match sel!(s => s.or_optionally_insert_with(opt(body)).await) {
            Some(e) => {
                fresh = e.is_fresh();
                Out::Val(Some(vid(e.value())))
            }
            None => Out::ErrNone,
        },
        K::OrTry => match sel!(s => s.or_try_insert_with(tri(body)).await) {
            Ok(e) => {
                fresh = e.is_fresh();
                Out::Val(Some(vid(e.value())))
            }
            Err(e) => Out::Err(e.0),
        },
        K::Upsert => {
            let e = sel!(s => s
                .and_upsert_with(|e| {
                    let f = comp(rd2, rec2, e, body);
                    async move {
                        f.await;
                        mk()
                    }
                })
                .await);
            fresh = true;
            Out::Val(Some(vid(e.value())))
        }
        K::Compute | K::TryCompute | K::Nobody => {
            let res = if k == K::Compute {
                Ok(sel!(s => s
                    .and_compute_with(|e| {
                        let f = comp(rd2, rec2, e, body);
                        async move {
                            match f.await {
                                Plan::Remove => Op::Remove,
                                Plan::Nop => Op::Nop,
                                _ => Op::Put(mk()),
                            }
                        }
                    })
                    .await))
            } else {
                let f = |e: Option<Ent>| {
                    let f = comp(rd2, rec2, e, body);
                    async move {
                        match f.await {
                            Plan::Remove => Ok(Op::Remove),
                            Plan::Nop => Ok(Op::Nop),
                            Plan::Fail => Err(MyErr(id)),
                            _ => Ok(Op::Put(mk())),
                        }
                    }
                };
                if k == K::TryCompute {
                    sel!(s => s.and_try_compute_with(f).await)
                } else {
                    sel!(s => s.and_try_compute_if_nobody_else(f).await)
                }
            };
            match res {
                Err(e) => {
                    if e.0 != id {
                        rd.bad(&["C12"], "a compute returned another call's error".into());
                    }
                    Out::Err(e.0)
                }
                Ok(r) => {
                    let n = crate::seq::comp_name(&r);
                    let v = match &r {
                        CompResult::StillNone(_) => None,
                        CompResult::Inserted(e)
                        | CompResult::ReplacedWith(e)
                        | CompResult::Unchanged(e)
                        | CompResult::Removed(e) => Some(vid(e.value())),
                    };
                    Out::Comp(n, v)
                }
            }
        }
        K::Iter => {
            let mut t0 = rd.t();
            let mut it = c.iter();
            let mut n = 0;
            while let Some((kk, v)) = it.next() {
                let t1 = rd.t();
                if kk.k() != v.key() || !v.intact() || !kk.intact() {
                    rd.bad(
                        &["C13", "C15"],
                        format!(
                            "iterator yielded key {} with v{} of {}",
                            kk.k(),
                            v.id(),
                            v.key()
                        ),
                    );
                }
                rec.lock().unwrap().items.push((t0, t1, kk.k(), v.id()));
                n += 1;
                if chop > 0 && n % chop == 0 {
                    Suspend(1).await;
                }
                t0 = rd.t();
            }
            Out::Unit
        }
        K::RunPending => {
            c.run_pending_tasks().await;
            Out::Unit
        }
        K::Counts => {
            let _ = c.entry_count();
            let _ = c.weighted_size();
            let _ = format!("{c:?}");
            Out::Unit
        }
        K::InvalAll => {
            c.invalidate_all();
            Out::Unit
        }
        K::InvalIf => {
            let ok = c
                .invalidate_entries_if(move |_, v: &Val| v.tag() == tag)
                .is_ok();
            if ok != rd.cfg.inval {
                rd.bad(
                    &["C05", "C20"],
                    format!("invalidate_entries_if returned {ok}"),
                );
            }
            Out::Unit
        }
        K::Clock => {
            if rd.tick {
                let n = match jump % 4 {
                    0 => 1,
                    1 => mix(jump ^ 7) % 8,
                    _ => 1 + mix(jump ^ 9) % 3,
                };
                rd.clock.advance(rd.deadline_dur * n as u32);
                if rd.mode == Mode::All && mix(jump ^ 5) % 4 == 0 {
                    rd.clock.advance(Duration::from_secs(2));
                }
            } else {
                // Maintenance becomes due.
                rd.clock
                    .advance(Duration::from_millis(if jump % 3 == 0 { 50 } else { 301 }));
            }
            Out::Unit
        }
    };
    let mut r = rec.lock().unwrap();
    r.fresh = fresh;
    r.out = out;
}

pub fn run_case(prop: &'static str, seed: u64, case: u64) -> CaseOut {
    let (mut rd, mut rng) = gen(prop, seed ^ 0xC00_9000, case);
    rd.cfg.kind = Kind::Fut;
    rd.nth = if rd.herd {
        if rng.chance(1, 20) {
            // A call gives up after 200 failures of others: KNOWN_FINDINGS.md.
            rd.mix.fill(0);
            rd.mix[K::GetWith as usize] = 100;
            rd.mix[K::OrInsertWith as usize] = 100;
            rd.mix[K::Get as usize] = 1;
            rng.range(205, 260) as u32
        } else {
            rng.range(10, 60) as u32
        }
    } else {
        rng.range(2, 8) as u32
    };
    // Many writes while maintenance is held up.
    let flood = matches!(
        rd.mode,
        Mode::Cap | Mode::Map | Mode::Mixed | Mode::All | Mode::Exp | Mode::Inval
    ) && rng.chance(1, 40);
    let total = if flood {
        rng.range(500, 1500)
    } else if rd.herd {
        rd.nth as u64 * rng.range(1, 2)
    } else if rd.nk > 64 || rd.mode == Mode::Iter {
        (rd.nops as u64).min(100) * 2
    } else {
        (rd.nops as u64).min(40) * rng.range(1, 3)
    };
    if flood {
        rd.mix[K::Insert as usize] += 200;
        rd.cfg.listener |= rng.chance(3, 4);
        if rd.mode == Mode::Cap && rd.nk < 8 {
            rd.nk = 8;
        }
    }
    let n_idx = (rd.nk + rd.stable) as usize;
    let at = |n: usize| (0..n).map(|_| AtomicI32::new(0)).collect::<Vec<_>>();
    rd.lis_in = at(n_idx);
    rd.init_in = at(n_idx * 5);
    rd.comp_in = at(n_idx);
    if rd.mix[K::Clock as usize] == 0 && rng.chance(1, 2) {
        rd.mix[K::Clock as usize] = 5;
    }
    let fut_listener = rng.chance(3, 4);
    rd.cfg.async_listener |= fut_listener;
    let drops = if prop == "C14" {
        *rng.pick(&[1u64, 1, 2, 4])
    } else {
        *rng.pick(&[0u64, 0, 1, 3])
    };
    let rd_herd = rd.herd;
    let spurious = rng.chance(1, 3);
    let cfgs = format!(
        "{:?} {} tasks={} keys={}+{} ops={total}{}{}{} drops={drops}{}",
        rd.mode,
        rd.cfg,
        rd.nth,
        rd.nk,
        rd.stable,
        if rd.herd {
            " herd"
        } else if rd.nest > 0 {
            " nested"
        } else if rd.faults {
            " faults"
        } else {
            ""
        },
        if rd.lis_panic_at != u64::MAX {
            " panicking-listener"
        } else {
            ""
        },
        if flood { " flood" } else { "" },
        if spurious { " spurious" } else { "" },
    );
    watch::config(&cfgs);
    let gates = Arc::<Gates>::default();
    let calls = Arc::<Calls>::default();
    let rd = Arc::new(rd);
    let mut hooks = Hooks::default();
    let weak = Arc::downgrade(&rd);
    let token = Arc::new(());
    {
        let (tok, w) = (Arc::clone(&token), weak.clone());
        hooks.listener = Some(Arc::new(move |k, v, c| {
            let _ = &tok;
            if let Some(rd) = w.upgrade() {
                rd.listen(&k, &v, c)
            }
        }));
        if fut_listener {
            let (tok, w) = (Arc::clone(&token), weak.clone());
            let how = match rng.below(4) {
                0 => (0, 4),
                1 => (1, 4),
                2 => (4, 6),
                _ => (12, 2),
            };
            let how = if flood { (8, 4) } else { how };
            let lr = Mutex::new(Rng::of(&[seed, case, 991]));
            let gates = Arc::clone(&gates);
            let calls = Arc::clone(&calls);
            hooks.listener_fut = Some(Arc::new(move |k, v, c| {
                let _ = &tok;
                let pause = gates.pause(&mut lr.lock().unwrap(), how);
                let rd = w.upgrade();
                let calls = Arc::clone(&calls);
                Box::pin(async move {
                    if let Some(rd) = rd {
                        listen(rd, calls, k, v, c, pause).await
                    }
                })
            }));
        }
    }
    if rd.cfg.weigher {
        hooks.weigher = Some(Arc::new(|_k, v: &Val| v.weight()));
    }
    if rd.cfg.expiry {
        hooks.expiry = Some(Arc::new(TagExpiry {
            unit: rd.deadline_dur,
            reads: rd.exp_reads,
        }));
    }
    STRICT_BLOCK.with(|s| s.set(true));
    set_tracker(Some(Arc::clone(&rd.tracker)));
    let cache = build_fut(&rd.cfg, &hooks, Some(&rd.clock));
    drop(hooks);
    let mut st: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut recs: Vec<Rec> = vec![];
    let mut stable: HashMap<u32, u64> = HashMap::new();
    for i in 0..rd.stable {
        let key = rd.nk + i;
        let id = rd.tracker.fresh_id();
        let inv = rd.t();
        block_on(cache.insert(
            Key::new(key, &rd.tracker),
            Val::with_id(&rd.tracker, id, key, 1, 1),
        ));
        stable.insert(key, id);
        recs.push(Rec {
            th: 99,
            k: K::Insert,
            key,
            inv,
            resp: rd.t(),
            c_inv: 0,
            c_resp: 0,
            plan: Plan::Ok,
            new: id,
            w: 1,
            tag: 1,
            began: None,
            ran: None,
            saw: None,
            out: Out::Unit,
            fresh: false,
            items: vec![],
            pred: 0,
        });
    }
    let nhot = rng.range(0, 3);
    let hot = (0..nhot).map(|_| *rng.pick(ASITES)).collect();
    PTS.with(|p| {
        *p.borrow_mut() = Some(Pts {
            rng: Rng::of(&[seed, case, 992]),
            hot,
            hot_p: *rng.pick(&[100u64, 400, 900]),
            bg_p: *rng.pick(&[0u64, 10, 60, 200]),
            n: 0,
        })
    });
    let width = rd.nth as usize;
    let user = *rng.pick(&[(0u64, 4u64), (2, 4), (6, 4), (1, 0)]);
    let open_w = if flood { 0 } else { *rng.pick(&[0u64, 1, 4]) };
    let start_w = *rng.pick(&[2u64, 6, 20]);
    let fresh_wakers = rng.chance(1, 2);
    let mut co = Coop {
        rd: Arc::clone(&rd),
        cache: cache.clone(),
        gates: Arc::clone(&gates),
        calls: Arc::clone(&calls),
        rng: Rng::of(&[seed, case, 993]),
        user,
        fresh_wakers,
    };
    let mut tasks: Vec<Task> = vec![];
    let mut started = 0;
    let (mut polls, mut dropped, mut stalls, mut apart) = (0u64, 0u64, 0u64, 0u64);
    let mut stuck: Option<Viol> = None;
    let cut_short = rng.chance(1, 6);
    let in_turn = rng.chance(1, if rd.herd { 2 } else { 8 });
    let mut trace: u64 = 0;
    loop {
        if !rd.bad.lock().unwrap().is_empty() {
            break;
        }
        if started == total && (tasks.is_empty() || cut_short) {
            break;
        }
        let ready: Vec<usize> = (0..tasks.len())
            .filter(|i| tasks[*i].flag.0.load(SeqCst))
            .collect();
        let free = tasks.len() < width && started < total;
        // Calls on a key wait for the closures of that key alone.
        if ready.is_empty()
            && (!rd.cfg.listener || dropped == 0 && calls.now.lock().unwrap().is_empty())
        {
            let nested = calls.nested.lock().unwrap().clone();
            let rs: Vec<(K, u32, bool)> = tasks
                .iter()
                .map(|t| &t.rec)
                .chain(&nested)
                .map(|r| {
                    let r = r.lock().unwrap();
                    (r.k, r.key, r.began.is_some() && r.ran.is_none())
                })
                .collect();
            let any = rs.iter().any(|r| r.2);
            for r in rs.iter().filter(|_| any) {
                apart += rs.iter().any(|o| o.2 && o.1 != r.1) as u64;
                if !r.2 && !r.0.comp() && r.0.init_kind().is_none() {
                    stuck = Some(Viol {
                        tags: vec!["C21", "C17"],
                        msg: format!(
                            "{:?} of key {} is held up by suspended closures: {rs:?}",
                            r.0, r.1
                        ),
                    });
                    break;
                }
                if !r.2 && !r.0.comp() && r.0.init_kind().is_none() {
                    stuck = Some(Viol {
                        tags: vec!["C21", "C17"],
                        msg: format!(
                            "{:?} of key {} is held up by suspended closures: {rs:?}",
                            r.0, r.1
                        ),
                    });
                    break;
                }
                if !rs.iter().any(|o| o.2 && o.1 == r.1) {
                    stuck = Some(Viol {
                        tags: vec!["C10", "C12", "C17"],
                        msg: format!(
                            "{:?} of key {} is held up, while closures are suspended for other keys alone: {rs:?}",
                            r.0, r.1
                        ),
                    });
                }
            }
            if stuck.is_some() {
                break;
            }
        }
        if ready.is_empty() && !tasks.is_empty() {
            // Only the user's closures can hold tasks up.
            if !free || rng.chance(1, 4) {
                if let Some(g) = gates.take(&mut rng) {
                    stalls += 1;
                    g.open();
                    continue;
                }
            }
            let closed = gates
                .list
                .lock()
                .unwrap()
                .iter()
                .any(|g| g.strong_count() > 0);
            if !closed {
                let live: Vec<K> = tasks.iter().map(|t| t.rec.lock().unwrap().k).collect();
                let mut tags = vec!["C17"];
                if dropped > 0 {
                    tags.push("C14");
                }
                if live.iter().any(|k| k.init_kind().is_some()) {
                    tags.extend(["C10", "C11"]);
                }
                if live.iter().any(|k| k.comp()) {
                    tags.push("C12");
                }
                if rd.lis_panic_at != u64::MAX {
                    tags.push("C18");
                }
                stuck = Some(Viol {
                    tags,
                    msg: format!("no task can go on: {live:?} wait, nothing wakes them, and no user closure is suspended"),
                });
                break;
            }
        }
        if polls > 50_000 + 4_000 * total {
            stuck = Some(Viol {
                tags: vec!["C17"],
                msg: format!("{polls} polls for {started} operations: they never complete"),
            });
            break;
        }
        let ws = [
            if free { start_w as u32 } else { 0 },
            if ready.is_empty() { 0 } else { 8 },
            if tasks.is_empty() { 0 } else { drops as u32 },
            open_w as u32,
            if spurious && !tasks.is_empty() { 1 } else { 0 },
        ];
        if ws.iter().all(|w| *w == 0) {
            continue;
        }
        let act = rng.weighted(&ws);
        trace = mix(trace ^ act as u64);
        match act {
            0 => {
                let th = (0..width as u32)
                    .find(|th| tasks.iter().all(|t| t.th != *th))
                    .unwrap();
                let t = co.start(th);
                started += 1;
                tasks.push(t);
            }
            1 | 4 => {
                let i = if act == 1 && in_turn {
                    *ready.iter().min_by_key(|i| tasks[**i].last).unwrap()
                } else if act == 1 {
                    *rng.pick(&ready)
                } else {
                    rng.below(tasks.len() as u64) as usize
                };
                watch::op("a poll of an operation's future");
                polls += 1;
                tasks[i].last = polls;
                let over = co.poll(&mut tasks[i]);
                watch::idle();
                if over {
                    let t = tasks.swap_remove(i);
                    trace = mix(trace ^ polls);
                    recs.push(t.rec.lock().unwrap().clone());
                }
            }
            2 => {
                // Rather those that are on the way.
                let mut i = rng.below(tasks.len() as u64) as usize;
                if tasks[i].polls == 0 {
                    i = rng.below(tasks.len() as u64) as usize;
                }
                let t = tasks.swap_remove(i);
                watch::op("dropping an operation's future");
                if let Some(r) = co.kill(t) {
                    dropped += 1;
                    recs.push(r);
                }
                watch::idle();
            }
            _ => {
                if let Some(g) = gates.take(&mut rng) {
                    g.open()
                }
            }
        }
    }
    if cut_short || stuck.is_some() {
        while !tasks.is_empty() {
            let i = rng.below(tasks.len() as u64) as usize;
            watch::op("dropping an operation's future");
            if let Some(r) = co.kill(tasks.swap_remove(i)) {
                dropped += 1;
                recs.push(r);
            }
            watch::idle();
        }
    }
    // (If a violation was found early, the rest is just let go.)
    rd.closing.store(!tasks.is_empty(), SeqCst);
    tasks.clear();
    if rng.chance(3, 4) {
        PTS.with(|p| *p.borrow_mut() = None);
    }
    // What is still suspended in the cache (for the next operation to take up) may go on.
    gates.open_all();
    recs.append(&mut rd.recs.lock().unwrap());
    recs.sort_by_key(|r| r.inv);
    drop(co);
    let api: Box<dyn Api> = Box::new(FutC(cache));
    let mut r = match stuck {
        Some(v) => Err(v),
        None if rng.chance(1, 10) => {
            // Drop the cache as it is.
            let b = rd.bad.lock().unwrap().first().cloned();
            b.map_or(Ok(()), Err)
        }
        None => {
            let mut j = Judge {
                rd: &rd,
                api: &*api,
                recs: &recs,
                stable: &stable,
                st: &mut st,
                prop,
            };
            gates.always_open.store(true, SeqCst);
            // (Where entries are evicted, a dropped maintenance run may still owe notifications,
            // which other operations take up only when maintenance is due.)
            let settled = matches!(
                rd.mode,
                Mode::Map | Mode::Mixed | Mode::Comp | Mode::Init | Mode::InitRm
            );
            let probe = (cut_short && settled).then(|| rng.below(3));
            let go = |j: &mut Judge| {
                if let Some(how) = probe {
                    // Any operation takes up what the dropped ones left.
                    j.probe(how)?;
                }
                j.judge()
            };
            match catch_unwind(AssertUnwindSafe(|| go(&mut j))) {
                Ok(r) => r,
                Err(_) => viol(
                    &["C17", "C14", "ALL"],
                    format!("an operation at rest panicked: {}", crate::last_panic()),
                ),
            }
        }
    };
    let sus = PTS.with(|p| p.borrow_mut().take()).map_or(0, |p| p.n);
    *st.entry("cases").or_default() += 1;
    *st.entry("ops").or_default() += recs.len() as u64;
    *st.entry("polls").or_default() += polls;
    *st.entry("suspensions").or_default() += sus;
    *st.entry("gates").or_default() += gates.made.load(SeqCst);
    *st.entry("nested_ops").or_default() += rd.nested.load(SeqCst);
    *st.entry("stalls_on_user").or_default() += stalls;
    *st.entry("stalls_on_other_keys").or_default() += apart;
    *st.entry("dropped").or_default() += dropped;
    let kn = calls.known.load(SeqCst);
    if kn > 0 {
        *st.entry("known.C18.dropped-mid-listener").or_default() += kn;
    }
    let kn = calls.gave_up.load(SeqCst);
    if kn > 0 {
        *st.entry("known.C11.gives-up-after-200").or_default() += kn;
    }
    if rd_herd {
        *st.entry("herds").or_default() += 1;
    }
    if flood {
        *st.entry("floods").or_default() += 1;
    }
    if !recs.is_empty() && r.is_ok() {
        *st.entry("stored_values").or_default() += 1;
    }
    let mut log = dump(&recs);
    log.push(format!("schedule {trace:016x}"));
    rd.closing.store(true, SeqCst);
    let tracker = Arc::clone(&rd.tracker);
    watch::op("dropping the cache");
    drop(api);
    watch::idle();
    drop(rd);
    set_tracker(None);
    STRICT_BLOCK.with(|s| s.set(false));
    if r.is_ok() && tracker.bad.load(SeqCst) > 0 {
        r = viol(
            &["C15", "C16"],
            "a key or value was dropped twice or used after its drop",
        );
    }
    if r.is_ok() && (prop == "C16" || case % 16 == 0) {
        match reclaim_until(|| {
            tracker.keys.load(SeqCst) == 0
                && tracker.vals.load(SeqCst) == 0
                && Arc::strong_count(&token) == 1
        }) {
            Reclaim::Done => *st.entry("released_all").or_default() += 1,
            Reclaim::Unknown => *st.entry("reclaim_unknown").or_default() += 1,
            Reclaim::Retained => {
                r = viol(
                    &["C16"],
                    format!(
                    "after the last handle was dropped, {} keys, {} values and {} closures remain",
                    tracker.keys.load(SeqCst),
                    tracker.vals.load(SeqCst),
                    Arc::strong_count(&token) - 1
                ),
                )
            }
        }
    }
    if let Err(v) = &mut r {
        if dropped > 0 && !v.tags.contains(&"C14") {
            v.tags.push("C14");
        }
    }
    CaseOut {
        config: cfgs,
        st,
        log,
        r,
    }
}
