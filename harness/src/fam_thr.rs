//! S9: several real threads emit on, subscribe to and unsubscribe from the same subject, shared
//! subscriber, merged pipeline or share. What happened is recorded with global time stamps and
//! checked after the threads have been joined. Random short delays in everything the library calls
//! back (values being cloned and dropped, notifications, closedness checks, teardowns) widen races.
use crate::fam_ho::SubscriptionWithTeardown;
use crate::rt::{lock, viol};
use crate::runner::{Ctx, OTHER_PANIC};
use crate::val::Rng;
use rx_core::prelude::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex, mpsc};
use std::time::Duration;

static NOW: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static MOVED: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 {
    NOW.fetch_add(1, SeqCst)
}
thread_local! {
    static JIT: Cell<u64> = const { Cell::new(0) };
    static ME: Cell<u32> = const { Cell::new(99) };
}
/// a random short delay
fn jitter() {
    let x = JIT.get();
    if x == 0 {
        return;
    }
    let mut y = x;
    y ^= y << 13;
    y ^= y >> 7;
    y ^= y << 17;
    JIT.set(y);
    match (y >> 20) % 64 {
        0..=39 => {}
        40..=57 => (0..(y >> 40) % 200).for_each(|_| std::hint::spin_loop()),
        58..=62 => std::thread::yield_now(),
        _ => std::thread::sleep(Duration::from_micros(1 + (y >> 40) % 30)),
    }
}
/// who emitted it on which port, and its ordinal among those
type Id = (u32, u8, u32);
struct V(Vec<Id>);
impl V {
    fn new(v: Vec<Id>) -> Self {
        LIVE.fetch_add(1, SeqCst);
        V(v)
    }
}
impl Clone for V {
    fn clone(&self) -> Self {
        jitter();
        V::new(self.0.clone())
    }
}
impl Drop for V {
    fn drop(&mut self) {
        jitter();
        LIVE.fetch_sub(1, SeqCst);
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Got {
    N(Vec<Id>),
    E,
    C,
    Closed,
}
/// what one subscriber saw
struct Seen {
    log: Mutex<Vec<(u64, Got)>>,
    by: Mutex<Vec<u32>>,
    busy: AtomicBool,
    overlap: AtomicBool,
    count: AtomicU32,
    nest: Option<(u32, Nest)>,
    world: Mutex<Option<std::sync::Weak<World>>>,
    me: usize,
    /// a subscriber which closes on a terminal notification, as opposed to waiting to be unsubscribed
    closes: bool,
}
#[derive(Clone, Copy, Debug)]
enum Nest {
    Emit(u8, u8),
    Unsub,
    Complete(u8),
    Sub,
}
impl Seen {
    fn got(&self, g: Got) {
        if self.busy.swap(true, SeqCst) {
            self.overlap.store(true, SeqCst);
        }
        let next = matches!(g, Got::N(_));
        {
            let mut l = lock(&self.log);
            l.push((now(), g));
            lock(&self.by).push(ME.get());
        }
        jitter();
        if next {
            let k = self.count.fetch_add(1, SeqCst) + 1;
            if let Some((at, n)) = self.nest {
                let w = lock(&self.world).as_ref().and_then(|w| w.upgrade());
                if let Some(w) = w
                    && k == at
                {
                    w.nested(self.me, n);
                }
            }
        }
        self.busy.store(false, SeqCst);
    }
}
struct TSink(Arc<Seen>, bool, Vec<Teardown>, V);
impl ObserverInput for TSink {
    type In = V;
    type InError = V;
}
impl WithPrimaryCategory for TSink {
    type PrimaryCategory = PrimaryCategorySubscriber;
}
impl ObserverUpgradesToSelf for TSink {}
impl RxObserver for TSink {
    fn next(&mut self, v: V) {
        self.0.got(Got::N(v.0.clone()));
    }
    fn error(&mut self, _e: V) {
        self.0.got(Got::E);
        if self.0.closes {
            self.unsubscribe();
        }
    }
    fn complete(&mut self) {
        self.0.got(Got::C);
        if self.0.closes {
            self.unsubscribe();
        }
    }
}
impl SubscriptionLike for TSink {
    fn is_closed(&self) -> bool {
        jitter();
        self.1
    }
    fn unsubscribe(&mut self) {
        if !self.1 {
            self.1 = true;
            lock(&self.0.log).push((now(), Got::Closed));
            lock(&self.0.by).push(ME.get());
            for t in std::mem::take(&mut self.2) {
                t.execute();
            }
        }
    }
}
impl TeardownCollection for TSink {
    fn add_teardown(&mut self, t: Teardown) {
        if self.1 { t.execute() } else { self.2.push(t) }
    }
}
impl Drop for TSink {
    fn drop(&mut self) {
        self.unsubscribe();
    }
}
/// upgraded by the library
struct TObs(Arc<Seen>, V);
impl ObserverInput for TObs {
    type In = V;
    type InError = V;
}
impl WithPrimaryCategory for TObs {
    type PrimaryCategory = PrimaryCategoryObserver;
}
impl UpgradeableObserver for TObs {
    type Upgraded = ObserverSubscriber<TObs>;
    fn upgrade(self) -> Self::Upgraded {
        ObserverSubscriber::new(self)
    }
}
impl RxObserver for TObs {
    fn next(&mut self, v: V) {
        self.0.got(Got::N(v.0.clone()));
    }
    fn error(&mut self, _e: V) {
        self.0.got(Got::E);
    }
    fn complete(&mut self) {
        self.0.got(Got::C);
    }
}

#[derive(Clone)]
enum Port {
    P(PublishSubject<V, V>),
    B(BehaviorSubject<V, V>),
    R(ReplaySubject<3, V, V>),
    A(AsyncSubject<V, V>),
    S(SharedSubscriber<TSink>),
}
macro_rules! on {
    ($p:expr, $x:ident, $e:expr) => {
        match $p {
            Port::P($x) => $e,
            Port::B($x) => $e,
            Port::R($x) => $e,
            Port::A($x) => $e,
            Port::S($x) => $e,
        }
    };
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Publish,
    Behavior,
    Replay,
    Async,
    Shared,
    Merge(usize),
    MergeMap,
    Latest,
    Changes,
    Zip,
    Join,
    Wlf,
    Share,
    SharedSub,
    /// every value of the first port makes it subscribe to the second
    Switch,
    Exhaust,
    Concat,
    MergeEach,
    /// goes on with the second port once the first has failed
    Catch,
}
type H = Box<dyn SubscriptionWithTeardown + Send + Sync>;
struct Slot {
    h: Mutex<Option<H>>,
    seen: Arc<Seen>,
    sub: Mutex<Option<(u64, u64)>>,
    /// first call that closes it on purpose: began, and ended if it certainly closes it
    unsub: Mutex<Option<(u64, u64)>>,
    raw: bool,
    chain: u8,
}
struct World {
    kind: Kind,
    ports: Vec<Port>,
    share: Option<ShareBox>,
    shared_sub: Option<SharedSubscription>,
    slots: Vec<Slot>,
    emitted: Mutex<Vec<(Id, u64, u64)>>,
    ends: Mutex<Vec<(u8, End, u64, u64)>>,
    seqs: Mutex<BTreeMap<(u32, u8), u32>>,
    tds: Mutex<Vec<Arc<(usize, AtomicU32)>>>,
    /// all calls made: when they began and ended
    calls: Mutex<Vec<(u64, u64)>>,
    steps: Mutex<Vec<(u32, Do, u64, u64)>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    C,
    E,
    U,
}
type ShareBox = Box<dyn Fn(&World, usize) -> H + Send + Sync>;

fn w_direct(k: Kind, chain: u8) -> bool {
    k == Kind::Publish && chain < 4
}
impl World {
    fn emit(&self, who: u32, port: u8) {
        let mut p = self.ports[port as usize].clone();
        let n = {
            let mut s = lock(&self.seqs);
            let n = s.entry((who, port)).or_default();
            *n += 1;
            *n
        };
        let id = (who, port, n);
        let b = now();
        on!(&mut p, x, x.next(V::new(vec![id])));
        drop(p);
        let e = now();
        lock(&self.emitted).push((id, b, e));
    }
    fn end(&self, port: u8, e: End) {
        let mut p = self.ports[port as usize].clone();
        let b = now();
        match e {
            End::C => on!(&mut p, x, x.complete()),
            End::E => on!(&mut p, x, x.error(V::new(vec![]))),
            End::U => on!(&mut p, x, x.unsubscribe()),
        }
        drop(p);
        let t = now();
        lock(&self.ends).push((port, e, b, t));
    }
    fn subscribe(&self, k: usize) {
        let s = &self.slots[k];
        // a slot is subscribed at most once
        if lock(&s.sub).is_some() || self.kind == Kind::SharedSub {
            return;
        }
        let Ok(mut h) = s.h.try_lock() else { return };
        {
            let mut x = lock(&s.sub);
            if x.is_some() {
                return;
            }
            *x = Some((now(), u64::MAX));
        }
        *h = Some(self.make(k));
        let e = now();
        let mut x = lock(&s.sub);
        x.as_mut().unwrap().1 = e;
    }
    fn with_sink<O: Observable<Out = V, OutError = V>>(&self, o: &mut O, k: usize) -> H
    where
        O::Subscription<TSink>: 'static + Send + Sync,
        O::Subscription<ObserverSubscriber<TObs>>: 'static + Send + Sync,
    {
        let s = &self.slots[k];
        if s.raw {
            Box::new(o.subscribe(TSink(s.seen.clone(), false, vec![], V::new(vec![]))))
        } else {
            Box::new(o.subscribe(TObs(s.seen.clone(), V::new(vec![]))))
        }
    }
    fn chained<O: 'static + Observable<Out = V, OutError = V> + Send + Sync>(&self, mut o: O, k: usize) -> H
    where
        O::Subscription<TSink>: 'static + Send + Sync,
        O::Subscription<ObserverSubscriber<TObs>>: 'static + Send + Sync,
    {
        match self.slots[k].chain {
            0..=3 => self.with_sink(&mut o, k),
            4 => self.with_sink(&mut o.erase().map(|v: V| v), k),
            5 => self.with_sink(&mut o.erase().filter(|_: &V, _| true), k),
            6 => self.with_sink(&mut o.erase().skip(0).tap_next(|_| jitter()), k),
            _ => self.with_sink(&mut o.erase(), k),
        }
    }
    fn make(&self, k: usize) -> H {
        fn pp(p: &Port) -> PublishSubject<V, V> {
            match p {
                Port::P(x) => x.clone(),
                _ => unreachable!(),
            }
        }
        fn pair((a, b): (V, V)) -> V {
            V::new(a.0.iter().chain(b.0.iter()).cloned().collect())
        }
        match self.kind {
            Kind::Publish | Kind::Behavior | Kind::Replay | Kind::Async => match self.ports[0].clone() {
                Port::P(x) => self.chained(x, k),
                Port::B(x) => self.chained(x, k),
                Port::R(x) => self.chained(x, k),
                Port::A(x) => self.chained(x, k),
                _ => unreachable!(),
            },
            Kind::Merge(lim) => {
                let v: Vec<_> = self.ports.iter().map(|p| pp(p).erase()).collect();
                match <[_; 2]>::try_from(v) {
                    Ok(v) => self.chained(merge(v, lim), k),
                    Err(v) => match <[_; 3]>::try_from(v) {
                        Ok(v) => self.chained(merge(v, lim), k),
                        Err(_) => unreachable!(),
                    },
                }
            }
            Kind::MergeMap => {
                let all: Vec<_> = self.ports.iter().map(pp).collect();
                self.chained(just(()).map_never::<V>().merge_map(move |_| merge([all[0].clone().erase(), all[1].clone().erase()], usize::MAX), usize::MAX, |e: V| e), k)
            }
            Kind::Latest => self.chained(combine_latest(pp(&self.ports[0]), pp(&self.ports[1])).map(pair), k),
            Kind::Changes => {
                let f = |c: Change<V>| match c {
                    Change::JustUpdated(v) | Change::Latest(v) => v,
                    Change::None => V::new(vec![]),
                };
                self.chained(combine_changes(pp(&self.ports[0]), pp(&self.ports[1])).map(move |(a, b)| pair((f(a), f(b)))), k)
            }
            Kind::Zip => self.chained(zip(pp(&self.ports[0]), pp(&self.ports[1])).map(pair), k),
            Kind::Join => self.chained(join(pp(&self.ports[0]), pp(&self.ports[1])).map(pair), k),
            Kind::Wlf => self.chained(pp(&self.ports[0]).with_latest_from(pp(&self.ports[1])).map(pair), k),
            Kind::Share => (self.share.as_ref().unwrap())(self, k),
            Kind::Switch | Kind::Exhaust | Kind::Concat | Kind::MergeEach => {
                let (o, i) = (pp(&self.ports[0]), pp(&self.ports[1]));
                let f = move |_: V| i.clone();
                let e = |e: V| e;
                match self.kind {
                    Kind::Switch => self.chained(o.switch_map(f, e), k),
                    Kind::Exhaust => self.chained(o.exhaust_map(f, e), k),
                    Kind::Concat => self.chained(o.concat_map(f, e), k),
                    _ => self.chained(o.merge_map(f, 2, e), k),
                }
            }
            Kind::Catch => {
                let b = pp(&self.ports[1]);
                self.chained(pp(&self.ports[0]).catch(move |_: V| b.clone()), k)
            }
            Kind::Shared | Kind::SharedSub => unreachable!(),
        }
    }
    fn unsub(&self, k: usize, mut how: u8) {
        let s = &self.slots[k];
        // one which waits to be unsubscribed has to be
        if how == 1 && s.raw && !s.seen.closes {
            how = 0;
        }
        let Ok(mut g) = s.h.try_lock() else { return };
        if how < 2 && g.is_some() {
            let b = now();
            {
                let mut u = lock(&s.unsub);
                if u.is_none() {
                    *u = Some((b, u64::MAX));
                }
            }
            if how == 0 {
                g.as_mut().unwrap().unsubscribe();
            } else {
                drop(g.take());
            }
            // dropping a handle does not close everything
            let e = now();
            if how == 0 || w_direct(self.kind, s.chain) {
                let mut u = lock(&s.unsub);
                let u = u.as_mut().unwrap();
                u.1 = u.1.min(e);
            }
            } else if let Some(h) = g.as_mut() {
            if how == 2 {
                self.td(k, |t| h.add_teardown(t));
            } else {
                h.is_closed();
            }
        }
    }
    fn td(&self, k: usize, f: impl FnOnce(Teardown)) {
        let c = Arc::new((k, AtomicU32::new(0)));
        lock(&self.tds).push(c.clone());
        let v = V::new(vec![]);
        f(Teardown::new(move || {
            let _v = &v;
            jitter();
            c.1.fetch_add(1, SeqCst);
        }));
    }
    fn nested(&self, me: usize, n: Nest) {
        match n {
            Nest::Emit(port, k) => (0..k).for_each(|_| self.emit(100 + me as u32, port)),
            Nest::Unsub => self.unsub(me, 0),
            Nest::Complete(port) => self.end(port, End::C),
            Nest::Sub => {
                if let Some(k) = (0..self.slots.len()).find(|k| lock(&self.slots[*k].sub).is_none()) {
                    self.subscribe(k);
                }
            }
        }
    }
}
#[derive(Clone, Debug)]
enum Do {
    Emit(u8),
    End(u8, End),
    Sub(usize),
    Unsub(usize),
    Drop(usize),
    Td(usize),
    Poll(usize),
    PollPort(u8),
}
#[derive(Clone, Debug)]
struct Case {
    kind: Kind,
    ports: usize,
    slots: Vec<(bool, bool, u8, Option<(u32, Nest)>)>,
    first: usize,
    threads: Vec<Vec<Do>>,
}
fn generate(r: &mut Rng) -> Case {
    let kind = match r.below(29) {
        0..=5 => Kind::Publish,
        6 => Kind::Behavior,
        7 => Kind::Replay,
        8 => Kind::Async,
        9..=12 => Kind::Shared,
        13..=15 => Kind::Merge(*r.pick(&[usize::MAX, 3])),
        16 => Kind::MergeMap,
        17 => Kind::Latest,
        18 => *r.pick(&[Kind::Changes, Kind::Join]),
        19 => Kind::Zip,
        20 => Kind::Wlf,
        21..=22 => Kind::Share,
        23 => Kind::Switch,
        24 => Kind::Exhaust,
        25 => Kind::Concat,
        26 => Kind::MergeEach,
        27 => Kind::Catch,
        _ => Kind::SharedSub,
    };
    let ports = match kind {
        Kind::Merge(_) => 2 + r.below(2),
        Kind::Share => 1,
        Kind::MergeMap | Kind::Latest | Kind::Changes | Kind::Zip | Kind::Join | Kind::Wlf => 2,
        Kind::Switch | Kind::Exhaust | Kind::Concat | Kind::MergeEach | Kind::Catch => 2,
        _ => 1,
    };
    let single = matches!(kind, Kind::Shared | Kind::SharedSub);
    let ns = if single { 1 } else { 1 + r.below(4) };
    let first = if single { 1 } else { r.below(ns + 1) };
    let nesting = r.chance(1, 3);
    let slots: Vec<_> = (0..ns)
        .map(|_| {
            let nest = (nesting && r.chance(1, 2)).then(|| {
                let n = match r.below(6) {
                    0..=2 => Nest::Emit(r.below(ports) as u8, 1 + r.below(2) as u8),
                    3 => Nest::Unsub,
                    4 => Nest::Complete(r.below(ports) as u8),
                    _ => Nest::Sub,
                };
                (1 + r.below(4) as u32, n)
            });
            // one which swallows terminal notifications is only of use right at a source
            let closes = r.chance(1, 2) || !matches!(kind, Kind::Publish | Kind::Shared | Kind::Behavior | Kind::Replay | Kind::Async);
            (single || r.chance(1, 2), closes, r.below(8) as u8, nest)
        })
        .collect();
    let nt = 2 + r.below(3);
    let ends = r.chance(1, 2);
    let churn = r.chance(1, 2);
    let td = !nesting || matches!(kind, Kind::Publish | Kind::Behavior | Kind::Replay | Kind::Async | Kind::Shared | Kind::SharedSub);
    let threads = (0..nt)
        .map(|me| {
            let cap = *r.pick(&[3, 8, 30]);
            let len = 1 + r.below(cap);
            (0..len)
                .map(|_| {
                    let port = if ports > 1 && r.chance(3, 4) { me % ports } else { r.below(ports) } as u8;
                    match r.below(40) {
                        0 | 1 if ends => Do::End(port, *r.pick(&[End::C, End::C, End::E])),
                        2 if ends && r.chance(1, 2) => Do::End(port, End::U),
                        3..=6 if churn => Do::Sub(r.below(ns)),
                        7..=8 if churn => Do::Unsub(r.below(ns)),
                        9 if churn => Do::Drop(r.below(ns)),
                        // adding a teardown waits for the notification being delivered, which must
                        // not wait for the same subscriber in turn
                        10 | 11 if td => Do::Td(r.below(ns)),
                        12 => Do::Poll(r.below(ns)),
                        13 => Do::PollPort(port),
                        _ => Do::Emit(port),
                    }
                })
                .collect()
        })
        .collect();
    Case { kind, ports, slots, first, threads }
}
fn execute(c: &Case, seed: u64, verbose: bool) -> Option<(Arc<World>, bool)> {
    NOW.store(1, SeqCst);
    LIVE.store(0, SeqCst);
    let slots: Vec<Slot> = c
        .slots
        .iter()
        .enumerate()
        .map(|(me, (raw, closes, chain, nest))| Slot {
            h: Mutex::new(None),
            seen: Arc::new(Seen {
                log: Mutex::new(vec![]),
                by: Mutex::new(vec![]),
                busy: AtomicBool::new(false),
                overlap: AtomicBool::new(false),
                count: AtomicU32::new(0),
                nest: *nest,
                world: Mutex::new(None),
                me,
                closes: *closes,
            }),
            sub: Mutex::new(None),
            unsub: Mutex::new(None),
            raw: *raw,
            chain: *chain,
        })
        .collect();
    let ports: Vec<Port> = (0..c.ports)
        .map(|_| match c.kind {
            Kind::Behavior => Port::B(BehaviorSubject::new(V::new(vec![(999, 0, 0)]))),
            Kind::Replay => Port::R(ReplaySubject::default()),
            Kind::Async => Port::A(AsyncSubject::default()),
            Kind::Shared => Port::S(SharedSubscriber::new(TSink(slots[0].seen.clone(), false, vec![], V::new(vec![])))),
            _ => Port::P(PublishSubject::default()),
        })
        .collect();
    if c.kind == Kind::Shared {
        *lock(&slots[0].sub) = Some((0, 0));
    }
    let share: Option<ShareBox> = match (&ports[0], c.kind) {
        (Port::P(p), Kind::Share) => {
            let s = Mutex::new(p.clone().share(ConnectableOptions::<ProvideWithDefault<PublishSubject<V, V>>>::default()));
            Some(Box::new(move |w, k| {
                let s = lock(&s).clone();
                w.chained(s, k)
            }))
        }
        _ => None,
    };
    let shared_sub = (c.kind == Kind::SharedSub).then(SharedSubscription::default);
    let w = Arc::new(World {
        kind: c.kind,
        ports,
        share,
        shared_sub,
        slots,
        emitted: Mutex::new(vec![]),
        ends: Mutex::new(vec![]),
        seqs: Mutex::new(BTreeMap::new()),
        tds: Mutex::new(vec![]),
        calls: Mutex::new(vec![]),
        steps: Mutex::new(vec![]),
    });
    for s in &w.slots {
        *lock(&s.seen.world) = Some(Arc::downgrade(&w));
    }
    for k in 0..c.first {
        if c.kind != Kind::Shared {
            w.subscribe(k);
        }
    }
    let bar = Arc::new(Barrier::new(c.threads.len()));
    let (tx, rx) = mpsc::channel();
    for (me, script) in c.threads.iter().enumerate() {
        let (w, bar, tx, script) = (w.clone(), bar.clone(), tx.clone(), script.clone());
        std::thread::spawn(move || {
            JIT.set((seed ^ (me as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)) | 1);
            ME.set(me as u32);
            bar.wait();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for d in &script {
                    jitter();
                    MOVED.fetch_add(1, SeqCst);
                    let b = now();
                    step(&w, me as u32, d);
                    let e = now();
                    lock(&w.calls).push((b, e));
                    if verbose {
                        lock(&w.steps).push((me as u32, d.clone(), b, e));
                    }
                }
            }));
            drop(w);
            let _ = tx.send(r.is_err());
        });
    }
    drop(tx);
    let mut panicked = false;
    let mut left = c.threads.len();
    let mut moved = MOVED.load(SeqCst);
    let mut still = 0;
    while left > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(p) => {
                left -= 1;
                panicked |= p;
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => return None,
            Err(_) => {
                let m = MOVED.load(SeqCst);
                if m != moved {
                    moved = m;
                    still = 0;
                    continue;
                }
                // counted, as all of this may be suspended for long
                still += 1;
                if still > 20 {
                    if std::env::var_os("VH_HANG").is_some() {
                        eprintln!("hanging");
                        loop {
                            std::thread::sleep(Duration::from_secs(1));
                        }
                    }
                    // leave them to it
                    std::mem::forget(w);
                    return None;
                }
            }
        }
    }
    Some((w, panicked))
}
fn step(w: &World, me: u32, d: &Do) {
    if let Some(s) = &w.shared_sub {
        let mut s = s.clone();
        match d {
            Do::Unsub(_) | Do::End(..) | Do::Drop(_) => {
                let b = now();
                s.unsubscribe();
                lock(&w.ends).push((0, End::U, b, now()));
            }
            Do::Poll(_) | Do::PollPort(_) => {
                s.is_closed();
            }
            _ => w.td(0, |t| s.add_teardown(t)),
        }
        return;
    }
    match d {
        Do::Emit(p) => w.emit(me, *p),
        Do::End(p, e) => w.end(*p, *e),
        Do::Sub(k) => w.subscribe(*k),
        Do::Unsub(k) => w.unsub(*k, 0),
        Do::Drop(k) => w.unsub(*k, 1),
        Do::Td(k) => {
            if let Port::S(s) = &w.ports[0] {
                let mut s = s.clone();
                w.td(0, |t| s.add_teardown(t));
            } else {
                w.unsub(*k, 2)
            }
        }
        Do::Poll(k) => w.unsub(*k, 3),
        Do::PollPort(p) => {
            let x = w.ports[*p as usize].clone();
            on!(&x, x, x.is_closed());
        }
    }
}
fn judge(w: &World, c: &Case, bad: &mut Vec<(String, String)>) -> u64 {
    let mut say = |s: &str, d: String| bad.push((s.to_string(), d));
    let emitted = lock(&w.emitted).clone();
    let ends = lock(&w.ends).clone();
    let mut compared = 0;
    let calls = lock(&w.calls).clone();
    // when what a call left to other threads has certainly been done: they all have returned
    let settled = |mut t: u64| {
        while let Some(c) = calls.iter().filter(|c| c.0 < t && c.1 > t).map(|c| c.1).max() {
            t = c;
        }
        t
    };
    let one_queue = matches!(w.kind, Kind::Publish | Kind::Shared);
    let ended_all = |from: u64| {
        // the first call that could have ended each port, and whether one certainly did
        let e: Vec<u64> = (0..c.ports as u8).map(|p| ends.iter().filter(|x| x.0 == p && x.3 > from).map(|x| x.2).min().unwrap_or(u64::MAX)).collect();
        e
    };
    for (k, s) in w.slots.iter().enumerate() {
        let Some((sb, se)) = *lock(&s.sub) else { continue };
        // another thread may still be connecting it
        let se = if w.kind == Kind::Share && se != u64::MAX { settled(se) } else { se };
        let unsub = *lock(&s.unsub);
        let log = lock(&s.seen.log).clone();
        let tail = || format!("{:?} subscriber {k} subscribed at {sb}..{se}, unsubscribed {unsub:?}, ended {ends:?}, saw {log:?}, emitted {emitted:?}, by {:?}, steps {:?}", w.kind, lock(&s.seen.by), lock(&w.steps));
        if s.seen.overlap.load(SeqCst) {
            say("two notifications of one subscriber at the same time", tail());
        }
        // grammar
        let mut ended = false;
        let mut closed = false;
        for (_, g) in &log {
            match g {
                Got::Closed => closed = true,
                _ if closed => say("notified after it was closed", tail()),
                _ if ended => say(if matches!(g, Got::N(_)) { "a value after a terminal notification" } else { "a second terminal notification" }, tail()),
                Got::N(_) => {}
                _ => ended = true,
            }
        }
        let got: Vec<&Vec<Id>> = log.iter().filter_map(|(_, g)| if let Got::N(v) = g { Some(v) } else { None }).collect();
        let port_end = ended_all(0);
        let user_close = unsub.map(|u| u.0).unwrap_or(u64::MAX);
        match w.kind {
            Kind::Publish | Kind::Shared | Kind::Merge(_) | Kind::MergeMap | Kind::Share | Kind::Behavior | Kind::Replay => {
                // an error or an unsubscription of one input of a merge ends all of it
                let stop = |p: u8| {
                    let mut x = port_end[p as usize].min(user_close);
                    if c.ports > 1 {
                        x = x.min(ends.iter().filter(|e| e.1 != End::C).map(|e| e.2).min().unwrap_or(u64::MAX));
                    }
                    x
                };
                let initial = matches!(w.kind, Kind::Behavior | Kind::Replay);
                let mut last: BTreeMap<(u32, u8), u32> = BTreeMap::new();
                for v in &got {
                    let (who, port, n) = v[0];
                    if who == 999 {
                        continue;
                    }
                    // may be replayed, sent, or both
                    if initial && emitted.iter().any(|x| x.0 == v[0] && x.1 < se) {
                        continue;
                    }
                    let l = last.entry((who, port)).or_default();
                    if n == *l {
                        say("a value was delivered twice", tail());
                    } else if n < *l {
                        say("values of one thread out of order", tail());
                    } else if *l != 0 && n != *l + 1 && !initial {
                        say("a value in the middle was lost", tail());
                    }
                    *l = n;
                    if let Some((_, b, e)) = emitted.iter().find(|x| x.0 == v[0]) {
                        let e = if one_queue { *e } else { settled(*e) };
                        if e < sb && !initial {
                            say("a value emitted before it subscribed", tail());
                        }
                        if unsub.is_some_and(|u| *b > u.1) {
                            say("a value emitted after it unsubscribed", tail());
                        }
                    }
                }
                for (id, b, e) in &emitted {
                    if *b > se && (if one_queue { *e } else { settled(*e) }) < stop(id.1) {
                        compared += 1;
                        if !got.iter().any(|v| v[0] == *id) {
                            say("a value was lost", format!("{id:?}: {}", tail()));
                        }
                    }
                }
                // the terminal
                let forced = ends.iter().any(|e| e.1 == End::U);
                // of the ends sent to one port only one counts, not known which
                let errs = (0..c.ports as u8).any(|p| ends.iter().any(|e| e.0 == p) && ends.iter().all(|e| e.0 != p || e.1 == End::E));
                let all = (0..c.ports as u8).all(|p| ends.iter().any(|e| e.0 == p));
                if (errs || all) && !forced && unsub.is_none() {
                    compared += 1;
                    if !ended {
                        say("never got the terminal notification", tail());
                    }
                }
                if ends.is_empty() && ended {
                    say("a terminal notification nobody sent", tail());
                }
            }
            Kind::Latest | Kind::Zip | Kind::Changes
                if ends.is_empty() && unsub.is_none() && se < emitted.iter().map(|e| e.1).min().unwrap_or(0) =>
            {
                // one thread per port: the last values must have met
                let of = |p: u8| emitted.iter().filter(|e| e.0.1 == p).map(|e| e.0).collect::<Vec<_>>();
                let (a, b) = (of(0), of(1));
                let one = |x: &[Id]| x.iter().all(|y| y.0 == x[0].0);
                if !a.is_empty() && !b.is_empty() && one(&a) && one(&b) {
                    compared += 1;
                    if w.kind == Kind::Zip {
                        let n = a.len().min(b.len());
                        let exp: Vec<Vec<Id>> = (0..n).map(|i| vec![a[i], b[i]]).collect();
                        if got.iter().map(|x| (*x).clone()).collect::<Vec<_>>() != exp {
                            say("zip paired values wrongly", format!("expected {exp:?}: {}", tail()));
                        }
                    } else {
                        if got.last().map(|x| (*x).clone()) != Some(vec![*a.last().unwrap(), *b.last().unwrap()]) {
                            say("the last values were never combined", tail());
                        }
                        // nor may it go back in time
                        for x in got.windows(2) {
                            for p in 0..2 {
                                let f = |v: &Vec<Id>| v.iter().find(|i| i.1 == p).map(|i| i.2).unwrap_or(0);
                                if f(x[1]) < f(x[0]) {
                                    say("combined values went back in time", tail());
                                }
                            }
                        }
                    }
                }
            }
            Kind::Switch | Kind::Exhaust | Kind::Concat | Kind::MergeEach | Kind::Catch => {
                let mut last: BTreeMap<(u32, u8), u32> = BTreeMap::new();
                for v in &got {
                    let (who, port, n) = v[0];
                    let l = last.entry((who, port)).or_default();
                    if n == *l && w.kind != Kind::MergeEach {
                        say("a value was delivered twice", tail());
                    } else if n < *l {
                        say("values of one thread out of order", tail());
                    }
                    *l = n;
                    compared += 1;
                    if let Some((_, b, e)) = emitted.iter().find(|x| x.0 == v[0]) {
                        if settled(*e) < sb {
                            say("a value emitted before it subscribed", tail());
                        }
                        if unsub.is_some_and(|u| *b > settled(u.1)) {
                            say("a value emitted after it unsubscribed", tail());
                        }
                    }
                }
            }
            Kind::Async => {
                let forced = ends.iter().any(|e| e.1 == End::U);
                if got.len() > 1 {
                    say("an async subject sent several results", tail());
                }
                if ends.iter().any(|e| e.1 != End::U) && !forced && unsub.is_none() && !ended {
                    say("never got the terminal notification", tail());
                }
            }
            _ => {}
        }
    }
    compared
}
pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let c = generate(r);
    cx.publish(format!("{c:?}"));
    let runs = if cx.verbose { 300 } else { 3 };
    let mut fps: u64 = 0;
    for _ in 0..runs {
        let seed = r.u64();
        let Some((w, panicked)) = execute(&c, seed, cx.verbose) else {
            viol("C08", "thr: deadlock", format!("threads stopped moving: {c:?}"));
            return;
        };
        let panics = std::mem::take(&mut *OTHER_PANIC.lock().unwrap_or_else(|p| p.into_inner()));
        if panicked || !panics.is_empty() {
            viol("C08", format!("thr: panic: {}", panics.first().cloned().unwrap_or_default()), format!("{:?} panicked: {panics:?}", c.kind));
            std::mem::forget(w);
            return;
        }
        let mut bad = vec![];
        let compared = judge(&w, &c, &mut bad);
        // the order in which things happened, as an identity of what was observed
        let mut h: u64 = 0xcbf29ce484222325;
        for s in &w.slots {
            for (_, g) in lock(&s.seen.log).iter() {
                for b in format!("{g:?}").bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
            }
            h = h.rotate_left(9);
        }
        fps = fps.rotate_left(7) ^ h;
        let events: u64 = w.slots.iter().map(|s| lock(&s.seen.log).len() as u64).sum();
        cx.stat("threaded executions", 1);
        cx.stat("events recorded", events);
        cx.stat("deliveries decided", compared);
        cx.nontrivial |= events >= 4;
        // teardowns
        let closed_for_sure = |k: usize| {
            lock(&w.slots[k].unsub).is_some_and(|u| u.1 != u64::MAX) || c.kind == Kind::SharedSub && !lock(&w.ends).is_empty()
        };
        let tds = lock(&w.tds).clone();
        for t in &tds {
            let n = t.1.load(SeqCst);
            if n > 1 {
                bad.push(("a teardown ran twice".into(), format!("{:?}: {n} times", c.kind)));
            } else if n == 0 && closed_for_sure(t.0) {
                bad.push(("a teardown has not run although it was unsubscribed".into(), format!("{:?} subscriber {}", c.kind, t.0)));
            }
        }
        // the end of everything
        for s in &w.slots {
            let h = lock(&s.h).take();
            if let Some(mut h) = h
                && s.raw
                && !s.seen.closes
            {
                h.unsubscribe();
            }
        }
        for p in &w.ports {
            let mut p = p.clone();
            on!(&mut p, x, x.unsubscribe());
        }
        if let Some(s) = &w.shared_sub {
            s.clone().unsubscribe();
        }
        for t in &tds {
            if t.1.load(SeqCst) != 1 {
                bad.push(("a teardown did not run exactly once".into(), format!("{:?}: {} times", c.kind, t.1.load(SeqCst))));
            }
        }
        drop(w);
        let l = LIVE.load(SeqCst);
        if l != 0 && bad.is_empty() {
            bad.push(("something is kept alive".into(), format!("{:?}: {l} values", c.kind)));
        }
        let more = std::mem::take(&mut *OTHER_PANIC.lock().unwrap_or_else(|p| p.into_inner()));
        if let Some(p) = more.first() {
            bad.push((format!("panic: {p}"), format!("{:?} at the end: {more:?}", c.kind)));
        }
        for (s, d) in &bad {
            viol("C08", format!("thr: {s}"), d.clone());
        }
        if !bad.is_empty() {
            break;
        }
    }
    cx.fp = fps;
}
