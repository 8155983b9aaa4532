//! Per-thread recording of everything observed while one case runs.
use crate::val::*;
use rx_core::{
    Observable, ObservableOutput, ObserverInput, ObserverSubscriber, ObserverUpgradesToSelf, PrimaryCategoryObservable, PrimaryCategoryObserver,
    PrimaryCategorySubscriber, RxObserver, Subscriber, SubscriptionLike, Teardown, TeardownCollection, UpgradeableObserver, WithPrimaryCategory,
};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    /// a notification accepted by sink (open at that time)
    Sink(u32, Ntf),
    /// a notification reaching a sink that was already closed
    Late(u32, Ntf),
    /// the sink has been closed (terminal, unsubscribed or by itself)
    SinkClosed(u32),
    /// source `s` subscribed for the n-th time; bool: destination was already closed
    SrcSub(u32, u32, bool),
    /// teardown registered by source on its subscriber ran
    SrcTd(u32, u32),
    /// the subscription returned by the source was unsubscribed
    SrcUnsub(u32, u32),
    /// a teardown the client registered ran
    Td(u32),
    /// a finalize callback ran
    Fin(u32),
    /// side effect (tap, on_next, ...)
    Side(u32, Ntf),
    /// a scheduled work executed: id, now(ms)
    Work(u32, u64),
    Note(String),
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub sig: String,
    pub detail: String,
}

pub struct Rt {
    pub log: Vec<(u32, Ev)>,
    pub step: u32,
    pub viols: Vec<Viol>,
    pub budget: usize,
    /// The raw sinks of this case stay open after a terminal notification, as the library's own
    /// intermediate destinations (catch, retry, concat, a throwing source, ..) do. Only the grammar of
    /// what they are sent is judged then.
    pub open: bool,
    /// how `subscribe_sink` wraps the destination or the observable in this case
    pub wrap: u8,
}
thread_local! {
    static RT: RefCell<Rt> = const { RefCell::new(Rt { log: Vec::new(), step: 0, viols: Vec::new(), budget: 20000, open: false, wrap: 0 }) };
}
pub fn with<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    RT.with(|r| f(&mut r.borrow_mut()))
}
pub fn reset() {
    with(|r| {
        r.log.clear();
        r.step = 0;
        r.viols.clear();
        r.budget = 20000;
        r.open = false;
        r.wrap = 0;
    });
    set_owner(0);
    reset_live();
}
pub fn log(e: Ev) {
    let over = with(|r| {
        let s = r.step;
        if r.budget == 0 {
            return true;
        }
        r.budget -= 1;
        r.log.push((s, e));
        false
    });
    if over {
        panic!("RUNAWAY: more than 20000 events in one case");
    }
}
pub fn set_step(s: u32) {
    with(|r| r.step = s)
}
pub fn step() -> u32 {
    with(|r| r.step)
}
pub fn log_len() -> usize {
    with(|r| r.log.len())
}
pub fn log_from(k: usize) -> Vec<(u32, Ev)> {
    with(|r| r.log[k.min(r.log.len())..].to_vec())
}
const PROPS: [&str; 18] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"];
/// `prop` is one property or several joined with `+`
pub fn viol(prop: impl AsRef<str>, sig: impl Into<String>, detail: impl Into<String>) {
    let (sig, detail) = (sig.into(), detail.into());
    let props: Vec<&'static str> = PROPS.into_iter().filter(|p| prop.as_ref().split('+').any(|x| x == *p)).collect();
    assert!(!props.is_empty());
    with(|r| {
        if r.open && !sig.ends_with(": notification after terminal") {
            return;
        }
        for prop in props {
            if r.viols.len() < 50 {
                r.viols.push(Viol { prop, sig: sig.clone(), detail: detail.clone() })
            }
        }
    })
}
/// properties a wrong output counts against: also C01 if it came after the end
pub fn out_props(prop: &str, ended_before: bool, exp: usize, got: usize) -> String {
    if ended_before && exp == 0 && got > 0 { format!("{prop}+C01") } else { prop.to_string() }
}
pub fn take_viols() -> Vec<Viol> {
    with(|r| std::mem::take(&mut r.viols))
}
pub fn lock<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|p| p.into_inner())
}

// ---------------------------------------------------------------------------------------------
// Sinks
pub type Hook = Box<dyn FnMut(usize, &Ntf) + Send + Sync>;

pub struct SinkCfg {
    pub id: u32,
    /// close itself while handling the k-th accepted next (1-based)
    pub close_at: Option<usize>,
    /// called after recording, with the ordinal of the accepted notification
    pub hook: Option<Hook>,
}
impl SinkCfg {
    pub fn new(id: u32) -> Self {
        SinkCfg { id, close_at: None, hook: None }
    }
}

/// A hand-written full `Subscriber`.
pub struct Sink {
    cfg: SinkCfg,
    closed: bool,
    count: usize,
    tds: Vec<Teardown>,
    _t: Tok,
}
impl Sink {
    pub fn new(cfg: SinkCfg) -> Self {
        Sink { cfg, closed: false, count: 0, tds: vec![], _t: Tok::counted() }
    }
    fn accept(&mut self, n: Ntf) -> bool {
        if self.closed {
            log(Ev::Late(self.cfg.id, n.plain()));
            return false;
        }
        log(Ev::Sink(self.cfg.id, n.plain()));
        self.count += 1;
        let k = self.count;
        if let Some(mut h) = self.cfg.hook.take() {
            h(k, &n);
            self.cfg.hook = Some(h);
        }
        if (n.terminal() && !with(|r| r.open)) || self.cfg.close_at == Some(k) {
            self.unsubscribe();
        }
        true
    }
}
impl ObserverInput for Sink {
    type In = Val;
    type InError = Val;
}
impl WithPrimaryCategory for Sink {
    type PrimaryCategory = PrimaryCategorySubscriber;
}
impl ObserverUpgradesToSelf for Sink {}
impl RxObserver for Sink {
    fn next(&mut self, v: Val) {
        self.accept(Ntf::N(v));
    }
    fn error(&mut self, e: Val) {
        self.accept(Ntf::E(e));
    }
    fn complete(&mut self) {
        self.accept(Ntf::C);
    }
}
impl SubscriptionLike for Sink {
    fn is_closed(&self) -> bool {
        self.closed
    }
    fn unsubscribe(&mut self) {
        if !self.closed {
            self.closed = true;
            log(Ev::SinkClosed(self.cfg.id));
            for t in std::mem::take(&mut self.tds) {
                t.execute();
            }
        }
    }
}
impl TeardownCollection for Sink {
    fn add_teardown(&mut self, t: Teardown) {
        if self.closed {
            t.execute();
        } else {
            self.tds.push(t);
        }
    }
}
impl Drop for Sink {
    fn drop(&mut self) {
        self.unsubscribe();
    }
}

/// A plain observer: upgraded by the library itself.
pub struct ObsSink {
    id: u32,
    count: usize,
    done: bool,
    hook: Option<Hook>,
    _t: Tok,
}
impl ObsSink {
    pub fn new(cfg: SinkCfg) -> Self {
        ObsSink { id: cfg.id, count: 0, done: false, hook: cfg.hook, _t: Tok::counted() }
    }
    fn accept(&mut self, n: Ntf) {
        if self.done {
            log(Ev::Late(self.id, n.plain()));
            return;
        }
        log(Ev::Sink(self.id, n.plain()));
        if n.terminal() {
            self.done = true;
        }
        self.count += 1;
        let k = self.count;
        if let Some(mut h) = self.hook.take() {
            h(k, &n);
            self.hook = Some(h);
        }
    }
}
impl ObserverInput for ObsSink {
    type In = Val;
    type InError = Val;
}
impl WithPrimaryCategory for ObsSink {
    type PrimaryCategory = PrimaryCategoryObserver;
}
impl UpgradeableObserver for ObsSink {
    type Upgraded = ObserverSubscriber<ObsSink>;
    fn upgrade(self) -> Self::Upgraded {
        ObserverSubscriber::new(self)
    }
}
impl RxObserver for ObsSink {
    fn next(&mut self, v: Val) {
        self.accept(Ntf::N(v));
    }
    fn error(&mut self, e: Val) {
        self.accept(Ntf::E(e));
    }
    fn complete(&mut self) {
        self.accept(Ntf::C);
    }
}

// ---------------------------------------------------------------------------------------------
// Scripted sources
type DynSub = Box<dyn Subscriber<In = Val, InError = Val> + Send + Sync>;

pub struct CellState {
    sub: Option<DynSub>,
    /// the subscriber is out being notified
    busy: bool,
    unsub: bool,
    dead: bool,
    queue: Vec<Ntf>,
    tds: Vec<Teardown>,
}
pub struct SubCell {
    pub src: u32,
    pub n: u32,
    /// who was acting when this subscription was made
    pub owner: u32,
    st: Mutex<CellState>,
    /// set once the returned subscription has been unsubscribed, or the subscriber reported closed
    pub closed: AtomicBool,
    misbehave: bool,
    /// like the library's own sources: stays subscribed after a terminal until the destination closes
    keep: bool,
}
impl SubCell {
    /// Push one notification. A well-behaved source does not notify a closed subscriber.
    pub fn emit(&self, n: &Ntf) {
        let mut sub = {
            let mut s = lock(&self.st);
            if s.busy {
                s.queue.push(n.clone());
                return;
            }
            match s.sub.take() {
                Some(x) => {
                    s.busy = true;
                    x
                }
                None => return,
            }
        };
        let mut next = Some(n.clone());
        while let Some(n) = next.take() {
            let open = !sub.is_closed() && !lock(&self.st).unsub && !lock(&self.st).dead;
            if open || (self.misbehave && !lock(&self.st).unsub) {
                let term = n.terminal();
                match n.counted() {
                    Ntf::N(v) => sub.next(v),
                    Ntf::E(v) => sub.error(v),
                    Ntf::C => sub.complete(),
                }
                if term && !self.misbehave {
                    lock(&self.st).dead = true;
                    if !self.keep && !sub.is_closed() {
                        sub.unsubscribe();
                    }
                }
            }
            let mut s = lock(&self.st);
            for t in std::mem::take(&mut s.tds) {
                drop(s);
                sub.add_teardown(t);
                s = lock(&self.st);
            }
            if !s.queue.is_empty() {
                next = Some(s.queue.remove(0));
            } else {
                s.busy = false;
                if s.unsub {
                    drop(s);
                    sub.unsubscribe();
                    drop(sub);
                    self.mark_closed();
                } else if sub.is_closed() {
                    self.mark_closed();
                    if self.misbehave {
                        s.sub = Some(sub);
                    } else {
                        s.dead = true;
                        drop(s);
                        drop(sub);
                    }
                } else {
                    s.sub = Some(sub);
                }
                return;
            }
        }
    }
    fn mark_closed(&self) {
        self.closed.store(true, Ordering::SeqCst);
    }
    pub fn is_closed(&self) -> bool {
        if self.closed.load(Ordering::SeqCst) {
            return true;
        }
        let s = lock(&self.st);
        if s.unsub || (s.dead && !self.keep) {
            return true;
        }
        match &s.sub {
            Some(x) => x.is_closed(),
            None => !s.busy,
        }
    }
    /// has sent its terminal
    pub fn is_dead(&self) -> bool {
        lock(&self.st).dead
    }
    /// close from the producer's side without a terminal notification
    pub fn producer_unsub(&self) {
        let sub = {
            let mut s = lock(&self.st);
            s.unsub = true;
            if s.busy { None } else { s.sub.take() }
        };
        if let Some(mut x) = sub {
            x.unsubscribe();
            drop(x);
        }
        if !lock(&self.st).busy {
            self.mark_closed();
        }
    }
}
pub struct SrcSubscription {
    cell: Arc<SubCell>,
    done: bool,
}
impl SubscriptionLike for SrcSubscription {
    fn is_closed(&self) -> bool {
        self.done || self.cell.is_closed()
    }
    fn unsubscribe(&mut self) {
        if !self.done {
            self.done = true;
            log(Ev::SrcUnsub(self.cell.src, self.cell.n));
            self.cell.producer_unsub();
        }
    }
}
impl TeardownCollection for SrcSubscription {
    fn add_teardown(&mut self, t: Teardown) {
        if self.is_closed() {
            t.execute();
            return;
        }
        let mut s = lock(&self.cell.st);
        if s.busy {
            s.tds.push(t);
        } else if let Some(mut x) = s.sub.take() {
            drop(s);
            x.add_teardown(t);
            lock(&self.cell.st).sub = Some(x);
        } else {
            drop(s);
            t.execute();
        }
    }
}
impl Drop for SrcSubscription {
    fn drop(&mut self) {
        self.unsubscribe();
    }
}

pub struct SrcInner {
    pub id: u32,
    pub cells: Vec<Arc<SubCell>>,
    /// notifications emitted while subscribing, per subscription (last one repeats)
    pub prefix: Vec<Vec<Ntf>>,
    pub subs: u32,
    /// subscriptions per owner
    pub owned: std::collections::BTreeMap<u32, u32>,
    pub misbehave: bool,
    pub keep: bool,
    _t: Tok,
}
thread_local! {
    static OWNER: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// On whose behalf everything from now on happens.
pub fn set_owner(k: u32) {
    OWNER.with(|o| o.set(k));
}
#[derive(Clone)]
pub struct Src(pub Arc<Mutex<SrcInner>>);
impl Src {
    pub fn new(id: u32, prefix: Vec<Vec<Ntf>>, misbehave: bool) -> Self {
        Src(Arc::new(Mutex::new(SrcInner { id, cells: vec![], prefix, subs: 0, owned: Default::default(), misbehave, keep: false, _t: Tok::counted() })))
    }
    pub fn keeping(self) -> Self {
        lock(&self.0).keep = true;
        self
    }
    pub fn cells(&self) -> Vec<Arc<SubCell>> {
        lock(&self.0).cells.clone()
    }
    /// to every open subscription, in subscription order
    pub fn emit(&self, n: &Ntf) {
        for c in self.cells() {
            c.emit(n);
        }
        self.clean();
    }
    /// to the open subscriptions of one owner
    pub fn emit_owned(&self, owner: u32, n: &Ntf) {
        for c in self.cells() {
            if c.owner == owner {
                c.emit(n);
            }
        }
        self.clean();
    }
    pub fn unsub_owned(&self, owner: u32) {
        for c in self.cells() {
            if c.owner == owner {
                c.producer_unsub();
            }
        }
        self.clean();
    }
    /// open subscriptions of one owner, and how many there were
    pub fn owned(&self, owner: u32) -> (usize, u32) {
        let open = self.cells().iter().filter(|c| c.owner == owner && !c.is_closed()).count();
        (open, lock(&self.0).owned.get(&owner).copied().unwrap_or(0))
    }
    pub fn emit_to(&self, k: usize, n: &Ntf) {
        let c = lock(&self.0).cells.iter().find(|c| c.n as usize == k).cloned();
        if let Some(c) = c {
            c.emit(n);
        }
    }
    fn clean(&self) {
        let dead: Vec<_> = {
            let mut s = lock(&self.0);
            if s.misbehave {
                return;
            }
            let (dead, alive): (Vec<_>, Vec<_>) = s.cells.drain(..).partition(|c| c.closed.load(Ordering::SeqCst));
            s.cells = alive;
            dead
        };
        drop(dead);
    }
    pub fn open(&self) -> Vec<u32> {
        self.cells().iter().filter(|c| !c.is_closed()).map(|c| c.n).collect()
    }
    pub fn producer_unsub(&self) {
        for c in self.cells() {
            c.producer_unsub();
        }
        self.clean();
    }
    pub fn subs(&self) -> u32 {
        lock(&self.0).subs
    }
}
impl ObservableOutput for Src {
    type Out = Val;
    type OutError = Val;
}
impl WithPrimaryCategory for Src {
    type PrimaryCategory = PrimaryCategoryObservable;
}
impl Observable for Src {
    type Subscription<D>
        = SrcSubscription
    where
        D: 'static + Subscriber<In = Val, InError = Val>;
    fn subscribe<D>(&mut self, destination: D) -> SrcSubscription
    where
        D: 'static + UpgradeableObserver<In = Val, InError = Val> + Send + Sync,
    {
        let (cell, prefix) = {
            let mut s = lock(&self.0);
            let n = s.subs;
            s.subs += 1;
            let owner = OWNER.with(|o| o.get());
            let m = s.owned.entry(owner).or_default();
            *m += 1;
            let m = *m - 1;
            let prefix = if s.prefix.is_empty() { vec![] } else { s.prefix[(m as usize).min(s.prefix.len() - 1)].clone() };
            let cell = Arc::new(SubCell {
                src: s.id,
                n,
                owner,
                st: Mutex::new(CellState { sub: None, busy: false, unsub: false, dead: false, queue: vec![], tds: vec![] }),
                closed: AtomicBool::new(false),
                misbehave: s.misbehave,
                keep: s.keep,
            });
            s.cells.push(cell.clone());
            (cell, prefix)
        };
        let mut sub: DynSub = Box::new(destination.upgrade());
        log(Ev::SrcSub(cell.src, cell.n, sub.is_closed()));
        let (a, b) = (cell.src, cell.n);
        let tok = Tok::counted();
        sub.add_teardown(Teardown::new(move || {
            let _t = tok;
            log(Ev::SrcTd(a, b));
        }));
        lock(&cell.st).sub = Some(sub);
        for n in &prefix {
            cell.emit(n);
        }
        SrcSubscription { cell, done: false }
    }
}
