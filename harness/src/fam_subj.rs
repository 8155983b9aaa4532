//! S4: subjects, their clones, late subscribers, and nested use of a subject inside its own notifications.
use crate::fam_ho::SubscriptionWithTeardown;
use crate::fam_linear::check_log;
use crate::ops::*;
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use rx_core::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex, Weak};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Publish,
    Behavior,
    Replay(usize),
    Async,
    AsyncSum,
    Prov,
}
/// what a subscriber of a provenance subject looks at
#[derive(Clone, Copy, Debug, PartialEq)]
enum View {
    Direct,
    All,
    Only(i64),
    ReplayThen(i64),
}
#[derive(Clone, Debug)]
enum Act {
    Push(usize, Ntf),
    Close(usize),
    /// through a source the subject observes
    Feed(Ntf),
    Sub(usize),
    UnsubH(usize),
    DropH(usize),
    AddTd(usize, u32),
    DropClone(usize),
    NewClone(usize),
}
#[derive(Clone, Debug)]
struct SubDef {
    view: View,
    ops: Vec<Op>,
    raw: bool,
    close_at: Option<usize>,
}
#[derive(Clone, Debug)]
struct Case {
    kind: Kind,
    defs: Vec<SubDef>,
    steps: Vec<Act>,
    /// the subscriber with nested actions
    hooked: usize,
    hooks: BTreeMap<usize, Vec<Act>>,
    td_hook: Vec<Act>,
}
fn gen_push(r: &mut Rng, kind: Kind, pt: usize) -> Ntf {
    if r.chance(pt, 100) {
        if r.chance(3, 5) { Ntf::C } else { Ntf::E(t("err", vec![i(r.range(0, 3))])) }
    } else if kind == Kind::Prov {
        Ntf::N(t("pv", vec![i(r.range(0, 30)), i(r.range(0, 2))]))
    } else {
        Ntf::N(i(r.range(0, 40)))
    }
}
fn gen_act(r: &mut Rng, kind: Kind, nd: usize, td: &mut u32, nested: bool, pt: usize) -> Act {
    match r.below(100) {
        0..=21 => Act::Sub(r.below(nd)),
        22..=29 => Act::UnsubH(r.below(nd)),
        30..=34 => Act::DropH(r.below(nd)),
        35..=37 if !nested => {
            *td += 1;
            Act::AddTd(r.below(nd), *td)
        }
        38..=39 => Act::Close(r.below(3)),
        40..=42 if !nested => Act::DropClone(r.below(3)),
        43..=45 if !nested => Act::NewClone(r.below(3)),
        46..=54 => Act::Feed(gen_push(r, kind, pt)),
        _ => Act::Push(r.below(3), gen_push(r, kind, pt)),
    }
}
fn generate(r: &mut Rng, re: bool) -> Case {
    let kind = match r.below(12) {
        0..=2 => Kind::Publish,
        3..=4 => Kind::Behavior,
        5..=7 => Kind::Replay(*r.pick(&[1, 2, 3, 5])),
        8 => Kind::Async,
        9 => Kind::AsyncSum,
        _ => Kind::Prov,
    };
    let nd = 2 + r.below(4);
    let hooked = r.below(nd);
    let defs = (0..nd)
        .map(|k| SubDef {
            view: if kind == Kind::Prov { *r.pick(&[View::Direct, View::All, View::Only(0), View::Only(1), View::ReplayThen(0), View::ReplayThen(2)]) } else { View::Direct },
            ops: if (re && k == hooked) || r.chance(1, 2) {
                vec![]
            } else {
                vec![match r.below(7) {
                    0..=2 => Op::Take(r.below(4)),
                    3 => Op::StartWith(r.range(50, 60)),
                    4 => Op::Skip(1),
                    5 => Op::First,
                    _ => Op::Map(2),
                }]
            },
            raw: r.chance(1, 2),
            close_at: if r.chance(1, 5) { Some(1 + r.below(3)) } else { None },
        })
        .map(|mut d| {
            if !d.raw || !d.ops.is_empty() {
                d.close_at = None;
            }
            d
        })
        .collect();
    let mut td = 10;
    let ns = 3 + r.below(22);
    let pt = *r.pick(&[2, 6, 15]);
    let steps = (0..ns).map(|_| gen_act(r, kind, nd, &mut td, false, pt)).collect();
    let mut hooks: BTreeMap<usize, Vec<Act>> = BTreeMap::new();
    let mut td_hook = vec![];
    if re {
        for _ in 0..(1 + r.below(3)) {
            let at = 1 + r.below(5);
            let n = 1 + r.below(3);
            let v = (0..n).map(|_| gen_act(r, kind, nd, &mut td, true, 15)).collect();
            hooks.insert(at, v);
        }
        if r.chance(1, 3) {
            let n = 1 + r.below(2);
            td_hook = (0..n).map(|_| gen_act(r, kind, nd, &mut td, true, 15)).collect();
        }
    }
    Case { kind, defs, steps, hooked, hooks, td_hook }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Q {
    N(Val),
    E(Val),
    C,
    U,
    UId(usize),
    Add(usize),
}
struct SubM {
    chain: ChainModel,
    view: View,
    seen: usize,
    handle: bool,
    /// unsubscribe() was called on the handle
    unsubbed: bool,
    started: bool,
    td_fired: bool,
}
struct Model<'a> {
    c: &'a Case,
    value: Val,
    vals: VecDeque<Val>,
    acc: Option<Val>,
    completed: bool,
    /// an async subject's result is being delivered
    completing: bool,
    unsub: bool,
    error: Option<Val>,
    closed_flag: bool,
    busy: bool,
    q: Vec<Q>,
    subs: Vec<SubM>,
    map: Vec<usize>,
    fired: usize,
    feed_dead: bool,
    feed_busy: bool,
    feed_q: VecDeque<Ntf>,
    depth: usize,
    nested: u64,
}
impl<'a> Model<'a> {
    fn new(c: &'a Case) -> Self {
        Model {
            c,
            value: if c.kind == Kind::Prov { t("pv", vec![i(0), i(0)]) } else { i(0) },
            vals: VecDeque::new(),
            acc: None,
            completed: false,
            completing: false,
            unsub: false,
            error: None,
            closed_flag: false,
            busy: false,
            q: vec![],
            subs: c.defs.iter().map(|d| SubM { chain: ChainModel::new(&d.ops, d.close_at), view: d.view, seen: 0, handle: false, unsubbed: false, started: false, td_fired: false }).collect(),
            map: vec![],
            fired: 0,
            feed_dead: false,
            feed_busy: false,
            feed_q: VecDeque::new(),
            depth: 0,
            nested: 0,
        }
    }
    fn is_closed(&self) -> bool {
        self.closed_flag || self.completed || self.unsub || self.error.is_some()
    }
    fn feed_sub(&mut self, k: usize, n: Ntf) {
        let s = &mut self.subs[k];
        if s.chain.is_closed() {
            return;
        }
        let n = match (n, s.view) {
            (Ntf::N(v), w) if w != View::Direct => {
                let V::T(_, xs) = &v.v else { unreachable!() };
                s.seen += 1;
                let pass = match w {
                    View::All => true,
                    View::Only(p) => xs[1] == i(p),
                    View::ReplayThen(p) => s.seen == 1 || xs[1] == i(p),
                    View::Direct => unreachable!(),
                };
                if !pass {
                    return;
                }
                Ntf::N(xs[0].clone())
            }
            (n, _) => n,
        };
        self.subs[k].chain.feed(0, n);
        self.after(k);
    }
    fn unsub_sub(&mut self, k: usize) {
        if !self.subs[k].chain.is_closed() {
            self.subs[k].chain.unsubscribe();
            self.after(k);
        }
    }
    /// nested actions caused by what subscriber k has just seen
    fn after(&mut self, k: usize) {
        if k != self.c.hooked {
            return;
        }
        while self.fired < self.subs[k].chain.count {
            self.fired += 1;
            if let Some(acts) = self.c.hooks.get(&self.fired) {
                for a in acts {
                    self.nested += 1;
                    self.act(a);
                }
            }
        }
        if self.subs[k].chain.is_closed() && !self.subs[k].td_fired {
            self.subs[k].td_fired = true;
            for a in &self.c.td_hook {
                self.nested += 1;
                self.act(a);
            }
        }
    }
    fn all(&mut self, n: Ntf) {
        for k in self.map.clone() {
            self.feed_sub(k, n.clone());
        }
    }
    fn all_unsub(&mut self) {
        for k in std::mem::take(&mut self.map) {
            self.unsub_sub(k);
        }
    }
    fn apply(&mut self, q: Q) {
        match q {
            Q::N(v) => self.all(Ntf::N(v)),
            Q::E(v) => self.all(Ntf::E(v)),
            Q::C => self.all(Ntf::C),
            Q::U => self.all_unsub(),
            Q::UId(k) => {
                if self.map.contains(&k) {
                    self.map.retain(|x| *x != k);
                    self.unsub_sub(k);
                }
            }
            Q::Add(k) => self.map.push(k),
        }
    }
    fn drain(&mut self) {
        while !self.q.is_empty() {
            for q in std::mem::take(&mut self.q) {
                if let Q::Add(k) = q {
                    if self.subs[k].chain.is_closed() {
                        continue;
                    }
                    if self.closed_flag {
                        self.unsub_sub(k);
                        continue;
                    }
                }
                let term = matches!(q, Q::C | Q::E(_));
                let un = matches!(q, Q::U);
                if !self.closed_flag {
                    self.apply(q);
                }
                if term {
                    self.all_unsub();
                }
                if term || un {
                    self.closed_flag = true;
                }
            }
        }
    }
    fn pub_do(&mut self, q: Q) {
        if self.busy {
            if self.closed_flag {
                if let Q::Add(k) = q {
                    self.unsub_sub(k);
                }
                return;
            }
            self.q.push(q);
            return;
        }
        self.busy = true;
        self.drain();
        if matches!(q, Q::U) {
            self.closed_flag = true;
        }
        self.apply(q);
        self.busy = false;
        self.flush();
    }
    fn flush(&mut self) {
        if !self.busy && !self.q.is_empty() {
            self.busy = true;
            self.drain();
            self.busy = false;
        }
    }
    fn pub_next(&mut self, v: Val) {
        if !self.is_closed() {
            self.pub_do(Q::N(v));
        }
    }
    fn pub_complete(&mut self) {
        if !self.is_closed() {
            self.completed = true;
            self.pub_do(Q::C);
        }
    }
    fn push(&mut self, n: Ntf) {
        match n {
            Ntf::N(v) => {
                if self.is_closed() || self.completing {
                    return;
                }
                match self.c.kind {
                    Kind::Publish => self.pub_next(v),
                    Kind::Behavior | Kind::Prov => {
                        self.value = v.clone();
                        self.pub_next(v)
                    }
                    Kind::Replay(n) => {
                        self.vals.push_back(v.clone());
                        if self.vals.len() > n {
                            self.vals.pop_front();
                        }
                        self.pub_next(v)
                    }
                    Kind::Async => self.acc = Some(v),
                    Kind::AsyncSum => {
                        self.acc = Some(match self.acc.take() {
                            Some(a) => red(&a, &v),
                            None => v,
                        })
                    }
                }
            }
            Ntf::E(e) => {
                if !self.is_closed() {
                    self.error = Some(e.clone());
                    self.pub_do(Q::E(e));
                }
            }
            Ntf::C => {
                if self.is_closed() || self.completing {
                    return;
                }
                if matches!(self.c.kind, Kind::Async | Kind::AsyncSum) {
                    self.completing = true;
                    if let Some(v) = self.acc.clone() {
                        self.pub_next(v);
                    }
                    self.pub_complete();
                    self.completing = false;
                } else {
                    self.pub_complete()
                }
            }
        }
    }
    fn subscribe(&mut self, k: usize) {
        if self.subs[k].started {
            return;
        }
        self.subs[k].started = true;
        self.subs[k].chain.subscribe();
        self.after(k);
        // what the kind promises
        let rep: Vec<Val> = match self.c.kind {
            Kind::Publish => vec![],
            _ if self.error.is_some() => vec![],
            Kind::Behavior | Kind::Prov => vec![self.value.clone()],
            Kind::Replay(_) => self.vals.iter().cloned().collect(),
            Kind::Async | Kind::AsyncSum => {
                if self.is_closed() {
                    self.acc.iter().cloned().collect()
                } else {
                    vec![]
                }
            }
        };
        for v in rep {
            self.feed_sub(k, Ntf::N(v));
        }
        self.flush();
        if let Some(e) = self.error.clone() {
            self.feed_sub(k, Ntf::E(e));
        } else if self.completed {
            self.feed_sub(k, Ntf::C);
        }
        if self.is_closed() {
            self.unsub_sub(k);
            self.subs[k].unsubbed = true;
        } else {
            self.pub_do(Q::Add(k));
            self.flush();
        }
        self.subs[k].handle = true;
    }
    fn unsub_handle(&mut self, k: usize) {
        let s = &mut self.subs[k];
        if s.handle && !s.unsubbed {
            s.unsubbed = true;
            self.pub_do(Q::UId(k));
        }
    }
    fn feed(&mut self, n: Ntf) {
        if self.feed_busy {
            self.feed_q.push_back(n);
            return;
        }
        self.feed_busy = true;
        let mut next = Some(n);
        while let Some(n) = next.take() {
            if !self.feed_dead && !self.is_closed() {
                self.feed_dead |= n.terminal();
                self.push(n);
            }
            next = self.feed_q.pop_front();
        }
        self.feed_busy = false;
    }
    fn act(&mut self, a: &Act) {
        self.depth += 1;
        match a {
            Act::Push(_, n) => self.push(n.clone()),
            Act::Close(_) => {
                if !self.unsub {
                    self.unsub = true;
                    self.pub_do(Q::U);
                }
            }
            Act::Feed(n) => self.feed(n.clone()),
            Act::Sub(k) => self.subscribe(*k),
            Act::UnsubH(k) => self.unsub_handle(*k),
            Act::DropH(k) => {
                self.unsub_handle(*k);
                self.subs[*k].handle = false;
            }
            _ => {}
        }
        self.depth -= 1;
    }
}

// ---------------------------------------------------------------------------------------------
type RSum = fn(Val, Val) -> Val;
#[derive(Clone)]
enum Subj {
    P(PublishSubject<Val, Val>),
    B(BehaviorSubject<Val, Val>),
    R1(ReplaySubject<1, Val, Val>),
    R2(ReplaySubject<2, Val, Val>),
    R3(ReplaySubject<3, Val, Val>),
    R5(ReplaySubject<5, Val, Val>),
    A(AsyncSubject<Val, Val>),
    S(AsyncSubject<Val, Val, RSum>),
    V(ProvenanceSubject<Val, Val, Val>),
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr, $v:ident => $pv:expr) => {
        match $s {
            Subj::P($x) => $e,
            Subj::B($x) => $e,
            Subj::R1($x) => $e,
            Subj::R2($x) => $e,
            Subj::R3($x) => $e,
            Subj::R5($x) => $e,
            Subj::A($x) => $e,
            Subj::S($x) => $e,
            Subj::V($v) => $pv,
        }
    };
}
type H = Option<Box<dyn SubscriptionWithTeardown + Send + Sync>>;
struct World {
    clones: Vec<Mutex<Option<Subj>>>,
    handles: Vec<Mutex<H>>,
    started: Mutex<Vec<bool>>,
    cfgs: Vec<Mutex<Option<SinkCfg>>>,
    feed: Src,
    c: Case,
    me: Weak<World>,
}
/// use clone k of the subject; a nested use takes another clone if that one is in use
fn with_subj<R>(w: &World, k: usize, f: impl FnOnce(&mut Subj) -> R) -> R {
    for d in 0..w.clones.len() {
        let at = (k + d) % w.clones.len();
        let s = lock(&w.clones[at]).take();
        if let Some(mut s) = s {
            let r = f(&mut s);
            *lock(&w.clones[at]) = Some(s);
            return r;
        }
    }
    panic!("no clone left");
}
fn pv(v: &Val) -> (Val, Val) {
    let V::T(_, xs) = &v.v else { unreachable!() };
    (xs[0].counted(), xs[1].plain())
}
fn start<O>(o: &mut O, cfg: SinkCfg, raw: bool) -> Box<dyn SubscriptionWithTeardown + Send + Sync>
where
    O: Observable<Out = Val, OutError = Val>,
    O::Subscription<Sink>: SubscriptionWithTeardown + Send + Sync + 'static,
    O::Subscription<ObserverSubscriber<ObsSink>>: SubscriptionWithTeardown + Send + Sync + 'static,
{
    if raw { Box::new(o.subscribe(Sink::new(cfg))) } else { Box::new(o.subscribe(ObsSink::new(cfg))) }
}
fn perform(w: &Arc<World>, a: &Act) {
    match a {
        Act::Push(k, n) => with_subj(w, *k, |s| match n {
            Ntf::N(v) => each!(s, x => x.next(v.counted()), p => p.next(pv(v))),
            Ntf::E(e) => each!(s, x => x.error(e.counted()), p => p.error(e.counted())),
            Ntf::C => each!(s, x => x.complete(), p => p.complete()),
        }),
        Act::Close(k) => with_subj(w, *k, |s| each!(s, x => x.unsubscribe(), p => p.unsubscribe())),
        Act::Feed(n) => w.feed.emit(n),
        Act::Sub(k) => {
            {
                let mut s = lock(&w.started);
                if s[*k] {
                    return;
                }
                s[*k] = true;
            }
            let cfg = lock(&w.cfgs[*k]).take().unwrap();
            let d = &w.c.defs[*k];
            let td = *k == w.c.hooked && !w.c.td_hook.is_empty();
            let me = w.me.clone();
            let fin = move || {
                if let Some(w) = me.upgrade() {
                    for a in w.c.td_hook.clone() {
                        perform(&w, &a);
                    }
                }
            };
            let mut s: Subj = with_subj(w, *k, |s| s.clone());
            let h = if d.ops.is_empty() && !td {
                each!(&mut s, x => start(x, cfg, d.raw), p => match d.view {
                    View::Direct => start(&mut p.clone().map(|(a, b)| t("pv", vec![a, b])), cfg, d.raw),
                    View::All => start(&mut p.all(), cfg, d.raw),
                    View::Only(n) => start(&mut p.only_by_provenance(i(n)), cfg, d.raw),
                    View::ReplayThen(n) => start(&mut p.replay_then_by_provenance(i(n)), cfg, d.raw),
                })
            } else {
                let mut o: Obs = each!(s, x => x.erase(), p => match d.view {
                    View::Direct => p.map(|(a, b)| t("pv", vec![a, b])).erase(),
                    View::All => p.all().erase(),
                    View::Only(n) => p.only_by_provenance(i(n)).erase(),
                    View::ReplayThen(n) => p.replay_then_by_provenance(i(n)).erase(),
                });
                for op in &d.ops {
                    o = build(op, o);
                }
                if td { start(&mut o.finalize(fin), cfg, d.raw) } else { start(&mut o, cfg, d.raw) }
            };
            *lock(&w.handles[*k]) = Some(h);
        }
        Act::UnsubH(k) => {
            let h = lock(&w.handles[*k]).take();
            if let Some(mut h) = h {
                h.unsubscribe();
                *lock(&w.handles[*k]) = Some(h);
            }
        }
        Act::DropH(k) => {
            let h = lock(&w.handles[*k]).take();
            drop(h);
        }
        Act::AddTd(k, id) => {
            let h = lock(&w.handles[*k]).take();
            if let Some(mut h) = h {
                let id = *id;
                h.add_teardown(Teardown::new(move || log(Ev::Td(id))));
                *lock(&w.handles[*k]) = Some(h);
            }
        }
        Act::DropClone(k) => {
            let n = w.clones.iter().filter(|c| lock(c).is_some()).count();
            if n > 1 {
                let s = lock(&w.clones[*k]).take();
                drop(s);
            }
        }
        Act::NewClone(k) => {
            let s = with_subj(w, *k, |s| s.clone());
            let old = lock(&w.clones[*k]).replace(s);
            drop(old);
        }
    }
}
pub fn run_plain(r: &mut Rng, cx: &mut Ctx) {
    run(r, cx, false)
}
pub fn run_re(r: &mut Rng, cx: &mut Ctx) {
    run(r, cx, true)
}
fn run(r: &mut Rng, cx: &mut Ctx, re: bool) {
    let c = generate(r, re);
    cx.publish(format!("{c:?}"));
    let (fam, prop) = if re { ("subj_re", "C07+C06") } else { ("subj", "C06") };
    let kn = format!("{:?}", c.kind);
    let kn = kn.split('(').next().unwrap();
    let s = match c.kind {
        Kind::Publish => Subj::P(PublishSubject::default()),
        Kind::Behavior => Subj::B(BehaviorSubject::new(i(0))),
        Kind::Replay(1) => Subj::R1(ReplaySubject::default()),
        Kind::Replay(2) => Subj::R2(ReplaySubject::default()),
        Kind::Replay(3) => Subj::R3(ReplaySubject::default()),
        Kind::Replay(_) => Subj::R5(ReplaySubject::default()),
        Kind::Async => Subj::A(AsyncSubject::default()),
        Kind::AsyncSum => Subj::S(AsyncSubject::new(|a, b| red(&a, &b))),
        Kind::Prov => Subj::V(ProvenanceSubject::new(i(0), i(0))),
    };
    let nd = c.defs.len();
    let feed = Src::new(1, vec![], false);
    let mut weak: Vec<Weak<()>> = vec![];
    let w = Arc::new_cyclic(|me: &Weak<World>| {
        let cfgs = (0..nd)
            .map(|k| {
                let mut cfg = SinkCfg::new(k as u32);
                cfg.close_at = c.defs[k].close_at;
                let keep = Arc::new(());
                weak.push(Arc::downgrade(&keep));
                let me = me.clone();
                let hooks = if k == c.hooked { c.hooks.clone() } else { BTreeMap::new() };
                cfg.hook = Some(Box::new(move |n, _| {
                    let _k = &keep;
                    if let (Some(acts), Some(w)) = (hooks.get(&n), me.upgrade()) {
                        for a in acts {
                            perform(&w, a);
                        }
                    }
                }));
                Mutex::new(Some(cfg))
            })
            .collect();
        World {
            clones: (0..8).map(|k| Mutex::new(if k < 2 || k > 3 { Some(s.clone()) } else { None })).collect(),
            handles: (0..nd).map(|_| Mutex::new(None)).collect(),
            started: Mutex::new(vec![false; nd]),
            cfgs,
            feed: feed.clone(),
            c: c.clone(),
            me: me.clone(),
        }
    });
    // the subject as the destination of a source
    let mut fo: Obs = feed.clone().erase();
    let fh: Box<dyn SubscriptionWithTeardown> = match &s {
        Subj::P(x) => Box::new(fo.subscribe(x.clone())),
        Subj::B(x) => Box::new(fo.subscribe(x.clone())),
        Subj::R1(x) => Box::new(fo.subscribe(x.clone())),
        Subj::R2(x) => Box::new(fo.subscribe(x.clone())),
        Subj::R3(x) => Box::new(fo.subscribe(x.clone())),
        Subj::R5(x) => Box::new(fo.subscribe(x.clone())),
        Subj::A(x) => Box::new(fo.subscribe(x.clone())),
        Subj::S(x) => Box::new(fo.subscribe(x.clone())),
        Subj::V(x) => {
            let mut m = feed.clone().map(|v: Val| {
                let V::T(_, xs) = &v.v else { unreachable!() };
                (xs[0].clone(), xs[1].clone())
            });
            Box::new(m.subscribe(x.clone()))
        }
    };
    drop(s);
    let mut m = Model::new(&c);
    let mut mark = 0;
    let mut was_ended = vec![false; nd];
    let mut tds: Vec<(usize, u32)> = vec![];
    for (step, a) in c.steps.iter().enumerate() {
        set_step(step as u32 + 1);
        let when = format!("step {step} {a:?}");
        if let Act::AddTd(k, id) = a {
            if lock(&w.handles[*k]).is_some() {
                tds.push((*k, *id));
            }
        }
        m.act(a);
        perform(&w, a);
        let new = log_from(mark);
        mark += new.len();
        for k in 0..nd {
            let got: Vec<Ntf> = new.iter().filter_map(|(_, e)| if let Ev::Sink(x, n) = e { (*x == k as u32).then(|| n.clone()) } else { None }).collect();
            let exp = std::mem::take(&mut m.subs[k].chain.out);
            if got != exp {
                viol(out_props(prop, std::mem::replace(&mut was_ended[k], m.subs[k].chain.is_closed() || m.subs[k].unsubbed), exp.len(), got.len()), format!("{fam} {kn}: a subscriber's notifications differ from the reference"), format!("{when}: subscriber {k} expected {exp:?}, observed {got:?}"));
            }
            let sm = &m.subs[k];
            let hc = lock(&w.handles[k]).as_ref().map(|h| h.is_closed());
            if let Some(hc) = hc {
                let e = sm.chain.is_closed() || sm.unsubbed;
                if hc != e {
                    viol(format!("C02+{prop}"), format!("{fam} {kn}: subscription closed={hc}, expected {e}"), format!("{when}: subscriber {k}"));
                }
            }
            if sm.started && sm.chain.is_closed() {
                for (_, id) in tds.iter().filter(|(x, _)| *x == k) {
                    if !log_from(0).iter().any(|(_, e)| *e == Ev::Td(*id)) {
                        viol("C02", format!("{fam} {kn}: client teardown not run at close"), format!("{when}: subscriber {k} teardown {id}"));
                    }
                }
                if !sm.handle && weak[k].upgrade().is_some() {
                    viol("C14", format!("{fam} {kn}: the subject keeps an ended subscriber whose handle is gone"), format!("{when}: subscriber {k}"));
                }
            }
        }
        let sc = with_subj(&w, 0, |s| each!(s, x => x.is_closed(), p => p.is_closed()));
        if sc != m.is_closed() {
            viol(prop, format!("{fam} {kn}: subject closed={sc}, expected {}", m.is_closed()), when.clone());
        }
        let val = with_subj(&w, 0, |s| match s {
            Subj::B(x) => Some(x.value()),
            Subj::V(x) => {
                let (a, b) = x.value();
                Some(t("pv", vec![a, b]))
            }
            _ => None,
        });
        if let Some(v) = val {
            if v != m.value {
                viol(prop, format!("{fam} {kn}: stored value differs from the reference"), format!("{when}: {v:?}, expected {:?}", m.value));
            }
        }
    }
    set_step(1000);
    drop(fh);
    for h in &w.handles {
        let h = lock(h).take();
        drop(h);
    }
    let td_ids: Vec<u32> = tds.iter().map(|x| x.1).collect();
    check_log(fam, false, false, &td_ids, &[]);
    drop(w);
    drop(feed);
    drop(fo);
    if live() != 0 {
        viol("C14", format!("{fam} {kn}: values or callbacks still alive after everything was dropped"), format!("{} tokens", live()));
    }
    let n = log_len() as u64;
    cx.stat("events observed", n);
    cx.stat("subscribers", m.subs.iter().filter(|s| s.started).count() as u64);
    if re {
        cx.stat("nested actions performed", m.nested);
        cx.nontrivial = m.nested > 0;
    } else {
        cx.nontrivial = n >= 4;
    }
    cx.fp = fp_sorted() ^ crate::runner::fam_no(kn);
}
/// order across subscribers is not specified: fingerprint each subscriber's log by itself
fn fp_sorted() -> u64 {
    let mut per: BTreeMap<u32, u64> = BTreeMap::new();
    for (s, e) in log_from(0) {
        if let Ev::Sink(k, n) = &e {
            let x = per.entry(*k).or_insert(7);
            *x = x.wrapping_mul(0x100000001b3) ^ crate::runner::fam_no(&format!("{s}{n:?}"));
        }
    }
    per.iter().fold(3, |a, (k, v)| (a ^ v.rotate_left(*k)).wrapping_mul(0x9E3779B97F4A7C15))
}
