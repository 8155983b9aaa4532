//! S8: share and ConnectableObservable - connections, reference counting, connector resets.
use crate::fam_ho::SubscriptionWithTeardown;
use crate::fam_linear::{check_log, fp_log};
use crate::ops::*;
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use rx_core::prelude::*;
use rx_core_operator_share::observable::ShareObservable;
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Weak};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Publish,
    Behavior,
    Replay(usize),
    Async,
}
#[derive(Clone, Debug)]
enum Step {
    Sub(usize),
    Unsub(usize),
    Drop(usize),
    AddTd(usize, u32),
    /// through clone k
    Connect(usize),
    Disconnect(usize),
    /// through the handle connect returned
    HandleUnsub,
    Reset(usize),
    Push(Ntf),
    ProducerUnsub,
}
#[derive(Clone, Debug)]
struct SubDef {
    ops: Vec<Op>,
    raw: bool,
    close_at: Option<usize>,
    /// through clone k
    at: usize,
}
#[derive(Clone, Debug)]
struct Case {
    share: bool,
    kind: Kind,
    ref_count: bool,
    on_disconnect: bool,
    on_error: bool,
    on_complete: bool,
    keep: bool,
    prefix: Vec<Vec<Ntf>>,
    defs: Vec<SubDef>,
    steps: Vec<Step>,
}
fn gen_n(r: &mut Rng, pt: usize) -> Ntf {
    if r.chance(pt, 100) {
        if r.chance(3, 5) { Ntf::C } else { Ntf::E(t("err", vec![i(r.range(0, 3))])) }
    } else {
        Ntf::N(i(r.range(0, 40)))
    }
}
fn generate(r: &mut Rng, big: bool) -> Case {
    let nd = 2 + r.below(if big { 6 } else { 4 });
    let share = r.chance(3, 5);
    let defs = (0..nd)
        .map(|_| {
            let ops = if r.chance(1, 2) {
                vec![]
            } else {
                vec![match r.below(6) {
                    0..=2 => Op::Take(1 + r.below(3)),
                    3 => Op::StartWith(r.range(50, 60)),
                    4 => Op::First,
                    _ => Op::Map(2),
                }]
            };
            let raw = r.chance(1, 2);
            SubDef { close_at: if raw && ops.is_empty() && r.chance(1, 3) { Some(1 + r.below(3)) } else { None }, ops, raw, at: r.below(3) }
        })
        .collect();
    let sync = r.chance(1, 2);
    let prefix = if sync {
        let k = 1 + r.below(3);
        (0..k)
            .map(|_| {
                let mut v: Vec<Ntf> = (0..r.below(4)).map(|_| gen_n(r, 0)).collect();
                if r.chance(1, 4) {
                    v.push(gen_n(r, 100));
                }
                v
            })
            .collect()
    } else {
        vec![]
    };
    let pt = *r.pick(&[3, 10, 25]);
    let mut td = 0;
    let n = 3 + r.below(if big { 40 } else { 20 });
    let steps = (0..n)
        .map(|_| match r.below(100) {
            0..=24 => Step::Sub(r.below(nd)),
            25..=36 => Step::Unsub(r.below(nd)),
            37..=42 => Step::Drop(r.below(nd)),
            43..=46 => {
                td += 1;
                Step::AddTd(r.below(nd), td)
            }
            47..=56 => Step::Connect(r.below(3)),
            57..=62 => Step::Disconnect(r.below(3)),
            63..=65 => Step::HandleUnsub,
            66..=67 => Step::Reset(r.below(3)),
            68..=69 => Step::ProducerUnsub,
            _ => Step::Push(gen_n(r, pt)),
        })
        .collect();
    Case {
        share,
        kind: *r.pick(&[Kind::Publish, Kind::Publish, Kind::Behavior, Kind::Replay(1), Kind::Replay(2), Kind::Async]),
        ref_count: r.chance(1, 2),
        on_disconnect: r.chance(1, 2),
        on_error: r.chance(1, 2),
        on_complete: r.chance(1, 2),
        keep: r.chance(1, 2),
        prefix,
        defs,
        steps,
    }
}

// ---------------------------------------------------------------------------------------------
struct Gen {
    kind: Kind,
    vals: VecDeque<Val>,
    completed: bool,
    error: Option<Val>,
    subs: Vec<usize>,
}
impl Gen {
    fn new(kind: Kind) -> Self {
        let vals = if kind == Kind::Behavior { VecDeque::from([i(0)]) } else { VecDeque::new() };
        Gen { kind, vals, completed: false, error: None, subs: vec![] }
    }
    fn ended(&self) -> bool {
        self.completed || self.error.is_some()
    }
}
struct SubM {
    chain: ChainModel,
    started: bool,
    counted: bool,
    /// the connector it is subscribed to
    gn: usize,
}
struct Model<'a> {
    c: &'a Case,
    gens: Vec<Gen>,
    cur: Option<usize>,
    /// generation of the open connection, number of the source subscription
    conn: Option<(usize, u32)>,
    /// last subscriber left while the source was still being subscribed
    subs: Vec<SubM>,
    src_subs: u32,
    connects: u64,
    disconnects_by_count: u64,
    /// several answers are right: take over what is observed
    unsure: bool,
}
impl<'a> Model<'a> {
    fn new(c: &'a Case) -> Self {
        Model {
            c,
            gens: vec![],
            cur: None,
            conn: None,
            subs: c.defs.iter().map(|d| SubM { chain: ChainModel::new(&d.ops, d.close_at), started: false, counted: false, gn: 0 }).collect(),
            src_subs: 0,
            connects: 0,
            disconnects_by_count: 0,
            unsure: false,
        }
    }
    fn connector(&mut self) -> usize {
        if let Some(g) = self.cur {
            return g;
        }
        self.gens.push(Gen::new(self.c.kind));
        self.cur = Some(self.gens.len() - 1);
        self.gens.len() - 1
    }
    fn left(&mut self, k: usize) {
        if std::mem::replace(&mut self.subs[k].counted, false) {
            let n = self.subs.iter().filter(|s| s.counted).count();
            if self.c.ref_count && self.conn.is_some() {
                let g = self.conn.unwrap().0;
                if n == 0 {
                    self.disconnects_by_count += 1;
                    self.disconnect();
                } else if !self.subs.iter().any(|s| s.counted && s.gn == g) {
                    // only subscribers of a connector which has been replaced are left
                    self.unsure = true;
                }
            }
        }
    }
    fn feed_sub(&mut self, k: usize, n: Ntf) {
        if self.subs[k].chain.is_closed() {
            return;
        }
        self.subs[k].chain.feed(0, n);
        if self.subs[k].chain.is_closed() {
            self.left(k);
        }
    }
    fn all(&mut self, g: usize, n: &Ntf) {
        for k in self.gens[g].subs.clone() {
            self.feed_sub(k, n.clone());
        }
    }
    /// what the source emits on its connection to connector g
    fn notify(&mut self, g: usize, n: Ntf) {
        match n {
            Ntf::N(v) => match self.c.kind {
                Kind::Publish => self.all(g, &Ntf::N(v)),
                Kind::Behavior | Kind::Replay(_) => {
                    let cap = if let Kind::Replay(k) = self.c.kind { k } else { 1 };
                    self.gens[g].vals.push_back(v.clone());
                    if self.gens[g].vals.len() > cap {
                        self.gens[g].vals.pop_front();
                    }
                    self.all(g, &Ntf::N(v))
                }
                Kind::Async => self.gens[g].vals = VecDeque::from([v]),
            },
            Ntf::C => {
                self.conn = None;
                if self.c.on_complete {
                    self.cur = None;
                }
                if self.c.kind == Kind::Async {
                    if let Some(v) = self.gens[g].vals.front().cloned() {
                        self.all(g, &Ntf::N(v));
                    }
                }
                self.gens[g].completed = true;
                self.all(g, &Ntf::C);
                self.gens[g].subs.clear();
            }
            Ntf::E(e) => {
                self.conn = None;
                if self.c.on_error {
                    self.cur = None;
                }
                self.gens[g].error = Some(e.clone());
                self.all(g, &Ntf::E(e));
                self.gens[g].subs.clear();
            }
        }
    }
    fn disconnect(&mut self) -> bool {
        if self.conn.take().is_some() {
            if self.c.on_disconnect {
                self.cur = None;
            }
            return true;
        }
        false
    }
    fn connect(&mut self, src_subs_seen: u32) {
        if self.conn.is_some() {
            return;
        }
        let g = self.connector();
        if self.gens[g].ended() {
            // the kept connector cannot receive anything: subscribing the source or not is the same
            if src_subs_seen > self.src_subs {
                self.src_subs += 1;
            }
            return;
        }
        let n = self.src_subs;
        self.src_subs += 1;
        self.connects += 1;
        self.conn = Some((g, n));
        if !self.c.prefix.is_empty() {
            let p = self.c.prefix[(n as usize).min(self.c.prefix.len() - 1)].clone();
            for x in p {
                if self.conn != Some((g, n)) {
                    break;
                }
                self.notify(g, x);
            }
        }
    }
    fn subscribe(&mut self, k: usize, src_subs_seen: u32) {
        if self.subs[k].started {
            return;
        }
        self.subs[k].started = true;
        let g = self.connector();
        self.subs[k].gn = g;
        self.subs[k].counted = true;
        self.subs[k].chain.subscribe();
        let gen_ = &self.gens[g];
        let replay: Vec<Val> = match gen_.kind {
            _ if gen_.error.is_some() => vec![],
            Kind::Publish => vec![],
            Kind::Async if !gen_.completed => vec![],
            _ => gen_.vals.iter().cloned().collect(),
        };
        for v in replay {
            self.subs[k].chain.feed(0, Ntf::N(v));
        }
        if let Some(e) = self.gens[g].error.clone() {
            self.subs[k].chain.feed(0, Ntf::E(e));
        } else if self.gens[g].completed {
            self.subs[k].chain.feed(0, Ntf::C);
        }
        if self.gens[g].ended() {
            self.subs[k].chain.unsubscribe();
        }
        if self.subs[k].chain.is_closed() {
            self.left(k);
        } else {
            self.gens[g].subs.push(k);
        }
        if self.c.share && !(self.c.ref_count && self.subs[k].chain.is_closed()) {
            self.connect(src_subs_seen);
        }
    }
    fn unsub(&mut self, k: usize) {
        if !self.subs[k].chain.is_closed() {
            self.subs[k].chain.unsubscribe();
            self.left(k);
        }
    }
}

// ---------------------------------------------------------------------------------------------
struct Prov<S>(Arc<AtomicUsize>, PhantomData<S>);
impl<S> Clone for Prov<S> {
    fn clone(&self) -> Self {
        Prov(self.0.clone(), PhantomData)
    }
}
trait Make {
    fn make() -> Self;
}
impl<S: Make> Provider for Prov<S> {
    type Provided = S;
    fn provide(&self) -> S {
        self.0.fetch_add(1, Ordering::SeqCst);
        S::make()
    }
}
type H = Box<dyn SubscriptionWithTeardown + Send + Sync>;
trait Hub {
    fn sub(&mut self, d: &SubDef, cfg: SinkCfg) -> H;
    fn h_connect(&mut self) -> Box<dyn SubscriptionLike>;
    fn h_disconnect(&mut self) -> bool;
    fn h_is_connected(&self) -> bool;
    fn h_reset(&mut self);
    fn dup(&self) -> Box<dyn Hub + Send>;
}
macro_rules! hub {
    ($s:ty) => {
        impl Make for $s {
            fn make() -> Self {
                <$s>::fresh()
            }
        }
        hub!(@impl ConnectableObservable<Src, Prov<$s>>, x => x.reset());
        hub!(@impl ShareObservable<Src, Prov<$s>>, _x => {});
    };
    (@impl $t:ty, $x:ident => $reset:expr) => {
        impl Hub for $t {
            fn sub(&mut self, d: &SubDef, cfg: SinkCfg) -> H {
                if d.ops.is_empty() {
                    return if d.raw { Box::new(self.subscribe(Sink::new(cfg))) } else { Box::new(self.subscribe(ObsSink::new(cfg))) };
                }
                let mut o: Obs = self.clone().erase();
                for op in &d.ops {
                    o = build(op, o);
                }
                if d.raw { Box::new(o.subscribe(Sink::new(cfg))) } else { Box::new(o.subscribe(ObsSink::new(cfg))) }
            }
            fn h_connect(&mut self) -> Box<dyn SubscriptionLike> {
                Box::new(<$t>::connect(self))
            }
            fn h_disconnect(&mut self) -> bool {
                <$t>::disconnect(self)
            }
            fn h_is_connected(&self) -> bool {
                <$t>::is_connected(self)
            }
            fn h_reset(&mut self) {
                let $x = self;
                $reset
            }
            fn dup(&self) -> Box<dyn Hub + Send> {
                Box::new(self.clone())
            }
        }
    };
}
trait Fresh {
    fn fresh() -> Self;
}
impl Fresh for PublishSubject<Val, Val> {
    fn fresh() -> Self {
        Self::default()
    }
}
impl Fresh for BehaviorSubject<Val, Val> {
    fn fresh() -> Self {
        BehaviorSubject::new(i(0))
    }
}
impl<const N: usize> Fresh for ReplaySubject<N, Val, Val> {
    fn fresh() -> Self {
        Self::default()
    }
}
impl Fresh for AsyncSubject<Val, Val> {
    fn fresh() -> Self {
        Self::default()
    }
}
type R1 = ReplaySubject<1, Val, Val>;
type R2 = ReplaySubject<2, Val, Val>;
hub!(PublishSubject<Val, Val>);
hub!(BehaviorSubject<Val, Val>);
hub!(R1);
hub!(R2);
hub!(AsyncSubject<Val, Val>);

fn make<S>(c: &Case, src: Src, n: Arc<AtomicUsize>) -> Box<dyn Hub + Send>
where
    S: Make + SubjectLike<In = Val, InError = Val> + Clone + 'static,
    ConnectableObservable<Src, Prov<S>>: Hub,
    ShareObservable<Src, Prov<S>>: Hub,
{
    let mut o = ConnectableOptions::new(Prov::<S>(n, PhantomData));
    o.disconnect_when_ref_count_zero = c.ref_count;
    o.reset_connector_on_disconnect = c.on_disconnect;
    o.reset_connector_on_error = c.on_error;
    o.reset_connector_on_complete = c.on_complete;
    if c.share { Box::new(src.share(o)) } else { Box::new(ConnectableObservable::new(src, o)) }
}

pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let big = cx.thorough && r.chance(1, 4);
    let c = generate(r, big);
    cx.publish(format!("{c:?}"));
    let fam = if c.share { "share" } else { "connectable" };
    let made = Arc::new(AtomicUsize::new(0));
    let src = Src::new(1, c.prefix.clone(), false);
    let src = if c.keep { src.keeping() } else { src };
    let s = src.clone();
    let hub = match c.kind {
        Kind::Publish => make::<PublishSubject<Val, Val>>(&c, s, made.clone()),
        Kind::Behavior => make::<BehaviorSubject<Val, Val>>(&c, s, made.clone()),
        Kind::Replay(1) => make::<R1>(&c, s, made.clone()),
        Kind::Replay(_) => make::<R2>(&c, s, made.clone()),
        Kind::Async => make::<AsyncSubject<Val, Val>>(&c, s, made.clone()),
    };
    let mut hubs: Vec<Box<dyn Hub + Send>> = vec![hub.dup(), hub.dup(), hub];
    let nd = c.defs.len();
    let mut handles: Vec<Option<H>> = (0..nd).map(|_| None).collect();
    let mut cfgs: Vec<Option<SinkCfg>> = vec![];
    let mut weak: Vec<Weak<()>> = vec![];
    for k in 0..nd {
        let keep = Arc::new(());
        weak.push(Arc::downgrade(&keep));
        let mut cfg = SinkCfg::new(k as u32);
        cfg.close_at = c.defs[k].close_at;
        cfg.hook = Some(Box::new(move |_, _| {
            let _k = &keep;
        }));
        cfgs.push(Some(cfg));
    }
    let mut m = Model::new(&c);
    let mut conn: Option<Box<dyn SubscriptionLike>> = None;
    let mut conn_n: Option<u32> = None;
    let mut mark = 0;
    let mut tds: Vec<(usize, u32)> = vec![];
    for (step, st) in c.steps.iter().enumerate() {
        set_step(step as u32 + 1);
        let when = format!("step {step} {st:?}");
        let was_ended: Vec<bool> = m.subs.iter().map(|s| s.started && s.chain.is_closed()).collect();
        match st {
            Step::Sub(k) => {
                if let Some(cfg) = cfgs[*k].take() {
                    let h = hubs[c.defs[*k].at].sub(&c.defs[*k], cfg);
                    handles[*k] = Some(h);
                }
                m.subscribe(*k, src.subs());
            }
            Step::Unsub(k) => {
                if let Some(h) = handles[*k].as_mut() {
                    h.unsubscribe();
                    m.unsub(*k);
                }
            }
            Step::Drop(k) => {
                if let Some(h) = handles[*k].take() {
                    drop(h);
                    m.unsub(*k);
                }
            }
            Step::AddTd(k, id) => {
                if let Some(h) = handles[*k].as_mut() {
                    let id = *id;
                    tds.push((*k, id));
                    h.add_teardown(Teardown::new(move || log(Ev::Td(id))));
                }
            }
            Step::Connect(k) => {
                let before = m.conn;
                let h = hubs[*k].h_connect();
                m.connect(src.subs());
                let e = m.conn.is_some();
                if h.is_closed() == e && !m.unsure {
                    viol("C12", format!("{fam}: connect returned a {} connection", if e { "closed" } else { "open" }), when.clone());
                }
                if before.is_none() || conn.is_none() {
                    conn_n = m.conn.map(|x| x.1);
                    conn = Some(h);
                }
            }
            Step::Disconnect(k) => {
                let got = hubs[*k].h_disconnect();
                let exp = m.disconnect();
                if got != exp {
                    viol("C12", format!("{fam}: disconnect returned {got}, expected {exp}"), when.clone());
                }
            }
            Step::HandleUnsub => {
                if let Some(h) = conn.as_mut() {
                    h.unsubscribe();
                    if m.conn.map(|x| x.1) == conn_n {
                        m.disconnect();
                    }
                }
            }
            Step::Reset(k) => {
                if !c.share {
                    hubs[*k].h_reset();
                    m.disconnect();
                    m.cur = None;
                }
            }
            Step::Push(n) => {
                src.emit(n);
                if let Some((g, _)) = m.conn {
                    m.notify(g, n.clone());
                }
            }
            Step::ProducerUnsub => {
                src.producer_unsub();
                m.disconnect();
            }
        }
        if m.unsure {
            m.unsure = false;
            if m.conn.is_some() && src.open().is_empty() {
                m.disconnect();
            }
            cx.stat("steps where either answer is accepted", 1);
        }
        let new = log_from(mark);
        mark += new.len();
        for k in 0..nd {
            let got: Vec<Ntf> = new.iter().filter_map(|(_, e)| if let Ev::Sink(x, n) = e { (*x == k as u32).then(|| n.clone()) } else { None }).collect();
            let exp = std::mem::take(&mut m.subs[k].chain.out);
            if got != exp {
                viol(out_props("C12", was_ended[k], exp.len(), got.len()), format!("{fam}: a subscriber's notifications differ from the reference"), format!("{when}: subscriber {k} expected {exp:?}, observed {got:?}"));
            }
            let sm = &m.subs[k];
            if let Some(h) = &handles[k] {
                if h.is_closed() != sm.chain.is_closed() {
                    viol("C12+C02", format!("{fam}: subscription closed={}, expected {}", h.is_closed(), sm.chain.is_closed()), format!("{when}: subscriber {k}"));
                }
            }
            if sm.started && sm.chain.is_closed() {
                for (_, id) in tds.iter().filter(|(x, _)| *x == k) {
                    if !log_from(0).iter().any(|(_, e)| *e == Ev::Td(*id)) {
                        viol("C02", format!("{fam}: client teardown not run at close"), format!("{when}: subscriber {k} teardown {id}"));
                    }
                }
                if handles[k].is_none() && weak[k].upgrade().is_some() {
                    viol("C14", format!("{fam}: an ended subscriber whose handle is gone is kept alive"), format!("{when}: subscriber {k}"));
                }
            }
        }
        let open = src.open();
        let exp: Vec<u32> = m.conn.iter().map(|x| x.1).collect();
        if open != exp {
            let what = if open.len() > 1 {
                "connected to its source more than once"
            } else if exp.is_empty() {
                "source still subscribed"
            } else {
                "source not subscribed"
            };
            viol("C12+C02", format!("{fam}: {what}"), format!("{when}: open source subscriptions {open:?}, expected {exp:?}"));
        }
        if src.subs() != m.src_subs {
            viol("C12", format!("{fam}: source subscribed {} than expected", if src.subs() > m.src_subs { "more often" } else { "less often" }), format!("{when}: {} times, expected {}", src.subs(), m.src_subs));
        }
        for (k, h) in hubs.iter().enumerate() {
            if h.h_is_connected() != m.conn.is_some() {
                viol("C12", format!("{fam}: is_connected is {}, expected {}", h.h_is_connected(), m.conn.is_some()), format!("{when}: clone {k}"));
                break;
            }
        }
        let n = made.load(Ordering::SeqCst);
        if n != m.gens.len() {
            viol("C12", format!("{fam}: connectors created {} than expected", if n > m.gens.len() { "more often" } else { "less often" }), format!("{when}: {n}, expected {}", m.gens.len()));
        }
        if with(|r| !r.viols.is_empty()) {
            break;
        }
    }
    set_step(1000);
    let (nc, nr) = (m.connects, m.disconnects_by_count);
    for h in handles.iter_mut() {
        drop(h.take());
    }
    if c.ref_count && !src.open().is_empty() && with(|r| r.viols.is_empty()) && !m.conn.is_some_and(|_| !m.subs.iter().any(|s| s.counted)) {
        viol("C12+C02", format!("{fam}: source still subscribed after the last subscriber left"), "end");
    }
    drop(conn);
    hubs.clear();
    if !src.open().is_empty() {
        viol("C02+C14", format!("{fam}: source still subscribed after everything was dropped"), "end");
    }
    let ids: Vec<u32> = tds.iter().map(|x| x.1).collect();
    check_log(fam, false, false, &ids, &[]);
    drop(src);
    drop(cfgs);
    if live() != 0 {
        viol("C14", format!("{fam}: values or callbacks still alive after everything was dropped"), format!("{} tokens", live()));
    }
    let n = log_len() as u64;
    cx.stat("events observed", n);
    cx.stat("connections", nc);
    cx.stat("disconnections by reference count", nr);
    cx.nontrivial = n >= 6 && nc > 0;
    // order across subscribers is not specified, so fingerprint the sorted log of each step
    with(|r| r.log.sort_by_key(|(s, e)| (*s, format!("{e:?}"))));
    cx.fp = fp_log() ^ crate::runner::fam_no(&format!("{:?}{}{}{}{}", c.kind, c.ref_count, c.on_disconnect, c.on_error, c.on_complete));
}

// ---------------------------------------------------------------------------------------------
// Nested actions: subscribing, leaving, connecting, disconnecting and pushing from a subscriber's
// callback. No reference model of the outcome, the guarantees themselves are checked.
#[derive(Clone, Debug)]
struct ReCase {
    share: bool,
    kind: Kind,
    ref_count: bool,
    on_disconnect: bool,
    on_error: bool,
    on_complete: bool,
    keep: bool,
    prefix: Vec<Vec<Ntf>>,
    defs: Vec<SubDef>,
    hooked: usize,
    hooks: std::collections::BTreeMap<usize, Vec<Step>>,
    steps: Vec<Step>,
}
fn gen_re(r: &mut Rng) -> ReCase {
    let nd = 2 + r.below(4);
    let share = r.chance(3, 4);
    // whether anybody but the reference count connects and disconnects
    let manual = !share || r.chance(1, 4);
    let defs: Vec<SubDef> = (0..nd)
        .map(|_| {
            let ops = if r.chance(1, 2) {
                vec![]
            } else {
                vec![match r.below(4) {
                    0..=1 => Op::Take(1 + r.below(3)),
                    2 => Op::First,
                    _ => Op::Map(2),
                }]
            };
            SubDef { ops, raw: r.chance(1, 2), close_at: None, at: r.below(3) }
        })
        .collect();
    let prefix = if r.chance(1, 2) {
        (0..1 + r.below(3))
            .map(|_| {
                let mut v: Vec<Ntf> = (0..r.below(4)).map(|_| gen_n(r, 0)).collect();
                if r.chance(1, 4) {
                    v.push(gen_n(r, 100));
                }
                v
            })
            .collect()
    } else {
        vec![]
    };
    let pt = *r.pick(&[3, 10, 25]);
    let mut step = |r: &mut Rng, nested: bool| match r.below(100) {
        0..=26 => Step::Sub(r.below(nd)),
        27..=44 => Step::Unsub(r.below(nd)),
        45..=50 => Step::Drop(r.below(nd)),
        51..=58 if manual => Step::Connect(r.below(3)),
        59..=65 if manual => Step::Disconnect(r.below(3)),
        _ if nested && r.chance(1, 3) => Step::Unsub(r.below(nd)),
        _ => Step::Push(gen_n(r, pt)),
    };
    let mut hooks = std::collections::BTreeMap::new();
    for _ in 0..1 + r.below(3) {
        let n = 1 + r.below(2);
        hooks.insert(1 + r.below(4), (0..n).map(|_| step(r, true)).collect());
    }
    let hooked = r.below(nd);
    let mut steps = vec![Step::Sub(hooked)];
    if r.chance(1, 3) {
        steps.insert(0, Step::Sub(r.below(nd)));
    }
    steps.extend((0..2 + r.below(12)).map(|_| step(r, false)));
    ReCase {
        share,
        kind: *r.pick(&[Kind::Publish, Kind::Publish, Kind::Publish, Kind::Behavior, Kind::Replay(2), Kind::Async]),
        ref_count: r.chance(2, 3),
        on_disconnect: r.chance(1, 2),
        on_error: r.chance(1, 2),
        on_complete: r.chance(1, 2),
        keep: r.chance(1, 2),
        prefix,
        defs,
        hooked,
        hooks,
        steps,
    }
}
struct ReWorld {
    c: ReCase,
    src: Src,
    hubs: Vec<std::sync::Mutex<Box<dyn Hub + Send>>>,
    handles: Vec<std::sync::Mutex<Option<H>>>,
    cfgs: Vec<std::sync::Mutex<Option<SinkCfg>>>,
    /// values pushed, per step
    pushed: std::sync::Mutex<Vec<Val>>,
    nested: AtomicUsize,
}
fn re_do(w: &ReWorld, st: &Step) {
    match st {
        Step::Sub(k) => {
            let cfg = lock(&w.cfgs[*k]).take();
            if let Some(cfg) = cfg {
                let mut hub = lock(&w.hubs[w.c.defs[*k].at]).dup();
                let h = hub.sub(&w.c.defs[*k], cfg);
                *lock(&w.handles[*k]) = Some(h);
            }
        }
        Step::Unsub(k) => {
            let h = lock(&w.handles[*k]).take();
            if let Some(mut h) = h {
                h.unsubscribe();
                *lock(&w.handles[*k]) = Some(h);
            }
        }
        Step::Drop(k) => {
            let h = lock(&w.handles[*k]).take();
            drop(h);
        }
        Step::Connect(k) => {
            let mut hub = lock(&w.hubs[*k]).dup();
            drop(hub.h_connect());
        }
        Step::Disconnect(k) => {
            let mut hub = lock(&w.hubs[*k]).dup();
            hub.h_disconnect();
        }
        Step::Push(n) => {
            if let Ntf::N(v) = n {
                lock(&w.pushed).push(v.clone());
            }
            w.src.emit(n);
        }
        _ => {}
    }
}
pub fn run_re(r: &mut Rng, cx: &mut Ctx) {
    let c = gen_re(r);
    cx.publish(format!("{c:?}"));
    let fam = if c.share { "share_re" } else { "connectable_re" };
    let src = Src::new(1, c.prefix.clone(), false);
    let src = if c.keep { src.keeping() } else { src };
    let s = src.clone();
    let made = Arc::new(AtomicUsize::new(0));
    let pc = Case {
        share: c.share,
        kind: c.kind,
        ref_count: c.ref_count,
        on_disconnect: c.on_disconnect,
        on_error: c.on_error,
        on_complete: c.on_complete,
        keep: c.keep,
        prefix: vec![],
        defs: vec![],
        steps: vec![],
    };
    let hub = match c.kind {
        Kind::Publish => make::<PublishSubject<Val, Val>>(&pc, s, made),
        Kind::Behavior => make::<BehaviorSubject<Val, Val>>(&pc, s, made),
        Kind::Replay(1) => make::<R1>(&pc, s, made),
        Kind::Replay(_) => make::<R2>(&pc, s, made),
        Kind::Async => make::<AsyncSubject<Val, Val>>(&pc, s, made),
    };
    let nd = c.defs.len();
    let mut hubs = vec![hub.dup(), hub.dup()];
    hubs.push(hub);
    let w = Arc::new_cyclic(|me: &Weak<ReWorld>| ReWorld {
        src: src.clone(),
        hubs: hubs.into_iter().map(std::sync::Mutex::new).collect(),
        handles: (0..nd).map(|_| std::sync::Mutex::new(None)).collect(),
        cfgs: (0..nd)
            .map(|k| {
                let mut cfg = SinkCfg::new(k as u32);
                if k == c.hooked {
                    let me = me.clone();
                    let hooks = c.hooks.clone();
                    cfg.hook = Some(Box::new(move |n, _| {
                        if let (Some(acts), Some(w)) = (hooks.get(&n), me.upgrade()) {
                            w.nested.fetch_add(acts.len(), Ordering::SeqCst);
                            for a in acts {
                                re_do(&w, a);
                            }
                        }
                    }));
                }
                std::sync::Mutex::new(Some(cfg))
            })
            .collect(),
        pushed: Default::default(),
        nested: AtomicUsize::new(0),
        c: c.clone(),
    });
    let manual = c.steps.iter().chain(c.hooks.values().flatten()).any(|s| matches!(s, Step::Connect(_) | Step::Disconnect(_)));
    let open_subs = |w: &ReWorld| -> Vec<usize> { (0..nd).filter(|k| lock(&w.handles[*k]).as_ref().is_some_and(|h| !h.is_closed())).collect() };
    let mut mark = 0;
    // a probe which has to reach everybody
    let mut steps = c.steps.clone();
    steps.push(Step::Push(Ntf::N(i(77))));
    for (step, st) in steps.iter().enumerate() {
        set_step(step as u32 + 1);
        let when = format!("step {step} {st:?}");
        lock(&w.pushed).clear();
        let before = open_subs(&w);
        let (sb, ob) = (src.subs(), src.open());
        re_do(&w, st);
        let after = open_subs(&w);
        let open = src.open();
        let new = log_from(mark);
        mark += new.len();
        if open.len() > 1 {
            viol("C12+C07+C02", format!("{fam}: connected to its source more than once"), format!("{when}: open source subscriptions {open:?}"));
        }
        for (k, h) in w.hubs.iter().enumerate() {
            let ic = lock(h).h_is_connected();
            if ic != !open.is_empty() {
                viol("C12+C07", format!("{fam}: is_connected is {ic} while the source is {}", if open.is_empty() { "not subscribed" } else { "subscribed" }), format!("{when}: clone {k}"));
                break;
            }
        }
        if c.share && c.ref_count && !manual && after.is_empty() && !open.is_empty() {
            viol("C12+C07+C02", format!("{fam}: source still subscribed after the last subscriber left"), when.clone());
        }
        if c.share && !manual && !after.is_empty() && open.is_empty() {
            viol("C12+C07", format!("{fam}: a subscriber is open but the source is not subscribed"), format!("{when}: subscribers {after:?}"));
        }
        // those who were there before and after, on the same connection
        if c.kind != Kind::Async && sb == src.subs() && ob == open && open.len() == 1 {
            let pushed = lock(&w.pushed).clone();
            for k in before.iter().filter(|k| after.contains(k)) {
                if !c.share || manual || !(c.defs[*k].ops.is_empty() || matches!(c.defs[*k].ops[0], Op::Take(_))) {
                    continue;
                }
                let got: Vec<Val> = new.iter().filter_map(|(_, e)| if let Ev::Sink(x, Ntf::N(v)) = e { (*x == *k as u32).then(|| v.clone()) } else { None }).collect();
                if got != pushed {
                    viol("C12+C07", format!("{fam}: a subscriber present throughout did not receive exactly what the source emitted"), format!("{when}: subscriber {k} received {got:?}, emitted {pushed:?}"));
                }
            }
            cx.stat("deliveries compared", 1);
        }
        if with(|r| !r.viols.is_empty()) {
            break;
        }
    }
    set_step(1000);
    for h in &w.handles {
        let h = lock(h).take();
        drop(h);
    }
    if c.share && c.ref_count && !manual && !src.open().is_empty() && with(|r| r.viols.is_empty()) {
        viol("C12+C02", format!("{fam}: source still subscribed after the last subscriber left"), "end");
    }
    let nested = w.nested.load(Ordering::SeqCst);
    drop(w);
    if !src.open().is_empty() {
        viol("C02+C14", format!("{fam}: source still subscribed after everything was dropped"), "end");
    }
    check_log(fam, false, false, &[], &[]);
    drop(src);
    if live() != 0 {
        viol("C14", format!("{fam}: values or callbacks still alive after everything was dropped"), format!("{} tokens", live()));
    }
    cx.stat("events observed", log_len() as u64);
    cx.stat("nested actions performed", nested as u64);
    cx.nontrivial = nested > 0;
    with(|r| r.log.sort_by_key(|(s, e)| (*s, format!("{e:?}"))));
    cx.fp = fp_log() ^ crate::runner::fam_no(&format!("{:?}{}{}{}{}", c.kind, c.ref_count, c.on_disconnect, c.on_error, c.on_complete));
}
