//! S2: higher-order operators (concat, merge, switch, exhaust; _all and _map), optionally driven re-entrantly.
use crate::fam_linear::*;
use crate::ops::*;
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use rx_core::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pol {
    Concat,
    Merge(usize),
    Switch,
    Exhaust,
}
#[derive(Clone, Debug)]
pub enum Act {
    Outer(Ntf),
    Inner(usize, Ntf),
    InnerUnsub(usize),
    OuterUnsub,
    Unsub,
    DropHandle,
    AddTd(u32),
}
#[derive(Clone, Debug)]
pub struct Case {
    pol: Pol,
    all: bool,
    /// the merge/concat observable over all inners instead of an operator
    obs: bool,
    outer_prefix: Vec<Ntf>,
    inners: Vec<Vec<Ntf>>,
    inner_ops: Vec<Op>,
    down_ops: Vec<Op>,
    raw: bool,
    close_at: Option<usize>,
    steps: Vec<Act>,
    /// performed while the sink handles its k-th notification
    hooks: BTreeMap<usize, Vec<Act>>,
}
fn gen_act(r: &mut Rng, ni: usize, td: &mut u32, nested: bool) -> Act {
    match r.below(100) {
        0..=34 => {
            if r.chance(15, 100) {
                Act::Outer(if r.chance(4, 5) { Ntf::C } else { Ntf::E(t("oe", vec![i(r.range(0, 3))])) })
            } else {
                Act::Outer(Ntf::N(i(r.range(0, ni as i64 - 1))))
            }
        }
        35..=79 => {
            let k = r.below(ni);
            Act::Inner(
                k,
                match r.below(100) {
                    0..=59 => Ntf::N(i(100 * (k as i64 + 1) + r.range(0, 30))),
                    60..=93 => Ntf::C,
                    _ => Ntf::E(t("ie", vec![i(k as i64)])),
                },
            )
        }
        80..=89 => Act::InnerUnsub(r.below(ni)),
        90 => Act::OuterUnsub,
        91..=92 => Act::Unsub,
        93 if !nested => Act::DropHandle,
        94..=95 if !nested => {
            *td += 1;
            Act::AddTd(*td)
        }
        _ => Act::Outer(Ntf::N(i(r.range(0, ni as i64 - 1)))),
    }
}
fn generate(r: &mut Rng, re: bool) -> Case {
    let pol = match r.below(8) {
        0..=1 => Pol::Concat,
        2..=4 => Pol::Merge(*r.pick(&[0, 1, 1, 2, 2, 3, 4, 100])),
        5..=6 => Pol::Switch,
        _ => Pol::Exhaust,
    };
    let ni = 1 + r.below(4);
    let inners = (0..ni)
        .map(|k| {
            if r.chance(1, 2) {
                return vec![];
            }
            let n = r.below(3);
            let mut v: Vec<Ntf> = (0..n).map(|_| Ntf::N(i(100 * (k as i64 + 1) + r.range(50, 90)))).collect();
            if r.chance(1, 2) {
                v.push(if r.chance(5, 6) { Ntf::C } else { Ntf::E(t("ie", vec![i(k as i64)])) });
            }
            v
        })
        .collect();
    let inner_ops = if !re && r.chance(1, 4) {
        vec![match r.below(5) {
            0 => Op::Take(r.below(3)),
            1 => Op::StartWith(r.range(0, 9)),
            2 => Op::EndWith(r.range(0, 9)),
            3 => Op::Filter(r.u64() % 4, false),
            _ => Op::Map(r.range(0, 5)),
        }]
    } else {
        vec![]
    };
    let down_ops = if !re && r.chance(1, 3) {
        vec![match r.below(6) {
            0 => Op::Take(r.below(5)),
            1 => Op::StartWith(r.range(0, 9)),
            2 => Op::BufferCount(1 + r.below(3)),
            3 => Op::First,
            4 => Op::Scan(1),
            _ => Op::EndWith(3),
        }]
    } else {
        vec![]
    };
    let mut td = 10;
    let np = if r.chance(1, 3) { r.below(5) } else { 0 };
    let mut outer_prefix: Vec<Ntf> = (0..np).map(|_| Ntf::N(i(r.range(0, ni as i64 - 1)))).collect();
    if np > 0 && r.chance(1, 3) {
        outer_prefix.push(Ntf::C);
    }
    let ns = 2 + r.below(20);
    let steps = (0..ns).map(|_| gen_act(r, ni, &mut td, false)).collect();
    let mut hooks: BTreeMap<usize, Vec<Act>> = BTreeMap::new();
    if re {
        for _ in 0..(1 + r.below(3)) {
            let at = 1 + r.below(6);
            let n = 1 + r.below(2);
            let v = (0..n)
                .map(|_| match gen_act(r, ni, &mut td, true) {
                    // Whether a place is freed at once or at the end of the outer call is not specified
                    Act::InnerUnsub(k) => Act::Inner(k, Ntf::N(i(7))),
                    // known finding, see fam_scn.rs
                    Act::Outer(Ntf::C) if pol == Pol::Switch => Act::Outer(Ntf::N(i(0))),
                    a => a,
                })
                .collect();
            hooks.insert(at, v);
        }
    }
    let raw = r.chance(1, 2);
    let obs = matches!(pol, Pol::Concat | Pol::Merge(_)) && r.chance(1, 3);
    let mut steps: Vec<Act> = steps;
    if obs {
        outer_prefix = (0..ni).map(|k| Ntf::N(i(k as i64))).chain([Ntf::C]).collect();
        steps.retain(|a| !matches!(a, Act::Outer(_) | Act::OuterUnsub));
        for v in hooks.values_mut() {
            v.retain(|a| !matches!(a, Act::Outer(_) | Act::OuterUnsub));
        }
    }
    Case {
        pol,
        obs,
        all: r.chance(1, 2),
        outer_prefix,
        inners,
        inner_ops,
        down_ops,
        raw,
        close_at: if raw && !re && r.chance(1, 5) { Some(1 + r.below(5)) } else { None },
        steps,
        hooks,
    }
}

// ---------------------------------------------------------------------------------------------
struct CellM {
    src: usize,
    n: u32,
    chain: ChainModel,
    busy: bool,
    unsub: bool,
    /// terminal sent by the source
    dead: bool,
    q: VecDeque<Ntf>,
    /// inner has closed (completed, errored or unsubscribed)
    closed: bool,
}
struct Model<'a> {
    c: &'a Case,
    limit: usize,
    cells: Vec<CellM>,
    subs: Vec<u32>,
    queue: VecDeque<usize>,
    o_busy: bool,
    o_q: VecDeque<Ntf>,
    o_dead: bool,
    o_unsub: bool,
    o_done: bool,
    down: ChainModel,
    d_busy: bool,
    /// None: unsubscribe
    d_q: VecDeque<Option<Ntf>>,
    /// a terminal has been accepted for delivery, or an unsubscribe
    d_end: bool,
    closed: bool,
    fired: usize,
    /// expected inner subscriptions, in order
    sub_log: Vec<(u32, u32)>,
    handle: bool,
    /// inners whose closing is being handled (the next queued one may be being subscribed to)
    going: usize,
    /// a nested outer value arrived while a place was being handed over: whether it is subscribed to now
    /// or right afterwards is not specified, so nothing further is compared
    amb: bool,
}
impl<'a> Model<'a> {
    fn new(c: &'a Case) -> Self {
        Model {
            c,
            limit: match c.pol {
                Pol::Merge(n) => n.max(1),
                _ => 1,
            },
            cells: vec![],
            subs: vec![0; c.inners.len()],
            queue: VecDeque::new(),
            o_busy: false,
            o_q: VecDeque::new(),
            o_dead: false,
            o_unsub: false,
            o_done: false,
            down: ChainModel::new(&c.down_ops, c.close_at),
            d_busy: false,
            d_q: VecDeque::new(),
            d_end: false,
            closed: false,
            fired: 0,
            sub_log: vec![],
            handle: false,
            going: 0,
            amb: false,
        }
    }
    fn active(&self) -> usize {
        self.cells.iter().filter(|x| !x.closed).count()
    }
    fn close_all(&mut self) {
        self.closed = true;
        self.queue.clear();
        for x in &mut self.cells {
            x.closed = true;
        }
        self.down.unsubscribe();
    }
    fn deliver(&mut self, n: Ntf) {
        if self.closed || self.d_end {
            return;
        }
        if n.terminal() {
            self.d_end = true;
        }
        if self.d_busy {
            self.d_q.push_back(Some(n));
            return;
        }
        self.d_busy = true;
        let mut next = Some(Some(n));
        while let Some(n) = next.take() {
            match n {
                Some(n) => self.down.feed(0, n),
                None => self.down.unsubscribe(),
            }
            while self.fired < self.down.count {
                self.fired += 1;
                if let Some(acts) = self.c.hooks.get(&self.fired) {
                    for a in acts {
                        self.act(a, true);
                    }
                }
            }
            if self.down.is_closed() {
                self.d_q.clear();
            }
            next = self.d_q.pop_front();
        }
        self.d_busy = false;
        if self.down.is_closed() {
            self.close_all();
        }
    }
    /// closed as far as anything upstream can tell
    fn ended(&self) -> bool {
        self.closed || self.d_end || self.down.is_closed()
    }
    fn subscribe_inner(&mut self, k: usize) {
        let n = self.subs[k];
        self.subs[k] += 1;
        let mut chain = ChainModel::new(&self.c.inner_ops, None);
        chain.subscribe();
        let at = self.cells.len();
        self.cells.push(CellM { src: k, n, chain, busy: false, unsub: false, dead: false, q: VecDeque::new(), closed: false });
        // output of operators at subscription time precedes the subscription to the source
        self.drain_chain(at);
        self.sub_log.push((10 + k as u32, n));
        for p in self.c.inners[k].clone() {
            self.cell_emit(at, p);
        }
    }
    /// forward what the operators inside the inner observable let through
    fn drain_chain(&mut self, at: usize) {
        let outs = std::mem::take(&mut self.cells[at].chain.out);
        for o in outs {
            if self.cells[at].closed {
                return;
            }
            match o {
                Ntf::N(v) => {
                    self.deliver(Ntf::N(v));
                    if self.ended() && !self.cells[at].closed {
                        self.inner_gone(at, false);
                    }
                }
                Ntf::E(e) => {
                    self.deliver(Ntf::E(e));
                    self.inner_gone(at, false);
                }
                Ntf::C => self.inner_gone(at, true),
            }
        }
        if self.cells[at].chain.is_closed() && !self.cells[at].closed {
            self.inner_gone(at, false);
        }
    }
    fn inner_gone(&mut self, at: usize, completed: bool) {
        if self.cells[at].closed {
            return;
        }
        self.cells[at].closed = true;
        if self.ended() {
            return;
        }
        if let Some(k) = self.queue.pop_front() {
            self.going += 1;
            self.subscribe_inner(k);
            self.going -= 1;
        }
        if !self.ended() && self.o_done && self.queue.is_empty() && self.active() == 0 {
            if completed {
                self.deliver(Ntf::C);
            } else {
                self.unsub_down();
            }
        }
    }
    fn unsub_down(&mut self) {
        if self.d_busy {
            self.d_end = true;
            // takes effect when the notification being delivered is through
            // (whatever was waiting before it still comes first)
            self.close_inners();
            self.d_q.push_back(None);
        } else {
            self.close_all();
        }
    }
    /// the source's subscription is unsubscribed; the source does that once it is done with what it is sending
    fn outer_gone(&mut self) {
        if self.o_busy {
            self.o_unsub = true;
        } else if !self.closed {
            self.o_dead = true;
            self.unsub_down();
        }
    }
    fn close_inners(&mut self) {
        self.queue.clear();
        for x in &mut self.cells {
            x.closed = true;
        }
    }
    fn cell_emit(&mut self, at: usize, n: Ntf) {
        if self.cells[at].busy {
            self.cells[at].q.push_back(n);
            return;
        }
        self.cells[at].busy = true;
        let mut next = Some(n);
        while let Some(n) = next.take() {
            let x = &mut self.cells[at];
            if !x.unsub && !x.dead && !x.closed {
                let term = n.terminal();
                x.chain.feed(0, n);
                self.drain_chain(at);
                if term {
                    self.cells[at].dead = true;
                    if !self.cells[at].closed {
                        self.inner_gone(at, false);
                    }
                }
            }
            next = self.cells[at].q.pop_front();
        }
        self.cells[at].busy = false;
        if self.cells[at].unsub && !self.cells[at].closed {
            self.inner_gone(at, false);
        }
    }
    fn outer_emit(&mut self, n: Ntf) {
        if self.o_busy {
            self.o_q.push_back(n);
            return;
        }
        self.o_busy = true;
        let mut next = Some(n);
        while let Some(n) = next.take() {
            if !self.o_dead && !self.o_unsub && !self.ended() {
                match n {
                    Ntf::N(v) => self.outer_next(v),
                    Ntf::E(e) => {
                        self.o_dead = true;
                        self.deliver(Ntf::E(t("em", vec![e])));
                        if self.d_busy { self.close_inners() } else { self.close_all() }
                    }
                    Ntf::C => {
                        self.o_dead = true;
                        self.o_done = true;
                        if self.queue.is_empty() && self.active() == 0 {
                            self.deliver(Ntf::C);
                        }
                    }
                }
            }
            next = self.o_q.pop_front();
        }
        self.o_busy = false;
        if self.o_unsub {
            self.o_unsub = false;
            self.outer_gone();
        }
    }
    fn outer_next(&mut self, v: Val) {
        let k = match &v.v {
            V::I(x) => *x as usize % self.c.inners.len(),
            _ => 0,
        };
        match self.c.pol {
            Pol::Concat | Pol::Merge(_) => {
                if self.active() < self.limit {
                    self.amb |= self.going > 0;
                    self.subscribe_inner(k);
                } else {
                    self.queue.push_back(k);
                }
            }
            Pol::Switch => {
                for x in &mut self.cells {
                    x.closed = true;
                }
                self.subscribe_inner(k);
            }
            Pol::Exhaust => {
                if self.active() == 0 {
                    self.subscribe_inner(k);
                }
            }
        }
    }
    fn act(&mut self, a: &Act, _nested: bool) {
        match a {
            Act::Outer(n) => self.outer_emit(n.clone()),
            Act::Inner(k, n) => {
                let at: Vec<usize> = (0..self.cells.len()).filter(|x| self.cells[*x].src == *k).collect();
                for x in at {
                    if !self.cells[x].closed || self.cells[x].busy {
                        self.cell_emit(x, n.clone());
                    }
                }
            }
            Act::InnerUnsub(k) => {
                let at: Vec<usize> = (0..self.cells.len()).filter(|x| self.cells[*x].src == *k).collect();
                for x in at {
                    self.cells[x].unsub = true;
                    if !self.cells[x].busy {
                        self.inner_gone(x, false);
                    }
                }
            }
            Act::OuterUnsub => {
                self.outer_gone();
            }
            Act::Unsub | Act::DropHandle => {
                if self.handle {
                    self.outer_gone();
                }
            }
            Act::AddTd(_) => {}
        }
    }
}

type H = Option<Box<dyn SubscriptionWithTeardown + Send + Sync>>;
/// whatever `subscribe` returned
pub trait SubscriptionWithTeardown: SubscriptionLike + TeardownCollection {}
impl<X: SubscriptionLike + TeardownCollection> SubscriptionWithTeardown for X {}

pub struct World {
    outer: Src,
    inners: Vec<Src>,
    handle: Mutex<H>,
}
fn perform(w: &Arc<World>, a: &Act) {
    match a {
        Act::Outer(n) => w.outer.emit(n),
        Act::Inner(k, n) => w.inners[*k].emit(n),
        Act::InnerUnsub(k) => w.inners[*k].producer_unsub(),
        Act::OuterUnsub => w.outer.producer_unsub(),
        Act::Unsub => {
            let h = lock(&w.handle).take();
            if let Some(mut h) = h {
                h.unsubscribe();
                let mut s = lock(&w.handle);
                if s.is_none() {
                    *s = Some(h);
                }
            }
        }
        Act::DropHandle => {
            let h = lock(&w.handle).take();
            drop(h);
        }
        Act::AddTd(id) => {
            let h = lock(&w.handle).take();
            if let Some(mut h) = h {
                let id = *id;
                h.add_teardown(Teardown::new(move || log(Ev::Td(id))));
                *lock(&w.handle) = Some(h);
            }
        }
    }
}

pub fn build_ho(c: &Case, outer: &Src, inners: &[Src]) -> Obs {
    let iops = c.inner_ops.clone();
    let tok = Tok::counted();
    let inn: Vec<Src> = inners.to_vec();
    let pick = move |v: Val| -> Obs {
        let _t = &tok;
        let k = match &v.v {
            V::I(x) => *x as usize % inn.len(),
            _ => 0,
        };
        let mut o: Obs = inn[k].clone().erase();
        for op in &iops {
            o = build(op, o);
        }
        o
    };
    let em = |e: Val| -> Val { t("em", vec![e]) };
    if c.obs {
        let p = |k: usize| pick(i(k as i64));
        let lim = if let Pol::Merge(n) = c.pol { n } else { 1 };
        return match (c.pol, c.inners.len(), c.all) {
            (Pol::Concat, 1, _) => concat([p(0)]).erase(),
            (Pol::Concat, 2, true) => concat([p(0), p(1)]).erase(),
            (Pol::Concat, 2, false) => concat((p(0), p(1))).erase(),
            (Pol::Concat, 3, true) => concat([p(0), p(1), p(2)]).erase(),
            (Pol::Concat, 3, false) => concat((p(0), p(1), p(2))).erase(),
            (Pol::Concat, ..) => concat([p(0), p(1), p(2), p(3)]).erase(),
            (_, 1, _) => merge([p(0)], lim).erase(),
            (_, 2, true) => merge([p(0), p(1)], lim).erase(),
            (_, 2, false) => merge((p(0), p(1)), lim).erase(),
            (_, 3, true) => merge([p(0), p(1), p(2)], lim).erase(),
            (_, 3, false) => merge((p(0), p(1), p(2)), lim).erase(),
            _ => merge([p(0), p(1), p(2), p(3)], lim).erase(),
        };
    }
    match (c.pol, c.all) {
        (Pol::Concat, true) => outer.clone().map(pick).concat_all(em).erase(),
        (Pol::Concat, false) => outer.clone().concat_map(pick, em).erase(),
        (Pol::Merge(n), true) => outer.clone().map(pick).merge_all(n, em).erase(),
        (Pol::Merge(n), false) => outer.clone().merge_map(pick, n, em).erase(),
        (Pol::Switch, true) => outer.clone().map(pick).switch_all(em).erase(),
        (Pol::Switch, false) => outer.clone().switch_map(pick, em).erase(),
        (Pol::Exhaust, true) => outer.clone().map(pick).exhaust_all(em).erase(),
        (Pol::Exhaust, false) => outer.clone().exhaust_map(pick, em).erase(),
    }
}

pub fn run_plain(r: &mut Rng, cx: &mut Ctx) {
    run(r, cx, false)
}
pub fn run_re(r: &mut Rng, cx: &mut Ctx) {
    run(r, cx, true)
}
fn run(r: &mut Rng, cx: &mut Ctx, re: bool) {
    let c = generate(r, re);
    cx.publish(format!("{c:?}"));
    let (fam, prop) = if re { ("ho_re", if c.obs { "C07+C05" } else { "C07+C04" }) } else { ("ho", if c.obs { "C05" } else { "C04" }) };
    let outer = Src::new(1, vec![c.outer_prefix.clone()], false).keeping();
    let inners: Vec<Src> = c.inners.iter().enumerate().map(|(k, p)| Src::new(10 + k as u32, vec![p.clone()], false)).collect();
    let mut o = build_ho(&c, &outer, &inners);
    for op in &c.down_ops {
        o = build(op, o);
    }
    let w = Arc::new(World { outer, inners, handle: Mutex::new(None) });
    let mut m = Model::new(&c);
    m.down.subscribe();
    for n in &c.outer_prefix {
        if m.ended() {
            break;
        }
        m.outer_emit(n.clone());
    }
    m.handle = true;
    let mut cfg = SinkCfg::new(1);
    cfg.close_at = c.close_at;
    if re {
        let hooks = c.hooks.clone();
        let weak = Arc::downgrade(&w);
        cfg.hook = Some(Box::new(move |k, _| {
            if let (Some(acts), Some(w)) = (hooks.get(&k), weak.upgrade()) {
                for a in acts {
                    perform(&w, a);
                }
            }
        }));
    }
    let mut mark = 0;
    let mut was_ended = false;
    let h = subscribe_sink(&mut o, cfg, c.raw);
    *lock(&w.handle) = Some(Box::new(h));
    let mut tds = vec![];
    for step in 0..=c.steps.len() {
        let when;
        if step > 0 {
            set_step(step as u32);
            let a = &c.steps[step - 1];
            when = format!("step {} {:?}", step - 1, a);
            if let Act::AddTd(id) = a {
                if lock(&w.handle).is_some() {
                    tds.push(*id);
                }
            }
            m.act(a, false);
            perform(&w, a);
            if matches!(a, Act::DropHandle) {
                m.handle = false;
            }
        } else {
            when = "subscribe".into();
        }
        if m.amb {
            cx.stat("cases cut short: nested order not specified", 1);
            break;
        }
        let new = log_from(mark);
        mark += new.len();
        let was_ended = std::mem::replace(&mut was_ended, m.ended());
        let got = sink_events(&new, 1);
        let exp = std::mem::take(&mut m.down.out);
        let sig = when.split(['(', ' ']).next().unwrap().to_string();
        if got != exp {
            viol(out_props(prop, was_ended, exp.len(), got.len()), format!("{fam} {}: output differs from the reference", pol_name(&c)), format!("{when}: expected {exp:?}, observed {got:?}"));
        }
        let subs: Vec<(u32, u32)> = new.iter().filter_map(|(_, e)| if let Ev::SrcSub(a, b, _) = e { (*a >= 10).then_some((*a, *b)) } else { None }).collect();
        let es = std::mem::take(&mut m.sub_log);
        if subs != es {
            viol(prop, format!("{fam} {}: inner subscriptions differ from the policy", pol_name(&c)), format!("{when}: expected {es:?}, observed {subs:?}"));
        }
        let _ = sig;
        let open: Vec<(u32, u32)> = w.inners.iter().flat_map(|s| {
            let id = lock(&s.0).id;
            s.open().into_iter().map(move |n| (id, n))
        }).collect();
        let mut eopen: Vec<(u32, u32)> = m.cells.iter().filter(|x| !x.closed).map(|x| (10 + x.src as u32, x.n)).collect();
        eopen.sort();
        let mut open = open;
        open.sort();
        if open != eopen {
            viol(if m.ended() { format!("C02+{prop}") } else if open.len() > eopen.len() { format!("{prop}+C02") } else { prop.into() }, format!("{fam} {}: wrong set of active inner subscriptions", pol_name(&c)), format!("{when}: expected {eopen:?}, observed {open:?}"));
        }
        let hc = lock(&w.handle).as_ref().map(|h| h.is_closed());
        if let Some(hc) = hc {
            if hc != m.ended() {
                viol(format!("C02+{prop}"), format!("{fam} {}: subscription closed={hc}, expected {}", pol_name(&c), m.ended()), when.clone());
            }
        }
        if m.ended() {
            if !w.outer.open().is_empty() {
                viol(format!("C02+{prop}"), format!("{fam} {}: upstream still subscribed after the end", pol_name(&c)), when.clone());
            }
            for id in &tds {
                if !log_from(0).iter().any(|(_, e)| *e == Ev::Td(*id)) {
                    viol("C02", format!("{fam} {}: client teardown not run at close", pol_name(&c)), format!("{when} teardown {id}"));
                }
            }
        }
    }
    set_step(1000);
    let h = lock(&w.handle).take();
    drop(h);
    if m.handle {
        m.unsub_down();
    }
    if !w.outer.open().is_empty() || w.inners.iter().any(|s| !s.open().is_empty()) {
        viol("C02", format!("{fam} {}: a source is still subscribed after drop", pol_name(&c)), "end");
    }
    drop(o);
    check_log(fam, c.raw && (c.down_ops.len() + c.inner_ops.len() > 0), false, &tds, &[]);
    drop(w);
    if live() != 0 {
        viol("C14", format!("{fam}: values or callbacks still alive after everything was dropped"), format!("{} tokens", live()));
    }
    let n = log_len() as u64;
    cx.stat("events observed", n);
    cx.stat("inner subscriptions", log_from(0).iter().filter(|(_, e)| matches!(e, Ev::SrcSub(a, ..) if *a >= 10)).count() as u64);
    if re {
        cx.stat("nested actions performed", m.c.hooks.iter().filter(|(k, _)| **k <= m.fired).map(|(_, v)| v.len() as u64).sum());
        cx.nontrivial = c.hooks.keys().any(|k| *k <= m.fired);
    } else {
        cx.nontrivial = n >= 6;
    }
    cx.fp = fp_log() ^ crate::runner::fam_no(&format!("{:?}{}", c.pol, c.all));
}
fn pol_name(c: &Case) -> &'static str {
    match c.pol {
        Pol::Concat if c.obs => "concat observable",
        Pol::Merge(_) if c.obs => "merge observable",
        Pol::Concat => "concat",
        Pol::Merge(_) => "merge",
        Pol::Switch => "switch",
        Pol::Exhaust => "exhaust",
    }
}
