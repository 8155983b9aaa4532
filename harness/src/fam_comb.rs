//! S3: observables and operators that combine two inputs.
use crate::fam_ho::SubscriptionWithTeardown;
use crate::fam_linear::*;
use crate::ops::*;
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use rx_core::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Latest,
    Changes,
    /// queue length, drop oldest
    Zip(usize, bool),
    Join,
    Wlf,
}
#[derive(Clone, Debug)]
enum Act {
    Src(usize, Ntf),
    SrcUnsub(usize),
    Unsub,
    DropHandle,
    AddTd(u32),
}
#[derive(Clone, Debug)]
struct Case {
    kind: Kind,
    prefix: [Vec<Ntf>; 2],
    keep: [bool; 2],
    down_ops: Vec<Op>,
    raw: bool,
    close_at: Option<usize>,
    steps: Vec<Act>,
    hooks: BTreeMap<usize, Vec<Act>>,
}
fn gen_n(r: &mut Rng, s: usize, pt: usize) -> Ntf {
    if r.chance(pt, 100) {
        if r.chance(3, 4) { Ntf::C } else { Ntf::E(t("err", vec![i(s as i64)])) }
    } else {
        Ntf::N(i(100 * s as i64 + r.range(0, 30)))
    }
}
fn gen_act(r: &mut Rng, td: &mut u32, nested: bool, pt: usize) -> Act {
    match r.below(100) {
        0..=3 => Act::SrcUnsub(r.below(2)),
        4..=5 => Act::Unsub,
        6 if !nested => Act::DropHandle,
        7..=9 if !nested => {
            *td += 1;
            Act::AddTd(*td)
        }
        _ => {
            let s = r.below(2);
            Act::Src(s, gen_n(r, s, pt))
        }
    }
}
fn generate(r: &mut Rng, re: bool) -> Case {
    let kind = match r.below(6) {
        0 => Kind::Latest,
        1 => Kind::Changes,
        2..=3 => Kind::Zip(*r.pick(&[1, 2, 3, 4, 100]), r.chance(1, 2)),
        4 => Kind::Join,
        _ => Kind::Wlf,
    };
    let mut pre = |s: usize| -> Vec<Ntf> {
        if r.chance(1, 2) {
            return vec![];
        }
        let n = r.below(4);
        let mut v: Vec<Ntf> = (0..n).map(|_| gen_n(r, s, 0)).collect();
        if r.chance(1, 3) {
            v.push(gen_n(r, s, 100));
        }
        v
    };
    let prefix = [pre(0), pre(1)];
    let keep = [r.chance(1, 2), r.chance(1, 2)];
    let down_ops = if !re && r.chance(1, 3) {
        vec![match r.below(6) {
            0 => Op::Take(r.below(5)),
            1 => Op::StartWith(r.range(0, 9)),
            2 => Op::BufferCount(1 + r.below(3)),
            3 => Op::First,
            4 => Op::Scan(1),
            _ => Op::EndWith(3),
        }]
    } else {
        vec![]
    };
    let mut td = 10;
    let ns = 2 + r.below(18);
    let pt = *r.pick(&[5, 12, 30]);
    let steps = (0..ns).map(|_| gen_act(r, &mut td, false, pt)).collect();
    let mut hooks: BTreeMap<usize, Vec<Act>> = BTreeMap::new();
    if re {
        for _ in 0..(1 + r.below(3)) {
            let at = 1 + r.below(5);
            let n = 1 + r.below(3);
            let v = (0..n).map(|_| gen_act(r, &mut td, true, 25)).collect();
            hooks.insert(at, v);
        }
    }
    let raw = r.chance(1, 2);
    let close_at = if raw && !re && r.chance(1, 5) { Some(1 + r.below(4)) } else { None };
    Case { kind, prefix, keep, down_ops, raw, close_at, steps, hooks }
}

#[derive(Default, Clone)]
struct Side {
    val: Option<Val>,
    q: VecDeque<Msg>,
    completed: bool,
    errored: bool,
    unsub: bool,
}
impl Side {
    fn primed(&self) -> bool {
        self.val.is_some()
    }
    fn closed(&self) -> bool {
        self.completed || self.unsub || self.errored
    }
    fn waiting(&self) -> bool {
        !self.primed() && !self.closed()
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Msg {
    N(Val),
    E(Val),
    C,
    U,
}
/// the scripted source's own state
#[derive(Default, Clone)]
struct SrcM {
    subscribed: bool,
    busy: bool,
    q: VecDeque<Ntf>,
    unsub: bool,
    /// terminal sent
    dead: bool,
    gone: bool,
}
struct Model<'a> {
    c: &'a Case,
    side: [Side; 2],
    src: [SrcM; 2],
    /// the combiner is handling a message
    busy: bool,
    q: VecDeque<(usize, Msg)>,
    down: ChainModel,
    d_busy: bool,
    d_q: VecDeque<Option<Ntf>>,
    d_end: bool,
    fired: usize,
    handle: bool,
}
impl<'a> Model<'a> {
    fn ended(&self) -> bool {
        self.down.is_closed() || self.d_end
    }
    /// with_latest_from shares the destination itself, the others the combiner
    fn deliver(&mut self, n: Option<Ntf>) {
        if self.ended() {
            return;
        }
        if self.c.kind == Kind::Wlf {
            if n.as_ref().is_none_or(|n| n.terminal()) {
                self.d_end = true;
            }
            if self.d_busy {
                self.d_q.push_back(n);
                return;
            }
        }
        self.d_busy = true;
        let mut next = Some(n);
        while let Some(n) = next.take() {
            match n {
                Some(n) => self.down.feed(0, n),
                None => self.down.unsubscribe(),
            }
            while self.fired < self.down.count {
                self.fired += 1;
                if let Some(acts) = self.c.hooks.get(&self.fired) {
                    for a in acts {
                        self.act(a);
                    }
                }
            }
            if self.down.is_closed() {
                self.d_q.clear();
            }
            next = self.d_q.pop_front();
        }
        self.d_busy = false;
    }
    fn msg(&mut self, s: usize, m: Msg) {
        if self.c.kind == Kind::Wlf {
            return self.wlf(s, m);
        }
        if self.busy {
            self.q.push_back((s, m));
            return;
        }
        self.busy = true;
        let mut next = Some((s, m));
        while let Some((s, m)) = next.take() {
            if !self.ended() {
                self.comb(s, m);
            }
            next = self.q.pop_front();
        }
        self.busy = false;
    }
    fn wlf(&mut self, s: usize, m: Msg) {
        if s == 1 {
            let b = &mut self.side[1];
            if b.closed() {
                return;
            }
            match m {
                Msg::N(v) => b.val = Some(v),
                Msg::E(e) => {
                    b.errored = true;
                    self.deliver(Some(Ntf::E(e)))
                }
                Msg::C => {
                    b.completed = true;
                    if !b.primed() {
                        self.deliver(Some(Ntf::C))
                    }
                }
                Msg::U => b.unsub = true,
            }
        } else {
            match m {
                Msg::N(v) => {
                    if let Some(l) = self.side[1].val.clone() {
                        self.deliver(Some(Ntf::N(t("pair", vec![v, l]))))
                    }
                }
                Msg::E(e) => self.deliver(Some(Ntf::E(e))),
                Msg::C => self.deliver(Some(Ntf::C)),
                Msg::U => {
                    self.side[1].unsub = true;
                    self.deliver(None)
                }
            }
        }
    }
    fn comb(&mut self, s: usize, m: Msg) {
        let is_next = matches!(m, Msg::N(_));
        if let Msg::E(e) = m {
            self.side[s].errored = true;
            return self.deliver(Some(Ntf::E(e)));
        }
        if let Kind::Zip(max, oldest) = self.c.kind {
            let q = &mut self.side[s].q;
            if is_next && q.iter().filter(|m| matches!(m, Msg::N(_))).count() >= max {
                if !oldest {
                    return;
                }
                q.pop_front();
            }
            q.push_back(m);
            if self.side.iter().all(|x| matches!(x.q.front(), Some(Msg::N(_)))) {
                let v: Vec<Val> = self.side.iter_mut().map(|x| if let Some(Msg::N(v)) = x.q.pop_front() { v } else { unreachable!() }).collect();
                self.deliver(Some(Ntf::N(t("pair", v))));
            }
            // nothing more can be paired once one input has run dry for good
            if self.side.iter().any(|x| x.q.front() == Some(&Msg::C)) {
                self.deliver(Some(Ntf::C));
            } else if self.side.iter().any(|x| x.q.front() == Some(&Msg::U)) {
                self.deliver(None);
            }
            return;
        }
        let x = &mut self.side[s];
        match m {
            Msg::N(v) => x.val = Some(v),
            Msg::C => x.completed = true,
            _ => x.unsub = true,
        }
        let [a, b] = self.side.clone();
        let both = |v: fn(&Side) -> bool| v(&a) && v(&b);
        match self.c.kind {
            Kind::Latest => {
                let dry = |x: &Side| x.closed() && !x.primed();
                if both(|x| x.completed) || (a.primed() && b.completed && !b.primed()) || (b.primed() && a.completed && !a.primed()) {
                    self.deliver(Some(Ntf::C));
                } else if both(|x| x.closed()) || (dry(&a) && b.waiting()) || (dry(&b) && a.waiting()) {
                    self.deliver(None);
                }
                if is_next && both(|x| x.primed()) {
                    self.deliver(Some(Ntf::N(t("pair", vec![a.val.unwrap(), b.val.unwrap()]))));
                }
            }
            Kind::Changes => {
                if is_next {
                    let ch = |k: usize, x: &Side| match &x.val {
                        None => t("none", vec![]),
                        Some(v) if k == s => t("just", vec![v.clone()]),
                        Some(v) => t("latest", vec![v.clone()]),
                    };
                    let v = t("pair", vec![ch(0, &a), ch(1, &b)]);
                    self.deliver(Some(Ntf::N(v)));
                } else if both(|x| x.completed) {
                    self.deliver(Some(Ntf::C));
                } else if both(|x| x.closed()) {
                    self.deliver(None);
                }
            }
            Kind::Join => {
                if both(|x| x.completed) {
                    if let (Some(x), Some(y)) = (a.val, b.val) {
                        self.deliver(Some(Ntf::N(t("pair", vec![x, y]))));
                    }
                    self.deliver(Some(Ntf::C));
                } else if both(|x| x.closed()) {
                    self.deliver(None);
                }
            }
            _ => unreachable!(),
        }
    }
    // --- the scripted sources
    fn subscribe(&mut self, s: usize) {
        self.src[s].subscribed = true;
        for n in self.c.prefix[s].clone() {
            self.emit(s, n);
        }
    }
    fn sub_closed(&self, s: usize) -> bool {
        self.ended() || (self.c.kind == Kind::Wlf && s == 1 && self.side[1].closed())
    }
    fn emit(&mut self, s: usize, n: Ntf) {
        let x = &mut self.src[s];
        if !x.subscribed || x.gone {
            return;
        }
        if x.busy {
            x.q.push_back(n);
            return;
        }
        x.busy = true;
        let mut next = Some(n);
        while let Some(n) = next.take() {
            if !self.sub_closed(s) && !self.src[s].unsub && !self.src[s].dead {
                let term = n.terminal();
                self.msg(
                    s,
                    match n {
                        Ntf::N(v) => Msg::N(v),
                        Ntf::E(v) => Msg::E(v),
                        Ntf::C => Msg::C,
                    },
                );
                if term {
                    self.src[s].dead = true;
                    if !self.c.keep[s] && !self.sub_closed(s) {
                        self.msg(s, Msg::U);
                        self.src[s].gone = true;
                    }
                }
            }
            next = self.src[s].q.pop_front();
        }
        self.src[s].busy = false;
        if self.src[s].unsub && !self.src[s].gone {
            self.src[s].gone = true;
            self.msg(s, Msg::U);
        }
        if self.sub_closed(s) {
            self.src[s].gone = true;
        }
    }
    fn src_unsub(&mut self, s: usize) {
        if !self.src[s].subscribed || self.src[s].gone {
            return;
        }
        self.src[s].unsub = true;
        if !self.src[s].busy {
            self.src[s].gone = true;
            self.msg(s, Msg::U);
        }
    }
    fn act(&mut self, a: &Act) {
        match a {
            Act::Src(s, n) => self.emit(*s, n.clone()),
            Act::SrcUnsub(s) => self.src_unsub(*s),
            Act::Unsub | Act::DropHandle => {
                if self.handle {
                    self.src_unsub(0);
                    if self.c.kind != Kind::Wlf {
                        self.src_unsub(1);
                    }
                }
            }
            Act::AddTd(_) => {}
        }
    }
}

type H = Option<Box<dyn SubscriptionWithTeardown + Send + Sync>>;
struct World {
    src: [Src; 2],
    handle: Mutex<H>,
}
fn perform(w: &Arc<World>, a: &Act) {
    match a {
        Act::Src(s, n) => w.src[*s].emit(n),
        Act::SrcUnsub(s) => w.src[*s].producer_unsub(),
        Act::Unsub => {
            let h = lock(&w.handle).take();
            if let Some(mut h) = h {
                h.unsubscribe();
                let mut s = lock(&w.handle);
                if s.is_none() {
                    *s = Some(h);
                }
            }
        }
        Act::DropHandle => {
            let h = lock(&w.handle).take();
            drop(h);
        }
        Act::AddTd(id) => {
            let h = lock(&w.handle).take();
            if let Some(mut h) = h {
                let id = *id;
                h.add_teardown(Teardown::new(move || log(Ev::Td(id))));
                *lock(&w.handle) = Some(h);
            }
        }
    }
}
fn build_comb(k: Kind, a: Src, b: Src) -> Obs {
    let pair = |(a, b): (Val, Val)| t("pair", vec![a, b]);
    fn ch(c: Change<Val>) -> Val {
        match c {
            Change::None => t("none", vec![]),
            Change::JustUpdated(v) => t("just", vec![v]),
            Change::Latest(v) => t("latest", vec![v]),
        }
    }
    match k {
        Kind::Latest => combine_latest(a, b).map(pair).erase(),
        Kind::Changes => combine_changes(a, b).map(|(a, b)| t("pair", vec![ch(a), ch(b)])).erase(),
        Kind::Zip(100, true) => zip(a, b).map(pair).erase(),
        Kind::Zip(n, oldest) => zip(a, b)
            .with_options(QueueOverflowOptions {
                max_queue_length: n,
                overflow_behavior: if oldest { QueueOverflowBehavior::DropOldest } else { QueueOverflowBehavior::IgnoreNext },
            })
            .map(pair)
            .erase(),
        Kind::Join => join(a, b).map(pair).erase(),
        Kind::Wlf => a.with_latest_from(b).map(pair).erase(),
    }
}
pub fn run_plain(r: &mut Rng, cx: &mut Ctx) {
    run(r, cx, false)
}
pub fn run_re(r: &mut Rng, cx: &mut Ctx) {
    run(r, cx, true)
}
fn kname(k: Kind) -> &'static str {
    match k {
        Kind::Latest => "combine_latest",
        Kind::Changes => "combine_changes",
        Kind::Zip(..) => "zip",
        Kind::Join => "join",
        Kind::Wlf => "with_latest_from",
    }
}
fn run(r: &mut Rng, cx: &mut Ctx, re: bool) {
    let c = generate(r, re);
    cx.publish(format!("{c:?}"));
    let (fam, prop) = if re { ("comb_re", "C07+C05") } else { ("comb", "C05") };
    let kn = kname(c.kind);
    let mk = |s: usize| {
        let x = Src::new(1 + s as u32, vec![c.prefix[s].clone()], false);
        if c.keep[s] { x.keeping() } else { x }
    };
    let w = Arc::new(World { src: [mk(0), mk(1)], handle: Mutex::new(None) });
    let mut o = build_comb(c.kind, w.src[0].clone(), w.src[1].clone());
    for op in &c.down_ops {
        o = build(op, o);
    }
    let mut m = Model {
        c: &c,
        side: Default::default(),
        src: Default::default(),
        busy: false,
        q: VecDeque::new(),
        down: ChainModel::new(&c.down_ops, c.close_at),
        d_busy: false,
        d_q: VecDeque::new(),
        d_end: false,
        fired: 0,
        handle: false,
    };
    m.down.subscribe();
    let order = if c.kind == Kind::Wlf { [1, 0] } else { [0, 1] };
    for s in order {
        m.subscribe(s);
    }
    m.handle = true;
    let mut cfg = SinkCfg::new(1);
    cfg.close_at = c.close_at;
    if re {
        let hooks = c.hooks.clone();
        let weak = Arc::downgrade(&w);
        cfg.hook = Some(Box::new(move |k, _| {
            if let (Some(acts), Some(w)) = (hooks.get(&k), weak.upgrade()) {
                for a in acts {
                    perform(&w, a);
                }
            }
        }));
    }
    let mut mark = 0;
    let mut was_ended = false;
    let h = subscribe_sink(&mut o, cfg, c.raw);
    *lock(&w.handle) = Some(Box::new(h));
    let mut tds = vec![];
    for step in 0..=c.steps.len() {
        let when;
        if step > 0 {
            set_step(step as u32);
            let a = &c.steps[step - 1];
            when = format!("step {} {:?}", step - 1, a);
            if let Act::AddTd(id) = a {
                if lock(&w.handle).is_some() {
                    tds.push(*id);
                }
            }
            m.act(a);
            perform(&w, a);
            if matches!(a, Act::DropHandle) {
                m.handle = false;
            }
        } else {
            when = "subscribe".into();
        }
        let new = log_from(mark);
        mark += new.len();
        let was_ended = std::mem::replace(&mut was_ended, m.ended());
        let got = sink_events(&new, 1);
        let exp = std::mem::take(&mut m.down.out);
        if got != exp {
            viol(out_props(prop, was_ended, exp.len(), got.len()), format!("{fam} {kn}: output differs from the reference"), format!("{when}: expected {exp:?}, observed {got:?}"));
        }
        for s in 0..2 {
            let open = !w.src[s].open().is_empty();
            let x = &m.src[s];
            let eopen = x.subscribed && !x.gone && !x.unsub && !(x.dead && !c.keep[s]) && !m.sub_closed(s);
            if open != eopen {
                viol(
                    if m.ended() || open { format!("C02+{prop}") } else { prop.into() },
                    format!("{fam} {kn}: input {} {} after {}", s + 1, if open { "still subscribed" } else { "no longer subscribed" }, if m.ended() { "the end" } else { "an event that does not end it" }),
                    when.clone(),
                );
            }
        }
        let hc = lock(&w.handle).as_ref().map(|h| h.is_closed());
        // a handle is also closed once every input is
        let inputs_gone = m.src.iter().all(|x| x.gone || x.dead || x.unsub);
        if let Some(hc) = hc {
            if hc != m.ended() && !inputs_gone {
                viol(format!("C02+{prop}"), format!("{fam} {kn}: subscription closed={hc}, expected {}", m.ended()), when.clone());
            }
        }
        if m.ended() {
            for id in &tds {
                if !log_from(0).iter().any(|(_, e)| *e == Ev::Td(*id)) {
                    viol("C02", format!("{fam} {kn}: client teardown not run at close"), format!("{when} teardown {id}"));
                }
            }
        }
    }
    set_step(1000);
    let h = lock(&w.handle).take();
    drop(h);
    if w.src.iter().any(|s| !s.open().is_empty()) {
        viol("C02", format!("{fam} {kn}: a source is still subscribed after drop"), "end");
    }
    drop(o);
    check_log(fam, c.raw, false, &tds, &[]);
    drop(w);
    if live() != 0 {
        viol("C14", format!("{fam} {kn}: values or callbacks still alive after everything was dropped"), format!("{} tokens", live()));
    }
    let n = log_len() as u64;
    cx.stat("events observed", n);
    cx.stat("outputs observed", sink_events(&log_from(0), 1).len() as u64);
    if re {
        cx.stat("nested actions performed", c.hooks.iter().filter(|(k, _)| **k <= m.fired).map(|(_, v)| v.len() as u64).sum());
        cx.nontrivial = c.hooks.keys().any(|k| *k <= m.fired);
    } else {
        cx.nontrivial = n >= 6;
    }
    cx.fp = fp_log() ^ crate::runner::fam_no(&format!("{:?}", c.kind));
}
