//! S7: retry and catch, nested in one another, with operators around them.
use crate::fam_ho::SubscriptionWithTeardown;
use crate::fam_linear::*;
use crate::ops::*;
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use rx_core::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Node {
    Src(usize),
    Pipe(Box<Node>, Vec<Op>),
    Retry(Box<Node>, usize),
    Catch(Box<Node>, Vec<Node>),
}
#[derive(Clone, Debug)]
enum Act {
    Emit(usize, Ntf),
    SrcUnsub(usize),
    Unsub,
    DropHandle,
    AddTd(u32),
}
#[derive(Clone, Debug)]
pub struct Case {
    tree: Node,
    down_ops: Vec<Op>,
    /// per source, per subscription
    prefix: Vec<Vec<Vec<Ntf>>>,
    keep: Vec<bool>,
    raw: bool,
    close_at: Option<usize>,
    steps: Vec<Act>,
    hooks: BTreeMap<usize, Vec<Act>>,
}
/// operators that report closed as soon as they are through, cutting off a recovery further down;
/// known finding, see fam_scn.rs
fn closes_early(o: &Op) -> bool {
    matches!(o, Op::Take(_) | Op::First | Op::Find(_) | Op::FindIndex(_) | Op::ElementAt(_) | Op::ElementAtOr(..) | Op::IsEmpty | Op::CompSTE(..))
}
fn ops_small(r: &mut Rng, max: usize) -> Vec<Op> {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| loop {
            let o = if r.chance(1, 2) {
                match r.below(8) {
                    0 => Op::Map(r.range(0, 5)),
                    1 => Op::Take(1 + r.below(4)),
                    2 => Op::Scan(1),
                    3 => Op::StartWith(r.range(0, 9)),
                    4 => Op::EndWith(r.range(0, 9)),
                    5 => Op::BufferCount(1 + r.below(3)),
                    6 => Op::IntoLift(r.u64() % 8),
                    _ => Op::MatDemat(r.u64() % 8),
                }
            } else {
                gen_op(r, 50)
            };
            if !matches!(o, Op::Finalize(_) | Op::IntoResult | Op::IntoLift(_) | Op::ErrBoundary | Op::MatDemat(_) | Op::Materialize | Op::Take(0) | Op::CompSTE(_, 0, _)) {
                break o;
            }
        })
        .collect()
}
fn gen_node(r: &mut Rng, depth: usize, ns: &mut usize) -> Node {
    let leaf = |r: &mut Rng, ns: &mut usize| {
        *ns += 1;
        let s = Node::Src(*ns - 1);
        let ops = if r.chance(1, 3) { ops_small(r, 2) } else { vec![] };
        if ops.is_empty() { s } else { Node::Pipe(Box::new(s), ops) }
    };
    if depth == 0 || (*ns > 0 && r.chance(1, 3)) {
        return leaf(r, ns);
    }
    let inner = gen_node(r, depth - 1, ns);
    let n = match r.below(5) {
        0..=2 => Node::Retry(Box::new(inner), *r.pick(&[0, 0, 1, 1, 2, 2, 3, 5])),
        _ => {
            let k = 1 + r.below(2);
            let alts = (0..k).map(|_| gen_node(r, depth - 1, ns)).collect();
            Node::Catch(Box::new(inner), alts)
        }
    };
    let ops = if r.chance(1, 4) { ops_small(r, 1) } else { vec![] };
    if ops.is_empty() { n } else { Node::Pipe(Box::new(n), ops) }
}
fn unnest(n: &mut Node) {
    while let Node::Retry(i, _) = n {
        *n = std::mem::replace(&mut **i, Node::Src(0));
    }
    match n {
        Node::Src(_) => {}
        Node::Pipe(i, _) | Node::Retry(i, _) => unnest(i),
        Node::Catch(i, alts) => {
            unnest(i);
            alts.iter_mut().for_each(unnest);
        }
    }
}
fn prune(n: &mut Node, above: bool) {
    // a recovered recovery is cut off by the recovery before it; known finding, see fam_scn.rs
    while let (Node::Catch(i, _), true) = (&mut *n, above) {
        *n = std::mem::replace(&mut **i, Node::Src(0));
    }
    match n {
        Node::Src(_) => {}
        Node::Pipe(i, ops) => {
            if above {
                ops.retain(|o| !closes_early(o));
            }
            prune(i, above)
        }
        Node::Retry(i, _) => {
            // the known extra attempt multiplies when nested
            unnest(i);
            prune(i, above)
        }
        Node::Catch(i, alts) => {
            prune(i, true);
            for a in alts {
                prune(a, above);
            }
        }
    }
}
/// sources feeding a catch from above must stay subscribed after their error, as the library's own do
fn mark_keep(n: &Node, above: bool, keep: &mut Vec<bool>) {
    match n {
        Node::Src(k) => keep[*k] |= above,
        Node::Pipe(i, _) | Node::Retry(i, _) => mark_keep(i, above, keep),
        Node::Catch(i, alts) => {
            mark_keep(i, true, keep);
            for a in alts {
                mark_keep(a, above, keep);
            }
        }
    }
}
fn gen_act(r: &mut Rng, ns: usize, td: &mut u32, nested: bool) -> Act {
    let k = r.below(ns);
    match r.below(100) {
        0..=49 => Act::Emit(k, Ntf::N(i(100 * (k as i64 + 1) + r.range(0, 30)))),
        50..=76 => Act::Emit(k, Ntf::E(t("e", vec![i(r.range(0, 20))]))),
        77..=85 => Act::Emit(k, Ntf::C),
        86..=87 if !nested => Act::SrcUnsub(k),
        88..=90 => Act::Unsub,
        91 if !nested => Act::DropHandle,
        92..=93 if !nested => {
            *td += 1;
            Act::AddTd(*td)
        }
        _ => Act::Emit(k, Ntf::N(i(r.range(0, 9)))),
    }
}
fn generate(r: &mut Rng) -> Case {
    let mut ns;
    let d = 1 + r.below(2);
    let mut tree = loop {
        ns = 0;
        let t = gen_node(r, d, &mut ns);
        if ns <= 6 {
            break t;
        }
    };
    prune(&mut tree, false);
    let mut keep: Vec<bool> = (0..ns).map(|_| r.chance(1, 2)).collect();
    mark_keep(&tree, false, &mut keep);
    let prefix = (0..ns)
        .map(|k| {
            if r.chance(1, 4) {
                return vec![];
            }
            let m = 1 + r.below(4);
            (0..m)
                .map(|j| {
                    let n = if r.chance(1, 2) { 0 } else { r.below(4) };
                    let mut v: Vec<Ntf> = (0..n).map(|x| Ntf::N(i(1000 * (k as i64 + 1) + 10 * j as i64 + x as i64))).collect();
                    match r.below(10) {
                        0..=4 => v.push(Ntf::E(t("pe", vec![i(r.range(0, 20)), i(j as i64)]))),
                        5 => v.push(Ntf::C),
                        _ => {}
                    }
                    v
                })
                .collect()
        })
        .collect();
    let down_ops = if r.chance(1, 3) { ops_small(r, 1) } else { vec![] };
    let mut td = 10;
    let n = 2 + r.below(18);
    let steps = (0..n).map(|_| gen_act(r, ns, &mut td, false)).collect();
    let mut hooks = BTreeMap::new();
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(3) {
            let at = 1 + r.below(6);
            let n = 1 + r.below(2);
            hooks.insert(at, (0..n).map(|_| gen_act(r, ns, &mut td, true)).collect());
        }
    }
    let raw = r.chance(1, 2);
    Case {
        tree,
        down_ops,
        prefix,
        keep,
        raw,
        close_at: if raw && hooks.is_empty() && r.chance(1, 5) { Some(1 + r.below(5)) } else { None },
        steps,
        hooks,
    }
}

// ---------------------------------------------------------------------------------------------
enum Kind {
    Src { k: usize, n: u32, dead: bool, busy: bool, unsub: bool, q: VecDeque<Ntf> },
    Pipe { chain: ChainModel },
    Retry { retries: usize, max: usize, starting: bool, caught: Option<Val> },
    Catch { caught: bool },
}
struct Inst<'a> {
    node: &'a Node,
    parent: Option<usize>,
    kids: Vec<usize>,
    kind: Kind,
    closed: bool,
}
struct Model<'a> {
    c: &'a Case,
    quirk: bool,
    /// when closing from within a notification takes effect: 0 at once, 1 once the recovery has
    /// been subscribed to, 2 at the end of the outer call, 3 after the notification of the outermost source, 4 after that of the
    /// innermost
    late: u8,
    pending: bool,
    depth: usize,
    /// the quirk made a difference
    quirked: bool,
    ins: Vec<Inst<'a>>,
    subs: Vec<u32>,
    down: ChainModel,
    closed: bool,
    fired: usize,
    sub_log: Vec<(u32, u32)>,
    handle: bool,
    d_busy: bool,
    /// the handle was unsubscribed while the sink was busy
    d_q: VecDeque<Option<Ntf>>,
    d_end: bool,
}
impl<'a> Model<'a> {
    fn new(c: &'a Case, quirk: bool, late: u8) -> Self {
        Model {
            c,
            quirk,
            late,
            pending: false,
            depth: 0,
            quirked: false,
            ins: vec![],
            subs: vec![0; c.prefix.len()],
            down: ChainModel::new(&c.down_ops, c.close_at),
            closed: false,
            fired: 0,
            sub_log: vec![],
            handle: false,
            d_busy: false,
            d_q: VecDeque::new(),
            d_end: false,
        }
    }
    fn start(&mut self) {
        self.down.subscribe();
        self.fire();
        if self.down.is_closed() {
            self.closed = true;
        }
        self.subscribe(&self.c.tree, None);
    }
    fn fire(&mut self) {
        while self.fired < self.down.count {
            self.fired += 1;
            if let Some(acts) = self.c.hooks.get(&self.fired) {
                for a in acts {
                    self.act(a);
                }
            }
        }
    }
    fn ended(&self) -> bool {
        self.closed || self.d_end || self.down.is_closed()
    }
    fn dead_from(&self, p: Option<usize>) -> bool {
        match p {
            None => self.ended(),
            Some(x) => self.ins[x].closed || self.dead_from(self.ins[x].parent),
        }
    }
    fn subscribe(&mut self, node: &'a Node, parent: Option<usize>) {
        let id = self.ins.len();
        let kind = match node {
            Node::Src(k) => Kind::Src { k: *k, n: 0, dead: false, busy: false, unsub: false, q: VecDeque::new() },
            Node::Pipe(_, ops) => {
                let mut chain = ChainModel::new(ops, None);
                chain.subscribe();
                Kind::Pipe { chain }
            }
            Node::Retry(_, n) => Kind::Retry { retries: 0, max: *n, starting: true, caught: None },
            Node::Catch(..) => Kind::Catch { caught: false },
        };
        self.ins.push(Inst { node, parent, kids: vec![], kind, closed: false });
        if let Some(p) = parent {
            self.ins[p].kids.push(id);
        }
        match node {
            Node::Src(k) => {
                let n = self.subs[*k];
                self.subs[*k] += 1;
                if let Kind::Src { n: m, .. } = &mut self.ins[id].kind {
                    *m = n;
                }
                let pre = {
                    let p = &self.c.prefix[*k];
                    if p.is_empty() { vec![] } else { p[(n as usize).min(p.len() - 1)].clone() }
                };
                if self.dead_from(Some(id)) {
                    self.ins[id].closed = true;
                } else {
                    self.sub_log.push((10 + *k as u32, n));
                }
                for p in pre {
                    self.emit(id, p);
                }
            }
            Node::Pipe(inner, _) => {
                self.drain(id);
                self.subscribe(inner, Some(id));
            }
            Node::Catch(inner, _) => self.subscribe(inner, Some(id)),
            Node::Retry(inner, max) => {
                loop {
                    self.subscribe(inner, Some(id));
                    let Kind::Retry { caught, retries, .. } = &mut self.ins[id].kind else { unreachable!() };
                    match caught.take() {
                        Some(e) => {
                            if *retries == *max {
                                self.out(id, Ntf::E(e));
                                break;
                            }
                            *retries += 1;
                            if self.dead_from(Some(id)) {
                                break;
                            }
                            self.close_kids(id);
                        }
                        None => break,
                    }
                }
                if let Kind::Retry { starting, .. } = &mut self.ins[id].kind {
                    *starting = false;
                }
            }
        }
    }
    fn close_kids(&mut self, id: usize) {
        for k in std::mem::take(&mut self.ins[id].kids) {
            self.close(k);
        }
    }
    /// everything at and above is unsubscribed
    fn close(&mut self, id: usize) {
        self.ins[id].closed = true;
        self.close_kids(id);
    }
    /// `id` ends without a terminal notification
    fn gone(&mut self, id: usize) {
        if self.ins[id].closed {
            return;
        }
        self.close(id);
        match self.ins[id].parent {
            None => self.unsub_down(),
            Some(p) => {
                if let Kind::Pipe { chain } = &mut self.ins[p].kind {
                    chain.unsubscribe();
                }
                self.gone(p)
            }
        }
    }
    fn unsub_down(&mut self) {
        if self.d_busy {
            self.d_end = true;
            self.d_q.push_back(None);
        } else {
            self.closed = true;
            self.down.unsubscribe();
        }
    }
    fn out(&mut self, id: usize, n: Ntf) {
        if self.dead_from(Some(id)) {
            return;
        }
        let term = n.terminal();
        match self.ins[id].parent {
            None => self.deliver(n),
            Some(p) => self.input(p, n),
        }
        if term {
            self.close(id);
        }
    }
    fn deliver(&mut self, n: Ntf) {
        if self.closed || self.d_end {
            return;
        }
        if n.terminal() {
            self.d_end = true;
        }
        if self.d_busy {
            self.d_q.push_back(Some(n));
            return;
        }
        self.d_busy = true;
        let mut next = Some(Some(n));
        while let Some(n) = next.take() {
            match n {
                Some(n) => self.down.feed(0, n),
                None => self.down.unsubscribe(),
            }
            self.fire();
            if self.down.is_closed() {
                self.d_q.clear();
            }
            next = self.d_q.pop_front();
        }
        self.d_busy = false;
        if self.down.is_closed() {
            self.closed = true;
        }
    }
    fn drain(&mut self, id: usize) {
        let Kind::Pipe { chain } = &mut self.ins[id].kind else { return };
        for n in std::mem::take(&mut chain.out) {
            self.out(id, n);
        }
    }
    fn input(&mut self, id: usize, n: Ntf) {
        if self.ins[id].closed {
            return;
        }
        let node = self.ins[id].node;
        match (&mut self.ins[id].kind, n) {
            (Kind::Pipe { chain }, n) => {
                chain.feed(0, n);
                self.drain(id);
            }
            (Kind::Retry { starting: true, caught, .. }, Ntf::E(e)) => {
                *caught = Some(e);
            }
            (Kind::Retry { .. }, Ntf::E(e)) => self.retry_later(id, e),
            (Kind::Catch { caught }, Ntf::E(e)) if !*caught => {
                *caught = true;
                self.close_kids(id);
                let Node::Catch(_, alts) = node else { unreachable!() };
                let k = (e.h() % alts.len() as u64) as usize;
                self.subscribe(&alts[k], Some(id));
            }
            (_, n) => self.out(id, n),
        }
    }
    /// an attempt fails after `subscribe` has returned
    fn retry_later(&mut self, id: usize, e: Val) {
        let Node::Retry(inner, _) = self.ins[id].node else { unreachable!() };
        let mut error = e;
        let Kind::Retry { retries, max, starting, .. } = &mut self.ins[id].kind else { unreachable!() };
        let (mut rt, max) = (*retries, *max);
        *starting = true;
        let limit = if self.quirk { max + 1 } else { max };
        let mut live = false;
        while rt < limit {
            rt += 1;
            if rt > max {
                self.quirked = true;
            }
            self.close_kids(id);
            self.subscribe(inner, Some(id));
            let Kind::Retry { caught, .. } = &mut self.ins[id].kind else { unreachable!() };
            match caught.take() {
                Some(e) => error = e,
                None => {
                    live = true;
                    break;
                }
            }
            if self.dead_from(Some(id)) {
                break;
            }
        }
        let Kind::Retry { retries, starting, .. } = &mut self.ins[id].kind else { unreachable!() };
        *retries = rt;
        *starting = false;
        if !live || rt > max {
            self.out(id, Ntf::E(error));
        }
    }
    fn emit(&mut self, id: usize, n: Ntf) {
        {
            let Kind::Src { busy, q, .. } = &mut self.ins[id].kind else { return };
            if *busy {
                q.push_back(n);
                return;
            }
            *busy = true;
        }
        let mut next = Some(n);
        while let Some(n) = next.take() {
            let gone = self.dead_from(Some(id));
            let Kind::Src { k, dead, unsub, .. } = &mut self.ins[id].kind else { return };
            if !*dead && !*unsub && !gone {
                let term = n.terminal();
                let keep = self.c.keep[*k];
                if term {
                    // what it emits next is ignored
                    *dead = true;
                }
                self.depth += 1;
                match self.ins[id].parent {
                    None => self.deliver(n),
                    Some(p) => self.input(p, n),
                }
                self.depth -= 1;
                if (self.late == 4 || self.late == 3 && self.depth == 0) && std::mem::take(&mut self.pending) {
                    self.unsub_down();
                }
                if term && !keep {
                    let e = !self.ins[id].closed;
                    if e {
                        match self.ins[id].parent {
                            // a retry ignores the end of an attempt that failed
                            Some(p) if matches!(self.ins[p].kind, Kind::Retry { .. }) => self.close(id),
                            _ => self.src_gone(id),
                        }
                    }
                }
            }
            let Kind::Src { q, .. } = &mut self.ins[id].kind else { return };
            next = q.pop_front();
        }
        let Kind::Src { busy, unsub, .. } = &mut self.ins[id].kind else { return };
        *busy = false;
        if *unsub && !self.ins[id].closed {
            self.gone(id);
        }
    }
    /// the source unsubscribes after its terminal; a failed attempt is not ended by that
    fn src_gone(&mut self, id: usize) {
        let mut p = self.ins[id].parent;
        while let Some(x) = p {
            if let Kind::Retry { caught: Some(_), .. } = &self.ins[x].kind {
                self.close(id);
                return;
            }
            p = self.ins[x].parent;
        }
        self.gone(id);
    }
    fn act(&mut self, a: &Act) {
        match a {
            Act::Emit(k, n) => {
                for x in self.cells(*k) {
                    let Kind::Src { busy, .. } = &self.ins[x].kind else { continue };
                    if !self.ins[x].closed || *busy {
                        self.emit(x, n.clone());
                    }
                }
            }
            Act::SrcUnsub(k) => {
                for x in self.cells(*k) {
                    let Kind::Src { busy, unsub, dead, .. } = &mut self.ins[x].kind else { continue };
                    if *dead {
                        continue;
                    }
                    *unsub = true;
                    if !*busy {
                        self.gone(x);
                    }
                }
            }
            Act::Unsub | Act::DropHandle => {
                if self.handle {
                    if self.late >= 2 && self.d_busy {
                        self.pending = true;
                        return;
                    }
                    match self.busy_root() {
                        // takes effect once the outer call returns
                        Some(x) => {
                            let Kind::Src { unsub, .. } = &mut self.ins[x].kind else { unreachable!() };
                            *unsub = true;
                        }
                        None => self.unsub_down(),
                    }
                }
            }
            Act::AddTd(_) => {}
        }
    }
    /// the source whose subscription is the handle, if it is in the middle of being recovered from
    fn busy_root(&self) -> Option<usize> {
        let mut x = 0;
        let mut caught = false;
        loop {
            match (&self.ins[x].kind, self.ins[x].node) {
                (Kind::Src { busy, .. }, _) => return (caught && *busy && self.late == 1).then_some(x),
                (Kind::Catch { caught: true }, _) => caught = true,
                (Kind::Retry { .. }, _) => return None,
                _ => {}
            }
            x = (x + 1..self.ins.len()).find(|y| self.ins[*y].parent == Some(x))?;
        }
    }
    fn cells(&self, k: usize) -> Vec<usize> {
        (0..self.ins.len()).filter(|x| matches!(self.ins[*x].kind, Kind::Src { k: y, .. } if y == k)).collect()
    }
    fn open(&self) -> Vec<(u32, u32)> {
        let mut v: Vec<_> = (0..self.ins.len())
            .filter_map(|x| match &self.ins[x].kind {
                Kind::Src { k, n, dead: false, .. } if !self.dead_from(Some(x)) => Some((10 + *k as u32, *n)),
                _ => None,
            })
            .collect();
        v.sort();
        v
    }
}

// ---------------------------------------------------------------------------------------------
fn build_tree(n: &Node, srcs: &[Src]) -> Obs {
    match n {
        Node::Src(k) => srcs[*k].clone().erase(),
        Node::Pipe(i, ops) => {
            let mut o = build_tree(i, srcs);
            for op in ops {
                o = build(op, o);
            }
            o
        }
        Node::Retry(i, n) => build_tree(i, srcs).retry(*n).erase(),
        Node::Catch(i, alts) => {
            let alts = alts.clone();
            let srcs = srcs.to_vec();
            let tok = Tok::counted();
            build_tree(i, &srcs)
                .catch({
                    let srcs = srcs.clone();
                    move |e: Val| {
                        let _t = &tok;
                        build_tree(&alts[(e.h() % alts.len() as u64) as usize], &srcs)
                    }
                })
                .erase()
        }
    }
}
type H = Option<Box<dyn SubscriptionWithTeardown + Send + Sync>>;
struct World {
    srcs: Vec<Src>,
    handle: Mutex<H>,
}
fn perform(w: &Arc<World>, a: &Act) {
    match a {
        Act::Emit(k, n) => w.srcs[*k].emit(n),
        Act::SrcUnsub(k) => {
            for c in w.srcs[*k].cells() {
                if !c.is_dead() {
                    c.producer_unsub();
                }
            }
        }
        Act::Unsub => {
            let h = lock(&w.handle).take();
            if let Some(mut h) = h {
                h.unsubscribe();
                let mut s = lock(&w.handle);
                if s.is_none() {
                    *s = Some(h);
                }
            }
        }
        Act::DropHandle => drop(lock(&w.handle).take()),
        Act::AddTd(id) => {
            let h = lock(&w.handle).take();
            if let Some(mut h) = h {
                let id = *id;
                h.add_teardown(Teardown::new(move || log(Ev::Td(id))));
                *lock(&w.handle) = Some(h);
            }
        }
    }
}
struct Obsd {
    when: String,
    out: Vec<Ntf>,
    subs: Vec<(u32, u32)>,
    open: Vec<(u32, u32)>,
    closed: Option<bool>,
    ended: bool,
}
impl Obsd {
    /// the first thing that differs
    fn diff(&self, o: &Obsd) -> Option<(&'static str, &'static str, String)> {
        if self.out != o.out {
            return Some(("C11", "output differs from the reference", format!("expected {:?}, observed {:?}", self.out, o.out)));
        }
        if self.subs != o.subs {
            return Some(("C11", "subscriptions to the sources differ from the reference", format!("expected {:?}, observed {:?}", self.subs, o.subs)));
        }
        if self.open != o.open {
            let p = if self.ended { "C02+C11" } else { "C11" };
            return Some((p, "wrong set of subscribed sources", format!("expected {:?}, observed {:?}", self.open, o.open)));
        }
        match (self.closed, o.closed) {
            (Some(a), Some(b)) if a != b => Some(("C02+C11", "subscription reports the wrong closed state", format!("expected {a}, observed {b}"))),
            _ => None,
        }
    }
}
fn simulate(c: &Case, quirk: bool, late: u8) -> (Vec<Obsd>, bool, usize) {
    let mut m = Model::new(c, quirk, late);
    let mut v = vec![];
    m.start();
    m.handle = true;
    for s in 0..=c.steps.len() {
        if s > 0 {
            m.act(&c.steps[s - 1]);
            if matches!(c.steps[s - 1], Act::DropHandle) {
                m.handle = false;
            }
        }
        if std::mem::take(&mut m.pending) {
            m.unsub_down();
        }
        let ended = m.ended();
        v.push(Obsd {
            when: String::new(),
            out: std::mem::take(&mut m.down.out),
            subs: std::mem::take(&mut m.sub_log),
            open: m.open(),
            closed: Some(ended),
            ended,
        });
    }
    (v, m.quirked, m.fired)
}

pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let c = generate(r);
    cx.publish(format!("{c:?}"));
    let srcs: Vec<Src> = (0..c.prefix.len())
        .map(|k| {
            let s = Src::new(10 + k as u32, c.prefix[k].clone(), false);
            if c.keep[k] { s.keeping() } else { s }
        })
        .collect();
    let mut o = build_tree(&c.tree, &srcs);
    for op in &c.down_ops {
        o = build(op, o);
    }
    let w = Arc::new(World { srcs, handle: Mutex::new(None) });
    let mut cfg = SinkCfg::new(1);
    cfg.close_at = c.close_at;
    if !c.hooks.is_empty() {
        let hooks = c.hooks.clone();
        let weak = Arc::downgrade(&w);
        cfg.hook = Some(Box::new(move |k, _| {
            if let (Some(acts), Some(w)) = (hooks.get(&k), weak.upgrade()) {
                for a in acts {
                    perform(&w, a);
                }
            }
        }));
    }
    let (exp, _, fired) = simulate(&c, false, 0);
    let h = subscribe_sink(&mut o, cfg, c.raw);
    *lock(&w.handle) = Some(Box::new(h));
    let mut tds = vec![];
    let mut mark = 0;
    let mut seen: Vec<Obsd> = vec![];
    for step in 0..=c.steps.len() {
        let mut when = "subscribe".to_string();
        if step > 0 {
            set_step(step as u32);
            let a = &c.steps[step - 1];
            when = format!("step {} {:?}", step - 1, a);
            if let Act::AddTd(id) = a {
                if lock(&w.handle).is_some() {
                    tds.push(*id);
                }
            }
            perform(&w, a);
        }
        let new = log_from(mark);
        mark += new.len();
        let mut open: Vec<(u32, u32)> = w
            .srcs
            .iter()
            .flat_map(|s| {
                let id = lock(&s.0).id;
                s.cells().into_iter().filter(|x| !x.is_closed() && !x.is_dead()).map(move |x| (id, x.n))
            })
            .collect();
        open.sort();
        seen.push(Obsd {
            when,
            out: sink_events(&new, 1),
            subs: new.iter().filter_map(|(_, e)| if let Ev::SrcSub(a, b, false) = e { Some((*a, *b)) } else { None }).collect(),
            open,
            closed: lock(&w.handle).as_ref().map(|h| h.is_closed()),
            ended: false,
        });
    }
    let first = |exp: &[Obsd]| exp.iter().zip(&seen).find_map(|(e, s)| e.diff(s).map(|d| (s.when.clone(), d)));
    let mut known = false;
    let mut exp = exp;
    if let Some((when, (p, what, d))) = first(&exp) {
        let nested = c.hooks.values().flatten().any(|a| matches!(a, Act::Unsub));
        let mut found = None;
        for (quirk, late) in [(false, 1), (false, 2), (false, 3), (false, 4), (true, 0), (true, 1), (true, 2), (true, 3), (true, 4)] {
            if late > 0 && !nested {
                continue;
            }
            let (alt, q, _) = simulate(&c, quirk, late);
            if q == quirk && first(&alt).is_none() {
                found = Some((alt, q));
                break;
            }
        }
        match found {
            Some((alt, q)) => {
                known = q;
                exp = alt;
                if q {
                    viol("C11", "rc: one attempt more than allowed when the last allowed attempt fails after subscribe returned", format!("{when}: {d}"));
                }
            }
            None => viol(p, format!("rc: {what}"), format!("{when}: {d}")),
        }
    }
    set_step(1000);
    let ended = exp.last().is_some_and(|e| e.ended);
    if ended {
        for id in &tds {
            if !log_from(0).iter().any(|(_, e)| *e == Ev::Td(*id)) {
                viol("C02", "rc: client teardown not run at close", format!("teardown {id}"));
            }
        }
        if w.srcs.iter().any(|s| !s.open().is_empty()) {
            viol("C02", "rc: a source is still subscribed after the end", "end");
        }
    }
    drop(lock(&w.handle).take());
    if w.srcs.iter().any(|s| !s.open().is_empty()) {
        viol("C02", "rc: a source is still subscribed after drop", "end");
    }
    drop(o);
    let has_ops = format!("{:?}", c.tree).contains("Pipe") || !c.down_ops.is_empty();
    check_log("rc", c.raw && has_ops, false, &tds, &[]);
    drop(w);
    if live() != 0 {
        viol("C14", "rc: values or callbacks still alive after everything was dropped", format!("{} tokens", live()));
    }
    let n = log_len() as u64;
    let subs = log_from(0).iter().filter(|(_, e)| matches!(e, Ev::SrcSub(_, _, false))).count() as u64;
    cx.stat("events observed", n);
    cx.stat("attempts and recoveries", subs.saturating_sub(1));
    cx.stat("cases with the known extra attempt", known as u64);
    cx.stat("nested actions performed", c.hooks.iter().filter(|(k, _)| **k <= fired).map(|(_, v)| v.len() as u64).sum());
    cx.nontrivial = subs >= 2 && n >= 5;
    cx.fp = fp_log() ^ crate::runner::fam_no(&format!("{:?}", c.tree));
}
