//! S10: observables, subjects and subscriptions living on entities of an App, with operations between
//! frames and inside them. The model is a sequential interpreter of the same history.
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use bevy_app::{App, AppExit, PostUpdate, PreUpdate, SpawnScene, Update};
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_time::{Time, Virtual};
use rx_bevy_common::*;
use rx_core::prelude::{BehaviorSubject, PublishSubject, ReplaySubject};
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

const FAM: &str = "app";

#[derive(Clone, Debug, PartialEq)]
enum OK {
    Src,
    Pub,
    Beh,
    Rep,
}
#[derive(Clone, Debug)]
enum Dst {
    /// close itself at the k-th notification
    Full(Option<usize>),
    Plain,
    Ent(usize, usize),
    Res(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Route {
    Cmd,
    EntDest,
    EntSub,
    EntRev,
    Query,
    With,
    AsObs(usize),
}
#[derive(Clone, Debug)]
enum Op {
    Ins(usize),
    Rem(usize),
    Desp(usize),
    Sub(usize),
    Emit(usize, Ntf),
    /// a signal event on entity t; directly or through commands
    Sig(usize, Ntf, bool),
    DespSub(usize),
    CmdUnsub(usize),
    CompUnsub(usize),
    RemComp(usize),
    HUnsub(usize),
    HDrop(usize),
    InsRes,
    RemRes,
    Exit,
    /// something to run when entity t goes away
    Sat(usize),
    /// the n-th such thing: its entity goes away; it is detached from the entity it watches
    SatDesp(usize),
    SatDetach(usize),
}
#[derive(Clone, Debug)]
struct SubSpec {
    k: usize,
    dst: Dst,
    route: Route,
}
#[derive(Clone, Debug)]
struct Case {
    obs: Vec<(OK, Vec<Vec<Ntf>>)>,
    dests: usize,
    subs: Vec<SubSpec>,
    /// on the n-th signal of entity t: operations through commands
    react: Option<(usize, usize, Vec<Op>)>,
    frames: Vec<Frame>,
}
#[derive(Clone, Debug)]
struct Frame {
    out: Vec<(u32, Op)>,
    first: u32,
    pre: Vec<(u32, Op)>,
    upd: u32,
    mid: Vec<(u32, Op)>,
    post: u32,
    /// check of entities after the frame
    exit: bool,
}

fn gen_ntf(r: &mut Rng, k: usize) -> Ntf {
    match r.below(k) {
        0 => Ntf::C,
        1 => Ntf::E(i(90 + r.range(0, 2))),
        _ => Ntf::N(i(r.range(0, 9))),
    }
}
fn generate(r: &mut Rng, big: bool) -> Case {
    let no = 1 + r.below(3);
    let dests = 1 + r.below(3);
    let obs: Vec<(OK, Vec<Vec<Ntf>>)> = (0..no)
        .map(|_| {
            let kind = r.pick(&[OK::Src, OK::Src, OK::Pub, OK::Pub, OK::Beh, OK::Rep]).clone();
            let pre = if kind == OK::Src && r.chance(1, 2) {
                (0..1 + r.below(2))
                    .map(|_| {
                        let mut v: Vec<Ntf> = (0..r.below(3)).map(|_| Ntf::N(i(r.range(0, 9)))).collect();
                        if r.chance(1, 3) {
                            v.push(if r.chance(1, 2) { Ntf::C } else { Ntf::E(i(91)) });
                        }
                        v
                    })
                    .collect()
            } else {
                vec![]
            };
            (kind, pre)
        })
        .collect();
    let nsub = 1 + r.below(if big { 7 } else { 5 });
    let subs: Vec<SubSpec> = (0..nsub)
        .map(|_| {
            let k = r.below(no);
            let dst = match r.below(9) {
                0..=2 => Dst::Full(if r.chance(1, 4) { Some(1 + r.below(3)) } else { None }),
                3 => Dst::Plain,
                4..=7 => {
                    // only towards later entities, so that signals do not run in circles
                    let t = k + 1 + r.below(no + dests - k - 1);
                    Dst::Ent(t, r.below(2))
                }
                _ => Dst::Res(r.below(2)),
            };
            let route = match &dst {
                Dst::Ent(..) => *r.pick(&[Route::Cmd, Route::EntDest, Route::EntSub, Route::EntRev, Route::EntSub, Route::EntRev, Route::Query, Route::With, Route::AsObs(0)]),
                _ => *r.pick(&[Route::Cmd, Route::Cmd, Route::EntDest, Route::Query, Route::With, Route::AsObs(0), Route::AsObs(1)]),
            };
            SubSpec { k, dst, route }
        })
        .collect();
    let nf = 1 + r.below(if big { 7 } else { 5 });
    let mut step = 1;
    let mut left: Vec<usize> = (0..nsub).collect();
    let mut frames = vec![];
    let late = r.chance(1, 4);
    let mut started: Vec<usize> = vec![];
    let mut inserted: Vec<usize> = vec![];
    let mut first = true;
    let ops = |r: &mut Rng, left: &mut Vec<usize>, started: &mut Vec<usize>, inserted: &mut Vec<usize>, first: bool, step: &mut u32| {
        let mut v = vec![];
        let n = r.below(4) + if first { 2 } else { 0 };
        if first && !late {
            for k in 0..no {
                v.push(Op::Ins(k));
                inserted.push(k);
            }
        }
        for _ in 0..n {
            let pick_sub = |r: &mut Rng, s: &Vec<usize>| if s.is_empty() { None } else { Some(*r.pick(s)) };
            match r.below(24) {
                0..=5 if !left.is_empty() => {
                    let s = left.remove(r.below(left.len()));
                    started.push(s);
                    v.push(Op::Sub(s));
                }
                6 if late || r.chance(1, 6) => {
                    let k = r.below(no);
                    v.push(Op::Ins(k));
                    inserted.push(k);
                }
                0..=12 => v.push(Op::Emit(r.below(no), gen_ntf(r, 14))),
                13..=15 => v.push(Op::Sig(if r.chance(3, 4) { r.below(no) } else { r.below(no + dests) }, gen_ntf(r, 14), r.chance(1, 2))),
                16 | 17 => {
                    if let Some(s) = pick_sub(r, started) {
                        v.push(match r.below(7) {
                            0 => Op::DespSub(s),
                            1 => Op::CmdUnsub(s),
                            2 => Op::CompUnsub(s),
                            3 => Op::RemComp(s),
                            4 | 5 => Op::HUnsub(s),
                            _ => Op::HDrop(s),
                        });
                    }
                }
                18 if r.chance(1, 2) => v.push(Op::Rem(r.below(no))),
                19 if r.chance(1, 3) => v.push(Op::Desp(r.below(no + dests))),
                20 if r.chance(1, 4) => v.push(Op::RemRes),
                21 if r.chance(1, 4) => v.push(Op::InsRes),
                21 => v.push(Op::Sat(r.below(no + dests))),
                22 if r.chance(1, 3) => v.push(if r.chance(1, 2) { Op::SatDesp(r.below(3)) } else { Op::SatDetach(r.below(3)) }),
                _ => v.push(Op::Emit(r.below(no), Ntf::N(i(r.range(0, 9))))),
            }
        }
        v.into_iter()
            .map(|o| {
                *step += 1;
                (*step, o)
            })
            .collect::<Vec<_>>()
    };
    for _ in 0..nf {
        let out = ops(r, &mut left, &mut started, &mut inserted, first, &mut step);
        first = false;
        step += 1;
        let first = step;
        let pre = if r.chance(1, 2) { ops(r, &mut left, &mut started, &mut inserted, false, &mut step) } else { vec![] };
        step += 1;
        let upd = step;
        let mid = if r.chance(1, 2) { ops(r, &mut left, &mut started, &mut inserted, false, &mut step) } else { vec![] };
        step += 1;
        frames.push(Frame { out, first, pre, upd, mid, post: step, exit: false });
    }
    // signals written last still have to arrive
    for _ in 0..2 {
        step += 1;
        let first = step;
        step += 1;
        let upd = step;
        step += 1;
        frames.push(Frame { out: vec![], first, pre: vec![], upd, mid: vec![], post: step, exit: false });
    }
    if !late && r.chance(1, 4) {
        let f = frames.last_mut().unwrap();
        f.out.push((f.first - 1, Op::Exit));
        f.exit = true;
    }
    let only_src = obs.iter().all(|o| o.0 == OK::Src) || subs.iter().all(|s| subs.iter().filter(|t| t.k == s.k).count() == 1);
    let react = if only_src && r.chance(1, 3) {
        let t = r.below(no + dests);
        let mut v = vec![];
        for _ in 0..1 + r.below(2) {
            v.push(match r.below(6) {
                0 => Op::DespSub(r.below(nsub)),
                1 => Op::CmdUnsub(r.below(nsub)),
                2 => Op::Sig(t.min(no + dests - 2) + 1, gen_ntf(r, 14), true),
                3 => Op::Rem(r.below(no)),
                4 if t > 0 => Op::Desp(r.below(t)),
                _ => Op::Desp(r.below(no + dests)),
            });
        }
        // a signal back to the same entity would react again only once
        Some((t, 1 + r.below(3), v))
    } else {
        None
    };
    Case { obs, dests, subs, react, frames }
}

// ---------------------------------------------------------------------------------------------
// The model
#[derive(Clone, PartialEq, Debug)]
enum St {
    None,
    Pending(u8),
    Active,
    Closed,
}
struct MSub {
    st: St,
    ent: bool,
    comp: bool,
    dclosed: bool,
    count: usize,
    handle: bool,
    /// despawn of the entity queued for: executor 0 (Update), 1 (PostUpdate), 2 (Last)
    desp: [bool; 3],
    cell: Option<u32>,
}
struct MObs {
    alive: bool,
    comp: bool,
    made: bool,
    nsubs: u32,
    unsub: bool,
    term: Option<Ntf>,
    vals: VecDeque<Val>,
    /// active subscriptions in order
    order: Vec<usize>,
}
struct Model {
    c: Case,
    obs: Vec<MObs>,
    dalive: Vec<bool>,
    subs: Vec<MSub>,
    q: [VecDeque<(usize, Ntf)>; 2],
    retry: Vec<usize>,
    res: bool,
    log: Vec<(u32, Ev)>,
    step: u32,
    sigs: Vec<usize>,
    reacted: bool,
    nq: usize,
    /// watched entity, still attached
    sats: Vec<(usize, bool)>,
}
impl Model {
    fn new(c: &Case) -> Self {
        Model {
            c: c.clone(),
            obs: c
                .obs
                .iter()
                .map(|_| MObs { alive: true, comp: false, made: false, nsubs: 0, unsub: false, term: None, vals: VecDeque::new(), order: vec![] })
                .collect(),
            dalive: vec![true; c.dests],
            subs: c
                .subs
                .iter()
                .map(|_| MSub { st: St::None, ent: false, comp: false, dclosed: false, count: 0, handle: false, desp: [false; 3], cell: None })
                .collect(),
            q: Default::default(),
            retry: vec![],
            res: true,
            log: vec![],
            step: 0,
            sigs: vec![0; c.obs.len() + c.dests],
            reacted: false,
            nq: 0,
            sats: vec![],
        }
    }
    fn ev(&mut self, e: Ev) {
        self.log.push((self.step, e));
    }
    fn ent_alive(&self, t: usize) -> bool {
        if t < self.obs.len() { self.obs[t].alive } else { self.dalive[t - self.obs.len()] }
    }
    fn close_dst(&mut self, s: usize) {
        if self.subs[s].dclosed {
            return;
        }
        self.subs[s].dclosed = true;
        if let Dst::Full(_) = self.c.subs[s].dst {
            self.ev(Ev::SinkClosed(s as u32));
        }
        if self.subs[s].st == St::Active {
            self.closed(s);
        }
    }
    /// the subscription has closed
    fn closed(&mut self, s: usize) {
        self.subs[s].st = St::Closed;
        let k = self.c.subs[s].k;
        self.obs[k].order.retain(|x| *x != s);
        if let Some(n) = self.subs[s].cell {
            self.ev(Ev::SrcTd(k as u32, n));
        }
        if self.subs[s].comp {
            self.subs[s].desp[2] = true;
        }
        if let Route::AsObs(x) = self.c.subs[s].route {
            self.subs[s].desp[x] = true;
        }
    }
    fn deliver(&mut self, s: usize, n: &Ntf) {
        if self.subs[s].dclosed {
            return;
        }
        self.subs[s].count += 1;
        let mut close = n.terminal();
        match self.c.subs[s].dst.clone() {
            Dst::Full(at) => {
                self.ev(Ev::Sink(s as u32, n.clone()));
                close |= at == Some(self.subs[s].count);
            }
            Dst::Plain => self.ev(Ev::Sink(s as u32, n.clone())),
            Dst::Ent(t, x) => self.q[x].push_back((t, n.clone())),
            Dst::Res(x) => self.q[x].push_back((1000 + s, n.clone())),
        }
        self.nq += 1;
        if close {
            self.close_dst(s);
        }
    }
    fn push(&mut self, k: usize, n: &Ntf) {
        match self.c.obs[k].0 {
            OK::Src => {
                for s in self.obs[k].order.clone() {
                    self.deliver(s, n);
                }
            }
            _ => {
                if self.obs[k].unsub || self.obs[k].term.is_some() {
                    return;
                }
                if let Ntf::N(v) = n {
                    match self.c.obs[k].0 {
                        OK::Beh => self.obs[k].vals = [v.clone()].into(),
                        OK::Rep => {
                            self.obs[k].vals.push_back(v.clone());
                            if self.obs[k].vals.len() > 2 {
                                self.obs[k].vals.pop_front();
                            }
                        }
                        _ => {}
                    }
                } else {
                    self.obs[k].term = Some(n.clone());
                }
                for s in self.obs[k].order.clone() {
                    self.deliver(s, n);
                }
            }
        }
    }
    /// the observable's own subscribe; true if the subscription is still open afterwards
    fn attach(&mut self, s: usize) -> bool {
        let k = self.c.subs[s].k;
        self.subs[s].st = St::Active;
        if self.c.obs[k].0 == OK::Src {
            let n = self.obs[k].nsubs;
            self.obs[k].nsubs += 1;
            self.subs[s].cell = Some(n);
            self.ev(Ev::SrcSub(k as u32, n, self.subs[s].dclosed));
            self.obs[k].order.push(s);
            if self.subs[s].dclosed {
                self.closed(s);
                return false;
            }
            let p = &self.c.obs[k].1;
            let p = if p.is_empty() { vec![] } else { p[(n as usize).min(p.len() - 1)].clone() };
            for x in p {
                self.deliver(s, &x);
            }
        } else {
            if self.subs[s].dclosed {
                self.closed(s);
                return false;
            }
            let o = &self.obs[k];
            let err = matches!(o.term, Some(Ntf::E(_)));
            let rep: Vec<Val> = if self.c.obs[k].0 == OK::Pub || err { vec![] } else { o.vals.iter().cloned().collect() };
            let (term, unsub) = (o.term.clone(), o.unsub);
            for v in rep {
                self.deliver(s, &Ntf::N(v));
            }
            if let Some(t) = term {
                self.deliver(s, &t);
            }
            if unsub {
                self.close_dst(s);
            }
            if self.subs[s].st == St::Active {
                self.obs[k].order.push(s);
            }
        }
        self.subs[s].st == St::Active
    }
    fn try_attach(&mut self, s: usize, left: u8) {
        let k = self.c.subs[s].k;
        if !self.subs[s].ent {
            // nobody is interested any more
            self.subs[s].st = St::None;
            self.close_dst(s);
            self.subs[s].st = St::Closed;
        } else if self.obs[k].comp {
            if self.attach(s) {
                self.subs[s].comp = true;
            } else {
                self.subs[s].ent = false;
            }
        } else if left > 0 {
            self.subs[s].st = St::Pending(left - 1);
            self.retry.push(s);
        } else {
            self.subs[s].st = St::None;
            self.close_dst(s);
            self.subs[s].st = St::Closed;
        }
    }
    fn signal(&mut self, t: usize, n: &Ntf) {
        if !self.ent_alive(t) {
            return;
        }
        self.ev(Ev::Sink(100 + t as u32, n.clone()));
        self.sigs[t] += 1;
        if t < self.obs.len() && self.obs[t].comp && self.c.obs[t].0 != OK::Src {
            self.push(t, n);
        }
        if let Some((rt, at, ops)) = self.c.react.clone() {
            if rt == t && at == self.sigs[t] && !self.reacted {
                self.reacted = true;
                for o in &ops {
                    self.op(o);
                }
            }
        }
    }
    fn op(&mut self, o: &Op) {
        match o {
            Op::Ins(k) => {
                if self.obs[*k].alive {
                    self.obs[*k].comp = true;
                    self.obs[*k].made = true;
                    if self.c.obs[*k].0 != OK::Src {
                        let ob = &mut self.obs[*k];
                        // subscribers of a subject that was replaced stay with it
                        ob.order.clear();
                        ob.term = None;
                        ob.unsub = false;
                        ob.vals.clear();
                        if self.c.obs[*k].0 == OK::Beh {
                            ob.vals.push_back(i(-1));
                        }
                    }
                }
            }
            Op::Rem(k) => self.rem(*k),
            Op::Sat(t) => {
                if self.ent_alive(*t) {
                    self.sats.push((*t, true));
                }
            }
            Op::SatDesp(n) | Op::SatDetach(n) => self.sat(*n),
            Op::Desp(t) => {
                for n in 0..self.sats.len() {
                    if self.sats[n].0 == *t {
                        self.sat(n);
                    }
                }
                if *t < self.obs.len() {
                    if self.obs[*t].alive {
                        self.rem(*t);
                        self.obs[*t].alive = false;
                    }
                } else {
                    self.dalive[*t - self.obs.len()] = false;
                }
            }
            Op::Sub(s) => {
                let k = self.c.subs[*s].k;
                match self.c.subs[*s].route {
                    Route::With if !self.obs[k].made => self.close_dst(*s),
                    Route::With => {
                        self.subs[*s].ent = true;
                        self.subs[*s].handle = true;
                        self.subs[*s].comp = true;
                        self.attach(*s);
                    }
                    Route::Query => {
                        if self.obs[k].comp {
                            self.subs[*s].ent = true;
                            self.try_attach(*s, 3);
                        } else {
                            self.close_dst(*s);
                            self.subs[*s].st = St::Closed;
                        }
                    }
                    x => {
                        self.subs[*s].ent = true;
                        self.subs[*s].handle = matches!(x, Route::AsObs(_));
                        self.try_attach(*s, 3);
                    }
                }
            }
            Op::Emit(k, n) => self.push(*k, n),
            Op::Sig(t, n, _) => self.signal(*t, n),
            Op::DespSub(s) | Op::CmdUnsub(s) => {
                let x = &mut self.subs[*s];
                x.ent = false;
                if x.comp {
                    x.comp = false;
                    self.close_dst(*s);
                }
            }
            Op::CompUnsub(s) => {
                if self.subs[*s].ent && self.subs[*s].comp {
                    self.close_dst(*s);
                }
            }
            Op::RemComp(s) => {
                if self.subs[*s].ent && self.subs[*s].comp {
                    self.close_dst(*s);
                    self.subs[*s].comp = false;
                }
            }
            Op::HUnsub(s) => {
                if self.subs[*s].handle {
                    if let Route::AsObs(x) = self.c.subs[*s].route {
                        if !self.subs[*s].dclosed {
                            self.subs[*s].desp[x] = true;
                        }
                    }
                    self.close_dst(*s);
                }
            }
            Op::HDrop(s) => self.subs[*s].handle = false,
            Op::InsRes => self.res = true,
            Op::RemRes => self.res = false,
            Op::Exit => {}
        }
    }
    fn sat(&mut self, n: usize) {
        if n < self.sats.len() && self.sats[n].1 {
            self.sats[n].1 = false;
            self.ev(Ev::Td(n as u32));
        }
    }
    fn rem(&mut self, k: usize) {
        if self.obs[k].comp {
            self.obs[k].comp = false;
            if self.c.obs[k].0 != OK::Src {
                self.obs[k].unsub = true;
                for s in self.obs[k].order.clone() {
                    self.close_dst(s);
                }
            }
        }
    }
    fn tick(&mut self, x: usize) {
        let items: Vec<(usize, Ntf)> = self.q[x].drain(..).collect();
        let mut cmds = vec![];
        for (t, n) in items {
            if t >= 1000 {
                if self.res {
                    self.ev(Ev::Sink(200 + (t - 1000) as u32, n));
                }
            } else if self.ent_alive(t) {
                cmds.push((t, n));
            }
        }
        for (t, n) in cmds {
            self.signal(t, &n);
        }
        self.despawns(x);
    }
    fn despawns(&mut self, x: usize) {
        for s in 0..self.subs.len() {
            if self.subs[s].desp[x] {
                self.subs[s].desp[x] = false;
                if self.subs[s].ent {
                    self.subs[s].ent = false;
                    self.subs[s].comp = false;
                }
            }
        }
    }
    fn frame_first(&mut self) {
        let rs = std::mem::take(&mut self.retry);
        for s in rs {
            if let St::Pending(left) = self.subs[s].st {
                self.try_attach(s, left);
            }
        }
    }
    fn frame_last(&mut self, exit: bool) {
        for s in 0..self.subs.len() {
            // a subscription that found no observable does not outlive the frame
            if self.subs[s].ent && !self.subs[s].comp && matches!(self.subs[s].st, St::Pending(_)) {
                self.subs[s].ent = false;
            }
        }
        self.despawns(2);
        if exit {
            for s in 0..self.subs.len() {
                if self.subs[s].comp {
                    self.close_dst(s);
                }
            }
            for n in 0..self.sats.len() {
                self.sat(n);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The real thing
#[derive(Resource)]
struct Res0;
#[derive(Resource, Clone)]
struct Drv(Arc<Mutex<Hs>>);
#[derive(Clone)]
enum Subj {
    Src(Src),
    P(PublishSubject<Val, Val>),
    B(BehaviorSubject<Val, Val>),
    R(ReplaySubject<2, Val, Val>),
}
struct Hs {
    c: Case,
    frame: usize,
    srcs: Vec<Src>,
    subj: Vec<Option<Subj>>,
    ents: Vec<Entity>,
    sub_ent: Vec<Option<Entity>>,
    handles: Vec<Option<EntitySubscription>>,
    sched: [SchedulerHandle<RxBevyScheduler>; 3],
    sigs: Vec<usize>,
    reacted: bool,
    sats: Vec<Entity>,
}
fn hs(w: &World) -> Arc<Mutex<Hs>> {
    w.resource::<Drv>().0.clone()
}
fn do_sub<D>(w: &mut World, h: &Arc<Mutex<Hs>>, s: usize, d: D)
where
    D: 'static + UpgradeableObserver<In = Val, InError = Val> + Send + Sync,
{
    let (spec, ent, subj, sched) = {
        let g = lock(h);
        let spec = g.c.subs[s].clone();
        (spec.clone(), g.ents[spec.k], g.subj[spec.k].clone(), g.sched.clone())
    };
    let mut handle = None;
    let e;
    match spec.route {
        Route::EntDest => e = Some(w.commands().entity(ent).subscribe_destination(d)),
        Route::Query => {
            let mut st = SystemState::<ObservableQuery<Val, Val>>::new(w);
            let mut q = st.get_mut(w);
            e = q.try_subscribe_to(ent, d).ok();
            st.apply(w);
        }
        Route::With => {
            let mut c = w.commands();
            let x = match subj {
                Some(Subj::Src(o)) => c.with_observable(o, sched[2].clone()).subscribe(d),
                Some(Subj::P(o)) => c.with_observable(o, sched[2].clone()).subscribe(d),
                Some(Subj::B(o)) => o.with_commands(c, sched[2].clone()).subscribe(d),
                Some(Subj::R(o)) => o.with_commands(c, sched[2].clone()).subscribe(d),
                None => return,
            };
            e = Some(x.entity());
            handle = Some(x);
        }
        Route::AsObs(x) => {
            let x = w.commands().entity(ent).as_observable::<Val, Val>(sched[x].clone()).subscribe(d);
            e = Some(x.entity());
            handle = Some(x);
        }
        _ => e = Some(w.commands().subscribe(ent, d)),
    }
    {
        let mut g = lock(h);
        g.sub_ent[s] = e;
        g.handles[s] = handle;
    }
    w.flush();
}
fn exec(w: &mut World, o: &Op) {
    let h = hs(w);
    match o {
        Op::Ins(k) => {
            let ent = lock(&h).ents[*k];
            if w.get_entity(ent).is_err() {
                return;
            }
            let (kind, src) = {
                let g = lock(&h);
                (g.c.obs[*k].0.clone(), g.srcs[*k].clone())
            };
            let new = match kind {
                OK::Src => {
                    w.commands().entity(ent).insert(ObservableComponent::new(src.clone()));
                    Subj::Src(src)
                }
                OK::Pub => {
                    let x = PublishSubject::<Val, Val>::default();
                    w.commands().entity(ent).insert(x.clone().into_component());
                    Subj::P(x)
                }
                OK::Beh => {
                    let x = BehaviorSubject::<Val, Val>::new(i(-1));
                    w.commands().entity(ent).insert(SubjectComponent::new(x.clone()));
                    Subj::B(x)
                }
                OK::Rep => {
                    let x = ReplaySubject::<2, Val, Val>::default();
                    w.commands().entity(ent).insert(x.clone().into_component());
                    Subj::R(x)
                }
            };
            w.flush();
            lock(&h).subj[*k] = Some(new);
        }
        Op::Rem(k) => {
            let (ent, kind) = {
                let g = lock(&h);
                (g.ents[*k], g.c.obs[*k].0.clone())
            };
            let mut c = w.commands();
            if let Ok(mut c) = c.get_entity(ent) {
                match kind {
                    OK::Src => c.remove::<ObservableComponent<Src>>(),
                    OK::Pub => c.remove::<SubjectComponent<PublishSubject<Val, Val>>>(),
                    OK::Beh => c.remove::<SubjectComponent<BehaviorSubject<Val, Val>>>(),
                    OK::Rep => c.remove::<SubjectComponent<ReplaySubject<2, Val, Val>>>(),
                };
            }
            w.flush();
        }
        Op::Desp(t) => {
            let ent = lock(&h).ents[*t];
            w.commands().entity(ent).try_despawn();
            w.flush();
        }
        Op::Sub(s) => {
            let (spec, ents, sched) = {
                let g = lock(&h);
                (g.c.subs[*s].clone(), g.ents.clone(), g.sched.clone())
            };
            match spec.dst {
                Dst::Full(at) => {
                    let mut cfg = SinkCfg::new(*s as u32);
                    cfg.close_at = at;
                    do_sub(w, &h, *s, Sink::new(cfg))
                }
                Dst::Plain => do_sub(w, &h, *s, ObsSink::new(SinkCfg::new(*s as u32))),
                Dst::Ent(t, x) => {
                    let e = match spec.route {
                        Route::EntSub => w.commands().entity(ents[spec.k]).subscribe::<Val, Val>(ents[t], sched[x].clone()),
                        Route::EntRev => w.commands().entity(ents[t]).subscribes_to_observable_entity::<Val, Val>(ents[spec.k], sched[x].clone()),
                        _ => return do_sub(w, &h, *s, EntityDestination::<Val, Val>::new(ents[t], sched[x].clone())),
                    };
                    lock(&h).sub_ent[*s] = Some(e);
                    w.flush();
                }
                Dst::Res(x) => {
                    let id = 200 + *s as u32;
                    do_sub(
                        w,
                        &h,
                        *s,
                        ResourceDestination::new(
                            move |_r: Mut<'_, Res0>, n: ObserverNotification<Val, Val>| {
                                log(Ev::Sink(
                                    id,
                                    match n {
                                        ObserverNotification::Next(v) => Ntf::N(v.plain()),
                                        ObserverNotification::Error(v) => Ntf::E(v.plain()),
                                        ObserverNotification::Complete => Ntf::C,
                                    },
                                ))
                            },
                            sched[x].clone(),
                        ),
                    )
                }
            }
        }
        Op::Emit(k, n) => {
            let s = lock(&h).subj[*k].clone();
            fn put<S: RxObserver<In = Val, InError = Val>>(s: &mut S, n: &Ntf) {
                match n.counted() {
                    Ntf::N(v) => s.next(v),
                    Ntf::E(v) => s.error(v),
                    Ntf::C => s.complete(),
                }
            }
            match s {
                Some(Subj::Src(s)) => s.emit(n),
                Some(Subj::P(mut s)) => put(&mut s, n),
                Some(Subj::B(mut s)) => put(&mut s, n),
                Some(Subj::R(mut s)) => put(&mut s, n),
                None => {}
            }
            w.flush();
        }
        Op::Sig(t, n, via) => {
            let ent = lock(&h).ents[*t];
            let ev = match n.counted() {
                Ntf::N(v) => RxSignal::<Val, Val>::new_next(v, ent),
                Ntf::E(v) => RxSignal::<Val, Val>::new_error(v, ent),
                Ntf::C => RxSignal::<Val, Val>::new_complete(ent),
            };
            if *via {
                w.commands().trigger(ev);
            } else {
                w.trigger(ev);
            }
            w.flush();
        }
        Op::DespSub(s) => {
            if let Some(e) = lock(&h).sub_ent[*s] {
                w.commands().entity(e).try_despawn();
            }
            w.flush();
        }
        Op::CmdUnsub(s) => {
            if let Some(e) = lock(&h).sub_ent[*s] {
                w.commands().unsubscribe(e);
            }
            w.flush();
        }
        Op::CompUnsub(s) => {
            let e = lock(&h).sub_ent[*s];
            if let Some(e) = e {
                if let Ok(mut x) = w.get_entity_mut(e) {
                    if let Some(mut c) = x.get_mut::<SubscriptionComponent>() {
                        c.unsubscribe();
                        if !c.is_closed() {
                            viol("C15", format!("{FAM}: subscription component reports open after unsubscribe"), format!("sub {s}"));
                        }
                    }
                }
            }
            w.flush();
        }
        Op::RemComp(s) => {
            let e = lock(&h).sub_ent[*s];
            if let Some(e) = e {
                w.commands().entity(e).try_remove::<SubscriptionComponent>();
            }
            w.flush();
        }
        Op::HUnsub(s) => {
            let x = lock(&h).handles[*s].take();
            if let Some(mut x) = x {
                x.unsubscribe();
                if !x.is_closed() {
                    viol("C15", format!("{FAM}: handle reports open after unsubscribe"), format!("sub {s}"));
                }
                lock(&h).handles[*s] = Some(x);
            }
            w.flush();
        }
        Op::HDrop(s) => {
            let x = lock(&h).handles[*s].take();
            drop(x);
        }
        Op::Sat(t) => {
            let mut g = lock(&h);
            let ent = g.ents[*t];
            if w.get_entity(ent).is_ok() {
                let n = g.sats.len() as u32;
                let tok = Tok::counted();
                let td = Teardown::new(move || {
                    let _t = tok;
                    log(Ev::Td(n))
                });
                let b = if n % 2 == 0 {
                    SubscriptionSatellite::new_with_teardown(ent, td)
                } else {
                    {
                        let mut x = SharedSubscription::default();
                        x.add_teardown(td);
                        SubscriptionSatellite::new(ent, x)
                    }
                };
                g.sats.push(w.commands().spawn(b).id());
            }
            drop(g);
            w.flush();
        }
        Op::SatDesp(n) => {
            if let Some(e) = lock(&h).sats.get(*n) {
                w.commands().entity(*e).try_despawn();
            }
            w.flush();
        }
        Op::SatDetach(n) => {
            if let Some(e) = lock(&h).sats.get(*n) {
                w.commands().entity(*e).try_remove::<SubscriptionSatelliteOf>();
            }
            w.flush();
        }
        Op::InsRes => w.insert_resource(Res0),
        Op::RemRes => {
            w.remove_resource::<Res0>();
        }
        Op::Exit => {
            w.write_message(AppExit::Success);
        }
    }
}
fn run_ops(w: &mut World, ops: &[(u32, Op)]) {
    for (st, o) in ops {
        set_step(*st);
        exec(w, o);
    }
}

fn pre_sys(w: &mut World) {
    let h = hs(w);
    let f = {
        let g = lock(&h);
        g.c.frames[g.frame].clone()
    };
    run_ops(w, &f.pre);
    set_step(f.upd);
}
fn mid_sys(w: &mut World) {
    let h = hs(w);
    let f = {
        let g = lock(&h);
        g.c.frames[g.frame].clone()
    };
    run_ops(w, &f.mid);
    set_step(f.post);
}

pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let big = cx.thorough && r.chance(1, 3);
    let c = generate(r, big);
    // `With` needs the observable itself, which exists only once it was inserted
    let c = {
        let mut c = c;
        let mut have = vec![false; c.obs.len()];
        for f in &mut c.frames {
            for v in [&mut f.out, &mut f.pre, &mut f.mid] {
                for (_, o) in v.iter_mut() {
                    match o {
                        Op::Ins(k) => have[*k] = true,
                        Op::Sub(s) if c.subs[*s].route == Route::With && !have[c.subs[*s].k] => c.subs[*s].route = Route::Cmd,
                        _ => {}
                    }
                }
            }
        }
        c
    };
    cx.publish(format!("{c:?}"));
    let mut m = Model::new(&c);
    let mut app = App::new();
    app.init_resource::<Time<Virtual>>();
    app.add_plugins((RxPlugin, RxSchedulerPlugin::<Update, Virtual>::default(), RxSchedulerPlugin::<PostUpdate, Virtual>::default()));
    app.add_systems(PreUpdate, pre_sys);
    app.add_systems(SpawnScene, mid_sys);
    app.insert_resource(Res0);
    let w = app.world_mut();
    let sched = [
        SystemState::<RxSchedule<Update, Virtual>>::new(w).get_mut(w).handle(),
        SystemState::<RxSchedule<PostUpdate, Virtual>>::new(w).get_mut(w).handle(),
        SystemState::<RxScheduleDespawn>::new(w).get_mut(w).handle(),
    ];
    let n = c.obs.len() + c.dests;
    let h = Arc::new(Mutex::new(Hs {
        c: c.clone(),
        frame: 0,
        srcs: c.obs.iter().enumerate().map(|(k, o)| Src::new(k as u32, o.1.clone(), false)).collect(),
        subj: vec![None; c.obs.len()],
        ents: vec![],
        sub_ent: vec![None; c.subs.len()],
        handles: c.subs.iter().map(|_| None).collect(),
        sched,
        sigs: vec![0; n],
        reacted: false,
        sats: vec![],
    }));
    w.insert_resource(Drv(h.clone()));
    for t in 0..n {
        let h2 = h.clone();
        let e = w
            .spawn_empty()
            .observe(move |on: On<RxSignal<Val, Val>>, mut commands: Commands| {
                let n = match on.event().signal() {
                    ObserverNotification::Next(v) => Ntf::N(v.plain()),
                    ObserverNotification::Error(v) => Ntf::E(v.plain()),
                    ObserverNotification::Complete => Ntf::C,
                };
                log(Ev::Sink(100 + t as u32, n));
                let ops = {
                    let mut g = lock(&h2);
                    g.sigs[t] += 1;
                    match g.c.react.clone() {
                        Some((rt, at, ops)) if rt == t && at == g.sigs[t] && !g.reacted => {
                            g.reacted = true;
                            ops
                        }
                        _ => vec![],
                    }
                };
                for o in ops {
                    commands.queue(move |w: &mut World| exec(w, &o));
                }
            })
            .id();
        lock(&h).ents.push(e);
    }
    w.flush();

    for (fi, f) in c.frames.iter().enumerate() {
        lock(&h).frame = fi;
        for (st, o) in &f.out {
            m.step = *st;
            m.op(o);
        }
        m.step = f.first;
        m.frame_first();
        for (st, o) in &f.pre {
            m.step = *st;
            m.op(o);
        }
        m.step = f.upd;
        m.tick(0);
        for (st, o) in &f.mid {
            m.step = *st;
            m.op(o);
        }
        m.step = f.post;
        m.tick(1);
        m.frame_last(f.exit);

        run_ops(app.world_mut(), &f.out);
        set_step(f.first);
        app.update();
        set_step(f.post);
        compare(&m, fi);
        if !take_nothing() {
            break;
        }
        // what can be asked from outside
        let w = app.world();
        let g = lock(&h);
        for s in 0..c.subs.len() {
            if m.subs[s].st == St::None && !m.subs[s].ent && g.sub_ent[s].is_none() {
                continue;
            }
            if f.exit {
                if let Some(x) = g.sub_ent[s].and_then(|e| w.get_entity(e).ok()).and_then(|e| e.get::<SubscriptionComponent>().map(|x| x.is_closed())) {
                    if !x {
                        viol("C15", format!("{FAM}: subscription open after the app exits"), format!("sub {s} frame {fi}"));
                    }
                }
                continue;
            }
            if let Some(e) = g.sub_ent[s] {
                let got = w.get_entity(e).ok();
                if got.is_some() != m.subs[s].ent {
                    let what = if m.subs[s].ent { "an open subscription's entity is gone" } else { "entity of a closed subscription still exists after the frame" };
                    viol("C15", format!("{FAM}: {what} ({:?})", c.subs[s].route), format!("sub {s} frame {fi}"));
                }
                if let Some(x) = got {
                    let comp = x.get::<SubscriptionComponent>();
                    if comp.is_some() != m.subs[s].comp {
                        viol("C15", format!("{FAM}: subscription component present: {}, expected {}", comp.is_some(), m.subs[s].comp), format!("sub {s} frame {fi}"));
                    }
                    if let Some(x) = comp {
                        if x.is_closed() != (m.subs[s].st == St::Closed) {
                            viol("C15", format!("{FAM}: subscription component reports closed: {}", x.is_closed()), format!("sub {s} frame {fi} model {:?}", m.subs[s].st));
                        }
                    }
                    cx.stat("subscription_entities_checked", 1);
                }
            }
            if let Some(x) = &g.handles[s] {
                if x.is_closed() != m.subs[s].dclosed {
                    viol("C15", format!("{FAM}: handle reports closed: {}", x.is_closed()), format!("sub {s} frame {fi}"));
                }
            }
        }
    }
    let lg = log_from(0);
    for (_, e) in &lg {
        match e {
            Ev::Late(s, n) => viol("C15+C01", format!("{FAM}: closed destination notified"), format!("sub {s} {n:?}")),
            Ev::Sink(..) => cx.stat("notifications_compared", 1),
            Ev::SrcTd(..) | Ev::Td(..) => cx.stat("teardowns_checked", 1),
            _ => {}
        }
    }
    cx.stat("frames", c.frames.len() as u64);
    cx.nontrivial = lg.iter().filter(|e| matches!(e.1, Ev::Sink(..))).count() >= 4;
    cx.fp = lg.iter().fold(7, |a: u64, e| (a ^ h_of(&e.1)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(9));
}
fn h_of(e: &Ev) -> u64 {
    format!("{e:?}").bytes().fold(0xcbf29ce484222325, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3))
}
fn take_nothing() -> bool {
    with(|r| r.viols.is_empty())
}
/// per destination and per source: exact sequence with the step it happened in
fn compare(m: &Model, fi: usize) {
    let key = |e: &Ev| match e {
        Ev::Sink(s, _) | Ev::SinkClosed(s) => Some(format!("d{s}")),
        Ev::SrcSub(s, ..) => Some(format!("s{s}")),
        Ev::SrcTd(s, n) => Some(format!("t{s}.{n}")),
        Ev::Td(n) => Some(format!("x{n}")),
        _ => None,
    };
    let split = |l: &[(u32, Ev)]| {
        let mut b: BTreeMap<String, Vec<(u32, Ev)>> = BTreeMap::new();
        for (st, e) in l {
            if let Some(k) = key(e) {
                b.entry(k).or_default().push((*st, e.clone()));
            }
        }
        b
    };
    let got = split(&log_from(0));
    let exp = split(&m.log);
    let keys: std::collections::BTreeSet<&String> = got.keys().chain(exp.keys()).collect();
    for k in keys {
        let (e, g) = (exp.get(k).cloned().unwrap_or_default(), got.get(k).cloned().unwrap_or_default());
        if e == g {
            continue;
        }
        let at = e.iter().zip(g.iter()).take_while(|(a, b)| a == b).count();
        let what = match (e.get(at), g.get(at)) {
            (Some(_), None) => "missing",
            (None, Some(_)) => "extra",
            (Some(a), Some(b)) if a.1 == b.1 => "at the wrong moment",
            _ => "different",
        };
        let (prop, kind) = match &k[..1] {
            "d" => {
                let id: usize = k[1..].parse().unwrap();
                let closing = matches!(e.get(at).or(g.get(at)), Some((_, Ev::SinkClosed(_))));
                if closing {
                    ("C15", "closing of a destination".to_string())
                } else if id >= 200 {
                    ("C15+C18", "resource destination".to_string())
                } else if id >= 100 {
                    ("C15+C18", "signal on an entity".to_string())
                } else {
                    ("C15+C18", "notification of a subscriber".to_string())
                }
            }
            "x" => ("C15", "teardown of a subscription satellite".to_string()),
            "s" => ("C15", "subscription of the observable".to_string()),
            _ => ("C15", "teardown of the observable".to_string()),
        };
        viol(prop, format!("{FAM}: {kind} {what}"), format!("{k} after frame {fi}: expected {:?}, got {:?} (position {at})", &e[at..], &g[at..]));
    }
}
