//! S13: observables of the engine itself - events, messages, keys, resources and other entities - observed
//! by many subscriptions, on two schedulers, while the world changes between and within frames.
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use bevy_app::{App, PostUpdate, PreUpdate, SpawnScene, Update};
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_input::{ButtonInput, keyboard::KeyCode};
use bevy_time::{Time, Virtual};
use rx_bevy_common::*;
use rx_bevy_observable_event::observable::EventObservable;
use rx_bevy_observable_keyboard::observable::{KeyboardObservable, KeyboardObservableEmit, KeyboardObservableOptions};
use rx_bevy_observable_message::observable::MessageObservable;
use rx_bevy_observable_proxy::observable::{EntityCommandAsProxyObservableExtension, ProxyObservable};
use rx_bevy_observable_resource::observable::{ResourceObservable, ResourceObservableOptions};
use rx_core::prelude::PublishSubject;
use rx_core::{Observable, ObserverInput, ObserverUpgradesToSelf, PrimaryCategorySubscriber, RxObserver, Signal, SubscriptionLike, Teardown, TeardownCollection, WithPrimaryCategory};
use rx_core_common::Never;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

const FAM: &str = "src";
const KEYS: [KeyCode; 5] = [KeyCode::KeyA, KeyCode::KeyB, KeyCode::Space, KeyCode::Enter, KeyCode::F1];
fn key_ix(k: KeyCode) -> i64 {
    KEYS.iter().position(|x| *x == k).map(|x| x as i64).unwrap_or(-1)
}

#[derive(Message, Clone)]
struct Msg(i64, #[allow(dead_code)] Tok);
#[derive(EntityEvent, Clone)]
struct Evt {
    entity: Entity,
    v: i64,
}
#[derive(Resource)]
struct Rsc(i64);

#[derive(Clone, Debug, PartialEq)]
enum K {
    /// events of entity
    Evt(usize),
    Msg,
    /// 0 just pressed, 1 just released, 2 while pressed
    Key(u8),
    /// on added, on changed
    Rsc(bool, bool),
    /// through entity; bool: made by commands
    Proxy(usize, bool),
}
#[derive(Clone, Debug)]
struct ObsSpec {
    k: K,
    sched: usize,
}
#[derive(Clone, Debug)]
struct SubSpec {
    o: usize,
    close_at: Option<usize>,
    plain: bool,
}
#[derive(Clone, Debug)]
enum Op {
    Sub(usize),
    Unsub(usize),
    Drop(usize),
    Evt(usize, i64, bool),
    Msg(i64),
    Press(usize),
    Release(usize),
    ClearKeys,
    ResetKey(usize),
    SetRsc(i64),
    TouchRsc,
    PeekRsc(i64),
    InsRsc(i64),
    RemRsc,
    Emit(usize, Ntf),
    /// entity goes away
    Desp(usize),
    /// an unrelated component of the entity changes hands
    Td(usize),
}
#[derive(Clone, Debug)]
struct Frame {
    out: Vec<(u32, Op)>,
    first: u32,
    pre: Vec<(u32, Op)>,
    upd: u32,
    mid: Vec<(u32, Op)>,
    post: u32,
}
#[derive(Clone, Debug)]
struct Case {
    ents: usize,
    obs: Vec<ObsSpec>,
    subs: Vec<SubSpec>,
    /// the k-th notification of subscription s unsubscribes t
    react: Option<(usize, usize, usize)>,
    frames: Vec<Frame>,
    rsc: bool,
    auto_clear: bool,
}

fn generate(r: &mut Rng, big: bool) -> Case {
    let ents = 1 + r.below(3);
    let focus = r.below(7);
    let obs: Vec<ObsSpec> = (0..1 + r.below(if big { 5 } else { 3 }))
        .map(|_| {
            let k = match if focus < 5 && r.chance(2, 3) { focus } else { r.below(5) } {
                0 => K::Evt(r.below(ents)),
                1 => K::Msg,
                2 => K::Key(r.below(3) as u8),
                3 => K::Rsc(r.chance(3, 4), r.chance(3, 4)),
                _ => K::Proxy(r.below(ents), r.chance(1, 2)),
            };
            ObsSpec { k, sched: r.below(2) }
        })
        .collect();
    let mut subs: Vec<SubSpec> = (0..1 + r.below(if big { 8 } else { 4 }))
        .map(|_| SubSpec { o: r.below(obs.len()), close_at: if r.chance(1, 3) { Some(1 + r.below(5)) } else { None }, plain: r.chance(1, 4) })
        .collect();
    for s in &mut subs {
        // whether inserting again counts as adding or changing is left open, so is the count then
        if matches!(obs[s.o].k, K::Rsc(a, b) if !(a && b)) {
            s.close_at = None;
        }
        if s.close_at.is_some() {
            s.plain = false;
        }
    }
    let react = if r.chance(1, 3) {
        let (s, t) = (r.below(subs.len()), r.below(subs.len()));
        if subs[t].close_at.is_none() && subs[s].close_at.is_none() && !matches!(obs[subs[s].o].k, K::Rsc(a, b) if !(a && b)) && (s == t || !matches!(obs[subs[s].o].k, K::Proxy(..))) { Some((s, 1 + r.below(4), t)) } else { None }
    } else {
        None
    };
    let nf = 2 + r.below(if big { 10 } else { 5 });
    let mut step = 1;
    let mut left: Vec<usize> = (0..subs.len()).collect();
    let mut val = 0;
    let mut frames = vec![];
    for fi in 0..nf {
        let mut ops = |r: &mut Rng, n: usize, step: &mut u32, left: &mut Vec<usize>| {
            let mut v = vec![];
            for _ in 0..r.below(n + 1) {
                let mut push = |o: Op| {
                    *step += 1;
                    v.push((*step, o));
                };
                if !left.is_empty() && r.chance(if fi == 0 { 2 } else { 1 }, 3) {
                    let at = r.below(left.len());
                    push(Op::Sub(left.swap_remove(at)));
                    continue;
                }
                if r.chance(1, 9) {
                    let s = r.below(subs.len());
                    push(match r.below(4) {
                        0 => Op::Drop(s),
                        1 => Op::Td(s),
                        _ => Op::Unsub(s),
                    });
                    continue;
                }
                val += 1;
                let o = &obs[r.below(obs.len())];
                push(match o.k {
                    K::Evt(e) => match r.below(14) {
                        0 => Op::Desp(e),
                        1 => Op::Evt(r.below(ents), val, r.chance(1, 2)),
                        _ => Op::Evt(e, val, r.chance(1, 2)),
                    },
                    K::Msg => Op::Msg(val),
                    K::Key(_) => match r.below(8) {
                        0..=3 => Op::Press(r.below(KEYS.len())),
                        4..=5 => Op::Release(r.below(KEYS.len())),
                        6 => Op::ClearKeys,
                        _ => Op::ResetKey(r.below(KEYS.len())),
                    },
                    K::Rsc(..) => match r.below(9) {
                        0..=2 => Op::SetRsc(val),
                        3 => Op::TouchRsc,
                        4 => Op::PeekRsc(val),
                        5..=6 => Op::InsRsc(val),
                        _ => Op::RemRsc,
                    },
                    K::Proxy(e, _) => match r.below(12) {
                        0 => Op::Desp(e),
                        1 => Op::Emit(e, Ntf::C),
                        2 => Op::Emit(e, Ntf::E(i(900 + val))),
                        _ => Op::Emit(e, Ntf::N(i(val))),
                    },
                });
            }
            v
        };
        let out = ops(r, if big { 6 } else { 4 }, &mut step, &mut left);
        step += 1;
        let first = step;
        let pre = ops(r, 3, &mut step, &mut left);
        step += 1;
        let upd = step;
        let mid = ops(r, 3, &mut step, &mut left);
        step += 1;
        let post = step;
        frames.push(Frame { out, first, pre, upd, mid, post });
    }
    for _ in 0..2 {
        step += 3;
        frames.push(Frame { out: vec![], first: step - 2, pre: vec![], upd: step - 1, mid: vec![], post: step });
    }
    Case { ents, obs, subs, react, frames, rsc: r.chance(1, 2), auto_clear: r.chance(2, 3) }
}

// ---------------------------------------------------------------------------------------------
// Model
#[derive(Clone, Debug)]
enum Exp {
    /// must happen at this step, or may
    One(u32, Ev, bool),
    /// some of these in any order
    Set(u32, Vec<i64>, usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    None,
    Open,
    Closed,
}
struct SubM {
    st: St,
    /// own number of accepted notifications
    n: usize,
    exp: Vec<Exp>,
    /// messages: index of the next one; first ones that need not be delivered
    cur: usize,
    need: usize,
    /// the work done at the first tick is out: event observer or subscription of the proxied target in place
    live: bool,
    existed: bool,
    order: usize,
    tick_from: usize,
    unsub_at: u32,
    tds: Vec<u32>,
    gone: bool,
}
struct Model<'a> {
    c: &'a Case,
    step: u32,
    subs: Vec<SubM>,
    alive: Vec<bool>,
    finished: Vec<Option<Ntf>>,
    /// all messages ever; the first one that is still buffered, and the first one written since the last update
    msgs: Vec<i64>,
    older: usize,
    newer: usize,
    pressed: [bool; 5],
    jp: [bool; 5],
    jr: [bool; 5],
    rsc: Option<i64>,
    /// changed, and freshly inserted, since the last run of each executor
    changed: [bool; 2],
    reins: [bool; 2],
    seq: usize,
    next_td: u32,
    reacted: bool,
    ticking: Option<usize>,
    /// an event on its way to the observers of an entity, which are in no particular order
    bcast: Option<(usize, Ntf)>,
    td_log: Vec<(u32, u32)>,
}
impl<'a> Model<'a> {
    fn new(c: &'a Case) -> Self {
        Model {
            c,
            step: 0,
            subs: c
                .subs
                .iter()
                .map(|_| SubM { st: St::None, n: 0, exp: vec![], cur: 0, need: 0, live: false, existed: false, order: 0, tick_from: 0, unsub_at: 0, tds: vec![], gone: false })
                .collect(),
            alive: vec![true; c.ents],
            finished: vec![None; c.ents],
            msgs: vec![],
            older: 0,
            newer: 0,
            pressed: [false; 5],
            jp: [false; 5],
            jr: [false; 5],
            rsc: c.rsc.then_some(0),
            changed: [true; 2],
            reins: [true; 2],
            seq: 0,
            next_td: 0,
            reacted: false,
            ticking: None,
            bcast: None,
            td_log: vec![],
        }
    }
    fn kind(&self, s: usize) -> &'a K {
        &self.c.obs[self.c.subs[s].o].k
    }
    fn close(&mut self, s: usize) {
        if self.subs[s].st == St::Open {
            self.subs[s].st = St::Closed;
            self.subs[s].unsub_at = self.step;
            if !self.c.subs[s].plain {
                self.subs[s].exp.push(Exp::One(self.step, Ev::SinkClosed(s as u32), false));
            }
            for t in std::mem::take(&mut self.subs[s].tds) {
                self.td_log.push((self.step, t));
            }
        }
    }
    fn put(&mut self, s: usize, n: Ntf, opt: bool) {
        if self.subs[s].st != St::Open {
            return;
        }
        let term = n.terminal();
        self.subs[s].exp.push(Exp::One(self.step, Ev::Sink(s as u32, n), opt));
        self.after(s, 1, term);
    }
    fn after(&mut self, s: usize, k: usize, term: bool) {
        let was = self.subs[s].n;
        self.subs[s].n += k;
        if term || self.c.subs[s].close_at.is_some_and(|x| x <= self.subs[s].n) {
            self.close(s);
        }
        if let Some((a, at, t)) = self.c.react {
            if a == s && at > was && at <= self.subs[s].n && !self.reacted && self.subs[t].st != St::None {
                self.reacted = true;
                // anything t was or would be told in this tick may or may not have gone out already
                if (self.ticking.is_some() || self.bcast.is_some()) && (self.subs[t].st == St::Open || self.subs[t].unsub_at == self.step) && t != s {
                    let from = self.subs[t].tick_from;
                    for e in &mut self.subs[t].exp[from..] {
                        match e {
                            Exp::One(_, Ev::Sink(..), o) => *o = true,
                            Exp::One(..) => {}
                            Exp::Set(_, _, lo, _) => *lo = 0,
                        }
                    }
                    if self.subs[t].order > self.subs[s].order && self.ticking == Some(self.c.obs[self.c.subs[t].o].sched) {
                        self.work(t, true);
                    }
                    if let (Some((e, v)), true) = (self.bcast.clone(), self.subs[t].live) {
                        if *self.kind(t) == K::Evt(e) && t > s {
                            self.put(t, v, true);
                        }
                    }
                }
                self.close(t);
            }
        }
    }
    fn op(&mut self, o: &Op) {
        match o {
            Op::Sub(s) => {
                self.seq += 1;
                let (older, len) = (self.older, self.msgs.len());
                let m = &mut self.subs[*s];
                m.st = St::Open;
                m.order = self.seq;
                m.cur = older;
                m.need = len;
            }
            Op::Unsub(s) => self.close(*s),
            Op::Drop(s) => {
                self.close(*s);
                self.subs[*s].gone |= self.subs[*s].st != St::None;
            }
            Op::Td(s) => {
                if self.subs[*s].st == St::None || self.subs[*s].gone {
                    return;
                }
                self.next_td += 1;
                if self.subs[*s].st == St::Open {
                    let t = self.next_td;
                    self.subs[*s].tds.push(t);
                } else {
                    self.td_log.push((self.step, self.next_td));
                }
            }
            Op::Evt(e, v, _) => {
                if self.alive[*e] {
                    for s in &mut self.subs {
                        s.tick_from = s.exp.len();
                    }
                    self.bcast = Some((*e, Ntf::N(i(*v))));
                    for s in 0..self.subs.len() {
                        if *self.kind(s) == K::Evt(*e) && self.subs[s].live {
                            self.put(s, Ntf::N(i(*v)), false);
                        }
                    }
                    self.bcast = None;
                }
            }
            Op::Msg(v) => self.msgs.push(*v),
            Op::Press(k) => {
                if !self.pressed[*k] {
                    self.jp[*k] = true;
                }
                self.pressed[*k] = true;
            }
            Op::Release(k) => {
                if self.pressed[*k] {
                    self.jr[*k] = true;
                }
                self.pressed[*k] = false;
            }
            Op::ClearKeys => {
                self.jp = [false; 5];
                self.jr = [false; 5];
            }
            Op::ResetKey(k) => {
                self.jp[*k] = false;
                self.jr[*k] = false;
                self.pressed[*k] = false;
            }
            Op::SetRsc(v) => {
                if let Some(x) = &mut self.rsc {
                    *x = *v;
                    self.changed = [true; 2];
                }
            }
            Op::TouchRsc => {
                if self.rsc.is_some() {
                    self.changed = [true; 2];
                }
            }
            Op::PeekRsc(v) => {
                if let Some(x) = &mut self.rsc {
                    *x = *v;
                }
            }
            Op::InsRsc(v) => {
                if self.rsc.is_none() {
                    self.reins = [true; 2];
                }
                self.rsc = Some(*v);
                self.changed = [true; 2];
            }
            Op::RemRsc => self.rsc = None,
            Op::Emit(e, n) => {
                if self.finished[*e].is_some() || !self.alive[*e] {
                    return;
                }
                if n.terminal() {
                    self.finished[*e] = Some(n.clone());
                }
                for s in 0..self.subs.len() {
                    if matches!(self.kind(s), K::Proxy(x, _) if x == e) && self.subs[s].live {
                        self.put(s, n.clone(), false);
                    }
                }
            }
            Op::Desp(e) => {
                if !self.alive[*e] {
                    return;
                }
                self.alive[*e] = false;
                for s in &mut self.subs {
                    s.tick_from = s.exp.len();
                }
                self.bcast = Some((*e, Ntf::C));
                for s in 0..self.subs.len() {
                    match self.kind(s) {
                        K::Evt(x) if x == e && self.subs[s].live => self.put(s, Ntf::C, false),
                        K::Proxy(x, _) if x == e && self.subs[s].live => self.close(s),
                        _ => {}
                    }
                }
                self.bcast = None;
            }
        }
    }
    fn tick(&mut self, x: usize) {
        self.ticking = Some(x);
        for s in &mut self.subs {
            s.tick_from = s.exp.len();
        }
        let mut order: Vec<usize> = (0..self.subs.len()).filter(|s| self.subs[*s].st == St::Open && self.c.obs[self.c.subs[*s].o].sched == x).collect();
        order.sort_by_key(|s| self.subs[*s].order);
        for s in order {
            self.work(s, false);
        }
        self.ticking = None;
        self.changed[x] = false;
        self.reins[x] = false;
    }
    fn work(&mut self, s: usize, opt: bool) {
        if self.subs[s].st != St::Open {
            return;
        }
        match self.kind(s).clone() {
            K::Evt(e) => {
                if !self.subs[s].live {
                    self.subs[s].live = true;
                    if !self.alive[e] {
                        self.put(s, Ntf::C, opt);
                    }
                }
            }
            K::Proxy(e, _) => {
                if !self.subs[s].live {
                    self.subs[s].live = true;
                    if !self.alive[e] {
                        // nothing there to observe: left to the code
                        return;
                    }
                    if let Some(n) = self.finished[e].clone() {
                        self.put(s, n, opt);
                    }
                }
            }
            K::Msg => {
                let m: Vec<(usize, i64)> = self.msgs.iter().copied().enumerate().skip(self.subs[s].cur.max(self.older)).collect();
                self.subs[s].cur = self.msgs.len();
                for (ix, v) in m {
                    let o = opt || ix < self.subs[s].need;
                    self.put(s, Ntf::N(i(v)), o);
                }
            }
            K::Key(m) => {
                let set: Vec<i64> = (0..5).filter(|k| [self.jp, self.jr, self.pressed][m as usize][*k]).map(|k| k as i64).collect();
                let k = match self.c.subs[s].close_at {
                    Some(at) => set.len().min(at - self.subs[s].n),
                    None => set.len(),
                };
                // unsubscribing oneself on the way
                let lo = match self.c.react {
                    Some((a, at, t)) if a == s && t == s && !self.reacted && at > self.subs[s].n && at <= self.subs[s].n + k => at - self.subs[s].n,
                    _ => k,
                };
                if k > 0 {
                    let step = self.step;
                    self.subs[s].exp.push(Exp::Set(step, set, if opt { 0 } else { lo }, k));
                    self.after(s, k, false);
                }
            }
            K::Rsc(a, ch) => {
                let x = self.ticking.unwrap();
                let Some(v) = self.rsc else {
                    self.subs[s].existed = false;
                    return;
                };
                let added = !self.subs[s].existed;
                self.subs[s].existed = true;
                if added && a || !added && self.changed[x] && ch {
                    // removed and inserted again in between is as good as new, or changed
                    let o = opt || !added && self.reins[x] && !(a && ch);
                    self.put(s, Ntf::N(i(v)), o);
                } else if !added && self.reins[x] && a && self.changed[x] {
                    self.put(s, Ntf::N(i(v)), true);
                }
            }
        }
    }
    fn frame_first(&mut self) {
        self.older = self.newer;
        self.newer = self.msgs.len();
    }
}

// ---------------------------------------------------------------------------------------------
// The real thing
/// Forwards to a recording sink.
struct GSink<T, E> {
    s: Result<Sink, ObsSink>,
    f: fn(T) -> Val,
    _e: PhantomData<fn(E)>,
}
impl<T: Signal, E: Signal> ObserverInput for GSink<T, E> {
    type In = T;
    type InError = E;
}
impl<T, E> WithPrimaryCategory for GSink<T, E> {
    type PrimaryCategory = PrimaryCategorySubscriber;
}
impl<T, E> ObserverUpgradesToSelf for GSink<T, E> {}
impl<T: Signal, E: Signal> RxObserver for GSink<T, E> {
    fn next(&mut self, v: T) {
        let v = (self.f)(v);
        match &mut self.s {
            Ok(s) => s.next(v),
            Err(s) => s.next(v),
        }
    }
    fn error(&mut self, _: E) {
        log(Ev::Note("error out of nowhere".into()))
    }
    fn complete(&mut self) {
        match &mut self.s {
            Ok(s) => s.complete(),
            Err(s) => s.complete(),
        }
    }
}
impl<T, E> SubscriptionLike for GSink<T, E> {
    fn is_closed(&self) -> bool {
        self.s.as_ref().map(|s| s.is_closed()).unwrap_or(false)
    }
    fn unsubscribe(&mut self) {
        if let Ok(s) = &mut self.s {
            s.unsubscribe()
        }
    }
}
impl<T, E> TeardownCollection for GSink<T, E> {
    fn add_teardown(&mut self, t: Teardown) {
        match &mut self.s {
            Ok(s) => s.add_teardown(t),
            Err(_) => unreachable!(),
        }
    }
}

trait Hd: SubscriptionLike + TeardownCollection + Send + Sync {}
impl<T: SubscriptionLike + TeardownCollection + Send + Sync> Hd for T {}
type Handle = Box<dyn Hd>;
type Rd = fn(&Rsc) -> Val;
enum O {
    Evt(EventObservable<Evt>),
    Msg(MessageObservable<Msg>),
    Key(KeyboardObservable),
    Rsc(ResourceObservable<Rsc, Rd, Val>),
    Proxy(ProxyObservable<Val, Val>),
}
struct Hs {
    c: Case,
    frame: usize,
    ents: Vec<Entity>,
    subj: Vec<PublishSubject<Val, Val>>,
    obs: Vec<Arc<Mutex<O>>>,
    handles: Vec<Option<Handle>>,
    subbed: Vec<bool>,
    reacted: bool,
    td: u32,
}
#[derive(Resource, Clone)]
struct Drv(Arc<Mutex<Hs>>);
fn hs(w: &World) -> Arc<Mutex<Hs>> {
    w.resource::<Drv>().0.clone()
}
fn unsub(h: &Arc<Mutex<Hs>>, s: usize) {
    let x = lock(h).handles[s].take();
    if let Some(mut x) = x {
        x.unsubscribe();
        if !x.is_closed() {
            viol("C17", format!("{FAM}: handle reports open after unsubscribe"), format!("sub {s}"));
        }
        lock(h).handles[s] = Some(x);
    }
}
fn exec(w: &mut World, o: &Op) {
    let h = hs(w);
    match o {
        Op::Sub(s) => {
            let (ob, spec, react) = {
                let mut g = lock(&h);
                g.subbed[*s] = true;
                (g.obs[g.c.subs[*s].o].clone(), g.c.subs[*s].clone(), g.c.react)
            };
            let mut cfg = SinkCfg::new(*s as u32);
            cfg.close_at = spec.close_at;
            if let Some((a, at, t)) = react {
                if a == *s {
                    let h2 = Arc::downgrade(&h);
                    cfg.hook = Some(Box::new(move |n, _| {
                        if n == at {
                            if let Some(h) = h2.upgrade() {
                                lock(&h).reacted = true;
                                unsub(&h, t);
                            }
                        }
                    }));
                }
            }
            fn snk<T: Signal>(f: fn(T) -> Val, cfg: SinkCfg) -> GSink<T, Never> {
                GSink { s: Ok(Sink::new(cfg)), f, _e: PhantomData }
            }
            fn plain<T: Signal>(f: fn(T) -> Val, cfg: SinkCfg) -> Pl<T> {
                Pl { s: ObsSink::new(cfg), f }
            }
            macro_rules! go {
                ($x:expr, $f:expr) => {
                    if spec.plain { Box::new($x.subscribe(plain($f, cfg))) as Handle } else { Box::new($x.subscribe(snk($f, cfg))) as Handle }
                };
            }
            let hd: Handle = match &mut *lock(&ob) {
                O::Evt(x) => go!(x, |e: Evt| i(e.v)),
                O::Msg(x) => go!(x, |e: Msg| i(e.0)),
                O::Key(x) => go!(x, |e: KeyCode| i(key_ix(e))),
                O::Rsc(x) => go!(x, |e: Val| e),
                O::Proxy(x) => {
                    if spec.plain {
                        Box::new(x.subscribe(ObsSink::new(cfg)))
                    } else {
                        Box::new(x.subscribe(Sink::new(cfg)))
                    }
                }
            };
            lock(&h).handles[*s] = Some(hd);
        }
        Op::Unsub(s) => unsub(&h, *s),
        Op::Drop(s) => {
            let x = lock(&h).handles[*s].take();
            drop(x);
        }
        Op::Td(s) => {
            let x = lock(&h).handles[*s].take();
            if let Some(mut x) = x {
                let t = {
                    let mut g = lock(&h);
                    g.td += 1;
                    g.td
                };
                let tok = Tok::counted();
                x.add_teardown(Teardown::new(move || {
                    let _t = tok;
                    log(Ev::Td(t))
                }));
                lock(&h).handles[*s] = Some(x);
            }
        }
        Op::Evt(e, v, cmd) => {
            let e = lock(&h).ents[*e];
            if w.get_entity(e).is_ok() {
                if *cmd {
                    w.commands().trigger(Evt { entity: e, v: *v });
                } else {
                    w.trigger(Evt { entity: e, v: *v });
                }
            }
        }
        Op::Msg(v) => {
            w.write_message(Msg(*v, Tok::counted()));
        }
        Op::Press(k) => w.resource_mut::<ButtonInput<KeyCode>>().press(KEYS[*k]),
        Op::Release(k) => w.resource_mut::<ButtonInput<KeyCode>>().release(KEYS[*k]),
        Op::ClearKeys => w.resource_mut::<ButtonInput<KeyCode>>().clear(),
        Op::ResetKey(k) => w.resource_mut::<ButtonInput<KeyCode>>().reset(KEYS[*k]),
        Op::SetRsc(v) => {
            if let Some(mut x) = w.get_resource_mut::<Rsc>() {
                x.0 = *v;
            }
        }
        Op::TouchRsc => {
            if let Some(mut x) = w.get_resource_mut::<Rsc>() {
                x.set_changed();
            }
        }
        Op::PeekRsc(v) => {
            if let Some(mut x) = w.get_resource_mut::<Rsc>() {
                x.bypass_change_detection().0 = *v;
            }
        }
        Op::InsRsc(v) => w.insert_resource(Rsc(*v)),
        Op::RemRsc => {
            w.remove_resource::<Rsc>();
        }
        Op::Emit(e, n) => {
            let (ent, mut x) = {
                let g = lock(&h);
                (g.ents[*e], g.subj[*e].clone())
            };
            if w.get_entity(ent).is_ok() {
                match n.counted() {
                    Ntf::N(v) => x.next(v),
                    Ntf::E(v) => x.error(v),
                    Ntf::C => x.complete(),
                }
            }
        }
        Op::Desp(e) => {
            let e = lock(&h).ents[*e];
            w.commands().entity(e).try_despawn();
        }
    }
    w.flush();
}
/// A plain observer of any value.
struct Pl<T> {
    s: ObsSink,
    f: fn(T) -> Val,
}
impl<T: Signal> ObserverInput for Pl<T> {
    type In = T;
    type InError = Never;
}
impl<T> WithPrimaryCategory for Pl<T> {
    type PrimaryCategory = rx_core::PrimaryCategoryObserver;
}
impl<T: Signal> rx_core::UpgradeableObserver for Pl<T> {
    type Upgraded = rx_core::ObserverSubscriber<Pl<T>>;
    fn upgrade(self) -> Self::Upgraded {
        rx_core::ObserverSubscriber::new(self)
    }
}
impl<T: Signal> RxObserver for Pl<T> {
    fn next(&mut self, v: T) {
        self.s.next((self.f)(v))
    }
    fn error(&mut self, _: Never) {}
    fn complete(&mut self) {
        self.s.complete()
    }
}
fn run_ops(w: &mut World, ops: &[(u32, Op)]) {
    for (st, o) in ops {
        set_step(*st);
        exec(w, o);
    }
}
fn pre_sys(w: &mut World) {
    let h = hs(w);
    let (f, clear) = {
        let g = lock(&h);
        (g.c.frames[g.frame].clone(), g.c.auto_clear)
    };
    if clear {
        w.resource_mut::<ButtonInput<KeyCode>>().clear();
    }
    run_ops(w, &f.pre);
    set_step(f.upd);
}
fn mid_sys(w: &mut World) {
    let h = hs(w);
    let f = {
        let g = lock(&h);
        g.c.frames[g.frame].clone()
    };
    run_ops(w, &f.mid);
    set_step(f.post);
}

pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let big = cx.thorough && r.chance(1, 3);
    let c = generate(r, big);
    cx.publish(format!("{c:?}"));
    let mut m = Model::new(&c);
    let mut app = App::new();
    app.init_resource::<Time<Virtual>>();
    app.add_plugins((RxPlugin, RxSchedulerPlugin::<Update, Virtual>::default(), RxSchedulerPlugin::<PostUpdate, Virtual>::default()));
    app.add_message::<Msg>();
    app.init_resource::<ButtonInput<KeyCode>>();
    app.add_systems(PreUpdate, pre_sys);
    app.add_systems(SpawnScene, mid_sys);
    if c.rsc {
        app.insert_resource(Rsc(0));
    }
    let w = app.world_mut();
    let sched = [
        SystemState::<RxSchedule<Update, Virtual>>::new(w).get_mut(w).handle(),
        SystemState::<RxSchedule<PostUpdate, Virtual>>::new(w).get_mut(w).handle(),
    ];
    let subj: Vec<PublishSubject<Val, Val>> = (0..c.ents).map(|_| Default::default()).collect();
    let ents: Vec<Entity> = subj.iter().map(|s| w.spawn(s.clone().into_component()).id()).collect();
    w.flush();
    let obs = c
        .obs
        .iter()
        .map(|o| {
            let sc = sched[o.sched].clone();
            Arc::new(Mutex::new(match o.k {
                K::Evt(e) => O::Evt(EventObservable::new(ents[e], sc)),
                K::Msg => O::Msg(MessageObservable::new(sc)),
                K::Key(m) => {
                    let emit = match m {
                        0 => KeyboardObservableEmit::JustPressed,
                        1 => KeyboardObservableEmit::JustReleased,
                        _ => KeyboardObservableEmit::WhilePressed,
                    };
                    O::Key(KeyboardObservable::new(KeyboardObservableOptions { emit }, sc))
                }
                K::Rsc(a, b) => {
                    O::Rsc(ResourceObservable::new((|x: &Rsc| i(x.0).counted()) as Rd, ResourceObservableOptions { trigger_on_is_added: a, trigger_on_is_changed: b }, sc))
                }
                K::Proxy(e, true) => O::Proxy(w.commands().entity(ents[e]).as_proxy_observable::<Val, Val>(sc)),
                K::Proxy(e, false) => O::Proxy(ProxyObservable::new(ents[e], sc)),
            }))
        })
        .collect();
    let base = w.entities().len();
    let h = Arc::new(Mutex::new(Hs {
        c: c.clone(),
        frame: 0,
        ents,
        subj,
        obs,
        handles: c.subs.iter().map(|_| None).collect(),
        subbed: vec![false; c.subs.len()],
        reacted: false,
        td: 0,
    }));
    w.insert_resource(Drv(h.clone()));
    for (fi, f) in c.frames.iter().enumerate() {
        lock(&h).frame = fi;
        for (st, o) in &f.out {
            m.step = *st;
            m.op(o);
        }
        m.step = f.first;
        m.frame_first();
        if c.auto_clear {
            m.op(&Op::ClearKeys);
        }
        for (st, o) in &f.pre {
            m.step = *st;
            m.op(o);
        }
        m.step = f.upd;
        m.tick(0);
        for (st, o) in &f.mid {
            m.step = *st;
            m.op(o);
        }
        m.step = f.post;
        m.tick(1);

        run_ops(app.world_mut(), &f.out);
        set_step(f.first);
        app.update();
        set_step(f.post);
        compare(&m, fi);
        {
            let g = lock(&h);
            for s in 0..c.subs.len() {
                if let Some(x) = &g.handles[s] {
                    if x.is_closed() != (m.subs[s].st == St::Closed) && !skip(&m, s) {
                        viol("C17", format!("{FAM}: {} handle reports closed: {}", kn(m.kind(s)), x.is_closed()), format!("sub {s} frame {fi}"));
                    }
                }
            }
        }
        if !with(|r| r.viols.is_empty()) {
            break;
        }
    }
    let lg = log_from(0);
    for (_, e) in &lg {
        match e {
            Ev::Late(s, n) => viol("C17+C01", format!("{FAM}: {} closed destination notified", kn(m.kind(*s as usize))), format!("sub {s} {n:?}")),
            Ev::Note(s) => viol("C17", format!("{FAM}: {s}"), ""),
            Ev::Sink(..) => cx.stat("notifications_compared", 1),
            Ev::Td(..) => cx.stat("teardowns_checked", 1),
            _ => {}
        }
    }
    if with(|r| r.viols.is_empty()) {
        // nothing of what has ended is left behind
        for s in 0..c.subs.len() {
            unsub(&h, s);
        }
        set_step(u32::MAX - 1);
        let f = lock(&h).c.frames.last().unwrap().clone();
        lock(&h).c.frames.push(Frame { out: vec![], pre: vec![], mid: vec![], ..f });
        lock(&h).frame = c.frames.len();
        for _ in 0..2 {
            app.update();
        }
        let w = app.world_mut();
        let gone = m.alive.iter().filter(|x| !**x).count() as u32;
        let obs_left = w.query::<&bevy_ecs::observer::Observer>().iter(w).count();
        let alive = m.alive.iter().filter(|x| **x).count();
        let _ = (base, gone, obs_left, alive);
        for (n, e) in [w.resource::<RxBevyExecutor<Update, Virtual>>().is_empty(), w.resource::<RxBevyExecutor<PostUpdate, Virtual>>().is_empty()].into_iter().enumerate() {
            if !e {
                viol("C17+C14", format!("{FAM}: work left in the scheduler after everything was unsubscribed"), format!("executor {n}"));
            }
        }
        let subs_left = w.query::<&SubscriptionSatelliteOf>().iter(w).count();
        if subs_left > 0 {
            viol("C17+C14", format!("{FAM}: event observers left behind after everything was unsubscribed"), format!("{subs_left}"));
        }
        cx.stat("cleanups_checked", 1);
    }
    cx.stat("frames", c.frames.len() as u64);
    cx.nontrivial = lg.iter().filter(|e| matches!(e.1, Ev::Sink(..))).count() >= 4;
    cx.fp = lg.iter().fold(7, |a: u64, e| (a ^ h_of(&e.1)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(9));
}
fn h_of(e: &Ev) -> u64 {
    format!("{e:?}").bytes().fold(0xcbf29ce484222325, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3))
}
fn kn(k: &K) -> &'static str {
    match k {
        K::Evt(_) => "event observable",
        K::Msg => "message observable",
        K::Key(_) => "keyboard observable",
        K::Rsc(..) => "resource observable",
        K::Proxy(..) => "proxy observable",
    }
}
/// nothing is said about a proxy of an entity that was already gone
fn skip(m: &Model, s: usize) -> bool {
    matches!(m.kind(s), K::Proxy(e, _) if !m.alive[*e])
}
fn compare(m: &Model, fi: usize) {
    let lg = log_from(0);
    for s in 0..m.subs.len() {
        let got: Vec<(u32, Ev)> = lg.iter().filter(|(_, e)| matches!(e, Ev::Sink(x, _) | Ev::SinkClosed(x) if *x == s as u32)).cloned().collect();
        if skip(m, s) {
            continue;
        }
        if let Err((at, what)) = fits(&m.subs[s].exp, &got) {
            let e: Vec<&Exp> = m.subs[s].exp.iter().rev().take(6).rev().collect();
            viol("C17", format!("{FAM}: {} {what}", kn(m.kind(s))), format!("sub {s} after frame {fi}: at {at} of {got:?}, expected (last) {e:?}"));
        }
    }
    let got: BTreeMap<u32, Vec<u32>> = lg.iter().fold(BTreeMap::new(), |mut b, (st, e)| {
        if let Ev::Td(t) = e {
            b.entry(*t).or_insert_with(Vec::new).push(*st);
        }
        b
    });
    let exp: BTreeMap<u32, Vec<u32>> = m.td_log.iter().fold(BTreeMap::new(), |mut b, (st, t)| {
        b.entry(*t).or_insert_with(Vec::new).push(*st);
        b
    });
    if got != exp && !(0..m.subs.len()).any(|s| skip(m, s)) {
        viol("C17+C02", format!("{FAM}: teardown of a subscription did not run exactly once when it ended"), format!("frame {fi}: {got:?} expected {exp:?}"));
    }
}
fn fits(exp: &[Exp], got: &[(u32, Ev)]) -> Result<(), (usize, &'static str)> {
    let mut k = 0;
    for e in exp {
        match e {
            Exp::One(st, ev, opt) => {
                if got.get(k).is_some_and(|g| g.0 == *st && g.1 == *ev) {
                    k += 1;
                } else if !*opt {
                    let what = match got.get(k) {
                        None => "missed a notification",
                        Some(g) if g.1 == *ev => "notified at the wrong moment",
                        Some(g) if matches!(g.1, Ev::SinkClosed(_)) => "closed its destination",
                        _ if matches!(ev, Ev::SinkClosed(_)) => "left its destination open",
                        _ => "sent a wrong notification",
                    };
                    return Err((k, what));
                }
            }
            Exp::Set(st, vals, lo, hi) => {
                let mut left = vals.clone();
                let mut n = 0;
                while n < *hi {
                    let Some((gs, Ev::Sink(_, Ntf::N(v)))) = got.get(k) else { break };
                    let Some(at) = left.iter().position(|x| gs == st && i(*x) == *v) else { break };
                    left.swap_remove(at);
                    n += 1;
                    k += 1;
                }
                if n < *lo {
                    return Err((k, "missed a notification"));
                }
            }
        }
    }
    if k < got.len() { Err((k, if matches!(got[k].1, Ev::SinkClosed(_)) { "closed its destination" } else { "sent an extra notification" })) } else { Ok(()) }
}
