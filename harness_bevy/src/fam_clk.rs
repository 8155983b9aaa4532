//! S14: pipelines and plain work on several schedules and clocks of one App, with every pattern of frame
//! durations, pauses and time scaling. What each clock shows when its schedule runs is read by probes;
//! what must happen at that reading is computed by the reference model of the time family.
use crate::fam_linear::subscribe_sink;
use crate::fam_time::{Case as PCase, Model, TOp, TSrc, W as TW, adsr_val, fallback, gen_ntf, gen_op, gen_val, same, time_pipeline, trigger_of};
use crate::ops::{Obs, build};
use crate::rt::*;
use crate::runner::Ctx;
use crate::sched::{ms, units_ns};
use crate::val::*;
use bevy_app::{App, FixedUpdate, PostUpdate, PreUpdate, SpawnScene, Update};
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_time::{Fixed, Real, Time, TimePlugin, TimeUpdateStrategy, Virtual};
use rx_bevy_common::*;
use rx_core::prelude::*;
use rx_core::{InvokedTaskFactory, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SubscriptionLike, WorkCancellationId, WorkInvokeId, WorkResult, WorkTick};
use std::sync::{Arc, Mutex};

const FAM: &str = "clk";
const CLOCKS: [&str; 4] = ["Update/Virtual", "FixedUpdate/Fixed", "PostUpdate/Real", "Update/Real"];
/// free work items use ids from here on
const FREE: usize = 101;

#[derive(Clone, Debug)]
enum RK {
    Now,
    Delay(u64),
    /// interval, start immediately, max per tick, number of runs
    Repeat(u64, bool, usize, usize),
    /// number of ticks
    Every(usize),
    Invoked,
}
#[derive(Clone, Debug)]
enum Op {
    Sub(usize),
    Unsub(usize),
    Drop(usize),
    Push(usize, Ntf),
    PushIn(usize, Ntf),
    UnsubIn(usize),
    Raw(usize),
    Cancel(usize),
    Invoke(usize),
    CancelInvoked(usize),
    Pause,
    Unpause,
    /// in percent
    Speed(u32),
    /// fixed timestep in ms
    Step(u64),
}
#[derive(Clone, Debug)]
struct Frame {
    real: u64,
    out: Vec<Op>,
    pre: Vec<Op>,
    mid: Vec<Op>,
}
#[derive(Clone, Debug)]
struct Case {
    pipes: Vec<(usize, PCase)>,
    raws: Vec<(usize, RK)>,
    frames: Vec<Frame>,
}

fn generate(r: &mut Rng, big: bool) -> Case {
    let np = r.below(if big { 5 } else { 3 });
    let clk = r.below(6);
    let pick = |r: &mut Rng| if clk < 4 { clk } else { r.below(4) };
    let mut pipes = vec![];
    for _ in 0..np {
        let src = match r.below(12) {
            0..=3 => TSrc::Src((0..r.below(2)).map(|_| Ntf::N(gen_val(r))).collect(), r.chance(1, 2)),
            4 => TSrc::Subject,
            5..=7 => TSrc::Interval(*r.pick(&[6, 10, 16, 20, 30, 100]), r.chance(1, 2), 1 + r.below(4)),
            8 | 9 => TSrc::Timer(*r.pick(&[0, 4, 10, 30, 100])),
            _ => TSrc::OnTick((0..r.below(6)).map(|_| gen_val(r)).collect(), r.chance(1, 2), r.below(4)),
        };
        let n = if matches!(src, TSrc::Src(..) | TSrc::Subject) { 1 + r.below(2) } else { r.below(2) };
        let mut ops: Vec<TOp> = (0..n).map(|_| gen_op(r)).collect();
        if !ops.is_empty() && r.chance(1, 10) {
            let d = [0, 10, 20, 40];
            ops[0] = TOp::Adsr(*r.pick(&d), *r.pick(&d), *r.pick(&[0.0, 0.25, 0.5, 1.0]), *r.pick(&d), r.chance(1, 2), r.chance(1, 3));
        }
        let raw = r.chance(1, 2);
        let close_at = if raw && r.chance(1, 5) { Some(1 + r.below(4)) } else { None };
        pipes.push((pick(r), PCase { src, ops, close_at, unsub_at: None, raw, start: 0, steps: vec![] }));
    }
    let nr = if np == 0 { 1 + r.below(4) } else { r.below(3) };
    let raws: Vec<(usize, RK)> = (0..nr)
        .map(|_| {
            let k = match r.below(9) {
                0 => RK::Now,
                1 | 2 => RK::Delay(*r.pick(&[0, 4, 10, 16, 30, 100])),
                3..=5 => RK::Repeat(*r.pick(&[4, 10, 16, 50]), r.chance(1, 2), 1 + r.below(4), 1 + r.below(8)),
                6 => RK::Every(1 + r.below(5)),
                _ => RK::Invoked,
            };
            (pick(r), k)
        })
        .collect();
    let mut todo: Vec<Op> = (0..np).map(Op::Sub).chain((0..nr).map(Op::Raw)).collect();
    let nf = 3 + r.below(if big { 16 } else { 8 });
    let style = r.below(3);
    let frames = (0..nf)
        .map(|fi| {
            let mut ops = |r: &mut Rng| {
                let mut v = vec![];
                for _ in 0..r.below(4) {
                    if !todo.is_empty() && r.chance(if fi < 2 { 3 } else { 1 }, 4) {
                        let k = r.below(todo.len());
                        v.push(todo.swap_remove(k));
                        continue;
                    }
                    match r.below(20) {
                        0 if np > 0 => v.push(Op::Unsub(r.below(np))),
                        1 if np > 0 => v.push(Op::UnsubIn(r.below(np))),
                        2 if np > 0 && r.chance(1, 2) => v.push(Op::Drop(r.below(np))),
                        3..=8 if np > 0 => v.push(Op::Push(r.below(np), gen_ntf(r, 6))),
                        9 if np > 0 => v.push(Op::PushIn(r.below(np), gen_ntf(r, 6))),
                        10 if nr > 0 => v.push(Op::Cancel(r.below(nr))),
                        11 | 12 if nr > 0 => v.push(Op::Invoke(r.below(nr))),
                        13 if nr > 0 && r.chance(1, 2) => v.push(Op::CancelInvoked(r.below(nr))),
                        14 => v.push(Op::Pause),
                        15 | 16 => v.push(Op::Unpause),
                        17 => v.push(Op::Speed(*r.pick(&[50, 100, 100, 200, 400]))),
                        18 if r.chance(1, 3) => v.push(Op::Step(*r.pick(&[4, 8, 10, 16, 20]))),
                        _ => {}
                    }
                }
                v
            };
            let (out, pre, mid) = (ops(r), ops(r), ops(r));
            let real = match style {
                0 => *r.pick(&[8, 16, 16, 16, 20]),
                1 => *r.pick(&[0, 2, 4, 8, 16, 40, 100]),
                _ => *r.pick(&[0, 10, 10, 20, 60, 300]),
            };
            Frame { real, out, pre, mid }
        })
        .collect();
    Case { pipes, raws, frames }
}

// ---------------------------------------------------------------------------------------------
// The real thing
#[derive(Clone, Debug)]
enum Tr {
    /// executor runs next, its clock in ns
    Tick(usize, u128),
    Op(Op),
}
type Handle_ = Box<dyn SubscriptionLike + Send + Sync>;
type Hndl = SchedulerHandle<RxBevyScheduler>;
struct Pipe {
    obs: Mutex<Option<Obs>>,
    slot: Arc<Mutex<Option<Handle_>>>,
    src: Src,
    subj: PublishSubject<Val, Val>,
}
struct Hs {
    c: Case,
    frame: usize,
    step: u32,
    trace: Vec<(u32, Tr)>,
    sched: Vec<Hndl>,
    pipes: Vec<Arc<Pipe>>,
    cancel: Vec<WorkCancellationId>,
    invoke: Vec<WorkInvokeId>,
    free: Vec<WorkCancellationId>,
}
#[derive(Resource, Clone)]
struct Drv(Arc<Mutex<Hs>>);
fn hs(w: &World) -> Arc<Mutex<Hs>> {
    w.resource::<Drv>().0.clone()
}
fn mark(h: &Arc<Mutex<Hs>>, t: Tr) {
    let mut g = lock(h);
    g.step += 1;
    let s = g.step;
    g.trace.push((s, t));
    drop(g);
    set_step(s);
}
fn unsub(slot: &Arc<Mutex<Option<Handle_>>>) {
    let x = lock(slot).take();
    if let Some(mut x) = x {
        x.unsubscribe();
        *lock(slot) = Some(x);
    }
}
fn push(c: &PCase, p: &Pipe, n: &Ntf) {
    match c.src {
        TSrc::Src(..) => p.src.emit(n),
        TSrc::Subject => {
            let mut s = p.subj.clone();
            match n.counted() {
                Ntf::N(v) => s.next(v),
                Ntf::E(v) => s.error(v),
                Ntf::C => s.complete(),
            }
        }
        _ => {}
    }
}
fn exec(w: &mut World, o: &Op) {
    let h = hs(w);
    mark(&h, Tr::Op(o.clone()));
    match o {
        Op::Sub(p) => {
            let (c, pipe) = {
                let g = lock(&h);
                (g.c.pipes[*p].1.clone(), g.pipes[*p].clone())
            };
            let mut cfg = SinkCfg::new(*p as u32);
            cfg.close_at = c.close_at;
            let mut o = lock(&pipe.obs);
            let sub = subscribe_sink(o.as_mut().unwrap(), cfg, c.raw);
            *lock(&pipe.slot) = Some(Box::new(sub));
        }
        Op::Unsub(p) => {
            let s = lock(&h).pipes[*p].slot.clone();
            unsub(&s);
        }
        Op::Drop(p) => {
            let s = lock(&h).pipes[*p].slot.clone();
            let x = lock(&s).take();
            drop(x);
        }
        Op::Push(p, n) => {
            let (c, pipe) = {
                let g = lock(&h);
                (g.c.pipes[*p].1.clone(), g.pipes[*p].clone())
            };
            push(&c, &pipe, n);
        }
        Op::PushIn(p, n) => {
            let (x, c, pipe, f, s) = {
                let g = lock(&h);
                (g.c.pipes[*p].0, g.c.pipes[*p].1.clone(), g.pipes[*p].clone(), g.free.clone(), g.sched.clone())
            };
            let n = n.clone();
            s[x].lock().schedule_immediate_work(move |_, _: &mut RxBevyContextItem<'_>| push(&c, &pipe, &n), f[x]);
        }
        Op::UnsubIn(p) => {
            let (x, slot, f, s) = {
                let g = lock(&h);
                (g.c.pipes[*p].0, g.pipes[*p].slot.clone(), g.free.clone(), g.sched.clone())
            };
            s[x].lock().schedule_immediate_work(move |_, _: &mut RxBevyContextItem<'_>| unsub(&slot), f[x]);
        }
        Op::Raw(k) => {
            let g = lock(&h);
            let (x, kind) = g.c.raws[*k].clone();
            let (s, cid, iid) = (g.sched[x].clone(), g.cancel[*k], g.invoke[*k]);
            drop(g);
            let id = *k as u32;
            let tok = Tok::counted();
            // work sees the world of the app
            let note = move |at: rx_core_scheduler_ticking::Tick, cx: &mut RxBevyContextItem<'_>| {
                let _t = &tok;
                if cx.deferred_world.get_resource::<Drv>().is_none() {
                    viol("C16", format!("{FAM}: work does not see the world"), "");
                }
                log(Ev::Work(id, at.now().as_nanos() as u64));
            };
            let mut s = s.lock();
            match kind {
                RK::Now => s.schedule_immediate_work(note, cid),
                RK::Delay(d) => s.schedule_delayed_work(note, ms(d), cid),
                RK::Repeat(d, start, max, n) => {
                    let mut left = n;
                    s.schedule_repeated_work(
                        move |at: rx_core_scheduler_ticking::Tick, cx: &mut RxBevyContextItem<'_>| {
                            note(at, cx);
                            left -= 1;
                            if left == 0 { WorkResult::Done } else { WorkResult::Pending }
                        },
                        ms(d),
                        start,
                        max,
                        cid,
                    )
                }
                RK::Every(n) => {
                    let mut left = n;
                    s.schedule_continuous_work(
                        move |at: rx_core_scheduler_ticking::Tick, cx: &mut RxBevyContextItem<'_>| {
                            note(at, cx);
                            left -= 1;
                            if left == 0 { WorkResult::Done } else { WorkResult::Pending }
                        },
                        cid,
                    )
                }
                RK::Invoked => {
                    let mut f = Some(note);
                    s.schedule_invoked_work(
                        rx_core_scheduler_ticking::TickedInvokedWorkFactory::<RxBevyContext>::new(move |at: rx_core_scheduler_ticking::Tick, cx: &mut RxBevyContextItem<'_>| {
                            if let Some(f) = f.take() {
                                f(at, cx)
                            }
                            WorkResult::Done
                        }),
                        iid,
                    )
                }
            }
        }
        Op::Cancel(k) => {
            let g = lock(&h);
            g.sched[g.c.raws[*k].0].lock().cancel(g.cancel[*k]);
        }
        Op::Invoke(k) => {
            let g = lock(&h);
            g.sched[g.c.raws[*k].0].lock().invoke(g.invoke[*k]);
        }
        Op::CancelInvoked(k) => {
            let g = lock(&h);
            g.sched[g.c.raws[*k].0].lock().cancel_invoked(g.invoke[*k]);
        }
        Op::Pause => w.resource_mut::<Time<Virtual>>().pause(),
        Op::Unpause => w.resource_mut::<Time<Virtual>>().unpause(),
        Op::Speed(p) => w.resource_mut::<Time<Virtual>>().set_relative_speed(*p as f32 / 100.0),
        Op::Step(d) => w.resource_mut::<Time<Fixed>>().set_timestep(ms(*d)),
    }
}
fn pre_sys(w: &mut World) {
    let h = hs(w);
    let f = {
        let g = lock(&h);
        g.c.frames.get(g.frame).map(|f| f.pre.clone()).unwrap_or_default()
    };
    for o in &f {
        exec(w, o)
    }
}
fn mid_sys(w: &mut World) {
    let h = hs(w);
    let f = {
        let g = lock(&h);
        g.c.frames.get(g.frame).map(|f| f.mid.clone()).unwrap_or_default()
    };
    for o in &f {
        exec(w, o)
    }
}
fn probe<C: Clock>(x: usize) -> impl Fn(Res<Drv>, Res<Time<C>>) {
    move |d: Res<Drv>, t: Res<Time<C>>| mark(&d.0, Tr::Tick(x, t.elapsed().as_nanos()))
}
fn after(d: Res<Drv>) {
    // whatever happens from here on does not belong to the tick
    let mut g = lock(&d.0);
    g.step += 1;
    set_step(g.step);
}

// ---------------------------------------------------------------------------------------------
// The reference
#[derive(Clone, Default)]
struct RawM {
    on: bool,
    due: u64,
    left: usize,
    invoked: bool,
}
struct PM<'a> {
    m: Model<'a>,
    subbed: bool,
    exp: Vec<(u32, Ntf)>,
    closed: Option<u32>,
}
struct Ref<'a> {
    c: &'a Case,
    now: [u64; 4],
    pm: Vec<PM<'a>>,
    raw: Vec<RawM>,
    works: Vec<Vec<(u32, u64)>>,
}
impl<'a> Ref<'a> {
    fn new(c: &'a Case, ideal: bool) -> Self {
        Ref {
            c,
            now: [0; 4],
            pm: c.pipes.iter().map(|p| PM { m: Model::new(&p.1, ideal), subbed: false, exp: vec![], closed: None }).collect(),
            raw: vec![RawM::default(); c.raws.len()],
            works: vec![vec![]; c.raws.len()],
        }
    }
    fn feed(&mut self, step: u32, t: &Tr) {
        match t {
            Tr::Tick(x, ns) => {
                let now = units_ns(*ns).unwrap_or(u64::MAX / 4);
                self.now[*x] = now;
                for p in 0..self.pm.len() {
                    if self.c.pipes[p].0 == *x {
                        let m = &mut self.pm[p].m;
                        let d = now - m.now;
                        m.tick(d);
                    }
                }
                for k in 0..self.raw.len() {
                    if self.c.raws[k].0 != *x || !self.raw[k].on {
                        continue;
                    }
                    let s = &mut self.raw[k];
                    let w = &mut self.works[k];
                    match self.c.raws[k].1 {
                        RK::Now => {
                            w.push((step, now));
                            s.on = false;
                        }
                        RK::Delay(_) => {
                            if s.due <= now {
                                w.push((step, now));
                                s.on = false;
                            }
                        }
                        RK::Every(_) => {
                            w.push((step, now));
                            s.left -= 1;
                            s.on = s.left > 0;
                        }
                        RK::Repeat(int, _, max, _) => {
                            let mut n = 0;
                            while s.due <= now && s.on {
                                if n < max {
                                    w.push((step, now));
                                    s.left -= 1;
                                    s.on = s.left > 0;
                                }
                                n += 1;
                                s.due += int;
                            }
                        }
                        RK::Invoked => {
                            if s.invoked {
                                w.push((step, now));
                                s.on = false;
                                s.invoked = false;
                            }
                        }
                    }
                }
                for k in 0..self.raw.len() {
                    if self.c.raws[k].0 == *x {
                        // an invocation of nothing is forgotten
                        self.raw[k].invoked = false;
                    }
                }
            }
            Tr::Op(o) => match o {
                Op::Sub(p) => {
                    let n = self.c.pipes[*p].1.ops.len();
                    let pm = &mut self.pm[*p];
                    pm.subbed = true;
                    pm.m.subscribe(n);
                    pm.m.handle = true;
                }
                Op::Unsub(p) => self.pm[*p].m.unsub_handle(),
                Op::Drop(p) => {
                    let m = &mut self.pm[*p].m;
                    m.unsub_handle();
                    m.handle = false;
                }
                Op::Push(p, n) => self.pm[*p].m.push(n.clone()),
                Op::PushIn(p, n) => self.pm[*p].m.at(FREE, 0, TW::Push(n.clone())),
                Op::UnsubIn(p) => self.pm[*p].m.at(FREE, 0, TW::Unsub),
                Op::Raw(k) => {
                    let (x, kind) = self.c.raws[*k].clone();
                    let now = self.now[x];
                    let s = &mut self.raw[*k];
                    s.on = true;
                    match kind {
                        RK::Delay(d) => s.due = now + d,
                        RK::Every(n) => s.left = n,
                        RK::Repeat(d, start, _, n) => {
                            s.due = if start { now } else { now + d };
                            s.left = n;
                        }
                        _ => {}
                    }
                }
                Op::Cancel(k) => {
                    if !matches!(self.c.raws[*k].1, RK::Invoked) {
                        self.raw[*k].on = false;
                    }
                }
                Op::Invoke(k) => {
                    if matches!(self.c.raws[*k].1, RK::Invoked) {
                        self.raw[*k].invoked = true;
                    }
                }
                Op::CancelInvoked(k) => {
                    if matches!(self.c.raws[*k].1, RK::Invoked) {
                        self.raw[*k].on = false;
                        self.raw[*k].invoked = false;
                    }
                }
                _ => {}
            },
        }
        for p in &mut self.pm {
            for n in std::mem::take(&mut p.m.out) {
                p.exp.push((step, n));
            }
            if p.m.sink_closed && p.closed.is_none() {
                p.closed = Some(step);
            }
        }
    }
}

pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let big = cx.thorough && r.chance(1, 3);
    let c = generate(r, big);
    cx.publish(format!("{c:?}"));
    let mut app = App::new();
    app.add_plugins(TimePlugin);
    app.add_plugins((
        RxPlugin,
        RxSchedulerPlugin::<Update, Virtual>::default(),
        RxSchedulerPlugin::<FixedUpdate, Fixed>::default(),
        RxSchedulerPlugin::<PostUpdate, Real>::default(),
        RxSchedulerPlugin::<Update, Real>::default(),
    ));
    app.insert_resource(Time::<Fixed>::from_duration(ms(16)));
    app.insert_resource(Time::<Virtual>::from_max_delta(ms(250)));
    app.add_systems(PreUpdate, pre_sys);
    app.add_systems(SpawnScene, mid_sys);
    app.add_systems(
        Update,
        (
            probe::<Virtual>(0).before(rx_executor::<Update, Virtual>),
            after.after(rx_executor::<Update, Virtual>).before(rx_executor::<Update, Real>),
            probe::<Real>(3).after(after).before(rx_executor::<Update, Real>),
        ),
    );
    app.add_systems(Update, (|d: Res<Drv>| after(d)).after(rx_executor::<Update, Real>));
    app.add_systems(FixedUpdate, (probe::<Fixed>(1).before(rx_executor::<FixedUpdate, Fixed>), after.after(rx_executor::<FixedUpdate, Fixed>)));
    app.add_systems(PostUpdate, (probe::<Real>(2).before(rx_executor::<PostUpdate, Real>), after.after(rx_executor::<PostUpdate, Real>)));
    let w = app.world_mut();
    let sched: Vec<Hndl> = vec![
        SystemState::<RxSchedule<Update, Virtual>>::new(w).get_mut(w).handle(),
        SystemState::<RxSchedule<FixedUpdate, Fixed>>::new(w).get_mut(w).handle(),
        SystemState::<RxSchedule<PostUpdate, Real>>::new(w).get_mut(w).handle(),
        SystemState::<RxSchedule<Update, Real>>::new(w).get_mut(w).handle(),
    ];
    let pipes: Vec<Arc<Pipe>> = c
        .pipes
        .iter()
        .enumerate()
        .map(|(p, (x, pc))| {
            let src = Src::new(1000 + p as u32, if let TSrc::Src(v, _) = &pc.src { vec![v.clone()] } else { vec![] }, false);
            let src = if let TSrc::Src(_, true) = &pc.src { src.keeping() } else { src };
            let subj = PublishSubject::<Val, Val>::default();
            let h = sched[*x].clone();
            let o: Obs = time_pipeline!(pc, src, subj, h, RxBevyContextItem<'_>);
            Arc::new(Pipe { obs: Mutex::new(Some(o)), slot: Default::default(), src, subj })
        })
        .collect();
    let cancel = c.raws.iter().map(|r| sched[r.0].lock().generate_cancellation_id()).collect();
    let invoke = c.raws.iter().map(|r| sched[r.0].lock().generate_invoke_id()).collect();
    let free = sched.iter().map(|s| s.lock().generate_cancellation_id()).collect();
    let h = Arc::new(Mutex::new(Hs { c: c.clone(), frame: 0, step: 1, trace: vec![], sched, pipes: pipes.clone(), cancel, invoke, free }));
    w.insert_resource(Drv(h.clone()));
    for (fi, f) in c.frames.iter().enumerate() {
        lock(&h).frame = fi;
        for o in &f.out {
            exec(app.world_mut(), o);
        }
        app.insert_resource(TimeUpdateStrategy::ManualDuration(ms(f.real)));
        app.update();
    }
    // everything ends
    for p in 0..c.pipes.len() {
        exec(app.world_mut(), &Op::Drop(p));
    }
    for k in 0..c.raws.len() {
        exec(app.world_mut(), &Op::Cancel(k));
        exec(app.world_mut(), &Op::CancelInvoked(k));
    }
    exec(app.world_mut(), &Op::Unpause);
    exec(app.world_mut(), &Op::Step(16));
    lock(&h).frame = c.frames.len();
    for d in [0, 100, 1000, 1000, 16] {
        app.insert_resource(TimeUpdateStrategy::ManualDuration(ms(d)));
        app.update();
    }
    let w = app.world();
    let empty = [
        w.resource::<RxBevyExecutor<Update, Virtual>>().is_empty(),
        w.resource::<RxBevyExecutor<FixedUpdate, Fixed>>().is_empty(),
        w.resource::<RxBevyExecutor<PostUpdate, Real>>().is_empty(),
        w.resource::<RxBevyExecutor<Update, Real>>().is_empty(),
    ];
    for (x, e) in empty.into_iter().enumerate() {
        if !e {
            viol("C16+C14", format!("{FAM}: work left in the executor of {} after everything ended", CLOCKS[x]), "");
        }
    }
    let trace = std::mem::take(&mut lock(&h).trace);
    let inexact = trace.iter().any(|(_, t)| matches!(t, Tr::Tick(_, n) if units_ns(*n).is_none()));
    let lg = log_from(0);
    let mut n = 0;
    if inexact {
        cx.stat("inexact clocks (not judged)", 1);
    } else {
        judge(&c, &trace, &lg, &mut n);
    }
    cx.stat("notifications and works compared", n);
    for (_, t) in &trace {
        if let Tr::Tick(x, _) = t {
            cx.stat(["ticks of Update/Virtual", "ticks of FixedUpdate/Fixed", "ticks of PostUpdate/Real", "ticks of Update/Real"][*x], 1);
        }
    }
    cx.nontrivial = n >= 4 && !inexact;
    cx.fp = lg.iter().fold(7, |a: u64, e| (a ^ h_of(e)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(9));
    drop(app);
    drop(pipes);
    drop(h);
    if live() != 0 && with(|r| r.viols.is_empty()) {
        viol("C16+C14", format!("{FAM}: values or callbacks still alive after the app was dropped"), format!("{} tokens", live()));
    }
}
fn h_of(e: &(u32, Ev)) -> u64 {
    format!("{e:?}").bytes().fold(0xcbf29ce484222325, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3))
}
fn judge(c: &Case, trace: &[(u32, Tr)], lg: &[(u32, Ev)], n: &mut u64) {
    let mut refs: Vec<Ref> = [false, true].into_iter().map(|i| Ref::new(c, i)).collect();
    for (s, t) in trace {
        for r in &mut refs {
            r.feed(*s, t);
        }
    }
    let at = |s: u32| trace.iter().rev().find(|(x, _)| *x <= s).map(|(x, t)| format!("{x}: {t:?}")).unwrap_or_default();
    for (p, (x, pc)) in c.pipes.iter().enumerate() {
        let got: Vec<(u32, Ntf)> = lg
            .iter()
            .filter_map(|(s, e)| match e {
                Ev::Sink(k, n) if *k == p as u32 => Some((*s, n.clone())),
                _ => None,
            })
            .collect();
        let closed = lg.iter().find(|(_, e)| matches!(e, Ev::SinkClosed(k) if *k == p as u32)).map(|x| x.0);
        *n += got.len() as u64;
        let mut bad = None;
        for r in &refs {
            let e = &r.pm[p].exp;
            let k = e.iter().zip(&got).take_while(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)).count();
            if k < e.len() || k < got.len() {
                let (ne, ng) = (e.iter().map(|x| &x.1), got.iter().map(|x| &x.1));
                let what = if e.len() == got.len() && ne.zip(ng).all(|(a, b)| same(a, b)) {
                    "emitted at the wrong moment"
                } else if k == e.len() {
                    "emitted too much"
                } else if k == got.len() {
                    "emitted too little"
                } else {
                    "emitted something else"
                };
                let st = e.get(k).map(|x| x.0).into_iter().chain(got.get(k).map(|x| x.0)).min().unwrap_or(0);
                bad.get_or_insert((what, format!("pipe {p} on {}: expected {:?}, observed {:?} at {}", CLOCKS[*x], e.get(k), got.get(k), at(st))));
                continue;
            }
            if pc.raw && r.pm[p].subbed && closed != r.pm[p].closed {
                bad.get_or_insert(("closed its destination at the wrong moment", format!("pipe {p} on {}: expected {:?}, observed {closed:?}", CLOCKS[*x], r.pm[p].closed)));
                continue;
            }
            bad = None;
            break;
        }
        if let Some((what, d)) = bad {
            let main = pc.ops.iter().find(|o| !matches!(o, TOp::Map | TOp::Take(_) | TOp::Filter(_)));
            let name = match main {
                Some(o) => format!("{o:?}").split('(').next().unwrap().to_string(),
                None => format!("{:?}", pc.src).split('(').next().unwrap().to_string(),
            };
            viol("C16", format!("{FAM}: {name} {what}"), d);
        }
    }
    for (k, (x, kind)) in c.raws.iter().enumerate() {
        let got: Vec<(u32, u64)> = lg
            .iter()
            .filter_map(|(s, e)| match e {
                Ev::Work(w, at) if *w == k as u32 => Some((*s, units_ns(*at as u128).unwrap_or(u64::MAX / 4))),
                _ => None,
            })
            .collect();
        *n += got.len() as u64;
        let e = &refs[0].works[k];
        if *e != got {
            let j = e.iter().zip(&got).take_while(|(a, b)| a == b).count();
            let st = e.get(j).map(|x| x.0).into_iter().chain(got.get(j).map(|x| x.0)).min().unwrap_or(0);
            let name = format!("{kind:?}").split('(').next().unwrap().to_string();
            viol("C16", format!("{FAM}: {name} work ran at the wrong moment"), format!("work {k} {kind:?} on {}: expected (step, now) {:?}, observed {:?} at {}", CLOCKS[*x], e.get(j), got.get(j), at(st)));
        }
    }
    for (s, e) in lg {
        if let Ev::Late(p, n) = e {
            viol("C16+C01", format!("{FAM}: closed destination notified"), format!("pipe {p} {n:?} at {}", at(*s)));
        }
    }
}
