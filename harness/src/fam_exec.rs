//! S5: the ticking executor on its own, compared run by run with a reference model.
use crate::rt::*;
use crate::runner::Ctx;
use crate::sched::*;
use crate::val::*;
use rx_core::{SchedulerScheduleWorkExtension, Scheduler, WorkCancellationId, WorkInvokeId, WorkResult, WorkTick};
use rx_core_scheduler_ticking::TickedInvokedWorkFactory;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Immediate,
    Delayed(u64),
    /// interval, start immediately, max per tick
    Repeat(u64, bool, usize),
    Continuous,
    /// in this invoke slot
    Invoked(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Act {
    Sched(usize),
    Cancel(usize),
    Invoke(usize),
    CancelInvoked(usize),
}
#[derive(Clone, Debug)]
struct Spec {
    kind: Kind,
    slot: usize,
    /// what to do during its k-th run
    acts: BTreeMap<usize, Vec<Act>>,
    /// the run at which it reports done
    done_at: usize,
    /// what to do when it is dropped
    on_drop: Option<Act>,
}
#[derive(Clone, Debug)]
enum Step {
    Do(Act),
    Tick(u64),
    TickTo(u64),
}
#[derive(Clone, Debug)]
struct Case {
    specs: Vec<Spec>,
    steps: Vec<Step>,
}
const SLOTS: usize = 4;
const INV: usize = 3;

fn gen_act(r: &mut Rng, lo: usize, n: usize) -> Act {
    match r.below(10) {
        0..=3 if lo < n => Act::Sched(lo + r.below(n - lo)),
        0..=6 => Act::Cancel(r.below(SLOTS)),
        7 | 8 => Act::Invoke(r.below(INV)),
        _ => Act::CancelInvoked(r.below(INV)),
    }
}
fn generate(r: &mut Rng) -> Case {
    let n = 1 + r.below(7);
    let wild = r.chance(1, 3);
    let specs: Vec<Spec> = (0..n)
        .map(|k| {
            let kind = match r.below(12) {
                0..=1 => Kind::Immediate,
                2..=4 => Kind::Delayed(*r.pick(&[0, 1, 3, 5, 10, 20, 35])),
                5..=7 => Kind::Repeat(*r.pick(&[0, 1, 2, 5, 7, 10, 13]), r.chance(1, 3), *r.pick(&[0, 1, 1, 2, 3, 100])),
                8 | 9 => Kind::Continuous,
                _ => Kind::Invoked(r.below(INV)),
            };
            let mut acts: BTreeMap<usize, Vec<Act>> = BTreeMap::new();
            if r.chance(1, 2) {
                for _ in 0..1 + r.below(3) {
                    let a = gen_act(r, k + 1, n);
                    acts.entry(1 + r.below(4)).or_default().push(a);
                }
            }
            let on_drop = if wild && r.chance(1, 3) { Some(gen_act(r, n, n)) } else { None };
            Spec { kind, slot: r.below(SLOTS), acts, done_at: if r.chance(1, 3) { 1000 } else { 1 + r.below(5) }, on_drop }
        })
        .collect();
    let mut steps = vec![];
    for _ in 0..3 + r.below(22) {
        steps.push(match r.below(20) {
            0..=7 => Step::Do(Act::Sched(r.below(n))),
            8 => Step::Do(Act::Cancel(r.below(SLOTS))),
            9 | 10 => Step::Do(Act::Invoke(r.below(INV))),
            11 if r.chance(1, 2) => Step::Do(Act::CancelInvoked(r.below(INV))),
            12 if r.chance(1, 2) => Step::TickTo(r.below(60) as u64),
            _ => Step::Tick(*r.pick(&[0, 1, 2, 3, 5, 5, 7, 10, 11, 20, 33, 100])),
        });
    }
    Case { specs, steps }
}

// --- the real thing -------------------------------------------------------------------------
struct World {
    handle: Option<Handle>,
    cids: Vec<WorkCancellationId>,
    iids: Vec<WorkInvokeId>,
    specs: Vec<Spec>,
    inst: u32,
}
thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn handle() -> Option<(Handle, Vec<WorkCancellationId>, Vec<WorkInvokeId>)> {
    W.with(|w| w.borrow().as_ref().and_then(|w| w.handle.clone().map(|h| (h, w.cids.clone(), w.iids.clone()))))
}
struct Body {
    inst: u32,
    runs: usize,
    spec: Spec,
    _t: Tok,
}
impl Body {
    fn run(&mut self, now: u64) -> WorkResult {
        self.runs += 1;
        log(Ev::Work(self.inst, now));
        let acts = self.spec.acts.get(&self.runs).cloned().unwrap_or_default();
        let mut own = false;
        for a in &acts {
            own |= *a == Act::Cancel(self.spec.slot);
            perform(a);
        }
        if self.runs >= self.spec.done_at || own { WorkResult::Done } else { WorkResult::Pending }
    }
}
impl Drop for Body {
    fn drop(&mut self) {
        log(Ev::Td(self.inst));
        if let Some(a) = &self.spec.on_drop {
            perform(a);
        }
    }
}
fn perform(a: &Act) {
    let Some((h, cids, iids)) = handle() else { return };
    match a {
        Act::Sched(k) => {
            let (inst, spec) = W.with(|w| {
                let mut w = w.borrow_mut();
                let w = w.as_mut().unwrap();
                w.inst += 1;
                (w.inst, w.specs[*k].clone())
            });
            let cid = cids[spec.slot];
            let mut b = Body { inst, runs: 0, spec: spec.clone(), _t: Tok::counted() };
            let mut s = h.lock();
            match spec.kind {
                Kind::Immediate => s.schedule_immediate_work(
                    move |t, _| {
                        b.run(units(t.now()));
                    },
                    cid,
                ),
                Kind::Delayed(d) => s.schedule_delayed_work(
                    move |t, _| {
                        b.run(units(t.now()));
                    },
                    ms(d),
                    cid,
                ),
                Kind::Repeat(i, st, mx) => s.schedule_repeated_work(move |t, _| b.run(units(t.now())), ms(i), st, mx, cid),
                Kind::Continuous => s.schedule_continuous_work(move |t, _| b.run(units(t.now())), cid),
                Kind::Invoked(i) => {
                    use rx_core::InvokedTaskFactory;
                    let w = TickedInvokedWorkFactory::<CxP>::new(move |t: rx_core_scheduler_ticking::Tick, _: &mut Cx| b.run(units(t.now())));
                    s.schedule_invoked_work(w, iids[i])
                }
            }
        }
        Act::Cancel(k) => h.lock().cancel(cids[*k]),
        Act::Invoke(k) => h.lock().invoke(iids[*k]),
        Act::CancelInvoked(k) => h.lock().cancel_invoked(iids[*k]),
    }
}

// --- the model --------------------------------------------------------------------------------
struct MW {
    inst: u32,
    spec: Spec,
    runs: usize,
    cancel_slot: usize,
    /// scheduled at / consumed until
    at: u64,
    started: bool,
}
enum Q {
    Add(MW),
    AddInv(usize, MW),
    Cancel(usize),
    Invoke(usize),
    CancelInv(usize),
}
#[derive(Default)]
struct Model {
    specs: Vec<Spec>,
    queue: Vec<Q>,
    active: Vec<(u64, MW)>,
    wid: u64,
    invokable: BTreeMap<usize, MW>,
    invoked: Vec<usize>,
    now: u64,
    inst: u32,
    out: Vec<Ev>,
    dead: bool,
}
impl Model {
    fn act(&mut self, a: &Act) {
        match a {
            Act::Sched(k) => {
                self.inst += 1;
                let spec = self.specs[*k].clone();
                let w = MW { inst: self.inst, cancel_slot: spec.slot, runs: 0, at: self.now, started: false, spec };
                if let Kind::Invoked(i) = w.spec.kind { self.queue.push(Q::AddInv(i, w)) } else { self.queue.push(Q::Add(w)) }
            }
            Act::Cancel(k) => self.queue.push(Q::Cancel(*k)),
            Act::Invoke(k) => self.queue.push(Q::Invoke(*k)),
            Act::CancelInvoked(k) => self.queue.push(Q::CancelInv(*k)),
        }
    }
    fn dropped(&mut self, w: MW) {
        self.out.push(Ev::Td(w.inst));
        if !self.dead
            && let Some(a) = w.spec.on_drop.clone()
        {
            self.act(&a);
        }
    }
    /// true: done
    fn run(&mut self, w: &mut MW) -> bool {
        w.runs += 1;
        self.out.push(Ev::Work(w.inst, self.now));
        let acts = w.spec.acts.get(&w.runs).cloned().unwrap_or_default();
        let mut own = false;
        for a in &acts {
            own |= *a == Act::Cancel(w.spec.slot);
            self.act(a);
        }
        w.runs >= w.spec.done_at || own
    }
    fn tick_to(&mut self, at: u64) {
        self.now = self.now.max(at);
        let mut ticked: Vec<u64> = vec![];
        loop {
            let q = std::mem::take(&mut self.queue);
            let had = !q.is_empty();
            for x in q {
                match x {
                    Q::Add(w) => {
                        self.wid += 1;
                        self.active.push((self.wid, w));
                    }
                    Q::AddInv(i, w) => {
                        if let Some(old) = self.invokable.insert(i, w) {
                            self.dropped(old);
                        }
                    }
                    Q::Cancel(k) => {
                        let (gone, keep): (Vec<_>, Vec<_>) = std::mem::take(&mut self.active).into_iter().partition(|(_, w)| w.cancel_slot == k);
                        self.active = keep;
                        for (_, w) in gone {
                            self.dropped(w);
                        }
                    }
                    Q::Invoke(k) => self.invoked.push(k),
                    Q::CancelInv(k) => {
                        self.invoked.retain(|x| *x != k);
                        if let Some(w) = self.invokable.remove(&k) {
                            self.dropped(w);
                        }
                    }
                }
            }
            let todo: Vec<u64> = self.active.iter().map(|a| a.0).filter(|w| !ticked.contains(w)).collect();
            let mut finished = vec![];
            let mut any = false;
            for wid in todo {
                let k = self.active.iter().position(|a| a.0 == wid).unwrap();
                if self.queue.iter().any(|q| matches!(q, Q::Cancel(c) if *c == self.active[k].1.cancel_slot)) {
                    continue;
                }
                any = true;
                ticked.push(wid);
                let (_, mut w) = self.active.remove(k);
                let mut done = false;
                let mut gone = false;
                match w.spec.kind {
                    Kind::Immediate => {
                        self.run(&mut w);
                        (done, gone) = (true, true);
                    }
                    Kind::Delayed(d) => {
                        if w.at + d <= self.now {
                            self.run(&mut w);
                            (done, gone) = (true, true);
                        }
                    }
                    Kind::Continuous => done = self.run(&mut w),
                    Kind::Repeat(i, st, mx) => {
                        let mx = mx.max(1);
                        let mut n = 0;
                        if st && !w.started {
                            w.started = true;
                            done = self.run(&mut w);
                            n = 1;
                        }
                        while !done && w.at + i <= self.now && !(i == 0 && n >= mx) {
                            w.at += i;
                            if n < mx {
                                done = self.run(&mut w);
                            }
                            n += 1;
                        }
                    }
                    Kind::Invoked(_) => unreachable!(),
                }
                if gone {
                    // a work that runs once is gone as soon as it has run
                    self.dropped(MW { inst: w.inst, spec: w.spec.clone(), runs: 0, cancel_slot: 0, at: 0, started: false });
                    w.inst = 0;
                }
                if done {
                    finished.push(wid);
                }
                self.active.insert(k, (wid, w));
            }
            for wid in finished {
                let k = self.active.iter().position(|a| a.0 == wid).unwrap();
                let (_, w) = self.active.remove(k);
                if w.inst != 0 {
                    self.dropped(w);
                }
            }
            for k in std::mem::take(&mut self.invoked) {
                if self.queue.iter().any(|q| matches!(q, Q::CancelInv(c) if *c == k)) {
                    continue;
                }
                if let Some(mut w) = self.invokable.remove(&k) {
                    if self.run(&mut w) {
                        self.dropped(w);
                    } else {
                        self.invokable.insert(k, w);
                    }
                }
            }
            if !had && !any {
                break;
            }
        }
    }
}

pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let c = generate(r);
    cx.publish(format!("{c:?}"));
    let mut e = exec();
    let h = e.get_scheduler_handle_();
    let (cids, iids) = {
        let mut s = h.lock();
        ((0..SLOTS).map(|_| s.generate_cancellation_id()).collect::<Vec<_>>(), (0..INV).map(|_| s.generate_invoke_id()).collect::<Vec<_>>())
    };
    W.with(|w| *w.borrow_mut() = Some(World { handle: Some(h), cids, iids, specs: c.specs.clone(), inst: 0 }));
    let mut m = Model { specs: c.specs.clone(), ..Default::default() };
    let mut mark = 0;
    let mut nested = 0;
    let mut ticks = 0;
    for (k, s) in c.steps.iter().enumerate() {
        set_step(k as u32 + 1);
        match s {
            Step::Do(a) => {
                perform(a);
                m.act(a);
            }
            Step::Tick(d) => {
                let at = units(e.now()) + d;
                tick(&mut e, *d);
                m.tick_to(at);
                ticks += 1;
            }
            Step::TickTo(at) => {
                tick_to(&mut e, *at);
                m.tick_to(*at);
                ticks += 1;
            }
        }
        let new = log_from(mark);
        mark += new.len();
        let got: Vec<Ev> = new.into_iter().map(|x| x.1).collect();
        let exp = std::mem::take(&mut m.out);
        let w = |xs: &[Ev]| xs.iter().filter(|e| matches!(e, Ev::Work(..))).cloned().collect::<Vec<_>>();
        nested += exp.len();
        if w(&got) != w(&exp) {
            viol("C09", "exec: works run differ from the reference", format!("step {k} {s:?}: expected {:?}, observed {:?}", w(&exp), w(&got)));
            break;
        }
        let d = |xs: &[Ev]| {
            let mut v: Vec<u32> = xs.iter().filter_map(|e| if let Ev::Td(i) = e { Some(*i) } else { None }).collect();
            v.sort();
            v
        };
        if d(&got) != d(&exp) {
            viol("C14+C09", "exec: work kept or dropped at the wrong time", format!("step {k} {s:?}: expected drops of {:?}, observed {:?}", d(&exp), d(&got)));
            break;
        }
        if e.is_empty() != (m.active.is_empty() && m.invokable.is_empty()) {
            viol("C09", "exec: is_empty differs from the reference", format!("step {k}: is_empty {}", e.is_empty()));
            break;
        }
        if units(e.now()) != m.now {
            viol("C09", "exec: time differs from the reference", format!("step {k}: now {:?}, expected {}", e.now(), m.now));
            break;
        }
    }
    W.with(|w| w.borrow_mut().as_mut().unwrap().handle = None);
    set_step(1000);
    drop(e);
    W.with(|w| *w.borrow_mut() = None);
    if live() != 0 {
        viol("C14", "exec: work alive after the executor was dropped", format!("{} tokens", live()));
    }
    let log = log_from(0);
    let runs = log.iter().filter(|(_, e)| matches!(e, Ev::Work(..))).count();
    cx.stat("work runs observed", runs as u64);
    cx.stat("ticks", ticks);
    cx.nontrivial = runs >= 3 && nested > 3;
    cx.fp = crate::fam_linear::fp_log() ^ crate::runner::fam_no(&format!("{:?}", c.specs));
}

trait GetHandle {
    fn get_scheduler_handle_(&self) -> Handle;
}
impl GetHandle for Exec {
    fn get_scheduler_handle_(&self) -> Handle {
        use rx_core::WorkExecutor;
        self.get_scheduler_handle()
    }
}
