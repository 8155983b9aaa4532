//! S12: subscriptions of one pipeline are independent, and how it is put together does not matter.
//! No reference model: each subscription of an interleaved history is compared with the same
//! subscription alone, and with the same subscription of the pipeline put together differently.
use crate::fam_ho::SubscriptionWithTeardown;
use crate::fam_linear::{fp_log, gen_ntf, gen_val};
use crate::ops::*;
use crate::rt::*;
use crate::runner::Ctx;
use crate::sched::*;
use crate::val::*;
use rx_core::prelude::*;

#[derive(Clone, Debug)]
enum P {
    Src(usize),
    Just(Val),
    Iter(Vec<Val>),
    Create(Vec<Ntf>),
    Empty,
    Throw(Val),
    Interval(u64, bool),
    Timer(u64),
    Deferred(Box<P>),
    Op(Op, Box<P>),
    /// policy, all-variant, outer, inners, inner pipelines are made once and cloned
    Ho(u8, bool, Box<P>, Vec<P>, bool),
    /// a fixed set: 0 concat, 1.. merge with limit
    Flat(usize, Vec<P>),
    Comb(u8, Box<P>, Box<P>),
    Retry(usize, Box<P>),
    Catch(Box<P>, Box<P>),
    Time(TOp, Box<P>),
}
#[derive(Clone, Debug)]
enum TOp {
    Delay(u64),
    Debounce(u64),
    Throttle(u64, u8),
    ObserveOn,
    Fallback,
}
#[derive(Clone, Debug)]
enum Step {
    Start(u32),
    Emit(u32, usize, Ntf),
    SrcUnsub(u32, usize),
    Unsub(u32),
    Drop(u32),
    AddTd(u32),
    Tick(u64),
}
#[derive(Clone, Debug)]
struct Case {
    p: P,
    prefix: Vec<Vec<Vec<Ntf>>>,
    keep: bool,
    /// operators which postpone an unsubscription: what the handle says then is not compared
    pending: bool,
    n: u32,
    raw: Vec<bool>,
    close_at: Vec<Option<usize>>,
    steps: Vec<Step>,
    /// how the comparison pipeline is put together
    style: u64,
}

struct G<'a> {
    r: &'a mut Rng,
    ids: u32,
    ns: usize,
    /// below something that may subscribe to an erased observable while it is being subscribed to
    below: u32,
    /// below something that may subscribe again to a `retry` while that is retrying
    again: u32,
}
impl G<'_> {
    fn leaf(&mut self, timed: bool) -> P {
        match self.r.below(if timed { 22 } else { 20 }) {
            0 => P::Just(gen_val(self.r)),
            1 | 2 => P::Iter((0..self.r.below(4)).map(|_| gen_val(self.r)).collect()),
            3 => {
                let n = self.r.below(4);
                let mut v: Vec<Ntf> = (0..n).map(|_| gen_ntf(self.r, 30)).collect();
                // nothing after a terminal: sources that break the contract panic in debug builds
                if let Some(k) = v.iter().position(|n| !matches!(n, Ntf::N(_))) {
                    v.truncate(k + 1);
                }
                P::Create(v)
            }
            4 => if self.r.chance(1, 2) { P::Empty } else { P::Throw(t("err", vec![i(1)])) },
            20 => P::Interval(1 + self.r.below(30) as u64, self.r.chance(1, 2)),
            21 => P::Timer(self.r.below(30) as u64),
            _ => P::Src(self.r.below(self.ns)),
        }
    }
    fn op(&mut self) -> Op {
        loop {
            self.ids += 1;
            let o = gen_op(self.r, self.ids);
            // the observer given to `tap` is shared by design: see known_findings.txt
            // nor does anything end after `into_result` was given an error
            if matches!(o, Op::Tap(_) | Op::IntoResult) {
                continue;
            }
            return o;
        }
    }
    /// timed: sources may emit from the scheduler (then nothing may be subscribed late, because
    /// what is subscribed inside a tick cannot be attributed to one of the subscriptions)
    fn p(&mut self, depth: usize, timed: bool) -> P {
        if depth == 0 || self.r.chance(1, 10) {
            return self.leaf(timed);
        }
        let d = depth - 1;
        match self.r.below(22) {
            0..=8 => P::Op(self.op(), Box::new(self.p(d, timed))),
            9..=12 => {
                let n = 1 + self.r.below(2);
                self.below += 1;
                let outer = Box::new(self.p(d, false));
                self.below -= 1;
                let pol = self.r.below(5) as u8;
                // a clone of an erased observable cannot be subscribed to while another one is
                let once = pol >= 3 && self.below == 0 && self.r.chance(1, 3);
                P::Ho(pol, self.r.chance(1, 3), outer, (0..n).map(|_| self.p(d.min(1), false)).collect(), once)
            }
            13 => {
                // attempts of `retry` share erased inputs, which cannot be subscribed to re-entrantly
                let k = if self.below > 0 { 2 } else { self.r.below(3) };
                // concat subscribes late
                P::Flat(k, (0..2).map(|_| self.p(d.min(2), timed && k == 2)).collect())
            }
            14..=16 => P::Comb(self.r.below(5) as u8, Box::new(self.p(d, timed)), Box::new(self.p(d, timed))),
            17..=19 => {
                let retry = self.again == 0 && self.r.chance(2, 3);
                self.below += 1;
                self.again += 1;
                let p = Box::new(self.p(d, false));
                self.again -= 1;
                self.below -= 1;
                if retry { P::Retry(self.r.below(3), p) } else { P::Catch(p, Box::new(self.p(d.min(1), false))) }
            }
            20 => P::Deferred(Box::new(self.p(d, timed))),
            _ => self.leaf(timed),
        }
    }
}
/// The handle of a synchronous source does nothing once the operator next to it reports closed; an
/// operator may report that on its own while what is behind it stays open (see known_findings.txt).
/// Such sources are replaced. `open`: what is behind may stay open after a terminal notification;
/// `shut`: what is behind may be closed by something else.
fn tame(p: &mut P, open: bool, shut: bool, bad: bool) {
    let worse = bad || open || shut;
    match p {
        P::Just(_) | P::Iter(_) | P::Create(_) | P::Empty | P::Throw(_) => {
            if bad {
                *p = P::Src(0);
            }
        }
        P::Src(_) | P::Interval(..) | P::Timer(_) => {}
        P::Deferred(p) => tame(p, open, shut, bad),
        P::Op(op, p) => tame(p, open, shut, bad || open && matches!(op, Op::Take(_) | Op::ElementAt(_) | Op::ElementAtOr(..) | Op::CompSTE(..))),
        P::Ho(_, _, outer, inners, _) => {
            tame(outer, true, true, worse);
            inners.iter_mut().for_each(|p| tame(p, false, true, false));
        }
        P::Flat(_, ps) => ps.iter_mut().for_each(|p| tame(p, false, true, false)),
        P::Comb(4, a, b) => {
            tame(a, open, true, worse);
            tame(b, false, true, false);
        }
        P::Comb(_, a, b) => {
            tame(a, false, true, false);
            tame(b, false, true, false);
        }
        P::Retry(_, p) => tame(p, true, true, worse),
        P::Catch(p, alt) => {
            tame(p, true, true, worse);
            tame(alt, false, true, false);
        }
        P::Time(TOp::Fallback, p) => tame(p, open, true, worse),
        P::Time(_, p) => tame(p, true, true, worse),
    }
}
fn generate(r: &mut Rng, big: bool) -> Case {
    let ns = 1 + r.below(3);
    let timed = r.chance(2, 5);
    let depth = 1 + r.below(4);
    let mut g = G { r, ids: 0, ns, below: 0, again: 0 };
    let mut p = g.p(depth, timed);
    let mut pending = false;
    if timed {
        for _ in 0..g.r.below(3) {
            let d = 1 + g.r.below(40) as u64;
            let o = match g.r.below(10) {
                0..=2 => TOp::Delay(d),
                3..=5 => TOp::Debounce(d),
                6 => TOp::Throttle(d, g.r.below(3) as u8),
                7 => TOp::ObserveOn,
                _ => TOp::Fallback,
            };
            pending |= !matches!(o, TOp::Fallback);
            p = P::Time(o, Box::new(p));
            if g.r.chance(1, 2) {
                p = P::Op(g.op(), Box::new(p));
            }
        }
    }
    tame(&mut p, false, false, false);
    let n = 2 + r.below(if big { 4 } else { 2 }) as u32;
    let prefix = (0..ns)
        .map(|_| {
            if r.chance(1, 2) {
                return vec![];
            }
            (0..1 + r.below(2))
                .map(|_| {
                    let mut v: Vec<Ntf> = (0..r.below(3)).map(|_| gen_ntf(r, 0)).collect();
                    if r.chance(1, 3) {
                        v.push(gen_ntf(r, 100));
                    }
                    v
                })
                .collect()
        })
        .collect();
    let pt = *r.pick(&[4, 10, 25]);
    let mut steps = vec![];
    let mut todo: Vec<u32> = (0..n).collect();
    let len = 4 + r.below(if big { 50 } else { 24 });
    for _ in 0..len {
        let k = r.below(n as usize) as u32;
        if !todo.is_empty() && r.chance(1, 3) {
            let x = todo.remove(r.below(todo.len()));
            steps.push(Step::Start(x));
            continue;
        }
        steps.push(match r.below(100) {
            0..=4 => Step::Unsub(k),
            5..=6 => Step::Drop(k),
            7..=9 if !pending => Step::AddTd(k),
            10..=11 => Step::SrcUnsub(k, r.below(ns)),
            12..=35 if timed => Step::Tick(r.below(45) as u64),
            _ => Step::Emit(k, r.below(ns), gen_ntf(r, pt)),
        });
    }
    let raw: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
    let close_at = raw.iter().map(|x| (*x && r.chance(1, 6)).then(|| 1 + r.below(4))).collect();
    Case { p, prefix, pending, keep: r.chance(1, 2), n, raw, close_at, steps, style: r.u64() }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone)]
struct Env {
    srcs: Vec<Src>,
    h: Handle,
    style: u64,
}
impl Env {
    /// a decision about node `at`; all zero for style zero
    fn choice(&self, at: u64, n: u64) -> u64 {
        if self.style == 0 {
            return 0;
        }
        let mut x = self.style ^ at.wrapping_mul(0x9E3779B97F4A7C15);
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 32;
        x % n
    }
}
fn mk(p: &P, e: &Env, at: u64) -> Obs {
    let o = mk1(p, e, at);
    match e.choice(at * 3 + 1, 10) {
        1 => Some(o).erase(),
        2 => o.erase(),
        3 => o.pipe(IdentityOperator::<Val, Val>::default()).erase(),
        4 => o.pipe(Some(IdentityOperator::<Val, Val>::default())).erase(),
        5 => o.clone(),
        _ => o,
    }
}
fn mk1(p: &P, e: &Env, at: u64) -> Obs {
    let pair = |(a, b): (Val, Val)| t("pair", vec![a, b]);
    fn ch(c: Change<Val>) -> Val {
        match c {
            Change::None => t("none", vec![]),
            Change::JustUpdated(v) => t("just", vec![v]),
            Change::Latest(v) => t("latest", vec![v]),
        }
    }
    let comp = e.choice(at * 3, 2) == 1;
    let (l, r) = (at * 2 + 1, at * 2 + 2);
    match p {
        P::Src(k) => e.srcs[*k].clone().erase(),
        P::Just(v) => just(v.counted()).map_never::<Val>().erase(),
        P::Iter(v) => IteratorObservable::new(v.iter().map(|v| v.counted()).collect::<Vec<_>>()).map_never::<Val>().erase(),
        P::Create(v) => {
            let v: Vec<Ntf> = v.iter().map(|n| n.counted()).collect();
            create_observable::<Val, Val, _>(move |d| {
                for n in v {
                    if d.is_closed() {
                        break;
                    }
                    match n {
                        Ntf::N(v) => d.next(v),
                        Ntf::E(v) => d.error(v),
                        Ntf::C => d.complete(),
                    }
                }
            })
            .erase()
        }
        P::Empty => empty().map_never_both::<Val, Val>().erase(),
        P::Throw(v) => throw(v.counted()).map(|n: rx_core::Never| -> Val { match n {} }).erase(),
        P::Interval(d, s) => interval(IntervalObservableOptions { duration: ms(*d), start_on_subscribe: *s, max_emissions_per_tick: 3 }, e.h.clone())
            .map(|n: usize| i(n as i64).counted())
            .map_never::<Val>()
            .erase(),
        P::Timer(d) => timer(ms(*d), e.h.clone()).map(|_| t("tick", vec![]).counted()).map_never::<Val>().erase(),
        P::Deferred(p) => {
            let (p, e) = ((**p).clone(), e.clone());
            deferred_observable(move || mk(&p, &e, l)).erase()
        }
        P::Op(op, p) => {
            let o = mk(p, e, l);
            match e.choice(at * 3, 3) {
                1 => build_composed(op, o),
                2 => build_cloned(op, o),
                _ => build(op, o),
            }
        }
        P::Ho(pol, all, outer, inners, once) => {
            let made: Vec<Obs> = inners.iter().map(|p| mk(p, e, r)).collect();
            let (ps, e2, once, tok) = (inners.clone(), e.clone(), *once, Tok::counted());
            let pick = move |v: Val| -> Obs {
                let _t = &tok;
                let k = (v.h() % ps.len() as u64) as usize;
                if once { made[k].clone() } else { mk(&ps[k], &e2, r) }
            };
            let em = |e: Val| -> Val { t("em", vec![e]) };
            let o = mk(outer, e, l);
            let c = || compose_operator::<Val, Val>();
            match (pol, all, comp) {
                (0, true, false) => o.map(pick).concat_all(em).erase(),
                (0, true, true) => o.pipe(c().map(pick).concat_all(em)).erase(),
                (0, false, false) => o.concat_map(pick, em).erase(),
                (0, false, true) => o.pipe(c().concat_map(pick, em)).erase(),
                (1 | 2, true, false) => o.map(pick).merge_all(*pol as usize, em).erase(),
                (1 | 2, true, true) => o.pipe(c().map(pick).merge_all(*pol as usize, em)).erase(),
                (1 | 2, false, false) => o.merge_map(pick, *pol as usize, em).erase(),
                (1 | 2, false, true) => o.pipe(c().merge_map(pick, *pol as usize, em)).erase(),
                (3, true, false) => o.map(pick).switch_all(em).erase(),
                (3, true, true) => o.pipe(c().map(pick).switch_all(em)).erase(),
                (3, false, false) => o.switch_map(pick, em).erase(),
                (3, false, true) => o.pipe(c().switch_map(pick, em)).erase(),
                (_, true, false) => o.map(pick).exhaust_all(em).erase(),
                (_, true, true) => o.pipe(c().map(pick).exhaust_all(em)).erase(),
                (_, false, false) => o.exhaust_map(pick, em).erase(),
                (_, false, true) => o.pipe(c().exhaust_map(pick, em)).erase(),
            }
        }
        P::Flat(k, ps) => {
            let (a, b) = (mk(&ps[0], e, l), mk(&ps[1], e, r));
            match (k, comp) {
                (0, false) => concat([a, b]).erase(),
                (0, true) => concat((a, b)).erase(),
                (k, false) => merge([a, b], *k).erase(),
                (k, true) => merge((a, b), *k).erase(),
            }
        }
        P::Comb(k, a, b) => {
            let (a, b) = (mk(a, e, l), mk(b, e, r));
            match (k, comp) {
                (0, _) => combine_latest(a, b).map(pair).erase(),
                (1, _) => combine_changes(a, b).map(|(a, b)| t("pair", vec![ch(a), ch(b)])).erase(),
                (2, _) => zip(a, b).map(pair).erase(),
                (3, _) => join(a, b).map(pair).erase(),
                (_, false) => a.with_latest_from(b).map(pair).erase(),
                (_, true) => a.pipe(compose_operator::<Val, Val>().with_latest_from(b).map(pair)).erase(),
            }
        }
        P::Retry(n, p) => mk(p, e, l).retry(*n).erase(),
        P::Catch(p, alt) => {
            let (alt, e2, tok) = ((**alt).clone(), e.clone(), Tok::counted());
            mk(p, e, l)
                .catch(move |_e: Val| {
                    let _t = &tok;
                    mk(&alt, &e2, r)
                })
                .erase()
        }
        P::Time(op, p) => {
            let o = mk(p, e, l);
            let h = e.h.clone();
            let c = || compose_operator::<Val, Val>();
            let thr = |d: u64, b: u8| {
                ThrottleTimeOptions::new(ms(d)).with_output(match b {
                    0 => ThrottleOutputBehavior::LeadingAndTrailing,
                    1 => ThrottleOutputBehavior::LeadingOnly,
                    _ => ThrottleOutputBehavior::TrailingOnly,
                })
            };
            let tok = Tok::counted();
            let fb = move |tick: rx_core_scheduler_ticking::Tick, _cx: &mut Cx, ix| {
                let _t = &tok;
                t("fb", vec![i(crate::sched::units(tick.now()) as i64), i(ix as i64)]).counted()
            };
            match (op, comp) {
                (TOp::Delay(d), false) => o.delay(ms(*d), h).erase(),
                (TOp::Delay(d), true) => o.pipe(c().delay(ms(*d), h)).erase(),
                (TOp::Debounce(d), false) => o.debounce_time(ms(*d), h).erase(),
                (TOp::Debounce(d), true) => o.pipe(c().debounce_time(ms(*d), h)).erase(),
                (TOp::Throttle(d, b), false) => o.throttle_time(thr(*d, *b), h).erase(),
                (TOp::Throttle(d, b), true) => o.pipe(c().throttle_time(thr(*d, *b), h)).erase(),
                (TOp::ObserveOn, false) => o.observe_on(h).erase(),
                (TOp::ObserveOn, true) => o.pipe(c().observe_on(h)).erase(),
                (TOp::Fallback, false) => o.fallback_when_silent(fb, h).erase(),
                (TOp::Fallback, true) => o.pipe(c().fallback_when_silent(fb, h)).erase(),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
/// what one subscription saw in one step
#[derive(Clone, PartialEq, Debug, Default)]
struct Seen {
    out: Vec<Ntf>,
    late: Vec<Ntf>,
    sink_closed: bool,
    handle_closed: Option<bool>,
    /// open source subscriptions and how many there were
    srcs: Vec<(usize, u32)>,
    /// callbacks and teardowns run, unless in a tick
    side: Vec<Ev>,
}
/// One execution; `only`: that subscription alone. Gives what was seen per step and subscription.
fn execute(c: &Case, only: Option<u32>, style: u64, base: u32) -> Vec<Vec<Seen>> {
    let srcs: Vec<Src> = c
        .prefix
        .iter()
        .enumerate()
        .map(|(k, p)| {
            let s = Src::new(k as u32 + 1, p.clone(), false);
            if c.keep { s.keeping() } else { s }
        })
        .collect();
    let mut ex = exec();
    let env = Env { srcs: srcs.clone(), h: ex.get_scheduler_handle(), style };
    set_owner(base + 1000);
    let mut o = mk(&c.p, &env, 0);
    drop(env);
    let n = c.n as usize;
    let mut handles: Vec<Option<Box<dyn SubscriptionWithTeardown + Send + Sync>>> = (0..n).map(|_| None).collect();
    let mut started = vec![false; n];
    let mut res = vec![];
    let mut mark = log_len();
    for (step, st) in c.steps.iter().enumerate() {
        set_step(step as u32 + 1);
        let who = match st {
            Step::Start(k) | Step::Emit(k, ..) | Step::SrcUnsub(k, _) | Step::Unsub(k) | Step::Drop(k) | Step::AddTd(k) => Some(*k),
            Step::Tick(_) => None,
        };
        if only.is_none() || who.is_none() || who == only {
            set_owner(who.map(|k| base + k).unwrap_or(base + 1000));
            match st {
                Step::Start(k) => {
                    let k = *k as usize;
                    let mut cfg = SinkCfg::new(base + k as u32);
                    cfg.close_at = c.close_at[k];
                    started[k] = true;
                    let mut o2 = o.clone();
                    let o = if step % 2 == 0 { &mut o } else { &mut o2 };
                    handles[k] = Some(if c.raw[k] { Box::new(o.subscribe(Sink::new(cfg))) } else { Box::new(o.subscribe(ObsSink::new(cfg))) });
                }
                Step::Emit(k, s, n) => srcs[*s].emit_owned(base + k, n),
                Step::SrcUnsub(k, s) => srcs[*s].unsub_owned(base + k),
                Step::Unsub(k) => {
                    if let Some(h) = handles[*k as usize].as_mut() {
                        h.unsubscribe();
                    }
                }
                Step::Drop(k) => drop(handles[*k as usize].take()),
                Step::AddTd(k) => {
                    if let Some(h) = handles[*k as usize].as_mut() {
                        let id = step as u32;
                        h.add_teardown(Teardown::new(move || log(Ev::Td(id))));
                    }
                }
                Step::Tick(d) => tick(&mut ex, *d),
            }
        }
        let new = log_from(mark);
        mark += new.len();
        res.push(
            (0..n as u32)
                .map(|k| {
                    if only.is_some_and(|x| x != k) || !started[k as usize] {
                        return Seen::default();
                    }
                    let me = base + k;
                    let pick = |f: &dyn Fn(&Ev) -> Option<Ntf>| new.iter().filter_map(|(_, e)| f(e)).collect::<Vec<_>>();
                    Seen {
                        out: pick(&|e| if let Ev::Sink(x, n) = e { (*x == me).then(|| n.clone()) } else { None }),
                        late: pick(&|e| if let Ev::Late(x, n) = e { (*x == me).then(|| n.clone()) } else { None }),
                        sink_closed: new.iter().any(|(_, e)| *e == Ev::SinkClosed(me)),
                        handle_closed: if c.pending { None } else { handles[k as usize].as_ref().map(|h| h.is_closed()) },
                        srcs: srcs.iter().map(|s| s.owned(me)).collect(),
                        side: if who == Some(k) { new.iter().filter(|(_, e)| matches!(e, Ev::Side(..) | Ev::Td(_) | Ev::Fin(_))).map(|(_, e)| e.clone()).collect() } else { vec![] },
                    }
                })
                .collect(),
        );
    }
    set_step(10_000);
    drop(handles);
    for _ in 0..3 {
        tick(&mut ex, 5_000);
    }
    drop(o);
    drop(ex);
    res
}
pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let big = cx.thorough && r.chance(1, 4);
    let c = generate(r, big);
    cx.publish(format!("{c:?}"));
    let all = execute(&c, None, 0, 0);
    cx.fp = fp_log();
    let events = log_len() as u64;
    let busy = (0..c.n as usize).filter(|k| all.iter().any(|s| !s[*k].out.is_empty())).count();
    let diff = |what: &str, x: &[Vec<Seen>], k: u32, plain: &[Vec<Seen>]| {
        for (s, (a, b)) in x.iter().zip(plain).enumerate() {
            let (a, b) = (&a[k as usize], &b[k as usize]);
            if a != b {
                let f = if a.out != b.out {
                    "notifications"
                } else if a.srcs != b.srcs {
                    "source subscriptions"
                } else if a.side != b.side {
                    "callbacks or teardowns"
                } else {
                    "closing"
                };
                viol("C13", format!("indep: {what}: {f}"), format!("step {s} {:?}, subscription {k}: {a:?} but {b:?}", c.steps[s]));
                return;
            }
        }
    };
    for k in 0..c.n {
        let base = 100 * (k + 1);
        let alone = execute(&c, Some(k), 0, base);
        diff("a subscription does not see what it sees alone", &all, k, &alone);
        let style = c.style | 1;
        let other = execute(&c, Some(k), style, base + 50);
        diff("the same pipeline put together differently behaves differently", &other, k, &alone);
        if with(|r| !r.viols.is_empty()) {
            break;
        }
    }
    cx.stat("events observed", events);
    cx.stat("subscriptions compared", c.n as u64);
    cx.nontrivial = busy >= 2;
}
