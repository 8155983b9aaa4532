//! S1: one source, a chain of synchronous operators, one destination.
use crate::ops::*;
use crate::rt::*;
use crate::runner::Ctx;
use crate::val::*;
use rx_core::prelude::*;

use std::sync::{Arc, Mutex, RwLock};
#[derive(Clone, Debug, PartialEq)]
pub enum SrcKind {
    /// hand-written source: prefix while subscribing, then hot
    Src,
    Subject,
    /// the rest only have a prefix
    Iter,
    Create,
    Just,
    Empty,
    Throw,
    Never,
    Closed,
    Deferred,
}
#[derive(Clone, Debug)]
pub enum Step {
    Push(Ntf),
    Unsub,
    DropHandle,
    AddTd(u32),
    ProducerUnsub,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub kind: SrcKind,
    pub prefix: Vec<Ntf>,
    pub ops: Vec<Op>,
    pub raw_sink: bool,
    pub close_at: Option<usize>,
    pub misbehave: bool,
    pub steps: Vec<Step>,
}
pub fn gen_val(r: &mut Rng) -> Val {
    if r.chance(1, 12) { t("x", vec![i(r.range(0, 4))]) } else { i(r.range(0, 12)) }
}
pub fn gen_ntf(r: &mut Rng, pt: usize) -> Ntf {
    if r.chance(pt, 100) {
        if r.chance(1, 2) { Ntf::C } else { Ntf::E(t("err", vec![i(r.range(0, 4))])) }
    } else {
        Ntf::N(gen_val(r))
    }
}
pub fn gen_chain(r: &mut Rng, max: usize, base: u32) -> Vec<Op> {
    let n = r.below(max + 1);
    let mut ops: Vec<Op> = vec![];
    for k in 0..n {
        loop {
            let o = gen_op(r, base + k as u32);
            if matches!(o, Op::IntoResult)
                && ops.iter().any(|p| matches!(p, Op::First | Op::Find(_) | Op::FindIndex(_) | Op::ElementAt(_) | Op::ElementAtOr(..) | Op::ErrBoundary | Op::MatDemat(_) | Op::IntoLift(_)))
            {
                continue;
            }
            // an operator that makes errors of its own in mid-stream may not be followed by one that
            // swallows errors: what happens between them is not specified
            if matches!(o, Op::IntoResult) && ops.iter().any(|p| matches!(p, Op::MatDemat(k) | Op::IntoLift(k) if *k != 0)) {
                continue;
            }
            ops.push(o);
            break;
        }
    }
    ops
}
fn generate(r: &mut Rng) -> Case {
    let kind = match r.below(16) {
        0..=5 => SrcKind::Src,
        6..=8 => SrcKind::Subject,
        9 => SrcKind::Iter,
        10 => SrcKind::Create,
        11 => SrcKind::Just,
        12 => r.pick(&[SrcKind::Empty, SrcKind::Throw]).clone(),
        13 => r.pick(&[SrcKind::Never, SrcKind::Closed]).clone(),
        14 => SrcKind::Deferred,
        _ => SrcKind::Src,
    };
    let np = r.below(6);
    let mut prefix: Vec<Ntf> = match kind {
        SrcKind::Src | SrcKind::Create | SrcKind::Deferred => {
            let np = if r.chance(1, 2) { 0 } else { np };
            (0..np).map(|_| gen_ntf(r, 15)).collect()
        }
        SrcKind::Iter => (0..np).map(|_| Ntf::N(gen_val(r))).chain([Ntf::C]).collect(),
        SrcKind::Just => vec![Ntf::N(gen_val(r)), Ntf::C],
        SrcKind::Empty => vec![Ntf::C],
        SrcKind::Throw => vec![Ntf::E(t("err", vec![i(r.range(0, 4))]))],
        _ => vec![],
    };
    let misbehave = kind == SrcKind::Src && r.chance(1, 8);
    if !misbehave {
        if let Some(k) = prefix.iter().position(|n| n.terminal()) {
            prefix.truncate(k + 1);
        }
    }
    let mut ops = gen_chain(r, 5, 100);
    if misbehave {
        ops.retain(|o| !matches!(o, Op::IntoResult | Op::Tap(_) | Op::TapNext(_) | Op::OnNext(..)));
    }
    if matches!(kind, SrcKind::Subject | SrcKind::Create | SrcKind::Throw) {
        // these leave a destination that swallows their error open, by design
        ops.retain(|o| !matches!(o, Op::IntoResult));
    }
    let raw_sink = !misbehave && r.chance(1, 2);
    let close_at = if raw_sink && r.chance(1, 3) { Some(1 + r.below(4)) } else { None };
    let ns = r.below(14);
    let mut steps = vec![];
    let mut td = 10;
    for _ in 0..ns {
        steps.push(match r.below(100) {
            0..=4 => Step::Unsub,
            5..=7 => Step::DropHandle,
            8..=13 => {
                td += 1;
                Step::AddTd(td)
            }
            14..=15 if kind == SrcKind::Src => Step::ProducerUnsub,
            _ => Step::Push(gen_ntf(r, if ns > 8 { 6 } else { 12 })),
        });
    }
    Case { kind, prefix, ops, raw_sink, close_at, misbehave, steps }
}
/// One operator that counts or collects, with a large parameter, in front of a source long enough to reach it.
fn generate_long(r: &mut Rng) -> Case {
    let n = match r.below(40) {
        0 => 65530 + r.below(12),
        1..=9 => 250 + r.below(12),
        10..=13 => 1020 + r.below(10),
        14..=16 => 4092 + r.below(10),
        _ => 6 + r.below(300),
    };
    let k = r.u64() % 8;
    let op = match r.below(14) {
        0 | 1 => Op::Take(n),
        2 | 3 => Op::Skip(n),
        4 => Op::ElementAt(n),
        5 => Op::ElementAtOr(n, 3),
        6 | 7 => Op::BufferCount(n.min(5000)),
        8 => Op::Find(k),
        9 => Op::FindIndex(k),
        10 => Op::Count,
        11 => Op::Enumerate,
        12 => Op::Filter(k, true),
        _ => Op::Scan(1),
    };
    let len = match r.below(6) {
        0 => n.saturating_sub(1 + r.below(2)),
        1 => n,
        2 => n + 1,
        _ => n + r.below(n.min(400) + 3),
    };
    let mut prefix: Vec<Ntf> = (0..len)
        .map(|j| {
            let mut v = i(r.range(0, 200));
            while matches!(op, Op::Find(_) | Op::FindIndex(_)) && j + 1 < len && !pred(k, &v) {
                v = i(r.range(0, 200));
            }
            Ntf::N(v)
        })
        .collect();
    let kind = r.pick(&[SrcKind::Src, SrcKind::Iter]).clone();
    if kind == SrcKind::Iter || r.chance(1, 2) {
        prefix.push(Ntf::C);
    }
    let mut ops = vec![op];
    if r.chance(1, 3) {
        ops.insert(0, Op::Map(1));
    }
    if r.chance(1, 4) {
        ops.push(Op::Skip(n.saturating_sub(2)));
    }
    if r.chance(1, 8) {
        ops.push(Op::Count);
    }
    let steps = (0..r.below(4)).map(|_| if r.chance(1, 6) { Step::Unsub } else { Step::Push(gen_ntf(r, 20)) }).collect();
    Case { kind, prefix, ops, raw_sink: r.chance(1, 2), close_at: None, misbehave: false, steps }
}

pub const WRAP_NAMES: [&str; 10] = ["Box<dyn Subscriber>", "SharedSubscriber", "Arc<Mutex<Subscriber>>", "Arc<RwLock<Subscriber>>", "Option<Observable>", "Arc<Mutex<Observable>>", "Weak<Mutex<Observable>>", "ErasedObservables", "Arc<RwLock<Observable>>", "Weak<Mutex<Subscriber>>"];
pub const WRAPS: u8 = WRAP_NAMES.len() as u8;

pub fn subscribe_sink(o: &mut Obs, cfg: SinkCfg, raw: bool) -> <Obs as Observable>::Subscription<Sink> {
    let wrap = with(|r| r.wrap);
    // a locked destination cannot be reached from inside one of its own callbacks
    let plain = cfg.hook.is_none();
    match wrap {
        1 if raw => {
            let b: BoxedSubscriber<Val, Val> = Box::new(Sink::new(cfg));
            o.subscribe(b)
        }
        1 => {
            let b: BoxedSubscriber<Val, Val> = Box::new(ObsSink::new(cfg).upgrade());
            o.subscribe(b)
        }
        2 if raw => o.subscribe(SharedSubscriber::new(Sink::new(cfg))),
        2 => o.subscribe(SharedSubscriber::new(ObsSink::new(cfg).upgrade())),
        3 if plain && raw => o.subscribe(Arc::new(Mutex::new(Sink::new(cfg)))),
        3 if plain => o.subscribe(Arc::new(Mutex::new(ObsSink::new(cfg).upgrade()))),
        4 if plain && raw => o.subscribe(Arc::new(RwLock::new(Sink::new(cfg)))),
        4 if plain => o.subscribe(Arc::new(RwLock::new(ObsSink::new(cfg).upgrade()))),
        10 if plain => {
            // the destination itself lives as long as the subscription
            let m = Arc::new(Mutex::new(if raw { Box::new(Sink::new(cfg)) as BoxedSubscriber<Val, Val> } else { Box::new(ObsSink::new(cfg).upgrade()) }));
            let mut h = o.subscribe(Arc::downgrade(&m));
            h.add_teardown(Teardown::new(move || drop(m)));
            h
        }
        5..=9 if raw => wrapped_subscribe(wrap, o, Sink::new(cfg)),
        5..=9 => wrapped_subscribe(wrap, o, ObsSink::new(cfg)),
        _ if raw => o.subscribe(Sink::new(cfg)),
        _ => o.subscribe(ObsSink::new(cfg)),
    }
}
fn wrapped_subscribe<D>(wrap: u8, o: &Obs, d: D) -> ErasedSubscription
where
    D: 'static + UpgradeableObserver<In = Val, InError = Val> + Send + Sync,
{
    match wrap {
        5 => Some(o.clone()).subscribe(d).erase(),
        6 => Arc::new(Mutex::new(o.clone())).subscribe(d),
        7 => {
            let m = Arc::new(Mutex::new(o.clone()));
            Arc::downgrade(&m).subscribe(d).erase()
        }
        8 => {
            let mut all: ErasedObservables<Val, Val, 2> = [o.clone(), o.clone()].into();
            all[1].subscribe(d)
        }
        _ => Arc::new(RwLock::new(o.clone())).subscribe(d),
    }
}

/// Grammar and exactly-once checks over the whole log of a finished case.
pub fn check_log(fam: &str, late_ok: bool, misbehave: bool, tds: &[u32], fins: &[u32]) {
    let log = log_from(0);
    use std::collections::HashMap;
    let mut term: HashMap<u32, bool> = HashMap::new();
    let mut closed_step: HashMap<u32, u32> = HashMap::new();
    for (st, e) in &log {
        match e {
            Ev::SinkClosed(s) => {
                closed_step.insert(*s, *st);
            }
            Ev::Sink(s, n) => {
                if *term.get(s).unwrap_or(&false) {
                    // also against the property the family is about, if this is an output it does not allow
                    let also = match fam.split([' ', ':']).next().unwrap_or("") {
                        "linear" => "C01+C03",
                        "ho" | "ho_re" => "C01+C04",
                        "comb" | "comb_re" => "C01+C05",
                        "subj" | "subj_re" => "C01+C06",
                        "time" => "C01+C10",
                        "rc" => "C01+C11",
                        "share" | "connectable" | "share_re" => "C01+C12",
                        _ => "C01",
                    };
                    viol(also, format!("{fam}: notification after terminal"), format!("{n:?}"));
                }
                if n.terminal() {
                    term.insert(*s, true);
                }
            }
            Ev::Late(s, n) => {
                // A destination that has just closed itself may still be told about the end in the same call.
                // Longer chains of operators may run ahead of a raw subscriber that closes itself; a plain
                // observer is always shielded from that, and is what the property is about.
                if late_ok {
                    continue;
                }
                if n.terminal() && !*term.get(s).unwrap_or(&false) && closed_step.get(s) == Some(st) {
                    continue;
                }
                viol("C01", format!("{fam}: closed destination notified"), format!("sink {s}: {n:?} misbehaving source: {misbehave}"));
            }
            _ => {}
        }
    }
    // source teardowns exactly once per subscription
    let mut subs: Vec<(u32, u32)> = vec![];
    for (_, e) in &log {
        if let Ev::SrcSub(a, b, _) = e {
            subs.push((*a, *b));
        }
    }
    for (a, b) in subs {
        let n = log.iter().filter(|(_, e)| *e == Ev::SrcTd(a, b)).count();
        if n != 1 {
            viol("C02", format!("{fam}: source teardown ran {} times", n.min(2)), format!("source {a} subscription {b}: teardown ran {n} times"));
        }
    }
    for id in tds {
        let n = log.iter().filter(|(_, e)| *e == Ev::Td(*id)).count();
        if n != 1 {
            viol("C02", format!("{fam}: client teardown ran {} times", n.min(2)), format!("teardown {id} ran {n} times"));
        }
    }
    for id in fins {
        let n = log.iter().filter(|(_, e)| *e == Ev::Fin(*id)).count();
        if n != 1 {
            viol("C02", format!("{fam}: finalize ran {} times", n.min(2)), format!("finalize {id} ran {n} times"));
        }
    }
}

pub fn sink_events(log: &[(u32, Ev)], id: u32) -> Vec<Ntf> {
    log.iter().filter_map(|(_, e)| if let Ev::Sink(s, n) = e { (*s == id).then(|| n.clone()) } else { None }).collect()
}
pub fn fp_log() -> u64 {
    let mut a = 0xcbf29ce484222325u64;
    with(|r| {
        for (s, e) in &r.log {
            for c in format!("{s}{e:?}").bytes() {
                a = (a ^ c as u64).wrapping_mul(0x100000001b3);
            }
        }
    });
    a
}

pub fn run(r: &mut Rng, cx: &mut Ctx) {
    let long = r.chance(1, 600);
    let c = if long { generate_long(r) } else { generate(r) };
    if long {
        with(|r| r.budget = 500_000);
        cx.stat("long sequences", 1);
    }
    cx.publish(format!("{c:?}"));
    let fam = "linear";
    let src = Src::new(1, vec![c.prefix.clone()], c.misbehave);
    let subj = PublishSubject::<Val, Val>::default();
    let pre: Vec<Ntf> = c.prefix.iter().map(|n| n.counted()).collect();
    let mut o: Obs = match c.kind {
        SrcKind::Src => src.clone().erase(),
        SrcKind::Subject => subj.clone().erase(),
        SrcKind::Iter => {
            let vs: Vec<Val> = pre.iter().filter_map(|n| if let Ntf::N(v) = n { Some(v.clone()) } else { None }).collect();
            IteratorObservable::new(vs).map_never::<Val>().erase()
        }
        SrcKind::Create => {
            let pre = pre.clone();
            create_observable::<Val, Val, _>(move |d| {
                for n in pre {
                    if d.is_closed() {
                        break;
                    }
                    match n {
                        Ntf::N(v) => d.next(v),
                        Ntf::E(v) => d.error(v),
                        Ntf::C => d.complete(),
                    }
                    // nothing more: a producer that reports a terminal unsubscribes
                }
            })
            .erase()
        }
        SrcKind::Just => match &pre[0] {
            Ntf::N(v) => just(v.clone()).map_never::<Val>().erase(),
            _ => unreachable!(),
        },
        SrcKind::Empty => empty().map_never_both::<Val, Val>().erase(),
        SrcKind::Throw => match &pre[0] {
            Ntf::E(v) => throw(v.clone()).map(|n: rx_core::Never| -> Val { match n {} }).erase(),
            _ => unreachable!(),
        },
        SrcKind::Never => never().map_never_both::<Val, Val>().erase(),
        SrcKind::Closed => closed().map_never_both::<Val, Val>().erase(),
        SrcKind::Deferred => {
            let s = src.clone();
            deferred_observable(move || s.clone()).erase()
        }
    };
    drop(pre);
    for op in &c.ops {
        o = build(op, o);
    }
    let mut m = ChainModel::new(&c.ops, c.close_at);
    let fins: Vec<u32> = c.ops.iter().filter_map(|o| if let Op::Finalize(id) = o { Some(*id) } else { None }).collect();
    m.subscribe();
    let hot = matches!(c.kind, SrcKind::Src | SrcKind::Deferred | SrcKind::Subject);
    for n in &c.prefix {
        if m.is_closed() {
            break;
        }
        // a create or throw observable leaves a terminal without unsubscribing: converted terminals stay open
        let term = n.terminal();
        m.feed(0, n.clone());
        if term && !matches!(c.kind, SrcKind::Create | SrcKind::Throw) {
            m.sink_closed = true;
        }
    }
    match c.kind {
        SrcKind::Closed => m.unsubscribe(),
        SrcKind::Iter | SrcKind::Just | SrcKind::Empty => m.unsubscribe(),
        _ => {}
    }
    let mut cfg = SinkCfg::new(1);
    cfg.close_at = c.close_at;
    let mut mark = 0;
    let mut handle = Some(subscribe_sink(&mut o, cfg, c.raw_sink));
    let mut tds: Vec<u32> = vec![];
    let mut sub_dead = false; // handle gone

    let mut was_closed = false;
    // conversions of errors
    let base = if c.ops.iter().any(|o| matches!(o, Op::IntoLift(_) | Op::MatDemat(_) | Op::MapError(_) | Op::ErrBoundary | Op::IntoResult | Op::Materialize)) {
        "C03+C11"
    } else {
        "C03"
    };
    let mut compare = |m: &mut ChainModel, when: &str, handle_closed: Option<bool>| {
        let new = log_from(mark);
        mark += new.len();
        let got = sink_events(&new, 1);
        let exp = std::mem::take(&mut m.out);
        if got != exp {
            viol(out_props(base, was_closed, exp.len(), got.len()), format!("linear: output differs from the reference at {}", when.split(' ').next().unwrap()), format!("{when}: expected {exp:?}, observed {got:?}"));
        }
        let sides: Vec<(u32, Ntf)> = new.iter().filter_map(|(_, e)| if let Ev::Side(id, n) = e { Some((*id, n.clone())) } else { None }).collect();
        let es = std::mem::take(&mut m.sides);
        let sides: Vec<_> = if m.is_closed() && sides.len() > es.len() {
            // taps may still see the end of a pipeline whose destination has just closed itself
            let (a, b) = sides.split_at(es.len());
            // (and operators that emit several values at once may have run ahead of it in that very call)
            a.iter().chain(b.iter().filter(|(_, n)| was_closed && !n.terminal())).cloned().collect()
        } else {
            sides
        };
        if sides != es {
            viol("C03", "linear: side effects differ from the reference", format!("{when}: expected {es:?}, observed {sides:?}"));
        }
        was_closed = m.is_closed();
        if m.is_closed() {
            if handle_closed == Some(false) {
                viol("C02", "linear: subscription does not report closed", when.to_string());
            }
            for id in &fins {
                if !log_from(0).iter().any(|(_, e)| *e == Ev::Fin(*id)) {
                    viol("C02", "linear: finalize not run at close", format!("{when} finalize {id}"));
                }
            }
        } else if handle_closed == Some(true) {
            viol("C02", "linear: subscription reports closed while open", when.to_string());
        }
    };
    compare(&mut m, "subscribe", handle.as_ref().map(|h| h.is_closed()));
    let mut src_term = c.prefix.iter().any(|n| n.terminal());
    for (k, s) in c.steps.iter().enumerate() {
        set_step(k as u32 + 1);
        match s {
            Step::Push(n) => {
                if !hot {
                    continue;
                }
                match c.kind {
                    SrcKind::Subject => {
                        let mut s = subj.clone();
                        match n.counted() {
                            Ntf::N(v) => s.next(v),
                            Ntf::E(v) => s.error(v),
                            Ntf::C => s.complete(),
                        }
                        if !src_term {
                            if n.terminal() {
                                // the subject completes its subscribers, which close themselves
                                m.feed(0, n.clone());
                                src_term = true;
                            } else {
                                m.feed(0, n.clone());
                            }
                        }
                    }
                    _ => {
                        src.emit(n);
                        if c.misbehave {
                            m.feed(0, n.clone());
                        } else if !src_term {
                            m.push(n.clone());
                            src_term = n.terminal();
                        }
                    }
                }
            }
            Step::Unsub => {
                if let Some(h) = handle.as_mut() {
                    h.unsubscribe();
                    m.unsubscribe();
                }
            }
            Step::DropHandle => {
                if handle.take().is_some() {
                    m.unsubscribe();
                    sub_dead = true;
                }
            }
            Step::AddTd(id) => {
                if let Some(h) = handle.as_mut() {
                    let id = *id;
                    tds.push(id);
                    h.add_teardown(Teardown::new(move || log(Ev::Td(id))));
                    if m.is_closed() && !log_from(0).iter().any(|(_, e)| *e == Ev::Td(id)) {
                        viol("C02", "linear: teardown added after close did not run at once", format!("step {k}"));
                    }
                }
            }
            Step::ProducerUnsub => {
                src.producer_unsub();
                m.unsubscribe();
                src_term = true;
            }
        }
        compare(&mut m, &format!("step {k} {s:?}"), handle.as_ref().map(|h| h.is_closed()));
        if m.is_closed() {
            if !c.misbehave && c.kind != SrcKind::Subject && !src.open().is_empty() {
                viol("C02", "linear: source still subscribed after the destination ended", format!("step {k}"));
            }
            for id in &tds {
                if !log_from(0).iter().any(|(_, e)| *e == Ev::Td(*id)) {
                    viol("C02", "linear: client teardown not run at close", format!("step {k} teardown {id}"));
                }
            }
        }
    }
    let _ = sub_dead;
    set_step(1000);
    drop(handle.take());
    m.unsubscribe();
    compare(&mut m, "final drop", None);
    if !c.misbehave && !src.open().is_empty() {
        viol("C02", "linear: source still subscribed after drop", "end");
    }
    // only the pipeline value and the source remain: pushing now must reach nobody
    for _ in 0..2 {
        if !c.misbehave {
            src.emit(&Ntf::N(i(99)));
        }
        let mut s = subj.clone();
        s.next(i(99));
    }
    compare(&mut m, "after-drop push", None);
    drop(o);
    check_log(fam, c.raw_sink && c.ops.len() > 1, c.misbehave, &tds, &fins);
    drop(src);
    drop(subj);
    if live() != 0 {
        viol("C14", "linear: values or callbacks still alive after everything was dropped", format!("{} tokens", live()));
    }
    let n = log_len() as u64;
    cx.stat("events observed", n);
    cx.stat("sink notifications compared", log_from(0).iter().filter(|(_, e)| matches!(e, Ev::Sink(..))).count() as u64);
    cx.nontrivial = n >= 4 && !c.ops.is_empty();
    cx.fp = fp_log() ^ fam_fp(&c.ops);
}
fn fam_fp(o: &[Op]) -> u64 {
    crate::runner::fam_no(&format!("{o:?}"))
}
