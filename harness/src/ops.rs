//! Single-input operators: how the real pipeline is built, and the reference model of each.
use crate::rt::*;
use crate::val::*;
use rx_core::prelude::*;
use rx_core::{ErasedObservable, ObserverNotification};

pub type Obs = ErasedObservable<Val, Val>;

#[derive(Clone, Debug)]
pub enum Op {
    Map(i64),
    MapInto,
    Filter(u64, bool),
    FilterMap(u64),
    Take(usize),
    Skip(usize),
    First,
    Find(u64),
    FindIndex(u64),
    ElementAt(usize),
    ElementAtOr(usize, i64),
    IsEmpty,
    Count,
    Scan(i64),
    Reduce(i64),
    Enumerate,
    Pairwise,
    BufferCount(usize),
    StartWith(i64),
    EndWith(i64),
    Tap(u32),
    TapNext(u32),
    OnNext(u32, u64),
    OnSubscribe(i64),
    LiftOption(u64),
    IntoResult,
    IntoLift(u64),
    Materialize,
    MatDemat(u64),
    MapError(i64),
    Finalize(u32),
    Identity,
    ErrBoundary,
    /// composed operator: map.filter.scan
    CompMFS(i64, u64, i64),
    /// composed operator: skip.take.end_with
    CompSTE(usize, usize, i64),
    /// composed: enumerate.map.pairwise.map
    CompEP,
    /// composed: identity.map.buffer_count.filter.map
    CompBuf(usize),
    /// `pipe(Some(op))` / `pipe(None)`
    OptSome(i64),
    OptNone,
    /// `Some(observable)`
    SomeObs,
}

pub fn fmap(k: i64, v: &Val) -> Val {
    match &v.v {
        V::I(x) => i(x.wrapping_mul(3).wrapping_add(k)),
        _ => t("m", vec![v.clone()]),
    }
}
pub fn pred(k: u64, v: &Val) -> bool {
    v.h() % 5 != k % 5
}
pub fn pred_i(k: u64, ix: bool, v: &Val, n: usize) -> bool {
    if ix { (v.h().wrapping_add(n as u64)) % 3 != k % 3 } else { v.h() % 3 != k % 3 }
}
pub fn red(a: &Val, v: &Val) -> Val {
    t("r", vec![i((a.h() % 1000) as i64), v.clone()])
}
fn enc(n: ObserverNotification<Val, Val>) -> Val {
    match n {
        ObserverNotification::Next(v) => t("mN", vec![v]),
        ObserverNotification::Error(v) => t("mE", vec![v]),
        ObserverNotification::Complete => t("mC", vec![]),
    }
}
/// how MatDemat tampers with notifications: k==0 leaves them alone
fn tamper(k: u64, n: ObserverNotification<Val, Val>) -> ObserverNotification<Val, Val> {
    if k == 0 {
        return n;
    }
    match n {
        ObserverNotification::Next(v) if v.h() % 7 == k % 7 => ObserverNotification::Error(v),
        ObserverNotification::Next(v) if v.h() % 7 == (k + 1) % 7 => ObserverNotification::Complete,
        n => n,
    }
}
fn tamper_r(k: u64, r: Result<Val, Val>) -> Result<Val, Val> {
    if k == 0 {
        return r;
    }
    match r {
        Ok(v) if v.h() % 5 == k % 5 => Err(v),
        r => r,
    }
}
#[derive(Clone)]
pub struct W(Val);
impl From<Val> for W {
    fn from(v: Val) -> W {
        W(t("w", vec![v]))
    }
}
impl From<W> for Val {
    fn from(w: W) -> Val {
        w.0
    }
}
/// observer for `tap`
pub struct TapObs(u32, Tok);
impl Clone for TapObs {
    fn clone(&self) -> Self {
        TapObs(self.0, self.1.clone())
    }
}
impl rx_core::ObserverInput for TapObs {
    type In = Val;
    type InError = Val;
}
impl rx_core::WithPrimaryCategory for TapObs {
    type PrimaryCategory = rx_core::PrimaryCategoryObserver;
}
impl RxObserver for TapObs {
    fn next(&mut self, v: Val) {
        log(Ev::Side(self.0, Ntf::N(v.plain())));
    }
    fn error(&mut self, v: Val) {
        log(Ev::Side(self.0, Ntf::E(v.plain())));
    }
    fn complete(&mut self) {
        log(Ev::Side(self.0, Ntf::C));
    }
}

fn first_err<T: std::fmt::Debug>(name: &str, e: T) -> Val {
    // structural names only; an upstream error is carried through by the caller
    let s = format!("{e:?}");
    let _ = name;
    let st: &'static str = if s.starts_with("NoNextObserved") {
        "NoNext"
    } else if s.starts_with("NoMatch") {
        "NoMatch"
    } else if s.starts_with("IndexOutOfRange") {
        "OutOfRange"
    } else {
        "OtherError"
    };
    t(st, vec![])
}

/// Arms shared by the extension methods of observables and of composed operators.
macro_rules! shared_arms {
    ($op:expr, $tk:ident, $recv:expr, $done:ident, $lift:ident, $other:expr) => {
        match $op.clone() {
            Op::Map(k) => $done!($recv.map(capture!($tk, |v: Val| fmap(k, &v)))),
            Op::MapInto => $done!($recv.map_into::<W, W>().map_into::<Val, Val>()),
            Op::Filter(k, ix) => $done!({
            let tk = $tk.clone();
            $recv.filter(move |v, n| {
                let _k = &tk;
                pred_i(k, ix, v, n)
            })
            
        }),
            Op::FilterMap(k) => $done!($recv.filter_map(capture!($tk, |v: Val| if pred(k, &v) { Some(t("fm", vec![v])) } else { None }))),
            Op::Take(n) => $done!($recv.take(n)),
            Op::Skip(n) => $done!($recv.skip(n)),
            Op::First => $done!($recv.first()
            .map_error(|e| match e {
                rx_core_operator_first::FirstOperatorError::Upstream(u) => u,
                o => first_err("first", o),
            })
            ),
            Op::Find(k) => $done!($recv.find(move |v: &Val| !pred(k, v))
            .map_error(|e| match e {
                rx_core_operator_find::operator::FindOperatorError::Upstream(u) => u,
                o => first_err("find", o),
            })
            ),
            Op::FindIndex(k) => $done!($recv.find_index(move |v: &Val| !pred(k, v))
            .map(|n| i(n as i64).counted())
            .map_error(|e| match e {
                rx_core_operator_find_index::operator::FindIndexOperatorError::Upstream(u) => u,
                o => first_err("find_index", o),
            })
            ),
            Op::ElementAt(n) => $done!($recv.element_at(n)
            .map_error(|e| match e {
                rx_core_operator_element_at::operator::ElementAtOperatorError::Upstream(u) => u,
                rx_core_operator_element_at::operator::ElementAtOperatorError::IndexOutOfRange { requested_index, observed_nexts } => {
                    t("OutOfRange", vec![i(requested_index as i64), i(observed_nexts as i64)])
                }
            })
            ),
            Op::ElementAtOr(n, d) => $done!({
            let tk = $tk.clone();
            $recv.element_at_or_else(
                n,
                ProvideWithFactory(move || {
                    let _k = &tk;
                    t("dflt", vec![i(d)]).counted()
                }),
            )
            .map_error(|e| match e {
                rx_core_operator_element_at::operator::ElementAtOperatorError::Upstream(u) => u,
                o => first_err("element_at", o),
            })
            
        }),
            Op::IsEmpty => $done!($recv.is_empty().map(|x| b(x).counted())),
            Op::Count => $done!($recv.count().map(|x| i(x as i64).counted())),
            Op::Scan(s) => $done!($recv.scan(|a: &Val, v: Val| red(a, &v), i(s).counted())),
            Op::Reduce(s) => $done!($recv.reduce(|a: &Val, v: Val| red(a, &v), i(s).counted())),
            Op::Enumerate => $done!($recv.enumerate().map(|(v, n)| t("en", vec![v, i(n as i64)]))),
            Op::Pairwise => $done!($recv.pairwise().map(|[a, b]: [Val; 2]| t("pw", vec![a, b]))),
            Op::BufferCount(n) => $done!($recv.buffer_count(n).map(|x| t("buf", x))),
            Op::StartWith(x) => $done!($recv.start_with(i(x).counted())),
            Op::EndWith(x) => $done!($recv.end_with(i(x).counted())),
            Op::Tap(id) => $done!($recv.tap(TapObs(id, Tok::counted()))),
            Op::TapNext(id) => $done!({
            let tk = $tk.clone();
            $recv.tap_next(move |v| {
                let _k = &tk;
                log(Ev::Side(id, Ntf::N(v.plain())));
            })
            
        }),
            Op::OnNext(id, k) => $done!($recv.on_next(move |v, d| {
                log(Ev::Side(id, Ntf::N(v.plain())));
                if v.h() % 3 == k % 3 {
                    d.next(t("onx", vec![v.clone()]));
                }
                v.h() % 4 != k % 4
            })
            ),
            Op::OnSubscribe(x) => $done!($recv.on_subscribe(move |d| d.next(i(x).counted()))),
            Op::LiftOption(k) => $done!($recv.map(move |v| if pred(k, &v) { Some(v) } else { None }).lift_option()),
            Op::IntoResult => $done!($recv.into_result()
            .map(|r| match r {
                Ok(v) => t("ok", vec![v]),
                Err(v) => t("er", vec![v]),
            })
            .map_never::<Val>()
            ),
            Op::IntoLift(k) => $lift!($recv.into_result().map(move |r| tamper_r(k, r)).lift_result()),
            Op::Materialize => $done!($recv.materialize().map(enc).map_never::<Val>()),
            Op::MatDemat(k) => $done!($recv.materialize().map(move |n| tamper(k, n)).dematerialize()),
            Op::MapError(k) => $done!($recv.map_error(capture!($tk, |e: Val| t("me", vec![i(k), e])))),
            Op::Finalize(id) => $done!({
            let tk = $tk.clone();
            $recv.finalize(move || {
                let _k = &tk;
                log(Ev::Fin(id))
            })
            
        }),
            Op::ErrBoundary => $done!($recv.materialize().error_boundary().dematerialize()),
            _ => $other,
        }
    };
}
macro_rules! capture {
    ($tk:ident, $e:expr) => {{
        let tk = $tk.clone();
        move |v| {
            let _k = &tk;
            $e(v)
        }
    }};
}
macro_rules! erased {
    ($e:expr) => {
        $e.erase()
    };
}
pub fn build(op: &Op, src: Obs) -> Obs {
    let tk = Tok::counted();
    shared_arms!(op, tk, src, erased, erased, build_other(op, src))
}
/// The same operator, built with `compose_operator` and applied with `pipe`.
pub fn build_composed(op: &Op, src: Obs) -> Obs {
    let tk = Tok::counted();
    macro_rules! piped {
        ($e:expr) => {
            src.pipe($e).erase()
        };
    }
    shared_arms!(op, tk, compose_operator::<Val, Val>(), piped, piped, build_other(op, src))
}
/// An observable of which every other subscription goes through a clone made at that moment, and
/// every third through a clone made before anything was subscribed.
#[derive(Clone)]
pub struct Alt<O>(O, O, usize);
impl<O: Clone> Alt<O> {
    pub fn new(o: O) -> Self {
        Alt(o.clone(), o, 0)
    }
}
impl<O: Observable<Out = Val, OutError = Val>> ObservableOutput for Alt<O> {
    type Out = Val;
    type OutError = Val;
}
impl<O: Observable<Out = Val, OutError = Val>> WithPrimaryCategory for Alt<O> {
    type PrimaryCategory = PrimaryCategoryObservable;
}
impl<O: 'static + Observable<Out = Val, OutError = Val> + Clone> Observable for Alt<O> {
    type Subscription<D>
        = O::Subscription<D>
    where
        D: 'static + Subscriber<In = Val, InError = Val>;
    fn subscribe<D>(&mut self, destination: D) -> O::Subscription<D::Upgraded>
    where
        D: 'static + UpgradeableObserver<In = Val, InError = Val> + Send + Sync,
    {
        self.2 += 1;
        match self.2 % 3 {
            0 => self.1.clone().subscribe(destination),
            1 => self.0.subscribe(destination),
            _ => self.0.clone().subscribe(destination),
        }
    }
}
/// The same operator on an observable that is cloned with its types.
pub fn build_cloned(op: &Op, src: Obs) -> Obs {
    let tk = Tok::counted();
    macro_rules! alt {
        ($e:expr) => {
            Alt::new($e).erase()
        };
    }
    shared_arms!(op, tk, src, alt, erased, build_other(op, src))
}
fn build_other(op: &Op, src: Obs) -> Obs {
    match op.clone() {
        Op::Identity => IdentityOperator::<Val, Val>::default().operate(src).erase(),
        Op::CompMFS(a, k, s) => src
            .pipe(
                compose_operator::<Val, Val>()
                    .map(move |v: Val| fmap(a, &v))
                    .filter(move |v: &Val, n| pred_i(k, true, v, n))
                    .scan(|a: &Val, v: Val| red(a, &v), i(s)),
            )
            .erase(),
        Op::CompSTE(a, n, x) => src.pipe(compose_operator::<Val, Val>().skip(a).take(n).end_with(i(x))).erase(),
        Op::CompEP => src
            .pipe(
                compose_operator::<Val, Val>()
                    .enumerate()
                    .map(|(v, n): (Val, usize)| t("en", vec![v, i(n as i64)]))
                    .pairwise()
                    .map(|[a, b]: [Val; 2]| t("pw", vec![a, b])),
            )
            .erase(),
        Op::CompBuf(n) => src
            .pipe(
                compose_operator::<Val, Val>()
                    .map(|v: Val| v)
                    .buffer_count(n)
                    .map(|x: Vec<Val>| t("buf", x))
                    .filter(|v: &Val, n| pred_i(1, true, v, n)),
            )
            .erase(),
        Op::OptSome(k) => src.pipe(Some(MapOperator::<Val, Val, _, Val>::new(move |v: Val| fmap(k, &v)))).erase(),
        Op::OptNone => {
            let o = Some(IdentityOperator::<Val, Val>::default()).filter(|_| false);
            src.pipe(o).erase()
        }
        Op::SomeObs => Some(src).erase(),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// Models
#[derive(Clone, Debug)]
pub enum Out {
    N(Ntf),
    Side(u32, Ntf),
}

#[derive(Clone, Default)]
struct OpSt {
    n: usize,
    seen: usize,
    acc: Option<Val>,
    buf: Vec<Val>,
    done: bool,
}
#[derive(Clone)]
pub struct Stage {
    op: Op,
    st: OpSt,
}
impl Stage {
    fn new(op: Op) -> Self {
        Stage { op, st: OpSt::default() }
    }
    fn on_subscribe(&mut self) -> Vec<Out> {
        match &self.op {
            Op::StartWith(x) | Op::OnSubscribe(x) => vec![Out::N(Ntf::N(i(*x)))],
            Op::Take(0) => vec![Out::N(Ntf::C)],
            _ => vec![],
        }
    }
    fn on(&mut self, n: Ntf) -> Vec<Out> {
        use Ntf::*;
        let st = &mut self.st;
        let o = |n: Ntf| Out::N(n);
        match (&self.op, n) {
            (Op::Map(k) | Op::OptSome(k), N(v)) => vec![o(N(fmap(*k, &v)))],
            (Op::MapInto, N(v)) => vec![o(N(t("w", vec![v])))],
            (Op::MapInto, E(v)) => vec![o(E(t("w", vec![v])))],
            (Op::Filter(k, ix), N(v)) => {
                let n = st.n;
                st.n += 1;
                if pred_i(*k, *ix, &v, n) { vec![o(N(v))] } else { vec![] }
            }
            (Op::FilterMap(k), N(v)) => {
                if pred(*k, &v) {
                    vec![o(N(t("fm", vec![v])))]
                } else {
                    vec![]
                }
            }
            (Op::Take(k), N(v)) => {
                st.n += 1;
                if st.n < *k { vec![o(N(v))] } else { vec![o(N(v)), o(C)] }
            }
            (Op::Skip(k), N(v)) => {
                st.n += 1;
                if st.n > *k { vec![o(N(v))] } else { vec![] }
            }
            (Op::First, N(v)) => vec![o(N(v)), o(C)],
            (Op::First, C) => vec![o(E(t("NoNext", vec![])))],
            (Op::Find(k), N(v)) => {
                st.seen += 1;
                if !pred(*k, &v) { vec![o(N(v)), o(C)] } else { vec![] }
            }
            (Op::FindIndex(k), N(v)) => {
                st.seen += 1;
                if !pred(*k, &v) { vec![o(N(i(st.seen as i64 - 1))), o(C)] } else { vec![] }
            }
            (Op::Find(_) | Op::FindIndex(_), C) => {
                vec![o(E(t(if st.seen == 0 { "NoNext" } else { "NoMatch" }, vec![])))]
            }
            (Op::ElementAt(k) | Op::ElementAtOr(k, _), N(v)) => {
                st.n += 1;
                if st.n == *k + 1 { vec![o(N(v)), o(C)] } else { vec![] }
            }
            (Op::ElementAt(k), C) => vec![o(E(t("OutOfRange", vec![i(*k as i64), i(st.n as i64)])))],
            (Op::ElementAtOr(_, d), C) => vec![o(N(t("dflt", vec![i(*d)]))), o(C)],
            (Op::IsEmpty, N(_)) => vec![o(N(b(false))), o(C)],
            (Op::IsEmpty, C) => vec![o(N(b(true))), o(C)],
            (Op::Count, N(_)) => {
                st.n += 1;
                vec![]
            }
            (Op::Count, C) => vec![o(N(i(st.n as i64))), o(C)],
            (Op::Scan(s), N(v)) => {
                let a = st.acc.take().unwrap_or(i(*s));
                let r = red(&a, &v);
                st.acc = Some(r.clone());
                vec![o(N(r))]
            }
            (Op::Reduce(s), N(v)) => {
                let a = st.acc.take().unwrap_or(i(*s));
                st.acc = Some(red(&a, &v));
                vec![]
            }
            (Op::Reduce(s), C) => vec![o(N(st.acc.clone().unwrap_or(i(*s)))), o(C)],
            (Op::Enumerate, N(v)) => {
                st.n += 1;
                vec![o(N(t("en", vec![v, i(st.n as i64 - 1)])))]
            }
            (Op::Pairwise, N(v)) => match st.acc.replace(v.clone()) {
                Some(a) => vec![o(N(t("pw", vec![a, v])))],
                None => vec![],
            },
            (Op::BufferCount(k), N(v)) => {
                st.buf.push(v);
                if st.buf.len() == (*k).max(1) {
                    vec![o(N(t("buf", std::mem::take(&mut st.buf))))]
                } else {
                    vec![]
                }
            }
            (Op::BufferCount(_), C) => {
                let mut r = vec![];
                if !st.buf.is_empty() {
                    r.push(o(N(t("buf", std::mem::take(&mut st.buf)))));
                }
                r.push(o(C));
                r
            }
            (Op::EndWith(x), C) => vec![o(N(i(*x))), o(C)],
            (Op::Tap(id), n) => vec![Out::Side(*id, n.clone()), o(n)],
            (Op::TapNext(id), N(v)) => vec![Out::Side(*id, N(v.clone())), o(N(v))],
            (Op::OnNext(id, k), N(v)) => {
                let mut r = vec![Out::Side(*id, N(v.clone()))];
                if v.h() % 3 == k % 3 {
                    r.push(o(N(t("onx", vec![v.clone()]))));
                }
                if v.h() % 4 != k % 4 {
                    r.push(o(N(v)));
                }
                r
            }
            (Op::LiftOption(k), N(v)) => {
                if pred(*k, &v) {
                    vec![o(N(v))]
                } else {
                    vec![]
                }
            }
            (Op::IntoResult, N(v)) => vec![o(N(t("ok", vec![v])))],
            (Op::IntoResult, E(v)) => vec![o(N(t("er", vec![v])))],
            (Op::IntoLift(k), N(v)) => {
                if *k != 0 && v.h() % 5 == *k % 5 {
                    vec![o(E(v))]
                } else {
                    vec![o(N(v))]
                }
            }
            (Op::Materialize, N(v)) => vec![o(N(t("mN", vec![v])))],
            (Op::Materialize, E(v)) => vec![o(N(t("mE", vec![v]))), o(C)],
            (Op::Materialize, C) => vec![o(N(t("mC", vec![]))), o(C)],
            (Op::MatDemat(k), N(v)) => {
                if *k != 0 && v.h() % 7 == *k % 7 {
                    vec![o(E(v))]
                } else if *k != 0 && v.h() % 7 == (*k + 1) % 7 {
                    vec![o(C)]
                } else {
                    vec![o(N(v))]
                }
            }
            (Op::MatDemat(_) | Op::ErrBoundary, E(v)) => vec![o(E(v)), o(C)],
            (Op::MapError(k), E(v)) => vec![o(E(t("me", vec![i(*k), v])))],
            (_, n) => vec![o(n)],
        }
    }
}

/// expand composed operators into their members for the model
fn flatten(op: &Op) -> Vec<Op> {
    match op.clone() {
        Op::CompMFS(a, k, s) => vec![Op::Map(a), Op::Filter(k, true), Op::Scan(s)],
        Op::CompSTE(a, n, x) => vec![Op::Skip(a), Op::Take(n), Op::EndWith(x)],
        Op::CompEP => vec![Op::Enumerate, Op::Pairwise],
        Op::CompBuf(n) => vec![Op::BufferCount(n), Op::Filter(1, true)],
        o => vec![o],
    }
}

/// Model of a chain of operators in front of a sink.
#[derive(Clone)]
pub struct ChainModel {
    stages: Vec<Stage>,
    closed: Vec<bool>,
    pub sink_closed: bool,
    pub close_at: Option<usize>,
    pub count: usize,
    /// what the sink must accept, since last taken
    pub out: Vec<Ntf>,
    pub sides: Vec<(u32, Ntf)>,
    /// an IntoResult-like stage swallowed a terminal; the chain is closed by the source's unsubscribe
    pub swallowed: bool,
}
impl ChainModel {
    pub fn new(ops: &[Op], close_at: Option<usize>) -> Self {
        let stages: Vec<_> = ops.iter().flat_map(flatten).map(Stage::new).collect();
        let n = stages.len();
        ChainModel { stages, closed: vec![false; n], sink_closed: false, close_at, count: 0, out: vec![], sides: vec![], swallowed: false }
    }
    pub fn is_closed(&self) -> bool {
        self.sink_closed || self.closed.iter().any(|x| *x)
    }
    fn closed_from(&self, k: usize) -> bool {
        self.sink_closed || self.closed[k..].iter().any(|x| *x)
    }
    /// effects of subscribing, before the source is subscribed
    pub fn subscribe(&mut self) {
        for k in (0..self.stages.len()).rev() {
            let outs = self.stages[k].on_subscribe();
            self.emit_from(k, outs);
        }
    }
    fn emit_from(&mut self, k: usize, outs: Vec<Out>) {
        for x in outs {
            match x {
                Out::Side(id, n) => self.sides.push((id, n)),
                Out::N(n) => {
                    let term = n.terminal();
                    self.feed(k + 1, n);
                    if term {
                        self.closed[k] = true;
                    }
                }
            }
        }
    }
    pub fn feed(&mut self, k: usize, n: Ntf) {
        if self.closed_from(k.min(self.stages.len())) {
            return;
        }
        if k == self.stages.len() {
            self.count += 1;
            self.out.push(n.clone());
            if n.terminal() || self.close_at == Some(self.count) {
                self.sink_closed = true;
            }
            return;
        }
        let outs = self.stages[k].on(n);
        self.emit_from(k, outs);
    }
    /// a notification of a well-behaved source, which also unsubscribes after its terminal
    pub fn push(&mut self, n: Ntf) {
        if self.is_closed() {
            return;
        }
        let term = n.terminal();
        self.feed(0, n);
        if term {
            self.sink_closed = true;
        }
    }
    pub fn unsubscribe(&mut self) {
        self.sink_closed = true;
    }
}

pub fn gen_op(r: &mut Rng, id: u32) -> Op {
    let k = r.u64() % 8;
    let x = r.range(-3, 9);
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 5, 7]);
    match r.below(40) {
        0 => Op::Map(x),
        1 => Op::MapInto,
        2 | 3 => Op::Filter(k, r.chance(1, 2)),
        4 => Op::FilterMap(k),
        5 | 6 => Op::Take(n),
        7 => Op::Skip(n),
        8 => Op::First,
        9 => Op::Find(k),
        10 => Op::FindIndex(k),
        11 => Op::ElementAt(n),
        12 => Op::ElementAtOr(n, x),
        13 => Op::IsEmpty,
        14 => Op::Count,
        15 => Op::Scan(x),
        16 => Op::Reduce(x),
        17 => Op::Enumerate,
        18 => Op::Pairwise,
        19 | 20 => Op::BufferCount(n),
        21 => Op::StartWith(x),
        22 => Op::EndWith(x),
        23 => Op::Tap(id),
        24 => Op::TapNext(id),
        25 => Op::OnNext(id, k),
        26 => Op::OnSubscribe(x),
        27 => Op::LiftOption(k),
        28 => Op::IntoResult,
        29 => Op::IntoLift(k),
        30 => Op::Materialize,
        31 => Op::MatDemat(k),
        32 => Op::MapError(x),
        33 => Op::Finalize(id),
        34 => Op::Identity,
        35 => Op::ErrBoundary,
        36 => Op::CompMFS(x, k, x),
        37 => Op::CompSTE(n, 1 + r.below(4), x),
        38 => r.pick(&[Op::CompEP, Op::SomeObs, Op::OptNone]).clone(),
        _ => {
            if r.chance(1, 2) {
                Op::CompBuf(n)
            } else {
                Op::OptSome(x)
            }
        }
    }
}
