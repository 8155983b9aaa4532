//! A ticking executor driven by hand.
use rx_core::{SchedulerHandle, WorkContext, WorkContextProvider};
use rx_core_scheduler_ticking::{Tick, TickingScheduler, TickingSchedulerExecutor};
use std::time::Duration;

pub struct CxP;
pub struct Cx;
impl WorkContextProvider for CxP {
    type Item<'c> = Cx;
}
impl WorkContext<'_> for Cx {}
pub type Sched = TickingScheduler<CxP>;
pub type Exec = TickingSchedulerExecutor<Sched, CxP>;
pub type Handle = SchedulerHandle<Sched>;
pub fn exec() -> Exec {
    TickingSchedulerExecutor::new(Sched::default())
}
thread_local! {
    /// Scripts and models count time in units; this is how long one is in this case, in nanoseconds.
    static UNIT: std::cell::Cell<u64> = const { std::cell::Cell::new(1_000_000) };
}
/// Mostly a millisecond, sometimes odd, tiny or so long that frames cross minutes, hours and days.
pub fn set_unit(case: u64) {
    let u = match case % 11 {
        0..=5 => 1_000_000,
        6 => 977,
        7 => 333_333,
        8 => 16_666_667,
        9 => 1_000_000_000,
        _ => 97_000_000_019,
    };
    UNIT.with(|c| c.set(u));
}
pub fn ms(x: u64) -> Duration {
    Duration::from_nanos(x * UNIT.with(|c| c.get()))
}
/// None if it is not a whole number of units
pub fn units_ns(ns: u128) -> Option<u64> {
    let u = UNIT.with(|c| c.get()) as u128;
    (ns % u == 0).then(|| (ns / u) as u64)
}
/// a time seen by the code under test, in units; far off if it is not a whole number of them
pub fn units(d: Duration) -> u64 {
    units_ns(d.as_nanos()).unwrap_or(u64::MAX / 4)
}
pub fn tick(e: &mut Exec, d: u64) {
    e.tick(ms(d), &mut Cx);
}
pub fn tick_to(e: &mut Exec, at: u64) {
    e.tick_to(Tick::new(ms(at)), &mut Cx);
}
