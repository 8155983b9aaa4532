#[path = "../../harness/src/checks.rs"]
mod checks;
mod fam_app;
mod fam_clk;
#[path = "../../harness/src/fam_linear.rs"]
#[allow(dead_code)]
mod fam_linear;
#[path = "../../harness/src/fam_time.rs"]
#[allow(dead_code)]
mod fam_time;
#[path = "../../harness/src/ops.rs"]
#[allow(dead_code)]
mod ops;
#[path = "../../harness/src/sched.rs"]
#[allow(dead_code)]
mod sched;
mod fam_src;
#[path = "../../harness/src/rt.rs"]
mod rt;
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness/src/val.rs"]
mod val;
use checks::Leg;
use runner::*;

pub fn families() -> Vec<Family> {
    vec![Family { name: "app", crash: &["C15", "C18"], run: fam_app::run }, Family { name: "src", crash: &["C17"], run: fam_src::run }, Family { name: "clk", crash: &["C16"], run: fam_clk::run }]
}

const ASSUME: &[&str] = &[
    "bevy 0.18 with the single-threaded schedule executor; frames are driven by App::update",
    "the reference models in /verif/harness_bevy/src are the specification",
];
const R_SRC: &str = "Random observables of events, messages, keys, resources and entities, subscriptions and history of world changes between and within frames per case (seeded). Non-trivial: at least 4 notifications reached destinations. Distinct: by hash of the full recorded event log.";
const R_CLK: &str = "Random pipelines and works on four schedule/clock pairs of one App, frame durations, pauses, time scaling and history of operations per case (seeded). Non-trivial: at least 4 notifications or work runs compared. Distinct: by hash of the full recorded event log.";
const R_APP: &str = "Random app, entities, subscriptions and history of operations between and within frames per case (seeded). Non-trivial: at least 4 notifications reached destinations. Distinct: by hash of the full recorded event log.";

fn plan(prop: &str) -> Option<(Vec<Leg>, &'static str)> {
    let app: Leg = ("app", (400_000, 60_000), (10_000_000, 300_000));
    Some(match prop {
        "C15" | "C18" => (vec![app], R_APP),
        "C17" => (vec![("src", (400_000, 60_000), (10_000_000, 300_000))], R_SRC),
        "C16" => (vec![("clk", (400_000, 60_000), (10_000_000, 300_000))], R_CLK),
        _ => return None,
    })
}

include!("../../harness/src/cli.rs");
