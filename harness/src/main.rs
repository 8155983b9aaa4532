mod checks;
mod fam_comb;
mod fam_exec;
mod sched;
mod fam_ho;
mod fam_indep;
mod fam_linear;
mod fam_rc;
mod fam_share;
mod fam_subj;
mod fam_thr;
mod fam_time;
mod ops;
mod rt;
mod runner;
mod val;
use checks::Leg;
use runner::*;

pub fn families() -> Vec<Family> {
    vec![Family { name: "linear", crash: &["C03", "C02", "C01"], run: fam_linear::run },
        Family { name: "ho", crash: &["C04", "C01", "C02"], run: fam_ho::run_plain },
        Family { name: "comb", crash: &["C05", "C01", "C02"], run: fam_comb::run_plain },
        Family { name: "comb_re", crash: &["C07", "C05"], run: fam_comb::run_re },
        Family { name: "exec", crash: &["C09"], run: fam_exec::run },
        Family { name: "time", crash: &["C10"], run: fam_time::run },
        Family { name: "thr", crash: &["C08"], run: fam_thr::run },
        Family { name: "indep", crash: &["C13"], run: fam_indep::run },
        Family { name: "share", crash: &["C12"], run: fam_share::run },
        Family { name: "share_re", crash: &["C12", "C07"], run: fam_share::run_re },
        Family { name: "rc", crash: &["C11"], run: fam_rc::run },
        Family { name: "subj", crash: &["C06"], run: fam_subj::run_plain },
        Family { name: "subj_re", crash: &["C07", "C06"], run: fam_subj::run_re },
        Family { name: "ho_re", crash: &["C07", "C04"], run: fam_ho::run_re },
    ]
}

const ASSUME: &[&str] = &[
    "single-threaded unless the family says otherwise",
    "the reference models in /verif/harness/src are the specification; signals are integers or nested tags compared by value",
];

const R_PIPE: &str = "Random pipeline, source and script per case (seeded). Non-trivial: at least 4 events were recorded and the pipeline has an operator. Distinct: by hash of the full recorded event log and the pipeline.";
const R_HIST: &str = "Random pipeline, inputs and history per case (seeded). Non-trivial: enough events were recorded for the monitored behaviour to occur (6 for histories over several inputs, 4 and an operator for chains). Distinct: by hash of the full recorded event log and the construct.";
const R_RE: &str = "Random history whose notifications trigger nested actions (seeded). Non-trivial: a nested action was performed inside a notification. Distinct: by hash of the full recorded event log and the construct.";

const R_EXEC: &str = "Random work, cancellations, invocations and ticks per case, from outside and from inside running work (seeded). Non-trivial: at least 3 work runs and 4 run or drop events. Distinct: by hash of the full recorded run log and the work specifications.";

const R_TIME: &str = "Random time source, chain of time operators, and history of notifications, ticks of arbitrary size and unsubscriptions, from outside and from inside a tick (seeded). Non-trivial: at least 2 notifications were compared and time passed. Distinct: by hash of the full recorded event log and the pipeline.";

const R_THR: &str = "Random scripts for two to four threads emitting on, ending, subscribing to, unsubscribing from, dropping and polling one subject, shared subscriber, combination, flattening or share, each run three times with random short delays in everything the library calls back (seeded; the schedule is the operating system's). Non-trivial: at least 4 notifications were recorded. Distinct: by hash of the order of notifications every subscriber saw.";
const R_INDEP: &str = "Random program tree (operators put together in one of three ways, flattening, combining, retrying, time operators) and up to four subscriptions of it whose histories are interleaved (seeded). Non-trivial: at least two subscriptions were notified. Distinct: by hash of the full recorded event log and the program.";

/// Which families watch which property, with case counts and time caps (quick, thorough).
fn plan(prop: &str) -> Option<(Vec<Leg>, &'static str)> {
    let linear: Leg = ("linear", (1_000_000, 60_000), (20_000_000, 300_000));
    let ho: Leg = ("ho", (600_000, 60_000), (10_000_000, 200_000));
    let comb: Leg = ("comb", (600_000, 60_000), (10_000_000, 200_000));
    let ho_re: Leg = ("ho_re", (800_000, 60_000), (15_000_000, 250_000));
    let comb_re: Leg = ("comb_re", (800_000, 60_000), (15_000_000, 250_000));
    let subj: Leg = ("subj", (600_000, 60_000), (10_000_000, 200_000));
    let subj_re: Leg = ("subj_re", (600_000, 60_000), (10_000_000, 200_000));
    let exec: Leg = ("exec", (800_000, 60_000), (20_000_000, 300_000));
    let time: Leg = ("time", (600_000, 60_000), (15_000_000, 300_000));
    let rc: Leg = ("rc", (600_000, 60_000), (15_000_000, 300_000));
    let share: Leg = ("share", (400_000, 60_000), (10_000_000, 250_000));
    let share_re: Leg = ("share_re", (400_000, 60_000), (10_000_000, 250_000));
    let indep: Leg = ("indep", (400_000, 90_000), (12_000_000, 400_000));
    Some(match prop {
        "C01" | "C02" => (vec![linear, ho, comb, subj, time, rc, share, ho_re, comb_re, subj_re, share_re], R_HIST),
        "C03" => (vec![linear], R_PIPE),
        "C04" => (vec![ho, ho_re], R_HIST),
        "C05" => (vec![comb, ho, comb_re, ho_re], R_HIST),
        "C06" => (vec![subj, subj_re], R_HIST),
        "C07" => (vec![ho_re, comb_re, subj_re, share_re], R_RE),
        "C08" => (vec![("thr", (60_000, 100_000), (1_500_000, 700_000))], R_THR),
        "C09" => (vec![exec], R_EXEC),
        "C10" => (vec![time], R_TIME),
        "C11" => (vec![rc, linear], R_HIST),
        "C12" => (vec![share, share_re], R_HIST),
        "C13" => (vec![indep], R_INDEP),
        "C14" => (vec![linear, ho, comb, subj, exec, time, rc, share], R_HIST),
        _ => return None,
    })
}

include!("cli.rs");
