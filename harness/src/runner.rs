//! Runs families of cases in worker processes, collects verdicts, re-confirms hangs and crashes.
use crate::fam_linear::{WRAP_NAMES, WRAPS};
use crate::rt;
use crate::val::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub thorough: bool,
    pub gen_only: bool,
    pub verbose: bool,
    pub desc: String,
    /// monitors' own counters: name -> count
    pub stats: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// fingerprint of what was observed
    pub fp: u64,
}
pub struct GenOnly;
impl Ctx {
    /// Announce the case before running it. Must be called exactly once, after generation.
    pub fn publish(&mut self, d: String) {
        self.desc = d;
        if self.verbose {
            eprintln!("CASE {}", self.desc);
        }
        if self.gen_only {
            std::panic::resume_unwind(Box::new(GenOnly));
        }
    }
    pub fn stat(&mut self, n: &'static str, k: u64) {
        *self.stats.entry(n).or_default() += k;
    }
}

pub struct Family {
    pub name: &'static str,
    /// properties that a panic, crash or hang of this family counts against
    pub crash: &'static [&'static str],
    pub run: fn(&mut Rng, &mut Ctx),
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit("/crates/").next().unwrap_or(""), l.line())).unwrap_or_default();
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("{msg} @ {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                *p = format!("{} @ {}", msg.chars().take(160).collect::<String>(), loc);
            }
        });
        OTHER_PANIC.lock().unwrap_or_else(|p| p.into_inner()).push(format!("{msg} @ {loc}"));
    }));
}
/// panics on any thread since last taken
pub static OTHER_PANIC: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

pub struct CaseResult {
    pub viols: Vec<rt::Viol>,
    pub desc: String,
    pub stats: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub fp: u64,
}
pub fn fam_no(name: &str) -> u64 {
    name.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))
}
pub fn run_case(f: &Family, seed: u64, idx: u64, thorough: bool, gen_only: bool, verbose: bool) -> CaseResult {
    rt::reset();
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    OTHER_PANIC.lock().unwrap_or_else(|p| p.into_inner()).clear();
    let open = idx % 9 == 7 && ["linear", "time", "ho", "ho_re", "comb", "comb_re", "subj", "subj_re", "share", "share_re", "rc"].contains(&f.name);
    rt::with(|r| r.open = open);
    let wrap = if ["linear", "time", "ho", "comb", "rc"].contains(&f.name) { (idx / 9 % 31) as u8 } else { 0 };
    // a delayed notification may outlive the handle that keeps a weakly referenced destination alive
    let wrap = if f.name == "time" && wrap == 10 { 0 } else { wrap };
    rt::with(|r| r.wrap = wrap);
    crate::sched::set_unit(idx);
    let mut rng = Rng::new(seed, fam_no(f.name), idx);
    let mut ctx = Ctx { thorough, gen_only, verbose, desc: String::new(), stats: BTreeMap::new(), nontrivial: false, fp: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| (f.run)(&mut rng, &mut ctx)));
    let mut viols = rt::take_viols();
    if let Err(e) = r {
        if !e.is::<GenOnly>() && !open {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            for p in f.crash {
                viols.push(rt::Viol { prop: p, sig: format!("{}: panic: {}", f.name, msg), detail: format!("panicked: {msg}") });
            }
        }
    }
    if (1..=WRAPS).contains(&wrap) {
        ctx.desc.push_str(&format!(" (wrapped: {})", WRAP_NAMES[wrap as usize - 1]));
        *ctx.stats.entry("cases with a wrapped destination or observable").or_default() += 1;
    }
    if open {
        ctx.desc.push_str(" (the destination stays open after a terminal notification; only the order of what it is sent is judged)");
        *ctx.stats.entry("cases with a destination that stays open").or_default() += 1;
    }
    CaseResult { viols, desc: ctx.desc, stats: ctx.stats, nontrivial: ctx.nontrivial, fp: ctx.fp }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// `worker FAMILY seed tier start step end deadline_ms`: one line per finding, a summary at the end.
pub fn worker(fams: &[Family], args: &[String]) {
    install_hook();
    let f = fams.iter().find(|f| f.name == args[0]).expect("family");
    let seed: u64 = args[1].parse().unwrap();
    let thorough = args[2] == "thorough";
    let (mut i, step, end): (u64, u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap());
    let deadline = Instant::now() + Duration::from_millis(args[6].parse().unwrap());
    let out = std::io::stdout();
    let mut o = out.lock();
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let (mut n, mut nv) = (0u64, 0u64);
    let mut samples = 0;
    let beat = std::path::PathBuf::from(&args[7]);
    let bf = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&beat).unwrap();
    use std::os::unix::fs::FileExt;
    let mut last_flush = Instant::now();
    while i < end && Instant::now() < deadline {
        let _ = bf.write_at(format!("{i:020}").as_bytes(), 0);
        let r = run_case(f, seed, i, thorough, false, false);
        n += 1;
        for (k, v) in r.stats {
            *stats.entry(k).or_default() += v;
        }
        if r.nontrivial {
            fps.insert(r.fp);
            if samples < 1 {
                samples += 1;
                let _ = writeln!(o, "SAMPLE\t{}\t{}", i, esc(&r.desc.chars().take(700).collect::<String>()));
            }
        }
        for v in r.viols {
            nv += 1;
            if nv < 3000 {
                let _ = writeln!(o, "VIOL\t{}\t{}\t{}\t{}\t{}", v.prop, i, esc(&v.sig), esc(&v.detail.chars().take(1500).collect::<String>()), esc(&r.desc.chars().take(3000).collect::<String>()));
            }
        }
        if last_flush.elapsed() > Duration::from_millis(500) {
            // progress, in case this process has to be killed later
            let _ = writeln!(o, "PROG\t{}\t{}", n, fps.len());
            let _ = o.flush();
            last_flush = Instant::now();
        }
        i += step;
    }
    let _ = bf.write_at(format!("{:020}", u64::MAX / 2).as_bytes(), 0);
    let _ = writeln!(o, "DONE\t{n}");
    for (k, v) in &stats {
        let _ = writeln!(o, "STAT\t{k}\t{v}");
    }
    for fp in &fps {
        let _ = writeln!(o, "FP\t{fp:x}");
    }
    let _ = o.flush();
    drop(o);
    // leaked threads of a case must not keep us
    std::process::exit(0);
}

pub struct FamOut {
    pub cases: u64,
    pub fps: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    pub viols: Vec<(String, u64, String, String, String)>,
    pub inconclusive: u64,
}

struct W {
    child: Child,
    out: std::path::PathBuf,
    beat: std::path::PathBuf,
    last: String,
    since: Instant,
    off: u64,
    rest: u32,
}

fn spawn(me: &std::path::Path, f: &Family, seed: u64, tier: &str, start: u64, step: u64, end: u64, ms: u128, dir: &std::path::Path, k: u64, rest: u32) -> W {
    let out = dir.join(format!("{}-{k}-{rest}.out", f.name));
    let beat = dir.join(format!("{}-{k}-{rest}.beat", f.name));
    let of = std::fs::File::create(&out).unwrap();
    let ef = std::fs::File::create(dir.join(format!("{}-{k}-{rest}.err", f.name))).unwrap();
    let child = Command::new(me)
        .args(["worker", f.name, &seed.to_string(), tier, &start.to_string(), &step.to_string(), &end.to_string(), &ms.to_string(), beat.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(of)
        .stderr(ef)
        .spawn()
        .unwrap();
    W { child, out, beat, last: String::new(), since: Instant::now(), off: k, rest }
}

/// Re-run one case alone; Some(kind) if it hangs or crashes again.
fn confirm(me: &std::path::Path, f: &Family, seed: u64, tier: &str, idx: u64) -> Option<(String, String)> {
    let desc = Command::new(me).args(["gen", f.name, &seed.to_string(), tier, &idx.to_string()]).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
    let mut c = Command::new(me)
        .args(["one", f.name, &seed.to_string(), tier, &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            return match st.code() {
                Some(0) | Some(1) => None,
                _ => Some((format!("{}: crash: process died ({st})", f.name), desc)),
            };
        }
        if t.elapsed() > Duration::from_secs(45) {
            let _ = c.kill();
            let _ = c.wait();
            return Some((format!("{}: hang", f.name), desc));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn run_family(f: &Family, seed: u64, tier: &str, cases: u64, ms: u128, par: u64, dir: &std::path::Path) -> FamOut {
    let me = std::env::current_exe().unwrap();
    let mut r = FamOut { cases: 0, fps: HashSet::new(), stats: BTreeMap::new(), samples: vec![], viols: vec![], inconclusive: 0 };
    let start = Instant::now();
    let mut ws: Vec<W> = (0..par).map(|k| spawn(&me, f, seed, tier, k, par, cases, ms, dir, k, 0)).collect();
    let mut done: Vec<W> = vec![];
    let mut bad = 0;
    let mut confirmed = 0;
    while let Some(mut w) = ws.pop() {
        let mut stuck: Option<&str> = None;
        loop {
            if let Ok(Some(st)) = w.child.try_wait() {
                if st.code() != Some(0) {
                    stuck = Some("crash");
                }
                break;
            }
            // poll the whole set: put it back and look at another
            let cur = std::fs::read_to_string(&w.beat).unwrap_or_default();
            if cur != w.last {
                w.last = cur;
                w.since = Instant::now();
            } else if w.since.elapsed() > Duration::from_secs(20) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                stuck = Some("hang");
                break;
            }
            ws.insert(0, w);
            std::thread::sleep(Duration::from_millis(10));
            w = ws.pop().unwrap();
        }
        if stuck.is_some() {
            let cur = std::fs::read_to_string(&w.beat).unwrap_or_default();
            let idx: u64 = cur.trim().parse().unwrap_or(0);
            bad += 1;
            if idx < u64::MAX / 4 && confirmed >= 2 {
                // enough of them shown already; the rest of the run would only repeat it
                r.inconclusive += 1;
            } else if idx < u64::MAX / 4 {
                match confirm(&me, f, seed, tier, idx) {
                    Some((sig, desc)) => {
                        confirmed += 1;
                        for p in f.crash {
                            r.viols.push((p.to_string(), idx, sig.clone(), "confirmed by running the case alone again".into(), esc(&desc)));
                        }
                    }
                    None => r.inconclusive += 1,
                }
                let left = ms.saturating_sub(start.elapsed().as_millis());
                if bad < 6 && left > 1000 {
                    ws.insert(0, spawn(&me, f, seed, tier, idx + par, par, cases, left, dir, w.off, w.rest + 1));
                }
            }
        }
        done.push(w);
    }
    for w in done {
        let s = std::fs::read(&w.out).unwrap_or_default();
        let s = String::from_utf8_lossy(&s);
        let (mut n, mut prog) = (None, 0);
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "DONE" => n = p.get(1).and_then(|x| x.parse::<u64>().ok()),
                "PROG" => prog = p.get(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(prog),
                "STAT" if p.len() == 3 => *r.stats.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap_or(0),
                "FP" if p.len() == 2 => {
                    r.fps.insert(u64::from_str_radix(p[1], 16).unwrap_or(0));
                }
                "SAMPLE" if p.len() == 3 => r.samples.push((p[1].parse().unwrap_or(0), p[2].into())),
                "VIOL" if p.len() == 6 => r.viols.push((p[1].into(), p[2].parse().unwrap_or(0), p[3].into(), p[4].into(), p[5].into())),
                _ => {}
            }
        }
        r.cases += n.unwrap_or(prog);
    }
    r
}
