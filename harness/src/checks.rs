//! `check PROP TIER`: run the families that watch one property, write evidence, report.
use crate::runner::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Instant;

/// family, quick (cases, ms), thorough (cases, ms)
pub type Leg = (&'static str, (u64, u128), (u64, u128));

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub what: String,
}
/// Lines `known: property=<id> sig=<exact signature> :: <what fails>`; everything else is ignored.
pub fn read_known(root: &std::path::Path) -> Vec<Known> {
    let s = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, l) = l.split_once(" sig=")?;
            let (sig, what) = l.split_once(" :: ")?;
            Some(Known { prop: p.into(), sig: sig.trim().into(), what: what.trim().into() })
        })
        .collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn unesc(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\\"", "\"").replace("\\\\", "\\")
}

pub fn check(fams: &[Family], legs: &[Leg], rule: &str, assumptions: &[&str], prop: &str, tier: &str, seed: u64, root: &std::path::Path, t0: Instant) -> i32 {
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let par = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8);
    let known = read_known(root);
    let mut fps: HashSet<u64> = HashSet::new();
    let (mut cases, mut inconclusive) = (0, 0);
    let mut samples: Vec<String> = vec![];
    let mut per: Vec<String> = vec![];
    let mut viols: BTreeMap<String, (u64, String, u64, String, String)> = BTreeMap::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    for (name, q, t) in legs {
        let f = fams.iter().find(|f| f.name == *name).unwrap_or_else(|| panic!("family {name}"));
        let (n, ms) = if tier == "thorough" { *t } else { *q };
        let r = run_family(f, seed, tier, n, ms, par, &dir);
        println!("{prop}: family {name}: {} cases, {} distinct behaviours observed, {} inconclusive", r.cases, r.fps.len(), r.inconclusive);
        cases += r.cases;
        inconclusive += r.inconclusive;
        per.push(format!(
            "{}: {{\"cases\": {}, \"distinct_observed_behaviours\": {}, \"inconclusive\": {}, \"monitors\": {{{}}}}}",
            js(name),
            r.cases,
            r.fps.len(),
            r.inconclusive,
            r.stats.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        ));
        let salt = fam_no(name);
        fps.extend(r.fps.iter().map(|x| x ^ salt));
        for (i, d) in r.samples.iter().take(3) {
            samples.push(format!("{name}[seed {seed}, case {i}]: {d}"));
        }
        for (p, idx, sig, det, desc) in r.viols {
            if p != prop {
                continue;
            }
            let full = unesc(&sig);
            if let Some(k) = known.iter().find(|k| k.prop == prop && k.sig == full) {
                *known_hit.entry(k.sig.clone()).or_default() += 1;
                continue;
            }
            let e = viols.entry(full).or_insert((0, name.to_string(), idx, det.clone(), desc.clone()));
            e.0 += 1;
            if desc.len() < e.4.len() {
                *e = (e.0, name.to_string(), idx, det, desc);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    for k in known.iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={prop} {}", k.what);
    }
    let nv: u64 = viols.values().map(|v| v.0).sum();
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let mut f = std::fs::File::create(ev.join(format!("{prop}.json"))).unwrap();
    let _ = write!(
        f,
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"inconclusive\": {},\n  \"known_finding_hits\": {},\n  \"families\": {{{}}}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.1}, \"violations\": {}}}\n",
        js(prop),
        js(tier),
        seed,
        cases,
        fps.len(),
        js(rule),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "),
        inconclusive,
        known_hit.values().sum::<u64>(),
        per.join(",\n   "),
        assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        nv
    );
    if viols.is_empty() {
        println!("{prop}: held on everything explored ({cases} cases)");
        return 0;
    }
    let rd = root.join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let mut vs: Vec<_> = viols.into_iter().collect();
    vs.sort_by_key(|(_, v)| std::cmp::Reverse(v.0));
    for (k, (sig, (n, fam, idx, det, desc))) in vs.iter().enumerate().take(6) {
        let p = rd.join(format!("{prop}-{k}.txt"));
        let exe = std::env::current_exe().unwrap();
        let _ = std::fs::write(
            &p,
            format!(
                "property {prop}\nsignature {sig}\nseen {n} times\nfamily {fam} seed {seed} tier {tier} case {idx}\nreplay: {} one {fam} {seed} {tier} {idx} v\n\n{}\n\ncase: {}\n",
                exe.display(),
                unesc(det),
                unesc(desc)
            ),
        );
        println!("VIOLATION property={prop} replay={} [{sig}] x{n} {}", p.display(), det.chars().take(400).collect::<String>());
    }
    1
}
