// The command line, shared by both harness crates.
fn main() {
    let t0 = std::time::Instant::now();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let fams = families();
    let fam = |n: &str| fams.iter().find(|f| f.name == n).unwrap_or_else(|| panic!("family {n}"));
    match args.first().map(|s| s.as_str()) {
        Some("worker") => worker(&fams, &args[1..]),
        // check PROP TIER SEED ROOT
        Some("check") => {
            let (legs, rule) = plan(&args[1]).unwrap_or_else(|| panic!("no plan for {}", args[1]));
            let code = checks::check(&fams, &legs, rule, ASSUME, &args[1], &args[2], args[3].parse().unwrap(), std::path::Path::new(&args[4]), t0);
            std::process::exit(code);
        }
        Some("gen") => {
            install_hook();
            let r = run_case(fam(&args[1]), args[2].parse().unwrap(), args[4].parse().unwrap(), args[3] == "thorough", true, false);
            println!("{}", r.desc);
        }
        Some("one") => {
            install_hook();
            let r = run_case(fam(&args[1]), args[2].parse().unwrap(), args[4].parse().unwrap(), args[3] == "thorough", false, args.len() > 5);
            if args.len() > 5 {
                for (s, e) in rt::log_from(0) {
                    println!("  [{s}] {e:?}");
                }
            }
            println!("case: {}", r.desc);
            for v in &r.viols {
                println!("{} | {} | {}", v.prop, v.sig, v.detail);
            }
            std::process::exit(if r.viols.is_empty() { 0 } else { 1 });
        }
        // dev: fam FAMILY seed tier cases ms
        Some("fam") => {
            let dir = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let r = run_family(fam(&args[1]), args[2].parse().unwrap(), &args[3], args[4].parse().unwrap(), args[5].parse().unwrap(), 8, &dir);
            let mut by: std::collections::BTreeMap<(String, String), (u64, u64, String, String)> = Default::default();
            for (p, i, s, d, c) in &r.viols {
                let e = by.entry((p.clone(), s.clone())).or_insert((0, *i, d.clone(), c.clone()));
                e.0 += 1;
                if c.len() < e.3.len() {
                    *e = (e.0, *i, d.clone(), c.clone());
                }
            }
            println!("cases {} distinct {} inconclusive {} stats {:?}", r.cases, r.fps.len(), r.inconclusive, r.stats);
            for ((p, s), (n, i, d, c)) in by {
                println!("{p} x{n} [{s}] idx {i}\n    {d}\n    {c}");
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
        _ => {
            eprintln!("usage: check PROP TIER SEED ROOT | one FAMILY SEED TIER CASE [v] | fam FAMILY SEED TIER CASES MS");
            std::process::exit(2);
        }
    }
}
