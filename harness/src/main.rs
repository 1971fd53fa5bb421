mod envsuite;
mod lin;
mod model;
mod prob;
mod props;
mod report;
mod rng;
mod sanitize;
mod scen;
mod logsuite;
mod runsuites;
mod spec;
mod fnsuites;
mod symsuite;
mod textsuite;
mod trace;
mod xmlsuite;

fn main() {
    scen::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("workload") {
        let n = |k: usize| args[k].parse().unwrap();
        sanitize::workload(n(2), n(3), n(4), args.get(5).map(|s| s.as_str()));
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("effects") {
        envsuite::effects_child(args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4]);
        return;
    }
    let dir = std::env::var("MONITOR_OUT").unwrap_or_else(|_| "/verif/evidence".to_string());
    std::fs::create_dir_all(&dir).unwrap();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let findings = report::known_findings(
        &std::env::var("MONITOR_FINDINGS").unwrap_or_else(|_| "/verif/known_findings.txt".to_string()),
    );
    let (id, only) = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => (
            args[2].clone(),
            Some((args[3].clone(), args[4].parse::<u64>().unwrap())),
        ),
        Some("digest") => {
            println!("{}", runsuites::digest(args[2].parse().unwrap(), args[3].parse().unwrap()));
            return;
        }
        Some(id) => (id.to_string(), None),
        None => {
            for id in props::all_ids() {
                println!("{}", id);
            }
            return;
        }
    };
    let p = match props::property(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let code = report::run_property(
        &p,
        seed,
        thorough,
        &dir,
        &findings,
        only.as_ref().map(|(a, b)| (a.as_str(), *b)),
    );
    std::process::exit(code);
}
