//! Execution of the suites, evidence, verdicts and replay files.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::{hash_str, Rng};

#[derive(Default, Clone)]
pub struct Case {
    /// what breaks the property
    pub violations: Vec<String>,
    /// signatures of known findings
    pub known: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub shape: u64,
    pub nontrivial: bool,
    pub sample: String,
    /// full details, in the replay file
    pub details: String,
    pub evaluations: u64,
}

impl Case {
    pub fn count(&mut self, k: &str, v: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += v;
    }
    pub fn add(&mut self, c: &BTreeMap<&'static str, u64>) {
        for (k, v) in c {
            self.count(k, *v);
        }
    }
    pub fn fail(&mut self, m: String) {
        self.violations.push(m);
    }
    pub fn mix(&mut self, v: u64) {
        self.shape = (self.shape ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(7) ^ 0x51_7cc1_b727;
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub scratch: String,
}

pub type CaseFn = Box<dyn Fn(&Ctx, u64, &mut Rng) -> Case + Sync + Send>;

pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// the cases use several threads by themselves or change process-wide state
    pub serial: bool,
    pub run: CaseFn,
}

pub fn suite(
    name: &'static str,
    quick: u64,
    thorough: u64,
    run: impl Fn(&Ctx, u64, &mut Rng) -> Case + Sync + Send + 'static,
) -> Suite {
    Suite {
        name,
        quick,
        thorough,
        serial: false,
        run: Box::new(run),
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    pub suites: Vec<Suite>,
    /// counters that must not be zero for the run to mean something
    pub required: Vec<&'static str>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

#[derive(Default)]
struct Total {
    cases: u64,
    evaluations: u64,
    nontrivial: u64,
    shapes: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    fails: BTreeMap<u64, Case>,
    nfails: u64,
}

/// known findings of the committed file: (property, signature, text)
pub fn known_findings(path: &str) -> Vec<(String, String, String)> {
    let mut v = Vec::new();
    if let Ok(c) = std::fs::read_to_string(path) {
        for l in c.lines() {
            // finding: property=<id> signature=<sig> <text>
            if let Some(rest) = l.strip_prefix("finding: property=") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").to_string();
                let s = it.next().unwrap_or("").trim_start_matches("signature=").to_string();
                v.push((p, s, it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

/// the slowest legitimate case takes a few seconds
const HANG: Duration = Duration::from_secs(240);
/// a run needs some hundred megabytes
const MEMORY: u64 = 8 << 30;

/// bytes of memory held by this process
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|v| v.parse::<u64>().ok()))
        .map_or(0, |pages| pages * 4096)
}

pub fn run_property(p: &Property, seed: u64, thorough: bool, dir: &str, findings: &[(String, String, String)], only: Option<(&str, u64)>) -> i32 {
    let start = Instant::now();
    let scratch = format!("{}/scratch-{}-{}", dir, p.id, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let ctx = Ctx {
        prop: p.id,
        thorough,
        seed,
        scratch: scratch.clone(),
    };
    let limit = Duration::from_secs(if thorough { 780 } else { 400 });
    let mut tots: Vec<(String, Total)> = Vec::new();
    let mut timeout = false;
    let monitor_panics = AtomicU64::new(0);
    for s in &p.suites {
        if let Some((name, _)) = only {
            if name != s.name {
                continue;
            }
        }
        let scale: f64 = std::env::var("MONITOR_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
        // the sizes of the suites of the quick tier are for about 2 seconds
        let quick = if matches!(p.id, "SAN" | "ALL" | "C22") { s.quick } else { 5 * s.quick };
        let n = if thorough { s.thorough } else { quick };
        let n = ((n as f64 * scale).ceil() as u64).max(1);
        let stream = hash_str(p.id) ^ hash_str(s.name).rotate_left(9);
        let total = Mutex::new(Total::default());
        let next = AtomicU64::new(0);
        let out_of_time = AtomicBool::new(false);
        let running: Mutex<BTreeMap<u64, Instant>> = Mutex::new(BTreeMap::new());
        let finished = AtomicBool::new(false);
        // a case that never ends is a violation: resolutions and readers terminate
        let watchdog = || {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                // the cases of these are whole processes, or run under a sanitizer
                if matches!(p.id, "SAN" | "ALL" | "C22") {
                    continue;
                }
                let oldest = running.lock().unwrap().iter().min_by_key(|(_, t)| **t).map(|(k, t)| (*k, t.elapsed()));
                let what = match oldest {
                    Some((_, t)) if t > HANG => format!("it does not end after {} s", HANG.as_secs()),
                    Some(_) if resident() > MEMORY => format!("the memory grows beyond {} MB", MEMORY >> 20),
                    _ => continue,
                };
                if let Some((k, _)) = oldest {
                    let replay = format!("{}/replay-{}.txt", dir, p.id);
                    let text = format!(
                        "property {}\nsuite {}\ncase {}\nseed {}\ntier {}\nrerun: VERIF_SEED={} /verif/run_check.sh replay {} {} {}\n\nviolation: {}\n",
                        p.id, s.name, k, seed, if thorough { "thorough" } else { "quick" }, seed, p.id, s.name, k, what
                    );
                    let _ = std::fs::write(&replay, text);
                    let _ = std::fs::remove_dir_all(&scratch);
                    println!("property {} suite {} case {}: {}", p.id, s.name, k, what);
                    println!("VIOLATION property={} replay={}", p.id, replay);
                    std::process::exit(1);
                }
            }
        };
        let worker = || {
            loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n {
                    break;
                }
                let k = match only {
                    Some((_, c)) => {
                        if k > 0 {
                            break;
                        }
                        c
                    }
                    None => k,
                };
                if start.elapsed() > limit {
                    out_of_time.store(true, Ordering::Relaxed);
                    break;
                }
                {
                    let t = total.lock().unwrap();
                    if t.nfails > 200 {
                        break;
                    }
                }
                let mut rng = Rng::new(seed, stream, k);
                let t0 = Instant::now();
                running.lock().unwrap().insert(k, t0);
                let run = crate::scen::guarded(|| (s.run)(&ctx, k, &mut rng));
                running.lock().unwrap().remove(&k);
                let c = match run {
                    Ok(c) => c,
                    Err(m) => {
                        // a panic of the code of the repository where none is expected breaks
                        // the property; one of the monitor itself is no answer
                        if m.rsplit(" at ").next().map_or(true, |l| l.starts_with("src/")) {
                            eprintln!("suite {} case {}: the monitor panicked: {}", s.name, k, m);
                            monitor_panics.fetch_add(1, Ordering::Relaxed);
                            continue;
                        }
                        let mut c = Case::default();
                        c.fail(format!("unexpected panic: {}", m));
                        c
                    }
                };
                if std::env::var("MONITOR_SLOW").is_ok() && t0.elapsed() > Duration::from_millis(500) {
                    eprintln!("slow case {} {}: {:?} {}", s.name, k, t0.elapsed(), c.sample);
                }
                let mut t = total.lock().unwrap();
                t.cases += 1;
                t.evaluations += c.evaluations.max(1);
                if c.nontrivial {
                    t.nontrivial += 1;
                    t.shapes.insert(c.shape);
                }
                for (key, v) in &c.counters {
                    *t.counters.entry(key.clone()).or_insert(0) += v;
                }
                for key in &c.known {
                    *t.known.entry(key.clone()).or_insert(0) += 1;
                }
                if k < 3 && !c.sample.is_empty() {
                    t.samples.push(format!("{} #{}: {}", s.name, k, c.sample));
                }
                if !c.violations.is_empty() {
                    t.nfails += 1;
                    t.fails.insert(k, c);
                    while t.fails.len() > 20 {
                        let last = *t.fails.keys().next_back().unwrap();
                        t.fails.remove(&last);
                    }
                }
            }
        };
        std::thread::scope(|sc| {
            sc.spawn(watchdog);
            if s.serial || only.is_some() {
                worker();
            } else {
                std::thread::scope(|sc| {
                    for _ in 0..8 {
                        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, worker).unwrap();
                    }
                });
            }
            finished.store(true, Ordering::Relaxed);
        });
        timeout |= out_of_time.load(Ordering::Relaxed);
        tots.push((s.name.to_string(), total.into_inner().unwrap()));
    }
    let _ = std::fs::remove_dir_all(&scratch);

    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut distinct, mut cases) = (0, 0, 0);
    let mut samples = Vec::new();
    let mut nfails = 0;
    let mut suites_json = String::new();
    for (name, t) in &tots {
        for (k, v) in &t.counters {
            *counters.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &t.known {
            *known.entry(k.clone()).or_insert(0) += v;
        }
        evals += t.evaluations;
        distinct += t.shapes.len() as u64;
        cases += t.cases;
        samples.extend(t.samples.iter().cloned());
        nfails += t.nfails;
        let _ = write!(
            suites_json,
            "{}\"{}\": {{\"cases\": {}, \"nontrivial\": {}, \"distinct_shapes\": {}}}",
            if suites_json.is_empty() { "" } else { ", " },
            name,
            t.cases,
            t.nontrivial,
            t.shapes.len()
        );
    }
    // ---- verdict
    let mut code = 0;
    let mut unlisted: Vec<String> = Vec::new();
    for (sig, n) in &known {
        match findings.iter().find(|f| f.0 == p.id && &f.1 == sig) {
            Some(f) => println!("KNOWN-FINDING: property={} {} ({} cases, signature {})", p.id, f.2, n, sig),
            None => unlisted.push(sig.clone()),
        }
    }
    let mut replay = String::new();
    for (name, t) in &tots {
        if let Some((k, c)) = t.fails.iter().next() {
            println!("suite {}: {} of {} cases fail", name, t.nfails, t.cases);
            if !replay.is_empty() {
                println!("  case {}: {}", k, c.violations[0]);
                continue;
            }
            replay = format!("{}/replay-{}.txt", dir, p.id);
            let mut s = String::new();
            let _ = writeln!(s, "property {}\nsuite {}\ncase {}\nseed {}\ntier {}", p.id, name, k, seed, if thorough { "thorough" } else { "quick" });
            let _ = writeln!(s, "rerun: VERIF_SEED={} /verif/run_check.sh replay {} {} {}\n", seed, p.id, name, k);
            for v in &c.violations {
                let _ = writeln!(s, "violation: {}", v);
            }
            let _ = writeln!(s, "scenario: {}\n{}", c.sample, c.details);
            if only.is_none() {
                std::fs::write(&replay, &s).unwrap();
            } else {
                println!("{}", s);
            }
            println!("property {} suite {} case {}: {}", p.id, name, k, c.violations[0]);
            println!("  {}", c.sample);
        }
    }
    if replay.is_empty() && !unlisted.is_empty() {
        replay = format!("{}/replay-{}.txt", dir, p.id);
        std::fs::write(&replay, format!("unlisted finding signatures: {:?}\n", unlisted)).unwrap();
    }
    if nfails > 0 || !unlisted.is_empty() {
        println!("VIOLATION property={} replay={}", p.id, replay);
        code = 1;
    }
    let mut lacking = Vec::new();
    if only.is_none() {
        for r in &p.required {
            if counters.get(*r).copied().unwrap_or(0) == 0 {
                lacking.push(r.to_string());
            }
        }
    }
    if only.is_none() {
        let mut j = String::new();
        let cs: Vec<String> = counters.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
        let sm: Vec<String> = samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(400).collect::<String>()))).collect();
        let asm: Vec<String> = p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let kn: Vec<String> = known.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
        // the evidence of the run of the other build (see run_check.sh)
        let additional = match std::env::var("MONITOR_ADDITIONAL").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
            Some(t) => format!("  \"with_additional_log_info\": {},\n", t.trim()),
            None => String::new(),
        };
        let _ = write!(
            j,
            "{{\n\"property\": \"{}\",\n\"tier\": \"{}\",\n\"seed\": {},\n\"level\": \"{}\",\n\"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"cases\": {},\n  \"suites\": {{{}}},\n  \"observed\": {{{}}},\n  \"known_findings\": {{{}}},\n  \"stopped_by_time_limit\": {},\n  \"missing_observations\": [{}],\n{}  \"samples\": [{}]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
            p.id,
            if thorough { "thorough" } else { "quick" },
            seed,
            p.level,
            evals,
            distinct,
            esc(p.rule),
            cases,
            suites_json,
            cs.join(", "),
            kn.join(", "),
            timeout,
            lacking.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(", "),
            additional,
            sm.join(", "),
            asm.join(", "),
            start.elapsed().as_secs_f64(),
            nfails + unlisted.len() as u64
        );
        std::fs::write(format!("{}/{}.json", dir, p.id), j).unwrap();
    }
    println!(
        "{} {}: {} cases, {} distinct non trivial, {} violations, {:.1} s",
        p.id,
        if thorough { "thorough" } else { "quick" },
        cases,
        distinct,
        nfails,
        start.elapsed().as_secs_f64()
    );
    if code == 0 && monitor_panics.load(Ordering::Relaxed) > 0 {
        return 4;
    }
    if code == 0 && !lacking.is_empty() {
        // the monitors saw nothing of what the property is about: no answer
        eprintln!("{}: nothing observed for {:?}", p.id, lacking);
        if !timeout {
            return 3;
        }
    }
    code
}
