//! Workload and driver of the sanitizers and of the undefined-behaviour interpreter (C22).

use std::path::Path;
use std::process::Command;
use std::sync::{Arc, Barrier, OnceLock};

use crate::model::Fault;
use crate::prob::Family;
use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{gen, Prof, Res, Scn};
use crate::{fnsuites, runsuites};

pub const KINDS: [&str; 4] = ["asan", "msan", "tsan", "miri"];
const FAULTS: [Fault; 5] = [Fault::Inaccurate, Fault::Unusable, Fault::Nan, Fault::Inf, Fault::Panic];

fn small(rng: &mut Rng, k: u64) -> Scn {
    let prof = Prof {
        nmax: 3,
        big_n: 0.0,
        long: 0.0,
        stat: 0.6,
        memory: 0.3,
        methods: vec![(k % 10) as usize],
        families: vec![(Family::Mild, 0.4), (Family::Atan, 0.3), (Family::Wild, 0.2), (Family::Singular, 0.05), (Family::Hostile, 0.05)],
        ..Prof::default()
    };
    let mut s = gen(rng, &prof);
    s.analytic = (k / 10) % 2 == 0;
    s.damping = (k / 20) % 2 == 0;
    s.max_iter = s.max_iter.clamp(1, 4);
    if s.tol > 1e-3 {
        s.tol = 1e-6;
    }
    if rng.chance(0.3) {
        s.faults.evals.insert(1 + rng.below(6), *rng.pick(&FAULTS));
    }
    if s.analytic && rng.chance(0.1) {
        s.faults.jacs.insert(1 + rng.below(2), *rng.pick(&FAULTS));
    }
    s
}

/// Small workload, for the interpreter: indices from..to
pub fn workload(seed: u64, from: u64, to: u64, scratch: Option<&str>) {
    let mut evals = 0;
    let mut runs = 0;
    let mut panics = 0;
    let mut threads = 0;
    let ctx = Ctx { prop: "C22", thorough: false, seed, scratch: scratch.unwrap_or("").to_string() };
    for k in from..to {
        let mut rng = Rng::new(seed, 2222, k);
        let mut s = small(&mut rng, k);
        match k % 8 {
            5 => {
                // several threads, the same and different problems
                let other = small(&mut rng, k + 3);
                let third = s.clone();
                let barrier = Arc::new(Barrier::new(3));
                std::thread::scope(|sc| {
                    for s in [s.clone(), other, third] {
                        let b = barrier.clone();
                        sc.spawn(move || {
                            b.wait();
                            s.run();
                        });
                    }
                });
                threads += 3;
                runs += 3;
            }
            6 => {
                // the same solver again, after an error or a panic
                s.fd_params = true;
                let mut bad = s.clone();
                bad.faults.evals.insert(1 + rng.below(3), *rng.pick(&FAULTS));
                for o in s.run_models(&[&s, &bad, &s]) {
                    evals += o.evals();
                    runs += 1;
                }
            }
            7 => {
                // resolutions inside an evaluation
                s.stat = false;
                let inner = small(&mut rng, k + 5);
                let o = s.run_prep(&move |_, m| {
                    let i2 = inner.clone();
                    m.hook = Some(Box::new(move |k| {
                        if k == 2 {
                            i2.run();
                        }
                    }));
                });
                evals += o.evals();
                runs += 2;
            }
            3 => {
                if let Some(d) = scratch {
                    s.log = Some(format!("{}/log-{}.txt", d, k));
                }
                let o = s.run();
                evals += o.evals();
                runs += 1;
                if let Some(p) = &s.log {
                    let _ = std::fs::remove_file(p);
                }
            }
            4 => {
                let c = match (k / 8) % 4 {
                    0 => fnsuites::update_formulas(&ctx, &mut rng),
                    1 => runsuites::descriptions(&ctx, &mut rng),
                    2 => runsuites::adapters(&ctx, &mut rng),
                    _ => fnsuites::one_dimensional(&ctx, &mut rng),
                };
                runs += 1;
                evals += c.evaluations as usize;
            }
            _ => {
                let o = s.run();
                evals += o.evals();
                runs += 1;
                panics += (o.res == Res::UserPanic) as u64;
            }
        }
    }
    println!("WORKLOAD cases={} runs={} evaluations={} user_panics={} threads={}", to - from, runs, evals, panics, threads);
}

fn home() -> String {
    std::env::var("MONITOR_HARNESS").unwrap_or_else(|_| "/verif/harness".to_string())
}
fn target(kind: &str) -> String {
    format!("{}/../target/{}", home(), kind)
}

fn cargo(kind: &str) -> Command {
    let mut c = Command::new("cargo");
    c.arg("+nightly").current_dir(home()).env("CARGO_TARGET_DIR", target(kind)).env("CARGO_NET_OFFLINE", "true");
    for v in ["RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN", "CARGO"] {
        c.env_remove(v);
    }
    match kind {
        "asan" => {
            c.env("RUSTFLAGS", "-Zsanitizer=address -Cforce-frame-pointers=yes");
        }
        "msan" => {
            c.env("RUSTFLAGS", "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes");
        }
        "tsan" => {
            c.env("RUSTFLAGS", "-Zsanitizer=thread");
        }
        _ => {
            c.env("MIRI_SYSROOT", target("miri-sysroot"));
            c.env("MIRIFLAGS", "-Zmiri-disable-isolation");
        }
    }
    c
}

/// Builds the instrumented program: Err is a problem of the check, not of the tree
fn build(kind: &'static str) -> Result<(), String> {
    static DONE: [OnceLock<Result<(), String>>; 4] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let slot = KINDS.iter().position(|k| *k == kind).unwrap();
    DONE[slot].get_or_init(|| build_now(kind)).clone()
}

/// Has the crates of the tree rebuilt
fn forget(dir: &Path, depth: usize) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        let name = e.file_name().to_string_lossy().to_string();
        if !p.is_dir() || depth == 0 {
            continue;
        }
        if name == ".fingerprint" {
            for f in std::fs::read_dir(&p).into_iter().flatten().flatten() {
                let n = f.file_name().to_string_lossy().to_string();
                if n.starts_with("newton_rootfinder-") || n.starts_with("util-") {
                    let _ = std::fs::remove_dir_all(f.path());
                }
            }
        } else if !matches!(name.as_str(), "deps" | "build" | "incremental" | "miri-sysroot") {
            forget(&p, depth - 1);
        }
    }
}

fn build_now(kind: &'static str) -> Result<(), String> {
    let run = |mut c: Command| -> Result<(), String> {
        let o = c.output().map_err(|e| e.to_string())?;
        if o.status.success() {
            Ok(())
        } else {
            let e = String::from_utf8_lossy(&o.stderr);
            Err(e.lines().filter(|l| l.contains("error")).take(5).collect::<Vec<_>>().join(" / "))
        }
    };
    // the copies of the sandbox may carry stale time stamps
    forget(Path::new(&target(kind)), 6);
    match kind {
        "miri" => {
            let mut s = cargo(kind);
            s.args(["miri", "setup"]);
            run(s).and_then(|_| {
                let mut b = cargo(kind);
                b.args(["miri", "run", "--offline", "--", "workload", "0", "0", "0"]);
                run(b)
            })
        }
        _ => {
            let mut b = cargo(kind);
            b.args(["build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"]);
            if kind != "asan" {
                b.arg("-Zbuild-std");
            }
            run(b)
        }
    }
}

fn report_of(text: &str) -> Option<String> {
    let marks = [
        "ERROR: AddressSanitizer",
        "ERROR: LeakSanitizer: detected memory leaks",
        "WARNING: ThreadSanitizer",
        "FATAL: ThreadSanitizer: data race",
        "WARNING: MemorySanitizer",
        "ERROR: MemorySanitizer",
        "error: Undefined Behavior",
        "error: memory leaked",
        "error: Data race",
        "unsafe precondition(s) violated",
    ];
    for l in text.lines() {
        if marks.iter().any(|m| l.contains(m)) {
            return Some(l.trim().to_string());
        }
    }
    None
}

/// One process running a part of the workload under one of the tools
pub fn instrumented(ctx: &Ctx, kind: &'static str, k: u64, size: u64) -> Case {
    let mut c = Case::default();
    if let Err(e) = build(kind) {
        c.count(&format!("{}_not_built", kind), 1);
        c.sample = format!("{}: not built: {}", kind, e);
        return c;
    }
    let scratch = format!("{}/{}-{}", ctx.scratch, kind, k);
    std::fs::create_dir_all(&scratch).unwrap();
    let command = |leaks: u32| -> Command {
        let mut m = Command::new("timeout");
        m.args(["-k", "5", if ctx.thorough { "700" } else { "360" }]);
        if kind == "miri" {
            m.args(["cargo", "+nightly", "miri", "run", "--offline", "--", "workload"]);
            m.args([ctx.seed.to_string(), (k * size).to_string(), ((k + 1) * size).to_string(), scratch.clone()]);
            let c = cargo(kind);
            m.current_dir(home());
            for (key, v) in c.get_envs() {
                match v {
                    Some(v) => m.env(key, v),
                    None => m.env_remove(key),
                };
            }
        } else {
            m.arg(format!("{}/x86_64-unknown-linux-gnu/release/monitor", target(kind)))
                .arg("SAN")
                .env("MONITOR_OUT", &scratch)
                .env("MONITOR_SCALE", (size as f64 / 100.0).to_string())
                .env("MONITOR_FINDINGS", "/dev/null")
                .env("VERIF_TIER", "quick")
                .env("VERIF_SEED", (ctx.seed + 1000 * k).to_string())
                .env("ASAN_OPTIONS", format!("exitcode=97:halt_on_error=1:detect_leaks={}", leaks))
                .env("MSAN_OPTIONS", "exitcode=97:halt_on_error=1")
                .env("TSAN_OPTIONS", "exitcode=97:halt_on_error=1");
        }
        m
    };
    let run = |leaks: u32| -> Result<(std::process::ExitStatus, String), String> {
        let o = command(leaks).output().map_err(|e| e.to_string())?;
        Ok((o.status, format!("{}\n{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))))
    };
    let mut r = run(1);
    if kind == "asan" && r.as_ref().map_or(false, |(_, t)| t.contains("LeakSanitizer has encountered a fatal error")) {
        // no ptrace here
        c.count("leak_check_impossible", 1);
        r = run(0);
    }
    let (status, text) = match r {
        Ok(r) => r,
        Err(e) => {
            c.count(&format!("{}_not_started", kind), 1);
            c.sample = e;
            return c;
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    c.sample = format!("{} process {}: {}", kind, k, text.lines().find(|l| l.starts_with("WORKLOAD") || l.starts_with("SAN ")).unwrap_or("?"));
    if let Some(r) = report_of(&text) {
        c.fail(format!("{}: {}", kind, r));
        c.details = text.chars().take(20000).collect();
        return c;
    }
    use std::os::unix::process::ExitStatusExt;
    // `timeout` reports the signal of its child as 128 + signal
    let signal = status.signal().or(status.code().filter(|c| *c > 128).map(|c| c - 128));
    if matches!(signal, Some(4) | Some(7) | Some(11)) {
        // illegal instruction, bus error, segmentation fault
        c.fail(format!("{}: the process received the signal {:?}", kind, signal));
        c.details = text.chars().take(20000).collect();
        return c;
    }
    let mut seen = false;
    for l in text.lines() {
        if l.starts_with("WORKLOAD ") {
            for w in l.split(' ').skip(1) {
                if let Some((key, v)) = w.split_once('=') {
                    let v: u64 = v.parse().unwrap_or(0);
                    c.count(&format!("{}_{}", kind, key), v);
                    if key == "evaluations" {
                        c.evaluations += v;
                    }
                }
            }
            seen = true;
        }
        if l.starts_with("SAN ") {
            // SAN quick: N cases, ...
            let n: u64 = l.split(' ').nth(2).and_then(|w| w.parse().ok()).unwrap_or(0);
            c.count(&format!("{}_cases", kind), n);
            c.evaluations += n;
            seen = true;
        }
    }
    if seen {
        c.count(&format!("{}_processes", kind), 1);
        c.count("instrumented_processes", 1);
        c.nontrivial = true;
        c.mix(k);
        c.mix(crate::rng::hash_str(kind));
    } else {
        c.count(&format!("{}_without_answer", kind), 1);
        c.sample = format!("{}: no answer: {}", kind, text.lines().rev().take(3).collect::<Vec<_>>().join(" / "));
    }
    c
}
