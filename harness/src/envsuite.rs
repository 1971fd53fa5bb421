//! What a resolution leaves behind: the jacobian store, the memory, the streams, the files.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::fs;
use std::process::{Command, Stdio};

use nalgebra::allocator::Allocator;
use nalgebra::{Const, DVector, DefaultAllocator, DimMin, Dyn, OMatrix, U1};
use newton_rootfinder::iteratives::{IterativeParamsFD, Iteratives};
use newton_rootfinder::model::Model;
use newton_rootfinder::residuals::ResidualsConfig;
use newton_rootfinder::solver::{
    evaluate_jacobian_from_analytical_function, evaluate_jacobian_from_finite_difference, JacobianMatrix, RootFinder,
    SolverParameters,
};

use crate::lin::Mat;
use crate::model::{Fault, Faults, RecModel};
use crate::prob::Family;
use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{gen, guarded, method, Prof, Scn};
use crate::trace::{add_faults, NUMS};

// ------------------------------------------------------------ counting allocator

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn moved(by: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + by;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        moved(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        moved(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        moved(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        moved(size as isize - l.size() as isize);
        System.realloc(p, l, size)
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

fn live() -> isize {
    LIVE.with(|l| l.get())
}
fn peak_from_here() {
    PEAK.with(|p| p.set(live()))
}
fn peak() -> isize {
    PEAK.with(|p| p.get())
}

// ------------------------------------------------------------ memory

/// For each resolution of one solver: evaluations, bytes held after it, highest number of bytes during it
fn measure(s: &Scn, max_iter: usize, times: usize) -> Result<Vec<(usize, isize, isize)>, String> {
    let d = Dyn(s.n);
    let pars: Vec<IterativeParamsFD> = s.params.iter().map(|p| p.fd()).collect();
    let iters = Iteratives::new(&pars);
    let rc = ResidualsConfig::new(&s.stop, &s.upd);
    let mut found = Vec::with_capacity(times);
    let before = live();
    {
        let parameters = SolverParameters::new(s.n, s.tol, max_iter, method(s.method), s.damping);
        let mut rf = RootFinder::new(parameters, DVector::from_column_slice(&s.guess), &iters, &rc);
        for _ in 0..times {
            let mut m = RecModel::new(d, s.prob.clone(), s.analytic, s.faults.clone());
            m.quiet = true;
            m.fuel = usize::MAX;
            peak_from_here();
            let start = live();
            guarded(|| {
                let _ = rf.solve(&mut m);
            })?;
            let high = peak() - start;
            let evals = m.n_eval;
            drop(m);
            found.push((evals, live() - before, high));
        }
    }
    Ok(found)
}

pub fn memory(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof {
        families: vec![(Family::NoRoot, 0.6), (Family::Atan, 0.25), (Family::Wild, 0.1), (Family::Mild, 0.05)],
        nmax: 5,
        big_n: 0.0,
        stat: 0.0,
        long: 0.0,
        ..Prof::default()
    };
    let mut s = gen(rng, &prof);
    s.tol = 0.0;
    if rng.chance(0.2) {
        s.faults.all_inaccurate = true;
    }
    c.sample = s.describe();
    c.mix(s.n as u64);
    c.mix(s.method as u64);
    c.mix(s.analytic as u64 + 2 * s.damping as u64 + 4 * s.faults.all_inaccurate as u64);
    let slack = (600 + 200 * s.n + 64 * s.n * s.n) as isize;
    // many iterations
    let (a, b) = (rng.range(30, 100), rng.range(1600, 2500));
    match (measure(&s, a, 1), measure(&s, b, 1)) {
        (Ok(few), Ok(many)) => {
            c.evaluations += (few[0].0 + many[0].0) as u64;
            c.mix(many[0].0 as u64);
            if many[0].0 > few[0].0 + 1000 {
                c.nontrivial = true;
                c.count("long_and_short_runs_compared", 1);
                c.count("evaluations_measured", many[0].0 as u64);
                if many[0].1 > few[0].1 + slack {
                    c.fail(format!("{} bytes are held after {} iterations, {} after {}", many[0].1, b, few[0].1, a));
                }
                if many[0].2 > few[0].2 + slack {
                    c.fail(format!("{} bytes at most during {} iterations, {} during {}", many[0].2, b, few[0].2, a));
                }
            }
        }
        (Err(e), _) | (_, Err(e)) => c.fail(e),
    }
    // many resolutions
    let few = rng.below(4);
    match measure(&s, few, 300) {
        Ok(f) => {
            c.count("repeated_resolutions", f.len() as u64);
            let (at, last) = (f[3].1, f[299].1);
            if last > at + 1000 {
                c.fail(format!("{} bytes are held after 300 resolutions, {} after 4", last, at));
            }
            if f[299].2 > f[3].2 + slack {
                c.fail(format!("{} bytes at most during the resolution 300, {} during the fourth", f[299].2, f[3].2));
            }
        }
        Err(e) => c.fail(e),
    }
    // many solvers: what they held is given back (but for what is set up once)
    let mut held = Vec::with_capacity(60);
    for _ in 0..60 {
        let start = live();
        let r = measure(&s, few, 1);
        let ok = r.is_ok();
        drop(r);
        if ok {
            held.push(live() - start);
        }
    }
    c.count("solvers_dropped", held.len() as u64);
    let kept: isize = held.iter().skip(5).sum();
    if kept > 500 {
        c.fail(format!("{} bytes are still held after {} solvers were dropped", kept, held.len()));
    }
    if !c.violations.is_empty() {
        c.details = format!("{:#?}", s);
    }
    c
}

// ------------------------------------------------------------ streams and files

fn tasks() -> usize {
    fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}
fn descriptors() -> usize {
    fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

/// In a process of its own: resolutions with and without a log, reading of configurations, companion crate.
/// Prints nothing; what was done goes into the file given.
pub fn effects_child(seed: u64, count: usize, report: &str) {
    let mut rng = Rng::new(seed, 27, 0);
    let here = std::env::current_dir().ok();
    let env: Vec<_> = std::env::vars_os().collect();
    let hook_ctx = Ctx { prop: "C27", thorough: false, seed, scratch: ".".to_string() };
    let mut logs = Vec::new();
    let mut files = Vec::new();
    let mut told = String::new();
    let (t0, d0) = (tasks(), descriptors());
    for k in 0..count {
        match rng.below(10) {
            8 => {
                // the functions offered beside the solver
                let c = &hook_ctx;
                let r = &mut rng;
                let _ = match r.below(12) {
                    0 => crate::fnsuites::normalization_values(c, r),
                    1 => crate::fnsuites::normalization_derivatives(c, r),
                    2 => crate::fnsuites::residuals_config(c, r),
                    3 => crate::fnsuites::jacobian_normalize(c, r),
                    4 => crate::fnsuites::fd_direct(c, r),
                    5 => crate::fnsuites::perturbations(c, r),
                    6 => crate::fnsuites::limitations(c, r),
                    7 => crate::fnsuites::update_formulas(c, r),
                    8 => crate::fnsuites::literature(c, k as u64, r),
                    9 => store(c, r),
                    10 => crate::runsuites::adapters(c, r),
                    _ => crate::trace::policies_case(c, r),
                };
            }
            9 => {
                // configurations that are refused, or another order of use
                let c = &hook_ctx;
                let r = &mut rng;
                let _ = match r.below(5) {
                    0 => crate::xmlsuite::xml_corrupted(c, k as u64, r),
                    1 => crate::xmlsuite::constructors(c, r),
                    2 => crate::xmlsuite::mismatches(c, r),
                    3 => crate::runsuites::reuse(c, r),
                    _ => crate::runsuites::nested(c, r),
                };
            }
            0 => {
                let (text, fd) = crate::xmlsuite::any_file(&mut rng);
                let name = format!("conf{}.xml", k);
                fs::write(&name, &text).unwrap();
                let _ = crate::xmlsuite::load(&name, fd);
                let again = fs::read_to_string(&name).unwrap_or_default();
                if again != text {
                    told.push_str(&format!("the configuration {} was modified\n", name));
                }
                files.push(name);
            }
            1 => {
                let _ = crate::fnsuites::one_dimensional(&hook_ctx, &mut rng);
            }
            2 => {
                let _ = crate::runsuites::descriptions(&hook_ctx, &mut rng);
            }
            _ => {
                let mut s = gen(&mut rng, &Prof { long: 0.02, big_n: 0.03, ..Prof::default() });
                if rng.chance(0.4) {
                    add_faults(&mut rng, &mut s, &NUMS);
                }
                if rng.chance(0.3) {
                    let name = if rng.chance(0.3) {
                        let dir = format!("logs{}", k);
                        fs::create_dir(&dir).unwrap();
                        format!("{}/out.log", dir)
                    } else {
                        format!("log{}.txt", k)
                    };
                    if rng.chance(0.4) {
                        // an older file at the same place
                        fs::write(&name, "older content\n".repeat(rng.range(1, 30))).unwrap();
                    }
                    s.log = Some(name.clone());
                    logs.push(name);
                }
                let _ = s.run();
            }
        }
    }
    if tasks() != t0 {
        told.push_str(&format!("{} threads, {} at the start\n", tasks(), t0));
    }
    if descriptors() != d0 {
        told.push_str(&format!("{} open files, {} at the start\n", descriptors(), d0));
    }
    if std::env::current_dir().ok() != here {
        told.push_str("the working directory was changed\n");
    }
    let now: Vec<_> = std::env::vars_os().collect();
    if now != env {
        told.push_str("the environment was changed\n");
    }
    let mut out = String::from("done\n");
    out.push_str(&format!("logs {}\n", logs.join(" ")));
    out.push_str(&format!("files {}\n", files.join(" ")));
    out.push_str(&told);
    fs::write(report, out).unwrap();
}

fn listing(dir: &str, under: &str, into: &mut BTreeSet<String>) {
    if let Ok(d) = fs::read_dir(dir) {
        for e in d.flatten() {
            let name = format!("{}{}", under, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                listing(&e.path().to_string_lossy(), &format!("{}/", name), into);
            } else {
                into.insert(name);
            }
        }
    }
}

pub fn effects(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let seed = rng.next() >> 8;
    let count = 60;
    let base = fs::canonicalize(&ctx.scratch).unwrap();
    let dir = format!("{}/effects-{}", base.display(), k);
    let report = format!("{}/effects-{}.report", base.display(), k);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir(&dir).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("effects")
        .arg(seed.to_string())
        .arg(count.to_string())
        .arg(&report)
        .current_dir(&dir)
        .env_clear()
        .env("TMPDIR", &dir)
        .env("HOME", &dir)
        .env("XDG_CACHE_HOME", &dir)
        .stdin(Stdio::null())
        .output()
        .unwrap();
    c.sample = format!("{} uses of the library in a process of its own, seed {}", count, seed);
    c.nontrivial = true;
    c.mix(seed);
    c.count("uses_in_processes_of_their_own", count as u64);
    let told = fs::read_to_string(&report).unwrap_or_default();
    if !out.status.success() || !told.starts_with("done\n") {
        c.fail(format!("the process of the resolutions ended with {}", out.status));
    } else {
        let mut wanted = BTreeSet::new();
        let mut optional = BTreeSet::new();
        for line in told.lines().skip(1) {
            if let Some(l) = line.strip_prefix("logs ") {
                for w in l.split_whitespace() {
                    optional.insert(w.to_string());
                    c.count("requested_logs", 1);
                }
            } else if let Some(l) = line.strip_prefix("files ") {
                for w in l.split_whitespace() {
                    wanted.insert(w.to_string());
                    c.count("configurations_read", 1);
                }
            } else if !line.trim().is_empty() && !line.starts_with("logs") && !line.starts_with("files") {
                c.fail(line.to_string());
            }
        }
        let mut found = BTreeSet::new();
        listing(&dir, "", &mut found);
        c.count("files_found", found.len() as u64);
        for f in &found {
            if !wanted.contains(f) && !optional.contains(f) {
                c.fail(format!("the file {} was created", f));
            }
        }
        for f in &wanted {
            if !found.contains(f) {
                c.fail(format!("the file {} was removed", f));
            }
        }
    }
    for (name, bytes) in [("output", &out.stdout), ("error", &out.stderr)] {
        if !bytes.is_empty() {
            let t: String = String::from_utf8_lossy(bytes).chars().take(120).collect();
            c.fail(format!("{} bytes on the standard {}: {:?}", bytes.len(), name, t));
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let _ = fs::remove_file(&report);
    c
}

// ------------------------------------------------------------ the jacobian store

fn back<D>(m: &OMatrix<f64, D, D>) -> Mat
where
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let n = m.nrows();
    let mut r = Mat::zeros(n);
    for i in 0..n {
        for j in 0..n {
            r.set(i, j, m[(i, j)]);
        }
    }
    r
}

fn same(a: &Mat, b: &Mat) -> bool {
    a.n == b.n && a.a.iter().zip(&b.a).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// A matrix, and whether it is invertible (None when rounding may decide)
fn matrix(rng: &mut Rng, n: usize) -> (Mat, Option<bool>) {
    let mut m = Mat::zeros(n);
    let wide = if rng.chance(0.15) { 230.0 } else { 6.0 };
    let scale = 10f64.powf(rng.uniform(-wide, wide));
    for i in 0..n {
        for j in 0..n {
            m.set(i, j, scale * rng.uniform(-1.0, 1.0));
        }
    }
    match rng.below(7) {
        0 => {
            let k = rng.below(n);
            let column = rng.chance(0.5);
            for i in 0..n {
                if column {
                    m.set(i, k, 0.0);
                } else {
                    m.set(k, i, 0.0);
                }
            }
            (m, Some(false))
        }
        1 if n > 1 => {
            // two equal rows
            let (a, b) = (rng.below(n), rng.below(n));
            if a == b {
                let ok = m.cond() < 1e8;
                return (m, if ok { Some(true) } else { None });
            }
            for j in 0..n {
                let v = m.at(a, j);
                m.set(b, j, v);
            }
            (m, None)
        }
        2 => {
            // a permutation with signs
            let p = rng.perm(n);
            let mut q = Mat::zeros(n);
            for i in 0..n {
                q.set(i, p[i], scale * rng.sign());
            }
            (q, Some(true))
        }
        _ => {
            let ok = m.cond() < 1e8;
            (m, if ok { Some(true) } else { None })
        }
    }
}

fn store_dim<D>(d: D, n: usize, rng: &mut Rng, c: &mut Case)
where
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let fill = |m: &Mat| OMatrix::<f64, D, D>::from_fn_generic(d, d, |i, j| m.at(i, j));
    let mut st: JacobianMatrix<D> = if rng.chance(0.5) { JacobianMatrix::new() } else { Default::default() };
    // the reference
    let mut mat: Option<Mat> = None;
    let mut given: Option<Mat> = None;
    let mut needed = true;
    let mut approx = Some(false);
    let mut history: Vec<String> = Vec::new();
    for _ in 0..rng.range(3, 25) {
        let op = rng.below(10);
        c.mix(op as u64);
        match op {
            0..=3 => {
                let exact = op < 2;
                let (m, invertible) = matrix(rng, n);
                history.push(format!("{} {:?}", if exact { "exact" } else { "approximated" }, m.a));
                let r = if exact {
                    st.update_jacobian_with_exact_value(fill(&m)).is_ok()
                } else {
                    st.update_jacobian_with_approximated_value(fill(&m)).is_ok()
                };
                if let Some(want) = invertible {
                    c.count(if want { "invertible_matrices" } else { "singular_matrices" }, 1);
                    if r != want {
                        c.fail(format!("matrix {} although it is {}", if r { "accepted" } else { "refused" }, if want { "invertible" } else { "singular" }));
                    }
                }
                given = None;
                if r {
                    mat = Some(m);
                    needed = false;
                    approx = Some(!exact);
                } else {
                    mat = None;
                    approx = None;
                }
            }
            4 => {
                let (m, _) = matrix(rng, n);
                history.push(format!("inverse {:?}", m.a));
                st.update_inverse(fill(&m));
                mat = None;
                given = Some(m);
                approx = Some(true);
                c.count("given_inverses", 1);
            }
            5 => {
                history.push("force".to_string());
                st.force_jacobian_computation();
                needed = true;
            }
            6 => {
                history.push("invalidate".to_string());
                st.invalidate_jacobian();
                mat = None;
                given = None;
            }
            7 => {
                history.push("show".to_string());
                if let Err(e) = guarded(|| format!("{} {:?}", st, st).len()) {
                    c.fail(format!("showing the jacobian panics: {}", e));
                }
            }
            _ => {
                // evaluated from a model
                let prof = Prof { nmax: n, big_n: 0.0, memory: 0.0, families: vec![(Family::Affine, 0.5), (Family::Mild, 0.5)], ..Prof::default() };
                let mut s = gen(rng, &prof);
                if s.n != n {
                    continue;
                }
                s.faults = Faults::default();
                let analytic = rng.chance(0.5);
                let bad = rng.chance(0.4);
                if bad {
                    s.faults.jacs.insert(1, Fault::Unusable);
                    s.faults.evals.insert(1 + rng.range(1, n), Fault::Unusable);
                }
                history.push(format!("evaluated, analytic {} failing {}", analytic, bad));
                let mut m = RecModel::new(d, s.prob.clone(), true, s.faults.clone());
                m.x = m.vec(&s.guess);
                let _ = m.evaluate();
                let rc = ResidualsConfig::new(&s.stop, &s.upd);
                let pars: Vec<IterativeParamsFD> = s.params.iter().map(|p| p.fd()).collect();
                let iters = Iteratives::new(&pars);
                let old = (st.get_jacobian().as_ref().map(back), st.get_inverse().as_ref().map(back));
                let r = if analytic {
                    evaluate_jacobian_from_analytical_function(&mut st, &mut m, &rc).is_ok()
                } else {
                    evaluate_jacobian_from_finite_difference(&mut st, &mut m, &iters, &rc).is_ok()
                };
                c.count("evaluations_from_a_model", 1);
                if bad && r {
                    c.fail("the failure of the model is ignored".to_string());
                }
                let new = (st.get_jacobian().as_ref().map(back), st.get_inverse().as_ref().map(back));
                if r {
                    match new.0 {
                        Some(j) => mat = Some(j),
                        None => {
                            c.fail("no jacobian after its evaluation".to_string());
                            mat = None;
                        }
                    }
                    given = None;
                    needed = false;
                    approx = Some(false);
                } else {
                    c.count("failed_evaluations", 1);
                    let kept = match (&new.0, &old.0, &new.1, &old.1) {
                        (None, None, Some(a), Some(b)) => same(a, b),
                        (Some(a), Some(b), Some(p), Some(q)) => same(a, b) && same(p, q),
                        (None, _, None, _) => false,
                        _ => {
                            c.fail("after a failed evaluation, the jacobian and its inverse are not those of one matrix".to_string());
                            false
                        }
                    };
                    if !kept {
                        mat = None;
                        given = None;
                    }
                    approx = None;
                }
            }
        }
        // the store against the reference
        c.count("states_compared", 1);
        if st.compute_jacobian() != needed {
            c.fail(format!("a new jacobian is {}requested", if needed { "not " } else { "" }));
        }
        match approx {
            Some(a) if a != st.is_jacobian_approximated() => c.fail(format!("jacobian said {}", if a { "exact" } else { "approximated" })),
            _ => (),
        }
        match (&mat, st.get_jacobian()) {
            (None, None) => (),
            (Some(a), Some(b)) if same(a, &back(b)) => (),
            (a, b) => c.fail(format!("the jacobian held is {:?}, expected {:?}", b.as_ref().map(|b| back(b).a), a.as_ref().map(|a| &a.a))),
        }
        match (&mat, &given, st.get_inverse()) {
            (None, None, None) => (),
            (None, Some(g), Some(i)) if same(g, &back(i)) => (),
            (Some(m), _, Some(i)) => {
                c.count("inverses_checked", 1);
                if m.cond() < 1e8 {
                    crate::fnsuites::inverse_check(m, &back(i), c);
                }
            }
            (_, _, i) => c.fail(format!("the inverse held is {:?}", i.as_ref().map(|b| back(b).a))),
        }
        if !c.violations.is_empty() {
            c.details = history.join("\n");
            return;
        }
    }
}

pub fn store(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.nontrivial = true;
    let stat = rng.chance(0.4);
    let n = if stat { rng.range(1, 5) } else if rng.chance(0.05) { rng.range(8, 40) } else { rng.range(1, 7) };
    c.mix(n as u64);
    c.mix(stat as u64);
    c.sample = format!("n={} {}", n, if stat { "static" } else { "dyn" });
    match (stat, n) {
        (true, 1) => store_dim(Const::<1>, n, rng, &mut c),
        (true, 2) => store_dim(Const::<2>, n, rng, &mut c),
        (true, 3) => store_dim(Const::<3>, n, rng, &mut c),
        (true, 4) => store_dim(Const::<4>, n, rng, &mut c),
        (true, 5) => store_dim(Const::<5>, n, rng, &mut c),
        _ => store_dim(Dyn(n), n, rng, &mut c),
    }
    c
}
