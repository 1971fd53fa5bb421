//! Suites about the configurations: XML files (C16) and rejections (C17).

use std::fs;

use nalgebra::{DMatrix, DVector, Dyn, OMatrix, OVector, Const};
use newton_rootfinder as nrf;
use nrf::iteratives::{
    default_vec_iteratives, default_vec_iteratives_fd, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod,
};
use nrf::residuals::{JacobianValues, NormalizationMethod as NM, ResidualsConfig, ResidualsValues};
use nrf::solver::{default_with_guess, RootFinder, SolverParameters};
use nrf::xml_parser::{from_xml_finite_diff, from_xml_jacobian};

use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{gen, guarded, method, Par, Prof, METHOD_CODES};
use crate::spec::res_code;
use crate::trace::dump;

#[derive(Clone, Debug)]
struct Node {
    name: String,
    attrs: Vec<(String, String)>,
    children: Vec<Node>,
}

impl Node {
    fn new(name: &str) -> Node {
        Node { name: name.to_string(), attrs: vec![], children: vec![] }
    }
    fn set(&mut self, k: &str, v: impl Into<String>) {
        let v = v.into();
        match self.attrs.iter_mut().find(|a| a.0 == k) {
            Some(a) => a.1 = v,
            None => self.attrs.push((k.to_string(), v)),
        }
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    fn del(&mut self, k: &str) {
        self.attrs.retain(|a| a.0 != k);
    }
}

fn space(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 3) {
        s.push_str(*rng.pick(&[" ", " ", " ", "  ", "\n", "\t", "\n    "]));
    }
    s
}

fn gap(rng: &mut Rng) -> String {
    if rng.chance(0.3) {
        String::new()
    } else {
        space(rng)
    }
}

fn write(n: &Node, rng: &mut Rng, o: &mut String) {
    o.push('<');
    o.push_str(&n.name);
    for k in rng.perm(n.attrs.len()) {
        let (key, v) = &n.attrs[k];
        o.push_str(&space(rng));
        let q = if rng.chance(0.25) { '\'' } else { '"' };
        o.push_str(key);
        o.push('=');
        o.push(q);
        o.push_str(v);
        o.push(q);
    }
    if n.children.is_empty() && rng.chance(0.8) {
        o.push_str(&gap(rng));
        o.push_str("/>");
        return;
    }
    o.push_str(&gap(rng));
    o.push('>');
    for ch in &n.children {
        o.push_str(&gap(rng));
        if rng.chance(0.05) {
            o.push_str(*rng.pick(&["<!-- comment -->", "<!--<iterative id=\"0\"/>-->", "<!---->"]));
            o.push_str(&gap(rng));
        }
        write(ch, rng, o);
    }
    o.push_str(&gap(rng));
    o.push_str("</");
    o.push_str(&n.name);
    o.push('>');
}

fn render(n: &Node, rng: &mut Rng) -> String {
    let mut o = String::new();
    if rng.chance(0.6) {
        o.push_str(*rng.pick(&[
            "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>",
            "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
            "<?xml version='1.0'?>",
        ]));
        o.push_str(*rng.pick(&["\n", "", "\n\n  "]));
    }
    write(n, rng, &mut o);
    if rng.chance(0.5) {
        o.push('\n');
    }
    o
}

fn num(rng: &mut Rng, v: f64) -> String {
    if v.is_infinite() {
        let word = *rng.pick(&["inf", "inf", "inf", "Infinity", "infinity", "INF"]);
        let sign = if v > 0.0 { *rng.pick(&["", "", "+"]) } else { "-" };
        return format!("{}{}", sign, word);
    }
    match rng.below(6) {
        4 if v >= 0.0 => format!("+{:e}", v),
        // digits beyond what a number holds
        5 => format!("{:.30e}", v),
        0 => format!("{:e}", v),
        1 => format!("{:?}", v),
        2 => format!("{:E}", v),
        _ => format!("{}", v),
    }
}

fn norm_code(m: NM) -> &'static str {
    match m {
        NM::Abs => "Abs",
        NM::Rel => "Rel",
        NM::Adapt => "Adapt",
    }
}

/// A configuration and the tree written for it
#[derive(Clone, Debug)]
struct Conf {
    n: usize,
    tol: f64,
    max_iter: usize,
    method: usize,
    damping: bool,
    fd: bool,
    params: Vec<Par>,
    stop: Vec<NM>,
    upd: Vec<NM>,
    inherited: u64,
    own: u64,
}

const KEYS: [&str; 7] = ["max_step_abs", "max_step_rel", "min_value", "max_value", "dx_abs", "dx_rel", "perturbation_method"];

fn value_of(p: &Par, k: usize, rng: &mut Rng) -> String {
    match k {
        0 => num(rng, p.max_abs),
        1 => num(rng, p.max_rel),
        2 => num(rng, p.min),
        3 => num(rng, p.max),
        4 => num(rng, p.dx_abs),
        5 => num(rng, p.dx_rel),
        _ => if p.sum { "Sum" } else { "Max" }.to_string(),
    }
}

fn same_value(a: &Par, b: &Par, k: usize) -> bool {
    match k {
        0 => a.max_abs.to_bits() == b.max_abs.to_bits(),
        1 => a.max_rel.to_bits() == b.max_rel.to_bits(),
        2 => a.min.to_bits() == b.min.to_bits(),
        3 => a.max.to_bits() == b.max.to_bits(),
        4 => a.dx_abs.to_bits() == b.dx_abs.to_bits(),
        5 => a.dx_rel.to_bits() == b.dx_rel.to_bits(),
        _ => a.sum == b.sum,
    }
}

fn positive(rng: &mut Rng) -> f64 {
    match rng.below(9) {
        0 => f64::INFINITY,
        8 => *rng.pick(&[5e-324, 1e-310, f64::MIN_POSITIVE, f64::MAX, f64::EPSILON]),
        1 => 1.0,
        2 => 0.5,
        3 => 1e-300,
        4 => rng.logmag(-3.0, 3.0).abs(),
        5 => rng.logmag(-100.0, 100.0).abs(),
        6 => 0.1,
        _ => rng.range(1, 1000) as f64,
    }
}

pub fn any_par(rng: &mut Rng) -> Par {
    let bound = |rng: &mut Rng| -> f64 {
        match rng.below(7) {
            0 | 1 => f64::INFINITY * rng.sign(),
            2 => 0.0,
            3 => rng.uniform(-10.0, 10.0),
            4 => rng.logmag(-6.0, 6.0) * rng.sign(),
            5 => f64::MAX * rng.sign(),
            _ => (rng.range(0, 40) as f64) - 20.0,
        }
    };
    let (min, max) = loop {
        let (a, b) = (bound(rng), bound(rng));
        if a < b {
            break (a, b);
        }
        if rng.chance(0.2) {
            break (f64::NEG_INFINITY, f64::INFINITY);
        }
    };
    Par {
        max_abs: positive(rng),
        max_rel: positive(rng),
        min,
        max,
        dx_abs: positive(rng),
        dx_rel: positive(rng),
        sum: rng.chance(0.5),
        custom: None,
    }
}

/// tree of a configuration: values equal to the default of the group are mostly left out
fn tree(c: &mut Conf, def: &Par, dstop: NM, dupd: NM, rng: &mut Rng) -> Node {
    let mut root = Node::new("nrf");
    let mut s = Node::new("solver");
    s.set("problem_size", c.n.to_string());
    let padded = *rng.pick(&["", "", "", "+", "00", "000000000000000000000"]);
    s.set("max_iter", format!("{}{}", padded, c.max_iter));
    s.set("tolerance", num(rng, c.tol));
    s.set("resolution_method", METHOD_CODES[c.method]);
    if c.damping || rng.chance(0.5) {
        s.set("damping", if c.damping { "true" } else { "false" });
    }
    root.children.push(s);
    let keys = if c.fd { 7 } else { 4 };
    let mut its = Node::new("iteratives");
    for k in 0..keys {
        let v = value_of(def, k, rng);
        its.set(KEYS[k], v);
    }
    for j in 0..c.n {
        let mut it = Node::new("iterative");
        it.set("id", j.to_string());
        for k in 0..keys {
            if !same_value(&c.params[j], def, k) || rng.chance(0.2) {
                let v = value_of(&c.params[j], k, rng);
                it.set(KEYS[k], v);
                c.own += 1;
            } else {
                c.inherited += 1;
            }
        }
        its.children.push(it);
    }
    root.children.push(its);
    let mut rs = Node::new("residuals");
    rs.set("stopping_criteria", norm_code(dstop));
    rs.set("update_method", norm_code(dupd));
    for j in 0..c.n {
        let mut r = Node::new("residual");
        r.set("id", j.to_string());
        if c.stop[j] != dstop || rng.chance(0.2) {
            r.set("stopping_criteria", norm_code(c.stop[j]));
            c.own += 1;
        } else {
            c.inherited += 1;
        }
        if c.upd[j] != dupd || rng.chance(0.2) {
            r.set("update_method", norm_code(c.upd[j]));
            c.own += 1;
        } else {
            c.inherited += 1;
        }
        rs.children.push(r);
    }
    root.children.push(rs);
    root
}

const NORMS: [NM; 3] = [NM::Abs, NM::Rel, NM::Adapt];

fn conf(rng: &mut Rng) -> (Conf, Node) {
    let n = if rng.chance(0.01) {
        // identifiers of three digits
        rng.range(100, 300)
    } else if rng.chance(0.1) {
        rng.range(10, 30)
    } else {
        rng.range(1, 6)
    };
    let def = any_par(rng);
    let (dstop, dupd) = (*rng.pick(&NORMS), *rng.pick(&NORMS));
    let params: Vec<Par> = (0..n)
        .map(|_| {
            // each value its own or the one of the group, as long as the bounds are in order
            for _ in 0..20 {
                let own = any_par(rng);
                let mut p = def;
                if rng.chance(0.5) {
                    p.max_abs = own.max_abs;
                }
                if rng.chance(0.5) {
                    p.max_rel = own.max_rel;
                }
                if rng.chance(0.5) {
                    p.min = own.min;
                }
                if rng.chance(0.5) {
                    p.max = own.max;
                }
                if rng.chance(0.5) {
                    p.dx_abs = own.dx_abs;
                }
                if rng.chance(0.5) {
                    p.dx_rel = own.dx_rel;
                }
                if rng.chance(0.5) {
                    p.sum = own.sum;
                }
                if p.min < p.max {
                    return p;
                }
            }
            def
        })
        .collect();
    let pick = |rng: &mut Rng, d: NM| if rng.chance(0.5) { d } else { *rng.pick(&NORMS) };
    let stop: Vec<NM> = (0..n).map(|_| pick(rng, dstop)).collect();
    let upd: Vec<NM> = (0..n).map(|_| pick(rng, dupd)).collect();
    let mut c = Conf {
        n,
        tol: *rng.pick(&[1e-6, 1e-9, 0.5, 1e-300, 1.0, 3.14e-5, 1e3]),
        max_iter: *rng.pick(&[0, 1, 7, 50, 60, 1000, 123456789, 4294967297, usize::MAX]),
        method: rng.below(10),
        damping: rng.chance(0.5),
        fd: rng.chance(0.5),
        params,
        stop,
        upd,
        inherited: 0,
        own: 0,
    };
    let t = tree(&mut c, &def, dstop, dupd, rng);
    (c, t)
}

enum Read {
    Fd(SolverParameters, Vec<IterativeParamsFD>, Vec<NM>, Vec<NM>),
    Jac(SolverParameters, Vec<IterativeParams>, Vec<NM>, Vec<NM>),
}

fn read(ctx: &Ctx, k: u64, text: &str, fd: bool) -> Result<Read, String> {
    let path = format!("{}/conf-{}.xml", ctx.scratch, k);
    fs::write(&path, text).unwrap();
    let r = guarded(|| {
        if fd {
            let (a, b, c, d) = from_xml_finite_diff(&path);
            Read::Fd(a, b, c, d)
        } else {
            let (a, b, c, d) = from_xml_jacobian(&path);
            Read::Jac(a, b, c, d)
        }
    });
    let _ = fs::remove_file(&path);
    r
}

/// Some valid configuration
pub fn any_file(rng: &mut Rng) -> (String, bool) {
    let (c, t) = conf(rng);
    (render(&t, rng), c.fd)
}

pub fn load(path: &str, fd: bool) -> Result<(), String> {
    guarded(|| {
        if fd {
            let _ = from_xml_finite_diff(path);
        } else {
            let _ = from_xml_jacobian(path);
        }
    })
}

fn compare(c: &Conf, r: &Read, case: &mut Case) {
    let (sp, stop, upd) = match r {
        Read::Fd(a, _, b, d) => (a, b, d),
        Read::Jac(a, _, b, d) => (a, b, d),
    };
    let mut bad = Vec::new();
    if sp.get_problem_size() != c.n {
        bad.push(format!("problem size {} instead of {}", sp.get_problem_size(), c.n));
    }
    if sp.get_max_iter() != c.max_iter {
        bad.push(format!("max_iter {} instead of {}", sp.get_max_iter(), c.max_iter));
    }
    if sp.get_tolerance().to_bits() != c.tol.to_bits() {
        bad.push(format!("tolerance {:e} instead of {:e}", sp.get_tolerance(), c.tol));
    }
    if sp.get_damping() != c.damping {
        bad.push(format!("damping {} instead of {}", sp.get_damping(), c.damping));
    }
    if sp.get_resolution_method() != method(c.method) {
        bad.push(format!("method {:?} instead of {}", sp.get_resolution_method(), METHOD_CODES[c.method]));
    }
    if stop != &c.stop {
        bad.push(format!("stopping criterias {:?} instead of {:?}", stop, c.stop));
    }
    if upd != &c.upd {
        bad.push(format!("update methods {:?} instead of {:?}", upd, c.upd));
    }
    let mut diffs: Vec<String> = Vec::new();
    let mut one = |j: usize, k: usize, got: f64, want: f64| {
        case.count("values_compared", 1);
        if got.to_bits() != want.to_bits() {
            diffs.push(format!("{} of the unknown {} is {:e} instead of {:e}", KEYS[k], j, got, want));
        }
    };
    match r {
        Read::Fd(_, its, _, _) => {
            if its.len() == c.n {
                for j in 0..c.n {
                    let p = &c.params[j];
                    one(j, 0, its[j].get_max_step_abs(), p.max_abs);
                    one(j, 1, its[j].get_max_step_rel(), p.max_rel);
                    one(j, 2, its[j].get_min_value(), p.min);
                    one(j, 3, its[j].get_max_value(), p.max);
                    one(j, 4, its[j].get_dx_abs(), p.dx_abs);
                    one(j, 5, its[j].get_dx_rel(), p.dx_rel);
                    if (its[j].get_perturbation_method() == PerturbationMethod::Sum) != p.sum {
                        bad.push(format!("perturbation method of the unknown {}", j));
                    }
                }
                if its != &c.params.iter().map(|p| p.fd()).collect::<Vec<_>>() {
                    bad.push("parameters differ from the programmatic ones".to_string());
                }
            } else {
                bad.push(format!("{} unknowns instead of {}", its.len(), c.n));
            }
        }
        Read::Jac(_, its, _, _) => {
            if its.len() == c.n {
                for j in 0..c.n {
                    let p = &c.params[j];
                    one(j, 0, its[j].get_max_step_abs(), p.max_abs);
                    one(j, 1, its[j].get_max_step_rel(), p.max_rel);
                    one(j, 2, its[j].get_min_value(), p.min);
                    one(j, 3, its[j].get_max_value(), p.max);
                }
                if its != &c.params.iter().map(|p| p.jac()).collect::<Vec<_>>() {
                    bad.push("parameters differ from the programmatic ones".to_string());
                }
            } else {
                bad.push(format!("{} unknowns instead of {}", its.len(), c.n));
            }
        }
    }
    for b in bad.into_iter().chain(diffs) {
        case.fail(b);
    }
}

/// A generated file is read as it was written
pub fn xml_read(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let (conf, tree) = conf(rng);
    let text = render(&tree, rng);
    c.sample = text.chars().take(300).collect();
    c.count("inherited_values", conf.inherited);
    c.count("own_values", conf.own);
    // the reader for the analytical case also reads the files of the other one
    let readers: &[bool] = if conf.fd { &[true, false] } else { &[false] };
    for &fd in readers {
        c.count("files_read", 1);
        match read(ctx, k, &text, fd) {
            Ok(r) => compare(&conf, &r, &mut c),
            Err(e) => c.fail(format!("a valid configuration is rejected: {}", e)),
        }
    }
    c.nontrivial = true;
    c.mix(conf.n as u64);
    c.mix(conf.method as u64);
    c.mix(conf.inherited);
    c.mix(conf.own);
    c.mix(conf.fd as u64 + 2 * conf.damping as u64);
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n{}", conf, text);
    }
    c
}

/// The same resolution, configured by a file or by the program
pub fn xml_run(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { limits: 0.7, norms: 0.7, long: 0.0, ..Prof::default() };
    let mut s = gen(rng, &prof);
    s.stat = false;
    let fd = s.fd_params || !s.analytic;
    let def = if rng.chance(0.5) { *rng.pick(&s.params) } else { Par::free() };
    let (dstop, dupd) = (*rng.pick(&s.stop), *rng.pick(&s.upd));
    let mut conf = Conf {
        n: s.n,
        tol: s.tol,
        max_iter: s.max_iter,
        method: s.method,
        damping: s.damping,
        fd,
        params: s.params.clone(),
        stop: s.stop.clone(),
        upd: s.upd.clone(),
        inherited: 0,
        own: 0,
    };
    let t = tree(&mut conf, &def, dstop, dupd, rng);
    let text = render(&t, rng);
    c.sample = s.describe();
    let a = s.run();
    let b = match read(ctx, k, &text, fd) {
        Ok(Read::Fd(sp, its, stop, upd)) => s.drive_with(Dyn(s.n), sp, &its, &stop, &upd, &[&s], None).pop().unwrap(),
        Ok(Read::Jac(sp, its, stop, upd)) => s.drive_with(Dyn(s.n), sp, &its, &stop, &upd, &[&s], None).pop().unwrap(),
        Err(e) => {
            c.fail(format!("a valid configuration is rejected: {}", e));
            c.details = text;
            return c;
        }
    };
    c.count("resolutions_compared", 1);
    c.count("events_compared", a.trace.len() as u64);
    if !a.same(&b) {
        c.fail(format!("configured by the program or by a file: {}", a.first_diff(&b)));
        c.details = format!("{:#?}\n{}\n{}\n{}", s, text, dump(&a), dump(&b));
    }
    c.nontrivial = a.evals() > 1;
    c.mix(s.n as u64);
    c.mix(s.method as u64);
    c.mix(a.trace.len() as u64);
    c.mix(res_code(&a.res));
    c
}

/// One thing wrong in a valid file
pub fn xml_corrupted(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let (cf, t) = conf(rng);
    let text0 = render(&t, rng);
    if let Err(e) = read(ctx, k, &text0, cf.fd) {
        c.fail(format!("a valid configuration is rejected: {}", e));
        c.details = text0;
        return c;
    }
    c.nontrivial = true;
    for _ in 0..8 {
        let mut t = t.clone();
        let kind = rng.below(22);
        let what: String;
        let j = rng.below(cf.n);
        let keys = if cf.fd { 7 } else { 4 };
        let bad_numbers = ["", "abc", "1,5", "1.5.2", "--1", "1e", "0x10", "one", "1 2"];
        let typo = |s: &str, rng: &mut Rng| -> String {
            let mut v: Vec<char> = s.chars().collect();
            let k = rng.below(v.len());
            match rng.below(4) {
                0 => {
                    v.remove(k);
                }
                1 => v[k] = 'q',
                2 => v.push(*rng.pick(&['q', '2', '_', 's'])),
                _ => v.insert(k, 'q'),
            }
            let w: String = v.into_iter().collect();
            if w.is_empty() {
                "q".to_string()
            } else {
                w
            }
        };
        let typo_num = |s: &str, rng: &mut Rng| -> String {
            let _ = s;
            rng.pick(&bad_numbers).to_string()
        };
        match kind {
            0 | 1 => {
                // required attribute missing
                let (node, key) = match rng.below(3) {
                    0 => (0, *rng.pick(&["problem_size", "max_iter", "tolerance", "resolution_method"])),
                    1 => (1, KEYS[rng.below(keys)]),
                    _ => (2, *rng.pick(&["stopping_criteria", "update_method"])),
                };
                t.children[node].del(key);
                what = format!("missing {}", key);
            }
            2 => {
                let (node, key) = match rng.below(3) {
                    0 => (0, *rng.pick(&["problem_size", "max_iter", "tolerance", "resolution_method"])),
                    1 => (1, KEYS[rng.below(keys)]),
                    _ => (2, *rng.pick(&["stopping_criteria", "update_method"])),
                };
                let v = t.children[node].get(key).unwrap().to_string();
                t.children[node].del(key);
                let mut w = typo(key, rng);
                if w.chars().all(|c| c.is_whitespace()) {
                    w = "q".to_string();
                }
                t.children[node].set(&w, v);
                what = format!("{} misspelled {}", key, w);
            }
            3 => {
                let key = *rng.pick(&["problem_size", "max_iter", "tolerance"]);
                let v = match rng.below(3) {
                    0 if key != "tolerance" => rng.pick(&["-1", "2.5", "1e3", "inf", "nan"]).to_string(),
                    _ => typo_num("", rng),
                };
                t.children[0].set(key, v.clone());
                what = format!("{}={}", key, v);
            }
            4 => {
                let v = rng.pick(&["True", "TRUE", "yes", "1", "0", "", "False", "on"]).to_string();
                t.children[0].set("damping", v.clone());
                what = format!("damping={}", v);
            }
            5 => {
                let m = METHOD_CODES[cf.method];
                let v = match rng.below(3) {
                    0 => m.to_lowercase(),
                    1 => typo(m, rng),
                    _ => rng.pick(&["", "BROY", "GRST", "BROY3", "Newton", "NR_INV", "SN_INV", "BROY1_JAC", " NR"]).to_string(),
                };
                if METHOD_CODES.contains(&v.as_str()) {
                    continue;
                }
                t.children[0].set("resolution_method", v.clone());
                what = format!("resolution_method={}", v);
            }
            6 => {
                // wrong counts
                let node = rng.range(1, 2);
                if rng.chance(0.5) {
                    t.children[node].children.pop();
                    what = format!("one {} less", if node == 1 { "iterative" } else { "residual" });
                } else {
                    let mut e = t.children[node].children.last().unwrap().clone();
                    e.set("id", cf.n.to_string());
                    t.children[node].children.push(e);
                    what = format!("one {} more", if node == 1 { "iterative" } else { "residual" });
                }
            }
            7 => {
                let n = if rng.chance(0.5) { cf.n + 1 } else { cf.n - 1 };
                t.children[0].set("problem_size", n.to_string());
                what = format!("problem_size={} for {}", n, cf.n);
            }
            8 | 9 => {
                // ids
                let node = rng.range(1, 2);
                let ch = &mut t.children[node].children;
                match rng.below(5) {
                    0 if cf.n > 1 => {
                        let o = (j + 1) % cf.n;
                        ch.swap(j, o);
                        what = "nodes not in the order of their ids".to_string();
                    }
                    1 if cf.n > 1 => {
                        let o = (j + 1) % cf.n;
                        let id = ch[o].get("id").unwrap().to_string();
                        ch[j].set("id", id);
                        what = "duplicated id".to_string();
                    }
                    2 => {
                        ch[j].del("id");
                        what = "missing id".to_string();
                    }
                    3 => {
                        for (q, e) in ch.iter_mut().enumerate() {
                            e.set("id", (q + 1).to_string());
                        }
                        what = "ids from 1".to_string();
                    }
                    _ => {
                        let v = rng.pick(&["-1", "x", "", "99", "1.0"]).to_string();
                        ch[j].set("id", v.clone());
                        what = format!("id={}", v);
                    }
                }
            }
            10 => {
                // node names
                let w;
                let near = |s: &str, rng: &mut Rng| -> String {
                    match rng.below(4) {
                        0 => format!("{}s", s),
                        1 => format!("{}{}", s, rng.below(10)),
                        2 => format!("x{}", s),
                        _ => {
                            let mut t = s.to_string();
                            t[..1].make_ascii_uppercase();
                            t
                        }
                    }
                };
                match rng.below(5) {
                    4 => {
                        let q = rng.range(0, 2);
                        let of_child = q > 0 && rng.chance(0.7);
                        let node = if of_child { &mut t.children[q].children[j] } else { &mut t.children[q] };
                        w = near(&node.name, rng);
                        node.name = w.clone();
                    }
                    0 => {
                        t.name = typo("nrf", rng);
                        w = t.name.clone();
                    }
                    1 => {
                        let q = rng.below(3);
                        t.children[q].name = typo(&t.children[q].name, rng);
                        w = t.children[q].name.clone();
                    }
                    2 => {
                        let q = rng.range(1, 2);
                        let nm = typo(&t.children[q].children[j].name, rng);
                        w = nm.clone();
                        t.children[q].children[j].name = nm;
                    }
                    _ => {
                        let q = rng.range(1, 2);
                        t.children[q].children[j].name = if q == 1 { "residual" } else { "iterative" }.to_string();
                        w = "residual / iterative".to_string();
                    }
                }
                what = format!("node {}", w);
            }
            11 => {
                // order of the nodes
                let q = rng.below(3);
                t.children.swap(q, (q + 1) % 3);
                what = "order of the nodes".to_string();
            }
            12 => {
                t.children.remove(rng.below(3));
                what = "missing node".to_string();
            }
            13..=17 => {
                // improper value, own or of the group
                let own = rng.chance(0.7);
                let key = rng.below(keys);
                let v = match key {
                    0 | 1 | 4 | 5 => match rng.below(3) {
                        0 => typo_num("", rng),
                        1 => rng.pick(&["0", "-0", "0.0", "nan", "NaN", "0e0"]).to_string(),
                        _ => rng.pick(&["-1", "-inf", "-1e-300", "-0.5"]).to_string(),
                    },
                    2 | 3 => match rng.below(2) {
                        0 => typo_num("", rng),
                        _ => rng.pick(&["nan", "NaN"]).to_string(),
                    },
                    _ => rng.pick(&["max", "sum", "Min", "", "SUM", "Max "]).to_string(),
                };
                if own {
                    t.children[1].children[j].set(KEYS[key], v.clone());
                } else {
                    // used by at least one unknown
                    t.children[1].children[j].del(KEYS[key]);
                    t.children[1].set(KEYS[key], v.clone());
                }
                what = format!("{}={} ({})", KEYS[key], v, if own { "own" } else { "group" });
            }
            18 | 19 => {
                // bounds not strictly ordered
                let p = cf.params[j];
                let node = &mut t.children[1].children[j];
                match rng.below(4) {
                    0 => {
                        let v = num(rng, p.max);
                        node.set("min_value", v);
                        what = "min_value = max_value".to_string();
                    }
                    1 => {
                        let (a, b) = (num(rng, p.max), num(rng, p.min));
                        node.set("min_value", a);
                        node.set("max_value", b);
                        what = "exchanged bounds".to_string();
                    }
                    2 => {
                        node.set("min_value", "3");
                        node.set("max_value", "3.0");
                        what = "equal bounds".to_string();
                    }
                    _ => {
                        node.set("min_value", "inf");
                        what = "min_value=inf".to_string();
                    }
                }
            }
            _ => {
                // normalization
                let key = *rng.pick(&["stopping_criteria", "update_method"]);
                let v = rng.pick(&["abs", "ABS", "Relative", "", "adapt", "Ada", "Ab", "max"]).to_string();
                if rng.chance(0.6) {
                    t.children[2].children[j].set(key, v.clone());
                } else {
                    t.children[2].children[j].del(key);
                    t.children[2].set(key, v.clone());
                }
                what = format!("{}={}", key, v);
            }
        }
        let mut text = render(&t, rng);
        let mut what = what;
        if rng.chance(0.03) {
            // not an XML document any more
            text = render(&t, rng);
            let cut = text.len() - rng.range(2, 20).min(text.len() - 1);
            text.truncate(cut);
            what = "truncated document".to_string();
        }
        c.count("corruptions", 1);
        c.mix(kind as u64);
        match read(ctx, k, &text, cf.fd) {
            Err(_) => c.count("rejected", 1),
            Ok(r) => {
                let _ = r;
                c.fail(format!("accepted: {}", what));
                c.details = text;
                return c;
            }
        }
    }
    c.sample = format!("n={} {} {}", cf.n, METHOD_CODES[cf.method], if cf.fd { "fd" } else { "jac" });
    c
}

fn bad_step(rng: &mut Rng) -> f64 {
    *rng.pick(&[0.0, -0.0, -1.0, -1e-300, f64::NAN, f64::NEG_INFINITY, -f64::MIN_POSITIVE, -0.5, -f64::NAN])
}

/// Constructors of the parameters
pub fn constructors(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.nontrivial = true;
    for _ in 0..40 {
        let p = any_par(rng);
        let meth = if p.sum { PerturbationMethod::Sum } else { PerturbationMethod::Max };
        // valid ones, and what they hold
        match guarded(|| (IterativeParams::new(p.max_abs, p.max_rel, p.min, p.max), p.fd())) {
            Ok((a, f)) => {
                c.count("accepted", 1);
                let e = guarded(|| IterativeParamsFD::extend(a.clone(), p.dx_abs, p.dx_rel, meth));
                let ok = e.as_ref().map_or(false, |e| e == &f)
                    && a.get_max_step_abs() == p.max_abs
                    && a.get_max_step_rel() == p.max_rel
                    && a.get_min_value() == p.min
                    && a.get_max_value() == p.max
                    && f.get_dx_abs() == p.dx_abs
                    && f.get_dx_rel() == p.dx_rel
                    && f.get_max_step_abs() == p.max_abs
                    && f.get_max_step_rel() == p.max_rel
                    && f.get_min_value() == p.min
                    && f.get_max_value() == p.max
                    && f.get_perturbation_method() == meth;
                if !ok {
                    c.fail(format!("parameters {:?} held as {:?} and {:?}", p, a, f));
                }
            }
            Err(e) => c.fail(format!("valid parameters {:?} rejected: {}", p, e)),
        }
        // one invalid value
        let mut q = p;
        let kind = rng.below(8);
        c.mix(kind as u64);
        match kind {
            0 => q.max_abs = bad_step(rng),
            1 => q.max_rel = bad_step(rng),
            2 => q.dx_abs = bad_step(rng),
            3 => q.dx_rel = bad_step(rng),
            4 => q.min = f64::NAN,
            5 => q.max = f64::NAN,
            6 => {
                q.min = p.max;
                if rng.chance(0.5) {
                    q.max = p.min;
                }
            }
            _ => {
                q.min = *rng.pick(&[0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, 1e300]);
                q.max = match rng.below(3) {
                    0 => q.min,
                    1 => -q.min.abs(),
                    _ => f64::NEG_INFINITY,
                };
                if q.min < q.max {
                    q.max = q.min;
                }
            }
        }
        let fdonly = kind == 2 || kind == 3;
        if !fdonly {
            c.count("invalid", 1);
            if guarded(|| q.jac()).is_ok() {
                c.fail(format!("IterativeParams accepts {:?}", q));
            }
        }
        c.count("invalid", 1);
        if guarded(|| q.fd()).is_ok() {
            c.fail(format!("IterativeParamsFD accepts {:?}", q));
        }
        if fdonly {
            c.count("invalid", 1);
            let m = PerturbationMethod::Max;
            if guarded(|| IterativeParamsFD::extend(p.jac(), q.dx_abs, q.dx_rel, m)).is_ok() {
                c.fail(format!("IterativeParamsFD::extend accepts {:?}", q));
            }
        }
    }
    c.sample = "constructors of the iteratives".to_string();
    c
}

/// Sizes
pub fn mismatches(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.nontrivial = true;
    let n = rng.range(1, 8);
    let other = |rng: &mut Rng| -> usize {
        loop {
            let m = rng.range(0, 9);
            if m != n {
                return m;
            }
        }
    };
    c.mix(n as u64);
    for _ in 0..6 {
        let m = other(rng);
        c.mix(m as u64);
        c.sample = format!("sizes {} and {}", n, m);
        let methods = |k: usize, rng: &mut Rng| -> Vec<NM> { (0..k).map(|_| *rng.pick(&NORMS)).collect() };
        let (a, b) = (methods(n, rng), methods(m, rng));
        let b2 = methods(n, rng);
        let mut rejected = |what: &str, r: Result<(), String>, c: &mut Case| {
            c.count("mismatches", 1);
            if r.is_ok() {
                c.fail(format!("{} accepted ({} and {})", what, n, m));
            }
        };
        let mut accepted = Vec::new();
        rejected("residuals configuration", guarded(|| drop(ResidualsConfig::new(&a, &b))), &mut c);
        rejected("residuals configuration", guarded(|| drop(ResidualsConfig::new(&b, &a))), &mut c);
        rejected(
            "residuals values",
            guarded(|| drop(ResidualsValues::<Dyn>::new(DVector::zeros(n), DVector::zeros(m)))),
            &mut c,
        );
        let z = |r: usize, q: usize| DMatrix::<f64>::zeros(r, q);
        rejected("jacobians", guarded(|| drop(JacobianValues::<Dyn>::new(z(n, n), z(m, m)))), &mut c);
        rejected("jacobians", guarded(|| drop(JacobianValues::<Dyn>::new(z(n, m), z(n, m)))), &mut c);
        rejected("jacobians", guarded(|| drop(JacobianValues::<Dyn>::new(z(n, n), z(n, m)))), &mut c);
        rejected("jacobians", guarded(|| drop(JacobianValues::<Dyn>::new(z(n, m), z(m, n)))), &mut c);
        accepted.push(("residuals values", guarded(|| drop(ResidualsValues::<Dyn>::new(DVector::zeros(n), DVector::zeros(n))))));
        accepted.push(("jacobians", guarded(|| drop(JacobianValues::<Dyn>::new(z(n, n), z(n, n))))));
        // the solver
        let build = |size: usize, guess: usize, unknowns: usize, resid: usize, fd: bool, rng: &mut Rng| -> Result<(), String> {
            let s = methods(resid, rng);
            let u = methods(resid, rng);
            let g = DVector::from_element(guess, 1.0);
            let meth = method(rng.below(10));
            guarded(|| {
                let rc = ResidualsConfig::new(&s, &u);
                let sp = SolverParameters::new(size, 1e-6, 10, meth, false);
                if fd {
                    let v = default_vec_iteratives_fd(unknowns);
                    let it = Iteratives::new(&v);
                    drop(RootFinder::new(sp, g, &it, &rc));
                } else {
                    let v = default_vec_iteratives(unknowns);
                    let it = Iteratives::new(&v);
                    drop(RootFinder::new(sp, g, &it, &rc));
                }
            })
        };
        let build_default = |guess: usize, unknowns: usize, resid: usize, rng: &mut Rng| -> Result<(), String> {
            let s = methods(resid, rng);
            let g = DVector::from_element(guess, 1.0);
            let meth = method(rng.below(10));
            guarded(|| {
                let rc = ResidualsConfig::new(&s, &s);
                let v = default_vec_iteratives_fd(unknowns);
                let it = Iteratives::new(&v);
                drop(default_with_guess(g, &it, &rc, meth, true));
            })
        };
        let fd = rng.chance(0.5);
        rejected("solver: problem size", build(m, n, n, n, fd, rng), &mut c);
        rejected("solver: guess", build(n, m, n, n, fd, rng), &mut c);
        rejected("solver: unknowns", build(n, n, m, n, fd, rng), &mut c);
        rejected("solver: residuals", build(n, n, n, m, fd, rng), &mut c);
        rejected("solver: guess and unknowns", build(n, m, m, n, fd, rng), &mut c);
        rejected("solver: guess and residuals", build(n, m, n, m, fd, rng), &mut c);
        rejected("solver: unknowns and residuals", build(n, n, m, m, fd, rng), &mut c);
        rejected("default solver: guess", build_default(m, n, n, rng), &mut c);
        rejected("default solver: unknowns", build_default(n, m, n, rng), &mut c);
        rejected("default solver: residuals", build_default(n, n, m, rng), &mut c);
        // static sizes
        if m != 3 {
            let s = methods(3, rng);
            let v = default_vec_iteratives_fd(m);
            let meth = method(rng.below(10));
            let r = guarded(|| {
                let rc = ResidualsConfig::new(&s, &s);
                let it = Iteratives::new(&v);
                let g: OVector<f64, Const<3>> = OVector::<f64, Const<3>>::zeros();
                drop(RootFinder::new(SolverParameters::new(3, 1e-6, 10, meth, false), g, &it, &rc));
            });
            rejected("static solver: unknowns", r, &mut c);
        }
        accepted.push(("solver", build(n, n, n, n, fd, rng)));
        accepted.push(("default solver", build_default(n, n, n, rng)));
        accepted.push(("residuals configuration", guarded(|| drop(ResidualsConfig::new(&a, &b2)))));
        accepted.push((
            "static members",
            guarded(|| {
                drop(ResidualsValues::<Const<3>>::new(OVector::<f64, Const<3>>::zeros(), OVector::<f64, Const<3>>::zeros()));
                drop(JacobianValues::<Const<3>>::new(
                    OMatrix::<f64, Const<3>, Const<3>>::zeros(),
                    OMatrix::<f64, Const<3>, Const<3>>::zeros(),
                ));
            }),
        ));
        for (what, r) in accepted {
            c.count("accepted", 1);
            if let Err(e) = r {
                c.fail(format!("{} of size {} rejected: {}", what, n, e));
            }
        }
    }
    c
}
