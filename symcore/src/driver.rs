//! Explores all paths of all cases of a property, decides every obligation, replays
//! counterexamples against the real code in concrete mode, and writes the evidence file.
use crate::engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

pub struct Case {
    pub name: String,
    pub bounds: String,
    pub root_hi: bool,
    pub timeout_ms: u64,
    pub run: Box<dyn Fn() + Send + Sync>,
}
pub fn case(name: impl Into<String>, bounds: impl Into<String>, run: impl Fn() + Send + Sync + 'static) -> Case {
    Case { name: name.into(), bounds: bounds.into(), root_hi: false, timeout_ms: 120_000, run: Box::new(run) }
}
impl Case {
    pub fn hi(mut self, b: bool) -> Self {
        self.root_hi = b;
        if b {
            self.name.push_str("/root-hi");
        }
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub functions: &'static [&'static str],
    pub outside: &'static str,
    pub cases: Box<dyn Fn(Tier) -> Vec<Case>>,
}

#[derive(Default)]
struct Out {
    stats: Stats,
    paths: u64,
    infeasible: u64,
    decisions: u64,
    obligations: u64,
    trivial: u64,
    replays: u64,
    cross: u64,
    cross_unknown: u64,
    covers: BTreeMap<String, (bool, Option<Value>)>,
    violations: Vec<Value>,
    errors: Vec<String>,
    undecided: BTreeSet<usize>,
    notes: BTreeSet<String>,
    per_case: BTreeMap<String, (u64, u64, f64)>,
}

struct Queue {
    q: Mutex<(VecDeque<(usize, Vec<Dec>)>, usize)>,
    cv: Condvar,
}

fn conc_run(c: &Case, vals: &BTreeMap<String, u64>) -> (Vec<String>, Vec<String>, bool) {
    let (f, h, a, _) = conc_run_drawn(c, vals);
    (f, h, a)
}
fn conc_run_drawn(c: &Case, vals: &BTreeMap<String, u64>) -> (Vec<String>, Vec<String>, bool, BTreeMap<String, u64>) {
    let ctx = Ctx::new(Mode::Conc(vals.clone()), vec![], None, 0, c.root_hi);
    CTX.with(|x| *x.borrow_mut() = Some(ctx));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)()));
    let ctx = CTX.with(|x| x.borrow_mut().take().unwrap());
    let mut f = ctx.failures;
    if let Err(e) = r {
        if !e.is::<PathAbort>() && !e.is::<SolverUnknown>() {
            f.push(format!("panic: {}", panic_msg(&e)));
        }
    }
    (f, ctx.cover_hits, ctx.conc_assume_failed, ctx.drawn)
}

pub fn replay(cases: &[Case], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let name = v["case"].as_str().unwrap();
    let c = match cases.iter().find(|c| c.name == name) {
        Some(c) => c,
        None => {
            eprintln!("no case {}", name);
            return 2;
        }
    };
    let vals: BTreeMap<String, u64> = v["values"]
        .as_object()
        .unwrap()
        .iter()
        .map(|(k, x)| (k.clone(), x.as_u64().unwrap()))
        .collect();
    let (f, _, a) = conc_run(c, &vals);
    println!("case {}: assumption violated: {}, failures: {:#?}", name, a, f);
    if f.is_empty() {
        0
    } else {
        1
    }
}

pub fn run(p: &Prop, tier: Tier, only: Option<&str>, verbose: bool, root: &str) -> i32 {
    let t0 = Instant::now();
    let mut cases = (p.cases)(tier);
    if let Some(o) = only {
        cases.retain(|c| c.name.contains(o));
    }
    let n = cases.len();
    {
        let names: BTreeSet<&str> = cases.iter().map(|c| c.name.as_str()).collect();
        assert!(names.len() == n, "case names must be unique");
    }
    let cases = Arc::new(cases);
    let known = load_known(root, p.id);
    let queue = Arc::new(Queue {
        q: Mutex::new(((0..n).map(|i| (i, vec![])).collect(), 0)),
        cv: Condvar::new(),
    });
    let stop = Arc::new(AtomicBool::new(false));
    let out = Arc::new(Mutex::new(Out::default()));
    let threads: usize = std::env::var("SYMX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|_| {}));
    let mut hs = vec![];
    for _ in 0..threads {
        let (cases, queue, out, stop) = (cases.clone(), queue.clone(), out.clone(), stop.clone());
        let known = known.clone();
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || worker(&cases, &queue, &out, &stop, tier, verbose, &known, t0))
            .unwrap();
        hs.push(h);
    }
    for h in hs {
        if h.join().is_err() {
            out.lock().unwrap().errors.push("worker thread died".into());
        }
    }
    let mut o = out.lock().unwrap();
    // The solver gave no answer for some cases: this run cannot say that the property holds. It may
    // still be able to exhibit a failing input; concrete runs of the real code look for one.
    if o.violations.is_empty() && !o.undecided.is_empty() {
        let seed0 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
        let t1 = Instant::now();
        let budget = if tier == Tier::Quick { 60.0 } else { 600.0 };
        let und: Vec<usize> = o.undecided.iter().cloned().collect();
        'look: for k in 0..20_000u64 {
            for ci in &und {
                if t1.elapsed().as_secs_f64() > budget {
                    break 'look;
                }
                let mut vals = BTreeMap::new();
                vals.insert(SEED_KEY.to_string(), seed0.wrapping_mul(1_000_003).wrapping_add(k));
                let (f, _, _, drawn) = conc_run_drawn(&cases[*ci], &vals);
                if !f.is_empty() {
                    let (g, _, _) = conc_run(&cases[*ci], &drawn);
                    if !g.is_empty() {
                        o.violations.push(json!({"case": cases[*ci].name, "label": g[0], "bounds": cases[*ci].bounds, "values": drawn, "concrete_failures": g, "how_found": "concrete run after the solver gave no answer", "how_to_replay": "symx replay <property> <this file>"}));
                        break 'look;
                    }
                }
            }
        }
    }
    let mut vac = vec![];
    for (k, (hit, _)) in &o.covers {
        if !hit {
            vac.push(k.clone());
        }
    }
    let _ = std::fs::create_dir_all(format!("{}/evidence/replays", root));
    let mut unknown_violations = vec![];
    let mut known_hit = BTreeSet::new();
    for (i, v) in o.violations.iter().enumerate() {
        let key = format!("{}::{}", v["case"].as_str().unwrap(), v["label"].as_str().unwrap());
        if let Some((_, what)) = known.iter().find(|(k, _)| *k == key) {
            if known_hit.insert(key) {
                println!("KNOWN-FINDING: property={} {}", p.id, what);
            }
            continue;
        }
        let safe: String = v["case"].as_str().unwrap().chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        let path = format!("{}/evidence/replays/{}-{}-{}.json", root, p.id, safe, i);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
        unknown_violations.push((path, v.clone()));
    }
    if unknown_violations.is_empty() && !vac.is_empty() {
        o.errors.push(format!("unreached coverage goals (vacuity): {:?}", vac));
    }
    let bounds: Vec<String> = cases.iter().map(|c| format!("{}: {}", c.name, c.bounds)).collect();
    let samples: Vec<Value> = o
        .covers
        .iter()
        .filter_map(|(k, (_, s))| s.as_ref().map(|s| json!({"goal": k, "solver_model_replayed_on_real_code": s})))
        .take(6)
        .collect();
    let slow: Vec<Value> = {
        let mut v: Vec<_> = o.per_case.iter().collect();
        v.sort_by(|a, b| b.1 .2.partial_cmp(&a.1 .2).unwrap());
        v.iter().take(5).map(|(k, x)| json!({"case": k, "paths": x.0, "queries": x.1, "solver_s": x.2})).collect()
    };
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": o.paths,
            "transitions": o.decisions,
            "traces_validated_against_impl": o.replays,
            "samples": samples,
            "cases": n,
            "functions_encoded": p.functions,
            "bounds": bounds,
            "outside_the_claim": p.outside,
            "obligations_sent_to_the_solver": o.obligations,
            "obligations_closed_by_normalisation": o.trivial,
            "queries_discharged": o.stats.queries,
            "queries_sat": o.stats.sat,
            "queries_unsat": o.stats.unsat,
            "queries_unknown": o.stats.unknown,
            "solver": "z3-new (QF_BV), models replayed concretely on the compiled code",
            "solver_s": o.stats.solver_s,
            "max_query_s": o.stats.max_query_s,
            "wire_uniqueness_lemma_queries": o.stats.lemmas,
            "cross_checked_with_cvc5": o.cross,
            "cross_check_unknown": o.cross_unknown,
            "infeasible_paths": o.infeasible,
            "reachability_goals": o.covers.len(),
            "not_decided": o.notes,
            "slowest_cases": slow,
            "explanation": "states = symbolic paths of the real code explored to the end; transitions = branch decisions on those paths; every obligation is decided by the solver for all values of all variables on its path"
        },
        "assumptions": [
            "the field arithmetic under the library (ff/pairing crates) implements the prime field it claims to; the code under test is instantiated at small prime fields",
            "z3 answers are right (cvc5 cross-check in the thorough tier)"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": unknown_violations.len()
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let tmp = format!("{}/evidence/{}.json", root, p.id);
    if only.is_none() {
        std::fs::write(&tmp, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!(
        "{}: cases={} paths={} obligations={} (+{} by normalisation) queries={} solver={:.1}s max={:.2}s wall={:.1}s",
        p.id, n, o.paths, o.obligations, o.trivial, o.stats.queries, o.stats.solver_s, o.stats.max_query_s, t0.elapsed().as_secs_f64()
    );
    if !o.notes.is_empty() {
        println!("  {} cases decided only in part: {}", o.notes.len(), o.notes.iter().take(3).cloned().collect::<Vec<_>>().join("; "));
    }
    if verbose {
        for s in &slow {
            println!("  slow {}", s);
        }
    }
    if !unknown_violations.is_empty() {
        for (path, v) in &unknown_violations {
            println!("  {} :: {}  values={}", v["case"], v["label"], v["values"]);
            println!("VIOLATION property={} replay={}", p.id, path);
        }
        return 1;
    }
    if !o.errors.is_empty() {
        for e in o.errors.iter().take(20) {
            println!("ERROR {}", e);
        }
        return 2;
    }
    0
}

fn load_known(root: &str, id: &str) -> Vec<(String, String)> {
    let mut r = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.json", root)) {
        let v: Value = serde_json::from_str(&s).expect("known_findings.json");
        for f in v["known"].as_array().unwrap_or(&vec![]) {
            if f["property"] == id {
                r.push((f["key"].as_str().unwrap().to_string(), f["what"].as_str().unwrap().to_string()));
            }
        }
    }
    r
}

fn worker(
    cases: &[Case],
    queue: &Queue,
    out: &Mutex<Out>,
    stop: &AtomicBool,
    tier: Tier,
    verbose: bool,
    known: &[(String, String)],
    t0: Instant,
) {
    let deadline: f64 = std::env::var("SYMX_DEADLINE").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == Tier::Quick { 600.0 } else { 36_000.0 });
    let mut solver = Some(Solver::new(Kind::Z3));
    let mut cross = if tier == Tier::Thorough { Some(Solver::new(Kind::Cvc5)) } else { None };
    loop {
        let item = {
            let mut g = queue.q.lock().unwrap();
            loop {
                if stop.load(Ordering::Relaxed) {
                    return;
                }
                if let Some(x) = g.0.pop_back() {
                    g.1 += 1;
                    break x;
                }
                if g.1 == 0 {
                    queue.cv.notify_all();
                    return;
                }
                g = queue.cv.wait(g).unwrap();
            }
        };
        let (ci, prefix) = item;
        if t0.elapsed().as_secs_f64() > deadline {
            stop.store(true, Ordering::Relaxed);
            let mut g = out.lock().unwrap();
            g.errors.push(format!("out of time after {:.0} s ({} not finished)", deadline, cases[ci].name));
            g.undecided.extend(0..cases.len());
            queue.cv.notify_all();
            return;
        }
        let c = &cases[ci];
        let sv = solver.take().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(c, ci, queue, prefix, sv, &mut cross, out, stop, verbose, known)));
        match r {
            Ok(s) => solver = Some(s),
            Err(e) => {
                let mut g = out.lock().unwrap();
                g.errors.push(format!("{}: internal error: {}", c.name, panic_msg(&e)));
                g.undecided.insert(ci);
                drop(g);
                solver = Some(Solver::new(Kind::Z3));
            }
        }
        let mut g = queue.q.lock().unwrap();
        g.1 -= 1;
        queue.cv.notify_all();
    }
}

fn one(
    c: &Case,
    ci: usize,
    queue: &Queue,
    prefix: Vec<Dec>,
    solver: Solver,
    cross: &mut Option<Solver>,
    out: &Mutex<Out>,
    stop: &AtomicBool,
    verbose: bool,
    known: &[(String, String)],
) -> Solver {
    let ctx = Ctx::new(Mode::Sym, prefix, Some(solver), c.timeout_ms, c.root_hi);
    CTX.with(|x| *x.borrow_mut() = Some(ctx));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)()));
    let mut ctx = CTX.with(|x| x.borrow_mut().take().unwrap());
    let mut infeasible = false;
    let mut errs = vec![];
    if let Err(e) = r {
        if e.is::<PathAbort>() {
            infeasible = true;
        } else if e.is::<SolverUnknown>() {
            errs.push(format!("{}: {}", c.name, ctx.unknown.clone().unwrap_or_default()));
        } else {
            let (n_path, n_assume) = (ctx.path.len(), ctx.assumes.len());
            ctx.obligations.push(Obligation { label: format!("panic: {}", panic_msg(&e)), fm: Fm::F, n_path, n_assume });
        }
    }
    {
        // the other sides of this path's branches can be explored while its obligations are decided
        let mut g = queue.q.lock().unwrap();
        for f in std::mem::take(&mut ctx.forks) {
            g.0.push_back((ci, f));
        }
        queue.cv.notify_all();
    }
    let obs = std::mem::take(&mut ctx.obligations);
    let covers = std::mem::take(&mut ctx.covers);
    let mut viol = vec![];
    let mut replays = 0;
    let nobs = obs.len() as u64;
    let mut cross_n = 0;
    let mut cross_u = 0;
    for ob in obs {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        let neg = [ob.fm.clone().not()];
        match ctx.query_at(ob.n_path, ob.n_assume, &neg, true) {
            Sat::Unsat => {
                if let Some(cv) = cross.as_mut() {
                    match ctx.cross(cv, ob.n_path, ob.n_assume, &neg) {
                        Sat::Unsat => cross_n += 1,
                        Sat::Unknown(_) => cross_u += 1,
                        Sat::Sat(_) => errs.push(format!("{} :: {}: z3 says unsat, cvc5 says sat", c.name, ob.label)),
                    }
                }
            }
            Sat::Unknown(m) => errs.push(format!("{} :: {}: solver gave no answer ({})", c.name, ob.label, m)),
            Sat::Sat(m) => {
                let (f, _, _) = conc_run(c, &m);
                replays += 1;
                if f.contains(&ob.label) || !f.is_empty() {
                    let label = if f.contains(&ob.label) { ob.label.clone() } else { f[0].clone() };
                    viol.push(json!({"case": c.name, "label": label, "bounds": c.bounds, "values": m, "concrete_failures": f, "how_to_replay": "symx replay <property> <this file>"}));
                } else {
                    errs.push(format!("{} :: {}: counterexample {:?} does not reproduce concretely", c.name, ob.label, m));
                }
            }
        }
    }
    let mut cov_res = vec![];
    for cv in covers {
        let key = format!("{} :: {}", c.name, cv.label);
        {
            let mut g = out.lock().unwrap();
            let e = g.covers.entry(key.clone()).or_insert((false, None));
            if e.0 {
                continue;
            }
        }
        match ctx.query_at(cv.n_path, cv.n_assume, &[cv.fm.clone()], true) {
            Sat::Sat(m) => {
                let (f, hits, _) = conc_run(c, &m);
                replays += 1;
                if !f.is_empty() && viol.is_empty() {
                    // the concrete run of the real code disagrees with what the paths promised
                    viol.push(json!({"case": c.name, "label": f[0], "bounds": c.bounds, "values": m, "concrete_failures": f, "how_to_replay": "symx replay <property> <this file>"}));
                } else if !hits.contains(&cv.label) {
                    errs.push(format!("{} :: {}: reachability model {:?} does not reproduce concretely", c.name, cv.label, m));
                } else {
                    cov_res.push((key, json!(m)));
                }
            }
            Sat::Unsat => {}
            Sat::Unknown(m) => errs.push(format!("{}: solver gave no answer ({})", key, m)),
        }
    }
    let mut g = out.lock().unwrap();
    if infeasible {
        g.infeasible += 1;
    } else {
        g.paths += 1;
    }
    g.decisions += ctx.n_trace() as u64;
    g.obligations += nobs;
    g.trivial += ctx.trivial;
    g.replays += replays;
    g.cross += cross_n;
    g.cross_unknown += cross_u;
    g.stats.add(&ctx.stats);
    for n in ctx.notes.keys() {
        g.notes.insert(format!("{}: {}", c.name, n));
    }
    {
        let pc = g.per_case.entry(c.name.clone()).or_insert((0, 0, 0.0));
        pc.0 += 1;
        pc.1 += ctx.stats.queries;
        pc.2 += ctx.stats.solver_s;
    }
    for (k, m) in cov_res {
        g.covers.insert(k, (true, Some(m)));
    }
    if !errs.is_empty() {
        g.undecided.insert(ci);
    }
    for e in errs {
        if verbose {
            eprintln!("ERR {}", e);
        }
        g.errors.push(e);
    }
    for v in viol {
        let key = format!("{}::{}", v["case"].as_str().unwrap(), v["label"].as_str().unwrap());
        if !known.iter().any(|(k, _)| *k == key) {
            stop.store(true, Ordering::Relaxed);
        }
        g.violations.push(v);
    }
    ctx.take_solver().unwrap()
}
