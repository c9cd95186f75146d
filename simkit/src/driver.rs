//! Seeded search over simulated runs, minimisation, replay and evidence.

use crate::rng::mix;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Properties whose statement the observation contradicts
    pub props: Vec<&'static str>,
    /// Stable name of the failing oracle and call site
    pub kind: String,
    pub detail: String,
    pub step: usize,
}

#[derive(Default, Clone)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub trace: Vec<String>,
    pub keep_trace: bool,
    pub fp: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    /// Non-trivial evaluations per property
    pub hits: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub sim_seconds: u64,
    pub txs: u64,
    pub ixs: u64,
    pub step: usize,
}

impl Report {
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        let mut h = self.fp ^ 0xcbf29ce484222325;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.fp = h.rotate_left(5);
        if self.keep_trace {
            let st = self.step;
            self.trace.push(format!("[{st}] {s}"));
        }
    }
    pub fn violate(&mut self, props: &[&'static str], kind: impl Into<String>, detail: impl Into<String>) {
        let kind = kind.into();
        let detail = detail.into();
        self.log(format!("VIOLATED {props:?} {kind}: {detail}"));
        if self.violations.len() < 200 && !self.violations.iter().any(|v| v.kind == kind) {
            self.violations.push(Violation { props: props.to_vec(), kind, detail, step: self.step });
        }
    }
    pub fn fault(&mut self, f: &'static str) {
        *self.faults.entry(f).or_default() += 1;
    }
    pub fn probe(&mut self, p: impl Into<String>) {
        *self.probes.entry(p.into()).or_default() += 1;
    }
    pub fn hit(&mut self, p: &'static str) {
        *self.hits.entry(p).or_default() += 1;
    }
    pub fn state(&mut self, parts: &[u64]) {
        let h = mix(parts);
        self.fp = self.fp.rotate_left(9) ^ h;
        if self.states.len() < 200_000 {
            self.states.insert(h);
        }
    }
}

pub trait World {
    fn step(&mut self, seed: u64);
    /// Faults stop: drive everything to completion and apply the final oracles
    fn finish(&mut self);
    fn report(&mut self) -> &mut Report;
}

pub struct Family {
    pub name: &'static str,
    /// Properties this family evaluates
    pub props: &'static [&'static str],
    pub make: fn(u64, bool) -> Box<dyn World>,
    /// Number of steps of a run
    pub steps: fn(u64, bool) -> usize,
    /// Runs for (quick, thorough)
    pub runs: (usize, usize),
    pub about: &'static str,
}

pub fn step_seeds(f: &Family, seed: u64, thorough: bool) -> Vec<u64> {
    let n = (f.steps)(seed, thorough);
    (0..n).map(|i| mix(&[seed, 0x57E9, i as u64])).collect()
}

pub fn run_once(f: &Family, seed: u64, thorough: bool, steps: &[u64], keep_trace: bool) -> Report {
    crate::ledger::init_runtime();
    let mut w = (f.make)(seed, thorough);
    w.report().keep_trace = keep_trace;
    for (i, s) in steps.iter().enumerate() {
        w.report().step = i + 1;
        w.step(*s);
    }
    w.report().step = steps.len() + 1;
    w.finish();
    std::mem::take(w.report())
}

/// As `run_once`; a panic of the harness itself yields None
pub fn run_guarded(f: &Family, seed: u64, thorough: bool, steps: &[u64], keep: bool) -> Result<Report, String> {
    crate::ledger::QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        run_once(f, seed, thorough, steps, keep)
    }));
    crate::ledger::QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| {
        crate::ledger::LAST_PANIC.with(|p| p.borrow().clone()) + &crate::ledger::LAST_AT.with(|p| p.borrow().clone())
    })
}

pub struct Known {
    pub property: String,
    pub kind: String,
    pub text: String,
}

/// Lines `known: property=<id> kind=<kind> <what fails>`; `fixed:` lines suppress nothing.
pub fn load_known(path: &str) -> Vec<Known> {
    let mut out = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("").to_string();
            let k = it.next().and_then(|x| x.strip_prefix("kind=")).unwrap_or("").to_string();
            out.push(Known { property: p, kind: k, text: it.next().unwrap_or("").to_string() });
        }
    }
    out
}

/// The harness met a state it cannot interpret
pub const PANIC_KIND: &str = "uninterpretable-state";

struct Found {
    family: usize,
    seed: u64,
    v: Violation,
}

fn minimise(f: &Family, seed: u64, thorough: bool, prop: &str, kind: &str, secs: f64) -> Vec<u64> {
    let t0 = Instant::now();
    let full = step_seeds(f, seed, thorough);
    let fails = |steps: &[u64]| -> bool {
        match run_guarded(f, seed, thorough, steps, false) {
            Ok(r) => r.violations.iter().any(|v| v.kind == kind && v.props.iter().any(|p| *p == prop)),
            Err(_) => kind == PANIC_KIND,
        }
    };
    let mut cur = full.clone();
    // the shortest failing prefix first
    if let Ok(r) = run_guarded(f, seed, thorough, &cur, false) {
        if let Some(v) = r.violations.iter().find(|v| v.kind == kind) {
            let n = v.step.min(cur.len());
            if n < cur.len() && fails(&cur[..n]) {
                cur.truncate(n);
            }
        }
    }
    let mut n = 2usize;
    while cur.len() >= 2 && t0.elapsed().as_secs_f64() < secs {
        let chunk = (cur.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() && t0.elapsed().as_secs_f64() < secs {
            let end = (i + chunk).min(cur.len());
            let mut cand = cur[..i].to_vec();
            cand.extend_from_slice(&cur[end..]);
            if cand.len() < cur.len() && fails(&cand) {
                cur = cand;
                reduced = true;
            } else {
                i = end;
            }
        }
        if !reduced {
            if chunk <= 1 {
                break;
            }
            n = (n * 2).min(cur.len());
        } else {
            n = n.max(2).min(cur.len().max(2));
        }
    }
    if cur.len() == 1 && fails(&[]) {
        cur.clear();
    }
    cur
}

pub struct Args {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub evidence: String,
    pub known: String,
    pub replays: String,
    pub time_cap: f64,
    pub only: Option<String>,
    pub scale: f64,
}

pub fn check(families: &[Family], a: &Args, meta: &Value) -> i32 {
    let t0 = Instant::now();
    let prop: &'static str = families
        .iter()
        .flat_map(|f| f.props.iter())
        .find(|p| **p == a.property)
        .copied()
        .unwrap_or_else(|| {
            eprintln!("no family evaluates {}", a.property);
            std::process::exit(3)
        });
    let known: Vec<Known> =
        load_known(&a.known).into_iter().filter(|k| k.property == a.property).collect();
    // Work list: (family, seed), families interleaved so that the time cap cuts evenly
    let mut work: Vec<(f64, usize, u64)> = vec![];
    for (fi, f) in families.iter().enumerate() {
        if !f.props.contains(&prop) {
            continue;
        }
        if let Some(o) = &a.only {
            if o != f.name {
                continue;
            }
        }
        let n = if a.thorough { f.runs.1 } else { f.runs.0 };
        let n = ((n as f64 * a.scale).ceil() as usize).max(1);
        for i in 0..n {
            // names instead of positions: adding a family does not change the seeds of the others
            let name = f.name.bytes().fold(7u64, |h, b| mix(&[h, b as u64]));
            work.push(((i as f64 + 0.5) / n as f64, fi, mix(&[a.seed, name, i as u64])));
        }
    }
    work.sort_by(|x, y| x.partial_cmp(y).unwrap());

    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Acc {
        runs: u64,
        fam_runs: BTreeMap<&'static str, u64>,
        fps: BTreeSet<u64>,
        nontrivial: BTreeSet<u64>,
        faults: BTreeMap<&'static str, u64>,
        probes: BTreeMap<String, u64>,
        hits: u64,
        states: BTreeSet<u64>,
        sim_seconds: u64,
        txs: u64,
        ixs: u64,
        found: Vec<(usize, Found)>,
        known_seen: BTreeMap<String, (usize, u64)>,
        panics: Vec<String>,
        samples: Vec<Value>,
    }
    let acc = Mutex::new(Acc {
        runs: 0,
        fam_runs: BTreeMap::new(),
        fps: BTreeSet::new(),
        nontrivial: BTreeSet::new(),
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        hits: 0,
        states: BTreeSet::new(),
        sim_seconds: 0,
        txs: 0,
        ixs: 0,
        found: vec![],
        known_seen: BTreeMap::new(),
        panics: vec![],
        samples: vec![],
    });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= work.len()
                        || stop.load(Ordering::SeqCst)
                        || t0.elapsed().as_secs_f64() > a.time_cap
                    {
                        break;
                    }
                    let (_, fi, seed) = work[i];
                    let f = &families[fi];
                    let steps = step_seeds(f, seed, a.thorough);
                    let r = run_guarded(f, seed, a.thorough, &steps, false);
                    let mut acc = acc.lock().unwrap();
                    acc.runs += 1;
                    *acc.fam_runs.entry(f.name).or_default() += 1;
                    match r {
                        Err(e) => {
                            // the system is in a state that no accepted history can lead to (set up refused, undecodable account)
                            let v = Violation { props: vec![prop], kind: PANIC_KIND.into(), detail: e.clone(), step: 0 };
                            acc.panics.push(format!("{} seed {seed}: {e}", f.name));
                            acc.found.push((i, Found { family: fi, seed, v }));
                            stop.store(true, Ordering::SeqCst);
                        }
                        Ok(r) => {
                            acc.fps.insert(r.fp);
                            let h = r.hits.get(prop).copied().unwrap_or(0);
                            if h > 0 {
                                acc.nontrivial.insert(r.fp);
                                acc.hits += h;
                            }
                            for (k, v) in r.faults {
                                *acc.faults.entry(k).or_default() += v;
                            }
                            for (k, v) in r.probes {
                                *acc.probes.entry(k).or_default() += v;
                            }
                            acc.states.extend(r.states);
                            acc.sim_seconds += r.sim_seconds;
                            acc.txs += r.txs;
                            acc.ixs += r.ixs;
                            if acc.samples.len() < 3 && h > 0 {
                                acc.samples.push(json!({"family": f.name, "seed": seed, "steps": steps.len(), "transactions": r.txs, "fingerprint": format!("{:016x}", r.fp), "evaluations_of_property": h}));
                            }
                            for v in r.violations {
                                if !v.props.contains(&prop) {
                                    continue;
                                }
                                if known.iter().any(|k| k.kind == v.kind) {
                                    acc.known_seen.entry(v.kind.clone()).or_insert((fi, seed));
                                } else {
                                    acc.found.push((i, Found { family: fi, seed, v }));
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut acc = acc.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    acc.found.sort_by(|x, y| x.0.cmp(&y.0));

    // Determinism of the simulator: the first runs again, fingerprints have to agree
    let mut replayed = 0u64;
    let mut nondet = 0u64;
    for (n, (_, fi, seed)) in work.iter().take(if a.thorough { 16 } else { 4 }).enumerate() {
        let f = &families[*fi];
        let steps = step_seeds(f, *seed, a.thorough);
        if let Ok(r) = run_guarded(f, *seed, a.thorough, &steps, n < 2) {
            replayed += 1;
            if n < 2 {
                let l: Vec<String> = r.trace.iter().map(|l| l.chars().take(180).collect()).collect();
                let keep = |x: &[String]| x.iter().cloned().collect::<Vec<_>>();
                acc.samples.push(json!({"family": f.name, "seed": seed, "trace_lines": l.len(), "trace_start": keep(&l[..l.len().min(12)]), "trace_end": keep(&l[l.len().saturating_sub(12)..])}));
            }
            if acc.found.is_empty() && !acc.fps.contains(&r.fp) && search_s < a.time_cap {
                nondet += 1;
            }
        }
    }
    if nondet > 0 {
        eprintln!("harness error: {nondet} of {replayed} re-executed runs differ");
    }
    for p in acc.panics.iter().take(5) {
        eprintln!("harness panic: {p}");
    }

    for k in &known {
        println!(
            "KNOWN-FINDING: property={} {} [{}{}]",
            a.property,
            k.text,
            k.kind,
            if acc.known_seen.contains_key(&k.kind) { ", observed again in this run" } else { "" }
        );
    }

    let mut code = 0;
    if let Some((_, f)) = acc.found.first() {
        let fam = &families[f.family];
        let steps = minimise(fam, f.seed, a.thorough, prop, &f.v.kind, if a.thorough { 240.0 } else { 40.0 });
        let path = write_replay(fam, f.seed, a, prop, &f.v, &steps);
        println!("{}: {}", f.v.kind, f.v.detail);
        println!("VIOLATION property={} replay={}", a.property, path);
        code = 1;
    } else if nondet > 0 {
        code = 3;
    }

    let hours = search_s / 3600.0;
    if acc.samples.is_empty() {
        if let Some((_, fi, seed)) = work.first() {
            acc.samples.push(json!({"family": families[*fi].name, "seed": seed}));
        }
    }
    let fams: Vec<Value> = families
        .iter()
        .filter(|f| f.props.contains(&prop))
        .map(|f| json!({"family": f.name, "about": f.about, "runs": acc.fam_runs.get(f.name).copied().unwrap_or(0)}))
        .collect();
    let mut m = meta.clone();
    let m = m.as_object_mut().unwrap();
    let ev = json!({
        "property": a.property,
        "tier": if a.thorough { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": acc.runs,
            "distinct_nontrivial": acc.nontrivial.len(),
            "rule": "One evaluation is one simulated execution (family, seed). It is distinct by the fingerprint over its whole trace (all transactions, their results and abstract states) and non-trivial if at least one oracle of this property was evaluated on a case that could have failed.",
            "samples": acc.samples,
            "oracle_evaluations_of_this_property": acc.hits,
            "families": fams,
            "simulated_runs_per_hour": if hours > 0.0 { (acc.runs as f64 / hours) as u64 } else { 0 },
            "seeds_per_hour": if hours > 0.0 { (acc.runs as f64 / hours) as u64 } else { 0 },
            "simulated_seconds": acc.sim_seconds,
            "transactions": acc.txs,
            "instructions": acc.ixs,
            "faults_injected": acc.faults,
            "distinct_traces": acc.fps.len(),
            "distinct_abstract_states": acc.states.len(),
            "state_measure": m.remove("state_measure").unwrap_or(Value::Null),
            "situations_reached": acc.probes,
            "heap_peak_of_an_accepted_instruction": crate::heap::PEAK.load(Ordering::Relaxed),
            "heap_limit": crate::heap::HEAP,
            "real_code": m.remove("real_code").unwrap_or(Value::Null),
            "stubs": m.remove("stubs").unwrap_or(Value::Null),
            "determinism_reruns": replayed,
            "determinism_mismatches": nondet,
            "harness_panics": acc.panics.len(),
            "known_findings_observed": acc.known_seen.keys().collect::<Vec<_>>(),
            "search_wall_s": search_s,
            "worker_threads": threads
        },
        "assumptions": m.remove("assumptions").unwrap_or(json!([])),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": acc.found.len()
    });
    if let Some(d) = std::path::Path::new(&a.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&a.evidence, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs, {} non-trivial distinct, {} txs, {:.1} s, exit {}",
        a.property,
        acc.runs,
        acc.nontrivial.len(),
        acc.txs,
        t0.elapsed().as_secs_f64(),
        code
    );
    code
}

fn write_replay(f: &Family, seed: u64, a: &Args, prop: &str, v: &Violation, steps: &[u64]) -> String {
    let trace = run_guarded(f, seed, a.thorough, steps, true).map(|r| (r.trace, r.fp)).unwrap_or_default();
    let full = step_seeds(f, seed, a.thorough);
    let kept: Vec<usize> =
        steps.iter().map(|s| full.iter().position(|x| x == s).unwrap_or(usize::MAX)).collect();
    let j = json!({
        "property": prop,
        "kind": v.kind,
        "detail": v.detail,
        "family": f.name,
        "seed": seed.to_string(),
        "thorough": a.thorough,
        "original_steps": full.len(),
        "kept_steps": kept,
        "step_seeds": steps.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "fingerprint": format!("{:016x}", trace.1),
        "trace": trace.0,
    });
    let _ = std::fs::create_dir_all(&a.replays);
    let h = v.kind.bytes().fold(mix(&[seed]), |h, b| mix(&[h, b as u64]));
    let path = format!("{}/{}-{:08x}.json", a.replays, prop, h as u32);
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    path
}

pub fn replay(families: &[Family], path: &str) -> i32 {
    let j: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {path}");
            return 3;
        }
    };
    let f = match families.iter().find(|f| Some(f.name) == j["family"].as_str()) {
        Some(f) => f,
        None => return 3,
    };
    let seed: u64 = j["seed"].as_str().unwrap_or("0").parse().unwrap_or(0);
    let thorough = j["thorough"].as_bool().unwrap_or(false);
    let steps: Vec<u64> = j["step_seeds"]
        .as_array()
        .map(|v| v.iter().map(|s| s.as_str().unwrap_or("0").parse().unwrap_or(0)).collect())
        .unwrap_or_default();
    let prop = j["property"].as_str().unwrap_or("");
    let kind = j["kind"].as_str().unwrap_or("");
    match run_guarded(f, seed, thorough, &steps, true) {
        Err(e) => {
            println!("{e}");
            if kind == PANIC_KIND {
                println!("VIOLATION property={prop} replay={path}");
                1
            } else {
                3
            }
        }
        Ok(r) => {
            for l in &r.trace {
                println!("{l}");
            }
            let same = format!("{:016x}", r.fp) == j["fingerprint"].as_str().unwrap_or("");
            println!("fingerprint {}", if same { "identical" } else { "DIFFERS" });
            match r.violations.iter().find(|v| v.kind == kind && v.props.iter().any(|p| *p == prop)) {
                Some(v) => {
                    println!("{}: {}", v.kind, v.detail);
                    println!("VIOLATION property={prop} replay={path}");
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
    }
}

/// Command line shared by the simulators
pub fn main_with(families: &[Family], meta: Value) -> i32 {
    crate::ledger::init_runtime();
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> Option<String> {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned())
    };
    let env = |n: &str| std::env::var(n).ok();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let property = args.get(2).cloned().unwrap_or_default();
            let thorough = opt("--tier").or(env("VERIF_TIER")).map_or(false, |t| t == "thorough");
            let seed = opt("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
            let root = opt("--root").unwrap_or("/verif".into());
            let a = Args {
                evidence: opt("--evidence").unwrap_or(format!("{root}/evidence/{property}.json")),
                known: opt("--known").unwrap_or(format!("{root}/known_findings.txt")),
                replays: opt("--replays").unwrap_or(format!("{root}/replays")),
                time_cap: opt("--time").and_then(|s| s.parse().ok()).unwrap_or(if thorough {
                    3000.0
                } else {
                    150.0
                }),
                only: opt("--family"),
                scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                property,
                thorough,
                seed,
            };
            check(families, &a, &meta)
        }
        Some("replay") => replay(families, &args[2]),
        Some("run") => {
            let f = families.iter().find(|f| f.name == args[2]).expect("family");
            let thorough = opt("--tier").map_or(false, |t| t == "thorough");
            let from: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            let n: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let verbose = args.iter().any(|a| a == "-v");
            let mut probes: BTreeMap<String, u64> = BTreeMap::new();
            let mut kinds: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            let mut hits: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
            let t0 = Instant::now();
            let next = AtomicUsize::new(0);
            let results = Mutex::new(BTreeMap::new());
            std::thread::scope(|s| {
                for _ in 0..(if verbose { 1 } else { 8 }) {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if i >= n {
                            break;
                        }
                        let seed = from + i;
                        let steps = step_seeds(f, seed, thorough);
                        let r = run_guarded(f, seed, thorough, &steps, verbose);
                        results.lock().unwrap().insert(seed, r);
                    }).unwrap();
                }
            });
            let mut states = BTreeSet::new();
            for (seed, r) in results.into_inner().unwrap() {
                match r {
                    Err(e) => println!("seed {seed}: HARNESS PANIC {e}"),
                    Ok(r) => {
                        for l in &r.trace {
                            println!("{l}");
                        }
                        for (k, v) in r.probes {
                            *probes.entry(k).or_default() += v;
                        }
                        for (k, v) in r.hits {
                            *hits.entry(k).or_default() += v;
                        }
                        for (k, v) in r.faults {
                            *faults.entry(k).or_default() += v;
                        }
                        states.extend(r.states);
                        for v in r.violations {
                            let e = kinds.entry(format!("{:?} {}", v.props, v.kind)).or_insert((0, seed, v.detail));
                            e.0 += 1;
                        }
                        if verbose {
                            println!("seed {seed}: fp {:016x} txs {} ixs {}", r.fp, r.txs, r.ixs);
                        }
                    }
                }
            }
            println!("probes {probes:#?}");
            println!("hits {hits:?}");
            println!("faults {faults:?}");
            println!("states {}", states.len());
            for (k, (n, s, d)) in kinds {
                println!("VIOLATION x{n} first seed {s}: {k}: {d}");
            }
            println!("{n} runs in {:.2} s", t0.elapsed().as_secs_f64());
            0
        }
        Some("families") => {
            for f in families {
                println!("{} {:?} {}", f.name, f.props, f.about);
            }
            0
        }
        _ => {
            eprintln!("usage: check <property> | replay <file> | run <family> <seed> [n] [-v] | families");
            3
        }
    }
}
