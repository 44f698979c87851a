//! Runs seeds (each in a process of its own), collects results, minimises failures, writes evidence.
use crate::check::props_text;
use crate::gen::Gen;
use crate::num::*;
use crate::profiles::profile;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Found {
    pub step: usize,
    pub props: u64,
    pub kind: String,
    pub detail: String,
}

/// A complete description of an execution.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trace {
    pub property: String,
    pub seed: u64,
    pub genesis: Genesis,
    pub rates: Rates,
    /// 0: none, 1: replicas in fresh processes re-execute the run
    pub replica: u64,
    pub steps: Vec<Step>,
    #[serde(default)]
    pub violation: Option<Found>,
    /// set when the run did not come to an end by itself: it is regenerated from the seed
    #[serde(default)]
    pub died: Option<String>,
}

#[derive(Serialize, Deserialize, Default)]
struct RunOut {
    stats: Value,
    states: Vec<u64>,
    hit: Option<Found>,
    others: BTreeMap<String, (u64, String)>,
    trace: Option<Value>,
    digest: u64,
    steps: usize,
    compared: u64,
    sample: Vec<String>,
}

fn prop_no(id: &str) -> u8 {
    id.trim_start_matches('C').parse().unwrap_or(0)
}

/// Executes a trace; stops at the first violation of the target.
fn execute(t: &Trace, target: u64, stop: bool) -> Sim {
    let mut s = Sim::new(&t.genesis, t.rates, target);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for st in &t.steps {
            s.step(st);
            if stop && s.hit().is_some() {
                return;
            }
        }
        if t.replica > 0 {
            replicas(&mut s, &t.genesis);
        }
    }));
    s
}

fn found(s: &Sim) -> Option<Found> {
    s.hit().map(|(i, v)| Found { step: *i, props: v.props, kind: v.kind.clone(), detail: v.detail.clone() })
}

#[derive(Serialize, Deserialize)]
struct ReplicaJob {
    genesis: Option<Genesis>,
    node: Option<String>,
    steps: Vec<Step>,
}

fn self_exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn feed(args: &[&str], input: &str, cpu_limit: u64) -> (Option<i32>, String) {
    let mut ch = Command::new(self_exe()).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let mut inp = ch.stdin.take().unwrap();
    let text = input.to_string();
    let wr = std::thread::spawn(move || {
        let _ = inp.write_all(text.as_bytes());
    });
    let mut outp = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = outp.read_to_string(&mut s);
        s
    });
    let pid = ch.id();
    let mut wait = 1u64;
    let code = loop {
        match ch.try_wait().unwrap() {
            Some(st) => break st.code(),
            None => {
                if cpu_seconds(pid) > cpu_limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Some(-99);
                }
                std::thread::sleep(Duration::from_millis(wait));
                wait = (wait * 2).min(20);
            }
        }
    };
    let _ = wr.join();
    (code, rd.join().unwrap_or_default())
}

/// processor time used by a child, so that a busy machine cannot make a run look stuck
fn cpu_seconds(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 14 {
        return 0;
    }
    (f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)) / 100
}

/// Replicas in processes of their own: one from genesis, one from each of up to two crash points.
fn replicas(s: &mut Sim, g: &Genesis) {
    let mine = Outcome { state: s.ch.full_digest(), events: s.events.clone(), answers: answers(&s.ch) };
    let c16 = crate::check::c(&[16]);
    let log = s.log.clone();
    let mut jobs = vec![(0usize, ReplicaJob { genesis: Some(g.clone()), node: None, steps: log.clone() })];
    let n = s.cuts.len();
    let mut pick: Vec<usize> = vec![];
    if n > 0 {
        pick.push(n / 2);
        if n > 1 {
            pick.push(n - 1);
        }
    }
    for i in pick {
        let (at, node) = &s.cuts[i];
        jobs.push((*at, ReplicaJob { genesis: None, node: Some(node.dump()), steps: log[*at..].to_vec() }));
    }
    for (at, j) in jobs {
        let (code, out) = feed(&["replica"], &serde_json::to_string(&j).unwrap(), 100);
        s.stats.eval("replica in a process of its own", 1);
        if at > 0 {
            s.stats.fault("process restart from durable state only", 1);
        }
        let o: Outcome = match serde_json::from_str(&out) {
            Ok(o) => o,
            Err(_) => {
                s.viol.push((s.step_no, crate::check::Violation { props: c16, kind: "replica died".into(), detail: format!("exit {code:?}") }));
                continue;
            }
        };
        let what = if at == 0 { "from genesis".to_string() } else { format!("restarted before transaction {at}") };
        let mut bad = None;
        if let Some(i) = (0..o.events.len()).find(|i| mine.events.get(at + i) != o.events.get(*i)) {
            bad = Some(("replica diverged: messages", format!("a replica {what} emits other messages at logged step {}: {}", at + i, brief(&log[at + i]))));
        } else if o.state != mine.state {
            bad = Some(("replica diverged: state", format!("a replica {what} ends in another state")));
        } else if o.answers != mine.answers {
            bad = Some(("replica diverged: answers", format!("a replica {what} answers queries differently on the same state")));
        }
        if let Some((k, d)) = bad {
            s.viol.push((s.step_no, crate::check::Violation { props: c16, kind: k.into(), detail: d }));
        }
    }
    // the same question twice on the same state
    if answers(&s.ch) != mine.answers {
        s.viol.push((s.step_no, crate::check::Violation { props: c16, kind: "answer changed".into(), detail: "the same queries on the same state answered differently".into() }));
    }
}

pub fn brief(s: &Step) -> String {
    let mut t = match s {
        Step::Tx(t) => format!("{} -> {} {} {:?}{}{}", t.from, t.to, t.msg, t.funds, if t.plans.is_empty() { String::new() } else { format!(" faults {:?}", t.plans) }, match t.gas {
            Some(g) => format!(" gas {g}"),
            None => String::new(),
        }),
        s => format!("{s:?}"),
    };
    if t.len() > 420 {
        let mut k = 420;
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        t.truncate(k);
        t += "…";
    }
    t
}

/// Generates and executes one seed in this process.
fn run_seed(id: &str, seed: u64, stop: bool) -> RunOut {
    let n = prop_no(id);
    let p = profile(n);
    let target = if n == 0 { 0 } else { 1u64 << n };
    let mut g = Gen::new(seed, &p);
    let mut t = Trace { property: id.into(), seed, genesis: g.g.clone(), rates: p.rates, replica: p.replica, steps: vec![], violation: None, died: None };
    let mut s = Sim::new(&g.g, p.rates, target);
    // a panic of the simulator itself (the contract's are caught where it is called) only ends the run early
    let whole = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for st in g.opening() {
            s.step(&st);
            t.steps.push(st);
        }
        for st in g.seeding(&s.ch.model.clone(), &s) {
            s.step(&st);
            t.steps.push(st);
        }
        let end = p.steps.max(t.steps.len() + 60);
        while t.steps.len() < end {
            if stop && s.hit().is_some() {
                break;
            }
            let st = g.next(&s);
            s.step(&st);
            t.steps.push(st);
        }
        if !(stop && s.hit().is_some()) {
            for st in g.closing() {
                s.step(&st);
                t.steps.push(st);
            }
            if p.replica > 0 {
                replicas(&mut s, &t.genesis);
            }
        }
    }));
    if whole.is_err() {
        s.stats.cut_short += 1;
    }
    let hit = found(&s);
    s.stats.calls = s.ch.obs.errs.clone();
    let mut others: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for (i, v) in &s.viol {
        let e = others.entry(format!("{} {}", props_text(v.props), v.kind)).or_insert((0, format!("seed {seed} step {i}: {}", v.detail)));
        e.0 += 1;
    }
    t.violation = hit.clone();
    let mut h = s.ch.full_digest();
    for e in &s.events {
        h = fnv(&e.to_le_bytes(), h);
    }
    let mut sample: Vec<String> = vec![];
    if seed % 16 == 1 {
        sample = t.steps.iter().rev().take(4).map(brief).collect();
    }
    RunOut {
        stats: serde_json::to_value(&s.stats).unwrap(),
        states: s.states.iter().copied().collect(),
        trace: if hit.is_some() || id == "C00" { Some(serde_json::to_value(&t).unwrap()) } else { None },
        hit,
        others,
        digest: h,
        steps: t.steps.len(),
        compared: s.ch.obs.compared,
        sample,
    }
}

fn seed_of(base: u64, n: u8, i: u64) -> u64 {
    fnv(&i.to_le_bytes(), fnv(&[n], fnv(&base.to_le_bytes(), FNV0)))
}

/// Shortens a failing trace; every candidate is executed by a fresh process.
fn minimise(t: &Trace, until: Instant) -> Trace {
    let want = t.violation.clone().unwrap();
    let try_it = |c: &Trace| -> Option<Found> {
        let (_, out) = feed(&["exec"], &serde_json::to_string(c).unwrap(), 60);
        let f: Option<Found> = serde_json::from_str(&out).unwrap_or(None);
        f.filter(|f| f.kind == want.kind)
    };
    let mut best = t.clone();
    if best.replica == 0 {
        best.steps.truncate(want.step + 1);
    }
    match try_it(&best) {
        Some(f) => best.violation = Some(f),
        None => return t.clone(),
    }
    let mut chunk = (best.steps.len() / 2).max(1);
    while chunk >= 1 && Instant::now() < until {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() && Instant::now() < until {
            // eight candidates side by side, the first that still fails is taken
            let starts: Vec<usize> = (0..8).map(|k| i + k * chunk).filter(|s| *s < best.steps.len()).collect();
            let res: Vec<(usize, Option<(Trace, Found)>)> = std::thread::scope(|sc| {
                let hs: Vec<_> = starts
                    .iter()
                    .map(|st| {
                        let (best, try_it) = (&best, &try_it);
                        let st = *st;
                        sc.spawn(move || {
                            let mut c = best.clone();
                            c.steps.drain(st..(st + chunk).min(c.steps.len()));
                            (st, try_it(&c).map(|f| (c, f)))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            match res.into_iter().find_map(|(st, r)| r.map(|x| (st, x))) {
                Some((st, (c, f))) => {
                    best = c;
                    let keep = (f.step + 1).min(best.steps.len());
                    if best.replica == 0 {
                        best.steps.truncate(keep);
                    }
                    best.violation = Some(f);
                    any = true;
                    i = st;
                }
                None => i += 8 * chunk,
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if !any || chunk > 1 {
            chunk = if chunk == 1 { 1 } else { chunk / 2 };
        }
    }
    best
}

#[derive(Deserialize)]
struct Known {
    property: String,
    kind: String,
    contains: String,
    what: String,
}
fn known(id: &str) -> Vec<Known> {
    let f = std::env::var("SIM_KNOWN").unwrap_or("/verif/known_findings.jsonl".into());
    std::fs::read_to_string(f)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| serde_json::from_str::<Known>(l).ok())
        .filter(|k| k.property == id)
        .collect()
}

struct Totals {
    runs: u64,
    stats: BTreeMap<String, u64>,
    most: BTreeMap<String, (u64, Vec<u64>)>,
    faults: BTreeMap<String, u64>,
    evals: BTreeMap<String, u64>,
    calls: BTreeMap<String, u64>,
    sim_ns: u128,
    states: HashSet<u64>,
    digests: HashSet<u64>,
    others: BTreeMap<String, (u64, String)>,
    steps: u64,
    compared: u64,
    samples: Vec<Value>,
    growth: Vec<(u64, usize)>,
}

fn absorb(t: &mut Totals, r: &RunOut, seed: u64) {
    t.runs += 1;
    t.steps += r.steps as u64;
    t.compared += r.compared;
    t.digests.insert(r.digest);
    t.states.extend(r.states.iter());
    for (k, v) in r.stats.as_object().unwrap() {
        match v {
            Value::Number(n) if k == "sim_ns" => t.sim_ns += n.as_u64().unwrap_or(0) as u128,
            Value::Number(n) => *t.stats.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0),
            Value::Object(o) if k == "most" => {
                for (k, v) in o {
                    let v = v.as_u64().unwrap_or(0);
                    let e = t.most.entry(k.clone()).or_insert((v, vec![]));
                    e.0 = e.0.max(v);
                    e.1.push(v);
                }
            }
            Value::Object(o) => {
                let m = match k.as_str() {
                    "faults" => &mut t.faults,
                    "calls" => &mut t.calls,
                    _ => &mut t.evals,
                };
                for (k, v) in o {
                    *m.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                }
            }
            _ => {}
        }
    }
    for (k, v) in &r.others {
        let e = t.others.entry(k.clone()).or_insert((0, v.1.clone()));
        e.0 += v.0;
    }
    if !r.sample.is_empty() && t.samples.len() < 3 {
        t.samples.push(json!({"seed": seed, "last_steps": r.sample}));
    }
    if t.runs.is_power_of_two() {
        t.growth.push((t.runs, t.states.len()));
    }
}

struct Config {
    id: String,
    tier: String,
    base: u64,
    runs: u64,
    cap: u64,
    threads: u64,
    stop: bool,
}

fn sweep(cf: &Config) -> (Totals, Vec<(u64, Result<Box<Trace>, String>)>, f64) {
    let start = Instant::now();
    let n = prop_no(&cf.id);
    let next = AtomicU64::new(0);
    let halt = AtomicBool::new(false);
    let tot = Mutex::new(Totals {
        runs: 0,
        stats: BTreeMap::new(),
        most: BTreeMap::new(),
        faults: BTreeMap::new(),
        evals: BTreeMap::new(),
        calls: BTreeMap::new(),
        sim_ns: 0,
        states: HashSet::new(),
        digests: HashSet::new(),
        others: BTreeMap::new(),
        steps: 0,
        compared: 0,
        samples: vec![],
        growth: vec![],
    });
    let hits = Mutex::new(vec![]);
    let kn = known(&cf.id);
    let printed = Mutex::new(HashSet::new());
    std::thread::scope(|sc| {
        for _ in 0..cf.threads {
            sc.spawn(|| loop {
                if halt.load(Ordering::SeqCst) || start.elapsed().as_secs() >= cf.cap {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cf.runs {
                    return;
                }
                let seed = seed_of(cf.base, n, i);
                let (code, out) = feed(&["seed", &cf.id, &seed.to_string(), if cf.stop { "1" } else { "0" }], "", 180);
                match serde_json::from_str::<RunOut>(&out) {
                    Ok(r) => {
                        let mut t = tot.lock().unwrap();
                        absorb(&mut t, &r, seed);
                        if let Some(h) = &r.hit {
                            if let Some(k) = kn.iter().find(|k| k.kind == h.kind && h.detail.contains(&k.contains)) {
                                if printed.lock().unwrap().insert(k.what.clone()) {
                                    println!("KNOWN-FINDING: property={} {}", cf.id, k.what);
                                }
                                continue;
                            }
                            let tr: Trace = serde_json::from_value(r.trace.clone().unwrap()).unwrap();
                            hits.lock().unwrap().push((i, Ok(Box::new(tr))));
                            if cf.stop {
                                halt.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    Err(_) => {
                        let why = match code {
                            Some(-99) => "did not finish (180 s of processor time)".to_string(),
                            None => "was killed by a signal".to_string(),
                            Some(c) => format!("ended with exit code {c}"),
                        };
                        hits.lock().unwrap().push((i, Err(why)));
                        halt.store(true, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let mut h = hits.into_inner().unwrap();
    h.sort_by_key(|x| x.0);
    (tot.into_inner().unwrap(), h, start.elapsed().as_secs_f64())
}

fn write_evidence(cf: &Config, t: &Totals, wall: f64, total_wall: f64, violations: &[Value], extra: Value) {
    let id = &cf.id;
    let rel: BTreeMap<&String, &u64> = t.evals.iter().collect();
    let v = json!({
        "property": id,
        "tier": cf.tier,
        "seed": cf.base,
        "level": "exploration",
        "wall_s": total_wall,
        "violations": violations,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.digests.len(),
            "rule": "One evaluation is one simulated run: a seed draws the deployment (tokens, users, tiers, magnitudes), then a scheduler interleaves the clients' transactions, delays, duplicates and drops them, moves the clock and injects faults, with every oracle on after each call. Non-trivial and distinct: the hash over the final state of all contracts and every emitted message differs from that of every other run.",
            "samples": t.samples,
            "planned_runs": cf.runs,
            "runs_per_hour": if wall > 0.0 { (t.runs as f64 * 3600.0 / wall) as u64 } else { 0 },
            "steps": t.steps,
            "simulated_seconds": (t.sim_ns / 1_000_000_000) as u64,
            "transactions": t.stats,
            "largest_reached": t.most.iter().map(|(k, v)| { let mut x = v.1.clone(); x.sort(); (k.clone(), json!({"median_over_runs": x[x.len() / 2], "p90": x[x.len() * 9 / 10], "p99": x[x.len() * 99 / 100], "max": v.0})) }).collect::<BTreeMap<_, _>>(),
            "calls_by_outcome": t.calls,
            "faults_injected": t.faults,
            "oracle_evaluations": rel,
            "observations_compared_with_model": t.compared,
            "distinct_states": t.states.len(),
            "distinct_states_measure": "hash of (kind of call, outcome, per swap: ticks crossed, log2 of steps, direction, stopped on a tick; per pool: number of ticks, zero liquidity, current tick initialized, price on its tick; positions; tiers)",
            "distinct_states_after_runs": t.growth,
            "real_code": ["contracts/oraiswap-v3: instantiate, execute, query, migrate entry points and everything below", "packages/decimal", "wasm SDK (client oracles)", "cw20-base token contract"],
            "stubs": ["chain host: storage with undo log, bank, message dispatch, block clock, gas by storage access", "proxy, receiver and hostile token wrapper contracts", "addr validation"],
            "other_properties_seen": t.others.len(),
            "extra": extra,
        },
        "assumptions": [
            "a failed transaction is rolled back by the chain (simulated host provides it)",
            "the reference model in /verif/sim/src/model.rs states the intended behaviour",
            "rounding helpers of the decimal types and the tick/price tables (N01, N02) are checked only as far as the runs use them"
        ],
    });
    let dir = std::env::var("SIM_EVIDENCE").unwrap_or("/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&v).unwrap()).expect("write evidence");
}

fn tier_config(id: &str, tier: &str) -> Config {
    let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (runs, cap) = crate::profiles::budget(prop_no(id), tier);
    let threads = std::env::var("SIM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    Config { id: id.into(), tier: tier.into(), base, runs, cap, threads, stop: true }
}

fn check_cmd(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let cf = tier_config(id, tier);
    let (t, hits, wall) = sweep(&cf);
    let mut code = 0;
    let mut viols = vec![];
    let dir = std::env::var("SIM_WORK").unwrap_or("/verif/work".into());
    if let Some((i, h)) = hits.first() {
        code = 1;
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-replay.json");
        match h {
            Ok(tr) => {
                let m = minimise(tr, Instant::now() + Duration::from_secs(60));
                std::fs::write(&path, serde_json::to_string_pretty(&m).unwrap()).unwrap();
                let v = m.violation.clone().unwrap();
                println!("run {i} seed {} step {}: {} [{}] {}", tr.seed, tr.violation.as_ref().unwrap().step, v.kind, props_text(v.props), v.detail);
                println!("minimised from {} to {} steps:", tr.steps.len(), m.steps.len());
                for s in &m.steps {
                    println!("  {}", brief(s));
                }
                viols.push(json!({"seed": tr.seed, "kind": v.kind, "detail": v.detail, "replay": path}));
            }
            Err(why) => {
                let seed = seed_of(cf.base, prop_no(id), *i);
                let p = profile(prop_no(id));
                let g = Gen::new(seed, &p);
                let tr = Trace { property: id.into(), seed, genesis: g.g.clone(), rates: p.rates, replica: p.replica, steps: vec![], violation: None, died: Some(why.clone()) };
                std::fs::write(&path, serde_json::to_string_pretty(&tr).unwrap()).unwrap();
                println!("run {i} seed {seed} {why}");
                viols.push(json!({"seed": seed, "kind": why, "replay": path}));
            }
        }
        println!("VIOLATION property={id} replay={path}");
    }
    // a few seeds a second time: the simulation itself must repeat exactly
    let mut repeated = 0;
    if code == 0 {
        for i in 0..3.min(t.runs) {
            let seed = seed_of(cf.base, prop_no(id), i);
            let (_, a) = feed(&["seed", id, &seed.to_string(), "1"], "", 180);
            let (_, b) = feed(&["seed", id, &seed.to_string(), "1"], "", 180);
            let (a, b): (RunOut, RunOut) = (serde_json::from_str(&a).unwrap_or_default(), serde_json::from_str(&b).unwrap_or_default());
            if a.digest == b.digest && a.steps == b.steps && t.digests.contains(&a.digest) {
                repeated += 1;
            }
        }
    }
    write_evidence(&cf, &t, wall, t0.elapsed().as_secs_f64(), &viols, json!({"seeds_executed_again_with_identical_outcome": repeated}));
    println!("{id} {tier}: {} runs, {} steps, {} distinct states, {:.0} s", t.runs, t.steps, t.states.len(), wall);
    code
}

fn read_stdin() -> String {
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    s
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("check") => check_cmd(&args[1], args.get(2).map(|s| s.as_str()).unwrap_or("quick")),
        Some("seed") => {
            let r = run_seed(&args[1], args[2].parse().unwrap(), args.get(3).map(|s| s == "1").unwrap_or(true));
            println!("{}", serde_json::to_string(&r).unwrap());
            0
        }
        Some("exec") => {
            let t: Trace = serde_json::from_str(&read_stdin()).unwrap();
            let s = execute(&t, 1 << prop_no(&t.property), true);
            println!("{}", serde_json::to_string(&found(&s)).unwrap());
            0
        }
        Some("replica") => {
            let j: ReplicaJob = serde_json::from_str(&read_stdin()).unwrap();
            let node = match (&j.genesis, &j.node) {
                (Some(g), _) => genesis_chain(g).n,
                (_, Some(n)) => crate::chain::Node::load(n),
                _ => return 2,
            };
            println!("{}", serde_json::to_string(&replica(node, &j.steps)).unwrap());
            0
        }
        Some("replay") => {
            let t: Trace = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("replay file");
            if let Some(why) = &t.died {
                let (_, out) = feed(&["seed", &t.property, &t.seed.to_string(), "1"], "", 180);
                if serde_json::from_str::<RunOut>(&out).is_err() {
                    println!("reproduced: seed {} {why}", t.seed);
                    println!("VIOLATION property={} replay={}", t.property, args[1]);
                    return 1;
                }
                println!("not reproduced");
                return 0;
            }
            let s = execute(&t, 1 << prop_no(&t.property), true);
            match found(&s) {
                Some(f) => {
                    println!("step {}: {} [{}] {}", f.step, f.kind, props_text(f.props), f.detail);
                    println!("{}", if Some(&f) == t.violation.as_ref() { "identical to the recorded violation" } else { "differs from the recorded violation" });
                    println!("VIOLATION property={} replay={}", t.property, args[1]);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        // soak <id> <runs> [base]: run everything to the end and list all violations
        Some("soak") => {
            let cf = Config {
                id: args[1].clone(),
                tier: "thorough".into(),
                base: args.get(3).and_then(|s| s.parse().ok()).unwrap_or(77),
                runs: args[2].parse().unwrap(),
                cap: 100_000,
                threads: 8,
                stop: false,
            };
            let (t, hits, wall) = sweep(&cf);
            println!("{} runs {:.1} s, {} steps, {} states, stats {:?}", t.runs, wall, t.steps, t.states.len(), t.stats);
            println!("faults {:?}", t.faults);
            println!("evals {:?}", t.evals);
            println!("calls {:?}", t.calls);
            for h in hits.iter().filter(|h| h.1.is_err()) {
                println!("DIED {} {:?}", seed_of(cf.base, prop_no(&cf.id), h.0), h.1.as_ref().err());
            }
            for (k, (n, d)) in &t.others {
                println!("{n:6} {k}\n        {}", d.chars().take(700).collect::<String>());
            }
            0
        }
        // show <id> <seed>: print the steps and all violations
        Some("show") => {
            let n = prop_no(&args[1]);
            let mut p = profile(n);
            if std::env::var("SIM_BOOKS").is_ok() {
                p.rates.books = 100;
            }
            let mut g = Gen::new(args[2].parse().unwrap(), &p);
            let mut s = Sim::new(&g.g, p.rates, 0);
            println!("{:?}", g.g);
            let mut k = 0;
            let mut todo = g.opening();
            todo.reverse();
            let mut seeded = false;
            while s.step_no < p.steps {
                if todo.is_empty() && !seeded {
                    todo = g.seeding(&s.ch.model.clone(), &s);
                    todo.reverse();
                    seeded = true;
                }
                let st = todo.pop().unwrap_or_else(|| g.next(&s));
                s.step(&st);
                println!("{:3} {}", s.step_no - 1, brief(&st));
                while k < s.viol.len() {
                    let v = &s.viol[k].1;
                    println!("   !! {} {} {}", props_text(v.props), v.kind, v.detail);
                    k += 1;
                }
            }
            0
        }
        _ => {
            eprintln!("usage: sim check <id> <tier> | replay <file> | soak <id> <runs> [base] | show <id> <seed>");
            2
        }
    }
}
