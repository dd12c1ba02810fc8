//! Many simulated runs: the search, its evidence, and replay.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

use crate::exec::{self, Opts, Outcome, Running, Script};
use crate::gen::{self, plan_for};
use crate::json::{Js, J};
use crate::kernel::{FAULT_NAMES, NF, SEC};
use crate::plan::{Kind, Plan};
use crate::shrink;

/// Up to `jobs` runs at a time, each in a process of its own.
pub struct Pool {
    jobs: usize,
    running: Vec<(u64, Running, Instant)>,
}
const WALL_GUARD: Duration = Duration::from_secs(200);

impl Pool {
    pub fn new(jobs: usize) -> Pool {
        Pool { jobs, running: Vec::new() }
    }
    pub fn full(&self) -> bool {
        self.running.len() >= self.jobs
    }
    pub fn is_empty(&self) -> bool {
        self.running.is_empty()
    }
    pub fn submit(&mut self, id: u64, plan: &Plan, script: Option<&Script>, opts: Opts) {
        self.running.push((id, exec::spawn(plan, script, opts), Instant::now()));
    }
    /// The next run to end.
    pub fn wait(&mut self) -> Option<(u64, Outcome)> {
        if self.running.is_empty() {
            return None;
        }
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let mut fds: Vec<libc::pollfd> = self.running.iter().map(|r| libc::pollfd { fd: r.1.fd, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, 1000) };
            for i in 0..self.running.len() {
                if fds[i].revents != 0 {
                    let n = unsafe { libc::read(fds[i].fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
                    if n > 0 {
                        self.running[i].1.buf.extend_from_slice(&buf[..n as usize]);
                    } else {
                        let (id, r, _) = self.running.remove(i);
                        return Some((id, exec::finish(r)));
                    }
                } else if self.running[i].2.elapsed() > WALL_GUARD {
                    let (id, r, _) = self.running.remove(i);
                    unsafe { libc::kill(r.pid, libc::SIGKILL) };
                    let mut o = exec::finish(r);
                    o.harness_error = None;
                    o.violations = vec![format!("stuck: the run took more than {} s of real time without reaching a scheduling point", WALL_GUARD.as_secs())];
                    return Some((id, o));
                }
            }
        }
    }
    pub fn kill(&mut self, pred: impl Fn(u64) -> bool) {
        let mut keep = Vec::new();
        for (id, r, t) in self.running.drain(..) {
            if pred(id) {
                unsafe { libc::kill(r.pid, libc::SIGKILL) };
                let _ = exec::finish(r);
            } else {
                keep.push((id, r, t));
            }
        }
        self.running = keep;
    }
}

pub fn jobs(n: u64) -> usize {
    if n > 0 {
        n as usize
    } else {
        std::thread::available_parallelism().map_or(4, |x| x.get())
    }
}

/// (runs, wall-clock cap in seconds)
fn budget(prop: &str, deep: bool) -> (u64, u64) {
    let q = match prop {
        "C12" | "C13" => 4_000,
        "C16" | "C17" | "C21" | "C23" => 9_000,
        _ => 30_000,
    };
    if deep {
        (q * 500, 1500)
    } else {
        (q, 40)
    }
}

const RULE: &str = "One case is one simulated run: a seed gives a plan (endpoints, payloads, transports, faults, attacker, clock) and decides every scheduling, delivery and fault choice. Cases are made independently from (VERIF_SEED, property, run index). A case counts as non-trivial if the scheduler switched between threads or tasks, or at least one fault or refused call fired, and the endpoints performed at least one operation; two cases are distinct if the hash over all their scheduling decisions, fault decisions and observed results differs.";

fn known_patterns(file: Option<&str>, prop: &str) -> Vec<(String, String)> {
    // known: property=<id> match=<text of the violation> ## <what fails>
    let Some(t) = file.and_then(|f| std::fs::read_to_string(f).ok()) else { return Vec::new() };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={prop} match=")))
        .map(|l| {
            let (m, w) = l.split_once(" ## ").unwrap_or((l, l));
            (m.to_string(), w.to_string())
        })
        .collect()
}

fn components(p: &Plan, seen: &mut BTreeMap<String, u64>) {
    match p.scen.as_str() {
        "stats" => *seen.entry("AtomicTrafficStats (real)".into()).or_default() += 1,
        "refused" => *seen.entry("InboundCipher/OutboundCipher (real) against reference cipher".into()).or_default() += 1,
        _ => {
            for e in &p.eps {
                let n = match e.kind {
                    Kind::Sync => "bip324::io (real)",
                    Kind::Async => "bip324::futures on tokio current-thread runtime (real)",
                    Kind::Sans => "bip324 sans-I/O state machine driven by harness I/O (real)",
                    Kind::ShSync => "bip324_traffic::io with worker thread (real)",
                    Kind::ShAsync => "bip324_traffic::futures with worker task (real)",
                    Kind::Ref => "reference peer (independent implementation, harness)",
                    Kind::Mirror => "mirror peer (harness)",
                };
                *seen.entry(n.into()).or_default() += 1;
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
/// The hooks set the counters of the ciphers. Code may come to keep its counts differently, so they are
/// used only if sessions made a few packets old by them behave like sessions of that age; ages that
/// packets can reach in a run (a defect there is found without the hooks).
pub fn try_hooks(prop: &str) {
    if !gen::HOOKS.load(Ordering::Relaxed) || !matches!(prop, "C18" | "C20") {
        return;
    }
    let mut n = 0;
    for i in 0.. {
        let mut p = plan_for("C20", 4711, i, false);
        if p.eps[0].age_out == 0 {
            continue;
        }
        for ep in &mut p.eps {
            (ep.clones, ep.winner_after) = (false, None);
        }
        let ages = [100, 223, 224, 300, 700];
        (p.eps[0].age_out, p.eps[0].age_in) = (ages[n % 5], ages[(n + 2) % 5]);
        (p.eps[1].age_in, p.eps[1].age_out) = (p.eps[0].age_out, p.eps[0].age_in);
        let o = exec::run(&p, None, Opts { verbose: false, keep_record: false });
        if !o.violations.is_empty() || o.harness_error.is_some() {
            println!("note: the hooks do not fit the code, sessions start at age 0 ({})", o.violations.first().cloned().unwrap_or_default());
            gen::HOOKS.store(false, Ordering::Relaxed);
            return;
        }
        n += 1;
        if n == 20 {
            return;
        }
    }
}

pub fn check(prop: &str, deep: bool, seed: u64, runs: u64, njobs: u64, out: Option<String>, rdir: Option<String>, known: Option<String>) -> i32 {
    let t0 = Instant::now();
    if let Err(e) = crate::crypto::selftest().and_then(|_| crate::keys::selftest()) {
        crate::harness_error(&e);
    }
    try_hooks(prop);
    let (mut total, cap) = budget(prop, deep);
    if runs > 0 {
        total = runs;
    }
    let known = known_patterns(known.as_deref(), prop);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut pool = Pool::new(jobs(njobs));
    let opts = Opts { verbose: false, keep_record: false };
    let mut next = 0u64;
    let mut done = 0u64;
    let mut faults = vec![0u64; NF];
    let mut fault_runs = vec![0u64; NF];
    let (mut steps, mut switches, mut decisions, mut nonzero, mut ops) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut sim_ns: u128 = 0;
    let mut traces: HashSet<u64> = HashSet::new();
    let mut all_traces: BTreeMap<u64, u64> = BTreeMap::new();
    let mut bad: Option<(u64, Outcome)> = None;
    let mut nviol = 0u64;
    let mut comps = BTreeMap::new();
    let mut rechecks = (0u64, 0u64);
    let mut capped = false;
    let recheck_every = if deep { 200 } else { 40 };
    const RE: u64 = 1 << 60;
    let mut requeue: Vec<u64> = Vec::new();
    loop {
        while !pool.full() && bad.is_none() {
            if let Some(i) = requeue.pop() {
                pool.submit(i | RE, &plan_for(prop, seed, i, deep), None, opts);
                continue;
            }
            if next >= total {
                break;
            }
            if t0.elapsed().as_secs() >= cap {
                capped = true;
                break;
            }
            pool.submit(next, &plan_for(prop, seed, next, deep), None, opts);
            next += 1;
        }
        let Some((id, o)) = pool.wait() else { break };
        if let Some(e) = &o.harness_error {
            pool.kill(|_| true);
            crate::harness_error(&format!("property={prop} seed={seed} run={}: {e}", id & !RE));
        }
        if id & RE != 0 {
            rechecks.0 += 1;
            if all_traces.get(&(id & !RE)) != Some(&o.trace) {
                rechecks.1 += 1;
            }
            continue;
        }
        done += 1;
        let plan = plan_for(prop, seed, id, deep);
        components(&plan, &mut comps);
        for i in 0..NF {
            faults[i] += o.faults.get(i).copied().unwrap_or(0);
            fault_runs[i] += (o.faults.get(i).copied().unwrap_or(0) > 0) as u64;
        }
        steps += o.steps;
        switches += o.switches;
        decisions += o.decisions;
        nonzero += o.nonzero;
        ops += o.ops;
        sim_ns += o.sim_ns as u128;
        let nontrivial = o.switches > 1 || o.faults.iter().any(|f| *f > 0);
        if nontrivial && (o.ops > 0 || plan.scen != "world") {
            traces.insert(o.trace);
        }
        if id % recheck_every == 0 {
            all_traces.insert(id, o.trace);
            requeue.push(id);
        }
        let mut fresh: Vec<String> = Vec::new();
        for v in &o.violations {
            match known.iter().find(|k| v.contains(&k.0)) {
                Some(k) => *known_hits.entry(k.1.clone()).or_default() += 1,
                None => fresh.push(v.clone()),
            }
        }
        if !fresh.is_empty() {
            nviol += 1;
            let o = Outcome { violations: fresh, ..o };
            if bad.as_ref().is_none_or(|b| id < b.0) {
                pool.kill(|x| x > id);
                bad = Some((id, o));
            }
        }
    }
    for k in known_hits.keys() {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = Vec::new();
    for i in 0..3u64.min(done) {
        let p = plan_for(prop, seed, i, deep);
        samples.push(J::obj().with("run", i).with("plan", p.to_j()));
    }
    let hours = (wall / 3600.0).max(1e-9);
    let mut fj = J::obj();
    for i in 0..NF {
        if faults[i] > 0 {
            fj.set(FAULT_NAMES[i], J::obj().with("injected", faults[i]).with("runs", fault_runs[i]));
        }
    }
    let mut cj = J::obj();
    for (k, v) in &comps {
        cj.set(k, *v);
    }
    let cov = J::obj()
        .with("evaluations", done)
        .with("distinct_nontrivial", traces.len())
        .with("rule", RULE)
        .with("samples", J::Arr(samples))
        .with("first_seed_index", 0u64)
        .with("runs_and_seeds_per_hour", (done as f64 / hours) as u64)
        .with("simulated_seconds", (sim_ns / SEC as u128) as u64)
        .with("scheduler_steps", steps)
        .with("context_switches", switches)
        .with("decisions", decisions)
        .with("non_default_decisions", nonzero)
        .with("application_operations", ops)
        .with("faults", fj)
        .with("components", cj)
        .with("stubbed", "network, OS clock, OS entropy, thread and task scheduling, sleeping and futex waits are simulated; allocator is observed; everything inside the crates under test, std, tokio and secp256k1 runs unmodified")
        .with("replayed_for_determinism", rechecks.0)
        .with("determinism_mismatches", rechecks.1)
        .with("hooks_enabled", gen::HOOKS.load(Ordering::Relaxed))
        .with("stopped_by_time_cap", capped)
        .with("known_findings_hit", known_hits.values().sum::<u64>());
    let ev = J::obj()
        .with("property", prop)
        .with("tier", if deep { "thorough" } else { "quick" })
        .with("seed", seed)
        .with("level", "exploration")
        .with("coverage", cov)
        .with(
            "assumptions",
            J::Arr(vec![
                J::s("a run is sequentially consistent between scheduling points (futex, sleep, clock, entropy, transport call, allocation, and for the statistics single instructions)"),
                J::s("secp256k1, tokio and std behave as they do on this machine"),
                J::s("the transport buffers at least one handshake flight"),
            ]),
        )
        .with("wall_s", wall)
        .with("violations", nviol);
    if let Some(f) = &out {
        if std::fs::write(f, ev.pretty()).is_err() {
            crate::harness_error("cannot write the evidence file");
        }
    }
    println!(
        "property={prop} runs={done} distinct={} sim_s={} wall_s={wall:.1} switches={switches} decisions={nonzero}/{decisions} rechecked={}/{} mismatches",
        traces.len(),
        sim_ns / SEC as u128,
        rechecks.0,
        rechecks.1
    );
    let Some((id, o)) = bad else { return 0 };
    for v in &o.violations {
        println!("run {id}: {v}");
    }
    let dir = rdir.unwrap_or_else(|| ".".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{seed}-{id}.json");
    let plan = plan_for(prop, seed, id, deep);
    let rep = shrink::minimise(&plan, &o, jobs(njobs), if deep { 120 } else { 45 });
    if std::fs::write(&path, rep.pretty()).is_err() {
        crate::harness_error("cannot write the replay file");
    }
    println!("VIOLATION property={prop} replay={path}");
    1
}

pub fn script_to_j(s: &Script) -> J {
    s.iter().map(|((a, b), v)| (*a, *b, *v)).collect::<Vec<(u32, u32, u32)>>().to_j()
}

pub fn replay(file: &str, verbose: bool) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else { crate::harness_error("cannot read the replay file") };
    let j = J::parse(&t).unwrap_or_else(|e| crate::harness_error(&e));
    let plan = j.get("plan").and_then(Plan::from_j).unwrap_or_else(|| crate::harness_error("bad plan"));
    let script: Option<Script> = match j.get("script") {
        Some(J::Null) | None => None,
        Some(x) => Some(
            <Vec<(u32, u32, u32)>>::from_j(x).unwrap_or_else(|| crate::harness_error("bad script")).into_iter().map(|(a, b, c)| ((a, b), c)).collect(),
        ),
    };
    let o = exec::run(&plan, script.as_ref(), Opts { verbose, keep_record: true });
    if let Some(e) = &o.harness_error {
        crate::harness_error(e);
    }
    for l in &o.log {
        println!("{l}");
    }
    for v in &o.violations {
        println!("{v}");
    }
    let want = j.get("trace").map_or(0, |x| x.int() as u64);
    println!("trace {:016x}, recorded {:016x}: {}", o.trace, want, if o.trace == want { "identical" } else { "different" });
    if o.violations.is_empty() {
        println!("no violation");
        0
    } else {
        println!("VIOLATION property={} replay={file}", plan.prop);
        1
    }
}

pub fn one(prop: &str, deep: bool, seed: u64, idx: u64, verbose: bool) -> i32 {
    try_hooks(prop);
    let plan = plan_for(prop, seed, idx, deep);
    println!("{}", plan.to_j().pretty());
    let t = Instant::now();
    let o = exec::run(&plan, None, Opts { verbose, keep_record: false });
    for l in &o.log {
        println!("{l}");
    }
    println!(
        "steps {} switches {} decisions {}/{} sim {} ms ops {} trace {:016x} wall {} ms",
        o.steps,
        o.switches,
        o.nonzero,
        o.decisions,
        o.sim_ns / 1_000_000,
        o.ops,
        o.trace,
        t.elapsed().as_millis()
    );
    for i in 0..NF {
        if o.faults[i] > 0 {
            print!("{}={} ", FAULT_NAMES[i], o.faults[i]);
        }
    }
    println!();
    if let Some(e) = &o.harness_error {
        println!("HARNESS-ERROR {e}");
        return 2;
    }
    for v in &o.violations {
        println!("{v}");
    }
    (!o.violations.is_empty()) as i32
}

/// Every run twice; any difference in the trace is a defect of the simulator.
pub fn determinism(prop: &str, deep: bool, seed: u64, runs: u64) -> i32 {
    try_hooks(prop);
    let mut pool = Pool::new(jobs(0));
    let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
    let mut bad = 0;
    let opts = Opts { verbose: false, keep_record: false };
    let mut q: Vec<u64> = (0..runs).rev().flat_map(|i| [i, i]).collect();
    loop {
        while !pool.full() {
            let Some(i) = q.pop() else { break };
            pool.submit(i, &plan_for(prop, seed, i, deep), None, opts);
        }
        let Some((i, o)) = pool.wait() else { break };
        if let Some(e) = &o.harness_error {
            println!("run {i}: HARNESS-ERROR {e}");
            bad += 1;
        }
        match seen.get(&i) {
            None => {
                seen.insert(i, o.trace);
            }
            Some(t) if *t != o.trace => {
                println!("{prop} run {i} differs: {t:016x} {:016x}", o.trace);
                bad += 1;
            }
            _ => {}
        }
    }
    println!("{prop}: {runs} runs, {bad} differences");
    (bad > 0) as i32
}
