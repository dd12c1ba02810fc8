//! One simulated run per child process: fork, simulate, judge, report through a pipe.

use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::hist::{self, logs, Res, What};
use crate::json::{Js, J};
use crate::kernel::{self, kern, Abort, Knobs, MS, NF, SEC};
use crate::pipe::{pipes, Pipe};
use crate::plan::*;
use crate::{oracle, scen, world};

pub type Script = BTreeMap<(u32, u32), u32>;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<String>,
    pub trace: u64,
    pub steps: u64,
    pub switches: u64,
    pub decisions: u64,
    pub nonzero: u64,
    pub sim_ns: u64,
    pub faults: Vec<u64>,
    pub record: Vec<(u32, u32, u32)>,
    pub log: Vec<String>,
    pub harness_error: Option<String>,
    pub extra: Vec<String>,
    pub ops: u64,
}

impl Outcome {
    fn to_j(&self) -> J {
        J::obj()
            .with("v", self.violations.to_j())
            .with("trace", J::Int(self.trace as i128))
            .with("steps", self.steps)
            .with("switches", self.switches)
            .with("decisions", self.decisions)
            .with("nonzero", self.nonzero)
            .with("sim_ns", self.sim_ns)
            .with("faults", self.faults.to_j())
            .with("record", self.record.to_j())
            .with("log", self.log.to_j())
            .with("err", self.harness_error.to_j())
            .with("extra", self.extra.to_j())
            .with("ops", self.ops)
    }
    fn from_j(j: &J) -> Option<Outcome> {
        Some(Outcome {
            violations: Js::from_j(j.get("v")?)?,
            trace: j.get("trace")?.int() as u64,
            steps: j.get("steps")?.int() as u64,
            switches: j.get("switches")?.int() as u64,
            decisions: j.get("decisions")?.int() as u64,
            nonzero: j.get("nonzero")?.int() as u64,
            sim_ns: j.get("sim_ns")?.int() as u64,
            faults: Js::from_j(j.get("faults")?)?,
            record: Js::from_j(j.get("record")?)?,
            log: Js::from_j(j.get("log")?)?,
            harness_error: Js::from_j(j.get("err")?)?,
            extra: Js::from_j(j.get("extra")?)?,
            ops: j.get("ops")?.int() as u64,
        })
    }
    pub fn class(&self) -> Option<String> {
        self.violations.first().map(|v| class_of(v))
    }
}
pub fn class_of(v: &str) -> String {
    v.split(':').next().unwrap_or("").to_string()
}

static mut OUT_FD: i32 = -1;

fn write_all(fd: i32, b: &[u8]) {
    let mut p = 0;
    while p < b.len() {
        let n = unsafe { libc::write(fd, b[p..].as_ptr() as *const libc::c_void, b.len() - p) };
        if n <= 0 {
            break;
        }
        p += n as usize;
    }
}

fn report(o: &Outcome) -> ! {
    unsafe {
        write_all(OUT_FD, o.to_j().dump().as_bytes());
        libc::_exit(0)
    }
}

pub fn in_child() -> bool {
    unsafe { OUT_FD >= 0 }
}
/// A defect of the harness itself, found in a run.
pub fn child_error(m: &str) -> ! {
    kernel::stop();
    report(&Outcome { harness_error: Some(m.to_string()), faults: vec![0; NF], ..Default::default() })
}

/// Seconds of processor time for one run; runs need a fraction of a second, the largest a few.
const CPU_LIMIT: u64 = 40;

pub struct Running {
    pub pid: i32,
    pub fd: i32,
    pub buf: Vec<u8>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub verbose: bool,
    pub keep_record: bool,
}

pub fn spawn(plan: &Plan, script: Option<&Script>, opts: Opts) -> Running {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            crate::harness_error("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            crate::harness_error("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            if OUT_FD >= 0 {
                libc::close(OUT_FD);
            }
            OUT_FD = fds[1];
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            child(plan.clone(), script.cloned(), opts);
        }
        libc::close(fds[1]);
        Running { pid, fd: fds[0], buf: Vec::new() }
    }
}

pub fn finish(mut r: Running) -> Outcome {
    let mut f = unsafe { std::fs::File::from_raw_fd(r.fd) };
    let _ = f.read_to_end(&mut r.buf);
    drop(f);
    let mut st = 0;
    unsafe { libc::waitpid(r.pid, &mut st, 0) };
    if let Ok(t) = std::str::from_utf8(&r.buf) {
        if let Some(o) = J::parse(t).ok().as_ref().and_then(Outcome::from_j) {
            return o;
        }
    }
    let mut o = Outcome { faults: vec![0; NF], ..Default::default() };
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        match s {
            libc::SIGXCPU => o.violations.push("cpu: the run used up its processor time without reaching a scheduling point".into()),
            libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => {
                o.violations.push(format!("process-died: the process running the endpoints was killed by signal {s}"))
            }
            _ => o.harness_error = Some(format!("run killed by signal {s}")),
        }
    } else {
        o.harness_error = Some(format!("run ended with status {st} and no report"));
    }
    o
}

pub fn run(plan: &Plan, script: Option<&Script>, opts: Opts) -> Outcome {
    finish(spawn(plan, script, opts))
}

fn sub_script(script: Option<&Script>, i: u32) -> Option<Script> {
    script.map(|s| s.iter().filter(|((a, _), _)| a >> 16 == i).map(|((a, b), v)| ((a & 0xffff, *b), *v)).collect())
}
fn merge(all: &mut Outcome, o: &Outcome, i: u32) {
    if all.faults.is_empty() {
        all.faults = vec![0; NF];
    }
    all.trace = crate::prng::mix(all.trace ^ o.trace);
    all.steps += o.steps;
    all.switches += o.switches;
    all.decisions += o.decisions;
    all.nonzero += o.nonzero;
    all.sim_ns += o.sim_ns;
    all.ops += o.ops;
    for (a, b) in all.faults.iter_mut().zip(&o.faults) {
        *a += b;
    }
    all.record.extend(o.record.iter().map(|(s, c, v)| (s | (i << 16), *c, *v)));
    all.log.push(format!("---- part {i}"));
    all.log.extend(o.log.iter().cloned());
    if all.harness_error.is_none() {
        all.harness_error = o.harness_error.clone();
    }
}

/// Runs made of several simulations that are compared with each other.
fn composite(plan: &Plan, script: Option<&Script>, opts: Opts) -> Option<Outcome> {
    let mut all = Outcome::default();
    match plan.scen.as_str() {
        "twin" => {
            let mut ex: Vec<(Kind, Outcome)> = Vec::new();
            for (i, kind) in [Kind::Sync, Kind::Async, Kind::Sans].into_iter().enumerate() {
                let mut p = plan.clone();
                p.scen = "world".into();
                p.flags |= 1 << 40;
                p.eps[0].kind = kind;
                let o = run(&p, sub_script(script, i as u32).as_ref(), Opts { keep_record: true, ..opts });
                merge(&mut all, &o, i as u32);
                for v in &o.violations {
                    all.violations.push(format!("{v} [{kind:?}]"));
                }
                ex.push((kind, o));
            }
            if all.violations.is_empty() && all.harness_error.is_none() {
                let a = &ex[0].1.extra;
                for (k, o) in &ex[1..] {
                    let b = &o.extra;
                    let big = plan.eps[1].hostile.as_ref().is_some_and(|h| matches!(h.kind, HK::HsBig | HK::SessBig));
                    if *k == Kind::Sans && big {
                        // Without an I/O interface the caller decides which lengths are too big.
                        continue;
                    }
                    if a.first() != b.first() && plan.pipes.iter().any(|p| !p.tampers.is_empty()) {
                        // Different ephemeral keys: the same modification hits different bytes.
                        continue;
                    }
                    for (x, y) in a.iter().zip(b).skip(1) {
                        // How much was written before the first flush is not for this property to say.
                        let flush = plan.pipes[0].faults.iter().any(|f| f.kind == crate::pipe::PF::FlushErr) && x.starts_with("bytes sent");
                        if x != y && !flush {
                            all.violations.push(format!("interfaces-differ: blocking: {x}; {k:?}: {y}"));
                        }
                    }
                }
            }
        }
        "restart" => {
            let mut seen: Vec<(usize, String)> = Vec::new();
            for i in 0..plan.nums[0] as usize {
                let mut p = plan.clone();
                p.scen = "world".into();
                p.eseed = plan.eseed.wrapping_add(i as u64);
                p.flags |= 1 << 41;
                let o = run(&p, sub_script(script, i as u32).as_ref(), Opts { keep_record: true, ..opts });
                kernel_fault_restart(&mut all, &o, i as u32);
                all.violations.extend(o.violations.iter().cloned());
                for s in &o.extra {
                    let (name, val) = s.split_once('=').unwrap_or(("", ""));
                    if let Some((j, n)) = seen.iter().find_map(|(j, t)| t.split_once('=').filter(|x| x.1 == val).map(|x| (*j, x.0.to_string()))) {
                        all.violations.push(format!("repeated-secret: {name} of process {i} equals {n} of process {j}"));
                    }
                }
                seen.extend(o.extra.iter().map(|s| (i, s.clone())));
            }
        }
        _ => return None,
    }
    Some(all)
}
fn kernel_fault_restart(all: &mut Outcome, o: &Outcome, i: u32) {
    merge(all, o, i);
    if i > 0 {
        all.faults[kernel::F::restart as usize] += 1;
    }
}

fn child(plan: Plan, script: Option<Script>, opts: Opts) -> ! {
    if let Some(mut o) = composite(&plan, script.as_ref(), opts) {
        if o.violations.is_empty() && !opts.keep_record {
            o.record.clear();
        }
        report(&o);
    }
    let knobs = Knobs {
        p_preempt: plan.p_preempt,
        p_alloc: plan.p_alloc,
        p_stall: plan.p_stall,
        stall_max: plan.stall_max_ms * MS,
        p_late: plan.p_late,
        late_max: plan.late_max_ms * MS,
        p_futex: plan.p_futex,
        step_ns: plan.step_ns,
        max_steps: plan.max_steps,
        horizon: plan.horizon_s * SEC,
        jumps: plan.jumps.iter().map(|(t, d)| (t * MS, d * MS as i64)).collect(),
        p_step: plan.p_step,
    };
    std::panic::set_hook(Box::new(|info| {
        let _g = kernel::Guard::new();
        let loc = info.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = world::panic_msg(info.payload());
        let sut = kernel::in_sut();
        if !kernel::active() || !sut || loc.starts_with("src/") {
            child_error(&format!("harness panic: {msg} at {loc}"));
        }
        kernel::logline(|| format!("panic: {msg} at {loc}"));
        kern().panics.push((loc, msg, sut));
    }));
    let (seed, eseed) = (plan.seed, plan.eseed);
    hist::set_plan(plan);
    for (i, p) in hist::plan().pipes.iter().enumerate() {
        pipes().push(Pipe::new(i, p.clone()));
    }
    unsafe { KEEP = opts.keep_record };
    kernel::start(seed, eseed, knobs, script, opts.verbose, on_abort);
    match hist::plan().scen.as_str() {
        "world" => world::run_world(),
        "stats" => scen::stats_main(),
        "refused" => scen::refused_main(),
        s => child_error(&format!("unknown scenario {s}")),
    }
    complete(None)
}

static mut KEEP: bool = false;

fn on_abort(a: Abort) -> ! {
    complete(Some(a))
}

fn complete(a: Option<Abort>) -> ! {
    kernel::stop();
    let kn = kern();
    for j in &kn.knobs.jumps {
        if j.0 <= kn.now {
            kn.faults[if j.1 >= 0 { kernel::F::clock_jump_fwd } else { kernel::F::clock_jump_back } as usize] += 1;
        }
    }
    let violations = match catch_unwind(AssertUnwindSafe(|| oracle::judge(a))) {
        Ok(v) => v,
        Err(_) => child_error("judge panicked"),
    };
    let keep = unsafe { KEEP } || !violations.is_empty();
    let p = hist::plan();
    let extra = if p.flags & (1 << 40) != 0 {
        summary()
    } else if p.flags & (1 << 41) != 0 {
        oracle::secrets().into_iter().map(|(n, v)| format!("{n}={}", hex(&v))).collect()
    } else {
        Vec::new()
    };
    for v in &violations {
        if kn.verbose {
            kn.log.push(format!("VERDICT {v}"));
        }
    }
    report(&Outcome {
        violations,
        trace: kn.trace,
        steps: kn.steps,
        switches: kn.switches,
        decisions: kn.decisions,
        nonzero: kn.nonzero,
        sim_ns: kn.now - SEC,
        faults: kn.faults.to_vec(),
        record: if keep { std::mem::take(&mut kn.record) } else { Vec::new() },
        log: std::mem::take(&mut kn.log),
        harness_error: None,
        extra,
        ops: logs().iter().map(|l| l.ops.len() as u64).sum(),
    })
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn norm(r: &Res) -> String {
    match r {
        Res::Err(hist::EC::Io { retry, .. }) => format!("connection lost (retry with V1: {retry})"),
        r => format!("{r:?}"),
    }
}

/// What the endpoint under test did, in terms its three interfaces have in common.
fn summary() -> Vec<String> {
    let l = &logs()[0];
    let re = &logs()[1].re;
    let mut v = vec![hex(&pipes()[0].sent[..pipes()[0].sent.len().min(64)])];
    let hs = l.ops.iter().find(|o| o.what == What::Hs);
    v.push(format!("handshake {}", hs.map_or("none".into(), |o| norm(&o.res))));
    let reads: Vec<String> = l.ops.iter().filter(|o| o.what == What::Read).map(|o| norm(&o.res)).collect();
    v.push(format!("reads {}", reads.join(" / ")));
    let wr: Vec<String> = l.ops.iter().filter(|o| matches!(o.what, What::Write(_))).map(|o| norm(&o.res)).collect();
    v.push(format!("writes {}", wr.join(" / ")));
    v.push(format!("garbage sent {} {:x}", re.garbage.len(), crate::prng::hash_bytes(&re.garbage)));
    v.push(format!(
        "decoys sent {:?} version {:?}",
        re.decoys.iter().map(|d| (d.len(), crate::prng::hash_bytes(d))).collect::<Vec<_>>(),
        re.version
    ));
    let pk: Vec<String> = logs()[1].ops.iter().filter(|o| o.what == What::Read && matches!(o.res, Res::Payload { .. })).map(|o| norm(&o.res)).collect();
    v.push(format!("packets sent {}", pk.join(" / ")));
    v.push(format!("bytes sent {}", pipes()[0].sent.len()));
    v
}
