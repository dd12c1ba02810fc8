//! From a failing run to a small replay file: simpler plan, then fewer decisions.

use std::time::{Duration, Instant};

use crate::exec::{self, class_of, Opts, Outcome, Script};
use crate::json::{Js, J};
use crate::plan::Plan;
use crate::runner::{script_to_j, Pool};

struct Sh {
    class: String,
    end: Instant,
    jobs: usize,
    tried: u64,
}

impl Sh {
    fn fails(&self, o: &Outcome) -> bool {
        o.harness_error.is_none() && o.violations.iter().any(|v| class_of(v) == self.class)
    }
    fn left(&self) -> bool {
        Instant::now() < self.end
    }
    /// The first candidate, in order, that still fails the same way.
    fn first(&mut self, cands: &[(Plan, Option<Script>)]) -> Option<usize> {
        for (base, chunk) in cands.chunks(self.jobs).enumerate() {
            if !self.left() {
                return None;
            }
            let mut pool = Pool::new(self.jobs);
            for (i, (p, s)) in chunk.iter().enumerate() {
                pool.submit(i as u64, p, s.as_ref(), Opts { verbose: false, keep_record: false });
            }
            let mut best: Option<u64> = None;
            while let Some((i, o)) = pool.wait() {
                self.tried += 1;
                if self.fails(&o) && best.is_none_or(|b| i < b) {
                    best = Some(i);
                    pool.kill(|x| x > i);
                }
            }
            if let Some(i) = best {
                return Some(base * self.jobs + i as usize);
            }
        }
        None
    }
}

fn simpler(p: &Plan) -> Vec<Plan> {
    let mut v: Vec<Plan> = Vec::new();
    let mut add = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            v.push(q);
        }
    };
    add(&|q| {
        for x in [&mut q.p_preempt, &mut q.p_alloc, &mut q.p_stall, &mut q.p_late, &mut q.p_futex] {
            *x = 0;
        }
        q.jumps.clear();
    });
    add(&|q| {
        for x in &mut q.pipes {
            (x.frag, x.p_rshort, x.p_wshort, x.p_eintr_r, x.p_eintr_w, x.p_spur) = (0, 0, 0, 0, 0, 0);
            (x.lat_us, x.jit_us, x.buffered) = (0, 0, 0);
        }
    });
    // Fewer connections.
    if p.eps.len() > 2 {
        for i in 0..p.eps.len() / 2 {
            add(&|q| {
                q.eps.drain(2 * i..2 * i + 2);
                q.pipes.drain(2 * i..2 * i + 2);
            });
        }
    }
    for e in 0..p.eps.len() {
        let n = p.eps[e].writes.len();
        if n > 0 {
            add(&|q| q.eps[e].writes.clear());
            let mut k = n / 2;
            while k > 0 {
                add(&|q| {
                    q.eps[e].writes.drain(n - k..);
                });
                add(&|q| {
                    q.eps[e].writes.drain(..k);
                });
                k /= 2;
            }
        }
        for i in 0..p.pipes.get(e).map_or(0, |x| x.tampers.len()) {
            add(&|q| {
                q.pipes[e].tampers.remove(i);
            });
        }
        for i in 0..p.pipes.get(e).map_or(0, |x| x.faults.len()) {
            add(&|q| {
                q.pipes[e].faults.remove(i);
            });
        }
    }
    add(&|q| q.one_rt = false);
    add(&|q| q.workers = 0);
    add(&|q| q.workers = q.workers.min(1));
    add(&|q| q.jumps.clear());
    for i in 0..p.jumps.len() {
        add(&|q| {
            q.jumps.remove(i);
        });
    }
    add(&|q| q.p_preempt = 0);
    add(&|q| q.p_alloc = 0);
    add(&|q| q.p_stall = 0);
    add(&|q| q.p_late = 0);
    add(&|q| q.p_futex = 0);
    for e in 0..p.eps.len() {
        add(&|q| q.eps[e].rpause.clear());
        add(&|q| q.eps[e].rgap_ms = 0);
        add(&|q| q.eps[e].start_ms = 0);
        add(&|q| q.eps[e].rbuf = 0);
        add(&|q| q.eps[e].decoys = None);
        add(&|q| q.eps[e].glen = None);
        add(&|q| q.eps[e].pad = false);
        add(&|q| q.eps[e].cover = false);
        add(&|q| q.eps[e].cancel = 0);
        add(&|q| q.eps[e].hs_cancel = 0);
        add(&|q| q.eps[e].wcancel = 0);
        add(&|q| q.eps[e].read_retry = 0);
        add(&|q| q.eps[e].part_gap_ms = 0);
        add(&|q| q.eps[e].early = 0);
        add(&|q| q.eps[e].ver_len = 0);
        add(&|q| q.eps[e].hs_hdr = 0);
        add(&|q| q.eps[e].r_hold_ms = 0);
        add(&|q| q.eps[e].w_hold_ms = 0);
        add(&|q| {
            for w in &mut q.eps[e].writes {
                (w.gap_ms, w.hdr, w.decoy) = (0, 0, false);
            }
        });
        add(&|q| {
            for w in &mut q.eps[e].writes {
                w.len = w.len.min(4);
            }
        });
        if e < p.pipes.len() {
            add(&|q| q.pipes[e].frag = 0);
            add(&|q| q.pipes[e].p_rshort = 0);
            add(&|q| q.pipes[e].p_wshort = 0);
            add(&|q| q.pipes[e].p_eintr_r = 0);
            add(&|q| q.pipes[e].p_eintr_w = 0);
            add(&|q| q.pipes[e].p_spur = 0);
            add(&|q| (q.pipes[e].lat_us, q.pipes[e].jit_us) = (0, 0));
            add(&|q| q.pipes[e].buffered = 0);
            add(&|q| q.pipes[e].cap = 1 << 20);
            add(&|q| q.pipes[e].cap2 = 0);
        }
    }
    let n = p.ops.len();
    let mut k = n / 2;
    while k > 0 {
        let mut i = 0;
        while i < n {
            add(&|q| {
                q.ops.drain(i..(i + k).min(n));
            });
            i += k;
        }
        k /= 2;
    }
    v
}

fn record(p: &Plan, s: Option<&Script>) -> Outcome {
    exec::run(p, s, Opts { verbose: false, keep_record: true })
}
fn as_script(o: &Outcome) -> Script {
    o.record.iter().map(|(a, b, c)| ((*a, *b), *c)).collect()
}

pub fn minimise(plan: &Plan, o: &Outcome, jobs: usize, secs: u64) -> J {
    let mut sh = Sh { class: o.class().unwrap_or_default(), end: Instant::now() + Duration::from_secs(secs), jobs, tried: 0 };
    if matches!(sh.class.as_str(), "cpu" | "stuck") {
        // Each attempt would cost as much again; the seed reproduces it.
        return J::obj()
            .with("property", plan.prop.clone())
            .with("violations", o.violations.to_j())
            .with("seed", plan.seed)
            .with("found_as", o.violations.to_j())
            .with("plan", plan.to_j())
            .with("script", J::Null)
            .with("trace", J::Int(o.trace as i128))
            .with("log", Vec::<String>::new().to_j());
    }
    let mut p = plan.clone();
    // Simplify the plan while decisions still come from the seed.
    while sh.left() {
        let c: Vec<(Plan, Option<Script>)> = simpler(&p).into_iter().map(|q| (q, None)).collect();
        match sh.first(&c) {
            Some(i) => p = c[i].0.clone(),
            None => break,
        }
    }
    // Then the decisions themselves.
    let full = record(&p, None);
    let mut script: Option<Script> = None;
    if sh.fails(&full) && full.record.len() < 400_000 {
        let s = as_script(&full);
        if sh.fails(&record(&p, Some(&s))) {
            let mut s = s;
            if sh.left() && sh.first(&[(p.clone(), Some(Script::new()))]).is_some() {
                s = Script::new();
            }
            let mut chunk = s.len().div_ceil(2).max(1);
            while !s.is_empty() && sh.left() {
                let keys: Vec<(u32, u32)> = s.keys().copied().collect();
                let cands: Vec<(Plan, Option<Script>)> = keys
                    .chunks(chunk)
                    .map(|c| {
                        let mut t = s.clone();
                        for k in c {
                            t.remove(k);
                        }
                        (p.clone(), Some(t))
                    })
                    .collect();
                match sh.first(&cands) {
                    Some(i) => {
                        s = cands[i].1.clone().unwrap();
                        chunk = chunk.min(s.len().max(1));
                    }
                    None if chunk == 1 => break,
                    None => chunk = chunk.div_ceil(2),
                }
            }
            while sh.left() {
                let c: Vec<(Plan, Option<Script>)> = simpler(&p).into_iter().map(|q| (q, Some(s.clone()))).collect();
                match sh.first(&c) {
                    Some(i) => p = c[i].0.clone(),
                    None => break,
                }
            }
            script = Some(s);
        }
    }
    let last = exec::run(&p, script.as_ref(), Opts { verbose: true, keep_record: false });
    // What was found, in full if the small version is not reliable.
    let (p, script, last) = if sh.fails(&last) {
        (p, script, last)
    } else {
        (plan.clone(), None, exec::run(plan, None, Opts { verbose: true, keep_record: false }))
    };
    let n = last.log.len();
    let log: Vec<String> = if n > 600 {
        let mut l = last.log[..150].to_vec();
        l.push(format!("... {} lines ...", n - 500));
        l.extend_from_slice(&last.log[n - 350..]);
        l
    } else {
        last.log.clone()
    };
    println!(
        "minimised with {} runs: {} endpoints, {} writes, {} decisions",
        sh.tried,
        p.eps.len(),
        p.eps.iter().map(|e| e.writes.len()).sum::<usize>(),
        script.as_ref().map_or("seeded".into(), |s| s.len().to_string())
    );
    J::obj()
        .with("property", p.prop.clone())
        .with("violations", last.violations.to_j())
        .with("seed", plan.seed)
        .with("found_as", o.violations.to_j())
        .with("plan", p.to_j())
        .with("script", script.as_ref().map_or(J::Null, script_to_j))
        .with("trace", J::Int(last.trace as i128))
        .with("log", log.to_j())
}
