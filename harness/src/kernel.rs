//! The simulator kernel.
//!
//! Every thread of the system under test is a real OS thread, but exactly one of them runs at a
//! time: it holds the baton until it reaches an intercepted point (futex, sleep, clock, entropy,
//! thread start/join, allocation, transport call), where a seeded chooser decides who goes on.
//! Time is simulated: it moves a little with every step and jumps to the next deadline when
//! nothing can run.  The interception happens at the libc boundary (the symbols at the bottom of
//! this file replace libc's in this executable), so std, tokio and the crates under test run
//! unmodified.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

use crate::prng::{mix, mix3};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// 2023-11-14T22:13:20Z
pub const BASE_REALTIME_NS: i128 = 1_700_000_000_000_000_000;
const NONE: usize = usize::MAX;

static ACTIVE: AtomicBool = AtomicBool::new(false);

struct Tls {
    tid: Cell<usize>,
    /// > 0: harness code, never preempted at allocations and not accounted.
    guard: Cell<u32>,
    /// The thread is executing code under test.
    sut: Cell<bool>,
    infra: Cell<bool>,
    max_alloc: Cell<usize>,
}
thread_local! {
    static TLS: Tls = const { Tls { tid: Cell::new(NONE), guard: Cell::new(0), sut: Cell::new(false), infra: Cell::new(false), max_alloc: Cell::new(0) } };
}

/// Decision kinds; a stream is (kind, who).
pub mod k {
    pub const SCHED: u16 = 1; // preempt at a yield point?
    pub const BLOCK: u16 = 2; // who runs next when the current thread blocks
    pub const STALL: u16 = 3; // put the current thread to sleep here
    pub const FUTEX: u16 = 4; // wake order / spurious wake-ups
    pub const LATE: u16 = 5; // sleep overshoot
    pub const RSHORT: u16 = 6; // short read
    pub const WSHORT: u16 = 7; // short write
    pub const EINTR: u16 = 8; // interrupted call
    pub const SPUR: u16 = 9; // spurious Pending
    pub const FRAG: u16 = 10; // fragmentation of delivery
    pub const JIT: u16 = 11; // delivery jitter
    pub const CANCEL: u16 = 12; // cancel an async read here
    pub const ALLOC: u16 = 13; // preempt at an allocation
    pub const APP: u16 = 14; // application-level choices
    pub const STEP: u16 = 15; // preempt at an instruction
    pub const NKINDS: u16 = 16;
}

/// Fault kinds counted when they fire.
macro_rules! faults { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types, dead_code)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[repr(usize)]
    pub enum F { $($n),* }
    pub const FAULT_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
faults!(
    preempt, alloc_preempt, thread_stall, sleep_overshoot, futex_spurious, futex_wake_reorder,
    short_read, short_write, eintr_read, eintr_write, spurious_pending, fragmented, delayed,
    backpressure_block, net_stall, tamper_flip, tamper_drop, tamper_dup, tamper_insert,
    tamper_replay, tamper_swap, tamper_reflect, tamper_replace, cut_eof, read_error, write_error,
    write_zero, flush_error, write_partial, write_after_error, read_cancelled, reader_dropped,
    writer_dropped, workers, relayed, odd_key, clock_jump_fwd, clock_jump_back, hostile_stream, refused_call, aged_session,
    restart, instruction_preempt, unflushed_buffer,
);
pub const NF: usize = FAULT_NAMES.len();

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Run,
    Blocked { key: u64, bits: u32, deadline: u64 },
    Done,
}

struct Thread {
    word: Box<AtomicU32>,
    st: St,
    last_run: u64,
    timed_out: bool,
    sut: bool,
    infra: bool,
    entropy_id: u64,
    entropy_ctr: u64,
    insecure_ctr: u64,
    pth: libc::pthread_t,
}

/// Probabilities are out of 65536.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub p_preempt: u32,
    pub p_alloc: u32,
    pub p_stall: u32,
    pub stall_max: u64,
    pub p_late: u32,
    pub late_max: u64,
    pub p_futex: u32,
    pub step_ns: u64,
    pub max_steps: u64,
    pub horizon: u64,
    pub jumps: Vec<(u64, i64)>,
    pub p_step: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Abort {
    Deadlock,
    Horizon,
    Steps,
}

pub struct Kernel {
    pub now: u64,
    threads: Vec<Thread>,
    cur: usize,
    pub steps: u64,
    pub switches: u64,
    seed: u64,
    entropy_seed: u64,
    script: Option<BTreeMap<(u32, u32), u32>>,
    ctrs: Vec<u32>,
    pub record: Vec<(u32, u32, u32)>,
    pub decisions: u64,
    pub nonzero: u64,
    pub trace: u64,
    pub knobs: Knobs,
    pub faults: [u64; NF],
    pub stalled_ns: u64,
    /// (start, length) of every stall and overshoot, roughly in order of time.
    pub stalls: Vec<(u64, u64)>,
    pub last_fault: u64,
    abort: fn(Abort) -> !,
    pub verbose: bool,
    pub log: Vec<String>,
    pub panics: Vec<(String, String, bool)>,
}

static mut KERNEL: Option<Box<Kernel>> = None;

#[allow(static_mut_refs)]
pub fn kern() -> &'static mut Kernel {
    unsafe { KERNEL.as_mut().expect("kernel") }
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}

fn my_tid() -> usize {
    TLS.with(|t| t.tid.get())
}

/// True on a thread the simulator schedules, while a run is on.
fn simmed() -> bool {
    active() && my_tid() != NONE
}

pub struct Guard;
impl Guard {
    pub fn new() -> Guard {
        TLS.with(|t| t.guard.set(t.guard.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        TLS.with(|t| t.guard.set(t.guard.get() - 1));
    }
}

/// Run harness code: not preempted at allocations, not accounted.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let _g = Guard::new();
    f()
}

/// Run code under test on this thread.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(bool, u32);
    impl Drop for Restore {
        fn drop(&mut self) {
            TLS.with(|t| {
                t.sut.set(self.0);
                t.guard.set(self.1);
            });
        }
    }
    let _r = TLS.with(|t| {
        let r = Restore(t.sut.get(), t.guard.get());
        t.sut.set(true);
        t.guard.set(0);
        r
    });
    f()
}

pub fn in_sut() -> bool {
    TLS.with(|t| t.sut.get() && t.guard.get() <= 1)
}
pub fn reset_max_alloc() {
    TLS.with(|t| t.max_alloc.set(0));
}
pub fn max_alloc() -> usize {
    TLS.with(|t| t.max_alloc.get())
}

// ------------------------------------------------------------------ raw system calls

unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn errno_ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
fn futex_wait_raw(w: &AtomicU32, v: u32) {
    unsafe { raw6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize | 128, v as usize, 0, 0, 0) };
}
fn futex_wake_raw(w: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0) };
}

// ------------------------------------------------------------------ decisions

impl Kernel {
    fn stream(kind: u16, who: u16) -> u32 {
        ((kind as u32) << 6) | (who as u32 & 63)
    }

    /// 0 with probability 1 - p/65536, else 1..n uniformly.  n must be >= 1.
    pub fn choose(&mut self, kind: u16, who: u16, n: u32, p: u32) -> u32 {
        let s = Self::stream(kind, who);
        let c = self.ctrs[s as usize];
        self.ctrs[s as usize] = c.wrapping_add(1);
        self.decisions += 1;
        if n <= 1 {
            return 0;
        }
        let v = if let Some(sc) = &self.script {
            match sc.get(&(s, c)) {
                Some(v) if *v > 0 => 1 + (*v - 1) % (n - 1),
                _ => 0,
            }
        } else {
            if p == 0 {
                return 0;
            }
            let h = mix3(self.seed, s as u64, c as u64);
            if (h & 0xffff) as u32 >= p {
                0
            } else {
                1 + ((h >> 20) % (n as u64 - 1)) as u32
            }
        };
        if v != 0 {
            self.nonzero += 1;
            if self.record.len() < 400_000 {
                self.record.push((s, c, v));
            }
            self.trace = mix(self.trace ^ ((s as u64) << 32) ^ v as u64);
        }
        v
    }
}

pub fn choose(kind: u16, who: usize, n: usize, p: u32) -> usize {
    let _g = Guard::new();
    kern().choose(kind, who as u16, n as u32, p) as usize
}

pub fn fired(f: F) {
    let kn = kern();
    kn.faults[f as usize] += 1;
    kn.last_fault = kn.now;
}

pub fn note(x: u64) {
    let kn = kern();
    kn.trace = mix(kn.trace ^ x);
}

pub fn logline(f: impl FnOnce() -> String) {
    if active() && kern().verbose {
        let _g = Guard::new();
        let s = f();
        let kn = kern();
        let line = format!("{:>12} t{} {}", kn.now, kn.cur, s);
        kn.log.push(line);
    }
}

pub fn now() -> u64 {
    kern().now
}

// ------------------------------------------------------------------ scheduling

/// Begin a run on the calling thread, which becomes simulated thread 0.
pub fn start(seed: u64, entropy_seed: u64, knobs: Knobs, script: Option<BTreeMap<(u32, u32), u32>>, verbose: bool, abort: fn(Abort) -> !) {
    let _g = Guard::new();
    let kn = Kernel {
        now: SEC,
        threads: Vec::with_capacity(200),
        cur: 0,
        steps: 0,
        switches: 0,
        seed,
        entropy_seed,
        script,
        ctrs: vec![0; (k::NKINDS as usize) << 6],
        record: Vec::with_capacity(4096),
        decisions: 0,
        nonzero: 0,
        trace: 0,
        knobs,
        faults: [0; NF],
        stalled_ns: 0,
        stalls: Vec::new(),
        last_fault: 0,
        abort,
        verbose,
        log: Vec::new(),
        panics: Vec::new(),
    };
    unsafe { KERNEL = Some(Box::new(kn)) };
    new_thread(false);
    TLS.with(|t| t.tid.set(0));
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Stop intercepting; the calling thread keeps running, all others stay parked.
pub fn stop() {
    ACTIVE.store(false, Ordering::SeqCst);
}

fn new_thread(sut: bool) -> usize {
    let kn = kern();
    let id = kn.threads.len();
    kn.threads.push(Thread {
        word: Box::new(AtomicU32::new(0)),
        st: St::Run,
        last_run: 0,
        timed_out: false,
        sut,
        infra: TLS.with(|t| t.infra.get()),
        entropy_id: id as u64,
        entropy_ctr: 0,
        insecure_ctr: 0,
        pth: 0,
    });
    id
}

fn do_abort(a: Abort) -> ! {
    let f = kern().abort;
    f(a)
}

fn fire_due(kn: &mut Kernel) {
    let now = kn.now;
    for t in kn.threads.iter_mut() {
        if let St::Blocked { deadline, .. } = t.st {
            if deadline <= now {
                t.st = St::Run;
                t.timed_out = true;
            }
        }
    }
}

fn candidates(kn: &Kernel, except: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..kn.threads.len())
        .filter(|i| *i != except && kn.threads[*i].st == St::Run)
        .collect();
    v.sort_by_key(|i| (kn.threads[*i].last_run, *i));
    v
}

fn switch_to(me: usize, next: usize, wait: bool) {
    let kn = kern();
    kn.switches += 1;
    kn.trace = mix(kn.trace ^ (next as u64 + 1));
    kn.threads[me].last_run = kn.steps;
    kn.cur = next;
    let mine: *const AtomicU32 = &*kn.threads[me].word;
    let theirs: *const AtomicU32 = &*kn.threads[next].word;
    // From the store on, the other thread owns the kernel.
    unsafe {
        (*theirs).store(1, Ordering::Release);
        futex_wake_raw(&*theirs);
        if wait {
            wait_baton(&*mine);
        }
    }
}

fn wait_baton(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) != 1 {
        futex_wait_raw(w, 0);
    }
}

fn tick(kn: &mut Kernel) {
    kn.steps += 1;
    kn.now += kn.knobs.step_ns;
    if kn.steps > kn.knobs.max_steps {
        do_abort(Abort::Steps);
    }
    fire_due(kn);
}

/// A point where the scheduler may take the baton away.
fn yield_at(kind: u16, p: u32) {
    let _g = Guard::new();
    let kn = kern();
    let me = kn.cur;
    tick(kn);
    if kn.knobs.p_stall > 0 && TLS.with(|t| t.sut.get()) {
        let p = kn.knobs.p_stall;
        let c = kn.choose(k::STALL, me as u16, 9, p);
        if c > 0 {
            // Between 1/128 and 2 of stall_max, log scaled.
            let d = (kn.knobs.stall_max >> 7) << c.min(8);
            fired(F::thread_stall);
            kn.stalled_ns += d;
            kn.stalls.push((kn.now, d));
            logline(|| format!("stall {} ms", d / MS));
            block_inner(u64::MAX - 1, 0, kn.now + d);
            return;
        }
    }
    let others = candidates(kn, me);
    if others.is_empty() {
        return;
    }
    let c = kn.choose(kind, me as u16, others.len() as u32 + 1, p);
    if c > 0 {
        fired(match kind {
            k::ALLOC => F::alloc_preempt,
            k::STEP => F::instruction_preempt,
            _ => F::preempt,
        });
        switch_to(me, others[c as usize - 1], true);
    }
}

pub fn yield_point() {
    if simmed() {
        let p = kern().knobs.p_preempt;
        yield_at(k::SCHED, p);
    }
}

/// Give way to another runnable thread, if any (sched_yield).
fn yield_now() {
    let _g = Guard::new();
    let kn = kern();
    let me = kn.cur;
    tick(kn);
    let others = candidates(kn, me);
    if others.is_empty() {
        return;
    }
    let c = kn.choose(k::BLOCK, me as u16, others.len() as u32, 65536);
    switch_to(me, others[c as usize], true);
}

/// Block the current thread.  Returns true if woken, false if the deadline passed.
fn block_inner(key: u64, bits: u32, deadline: u64) -> bool {
    let kn = kern();
    let me = kn.cur;
    kn.threads[me].st = St::Blocked { key, bits, deadline };
    kn.threads[me].timed_out = false;
    pass_baton(me, true);
    !kern().threads[me].timed_out
}

fn pass_baton(me: usize, wait: bool) {
    loop {
        let kn = kern();
        tick(kn);
        let c = candidates(kn, NONE);
        if c.is_empty() {
            let mut next = u64::MAX;
            for t in &kn.threads {
                if let St::Blocked { deadline, .. } = t.st {
                    next = next.min(deadline);
                }
            }
            if next == u64::MAX {
                do_abort(Abort::Deadlock);
            }
            if next > kn.knobs.horizon {
                do_abort(Abort::Horizon);
            }
            kn.now = kn.now.max(next);
            continue;
        }
        let i = kn.choose(k::BLOCK, me as u16, c.len() as u32, 65536) as usize;
        let next = c[i];
        if next == me {
            return;
        }
        switch_to(me, next, wait);
        return;
    }
}

pub fn block(key: u64, deadline: Option<u64>) -> bool {
    let _g = Guard::new();
    block_inner(key, u32::MAX, deadline.unwrap_or(u64::MAX))
}

/// Make up to n threads blocked on the key runnable.
pub fn wake(key: u64, n: usize) -> usize {
    let _g = Guard::new();
    wake_bits(key, n, u32::MAX)
}

fn wake_bits(key: u64, n: usize, bits: u32) -> usize {
    let kn = kern();
    let mut w: Vec<usize> = (0..kn.threads.len())
        .filter(|i| matches!(kn.threads[*i].st, St::Blocked { key: kk, bits: b, .. } if kk == key && b & bits != 0))
        .collect();
    let mut woken = 0;
    while woken < n && !w.is_empty() {
        let p = kn.knobs.p_futex;
        let c = if w.len() > 1 { kn.choose(k::FUTEX, 1, w.len() as u32, p * 8) } else { 0 };
        if c > 0 {
            fired(F::futex_wake_reorder);
        }
        let t = w.remove(c as usize);
        kn.threads[t].st = St::Run;
        kn.threads[t].timed_out = false;
        woken += 1;
    }
    woken
}

pub fn sleep_until(t: u64) {
    let _g = Guard::new();
    if t > kern().now {
        block_inner(u64::MAX - 2, 0, t);
    }
}
pub fn sleep(d: u64) {
    let t = now() + d;
    sleep_until(t)
}

/// Threads that start meanwhile belong to a tokio runtime.
pub fn infra<T>(f: impl FnOnce() -> T) -> T {
    TLS.with(|t| t.infra.set(true));
    let r = f();
    TLS.with(|t| t.infra.set(false));
    r
}

/// Threads created by code under test that have not ended.
pub fn live_sut_threads() -> usize {
    kern().threads.iter().filter(|t| t.sut && !t.infra && t.st != St::Done).count()
}

pub fn threads_state() -> String {
    let kn = kern();
    kn.threads
        .iter()
        .enumerate()
        .map(|(i, t)| format!("t{}{}:{:?}", i, if t.sut { "(sut)" } else { "" }, t.st))
        .collect::<Vec<_>>()
        .join(" ")
}

/// Total length of the stalls that overlap the time since `t0`.
pub fn stalled_since(t0: u64) -> u64 {
    let kn = kern();
    kn.stalls.iter().rev().take_while(|(a, _)| a + 120 * SEC > t0).filter(|(a, d)| a + d > t0).map(|x| x.1).sum()
}

/// Pin the entropy stream of the calling thread (same id, same bytes).
pub fn pin_entropy(id: u64) {
    let kn = kern();
    let me = kn.cur;
    kn.threads[me].entropy_id = id;
    kn.threads[me].entropy_ctr = 0;
}
pub fn cur_tid() -> usize {
    kern().cur
}

pub fn wall_off(now: u64) -> i64 {
    kern().knobs.jumps.iter().filter(|j| j.0 <= now).map(|j| j.1).sum()
}
pub fn wall_now() -> i128 {
    let n = now();
    BASE_REALTIME_NS + n as i128 + wall_off(n) as i128
}

// ------------------------------------------------------------------ spawning harness threads

pub struct JoinKey(std::thread::JoinHandle<()>);
impl JoinKey {
    pub fn join(self) {
        let _ = self.0.join();
    }
}
pub fn spawn(name: &'static str, f: impl FnOnce() + Send + 'static) -> JoinKey {
    let _g = Guard::new();
    let _ = name;
    JoinKey(
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                TLS.with(|t| {
                    t.sut.set(false);
                    t.guard.set(0);
                });
                f()
            })
            .expect("spawn"),
    )
}

// ------------------------------------------------------------------ single stepping

/// Preempt at arbitrary instructions of the code under test: the trap flag is set and the SIGTRAP
/// handler is a yield point whenever the interrupted instruction belongs to this executable.
pub mod step {
    use super::*;
    static mut LO: usize = 0;
    static mut HI: usize = 0;
    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }
    extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
        unsafe {
            let uc = ctx as *mut libc::ucontext_t;
            let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
            if !simmed() || rip < LO || rip >= HI {
                return;
            }
            if TLS.with(|t| t.guard.get()) > 0 {
                return;
            }
            let saved = *libc::__errno_location();
            let p = kern().knobs.p_step;
            yield_at(k::STEP, p);
            *libc::__errno_location() = saved;
        }
    }
    pub fn install() {
        unsafe {
            LO = &raw const __executable_start as usize;
            HI = &raw const etext as usize;
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_trap as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
    }
    #[inline(never)]
    pub fn on() {
        unsafe {
            core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
    }
    #[inline(never)]
    pub fn off() {
        unsafe {
            core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

// ------------------------------------------------------------------ allocator

pub struct SimAlloc;

/// Heap blocks of the code under test that are alive, when a run asks for it.
pub mod heap {
    const N: usize = 1 << 17;
    static mut ON: bool = false;
    static mut TAB: [(usize, u32, u32); N] = [(0, 0, 0); N];
    static mut BY: [(isize, isize); 256] = [(0, 0); 256];
    static mut LIVE: usize = 0;
    static mut BLOCKS: usize = 0;
    static mut PEAK: usize = 0;
    static mut PEAK_BLOCKS: usize = 0;
    static mut LOST: bool = false;

    /// Destructors of thread-locals run outside the simulation, when their thread has ended.
    struct Lock;
    static LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    fn lock() -> Lock {
        while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop();
        }
        Lock
    }
    impl Drop for Lock {
        fn drop(&mut self) {
            LOCK.store(false, std::sync::atomic::Ordering::Release);
        }
    }

    fn slot(p: usize) -> usize {
        (crate::prng::mix(p as u64) as usize) & (N - 1)
    }
    pub fn enable() {
        unsafe { ON = true }
    }
    #[allow(static_mut_refs)]
    pub fn add(p: *mut u8, n: usize) {
        unsafe {
            if !ON || p.is_null() {
                return;
            }
            let _l = lock();
            if BLOCKS > N / 2 {
                LOST = true;
                return;
            }
            let mut i = slot(p as usize);
            while TAB[i].0 != 0 {
                i = (i + 1) & (N - 1);
            }
            let tid = super::TLS.with(|t| t.tid.get()) & 255;
            TAB[i] = (p as usize, n as u32, tid as u32);
            BY[tid].0 += n as isize;
            BY[tid].1 += 1;
            BLOCKS += 1;
            LIVE += n;
            PEAK = PEAK.max(LIVE);
            PEAK_BLOCKS = PEAK_BLOCKS.max(BLOCKS);
        }
    }
    /// True if the block was known.
    #[allow(static_mut_refs)]
    pub fn del(p: *mut u8) -> bool {
        unsafe {
            if !ON {
                return false;
            }
            let _l = lock();
            let mut i = slot(p as usize);
            while TAB[i].0 != p as usize {
                if TAB[i].0 == 0 {
                    return false;
                }
                i = (i + 1) & (N - 1);
            }
            BLOCKS -= 1;
            LIVE -= TAB[i].1 as usize;
            let b = &mut BY[TAB[i].2 as usize];
            b.0 -= TAB[i].1 as isize;
            b.1 -= 1;
            // Close the gap.
            let mut j = i;
            loop {
                TAB[i] = (0, 0, 0);
                loop {
                    j = (j + 1) & (N - 1);
                    if TAB[j].0 == 0 {
                        return true;
                    }
                    let h = slot(TAB[j].0);
                    let between = if i <= j { i < h && h <= j } else { i < h || h <= j };
                    if !between {
                        break;
                    }
                }
                TAB[i] = TAB[j];
                i = j;
            }
        }
    }
    /// (bytes, blocks, peak, the table was too small)
    pub fn state() -> (usize, usize, usize, bool) {
        unsafe { (LIVE, BLOCKS, PEAK, LOST) }
    }
    /// (bytes, blocks) alive that this thread allocated.
    pub fn mine() -> (isize, isize) {
        unsafe { BY[super::TLS.with(|t| t.tid.get()) & 255] }
    }
    pub fn peak_blocks() -> usize {
        unsafe { PEAK_BLOCKS }
    }
    /// Sizes of what is alive, for messages.
    #[allow(static_mut_refs)]
    pub fn sizes() -> Vec<usize> {
        let mut v: Vec<usize> = unsafe { TAB.iter().filter(|x| x.0 != 0).map(|x| x.1 as usize).collect() };
        v.sort_unstable();
        v
    }
}

#[inline]
fn on_alloc(size: usize) -> bool {
    if !ACTIVE.load(Ordering::Relaxed) {
        return false;
    }
    let go = TLS.with(|t| {
        if t.tid.get() == NONE || t.guard.get() > 0 || !t.sut.get() {
            return false;
        }
        if size > t.max_alloc.get() {
            t.max_alloc.set(size);
        }
        true
    });
    if go {
        let p = kern().knobs.p_alloc;
        if p > 0 {
            yield_at(k::ALLOC, p);
        }
    }
    go
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let go = on_alloc(l.size());
        let _g = Guard::new();
        let p = System.alloc(l);
        if go {
            heap::add(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let go = on_alloc(l.size());
        let _g = Guard::new();
        let p = System.alloc_zeroed(l);
        if go {
            heap::add(p, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _g = Guard::new();
        heap::del(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n);
        let _g = Guard::new();
        let known = heap::del(p);
        let q = System.realloc(p, l, n);
        if known {
            heap::add(q, n);
        }
        q
    }
}

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

// ------------------------------------------------------------------ intercepted libc symbols

fn ts_ns(ts: *const libc::timespec) -> u64 {
    unsafe { ((*ts).tv_sec.max(0) as u64).saturating_mul(SEC).saturating_add((*ts).tv_nsec as u64) }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !simmed() {
        return errno_ret(raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as i32;
    }
    let sut = TLS.with(|t| t.sut.get() && t.guard.get() == 0);
    if sut {
        let p = kern().knobs.p_preempt;
        yield_at(k::SCHED, p);
    }
    let t: i128 = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => wall_now().max(0),
        _ => now() as i128,
    };
    (*ts).tv_sec = (t / SEC as i128) as i64;
    (*ts).tv_nsec = (t % SEC as i128) as i64;
    0
}

fn do_sleep(deadline: u64) {
    let _g = Guard::new();
    let kn = kern();
    let me = kn.cur;
    let mut d = deadline;
    if kn.knobs.p_late > 0 {
        let p = kn.knobs.p_late;
        let c = kn.choose(k::LATE, me as u16, 17, p);
        if c > 0 {
            let x = kn.knobs.late_max / 16 * c as u64;
            fired(F::sleep_overshoot);
            kn.stalled_ns += x;
            kn.stalls.push((deadline.max(kn.now), x));
            d += x;
        }
    }
    if d > kn.now {
        block_inner(u64::MAX - 2, 0, d);
    } else {
        yield_now();
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if !simmed() {
        return errno_ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32;
    }
    do_sleep(now().saturating_add(ts_ns(req)));
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if !simmed() {
        return -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32);
    }
    let t = ts_ns(req);
    if flags & libc::TIMER_ABSTIME != 0 {
        if clk == libc::CLOCK_REALTIME {
            let d = t as i128 - wall_now();
            do_sleep((now() as i128 + d.max(0)) as u64);
        } else {
            do_sleep(t);
        }
    } else {
        do_sleep(now().saturating_add(t));
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if !simmed() {
        return errno_ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32;
    }
    yield_now();
    0
}

fn fill_entropy(buf: *mut u8, len: usize, flags: u32) {
    let kn = kern();
    let me = kn.cur;
    let mut out = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    while !out.is_empty() {
        let t = &mut kn.threads[me];
        // Hash-map keys of the standard library come from a stream of their own.
        let v = if flags & libc::GRND_INSECURE != 0 {
            t.insecure_ctr += 1;
            mix3(kn.entropy_seed, t.entropy_id ^ 0x5eed_0001, t.insecure_ctr).to_le_bytes()
        } else {
            t.entropy_ctr += 1;
            mix3(kn.entropy_seed, t.entropy_id, t.entropy_ctr).to_le_bytes()
        };
        let n = out.len().min(8);
        out[..n].copy_from_slice(&v[..n]);
        out = &mut out[n..];
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if !simmed() {
        return errno_ret(raw6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0));
    }
    fill_entropy(buf as *mut u8, len, flags);
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if simmed() {
        match n {
            libc::SYS_futex => return sim_futex(a, b as i32, c as u32, d, f as u32),
            libc::SYS_getrandom => {
                fill_entropy(a as *mut u8, b, c as u32);
                return b as i64;
            }
            libc::SYS_sched_yield => {
                yield_now();
                return 0;
            }
            libc::SYS_clock_gettime => return clock_gettime(a as i32, b as *mut libc::timespec) as i64,
            _ => {}
        }
    }
    errno_ret(raw6(n, a, b, c, d, e, f)) as i64
}

unsafe fn sim_futex(addr: usize, op: i32, val: u32, ts: usize, val3: u32) -> libc::c_long {
    let cmd = op & 127;
    let _g = Guard::new();
    match cmd & !256 {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let word = &*(addr as *const AtomicU32);
            if word.load(Ordering::SeqCst) != val {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let bits = if cmd == libc::FUTEX_WAIT { u32::MAX } else { val3 };
            let deadline = if ts == 0 {
                u64::MAX
            } else {
                let t = ts_ns(ts as *const libc::timespec);
                if cmd == libc::FUTEX_WAIT {
                    now().saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    (now() as i128 + (t as i128 - wall_now()).max(0)).min(u64::MAX as i128) as u64
                } else {
                    t
                }
            };
            let kn = kern();
            if kn.knobs.p_futex > 0 {
                let me = kn.cur as u16;
                let p = kn.knobs.p_futex;
                if kn.choose(k::FUTEX, 2 + (me & 31), 2, p) > 0 {
                    fired(F::futex_spurious);
                    yield_now();
                    *libc::__errno_location() = libc::EINTR;
                    return -1;
                }
            }
            if block_inner(addr as u64, bits, deadline) {
                0
            } else {
                *libc::__errno_location() = libc::ETIMEDOUT;
                -1
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bits = if cmd == libc::FUTEX_WAKE { u32::MAX } else { val3 };
            let n = wake_bits(addr as u64, val as usize, bits);
            let p = kern().knobs.p_preempt;
            yield_at(k::SCHED, p);
            n as i64
        }
        _ => {
            crate::harness_error(&format!("unsupported futex op {op}"));
        }
    }
}

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct StartRec {
    f: StartFn,
    arg: *mut libc::c_void,
    tid: usize,
    sut: bool,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let rec = unsafe { Box::from_raw(p as *mut StartRec) };
    let (f, arg, tid, sut) = (rec.f, rec.arg, rec.tid, rec.sut);
    {
        let _g = Guard::new();
        drop(rec);
        // The word's address was published before this OS thread existed; the kernel itself may
        // only be used with the baton.
        let w = unsafe { WORDS[tid] as *const AtomicU32 };
        wait_baton(unsafe { &*w });
    }
    TLS.with(|t| {
        t.tid.set(tid);
        t.sut.set(sut);
    });
    let r = f(arg);
    // End of the thread: TLS destructors run afterwards, outside the simulation.
    let _g = Guard::new();
    TLS.with(|t| t.tid.set(NONE));
    if active() {
        let kn = kern();
        kn.threads[tid].st = St::Done;
        wake_bits(join_key(tid), usize::MAX, u32::MAX);
        pass_baton(tid, false);
    }
    r
}

static mut WORDS: [usize; 1024] = [0; 1024];

fn join_key(tid: usize) -> u64 {
    0xF000_0000_0000_0000 | tid as u64
}

unsafe fn next_sym(name: &[u8]) -> usize {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char);
    if p.is_null() {
        crate::harness_error("dlsym");
    }
    p as usize
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: StartFn, arg: *mut libc::c_void) -> libc::c_int {
    type Real = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> libc::c_int;
    let real: Real = std::mem::transmute(next_sym(b"pthread_create\0"));
    if !simmed() {
        return real(out, attr, f, arg);
    }
    let _g = Guard::new();
    let sut = TLS.with(|t| t.sut.get()) ;
    let tid = new_thread(sut);
    if tid >= 800 {
        crate::harness_error("too many threads");
    }
    WORDS[tid] = &*kern().threads[tid].word as *const _ as usize;
    let rec = Box::into_raw(Box::new(StartRec { f, arg, tid, sut }));
    let r = real(out, attr, trampoline, rec as *mut libc::c_void);
    if r != 0 {
        crate::harness_error("pthread_create failed");
    }
    kern().threads[tid].pth = *out;
    logline(|| format!("spawn t{tid}{}", if sut { " (sut)" } else { "" }));
    let p = kern().knobs.p_preempt;
    yield_at(k::SCHED, p);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> libc::c_int {
    type Real = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
    let real: Real = std::mem::transmute(next_sym(b"pthread_join\0"));
    if simmed() {
        let _g = Guard::new();
        let kn = kern();
        if let Some(tid) = (0..kn.threads.len()).rev().find(|i| kn.threads[*i].pth == t) {
            while kern().threads[tid].st != St::Done {
                block_inner(join_key(tid), u32::MAX, u64::MAX);
            }
            kern().threads[tid].pth = 0;
        }
        return real(t, ret);
    }
    real(t, ret)
}

// std keeps an address-ordered table of all threads for its stack-overflow handler and allocates
// for it when a thread starts, which would make the number of allocations depend on where the OS
// put the stacks.  It does not if SIGSEGV and SIGBUS already have handlers when it starts up.
extern "C" fn die(sig: i32) {
    unsafe { libc::signal(sig, libc::SIG_DFL) };
}
extern "C" fn take_fault_signals() {
    for s in [libc::SIGSEGV, libc::SIGBUS] {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = die as extern "C" fn(i32) as usize;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
#[used]
#[link_section = ".init_array"]
static TAKE_FAULT_SIGNALS: extern "C" fn() = take_fault_signals;
