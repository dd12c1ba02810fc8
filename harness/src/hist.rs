//! The recorded history of a run: every operation an endpoint performed, when, and how it ended.

use bip324::io::{ProtocolError, ProtocolFailureSuggestion};
use bip324::Error;

use crate::kernel::{self, now, Guard};
use crate::pipe::pipes;
use crate::plan::Plan;
use crate::prng::{hash_bytes, mix};

#[derive(Clone, Debug, PartialEq)]
pub enum EC {
    Io { kind: String, retry: bool },
    TooBig,
    NoTerm,
    V1,
    Decrypt,
    CtSmall,
    BufSmall(usize),
    TooMuchGarbage,
    Secret,
    Panic(String),
}

impl EC {
    pub fn of(e: &ProtocolError) -> EC {
        let _g = Guard::new();
        match e {
            ProtocolError::Io(e, s) => EC::Io {
                kind: format!("{:?}", e.kind()),
                retry: matches!(s, ProtocolFailureSuggestion::RetryV1),
            },
            ProtocolError::Internal(e) => EC::of_err(e),
        }
    }
    pub fn of_err(e: &Error) -> EC {
        match e {
            Error::CiphertextTooSmall => EC::CtSmall,
            Error::BufferTooSmall { required_bytes } => EC::BufSmall(*required_bytes),
            Error::PacketTooBig => EC::TooBig,
            Error::TooMuchGarbage => EC::TooMuchGarbage,
            Error::NoGarbageTerminator => EC::NoTerm,
            Error::V1Protocol => EC::V1,
            Error::SecretGeneration(_) => EC::Secret,
            Error::Decryption(_) => EC::Decrypt,
        }
    }
    pub fn is_io(&self) -> bool {
        matches!(self, EC::Io { .. })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Pending,
    Ok,
    Payload { decoy: bool, len: usize, hash: u64, hdr: u8 },
    Err(EC),
    /// A write its caller gave up on.
    Cancelled,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Hs,
    Write(usize),
    Read,
    DropAll,
    DropR,
    DropW,
    Inner,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub what: What,
    pub t0: u64,
    pub t1: u64,
    /// Bytes accepted on the outgoing transport before and after.
    pub out0: u64,
    pub out1: u64,
    /// Bytes consumed from the incoming transport, before and after.
    pub in0: u64,
    pub in1: u64,
    /// When the last consumed byte became available; when the last room for writing appeared.
    pub avail: u64,
    pub room: u64,
    pub alloc: usize,
    /// Live heap of the code under test at the end.
    pub live: usize,
    pub blocks: usize,
    pub res: Res,
    /// Reads of shaped peers: not one of the application's payloads.
    pub background: bool,
    pub stalled: u64,
}

#[derive(Clone, Debug, Default)]
pub struct RefInfo {
    pub key: Vec<u8>,
    pub peer_key: Vec<u8>,
    pub sid: [u8; 32],
    pub send_term: [u8; 16],
    pub recv_term: [u8; 16],
    pub garbage: Vec<u8>,
    pub decoys: Vec<Vec<u8>>,
    pub decoy_hdrs: Vec<u8>,
    pub version: Option<(u8, Vec<u8>)>,
    /// End offset in the incoming stream of the peer's version packet.
    pub hs_end: u64,
    pub sent_version_end: u64,
}

#[derive(Clone, Debug, Default)]
pub struct EpLog {
    pub ops: Vec<Op>,
    pub got: usize,
    pub hs: Option<bool>,
    pub sid: Option<[u8; 32]>,
    pub parts: usize,
    pub done: usize,
    pub raw: Vec<u8>,
    pub raw_from: Option<u64>,
    pub raw_err: Option<EC>,
    pub re: RefInfo,
    /// Worker threads alive and transport closed when the drop of the writing half returned.
    pub live_after_drop: Option<usize>,
    pub out_closed_at_drop: Option<bool>,
    pub hs_fail_live: Option<usize>,
    pub ended: bool,
    pub harness_note: String,
    /// (bytes, blocks) left on the thread of an async endpoint while its runtime lives on.
    pub left: Option<(isize, isize)>,
}

static mut LOGS: Vec<EpLog> = Vec::new();
#[allow(static_mut_refs)]
pub fn logs() -> &'static mut Vec<EpLog> {
    unsafe { &mut LOGS }
}
static mut PLAN: Option<Box<Plan>> = None;
#[allow(static_mut_refs)]
pub fn plan() -> &'static Plan {
    unsafe { PLAN.as_ref().expect("plan") }
}
pub fn set_plan(p: Plan) {
    unsafe { PLAN = Some(Box::new(p)) }
    *logs() = vec![EpLog::default(); plan().eps.len()];
}

pub fn begin(e: usize, what: What) -> usize {
    let _g = Guard::new();
    kernel::reset_max_alloc();
    let (o, i) = (pipes()[e].accepted, pipes()[e ^ 1].consumed);
    let t = now();
    let l = &mut logs()[e];
    l.ops.push(Op {
        what,
        t0: t,
        t1: u64::MAX,
        out0: o,
        out1: o,
        in0: i,
        in1: i,
        avail: 0,
        room: 0,
        alloc: 0,
        live: 0,
        blocks: 0,
        res: Res::Pending,
        background: false,
        stalled: 0,
    });
    kernel::logline(|| format!("ep{e} begin {what:?}"));
    l.ops.len() - 1
}

pub fn end(e: usize, idx: usize, res: Res) {
    let _g = Guard::new();
    let (o, i, av) = (pipes()[e].accepted, pipes()[e ^ 1].consumed, pipes()[e ^ 1].last_avail);
    let room = pipes()[e].last_room.max(pipes()[e].stalled_until);
    let t = now();
    let op = &mut logs()[e].ops[idx];
    op.t1 = t;
    op.out1 = o;
    op.in1 = i;
    op.avail = av;
    op.room = room;
    op.alloc = kernel::max_alloc();
    let h = kernel::heap::state();
    (op.live, op.blocks) = (h.0, h.1);
    op.stalled = kernel::stalled_since(op.t0);
    op.res = res;
    let (w, r) = (op.what, op.res.clone());
    kernel::logline(|| format!("ep{e} end {w:?} -> {r:?}"));
    kernel::note(mix(hash_bytes(format!("{e}{w:?}{r:?}").as_bytes()) ^ t));
}

/// Match a received payload against what the peer's application is going to write next.
pub fn note_payload(e: usize, idx: usize, decoy: bool, len: usize, hash: u64) {
    let _g = Guard::new();
    let pl = plan();
    let peer = e ^ 1;
    let next = next_match(peer, logs()[e].got, (decoy, len, hash));
    let exp = pl.expected(peer, next);
    let same = exp == Some((decoy, len, hash));
    if pl.eps[peer].kind.shaped() && decoy && !same {
        logs()[e].ops[idx].background = true;
    } else {
        logs()[e].got = next + 1;
    }
}

/// The index of the write that arrives next: writes their caller gave up on may be missing.
pub fn next_match(s: usize, from: usize, got: (bool, usize, u64)) -> usize {
    let mut i = from;
    loop {
        if plan().expected(s, i) == Some(got) {
            return i;
        }
        let given_up = logs()[s].ops.iter().any(|o| o.what == What::Write(i) && o.res == Res::Cancelled);
        if !given_up {
            return from;
        }
        i += 1;
    }
}

pub const BARKEY: u64 = 0xB000_0000_0000_0000;

pub fn part_done(e: usize) {
    let _g = Guard::new();
    logs()[e].done += 1;
    kernel::wake(BARKEY, usize::MAX);
}
pub fn all_done() -> bool {
    let some = plan().eps.iter().any(|e| e.healthy);
    logs().iter().zip(&plan().eps).all(|(l, e)| (some && !e.healthy) || (l.parts > 0 && l.done >= l.parts))
}
pub fn linger_deadline() -> u64 {
    now() + plan().linger_ms * kernel::MS
}
pub fn await_all() {
    let _g = Guard::new();
    let d = linger_deadline();
    while !all_done() && now() < d {
        kernel::block(BARKEY, Some(d));
    }
}
/// Wait until the endpoint's handshake is decided (by another thread of the same endpoint).
pub fn await_hs(e: usize) -> bool {
    let _g = Guard::new();
    let d = linger_deadline();
    while logs()[e].hs.is_none() && now() < d {
        kernel::block(BARKEY, Some(d));
    }
    logs()[e].hs == Some(true)
}
pub fn hs_decided(e: usize, ok: bool) {
    let _g = Guard::new();
    logs()[e].hs = Some(ok);
    kernel::wake(BARKEY, usize::MAX);
}
