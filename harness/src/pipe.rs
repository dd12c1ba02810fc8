//! The simulated transport: one lossless byte pipe per direction with latency, fragmentation,
//! back-pressure, an optional attacker in the middle, and faults on either caller's side.
//! Both the blocking (`Read`/`Write`) and the async (`AsyncRead`/`AsyncWrite`) handles sit on the
//! same state.

use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

use crate::kernel::{self, choose, fired, k, now, Guard, F, MS};
use crate::prng::Rng;
use crate::{js_enum, js_struct};

js_enum! {
    pub enum EK {
        ConnectionReset, ConnectionAborted, UnexpectedEof, BrokenPipe, TimedOut, NotConnected,
        PermissionDenied, InvalidData, ConnectionRefused, HostUnreachable, NetworkDown, OutOfMemory, Other,
        WouldBlock,
        NetworkUnreachable, AddrNotAvailable, InvalidInput, NotFound, Unsupported, WriteZero, ResourceBusy, StorageFull,
    }
}
impl EK {
    pub fn kind(self) -> ErrorKind {
        match self {
            EK::ConnectionReset => ErrorKind::ConnectionReset,
            EK::ConnectionAborted => ErrorKind::ConnectionAborted,
            EK::UnexpectedEof => ErrorKind::UnexpectedEof,
            EK::BrokenPipe => ErrorKind::BrokenPipe,
            EK::TimedOut => ErrorKind::TimedOut,
            EK::NotConnected => ErrorKind::NotConnected,
            EK::PermissionDenied => ErrorKind::PermissionDenied,
            EK::InvalidData => ErrorKind::InvalidData,
            EK::ConnectionRefused => ErrorKind::ConnectionRefused,
            EK::HostUnreachable => ErrorKind::HostUnreachable,
            EK::NetworkDown => ErrorKind::NetworkDown,
            EK::OutOfMemory => ErrorKind::OutOfMemory,
            EK::Other => ErrorKind::Other,
            EK::WouldBlock => ErrorKind::WouldBlock,
            EK::NetworkUnreachable => ErrorKind::NetworkUnreachable,
            EK::AddrNotAvailable => ErrorKind::AddrNotAvailable,
            EK::InvalidInput => ErrorKind::InvalidInput,
            EK::NotFound => ErrorKind::NotFound,
            EK::Unsupported => ErrorKind::Unsupported,
            EK::WriteZero => ErrorKind::WriteZero,
            EK::ResourceBusy => ErrorKind::ResourceBusy,
            EK::StorageFull => ErrorKind::StorageFull,
        }
    }
    pub fn err(self) -> io::Error {
        io::Error::new(self.kind(), "injected")
    }
}

js_enum! { pub enum TOp { Flip, Drop, Dup, Insert, Replay, Swap, Reflect, Replace, Cut } }
js_struct! {
    pub struct Tamper {
        pub op: TOp = TOp::Flip,
        pub at: u64 = 0,
        pub len: u64 = 1,
        pub from: u64 = 0,
        pub mask: u8 = 1,
        /// Offset counted from the end of the sender's handshake.
        pub rel: bool = false,
    }
}

js_enum! { pub enum PF { ReadErr, WriteErr, WriteZero, FlushErr, Stall } }
js_struct! {
    pub struct PFault {
        pub kind: PF = PF::Stall,
        /// Byte offset in the stream (flush index for FlushErr; milliseconds if by_time).
        pub at: u64 = 0,
        pub by_time: bool = false,
        /// With by_time: bytes still accepted before the error.
        pub extra: u64 = 0,
        pub err: EK = EK::ConnectionReset,
        pub sticky: bool = false,
        pub dur_ms: u64 = 0,
        /// Offset (or flush index, or time) counted from the end of the sender's handshake.
        pub rel: bool = false,
    }
}

js_struct! {
    pub struct PipePlan {
        pub cap: u64 = 1 << 20,
        /// Capacity once the sender's handshake is over (0: no change).
        pub cap2: u64 = 0,
        pub lat_us: u64 = 0,
        pub jit_us: u64 = 0,
        pub frag: u32 = 0,
        pub p_rshort: u32 = 0,
        pub p_wshort: u32 = 0,
        pub p_eintr_r: u32 = 0,
        pub p_eintr_w: u32 = 0,
        pub p_spur: u32 = 0,
        /// 0: bytes go out at once; n: they sit in an n-byte buffer until flushed or full.
        pub buffered: u64 = 0,
        pub sink_on_reader_drop: bool = false,
        /// The receiver sees this error instead of an end of stream when the sender closes.
        pub close_err: Option<EK> = None,
        pub tampers: Vec<Tamper> = Vec::new(),
        pub faults: Vec<PFault> = Vec::new(),
    }
}

struct Seg {
    at: u64,
    data: Vec<u8>,
    pos: usize,
}

pub struct Pipe {
    pub id: usize,
    pub plan: PipePlan,
    q: VecDeque<Seg>,
    queued: u64,
    pend: Vec<u8>,
    /// Every byte accepted from the sender and pushed towards the wire, before the attacker.
    pub sent: Vec<u8>,
    /// (offset after the write, time) for each accepted write.
    pub sent_marks: Vec<(u64, u64)>,
    pub accepted: u64,
    /// Every byte put in front of the receiver.
    pub delivered: Vec<u8>,
    pub consumed: u64,
    /// Time at which the last thing the receiver consumed (bytes or end) became available.
    pub last_avail: u64,
    last_at: u64,
    pub writer_closed: Option<u64>,
    pub reader_closed: Option<u64>,
    /// When the handles themselves were dropped.
    pub w_dropped: Option<u64>,
    pub r_dropped: Option<u64>,
    eof_at: Option<u64>,
    cut: bool,
    tam_i: usize,
    in_pos: u64,
    tam_prog: u64,
    pub tampered: bool,
    flushes: u64,
    fstate: Vec<u8>, // per fault: 0 armed, 1 spent, 2 waiting for the session to start
    /// Stream offset at which the sender's handshake ended.
    pub base: Option<u64>,
    pub write_errs: u64,
    pub first_write_err: Option<u64>,
    pub read_errs: u64,
    pub read_err_at: Vec<u64>,
    /// When the last byte of the key could be read.
    pub key_at: Option<u64>,
    /// Bytes accepted after a write error was reported.
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// Last time a blocked writer got room.
    pub last_room: u64,
    pub room_at_close: u64,
    pub lost_unflushed: u64,
    pub write_calls: u64,
    /// Transport gave the writer trouble until this time (stall).
    pub stalled_until: u64,
}

const SIZES: [usize; 14] = [1, 2, 3, 4, 15, 16, 17, 64, 200, 255, 256, 257, 1000, 4096];

fn rkey(id: usize) -> u64 {
    0xE000_0000_0000_0000 | (id as u64 * 2)
}
fn wkey(id: usize) -> u64 {
    0xE000_0000_0000_0000 | (id as u64 * 2 + 1)
}

pub enum Rd {
    Data(usize),
    Eof,
    Err(EK),
    NotYet(Option<u64>),
}
pub enum Wr {
    Ok(usize),
    Zero,
    Err(EK),
    Full,
}

static mut PIPES: Vec<Pipe> = Vec::new();
#[allow(static_mut_refs)]
pub fn pipes() -> &'static mut Vec<Pipe> {
    unsafe { &mut PIPES }
}

impl Pipe {
    pub fn new(id: usize, mut plan: PipePlan) -> Pipe {
        plan.tampers.sort_by_key(|t| (t.rel, t.at));
        let fstate = plan.faults.iter().map(|f| if f.rel { 2 } else { 0 }).collect();
        Pipe {
            id,
            plan,
            q: VecDeque::new(),
            queued: 0,
            pend: Vec::new(),
            sent: Vec::new(),
            sent_marks: Vec::new(),
            accepted: 0,
            delivered: Vec::new(),
            consumed: 0,
            last_avail: 0,
            last_at: 0,
            writer_closed: None,
            reader_closed: None,
            w_dropped: None,
            r_dropped: None,
            eof_at: None,
            cut: false,
            tam_i: 0,
            in_pos: 0,
            tam_prog: 0,
            tampered: false,
            flushes: 0,
            fstate,
            base: None,
            write_errs: 0,
            first_write_err: None,
            read_errs: 0,
            read_err_at: Vec::new(),
            key_at: None,
            rwaker: None,
            wwaker: None,
            last_room: 0,
            room_at_close: 0,
            lost_unflushed: 0,
            write_calls: 0,
            stalled_until: 0,
        }
    }

    /// The sender's handshake is over: session-relative tampers and faults take their places.
    pub fn set_base(&mut self) {
        if self.base.is_some() {
            return;
        }
        let b = self.accepted;
        let t = now() / MS;
        self.base = Some(b);
        if self.plan.cap2 > 0 {
            self.plan.cap = self.plan.cap2;
        }
        for x in self.plan.tampers.iter_mut().filter(|x| x.rel) {
            x.at += b;
            if matches!(x.op, TOp::Replay) {
                x.from += b;
            }
            x.rel = false;
        }
        for i in 0..self.plan.faults.len() {
            let fl = self.flushes;
            let f = &mut self.plan.faults[i];
            if f.rel {
                f.rel = false;
                f.at += if f.by_time { t } else if f.kind == PF::FlushErr { fl } else { b };
                self.fstate[i] = 0;
            }
        }
    }

    /// Length of the common prefix of what was sent and what was put in front of the receiver.
    pub fn intact_prefix(&self) -> u64 {
        let n = self.sent.len().min(self.delivered.len());
        let (a, b) = (&self.sent[..n], &self.delivered[..n]);
        if a == b {
            return n as u64;
        }
        a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(n) as u64
    }

    /// Time at which the byte before `off` had been accepted by the transport.
    pub fn sent_time(&self, off: u64) -> Option<u64> {
        let i = self.sent_marks.partition_point(|m| m.0 < off);
        self.sent_marks.get(i).map(|m| m.1)
    }

    fn push_net(&mut self, data: &[u8]) {
        if self.cut || data.is_empty() {
            return;
        }
        let mut off = 0;
        let mut pieces = 0;
        while off < data.len() {
            let rest = data.len() - off;
            let mut n = rest;
            if self.plan.frag > 0 && pieces < 48 {
                let c = choose(k::FRAG, self.id, SIZES.len() + 1, self.plan.frag);
                if c > 0 {
                    n = SIZES[c - 1].min(rest);
                }
            }
            // Stop a piece at a stall or read-fault boundary so that it takes effect there.
            let pos = self.delivered.len() as u64;
            let mut at = self.last_at.max(now() + self.plan.lat_us * 1000);
            for i in 0..self.plan.faults.len() {
                let f = &self.plan.faults[i];
                if f.kind == PF::Stall && !f.by_time && self.fstate[i] == 0 {
                    if f.at <= pos {
                        self.fstate[i] = 1;
                        at += f.dur_ms * MS;
                        self.stalled_until = self.stalled_until.max(at);
                        fired(F::net_stall);
                    } else if f.at < pos + n as u64 {
                        n = (f.at - pos) as usize;
                    }
                }
            }
            if self.plan.jit_us > 0 {
                let c = choose(k::JIT, self.id, 9, 40000);
                if c > 0 {
                    at += self.plan.jit_us * 125 * c as u64;
                    kernel::kern().faults[F::delayed as usize] += 1;
                }
            }
            if n < rest {
                kernel::kern().faults[F::fragmented as usize] += 1;
            }
            self.last_at = at;
            if self.reader_closed.is_none() {
                self.q.push_back(Seg { at, data: data[off..off + n].to_vec(), pos: 0 });
                self.queued += n as u64;
            }
            self.delivered.extend_from_slice(&data[off..off + n]);
            if self.key_at.is_none() && self.delivered.len() >= 64 {
                self.key_at = Some(at);
            }
            off += n;
            pieces += 1;
        }
    }

    fn eof_now(&mut self) {
        if self.eof_at.is_none() {
            let at = self.last_at.max(now() + self.plan.lat_us * 1000);
            self.eof_at = Some(at);
        }
    }

    /// Move sent bytes through the attacker.
    fn attack(&mut self) {
        loop {
            let len = self.sent.len() as u64;
            let base = self.base;
            let Some(t) = self.plan.tampers.get(self.tam_i).filter(|t| !t.rel || base.is_some()).cloned() else {
                let d = self.sent[self.in_pos as usize..].to_vec();
                self.in_pos = len;
                self.push_net(&d);
                return;
            };
            if self.in_pos < t.at {
                let end = t.at.min(len);
                let d = self.sent[self.in_pos as usize..end as usize].to_vec();
                self.in_pos = end;
                self.push_net(&d);
                if end < t.at {
                    return;
                }
            }
            // Overlapping tampers: skip those that lie behind.
            if t.at < self.in_pos && self.tam_prog == 0 {
                self.tam_i += 1;
                continue;
            }
            let avail = len - self.in_pos;
            let closed = self.writer_closed.is_some();
            let fin = |me: &mut Pipe, f: F| {
                me.tam_i += 1;
                me.tam_prog = 0;
                me.tampered = true;
                fired(f);
            };
            match t.op {
                TOp::Flip => {
                    if avail == 0 {
                        return;
                    }
                    let b = self.sent[self.in_pos as usize] ^ if t.mask == 0 { 1 } else { t.mask };
                    self.in_pos += 1;
                    self.push_net(&[b]);
                    fin(self, F::tamper_flip);
                }
                TOp::Drop | TOp::Replace | TOp::Dup => {
                    if avail == 0 {
                        return;
                    }
                    let n = avail.min(t.len.max(1) - self.tam_prog);
                    let d = self.sent[self.in_pos as usize..(self.in_pos + n) as usize].to_vec();
                    self.in_pos += n;
                    match t.op {
                        TOp::Replace => {
                            let mut r = Rng::new(t.mask as u64 ^ t.at ^ (self.tam_prog << 32));
                            let d = r.bytes(d.len());
                            self.push_net(&d);
                        }
                        TOp::Dup => self.push_net(&d),
                        _ => {}
                    }
                    self.tam_prog += n;
                    self.tampered = true;
                    if self.tam_prog < t.len.max(1) {
                        return;
                    }
                    match t.op {
                        TOp::Dup => {
                            let d = self.sent[t.at as usize..(t.at + t.len.max(1)) as usize].to_vec();
                            self.push_net(&d);
                            fin(self, F::tamper_dup)
                        }
                        TOp::Replace => fin(self, F::tamper_replace),
                        _ => fin(self, F::tamper_drop),
                    }
                }
                TOp::Insert => {
                    let d = Rng::new(t.mask as u64 ^ (t.at << 8)).bytes(t.len.max(1) as usize);
                    self.push_net(&d);
                    fin(self, F::tamper_insert);
                }
                TOp::Replay => {
                    let a = t.from.min(self.in_pos);
                    let b = (t.from + t.len.max(1)).min(self.in_pos);
                    let d = self.sent[a as usize..b as usize].to_vec();
                    self.push_net(&d);
                    fin(self, F::tamper_replay);
                }
                TOp::Reflect => {
                    let other = &pipes()[self.id ^ 1].sent;
                    let a = (t.from as usize).min(other.len());
                    let b = ((t.from + t.len.max(1)) as usize).min(other.len());
                    let d = other[a..b].to_vec();
                    self.push_net(&d);
                    fin(self, F::tamper_reflect);
                }
                TOp::Swap => {
                    let (l1, l2) = (t.len.max(1), t.from.max(1));
                    if avail < l1 + l2 {
                        if closed {
                            self.tam_i += 1;
                            continue;
                        }
                        return;
                    }
                    let s = self.in_pos as usize;
                    let d1 = self.sent[s..s + l1 as usize].to_vec();
                    let d2 = self.sent[s + l1 as usize..s + (l1 + l2) as usize].to_vec();
                    self.in_pos += l1 + l2;
                    self.push_net(&d2);
                    self.push_net(&d1);
                    fin(self, F::tamper_swap);
                }
                TOp::Cut => {
                    fin(self, F::cut_eof);
                    self.in_pos = len;
                    self.cut = true;
                    self.eof_now();
                    return;
                }
            }
        }
    }

    fn to_wire(&mut self, data: &[u8]) {
        self.sent.extend_from_slice(data);
        let off = self.sent.len() as u64;
        self.sent_marks.push((off, now()));
        if self.cut {
            self.in_pos = off;
            return;
        }
        self.attack();
    }

    fn room(&self) -> u64 {
        if self.reader_closed.is_some() || self.cut {
            return u64::MAX;
        }
        self.plan.cap.saturating_sub(self.queued)
    }

    pub fn try_read(&mut self, buf: &mut [u8]) -> Rd {
        // Faults on the receiving side.
        for i in 0..self.plan.faults.len() {
            let f = &self.plan.faults[i];
            if f.kind == PF::ReadErr && self.fstate[i] == 0 {
                let hit = if f.by_time { now() >= f.at * MS } else { self.consumed >= f.at };
                if hit {
                    if !f.sticky {
                        self.fstate[i] = 1;
                    }
                    self.read_errs += 1;
                    self.read_err_at.push(now());
                    self.last_avail = self.last_avail.max(if f.by_time { now() } else { 0 });
                    fired(F::read_error);
                    return Rd::Err(f.err);
                }
            }
        }
        let mut limit = buf.len();
        let mut wait_until = None;
        for i in 0..self.plan.faults.len() {
            let f = &self.plan.faults[i];
            if f.kind == PF::ReadErr && self.fstate[i] == 0 {
                if f.by_time {
                    wait_until = Some(f.at * MS);
                } else {
                    limit = limit.min((f.at - self.consumed) as usize);
                }
            }
        }
        let t = now();
        let mut avail = 0usize;
        for s in &self.q {
            if s.at > t || avail >= limit {
                break;
            }
            avail += s.data.len() - s.pos;
        }
        if avail == 0 {
            if let Some(s) = self.q.front() {
                return Rd::NotYet(Some(wait_until.map_or(s.at, |w| w.min(s.at))));
            }
            return match self.eof_at {
                Some(e) if e <= t => {
                    self.last_avail = self.last_avail.max(e);
                    match self.plan.close_err {
                        Some(k) => {
                            self.read_errs += 1;
                    self.read_err_at.push(now());
                            fired(F::read_error);
                            Rd::Err(k)
                        }
                        None => Rd::Eof,
                    }
                }
                Some(e) => Rd::NotYet(Some(wait_until.map_or(e, |w| w.min(e)))),
                None => Rd::NotYet(wait_until),
            };
        }
        let mut n = avail.min(limit);
        if n > 1 && self.plan.p_rshort > 0 {
            let c = choose(k::RSHORT, self.id, SIZES.len() + 1, self.plan.p_rshort);
            if c > 0 && SIZES[c - 1] < n {
                n = SIZES[c - 1];
                kernel::kern().faults[F::short_read as usize] += 1;
            }
        }
        let mut done = 0;
        while done < n {
            let s = self.q.front_mut().unwrap();
            let m = (s.data.len() - s.pos).min(n - done);
            buf[done..done + m].copy_from_slice(&s.data[s.pos..s.pos + m]);
            s.pos += m;
            done += m;
            self.last_avail = self.last_avail.max(s.at);
            if s.pos == s.data.len() {
                self.q.pop_front();
            }
        }
        self.consumed += n as u64;
        self.queued -= n as u64;
        Rd::Data(n)
    }

    pub fn try_write(&mut self, data: &[u8]) -> Wr {
        if data.is_empty() {
            return Wr::Ok(0);
        }
        let mut limit = data.len() as u64;
        for i in 0..self.plan.faults.len() {
            if self.fstate[i] != 0 || !matches!(self.plan.faults[i].kind, PF::WriteErr | PF::WriteZero) {
                continue;
            }
            if self.plan.faults[i].by_time {
                if now() < self.plan.faults[i].at * MS {
                    continue;
                }
                let at = self.accepted + self.plan.faults[i].extra;
                self.plan.faults[i].by_time = false;
                self.plan.faults[i].at = at;
            }
            let f = &self.plan.faults[i];
            if self.accepted >= f.at {
                if !f.sticky {
                    self.fstate[i] = 1;
                }
                self.write_errs += 1;
                if self.first_write_err.is_none() {
                    self.first_write_err = Some(now());
                }
                if f.kind == PF::WriteZero {
                    fired(F::write_zero);
                    return Wr::Zero;
                }
                fired(F::write_error);
                return Wr::Err(f.err);
            }
            if f.at - self.accepted < limit {
                limit = f.at - self.accepted;
                fired(F::write_partial);
            }
        }
        if self.writer_closed.is_some() || (self.reader_closed.is_some() && !self.plan.sink_on_reader_drop) {
            self.write_errs += 1;
            if self.first_write_err.is_none() {
                self.first_write_err = Some(now());
            }
            return Wr::Err(EK::BrokenPipe);
        }
        // A stalled transport takes nothing for a while.
        if let Some(t) = self.next_stall_end() {
            self.stalled_until = self.stalled_until.max(t);
            fired(F::net_stall);
            return Wr::Full;
        }
        let room = if self.plan.buffered > 0 {
            (self.plan.buffered - (self.pend.len() as u64).min(self.plan.buffered)).max(if self.room() > self.pend.len() as u64 { 1 } else { 0 })
        } else {
            self.room()
        };
        if room == 0 {
            return Wr::Full;
        }
        let mut n = limit.min(room) as usize;
        if n > 1 && self.plan.p_wshort > 0 {
            let c = choose(k::WSHORT, self.id, SIZES.len() + 1, self.plan.p_wshort);
            if c > 0 && SIZES[c - 1] < n {
                n = SIZES[c - 1];
                kernel::kern().faults[F::short_write as usize] += 1;
            }
        }
        self.accepted += n as u64;
        self.write_calls += 1;
        if self.write_errs > 0 {
            kernel::kern().faults[F::write_after_error as usize] += 1;
        }
        if self.plan.buffered > 0 {
            self.pend.extend_from_slice(&data[..n]);
            if self.pend.len() as u64 >= self.plan.buffered {
                let d = std::mem::take(&mut self.pend);
                self.to_wire(&d);
            }
        } else {
            self.to_wire(&data[..n]);
        }
        Wr::Ok(n)
    }

    pub fn try_flush(&mut self) -> Result<(), EK> {
        let idx = self.flushes;
        self.flushes += 1;
        for i in 0..self.plan.faults.len() {
            let f = &self.plan.faults[i];
            if f.kind == PF::FlushErr && self.fstate[i] == 0 {
                let hit = if f.by_time { now() >= f.at * MS } else { idx >= f.at };
                if hit {
                    if !f.sticky {
                        self.fstate[i] = 1;
                    }
                    self.write_errs += 1;
                    if self.first_write_err.is_none() {
                        self.first_write_err = Some(now());
                    }
                    fired(F::flush_error);
                    return Err(f.err);
                }
            }
        }
        if !self.pend.is_empty() {
            kernel::kern().faults[F::unflushed_buffer as usize] += 1;
            let d = std::mem::take(&mut self.pend);
            self.to_wire(&d);
        }
        Ok(())
    }

    fn next_stall_end(&self) -> Option<u64> {
        let t = now();
        self.plan
            .faults
            .iter()
            .filter(|f| f.kind == PF::Stall && f.by_time && !f.rel && t >= f.at * MS && t < (f.at + f.dur_ms) * MS)
            .map(|f| (f.at + f.dur_ms) * MS)
            .max()
    }
}

/// Offset of the sender's end after everything handed over so far (flushed or not).
pub fn accepted(id: usize) -> u64 {
    pipes()[id].accepted
}

// ------------------------------------------------------------------ wake-ups

static mut TIMERS: Vec<(u64, u64, Waker)> = Vec::new();
static mut TSEQ: u64 = 0;
const TIMER_KEY: u64 = 0xE100_0000_0000_0000;

/// Wake `w` at simulated time `t` (a network event, not the runtime's own timer).
#[allow(static_mut_refs)]
fn wake_at(t: u64, w: Waker) {
    unsafe {
        TSEQ += 1;
        TIMERS.push((t, TSEQ, w));
    }
    kernel::wake(TIMER_KEY, 1);
}

/// The network's wakers keep runtimes alive.
#[allow(static_mut_refs)]
pub fn forget_wakers() {
    let _g = Guard::new();
    unsafe { TIMERS.clear() };
    for p in pipes().iter_mut() {
        p.rwaker = None;
        p.wwaker = None;
    }
}

/// The thread that plays the network card: it wakes async tasks when bytes arrive.
#[allow(static_mut_refs)]
pub fn net_thread() {
    let _g = Guard::new();
    loop {
        let t = now();
        let mut due = Vec::new();
        unsafe {
            let mut i = 0;
            while i < TIMERS.len() {
                if TIMERS[i].0 <= t {
                    due.push(TIMERS.remove(i));
                } else {
                    i += 1;
                }
            }
        }
        due.sort_by_key(|d| (d.0, d.1));
        if !due.is_empty() {
            for d in due {
                d.2.wake();
            }
            continue;
        }
        let next = unsafe { TIMERS.iter().map(|t| t.0).min() };
        kernel::block(TIMER_KEY, next);
    }
}

/// After a change to the pipe: wake whoever waits for it.
fn notify(id: usize) {
    let p = &mut pipes()[id];
    kernel::wake(rkey(id), usize::MAX);
    let first = p.q.front().map(|s| s.at).or(p.eof_at);
    if let Some(t) = first {
        if let Some(w) = pipes()[id].rwaker.take() {
            if t <= now() {
                w.wake();
            } else {
                wake_at(t, w);
            }
        }
    }
}
fn notify_writer(id: usize) {
    let p = &mut pipes()[id];
    p.last_room = now();
    kernel::wake(wkey(id), usize::MAX);
    if let Some(w) = p.wwaker.take() {
        w.wake();
    }
}

pub fn close_writer(id: usize) {
    let _g = Guard::new();
    let p = &mut pipes()[id];
    if p.writer_closed.is_none() {
        p.lost_unflushed += p.pend.len() as u64;
        p.pend.clear();
        p.writer_closed = Some(now());
        p.room_at_close = p.last_room.max(p.stalled_until);
        if !p.cut {
            p.attack();
        }
        p.eof_now();
        kernel::logline(|| format!("pipe{id} writer closed"));
        kernel::note(0xC105E + id as u64);
        notify(id);
    }
}
fn close_reader(id: usize) {
    let _g = Guard::new();
    let p = &mut pipes()[id];
    if p.reader_closed.is_none() {
        p.reader_closed = Some(now());
        p.q.clear();
        p.queued = 0;
        kernel::logline(|| format!("pipe{id} reader closed"));
        notify_writer(id);
    }
}

/// Run over, or past caring: handles dropped after the end of the run change nothing.
fn dead() -> bool {
    !kernel::active()
}

pub struct SyncReader(pub usize);
pub struct SyncWriter(pub usize);

impl Drop for SyncReader {
    fn drop(&mut self) {
        if !dead() {
            pipes()[self.0].r_dropped = Some(now());
            close_reader(self.0)
        }
    }
}
impl Drop for SyncWriter {
    fn drop(&mut self) {
        if !dead() {
            pipes()[self.0].w_dropped = Some(now());
            close_writer(self.0)
        }
    }
}

impl Read for SyncReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _g = Guard::new();
        kernel::yield_point();
        let id = self.0;
        if buf.is_empty() {
            return Ok(0);
        }
        let p = pipes()[id].plan.p_eintr_r;
        if p > 0 && choose(k::EINTR, id * 2, 2, p) > 0 {
            kernel::kern().faults[F::eintr_read as usize] += 1;
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        loop {
            match pipes()[id].try_read(buf) {
                Rd::Data(n) => {
                    kernel::logline(|| format!("pipe{id} read {n}/{} at {}", buf.len(), pipes()[id].consumed));
                    notify_writer(id);
                    return Ok(n);
                }
                Rd::Eof => return Ok(0),
                Rd::Err(e) => return Err(e.err()),
                Rd::NotYet(d) => {
                    kernel::block(rkey(id), d);
                    // A signal may arrive while blocked.
                    if p > 0 && choose(k::EINTR, id * 2, 2, p) > 0 {
                        kernel::kern().faults[F::eintr_read as usize] += 1;
                        return Err(io::Error::from(ErrorKind::Interrupted));
                    }
                }
            }
        }
    }
}

impl Write for SyncWriter {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        let _g = Guard::new();
        kernel::yield_point();
        let id = self.0;
        let p = pipes()[id].plan.p_eintr_w;
        if p > 0 && choose(k::EINTR, id * 2 + 1, 2, p) > 0 {
            kernel::kern().faults[F::eintr_write as usize] += 1;
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        loop {
            match pipes()[id].try_write(data) {
                Wr::Ok(n) => {
                    kernel::logline(|| format!("pipe{id} wrote {n}/{} at {}", data.len(), pipes()[id].accepted));
                    notify(id);
                    return Ok(n);
                }
                Wr::Zero => return Ok(0),
                Wr::Err(e) => return Err(e.err()),
                Wr::Full => {
                    kernel::kern().faults[F::backpressure_block as usize] += 1;
                    let d = pipes()[id].next_stall_end();
                    kernel::block(wkey(id), d);
                    if p > 0 && choose(k::EINTR, id * 2 + 1, 2, p) > 0 {
                        kernel::kern().faults[F::eintr_write as usize] += 1;
                        return Err(io::Error::from(ErrorKind::Interrupted));
                    }
                }
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        let _g = Guard::new();
        kernel::yield_point();
        let id = self.0;
        let r = pipes()[id].try_flush();
        notify(id);
        r.map_err(|e| e.err())
    }
}

pub struct AsyncReader(pub usize);
pub struct AsyncWriter(pub usize);
impl Drop for AsyncReader {
    fn drop(&mut self) {
        if !dead() {
            // A waker keeps its runtime alive.
            let w = pipes()[self.0].rwaker.take();
            drop(w);
            pipes()[self.0].r_dropped = Some(now());
            close_reader(self.0)
        }
    }
}
impl Drop for AsyncWriter {
    fn drop(&mut self) {
        if !dead() {
            let w = pipes()[self.0].wwaker.take();
            drop(w);
            pipes()[self.0].w_dropped = Some(now());
            close_writer(self.0)
        }
    }
}

fn spurious(id: usize, cx: &mut Context<'_>) -> bool {
    let p = pipes()[id].plan.p_spur;
    if p > 0 && choose(k::SPUR, id, 2, p) > 0 {
        kernel::kern().faults[F::spurious_pending as usize] += 1;
        cx.waker().wake_by_ref();
        return true;
    }
    false
}

impl AsyncRead for AsyncReader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let _g = Guard::new();
        kernel::yield_point();
        let id = self.0;
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if spurious(id, cx) {
            return Poll::Pending;
        }
        let n = buf.remaining().min(1 << 23);
        let mut tmp = vec![0u8; n];
        match pipes()[id].try_read(&mut tmp) {
            Rd::Data(n) => {
                buf.put_slice(&tmp[..n]);
                kernel::logline(|| format!("pipe{id} poll_read {n} at {}", pipes()[id].consumed));
                notify_writer(id);
                Poll::Ready(Ok(()))
            }
            Rd::Eof => Poll::Ready(Ok(())),
            Rd::Err(e) => Poll::Ready(Err(e.err())),
            Rd::NotYet(d) => {
                match d {
                    Some(t) => {
                        pipes()[id].rwaker = Some(cx.waker().clone());
                        wake_at(t, cx.waker().clone())
                    }
                    None => pipes()[id].rwaker = Some(cx.waker().clone()),
                }
                Poll::Pending
            }
        }
    }
}

impl AsyncWrite for AsyncWriter {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let _g = Guard::new();
        kernel::yield_point();
        let id = self.0;
        if spurious(id, cx) {
            return Poll::Pending;
        }
        match pipes()[id].try_write(data) {
            Wr::Ok(n) => {
                kernel::logline(|| format!("pipe{id} poll_write {n}/{} at {}", data.len(), pipes()[id].accepted));
                notify(id);
                Poll::Ready(Ok(n))
            }
            Wr::Zero => Poll::Ready(Ok(0)),
            Wr::Err(e) => Poll::Ready(Err(e.err())),
            Wr::Full => {
                kernel::kern().faults[F::backpressure_block as usize] += 1;
                pipes()[id].wwaker = Some(cx.waker().clone());
                if let Some(t) = pipes()[id].next_stall_end() {
                    wake_at(t, cx.waker().clone());
                }
                Poll::Pending
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _g = Guard::new();
        kernel::yield_point();
        let id = self.0;
        if spurious(id, cx) {
            return Poll::Pending;
        }
        let r = pipes()[id].try_flush();
        notify(id);
        Poll::Ready(r.map_err(|e| e.err()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

/// The sender of pipe `id` has finished its handshake.
pub fn set_base(id: usize) {
    let _g = Guard::new();
    pipes()[id].set_base();
    kernel::wake(rkey(id), usize::MAX);
    if let Some(w) = pipes()[id].rwaker.take() {
        w.wake();
    }
}
