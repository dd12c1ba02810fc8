//! Endpoints that run the code under test, on top of the simulated transports.

use std::future::Future;
use std::io::{BufReader, Cursor, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

use bip324::io::{Payload, Protocol, ProtocolError, ProtocolReader, ProtocolWriter};
use bip324::{
    CipherSession, GarbageResult, Handshake, InboundCipher, Initialized, OutboundCipher, PacketType, ReceivedKey, Role,
    VersionResult,
};
use bip324_traffic::{DecoyStrategy, PaddingStrategy, TrafficConfig};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::hist::*;
use crate::kernel::{self, choose, fired, harness, k, sut, F, MS};
use crate::pipe::{self, pipes, AsyncReader, AsyncWriter, SyncReader, SyncWriter};
use crate::plan::*;
use crate::prng::hash_bytes;

type BR = Box<dyn Read + Send>;
type BW = Box<dyn Write + Send>;
type AR = Box<dyn AsyncRead + Unpin + Send>;
type AW = Box<dyn AsyncWrite + Unpin + Send>;

pub fn role(e: usize) -> Role {
    if plan().eps[e].init {
        Role::Initiator
    } else {
        Role::Responder
    }
}

pub fn config(e: usize) -> TrafficConfig {
    let ep = &plan().eps[e];
    let mut c = TrafficConfig::new();
    if ep.pad {
        c = c.with_padding_strategy(PaddingStrategy::Random);
    }
    if ep.cover {
        c = c.with_decoy_strategy(DecoyStrategy::Random);
    }
    c
}

/// Payloads that came out of another session: `relayed()[e][i]`.
static mut RELAYED: Vec<Vec<Option<Payload>>> = Vec::new();
#[allow(static_mut_refs)]
fn relayed() -> &'static mut Vec<Vec<Option<Payload>>> {
    unsafe { &mut RELAYED }
}

/// Bytes that become readable when the other side has seen what it waits for.
#[derive(Clone, Default)]
struct Loop(std::sync::Arc<std::sync::Mutex<(Vec<u8>, std::collections::VecDeque<u8>)>>);
struct LoopReader(Loop, u64, Option<crate::crypto::RefSession>);
impl Read for LoopReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut g = self.0 .0.lock().unwrap();
        if self.2.is_none() {
            let mine: [u8; 64] = g.0[..64].try_into().unwrap();
            let (sk, key) = crate::refpeer::ref_key(self.1, 0);
            let x = crate::refpeer::ecdh_x(&mine, &key, &sk, false);
            let mut s = crate::crypto::RefSession::derive(&x, &mine, &key, &[0xF9, 0xBE, 0xB4, 0xD9], false);
            g.1.extend(key);
            g.1.extend(s.send_term);
            g.1.extend(s.packet(0, &[], &[]));
            for (e, ep) in plan().eps.iter().enumerate() {
                for (i, w) in ep.writes.iter().enumerate() {
                    if w.relay {
                        g.1.extend(s.packet(w.hdr | if w.decoy { 0x80 } else { 0 }, &plan().payload(e, i), &[]));
                    }
                }
            }
            self.2 = Some(s);
        }
        let n = b.len().min(g.1.len());
        for (x, y) in b.iter_mut().zip(g.1.drain(..n)) {
            *x = y;
        }
        Ok(n)
    }
}
impl Write for Loop {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Read the payloads to be relayed from a session of their own.
fn make_relayed() {
    let pl = plan();
    if !pl.eps.iter().any(|e| e.writes.iter().any(|w| w.relay)) {
        return;
    }
    let _g = kernel::Guard::new();
    let l = Loop::default();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut out = Vec::new();
        let Ok(mut p) = Protocol::new([0xF9, 0xBE, 0xB4, 0xD9], Role::Initiator, None, None, LoopReader(l.clone(), pl.pseed, None), l) else {
            return out;
        };
        for ep in &pl.eps {
            out.push(ep.writes.iter().map(|w| if w.relay { p.read().ok() } else { None }).collect::<Vec<_>>());
        }
        out
    }));
    // If that session fails, the payloads are made by hand; what is wrong with it is for others to find.
    *relayed() = r.unwrap_or_default();
}

fn payload(e: usize, i: usize) -> Payload {
    let _g = kernel::Guard::new();
    if let Some(Some(p)) = relayed().get(e).and_then(|v| v.get(i)) {
        fired(F::relayed);
        return p.clone();
    }
    let p = plan().payload(e, i);
    if plan().eps[e].writes[i].decoy {
        Payload::decoy(p)
    } else {
        Payload::genuine(p)
    }
}

pub fn panic_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Call into the code under test; a panic becomes an error class.
pub fn call<T>(f: impl FnOnce() -> Result<T, ProtocolError>) -> Result<T, EC> {
    match catch_unwind(AssertUnwindSafe(|| sut(f))) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(EC::of(&e)),
        Err(p) => Err(EC::Panic(panic_msg(&*p))),
    }
}

type Got = (bool, usize, u64);

fn got(p: &Payload) -> Got {
    let _g = kernel::Guard::new();
    (p.packet_type() == PacketType::Decoy, p.contents().len(), hash_bytes(p.contents()))
}

pub trait RHalf: Send {
    fn read(&mut self) -> Result<Got, ProtocolError>;
    fn inner(self: Box<Self>) -> Option<(InboundCipher, BR)>;
}
pub trait WHalf: Send {
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError>;
    fn inner(self: Box<Self>) -> Box<dyn WHalf>;
}
pub trait Whole: Send {
    fn read(&mut self) -> Result<Got, ProtocolError>;
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError>;
    fn split(self: Box<Self>) -> (Box<dyn RHalf>, Box<dyn WHalf>);
}

impl RHalf for ProtocolReader<BR> {
    fn read(&mut self) -> Result<Got, ProtocolError> {
        self.read().map(|p| got(&p))
    }
    fn inner(self: Box<Self>) -> Option<(InboundCipher, BR)> {
        let (c, r) = self.into_inner();
        Some((c, Box::new(r)))
    }
}
impl WHalf for ProtocolWriter<BW> {
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        self.write(p)
    }
    fn inner(self: Box<Self>) -> Box<dyn WHalf> {
        let (c, w) = self.into_inner();
        Box::new(RawW { c, w })
    }
}
impl Whole for Protocol<BR, BW> {
    fn read(&mut self) -> Result<Got, ProtocolError> {
        self.read().map(|p| got(&p))
    }
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        self.write(p)
    }
    fn split(self: Box<Self>) -> (Box<dyn RHalf>, Box<dyn WHalf>) {
        let (r, w) = self.into_split();
        (Box::new(r), Box::new(w))
    }
}
impl RHalf for bip324_traffic::io::ShapedProtocolReader<BR> {
    fn read(&mut self) -> Result<Got, ProtocolError> {
        self.read().map(|p| got(&p))
    }
    fn inner(self: Box<Self>) -> Option<(InboundCipher, BR)> {
        None
    }
}
impl WHalf for bip324_traffic::io::ShapedProtocolWriter<BW> {
    fn inner(self: Box<Self>) -> Box<dyn WHalf> {
        self
    }
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        self.write(p)
    }
}
impl Whole for bip324_traffic::io::ShapedProtocol<BR, BW> {
    fn read(&mut self) -> Result<Got, ProtocolError> {
        self.read().map(|p| got(&p))
    }
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        self.write(p)
    }
    fn split(self: Box<Self>) -> (Box<dyn RHalf>, Box<dyn WHalf>) {
        let (r, w) = self.into_split();
        (Box::new(r), Box::new(w))
    }
}

// ------------------------------------------------------------------ sans-I/O endpoint

struct SansR {
    c: InboundCipher,
    r: BR,
    e: usize,
}
struct SansW {
    c: OutboundCipher,
    w: BW,
    e: usize,
}
struct SansAll {
    s: CipherSession,
    r: BR,
    w: BW,
    e: usize,
}

fn sans_read(c: &mut InboundCipher, r: &mut dyn Read, e: usize) -> Result<Got, ProtocolError> {
    let mut lb = [0u8; 3];
    r.read_exact(&mut lb)?;
    let n = c.decrypt_packet_len(lb);
    if n - 16 > 4_000_014 {
        return Err(ProtocolError::Internal(bip324::Error::PacketTooBig));
    }
    let mut ct = vec![0u8; n];
    r.read_exact(&mut ct)?;
    if plan().eps[e].clones && choose(k::APP, e, 4, 16384) == 1 {
        *c = c.clone();
    }
    let how = choose(k::APP, e, 3, 43690);
    let pick = |t: PacketType, pt: &[u8]| {
        let _g = kernel::Guard::new();
        (t == PacketType::Decoy, pt.len() - 1, hash_bytes(&pt[1..]))
    };
    match how {
        1 => {
            let (t, pt) = c.decrypt_in_place(&mut ct, None)?;
            Ok(pick(t, pt))
        }
        2 if n < 3_999_000 => {
            let (t, pt) = c.decrypt_to_vec(&ct, None)?;
            Ok(pick(t, &pt))
        }
        _ => {
            let mut buf = vec![0u8; InboundCipher::decryption_buffer_len(n)];
            let t = c.decrypt(&ct, &mut buf, None)?;
            Ok(pick(t, &buf))
        }
    }
}
fn sans_write(c: &mut OutboundCipher, w: &mut dyn Write, p: &Payload, e: usize) -> Result<(), ProtocolError> {
    if plan().eps[e].clones && choose(k::APP, e, 4, 16384) == 1 {
        *c = c.clone();
    }
    let b = if choose(k::APP, e, 2, 32768) == 1 {
        c.encrypt_to_vec(p.contents(), p.packet_type(), None)
    } else {
        let mut b = vec![0u8; OutboundCipher::encryption_buffer_len(p.contents().len())];
        c.encrypt(p.contents(), &mut b, p.packet_type(), None)?;
        b
    };
    w.write_all(&b)?;
    w.flush()?;
    Ok(())
}
impl RHalf for SansR {
    fn read(&mut self) -> Result<Got, ProtocolError> {
        sans_read(&mut self.c, &mut self.r, self.e)
    }
    fn inner(self: Box<Self>) -> Option<(InboundCipher, BR)> {
        Some((self.c, self.r))
    }
}
impl WHalf for SansW {
    fn inner(self: Box<Self>) -> Box<dyn WHalf> {
        self
    }
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        sans_write(&mut self.c, &mut self.w, p, self.e)
    }
}
impl Whole for SansAll {
    fn read(&mut self) -> Result<Got, ProtocolError> {
        sans_read(self.s.inbound(), &mut self.r, self.e)
    }
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        sans_write(self.s.outbound(), &mut self.w, p, self.e)
    }
    fn split(self: Box<Self>) -> (Box<dyn RHalf>, Box<dyn WHalf>) {
        let (i, o) = self.s.into_split();
        (Box::new(SansR { c: i, r: self.r, e: self.e }), Box::new(SansW { c: o, w: self.w, e: self.e }))
    }
}

const CHUNKS: [usize; 8] = [1, 2, 7, 16, 64, 255, 1024, 8192];

/// Drive the state machine by hand, with the caller's own buffering.
fn sans_handshake(e: usize, mut r: BR, mut w: BW) -> Result<SansAll, ProtocolError> {
    let pl = plan();
    let (garbage, decoys) = harness(|| (pl.garbage(e), pl.decoy_vecs(e)));
    let g = garbage.as_deref();
    let refs: Option<Vec<&[u8]>> = decoys.as_ref().map(|v| v.iter().map(Vec::as_slice).collect());
    let d = refs.as_deref();
    let spare = [0, 1, 100][choose(k::APP, e, 3, 20000)];
    let h = Handshake::<Initialized>::new(pl.magic_bytes(e), role(e))?;
    let n = Handshake::<Initialized>::send_key_len(g);
    let mut b = vec![0u8; n + spare];
    let h = h.send_key(g, &mut b)?;
    w.write_all(&b[..n])?;
    w.flush()?;
    let mut key = [0u8; 64];
    r.read_exact(&mut key)?;
    let h = h.receive_key(key)?;
    let n = Handshake::<ReceivedKey>::send_version_len(d);
    let mut b = vec![0u8; n + spare];
    let h = h.send_version(&mut b, d)?;
    w.write_all(&b[..n])?;
    w.flush()?;
    let mut buf = Vec::new();
    let mut h = h;
    let (mut h, used) = loop {
        let n = CHUNKS[choose(k::APP, e, CHUNKS.len(), 50000)];
        let mut t = vec![0u8; n];
        let n = loop {
            match r.read(&mut t) {
                Err(x) if x.kind() == ErrorKind::Interrupted => {}
                x => break x?,
            }
        };
        if n == 0 {
            return Err(ProtocolError::eof());
        }
        buf.extend_from_slice(&t[..n]);
        match h.receive_garbage(&buf)? {
            GarbageResult::FoundGarbage { handshake, consumed_bytes } => break (handshake, consumed_bytes),
            GarbageResult::NeedMoreData(x) => h = x,
        }
    };
    let left = buf[used..].to_vec();
    let mut r: BR = Box::new(Read::chain(Cursor::new(left), r));
    loop {
        let mut lb = [0u8; 3];
        r.read_exact(&mut lb)?;
        let n = h.decrypt_packet_len(lb)?;
        if n > 4_000_014 {
            return Err(ProtocolError::Internal(bip324::Error::PacketTooBig));
        }
        let mut p = vec![0u8; n];
        r.read_exact(&mut p)?;
        match h.receive_version(&mut p)? {
            VersionResult::Complete { cipher } => {
                let id = *cipher.id();
                harness(|| logs()[e].sid = Some(id));
                return Ok(SansAll { s: cipher, r, w, e });
            }
            VersionResult::Decoy(x) => h = x,
        }
    }
}

// ------------------------------------------------------------------ blocking endpoints

struct RawW {
    c: OutboundCipher,
    w: BW,
}
impl WHalf for RawW {
    fn inner(self: Box<Self>) -> Box<dyn WHalf> {
        self
    }
    fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        let mut b = vec![0u8; OutboundCipher::encryption_buffer_len(p.contents().len())];
        self.c.encrypt(p.contents(), &mut b, p.packet_type(), None)?;
        self.w.write_all(&b)?;
        self.w.flush()?;
        Ok(())
    }
}

fn pause(ms: u64) {
    if ms > 0 {
        kernel::sleep(ms * MS);
    }
}

fn do_read(e: usize, f: &mut dyn FnMut() -> Result<Got, ProtocolError>) -> Result<(), EC> {
    let i = begin(e, What::Read);
    match call(f) {
        Ok((d, len, hash)) => {
            end(e, i, Res::Payload { decoy: d, len, hash, hdr: 0 });
            note_payload(e, i, d, len, hash);
            Ok(())
        }
        Err(c) => {
            end(e, i, Res::Err(c.clone()));
            Err(c)
        }
    }
}
fn do_write(e: usize, n: usize, f: &mut dyn FnMut(&Payload) -> Result<(), ProtocolError>) -> bool {
    let p = payload(e, n);
    pause(plan().eps[e].writes[n].gap_ms);
    let i = begin(e, What::Write(n));
    let r = call(|| f(&p));
    let ok = r.is_ok();
    end(e, i, match r {
        Ok(()) => Res::Ok,
        Err(c) => Res::Err(c),
    });
    harness(|| drop(p));
    ok
}

/// Reading half, driven to the end of the stream.
fn drive_read(e: usize, mut r: Box<dyn RHalf>) {
    let pl = plan();
    let ep = &pl.eps[e];
    let want = pl.eps[e ^ 1].writes.len();
    let (mut marked, mut n, mut errs) = (false, 0u64, 0u64);
    loop {
        if !marked && logs()[e].got >= want {
            marked = true;
            part_done(e);
        }
        for (at, ms) in &ep.rpause {
            if *at == n {
                pause(*ms);
            }
        }
        pause(ep.rgap_ms);
        if ep.rd_limit.is_some_and(|l| n >= l) {
            harness(|| fired(F::reader_dropped));
            break;
        }
        if ep.inner_after == Some(n) {
            let i = begin(e, What::Inner);
            match call(|| Ok(r.inner())) {
                Ok(Some((c, rd))) => {
                    end(e, i, Res::Ok);
                    let from = pipes()[e ^ 1].consumed;
                    logs()[e].raw_from = Some(from);
                    raw_rest(e, c, rd);
                }
                Ok(None) => end(e, i, Res::Ok),
                Err(c) => end(e, i, Res::Err(c)),
            }
            if !marked {
                part_done(e);
            }
            return;
        }
        match do_read(e, &mut || r.read()) {
            Ok(()) => n += 1,
            Err(EC::Panic(_)) => break,
            Err(_) => {
                errs += 1;
                if errs > ep.read_retry {
                    break;
                }
            }
        }
    }
    if !marked {
        part_done(e);
    }
    if ep.r_hold_ms > 0 {
        pause(ep.r_hold_ms);
    }
    let i = begin(e, What::DropR);
    let r = call(move || {
        drop(r);
        Ok(())
    });
    end(e, i, r.map_or_else(Res::Err, |_| Res::Ok));
}

/// The reader handed back by the protocol: every remaining byte, then decode them with the cipher.
fn raw_rest(e: usize, mut c: InboundCipher, mut r: BR) {
    let mut all = Vec::new();
    loop {
        let n = CHUNKS[choose(k::APP, e, CHUNKS.len(), 60000)];
        let mut b = harness(|| vec![0u8; n]);
        match sut(|| r.read(&mut b)) {
            Ok(0) => break,
            Ok(n) => harness(|| all.extend_from_slice(&b[..n])),
            Err(x) if x.kind() == ErrorKind::Interrupted => {}
            Err(x) => {
                harness(|| logs()[e].raw_err = Some(EC::of(&ProtocolError::from(x))));
                break;
            }
        }
    }
    harness(|| logs()[e].raw = all.clone());
    decode_raw(e, &mut c, &all);
}
fn decode_raw(e: usize, c: &mut InboundCipher, all: &[u8]) {
    let mut cur = Cursor::new(all.to_vec());
    loop {
        if do_read(e, &mut || sans_read(c, &mut cur, e)).is_err() {
            return;
        }
    }
}

fn drive_write(e: usize, mut w: Box<dyn WHalf>) {
    let ep = &plan().eps[e];
    for n in 0..ep.writes.len() {
        if ep.winner_after == Some(n as u64) {
            w = sut(|| w.inner());
        }
        if !do_write(e, n, &mut |p| w.write(p)) && !ep.write_retry {
            break;
        }
    }
    pause(ep.w_hold_ms);
    part_done(e);
    if !ep.w_nobarrier {
        await_all();
    }
    drop_sync(e, What::DropW, w);
}

fn drop_sync<T: Send>(e: usize, what: What, x: T) {
    harness(|| fired(F::writer_dropped));
    let i = begin(e, what);
    let r = call(move || {
        drop(x);
        Ok(())
    });
    end(e, i, r.map_or_else(Res::Err, |_| Res::Ok));
    harness(|| {
        logs()[e].live_after_drop = Some(kernel::live_sut_threads());
        logs()[e].out_closed_at_drop = Some(pipes()[e].writer_closed.is_some());
    });
}

fn drive_whole(e: usize, mut w: Box<dyn Whole>) {
    let pl = plan();
    let ep = &pl.eps[e];
    let peer = &pl.eps[e ^ 1];
    let (na, nb) = (ep.writes.len(), peer.writes.len());
    let mut dead = false;
    let mut wdead = false;
    let mut errs = 0;
    // Sequence of (write i) / (read up to j payloads) steps.
    let mut steps: Vec<(bool, usize)> = Vec::new();
    if ep.batch {
        for i in 0..na {
            steps.push((true, i));
        }
        steps.push((false, nb));
    } else {
        for i in 0..na.max(nb) {
            let (a, b) = ((true, i), (false, i + 1));
            let seq = if ep.init { [a, b] } else { [b, a] };
            for s in seq {
                if (s.0 && s.1 < na) || (!s.0 && s.1 <= nb) {
                    steps.push(s);
                }
            }
        }
    }
    for (wr, j) in steps {
        if wr {
            if wdead {
                continue;
            }
            if !do_write(e, j, &mut |p| w.write(p)) && !ep.write_retry {
                wdead = true;
            }
        } else {
            while !dead && logs()[e].got < j {
                pause(ep.rgap_ms);
                match do_read(e, &mut || w.read()) {
                    Ok(()) => {}
                    Err(EC::Panic(_)) => dead = true,
                    Err(_) => {
                        errs += 1;
                        dead = errs > ep.read_retry;
                    }
                }
            }
        }
    }
    pause(ep.w_hold_ms);
    part_done(e);
    if ep.tail {
        while !dead {
            match do_read(e, &mut || w.read()) {
                Ok(()) => {}
                Err(EC::Panic(_)) => break,
                Err(_) => {
                    errs += 1;
                    dead = errs > ep.read_retry;
                }
            }
        }
    }
    if !ep.w_nobarrier {
        await_all();
    }
    drop_sync(e, What::DropAll, w);
}

enum SyncStart {
    Whole(Box<dyn Whole>),
    Raw(InboundCipher, BR, RawW),
}

pub fn sync_main(e: usize) {
    let pl = plan();
    let ep = &pl.eps[e];
    if let Some(id) = ep.entropy {
        kernel::pin_entropy(1000 + id);
    }
    logs()[e].parts = if ep.mode == Mode::Split { 2 } else { 1 };
    pause(ep.start_ms);
    let r: BR = if ep.rbuf > 0 {
        Box::new(BufReader::with_capacity(ep.rbuf as usize, SyncReader(e ^ 1)))
    } else {
        Box::new(SyncReader(e ^ 1))
    };
    let mut w: BW = Box::new(SyncWriter(e));
    let (garbage, decoys) = (pl.garbage(e), pl.decoy_vecs(e));
    let magic = pl.magic_bytes(e);
    let i = begin(e, What::Hs);
    let res: Result<SyncStart, EC> = match ep.kind {
        Kind::Sync if ep.inner_after == Some(0) => call(move || {
            let (inn, out, sr) = bip324::io::handshake(magic, role(e), garbage, decoys, r, &mut w)?;
            Ok(SyncStart::Raw(inn, Box::new(sr), RawW { c: out, w }))
        }),
        Kind::Sync => call(move || Ok(SyncStart::Whole(Box::new(Protocol::new(magic, role(e), garbage, decoys, r, w)?)))),
        Kind::Sans => call(move || Ok(SyncStart::Whole(Box::new(sans_handshake(e, r, w)?)))),
        Kind::ShSync => call(move || {
            Ok(SyncStart::Whole(Box::new(bip324_traffic::io::ShapedProtocol::new(magic, role(e), config(e), r, w)?)))
        }),
        _ => unreachable!(),
    };
    let s = match res {
        Ok(s) => {
            end(e, i, Res::Ok);
            pipe::set_base(e);
            hs_decided(e, true);
            s
        }
        Err(c) => {
            end(e, i, Res::Err(c));
            harness(|| logs()[e].hs_fail_live = Some(kernel::live_sut_threads()));
            hs_decided(e, false);
            part_done(e);
            if ep.mode == Mode::Split {
                part_done(e);
            }
            return;
        }
    };
    let s = match s {
        SyncStart::Whole(w) => age_sync(e, w),
        x => x,
    };
    match (s, ep.mode) {
        (SyncStart::Whole(w), Mode::Whole) => drive_whole(e, w),
        (SyncStart::Whole(mut w), Mode::Split) => {
            for _ in 0..ep.split_after {
                if do_read(e, &mut || w.read()).is_err() {
                    break;
                }
            }
            let (r, w) = match call(move || Ok(w.split())) {
                Ok(x) => x,
                Err(c) => {
                    let i = begin(e, What::Inner);
                    end(e, i, Res::Err(c));
                    part_done(e);
                    part_done(e);
                    return;
                }
            };
            let t = kernel::spawn("rd", move || drive_read(e, r));
            drive_write(e, w);
            t.join();
        }
        (SyncStart::Raw(c, r, w), _) => {
            let from = pl.hs_len(e ^ 1);
            logs()[e].raw_from = from;
            let t = kernel::spawn("rd", move || {
                raw_rest(e, c, r);
                if plan().eps[e].mode == Mode::Split {
                    part_done(e);
                }
            });
            drive_write(e, Box::new(w));
            t.join();
        }
    }
}

/// Move a fresh session to a given age (guarded hook in the code under test).
#[cfg(bip324_sim)]
fn age_sync(e: usize, w: Box<dyn Whole>) -> SyncStart {
    let ep = &plan().eps[e];
    if ep.age_in == 0 && ep.age_out == 0 {
        return SyncStart::Whole(w);
    }
    let any: Box<dyn Whole> = w;
    let raw = Box::into_raw(any);
    // The concrete type follows from the plan.
    unsafe {
        match ep.kind {
            Kind::Sans => {
                let mut s = Box::from_raw(raw as *mut SansAll);
                harness(|| fired(F::aged_session));
                if ep.age_in > 0 {
                    s.s.inbound().sim_set_message_count(ep.age_in);
                }
                if ep.age_out > 0 {
                    s.s.outbound().sim_set_message_count(ep.age_out);
                }
                SyncStart::Whole(s)
            }
            Kind::Sync => {
                let mut p = Box::from_raw(raw as *mut Protocol<BR, BW>);
                harness(|| fired(F::aged_session));
                if ep.age_in > 0 {
                    p.sim_inbound().sim_set_message_count(ep.age_in);
                }
                if ep.age_out > 0 {
                    p.sim_outbound().sim_set_message_count(ep.age_out);
                }
                SyncStart::Whole(p)
            }
            _ => SyncStart::Whole(Box::from_raw(raw)),
        }
    }
}
#[cfg(not(bip324_sim))]
fn age_sync(_e: usize, w: Box<dyn Whole>) -> SyncStart {
    SyncStart::Whole(w)
}

// ------------------------------------------------------------------ async endpoints

type AProto = bip324::futures::Protocol<AR, AW>;
type ASh = bip324_traffic::futures::ShapedProtocol<AR>;

enum AWhole {
    Plain(Box<AProto>),
    Shaped(Box<ASh>),
}
enum ARead {
    Plain(Box<bip324::futures::ProtocolReader<AR>>),
    Shaped(Box<bip324_traffic::futures::ShapedProtocolReader<AR>>),
    Whole(AWhole),
}
enum AWrite {
    Plain(Box<bip324::futures::ProtocolWriter<AW>>),
    Shaped(Box<bip324_traffic::futures::ShapedProtocolWriter>),
    Raw(OutboundCipher, AW),
}
impl ARead {
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            ARead::Plain(r) => r.read().await,
            ARead::Shaped(r) => r.read().await,
            ARead::Whole(AWhole::Plain(r)) => r.read().await,
            ARead::Whole(AWhole::Shaped(r)) => r.read().await,
        }
    }
    async fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            ARead::Whole(AWhole::Plain(r)) => r.write(p).await,
            ARead::Whole(AWhole::Shaped(r)) => r.write(p).await,
            _ => unreachable!(),
        }
    }
}
impl AWrite {
    async fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            AWrite::Plain(w) => w.write(p).await,
            AWrite::Shaped(w) => w.write(p).await,
            AWrite::Raw(c, w) => {
                let mut b = vec![0u8; OutboundCipher::encryption_buffer_len(p.contents().len())];
                c.encrypt(p.contents(), &mut b, p.packet_type(), None)?;
                w.write_all(&b).await?;
                w.flush().await?;
                Ok(())
            }
        }
    }
}

/// Polls the future, turns panics into errors, and drops it at a pending point when the scheduler
/// says so.
struct Cancellable<F> {
    f: Pin<Box<F>>,
    e: usize,
    p: u32,
}
impl<T, F: Future<Output = Result<T, ProtocolError>>> Future for Cancellable<F> {
    /// None: cancelled.
    type Output = Option<Result<T, EC>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let (e, p) = (self.e, self.p);
        match catch_unwind(AssertUnwindSafe(|| self.f.as_mut().poll(cx))) {
            Ok(Poll::Ready(Ok(x))) => Poll::Ready(Some(Ok(x))),
            Ok(Poll::Ready(Err(x))) => Poll::Ready(Some(Err(EC::of(&x)))),
            Ok(Poll::Pending) => {
                if p > 0 && choose(k::CANCEL, e, 2, p) > 0 {
                    fired(kernel::F::read_cancelled);
                    Poll::Ready(None)
                } else {
                    Poll::Pending
                }
            }
            Err(x) => Poll::Ready(Some(Err(EC::Panic(panic_msg(&*x))))),
        }
    }
}
fn guarded<F>(f: F, e: usize, p: u32) -> Cancellable<F> {
    Cancellable { f: Box::pin(f), e, p }
}

async fn apause(ms: u64) {
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
}

async fn a_read(e: usize, r: &mut ARead) -> Result<(), EC> {
    a_reads(e, r, plan().eps[e].cancel, 0).await.map(|_| ())
}
/// The application may turn to something else when a read is cancelled.
async fn a_read_maybe(e: usize, r: &mut ARead) -> Result<bool, EC> {
    a_reads(e, r, plan().eps[e].cancel, 16384).await
}
/// One attempt, given up at a pending point.
async fn a_try(e: usize, r: &mut ARead) -> Result<bool, EC> {
    a_reads(e, r, 32768, 65536).await
}
/// Whether a payload was read before giving up.
async fn a_reads(e: usize, r: &mut ARead, p: u32, give_up: u32) -> Result<bool, EC> {
    let i = begin(e, What::Read);
    loop {
        match guarded(r.read(), e, p).await {
            None => {
                if give_up == 65536 || give_up > 0 && choose(k::APP, e, 2, give_up) == 1 {
                    end(e, i, Res::Cancelled);
                    return Ok(false);
                }
                // Do something else before reading again.
                match choose(k::APP, e, 4, 49152) {
                    1 => tokio::task::yield_now().await,
                    2 => apause(1).await,
                    3 => apause(20).await,
                    _ => {}
                }
            }
            Some(Ok(pl)) => {
                let (d, len, hash) = got(&pl);
                drop(pl);
                end(e, i, Res::Payload { decoy: d, len, hash, hdr: 0 });
                note_payload(e, i, d, len, hash);
                return Ok(true);
            }
            Some(Err(c)) => {
                harness(|| end(e, i, Res::Err(c.clone())));
                return Err(c);
            }
        }
    }
}

async fn a_write<'a, Fu: Future<Output = Result<(), ProtocolError>>>(e: usize, n: usize, f: impl FnOnce(&'a Payload) -> Fu, p: &'a Payload) -> bool {
    apause(plan().eps[e].writes[n].gap_ms).await;
    let i = begin(e, What::Write(n));
    let ep = &plan().eps[e];
    let pc = if n + 1 < ep.writes.len() { ep.wcancel } else { 0 };
    match guarded(f(p), e, pc).await {
        None => {
            end(e, i, Res::Cancelled);
            true
        }
        Some(r) => {
            let ok = r.is_ok();
            end(e, i, r.map_or_else(Res::Err, |_| Res::Ok));
            ok
        }
    }
}

async fn a_await_all() {
    let d = linger_deadline();
    while !all_done() && kernel::now() < d {
        apause(40).await;
    }
}

async fn a_drive_read(e: usize, mut r: ARead) {
    let pl = plan();
    let ep = &pl.eps[e];
    let want = pl.eps[e ^ 1].writes.len();
    let (mut marked, mut n, mut errs) = (false, 0u64, 0u64);
    loop {
        if !marked && logs()[e].got >= want {
            marked = true;
            part_done(e);
        }
        for (at, ms) in &ep.rpause {
            if *at == n {
                apause(*ms).await;
            }
        }
        apause(ep.rgap_ms).await;
        if ep.rd_limit.is_some_and(|l| n >= l) {
            harness(|| fired(F::reader_dropped));
            break;
        }
        if ep.inner_after == Some(n) {
            if let ARead::Plain(p) = r {
                let i = begin(e, What::Inner);
                let (c, rd) = p.into_inner();
                end(e, i, Res::Ok);
                logs()[e].raw_from = Some(pipes()[e ^ 1].consumed);
                a_raw_rest(e, c, Box::new(rd)).await;
            }
            if !marked {
                part_done(e);
            }
            return;
        }
        match a_read(e, &mut r).await {
            Ok(()) => n += 1,
            Err(EC::Panic(_)) => break,
            Err(_) => {
                errs += 1;
                if errs > ep.read_retry {
                    break;
                }
            }
        }
    }
    if !marked {
        part_done(e);
    }
    apause(ep.r_hold_ms).await;
    let i = begin(e, What::DropR);
    drop(r);
    end(e, i, Res::Ok);
}

async fn a_raw_rest(e: usize, mut c: InboundCipher, mut r: AR) {
    let mut all = Vec::new();
    loop {
        let n = CHUNKS[choose(k::APP, e, CHUNKS.len(), 60000)];
        let mut b = vec![0u8; n];
        match r.read(&mut b).await {
            Ok(0) => break,
            Ok(n) => harness(|| all.extend_from_slice(&b[..n])),
            Err(x) => {
                harness(|| logs()[e].raw_err = Some(EC::of(&ProtocolError::from(x))));
                break;
            }
        }
    }
    harness(|| logs()[e].raw = all.clone());
    decode_raw(e, &mut c, &all);
}

async fn a_drive_write(e: usize, mut w: AWrite) {
    let ep = &plan().eps[e];
    for n in 0..ep.writes.len() {
        if ep.winner_after == Some(n as u64) {
            w = match w {
                AWrite::Plain(w) => {
                    let (c, w) = w.into_inner();
                    AWrite::Raw(c, w)
                }
                w => w,
            };
        }
        let p = payload(e, n);
        let ok = a_write(e, n, |p| w.write(p), &p).await;
        harness(|| drop(p));
        if !ok && !ep.write_retry {
            break;
        }
    }
    apause(ep.w_hold_ms).await;
    part_done(e);
    if !ep.w_nobarrier {
        a_await_all().await;
    }
    a_drop(e, What::DropW, w);
}

fn a_drop<T>(e: usize, what: What, x: T) {
    harness(|| fired(F::writer_dropped));
    let i = begin(e, what);
    let r = catch_unwind(AssertUnwindSafe(|| drop(x)));
    end(e, i, match r {
        Ok(()) => Res::Ok,
        Err(p) => Res::Err(EC::Panic(panic_msg(&*p))),
    });
}

async fn a_drive_whole(e: usize, w: AWhole) {
    let pl = plan();
    let ep = &pl.eps[e];
    let (na, nb) = (ep.writes.len(), pl.eps[e ^ 1].writes.len());
    let mut r = ARead::Whole(w);
    let (mut dead, mut wdead, mut errs) = (false, false, 0);
    let mut steps: Vec<(bool, usize)> = Vec::new();
    if ep.batch {
        for i in 0..na {
            steps.push((true, i));
        }
        steps.push((false, nb));
    } else {
        for i in 0..na.max(nb) {
            let (a, b) = ((true, i), (false, i + 1));
            for s in if ep.init { [a, b] } else { [b, a] } {
                if (s.0 && s.1 < na) || (!s.0 && s.1 <= nb) {
                    steps.push(s);
                }
            }
        }
    }
    // Whatever reads were put off.
    steps.push((false, nb));
    let last = steps.len() - 1;
    for (at, (wr, j)) in steps.into_iter().enumerate() {
        if wr {
            if !wdead {
                let p = payload(e, j);
                let ok = a_write(e, j, |p| r.write(p), &p).await;
                harness(|| drop(p));
                wdead = !ok && !ep.write_retry;
            }
        } else {
            while !dead && logs()[e].got < j {
                apause(ep.rgap_ms).await;
                let res = if at < last { a_read_maybe(e, &mut r).await } else { a_read(e, &mut r).await.map(|_| true) };
                match res {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(EC::Panic(_)) => dead = true,
                    Err(_) => {
                        errs += 1;
                        dead = errs > ep.read_retry;
                    }
                }
            }
        }
    }
    apause(ep.w_hold_ms).await;
    part_done(e);
    if ep.tail {
        while !dead {
            match a_read(e, &mut r).await {
                Ok(()) => {}
                Err(EC::Panic(_)) => break,
                Err(_) => {
                    errs += 1;
                    dead = errs > ep.read_retry;
                }
            }
        }
    }
    if !ep.w_nobarrier {
        a_await_all().await;
    }
    a_drop(e, What::DropAll, r);
}

enum AStart {
    Whole(AWhole),
    Raw(InboundCipher, AR, OutboundCipher, AW),
}

async fn async_body(e: usize) {
    let pl = plan();
    let ep = &pl.eps[e];
    apause(ep.start_ms).await;
    let r: AR = if ep.rbuf > 0 {
        Box::new(tokio::io::BufReader::with_capacity(ep.rbuf as usize, AsyncReader(e ^ 1)))
    } else {
        Box::new(AsyncReader(e ^ 1))
    };
    let mut w: AW = Box::new(AsyncWriter(e));
    let (garbage, decoys) = harness(|| (pl.garbage(e), pl.decoy_vecs(e)));
    let magic = pl.magic_bytes(e);
    let i = begin(e, What::Hs);
    let pc = ep.hs_cancel;
    let res: Option<Result<AStart, EC>> = match ep.kind {
        Kind::Async if ep.inner_after == Some(0) => {
            guarded(
                async move {
                    let (inn, out, sr) = bip324::futures::handshake(magic, role(e), garbage, decoys, r, &mut w).await?;
                    Ok(AStart::Raw(inn, Box::new(sr), out, w))
                },
                e,
                pc,
            )
            .await
        }
        Kind::Async => guarded(AProto::new(magic, role(e), garbage, decoys, r, w), e, pc)
            .await
            .map(|r| r.map(|p| AStart::Whole(AWhole::Plain(Box::new(p))))),
        _ => guarded(ASh::new(magic, role(e), config(e), r, w), e, pc)
            .await
            .map(|r| r.map(|p| AStart::Whole(AWhole::Shaped(Box::new(p))))),
    };
    let Some(res) = res else {
        end(e, i, Res::Cancelled);
        hs_decided(e, false);
        part_done(e);
        if ep.mode == Mode::Split {
            part_done(e);
        }
        apause(ep.post_ms).await;
        return;
    };
    match res {
        Err(c) => {
            end(e, i, Res::Err(c));
            harness(|| logs()[e].hs_fail_live = Some(kernel::live_sut_threads()));
            hs_decided(e, false);
            part_done(e);
            if ep.mode == Mode::Split {
                part_done(e);
            }
        }
        Ok(s) => {
            end(e, i, Res::Ok);
            pipe::set_base(e);
            hs_decided(e, true);
            let mut s = s;
            age_async(e, &mut s);
            match (s, ep.mode) {
                (AStart::Whole(w), Mode::Whole) => a_drive_whole(e, w).await,
                (AStart::Whole(w), Mode::Split) => {
                    let mut w = ARead::Whole(w);
                    for _ in 0..ep.split_after {
                        if a_try(e, &mut w).await.is_err() {
                            break;
                        }
                    }
                    let ARead::Whole(w) = w else { unreachable!() };
                    let (r, w) = match w {
                        AWhole::Plain(p) => {
                            let (r, w) = p.into_split();
                            (ARead::Plain(Box::new(r)), AWrite::Plain(Box::new(w)))
                        }
                        AWhole::Shaped(p) => {
                            let (r, w) = p.into_split();
                            (ARead::Shaped(Box::new(r)), AWrite::Shaped(Box::new(w)))
                        }
                    };
                    let t = tokio::spawn(a_drive_read(e, r));
                    a_drive_write(e, w).await;
                    let _ = t.await;
                }
                (AStart::Raw(c, r, out, w), _) => {
                    logs()[e].raw_from = pl.hs_len(e ^ 1);
                    let t = tokio::spawn(async move {
                        a_raw_rest(e, c, r).await;
                        if plan().eps[e].mode == Mode::Split {
                            part_done(e);
                        }
                    });
                    a_drive_write(e, AWrite::Raw(out, w)).await;
                    let _ = t.await;
                }
            }
        }
    }
    // The runtime lives on: background tasks must end by themselves.
    apause(ep.post_ms).await;
}

#[cfg(bip324_sim)]
fn age_async(e: usize, s: &mut AStart) {
    let ep = &plan().eps[e];
    if let AStart::Whole(AWhole::Plain(p)) = s {
        if ep.age_in > 0 {
            harness(|| fired(F::aged_session));
            p.sim_inbound().sim_set_message_count(ep.age_in);
        }
        if ep.age_out > 0 {
            harness(|| fired(F::aged_session));
            p.sim_outbound().sim_set_message_count(ep.age_out);
        }
    }
}
#[cfg(not(bip324_sim))]
fn age_async(_e: usize, _s: &mut AStart) {}

fn runtime() -> tokio::runtime::Runtime {
    match plan().workers as usize {
        0 => tokio::runtime::Builder::new_current_thread().enable_time().build(),
        n => {
            harness(|| fired(F::workers));
            kernel::infra(|| tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_time().build())
        }
    }
    .expect("runtime")
}

pub fn async_main(e: usize) {
    let pl = plan();
    let ep = &pl.eps[e];
    if let Some(id) = ep.entropy {
        kernel::pin_entropy(1000 + id);
    }
    logs()[e].parts = if ep.mode == Mode::Split { 2 } else { 1 };
    sut(|| {
        let rt = runtime();
        rt.block_on(async {
            // What the runtime needs for itself.
            let _ = tokio::spawn(apause(1)).await;
            let a = kernel::heap::mine();
            async_body(e).await;
            let b = kernel::heap::mine();
            harness(|| logs()[e].left = Some((b.0 - a.0, b.1 - a.1)));
        });
        harness(|| logs()[e].ended = true);
        drop(rt);
    });
}

/// Several async endpoints as tasks of one runtime.
fn async_group(es: &[usize]) {
    for e in es {
        logs()[*e].parts = if plan().eps[*e].mode == Mode::Split { 2 } else { 1 };
    }
    sut(|| {
        let rt = runtime();
        rt.block_on(async {
            let ts: Vec<_> = es
                .iter()
                .map(|e| {
                    let e = *e;
                    tokio::spawn(async move {
                        async_body(e).await;
                        harness(|| logs()[e].ended = true);
                    })
                })
                .collect();
            for t in ts {
                let _ = t.await;
            }
        });
        drop(rt);
    });
}

// ------------------------------------------------------------------ the world

pub fn run_world() {
    let pl = plan();
    if pl.prop == "C23" {
        kernel::heap::enable();
    }
    make_relayed();
    if pl.eps.iter().any(|e| e.kind.is_async()) {
        std::mem::forget(kernel::spawn("net", pipe::net_thread));
    }
    if pl.watchdog_s > 0 {
        std::mem::forget(kernel::spawn("watchdog", move || {
            harness(|| {
                kernel::sleep(plan().watchdog_s * kernel::SEC);
                for i in 0..pipes().len() {
                    if !plan().eps[i].healthy {
                        pipe::close_writer(i);
                    }
                }
            })
        }));
    }
    let mut ts = Vec::new();
    let group: Vec<usize> = (0..pl.eps.len()).filter(|e| pl.one_rt && pl.eps[*e].kind.is_async()).collect();
    if !group.is_empty() {
        let g = group.clone();
        ts.push(kernel::spawn("ep", move || async_group(&g)));
    }
    for e in (0..pl.eps.len()).filter(|e| !group.contains(e)) {
        let kind = pl.eps[e].kind;
        ts.push(kernel::spawn("ep", move || match kind {
            Kind::Ref => crate::refpeer::ref_main(e),
            Kind::Mirror => crate::refpeer::mirror_main(e),
            Kind::Async | Kind::ShAsync => async_main(e),
            _ => sync_main(e),
        }));
    }
    for t in ts {
        t.join();
    }
    pipe::forget_wakers();
    harness(|| kernel::logline(|| format!("end {:?} {}", kernel::heap::sizes(), kernel::threads_state())));
    unsafe { HEAP_END = kernel::heap::state().0 };
}
/// Live heap of the code under test when everything had ended.
pub static mut HEAP_END: usize = 0;
