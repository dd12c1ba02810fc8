//! The reference peer: an independent BIP-324 endpoint used as the other side of a session.

use std::io::{ErrorKind, Read, Write};

use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty, ElligatorSwiftSharedSecret};
use secp256k1::SecretKey;

use crate::crypto::RefSession;
use crate::hist::*;
use crate::kernel::{self, fired, harness, now, F, MS};
use crate::pipe::{self, pipes, SyncReader, SyncWriter};
use crate::plan::*;
use crate::prng::{hash_bytes, mix3, Rng};

pub fn ecdh_x(key_a: &[u8; 64], key_b: &[u8; 64], secret: &[u8; 32], party_a: bool) -> [u8; 32] {
    let mut out = [0u8; 32];
    ElligatorSwift::shared_secret_with_hasher(
        ElligatorSwift::from_array(*key_a),
        ElligatorSwift::from_array(*key_b),
        SecretKey::from_slice(secret).expect("secret"),
        if party_a { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B },
        |x, _, _| {
            out = x;
            ElligatorSwiftSharedSecret::from_secret_bytes(x)
        },
    );
    out
}

pub fn ref_key(pseed: u64, e: usize) -> ([u8; 32], [u8; 64]) {
    let mut r = Rng::new(mix3(pseed, 77, e as u64));
    loop {
        let mut sk = [0u8; 32];
        r.fill(&mut sk);
        let mut aux = [0u8; 32];
        r.fill(&mut aux);
        if let Ok(k) = SecretKey::from_slice(&sk) {
            return (sk, ElligatorSwift::from_seckey(&secp256k1::Secp256k1::new(), k, Some(aux)).to_array());
        }
    }
}

pub enum RErr {
    Eof,
    Io(ErrorKind),
}

fn read_exact(r: &mut SyncReader, n: usize) -> Result<Vec<u8>, RErr> {
    let mut v = vec![0u8; n];
    let mut p = 0;
    while p < n {
        match r.read(&mut v[p..]) {
            Ok(0) => return Err(RErr::Eof),
            Ok(k) => p += k,
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => return Err(RErr::Io(e.kind())),
        }
    }
    Ok(v)
}

fn write_all(w: &mut SyncWriter, b: &[u8]) -> bool {
    let mut p = 0;
    while p < b.len() {
        match w.write(&b[p..]) {
            Ok(0) => return false,
            Ok(k) => p += k,
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => return false,
        }
    }
    w.flush().is_ok()
}

fn ec(e: &RErr) -> EC {
    match e {
        RErr::Eof => EC::Io { kind: "UnexpectedEof".into(), retry: true },
        RErr::Io(k) => EC::Io { kind: format!("{k:?}"), retry: false },
    }
}

/// Bytes that look like the terminator but are not.
fn near_term(rng: &mut Rng, n: usize, term: &[u8; 16]) -> Vec<u8> {
    let mut v = Vec::new();
    while v.len() < n {
        match rng.below(4) {
            0 => v.extend_from_slice(&term[..1 + rng.below(15) as usize]),
            1 => {
                let mut t = *term;
                t[15] ^= 1 << rng.below(8);
                v.extend_from_slice(&t);
            }
            2 => v.extend_from_slice(&term[1..]),
            _ => v.extend_from_slice(&rng.bytes(7)),
        }
    }
    v.truncate(n);
    // The terminator itself must not occur early, also not across the end.
    loop {
        let mut t = v.clone();
        t.extend_from_slice(term);
        match (0..n).find(|i| &t[*i..*i + 16] == term) {
            Some(i) => v[i] = rng.below(256) as u8,
            None => return v,
        }
    }
}

fn wait_ms(ms: u64) {
    if ms > 0 {
        kernel::sleep(ms * MS);
    }
}

/// Hold the connection as long as the others are busy, then close.
fn finish_writer(e: usize, w: SyncWriter) {
    let ep = &plan().eps[e];
    wait_ms(ep.w_hold_ms);
    part_done(e);
    if !ep.w_nobarrier {
        await_all();
    }
    drop(w);
}

pub fn ref_main(e: usize) {
    harness(|| ref_main_inner(e))
}

fn ref_main_inner(e: usize) {
    let pl = plan();
    let ep = &pl.eps[e];
    logs()[e].parts = 2;
    wait_ms(ep.start_ms);
    let mut w = SyncWriter(e);
    let mut r = SyncReader(e ^ 1);
    let hs_op = begin(e, What::Hs);
    let magic = pl.magic_bytes(e);
    let (sk, key) = match ep.key {
        0 => ref_key(pl.pseed, e),
        n => {
            fired(F::odd_key);
            crate::keys::special(n - 1)
        }
    };
    logs()[e].re.key = key.to_vec();
    if let Some(h) = &ep.hostile {
        if matches!(h.kind, HK::Random | HK::V1 | HK::HsShort) {
            fired(F::hostile_stream);
            let mut rng = Rng::new(pl.pseed ^ 0xbad);
            let mut b = Vec::new();
            match h.kind {
                HK::V1 => {
                    b.extend_from_slice(&magic);
                    // Mostly a version message; the magic alone decides.
                    match rng.below(10) {
                        0..=4 => b.extend_from_slice(b"version\0\0\0\0\0"),
                        5 => b.extend_from_slice(b"verack\0\0\0\0\0\0"),
                        6 => b.extend_from_slice(b"getheaders\0\0"),
                        7 => b.extend_from_slice(&[0; 60]),
                        8 => b.extend_from_slice(&[0xff; 60]),
                        _ => {}
                    }
                    let n = (h.n as usize).saturating_sub(b.len());
                    b.extend_from_slice(&rng.bytes(n));
                    b.truncate(h.n as usize);
                }
                HK::HsShort => b.extend_from_slice(&key[..(h.n as usize).min(63)]),
                _ => b = rng.bytes(h.n as usize),
            }
            write_all(&mut w, &b);
            let k = spawn_drain(e, r, hs_op);
            wait_ms(h.close_ms);
            if h.close_ms > 0 {
                part_done(e);
                drop(w);
            } else {
                finish_writer(e, w);
            }
            k.join();
            return;
        }
    }
    let mut peer_key: Option<[u8; 64]> = None;
    let get_key = |r: &mut SyncReader| -> Result<[u8; 64], EC> {
        let v = read_exact(r, 64).map_err(|x| ec(&x))?;
        logs()[e].re.peer_key = v.clone();
        Ok(v.try_into().unwrap())
    };
    let fail = |c: EC, w: SyncWriter| {
        end(e, hs_op, Res::Err(c));
        hs_decided(e, false);
        part_done(e);
        finish_writer(e, w);
    };
    if ep.wait_key {
        match get_key(&mut r) {
            Ok(k) => peer_key = Some(k),
            Err(c) => return fail(c, w),
        }
    }
    let garbage = pl.garbage(e).unwrap_or_default();
    let early_garbage = !(ep.late_garbage || matches!(ep.gstyle, GStyle::NearTerm | GStyle::OwnTerm | GStyle::KeyEcho));
    let hk = ep.hostile.as_ref();
    let mut b = key.to_vec();
    let flood = hk.filter(|h| h.kind == HK::NoTerm);
    if early_garbage && flood.is_none() && ep.part_gap_ms == 0 {
        b.extend_from_slice(&garbage);
    }
    write_all(&mut w, &b);
    if early_garbage && flood.is_none() && ep.part_gap_ms > 0 {
        wait_ms(ep.part_gap_ms);
        write_all(&mut w, &garbage);
    }
    let peer_key = match peer_key {
        Some(k) => k,
        None => match get_key(&mut r) {
            Ok(k) => k,
            Err(c) => return fail(c, w),
        },
    };
    let (ki, kr) = if ep.init { (key, peer_key) } else { (peer_key, key) };
    let secret = if ep.bad_secret { ref_key(pl.pseed ^ 0x5ec, e).0 } else { sk };
    let x = ecdh_x(&ki, &kr, &secret, ep.init);
    let mut s = RefSession::derive(&x, &ki, &kr, &magic, ep.init);
    {
        let re = &mut logs()[e].re;
        re.sid = s.id;
        re.send_term = s.send_term;
        re.recv_term = s.recv_term;
        logs()[e].sid = Some(s.id);
    }
    let mut rng = Rng::new(pl.pseed ^ 0x6a5b);
    // Receive in a thread of its own.
    let rs = s.clone();
    let rk = kernel::spawn("ref-read", move || harness(|| ref_reader(e, r, rs, hs_op)));
    if let Some(h) = flood {
        fired(F::hostile_stream);
        let mut g = match ep.gstyle {
            GStyle::NearTerm => near_term(&mut rng, h.n as usize, &s.send_term),
            GStyle::Zero => vec![0; h.n as usize],
            GStyle::OwnTerm => s.recv_term.iter().copied().cycle().take(h.n as usize).collect(),
            GStyle::KeyEcho => peer_key.iter().copied().cycle().take(h.n as usize).collect(),
            _ => rng.bytes(h.n as usize),
        };
        if h.term {
            g.extend_from_slice(&s.send_term);
            let aad = g[..h.n as usize].to_vec();
            let p = s.packet(0, &[], &aad);
            g.extend_from_slice(&p);
        }
        // In pieces, so that a closed peer is noticed.
        for c in g.chunks(8192) {
            if !write_all(&mut w, c) {
                break;
            }
            wait_ms(ep.part_gap_ms);
        }
        if h.close_ms > 0 {
            wait_ms(h.close_ms);
            part_done(e);
            drop(w);
        } else {
            finish_writer(e, w);
        }
        rk.join();
        return;
    }
    let mut out = Vec::new();
    let garbage = if early_garbage {
        garbage
    } else {
        let n = garbage.len();
        let g = match ep.gstyle {
            GStyle::NearTerm => near_term(&mut rng, n, &s.send_term),
            GStyle::OwnTerm => s.recv_term.iter().copied().cycle().take(n).collect(),
            GStyle::KeyEcho => peer_key.iter().copied().cycle().take(n).collect(),
            _ => garbage,
        };
        out.extend_from_slice(&g);
        g
    };
    let mut parts: Vec<Vec<u8>> = Vec::new();
    if !out.is_empty() {
        parts.push(std::mem::take(&mut out));
    }
    parts.push(s.send_term.to_vec());
    let mut aad: Vec<u8> = garbage.clone();
    if hk.is_some_and(|h| h.kind == HK::HsGarbMismatch) {
        fired(F::hostile_stream);
        aad.push(1);
    }
    if ep.age_out > 0 {
        // Nothing: ageing applies after the handshake.
    }
    let nd = ep.decoys.as_ref().map_or(0, |d| d.len());
    for i in 0..nd {
        parts.push(s.packet(0x80 | ep.hs_hdr, &pl.decoy(e, i), &aad));
        aad.clear();
    }
    let mut stop = false;
    if let Some(h) = hk {
        match h.kind {
            HK::HsBig => {
                fired(F::hostile_stream);
                let l = (h.len as u32).to_le_bytes();
                let mut p = s.send_l.crypt([l[0], l[1], l[2]]).to_vec();
                p.extend_from_slice(&rng.bytes(h.n as usize));
                parts.push(p);
                stop = true;
            }
            HK::HsBadTag => {
                fired(F::hostile_stream);
                let mut p = s.packet(if h.term { 0x80 } else { 0 }, &rng.bytes(h.len as usize), &aad);
                let n = p.len();
                p[n - 1 - (h.n as usize % (n - 3))] ^= 4;
                parts.push(p);
                stop = true;
            }
            _ => {}
        }
    }
    if !stop {
        let ver = rng.bytes(ep.ver_len as usize);
        parts.push(s.packet(ep.hs_hdr & 0x7f, &ver, &aad));
    }
    let hs_total: u64 = pipes()[e].accepted + parts.iter().map(|p| p.len() as u64).sum::<u64>();
    if ep.age_out > 0 {
        teleport(&mut s, Some(ep.age_out), None);
    }
    let mut next = 0usize;
    let mut alive = true;
    let mut early: Vec<u8> = Vec::new();
    let mut early_ops = Vec::new();
    if !stop {
        while next < (ep.early as usize).min(ep.writes.len()) {
            let wp = &ep.writes[next];
            let p = s.packet(wp.hdr | if wp.decoy { 0x80 } else { 0 }, &pl.payload(e, next), &[]);
            early.extend_from_slice(&p);
            early_ops.push((next, hs_total + early.len() as u64));
            next += 1;
        }
    }
    if ep.part_gap_ms > 0 {
        for p in &parts {
            alive = alive && write_all(&mut w, p);
            wait_ms(ep.part_gap_ms);
        }
        pipe::set_base(e);
        logs()[e].re.sent_version_end = hs_total;
        if !early.is_empty() {
            alive = alive && write_all(&mut w, &early);
        }
    } else {
        let all: Vec<u8> = parts.concat();
        if pipes()[e].plan.tampers.iter().any(|t| t.rel) || pipes()[e].plan.faults.iter().any(|t| t.rel) {
            alive = alive && write_all(&mut w, &all);
            pipe::set_base(e);
            logs()[e].re.sent_version_end = hs_total;
            alive = alive && (early.is_empty() || write_all(&mut w, &early));
        } else {
            let mut all = all;
            all.extend_from_slice(&early);
            alive = alive && write_all(&mut w, &all);
            pipes()[e].base.get_or_insert(hs_total);
            logs()[e].re.sent_version_end = hs_total;
        }
    }
    for (i, off) in early_ops {
        let k = begin(e, What::Write(i));
        end(e, k, if alive { Res::Ok } else { Res::Err(EC::Io { kind: "BrokenPipe".into(), retry: false }) });
        let op = &mut logs()[e].ops[k];
        op.out1 = off;
        op.t0 = op.t0.min(op.t1);
    }
    if stop {
        let h = hk.unwrap();
        if h.close_ms > 0 {
            wait_ms(h.close_ms);
            part_done(e);
            drop(w);
        } else {
            finish_writer(e, w);
        }
        rk.join();
        return;
    }
    let ok = ep.eager || await_hs(e);
    if ok && alive {
        while next < ep.writes.len() && alive {
            let wp = &ep.writes[next];
            wait_ms(wp.gap_ms);
            let p = s.packet(wp.hdr | if wp.decoy { 0x80 } else { 0 }, &pl.payload(e, next), &[]);
            let k = begin(e, What::Write(next));
            alive = write_all(&mut w, &p);
            end(e, k, if alive { Res::Ok } else { Res::Err(EC::Io { kind: "BrokenPipe".into(), retry: false }) });
            next += 1;
        }
        if let Some(h) = hk {
            match h.kind {
                HK::SessBig => {
                    fired(F::hostile_stream);
                    let l = (h.len as u32).to_le_bytes();
                    let mut p = s.send_l.crypt([l[0], l[1], l[2]]).to_vec();
                    p.extend_from_slice(&rng.bytes(h.n as usize));
                    write_all(&mut w, &p);
                }
                HK::SessRandom => {
                    fired(F::hostile_stream);
                    write_all(&mut w, &rng.bytes(h.n as usize));
                }
                HK::SessBadTag => {
                    fired(F::hostile_stream);
                    let mut p = s.packet(0, &rng.bytes(h.len as usize), &[]);
                    let n = p.len();
                    p[n - 1 - (h.n as usize % (n - 3))] ^= 4;
                    write_all(&mut w, &p);
                }
                _ => {}
            }
            if h.close_ms > 0 {
                wait_ms(h.close_ms);
                part_done(e);
                drop(w);
                rk.join();
                return;
            }
        }
    }
    finish_writer(e, w);
    rk.join();
}

/// The same jump in age the guarded hook performs on the real ciphers: counters move, keys stay.
pub fn teleport(s: &mut RefSession, out: Option<u64>, inn: Option<u64>) {
    if let Some(n) = out {
        s.send_l.count = n;
        s.send_p.count = n;
    }
    if let Some(n) = inn {
        s.recv_l.count = n;
        s.recv_p.count = n;
    }
}

fn spawn_drain(e: usize, mut r: SyncReader, hs_op: usize) -> kernel::JoinKey {
    kernel::spawn("drain", move || {
        harness(|| {
            let mut b = vec![0u8; 4096];
            end(e, hs_op, Res::Err(EC::NoTerm));
            hs_decided(e, false);
            part_done(e);
            loop {
                match r.read(&mut b) {
                    Ok(0) => break,
                    Err(x) if x.kind() != ErrorKind::Interrupted => break,
                    _ => {}
                }
            }
        })
    })
}

fn ref_handshake_read(e: usize, r: &mut SyncReader, s: &mut RefSession) -> Result<(), EC> {
    let mut g = read_exact(r, 16).map_err(|x| ec(&x))?;
    while g[g.len() - 16..] != s.recv_term {
        if g.len() >= 4095 + 16 {
            return Err(EC::NoTerm);
        }
        g.extend(read_exact(r, 1).map_err(|x| ec(&x))?);
    }
    g.truncate(g.len() - 16);
    logs()[e].re.garbage = g.clone();
    let mut aad = g;
    loop {
        let (h, c) = read_packet(r, s, &aad, e)?;
        aad.clear();
        if h & 0x80 != 0 {
            let re = &mut logs()[e].re;
            re.decoys.push(c);
            re.decoy_hdrs.push(h);
        } else {
            logs()[e].re.version = Some((h, c));
            logs()[e].re.hs_end = pipes()[e ^ 1].consumed;
            return Ok(());
        }
    }
}

fn read_packet(r: &mut SyncReader, s: &mut RefSession, aad: &[u8], e: usize) -> Result<(u8, Vec<u8>), EC> {
    let _ = e;
    let l = read_exact(r, 3).map_err(|x| ec(&x))?;
    let l = s.recv_l.crypt([l[0], l[1], l[2]]);
    let n = u32::from_le_bytes([l[0], l[1], l[2], 0]) as usize;
    let ct = read_exact(r, n + 17).map_err(|x| ec(&x))?;
    let mut pt = s.recv_p.dec(aad, &ct).ok_or(EC::Decrypt)?;
    let h = pt.remove(0);
    Ok((h, pt))
}

fn ref_reader(e: usize, mut r: SyncReader, mut s: RefSession, hs_op: usize) {
    let pl = plan();
    let ep = &pl.eps[e];
    match ref_handshake_read(e, &mut r, &mut s) {
        Ok(()) => {
            end(e, hs_op, Res::Ok);
            hs_decided(e, true);
        }
        Err(c) => {
            end(e, hs_op, Res::Err(c));
            hs_decided(e, false);
            part_done(e);
            drain(&mut r);
            return;
        }
    }
    if ep.age_in > 0 {
        teleport(&mut s, None, Some(ep.age_in));
    }
    let want = pl.eps[e ^ 1].writes.len();
    let mut marked = false;
    let mut n = 0u64;
    loop {
        if !marked && logs()[e].got >= want {
            marked = true;
            part_done(e);
        }
        for (at, ms) in &ep.rpause {
            if *at == n {
                wait_ms(*ms);
            }
        }
        wait_ms(ep.rgap_ms);
        if ep.rd_limit.is_some_and(|l| n >= l) {
            fired(F::reader_dropped);
            if !marked {
                part_done(e);
            }
            drop(r);
            return;
        }
        let k = begin(e, What::Read);
        match read_packet(&mut r, &mut s, &[], e) {
            Ok((h, c)) => {
                n += 1;
                let (d, len, hash) = (h & 0x80 != 0, c.len(), hash_bytes(&c));
                end(e, k, Res::Payload { decoy: d, len, hash, hdr: h });
                note_payload(e, k, d, len, hash);
            }
            Err(c) => {
                let dec = c == EC::Decrypt;
                end(e, k, Res::Err(c));
                if !marked {
                    part_done(e);
                }
                if dec {
                    drain(&mut r);
                }
                return;
            }
        }
    }
}

fn drain(r: &mut SyncReader) {
    let mut b = vec![0u8; 65536];
    loop {
        match r.read(&mut b) {
            Ok(0) => break,
            Err(x) if x.kind() != ErrorKind::Interrupted => break,
            _ => {}
        }
    }
    let _ = now();
}

/// Sends back whatever arrives.
pub fn mirror_main(e: usize) {
    harness(|| {
        logs()[e].parts = 1;
        let mut w = SyncWriter(e);
        let mut r = SyncReader(e ^ 1);
        let mut b = vec![0u8; 4096];
        let mut first = true;
        loop {
            match r.read(&mut b) {
                Ok(0) => break,
                Ok(n) => {
                    if first {
                        fired(F::tamper_reflect);
                        first = false;
                    }
                    if !write_all(&mut w, &b[..n]) {
                        break;
                    }
                    // Echo chambers end: stop once far more than a handshake went through.
                    if pipes()[e].accepted > 40_000 {
                        break;
                    }
                }
                Err(x) if x.kind() == ErrorKind::Interrupted => {}
                Err(_) => break,
            }
            if logs()[e ^ 1].hs.is_some() {
                break;
            }
        }
        part_done(e);
    })
}
