//! Scenarios that are not a pair of endpoints on a transport.

use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use bip324::{CipherSession, Error, Handshake, InboundCipher, Initialized, OutboundCipher, PacketType, ReceivedKey, Role, SentVersion, VersionResult};
use bip324_traffic::{AtomicTrafficStats, TrafficStats};

use crate::crypto::RefSession;
use crate::hist::*;
use crate::kernel::{self, fired, harness, kern, now, step, sut, F, MS};
use crate::prng::{mix3, Rng};
use crate::refpeer::{ecdh_x, ref_key};
use crate::world::panic_msg;

static mut FINDINGS: Vec<String> = Vec::new();
#[allow(static_mut_refs)]
pub fn findings() -> &'static mut Vec<String> {
    unsafe { &mut FINDINGS }
}
fn find(class: &str, d: String) {
    if findings().len() < 12 {
        findings().push(format!("{class}: {d}"));
    }
}

// ------------------------------------------------------------------ traffic statistics

#[derive(Clone, Debug)]
struct SOp {
    kind: u64,
    bytes: u64,
    t0: u64,
    t1: u64,
    /// Order of beginnings and ends, for calls that take no simulated time.
    s0: u64,
    s1: u64,
    ratio: Option<f64>,
    since: u64,
}
static STAMP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn stamp() -> u64 {
    STAMP.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}
static mut SOPS: Vec<Vec<SOp>> = Vec::new();
#[allow(static_mut_refs)]
fn sops() -> &'static mut Vec<Vec<SOp>> {
    unsafe { &mut SOPS }
}

fn stat_op(st: &AtomicTrafficStats, kind: u64, bytes: u64, stepping: bool) -> Result<SOp, String> {
    let mut op = SOp { kind, bytes, t0: now(), t1: 0, s0: stamp(), s1: 0, ratio: None, since: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| {
        sut(|| {
            if stepping {
                step::on();
            }
            let mut r = (None, 0);
            match kind {
                0 => st.record_read(bytes as usize),
                1 => st.record_write(bytes as usize),
                2 => r.0 = st.write_read_ratio(),
                _ => r.1 = st.time_since_last_activity().as_millis() as u64,
            }
            if stepping {
                step::off();
            }
            r
        })
    }));
    if stepping {
        step::off();
    }
    op.t1 = now();
    op.s1 = stamp();
    match r {
        Ok((a, b)) => {
            op.ratio = a;
            op.since = b;
            kernel::logline(|| format!("stats {op:?}"));
            kernel::note(b ^ a.map_or(7, f64::to_bits) ^ kind << 60);
            Ok(op)
        }
        Err(p) => Err(panic_msg(&*p)),
    }
}

/// Wall-clock readings possible between two simulated instants, as closed intervals in ms.
fn wall_ms(a: u64, b: u64) -> Vec<(i128, i128)> {
    let mut cuts = vec![a];
    for j in &kern().knobs.jumps {
        if j.0 > a && j.0 <= b {
            cuts.push(j.0);
        }
    }
    cuts.push(b + 1);
    cuts.sort_unstable();
    let mut out = Vec::new();
    for w in cuts.windows(2) {
        let off = kernel::wall_off(w[0]) as i128;
        let f = |t: u64| (kernel::BASE_REALTIME_NS + t as i128 + off) / 1_000_000;
        out.push((f(w[0]), f(w[1].max(w[0] + 1) - 1)));
    }
    out
}

pub fn stats_main() {
    let pl = plan();
    let threads = pl.nums[0] as usize;
    let stepping = pl.p_step > 0;
    if stepping {
        step::install();
    }
    let created0 = now();
    let st = match catch_unwind(|| sut(|| if pl.flags & 1 != 0 { AtomicTrafficStats::default() } else { AtomicTrafficStats::new() })) {
        Ok(x) => Arc::new(x),
        Err(p) => return find("panic", format!("creating the statistics: {}", panic_msg(&*p))),
    };
    let created = (created0, now());
    *sops() = vec![Vec::new(); threads + 1];
    let mut ts = Vec::new();
    for t in 0..threads {
        let st = st.clone();
        ts.push(kernel::spawn("stat", move || {
            for (who, kind, x) in &plan().ops {
                if *who != t as u64 {
                    continue;
                }
                if *kind >= 4 {
                    kernel::sleep(*x * MS);
                    continue;
                }
                match stat_op(&st, *kind, *x, stepping) {
                    Ok(op) => harness(|| sops()[t].push(op)),
                    Err(m) => harness(|| find("panic", format!("thread {t}, operation {kind}: {m}"))),
                }
            }
            harness(|| drop(st));
        }));
    }
    for t in ts {
        t.join();
    }
    for kind in [2, 3] {
        match stat_op(&st, kind, 0, false) {
            Ok(op) => sops()[threads].push(op),
            Err(m) => find("panic", format!("final operation {kind}: {m}")),
        }
    }
    harness(|| stats_judge(created));
}

fn stats_judge(created: (u64, u64)) {
    let all: Vec<&SOp> = sops().iter().flatten().collect();
    let recs: Vec<&SOp> = all.iter().copied().filter(|o| o.kind < 2).collect();
    for q in all.iter().copied().filter(|o| o.kind == 2) {
        let sum = |kind: u64, started: bool| -> u64 {
            recs.iter().filter(|r| r.kind == kind && if started { r.s0 < q.s1 } else { r.s1 < q.s0 }).map(|r| r.bytes).sum()
        };
        let (rl, rh, wl, wh) = (sum(0, false), sum(0, true), sum(1, false), sum(1, true));
        match q.ratio {
            None if rl > 0 => find("ratio", format!("no ratio although {rl} bytes had been read")),
            Some(x) if rh == 0 => find("ratio", format!("ratio {x} although nothing had been read")),
            Some(x) => {
                let lo = wl as f64 / rh as f64;
                let hi = if rl == 0 { f64::INFINITY } else { wh as f64 / rl as f64 };
                if !(x >= lo * (1.0 - 1e-12) && x <= hi * (1.0 + 1e-12)) {
                    find("ratio", format!("ratio {x}, the records allow {lo} to {hi} (read {rl}..{rh}, written {wl}..{wh})"));
                } else if rl == rh && wl == wh && x != wl as f64 / rl as f64 {
                    find("ratio", format!("ratio {x}, the records give exactly {wl}/{rl}"));
                }
            }
            None => {}
        }
    }
    for q in all.iter().copied().filter(|o| o.kind == 3) {
        // Records that may be the latest one this query can see.
        let mut lasts: Vec<(i128, i128)> = Vec::new();
        for (i, r) in recs.iter().enumerate() {
            if r.s0 > q.s1 {
                continue;
            }
            let hidden = recs.iter().enumerate().any(|(j, x)| j != i && x.s0 > r.s1 && x.s1 < q.s0);
            if !hidden {
                lasts.extend(wall_ms(r.t0, r.t1.min(q.t1)));
            }
        }
        if !recs.iter().any(|r| r.s1 < q.s0) {
            lasts.extend(wall_ms(created.0, created.1));
        }
        let nows = wall_ms(q.t0, q.t1);
        let ok = lasts.iter().any(|l| {
            nows.iter().any(|n| {
                let lo = (n.0 - l.1 - 1).max(0);
                let hi = (n.1 - l.0 + 1).max(0);
                (q.since as i128) >= lo && (q.since as i128) <= hi
            })
        });
        if !ok {
            find("last-activity", format!("reported {} ms since the last activity; the clock readings allow now in {nows:?} and activity in {lasts:?}", q.since));
        }
    }
}

// ------------------------------------------------------------------ refused calls

/// Session between a fresh endpoint of the code under test and a reference endpoint.
fn direct_session(init: bool, which: u64) -> Option<(CipherSession, RefSession)> {
    let pl = plan();
    let magic = [0xF9, 0xBE, 0xB4, 0xD9];
    let (sk, key) = ref_key(pl.pseed ^ which, 0);
    let role = if init { Role::Initiator } else { Role::Responder };
    // Each handshake call is first made with a short buffer, on a handshake of its own.
    let mut rng = Rng::new(mix3(pl.pseed, which, 77));
    let n = rng.below(4096) as usize;
    let garbage = rng.bytes(n);
    let garbage: Option<&[u8]> = if pl.pseed & 1 == 0 { None } else { Some(&garbage) };
    let need = 64 + garbage.map_or(0, |g| g.len());
    if Handshake::<Initialized>::send_key_len(garbage) != need {
        find("required-size", format!("send_key_len is {} for {need} bytes", Handshake::<Initialized>::send_key_len(garbage)));
    }
    let short = if pl.pseed & 2 == 0 { need - 1 } else { rng.below(need as u64) as usize };
    let mut b = vec![0u8; short];
    let h = Handshake::<Initialized>::new(magic, role).ok()?;
    fired(F::refused_call);
    hs_small(&format!("send_key into {short}"), h.send_key(garbage, &mut b).map(|_| ()), need);
    let sizes: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(300) as usize).collect();
    let ds: Vec<Vec<u8>> = sizes.iter().map(|n| vec![7; *n]).collect();
    let dr: Vec<&[u8]> = ds.iter().map(|d| &d[..]).collect();
    let decoys = if pl.pseed & 4 == 0 { None } else { Some(&dr[..]) };
    let vneed = 16 + 20 + if pl.pseed & 4 == 0 { 0 } else { sizes.iter().map(|n| n + 20).sum::<usize>() };
    if Handshake::<ReceivedKey>::send_version_len(decoys) != vneed {
        find("required-size", format!("send_version_len is {} for {vneed} bytes", Handshake::<ReceivedKey>::send_version_len(decoys)));
    }
    let h = Handshake::<Initialized>::new(magic, role).ok()?;
    let h = h.send_key(None, &mut [0u8; 64]).ok()?.receive_key(key).ok()?;
    let short = if pl.pseed & 8 == 0 { vneed - 1 } else { rng.below(vneed as u64) as usize };
    fired(F::refused_call);
    hs_small(&format!("send_version into {short}"), h.send_version(&mut vec![0u8; short], decoys).map(|_: Handshake<SentVersion>| ()), vneed);
    let h = Handshake::<Initialized>::new(magic, role).ok()?;
    let mut b = vec![0u8; 64];
    let h = h.send_key(None, &mut b).ok()?;
    let mine: [u8; 64] = b.clone().try_into().unwrap();
    let h = h.receive_key(key).ok()?;
    let mut b = vec![0u8; Handshake::<ReceivedKey>::send_version_len(None)];
    let h: Handshake<SentVersion> = h.send_version(&mut b, None).ok()?;
    let (ki, kr) = if init { (mine, key) } else { (key, mine) };
    let x = ecdh_x(&ki, &kr, &sk, !init);
    let mut rs = RefSession::derive(&x, &ki, &kr, &magic, !init);
    // The reference side follows the other's version packet.
    let p = &b[16..];
    let l = rs.recv_l.crypt([p[0], p[1], p[2]]);
    let n = u32::from_le_bytes([l[0], l[1], l[2], 0]) as usize;
    rs.recv_p.dec(&[], &p[3..3 + n + 17])?;
    let mut g = rs.send_term.to_vec();
    g.extend(rs.packet(0, &[], &[]));
    let bip324::GarbageResult::FoundGarbage { handshake, consumed_bytes } = h.receive_garbage(&g).ok()? else { return None };
    let mut h = handshake;
    let mut pkt = g[consumed_bytes..].to_vec();
    let n = h.decrypt_packet_len(pkt[..3].try_into().unwrap()).ok()?;
    match h.receive_version(&mut pkt[3..3 + n]).ok()? {
        VersionResult::Complete { cipher } => Some((cipher, rs)),
        _ => None,
    }
}

fn hs_small(what: &str, r: Result<(), Error>, want: usize) {
    match r {
        Ok(()) => find("not-refused", format!("{what} succeeded")),
        Err(Error::BufferTooSmall { required_bytes }) if required_bytes == want => {}
        Err(Error::BufferTooSmall { required_bytes }) => find("required-size", format!("{what} asks for {required_bytes} bytes, {want} are needed")),
        Err(e) => find("wrong-refusal", format!("{what} failed with {e:?} (expected BufferTooSmall)")),
    }
}

fn expect_small(what: &str, r: Result<Result<(), Error>, String>, want: Option<usize>) {
    match (r, want) {
        (Err(p), _) => find("panic", format!("{what}: {p}")),
        (Ok(Ok(())), _) => find("not-refused", format!("{what} succeeded")),
        (Ok(Err(Error::BufferTooSmall { required_bytes })), Some(n)) => {
            if required_bytes != n {
                find("required-size", format!("{what} asks for {required_bytes} bytes, {n} are needed"));
            }
        }
        (Ok(Err(Error::CiphertextTooSmall)), None) => {}
        (Ok(Err(e)), w) => find("wrong-refusal", format!("{what} failed with {e:?} (expected {})", if w.is_some() { "BufferTooSmall" } else { "CiphertextTooSmall" })),
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(|| sut(f))).map_err(|p| panic_msg(&*p))
}

/// plan.ops: (operation, length, variation).  Each real packet is preceded by the refused calls.
pub fn refused_main() {
    let pl = plan();
    let init = pl.flags & 1 != 0;
    let made = quiet(|| direct_session(init, 0));
    let (mut s, mut rs) = match made {
        Ok(Some(x)) => x,
        Ok(None) => return find("handshake-failed", "direct handshake with the reference endpoint failed".into()),
        Err(p) => return find("panic", format!("direct handshake: {p}")),
    };
    #[cfg(bip324_sim)]
    if pl.nums.first().copied().unwrap_or(0) > 0 {
        let (a, b) = (pl.nums[0], pl.nums[1]);
        s.inbound().sim_set_message_count(a);
        s.outbound().sim_set_message_count(b);
        crate::refpeer::teleport(&mut rs, Some(a), Some(b));
        fired(F::aged_session);
    }
    // Either the whole session or its split ciphers.
    let (mut inn, mut out): (InboundCipher, OutboundCipher);
    (inn, out) = s.into_split();
    let mut rng = Rng::new(mix3(pl.pseed, 3, 3));
    for (i, (op, len, var)) in pl.ops.iter().enumerate() {
        if findings().len() > 2 {
            return;
        }
        let len = *len as usize;
        let data = rng.bytes(len);
        let decoy = var & 1 != 0;
        let (pt, hdr) = if decoy { (PacketType::Decoy, 0x80u8) } else { (PacketType::Genuine, 0) };
        let aad_v = rng.bytes((*var as usize >> 8) % 40);
        let aad: Option<&[u8]> = if var & 2 != 0 { Some(&aad_v) } else { None };
        let aad_ref: &[u8] = aad.unwrap_or(&[]);
        // A copy of a cipher goes on like the original, and leaves the original alone.
        let h = mix3(pl.pseed, i as u64, 55);
        if pl.pseed & 48 == 0 && h & 3 == 0 {
            let mut a = out.clone();
            let mut b = inn.clone();
            if h & 4 != 0 {
                let _ = quiet(|| a.encrypt_to_vec(b"tried", PacketType::Genuine, None));
                let _ = quiet(|| b.decrypt_packet_len([1, 2, 3]));
                let _ = quiet(|| b.decrypt_to_vec(&[7; 40], None));
            } else {
                (out, inn) = (a, b);
            }
        }
        match op {
            // Contents the three length bytes cannot describe are refused; the longest they can are not.
            6 => {
                let fits = len < 1 << 24;
                let mut b = vec![0u8; len + 20];
                fired(F::refused_call);
                match quiet(|| out.encrypt(&data, &mut b, pt, aad)) {
                    Err(p) => return find("panic", format!("packet {i}: encrypt of {len} bytes: {p}")),
                    Ok(Ok(())) if !fits => return find("not-refused", format!("packet {i}: {len} bytes of contents were accepted")),
                    Ok(Err(e)) if fits => return find("after-refusal", format!("packet {i}: encrypt of {len} bytes failed: {e:?}")),
                    Ok(Ok(())) => {
                        let l = rs.recv_l.crypt([b[0], b[1], b[2]]);
                        let n = u32::from_le_bytes([l[0], l[1], l[2], 0]) as usize;
                        match rs.recv_p.dec(aad_ref, &b[3..]) {
                            Some(p) if n == len && p[0] == hdr && p[1..] == data[..] => {}
                            _ => return find("after-refusal", format!("packet {i}: the peer cannot decode {len} bytes (length {n})")),
                        }
                    }
                    Ok(Err(_)) => {}
                }
            }
            // Outbound, with refused calls first.
            0..=2 => {
                let need = OutboundCipher::encryption_buffer_len(len);
                if need != len + 20 {
                    find("required-size", format!("encryption_buffer_len({len}) = {need}"));
                }
                for k in 0..*op {
                    let short = (mix3(*var, i as u64, k) % need as u64) as usize;
                    let short = if k == 0 && var & 4 != 0 { need - 1 } else { short };
                    let mut b = vec![0u8; short];
                    fired(F::refused_call);
                    let r = quiet(|| out.encrypt(&data, &mut b, pt, aad));
                    expect_small(&format!("packet {i}: encrypt of {len} bytes into {short}"), r, Some(need));
                }
                let extra = if var & 8 != 0 { 5 } else { 0 };
                let mut b = vec![0u8; need + extra];
                let r = if var & 16 != 0 {
                    quiet(|| {
                        b = out.encrypt_to_vec(&data, pt, aad);
                        Ok(())
                    })
                } else {
                    quiet(|| out.encrypt(&data, &mut b, pt, aad))
                };
                match r {
                    Err(p) => return find("panic", format!("packet {i}: encrypt: {p}")),
                    Ok(Err(e)) => return find("after-refusal", format!("packet {i}: encrypt with a large enough buffer failed: {e:?}")),
                    Ok(Ok(())) => {}
                }
                let l = rs.recv_l.crypt([b[0], b[1], b[2]]);
                let n = u32::from_le_bytes([l[0], l[1], l[2], 0]) as usize;
                if n != len {
                    return find("after-refusal", format!("packet {i}: the peer decodes length {n}, written {len}"));
                }
                match rs.recv_p.dec(aad_ref, &b[3..need]) {
                    Some(p) if p[0] == hdr && p[1..] == data[..] => {}
                    Some(_) => return find("after-refusal", format!("packet {i}: the peer decodes different contents")),
                    None => return find("after-refusal", format!("packet {i}: the peer cannot authenticate the packet")),
                }
            }
            // Inbound, with refused calls first.
            _ => {
                let p = rs.packet(hdr | ((*var >> 16) as u8 & 0x7f), &data, aad_ref);
                let n = match quiet(|| inn.decrypt_packet_len(p[..3].try_into().unwrap())) {
                    Ok(n) => n,
                    Err(e) => return find("panic", format!("packet {i}: decrypt_packet_len: {e}")),
                };
                if n != len + 17 {
                    return find("after-refusal", format!("packet {i}: length {n} decoded, {} sent", len + 17));
                }
                let ct = &p[3..];
                for k in 0..if *op == 7 { 1 + (*var >> 40) % 3 } else { 0 } {
                    // A packet that does not authenticate is refused without a trace.
                    fired(F::refused_call);
                    let h = mix3(*var, i as u64, k);
                    let mut bad = ct.to_vec();
                    let mut bad_aad = aad_ref.to_vec();
                    let last = bad.len() - 1;
                    match h % 4 {
                        0 => bad[(h >> 8) as usize % (last + 1)] ^= 1 << (h >> 40) % 8,
                        1 => bad[last - (h >> 8) as usize % 16] ^= 1 << (h >> 40) % 8,
                        2 => bad_aad.push((h >> 8) as u8),
                        _ => bad[0] ^= 0x80,
                    }
                    let a: Option<&[u8]> = if bad_aad.is_empty() { aad } else { Some(&bad_aad) };
                    let r = match (h >> 4) % 3 {
                        0 => quiet(|| inn.decrypt_in_place(&mut bad, a).map(|_| ())),
                        1 => quiet(|| inn.decrypt_to_vec(&bad, a).map(|_| ())),
                        _ => {
                            let mut t = vec![0u8; len + 1];
                            quiet(|| inn.decrypt(&bad, &mut t, a).map(|_| ()))
                        }
                    };
                    match r {
                        Err(p) => return find("panic", format!("packet {i}: decrypting an altered packet: {p}")),
                        Ok(Ok(())) => return find("not-refused", format!("packet {i}: an altered packet was accepted")),
                        Ok(Err(Error::Decryption(_))) => {}
                        Ok(Err(e)) => find("wrong-refusal", format!("packet {i}: an altered packet failed with {e:?}")),
                    }
                }
                for k in 0..if *op == 7 { (*var >> 48) % 2 } else { *op - 3 } {
                    fired(F::refused_call);
                    let h = mix3(*var, i as u64, k);
                    let short = if h & 1 == 0 { (h >> 8) as usize % 17 } else { [0, 15, 16][(h >> 8) as usize % 3] };
                    match (h >> 4) % 4 {
                        0 => {
                            let mut t = ct[..short].to_vec();
                            let r = quiet(|| inn.decrypt_in_place(&mut t, aad).map(|_| ()));
                            expect_small(&format!("packet {i}: decrypt_in_place of {short} bytes"), r, None);
                        }
                        1 => {
                            let r = quiet(|| inn.decrypt_to_vec(&ct[..short], aad).map(|_| ()));
                            expect_small(&format!("packet {i}: decrypt_to_vec of {short} bytes"), r, None);
                        }
                        2 => {
                            let mut t = vec![0u8; len + 1];
                            let r = quiet(|| inn.decrypt(&ct[..short], &mut t, aad).map(|_| ()));
                            expect_small(&format!("packet {i}: decrypt of {short} bytes"), r, None);
                        }
                        _ => {
                            let room = if h & 2 == 0 { len } else { (h >> 20) as usize % (len + 1) };
                            let mut t = vec![0u8; room];
                            let r = quiet(|| inn.decrypt(ct, &mut t, aad).map(|_| ()));
                            expect_small(&format!("packet {i}: decrypt of {len} bytes of contents into {room}"), r, Some(len + 1));
                        }
                    }
                }
                let got: Result<Result<(PacketType, Vec<u8>), Error>, String> = match (*var >> 4) % 3 {
                    0 => quiet(|| inn.decrypt_to_vec(ct, aad)),
                    1 => {
                        let mut t = ct.to_vec();
                        quiet(|| inn.decrypt_in_place(&mut t, aad).map(|(a, b)| (a, b.to_vec())))
                    }
                    _ => {
                        let extra = if var & 8 != 0 { 9 } else { 0 };
                        let mut t = vec![0u8; InboundCipher::decryption_buffer_len(n) + extra];
                        quiet(|| inn.decrypt(ct, &mut t, aad)).map(|r| {
                            r.map(|a| {
                                t.truncate(len + 1);
                                (a, t)
                            })
                        })
                    }
                };
                match got {
                    Err(p) => return find("panic", format!("packet {i}: decrypt: {p}")),
                    Ok(Err(e)) => return find("after-refusal", format!("packet {i}: decrypting the whole packet failed: {e:?}")),
                    Ok(Ok((t, b))) => {
                        if t != pt || b[1..] != data[..] {
                            return find("after-refusal", format!("packet {i}: decrypted to something else"));
                        }
                    }
                }
            }
        }
        kernel::note(i as u64 ^ (*op << 40) ^ ((len as u64) << 8));
        kernel::yield_point();
    }
    let _ = Cursor::new(());
}

#[allow(unused)]
fn unused() {
    let _ = logs();
}
