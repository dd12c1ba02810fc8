//! Judging a finished run: the recorded history against the plan.
//! Every violation is "class: detail"; the class is what minimisation keeps.

use crate::hist::*;
use crate::kernel::{kern, Abort, MS, SEC};
use crate::pipe::{pipes, Pipe, TOp, EK, PF};
use crate::plan::*;

#[derive(Default)]
pub struct V(pub Vec<String>);
impl V {
    pub fn push(&mut self, class: &str, detail: String) {
        if self.0.len() < 12 {
            self.0.push(format!("{class}: {detail}"));
        }
    }
}

const BOUND: u64 = SEC;

fn hs_op(e: usize) -> Option<&'static Op> {
    logs()[e].ops.iter().find(|o| o.what == What::Hs)
}
fn hs_ok(e: usize) -> bool {
    hs_op(e).is_some_and(|o| o.res == Res::Ok)
}
fn reads(e: usize) -> impl Iterator<Item = &'static Op> {
    logs()[e].ops.iter().filter(|o| o.what == What::Read)
}
fn writes(e: usize) -> impl Iterator<Item = (usize, &'static Op)> {
    logs()[e].ops.iter().filter_map(|o| match o.what {
        What::Write(i) => Some((i, o)),
        _ => None,
    })
}
fn drop_op(e: usize) -> Option<&'static Op> {
    logs()[e].ops.iter().find(|o| matches!(o.what, What::DropW | What::DropAll))
}
fn sut_eps() -> Vec<usize> {
    (0..plan().eps.len()).filter(|e| plan().eps[*e].kind.sut() && judged(*e)).collect()
}
/// Connections that are in trouble are there only to disturb the others.
fn judged(e: usize) -> bool {
    plan().prop != "C22" || plan().eps[e].healthy
}

/// Writes reported successful before the first that was not.
fn ok_prefix(e: usize) -> usize {
    let mut n = 0;
    for (i, o) in writes(e) {
        match o.res {
            Res::Ok => n = i + 1,
            Res::Cancelled => {}
            _ => break,
        }
    }
    n
}

/// Payloads returned so far, in order, are what the peer's application wrote.
pub fn order(v: &mut V, r: usize) {
    let s = r ^ 1;
    let mut idx = 0;
    for o in reads(r) {
        let Res::Payload { decoy, len, hash, hdr } = o.res else { continue };
        if plan().eps[r].kind == Kind::Ref && plan().eps[s].kind.sut() && hdr & 0x7f != 0 {
            v.push("reserved-bits", format!("ep{s} sent header {hdr:#04x}"));
        }
        if o.background {
            if !decoy {
                v.push("wrong-payload", format!("ep{r}: background packet of {len} bytes is not a decoy"));
            }
            continue;
        }
        idx = next_match(s, idx, (decoy, len, hash));
        match plan().expected(s, idx) {
            None => v.push("extra-payload", format!("ep{r} got payload number {idx} ({len} bytes, decoy {decoy}), the peer writes only {}", plan().eps[s].writes.len())),
            Some(x) if x != (decoy, len, hash) => v.push(
                "wrong-payload",
                format!("ep{r} payload {idx}: got (decoy {decoy}, {len} bytes, hash {hash:x}), written (decoy {}, {} bytes, hash {:x})", x.0, x.1, x.2),
            ),
            _ => {}
        }
        let attempted = writes(s).count();
        if idx >= attempted && plan().eps[s].early == 0 {
            v.push("early-payload", format!("ep{r} got payload {idx} before it was written"));
        }
        idx += 1;
    }
}

/// Everything s reported as written reached r.
pub fn complete(v: &mut V, s: usize) {
    let r = s ^ 1;
    let (n, got) = (ok_prefix(s), logs()[r].got);
    if got < n {
        let last = reads(r).last().map(|o| format!("{:?}", o.res));
        v.push("missing-payload", format!("ep{s} wrote {n} payloads successfully, ep{r} received {got} (last read {last:?})"));
    }
}

/// No error before the sender closed; afterwards a plain end of stream.
fn read_errors(v: &mut V, r: usize) {
    let closed = pipes()[r ^ 1].writer_closed.unwrap_or(u64::MAX);
    for o in reads(r) {
        if let Res::Err(c) = &o.res {
            if o.t1 < closed {
                v.push("spurious-read-error", format!("ep{r} read failed with {c:?} at {} ms although the stream is intact and open", o.t1 / MS));
            } else if !c.is_io() {
                v.push("spurious-read-error", format!("ep{r}: at the end of the stream read failed with {c:?}"));
            }
        }
    }
}
fn write_errors(v: &mut V, s: usize) {
    let closed = pipes()[s].reader_closed.unwrap_or(u64::MAX);
    for (i, o) in writes(s) {
        if let Res::Err(c) = &o.res {
            if o.t1 <= closed {
                v.push("spurious-write-error", format!("ep{s} write {i} failed with {c:?} on a healthy transport"));
            }
        }
    }
}

fn bound(o: &Op) -> u64 {
    BOUND + o.stalled
}

fn read_prompt(v: &mut V, e: usize) {
    for o in reads(e) {
        if o.t1 == u64::MAX || o.background || o.res == Res::Cancelled {
            continue;
        }
        let from = o.t0.max(o.avail);
        if o.t1 > from + bound(o) {
            v.push("late-read", format!("ep{e} read returned {:?} at {} ms, its last byte was there at {} ms", o.res, o.t1 / MS, from / MS));
        }
    }
}
fn write_prompt(v: &mut V, e: usize) {
    for (i, o) in writes(e) {
        if o.t1 == u64::MAX {
            continue;
        }
        let from = o.t0.max(o.room);
        if o.t1 > from + bound(o) {
            v.push("late-write", format!("ep{e} write {i} returned at {} ms, the transport last made room at {} ms", o.t1 / MS, from / MS));
        }
    }
}
fn hs_prompt(v: &mut V, e: usize) {
    if let Some(o) = hs_op(e) {
        if o.t1 != u64::MAX {
            let from = o.t0.max(o.avail).max(o.room);
            if o.t1 > from + bound(o) {
                v.push("late-handshake", format!("ep{e} handshake returned {:?} at {} ms, the last byte was there at {} ms", o.res, o.t1 / MS, from / MS));
            }
            // Its own bytes do not wait for anything but what they are made of.
            let out = &pipes()[e];
            let free = out.plan.cap >= 8192 && out.write_errs == 0 && !out.plan.faults.iter().any(|f| f.kind == PF::Stall && f.by_time);
            if let (true, Res::Ok, Some(k)) = (free, &o.res, pipes()[e ^ 1].key_at) {
                let from = if plan().eps[e].init { o.t0 } else { o.t0.max(k) };
                let t = out.sent_marks.first().map_or(o.t1, |m| m.1);
                if t > from + bound(o) {
                    v.push("late-handshake", format!("ep{e} sent its key at {} ms, it could at {} ms", t / MS, from / MS));
                }
                let from = o.t0.max(k).max(t);
                let n = if plan().eps[e].kind.shaped() { 64 } else { 64 + plan().eps[e].glen.unwrap_or(0) };
                let t = out.sent_marks.iter().find(|m| m.0 > n && m.1 >= from).map_or(o.t1, |m| m.1);
                if t > from + bound(o) {
                    v.push("late-handshake", format!("ep{e} answered the peer's key at {} ms, it was there at {} ms", t / MS, from / MS));
                }
            }
        }
    }
}
fn hs_must_succeed(v: &mut V, e: usize) {
    match hs_op(e) {
        Some(o) if o.res != Res::Ok && o.res != Res::Pending => {
            v.push("handshake-failed", format!("ep{e} ({:?}) handshake ended with {:?}", plan().eps[e].kind, o.res));
        }
        None => v.push("handshake-failed", format!("ep{e} never started its handshake")),
        _ => {}
    }
}

fn same_session(v: &mut V) {
    for p in (0..plan().eps.len()).step_by(2) {
        if let (Some(a), Some(b)) = (logs()[p].sid, logs()[p + 1].sid) {
            if hs_ok(p) && hs_ok(p + 1) && a != b {
                v.push("session-id", format!("ep{p} and ep{} disagree on the session id", p + 1));
            }
        }
    }
}

/// What the reference peer saw of the other side's handshake.
fn ref_view(v: &mut V, e: usize) {
    let r = e ^ 1;
    let re = &logs()[r].re;
    if !hs_ok(r) {
        return;
    }
    let ep = &plan().eps[e];
    if !ep.kind.shaped() {
        let g = plan().garbage(e).unwrap_or_default();
        if re.garbage != g {
            v.push("wire-garbage", format!("ep{e} was given {} bytes of garbage, sent {}{}", g.len(), re.garbage.len(), if re.garbage.len() == g.len() { " different ones" } else { "" }));
        }
        let d = plan().decoy_vecs(e).unwrap_or_default();
        if re.decoys != d {
            v.push("wire-decoys", format!("ep{e} was given decoys of {:?} bytes, sent {:?}", d.iter().map(Vec::len).collect::<Vec<_>>(), re.decoys.iter().map(Vec::len).collect::<Vec<_>>()));
        }
    }
    if re.decoy_hdrs.iter().any(|h| *h != 0x80) || re.version.as_ref().is_some_and(|x| x.0 != 0) {
        v.push("reserved-bits", format!("ep{e} handshake headers {:?} {:?}", re.decoy_hdrs, re.version.as_ref().map(|x| x.0)));
    }
    if re.version.as_ref().is_some_and(|x| !x.1.is_empty()) {
        v.push("wire-version", format!("ep{e} sent a version packet with contents"));
    }
}

/// Unshaped: the stream is exactly handshake plus one packet per write.
fn exact_bytes(v: &mut V, e: usize) {
    let Some(hs) = plan().hs_len(e) else { return };
    if !hs_ok(e) || writes(e).any(|w| w.1.res != Res::Ok) {
        return;
    }
    let want = hs + writes(e).map(|(i, _)| plan().eps[e].writes[i].len + 20).sum::<u64>();
    let have = pipes()[e].sent.len() as u64;
    if have != want {
        v.push("wire-bytes", format!("ep{e} should have put {want} bytes on the wire, put {have}"));
    }
}

fn ref_decodes_all(v: &mut V, e: usize) {
    for o in reads(e ^ 1) {
        if let Res::Err(c) = &o.res {
            if !c.is_io() {
                v.push("undecodable", format!("the peer could not decode what ep{e} sent: {c:?}"));
            }
        }
    }
    if let Some(o) = hs_op(e ^ 1) {
        if let Res::Err(c) = &o.res {
            v.push("undecodable", format!("the peer could not follow the handshake of ep{e}: {c:?}"));
        }
    }
}

/// All of it, for endpoints on transports that lose nothing.
fn benign(v: &mut V, done: bool) {
    for e in (0..plan().eps.len()).filter(|e| judged(*e)) {
        let ep = &plan().eps[e];
        if ep.kind.sut() {
            hs_must_succeed(v, e);
            hs_prompt(v, e);
            read_prompt(v, e);
            write_prompt(v, e);
            write_errors(v, e);
        }
        order(v, e);
        if logs()[e].raw_from.is_none() {
            read_errors(v, e);
        }
        if done && plan().eps[e ^ 1].rd_limit.is_none() {
            complete(v, e);
        }
        if done && ep.rd_limit.is_none() && ep.mode == Mode::Split && plan().eps[e ^ 1].mode == Mode::Split {
            let n = writes(e).count();
            if n < ep.writes.len() && writes(e).all(|w| matches!(w.1.res, Res::Ok | Res::Cancelled)) && hs_ok(e) {
                v.push("not-written", format!("ep{e} got through {n} of {} writes", ep.writes.len()));
            }
        }
    }
    same_session(v);
}

/// Offset in s's stream at which its i-th written payload ends (unshaped senders only).
fn end_of(s: usize, i: usize) -> Option<u64> {
    let hs = plan().hs_len(s)?;
    Some(hs + plan().eps[s].writes[..=i].iter().map(|w| w.len + 20).sum::<u64>())
}

fn c04(v: &mut V, done: bool) {
    for e in sut_eps() {
        order(v, e);
        let s = e ^ 1;
        let intact = pipes()[s].intact_prefix();
        let mut i = 0;
        for o in reads(e) {
            if let Res::Payload { len, .. } = o.res {
                if o.background {
                    continue;
                }
                if let Some(end) = end_of(s, i.min(plan().eps[s].writes.len().saturating_sub(1))) {
                    if end > intact {
                        v.push("tampered-accepted", format!("ep{e} returned payload {i} ({len} bytes) ending at byte {end}, the stream is intact only up to {intact}"));
                    }
                }
                i += 1;
            }
        }
        if let Some(f) = pipes()[s].writer_closed {
            // Everything that arrived untouched is still delivered, and the end is reported.
            let _ = f;
        }
        if done && hs_ok(e) {
            let reader = plan().eps[e].mode == Mode::Split || plan().eps[e].tail;
            if reader && !reads(e).any(|o| matches!(o.res, Res::Err(_))) {
                v.push("no-error", format!("ep{e} never reported an error although its stream ended"));
            }
            if plan().hs_len(s).is_some() && reader {
                let n = (0..writes(s).count()).take_while(|i| end_of(s, *i).is_some_and(|x| x <= intact)).count();
                if logs()[e].got < n {
                    v.push("missing-payload", format!("ep{e} got {} payloads, {n} arrived before the tampering", logs()[e].got));
                }
            }
        }
        read_prompt(v, e);
    }
}

fn mismatched(e: usize) -> Option<String> {
    let (a, b) = (&plan().eps[e], &plan().eps[e ^ 1]);
    if b.kind == Kind::Mirror {
        return Some("its own reflected bytes".into());
    }
    if a.init == b.init {
        return Some("a peer in the same role".into());
    }
    if a.magic != b.magic {
        return Some("a peer on another network".into());
    }
    if b.bad_secret {
        return Some("a peer that does not know the secret".into());
    }
    None
}

fn c05(v: &mut V, done: bool) {
    for e in sut_eps() {
        let s = e ^ 1;
        if !hs_ok(e) {
            if done && hs_op(e).is_none_or(|o| o.res == Res::Pending) {
                v.push("no-error", format!("ep{e} never decided its handshake"));
            }
            hs_prompt(v, e);
            // Nothing touched it: it has to succeed.
            if mismatched(e).is_none() && !pipes()[0].tampered && !pipes()[1].tampered {
                hs_must_succeed(v, e);
            }
            continue;
        }
        if let Some(why) = mismatched(e) {
            v.push("accepted-handshake", format!("ep{e} completed a handshake with {why}"));
            continue;
        }
        let key = pipes()[e].intact_prefix();
        if key < 64 {
            v.push("accepted-handshake", format!("ep{e} completed its handshake although its key reached the peer modified (intact {key} bytes)"));
        }
        if let Some(n) = plan().hs_len(s) {
            let intact = pipes()[s].intact_prefix();
            if intact < n {
                v.push("accepted-handshake", format!("ep{e} completed its handshake although only {intact} of the peer's {n} handshake bytes arrived unmodified"));
            }
        }
        order(v, e);
    }
}

fn c06(v: &mut V, done: bool) {
    benign(v, done);
    for e in sut_eps() {
        let s = e ^ 1;
        let Some(inner) = plan().eps[e].inner_after else { continue };
        if !done || !hs_ok(e) || logs()[e].raw_from.is_none() {
            continue;
        }
        let Some(hs) = plan().hs_len(s) else { continue };
        let mut from = hs;
        let mut seen = 0;
        for o in logs()[e].ops.iter() {
            if inner == 0 || o.what == What::Inner {
                break;
            }
            if let Res::Payload { len, .. } = o.res {
                if o.what == What::Read {
                    from += len as u64 + 20;
                    seen += 1;
                }
            }
        }
        let want = &pipes()[s].sent[(from as usize).min(pipes()[s].sent.len())..];
        let raw = &logs()[e].raw;
        if raw[..] != want[..] {
            let p = raw.iter().zip(want).position(|(a, b)| a != b).unwrap_or(raw.len().min(want.len()));
            v.push(
                "recovered-bytes",
                format!("ep{e}: after the handshake and {seen} packets the recovered reader should give the {} bytes from offset {from}, it gave {} bytes, equal up to {p}", want.len(), raw.len()),
            );
        }
        if let Some(c) = &logs()[e].raw_err {
            v.push("recovered-bytes", format!("ep{e}: recovered reader failed with {c:?}"));
        }
    }
}

const RETRY: [&str; 3] = ["ConnectionReset", "ConnectionAborted", "UnexpectedEof"];

/// Offset at which receiver-side trouble starts in the stream s sends: cut, or injected error.
fn trouble_at(p: &Pipe) -> Option<u64> {
    let mut at: Option<u64> = None;
    let mut put = |x: u64| at = Some(at.map_or(x, |a: u64| a.min(x)));
    for t in &p.plan.tampers {
        if t.op == TOp::Cut && !t.rel {
            put(t.at);
        }
    }
    for f in &p.plan.faults {
        if f.kind == PF::ReadErr && !f.rel {
            put(if f.by_time { 0 } else { f.at });
        }
    }
    at
}

fn c08(v: &mut V, done: bool) {
    for e in sut_eps() {
        let s = e ^ 1;
        let inp = &pipes()[s];
        let out = &pipes()[e];
        hs_prompt(v, e);
        read_prompt(v, e);
        order(v, e);
        if let Some(o) = hs_op(e) {
            let v1 = inp.delivered.len() >= 64 && inp.delivered[..4] == plan().magic_bytes(e) && inp.consumed >= 64;
            match &o.res {
                Res::Err(EC::Io { kind, retry }) => {
                    if kind != "BrokenPipe" && *retry != RETRY.contains(&kind.as_str()) {
                        v.push("classification", format!("ep{e} handshake failed with {kind}, suggesting {}", if *retry { "V1" } else { "abort" }));
                    }
                    if v1 {
                        v.push("classification", format!("ep{e}: the peer opened with the network magic, handshake failed with {kind}"));
                    }
                }
                Res::Err(EC::V1) => {
                    if !(inp.delivered.len() >= 4 && inp.delivered[..4] == plan().magic_bytes(e)) {
                        v.push("classification", format!("ep{e} reported V1 for a peer that did not send the magic"));
                    }
                }
                Res::Err(EC::Panic(m)) => v.push("panic", format!("ep{e} handshake: {m}")),
                Res::Err(c) => {
                    if v1 || plan().eps[s].hostile.is_none() {
                        v.push("classification", format!("ep{e} handshake failed with {c:?}; only the connection was lost"));
                    }
                }
                Res::Ok => {
                    if let Some(n) = plan().hs_len(s) {
                        if inp.plan.tampers.iter().any(|t| t.op == TOp::Cut && !t.rel && t.at < n) {
                            v.push("invented-session", format!("ep{e} completed a handshake of which not all bytes arrived"));
                        }
                    }
                }
                _ => {}
            }
            // Nothing went wrong before this endpoint had all it needed.
            let own_trouble = out.write_errs > 0 || inp.read_errs > 0;
            if let (Some(n), true) = (plan().hs_len(s), matches!(o.res, Res::Err(_))) {
                let peer_sent_all = inp.sent.len() as u64 >= n;
                if !own_trouble && peer_sent_all && trouble_at(inp).is_none_or(|a| a >= n) && trouble_at(out).is_none() && plan().eps[s].hostile.is_none() {
                    v.push("handshake-failed", format!("ep{e} failed with {:?} although the whole handshake arrived", o.res));
                }
            }
        }
        // No failure of the transport is passed over.
        let mut failed: Vec<(u64, &str, bool)> = inp.read_err_at.iter().map(|t| (*t, "reading", true)).collect();
        failed.extend(out.first_write_err.map(|t| (t, "writing", false)));
        for (t, what, rd) in failed {
            let over = |o: &&Op| o.t0 < t && t < o.t1 && o.t1 != u64::MAX && o.res == Res::Ok;
            // The worker of a shaped endpoint may write before the handshake call has returned.
            let worker = !rd && plan().eps[e].kind.shaped() && plan().eps[e].cover;
            if let Some(o) = hs_op(e).filter(|o| over(o) && !worker) {
                v.push("error-swallowed", format!("ep{e} {:?} succeeded although {what} failed at {} ms", o.what, t / MS));
            }
            if let Some(o) = reads(e).find(|o| rd && over(o)) {
                v.push("error-swallowed", format!("ep{e} {:?} succeeded although {what} failed at {} ms", o.what, t / MS));
            }
        }
        // All packets that fully arrived come first.
        if done && hs_ok(e) && plan().hs_len(s).is_some() && plan().eps[e].rd_limit.is_none() && plan().eps[e].inner_after.is_none() {
            let reader = plan().eps[e].mode == Mode::Split || plan().eps[e].tail;
            let mut arrived = inp.delivered.len() as u64;
            let mut timed = false;
            for f in &inp.plan.faults {
                if f.kind == PF::ReadErr {
                    timed |= f.by_time;
                    if !f.by_time && !f.rel {
                        arrived = arrived.min(f.at);
                    }
                }
            }
            let n = (0..plan().eps[s].writes.len()).take_while(|i| end_of(s, *i).is_some_and(|x| x <= arrived)).count();
            if reader && !timed && logs()[e].got < n {
                v.push("missing-payload", format!("ep{e} got {} payloads, {n} had fully arrived", logs()[e].got));
            }
        }
        for o in reads(e) {
            if let Res::Err(c) = &o.res {
                match c {
                    EC::Io { kind, retry } => {
                        let _ = (kind, retry);
                    }
                    EC::Panic(m) => v.push("panic", format!("ep{e} read: {m}")),
                    // After an error in mid-packet a second read starts anywhere in the stream.
                    _ if plan().eps[e].read_retry > 0 => {}
                    c => v.push("classification", format!("ep{e} read failed with {c:?}; only the connection was lost")),
                }
            }
        }
    }
}

fn c09(v: &mut V, done: bool) {
    for e in sut_eps() {
        let s = e ^ 1;
        let ep = &plan().eps[e];
        let inp = &pipes()[s];
        order(v, e);
        hs_prompt(v, e);
        read_prompt(v, e);
        
        
        for o in &logs()[e].ops {
            if let Res::Err(EC::Panic(m)) = &o.res {
                v.push("panic", format!("ep{e} {:?}: {m}", o.what));
            }
            if matches!(o.what, What::Hs | What::Read) && o.alloc > 8_500_000 {
                v.push("allocation", format!("ep{e} {:?} asked for {} bytes at once", o.what, o.alloc));
            }
        }
        let Some(h) = &plan().eps[s].hostile else {
            continue;
        };
        let hs = hs_op(e);
        // A fixed amount: how much is read at a time is up to the reader.
        let slack = 16384 + ep.rbuf * 2;
        match h.kind {
            HK::NoTerm => {
                let Some(o) = hs else { continue };
                let flood = if h.term { h.n } else { h.n.max(0) };
                let within = h.term && h.n <= 4095;
                if within {
                    if o.res != Res::Ok {
                        v.push("garbage-refused", format!("ep{e} refused {} bytes of garbage followed by the terminator: {:?}", h.n, o.res));
                    }
                } else {
                    let total = inp.delivered.len() as u64;
                    if o.res == Res::Ok {
                        v.push("garbage-limit", format!("ep{e} accepted {} bytes of garbage", h.n));
                    } else if total >= 64 + 4095 + 16 && flood >= 4096 + 16 && o.res != Res::Err(EC::NoTerm) && o.res != Res::Pending {
                        v.push("garbage-limit", format!("ep{e} ended with {:?} after {flood} bytes without a terminator", o.res));
                    } else if h.term && flood >= 4096 && o.res != Res::Err(EC::NoTerm) && o.res != Res::Pending {
                        v.push("garbage-limit", format!("ep{e} ended with {:?} after {flood} bytes of garbage and a terminator", o.res));
                    }
                    if o.in1 > 64 + 4095 + 16 + slack {
                        v.push("unbounded-read", format!("ep{e} read {} bytes before refusing", o.in1));
                    }
                    // The verdict may not wait for the connection to end.
                    if flood >= 4096 + 16 + 512 && o.res == Res::Err(EC::NoTerm) {
                        if let (Some(c), Some(t)) = (inp.writer_closed, inp.sent_time(64 + 4096 + 16 + 512)) {
                            let lat = (inp.plan.lat_us + 48 * inp.plan.jit_us) * 1000;
                            if o.t1 >= c && c > t + 2 * SEC + lat + o.stalled && o.avail <= t + SEC + lat {
                                v.push("unbounded-read", format!("ep{e} refused only when the stream ended"));
                            }
                        }
                    }
                    if o.res == Res::Pending {
                        v.push("unbounded-read", format!("ep{e} never refused {flood} bytes without a terminator"));
                    }
                }
            }
            HK::HsBig | HK::SessBig => {
                let big = if h.kind == HK::HsBig { hs } else { reads(e).find(|o| matches!(o.res, Res::Err(_))) };
                let sess = h.kind == HK::SessBig;
                let Some(o) = big else { continue };
                // Contents length on the wire; what must be refused, what may be.
                let p = &plan().eps[s];
                let mut need = 64 + p.glen.unwrap_or(0) + 16 + p.decoys.as_ref().map_or(0, |d| d.iter().map(|n| n + 20).sum::<u64>()) + 3;
                if sess {
                    need += 20 + p.ver_len + p.writes.iter().map(|w| w.len + 20).sum::<u64>();
                }
                if (inp.delivered.len() as u64) < need {
                    continue;
                }
                let refuse = h.len > 4_000_200;
                if refuse {
                    if o.alloc > 4_500_000 {
                        v.push("allocation", format!("ep{e}: {} bytes announced, {} bytes allocated at once", h.len, o.alloc));
                    }
                    if o.res != Res::Err(EC::TooBig) && o.res != Res::Pending {
                        v.push("big-packet", format!("ep{e}: a {} packet announcing {} bytes ended with {:?}", if sess { "session" } else { "handshake" }, h.len, o.res));
                    }
                    if let Some(c) = inp.writer_closed {
                        if o.t1 >= c && o.res != Res::Pending && c > o.avail.max(o.t0) + 2 * SEC + o.stalled {
                            v.push("big-packet", format!("ep{e}: refused only after the stream had ended"));
                        }
                    }
                } else if h.len <= 3_999_980 && o.res == Res::Err(EC::TooBig) {
                    v.push("legal-packet-refused", format!("ep{e}: a packet announcing {} bytes was refused as too big", h.len));
                }
            }
            HK::HsBadTag | HK::HsGarbMismatch => {
                if let Some(o) = hs {
                    if o.res == Res::Ok {
                        v.push("accepted-handshake", format!("ep{e} accepted a handshake packet that does not authenticate"));
                    }
                }
            }
            _ => {
                if let Some(o) = hs {
                    if o.res == Res::Ok && matches!(h.kind, HK::Random | HK::V1 | HK::HsShort) {
                        v.push("accepted-handshake", format!("ep{e} completed a handshake with noise"));
                    }
                }
            }
        }
        // Legal large packets sent before the hostile part.
        if done && hs_ok(e) {
            let n = plan().eps[s].writes.len();
            let reader = ep.mode == Mode::Split || ep.tail;
            if reader && logs()[e].got < n && writes(s).count() == n && writes(s).all(|w| w.1.res == Res::Ok) {
                v.push("missing-payload", format!("ep{e} got {} of {n} legal payloads sent before the hostile bytes", logs()[e].got));
            }
        }
    }
}

fn shaped_delivery(v: &mut V, done: bool) {
    benign(v, done);
    for e in sut_eps() {
        if plan().eps[e ^ 1].kind == Kind::Ref {
            ref_decodes_all(v, e);
        }
    }
}

/// (decoy, len, application's own, offset-independent time) of every packet the reference peer saw.
fn packets(e: usize) -> Vec<(bool, usize, bool, u64)> {
    reads(e ^ 1)
        .filter_map(|o| match o.res {
            Res::Payload { decoy, len, .. } => Some((decoy, len, !o.background, o.t1)),
            _ => None,
        })
        .collect()
}

/// Patterns whose probability in uniformly random bytes is below 1e-12.
fn not_random(g: &[u8]) -> Option<String> {
    let n = g.len();
    let mut run = 0;
    for i in 1..n {
        run = if g[i] == g[i - 1] { run + 1 } else { 0 };
        if run >= 8 {
            return Some(format!("9 equal bytes ending at {i}"));
        }
    }
    let mut seen = std::collections::HashSet::new();
    for w in g.windows(8) {
        if !seen.insert(w) {
            return Some(format!("the bytes {w:02x?} occur twice"));
        }
    }
    if n >= 256 {
        let mut has = [false; 256];
        g.iter().for_each(|b| has[*b as usize] = true);
        let k = has.iter().filter(|x| **x).count();
        if k < if n >= 1024 { 205 } else { 100 } {
            return Some(format!("only {k} different byte values"));
        }
        let ones: i64 = g.iter().map(|b| b.count_ones() as i64).sum();
        let off = (ones - 4 * n as i64).abs() as f64;
        if off > 8.5 * (2.0 * n as f64).sqrt() {
            return Some(format!("{ones} of {} bits are set", 8 * n));
        }
    }
    None
}

fn c12(v: &mut V, done: bool) {
    shaped_delivery(v, done);
    let mut pad_sizes: Vec<usize> = Vec::new();
    let mut cover_sizes: Vec<usize> = Vec::new();
    let mut g_lens: Vec<usize> = Vec::new();
    let mut by_len: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    let mut pad_seqs: Vec<Vec<usize>> = Vec::new();
    let mut g_data: Vec<Vec<u8>> = Vec::new();
    for e in sut_eps() {
        let ep = &plan().eps[e];
        if plan().eps[e ^ 1].kind != Kind::Ref || !hs_ok(e ^ 1) || !ep.kind.shaped() {
            continue;
        }
        let re = &logs()[e ^ 1].re;
        if re.garbage.len() > 4095 {
            v.push("garbage-size", format!("ep{e} sent {} bytes of garbage", re.garbage.len()));
        }
        if !ep.pad && !re.garbage.is_empty() {
            v.push("unasked-garbage", format!("ep{e} sent {} bytes of garbage with padding disabled", re.garbage.len()));
        }
        if ep.pad {
            g_lens.push(re.garbage.len());
            g_data.push(re.garbage.clone());
        }
        if !ep.cover && !re.decoys.is_empty() {
            v.push("unasked-decoy", format!("ep{e} sent {} handshake decoys with decoys disabled", re.decoys.len()));
        }
        if re.decoys.len() > 3 {
            v.push("handshake-decoys", format!("ep{e} sent {} handshake decoys", re.decoys.len()));
        }
        for d in &re.decoys {
            if d.is_empty() || d.len() > 1024 {
                v.push("decoy-size", format!("ep{e} sent a handshake decoy of {} bytes", d.len()));
            }
        }
        let ps = packets(e);
        for p in ps.iter().filter(|p| !p.2) {
            if p.1 == 0 || p.1 > 1024 {
                v.push("decoy-size", format!("ep{e} sent a decoy of {} bytes", p.1));
            }
        }
        let nd = ps.iter().filter(|p| !p.2).count();
        let na = ps.len() - nd;
        if !ep.pad && !ep.cover && nd > 0 {
            v.push("unasked-decoy", format!("ep{e} sent {nd} decoys with shaping disabled"));
        }
        if ep.pad {
            // Each payload has a decoy of its own next to it.
            let mut used = vec![false; ps.len()];
            for i in 0..ps.len() {
                if !ps[i].2 {
                    continue;
                }
                if i > 0 && !ps[i - 1].2 && !used[i - 1] {
                    used[i - 1] = true;
                } else if i + 1 < ps.len() && !ps[i + 1].2 && !used[i + 1] {
                    used[i + 1] = true;
                } else if done {
                    v.push("unpadded", format!("ep{e}: packet {i} of {} has no decoy of its own next to it (padding is random)", ps.len()));
                    break;
                }
            }
            if !ep.cover && nd > na {
                v.push("unasked-decoy", format!("ep{e} sent {nd} decoys for {na} payloads with cover traffic disabled"));
            }
            if !ep.cover {
                let ds: Vec<usize> = ps.iter().filter(|p| !p.2).map(|p| p.1).collect();
                if nd == na {
                    for (p, d) in ps.iter().filter(|p| p.2).zip(&ds) {
                        by_len.entry(p.1).or_default().push(*d);
                    }
                }
                pad_sizes.extend(&ds);
                pad_seqs.push(ds);
            }
        }
        if ep.cover && !ep.pad {
            cover_sizes.extend(ps.iter().filter(|p| !p.2).map(|p| p.1));
            // A burst of writes: decoys are paced by time, not by writes.
            let w: Vec<_> = writes(e).map(|w| w.1).collect();
            if w.len() >= 30 && w[w.len() - 1].t1 != u64::MAX && w[w.len() - 1].t1 - w[0].t0 < 60 * MS {
                let first = ps.iter().position(|p| p.2);
                let last = ps.iter().rposition(|p| p.2);
                if let (Some(a), Some(b)) = (first, last) {
                    let d = ps[a..b].iter().filter(|p| !p.2).count();
                    if d > 6 {
                        v.push("unasked-decoy", format!("ep{e}: {d} decoys within a burst of {} writes in {} ms with padding disabled", w.len(), (w[w.len() - 1].t1 - w[0].t0) / MS));
                    }
                }
            }
        }
    }
    for (what, s) in [("padding", &pad_sizes), ("cover", &cover_sizes)] {
        if s.len() >= 16 && s.iter().all(|x| *x == s[0]) {
            v.push("decoy-size", format!("all {} {what} decoys have {} bytes", s.len(), s[0]));
        }
        if s.len() >= 60 && (s.iter().all(|x| *x <= 100) || s.iter().all(|x| *x >= 900)) {
            v.push("decoy-size", format!("{} {what} decoys between {:?} and {:?} bytes only", s.len(), s.iter().min(), s.iter().max()));
        }
    }
    if g_lens.len() >= 6 {
        if g_lens.iter().all(|x| *x == g_lens[0]) {
            v.push("garbage-random", format!("{} connections all sent {} bytes of garbage", g_lens.len(), g_lens[0]));
        }
    }
    // Padding may not be predicted from what is written.
    for (n, s) in &by_len {
        if s.len() >= 12 && s.iter().all(|x| *x == s[0]) {
            v.push("decoy-size", format!("{} payloads of {n} bytes were all padded by {} bytes", s.len(), s[0]));
        }
    }
    for i in 0..pad_seqs.len() {
        for j in 0..i {
            let n = pad_seqs[i].len().min(pad_seqs[j].len());
            if n >= 6 && pad_seqs[i][..n] == pad_seqs[j][..n] {
                v.push("decoy-size", format!("two connections chose the same {n} padding sizes"));
            }
        }
    }
    for g in &g_data {
        if let Some(why) = not_random(g) {
            v.push("garbage-random", format!("garbage of {} bytes: {why}", g.len()));
        }
    }
    for i in 0..g_data.len() {
        let g = &g_data[i];
        if g.len() >= 24 && g.iter().all(|b| *b == g[0]) {
            v.push("garbage-random", format!("garbage of {} equal bytes", g.len()));
        }
        for h in &g_data[..i] {
            let n = g.len().min(h.len());
            if n >= 16 && g[..n] == h[..n] {
                v.push("garbage-random", format!("two connections sent the same {n} bytes of garbage"));
            }
        }
    }
}

fn c13(v: &mut V, done: bool) {
    shaped_delivery(v, done);
    let end_of_run = kern().now;
    for e in sut_eps() {
        let ep = &plan().eps[e];
        if !ep.kind.shaped() || !hs_ok(e) {
            continue;
        }
        let Some(h) = hs_op(e) else { continue };
        let end = drop_op(e).map_or(end_of_run, |o| o.t0);
        let p = &pipes()[e];
        let ref_peer = plan().eps[e ^ 1].kind == Kind::Ref;
        // Moments at which a background decoy went out.
        let hs_end = if ref_peer { logs()[e ^ 1].re.hs_end } else { 0 };
        let mut ds: Vec<u64> = Vec::new();
        if ref_peer {
            let mut off = hs_end;
            for o in reads(e ^ 1) {
                if let Res::Payload { len, .. } = o.res {
                    off += len as u64 + 20;
                    if o.background {
                        ds.push(p.sent_time(off).unwrap_or(o.t1));
                    }
                }
            }
        } else {
            // Packets of the other side end where the stream ends, if it read all of it.
            let total: u64 = reads(e ^ 1).filter_map(|o| if let Res::Payload { len, .. } = o.res { Some(len as u64 + 20) } else { None }).sum();
            let all = reads(e ^ 1).any(|o| matches!(&o.res, Res::Err(EC::Io { .. }))) && p.consumed == p.sent.len() as u64 && p.lost_unflushed == 0;
            let mut off = (p.sent.len() as u64).saturating_sub(total);
            for o in reads(e ^ 1) {
                if let Res::Payload { len, .. } = o.res {
                    off += len as u64 + 20;
                    if o.background {
                        ds.push(p.sent_time(off).unwrap_or(o.t1));
                    }
                }
            }
            if !all && ep.cover {
                // Not decodable from here: any byte sent counts.
                ds = p.sent_marks.iter().map(|m| m.1).collect();
            }
        }
        if !ep.cover {
            let extra = if ep.pad { writes(e).count() } else { 0 };
            if ds.len() > extra {
                v.push("unasked-decoy", format!("ep{e}: {} decoys with cover traffic disabled", ds.len()));
            }
            continue;
        }
        // Stall windows of the transport.
        let mut bad: Vec<(u64, u64)> = p.plan.faults.iter().filter(|f| f.kind == PF::Stall && f.by_time).map(|f| (f.at * MS, (f.at + f.dur_ms) * MS)).collect();
        // A reader that pauses makes the transport refuse data.
        for (at, ms) in &plan().eps[e ^ 1].rpause {
            if *ms > 0 && *at < u64::MAX {
                let rs: Vec<&Op> = reads(e ^ 1).collect();
                if let Some(o) = rs.get(*at as usize) {
                    bad.push((o.t0.saturating_sub(ms * MS), o.t0));
                } else {
                    bad.push((0, u64::MAX));
                }
            }
        }
        if let Some(rc) = p.reader_closed {
            if !p.plan.sink_on_reader_drop {
                bad.push((rc, u64::MAX));
            }
        }
        let slack = kern().stalled_ns + 2 * SEC;
        // 300 checks: all of them negative once in 10^21 times.
        let win = 30 * SEC + slack;
        let mut marks: Vec<u64> = vec![h.t1];
        marks.extend(ds.iter().copied());
        marks.push(end);
        marks.sort_unstable();
        for m in marks.windows(2) {
            let (mut a, b) = (m[0], m[1].min(end));
            // Start counting after the last time the transport refused data.
            let mut cut = b;
            for (x, y) in &bad {
                if *y > a && *x < b {
                    // Window contains trouble: judge the part after it.
                    if *y >= b {
                        cut = cut.min(a);
                    } else {
                        a = a.max(*y);
                    }
                }
            }
            if cut <= a {
                continue;
            }
            if b > a + win {
                v.push("no-cover", format!("ep{e}: no decoy between {} s and {} s although the connection was open", a / SEC, b / SEC));
            }
        }
        if !ref_peer {
            continue;
        }
    }
}

fn c14(v: &mut V, done: bool) {
    for e in sut_eps() {
        let ep = &plan().eps[e];
        order(v, e);
        if !ep.kind.shaped() {
            continue;
        }
        if ep.kind == Kind::ShSync {
            if let Some(n) = logs()[e].hs_fail_live {
                if n > 0 {
                    v.push("worker-left", format!("ep{e}: the handshake failed and {n} worker threads are alive"));
                }
            }
        }
        let closed = pipes()[e].writer_closed;
        let failed_hs = hs_op(e).filter(|o| matches!(o.res, Res::Err(_)));
        if let Some(o) = failed_hs {
            if closed.is_none_or(|c| c > o.t1 + 1500 * MS + o.stalled) {
                v.push("not-released", format!("ep{e}: the handshake failed at {} ms, the writer was released at {closed:?}", o.t1 / MS));
            }
            continue;
        }
        let Some(d) = drop_op(e) else { continue };
        if let Res::Err(c) = &d.res {
            v.push("panic", format!("ep{e}: dropping ended with {c:?}"));
        }
        if d.res == Res::Pending {
            continue;
        }
        let room = pipes()[e].last_room.max(pipes()[e].stalled_until);
        let stalled = kern().stalled_ns;
        if ep.kind == Kind::ShSync {
            if logs()[e].live_after_drop.is_some_and(|n| n > 0) && plan().eps.iter().filter(|x| x.kind == Kind::ShSync).count() == 1 {
                v.push("worker-left", format!("ep{e}: {} worker threads alive when the drop returned", logs()[e].live_after_drop.unwrap()));
            }
            if logs()[e].out_closed_at_drop == Some(false) {
                v.push("not-released", format!("ep{e}: the transport was still held when the drop returned"));
            }
            if d.t1 > d.t0.max(room) + 1500 * MS + stalled {
                v.push("late-drop", format!("ep{e}: drop took from {} to {} ms", d.t0 / MS, d.t1 / MS));
            }
        }
        let from = d.t0.max(if closed.is_some() { pipes()[e].room_at_close } else { 0 });
        match closed {
            None => v.push("not-released", format!("ep{e}: dropped at {} ms, the transport was never released (run ended at {} ms)", d.t0 / MS, kern().now / MS)),
            Some(c) if c > from + 1500 * MS + stalled => v.push("not-released", format!("ep{e}: dropped at {} ms, the transport was released at {} ms", d.t0 / MS, c / MS)),
            _ => {}
        }
        if let Some((_, t)) = pipes()[e].sent_marks.last() {
            if *t > d.t1.max(room) + 1500 * MS + stalled {
                v.push("not-stopped", format!("ep{e}: bytes written {} ms after the drop", (*t - d.t1) / MS));
            }
        }
        if done && plan().eps[e ^ 1].rd_limit.is_none() && pipes()[e].write_errs == 0 && !pipes()[e].tampered && hs_ok(e ^ 1) && pipes()[e].read_errs == 0 {
            complete(v, e);
        }
    }
}

fn c15(v: &mut V, done: bool) {
    for e in sut_eps() {
        order(v, e);
        if plan().eps[e].kind.sut() && done && hs_ok(e) && plan().eps[e ^ 1].rd_limit.is_none() && logs()[e ^ 1].hs == Some(true) {
            complete(v, e);
        }
        for (i, o) in writes(e) {
            if plan().eps[e].writes[i].len > 0xFF_FFFF && o.res == Res::Ok {
                v.push("unencodable-ok", format!("ep{e}: write {i} of {} bytes was reported successful", plan().eps[e].writes[i].len));
            }
            if let Res::Err(EC::Panic(m)) = &o.res {
                v.push("panic", format!("ep{e} write {i}: {m}"));
            }
        }
        if pipes()[e].write_errs == 0 && pipes()[e].reader_closed.is_none() {
            for (i, o) in writes(e) {
                if let Res::Err(c) = &o.res {
                    if plan().eps[e].writes[i].len <= 0xFF_FFFF && plan().eps[e].writes[..i].iter().all(|w| w.len <= 0xFF_FFFF) {
                        v.push("spurious-write-error", format!("ep{e} write {i} failed with {c:?} on a healthy transport"));
                    }
                }
            }
        }
        write_prompt(v, e);
    }
}

/// Directions that nothing was done to.
fn c19(v: &mut V, done: bool) {
    for s in 0..plan().eps.len() {
        let r = s ^ 1;
        order(v, s);
        if plan().flags & (1 << s) == 0 {
            continue;
        }
        // s -> r is healthy.
        if !hs_ok(s) || !hs_ok(r) {
            if plan().eps[s].kind.sut() {
                hs_must_succeed(v, s);
            }
            if plan().eps[r].kind.sut() {
                hs_must_succeed(v, r);
            }
            continue;
        }
        if plan().eps[s].kind.sut() {
            write_errors(v, s);
            write_prompt(v, s);
        }
        if plan().eps[r].kind.sut() {
            read_errors(v, r);
            read_prompt(v, r);
        }
        if done {
            complete(v, s);
            let n = writes(s).count();
            if n < plan().eps[s].writes.len() && writes(s).all(|w| w.1.res == Res::Ok) {
                v.push("not-written", format!("ep{s} got through {n} of {} writes in the healthy direction", plan().eps[s].writes.len()));
            }
        }
    }
}

/// The healthy connections work as if they were alone.
fn c22(v: &mut V, done: bool) {
    match plan().base.as_str() {
        "C11" => shaped_delivery(v, done),
        "C13" => c13(v, done),
        "C14" => c14(v, done),
        _ => {
            benign(v, done);
            for e in sut_eps() {
                if plan().eps[e ^ 1].kind == Kind::Ref {
                    ref_view(v, e);
                    ref_decodes_all(v, e);
                }
            }
        }
    }
}

/// Memory and handles.
fn c23(v: &mut V, done: bool) {
    use crate::kernel::heap;
    for e in sut_eps() {
        order(v, e);
    }
    let quiet = plan().eps.iter().all(|e| e.hostile.is_none()) && pipes().iter().all(|p| p.plan.tampers.is_empty());
    // What may be held at once.
    let mut room = 16_384;
    let mut big = 0;
    for e in sut_eps() {
        let ep = &plan().eps[e];
        let top = |x: &crate::plan::EpPlan| {
            let w = x.writes.iter().map(|w| w.len).max().unwrap_or(0);
            let d = x.decoys.as_ref().map_or(0, |d| d.iter().copied().max().unwrap_or(0));
            w.max(d).max(x.ver_len).max(1024) + 20
        };
        let own = if ep.kind.shaped() { 8192 } else { plan().hs_len(e).unwrap_or(0) };
        room += 24_000 + ep.rbuf + 2 * own + 4 * top(ep) + 3 * top(&plan().eps[e ^ 1]);
        big = big.max(top(ep)).max(top(&plan().eps[e ^ 1]));
        if ep.wcancel > 0 {
            room += 2 * ep.writes.iter().map(|w| w.len + 200).sum::<u64>();
        }
    }
    let (_, _, peak, lost) = heap::state();
    let (blocks, allowed) = (heap::peak_blocks(), sut_eps().iter().map(|e| 80 + if plan().eps[*e].wcancel > 0 { 4 * plan().eps[*e].writes.len() } else { 0 }).sum::<usize>());
    if quiet && blocks > allowed {
        v.push("memory-peak", format!("{blocks} blocks were alive at once, the work in progress accounts for at most {allowed}"));
    }
    if quiet && (peak as u64 > room || lost) {
        v.push("memory-peak", format!("{peak} bytes were alive at once, the packets in progress account for at most {room}"));
    }
    for e in sut_eps() {
        // From when both ends are up.
        let up = sut_eps().iter().map(|x| hs_op(*x).map_or(u64::MAX, |o| o.t1)).max().unwrap();
        let l: Vec<&Op> =
            logs()[e].ops.iter().filter(|o| matches!(o.what, What::Read | What::Write(_)) && o.t0 > up && o.t1 != u64::MAX).collect();
        let hours = l.len() >= 30 && l[l.len() - 1].t0 - l[0].t0 > 1200 * SEC;
        if l.len() < 250 && !hours || plan().eps.len() > 2 {
            continue;
        }
        let (x, y) = if l.len() < 250 { (&l[2..12], &l[l.len() - 10..]) } else { (&l[20..120], &l[l.len() - 100..]) };
        let least = |z: &[&Op], f: fn(&Op) -> usize| z.iter().map(|o| f(o)).min().unwrap();
        let (a, b) = (least(x, |o| o.live), least(y, |o| o.live));
        let (c, d) = (least(x, |o| o.blocks), least(y, |o| o.blocks));
        // With altered lengths, an unfinished packet of any size may be waiting.
        if b as u64 > a as u64 + 9000 + if big > 4000 { 2 * big } else { 0 } && quiet || d > c + 60 {
            v.push("memory-growth", format!("ep{e}: {a} bytes in {c} blocks alive early on, {b} in {d} after {} calls", l.len()));
        }
    }
    if !done {
        return;
    }
    let end = unsafe { crate::world::HEAP_END };
    let sizes = heap::sizes();
    let mut same = std::collections::BTreeMap::new();
    sizes.iter().for_each(|s| *same.entry(*s).or_insert(0u32) += 1);
    if end > 512 || same.iter().any(|(s, n)| *s >= 16 && *n >= 3) {
        v.push("memory-leak", format!("{end} bytes are alive although everything was dropped: blocks of {:?}", &sizes[..sizes.len().min(20)]));
    }
    for e in sut_eps() {
        let stalls = [e, e ^ 1].iter().any(|x| !pipes()[*x].plan.faults.is_empty() || !plan().eps[*x].rpause.is_empty());
        let Some((bytes, blocks)) = logs()[e].left else { continue };
        if !stalls && (bytes > 2048 || blocks > 6) {
            v.push("memory-kept", format!("ep{e}: {bytes} bytes in {blocks} blocks are held in the background {} ms after the connection was dropped", plan().eps[e].post_ms));
        }
    }
    for e in sut_eps() {
        let ep = &plan().eps[e];
        let (w, r) = (pipes()[e].w_dropped, pipes()[e ^ 1].r_dropped);
        let Some(h) = hs_op(e) else { continue };
        let slack = SEC + h.stalled;
        if matches!(h.res, Res::Err(_) | Res::Cancelled) {
            for (n, x) in [("writer", w), ("reader", r)] {
                if x.is_none_or(|t| t > h.t1 + slack) {
                    v.push("not-released", format!("ep{e}: the handshake ended with {:?} at {} ms, the {n} was dropped at {:?} ms", h.res, h.t1 / MS, x.map(|t| t / MS)));
                }
            }
            continue;
        }
        if ep.inner_after.is_some() {
            continue;
        }
        for (n, x, ops) in [("writer", w, [What::DropW, What::DropAll]), ("reader", r, [What::DropR, What::DropAll])] {
            if n == "writer" && ep.kind.shaped() {
                continue;
            }
            let Some(o) = logs()[e].ops.iter().find(|o| ops.contains(&o.what)) else { continue };
            if x.is_none_or(|t| t > o.t1.max(o.t0) + slack + o.stalled) {
                v.push("not-released", format!("ep{e}: dropped at {} ms, the {n} was released at {:?} ms", o.t0 / MS, x.map(|t| t / MS)));
            }
        }
    }
}

pub fn judge(abort: Option<Abort>) -> Vec<String> {
    let mut v = V::default();
    let done = abort.is_none();
    if let Some(a) = abort {
        let pend: Vec<String> = (0..logs().len())
            .flat_map(|e| logs()[e].ops.iter().filter(|o| o.res == Res::Pending).map(move |o| format!("ep{e} {:?} since {} ms", o.what, o.t0 / MS)))
            .collect();
        v.push(
            "no-progress",
            format!("{a:?} at {} ms; pending: {}; threads: {}", kern().now / MS, pend.join(", "), crate::kernel::threads_state()),
        );
    }
    for (loc, msg, sut) in &kern().panics {
        if *sut {
            v.push("panic", format!("{msg} at {loc}"));
        }
    }
    if plan().scen == "world" {
        match plan().prop.as_str() {
            "C02" => {
                benign(&mut v, done);
                for e in sut_eps() {
                    if plan().eps[e ^ 1].kind == Kind::Ref {
                        ref_view(&mut v, e);
                        ref_decodes_all(&mut v, e);
                        if done {
                            exact_bytes(&mut v, e);
                        }
                    }
                }
            }
            "C04" => c04(&mut v, done),
            "C05" => c05(&mut v, done),
            "C06" => c06(&mut v, done),
            "C08" => c08(&mut v, done),
            "C09" => c09(&mut v, done),
            "C10" => {
                benign(&mut v, done);
                for e in sut_eps() {
                    if plan().eps[e ^ 1].kind == Kind::Ref {
                        ref_view(&mut v, e);
                        ref_decodes_all(&mut v, e);
                        if done {
                            exact_bytes(&mut v, e);
                        }
                    }
                }
            }
            "C11" => shaped_delivery(&mut v, done),
            "C12" => c12(&mut v, done),
            "C13" => c13(&mut v, done),
            "C14" => c14(&mut v, done),
            "C15" => c15(&mut v, done),
            "C17" => c17(&mut v),
            "C19" => c19(&mut v, done),
            "C22" => c22(&mut v, done),
            "C23" => c23(&mut v, done),
            "C21" if pipes().iter().any(|p| !p.plan.tampers.is_empty() || !p.plan.faults.is_empty()) || plan().eps[1].hostile.is_some() => {
                order(&mut v, 0);
                hs_prompt(&mut v, 0);
                read_prompt(&mut v, 0);
            }
            _ => {
                benign(&mut v, done);
                if plan().prop == "C20" {
                    for e in sut_eps() {
                        if plan().eps[e ^ 1].kind == Kind::Ref {
                            ref_decodes_all(&mut v, e);
                        }
                    }
                }
            }
        }
    }
    v.0.extend(crate::scen::findings().drain(..));
    v.0
}

/// Secrets of the connections of this run, for comparison within and across runs.
pub fn secrets() -> Vec<(String, Vec<u8>)> {
    let mut out = Vec::new();
    for e in sut_eps() {
        let s = &pipes()[e].sent;
        if s.len() >= 64 {
            out.push((format!("ep{e} key"), s[..64].to_vec()));
        }
        let r = e ^ 1;
        if plan().eps[r].kind == Kind::Ref && hs_ok(r) {
            let re = &logs()[r].re;
            out.push((format!("ep{e} terminator"), re.recv_term.to_vec()));
            out.push((format!("ep{r} terminator"), re.send_term.to_vec()));
            out.push((format!("ep{e} session id"), re.sid.to_vec()));
            if plan().eps[e].kind.shaped() {
                for (i, c) in re.garbage.chunks_exact(16).take(4).enumerate() {
                    out.push((format!("ep{e} garbage[{i}]"), c.to_vec()));
                }
                for d in &re.decoys {
                    if d.len() >= 16 {
                        out.push((format!("ep{e} decoy"), d[..16].to_vec()));
                    }
                }
            }
        } else if let Some(id) = logs()[e].sid {
            if e & 1 == 0 || plan().eps[r].kind != Kind::Sans {
                out.push((format!("ep{e} session id"), id.to_vec()));
            }
        }
    }
    out
}

fn c17(v: &mut V) {
    let some = plan().eps.iter().any(|e| e.healthy);
    for e in sut_eps() {
        if !some || plan().eps[e].healthy {
            hs_must_succeed(v, e);
        }
    }
    // After its key comes its garbage, and then only what is encrypted or derived with keys of its own.
    let mut seen: std::collections::HashMap<&[u8], usize> = Default::default();
    for e in sut_eps() {
        if plan().eps[e].kind.shaped() {
            let s = &pipes()[e].sent;
            for w in s.get(64..).unwrap_or(&[]).windows(12).take(5000) {
                if let Some(o) = seen.insert(w, e) {
                    v.push("repeated-secret", format!("ep{e} and ep{o} sent the same 12 bytes after their keys"));
                    break;
                }
            }
        }
    }
    let s = secrets();
    for i in 0..s.len() {
        for j in 0..i {
            if s[i].1 == s[j].1 {
                v.push("repeated-secret", format!("{} equals {}", s[i].0, s[j].0));
            }
        }
        if s[i].0.ends_with("key") && s[i].1.iter().all(|b| *b == s[i].1[0]) {
            v.push("repeated-secret", format!("{} is constant", s[i].0));
        }
    }
}

#[allow(unused)]
fn unused() {
    let _ = EK::Other;
}
