//! From a seed to a plan: what a run of each property's check looks like.

use crate::pipe::{PFault, PipePlan, TOp, Tamper, EK, PF};
use crate::plan::*;
use crate::prng::{mix3, Rng};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct G {
    pub r: Rng,
    pub deep: bool,
}

const PLAIN: [Kind; 3] = [Kind::Sync, Kind::Async, Kind::Sans];

impl G {
    fn pct(&mut self, p: u64) -> bool {
        self.r.chance(p, 100)
    }
    fn plain(&mut self) -> Kind {
        PLAIN[self.r.weighted(&[4, 4, 3])]
    }
    fn kind(&mut self, w: &[(Kind, u64)]) -> Kind {
        let ws: Vec<u64> = w.iter().map(|x| x.1).collect();
        w[self.r.weighted(&ws)].0
    }
    fn glen(&mut self) -> Option<u64> {
        match self.r.below(10) {
            0 => None,
            1 => Some(0),
            2 => Some(1 + self.r.below(20)),
            3 => Some(4095),
            4 => Some(4080 + self.r.below(16)),
            5 => Some(*self.r.pick(&[15, 16, 17, 63, 64, 65, 239, 240, 241, 255, 256, 257, 1023, 1024, 1025, 2048])),
            6..=7 => Some(self.r.below(300)),
            _ => Some(self.r.below(4096)),
        }
    }
    fn decoys(&mut self) -> Option<Vec<u64>> {
        match self.r.below(8) {
            0..=2 => None,
            3 => Some(vec![]),
            4 => Some(vec![*self.r.pick(&[0, 1, 15, 16, 255, 256, 1024])]),
            5..=6 => {
                let n = 1 + self.r.below(5);
                Some((0..n).map(|_| self.r.below(1200)).collect())
            }
            _ => {
                let n = 1 + self.r.below(12);
                Some((0..n).map(|_| self.r.below(60)).collect())
            }
        }
    }
    fn len(&mut self) -> u64 {
        match self.r.below(16) {
            0 => 0,
            1 => 1,
            2..=5 => self.r.below(32),
            6..=9 => self.r.below(300),
            10..=12 => self.r.below(3000),
            13 => *self.r.pick(&[15, 16, 17, 63, 64, 255, 256, 257, 65535, 65536, 65537]),
            14 => self.r.below(20_000),
            _ => {
                if self.pct(20) {
                    self.r.below(300_000)
                } else {
                    self.r.below(500)
                }
            }
        }
    }
    fn writes(&mut self, max: u64) -> Vec<WPlan> {
        let n = if self.pct(8) { 0 } else { 1 + self.r.below(max) };
        let decoys = self.pct(30);
        let gaps = self.r.below(4);
        (0..n)
            .map(|_| WPlan {
                len: self.len(),
                decoy: decoys && self.pct(30),
                gap_ms: match gaps {
                    0 if self.pct(30) => self.r.below(40),
                    1 if self.pct(10) => self.r.below(400),
                    _ => 0,
                },
                hdr: 0,
                relay: false,
                fill: 0,
            })
            .collect()
    }
    fn ep(&mut self, kind: Kind, init: bool, maxw: u64) -> EpPlan {
        let mut e = EpPlan { kind, init, mode: Mode::Split, ..Default::default() };
        if kind.shaped() {
            e.pad = self.pct(50);
            e.cover = self.pct(60);
        } else {
            e.glen = self.glen();
            e.decoys = self.decoys();
        }
        e.writes = self.writes(maxw);
        if kind.sut() && self.pct(25) {
            e.rbuf = *self.r.pick(&[1, 7, 16, 19, 64, 512, 8192]);
        }
        if self.pct(20) {
            e.start_ms = self.r.below(60);
        }
        if self.pct(15) {
            e.rgap_ms = 1 + self.r.below(15);
        }
        if self.pct(10) {
            let at = self.r.below(6);
            e.rpause = vec![(at, 1 + self.r.below(800))];
        }
        if kind == Kind::Ref {
            self.ref_style(&mut e);
        }
        e
    }
    fn ref_style(&mut self, e: &mut EpPlan) {
        e.gstyle = *self.r.pick(&[GStyle::Random, GStyle::Random, GStyle::Zero, GStyle::NearTerm, GStyle::OwnTerm, GStyle::KeyEcho, GStyle::Ones, GStyle::Magic]);
        e.wait_key = !e.init && self.pct(50);
        e.late_garbage = self.pct(30);
        if self.pct(25) {
            e.part_gap_ms = 1 + self.r.below(30);
        }
        if self.pct(30) {
            e.ver_len = *self.r.pick(&[1, 5, 19, 100, 1000, 5000]);
        }
        if self.pct(40) {
            e.early = 1 + self.r.below(4);
        }
        if self.pct(30) {
            e.hs_hdr = 1 + self.r.below(127) as u8;
        }
        if self.pct(40) {
            for w in &mut e.writes {
                if self.r.chance(1, 2) {
                    w.hdr = self.r.below(128) as u8;
                }
            }
        }
    }
    /// Scheduling noise.
    fn knobs(&mut self, p: &mut Plan) {
        p.p_preempt = *self.r.pick(&[0, 2000, 8000, 30000]);
        p.p_alloc = *self.r.pick(&[0, 0, 500, 4000]);
        p.p_stall = *self.r.pick(&[0, 0, 0, 60]);
        p.stall_max_ms = *self.r.pick(&[20, 500, 3000]);
        p.p_late = *self.r.pick(&[0, 0, 20000]);
        p.late_max_ms = *self.r.pick(&[5, 50]);
        p.p_futex = *self.r.pick(&[0, 2000]);
        if self.pct(12) {
            for _ in 0..1 + self.r.below(3) {
                let d = self.r.range(1, 7_200_000) as i64;
                p.jumps.push((1000 + self.r.below(3000), if self.pct(50) { d } else { -d }));
            }
        }
    }
    /// A transport that loses nothing.
    fn pipe(&mut self, min_cap: u64) -> PipePlan {
        let mut q = PipePlan::default();
        q.cap = match self.r.below(5) {
            0 => min_cap,
            1 => min_cap + self.r.below(5000),
            2 => min_cap.max(65536),
            _ => min_cap.max(1 << 20),
        };
        q.lat_us = *self.r.pick(&[0, 0, 50, 2000, 40_000]);
        q.jit_us = *self.r.pick(&[0, 0, 100, 8000]);
        q.frag = *self.r.pick(&[0, 0, 9000, 50000]);
        q.p_rshort = *self.r.pick(&[0, 0, 8000, 50000]);
        q.p_wshort = *self.r.pick(&[0, 0, 8000, 50000]);
        q.p_spur = *self.r.pick(&[0, 0, 3000, 20000]);
        q.buffered = *self.r.pick(&[0, 0, 0, 64, 4096]);
        q
    }
    fn flight(p: &Plan, e: usize) -> u64 {
        if p.eps[e].kind.shaped() {
            8192
        } else {
            p.hs_len(e).unwrap_or(8192) + 16
        }
    }
    /// Give every endpoint its outgoing transport.
    fn pipes(&mut self, p: &mut Plan) {
        for e in 0..p.eps.len() {
            let q = self.pipe(Self::flight(p, e));
            p.pipes.push(q);
        }
    }
    /// Whole protocols where that cannot deadlock.
    fn whole(&mut self, p: &mut Plan, e: usize, pc: u64) {
        if !self.pct(pc) || !p.eps[e].kind.sut() {
            return;
        }
        let o = e ^ 1;
        // A reference peer sends whenever it wants, which a whole endpoint only reads in step.
        p.eps[e].mode = Mode::Whole;
        let total: u64 = p.eps[e].writes.iter().chain(&p.eps[o].writes).map(|w| w.len + 20).sum();
        let shaped = p.eps[e].kind.shaped() || p.eps[o].kind.shaped();
        if shaped || p.eps[o].kind == Kind::Ref || p.eps[o].mode == Mode::Split {
            for i in [e, o] {
                p.pipes[i].cap = p.pipes[i].cap.max((1 << 20) + total * 2);
            }
        } else if self.pct(30) {
            p.eps[e].batch = true;
            for i in [e, o] {
                p.pipes[i].cap = p.pipes[i].cap.max((1 << 17) + total * 2);
            }
        }
        if p.eps[o].mode == Mode::Split && self.pct(30) && !p.eps[o].tail {
            p.eps[e].tail = true;
        }
    }
    /// Large payloads make byte-wise transfer slow without showing anything new.
    fn tame(p: &mut Plan) {
        for e in 0..p.eps.len() {
            let total: u64 = p.eps[e].writes.iter().map(|w| w.len + 20).sum();
            if total > 60_000 {
                let q = &mut p.pipes[e];
                q.cap = q.cap.max(65536);
                q.frag = q.frag.min(9000);
                q.p_rshort = q.p_rshort.min(8000);
                q.p_wshort = q.p_wshort.min(8000);
                q.p_spur = q.p_spur.min(3000);
                if q.buffered > 0 {
                    q.buffered = 4096;
                }
                if p.eps[e ^ 1].rbuf > 0 && p.eps[e ^ 1].rbuf < 512 {
                    p.eps[e ^ 1].rbuf = 512;
                }
            }
            let n = p.eps[e].writes.len() as u64;
            if n > 60 {
                p.eps[e ^ 1].rgap_ms = p.eps[e ^ 1].rgap_ms.min(1);
            }
        }
    }
    fn benign(p: &mut Plan) {
        p.linger_ms = 600_000;
        p.horizon_s = 2400;
        p.watchdog_s = 0;
    }
    fn attack(p: &mut Plan) {
        p.linger_ms = 5_000;
        p.horizon_s = 400;
        p.watchdog_s = 60;
    }
    /// Two endpoints of given kinds on lossless transports.
    fn pair(&mut self, p: &mut Plan, a: Kind, b: Kind, maxw: u64) {
        let flip = self.pct(50);
        let e0 = self.ep(a, !flip, maxw);
        let e1 = self.ep(b, flip, maxw);
        p.eps.push(e0);
        p.eps.push(e1);
        let magic = *self.r.pick(&[0xD9B4_BEF9u32, 0x0709_110B, 0x283F_161C, 0xDAB5_BFFA, 0x40CF_030A]);
        for e in p.eps.iter_mut() {
            e.magic = magic;
        }
        self.pipes(p);
        Self::benign(p);
    }
    /// The reference peer's key almost begins with the network magic.
    fn near_magic(&mut self, p: &mut Plan) {
        if p.eps[1].kind != Kind::Ref || p.eps[0].magic != p.eps[1].magic || !self.pct(6) {
            return;
        }
        let k = crate::refpeer::ref_key(p.pseed, 1).1;
        let mut m = [k[0], k[1], k[2], k[3]];
        let i = self.r.below(4) as usize;
        match self.r.below(6) {
            0..=2 => m[i] ^= 1 << self.r.below(8),
            3 => {
                // Only one byte in common.
                for (j, b) in m.iter_mut().enumerate() {
                    if j != i {
                        *b ^= 1 + self.r.below(255) as u8;
                    }
                }
            }
            4 => m.reverse(),
            _ => m.rotate_left(1 + i % 3),
        }
        // The real thing is a V1 peer.
        if m[..] == k[..4] {
            m[0] ^= 1;
        }
        for e in &mut p.eps {
            e.magic = u32::from_le_bytes(m);
        }
    }
    /// A network or a peer that takes seconds or minutes.
    fn slow(&mut self, p: &mut Plan, pc: u64) {
        if !self.pct(pc) {
            return;
        }
        let s = self.r.below(2) as usize;
        let ms = *self.r.pick(&[5_000, 11_000, 31_000, 61_000, 130_000, 290_000]);
        let dur_ms = ms + self.r.below(ms / 4);
        match self.r.below(4) {
            0 => p.eps[s].start_ms = dur_ms,
            1 => {
                let at = self.r.below(6);
                p.eps[s].rpause.push((at, dur_ms));
            }
            _ => {
                let (at, rel) = self.stream_off(p, s);
                p.pipes[s].faults.push(PFault { kind: PF::Stall, at, rel, dur_ms, ..Default::default() });
            }
        }
    }
    /// Cut the stream of an unshaped sender exactly at chosen places around its packets.
    fn cuts(&mut self, p: &mut Plan, s: usize, pc: u64) {
        if p.eps[s].kind.shaped() || !self.pct(pc) {
            return;
        }
        let b = Self::offsets_of(p, s);
        for _ in 0..1 + self.r.below(6) {
            let i = self.r.below(b.len() as u64) as usize;
            let at = (b[i] + *self.r.pick(&[0, 1, 2, 3, 4, 5, 18, 19, 20])).saturating_sub(*self.r.pick(&[0, 0, 0, 1, 2, 16, 17]));
            let dur_ms = 1 + self.r.below(30);
            p.pipes[s].faults.push(PFault { kind: PF::Stall, at, rel: true, dur_ms, ..Default::default() });
        }
    }
    /// Now and then one payload far larger than any buffer.
    fn big(&mut self, p: &mut Plan, s: usize, pc: u64) {
        if !self.pct(pc) || p.eps[s].writes.is_empty() {
            return;
        }
        let i = self.r.below(p.eps[s].writes.len() as u64) as usize;
        p.eps[s].writes[i].len = *self.r.pick(&[65_519, 65_536, 70_000, 100_000, 131_072, 200_000]) + self.r.below(40);
    }
    /// Hardly any room once the session has started.
    fn narrow(&mut self, p: &mut Plan, s: usize) {
        let total: u64 = p.eps[s].writes.iter().map(|w| w.len + 20).sum();
        let q = &mut p.pipes[s];
        q.cap2 = *self.r.pick(&[1, 20, 100, 700, 1500, 4000]);
        if total > 10_000 {
            q.cap2 = q.cap2.max(total / 100);
        }
        if q.cap2 < 1000 {
            // Every round trip moves only so much.
            (q.lat_us, q.jit_us) = (0, 0);
        }
    }
    /// Back-pressure that lasts: little room, and a reader that goes away for a while.
    fn squeeze(&mut self, p: &mut Plan, s: usize) {
        if p.eps[s].mode == Mode::Split && p.eps[s ^ 1].mode == Mode::Split {
            self.narrow(p, s);
        }
        let at = self.r.below(10);
        let ms = *self.r.pick(&[2_000, 6_000, 12_000, 35_000, 70_000]);
        p.eps[s ^ 1].rpause.push((at, ms + self.r.below(ms)));
    }
    fn any(&mut self) -> Kind {
        self.kind(&[(Kind::Sync, 4), (Kind::Async, 4), (Kind::Sans, 2), (Kind::ShSync, 2), (Kind::ShAsync, 2)])
    }
    fn peer(&mut self) -> Kind {
        self.kind(&[(Kind::Sync, 3), (Kind::Async, 3), (Kind::Sans, 2), (Kind::Ref, 4)])
    }

    fn c01(&mut self, p: &mut Plan) {
        let (a, b) = (self.any(), if self.pct(40) { Kind::Ref } else { self.any() });
        self.pair(p, a, b, 4);
        if self.pct(15) {
            // Many handshake decoys, or a big one.
            let e = self.r.below(2) as usize;
            if !p.eps[e].kind.shaped() {
                p.eps[e].decoys = Some(match self.r.below(3) {
                    0 => (0..230 + self.r.below(80)).map(|i| i % 3).collect(),
                    1 => vec![30_000 + self.r.below(40_000)],
                    _ => vec![0; 40],
                });
                if self.r.below(1000) < 10 {
                    // Thousands of them, or several of the largest.
                    p.eps[e].decoys = Some(if self.pct(60) {
                        (0..800 + self.r.below(4000)).map(|i| i % 3).collect()
                    } else {
                        (0..2 + self.r.below(3)).map(|_| 3_999_997 - self.r.below(3_000_000) * self.r.below(2)).collect()
                    });
                    p.p_alloc = 0;
                    p.eps[e].part_gap_ms = 0;
                    let q = &mut p.pipes[e];
                    q.frag = 0;
                    q.p_rshort = 0;
                    q.p_wshort = 0;
                    q.p_spur = 0;
                    q.buffered = 0;
                    q.cap = 1 << 24;
                    if p.eps[e ^ 1].rbuf > 0 && p.eps[e ^ 1].rbuf < 4096 {
                        p.eps[e ^ 1].rbuf = 4096;
                    }
                }
                let f = Self::flight(p, e);
                p.pipes[e].cap = p.pipes[e].cap.max(f);
                p.pipes[e].p_rshort = p.pipes[e].p_rshort.min(8000);
            }
        }
        self.whole(p, 0, 30);
        self.whole(p, 1, 30);
        if self.pct(20) {
            p.eps[self.r.below(2) as usize].start_ms = self.r.below(5000);
        }
        self.near_magic(p);
        self.slow(p, 8);
    }

    fn c02(&mut self, p: &mut Plan) {
        let a = self.plain();
        self.pair(p, a, Kind::Ref, 10);
        match self.r.below(6) {
            0 => {
                // Across key rotations, in either direction or both.
                for e in 0..2 {
                    if self.pct(70) {
                        let n = 224 * (1 + self.r.below(if self.deep { 6 } else { 2 })) - 3 + self.r.below(12);
                        p.eps[e].writes = (0..n).map(|_| WPlan { len: self.r.below(24), decoy: self.r.chance(1, 20), ..Default::default() }).collect();
                        p.eps[e].rgap_ms = 0;
                    }
                }
            }
            1 => {
                let e = self.r.below(2) as usize;
                let n = 200 + self.r.below(if self.deep { 800 } else { 300 });
                p.eps[e].decoys = Some((0..n).map(|_| self.r.below(6)).collect());
                let f = Self::flight(p, e);
                p.pipes[e].cap = p.pipes[e].cap.max(f);
                p.eps[e].part_gap_ms = 0;
            }
            _ => {}
        }
        for w in &mut p.eps[1].writes {
            if self.r.chance(1, 3) {
                w.hdr = self.r.below(128) as u8;
            }
        }
        self.whole(p, 0, 15);
    }

    fn c03(&mut self, p: &mut Plan) {
        let (a, b) = (self.any(), self.peer());
        self.pair(p, a, b, 30);
        match self.r.below(12) {
            0 => {
                let e = self.r.below(2) as usize;
                let n = 400 + self.r.below(if self.deep { 2000 } else { 200 });
                p.eps[e].writes = (0..n).map(|_| WPlan { len: self.r.below(16), ..Default::default() }).collect();
            }
            1 => {
                let e = self.r.below(2) as usize;
                let l = match self.r.below(if self.deep { 3 } else { 6 }) {
                    0 => 4_000_013 - self.r.below(3),
                    1 => 1_000_000 + self.r.below(3_000_000),
                    _ => 65_000 + self.r.below(400_000),
                };
                let i = self.r.below(p.eps[e].writes.len() as u64 + 1) as usize;
                p.eps[e].writes.insert(i, WPlan { len: l, ..Default::default() });
                // One big payload at a time is plenty.
                for f in 0..2 {
                    for (j, w) in p.eps[f].writes.iter_mut().enumerate() {
                        if (f, j) != (e, i) {
                            w.len = w.len.min(3000);
                        }
                    }
                }
            }
            _ => {}
        }
        self.whole(p, 0, 30);
        self.whole(p, 1, 30);
        self.slow(p, 6);
        for s in 0..2 {
            self.cuts(p, s, 20);
        }
    }

    fn offsets_of(p: &Plan, s: usize) -> Vec<u64> {
        // Packet boundaries relative to the start of the session.
        let mut v = vec![0];
        let mut o = 0;
        for w in &p.eps[s].writes {
            o += w.len + 20;
            v.push(o);
        }
        v
    }
    fn tamper(&mut self, at: u64) -> Tamper {
        let op = *self.r.pick(&[TOp::Flip, TOp::Flip, TOp::Flip, TOp::Drop, TOp::Dup, TOp::Insert, TOp::Replay, TOp::Swap, TOp::Reflect, TOp::Replace, TOp::Cut]);
        Tamper {
            op,
            at,
            len: *self.r.pick(&[1, 1, 2, 3, 16, 19, 20, 21, 64, 200]),
            from: self.r.below(300),
            mask: 1 << self.r.below(8),
            rel: false,
        }
    }

    fn c04(&mut self, p: &mut Plan) {
        let (a, b) = (self.any(), if self.pct(60) { self.plain() } else { Kind::Ref });
        self.pair(p, a, b, 10);
        for e in 0..2 {
            if p.eps[e].writes.is_empty() {
                p.eps[e].writes.push(WPlan { len: 5, ..Default::default() });
            }
            if self.pct(10) {
                let n = 225 + self.r.below(20);
                p.eps[e].writes = (0..n).map(|_| WPlan { len: self.r.below(12), ..Default::default() }).collect();
            }
            for w in &mut p.eps[e].writes {
                w.len = w.len.min(20_000);
            }
        }
        // The sender under attack: unshaped, so that its packets can be located.
        let mut dirs: Vec<usize> = (0..2).filter(|s| !p.eps[*s].kind.shaped()).collect();
        if dirs.len() == 2 && self.pct(70) {
            let i = self.r.below(2) as usize;
            dirs = vec![dirs[i]];
        }
        for s in dirs {
            let b = Self::offsets_of(p, s);
            let mut prev_end = 0;
            for _ in 0..*self.r.pick(&[1, 1, 1, 2, 3]) {
                let i = self.r.below(b.len() as u64 - 1) as usize;
                let (lo, hi) = (b[i], b[i + 1]);
                let at = match self.r.below(6) {
                    0 => lo,
                    1 => lo + self.r.below(3),
                    2 => lo + 3,
                    3 => hi - 1 - self.r.below(16),
                    _ => lo + self.r.below(hi - lo),
                };
                if at < prev_end {
                    continue;
                }
                let mut t = self.tamper(at);
                // Whole packets: the interesting attacks.
                if matches!(t.op, TOp::Drop | TOp::Dup | TOp::Swap | TOp::Replay | TOp::Reflect) && self.pct(70) {
                    t.at = lo;
                    t.len = hi - lo;
                    let j = self.r.below(b.len() as u64 - 1) as usize;
                    match t.op {
                        TOp::Swap => {
                            if i + 2 < b.len() {
                                t.from = b[i + 2] - b[i + 1];
                            } else {
                                t.op = TOp::Drop;
                            }
                        }
                        TOp::Replay => {
                            let j = j.min(i);
                            t.from = b[j];
                            t.len = b[j + 1] - b[j];
                        }
                        TOp::Reflect => {
                            // Our own session bytes back at us: skip the other side's handshake.
                            let hs = p.hs_len(s ^ 1).unwrap_or(500);
                            t.from = hs;
                            t.len = 20 + p.eps[s ^ 1].writes[0].len;
                        }
                        _ => {}
                    }
                }
                if t.at < prev_end {
                    continue;
                }
                prev_end = t.at + t.len.max(1) + if t.op == TOp::Swap { t.from } else { 0 };
                t.rel = true;
                p.pipes[s].tampers.push(t);
            }
        }
        for e in 0..2 {
            if self.pct(50) {
                p.eps[e].read_retry = 1 + self.r.below(4);
            }
            if p.eps[e].kind.is_async() && self.pct(15) {
                p.eps[e].cancel = 3000;
            }
        }
        if self.pct(20) {
            p.eps[0].mode = if p.eps[0].kind.sut() { Mode::Whole } else { Mode::Split };
            p.eps[0].tail = p.eps[0].mode == Mode::Whole;
            for q in &mut p.pipes {
                q.cap = q.cap.max(1 << 20);
            }
        }
        Self::attack(p);
    }

    fn hs_marks(p: &Plan, e: usize) -> Vec<u64> {
        let ep = &p.eps[e];
        let g = ep.glen.unwrap_or(0);
        let mut v = vec![0, 4, 32, 63, 64, 64 + g / 2, 64 + g, 64 + g + 8, 64 + g + 15, 64 + g + 16];
        let mut o = 64 + g + 16;
        for d in ep.decoys.iter().flatten() {
            v.extend([o, o + 2, o + 3, o + 4, o + d + 4, o + d + 19]);
            o += d + 20;
        }
        v.extend([o, o + 1, o + 2, o + 3, o + 4, o + 19 + ep.ver_len]);
        v
    }

    fn c05(&mut self, p: &mut Plan) {
        let (a, b) = (self.plain(), self.peer());
        self.pair(p, a, b, 4);
        for e in &mut p.eps {
            for w in &mut e.writes {
                w.len = w.len.min(3000);
            }
        }
        match self.r.below(10) {
            0 => {
                p.eps[1] = EpPlan { kind: Kind::Mirror, init: !p.eps[0].init, ..Default::default() };
                p.pipes[1].cap = 1 << 20;
                p.pipes[0].cap = 1 << 20;
                if self.pct(50) {
                    p.eps[0].decoys = None;
                }
            }
            1 => {
                p.eps[1].init = p.eps[0].init;
                p.eps[1].wait_key = false;
            }
            2 => {
                p.eps[1].magic ^= 1 << self.r.below(32);
            }
            3 => {
                if p.eps[1].kind == Kind::Ref {
                    p.eps[1].bad_secret = true;
                } else {
                    p.eps[1].magic = p.eps[1].magic.swap_bytes();
                }
            }
            _ => {
                let both = self.pct(20);
                let first = self.r.below(2) as usize;
                for s in [first, first ^ 1] {
                    if s != first && !both {
                        continue;
                    }
                    let n = p.hs_len(s).unwrap_or(100);
                    let marks = Self::hs_marks(p, s);
                    let at = if self.pct(60) {
                        *self.r.pick(&marks)
                    } else if self.pct(30) {
                        self.r.below(64)
                    } else {
                        self.r.below(n)
                    };
                    let at = at.min(n - 1);
                    let mut t = self.tamper(at);
                    // Handshakes wait for each other: an attacker cannot swap what was not sent.
                    if t.op == TOp::Swap {
                        t.op = if self.pct(50) { TOp::Replace } else { TOp::Flip };
                    }
                    if t.op == TOp::Reflect && at == 0 && self.pct(50) {
                        t.len = 64;
                        t.from = 0;
                    }
                    if matches!(t.op, TOp::Insert | TOp::Dup) && self.pct(15) {
                        t.len = 4000 + self.r.below(300);
                        if t.op == TOp::Dup {
                            t.op = TOp::Insert;
                        }
                    }
                    if matches!(t.op, TOp::Drop | TOp::Dup | TOp::Replace) {
                        t.len = t.len.min(n - at);
                    }
                    p.pipes[s].tampers.push(t);
                    if self.pct(10) && at + 300 < n {
                        let x = at + 250 + self.r.below(n - at - 250);
                        let t2 = Tamper { op: TOp::Flip, at: x, mask: 1 << self.r.below(8), ..Default::default() };
                        p.pipes[s].tampers.push(t2);
                    }
                }
            }
        }
        // Dup needs its whole range to be sent; keep flights in one go.
        Self::attack(p);
    }

    fn c06(&mut self, p: &mut Plan) {
        let a = self.kind(&[(Kind::Sync, 5), (Kind::Async, 5), (Kind::Sans, 1)]);
        let b = self.kind(&[(Kind::Ref, 6), (Kind::Sync, 1), (Kind::Async, 1)]);
        self.pair(p, a, b, 8);
        if p.eps[1].kind == Kind::Ref {
            p.eps[1].early = *self.r.pick(&[0, 1, 2, 3, 8]);
            if self.pct(50) {
                // Small handshakes put several packets into one read-ahead.
                p.eps[1].glen = Some(self.r.below(200));
                p.eps[1].decoys = if self.pct(50) { None } else { Some((0..self.r.below(4)).map(|_| self.r.below(30)).collect()) };
                p.eps[1].part_gap_ms = 0;
                for w in &mut p.eps[1].writes {
                    w.len %= 60;
                }
            }
        }
        p.eps[1].w_nobarrier = true;
        if a != Kind::Sans && self.pct(85) {
            let n = p.eps[1].writes.len() as u64;
            p.eps[0].inner_after = Some(self.r.below(n.min(5) + 1));
        }
        p.eps[0].rpause.clear();
        self.slow(p, 5);
        self.cuts(p, 1, 25);
        self.near_magic(p);
    }

    fn c07(&mut self, p: &mut Plan) {
        let a = self.kind(&[(Kind::Async, 3), (Kind::ShAsync, 1)]);
        let b = self.kind(&[(Kind::Ref, 4), (Kind::Sync, 2), (Kind::Async, 3), (Kind::ShAsync, 1), (Kind::ShSync, 1), (Kind::Sans, 1)]);
        self.pair(p, a, b, 12);
        p.eps[0].cancel = *self.r.pick(&[3000, 20000, 50000]);
        if b.is_async() && self.pct(50) {
            p.eps[1].cancel = *self.r.pick(&[3000, 20000]);
        }
        let q = &mut p.pipes[1];
        q.frag = *self.r.pick(&[9000, 50000]);
        q.lat_us = *self.r.pick(&[0, 100, 3000]);
        q.jit_us = *self.r.pick(&[100, 3000]);
        if self.pct(30) {
            q.p_rshort = 50000;
        }
        for w in &mut p.eps[1].writes {
            w.len = w.len.min(20_000);
        }
        self.big(p, 1, 12);
        self.whole(p, 0, 40);
        self.whole(p, 1, 20);
        self.cuts(p, 1, 50);
        self.slow(p, 4);
    }

    fn err(&mut self) -> EK {
        // Those that are most often told apart.
        if self.pct(60) {
            return *self.r.pick(&[EK::ConnectionReset, EK::ConnectionAborted, EK::UnexpectedEof, EK::TimedOut, EK::TimedOut, EK::WouldBlock]);
        }
        *self.r.pick(&[
            EK::ConnectionReset,
            EK::ConnectionAborted,
            EK::UnexpectedEof,
            EK::TimedOut,
            EK::NotConnected,
            EK::PermissionDenied,
            EK::InvalidData,
            EK::ConnectionRefused,
            EK::HostUnreachable,
            EK::NetworkDown,
            EK::NetworkUnreachable,
            EK::AddrNotAvailable,
            EK::InvalidInput,
            EK::NotFound,
            EK::Unsupported,
            EK::WriteZero,
            EK::ResourceBusy,
            EK::StorageFull,
            EK::OutOfMemory,
            EK::Other,
        ])
    }
    fn stream_off(&mut self, p: &Plan, s: usize) -> (u64, bool) {
        // Somewhere in the handshake (absolute) or in the session (relative).
        if self.pct(60) {
            let n = p.hs_len(s).unwrap_or(600);
            let m = Self::hs_marks(p, s);
            let at = if self.pct(60) { *self.r.pick(&m) } else { self.r.below(n + 1) };
            (at.min(n), false)
        } else {
            let b = Self::offsets_of(p, s);
            let last = *b.last().unwrap();
            let at = match self.r.below(3) {
                0 => *self.r.pick(&b),
                1 => {
                    let x = *self.r.pick(&b);
                    x + *self.r.pick(&[1, 2, 3, 4, 16, 19])
                }
                _ => self.r.below(last + 1),
            };
            (at, true)
        }
    }

    fn c08(&mut self, p: &mut Plan) {
        let (a, b) = (self.any(), self.peer());
        self.pair(p, a, b, 8);
        for e in 0..2 {
            for w in &mut p.eps[e].writes {
                w.len = w.len.min(6000);
            }
            if self.pct(15) {
                p.eps[e].read_retry = 1;
            }
        }
        let n = 1 + (self.pct(20) as u64);
        for _ in 0..n {
            let s = self.r.below(2) as usize;
            let (at, rel) = self.stream_off(p, s);
            match self.r.below(8) {
                0..=2 => {
                    if p.pipes[s].tampers.is_empty() {
                        p.pipes[s].tampers.push(Tamper { op: TOp::Cut, at, rel, ..Default::default() });
                    }
                    if self.pct(40) {
                        p.pipes[s].close_err = Some(self.err());
                    }
                }
                3..=4 => {
                    let err = self.err();
                    let sticky = self.pct(50);
                    p.pipes[s].faults.push(PFault { kind: PF::ReadErr, at, rel, err, sticky, ..Default::default() });
                }
                5 => {
                    let err = self.err();
                    p.pipes[s].faults.push(PFault { kind: PF::WriteErr, at, rel, err, sticky: true, ..Default::default() });
                }
                6 => {
                    // A V1 peer, or one that only sends the beginning of its key.
                    let magic = p.eps[0].magic;
                    let h = if self.pct(70) {
                        Hostile { kind: HK::V1, n: *self.r.pick(&[4, 10, 16, 24, 63, 64, 64, 100, 124, 500]), close_ms: *self.r.pick(&[0, 1, 200]), ..Default::default() }
                    } else {
                        Hostile { kind: HK::HsShort, n: self.r.below(64), close_ms: *self.r.pick(&[1, 50]), ..Default::default() }
                    };
                    p.eps[1] = EpPlan { kind: Kind::Ref, init: !p.eps[0].init, magic, hostile: Some(h), ..Default::default() };
                    p.pipes[1].cap = p.pipes[1].cap.max(8192);
                    p.pipes[0].cap = p.pipes[0].cap.max(8192);
                    break;
                }
                _ => {
                    let k = *self.r.pick(&[PF::WriteZero, PF::FlushErr]);
                    let at = if k == PF::FlushErr { self.r.below(4) } else { at };
                    let err = self.err();
                    let sticky = k != PF::FlushErr || self.pct(50);
                    p.pipes[s].faults.push(PFault { kind: k, at, rel: rel && k != PF::FlushErr, err, sticky, ..Default::default() });
                }
            }
        }
        self.near_magic(p);
        Self::attack(p);
    }

    fn c09(&mut self, p: &mut Plan) {
        let a = self.kind(&[(Kind::Sync, 5), (Kind::Async, 5), (Kind::Sans, 2), (Kind::ShSync, 1), (Kind::ShAsync, 1)]);
        self.pair(p, a, Kind::Ref, 4);
        for w in &mut p.eps[1].writes {
            w.len = w.len.min(5000);
        }
        let mut k = *self.r.pick(&[
            HK::Random,
            HK::V1,
            HK::NoTerm,
            HK::NoTerm,
            HK::NoTerm,
            HK::HsBig,
            HK::HsBig,
            HK::SessBig,
            HK::SessBig,
            HK::SessRandom,
            HK::HsBadTag,
            HK::SessBadTag,
            HK::HsGarbMismatch,
            HK::HsShort,
        ]);
        if a == Kind::Sans && matches!(k, HK::HsBig | HK::SessBig) {
            k = HK::SessRandom;
        }
        let mut h = Hostile { kind: k, close_ms: *self.r.pick(&[0, 1, 300, 4000]), ..Default::default() };
        match k {
            HK::Random => h.n = *self.r.pick(&[0, 1, 3, 4, 63, 64, 65, 80, 4000, 4159, 4175, 4176, 5000, 60_000]),
            HK::V1 => h.n = *self.r.pick(&[4, 24, 63, 64, 200, 5000]),
            HK::HsShort => h.n = self.r.below(64),
            HK::NoTerm => {
                h.term = self.pct(60);
                h.n = if h.term {
                    *self.r.pick(&[4095, 4095, 4094, 4096, 4097, 4080, 4100, 4111, 4112, 8000, 0, 17, 1000])
                } else {
                    *self.r.pick(&[4095, 4096, 4110, 4111, 4112, 4113, 6000, 20_000, 100_000])
                };
                p.eps[1].part_gap_ms = *self.r.pick(&[0, 0, 5]);
                p.eps[1].decoys = None;
                p.eps[1].ver_len = 0;
                p.eps[1].writes.clear();
                p.eps[1].early = 0;
            }
            HK::HsBig | HK::SessBig => {
                h.len = match self.r.below(5) {
                    0 => 0xFF_FFFF - self.r.below(20),
                    1 => 4_000_201 + self.r.below(500),
                    2 => 4_000_201 + self.r.below(12_000_000),
                    3 => 3_000_000 + self.r.below(999_000),
                    _ => *self.r.pick(&[3_999_980, 4_194_304, 5_000_000, 8_388_608]),
                };
                h.n = *self.r.pick(&[0, 1, 16, 100, 5000]);
                if h.len <= 4_000_200 && h.close_ms == 0 {
                    h.close_ms = 100;
                }
            }
            HK::SessRandom => h.n = *self.r.pick(&[1, 2, 3, 4, 19, 20, 21, 100, 5000, 50_000]),
            HK::HsBadTag | HK::SessBadTag => {
                h.n = self.r.below(2000);
                h.len = *self.r.pick(&[0, 1, 100, 3000]);
                h.term = self.pct(50);
            }
            _ => {}
        }
        p.eps[1].hostile = Some(h);
        if self.pct(30) {
            p.eps[0].read_retry = 1 + self.r.below(3);
        }
        if a.is_async() && self.pct(20) {
            p.eps[0].cancel = 3000;
        }
        for q in &mut p.pipes {
            q.cap = q.cap.max(8192);
        }
        Self::attack(p);
    }

    fn c10(&mut self, p: &mut Plan) {
        let a = self.kind(&[(Kind::Sync, 6), (Kind::Async, 3), (Kind::Sans, 1), (Kind::ShSync, 4), (Kind::ShAsync, 1)]);
        let b = if self.pct(50) { Kind::Ref } else { self.kind(&[(Kind::Sync, 3), (Kind::Async, 2), (Kind::ShSync, 1)]) };
        self.pair(p, a, b, 10);
        for q in &mut p.pipes {
            q.p_eintr_r = *self.r.pick(&[0, 600, 6000, 30000]);
            q.p_eintr_w = *self.r.pick(&[0, 600, 6000, 30000]);
            q.p_rshort = *self.r.pick(&[0, 8000, 40000, 65536]);
            q.p_wshort = *self.r.pick(&[0, 8000, 40000, 65536]);
            q.p_spur = *self.r.pick(&[0, 3000, 30000]);
            q.frag = *self.r.pick(&[0, 9000, 50000]);
        }
        for e in 0..2 {
            for w in &mut p.eps[e].writes {
                w.len = w.len.min(20_000);
            }
            self.cuts(p, e, 15);
        }
        self.whole(p, 0, 25);
    }

    fn shaped(&mut self) -> Kind {
        if self.pct(50) {
            Kind::ShSync
        } else {
            Kind::ShAsync
        }
    }

    fn c11(&mut self, p: &mut Plan) {
        let a = self.shaped();
        let b = match self.r.below(10) {
            0..=5 => Kind::Ref,
            6 => Kind::Sync,
            7 => Kind::Async,
            _ => self.shaped(),
        };
        self.pair(p, a, b, 20);
        p.eps[0].cover = self.pct(85);
        p.eps[0].pad = self.pct(50);
        if self.pct(60) {
            // Writes meet the worker's ticks.
            for w in &mut p.eps[0].writes {
                w.gap_ms = *self.r.pick(&[0, 0, 10, 50, 99, 100, 100, 101, 300]);
                w.len = w.len.min(8000);
            }
        }
        p.p_preempt = *self.r.pick(&[2000, 8000, 30000]);
        // Back-pressure.
        match self.r.below(5) {
            0 => p.eps[1].rgap_ms = 20 + self.r.below(100),
            1 => p.eps[1].rpause = vec![(self.r.below(10), 500 + self.r.below(5000))],
            2 => {
                let at = 1000 + self.r.below(3000);
                p.pipes[0].faults.push(PFault { kind: PF::Stall, at, by_time: true, dur_ms: 100 + self.r.below(4000), ..Default::default() });
            }
            _ => {}
        }
        if self.pct(30) {
            p.eps[0].w_hold_ms = self.r.below(8000);
        }
        if self.pct(20) {
            p.pipes[0].cap = 8192;
        }
        if a == Kind::ShAsync && self.pct(20) {
            // Callers that give up on a write.
            p.eps[0].wcancel = *self.r.pick(&[3000, 20000, 50000]);
            for w in &mut p.eps[0].writes {
                w.len = w.len.max(8);
            }
            if self.pct(40) {
                // Many of them pile up while nothing can be sent.
                let n = if self.pct(20) { 300 + self.r.below(1200) } else { 20 + self.r.below(200) };
                let gap = self.r.below(2);
                p.eps[0].writes = (0..n).map(|_| WPlan { len: 8 + self.r.below(60), gap_ms: gap, ..Default::default() }).collect();
                p.eps[0].wcancel = 65_000;
                let at = 1000 + self.r.below(300);
                p.pipes[0].faults.push(PFault { kind: PF::Stall, at, by_time: true, dur_ms: 2000 + self.r.below(5000), ..Default::default() });
            }
        }
        self.whole(p, 0, 25);
        if self.pct(12) {
            self.squeeze(p, 0);
        }
        self.slow(p, 3);
    }

    fn c12(&mut self, p: &mut Plan) {
        let n = if self.deep { 6 + self.r.below(5) } else { 4 + self.r.below(4) };
        let kind = self.shaped();
        let cfg = self.r.below(4);
        let spread = self.pct(40);
        for i in 0..n {
            let k = if self.pct(25) { self.shaped() } else { kind };
            let init = self.pct(50);
            let mut e = EpPlan { kind: k, init, ..Default::default() };
            let c = if spread { (cfg + i) % 4 } else { cfg };
            e.pad = c & 1 != 0;
            e.cover = c & 2 != 0;
            e.writes = if self.pct(40) {
                (0..30 + self.r.below(30)).map(|_| WPlan { len: self.r.below(200), ..Default::default() }).collect()
            } else {
                self.writes(12)
            };
            for w in &mut e.writes {
                w.len = w.len.min(3000);
            }
            match self.r.below(8) {
                0 => {
                    let l = self.r.below(300);
                    for w in &mut e.writes {
                        w.len = l;
                    }
                }
                1 if !e.writes.is_empty() => {
                    let j = self.r.below(e.writes.len() as u64) as usize;
                    e.writes[j].len = *self.r.pick(&[5000, 20_000, 65_516, 65_536, 70_000, 140_000]);
                }
                _ => {}
            }
            e.w_hold_ms = *self.r.pick(&[0, 500, 5000, 20_000]);
            let mut q = self.ep(Kind::Ref, !init, 3);
            q.rgap_ms = 0;
            q.rpause.clear();
            p.eps.push(e);
            p.eps.push(q);
        }
        self.pipes(p);
        Self::benign(p);
    }

    fn c13(&mut self, p: &mut Plan) {
        let a = self.shaped();
        let b = match self.r.below(6) {
            0..=2 => Kind::Ref,
            3 => self.shaped(),
            4 => Kind::Sync,
            _ => Kind::Async,
        };
        self.pair(p, a, b, 6);
        for e in 0..2 {
            if p.eps[e].kind.shaped() {
                p.eps[e].cover = self.pct(85);
            }
            for w in &mut p.eps[e].writes {
                w.gap_ms = *self.r.pick(&[0, 50, 2000, 30_000]);
                w.len = w.len.min(5000);
            }
            p.eps[e].rgap_ms = 0;
            p.eps[e].rpause.clear();
        }
        p.eps[0].w_hold_ms = 100_000 + self.r.below(if self.deep { 1_500_000 } else { 250_000 });
        if self.pct(25) {
            p.eps[1].w_hold_ms = self.r.below(200_000);
        }
        match self.r.below(6) {
            // The reading half goes away.
            0 => p.eps[0].rd_limit = Some(self.r.below(2)),
            1 => {
                let at = 2000 + self.r.below(60_000);
                p.pipes[0].faults.push(PFault { kind: PF::Stall, at, by_time: true, dur_ms: 1000 + self.r.below(90_000), ..Default::default() });
            }
            2 => {
                let at = 1 + self.r.below(5);
                p.eps[1].rpause = vec![(at, 1000 + self.r.below(60_000))];
                p.pipes[0].cap = 8192;
            }
            // Reads pending on a whole protocol.
            3 => {
                p.eps[0].mode = Mode::Whole;
                p.eps[0].tail = true;
                p.eps[1].w_hold_ms = p.eps[0].w_hold_ms;
                p.eps[0].w_hold_ms = self.r.below(3000);
                p.pipes[0].cap = 1 << 21;
                p.pipes[1].cap = 1 << 21;
            }
            _ => {}
        }
        p.p_alloc = p.p_alloc.min(500);
        Self::benign(p);
        p.linger_ms = 3_000_000;
        p.horizon_s = 8_000;
        if p.prop == "C13" && self.r.below(1000) < 40 {
            // A busy connection: the pauses are shorter than a check interval, for minutes.
            let who = self.r.below(3);
            for e in 0..2 {
                p.eps[e].mode = Mode::Split;
                p.eps[e].cover |= p.eps[e].kind.shaped();
                p.eps[e].writes.clear();
                p.eps[e].rpause.clear();
                p.eps[e].tail = true;
                p.eps[e].rd_limit = None;
                if who == 2 || who == e as u64 {
                    let gap = 5 + self.r.below(94);
                    let n = (40_000 + self.r.below(30_000)) / (gap + 5) + 1;
                    for _ in 0..n {
                        let g = gap + self.r.below(10);
                        p.eps[e].writes.push(WPlan { len: self.r.below(300), gap_ms: g, ..Default::default() });
                    }
                }
                p.eps[e].w_hold_ms = 70_000 - 20_000 * self.r.below(2);
            }
            p.p_alloc = 0;
            p.max_steps = 60_000_000;
            for q in &mut p.pipes {
                q.faults.clear();
                q.frag = 0;
                q.p_rshort = 0;
                q.p_wshort = 0;
                q.cap = 1 << 22;
            }
            return;
        }
        if self.r.below(1000) < 15 {
            // A connection left idle for hours.
            let hold = 2_000_000 + self.r.below(if self.deep { 14_000_000 } else { 3_000_000 });
            p.eps[0].w_hold_ms = hold;
            p.eps[0].cover = true;
            p.linger_ms = 20_000_000;
            p.horizon_s = 40_000;
            p.max_steps = 60_000_000;
            p.p_alloc = 0;
            for q in &mut p.pipes {
                q.frag = 0;
                q.p_rshort = 0;
                q.p_wshort = 0;
                q.cap = 1 << 25;
            }
        }
    }

    fn c14(&mut self, p: &mut Plan) {
        let a = self.shaped();
        let b = self.kind(&[(Kind::Ref, 6), (Kind::Sync, 2), (Kind::Async, 2)]);
        self.pair(p, a, b, 5);
        p.eps[0].cover = self.pct(60);
        p.eps[0].pad = self.pct(40);
        p.eps[0].w_hold_ms = match self.r.below(4) {
            0 => 0,
            1 => self.r.below(300),
            _ if self.pct(6) => *self.r.pick(&[20_000, 70_000, 150_000, 400_000]) + self.r.below(10_000),
            _ => self.r.below(4000),
        };
        p.eps[0].w_nobarrier = true;
        for e in 0..2 {
            for w in &mut p.eps[e].writes {
                w.len = w.len.min(5000);
            }
            p.eps[e].rgap_ms = 0;
            p.eps[e].rpause.clear();
            p.eps[e].start_ms = 0;
        }
        match self.r.below(10) {
            0 => {
                p.eps[0].rd_limit = Some(self.r.below(2));
                p.eps[1].w_nobarrier = self.pct(50);
            }
            1 => p.eps[0].r_hold_ms = self.r.below(5000),
            2 => {
                // Drop while the transport is stuck; it recovers later.
                let at = self.r.below(3000) + 1000;
                p.pipes[0].faults.push(PFault { kind: PF::Stall, at, by_time: true, dur_ms: 500 + self.r.below(6000), ..Default::default() });
            }
            3 => {
                p.eps[1].rpause = vec![(self.r.below(4), 500 + self.r.below(6000))];
                p.pipes[0].cap = 8192;
            }
            4 => {
                // Peer goes away first.
                p.eps[1].w_nobarrier = true;
                p.eps[1].rd_limit = Some(self.r.below(3));
                p.pipes[0].sink_on_reader_drop = self.pct(30);
            }
            5 => {
                let kind = *self.r.pick(&[HK::V1, HK::Random, HK::HsBadTag, HK::HsShort, HK::HsGarbMismatch]);
                p.eps[1] = EpPlan {
                    kind: Kind::Ref,
                    init: !p.eps[0].init,
                    magic: p.eps[0].magic,
                    hostile: Some(Hostile { kind, n: *self.r.pick(&[0, 10, 64, 5000]), len: 3, close_ms: *self.r.pick(&[0, 1, 500]), ..Default::default() }),
                    ..Default::default()
                };
            }
            6 => {
                let s = self.r.below(2) as usize;
                let at = self.r.below(120);
                p.pipes[s].tampers.push(Tamper { op: TOp::Cut, at, ..Default::default() });
            }
            7 => {
                // The transport breaks some time after the handshake.
                let err = self.err();
                p.pipes[0].faults.push(PFault { kind: PF::WriteErr, at: self.r.below(3000), by_time: true, rel: true, err, sticky: true, ..Default::default() });
            }
            _ => {}
        }
        let risky = p.pipes.iter().any(|q| !q.tampers.is_empty()) || p.eps[1].hostile.is_some();
        if self.pct(40) {
            p.eps[0].mode = Mode::Whole;
            for q in &mut p.pipes {
                q.cap = q.cap.max(1 << 20);
            }
        }
        if risky {
            Self::attack(p);
            p.horizon_s = 1000;
        } else {
            Self::benign(p);
            p.linger_ms = 30_000;
        }
    }

    fn c15(&mut self, p: &mut Plan) {
        let a = self.kind(&[(Kind::ShSync, 4), (Kind::ShAsync, 4), (Kind::Sync, 2), (Kind::Async, 2), (Kind::Sans, 1)]);
        self.pair(p, a, Kind::Ref, 12);
        p.eps[1].hs_hdr = 0;
        p.eps[1].rpause.clear();
        for w in &mut p.eps[0].writes {
            w.len = w.len.min(6000);
        }
        if a.shaped() {
            p.eps[0].cover = self.pct(85);
            p.eps[0].pad = self.pct(30);
            for w in &mut p.eps[0].writes {
                w.gap_ms = *self.r.pick(&[0, 20, 150, 400, 800]);
            }
            p.eps[0].w_hold_ms = self.r.below(1500);
        }
        p.eps[0].write_retry = self.pct(60);
        if a.shaped() && self.pct(12) {
            self.squeeze(p, 0);
            p.eps[0].w_hold_ms += 20_000;
        }
        let big = !a.shaped() && a != Kind::Sans && self.pct(if self.deep { 8 } else { 6 });
        if big {
            let l = *self.r.pick(&[16_777_215, 16_777_216, 16_777_217, 16_777_300, 17_000_000]);
            let i = self.r.below(p.eps[0].writes.len() as u64 + 1) as usize;
            p.eps[0].writes.truncate(4);
            let i = i.min(p.eps[0].writes.len());
            p.eps[0].writes.insert(i, WPlan { len: l, ..Default::default() });
            p.pipes[0] = PipePlan { cap: 1 << 20, ..Default::default() };
            p.p_alloc = 0;
        } else if self.pct(85) {
            for _ in 0..1 + self.r.below(2) {
                let kind = *self.r.pick(&[PF::WriteErr, PF::WriteErr, PF::WriteErr, PF::WriteZero, PF::FlushErr]);
                let by_time = a.shaped() && self.pct(60);
                let at = if by_time {
                    self.r.below(5000)
                } else if kind == PF::FlushErr {
                    self.r.below(12)
                } else {
                    let b = Self::offsets_of(p, 0);
                    self.r.below(*b.last().unwrap() + 200)
                };
                let err = self.err();
                let sticky = self.pct(30);
                let extra = if self.pct(50) { self.r.below(600) } else { 0 };
                p.pipes[0].faults.push(PFault { kind, at, by_time, extra, err, sticky, dur_ms: 0, rel: true });
            }
        }
        Self::benign(p);
        p.linger_ms = 60_000;
        p.horizon_s = 600;
    }

    fn c16(&mut self, p: &mut Plan) {
        p.scen = "stats".into();
        let long = self.pct(10);
        let stepping = !long && self.pct(60);
        let mut threads = 1 + self.r.below(if stepping { 3 } else { 5 });
        if long {
            threads = 1 + self.r.below(3);
        }
        p.flags = self.pct(30) as u64;
        let mut n = 1 + self.r.below(if stepping { 6 } else { 20 });
        if long {
            n = 60 + self.r.below(120);
        }
        if stepping {
            p.p_step = *self.r.pick(&[300, 2000, 8000, 20000, 40000, 50000]);
            if p.p_step >= 40000 {
                // Few operations, many switches between their atomic steps.
                threads = 3;
                n = 1 + self.r.below(3);
            }
        } else {
            p.p_preempt = *self.r.pick(&[2000, 20000, 50000]);
        }
        p.nums = vec![threads];
        // Some histories are all of one kind, so that the threads meet in one counter.
        let one = if self.pct(25) { Some(self.r.below(2)) } else { None };
        for t in 0..threads {
            for _ in 0..n {
                let mut k = self.r.weighted(&[6, 6, 3, 3, 2]) as u64;
                if k < 2 {
                    k = one.unwrap_or(k);
                }
                let x = match k {
                    4 => self.r.below(2000),
                    _ => *self.r.pick(&[0, 1, 2, 3, 100, 1024, 65536, 1 << 31, 1 << 33]),
                };
                p.ops.push((t, k, x));
            }
        }
        p.jumps.clear();
        if self.pct(60) {
            for _ in 0..1 + self.r.below(4) {
                let d = self.r.range(1, *self.r.clone().pick(&[10, 1000, 3_600_000, 400_000_000_000])) as i64;
                p.jumps.push((1000 + self.r.below(4000), if self.pct(50) { d } else { -d }));
            }
        }
        p.p_stall = 0;
    }

    fn c17(&mut self, p: &mut Plan) {
        let n = 2 + self.r.below(5);
        let restart = self.pct(35);
        let n = if restart { n.min(3) } else { n };
        for _ in 0..n {
            let k = self.any();
            let init = self.pct(50);
            let mut e = self.ep(k, init, 1);
            let peer = if self.pct(70) { Kind::Ref } else { self.plain() };
            let mut q = self.ep(peer, !init, 1);
            for x in [&mut e, &mut q] {
                x.start_ms = 0;
                x.rgap_ms = 0;
                x.rpause.clear();
                for w in &mut x.writes {
                    w.len = w.len.min(100);
                }
            }
            if k.shaped() {
                e.pad = self.pct(80);
                e.cover = self.pct(80);
            }
            p.eps.push(e);
            p.eps.push(q);
        }
        self.pipes(p);
        Self::benign(p);
        if restart {
            p.scen = "restart".into();
            p.nums = vec![2 + self.r.below(2)];
        }
        if self.pct(25) {
            self.failed_before(p);
        }
    }
    /// Handshakes that fail, before those of the plan (and between them).
    fn failed_before(&mut self, p: &mut Plan) {
        let like = self.pct(60).then(|| self.any());
        let shapes = (self.pct(60), self.pct(60));
        let mut start = 0;
        for i in 0..p.eps.len() {
            p.eps[i].healthy = true;
            if i & 1 == 0 {
                start += self.r.range(3000, 9000);
                if let Some(k) = like {
                    let magic = p.eps[i].magic;
                    let init = p.eps[i].init;
                    p.eps[i] = EpPlan { magic, healthy: true, ..self.ep(k, init, 1) };
                    p.eps[i].rgap_ms = 0;
                    p.eps[i].rpause.clear();
                    p.eps[i].writes.iter_mut().for_each(|w| w.len = w.len.min(100));
                    if k.shaped() {
                        (p.eps[i].pad, p.eps[i].cover) = shapes;
                    }
                }
            }
            p.eps[i].start_ms = start;
        }
        let n = 1 + self.r.below(3);
        for _ in 0..n {
            let k = like.unwrap_or_else(|| self.any());
            let init = self.pct(50);
            let mut a = self.ep(k, init, 1);
            if k.shaped() {
                (a.pad, a.cover) = shapes;
            }
            let o = if self.pct(60) { Kind::Ref } else { self.plain() };
            let mut b = self.ep(o, !init, 1);
            b.magic = a.magic;
            a.start_ms = if self.pct(70) { 0 } else { self.r.below(start) };
            b.start_ms = a.start_ms;
            p.eps.push(a);
            p.eps.push(b);
            let s = p.eps.len() - 1;
            for e in [s - 1, s] {
                p.eps[e].rgap_ms = 0;
                p.eps[e].rpause.clear();
                let q = self.pipe(Self::flight(p, e));
                p.pipes.push(q);
            }
            let err = self.err();
            match self.r.below(6) {
                0 | 1 => {
                    let at = *self.r.pick(&[0, 3, 16, 40, 63, 64, 70, 90]);
                    p.pipes[s].tampers.push(Tamper { op: TOp::Cut, at, ..Default::default() });
                    if self.pct(40) {
                        p.pipes[s].close_err = Some(err);
                    }
                }
                2 => {
                    let at = self.r.below(64);
                    p.pipes[s].faults.push(PFault { kind: PF::ReadErr, at, err, sticky: true, ..Default::default() });
                }
                3 => p.eps[s].init = p.eps[s - 1].init,
                _ => {
                    let kind = *self.r.pick(&[HK::Random, HK::V1, HK::NoTerm, HK::HsBadTag, HK::HsShort]);
                    let h = Hostile { kind, n: self.r.below(64), len: 40, close_ms: *self.r.pick(&[0, 500]), ..Default::default() };
                    p.eps[s] = EpPlan { kind: Kind::Ref, init: !init, magic: p.eps[s - 1].magic, start_ms: p.eps[s - 1].start_ms, hostile: Some(h), ..Default::default() };
                }
            }
        }
        p.watchdog_s = 100;
    }

    fn c18(&mut self, p: &mut Plan) {
        p.scen = "refused".into();
        p.flags = self.pct(50) as u64;
        p.nums = vec![0, 0];
        if hooks() && self.pct(40) {
            p.nums = vec![self.age(), self.age()];
        }
        let long = self.pct(15);
        let n = if long { 230 + self.r.below(20) } else { 3 + self.r.below(25) };
        for _ in 0..n {
            // 6: a packet longer than the length bytes can say; 7: a packet that fails to authenticate.
            let op = self.r.weighted(&[20, 80, 40, 20, 80, 40, 0, 60]) as u64;
            let len = if long { self.r.below(12) } else { self.len().min(70_000) };
            p.ops.push((op, len, self.r.next() >> 1));
        }
        if self.pct(3) {
            let len = *self.r.pick(&[16_777_214, 16_777_215, 16_777_216, 16_777_217, 16_800_000, 33_554_433]);
            let at = self.r.below(p.ops.len() as u64 + 1) as usize;
            p.ops.insert(at, (6, len, self.r.next() >> 1));
        }
        p.p_alloc = 0;
    }

    fn c19(&mut self, p: &mut Plan) {
        let how = self.r.below(10);
        let mut a = self.any();
        let b = self.peer();
        if how >= 7 && self.pct(60) {
            a = self.shaped();
        }
        self.pair(p, a, b, 10);
        for e in 0..2 {
            for w in &mut p.eps[e].writes {
                w.len = w.len.min(5000);
            }
            if p.eps[e].writes.is_empty() {
                p.eps[e].writes.push(WPlan { len: 9, ..Default::default() });
            }
            p.eps[e].rpause.clear();
            // Healthy work goes on while the other direction is in trouble.
            let gap = *self.r.pick(&[0, 5, 60, 300]);
            for w in &mut p.eps[e].writes {
                w.gap_ms = gap;
            }
        }
        // Trouble in the direction s -> r; r -> s stays healthy.
        let s = self.r.below(2) as usize;
        let r = s ^ 1;
        p.flags |= 1 << r;
        let b = Self::offsets_of(p, s);
        let at = self.r.below(*b.last().unwrap() + 1);
        match how {
            0..=1 => {
                let mut t = self.tamper(at);
                t.rel = true;
                if t.op == TOp::Reflect {
                    t.op = TOp::Flip;
                }
                p.pipes[s].tampers.push(t);
            }
            2 => {
                p.pipes[s].tampers.push(Tamper { op: TOp::Cut, at, rel: true, ..Default::default() });
                if self.pct(50) {
                    p.pipes[s].close_err = Some(self.err());
                }
            }
            3 => {
                let err = self.err();
                p.pipes[s].faults.push(PFault { kind: PF::ReadErr, at, rel: true, err, sticky: true, ..Default::default() });
            }
            4 => {
                // s cannot write any more.
                let err = self.err();
                p.pipes[s].faults.push(PFault { kind: PF::WriteErr, at, rel: true, err, sticky: true, ..Default::default() });
            }
            5 => {
                // r drops its reading half.
                p.eps[r].rd_limit = Some(self.r.below(3));
            }
            6 => {
                // s drops its writing half at once.
                p.eps[s].w_nobarrier = true;
            }
            _ => {
                // r stops reading for a long time.
                p.eps[r].rpause = vec![(self.r.below(3), 20_000 + self.r.below(40_000))];
                if self.pct(70) {
                    // Not even the background traffic of s gets through.
                    self.narrow(p, s);
                    if p.eps[s].kind.shaped() {
                        p.eps[s].cover = true;
                    }
                }
            }
        }
        if self.pct(20) {
            p.eps[s].read_retry = 0;
        }
        if self.pct(30) && p.eps[r].kind.sut() && p.eps[r].rd_limit.is_none() && p.eps[r].rpause.is_empty() && p.eps[s].mode == Mode::Split {
            // A whole endpoint keeps writing after its reads failed.
            p.eps[r].mode = Mode::Whole;
            p.eps[r].batch = self.pct(50);
            for q in &mut p.pipes {
                q.cap = q.cap.max(1 << 20);
            }
        }
        p.linger_ms = 120_000;
        p.horizon_s = 1200;
    }

    fn age(&mut self) -> u64 {
        let near = |r: &mut Rng, x: u64| x.saturating_sub(6) + r.below(8);
        let x = match self.r.below(10) {
            0 => near(&mut self.r, 224),
            1 => {
                let k = 1 + self.r.below(1000);
                near(&mut self.r, 224 * k)
            }
            2..=4 => near(&mut self.r, 1 << 32),
            5 => near(&mut self.r, (1u64 << 32) / 224 * 224 + 224),
            6 => near(&mut self.r, 1 << 16),
            7 => near(&mut self.r, 224u64 << 32),
            8 => near(&mut self.r, 1 << 40),
            _ => self.r.next() >> (20 + self.r.below(30)),
        };
        x.max(1)
    }

    fn c20(&mut self, p: &mut Plan) {
        let a = self.plain();
        let b = if self.pct(60) { Kind::Ref } else { self.plain() };
        self.pair(p, a, b, 14);
        for e in 0..2 {
            for w in &mut p.eps[e].writes {
                w.len = w.len.min(2000);
            }
            if p.eps[e].writes.len() < 8 {
                for _ in 0..8 {
                    p.eps[e].writes.push(WPlan { len: self.r.below(100), ..Default::default() });
                }
            }
        }
        if hooks() && self.pct(85) {
            let (x, y) = (self.age(), self.age());
            p.eps[0].age_out = x;
            p.eps[1].age_in = x;
            p.eps[1].age_out = y;
            p.eps[0].age_in = y;
            // The jump happens between the handshake and the first packet.
            p.eps[1].early = 0;
        } else {
            let n = 224 * (1 + self.r.below(if self.deep { 30 } else if hooks() { 4 } else { 8 })) + self.r.below(30);
            let e = self.r.below(2) as usize;
            p.eps[e].writes = (0..n).map(|_| WPlan { len: self.r.below(8), ..Default::default() }).collect();
            p.eps[e ^ 1].rgap_ms = 0;
        }
        self.whole(p, 0, 20);
    }

    fn c21(&mut self, p: &mut Plan) {
        p.scen = "twin".into();
        self.pair(p, Kind::Sync, Kind::Ref, 6);
        p.eps[0].entropy = Some(1);
        p.eps[0].rbuf = 0;
        p.eps[0].start_ms = 0;
        p.eps[1].start_ms = 0;
        for e in 0..2 {
            p.eps[e].rgap_ms = 0;
            p.eps[e].rpause.clear();
            for w in &mut p.eps[e].writes {
                w.len = w.len.min(4000);
                w.gap_ms = 0;
            }
        }
        p.eps[1].eager = true;
        for q in &mut p.pipes {
            q.cap = 1 << 20;
            q.buffered = 0;
        }
        if self.pct(40) {
            p.pipes[0].buffered = *self.r.pick(&[64, 1000, 8192]);
        }
        p.p_stall = 0;
        p.jumps.clear();
        match self.r.below(9) {
            0 => {}
            8 => {
                // The transport takes no more.
                let err = self.err();
                let (kind, at) = if self.pct(40) { (PF::FlushErr, 0) } else { (PF::WriteErr, self.r.below(p.hs_len(0).unwrap() + 200)) };
                p.pipes[0].faults.push(PFault { kind, at, err, sticky: kind == PF::WriteErr || self.pct(50), ..Default::default() });
            }
            1..=2 => {
                let n = p.hs_len(1).unwrap();
                let m = Self::hs_marks(p, 1);
                let at = if self.pct(60) { *self.r.pick(&m) } else { self.r.below(n) };
                let mut t = self.tamper(at.min(n - 1));
                if !matches!(t.op, TOp::Flip | TOp::Drop | TOp::Insert | TOp::Replace | TOp::Cut) {
                    t.op = TOp::Flip;
                }
                p.pipes[1].tampers.push(t);
            }
            3 => {
                let b = Self::offsets_of(p, 1);
                let hs = p.hs_len(1).unwrap();
                let at = hs + self.r.below(*b.last().unwrap() + 1);
                let mut t = self.tamper(at);
                if !matches!(t.op, TOp::Flip | TOp::Drop | TOp::Insert | TOp::Replace | TOp::Cut) {
                    t.op = TOp::Flip;
                }
                p.pipes[1].tampers.push(t);
            }
            4 => {
                let n = p.hs_len(1).unwrap() + 100;
                let err = self.err();
                p.pipes[1].faults.push(PFault { kind: PF::ReadErr, at: self.r.below(n), err, sticky: true, ..Default::default() });
            }
            _ => {
                let k = *self.r.pick(&[HK::V1, HK::V1, HK::NoTerm, HK::NoTerm, HK::HsBig, HK::SessBig, HK::HsBadTag, HK::SessBadTag, HK::HsGarbMismatch, HK::HsShort]);
                let mut h = Hostile { kind: k, close_ms: 100, ..Default::default() };
                match k {
                    HK::V1 => h.n = *self.r.pick(&[64, 100, 1000]),
                    HK::HsShort => h.n = self.r.below(64),
                    HK::NoTerm => {
                        h.term = self.pct(60);
                        h.n = *self.r.pick(&[0, 5, 4094, 4095, 4096, 4097, 6000, 20_000]);
                        p.eps[1].decoys = None;
                        p.eps[1].ver_len = 0;
                        p.eps[1].writes.clear();
                        p.eps[1].early = 0;
                    }
                    HK::HsBig | HK::SessBig => {
                        // Announced contents; the limits differ by a few bytes between the stages.
                        h.len = if self.pct(50) { 4_000_000 - 20 + self.r.below(60) } else { 4_000_201 + self.r.below(12_000_000) };
                        h.n = 50;
                    }
                    _ => {
                        h.n = self.r.below(500);
                        h.len = self.r.below(100);
                        h.term = self.pct(50);
                    }
                }
                p.eps[1].hostile = Some(h);
            }
        }
        Self::attack(p);
    }
}

impl G {
    /// Several connections in one process, some of them in trouble.
    fn c22(&mut self, p: &mut Plan) {
        let own = self.pct(45);
        if own {
            let n = 1 + self.r.below(3);
            for _ in 0..n {
                self.stranger(p);
            }
            for x in &mut p.eps {
                x.healthy = true;
                if x.writes.is_empty() {
                    x.writes.push(WPlan { len: 11, ..Default::default() });
                }
            }
            self.pipes(p);
            Self::benign(p);
            for e in 0..p.eps.len() {
                self.whole(p, e, 12);
            }
            p.linger_ms = 60_000;
            p.watchdog_s = 120;
            p.horizon_s = 900;
        } else {
            // What another property asks of a connection, with company.
            loop {
                let b = *self.r.pick(&["C01", "C03", "C07", "C11", "C13", "C13", "C14", "C14"]);
                let mut q = Plan { prop: p.prop.clone(), seed: p.seed, eseed: p.eseed, pseed: p.pseed, ..p.clone() };
                match b {
                    "C01" => self.c01(&mut q),
                    "C03" => self.c03(&mut q),
                    "C07" => self.c07(&mut q),
                    "C11" => self.c11(&mut q),
                    "C13" => self.c13(&mut q),
                    _ => self.c14(&mut q),
                }
                let total: u64 = q.eps.iter().flat_map(|e| &e.writes).map(|w| w.len).sum();
                if q.scen != "world" || q.watchdog_s > 0 || q.horizon_s > 9000 || q.eps.len() & 1 == 1 || total > 300_000 {
                    continue;
                }
                *p = q;
                p.base = b.to_string();
                break;
            }
            for x in &mut p.eps {
                x.healthy = true;
            }
            p.watchdog_s = 120;
        }
        let n = 1 + self.r.below(3);
        for _ in 0..n {
            self.sick(p);
        }
        p.one_rt = self.pct(60);
        if self.pct(5) && p.eps.len() < 12 {
            self.crowd(p);
        }
    }
    /// Many quiet connections of one kind, from before the others until after them.
    fn crowd(&mut self, p: &mut Plan) {
        let like = p.eps.iter().map(|e| e.kind).find(|k| k.sut()).unwrap_or(Kind::Sync);
        let k = if self.pct(60) { like } else { self.any() };
        let n = *self.r.pick(&[4, 5, 8, 9, 12, 17, 20, 33, 40]);
        let n = if p.horizon_s > 1500 { n.min(10) } else { n };
        let stuck = self.pct(60);
        // All in the handshake, or here and there.
        let in_hs = self.pct(50);
        for _ in 0..n {
            let mut a = self.ep(k, self.r.clone().next() & 1 == 0, 1);
            self.r.next();
            let mut b = self.ep(Kind::Ref, !a.init, 1);
            if k.shaped() {
                a.cover = true;
            }
            for x in [&mut a, &mut b] {
                x.writes.iter_mut().for_each(|w| w.len = w.len.min(50));
                x.rpause.clear();
                x.rgap_ms = 0;
                x.start_ms = 0;
                x.healthy = false;
            }
            p.eps.push(a);
            p.eps.push(b);
            let e = p.eps.len() - 2;
            for e in [e, e + 1] {
                let q = self.pipe(Self::flight(p, e));
                p.pipes.push(q);
            }
            if stuck {
                // The peer says nothing more.
                let at = if in_hs { 0 } else { *self.r.pick(&[0, 10, 64, 500]) };
                p.pipes[e + 1].faults.push(PFault { kind: PF::Stall, at, by_time: true, dur_ms: 90_000, ..Default::default() });
            }
        }
        for i in 0..p.eps.len() - 2 * n {
            p.eps[i].start_ms += 3000;
        }
        p.max_steps = p.max_steps.max(60_000_000);
        p.linger_ms = p.linger_ms.max(30_000);
    }
    /// Memory and handles, over long histories.
    fn c23(&mut self, p: &mut Plan) {
        if self.r.below(1000) < 15 {
            // A shaped connection in use for hours.
            let (a, b) = (self.shaped(), self.kind(&[(Kind::Ref, 4), (Kind::Sync, 2), (Kind::Async, 2), (Kind::ShSync, 1), (Kind::ShAsync, 1)]));
            self.pair(p, a, b, 3);
            p.eps[0].cover = true;
            for e in 0..2 {
                let (n, gap) = (40 + self.r.below(20), 60_000 + self.r.below(if self.deep { 600_000 } else { 100_000 }));
                p.eps[e].writes = if e == 1 && self.pct(50) {
                    vec![]
                } else {
                    (0..n).map(|_| WPlan { len: self.r.below(300), gap_ms: gap, ..Default::default() }).collect()
                };
                p.eps[e].rgap_ms = 0;
                p.eps[e].rpause.clear();
                let q = &mut p.pipes[e];
                q.frag = 0;
                q.p_rshort = 0;
                q.p_wshort = 0;
                q.p_spur = 0;
                q.cap = 1 << 25;
            }
            p.linger_ms = 20_000_000;
            p.horizon_s = 100_000;
            p.max_steps = 60_000_000;
            p.p_alloc = 0;
            p.p_preempt = p.p_preempt.min(1000);
            return;
        }
        match self.r.below(10) {
            0..=3 => {
                // Long sessions.
                let (a, b) = (self.any(), self.peer());
                self.pair(p, a, b, 3);
                let both = self.pct(30);
                for e in 0..2 {
                    let n = if e == 0 || both { 300 + self.r.below(if self.deep { 4000 } else { 900 }) } else { self.r.below(20) };
                    let top = *self.r.pick(&[1, 16, 200, 600]);
                    let gap = *self.r.pick(&[0, 0, 0, 1, 5]);
                    p.eps[e].writes = (0..n).map(|_| WPlan { len: self.r.below(top), gap_ms: gap, ..Default::default() }).collect();
                    if self.pct(25) {
                        let i = self.r.below(n.max(1) / 2 + 1).min(n) as usize;
                        p.eps[e].writes.insert(i, WPlan { len: 20_000 + self.r.below(300_000), ..Default::default() });
                    }
                    p.eps[e].rgap_ms = 0;
                    if p.eps[e].kind == Kind::Async && self.pct(40) {
                        p.eps[e].cancel = *self.r.pick(&[3000, 20000]);
                    }
                    p.eps[e].wcancel = 0;
                    if p.eps[e].kind == Kind::ShAsync && self.pct(50) {
                        // Writes given up while they wait.
                        p.eps[e].wcancel = *self.r.pick(&[6000, 30_000]);
                        p.eps[e].writes.iter_mut().for_each(|w| w.gap_ms = 5 + gap);
                    }
                }
                if self.pct(50) {
                    p.eps.swap(0, 1);
                    let (i, j) = (p.eps[0].init, p.eps[1].init);
                    if i == j {
                        p.eps[1].init = !i;
                    }
                }
                for e in 0..2 {
                    let q = &mut p.pipes[e];
                    q.cap = q.cap.max(65536);
                    q.frag = q.frag.min(3000);
                    q.p_rshort = q.p_rshort.min(3000);
                    q.p_wshort = q.p_wshort.min(3000);
                    q.p_spur = q.p_spur.min(3000);
                    if q.buffered > 0 {
                        q.buffered = 4096;
                    }
                    if p.eps[e].rbuf > 0 {
                        p.eps[e].rbuf = 512;
                    }
                }
                p.p_alloc = 0;
                p.p_preempt = p.p_preempt.min(8000);
                p.max_steps = 20_000_000;
            }
            4..=5 => {
                // Long handshakes.
                let a = self.any();
                self.pair(p, a, Kind::Ref, 4);
                let n = 100 + self.r.below(if self.deep { 3000 } else { 700 });
                let top = *self.r.pick(&[1, 10, 300, 1500]);
                p.eps[1].decoys = Some((0..n).map(|_| self.r.below(top)).collect());
                p.eps[1].part_gap_ms = 0;
                let f = Self::flight(p, 1);
                let q = &mut p.pipes[1];
                q.cap = q.cap.max(f);
                q.frag = q.frag.min(3000);
                q.p_rshort = q.p_rshort.min(3000);
                q.p_spur = q.p_spur.min(3000);
                if p.eps[0].rbuf > 0 {
                    p.eps[0].rbuf = 512;
                }
                p.p_alloc = 0;
                p.max_steps = 20_000_000;
            }
            6 => {
                // Reading and writing on after failures.
                let (a, b) = (self.any(), self.peer());
                self.pair(p, a, b, 6);
                let s = self.r.below(2) as usize;
                let err = self.err();
                let n = 200 + self.r.below(600);
                p.eps[0].read_retry = n;
                p.eps[0].write_retry = true;
                p.eps[0].writes = (0..n).map(|_| WPlan { len: self.r.below(300), ..Default::default() }).collect();
                let at = self.r.below(3000);
                if s == 0 {
                    p.pipes[0].faults.push(PFault { kind: PF::WriteErr, at, by_time: true, err, sticky: true, ..Default::default() });
                } else if self.pct(50) {
                    p.pipes[1].faults.push(PFault { kind: PF::ReadErr, at, err, sticky: true, ..Default::default() });
                } else if !p.eps[1].kind.shaped() && self.pct(70) {
                    // One altered packet in a long session.
                    p.eps[1].writes = (0..n).map(|_| WPlan { len: self.r.below(300), ..Default::default() }).collect();
                    let b = Self::offsets_of(p, 1);
                    let i = self.r.below(8) as usize;
                    let at = b[i] + 3 + self.r.below(b[i + 1] - b[i] - 3);
                    p.pipes[1].tampers.push(Tamper { op: TOp::Flip, at, len: 1, mask: 1, ..Default::default() });
                } else {
                    let len = 5000 + self.r.below(60_000);
                    p.pipes[1].tampers.push(Tamper { op: TOp::Insert, at, len, ..Default::default() });
                }
                p.eps[1].rd_limit = None;
                Self::attack(p);
                p.horizon_s = 3000;
            }
            _ => {
                // Many connections that end in many ways.
                let n = 2 + self.r.below(if self.deep { 8 } else { 5 });
                for _ in 0..n {
                    if self.pct(50) {
                        self.sick(p);
                    } else {
                        self.stranger(p);
                        let a = p.eps.len() - 2;
                        for e in [a, a + 1] {
                            let q = self.pipe(Self::flight(p, e));
                            p.pipes.push(q);
                            if p.eps[e].kind.is_async() && self.pct(50) {
                                p.eps[e].hs_cancel = *self.r.pick(&[6000, 20_000, 40_000]);
                            }
                        }
                    }
                }
                if self.pct(50) {
                    // The same again and again.
                    let i = 2 * self.r.below(p.eps.len() as u64 / 2) as usize;
                    for _ in 0..3 + self.r.below(4) {
                        for e in [i, i + 1] {
                            p.eps.push(p.eps[e].clone());
                            p.pipes.push(p.pipes[e].clone());
                        }
                    }
                }
                for e in p.eps.iter_mut() {
                    e.start_ms = *self.r.pick(&[0, 0, 100, 1000, 5000, 20_000]);
                    e.post_ms = *self.r.pick(&[3000, 60_000]);
                }
                p.one_rt = self.pct(50);
                Self::attack(p);
                p.watchdog_s = 60;
                p.horizon_s = 1000;
            }
        }
    }
    fn stranger(&mut self, p: &mut Plan) {
        let k = self.any();
        let init = self.pct(50);
        let a = self.ep(k, init, 5);
        let o = if self.pct(60) { Kind::Ref } else { self.any() };
        let b = self.ep(o, !init, 5);
        for mut x in [a, b] {
            for w in &mut x.writes {
                w.len = w.len.min(5000);
                w.gap_ms = *self.r.pick(&[0, 0, 3, 40, 500]);
            }
            x.start_ms = *self.r.pick(&[0, 0, 1, 20, 700, 3000]);
            p.eps.push(x);
        }
    }
    /// One more connection, in trouble.
    fn sick(&mut self, p: &mut Plan) {
        let a = p.eps.len();
        let b = a + 1;
        self.stranger(p);
        for e in [a, b] {
            p.eps[e].rpause.clear();
            p.eps[e].wcancel = 0;
            let q = self.pipe(Self::flight(p, e));
            p.pipes.push(q);
        }
        // s sends into the trouble.
        let s = if self.pct(50) { a } else { b };
        let r = s ^ 1;
        let err = self.err();
        match self.r.below(12) {
            0 => {
                let dur_ms = 5_000 + self.r.below(60_000);
                let at = self.r.below(3000);
                for e in [a, b] {
                    p.pipes[e].faults.push(PFault { kind: PF::Stall, at, by_time: true, dur_ms, ..Default::default() });
                }
            }
            1 => {
                let x = (self.r.below(3), 10_000 + self.r.below(60_000));
                p.eps[r].rpause = vec![x];
                p.pipes[s].cap = p.pipes[s].cap.min(8192);
            }
            2 => {
                let at = self.r.below(5000);
                p.pipes[s].tampers.push(Tamper { op: TOp::Cut, at, ..Default::default() });
                if self.pct(50) {
                    p.pipes[s].close_err = Some(err);
                }
            }
            3 | 4 => {
                let at = self.r.below(3000);
                let mut t = self.tamper(at);
                if t.op == TOp::Reflect {
                    t.op = TOp::Flip;
                }
                p.pipes[s].tampers.push(t);
            }
            5 => {
                let at = self.r.below(3000);
                p.pipes[s].faults.push(PFault { kind: PF::ReadErr, at, err, sticky: true, ..Default::default() });
            }
            6 => {
                let at = self.r.below(3000);
                p.pipes[s].faults.push(PFault { kind: PF::WriteErr, at, by_time: true, err, sticky: true, ..Default::default() });
            }
            7 => {
                // Gone early.
                p.eps[r].rd_limit = Some(self.r.below(3));
                p.eps[s].w_nobarrier = true;
            }
            8 => p.eps[b].init = p.eps[a].init,
            _ => {
                let kind = *self.r.pick(&[HK::Random, HK::V1, HK::NoTerm, HK::HsBig, HK::SessBig, HK::SessRandom, HK::HsBadTag, HK::SessBadTag, HK::HsShort]);
                let mut h = Hostile { kind, n: *self.r.pick(&[0, 10, 64, 3000, 20_000]), len: 40, close_ms: *self.r.pick(&[0, 500, 30_000]), ..Default::default() };
                if matches!(kind, HK::HsBig | HK::SessBig) {
                    h.len = 4_000_201 + self.r.below(12_000_000);
                }
                if kind == HK::HsShort {
                    h.n = self.r.below(64);
                }
                p.eps[b] = EpPlan { kind: Kind::Ref, init: !p.eps[a].init, magic: p.eps[a].magic, hostile: Some(h), ..Default::default() };
                if p.eps[a].kind == Kind::Sans && matches!(kind, HK::HsBig | HK::SessBig) {
                    p.eps[a].kind = Kind::Async;
                }
            }
        }
        if self.pct(30) {
            // Dropped while the others go on.
            p.eps[a].w_nobarrier = true;
            p.eps[b].w_nobarrier = true;
        }
        for e in [a, b] {
            self.whole(p, e, 12);
        }
    }
}

/// Sessions may start at any age.
pub static HOOKS: AtomicBool = AtomicBool::new(cfg!(bip324_sim));
fn hooks() -> bool {
    HOOKS.load(Ordering::Relaxed)
}

pub fn plan_for(prop: &str, seed: u64, idx: u64, deep: bool) -> Plan {
    let n: u64 = prop[1..].parse().unwrap_or(0);
    let s = mix3(seed, n ^ 0x324, idx);
    let mut g = G { r: Rng::new(s), deep };
    let mut p = Plan { prop: prop.to_string(), seed: s, eseed: mix3(s, 1, 1), pseed: mix3(s, 2, 2), ..Default::default() };
    g.knobs(&mut p);
    match prop {
        "C01" => g.c01(&mut p),
        "C02" => g.c02(&mut p),
        "C03" => g.c03(&mut p),
        "C04" => g.c04(&mut p),
        "C05" => g.c05(&mut p),
        "C06" => g.c06(&mut p),
        "C07" => g.c07(&mut p),
        "C08" => g.c08(&mut p),
        "C09" => g.c09(&mut p),
        "C10" => g.c10(&mut p),
        "C11" => g.c11(&mut p),
        "C12" => g.c12(&mut p),
        "C13" => g.c13(&mut p),
        "C14" => g.c14(&mut p),
        "C15" => g.c15(&mut p),
        "C16" => g.c16(&mut p),
        "C17" => g.c17(&mut p),
        "C18" => g.c18(&mut p),
        "C19" => g.c19(&mut p),
        "C20" => g.c20(&mut p),
        "C22" => g.c22(&mut p),
        "C23" => g.c23(&mut p),
        _ => g.c21(&mut p),
    }
    if p.scen == "world" && prop != "C22" && p.eps.iter().filter(|e| e.kind.is_async()).count() > 1 && g.pct(35) {
        p.one_rt = true;
    }
    if matches!(p.scen.as_str(), "world" | "twin") && !matches!(prop, "C17" | "C23") && p.eps.iter().any(|e| e.kind.is_async()) && g.pct(25) {
        p.workers = 1 + g.r.below(3);
    }
    if p.scen != "stats" && p.scen != "refused" {
        G::tame(&mut p);
    }
    variants(&mut p);
    p
}

/// Less usual ways to use the interfaces.
fn variants(p: &mut Plan) {
    let mut g = G { r: Rng::new(mix3(p.seed, 99, 99)), deep: false };
    if !matches!(p.scen.as_str(), "world" | "twin") || matches!(p.prop.as_str(), "C17" | "C23") {
        return;
    }
    if g.pct(6) {
        for e in 0..p.eps.len() {
            if p.eps[e].kind == Kind::Ref && p.eps[e].hostile.is_none() && p.eps.len() > e ^ 1 {
                let n = 1 + g.r.below(crate::keys::SPECIAL.len() as u64);
                // Not one that looks like a V1 peer.
                if crate::keys::special(n - 1).1[..4] != p.eps[e ^ 1].magic.to_le_bytes() {
                    p.eps[e].key = n;
                }
            }
        }
    }
    if g.pct(10) {
        // Contents that are not random.
        for ep in &mut p.eps {
            if let (Some(d), true) = (&mut ep.decoys, g.pct(60)) {
                ep.dfill = 1 + g.r.below(3);
                if let (Some(n), true) = (d.iter().copied().filter(|n| *n > 0).min(), g.pct(50)) {
                    d.iter_mut().filter(|x| **x > 0 && **x < 2000).for_each(|x| *x = n);
                }
            }
        }
        let style = g.r.below(9);
        let same = g.pct(40).then(|| 1 + g.r.below(300));
        for ep in p.eps.iter_mut().filter(|e| e.wcancel == 0) {
            let shaped = ep.kind.shaped();
            for w in ep.writes.iter_mut().filter(|w| w.len <= 4_000_000 && !(shaped && w.decoy)) {
                w.fill = if style == 0 { 1 + g.r.below(8) } else { style };
                if let Some(n) = same.filter(|n| w.len > *n && w.len < 2000) {
                    w.len = n;
                }
            }
        }
    }
    if g.pct(12) {
        for ep in p.eps.iter_mut().filter(|e| e.kind.sut()) {
            let bits = g.pct(40);
            for w in &mut ep.writes {
                if g.pct(60) && w.len <= 4_000_000 {
                    w.relay = true;
                    if bits {
                        w.hdr = g.r.below(128) as u8;
                    }
                }
            }
        }
    }
    if g.pct(12) {
        let e = g.r.below(p.eps.len() as u64) as usize;
        p.eps[e].clones = true;
    }
    if g.pct(8) {
        let e = g.r.below(p.eps.len() as u64) as usize;
        p.eps[e].winner_after = Some(g.r.below(p.eps[e].writes.len() as u64 + 1));
    }
    if p.scen == "world" && matches!(p.prop.as_str(), "C02" | "C03" | "C06" | "C07" | "C10" | "C11") && g.pct(15) {
        for e in 0..p.eps.len() {
            let free = |ep: &EpPlan| ep.kind != Kind::Mirror && (ep.mode == Mode::Split || ep.kind == Kind::Ref) && ep.split_after == 0 && ep.hostile.is_none();
            let n = p.eps[e ^ 1].writes.len() as u64;
            let ep = &p.eps[e];
            if ep.kind.sut() && n > 0 && free(ep) && free(&p.eps[e ^ 1]) && ep.inner_after.is_none() && ep.rd_limit.is_none() && ep.rpause.is_empty() && p.eps[e ^ 1].rd_limit.is_none() {
                p.eps[e].split_after = 1 + g.r.below(n.min(4));
            }
        }
    }
}
