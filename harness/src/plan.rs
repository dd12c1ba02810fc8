//! What one simulated run consists of: endpoints, what they do, the transports between them, and
//! the simulator's knobs.  A plan plus a list of non-default scheduler decisions is a replay file.

use crate::json::Js;
use crate::pipe::PipePlan;
use crate::prng::{hash_bytes, mix3, Rng};
use crate::{js_enum, js_struct};

js_enum! {
    pub enum Kind {
        Sync, Async, Sans, ShSync, ShAsync,
        /// Reference peer: independent implementation, never calls the code under test.
        Ref,
        /// Sends back whatever it receives.
        Mirror,
    }
}
js_enum! { pub enum Mode { Whole, Split } }
js_enum! { pub enum GStyle { Random, Zero, NearTerm, OwnTerm, KeyEcho, Ones, Magic } }
js_enum! {
    pub enum HK {
        Random, V1, NoTerm, HsBig, SessBig, SessRandom, HsBadTag, SessBadTag, HsGarbMismatch, HsShort,
    }
}
js_struct! {
    /// Ways in which a reference peer departs from the protocol.
    pub struct Hostile {
        pub kind: HK = HK::Random,
        pub n: u64 = 0,
        pub len: u64 = 0,
        pub term: bool = false,
        pub close_ms: u64 = 0,
    }
}
js_struct! {
    pub struct WPlan {
        pub len: u64 = 0,
        pub decoy: bool = false,
        pub gap_ms: u64 = 0,
        /// Extra header bits, if a reference peer writes it or it is relayed.
        pub hdr: u8 = 0,
        /// The payload written is one that was read from another session.
        pub relay: bool = false,
        /// What the contents look like (0: random).
        pub fill: u64 = 0,
    }
}
js_struct! {
    pub struct EpPlan {
        pub kind: Kind = Kind::Sync,
        pub init: bool = true,
        pub magic: u32 = 0xD9B4_BEF9,
        pub glen: Option<u64> = None,
        pub gstyle: GStyle = GStyle::Random,
        pub decoys: Option<Vec<u64>> = None,
        /// What their contents look like (0: random, 1: zeros, 2: ones, 3: equal).
        pub dfill: u64 = 0,
        // Reference peer only.
        pub ver_len: u64 = 0,
        pub hs_hdr: u8 = 0,
        pub wait_key: bool = false,
        pub late_garbage: bool = false,
        pub part_gap_ms: u64 = 0,
        /// Session packets sent together with the version packet.
        pub early: u64 = 0,
        pub eager: bool = false,
        pub hostile: Option<Hostile> = None,
        pub bad_secret: bool = false,
        /// An unusually encoded key (0: none, n: the nth of keys.rs).
        pub key: u64 = 0,
        // Everyone.
        pub mode: Mode = Mode::Split,
        pub batch: bool = false,
        pub start_ms: u64 = 0,
        pub rbuf: u64 = 0,
        pub pad: bool = false,
        pub cover: bool = false,
        pub writes: Vec<WPlan> = Vec::new(),
        pub rgap_ms: u64 = 0,
        /// (after n payloads, pause the reader for ms)
        pub rpause: Vec<(u64, u64)> = Vec::new(),
        /// Probability (of 65536) of cancelling an async read at a pending point.
        pub cancel: u32 = 0,
        /// The same for async handshakes.
        pub hs_cancel: u32 = 0,
        /// The same for shaped async writes (never the last one).
        pub wcancel: u32 = 0,
        pub read_retry: u64 = 0,
        pub write_retry: bool = false,
        /// Split reader: drop the reading half after so many payloads.
        pub rd_limit: Option<u64> = None,
        /// Recover the inner reader after so many payloads (0: use the free handshake function).
        pub inner_after: Option<u64> = None,
        /// Recover the inner writer after so many writes, and go on with the cipher.
        pub winner_after: Option<u64> = None,
        /// Use the protocol as a whole for so many reads (async: attempts that may be cancelled), then split it.
        pub split_after: u64 = 0,
        /// Ciphers are cloned now and then, and the clone goes on.
        pub clones: bool = false,
        pub tail: bool = false,
        pub w_hold_ms: u64 = 0,
        pub w_nobarrier: bool = false,
        /// Simulated time the runtime keeps running after everything was dropped.
        pub post_ms: u64 = 3000,
        pub age_out: u64 = 0,
        pub age_in: u64 = 0,
        /// Endpoints with the same id get the same entropy.
        pub entropy: Option<u64> = None,
        /// Its connection has to work although others in the process are in trouble.
        pub healthy: bool = false,
        /// Drop the reading half before the writing half, or the other way round (Whole: together).
        pub r_hold_ms: u64 = 0,
    }
}
js_struct! {
    pub struct Plan {
        pub prop: String = String::new(),
        pub scen: String = "world".to_string(),
        pub seed: u64 = 0,
        pub eseed: u64 = 0,
        pub pseed: u64 = 0,
        pub eps: Vec<EpPlan> = Vec::new(),
        /// pipes[e] carries what endpoint e sends, to endpoint e^1.
        pub pipes: Vec<PipePlan> = Vec::new(),
        pub p_preempt: u32 = 0,
        pub p_alloc: u32 = 0,
        pub p_stall: u32 = 0,
        pub stall_max_ms: u64 = 0,
        pub p_late: u32 = 0,
        pub late_max_ms: u64 = 0,
        pub p_futex: u32 = 0,
        pub p_step: u32 = 0,
        pub step_ns: u64 = 200,
        pub max_steps: u64 = 3_000_000,
        pub horizon_s: u64 = 200,
        pub linger_ms: u64 = 20_000,
        /// The network dies after so long (0: never).
        pub watchdog_s: u64 = 0,
        /// (simulated ms, clock step in ms)
        pub jumps: Vec<(u64, i64)> = Vec::new(),
        pub flags: u64 = 0,
        /// The property the healthy connections are judged by (none: that all is well).
        pub base: String = String::new(),
        /// All async endpoints are tasks of one runtime.
        pub one_rt: bool = false,
        /// Worker threads of each tokio runtime (0: the current-thread runtime).
        pub workers: u64 = 0,
        pub nums: Vec<u64> = Vec::new(),
        pub ops: Vec<(u64, u64, u64)> = Vec::new(),
    }
}

impl Plan {
    pub fn payload(&self, e: usize, i: usize) -> Vec<u8> {
        let w = &self.eps[e].writes[i];
        let len = w.len as usize;
        // All of style 3 and the same length are equal.
        let mut p = Rng::new(mix3(self.pseed, e as u64 + 1, if w.fill == 3 { 3 << 40 } else { i as u64 })).bytes(len);
        match w.fill {
            1 => p.fill(0),
            2 => p.fill(0xff),
            4 => p[len / 2..].fill(0),
            5 => p[..len / 2].fill(0),
            6 => {
                let mut h = self.magic_bytes(e).to_vec();
                h.extend_from_slice(b"version\0\0\0\0\0");
                let n = h.len().min(len);
                p[..n].copy_from_slice(&h[..n]);
            }
            7 if len > 0 => p[0] = 0x80,
            8 if len > 0 => {
                let b = p[0];
                p.fill(b);
            }
            _ => {}
        }
        p
    }
    pub fn garbage(&self, e: usize) -> Option<Vec<u8>> {
        let ep = &self.eps[e];
        ep.glen.map(|n| match ep.gstyle {
            GStyle::Zero => vec![0; n as usize],
            GStyle::Ones => vec![0xff; n as usize],
            GStyle::Magic => self.magic_bytes(e).iter().copied().cycle().take(n as usize).collect(),
            _ => Rng::new(mix3(self.pseed, e as u64 + 1, 1 << 40)).bytes(n as usize),
        })
    }
    pub fn decoy(&self, e: usize, i: usize) -> Vec<u8> {
        let n = self.eps[e].decoys.as_ref().map_or(0, |d| d[i]) as usize;
        let fill = self.eps[e].dfill;
        match fill {
            1 => vec![0; n],
            2 => vec![0xff; n],
            _ => Rng::new(mix3(self.pseed, e as u64 + 1, (2 << 40) + if fill == 3 { 0 } else { i as u64 })).bytes(n),
        }
    }
    pub fn decoy_vecs(&self, e: usize) -> Option<Vec<Vec<u8>>> {
        self.eps[e].decoys.as_ref().map(|d| (0..d.len()).map(|i| self.decoy(e, i)).collect())
    }
    pub fn expected(&self, e: usize, i: usize) -> Option<(bool, usize, u64)> {
        let w = self.eps[e].writes.get(i)?;
        let p = self.payload(e, i);
        Some((w.decoy, p.len(), hash_bytes(&p)))
    }
    /// Bytes of the handshake of an unshaped, conforming endpoint.
    pub fn hs_len(&self, e: usize) -> Option<u64> {
        let ep = &self.eps[e];
        if ep.kind.shaped() || ep.hostile.is_some() || ep.kind == Kind::Mirror {
            return None;
        }
        let d: u64 = ep.decoys.as_ref().map_or(0, |d| d.iter().map(|n| n + 20).sum());
        Some(64 + ep.glen.unwrap_or(0) + 16 + d + 20 + ep.ver_len)
    }
    pub fn magic_bytes(&self, e: usize) -> [u8; 4] {
        self.eps[e].magic.to_le_bytes()
    }
}
impl Kind {
    pub fn shaped(self) -> bool {
        matches!(self, Kind::ShSync | Kind::ShAsync)
    }
    pub fn is_async(self) -> bool {
        matches!(self, Kind::Async | Kind::ShAsync)
    }
    pub fn sut(self) -> bool {
        !matches!(self, Kind::Ref | Kind::Mirror)
    }
}

pub fn plan_to_j(p: &Plan) -> crate::json::J {
    p.to_j()
}
