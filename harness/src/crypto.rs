//! Independent implementation of the primitives BIP-324 needs (reference model), written from the
//! specifications: SHA-256, HMAC, HKDF, ChaCha20, Poly1305, the AEAD, and the two rotating ciphers.
//! Only the elliptic-curve step (x-only ECDH on ElligatorSwift keys) comes from libsecp256k1.

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98,
    0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8,
    0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
    0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
    0xc67178f2,
];

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for blk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut kb = [0u8; 64];
    if key.len() > 64 {
        kb[..32].copy_from_slice(&sha256(key));
    } else {
        kb[..key.len()].copy_from_slice(key);
    }
    let mut i: Vec<u8> = kb.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = kb.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha256(&i));
    sha256(&o)
}

pub fn hkdf32(salt: &[u8], ikm: &[u8], info: &[u8]) -> [u8; 32] {
    let prk = hmac(salt, ikm);
    let mut m = info.to_vec();
    m.push(1);
    hmac(&prk, &m)
}

pub fn tagged_hash(tag: &[u8], msg: &[u8]) -> [u8; 32] {
    let t = sha256(tag);
    let mut m = Vec::with_capacity(64 + msg.len());
    m.extend_from_slice(&t);
    m.extend_from_slice(&t);
    m.extend_from_slice(msg);
    sha256(&m)
}

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

pub fn chacha_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[i * 4..i * 4 + 4].try_into().unwrap());
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[i * 4..i * 4 + 4].try_into().unwrap());
    }
    let init = s;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12);
        qr(&mut s, 1, 5, 9, 13);
        qr(&mut s, 2, 6, 10, 14);
        qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15);
        qr(&mut s, 1, 6, 11, 12);
        qr(&mut s, 2, 7, 8, 13);
        qr(&mut s, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[i * 4..i * 4 + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

fn chacha_xor(key: &[u8; 32], mut counter: u32, nonce: &[u8; 12], data: &mut [u8]) {
    for c in data.chunks_mut(64) {
        let ks = chacha_block(key, counter, nonce);
        for (d, k) in c.iter_mut().zip(ks.iter()) {
            *d ^= k;
        }
        counter = counter.wrapping_add(1);
    }
}

/// Poly1305 with 26-bit limbs.
struct Poly {
    r: [u64; 5],
    h: [u64; 5],
    pad: [u8; 16],
}
impl Poly {
    fn new(key: &[u8; 32]) -> Poly {
        let mut k = [0u8; 16];
        k.copy_from_slice(&key[..16]);
        for i in [3, 7, 11, 15] {
            k[i] &= 15;
        }
        for i in [4, 8, 12] {
            k[i] &= 252;
        }
        let v = u128::from_le_bytes(k);
        let m = (1u128 << 26) - 1;
        let r = [0, 26, 52, 78, 104].map(|s| ((v >> s) & m) as u64);
        Poly { r, h: [0; 5], pad: key[16..].try_into().unwrap() }
    }
    fn block(&mut self, b: &[u8; 17]) {
        let lo = u128::from_le_bytes(b[..16].try_into().unwrap());
        let m = (1u128 << 26) - 1;
        for i in 0..5 {
            self.h[i] += ((lo >> (26 * i)) & m) as u64;
        }
        self.h[4] += (b[16] as u64) << 24;
        let r = self.r;
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let f = if i + j >= 5 { 5 } else { 1 };
                d[(i + j) % 5] += self.h[i] * r[j] * f;
            }
        }
        let mut c = 0;
        for i in 0..5 {
            d[i] += c;
            c = d[i] >> 26;
            self.h[i] = d[i] & 0x3ffffff;
        }
        self.h[0] += c * 5;
        let c = self.h[0] >> 26;
        self.h[0] &= 0x3ffffff;
        self.h[1] += c;
    }
    /// Data padded to 16 bytes with zeros, as in the AEAD.
    fn padded(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 17];
            b[..c.len()].copy_from_slice(c);
            b[16] = 1;
            self.block(&b);
        }
    }
    fn tag(mut self) -> [u8; 16] {
        let mut c = 0;
        for _ in 0..2 {
            for i in 0..5 {
                self.h[i] += c;
                c = self.h[i] >> 26;
                self.h[i] &= 0x3ffffff;
            }
            c *= 5;
        }
        self.h[0] += c;
        // Subtract p if h >= p.
        let mut g = [0u64; 5];
        let mut c = 5;
        for i in 0..5 {
            g[i] = self.h[i] + c;
            c = g[i] >> 26;
            g[i] &= 0x3ffffff;
        }
        let h = if c > 0 { g } else { self.h };
        let mut v: u128 = 0;
        for i in 0..5 {
            v = v.wrapping_add((h[i] as u128) << (26 * i));
        }
        v.wrapping_add(u128::from_le_bytes(self.pad)).to_le_bytes()
    }
}

fn poly_tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk: [u8; 32] = chacha_block(key, 0, nonce)[..32].try_into().unwrap();
    let mut p = Poly::new(&otk);
    p.padded(aad);
    p.padded(ct);
    let mut l = [0u8; 16];
    l[..8].copy_from_slice(&(aad.len() as u64).to_le_bytes());
    l[8..].copy_from_slice(&(ct.len() as u64).to_le_bytes());
    p.padded(&l);
    p.tag()
}

pub fn aead_enc(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut v = pt.to_vec();
    chacha_xor(key, 1, nonce, &mut v);
    let t = poly_tag(key, nonce, aad, &v);
    v.extend_from_slice(&t);
    v
}

pub fn aead_dec(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let (c, t) = ct.split_at(ct.len() - 16);
    if poly_tag(key, nonce, aad, c) != t {
        return None;
    }
    let mut v = c.to_vec();
    chacha_xor(key, 1, nonce, &mut v);
    Some(v)
}

/// FSChaCha20 for lengths.  The keystream between two rekeyings is one continuous stream.
#[derive(Clone)]
pub struct RefLen {
    pub key: [u8; 32],
    pub count: u64,
}
impl RefLen {
    fn stream(&self, from: usize, n: usize) -> Vec<u8> {
        let mut nonce = [0u8; 12];
        nonce[4..].copy_from_slice(&(self.count / 224).to_le_bytes());
        let mut out = Vec::new();
        let mut blk = from / 64;
        let skip = from % 64;
        while out.len() < skip + n {
            out.extend_from_slice(&chacha_block(&self.key, blk as u32, &nonce));
            blk += 1;
        }
        out[skip..skip + n].to_vec()
    }
    pub fn crypt(&mut self, l: [u8; 3]) -> [u8; 3] {
        let pos = (self.count % 224) as usize;
        let ks = self.stream(pos * 3, 3);
        let out = [l[0] ^ ks[0], l[1] ^ ks[1], l[2] ^ ks[2]];
        if pos == 223 {
            let nk = self.stream(224 * 3, 32);
            self.key = nk.try_into().unwrap();
        }
        self.count += 1;
        out
    }
}

/// FSChaCha20Poly1305 for packets.
#[derive(Clone)]
pub struct RefPkt {
    pub key: [u8; 32],
    pub count: u64,
}
impl RefPkt {
    fn nonce(&self) -> [u8; 12] {
        let mut n = [0u8; 12];
        n[..4].copy_from_slice(&((self.count % 224) as u32).to_le_bytes());
        n[4..].copy_from_slice(&(self.count / 224).to_le_bytes());
        n
    }
    fn advance(&mut self) {
        if self.count % 224 == 223 {
            let mut n = self.nonce();
            n[..4].copy_from_slice(&[0xff; 4]);
            let e = aead_enc(&self.key, &n, &[], &[0u8; 32]);
            self.key = e[..32].try_into().unwrap();
        }
        self.count += 1;
    }
    pub fn enc(&mut self, aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let r = aead_enc(&self.key, &self.nonce(), aad, pt);
        self.advance();
        r
    }
    pub fn dec(&mut self, aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        let r = aead_dec(&self.key, &self.nonce(), aad, ct)?;
        self.advance();
        Some(r)
    }
}

#[derive(Clone)]
pub struct RefSession {
    pub id: [u8; 32],
    pub send_l: RefLen,
    pub send_p: RefPkt,
    pub recv_l: RefLen,
    pub recv_p: RefPkt,
    pub send_term: [u8; 16],
    pub recv_term: [u8; 16],
}

impl RefSession {
    /// `x` is the x-only ECDH result; keys in initiator, responder order.
    pub fn derive(x: &[u8; 32], key_i: &[u8; 64], key_r: &[u8; 64], magic: &[u8; 4], initiator: bool) -> RefSession {
        let mut m = Vec::new();
        m.extend_from_slice(key_i);
        m.extend_from_slice(key_r);
        m.extend_from_slice(x);
        let secret = tagged_hash(b"bip324_ellswift_xonly_ecdh", &m);
        let mut salt = b"bitcoin_v2_shared_secret".to_vec();
        salt.extend_from_slice(magic);
        let d = |info: &str| hkdf32(&salt, &secret, info.as_bytes());
        let (il, ip, rl, rp) = (d("initiator_L"), d("initiator_P"), d("responder_L"), d("responder_P"));
        let t = d("garbage_terminators");
        let ti: [u8; 16] = t[..16].try_into().unwrap();
        let tr: [u8; 16] = t[16..].try_into().unwrap();
        let l = |key| RefLen { key, count: 0 };
        let p = |key| RefPkt { key, count: 0 };
        let id = d("session_id");
        if initiator {
            RefSession { id, send_l: l(il), send_p: p(ip), recv_l: l(rl), recv_p: p(rp), send_term: ti, recv_term: tr }
        } else {
            RefSession { id, send_l: l(rl), send_p: p(rp), recv_l: l(il), recv_p: p(ip), send_term: tr, recv_term: ti }
        }
    }
    pub fn packet(&mut self, header: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let len = contents.len() as u32;
        let lb = len.to_le_bytes();
        let el = self.send_l.crypt([lb[0], lb[1], lb[2]]);
        let mut pt = Vec::with_capacity(contents.len() + 1);
        pt.push(header);
        pt.extend_from_slice(contents);
        let mut out = el.to_vec();
        out.extend_from_slice(&self.send_p.enc(aad, &pt));
        out
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect()
}

/// Known-answer tests; run by `bipsim selftest` and before every check.
pub fn selftest() -> Result<(), String> {
    let eq = |n: &str, a: &[u8], b: &str| if a == unhex(b).as_slice() { Ok(()) } else { Err(format!("selftest {n}")) };
    eq("sha256", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    eq("hmac", &hmac(b"Jefe", b"what do ya want for nothing?"), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")?;
    // RFC 5869 test case 1, first 32 bytes of OKM.
    eq(
        "hkdf",
        &hkdf32(&unhex("000102030405060708090a0b0c"), &[0x0b; 22], &unhex("f0f1f2f3f4f5f6f7f8f9")),
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf",
    )?;
    // RFC 8439 2.8.2
    let key: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f").try_into().unwrap();
    let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let ct = aead_enc(
        &key,
        &nonce,
        &unhex("50515253c0c1c2c3c4c5c6c7"),
        b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.",
    );
    eq("aead", &ct[ct.len() - 16..], "1ae10b594f09e26a7e902ecbd0600691")?;
    eq("aead ct", &ct[..16], "d31a8d34648e60db7b86afbc53ef7ec2")?;
    if aead_dec(&key, &nonce, &unhex("50515253c0c1c2c3c4c5c6c7"), &ct).is_none() {
        return Err("selftest aead_dec".into());
    }
    // BIP-324 packet encoding test vectors 1 (packet index 1) and 2 (packet index 999).
    let arr = |h: &str| -> [u8; 64] { unhex(h).try_into().unwrap() };
    let magic = [0xF9, 0xBE, 0xB4, 0xD9];
    let a = arr("ec0adff257bbfe500c188c80b4fdd640f6b45a482bbc15fc7cef5931deff0aa186f6eb9bba7b85dc4dcc28b28722de1e3d9108b985e2967045668f66098e475b");
    let b = arr("a4a94dfce69b4a2a0a099313d10f9f7e7d649d60501c9e1d274c300e0d89aafaffffffffffffffffffffffffffffffffffffffffffffffffffffffff8faf88d5");
    let x = crate::refpeer::ecdh_x(&a, &b, &unhex("61062ea5071d800bbfd59e2e8b53d47d194b095ae5a4df04936b49772ef0d4d7").try_into().unwrap(), true);
    let mut s = RefSession::derive(&x, &a, &b, &magic, true);
    s.packet(0, b"anything", &[]);
    eq("vector 1", &s.packet(0, &[0x8e], &[]), "7530d2a18720162ac09c25329a60d75adf36eda3c3")?;
    let a = arr("a8785af31c029efc82fa9fc677d7118031358d7c6a25b5779a9b900e5ccd94aac97eb36a3c5dbcdb2ca5843cc4c2fe0aaa46d10eb3d233a81c3dde476da00eef");
    let b = arr("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f0000000000000000000000000000000000000000000000000000000000000000");
    let x = crate::refpeer::ecdh_x(&b, &a, &unhex("6f312890ec83bbb26798abaadd574684a53e74ccef7953b790fcc29409080246").try_into().unwrap(), false);
    let mut s = RefSession::derive(&x, &b, &a, &magic, false);
    eq("vector 2 id", &s.id, "b0490e26111cb2d55bbff2ace00f7f644f64006539abb4e7513f05107bb10608")?;
    for _ in 0..999 {
        s.packet(0, &[], &[]);
    }
    eq(
        "vector 2",
        &s.packet(0, &unhex("3eb1d4e98035cfd8eeb29bac969ed3824a"), &[]),
        "d78adbcba0eebfb15cfbd8142c84dc729d233d0dc11b1d851e46a114122b8d5b96b7d59317",
    )?;
    Ok(())
}
