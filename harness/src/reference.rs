//! Reference implementations written from the standards, independent of husk.

// ---------------------------------------------------------------- SHA-256 (FIPS 180-4)
const PRIMES: [u64; 64] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137,
    139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281,
    283, 293, 307, 311,
];
/// first 32 bits of the fractional part of the k-th root of p (k = 2 or 3), by integer root extraction
fn frac_root(p: u64, k: u32) -> u32 {
    // floor(p^(1/k) * 2^32): largest x with x^k <= p * 2^(32k)
    let (mut lo, mut hi) = (0u128, 1u128 << 37);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        let le = if k == 2 {
            m * m <= (p as u128) << 64
        } else {
            // m^3 <= p << 96: compare through 128-bit halves
            let (h, l) = mul128(m * m, m);
            let (ph, pl) = ((p as u128) >> 32, ((p as u128) << 96));
            h < ph || h == ph && l <= pl
        };
        if le {
            lo = m
        } else {
            hi = m
        }
    }
    lo as u32
}
fn mul128(a: u128, b: u128) -> (u128, u128) {
    let m = (1u128 << 64) - 1;
    let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    (p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64), (mid << 64) | (p00 & m))
}
pub struct ShaConst {
    k: [u32; 64],
    h: [u32; 8],
}
pub fn sha_const() -> ShaConst {
    let mut c = ShaConst { k: [0; 64], h: [0; 8] };
    for i in 0..64 {
        c.k[i] = frac_root(PRIMES[i], 3);
    }
    for i in 0..8 {
        c.h[i] = frac_root(PRIMES[i], 2);
    }
    c
}
fn rotr(x: u32, n: u32) -> u32 {
    (x >> n) | (x << (32 - n))
}
pub fn sha_block(c: &ShaConst, h: &mut [u32; 8], blk: &[u8]) {
    let mut w = [0u32; 64];
    for t in 0..16 {
        w[t] = (blk[4 * t] as u32) << 24 | (blk[4 * t + 1] as u32) << 16 | (blk[4 * t + 2] as u32) << 8 | blk[4 * t + 3] as u32;
    }
    for t in 16..64 {
        let s1 = rotr(w[t - 2], 17) ^ rotr(w[t - 2], 19) ^ (w[t - 2] >> 10);
        let s0 = rotr(w[t - 15], 7) ^ rotr(w[t - 15], 18) ^ (w[t - 15] >> 3);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
    }
    let mut v = *h;
    for t in 0..64 {
        let (a, b, cc, d, e, f, g, hh) = (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
        let s1 = rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k[t]).wrapping_add(w[t]);
        let s0 = rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22);
        let maj = (a & b) ^ (a & cc) ^ (b & cc);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, b, cc, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
pub fn sha256(c: &ShaConst, m: &[u8]) -> [u8; 32] {
    let mut h = c.h;
    let n = m.len();
    let total = (n + 9 + 63) / 64 * 64;
    let mut blk = [0u8; 64];
    let mut i = 0;
    while i < total {
        for j in 0..64 {
            let p = i + j;
            blk[j] = if p < n {
                m[p]
            } else if p == n {
                0x80
            } else if p >= total - 8 {
                ((n as u64 * 8) >> (8 * (total - 1 - p))) as u8
            } else {
                0
            };
        }
        sha_block(c, &mut h, &blk);
        i += 64;
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
// ---------------------------------------------------------------- HMAC (RFC 2104), P_SHA256 (RFC 5246, 5)
pub fn hmac(c: &ShaConst, key: &[u8], m: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(c, key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner = Vec::with_capacity(64 + m.len());
    for b in k.iter() {
        inner.push(b ^ 0x36);
    }
    inner.extend_from_slice(m);
    let ih = sha256(c, &inner);
    let mut outer = Vec::with_capacity(96);
    for b in k.iter() {
        outer.push(b ^ 0x5c);
    }
    outer.extend_from_slice(&ih);
    sha256(c, &outer)
}
pub fn p_hash(c: &ShaConst, secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut a = hmac(c, secret, seed);
    while out.len() < n {
        let mut t = a.to_vec();
        t.extend_from_slice(seed);
        out.extend_from_slice(&hmac(c, secret, &t));
        a = hmac(c, secret, &a);
    }
    out.truncate(n);
    out
}
// ---------------------------------------------------------------- ChaCha20 (RFC 8439, 2.3)
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    fn rotl(x: u32, n: u32) -> u32 {
        (x << n) | (x >> (32 - n))
    }
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = rotl(s[d] ^ s[a], 16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = rotl(s[b] ^ s[c], 12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = rotl(s[d] ^ s[a], 8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = rotl(s[b] ^ s[c], 7);
}
fn le32(b: &[u8]) -> u32 {
    b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
}
pub fn chacha_block(key: &[u8], counter: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    let k = b"expand 32-byte k";
    for i in 0..4 {
        s[i] = le32(&k[4 * i..]);
    }
    for i in 0..8 {
        s[4 + i] = le32(&key[4 * i..]);
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = le32(&nonce[4 * i..]);
    }
    let init = s;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12);
        qr(&mut s, 1, 5, 9, 13);
        qr(&mut s, 2, 6, 10, 14);
        qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15);
        qr(&mut s, 1, 6, 11, 12);
        qr(&mut s, 2, 7, 8, 13);
        qr(&mut s, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}
pub fn chacha_xor(key: &[u8], counter: u32, nonce: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    let mut i = 0;
    let mut ctr = counter;
    while i < data.len() {
        let ks = chacha_block(key, ctr, nonce);
        let n = if data.len() - i < 64 { data.len() - i } else { 64 };
        for j in 0..n {
            out.push(data[i + j] ^ ks[j]);
        }
        i += n;
        ctr = ctr.wrapping_add(1);
    }
    out
}
