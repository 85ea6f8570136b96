//! C01, C05, C06, C07, C13
use crate::reference as rf;
use crate::sv;
use crate::watch::{self, put, Watch};
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::crypto::chacha20::ChaCha20;
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::Aead;
use husk::crypto::poly1305;
use husk::crypto::sha2::sha256;
use husk::tls_result::TlsErrorKind;
use husk::util::crypto_compare;

/// C01: successive keystream blocks for every key and nonce
#[no_mangle]
pub extern "C" fn c01_blocks() {
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let n = sv::param(0);
    let mut c = ChaCha20::new(&key, &nonce);
    for i in 0..n {
        let b = c.next();
        let e = rf::chacha_block(&key, i as u32, &nonce);
        sv::check_eq(&b, &e, 1);
    }
    sv::reach(1);
}
/// C01: encryption of any length, from block 0 and from a later block, over several calls
#[no_mangle]
pub extern "C" fn c01_encrypt() {
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let max = sv::param(0);
    let len = sv::choose(max + 1);
    let skip = sv::choose(2);
    let data = sv::bytes(len);
    let mut c = ChaCha20::new(&key, &nonce);
    for _ in 0..skip {
        c.next();
    }
    let out = c.encrypt(&data);
    sv::check(out.len() == len, 1);
    let e = rf::chacha_xor(&key, skip as u32, &nonce, &data);
    sv::check_eq(&out, &e, 2);
    // whole blocks were consumed
    let next = c.next();
    let e = rf::chacha_block(&key, (skip + (len + 63) / 64) as u32, &nonce);
    sv::check_eq(&next, &e, 3);
    // and a further call goes on from there
    let more = sv::bytes(5);
    let out = c.encrypt(&more);
    let e = rf::chacha_xor(&key, (skip + (len + 63) / 64 + 1) as u32, &nonce, &more);
    sv::check_eq(&out, &e, 4);
    sv::reach(1);
}
/// C01: any block counter (but the last two), where the structure holds it
#[no_mangle]
pub extern "C" fn c01_any() {
    let mut watch = Watch::new();
    let mut c = ChaCha20::new(&[0xa5; 32], &[0xa5; 12]);
    for i in 0..4 {
        watch.see(&c, i);
        c.next();
    }
    let at = match watch.place() {
        Some(p) => p,
        None => return,
    };
    put(&mut c, at, 9);
    if c.next()[..] != rf::chacha_block(&[0xa5; 32], 9, &[0xa5; 12])[..] {
        return;
    }
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let x = if at.width == 2 { sv::u16_() as u32 } else { sv::u32_() };
    sv::assume(x < u32::MAX - 1);
    let mut c = ChaCha20::new(&key, &nonce);
    put(&mut c, at, x as u64);
    sv::check_eq(&c.next(), &rf::chacha_block(&key, x, &nonce), 1);
    // two paths, so that the second has a witness at hand
    if watch::get(&c, at) == (x + 1) as u64 {
        sv::note(1);
    } else {
        sv::note(2);
    }
    sv::check_eq(&c.next(), &rf::chacha_block(&key, x + 1, &nonce), 2);
    sv::reach(1);
}
/// C01, C03, C05: long inputs: fixed bytes but for the last ones
fn long(n: usize, sym: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    let k = n - sym.min(n);
    for i in 0..k {
        v[i] = (i as u8).wrapping_mul(29) ^ (i >> 8) as u8;
    }
    sv::fill(&mut v[k..]);
    v
}
/// C01: a long input under a fixed key, any bytes at its end, then another call
#[no_mangle]
pub extern "C" fn c01_long() {
    let mut key = [0x5a; 32];
    let nonce = [0xa7; 12];
    if sv::param(2) == 1 {
        sv::fill(&mut key);
    }
    let data = long(sv::range(sv::param(0), sv::param(1)), 40);
    let mut c = ChaCha20::new(&key, &nonce);
    let out = c.encrypt(&data);
    sv::check_eq(&out, &rf::chacha_xor(&key, 0, &nonce, &data), 1);
    let next = c.next();
    sv::check_eq(&next, &rf::chacha_block(&key, ((data.len() + 63) / 64) as u32, &nonce), 2);
    sv::reach(1);
}
/// C05: long messages, any bytes at the end
#[no_mangle]
pub extern "C" fn c05_long() {
    let c = rf::sha_const();
    let m = long(sv::range(sv::param(0), sv::param(1)), 16);
    sv::check_eq(&sha256(&m), &rf::sha256(&c, &m), 1);
    sv::reach(1);
}
/// C05: digest for every content, each length in the shard's range
#[no_mangle]
pub extern "C" fn c05_sha256() {
    let lo = sv::param(0);
    let hi = sv::param(1);
    let len = sv::range(lo, hi);
    let c = rf::sha_const();
    let m = sv::bytes(len);
    let d = sha256(&m);
    let e = rf::sha256(&c, &m);
    sv::check_eq(&d, &e, 1);
    sv::reach(1);
}
/// C06: key and message lengths in the given ranges, every content
#[no_mangle]
pub extern "C" fn c06_hmac() {
    let k = sv::range(sv::param(0), sv::param(1));
    let m = sv::range(sv::param(2), sv::param(3));
    let c = rf::sha_const();
    let key = sv::bytes(k);
    let msg = sv::bytes(m);
    let d = hmac_sha256(&key, &msg);
    let e = rf::hmac(&c, &key, &msg);
    sv::check_eq(&d, &e, 1);
    sv::reach(1);
}
/// C07: a few reads of any sizes up to a bound are consecutive pieces of P_SHA256
#[no_mangle]
pub extern "C" fn c07_prf() {
    let slen = sv::param(0);
    let seedlen = sv::param(1);
    let reads = sv::param(2);
    let max = sv::param(3);
    let c = rf::sha_const();
    let secret = sv::bytes(slen);
    let seed = sv::bytes(seedlen);
    let e = rf::p_hash(&c, &secret, &seed, reads * max);
    let mut p = Prf::new(secret.clone(), seed.clone());
    let mut pos = 0;
    for _ in 0..reads {
        let n = sv::choose(max + 1);
        let b = p.get_bytes(n);
        sv::check(b.len() == n, 1);
        sv::check_eq(&b, &e[pos..pos + n], 2);
        pos += n;
    }
    sv::reach(1);
}
/// C07: sizes around multiples of the 32-byte block
#[no_mangle]
pub extern "C" fn c07_edges() {
    const S: [usize; 11] = [0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 128];
    let reads = sv::param(0);
    let c = rf::sha_const();
    let secret = sv::bytes(48);
    let seed = sv::bytes(13);
    let mut p = Prf::new(secret.clone(), seed.clone());
    let e = rf::p_hash(&c, &secret, &seed, reads * 128);
    let mut pos = 0;
    for _ in 0..reads {
        let n = S[sv::choose(11)];
        let b = p.get_bytes(n);
        sv::check(b.len() == n, 1);
        sv::check_eq(&b, &e[pos..pos + n], 2);
        pos += n;
    }
    sv::reach(1);
}
/// C13
#[no_mangle]
pub extern "C" fn c13_compare() {
    let n = sv::range(sv::param(0), sv::param(1));
    let a = sv::bytes(n);
    let b = sv::bytes(n);
    let r = crypto_compare(&a, &b);
    // independent formulation: all bytes equal
    let mut eq = true;
    for i in 0..n {
        eq &= a[i] == b[i];
    }
    sv::check(r == eq, 1);
    // and with itself
    sv::check(crypto_compare(&a, &a), 2);
    sv::reach(1);
}
/// the AEAD tag over (ad, ciphertext) per RFC 8439, 2.8
fn aead_tag(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk = rf::chacha_block(key, 0, nonce);
    let mut msg = ad.to_vec();
    while msg.len() % 16 != 0 {
        msg.push(0);
    }
    msg.extend_from_slice(ct);
    while msg.len() % 16 != 0 {
        msg.push(0);
    }
    for l in [ad.len(), ct.len()] {
        for i in 0..8 {
            msg.push((l as u64 >> (8 * i)) as u8);
        }
    }
    let mut r = [0u8; 16];
    let mut s = [0u8; 16];
    r.copy_from_slice(&otk[..16]);
    s.copy_from_slice(&otk[16..32]);
    poly1305::authenticate(&msg, &r, &s)
}
/// C03: two sealings with one object
#[no_mangle]
pub extern "C" fn c03_seal() {
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let len = sv::range(sv::param(0), sv::param(1));
    let adl = if sv::param(2) == 0 { 13 } else { sv::choose(sv::param(2)) };
    let data = sv::bytes(len);
    let ad = sv::bytes(adl);
    let mut enc = ChaCha20Poly1305.new_encryptor(key.to_vec());
    let out = enc.encrypt(&nonce, &data, &ad);
    sv::check(out.len() == len + 16, 1);
    let ct = rf::chacha_xor(&key, 1, &nonce, &data);
    sv::check_eq(&out[..len], &ct, 2);
    sv::check_eq(&out[len..], &aead_tag(&key, &nonce, &ad, &ct), 3);
    // the object holds no state: a second sealing under another nonce
    let nonce2: [u8; 12] = sv::arr();
    let ad2 = sv::bytes(3);
    let d2 = sv::bytes(5);
    let out = enc.encrypt(&nonce2, &d2, &ad2);
    let ct = rf::chacha_xor(&key, 1, &nonce2, &d2);
    sv::check(out.len() == 21, 4);
    sv::check_eq(&out[..5], &ct, 4);
    sv::check_eq(&out[5..], &aead_tag(&key, &nonce2, &ad2, &ct), 5);
    sv::reach(1);
}
/// C03, C04: long data under a fixed key, any bytes at its end, any tag
#[no_mangle]
pub extern "C" fn c03_long() {
    let key = [0x5a; 32];
    let nonce = [0xa7; 12];
    let data = long(sv::range(sv::param(0), sv::param(1)), if sv::param(3) == 1 { 0 } else { 20 });
    let ad = long(sv::param(2), if sv::param(3) == 1 { 0 } else { 4 });
    let out = ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(&nonce, &data, &ad);
    let mut e = rf::chacha_xor(&key, 1, &nonce, &data);
    let tag = aead_tag(&key, &nonce, &ad, &e);
    e.extend_from_slice(&tag);
    sv::check_eq(&out, &e, 1);
    sv::reach(1);
    let n = data.len();
    if sv::param(3) == 1 {
        let given: [u8; 16] = sv::arr();
        e[n..].copy_from_slice(&given);
        let mut same = true;
        for i in 0..16 {
            same &= given[i] == tag[i];
        }
        match ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(&nonce, &e, &ad) {
            Ok(p) => {
                sv::check(same, 2);
                sv::check_eq(&p, &data, 3);
                sv::reach(2);
            }
            Err(_) => {
                sv::check(!same, 4);
                sv::reach(3);
            }
        }
    }
}
/// C04: any input of each length
#[no_mangle]
pub extern "C" fn c04_open() {
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let len = sv::range(sv::param(0), sv::param(1));
    let adl = if sv::param(2) == 0 { 13 } else { sv::choose(sv::param(2)) };
    let data = sv::bytes(len);
    let ad = sv::bytes(adl);
    let mut dec = ChaCha20Poly1305.new_decryptor(key.to_vec());
    sv::check(dec.mac_len() == 16, 9);
    let r = dec.decrypt(&nonce, &data, &ad);
    if len < 16 {
        match r {
            Ok(_) => sv::check(false, 1),
            Err(e) => sv::check(e.kind == TlsErrorKind::BadRecordMac, 2),
        }
        sv::reach(3);
        return;
    }
    let (ct, tag) = data.split_at(len - 16);
    let exp = aead_tag(&key, &nonce, &ad, ct);
    let mut same = true;
    for i in 0..16 {
        same &= exp[i] == tag[i];
    }
    match r {
        Ok(p) => {
            sv::check(same, 3);
            sv::check_eq(&p, &rf::chacha_xor(&key, 1, &nonce, ct), 4);
            sv::reach(1);
        }
        Err(e) => {
            sv::check(!same, 5);
            sv::check(e.kind == TlsErrorKind::BadRecordMac, 6);
            sv::reach(2);
        }
    }
}
/// C04: what was sealed opens to the same plaintext
#[no_mangle]
pub extern "C" fn c04_roundtrip() {
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let len = sv::range(sv::param(0), sv::param(1));
    let adl = if sv::param(2) == 0 { 13 } else { sv::choose(sv::param(2)) };
    let data = sv::bytes(len);
    let ad = sv::bytes(adl);
    let out = ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(&nonce, &data, &ad);
    match ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(&nonce, &out, &ad) {
        Ok(p) => sv::check_eq(&p, &data, 1),
        Err(_) => sv::check(false, 2),
    }
    sv::reach(1);
}
/// C02: any message (length param 0..=param 1), any r and s; param 2 > 0: one of some fixed r
#[no_mangle]
pub extern "C" fn c02_tag() {
    let n = sv::range(sv::param(0), sv::param(1));
    let mut r: [u8; 16] = [0; 16];
    match sv::param(2) {
        0 => r = sv::arr(),
        k if k <= 128 => r[(k - 1) / 8] = 1 << ((k - 1) % 8),
        k => {
            // all ones, and other patterns
            for i in 0..16 {
                r[i] = (0xff ^ ((k - 129) * (i + 3))) as u8;
            }
        }
    }
    let s: [u8; 16] = sv::arr();
    let m = sv::bytes(n);
    let t = poly1305::authenticate(&m, &r, &s);
    sv::mac_check(&t, &m, &r, &s, 1);
    sv::reach(1);
}
