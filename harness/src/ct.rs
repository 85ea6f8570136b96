//! C12: between on() and off() every branch condition and every address must be the same for all
//! values of the symbolic inputs that the path admits (the executor asks the solver for two values
//! that differ).
use crate::sv;
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::cipher::Aead;
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::p256::int256::Int256;
use husk::crypto::p256::{NPoint256, Point256, G};
use husk::crypto::poly1305::authenticate;
use husk::crypto::sha2::sha256;
use husk::crypto::wrapping::Wrapping as W;
use husk::util::crypto_compare;

fn on() {
    unsafe { sv::sv_ct(1) }
}
fn off() {
    unsafe { sv::sv_ct(0) }
}
#[no_mangle]
pub extern "C" fn c12_cipher() {
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let m = sv::bytes(sv::range(sv::param(0), sv::param(1)));
    on();
    let mut c = ChaCha20::new(&key, &nonce);
    let a = c.encrypt(&m);
    let b = c.next();
    off();
    used(&a);
    used(&b);
    sv::reach(1);
}
#[no_mangle]
pub extern "C" fn c12_mac() {
    let m = sv::bytes(sv::range(sv::param(0), sv::param(1)));
    let (r, s): ([u8; 16], [u8; 16]) = (sv::arr(), sv::arr());
    on();
    let t = authenticate(&m, &r, &s);
    off();
    used(&t);
    sv::reach(1);
}
#[no_mangle]
pub extern "C" fn c12_hash() {
    let m = sv::bytes(sv::range(sv::param(0), sv::param(1)));
    on();
    let t = sha256(&m);
    off();
    used(&t);
    sv::reach(1);
}
#[no_mangle]
pub extern "C" fn c12_hmac() {
    let k = sv::bytes(sv::range(sv::param(0), sv::param(1)));
    let m = sv::bytes(sv::param(2));
    on();
    let t = hmac_sha256(&k, &m);
    off();
    used(&t);
    sv::reach(1);
}
#[no_mangle]
pub extern "C" fn c12_prf() {
    let (a, b) = (sv::bytes(48), sv::bytes(77));
    let (n, k) = (sv::choose(3) * 45, sv::choose(3) * 32);
    on();
    let mut p = Prf::new(a, b);
    let (x, y) = (p.get_bytes(n), p.get_bytes(k));
    off();
    used(&x);
    used(&y);
    sv::reach(1);
}
/// sealing, and opening what was sealed
#[no_mangle]
pub extern "C" fn c12_seal() {
    let key: [u8; 32] = sv::arr();
    let nonce: [u8; 12] = sv::arr();
    let m = sv::bytes(sv::range(sv::param(0), sv::param(1)));
    let ad = sv::bytes(13);
    on();
    let mut s = ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(&nonce, &m, &ad);
    off();
    // a wrong tag: any but the right one
    let n = m.len();
    if sv::choose(2) == 1 {
        let d: [u8; 16] = sv::arr();
        let mut any = 0;
        for i in 0..16 {
            s[n + i] ^= d[i];
            any |= d[i];
        }
        sv::assume(any != 0);
        on();
        let r = ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(&nonce, &s, &ad).is_ok();
        off();
        sv::check(!r, 1);
        sv::reach(2);
    } else {
        on();
        let r = ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(&nonce, &s, &ad).is_ok();
        off();
        sv::check(r, 2);
        sv::reach(1);
    }
}
#[no_mangle]
pub extern "C" fn c12_compare() {
    let n = sv::range(sv::param(0), sv::param(1));
    let (a, b) = (sv::bytes(n), sv::bytes(n));
    on();
    let r = crypto_compare(&a, &b);
    off();
    used(&[r as u8]);
    sv::reach(1);
}
/// the result is used (nothing is optimised away)
fn used(b: &[u8]) {
    unsafe { sv::sv_export(0, b.as_ptr(), b.len()) }
}
fn usedi(a: Int256) {
    for w in a.v {
        used(&w.0.to_le_bytes())
    }
}
fn int() -> Int256 {
    let mut a = husk::crypto::p256::int256::ZERO;
    for i in 0..8 {
        a.v[i] = W(sv::u32_());
    }
    a
}
/// each operation of the field on any two values
#[no_mangle]
pub extern "C" fn c12_field() {
    let (a, b) = (int(), int());
    let f = W((sv::u8_() & 1) as u32);
    let k = sv::param(0);
    let bytes: [u8; 32] = sv::arr();
    match k {
        0 => {
            on();
            let (x, y) = (a.add(&b), a.double());
            off();
            usedi(x);
            usedi(y);
        }
        1 => {
            on();
            let x = a.sub(&b);
            off();
            usedi(x);
        }
        2 => {
            on();
            let x = a.mult(&b);
            off();
            usedi(x);
        }
        3 => {
            on();
            let x = a.square();
            off();
            usedi(x);
        }
        4 => {
            on();
            let (x, y) = (a.reduce_once(f), a.reduce_once_zero());
            off();
            usedi(x);
            usedi(y);
        }
        5 => {
            on();
            let (x, y) = (a.compare(&b), Int256::choose(f, &a, &b));
            off();
            used(&x.0.to_le_bytes());
            usedi(y);
        }
        6 => {
            on();
            let x = a.divide_by_2();
            off();
            usedi(x);
        }
        7 => {
            on();
            let (x, y) = (a.to_bytes(), Int256::from_bytes(&bytes).unwrap());
            off();
            used(&x);
            usedi(y);
        }
        _ => {
            on();
            let x = a.inverse();
            off();
            usedi(x);
        }
    }
    sv::reach(1);
}
/// scalar multiplication of the base point or of any point by any scalar, and normalisation
#[no_mangle]
pub extern "C" fn c12_point() {
    let n = int();
    let p = match sv::param(0) {
        0 => G,
        _ => NPoint256 { x: int(), y: int() }.to_point(),
    };
    on();
    let q: Point256 = p.mult_scalar(&n);
    let q = q.normalize();
    let (a, b) = (q.to_uncompressed_bytes(), q.x.to_bytes());
    off();
    used(&a);
    used(&b);
    sv::reach(1);
}
