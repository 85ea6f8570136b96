//! C11: the key exchange. Scalar multiplication, normalisation and (param 1 = 1) the curve test's
//! multiplications are uninterpreted: the harness and the code share their terms.
use crate::grammar::{hash_ok, sig_ok, P};
use crate::sv;
use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::KeyExchange;
use husk::crypto::p256::int256::Int256;
use husk::crypto::p256::{NPoint256, G};
use husk::tls_result::TlsErrorKind::*;
use rand::rngs::OsRng;

const P256: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
];
/// big-endian less-than, without branching on the contents
fn less(a: &[u8], b: &[u8]) -> bool {
    let (mut lt, mut eq) = (false, true);
    for i in 0..a.len() {
        lt |= eq & (a[i] < b[i]);
        eq &= a[i] == b[i];
    }
    lt
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    if r {
        for i in 0..a.len() {
            r &= a[i] == b[i];
        }
    }
    r
}
/// the server's public value in the message, if the message is acceptable
fn accept(d: &[u8]) -> Option<NPoint256> {
    let mut p = P::new(d);
    if p.num(1)? != 3 || p.num(2)? != 23 {
        return None;
    }
    let y = p.vec(1, 1, 255)?;
    let (h, s) = (p.num(1)?, p.num(1)?);
    if !hash_ok(h as u8) || !sig_ok(s as u8) {
        return None;
    }
    p.vec(2, 0, 65535)?;
    if p.left() != 0 {
        return None;
    }
    NPoint256::from_uncompressed_bytes(y)
}
/// run the exchange on a message and compare everything
fn exchange(d: &[u8]) {
    let r = EllipticDiffieHellman.compute_keys(d, &mut OsRng);
    match (accept(d), r) {
        (None, Err(e)) => {
            sv::check(e.kind == DecodeError || e.kind == IllegalParameter, 1);
            sv::reach(2);
        }
        (None, Ok(_)) => sv::check(false, 2),
        (Some(_), Err(_)) => sv::check(false, 3),
        (Some(y), Ok((public, secret))) => {
            // the scalar: the last 32 bytes of the random source, in one of the two natural orders
            let log = sv::rand_log();
            sv::check(log.len() >= 32, 4);
            if log.len() < 32 {
                return;
            }
            let last = &log[log.len() - 32..];
            let y = y.to_point();
            let mut fits = false;
            for order in 0..2 {
                let mut b = last.to_vec();
                if order == 0 {
                    b.reverse();
                }
                let x = match Int256::from_bytes(&b) {
                    Some(x) => x,
                    None => return sv::check(false, 9),
                };
                let mut want = vec![65u8, 4];
                let g = G.mult_scalar(&x).normalize();
                want.extend_from_slice(&g.x.to_bytes());
                want.extend_from_slice(&g.y.to_bytes());
                let s = y.mult_scalar(&x).normalize().x.to_bytes();
                fits |= less(&b, &P256) & same(&public, &want) & same(&secret, &s);
            }
            sv::check(fits, 5);
            sv::reach(1);
        }
    }
}
fn point(k: usize) -> Vec<u8> {
    const PTS: [[u8; 64]; 3] = [
        // the base point, its double (both from the standard's tables), a point with x = 5
        [
            0x6b, 0x17, 0xd1, 0xf2, 0xe1, 0x2c, 0x42, 0x47, 0xf8, 0xbc, 0xe6, 0xe5, 0x63, 0xa4, 0x40, 0xf2, 0x77, 0x03, 0x7d, 0x81, 0x2d, 0xeb, 0x33, 0xa0,
            0xf4, 0xa1, 0x39, 0x45, 0xd8, 0x98, 0xc2, 0x96, 0x4f, 0xe3, 0x42, 0xe2, 0xfe, 0x1a, 0x7f, 0x9b, 0x8e, 0xe7, 0xeb, 0x4a, 0x7c, 0x0f, 0x9e, 0x16,
            0x2b, 0xce, 0x33, 0x57, 0x6b, 0x31, 0x5e, 0xce, 0xcb, 0xb6, 0x40, 0x68, 0x37, 0xbf, 0x51, 0xf5,
        ],
        [
            0x7c, 0xf2, 0x7b, 0x18, 0x8d, 0x03, 0x4f, 0x7e, 0x8a, 0x52, 0x38, 0x03, 0x04, 0xb5, 0x1a, 0xc3, 0xc0, 0x89, 0x69, 0xe2, 0x77, 0xf2, 0x1b, 0x35,
            0xa6, 0x0b, 0x48, 0xfc, 0x47, 0x66, 0x99, 0x78, 0x07, 0x77, 0x55, 0x10, 0xdb, 0x8e, 0xd0, 0x40, 0x29, 0x3d, 0x9a, 0xc6, 0x9f, 0x74, 0x30, 0xdb,
            0xba, 0x7d, 0xad, 0xe6, 0x3c, 0xe9, 0x82, 0x29, 0x9e, 0x04, 0xb7, 0x9d, 0x22, 0x78, 0x73, 0xd1,
        ],
        [0; 64],
    ];
    let mut v = vec![4];
    v.extend_from_slice(&PTS[k]);
    v
}
fn message(ty: u8, curve: [u8; 2], y: &[u8], alg: [u8; 2], sig: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, curve[0], curve[1], y.len() as u8];
    v.extend_from_slice(y);
    v.extend_from_slice(&alg);
    v.extend_from_slice(&[(sig.len() >> 8) as u8, sig.len() as u8]);
    v.extend_from_slice(sig);
    v
}
/// good messages: a known point and any random values; several draws
#[no_mangle]
pub extern "C" fn c11_good() {
    sv::rand_limit(sv::param(1) as u64);
    let sig = sv::bytes(sv::param(2));
    exchange(&message(3, [0, 23], &point(sv::param(0)), [4, 1], &sig));
}
/// any point bytes of the right length (the curve test abstract)
#[no_mangle]
pub extern "C" fn c11_point() {
    sv::rand_limit(32);
    exchange(&message(3, [0, 23], &sv::bytes(65), [4, 1], &[1, 2]));
}
/// short messages of any content
#[no_mangle]
pub extern "C" fn c11_short() {
    sv::rand_limit(32);
    let n = sv::range(sv::param(0), sv::param(1));
    exchange(&sv::bytes(n));
}
/// one part of a good message arbitrary, then cut or extended
#[no_mangle]
pub extern "C" fn c11_mutated() {
    sv::rand_limit(32);
    sv::rand_fixed(0);
    let mut m = message(3, [0, 23], &point(0), [4, 1], &[9; 3]);
    let n = m.len();
    match sv::param(0) {
        0 => sv::fill(&mut m[..3]),
        1 => sv::fill(&mut m[3..5]),
        2 => sv::fill(&mut m[69..73]),
        3 => m.truncate(sv::choose(n + 1)),
        4 => {
            let k = 1 + sv::choose(3);
            let more = sv::bytes(k);
            m.extend_from_slice(&more);
        }
        // other lengths of the point, consistent
        5 => {
            let k = sv::range(0, 80);
            let mut y = point(0);
            y.resize(k, 7);
            m = message(3, [0, 23], &y, [4, 1], &[9; 3]);
        }
        // the signature's length against what follows
        6 => {
            sv::fill(&mut m[71..73]);
            let k = sv::choose(6);
            m.truncate(73);
            let s = sv::bytes(k);
            m.extend_from_slice(&s);
        }
        // a wrong prefix of the point; points off the curve
        7 => sv::fill(&mut m[4..5]),
        _ => m[5 + sv::choose(64)] ^= 1 << sv::choose(8),
    }
    exchange(&m);
}
