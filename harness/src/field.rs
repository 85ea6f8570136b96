//! C08: the prime field, C10: decoding of points.
use crate::sv;
use husk::crypto::p256::int256::{Int256, ONE, P256, ZERO};
use husk::crypto::p256::{NPoint256, B};
use husk::crypto::wrapping::Wrapping as W;

const P: [u32; 8] = [0xffffffff, 0xffffffff, 0xffffffff, 0, 0, 0, 1, 0xffffffff];
fn get(a: &Int256) -> [u32; 8] {
    let mut w = [0; 8];
    for i in 0..8 {
        w[i] = a.v[i].0;
    }
    w
}
fn put(w: &[u32; 8]) -> Int256 {
    let mut a = ZERO;
    for i in 0..8 {
        a.v[i] = W(w[i]);
    }
    a
}
fn raw(w: &[u32; 8]) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..8 {
        b[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes());
    }
    b
}
fn any() -> [u32; 8] {
    let b: [u8; 32] = sv::arr();
    words(&b)
}
fn words(b: &[u8]) -> [u32; 8] {
    let mut w = [0; 8];
    for i in 0..8 {
        w[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    w
}
fn below(a: &[u32; 8], b: &[u32; 8]) -> bool {
    let (_, c) = minus(a, b);
    c == 1
}
/// a + b with its carry
fn plus(a: &[u32; 8], b: &[u32; 8]) -> ([u32; 8], u32) {
    let (mut r, mut c) = ([0; 8], 0u64);
    for i in 0..8 {
        let t = a[i] as u64 + b[i] as u64 + c;
        r[i] = t as u32;
        c = t >> 32;
    }
    (r, c as u32)
}
fn minus(a: &[u32; 8], b: &[u32; 8]) -> ([u32; 8], u32) {
    let (mut r, mut c) = ([0; 8], 0u64);
    for i in 0..8 {
        let t = (a[i] as u64 + (1 << 32)) - b[i] as u64 - c;
        r[i] = t as u32;
        c = 1 - (t >> 32);
    }
    (r, c as u32)
}
fn sel(c: u32, a: [u32; 8], b: [u32; 8]) -> [u32; 8] {
    let mut r = [0; 8];
    for i in 0..8 {
        r[i] = if c != 0 { a[i] } else { b[i] };
    }
    r
}
fn field() -> [u32; 8] {
    let a = any();
    sv::assume(below(&a, &P));
    a
}
fn same(a: &Int256, w: &[u32; 8], id: u32) {
    sv::check_eq(&raw(&get(a)), &raw(w), id)
}
/// (value + carry * 2^256) mod p, for less than 2p
fn reduced(v: &[u32; 8], carry: u32) -> [u32; 8] {
    let (m, c) = minus(v, &P);
    sel(carry | (1 - c), m, *v)
}
#[no_mangle]
pub extern "C" fn c08_linear() {
    match sv::param(0) {
        0 => {
            let (a, b) = (field(), field());
            let (s, c) = plus(&a, &b);
            same(&put(&a).add(&put(&b)), &reduced(&s, c), 1);
        }
        1 => {
            let (a, b) = (field(), field());
            let (d, c) = minus(&a, &b);
            let (e, _) = plus(&d, &P);
            same(&put(&a).sub(&put(&b)), &sel(c, e, d), 2);
        }
        2 => {
            let a = field();
            let (s, c) = plus(&a, &a);
            same(&put(&a).double(), &reduced(&s, c), 3);
        }
        3 => {
            // half: doubling it gives the element back
            let a = field();
            let h = put(&a).divide_by_2();
            sv::check(below(&get(&h), &P), 4);
            let (s, c) = plus(&get(&h), &get(&h));
            same(&put(&a), &reduced(&s, c), 5);
        }
        4 => {
            // reduction of anything below 2p
            let a = any();
            same(&put(&a).reduce_once(W(0)), &reduced(&a, 0), 6);
            same(&put(&a).reduce_once_zero(), &reduced(&a, 0), 7);
        }
        5 => {
            let a = any();
            let mut over = P; // 2p - 2^256
            over = {
                let (s, _) = plus(&over, &P);
                s
            };
            sv::assume(below(&a, &over));
            same(&put(&a).reduce_once(W(1)), &reduced(&a, 1), 8);
        }
        6 => {
            let (a, b) = (any(), any());
            let mut d = 0;
            for i in 0..8 {
                d |= a[i] ^ b[i];
            }
            let r = put(&a).compare(&put(&b)).0;
            sv::check(r == (d != 0) as u32, 9);
            sv::check(put(&a).compare(&put(&a)).0 == 0, 10);
        }
        7 => {
            let (a, b) = (any(), any());
            same(&Int256::choose(W(0), &put(&a), &put(&b)), &a, 11);
            same(&Int256::choose(W(1), &put(&a), &put(&b)), &b, 12);
            let f = (sv::u8_() & 1) as u32;
            same(&Int256::choose(W(f), &put(&a), &put(&b)), &sel(f, b, a), 13);
        }
        8 => {
            // bytes: big endian
            let b: [u8; 32] = sv::arr();
            let mut le = b;
            le.reverse();
            let a = match Int256::from_bytes(&b) {
                Some(a) => a,
                None => {
                    sv::check(false, 14);
                    return;
                }
            };
            same(&a, &words(&le), 15);
            sv::check_eq(&a.to_bytes(), &b, 16);
            for n in 0..80 {
                if n != 32 {
                    sv::check(Int256::from_bytes(&vec![7; n]).is_none(), 17);
                }
            }
        }
        _ => {
            same(&P256, &P, 18);
            same(&ZERO, &[0; 8], 19);
            same(&ONE, &[1, 0, 0, 0, 0, 0, 0, 0], 20);
            same(&ONE.mult(&ONE), &[1, 0, 0, 0, 0, 0, 0, 0], 21);
            same(&ZERO.inverse(), &[0; 8], 22);
            same(&ONE.inverse(), &[1, 0, 0, 0, 0, 0, 0, 0], 23);
        }
    }
    sv::reach(1);
}
/// addition, subtraction, doubling, reduction by contract
#[no_mangle]
pub extern "C" fn c08_mult() {
    let a = field();
    if sv::param(0) == 0 {
        let b = field();
        sv::product_check(&raw(&get(&put(&a).mult(&put(&b)))), &raw(&a), &raw(&b), 1);
    } else {
        sv::product_check(&raw(&get(&put(&a).square())), &raw(&a), &raw(&a), 2);
    }
    sv::reach(1);
}
/// multiplication and squaring by contract
#[no_mangle]
pub extern "C" fn c08_inverse() {
    let a = sv::elem(false);
    sv::power_base(&a);
    let r = put(&words(&a)).inverse();
    sv::power_check(&raw(&get(&r)), &a, 1);
    sv::reach(1);
}
fn be(b: &[u8]) -> Int256 {
    let mut le = [0; 32];
    for i in 0..32 {
        le[i] = b[31 - i];
    }
    put(&words(&le))
}
/// C10: two canonical coordinates; field operations by contract
#[no_mangle]
pub extern "C" fn c10_canonical() {
    let mut d = [4u8; 65];
    d[1..].copy_from_slice(&sv::affine(sv::choose(3)));
    let r = NPoint256::from_uncompressed_bytes(&d);
    let (x, y) = (be(&d[1..33]), be(&d[33..]));
    // y^2 = x (x^2 - 3) + b
    let three = ONE.add(&ONE).add(&ONE);
    let on = y.mult(&y).compare(&x.mult(&x.mult(&x).sub(&three)).add(&B)).0 == 0;
    match r {
        Some(p) => {
            sv::check(on, 1);
            sv::check_eq(&p.to_uncompressed_bytes(), &d, 2);
            sv::check_eq(&p.x.to_bytes(), &d[1..33], 3);
            sv::check_eq(&p.y.to_bytes(), &d[33..], 4);
            sv::reach(1);
        }
        None => {
            sv::check(!on, 5);
            sv::reach(2);
        }
    }
}
/// a coordinate at or above the prime
#[no_mangle]
pub extern "C" fn c10_range() {
    let mut d = [4u8; 65];
    sv::fill(&mut d[1..]);
    let (x, y) = (get(&be(&d[1..33])), get(&be(&d[33..])));
    if sv::param(0) == 0 {
        sv::assume(!below(&x, &P));
    } else {
        sv::assume(below(&x, &P));
        sv::assume(!below(&y, &P));
    }
    sv::check(NPoint256::from_uncompressed_bytes(&d).is_none(), 1);
    sv::reach(1);
}
/// other lengths, other first bytes
#[no_mangle]
pub extern "C" fn c10_shape() {
    let n = sv::range(sv::param(0), sv::param(1));
    let d = sv::bytes(n);
    if n == 65 {
        sv::assume(d[0] != 4);
    }
    sv::check(NPoint256::from_uncompressed_bytes(&d).is_none(), 1);
    sv::reach(1);
}
/// the base point, and each other value of one of its bytes
#[no_mangle]
pub extern "C" fn c10_base() {
    let g = husk::crypto::p256::G.normalize().to_uncompressed_bytes();
    sv::check(NPoint256::from_uncompressed_bytes(&g).is_some(), 1);
    for i in 0..65 {
        let mut d = g.clone();
        d[i] ^= 1 << (i % 8);
        sv::check(NPoint256::from_uncompressed_bytes(&d).is_none(), 2);
    }
    sv::reach(1);
}
/// points of the curve, some with a small coordinate
const POINTS: [[[u8; 32]; 2]; 8] = [
    [[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00], [0x66, 0x48, 0x5c, 0x78, 0x0e, 0x2f, 0x83, 0xd7, 0x24, 0x33, 0xbd, 0x5d, 0x84, 0xa0, 0x6b, 0xb6, 0x54, 0x1c, 0x2a, 0xf3, 0x1d, 0xae, 0x87, 0x17, 0x28, 0xbf, 0x85, 0x6a, 0x17, 0x4f, 0x93, 0xf4]],
    [[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x05], [0x45, 0x92, 0x43, 0xb9, 0xaa, 0x58, 0x18, 0x06, 0xfe, 0x91, 0x3b, 0xce, 0x99, 0x81, 0x7a, 0xde, 0x11, 0xca, 0x50, 0x3c, 0x64, 0xd9, 0xa3, 0xc5, 0x33, 0x41, 0x5c, 0x08, 0x32, 0x48, 0xfb, 0xcc]],
    [[0x00, 0x00, 0x00, 0x00, 0x80, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x02], [0xd5, 0x37, 0x4e, 0x8d, 0xbc, 0x73, 0x2a, 0xdf, 0xb9, 0x5f, 0xb7, 0x7c, 0xbf, 0x9c, 0x63, 0x87, 0x93, 0x7e, 0x0b, 0x34, 0x2a, 0xa3, 0x29, 0x37, 0xca, 0xc7, 0x5d, 0x68, 0xa8, 0xbd, 0xb1, 0xce]],
    [[0x8d, 0x01, 0x77, 0xeb, 0xab, 0x9c, 0x6e, 0x9e, 0x10, 0xdb, 0x6d, 0xd0, 0x95, 0xdb, 0xac, 0x0d, 0x63, 0x75, 0xe8, 0xa9, 0x7b, 0x70, 0xf6, 0x11, 0x87, 0x5d, 0x87, 0x7f, 0x00, 0x69, 0xd2, 0xc7], [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01]],
    [[0x14, 0x57, 0x9b, 0x00, 0xf1, 0x24, 0x17, 0x5c, 0x62, 0x98, 0x1b, 0x98, 0x4b, 0x2c, 0x07, 0xd5, 0xb6, 0x00, 0xd0, 0xa3, 0x83, 0xe8, 0xaa, 0xcf, 0x2a, 0x14, 0xdd, 0xdb, 0x59, 0xbc, 0xeb, 0x8b], [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x09]],
    [[0xee, 0x9f, 0x16, 0x36, 0x1e, 0x68, 0x1f, 0xb8, 0xf9, 0x74, 0x9c, 0x43, 0x77, 0x1d, 0x05, 0x41, 0xd3, 0xc3, 0x67, 0x9b, 0x2c, 0x48, 0xaf, 0x79, 0xf6, 0x45, 0x3c, 0x62, 0xae, 0x36, 0x5d, 0x1c], [0x00, 0x00, 0x00, 0x00, 0x80, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x04]],
    [[0x6b, 0x17, 0xd1, 0xf2, 0xe1, 0x2c, 0x42, 0x47, 0xf8, 0xbc, 0xe6, 0xe5, 0x63, 0xa4, 0x40, 0xf2, 0x77, 0x03, 0x7d, 0x81, 0x2d, 0xeb, 0x33, 0xa0, 0xf4, 0xa1, 0x39, 0x45, 0xd8, 0x98, 0xc2, 0x96], [0x4f, 0xe3, 0x42, 0xe2, 0xfe, 0x1a, 0x7f, 0x9b, 0x8e, 0xe7, 0xeb, 0x4a, 0x7c, 0x0f, 0x9e, 0x16, 0x2b, 0xce, 0x33, 0x57, 0x6b, 0x31, 0x5e, 0xce, 0xcb, 0xb6, 0x40, 0x68, 0x37, 0xbf, 0x51, 0xf5]],
    [[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x05], [0xba, 0x6d, 0xbc, 0x45, 0x55, 0xa7, 0xe7, 0xfa, 0x01, 0x6e, 0xc4, 0x31, 0x66, 0x7e, 0x85, 0x21, 0xee, 0x35, 0xaf, 0xc4, 0x9b, 0x26, 0x5c, 0x3a, 0xcc, 0xbe, 0xa3, 0xf7, 0xcd, 0xb7, 0x04, 0x33]],
];
/// their canonical encodings are accepted, those with the prime added to a coordinate refused
#[no_mangle]
pub extern "C" fn c10_points() {
    let q = POINTS[sv::choose(POINTS.len())];
    let (ox, oy) = (sv::choose(2) == 1, sv::choose(2) == 1);
    let mut d = vec![4];
    let mut fits = true;
    for (v, over) in [(q[0], ox), (q[1], oy)] {
        let mut w = v;
        if over {
            let p = be_prime();
            let mut c = 0;
            for i in (0..32).rev() {
                c += v[i] as u32 + p[i] as u32;
                w[i] = c as u8;
                c >>= 8;
            }
            fits &= c == 0;
        }
        d.extend_from_slice(&w);
    }
    if !fits {
        return;
    }
    match NPoint256::from_uncompressed_bytes(&d) {
        Some(v) => {
            sv::check(!ox && !oy, 1);
            sv::check_eq(&v.to_uncompressed_bytes(), &d, 2);
            sv::reach(1);
        }
        None => {
            sv::check(ox || oy, 3);
            sv::reach(2);
        }
    }
}
fn be_prime() -> [u8; 32] {
    let mut p = [0xff; 32];
    for i in 4..20 {
        p[i] = 0;
    }
    p[7] = 1;
    p
}
