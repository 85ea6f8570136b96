//! C09 (with the hook husk_verif): the group law in each case, normalisation, the ladder.
//! The field operations and, for the ladder, those of the group are taken by contract.
use crate::sv;
use husk::crypto::p256::int256::{Int256, ONE, P256, ZERO};
use husk::crypto::p256::{NPoint256, Point256, B, G};
use husk::crypto::wrapping::Wrapping as W;

fn int(b: &[u8]) -> Int256 {
    let mut a = ZERO;
    for i in 0..8 {
        a.v[i] = W(u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]));
    }
    a
}
fn raw(a: &Int256) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..8 {
        b[4 * i..4 * i + 4].copy_from_slice(&a.v[i].0.to_le_bytes());
    }
    b
}
fn raw3(p: &Point256) -> [u8; 96] {
    let (x, y, z) = p.verif_xyz();
    let mut b = [0; 96];
    b[..32].copy_from_slice(&raw(&x));
    b[32..64].copy_from_slice(&raw(&y));
    b[64..].copy_from_slice(&raw(&z));
    b
}
fn elem() -> Int256 {
    int(&sv::elem(false))
}
fn nonzero(a: &Int256) {
    sv::nonzero(&raw(a))
}
fn same(a: &Int256, b: &Int256, id: u32) {
    sv::check_eq(&raw(a), &raw(b), id)
}
fn scaled(x: &Int256, y: &Int256, z: &Int256) -> Point256 {
    let z2 = z.mult(z);
    Point256::verif_new(x.mult(&z2), y.mult(&z2.mult(z)), *z)
}
/// the point with slope n/d through (x1, y1), third point over x1 + x2
fn through(x1: &Int256, y1: &Int256, x2: &Int256, n: &Int256, d: &Int256) -> (Int256, Int256, Int256) {
    let d2 = d.mult(d);
    let x = n.mult(n).sub(&x1.add(x2).mult(&d2));
    let y = n.mult(&x1.mult(&d2).sub(&x)).sub(&y1.mult(&d2.mult(d)));
    (x, y, *d)
}
fn chord(x1: &Int256, y1: &Int256, x2: &Int256, y2: &Int256) -> (Int256, Int256, Int256) {
    through(x1, y1, x2, &y2.sub(y1), &x2.sub(x1))
}
fn tangent(x: &Int256, y: &Int256) -> (Int256, Int256, Int256) {
    let n = x.mult(x).sub(&ONE);
    let n = n.add(&n).add(&n);
    through(x, y, x, &n, &y.add(y))
}
fn is(p: &Point256, w: &(Int256, Int256, Int256)) {
    let (x, y, z) = p.verif_xyz();
    sv::check(z.compare(&ZERO).0 == 1, 1);
    let (a, b) = (z.mult(&z), w.2.mult(&w.2));
    same(&x.mult(&b), &w.0.mult(&a), 2);
    same(&y.mult(&b.mult(&w.2)), &w.1.mult(&a.mult(&z)), 3);
}
fn is_identity(p: &Point256) {
    let (_, _, z) = p.verif_xyz();
    sv::check(z.compare(&ZERO).0 == 0, 4);
}
fn z() -> Int256 {
    if sv::choose(2) == 1 {
        return ONE;
    }
    let z = elem();
    nonzero(&z);
    z
}
fn identity() -> Point256 {
    Point256::verif_new(ONE, ONE, ZERO)
}
/// sums of any two points: param 0 is the case
#[no_mangle]
pub extern "C" fn c09_add() {
    let (x, y, z1) = (elem(), elem(), z());
    nonzero(&y); // no point has order two
    let p = scaled(&x, &y, &z1);
    match sv::param(0) {
        0 => {
            // different x; y different, the same, opposite
            let x2 = elem();
            nonzero(&x.sub(&x2));
            let y2 = match sv::choose(3) {
                0 => elem(),
                1 => y,
                _ => ZERO.sub(&y),
            };
            nonzero(&y2);
            let q = scaled(&x2, &y2, &z());
            is(&p.verif_add(&q), &chord(&x, &y, &x2, &y2));
        }
        1 => {
            // the same point, in other or in the same coordinates
            let q = match sv::choose(2) {
                0 => scaled(&x, &y, &z()),
                _ => p.clone(),
            };
            is(&p.verif_add(&q), &tangent(&x, &y));
        }
        2 => {
            let z2 = match sv::choose(2) {
                0 => z(),
                _ => z1,
            };
            is_identity(&p.verif_add(&scaled(&x, &ZERO.sub(&y), &z2)));
        }
        3 => is(&p.verif_add(&identity()), &(x, y, ONE)),
        4 => is(&identity().verif_add(&p), &(x, y, ONE)),
        5 => is_identity(&identity().verif_add(&identity())),
        6 => is(&p.verif_double(), &tangent(&x, &y)),
        7 => is_identity(&identity().verif_double()),
        _ => {
            let n: NPoint256 = p.normalize();
            same(&n.x, &x, 5);
            same(&n.y, &y, 6);
            is(&n.to_point(), &(x, y, ONE));
        }
    }
    sv::reach(1);
}
/// any multiple of any point: the multiple is the sum of the scalar's bits
#[no_mangle]
pub extern "C" fn c09_ladder() {
    let b = sv::curve_point();
    let p = Point256::verif_new(int(&b[..32]), int(&b[32..64]), int(&b[64..]));
    let n: [u8; 32] = sv::arr();
    let r = p.mult_scalar(&int(&n));
    sv::group_check(&raw3(&r), &b, &n, 1);
    sv::reach(1);
}
/// ... and of the base point, by itself
#[no_mangle]
pub extern "C" fn c09_base() {
    let b = raw3(&G);
    sv::group_base(&b);
    let n: [u8; 32] = sv::arr();
    let r = G.mult_scalar(&int(&n));
    sv::group_check(&raw3(&r), &b, &n, 1);
    sv::reach(1);
}
const GX: [u32; 8] = [0xd898c296, 0xf4a13945, 0x2deb33a0, 0x77037d81, 0x63a440f2, 0xf8bce6e5, 0xe12c4247, 0x6b17d1f2];
const GY: [u32; 8] = [0x37bf51f5, 0xcbb64068, 0x6b315ece, 0x2bce3357, 0x7c0f9e16, 0x8ee7eb4a, 0xfe1a7f9b, 0x4fe342e2];
const BB: [u32; 8] = [0x27d2604b, 0x3bce3c3e, 0xcc53b0f6, 0x651d06b0, 0x769886bc, 0xb3ebbd55, 0xaa3a93e7, 0x5ac635d8];
const PP: [u32; 8] = [0xffffffff, 0xffffffff, 0xffffffff, 0, 0, 0, 1, 0xffffffff];
const NN: [u32; 8] = [0xfc632551, 0xf3b9cac2, 0xa7179e84, 0xbce6faad, 0xffffffff, 0xffffffff, 0, 0xffffffff];
fn words(w: &[u32; 8]) -> Int256 {
    let mut a = ZERO;
    for i in 0..8 {
        a.v[i] = W(w[i]);
    }
    a
}
/// the constants, and the whole code on the scalars around the group order (param 0)
#[no_mangle]
pub extern "C" fn c09_order() {
    let (x, y, z) = G.verif_xyz();
    same(&x, &words(&GX), 1);
    same(&y, &words(&GY), 2);
    same(&z, &ONE, 3);
    same(&B, &words(&BB), 4);
    same(&P256, &words(&PP), 5);
    let mut n = NN;
    let k = sv::param(0);
    let want = match k {
        0 => [0; 8],
        1 => [0xffff_ffff; 8],
        2 => {
            n[0] -= 1;
            n
        }
        3 => n,
        4 => {
            n[0] += 1;
            n
        }
        5 => {
            n[0] += 2;
            n
        }
        6 => [1, 0, 0, 0, 0, 0, 0, 0],
        _ => [2, 0, 0, 0, 0, 0, 0, 0],
    };
    let r = G.mult_scalar(&words(&want));
    let (gx, gy) = (words(&GX), words(&GY));
    match k {
        0 | 3 => is_identity(&r),
        2 => is(&r, &(gx, ZERO.sub(&gy), ONE)),
        4 | 6 => is(&r, &(gx, gy, ONE)),
        5 | 7 => is(&r, &tangent(&gx, &gy)),
        _ => {
            // 2^256 - 1, computed elsewhere
            let n = r.normalize();
            same(&n.x, &words(&ALLX), 6);
            same(&n.y, &words(&ALLY), 7);
        }
    }
    sv::reach(1);
}
const ALLX: [u32; 8] = [0x9db9d31a, 0x1a3d132b, 0x9c3677cc, 0x2c6102c4, 0x9586eb53, 0x1b102317, 0x0e26c0d2, 0xf72cbd24];
const ALLY: [u32; 8] = [0xa83408a7, 0xe453d93f, 0xcdca831e, 0x23250ef0, 0xbfe7a5d2, 0xdc0dbd91, 0xe2a36621, 0x43e4ca77];
