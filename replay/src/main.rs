//! Runs one harness entry natively, with the inputs of a counterexample (or of a sampled path).
//! Input file: lines `e ENTRY`, `p NUMBER` (parameters), then in order `b HEX` (bytes), `r HEX`
//! (random source), `c HEX` (choices, big-endian). Prints SV-FAIL / SV-PANIC when the property breaks.
extern crate harness;
use num::BigUint;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

include!(concat!(env!("OUT_DIR"), "/entries.rs"));

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GA: A = A;

#[derive(Default)]
struct In {
    params: Vec<u64>,
    bytes: Vec<Vec<u8>>,
    choices: Vec<u64>,
    rand: Vec<Vec<u8>>,
    nb: usize,
    nc: usize,
    nr: usize,
    rand_left: Option<u64>,
    log: Vec<u8>,
}
static PANIC_OK: AtomicBool = AtomicBool::new(false);
static FAILED: AtomicBool = AtomicBool::new(false);
static STARTED: AtomicBool = AtomicBool::new(false);
thread_local! { static IN: RefCell<In> = RefCell::new(In::default()); }

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn finish(code: i32) -> ! {
    std::process::exit(if FAILED.load(SeqCst) { 1 } else { code })
}
#[no_mangle]
extern "C" fn sv_bytes(p: *mut u8, n: usize) {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.nb;
        i.nb += 1;
        let v = i.bytes.get(k).cloned().unwrap_or_default();
        for j in 0..n {
            unsafe { *p.add(j) = v.get(j).copied().unwrap_or(0) }
        }
    })
}
#[no_mangle]
extern "C" fn sv_choose(n: u32) -> u32 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.nc;
        i.nc += 1;
        let v = i.choices.get(k).copied().unwrap_or(0);
        (v % n.max(1) as u64) as u32
    })
}
#[no_mangle]
extern "C" fn sv_param(k: u32) -> u64 {
    IN.with(|i| i.borrow().params.get(k as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn sv_assume(c: bool) {
    if !c {
        println!("SV-ASSUME");
        finish(3)
    }
}
#[no_mangle]
extern "C" fn sv_check(c: bool, id: u32) {
    if !c {
        println!("SV-FAIL check{}", id);
        FAILED.store(true, SeqCst)
    }
}
#[no_mangle]
extern "C" fn sv_check_eq(a: *const u8, b: *const u8, n: usize, id: u32) {
    let (x, y) = unsafe { (std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n)) };
    if x != y {
        println!("SV-FAIL check{}\n  {:02x?}\n  {:02x?}", id, x, y);
        FAILED.store(true, SeqCst)
    }
}
#[no_mangle]
extern "C" fn sv_reach(id: u32) {
    println!("SV-REACH {}", id)
}
#[no_mangle]
extern "C" fn sv_panic_ok(on: u32) {
    PANIC_OK.store(on != 0, SeqCst)
}
#[no_mangle]
extern "C" fn sv_ct(_: u32) {}
#[no_mangle]
extern "C" fn sv_rand_limit(n: u64) {
    IN.with(|i| i.borrow_mut().rand_left = Some(n))
}
#[no_mangle]
extern "C" fn sv_uf_fixed() {}
#[no_mangle]
extern "C" fn sv_rand_fixed(_: u64) {}
#[no_mangle]
extern "C" fn sv_rand_again() {
    IN.with(|i| i.borrow_mut().log.clear())
}
#[no_mangle]
extern "C" fn sv_rand_log(p: *mut u8, n: usize) -> u64 {
    IN.with(|i| {
        let i = i.borrow();
        for (j, b) in i.log.iter().take(n).enumerate() {
            unsafe { *p.add(j) = *b }
        }
        i.log.len() as u64
    })
}
#[no_mangle]
extern "C" fn sv_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sv_heap() -> u64 {
    LIVE.load(SeqCst) as u64
}
#[no_mangle]
extern "C" fn sv_heap_peak() -> u64 {
    PEAK.load(SeqCst) as u64
}
#[no_mangle]
extern "C" fn sv_heap_reset_peak() {
    PEAK.store(LIVE.load(SeqCst), SeqCst)
}
#[no_mangle]
extern "C" fn sv_end() -> ! {
    finish(0)
}
#[no_mangle]
extern "C" fn sv_dump(p: *const u8, n: usize) {
    println!("dump {:02x?}", unsafe { std::slice::from_raw_parts(p, n) })
}
#[no_mangle]
extern "C" fn sv_note(v: u64) {
    println!("note {}", v)
}
#[no_mangle]
extern "C" fn sv_export(_: u32, _: *const u8, _: usize) {}
#[no_mangle]
extern "C" fn sv_cut() -> ! {
    finish(3)
}

// --- numbers, independently of the library
use num::bigint::{BigInt, Sign};
use num::Zero;
fn prime() -> BigInt {
    let o = BigInt::from(1);
    (o.clone() << 256) - (o.clone() << 224) + (o.clone() << 192) + (o.clone() << 96) - o
}
fn le(p: *const u8) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, unsafe { std::slice::from_raw_parts(p, 32) })
}
fn modp(a: BigInt) -> BigInt {
    let p = prime();
    ((a % &p) + &p) % &p
}
fn store(n: &BigInt, p: *mut u8, be: bool) {
    let (_, mut b) = n.to_bytes_le();
    b.resize(32, 0);
    if be {
        b.reverse()
    }
    for i in 0..32 {
        unsafe { *p.add(i) = b[i] }
    }
}
fn inv(a: &BigInt) -> BigInt {
    a.modpow(&(prime() - 2), &prime())
}
type Aff = Option<(BigInt, BigInt)>;
fn plus(a: &Aff, b: &Aff) -> Aff {
    let (a, b) = match (a, b) {
        (None, x) | (x, None) => return x.clone(),
        (Some(a), Some(b)) => (a, b),
    };
    let l = if a.0 == b.0 {
        if modp(&a.1 + &b.1).is_zero() {
            return None;
        }
        modp(3 * (&a.0 * &a.0) - 3) * inv(&modp(2 * &a.1))
    } else {
        modp(&b.1 - &a.1) * inv(&modp(&b.0 - &a.0))
    };
    let x = modp(&l * &l - &a.0 - &b.0);
    let y = modp(l * (&a.0 - &x) - &a.1);
    Some((x, y))
}
fn times(n: &BigInt, p: &Aff) -> Aff {
    let mut r = None;
    for i in (0..n.bits()).rev() {
        r = plus(&r, &r);
        if n.bit(i) {
            r = plus(&r, p);
        }
    }
    r
}
fn generator() -> Aff {
    let h = |s: &[u8]| BigInt::parse_bytes(s, 16).unwrap();
    Some((h(b"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), h(b"4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")))
}
fn affine(p: *const u8) -> Aff {
    let (x, y, z) = unsafe { (le(p), le(p.add(32)), modp(le(p.add(64)))) };
    if z.is_zero() {
        return None;
    }
    let (i2, i3) = (inv(&modp(&z * &z)), inv(&modp(&z * &z * &z)));
    Some((modp(x * i2), modp(y * i3)))
}
#[no_mangle]
extern "C" fn sv_live() -> u32 {
    0
}
fn fail(c: bool, id: u32) {
    if c {
        println!("SV-FAIL check{}", id);
        FAILED.store(true, SeqCst)
    }
}
#[no_mangle]
extern "C" fn sv_elem(p: *mut u8, be: u32) {
    sv_bytes(p, 32);
    let mut b = unsafe { std::slice::from_raw_parts(p, 32) }.to_vec();
    if be != 0 {
        b.reverse();
    }
    let n = BigInt::from_bytes_le(Sign::Plus, &b) % prime();
    store(&n, p, be != 0)
}
#[no_mangle]
extern "C" fn sv_affine(p: *mut u8, mode: u32) {
    unsafe {
        sv_elem(p, 1);
        sv_elem(p.add(32), 1);
        if mode > 0 {
            let k = BigInt::from_bytes_be(Sign::Plus, std::slice::from_raw_parts(p, 32)) + 1;
            let pick = *p.add(63);
            let (x, mut y) = times(&k, &generator()).unwrap();
            if mode == 2 {
                y = modp(y + 1 + (pick & 3));
            }
            store(&x, p, true);
            store(&y, p.add(32), true);
        }
    }
}
#[no_mangle]
extern "C" fn sv_curve_point(p: *mut u8) {
    let mut b = [0u8; 64];
    sv_bytes(b.as_mut_ptr(), 64);
    let k = le(b.as_ptr()) % (prime() - 1000000) + 1;
    let mut z = modp(le(unsafe { b.as_ptr().add(32) }));
    if z.is_zero() {
        z = BigInt::from(1)
    }
    let (x, y) = times(&k, &generator()).unwrap();
    let z2 = modp(&z * &z);
    unsafe {
        store(&modp(x * &z2), p, false);
        store(&modp(y * modp(z2 * &z)), p.add(32), false);
        store(&z, p.add(64), false);
    }
}
#[no_mangle]
extern "C" fn sv_nonzero(p: *const u8) {
    if le(p).is_zero() {
        println!("SV-ASSUME");
        finish(3)
    }
}
#[no_mangle]
extern "C" fn sv_group_base(_: *const u8) {}
#[no_mangle]
extern "C" fn sv_group_check(p: *const u8, base: *const u8, n: *const u8, id: u32) {
    fail(affine(p) != times(&le(n), &affine(base)), id)
}
#[no_mangle]
extern "C" fn sv_power_base(_: *const u8) {}
#[no_mangle]
extern "C" fn sv_power_check(r: *const u8, a: *const u8, id: u32) {
    fail(le(r) != inv(&le(a)), id)
}
#[no_mangle]
unsafe extern "C" fn sv_mac_check(tag: *const u8, msg: *const u8, len: usize, r: *const u8, s: *const u8, id: u32) {
    let of = |p: *const u8, n: usize| BigUint::from_bytes_le(std::slice::from_raw_parts(p, n));
    let p = (BigUint::from(1u8) << 130) - 5u8;
    let clamp = BigUint::parse_bytes(b"0ffffffc0ffffffc0ffffffc0fffffff", 16).unwrap();
    let r = of(r, 16) & clamp;
    let mut h = BigUint::from(0u8);
    for b in std::slice::from_raw_parts(msg, len).chunks(16) {
        h += BigUint::from_bytes_le(b) + (BigUint::from(1u8) << (8 * b.len()));
        h = h * &r % &p;
    }
    let t = (h + of(s, 16)) % (BigUint::from(1u8) << 128);
    fail(t != of(tag, 16), id)
}
#[no_mangle]
extern "C" fn sv_product_check(r: *const u8, a: *const u8, b: *const u8, id: u32) {
    fail(le(r) != modp(le(a) * le(b)), id)
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
/// stands in for libc's syscall(): the random source of the library is fed from the input file
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 318 && STARTED.load(SeqCst) {
        let (p, len) = (a as *mut u8, b);
        let r = IN.with(|i| {
            let mut i = i.borrow_mut();
            if len == 0 {
                return 0;
            }
            if let Some(l) = i.rand_left {
                if (len as u64) > l {
                    println!("SV-ASSUME random source used up");
                    finish(3)
                }
                i.rand_left = Some(l - len as u64);
            }
            let k = i.nr;
            i.nr += 1;
            let v = i.rand.get(k).cloned().unwrap_or_default();
            for j in 0..len {
                let at = i.log.len();
                let b = v.get(j).copied().unwrap_or((at * 167 + 13 + at / 11) as u8);
                *p.add(j) = b;
                i.log.push(b);
            }
            len as i64
        });
        return r;
    }
    let mut r: i64 = n;
    std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

fn main() {
    let file = std::env::args().nth(1).expect("input file");
    let t = std::fs::read_to_string(file).unwrap();
    let mut entry = String::new();
    IN.with(|i| {
        let mut i = i.borrow_mut();
        for l in t.lines() {
            let mut w = l.split_whitespace();
            let (k, v) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            match k {
                "e" => entry = v.to_string(),
                "p" => i.params.push(v.parse().unwrap()),
                "b" => i.bytes.push(hex(v)),
                "r" => i.rand.push(hex(v)),
                "c" => i.choices.push(u64::from_str_radix(v, 16).unwrap()),
                _ => {}
            }
        }
    });
    let f = find(&entry).expect("no such entry");
    std::panic::set_hook(Box::new(|i| {
        if PANIC_OK.load(SeqCst) {
            println!("SV-PANIC-ALLOWED {}", i);
            finish(0)
        }
        println!("SV-PANIC {}", i);
        std::process::exit(1)
    }));
    STARTED.store(true, SeqCst);
    unsafe { f() };
    println!("SV-END");
    finish(0)
}
