//! Hash-consed bit-vector expression DAG with a simplifier, interval bounds and evaluation.
#![allow(static_mut_refs)]
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    /// sum of coef*term + const (mod 2^w)
    Add(Box<[(E, u128)]>, u128),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(Box<[E]>, u128),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Concat(Box<[E]>), // high part first
    Extract(E, u16),
    SExt(E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    /// output idx of uninterpreted call
    App(u32, u32),
}

pub struct Call {
    pub fid: u32,
    pub args: Box<[E]>,
}

pub struct VarInfo {
    pub name: String,
    pub width: u16,
    pub junk: bool,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    pub rng: Vec<(u128, u128)>,
    table: Vec<u32>,
    mask: usize,
    pub vars: Vec<VarInfo>,
    pub calls: Vec<Call>,
    callmap: HashMap<(u32, Box<[E]>), u32>,
    pub fids: Vec<String>,
    stamp: Vec<u32>,
    cur: u32,
    pub supp: HashMap<E, std::rc::Rc<Vec<u32>>>,
    /// boolean function of at most four operands, for nodes built from and/or/xor
    pub tts: HashMap<E, (u16, [E; 4])>,
    pub ttcanon: HashMap<(u16, u16, [E; 4]), E>,
    /// linear form of every sum: fingerprint of its (signed) coefficients over its atoms, and constant
    pub lin: HashMap<E, (u128, u128)>,
    pub sums: HashMap<(u16, u128, u128), E>,
}

static mut CTX: Option<Ctx> = None;
#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    unsafe { CTX.as_mut().unwrap_unchecked() }
}
pub fn init() {
    unsafe {
        CTX = Some(Ctx {
            nodes: vec![Node::Const(0)],
            width: vec![0],
            rng: vec![(0, 0)],
            table: vec![0; 1 << 16],
            mask: (1 << 16) - 1,
            vars: vec![],
            calls: vec![],
            callmap: HashMap::new(),
            fids: vec![],
            stamp: vec![0],
            cur: 0,
            supp: HashMap::new(),
            tts: HashMap::new(),
            ttcanon: HashMap::new(),
            lin: HashMap::new(),
            sums: HashMap::new(),
        });
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn width(e: E) -> u16 {
    cx().width[e as usize]
}
#[inline]
pub fn node(e: E) -> &'static Node {
    let n: *const Node = &cx().nodes[e as usize];
    // nodes may be reallocated when new ones are pushed: callers clone before creating nodes
    unsafe { &*n }
}
#[inline]
pub fn nodec(e: E) -> Node {
    cx().nodes[e as usize].clone()
}
#[inline]
pub fn umax(e: E) -> u128 {
    cx().rng[e as usize].1
}
#[inline]
pub fn umin(e: E) -> u128 {
    cx().rng[e as usize].0
}
#[inline]
pub fn as_const(e: E) -> Option<u128> {
    match cx().nodes[e as usize] {
        Node::Const(c) => Some(c),
        _ => None,
    }
}
#[inline]
pub fn to_signed(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

fn hmix(h: u64, v: u64) -> u64 {
    (h.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95)
}
fn hash(n: &Node, w: u16) -> u64 {
    let mut h = w as u64;
    macro_rules! m { ($($x:expr),*) => {{ $( h = hmix(h, $x as u64); )* }} }
    match n {
        Node::Const(c) => m!(1, *c, *c >> 64),
        Node::Var(v) => m!(2, *v),
        Node::Add(t, c) => {
            m!(3, *c, *c >> 64);
            for (e, k) in t.iter() {
                m!(*e, *k, *k >> 64)
            }
        }
        Node::Mul(a, b) => m!(4, *a, *b),
        Node::UDiv(a, b) => m!(5, *a, *b),
        Node::URem(a, b) => m!(6, *a, *b),
        Node::SDiv(a, b) => m!(7, *a, *b),
        Node::SRem(a, b) => m!(8, *a, *b),
        Node::And(a, b) => m!(9, *a, *b),
        Node::Or(a, b) => m!(10, *a, *b),
        Node::Xor(t, c) => {
            m!(11, *c, *c >> 64);
            for e in t.iter() {
                m!(*e)
            }
        }
        Node::Shl(a, b) => m!(12, *a, *b),
        Node::LShr(a, b) => m!(13, *a, *b),
        Node::AShr(a, b) => m!(14, *a, *b),
        Node::Concat(t) => {
            m!(15);
            for e in t.iter() {
                m!(*e)
            }
        }
        Node::Extract(a, l) => m!(16, *a, *l),
        Node::SExt(a) => m!(17, *a),
        Node::Eq(a, b) => m!(18, *a, *b),
        Node::Ult(a, b) => m!(19, *a, *b),
        Node::Slt(a, b) => m!(20, *a, *b),
        Node::Ite(c, a, b) => m!(21, *c, *a, *b),
        Node::App(c, i) => m!(22, *c, *i),
    }
    h ^ (h >> 29)
}

fn bitlen_mask(v: u128) -> u128 {
    if v == 0 {
        0
    } else {
        !0u128 >> v.leading_zeros()
    }
}

fn range_of(n: &Node, w: u16) -> (u128, u128) {
    let full = (0, mask(w));
    if w > 128 {
        return (0, !0);
    }
    match n {
        Node::Const(c) => (*c, *c),
        Node::Var(_) | Node::App(..) => full,
        Node::Add(t, c) => {
            if w > 100 {
                // only the all-positive case
                let (mut lo, mut hi) = (*c, *c);
                for (e, k) in t.iter() {
                    let a = umin(*e).checked_mul(*k).and_then(|x| lo.checked_add(x));
                    let b = umax(*e).checked_mul(*k).and_then(|x| hi.checked_add(x));
                    match (a, b) {
                        (Some(a), Some(b)) if b <= mask(w) => {
                            lo = a;
                            hi = b
                        }
                        _ => return full,
                    }
                }
                return (lo, hi);
            }
            let (mut lo, mut hi) = (to_signed(*c, w), to_signed(*c, w));
            // the constant may be meant unsigned: try both readings of the constant
            for attempt in 0..2 {
                if attempt == 1 {
                    lo = *c as i128;
                    hi = *c as i128;
                    if to_signed(*c, w) == *c as i128 {
                        break;
                    }
                }
                let mut ok = true;
                for (e, k) in t.iter() {
                    let k = to_signed(*k, w);
                    let (a, b) = (umin(*e) as i128, umax(*e) as i128);
                    let (x, y) = if k >= 0 { (a, b) } else { (b, a) };
                    match (
                        k.checked_mul(x).and_then(|v| lo.checked_add(v)),
                        k.checked_mul(y).and_then(|v| hi.checked_add(v)),
                    ) {
                        (Some(p), Some(q)) => {
                            lo = p;
                            hi = q
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok && lo >= 0 && (hi as u128) <= mask(w) {
                    return (lo as u128, hi as u128);
                }
            }
            full
        }
        Node::Mul(a, b) => match umax(*a).checked_mul(umax(*b)) {
            Some(h) if h <= mask(w) => (umin(*a) * umin(*b), h),
            _ => full,
        },
        Node::UDiv(a, b) => {
            if umin(*b) > 0 {
                (umin(*a) / umax(*b), umax(*a) / umin(*b))
            } else {
                full
            }
        }
        Node::URem(a, b) => {
            if umin(*b) > 0 {
                (0, umax(*a).min(umax(*b) - 1))
            } else {
                full
            }
        }
        Node::SDiv(..) | Node::SRem(..) | Node::AShr(..) => full,
        Node::And(a, b) => (0, umax(*a).min(umax(*b))),
        Node::Or(a, b) => (umin(*a).max(umin(*b)), bitlen_mask(umax(*a) | umax(*b))),
        Node::Xor(t, c) => {
            let mut m = *c;
            for e in t.iter() {
                m |= umax(*e)
            }
            (0, bitlen_mask(m))
        }
        Node::Shl(..) => full,
        Node::LShr(a, _) => (0, umax(*a)),
        Node::Concat(t) => {
            let (mut lo, mut hi) = (0u128, 0u128);
            for e in t.iter() {
                let k = width(*e);
                if k >= 128 {
                    lo = umin(*e);
                    hi = umax(*e);
                    continue;
                }
                lo = (lo << k) | umin(*e);
                hi = (hi << k) | umax(*e);
            }
            (lo, hi)
        }
        Node::Extract(a, l) => {
            let wa = width(*a);
            if wa > 128 {
                return full;
            }
            let (lo, hi) = (umin(*a) >> l, umax(*a) >> l);
            if hi <= mask(w) {
                (lo, hi)
            } else {
                full
            }
        }
        Node::SExt(a) => {
            let wa = width(*a);
            if umax(*a) < (1u128 << (wa - 1)) {
                (umin(*a), umax(*a))
            } else {
                full
            }
        }
        Node::Eq(..) | Node::Ult(..) | Node::Slt(..) => (0, 1),
        Node::Ite(_, a, b) => (umin(*a).min(umin(*b)), umax(*a).max(umax(*b))),
    }
}

fn intern(n: Node, w: u16) -> E {
    let c = cx();
    let h = hash(&n, w);
    let mut i = (h as usize) & c.mask;
    loop {
        let id = c.table[i];
        if id == 0 {
            break;
        }
        if c.width[id as usize] == w && c.nodes[id as usize] == n {
            return id;
        }
        i = (i + 1) & c.mask;
    }
    let r = range_of(&n, w);
    let id = c.nodes.len() as u32;
    // a node whose range is a single value is that constant
    if r.0 == r.1 && w <= 128 && !matches!(n, Node::Const(_)) {
        return konst(r.0, w);
    }
    c.nodes.push(n);
    c.width.push(w);
    c.rng.push(r);
    c.stamp.push(0);
    c.table[i] = id;
    if c.nodes.len() * 2 > c.table.len() {
        let nl = c.table.len() * 2;
        let mut t = vec![0u32; nl];
        let m = nl - 1;
        for id in 1..c.nodes.len() {
            let mut j = (hash(&c.nodes[id], c.width[id]) as usize) & m;
            while t[j] != 0 {
                j = (j + 1) & m;
            }
            t[j] = id as u32;
        }
        c.table = t;
        c.mask = m;
    }
    id
}

pub fn konst(v: u128, w: u16) -> E {
    intern(Node::Const(v & mask(w)), w)
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fals() -> E {
    konst(0, 1)
}
pub fn new_var(name: String, w: u16, junk: bool) -> E {
    let c = cx();
    c.vars.push(VarInfo { name, width: w, junk });
    intern(Node::Var(c.vars.len() as u32 - 1), w)
}
pub fn fid(name: &str) -> u32 {
    let c = cx();
    if let Some(i) = c.fids.iter().position(|x| x == name) {
        return i as u32;
    }
    c.fids.push(name.to_string());
    c.fids.len() as u32 - 1
}
pub fn app(fid: u32, args: Vec<E>, idx: u32, w: u16) -> E {
    let c = cx();
    let key = (fid, args.into_boxed_slice());
    let id = match c.callmap.get(&key) {
        Some(i) => *i,
        None => {
            let i = c.calls.len() as u32;
            c.calls.push(Call { fid, args: key.1.clone() });
            c.callmap.insert(key, i);
            i
        }
    };
    intern(Node::App(id, idx), w)
}

/// sums of at most this many terms are kept flat; larger ones nest and are identified by fingerprint
const ADD_CAP: usize = 24;
const XOR_CAP: usize = 8;

// fingerprints: linear maps into the integers modulo 2^127-1
const FP: u128 = (1 << 127) - 1;
fn fp_add(a: u128, b: u128) -> u128 {
    let s = a + b; // both below 2^127
    if s >= FP {
        s - FP
    } else {
        s
    }
}
fn fp_mul(a: u128, b: u128) -> u128 {
    let m = (1u128 << 64) - 1;
    let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
    let p00 = a0 * b0;
    let (p01, p10) = (a0 * b1, a1 * b0);
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    let lo = (mid << 64) | (p00 & m);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    // hi*2^128 + lo = hi*2 + (lo >> 127) + (lo & FP)
    let r = fp_add(lo & FP, (hi << 1) | (lo >> 127));
    if r == FP {
        0
    } else {
        r
    }
}
fn fp_coef(k: u128, w: u16) -> u128 {
    let s = to_signed(k, w);
    if s >= 0 {
        s as u128 % FP
    } else {
        (FP - (s.unsigned_abs() % FP)) % FP
    }
}
/// (fingerprint, constant) of a term as a linear form
fn fp_of(e: E) -> (u128, u128) {
    match node(e) {
        Node::Const(c) => (0, *c),
        Node::Add(..) => cx().lin[&e],
        _ => {
            let r = rnd(e as u64, 0x51ed_270b, 0x9e37_79b9);
            (r % FP, 0)
        }
    }
}
fn acc_terms(e: E, k: u128, w: u16, acc: &mut Vec<(E, u128)>, c: &mut u128, cap: usize) {
    match node(e) {
        Node::Const(v) => *c = c.wrapping_add(v.wrapping_mul(k)) & mask(w),
        Node::Add(t, c0) if t.len() <= cap => {
            *c = c.wrapping_add(c0.wrapping_mul(k)) & mask(w);
            for (x, kk) in t.iter() {
                acc.push((*x, kk.wrapping_mul(k) & mask(w)));
            }
        }
        _ => acc.push((e, k & mask(w))),
    }
}
fn finish_add(mut acc: Vec<(E, u128)>, c: u128, w: u16) -> E {
    acc.sort_unstable_by_key(|t| t.0);
    let mut out: Vec<(E, u128)> = Vec::with_capacity(acc.len());
    for (e, k) in acc {
        match out.last_mut() {
            Some(l) if l.0 == e => l.1 = l.1.wrapping_add(k) & mask(w),
            _ => out.push((e, k)),
        }
    }
    out.retain(|t| t.1 != 0);
    if out.is_empty() {
        return konst(c, w);
    }
    if out.len() == 1 && out[0].1 == 1 && c == 0 {
        return out[0].0;
    }
    let (mut f, mut tc) = (0u128, c);
    for (e, k) in &out {
        let (fe, ce) = fp_of(*e);
        f = fp_add(f, fp_mul(fp_coef(*k, w), fe));
        tc = tc.wrapping_add(k.wrapping_mul(ce)) & mask(w);
    }
    if f == 0 {
        return konst(tc, w);
    }
    if let Some(r) = cx().sums.get(&(w, f, tc)) {
        return *r;
    }
    let r = intern(Node::Add(out.into_boxed_slice(), c), w);
    if matches!(node(r), Node::Add(..)) {
        cx().lin.insert(r, (f, tc));
        cx().sums.insert((w, f, tc), r);
    }
    r
}
pub fn addk(a: E, ka: u128, b: E, kb: u128) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        return xor(a, b);
    }
    let la = if let Node::Add(t, _) = node(a) { t.len() } else { 1 };
    let lb = if let Node::Add(t, _) = node(b) { t.len() } else { 1 };
    if la + lb > ADD_CAP {
        let ((fa, ca), (fb, cb)) = (fp_of(a), fp_of(b));
        let f = fp_add(fp_mul(fp_coef(ka, w), fa), fp_mul(fp_coef(kb, w), fb));
        let c = ka.wrapping_mul(ca).wrapping_add(kb.wrapping_mul(cb)) & mask(w);
        if f == 0 {
            return konst(c, w);
        }
        if let Some(r) = cx().sums.get(&(w, f, c)) {
            return *r;
        }
    }
    let (mut acc, mut c) = (Vec::with_capacity(la + lb), 0u128);
    let cap = if la + lb > ADD_CAP { ADD_CAP / 2 } else { ADD_CAP };
    acc_terms(a, ka, w, &mut acc, &mut c, cap);
    acc_terms(b, kb, w, &mut acc, &mut c, cap);
    let r = finish_add(acc, c, w);
    // disjoint bit patterns: a + b == a | b
    if let Node::Add(t, c) = node(r) {
        if t.len() + (*c != 0) as usize == 2 && t.iter().all(|x| x.1 == 1) {
            let c = *c;
            let x = t[0].0;
            let y = if c != 0 { konst(c, w) } else { t[1].0 };
            if let Some(d) = disjoint_or(x, y) {
                return d;
            }
        }
    }
    r
}
pub fn add(a: E, b: E) -> E {
    addk(a, 1, b, 1)
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    addk(a, 1, b, mask(w))
}
pub fn neg(a: E) -> E {
    sub(konst(0, width(a)), a)
}
pub fn mul(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 {
        return and(a, b);
    }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return konst(x.wrapping_mul(y), w),
        (Some(x), _) => return mulc(b, x),
        (_, Some(y)) => return mulc(a, y),
        _ => {}
    }
    if umax(a) <= 1 {
        return ite(extract(a, 0, 1), b, konst(0, w));
    }
    if umax(b) <= 1 {
        return ite(extract(b, 0, 1), a, konst(0, w));
    }
    intern(Node::Mul(a.min(b), a.max(b)), w)
}
fn mulc(a: E, k: u128) -> E {
    let w = width(a);
    let k = k & mask(w);
    if k == 0 {
        return konst(0, w);
    }
    if k == 1 {
        return a;
    }
    if k.is_power_of_two() {
        return shl_c(a, k.trailing_zeros() as u16);
    }
    let (mut acc, mut c) = (Vec::new(), 0);
    acc_terms(a, k, w, &mut acc, &mut c, ADD_CAP);
    finish_add(acc, c, w)
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if y != 0 {
            return konst(x / y, w);
        }
    }
    if let Some(y) = as_const(b) {
        if y.is_power_of_two() {
            return lshr_c(a, y.trailing_zeros() as u16);
        }
    }
    intern(Node::UDiv(a, b), w)
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if y != 0 {
            return konst(x % y, w);
        }
    }
    if let Some(y) = as_const(b) {
        if y.is_power_of_two() {
            return and(a, konst(y - 1, w));
        }
        if umax(a) < y {
            return a;
        }
    }
    intern(Node::URem(a, b), w)
}
pub fn sdiv(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if y != 0 {
            return konst(to_signed(x, w).wrapping_div(to_signed(y, w)) as u128, w);
        }
    }
    intern(Node::SDiv(a, b), w)
}
pub fn srem(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if y != 0 {
            return konst(to_signed(x, w).wrapping_rem(to_signed(y, w)) as u128, w);
        }
    }
    intern(Node::SRem(a, b), w)
}

fn is_seg(e: E) -> bool {
    match node(e) {
        Node::Concat(t) => t.iter().any(|x| as_const(*x).is_some()),
        _ => false,
    }
}
/// boundaries (bit offsets from the low end, exclusive of 0 and w)
fn bounds(e: E, out: &mut Vec<u16>) {
    if let Node::Concat(t) = node(e) {
        let mut p = 0;
        for x in t.iter().rev() {
            p += width(*x);
            out.push(p);
        }
    } else if let Some(c) = as_const(e) {
        // runs
        let w = width(e);
        let mut last = c & 1;
        for i in 1..w {
            let b = c >> i & 1;
            if b != last {
                out.push(i);
                last = b
            }
        }
    }
}
fn segwise(a: E, b: E, f: fn(E, E) -> E) -> E {
    let w = width(a);
    let mut bs = vec![w];
    bounds(a, &mut bs);
    bounds(b, &mut bs);
    bs.sort_unstable();
    bs.dedup();
    let mut parts = Vec::new();
    let mut p = 0;
    for q in bs {
        if q > w {
            break;
        }
        let x = extract(a, p, q - p);
        let y = extract(b, p, q - p);
        parts.push(f(x, y));
        p = q;
    }
    parts.reverse();
    concat(parts)
}
fn runs(c: u128, w: u16) -> u32 {
    let m = mask(w);
    ((c ^ (c >> 1)) & (m >> 1)).count_ones() + 1
}
/// Some(a|b) as a concat when, segment by segment, one of the two is constant zero
fn disjoint_or(a: E, b: E) -> Option<E> {
    if !(is_seg(a) || as_const(a).is_some()) || !(is_seg(b) || as_const(b).is_some()) {
        // a non-segmented operand with a small range against one with low zero bits
        let w = width(a);
        if w > 128 {
            return None;
        }
        for (x, y) in [(a, b), (b, a)] {
            if is_seg(x) {
                if let Node::Concat(t) = nodec(x) {
                    let l = *t.last().unwrap();
                    if as_const(l) == Some(0) {
                        let k = width(l);
                        if umax(y) <= mask(k) {
                            let hi = extract(x, k, w - k);
                            let lo = extract(y, 0, k);
                            return Some(concat(vec![hi, lo]));
                        }
                    }
                }
            }
        }
        return None;
    }
    let w = width(a);
    let mut bs = vec![w];
    let mut bb = |e: E| {
        if let Node::Concat(t) = node(e) {
            let mut p = 0;
            for x in t.iter().rev() {
                p += width(*x);
                bs.push(p);
            }
        } else if let Some(c) = as_const(e) {
            if c != 0 {
                bs.push(c.trailing_zeros() as u16);
                bs.push(128 - c.leading_zeros() as u16);
            }
        }
    };
    bb(a);
    bb(b);
    bs.retain(|x| *x > 0 && *x <= w);
    bs.sort_unstable();
    bs.dedup();
    let mut parts = Vec::new();
    let mut p = 0;
    for q in bs {
        let x = extract(a, p, q - p);
        let y = extract(b, p, q - p);
        if as_const(x) == Some(0) {
            parts.push(y)
        } else if as_const(y) == Some(0) {
            parts.push(x)
        } else {
            return None;
        }
        p = q;
    }
    parts.reverse();
    Some(concat(parts))
}

pub fn and(a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return a;
    }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return konst(x & y, w),
        (Some(_), None) => return and(b, a),
        (None, Some(y)) => {
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            if w > 1 && runs(y, w) <= 9 {
                return segwise(a, b, and);
            }
        }
        _ => {}
    }
    if w > 1 && w <= 128 && (is_seg(a) || is_seg(b)) {
        return segwise(a, b, and);
    }
    if w == 1 {
        if is_not_of(a, b) {
            return fals();
        }
        // absorb: a & (a & x)
        if let Node::And(x, y) = node(b) {
            if *x == a || *y == a {
                return b;
            }
        }
        if let Node::And(x, y) = node(a) {
            if *x == b || *y == b {
                return a;
            }
        }
        if let Node::Or(x, y) = node(b) {
            if *x == a || *y == a {
                return a;
            }
        }
        if let Node::Or(x, y) = node(a) {
            if *x == b || *y == b {
                return b;
            }
        }
        if let (Some((p, l)), Some((q, m))) = (zero_part(a), zero_part(b)) {
            // neighbouring parts of one term are all zero
            if let Some(r) = joined_zero(p, l, q, m) {
                return r;
            }
        }
    }
    boolfn(2, &[a, b], 0, w, Node::And(a.min(b), a.max(b)))
}
/// For (extract of t at l) == 0: the extract, l.
fn zero_part(e: E) -> Option<(E, u16)> {
    if let Node::Eq(x, y) = node(e) {
        for (x, y) in [(*x, *y), (*y, *x)] {
            if as_const(y) == Some(0) {
                if let Node::Extract(_, l) = node(x) {
                    return Some((x, *l));
                }
            }
        }
    }
    if let Node::Xor(t, 1) = node(e) {
        if let (1, Node::Extract(_, l)) = (t.len(), node(t[0])) {
            return Some((t[0], *l));
        }
    }
    None
}
/// For (extract of t at l) != 0: the extract, l.
fn some_part(e: E) -> Option<(E, u16)> {
    match node(e) {
        Node::Extract(_, l) => Some((e, *l)),
        Node::Xor(t, 1) if t.len() == 1 && matches!(node(t[0]), Node::Eq(..)) => zero_part(t[0]),
        _ => None,
    }
}
fn joined_zero(p: E, l: u16, q: E, m: u16) -> Option<E> {
    let (Node::Extract(s, _), Node::Extract(t, _)) = (nodec(p), nodec(q)) else { return None };
    if s != t {
        return None;
    }
    let (lo, mid, hi) = if l < m { (l, l + width(p), m) } else { (m, m + width(q), l) };
    if mid != hi || width(p) + width(q) > 128 {
        return None;
    }
    let w = width(p) + width(q);
    Some(eq(extract(s, lo, w), konst(0, w)))
}
const TTV: [u16; 4] = [0xaaaa, 0xcccc, 0xf0f0, 0xff00];
/// Interns a bitwise node so that equal boolean functions of the same (at most four) operands are one
/// node, however they are written: ch and maj have several usual forms.
fn boolfn(op: u8, args: &[E], c: u128, w: u16, n: Node) -> E {
    if w < 8 || w > 128 || args.len() > 4 || (c != 0 && c != mask(w)) {
        return intern(n, w);
    }
    let mut leaves: [E; 4] = [0; 4];
    let mut k = 0;
    let mut infos: Vec<(u16, [E; 4])> = Vec::with_capacity(4);
    for a in args {
        let i = match cx().tts.get(a) {
            Some(i) => *i,
            None => (0xaaaa, [*a, 0, 0, 0]),
        };
        for l in i.1 {
            if l != 0 && !leaves[..k].contains(&l) {
                if k == 4 {
                    return intern(n, w);
                }
                leaves[k] = l;
                k += 1;
            }
        }
        infos.push(i);
    }
    leaves[..k].sort_unstable();
    let remap = |i: &(u16, [E; 4])| -> u16 {
        // truth table of i over the new leaves
        let mut t = 0u16;
        for row in 0..16u16 {
            let mut idx = 0;
            for (j, l) in i.1.iter().enumerate() {
                if *l != 0 {
                    let p = leaves[..k].iter().position(|x| x == l).unwrap();
                    idx |= (row >> p & 1) << j;
                }
            }
            t |= (i.0 >> idx & 1) << row;
        }
        t
    };
    let mut t = match op {
        2 => 0xffff,
        _ => 0,
    };
    for i in &infos {
        let x = remap(i);
        match op {
            2 => t &= x,
            1 => t |= x,
            _ => t ^= x,
        }
    }
    if c != 0 {
        t = !t
    }
    // drop operands that do not matter
    let mut j = 0;
    while j < k {
        let sh = 1u16 << j;
        let dep = (t ^ (t << sh)) & TTV[j] != 0;
        if !dep {
            // compact
            let mut nt = 0u16;
            let mut nl = [0; 4];
            let mut m = 0;
            for q in 0..k {
                if q != j {
                    nl[m] = leaves[q];
                    m += 1
                }
            }
            for row in 0..16u16 {
                let mut idx = 0;
                let mut m = 0;
                for q in 0..k {
                    if q != j {
                        idx |= (row >> m & 1) << q;
                        m += 1
                    }
                }
                nt |= (t >> idx & 1) << row;
            }
            t = nt;
            leaves = nl;
            k -= 1;
        } else {
            j += 1
        }
    }
    if k == 0 {
        return konst(if t & 1 == 1 { mask(w) } else { 0 }, w);
    }
    if k == 1 && t == 0xaaaa {
        return leaves[0];
    }
    if let Some(e) = cx().ttcanon.get(&(w, t, leaves)) {
        return *e;
    }
    // the complement may be known: keep one form
    let e = intern(n, w);
    cx().ttcanon.insert((w, t, leaves), e);
    cx().tts.insert(e, (t, leaves));
    e
}
pub fn is_not_of(a: E, b: E) -> bool {
    if let Node::Xor(t, c) = node(a) {
        if t.len() == 1 && t[0] == b && *c == mask(width(a)) {
            return true;
        }
    }
    if let Node::Xor(t, c) = node(b) {
        if t.len() == 1 && t[0] == a && *c == mask(width(a)) {
            return true;
        }
    }
    false
}
pub fn or(a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return a;
    }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return konst(x | y, w),
        (Some(_), None) => return or(b, a),
        (None, Some(y)) => {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            if w > 1 && runs(y, w) <= 9 {
                return segwise(a, b, or);
            }
        }
        _ => {}
    }
    if w > 1 && w <= 128 {
        if let Some(d) = disjoint_or(a, b) {
            return d;
        }
        if is_seg(a) || is_seg(b) {
            return segwise(a, b, or);
        }
    }
    if w == 1 {
        if is_not_of(a, b) {
            return tru();
        }
        if let Node::Or(x, y) = node(b) {
            if *x == a || *y == a {
                return b;
            }
        }
        if let Node::Or(x, y) = node(a) {
            if *x == b || *y == b {
                return a;
            }
        }
        // all bits of a term
        if let (Some((p, l)), Some((q, m))) = (some_part(a), some_part(b)) {
            if let Some(r) = joined_zero(p, l, q, m) {
                return not(r);
            }
        }
    }
    boolfn(1, &[a, b], 0, w, Node::Or(a.min(b), a.max(b)))
}
pub fn not(a: E) -> E {
    let w = width(a);
    xor(a, konst(mask(w), w))
}
pub fn xor(a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return konst(0, w);
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(x ^ y, w);
    }
    if as_const(a) == Some(0) {
        return b;
    }
    if as_const(b) == Some(0) {
        return a;
    }
    if w > 1 && w <= 128 && (is_seg(a) || is_seg(b)) {
        // only if some segment collapses
        if let Some(d) = disjoint_or(a, b) {
            return d;
        }
        if as_const(a).is_none() && as_const(b).is_none() || is_seg(a) || is_seg(b) {
            return segwise_x(a, b);
        }
    }
    // x ^ ite(c, p, q): choose pattern
    for (x, y) in [(a, b), (b, a)] {
        if let Node::Ite(c, p, q) = nodec(y) {
            if as_const(p) == Some(0) || as_const(q) == Some(0) {
                let (p2, q2) = (xor(x, p), xor(x, q));
                let simple = |e: E| !matches!(node(e), Node::Xor(..));
                if simple(p2) && simple(q2) || (as_const(x).is_some()) {
                    return ite(c, p2, q2);
                }
            }
        }
    }
    let la = if let Node::Xor(t, _) = node(a) { t.len() } else { 1 };
    let lb = if let Node::Xor(t, _) = node(b) { t.len() } else { 1 };
    let flat = la + lb <= XOR_CAP;
    let mut acc: Vec<E> = Vec::with_capacity(la + lb);
    let mut c = 0u128;
    for e in [a, b] {
        match node(e) {
            Node::Const(v) => c ^= v,
            Node::Xor(t, k) if flat || t.len() == 1 => {
                acc.extend_from_slice(t);
                c ^= k
            }
            _ => acc.push(e),
        }
    }
    acc.sort_unstable();
    let mut out: Vec<E> = Vec::with_capacity(acc.len());
    for e in acc {
        if out.last() == Some(&e) {
            out.pop();
        } else {
            out.push(e)
        }
    }
    if out.is_empty() {
        return konst(c, w);
    }
    if out.len() == 1 && c == 0 {
        return out[0];
    }
    if w == 1 && out.len() == 1 {
        // not of comparison
        if let Node::Ult(x, y) = node(out[0]) {
            // keep !(x<y) when y is const etc; canonical form is Xor
            let _ = (x, y);
        }
    }
    let n = out.clone();
    boolfn(0, &n, c, w, Node::Xor(out.into_boxed_slice(), c))
}
fn segwise_x(a: E, b: E) -> E {
    let w = width(a);
    let mut bs = vec![w];
    for e in [a, b] {
        if let Node::Concat(t) = node(e) {
            let mut p = 0;
            for x in t.iter().rev() {
                p += width(*x);
                bs.push(p);
            }
        }
    }
    bs.sort_unstable();
    bs.dedup();
    let mut parts = Vec::new();
    let mut p = 0;
    for q in bs {
        parts.push(xor(extract(a, p, q - p), extract(b, p, q - p)));
        p = q;
    }
    parts.reverse();
    concat(parts)
}

pub fn shl_c(a: E, k: u16) -> E {
    let w = width(a);
    if k == 0 {
        return a;
    }
    if k >= w {
        return konst(0, w);
    }
    concat(vec![extract(a, 0, w - k), konst(0, k)])
}
pub fn lshr_c(a: E, k: u16) -> E {
    let w = width(a);
    if k == 0 {
        return a;
    }
    if k >= w {
        return konst(0, w);
    }
    concat(vec![konst(0, k), extract(a, k, w - k)])
}
pub fn ashr_c(a: E, k: u16) -> E {
    let w = width(a);
    if k == 0 {
        return a;
    }
    let k = k.min(w - 1);
    sext(extract(a, k, w - k), w)
}
pub fn shl(a: E, b: E) -> E {
    if let Some(k) = as_const(b) {
        return shl_c(a, k.min(1000) as u16);
    }
    let w = width(a);
    if let Some(r) = shift_cases(a, b, shl_c) {
        return r;
    }
    intern(Node::Shl(a, b), w)
}
pub fn lshr(a: E, b: E) -> E {
    if let Some(k) = as_const(b) {
        return lshr_c(a, k.min(1000) as u16);
    }
    let w = width(a);
    if let Some(r) = shift_cases(a, b, lshr_c) {
        return r;
    }
    intern(Node::LShr(a, b), w)
}
pub fn ashr(a: E, b: E) -> E {
    if let Some(k) = as_const(b) {
        return ashr_c(a, k.min(1000) as u16);
    }
    intern(Node::AShr(a, b), width(a))
}
fn shift_cases(_a: E, b: E, f: fn(E, u16) -> E) -> Option<E> {
    if let Node::Ite(c, p, q) = nodec(b) {
        if let (Some(x), Some(y)) = (as_const(p), as_const(q)) {
            return Some(ite(c, f(_a, x.min(1000) as u16), f(_a, y.min(1000) as u16)));
        }
    }
    None
}

pub fn concat2(hi: E, lo: E) -> E {
    concat(vec![hi, lo])
}
/// high part first
pub fn concat(parts: Vec<E>) -> E {
    if parts.len() == 1 {
        return parts[0];
    }
    let mut flat: Vec<E> = Vec::with_capacity(parts.len());
    for p in parts {
        if let Node::Concat(t) = node(p) {
            flat.extend_from_slice(t)
        } else {
            flat.push(p)
        }
    }
    let mut out: Vec<E> = Vec::with_capacity(flat.len());
    for p in flat {
        let mut p = p;
        while let Some(&l) = out.last() {
            // l is above p
            let (wl, wp) = (width(l), width(p));
            if wl + wp <= 128 {
                if let (Some(x), Some(y)) = (as_const(l), as_const(p)) {
                    out.pop();
                    p = konst(x << wp | y, wl + wp);
                    continue;
                }
            }
            let m = match (node(l), node(p)) {
                (Node::Extract(b1, l1), Node::Extract(b2, l2)) if b1 == b2 && *l1 == l2 + wp => Some((*b1, *l2)),
                (Node::Extract(b1, l1), _) if *b1 == p && *l1 == wp => None,
                _ => None,
            };
            if let Some((b, lo)) = m {
                out.pop();
                p = part_of(b, lo, wl + wp);
                if let Node::Concat(t) = nodec(p) {
                    // cannot normally happen, but keep flat
                    let mut t = t.to_vec();
                    let last = t.pop().unwrap();
                    out.extend(t);
                    p = last;
                }
                continue;
            }
            // high bits that the range of the term fixes
            if let (Some(c), Node::Extract(b, lo)) = (as_const(l), nodec(p)) {
                let wb = width(b);
                if wb <= 128 && lo + wp < wb {
                    let k = wl.min(wb - lo - wp);
                    let (mn, mx) = (umin(b) >> (lo + wp), umax(b) >> (lo + wp));
                    if mn == mx && mn & mask(k) == c & mask(k) {
                        out.pop();
                        if wl > k {
                            out.push(konst(c >> k, wl - k));
                        }
                        p = extract(b, lo, wp + k);
                        if let Node::Concat(t) = nodec(p) {
                            let mut t = t.to_vec();
                            let last = t.pop().unwrap();
                            out.extend(t);
                            p = last;
                        }
                        if wl > k {
                            break;
                        }
                        continue;
                    }
                }
            }
            // merging of conditionals with the same condition
            if let (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) = (nodec(l), nodec(p)) {
                if c1 == c2 && wl + wp <= 128 {
                    out.pop();
                    let x = concat(vec![a1, a2]);
                    let y = concat(vec![b1, b2]);
                    p = ite(c1, x, y);
                    continue;
                }
            }
            break;
        }
        out.push(p);
    }
    if out.len() == 1 {
        return out[0];
    }
    let w: u16 = out.iter().map(|e| width(*e)).sum();
    // zext(trunc(e)) where e fits
    if out.len() == 2 && as_const(out[0]) == Some(0) {
        if let Node::Extract(b, 0) = node(out[1]) {
            if width(*b) == w && w <= 128 && umax(*b) <= mask(width(out[1])) {
                return *b;
            }
        }
        // Concat(0, bits of b >= k) handled as is
    }
    intern(Node::Concat(out.into_boxed_slice()), w)
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    let wa = width(a);
    if lo == 0 && w == wa {
        return a;
    }
    debug_assert!(lo + w <= wa);
    if wa <= 128 && umax(a) >> lo == 0 {
        return konst(0, w);
    }
    match nodec(a) {
        Node::Const(c) => konst(c >> lo, w),
        Node::Extract(b, l) => extract(b, l + lo, w),
        Node::Concat(t) => {
            let mut parts = Vec::new();
            let mut p = wa;
            for x in t.iter() {
                let wx = width(*x);
                let (xlo, xhi) = (p - wx, p);
                p = xlo;
                let l = lo.max(xlo);
                let h = (lo + w).min(xhi);
                if l < h {
                    parts.push(extract(*x, l - xlo, h - l));
                }
            }
            concat(parts)
        }
        Node::SExt(b) => {
            let wb = width(b);
            if lo + w <= wb {
                extract(b, lo, w)
            } else if lo < wb {
                sext(extract(b, lo, wb - lo), w)
            } else {
                sext(extract(b, wb - 1, 1), w)
            }
        }
        Node::And(x, y) if pushy(x) || pushy(y) => and(extract(x, lo, w), extract(y, lo, w)),
        Node::Or(x, y) if pushy(x) || pushy(y) => or(extract(x, lo, w), extract(y, lo, w)),
        Node::Xor(t, c) if (c != 0 && t.len() == 1 && w == 1) || t.iter().any(|x| pushy(*x)) => {
            let mut r = konst(c >> lo, w);
            for x in t.iter() {
                r = xor(r, extract(*x, lo, w));
            }
            r
        }
        Node::Ite(c, x, y) if pushy(x) || pushy(y) => ite(c, extract(x, lo, w), extract(y, lo, w)),
        _ => intern(Node::Extract(a, lo), w),
    }
}
/// byte of a stored word: resolved only through constants and concatenations
pub fn byte_of(a: E, i: u16) -> E {
    let wa = width(a);
    if wa == 8 {
        return a;
    }
    part_of(a, 8 * i, 8)
}
/// As extract, but a part of an operation stays that, so that the parts put together are the operation again.
fn part_of(a: E, lo: u16, w: u16) -> E {
    let wa = width(a);
    if lo == 0 && w == wa {
        return a;
    }
    match nodec(a) {
        Node::Const(_) | Node::Extract(..) => extract(a, lo, w),
        Node::Concat(t) => {
            let mut parts = Vec::new();
            let mut p = wa;
            for x in t.iter() {
                let wx = width(*x);
                let (xlo, xhi) = (p - wx, p);
                p = xlo;
                let l = lo.max(xlo);
                let h = (lo + w).min(xhi);
                if l < h {
                    parts.push(part_of(*x, l - xlo, h - l));
                }
            }
            concat(parts)
        }
        _ => intern(Node::Extract(a, lo), w),
    }
}
fn pushy(e: E) -> bool {
    matches!(node(e), Node::Const(_) | Node::Concat(_))
}
pub fn zext(a: E, w: u16) -> E {
    let wa = width(a);
    if wa == w {
        return a;
    }
    concat(vec![konst(0, w - wa), a])
}
pub fn sext(a: E, w: u16) -> E {
    let wa = width(a);
    if wa == w {
        return a;
    }
    if let Some(c) = as_const(a) {
        return konst(to_signed(c, wa) as u128, w);
    }
    if umax(a) < (1u128 << (wa - 1)) {
        return zext(a, w);
    }
    if let Node::SExt(b) = node(a) {
        return sext(*b, w);
    }
    if let Node::Ite(c, x, y) = nodec(a) {
        if as_const(x).is_some() && as_const(y).is_some() {
            return ite(c, sext(x, w), sext(y, w));
        }
    }
    if wa == 1 {
        return ite(a, konst(mask(w), w), konst(0, w));
    }
    intern(Node::SExt(a), w)
}
pub fn eq(a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return tru();
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst((x == y) as u128, 1);
    }
    if w <= 128 && (umax(a) < umin(b) || umax(b) < umin(a)) {
        return fals();
    }
    if as_const(a).is_some() {
        return eq(b, a);
    }
    if w == 1 {
        return match as_const(b) {
            Some(1) => a,
            Some(_) => not(a),
            None => not(xor(a, b)),
        };
    }
    let kb = as_const(b);
    if let Node::Concat(t) = nodec(a) {
        let same_shape = match node(b) {
            Node::Concat(u) => t.len() == u.len() && t.iter().zip(u.iter()).all(|(x, y)| width(*x) == width(*y)),
            _ => false,
        };
        if kb.is_some() || same_shape || is_seg(a) || is_seg(b) {
            let mut r = tru();
            let mut p = w;
            for x in t.iter() {
                let wx = width(*x);
                p -= wx;
                let y = extract(b, p, wx);
                r = and(r, eq(*x, y));
                if as_const(r) == Some(0) {
                    return r;
                }
            }
            return r;
        }
    } else if matches!(node(b), Node::Concat(_)) {
        return eq(b, a);
    }
    if let Some(k) = kb {
        match nodec(a) {
            Node::Xor(t, c) => {
                if c != 0 {
                    let rest = if t.len() == 1 { t[0] } else { intern(Node::Xor(t, 0), w) };
                    return eq(rest, konst(k ^ c, w));
                }
                if k == 0 && t.len() == 2 {
                    return eq(t[0], t[1]);
                }
            }
            Node::Or(x, y) if k == 0 => {
                let z = konst(0, w);
                return and(eq(x, z), eq(y, z));
            }
            Node::Ite(c, x, y) => {
                if as_const(x).is_some() || as_const(y).is_some() {
                    let p = eq(x, b);
                    let q = eq(y, b);
                    return ite(c, p, q);
                }
            }
            Node::Add(t, c) => {
                if t.len() == 1 && t[0].1 == 1 {
                    return eq(t[0].0, konst(k.wrapping_sub(c), w));
                }
                if t.len() == 1 && t[0].1 == mask(w) {
                    return eq(t[0].0, konst(c.wrapping_sub(k), w));
                }
                if t.len() == 2 && c.wrapping_sub(k) & mask(w) == 0 {
                    if t[0].1 == 1 && t[1].1 == mask(w) || t[1].1 == 1 && t[0].1 == mask(w) {
                        return eq(t[0].0, t[1].0);
                    }
                }
                if c != 0 && t.len() <= ADD_CAP && !t.iter().any(|x| matches!(node(x.0), Node::Add(..))) {
                    let r = finish_add(t.to_vec(), 0, w);
                    return eq(r, konst(k.wrapping_sub(c), w));
                }
            }
            Node::SExt(x) => {
                let wx = width(x);
                if to_signed(k & mask(wx), wx) as u128 & mask(w) == k {
                    return eq(x, konst(k, wx));
                }
                return fals();
            }
            _ => {}
        }
    } else {
        // x ^ y == x ^ z etc: compare through the difference for sums
        if matches!(node(a), Node::Add(..)) || matches!(node(b), Node::Add(..)) {
            let d = sub(a, b);
            if let Some(c) = as_const(d) {
                return konst((c == 0) as u128, 1);
            }
            if let Node::Add(t, _) = node(d) {
                if t.len() == 1 && t[0].1 == 1 {
                    return eq(d, konst(0, w));
                }
            }
        }
    }
    intern(Node::Eq(a.min(b), a.max(b)), 1)
}
pub fn ult(a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return fals();
    }
    if w <= 128 {
        if umax(a) < umin(b) {
            return tru();
        }
        if umin(a) >= umax(b) {
            return fals();
        }
    }
    if w == 1 {
        return and(not(a), b);
    }
    // both end in zeros
    let tz = |e: E| -> u16 {
        match node(e) {
            Node::Concat(t) if as_const(*t.last().unwrap()) == Some(0) => width(*t.last().unwrap()),
            _ => 0,
        }
    };
    let z = tz(a).min(tz(b));
    if z > 0 {
        return ult(extract(a, z, w - z), extract(b, z, w - z));
    }
    // the same high part
    if let (Node::Concat(x), Node::Concat(y)) = (node(a), node(b)) {
        if x[0] == y[0] {
            let k = w - width(x[0]);
            return ult(extract(a, 0, k), extract(b, 0, k));
        }
    }
    // a = b + d without wrapping (as in the test for overflow of an addition)
    if w <= 64 && (matches!(node(a), Node::Add(..)) || matches!(node(b), Node::Add(..))) {
        let d = sub(a, b);
        if umax(d) + umax(b) <= mask(w) {
            return fals();
        }
        let d = sub(b, a);
        if umax(d) + umax(a) <= mask(w) {
            return not(eq(d, konst(0, w)));
        }
    }
    // zero-extended operands
    let zw = |e: E| -> u16 {
        match node(e) {
            Node::Concat(t) if as_const(t[0]) == Some(0) => w - width(t[0]),
            Node::Const(c) => (128 - c.leading_zeros() as u16).max(1),
            _ => w,
        }
    };
    let m = zw(a).max(zw(b));
    if m < w {
        return ult(extract(a, 0, m), extract(b, 0, m));
    }
    // common low/high constant parts
    if let Some(k) = as_const(b) {
        if k == 1 {
            return eq(a, konst(0, w));
        }
        if k == mask(w) {
            return not(eq(a, b));
        }
        // a < k where k has trailing zeros: compare the high part only
        let tz = k.trailing_zeros() as u16;
        if tz > 0 && tz < w {
            let h = extract(a, tz, w - tz);
            if !matches!(node(h), Node::Extract(..)) || matches!(node(a), Node::Concat(_)) {
                return ult(h, konst(k >> tz, w - tz));
            }
        }
        if let Node::Ite(c, x, y) = nodec(a) {
            if as_const(x).is_some() || as_const(y).is_some() {
                let p = ult(x, b);
                let q = ult(y, b);
                return ite(c, p, q);
            }
        }
    }
    if let Some(k) = as_const(a) {
        if k == 0 {
            return not(eq(b, a));
        }
        if k == mask(w) - 1 {
            return eq(b, konst(mask(w), w));
        }
        // canonical: !(b < k+1)
        return not(ult(b, konst(k + 1, w)));
    }
    intern(Node::Ult(a, b), 1)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return fals();
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst((to_signed(x, w) < to_signed(y, w)) as u128, 1);
    }
    let half = 1u128 << (w - 1);
    let (na, nb) = (umax(a) < half, umax(b) < half);
    if na && nb {
        return ult(a, b);
    }
    let (ga, gb) = (umin(a) >= half, umin(b) >= half);
    if ga && gb {
        return ult(a, b);
    }
    if na && gb {
        return fals();
    }
    if ga && nb {
        return tru();
    }
    if as_const(b) == Some(0) {
        return extract(a, w - 1, 1);
    }
    if as_const(a) == Some(mask(w)) {
        return not(extract(b, w - 1, 1));
    }
    intern(Node::Slt(a, b), 1)
}
pub fn sle(a: E, b: E) -> E {
    not(slt(b, a))
}
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    match as_const(c) {
        Some(1) => return a,
        Some(_) => return b,
        None => {}
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(_)) => return c,
            (Some(_), Some(_)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(_), None) => return and(not(c), b),
            (None, Some(1)) => return or(not(c), a),
            (None, Some(_)) => return and(c, a),
            _ => {}
        }
    }
    // normalise negated conditions
    if let Node::Xor(t, 1) = node(c) {
        if t.len() == 1 {
            return ite(t[0], b, a);
        }
    }
    if let Node::Ite(c2, x, y) = nodec(a) {
        if c2 == c {
            return ite(c, x, b);
        }
        if y == b {
            let nc = and(c, c2);
            return ite(nc, x, b);
        }
    }
    if let Node::Ite(c2, _, y) = node(b) {
        if *c2 == c {
            return ite(c, a, *y);
        }
    }
    // zext(bool)
    if w > 1 && w <= 128 {
        if as_const(a) == Some(1) && as_const(b) == Some(0) {
            return zext(c, w);
        }
        if as_const(a) == Some(0) && as_const(b) == Some(1) {
            return zext(not(c), w);
        }
    }
    intern(Node::Ite(c, a, b), w)
}

// ---------------------------------------------------------------- evaluation

pub struct Model {
    pub vars: HashMap<u32, u128>,
    pub seed: u64,
    pub cache: HashMap<E, u128>,
    pub calls: HashMap<(u32, Vec<u128>, u32), u128>,
}
impl Model {
    pub fn new(seed: u64) -> Model {
        Model { vars: HashMap::new(), seed, cache: HashMap::new(), calls: HashMap::new() }
    }
    pub fn var(&self, v: u32) -> u128 {
        match self.vars.get(&v) {
            Some(x) => *x,
            None => {
                if self.seed == 0 {
                    0
                } else {
                    rnd(self.seed, v as u64, 1) & mask(cx().vars[v as usize].width)
                }
            }
        }
    }
}
pub fn rnd(a: u64, b: u64, c: u64) -> u128 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x94D049BB133111EB);
    let mut out = 0u128;
    for _ in 0..2 {
        z = z.wrapping_add(0x9E3779B97F4A7C15);
        let mut x = z;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
        x ^= x >> 31;
        out = out << 64 | x as u128;
    }
    out
}
pub fn children(n: &Node, f: &mut dyn FnMut(E)) {
    match n {
        Node::Const(_) | Node::Var(_) => {}
        Node::Add(t, _) => t.iter().for_each(|x| f(x.0)),
        Node::Xor(t, _) => t.iter().for_each(|x| f(*x)),
        Node::Concat(t) => t.iter().for_each(|x| f(*x)),
        Node::Mul(a, b)
        | Node::UDiv(a, b)
        | Node::URem(a, b)
        | Node::SDiv(a, b)
        | Node::SRem(a, b)
        | Node::And(a, b)
        | Node::Or(a, b)
        | Node::Shl(a, b)
        | Node::LShr(a, b)
        | Node::AShr(a, b)
        | Node::Eq(a, b)
        | Node::Ult(a, b)
        | Node::Slt(a, b) => {
            f(*a);
            f(*b)
        }
        Node::Extract(a, _) | Node::SExt(a) => f(*a),
        Node::Ite(c, a, b) => {
            f(*c);
            f(*a);
            f(*b)
        }
        Node::App(call, _) => cx().calls[*call as usize].args.iter().for_each(|x| f(*x)),
    }
}
/// all nodes below the roots, in increasing id order
pub fn cone(roots: &[E]) -> Vec<E> {
    cone_until(roots, &mut |_| false)
}
pub fn cone_until(roots: &[E], stop: &mut dyn FnMut(E) -> bool) -> Vec<E> {
    let c = cx();
    c.cur += 1;
    let cur = c.cur;
    let mut st: Vec<E> = roots.to_vec();
    let mut out = vec![];
    while let Some(e) = st.pop() {
        if cx().stamp[e as usize] == cur {
            continue;
        }
        cx().stamp[e as usize] = cur;
        out.push(e);
        if stop(e) {
            continue;
        }
        children(&cx().nodes[e as usize], &mut |x| {
            if cx().stamp[x as usize] != cur {
                st.push(x)
            }
        });
    }
    out.sort_unstable();
    out
}
pub fn eval(e: E, m: &mut Model) -> u128 {
    if let Node::Const(c) = node(e) {
        return *c;
    }
    if let Some(v) = m.cache.get(&e) {
        return *v;
    }
    let list = cone_until(&[e], &mut |x| m.cache.contains_key(&x));
    for x in list {
        if !m.cache.contains_key(&x) {
            let v = eval_node(x, &mut |y| match node(y) {
                Node::Const(c) => *c,
                _ => m.cache[&y],
            }, &|v| m.var(v), &m.calls, m.seed);
            m.cache.insert(x, v);
        }
    }
    m.cache[&e]
}
pub fn eval_node(
    x: E,
    g: &mut dyn FnMut(E) -> u128,
    var: &dyn Fn(u32) -> u128,
    calls: &HashMap<(u32, Vec<u128>, u32), u128>,
    seed: u64,
) -> u128 {
    let w = width(x);
    let mk = mask(w);
    match node(x) {
        Node::Const(c) => *c,
        Node::Var(v) => var(*v),
        Node::Add(t, c) => {
            let mut s = *c;
            for (e, k) in t.iter() {
                s = s.wrapping_add(g(*e).wrapping_mul(*k));
            }
            s & mk
        }
        Node::Mul(a, b) => g(*a).wrapping_mul(g(*b)) & mk,
        Node::UDiv(a, b) => {
            let d = g(*b);
            if d == 0 { mk } else { g(*a) / d }
        }
        Node::URem(a, b) => {
            let d = g(*b);
            if d == 0 { g(*a) } else { g(*a) % d }
        }
        Node::SDiv(a, b) => {
            let d = to_signed(g(*b), w);
            let n = to_signed(g(*a), w);
            if d == 0 { (if n >= 0 { mk } else { 1 }) & mk } else { n.wrapping_div(d) as u128 & mk }
        }
        Node::SRem(a, b) => {
            let d = to_signed(g(*b), w);
            let n = to_signed(g(*a), w);
            if d == 0 { n as u128 & mk } else { n.wrapping_rem(d) as u128 & mk }
        }
        Node::And(a, b) => g(*a) & g(*b),
        Node::Or(a, b) => g(*a) | g(*b),
        Node::Xor(t, c) => {
            let mut s = *c;
            for e in t.iter() {
                s ^= g(*e);
            }
            s
        }
        Node::Shl(a, b) => {
            let k = g(*b);
            if k >= w as u128 { 0 } else { g(*a) << k & mk }
        }
        Node::LShr(a, b) => {
            let k = g(*b);
            if k >= w as u128 { 0 } else { g(*a) >> k }
        }
        Node::AShr(a, b) => {
            let k = g(*b).min(w as u128 - 1);
            (to_signed(g(*a), w) >> k) as u128 & mk
        }
        Node::Concat(t) => {
            let mut s = 0u128;
            for e in t.iter() {
                let k = width(*e);
                s = if k >= 128 { g(*e) } else { s << k | g(*e) };
            }
            s
        }
        Node::Extract(a, l) => g(*a) >> l & mk,
        Node::SExt(a) => to_signed(g(*a), width(*a)) as u128 & mk,
        Node::Eq(a, b) => (g(*a) == g(*b)) as u128,
        Node::Ult(a, b) => (g(*a) < g(*b)) as u128,
        Node::Slt(a, b) => {
            let wa = width(*a);
            (to_signed(g(*a), wa) < to_signed(g(*b), wa)) as u128
        }
        Node::Ite(c, a, b) => {
            if g(*c) == 1 { g(*a) } else { g(*b) }
        }
        Node::App(call, idx) => {
            let c = &cx().calls[*call as usize];
            let args: Vec<u128> = c.args.iter().map(|e| g(*e)).collect();
            let mut h = c.fid as u64 * 1000 + 7;
            for a in &args {
                h = hmix(h, *a as u64);
                h = hmix(h, (*a >> 64) as u64);
            }
            let key = (c.fid, args, *idx);
            match calls.get(&key) {
                Some(v) => *v & mk,
                None => rnd(h ^ seed.wrapping_mul(0), *idx as u64, 77) & mk,
            }
        }
    }
}
/// variables (by index) and uninterpreted functions (index with the top bit set) below e
pub fn support(e: E) -> std::rc::Rc<Vec<u32>> {
    if let Some(s) = cx().supp.get(&e) {
        return s.clone();
    }
    let mut v: Vec<u32> = cone(&[e])
        .into_iter()
        .filter_map(|x| match node(x) {
            Node::Var(i) => Some(*i),
            Node::App(c, _) => Some(cx().calls[*c as usize].fid | 1 << 31),
            _ => None,
        })
        .collect();
    v.sort_unstable();
    v.dedup();
    let r = std::rc::Rc::new(v);
    cx().supp.insert(e, r.clone());
    r
}
pub fn var_expr(v: u32, w: u16) -> E {
    intern(Node::Var(v), w)
}
pub fn show(e: E, d: usize) -> String {
    match nodec(e) {
        Node::Const(c) => format!("{:#x}", c),
        Node::Var(v) => cx().vars[v as usize].name.clone(),
        _ if d == 0 => format!("n{}:{}", e, width(e)),
        n => {
            let mut ch = vec![];
            children(&n, &mut |c| ch.push(show(c, d - 1)));
            let extra = match &n {
                Node::Add(t, c) => format!("{:?}+{:#x}", t.iter().map(|x| x.1).collect::<Vec<_>>(), c),
                Node::Xor(_, c) => format!("^{:#x}", c),
                Node::Extract(_, lo) => format!("@{}", lo),
                _ => String::new(),
            };
            let nm = format!("{:?}", n);
            let nm = nm.split('(').next().unwrap().to_string();
            format!("{}{}:{}({})", nm, extra, width(e), ch.join(", "))
        }
    }
}
