//! Contracts: the operations of the prime field as polynomials over declared elements, those of the
//! group as multiples of a declared point, and multiplication as addition of exponents. A function
//! named by --contract is replaced by its mathematical meaning when its operands are known values;
//! otherwise its code is executed.
use crate::exec::*;
use crate::expr::*;
use crate::poly::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Add,
    Sub,
    Double,
    Mult,
    Square,
    Inverse,
    Half,
    Reduce,
    Compare,
    Choose,
    GDouble,
    GAdd,
    GChoose,
    XMult,
    XSquare,
}
pub fn op(s: &str) -> Op {
    match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "double" => Op::Double,
        "mult" => Op::Mult,
        "square" => Op::Square,
        "inverse" => Op::Inverse,
        "half" => Op::Half,
        "reduce" => Op::Reduce,
        "compare" => Op::Compare,
        "choose" => Op::Choose,
        "gdouble" => Op::GDouble,
        "gadd" => Op::GAdd,
        "gchoose" => Op::GChoose,
        "xmult" => Op::XMult,
        "xsquare" => Op::XSquare,
        _ => panic!("unknown contract {}", s),
    }
}
thread_local! {
    pub static CONTRACTS: RefCell<Vec<(String, Op)>> = RefCell::new(vec![]);
}
type Key = Vec<E>;
#[derive(Default)]
pub struct FieldSpec {
    atoms: HashMap<E, A>,
    pub names: Vec<E>,
    val: HashMap<Key, Poly>,
    key: HashMap<Poly, Key>,
    nonzero: Vec<Poly>,
    bits: HashMap<Poly, E>,
    gval: HashMap<Key, Poly>,
    gkey: HashMap<Poly, Key>,
    xval: HashMap<Key, BigInt>,
    xkey: HashMap<BigInt, Key>,
    n: u32,
}
pub fn prime() -> BigInt {
    pow2(256) - pow2(224) + pow2(192) + pow2(96) - 1
}
pub type R<T> = Result<T, Stop>;

impl FieldSpec {
    fn atom(&mut self, e: E) -> A {
        let n = self.names.len() as A;
        *self.atoms.entry(e).or_insert_with(|| {
            self.names.push(e);
            n
        })
    }
    fn fresh_key(&mut self, n: usize, tag: &str) -> Key {
        self.n += 1;
        let k = self.n;
        (0..n).map(|i| new_var(format!("{}{}_{}", tag, k, i), 32, false)).collect()
    }
    /// value of eight limbs, if they are a known element
    fn value(&self, k: &Key) -> Option<Poly> {
        if let Some(c) = const_key(k) {
            return if c < prime() { Some(Poly::konst(c)) } else { None };
        }
        self.val.get(k).cloned()
    }
    /// any eight limbs, as a number mod p
    fn residue(&mut self, k: &Key) -> Poly {
        if let Some(p) = self.value(k) {
            return p;
        }
        let mut p = Poly::zero();
        for (i, e) in k.iter().enumerate() {
            let c = pow2(32 * i as u32);
            match as_const(*e) {
                Some(v) => p.add_scaled(&Poly::konst(BigInt::from(v)), &c),
                None => {
                    let a = self.atom(*e);
                    p.add_scaled(&Poly::atom(a), &c)
                }
            }
        }
        p.modp(&prime())
    }
    fn limbs(&mut self, p: &Poly) -> Key {
        if let Some(c) = p.as_const() {
            return key_of(&c, 8);
        }
        if let Some(k) = self.key.get(p) {
            return k.clone();
        }
        let k = self.fresh_key(8, "el");
        self.val.insert(k.clone(), p.clone());
        self.key.insert(p.clone(), k.clone());
        k
    }
    fn atom_nonzero(&self, a: A) -> bool {
        self.nonzero.iter().any(|p| *p == Poly::atom(a))
    }
    /// without factors that are known not to be zero, leading coefficient 1
    fn strip(&self, p: &Poly) -> Poly {
        let m = prime();
        let mut p = p.modp(&m);
        if p.is_zero() {
            return p;
        }
        loop {
            // common powers of atoms
            let mut f = Mono::one();
            for a in p.atoms() {
                if self.atom_nonzero(a) {
                    let e = p.0.keys().map(|k| k.exp(a)).min().unwrap();
                    if e != 0 {
                        f.0.push((a, -e));
                    }
                }
            }
            p = p.mul_mono(&f);
            let mut again = false;
            for d in &self.nonzero {
                if d.0.len() > 1 {
                    if let Some(q) = divide(&p, d, &m) {
                        p = q;
                        again = true;
                        break;
                    }
                }
            }
            if !again {
                break;
            }
        }
        let lead = p.0.values().next_back().unwrap().clone();
        p.scale(&modinv(&lead, &m)).modp(&m)
    }
    fn invert(&self, p: &Poly) -> Option<Poly> {
        let m = prime();
        if p.is_zero() {
            return Some(p.clone());
        }
        if p.0.len() != 1 {
            return None;
        }
        let (k, c) = p.0.iter().next().unwrap();
        if !k.0.iter().all(|x| self.atom_nonzero(x.0)) {
            return None;
        }
        Some(Poly::term(k.inv(), modinv(c, &m)))
    }
}
/// exact quotient mod m (no negative exponents in the divisor)
fn divide(p: &Poly, d: &Poly, m: &BigInt) -> Option<Poly> {
    let mut low = Mono::one();
    for a in p.atoms() {
        let e = p.0.keys().map(|k| k.exp(a)).min().unwrap().min(0);
        if e < 0 {
            low.0.push((a, -e));
        }
    }
    let mut r = p.mul_mono(&low);
    let mut q = Poly::zero();
    let lead = lex_lead;
    let (dm, dc) = lead(d)?;
    let ic = modinv(&dc, m);
    for _ in 0..3000 {
        if r.is_zero() {
            return Some(q.mul_mono(&low.inv()));
        }
        let (rm, rc) = lead(&r)?;
        let k = rm.mul(&dm.inv());
        if k.0.iter().any(|x| x.1 < 0) {
            return None;
        }
        let c = (rc * &ic).mod_floor(m);
        q.add_term(k.clone(), &c);
        r = r.sub(&d.mul_mono(&k).scale(&c)).modp(m);
    }
    None
}
/// leading term in lexicographic order (a monomial order)
fn lex_lead(x: &Poly) -> Option<(Mono, BigInt)> {
    let mut best: Option<(&Mono, &BigInt)> = None;
    for (k, c) in &x.0 {
        let better = match best {
            None => true,
            Some((b, _)) => {
                let q = k.mul(&b.inv());
                q.0.first().map_or(false, |t| t.1 > 0)
            }
        };
        if better {
            best = Some((k, c));
        }
    }
    best.map(|(k, c)| (k.clone(), c.clone()))
}
fn const_key(k: &Key) -> Option<BigInt> {
    let mut c = BigInt::zero();
    for e in k.iter().rev() {
        c = (c << 32) + BigInt::from(as_const(*e)?);
    }
    Some(c)
}
fn key_of(c: &BigInt, n: usize) -> Key {
    let mut v = vec![];
    let mut c = c.clone();
    for _ in 0..n {
        v.push(konst((&c & BigInt::from(0xffff_ffffu32)).to_u128().unwrap(), 32));
        c >>= 32;
    }
    v
}
impl Exec {
    fn limbs_at(&mut self, st: &mut State, v: &V, n: usize) -> R<Key> {
        let p = self.conc(st, v)? as u64;
        let b = self.read(st, p, 4 * n as u64)?;
        Ok(b.chunks(4).map(|c| concat(c.iter().rev().map(|x| self.sb_e(*x)).collect())).collect())
    }
    fn put(&mut self, st: &mut State, v: &V, k: &Key) -> R<()> {
        let p = self.conc(st, v)? as u64;
        let mut out = vec![];
        for e in k {
            for j in 0..4 {
                let x = byte_of(*e, j);
                out.push(match as_const(x) {
                    Some(c) => SB::C(c as u8),
                    None => SB::S(x),
                });
            }
        }
        self.write(st, p, &out)
    }
    fn flag(&mut self, st: &mut State, v: &V) -> R<Option<bool>> {
        match v {
            V::C(0) => Ok(Some(false)),
            V::C(1) => Ok(Some(true)),
            V::S(e) => {
                if umax(*e) > 1 {
                    return Ok(None);
                }
                let c = extract(*e, 0, 1);
                self.branch(st, c).map(Some)
            }
            _ => Ok(None),
        }
    }
    /// Ok(None): not applicable, run the code
    pub fn contract(&mut self, st: &mut State, o: Op, av: &[V]) -> R<Option<Option<V>>> {
        let m = prime();
        match o {
            Op::Add | Op::Sub | Op::Mult | Op::Double | Op::Square | Op::Inverse | Op::Half => {
                let ka = self.limbs_at(st, &av[1], 8)?;
                let a = match self.f.value(&ka) {
                    Some(a) => a,
                    None => return Ok(None),
                };
                let r = match o {
                    Op::Add | Op::Sub | Op::Mult => {
                        let kb = self.limbs_at(st, &av[2], 8)?;
                        let b = match self.f.value(&kb) {
                            Some(b) => b,
                            None => return Ok(None),
                        };
                        match o {
                            Op::Add => a.add(&b),
                            Op::Sub => a.sub(&b),
                            _ => {
                                if a.0.len() * b.0.len() > 200_000 {
                                    return Err(Stop::Unsup("field expression too large".into()));
                                }
                                a.mul(&b)
                            }
                        }
                    }
                    Op::Double => a.add(&a),
                    Op::Square => a.mul(&a),
                    Op::Half => a.scale(&modinv(&BigInt::from(2), &m)),
                    _ => match self.f.invert(&a) {
                        Some(r) => r,
                        None => return Err(Stop::Unsup("inverse of a sum".into())),
                    },
                };
                let k = self.f.limbs(&r.modp(&m));
                self.put(st, &av[0], &k)?;
                Ok(Some(None))
            }
            Op::Reduce => {
                let ka = self.limbs_at(st, &av[1], 8)?;
                let carry = match av.get(2) {
                    None | Some(V::C(0)) => false,
                    _ => return Ok(None),
                };
                let _ = carry;
                let r = self.f.residue(&ka);
                let k = self.f.limbs(&r);
                self.put(st, &av[0], &k)?;
                Ok(Some(None))
            }
            Op::Compare => {
                let (ka, kb) = (self.limbs_at(st, &av[0], 8)?, self.limbs_at(st, &av[1], 8)?);
                let (a, b) = match (self.f.value(&ka), self.f.value(&kb)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Ok(None),
                };
                let d = self.f.strip(&a.sub(&b));
                if let Some(c) = d.as_const() {
                    return Ok(Some(Some(V::C(!c.is_zero() as u128))));
                }
                let e = match self.f.bits.get(&d) {
                    Some(e) => *e,
                    None => {
                        let e = new_var(format!("nz{}", self.f.bits.len()), 1, false);
                        self.f.bits.insert(d, e);
                        e
                    }
                };
                Ok(Some(Some(Exec::from_e(zext(e, 32)))))
            }
            Op::Choose | Op::GChoose => {
                let n = if o == Op::Choose { 8 } else { 24 };
                let (ka, kb) = (self.limbs_at(st, &av[2], n)?, self.limbs_at(st, &av[3], n)?);
                if o == Op::GChoose {
                    if let V::S(f) = &av[1] {
                        let f = *f;
                        let (a, b) = match (self.gvalue(&ka), self.gvalue(&kb)) {
                            (Some(a), Some(b)) => (a, b),
                            _ => return Ok(None),
                        };
                        if umax(f) > 1 {
                            return Ok(None);
                        }
                        let t = self.f.atom(extract(f, 0, 1));
                        let r = a.add(&b.sub(&a).mul(&Poly::atom(t)));
                        let k = self.glimbs(&r);
                        self.put(st, &av[0], &k)?;
                        return Ok(Some(None));
                    }
                }
                let f = match self.flag(st, &av[1])? {
                    Some(f) => f,
                    None => return Ok(None),
                };
                let k = if f { kb } else { ka };
                self.put(st, &av[0], &k)?;
                Ok(Some(None))
            }
            Op::GDouble | Op::GAdd => {
                let ka = self.limbs_at(st, &av[1], 24)?;
                let kb = if o == Op::GAdd { self.limbs_at(st, &av[2], 24)? } else { ka.clone() };
                match (self.gvalue(&ka), self.gvalue(&kb)) {
                    (Some(a), Some(b)) => {
                        let k = self.glimbs(&a.add(&b));
                        self.put(st, &av[0], &k)?;
                        Ok(Some(None))
                    }
                    _ => Ok(None),
                }
            }
            Op::XMult | Op::XSquare => {
                let ka = self.limbs_at(st, &av[1], 8)?;
                let kb = if o == Op::XMult { self.limbs_at(st, &av[2], 8)? } else { ka.clone() };
                match (self.f.xval.get(&ka), self.f.xval.get(&kb)) {
                    (Some(a), Some(b)) => {
                        let r = a + b;
                        let k = match self.f.xkey.get(&r) {
                            Some(k) => k.clone(),
                            None => {
                                let k = self.f.fresh_key(8, "pw");
                                self.f.xval.insert(k.clone(), r.clone());
                                self.f.xkey.insert(r, k.clone());
                                k
                            }
                        };
                        self.put(st, &av[0], &k)?;
                        Ok(Some(None))
                    }
                    _ => Ok(None),
                }
            }
        }
    }
    fn gvalue(&self, k: &Key) -> Option<Poly> {
        // z is zero: the identity
        if k[16..].iter().all(|e| as_const(*e) == Some(0)) {
            return Some(Poly::zero());
        }
        self.f.gval.get(k).cloned()
    }
    fn glimbs(&mut self, p: &Poly) -> Key {
        if p.is_zero() {
            let mut k = key_of(&BigInt::one(), 8);
            k.extend(key_of(&BigInt::one(), 8));
            k.extend(key_of(&BigInt::zero(), 8));
            return k;
        }
        if let Some(k) = self.f.gkey.get(p) {
            return k.clone();
        }
        let k = self.f.fresh_key(24, "pt");
        self.f.gval.insert(k.clone(), p.clone());
        self.f.gkey.insert(p.clone(), k.clone());
        k
    }
}
pub fn sv(x: &mut Exec, st: &mut State, s: &str, av: &[V]) -> R<Option<Option<V>>> {
    match s {
        // any element: 32 bytes, little endian (1: big endian)
        "sv_elem" => {
            let p = x.conc(st, &av[0])? as u64;
            let be = x.conc(st, &av[1])? != 0;
            let v = x.fresh(32, "in");
            let sb: Vec<SB> = v.iter().map(|e| SB::S(*e)).collect();
            x.write(st, p, &sb)?;
            let mut le = v.clone();
            if be {
                le.reverse();
            }
            let k: Key = le.chunks(4).map(|c| concat(c.iter().rev().cloned().collect())).collect();
            let a = x.f.atom(k[0]);
            x.f.val.insert(k.clone(), Poly::atom(a));
            x.f.key.insert(Poly::atom(a), k);
            st.inputs.push(Input::Bytes(v));
            Ok(Some(None))
        }
        "sv_affine" => {
            let p = x.conc(st, &av[0])? as u64;
            for i in 0..2 {
                sv(x, st, "sv_elem", &[V::C((p + 32 * i) as u128), V::C(1)])?;
            }
            Ok(Some(None))
        }
        "sv_curve_point" => {
            let p = x.conc(st, &av[0])? as u64;
            let v = x.fresh(64, "in");
            st.inputs.push(Input::Bytes(v));
            let v = x.fresh(96, "cp");
            let sb: Vec<SB> = v.iter().map(|e| SB::S(*e)).collect();
            x.write(st, p, &sb)?;
            sv(x, st, "sv_group_base", &[av[0].clone()])
        }
        "sv_nonzero" => {
            let k = x.limbs_at(st, &av[0], 8)?;
            match x.f.value(&k) {
                Some(p) => {
                    let p = if p.0.len() == 1 { p } else { x.f.strip(&p) };
                    if p.is_zero() {
                        return Err(Stop::Assume);
                    }
                    if p.0.len() == 1 {
                        let m = p.0.keys().next().unwrap().clone();
                        for (a, _) in m.0 {
                            x.f.nonzero.push(Poly::atom(a));
                        }
                    } else {
                        x.f.nonzero.push(p);
                    }
                }
                None => return Err(Stop::Unsup("sv_nonzero of an unknown element".into())),
            }
            Ok(Some(None))
        }
        // the point all multiples refer to
        "sv_group_base" => {
            let k = x.limbs_at(st, &av[0], 24)?;
            let one = Poly::int(1);
            x.f.gval.clear();
            x.f.gkey.clear();
            x.f.gval.insert(k.clone(), one.clone());
            x.f.gkey.insert(one, k);
            Ok(Some(None))
        }
        // arguments: point, base, scalar, id
        "sv_group_check" => {
            let k = x.limbs_at(st, &av[0], 24)?;
            let n = x.limbs_at(st, &av[2], 8)?;
            let id = x.check_id(st, &av[3])?;
            let mut want = Poly::zero();
            for (i, e) in n.iter().enumerate() {
                for j in 0..32u16 {
                    let b = extract(*e, j, 1);
                    let t = match as_const(b) {
                        Some(c) => Poly::int(c as i64),
                        None => {
                            let a = x.f.atom(b);
                            Poly::atom(a)
                        }
                    };
                    want.add_scaled(&t, &pow2(32 * i as u32 + j as u32));
                }
            }
            match x.gvalue(&k) {
                Some(p) => {
                    // as multiples: equal for every value of the bits
                    let ok = p == want;
                    x.check(st, if ok { tru() } else { fals() }, &id)?;
                    x.proved += 1;
                }
                None => return Err(Stop::Unsup("not a known multiple".into())),
            }
            Ok(Some(None))
        }
        "sv_power_base" => {
            let k = x.limbs_at(st, &av[0], 8)?;
            x.f.xval.clear();
            x.f.xkey.clear();
            x.f.xval.insert(k.clone(), BigInt::one());
            x.f.xkey.insert(BigInt::one(), k);
            Ok(Some(None))
        }
        // arguments: result, base, id: base^(p-2)
        "sv_power_check" => {
            let k = x.limbs_at(st, &av[0], 8)?;
            let id = x.check_id(st, &av[2])?;
            match x.f.xval.get(&k).cloned() {
                Some(e) => {
                    // for every element but zero exponents count mod p-1; for zero they must not be 0
                    let q = prime() - 1;
                    let d: BigInt = &e - (&q - 1);
                    let ok = e.is_positive() && d.mod_floor(&q).is_zero();
                    x.check(st, if ok { tru() } else { fals() }, &id)?;
                    x.proved += 1;
                }
                None => return Err(Stop::Unsup("not a known power".into())),
            }
            Ok(Some(None))
        }
        "sv_mac_check" => crate::mac::sv_mac_check(x, st, av).map(|_| Some(None)),
        // arguments: result, two elements, id
        "sv_product_check" => {
            let k = x.limbs_at(st, &av[0], 8)?;
            let (a, b) = (x.limbs_at(st, &av[1], 8)?, x.limbs_at(st, &av[2], 8)?);
            let id = x.check_id(st, &av[3])?;
            let r = match x.f.value(&k) {
                Some(r) => r,
                None => return Err(Stop::Unsup("not a known element".into())),
            };
            let ok = x.same_product(&r, &a, &b);
            x.check(st, if ok { tru() } else { fals() }, &id)?;
            x.proved += 1;
            Ok(Some(None))
        }
        _ => Ok(None),
    }
}
impl Exec {
    /// r (over 32-bit terms) is a * b mod p
    fn same_product(&mut self, r: &Poly, a: &Key, b: &Key) -> bool {
        let m = prime();
        let mut d = Poly::zero();
        for (n, c) in &r.0 {
            let mut t = Poly::int(1);
            for (v, e) in &n.0 {
                let w = self.ints.int(self.f.names[*v as usize]).p;
                for _ in 0..*e {
                    t = t.mul(&w);
                }
            }
            d.add_scaled(&t, c);
        }
        for i in 0..8 {
            for j in 0..8 {
                let (x, y) = (self.ints.int(a[i]), self.ints.int(b[j]));
                let t = self.ints.times(&x, &y);
                d.add_scaled(&t.p, &-pow2(32 * (i + j) as u32));
            }
        }
        let left = d.modp(&m);
        if std::env::var_os("SV_INTS").is_some() {
            eprintln!("LEFT {} of {}: {}", left.0.len(), d.0.len(), self.ints.show(&left));
        }
        // what does not cancel must be zero
        left.0.keys().all(|n| self.ints.bounded(&Poly::term(n.clone(), BigInt::one()), &BigInt::zero(), &BigInt::zero()))
    }
}
