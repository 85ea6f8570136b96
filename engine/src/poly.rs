//! Polynomials with integer coefficients over atoms; exponents may be negative (Laurent).
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::collections::BTreeMap;

pub type A = u32;
/// sorted by atom, exponents not zero
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Mono(pub Vec<(A, i64)>);
impl Mono {
    pub fn one() -> Mono {
        Mono(vec![])
    }
    pub fn var(a: A) -> Mono {
        Mono(vec![(a, 1)])
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let (a, b) = (&self.0, &o.0);
        let mut v = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || i < a.len() && a[i].0 < b[j].0 {
                v.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                v.push(b[j]);
                j += 1;
            } else {
                let e = a[i].1 + b[j].1;
                if e != 0 {
                    v.push((a[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        Mono(v)
    }
    pub fn inv(&self) -> Mono {
        Mono(self.0.iter().map(|(a, e)| (*a, -*e)).collect())
    }
    pub fn exp(&self, a: A) -> i64 {
        self.0.iter().find(|x| x.0 == a).map_or(0, |x| x.1)
    }
    pub fn degree(&self) -> i64 {
        self.0.iter().map(|x| x.1).sum()
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Poly(pub BTreeMap<Mono, BigInt>);
impl Poly {
    pub fn zero() -> Poly {
        Poly::default()
    }
    pub fn konst(c: BigInt) -> Poly {
        Poly::term(Mono::one(), c)
    }
    pub fn int(c: i64) -> Poly {
        Poly::konst(BigInt::from(c))
    }
    pub fn atom(a: A) -> Poly {
        Poly::term(Mono::var(a), BigInt::one())
    }
    pub fn term(m: Mono, c: BigInt) -> Poly {
        let mut p = Poly::zero();
        if !c.is_zero() {
            p.0.insert(m, c);
        }
        p
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<BigInt> {
        match self.0.len() {
            0 => Some(BigInt::zero()),
            1 => self.0.get(&Mono::one()).cloned(),
            _ => None,
        }
    }
    pub fn add_term(&mut self, m: Mono, c: &BigInt) {
        use std::collections::btree_map::Entry::*;
        if c.is_zero() {
            return;
        }
        match self.0.entry(m) {
            Vacant(v) => {
                v.insert(c.clone());
            }
            Occupied(mut o) => {
                *o.get_mut() += c;
                if o.get().is_zero() {
                    o.remove();
                }
            }
        }
    }
    pub fn add_scaled(&mut self, o: &Poly, k: &BigInt) {
        for (m, c) in &o.0 {
            self.add_term(m.clone(), &(c * k));
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        r.add_scaled(o, &BigInt::one());
        r
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        r.add_scaled(o, &BigInt::from(-1));
        r
    }
    pub fn scale(&self, k: &BigInt) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                r.add_term(m.mul(n), &(c * d));
            }
        }
        r
    }
    pub fn mul_mono(&self, n: &Mono) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.mul(n), c.clone())).collect())
    }
    /// coefficients mod p (0: as they are)
    pub fn modp(&self, p: &BigInt) -> Poly {
        if p.is_zero() {
            return self.clone();
        }
        let mut r = Poly::zero();
        for (m, c) in &self.0 {
            let k = c.mod_floor(p);
            if !k.is_zero() {
                r.0.insert(m.clone(), k);
            }
        }
        r
    }
    pub fn neg(&self) -> Poly {
        self.scale(&BigInt::from(-1))
    }
    pub fn atoms(&self) -> std::collections::BTreeSet<A> {
        self.0.keys().flat_map(|m| m.0.iter().map(|x| x.0)).collect()
    }
}
pub fn pow2(k: u32) -> BigInt {
    BigInt::one() << k
}
pub fn modinv(a: &BigInt, p: &BigInt) -> BigInt {
    // p prime
    a.mod_floor(p).modpow(&(p - 2), p)
}
/// coefficient of largest absolute value, in bits
pub fn bits(p: &Poly) -> u64 {
    p.0.values().map(|c| c.abs().bits()).max().unwrap_or(0)
}
