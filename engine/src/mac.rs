//! The one-time authenticator against its definition: the tag is (f + s) mod 2^128, where
//! f = ((m1 r + m2) r + ...) r mod 2^130-5, for every message, r and s.
use crate::exec::*;
use crate::expr::*;
use crate::field::R;
use crate::ints::*;
use crate::poly::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::{BTreeSet, HashMap};

fn log() -> bool {
    std::env::var_os("SV_INTS").is_some()
}
/// k with sum k_i v_i = want (mod m), if there is one
fn combine(v: &[Poly], want: &Poly, m: &BigInt) -> Option<Vec<BigInt>> {
    let mut monos: BTreeSet<Mono> = want.0.keys().cloned().collect();
    for p in v {
        monos.extend(p.0.keys().cloned());
    }
    let n = v.len();
    let zero = BigInt::zero();
    let mut rows: Vec<Vec<BigInt>> = monos
        .iter()
        .map(|k| v.iter().chain(std::iter::once(want)).map(|p| p.0.get(k).unwrap_or(&zero).mod_floor(m)).collect())
        .collect();
    let mut at = vec![None; n];
    let mut top = 0;
    for c in 0..n {
        let i = match (top..rows.len()).find(|i| !rows[*i][c].is_zero()) {
            Some(i) => i,
            None => continue,
        };
        rows.swap(top, i);
        let k = modinv(&rows[top][c], m);
        let pivot: Vec<BigInt> = rows[top].iter().map(|x| (x * &k).mod_floor(m)).collect();
        for (j, r) in rows.iter_mut().enumerate() {
            if j != top && !r[c].is_zero() {
                let f = r[c].clone();
                for (x, y) in r.iter_mut().zip(&pivot) {
                    *x = (&*x - &f * y).mod_floor(m);
                }
            }
        }
        rows[top] = pivot;
        at[c] = Some(top);
        top += 1;
    }
    if rows[top..].iter().any(|r| !r[n].is_zero()) {
        return None;
    }
    Some(at.iter().map(|r| r.map_or(BigInt::zero(), |r| rows[r][n].clone())).collect())
}
fn symmetric(c: &BigInt, m: &BigInt) -> BigInt {
    let r = c.mod_floor(m);
    if &r * 2 > *m {
        r - m
    } else {
        r
    }
}
impl Exec {
    fn mac_holds(&mut self, tag: &[E], msg: &[E], r: &[E], s: &[E]) -> Result<(), String> {
        let p = pow2(130) - 5;
        let t128 = pow2(128);
        let int = |x: &mut Exec, b: &[E]| x.ints.int(concat(b.iter().rev().cloned().collect())).p;
        let (mut t, s) = (int(self, tag), int(self, s));
        let none = HashMap::new();
        // r, clamped
        let clamped: Vec<E> = r
            .iter()
            .enumerate()
            .map(|(i, e)| match i {
                3 | 7 | 11 | 15 => and(*e, konst(15, 8)),
                4 | 8 | 12 => and(*e, konst(252, 8)),
                _ => *e,
            })
            .collect();
        let rp = int(self, &clamped);
        let rvars: BTreeSet<u32> = r.iter().flat_map(|e| support(*e).iter().cloned().collect::<Vec<_>>()).collect();
        let mut subst = HashMap::new();
        let mut keep = BTreeSet::new();
        let rr = match rp.as_const() {
            Some(c) => Poly::konst(c),
            None => {
                // the factors made of r alone
                let mut parts = vec![];
                for a in 0..self.ints.atoms.len() as A {
                    if let Atom::Def(d) = &self.ints.atoms[a as usize] {
                        let d = d.clone();
                        if self.made_of(&d, &rvars) {
                            parts.push((a, d));
                        }
                    }
                }
                let v: Vec<Poly> = parts.iter().map(|x| x.1.clone()).collect();
                if v.is_empty() {
                    // nothing was multiplied
                    rp.clone()
                } else {
                    let k = combine(&v, &rp, &p).ok_or("the factors do not make up r")?;
                    let i = k.iter().position(|c| !c.is_zero()).ok_or("the factors do not make up r")?;
                    let sym = self.ints.sym("r");
                    let mut d = Poly::atom(sym);
                    for (j, c) in k.iter().enumerate() {
                        if j != i {
                            d.add_scaled(&Poly::atom(parts[j].0), &-c);
                        }
                    }
                    // parts of r that were multiplied by a constant: exactly, as the same factors
                    for (a, d) in &parts {
                        let one = d.0.iter().find(|(n, c)| n.0.len() == 1 && n.0[0].1 == 1 && c.is_one() && t.0.contains_key(*n));
                        if let Some((n, _)) = one {
                            let mut rest = Poly::atom(*a).sub(d);
                            rest.add_term(n.clone(), &BigInt::one());
                            let q = replace(&t, n.0[0].0, &rest, &BigInt::zero());
                            if q.0.len() < t.0.len() {
                                t = q;
                                self.ints.linked.insert(*a);
                            }
                        }
                    }
                    subst.insert(parts[i].0, d.scale(&modinv(&k[i], &p)).modp(&p));
                    keep.extend(parts.iter().map(|x| x.0));
                    Poly::atom(sym)
                }
            }
        };
        keep.extend(self.ints.bools.iter().cloned());
        let mut want = Poly::zero();
        for b in msg.chunks(16) {
            let mut m = int(self, b);
            m.add_term(Mono::one(), &pow2(8 * b.len() as u32));
            want = want.add(&m).mul(&rr).modp(&p);
        }
        let want = self.ints.expand(&want, &p, &none, &keep).ok_or("")?;
        // the tag before s, mod 2^128
        let mut f = Poly::zero();
        for (n, c) in &t.sub(&s).0 {
            f.add_term(n.clone(), &symmetric(c, &t128));
        }
        let k = modinv(&t128, &p);
        for turn in 0..2 {
            let left = self.ints.expand(&f, &p, &subst, &keep).ok_or("")?.sub(&want).modp(&p);
            if log() {
                eprintln!("F {} LEFT {}: {}", f.0.len(), left.0.len(), self.ints.show(&left));
            }
            if left.is_zero() {
                break;
            }
            if turn == 1 {
                return Err(format!("{} terms do not cancel", left.0.len()));
            }
            // a multiple of 2^128 the tag does not show
            for (n, c) in &left.0 {
                f.add_term(n.clone(), &(symmetric(&(-c * &k), &p) * &t128));
            }
        }
        if !self.ints.bounded(&f, &BigInt::zero(), &(&p - BigInt::one())) {
            if self.ints.undecided {
                return Err(String::new());
            }
            return Err("the sum is not reduced completely".into());
        }
        Ok(())
    }
    fn made_of(&self, p: &Poly, vars: &BTreeSet<u32>) -> bool {
        p.atoms().iter().all(|a| match &self.ints.atoms[*a as usize] {
            Atom::Opaque(e) => support(*e).iter().all(|v| vars.contains(v)),
            Atom::Quot(q, _) | Atom::Def(q) => self.made_of(q, vars),
            Atom::Sym(_) => false,
        })
    }
}
// numbers of 32-bit digits, each in a 64-bit term
fn digits(b: &[E], n: usize) -> Vec<E> {
    (0..n)
        .map(|i| match b.chunks(4).nth(i) {
            Some(c) => zext(concat(c.iter().rev().cloned().collect()), 64),
            None => konst(0, 64),
        })
        .collect()
}
fn carry(v: Vec<E>) -> Vec<E> {
    let (mut c, mut out) = (konst(0, 64), vec![]);
    for d in v {
        let t = add(d, c);
        out.push(and(t, konst(0xffff_ffff, 64)));
        c = lshr_c(t, 32);
    }
    out
}
fn plus(a: &[E], b: &[E]) -> Vec<E> {
    carry(a.iter().zip(b).map(|(x, y)| add(*x, *y)).collect())
}
fn times(a: &[E], k: &BigInt) -> Vec<E> {
    let n = a.len();
    let mut sum = vec![konst(0, 64); n];
    for b in (0..k.bits()).filter(|b| k.bit(*b)) {
        let (d, o) = (b as usize / 32, b as u16 % 32);
        let mut t = vec![konst(0, 64); d];
        t.extend(a.iter().take(n - d).map(|x| shl_c(*x, o)));
        sum = plus(&sum, &carry(t));
    }
    sum
}
/// 1 where the tag is right, for a constant r, by the definition with the quotient as one more
/// unknown: sum + 5q = 2^130 q + f, f < p
fn right(x: &mut Exec, tag: &[E], msg: &[E], r: &BigInt, s: &[E]) -> E {
    let p = pow2(130) - 5;
    let blocks: Vec<&[E]> = msg.chunks(16).collect();
    let mut power = r.clone();
    let mut terms = vec![];
    for b in blocks.iter().rev() {
        terms.push((*b, power.clone()));
        power = (&power * r).mod_floor(&p);
    }
    let bits = 134 + terms.iter().map(|t| t.1.bits()).max().unwrap_or(0) as usize;
    let n = bits / 32 + 2;
    let mut sum = vec![konst(0, 64); n];
    for (b, k) in terms {
        let mut b = b.to_vec();
        b.push(konst(1, 8));
        sum = plus(&sum, &times(&digits(&b, n), &k));
    }
    let q = x.fresh((bits as u64 - 129 + 7) / 8, "q");
    let f = x.fresh(17, "f");
    let (q, fd) = (digits(&q, n), digits(&f, n));
    let l = plus(&sum, &times(&q, &BigInt::from(5)));
    let g = plus(&times(&q, &pow2(130)), &fd);
    let mut ok = tru();
    for (a, b) in l.iter().zip(&g) {
        ok = and(ok, eq(*a, *b));
    }
    // f < p: f + 5 < 2^130
    let mut five = vec![konst(0, 64); n];
    five[0] = konst(5, 64);
    let over = plus(&fd, &five);
    ok = and(ok, eq(lshr_c(over[4], 2), konst(0, 64)));
    for d in &over[5..] {
        ok = and(ok, eq(*d, konst(0, 64)));
    }
    let t = plus(&fd[..4], &digits(s, 4));
    let mut same = tru();
    for (a, b) in t.iter().zip(&digits(tag, 4)) {
        same = and(same, eq(*a, *b));
    }
    or(not(ok), same)
}
/// arguments: tag, message, length, r, s, id
pub fn sv_mac_check(x: &mut Exec, st: &mut State, av: &[V]) -> R<()> {
    let n = x.conc(st, &av[2])? as u64;
    let mut get = |i: usize, n: u64| -> R<Vec<E>> {
        let p = x.conc(st, &av[i])? as u64;
        Ok(x.read(st, p, n)?.iter().map(|b| x.sb_e(*b)).collect())
    };
    let (tag, r, s) = (get(0, 16)?, get(3, 16)?, get(4, 16)?);
    let msg = if n > 0 { get(1, n)? } else { vec![] };
    let id = x.check_id(st, &av[5])?;
    match x.mac_holds(&tag, &msg, &r, &s) {
        Ok(()) => {
            x.proved += 1;
            x.check(st, tru(), &id)
        }
        // with a constant r, ask for a message on which the bits of the tag differ
        Err(_) if r.iter().all(|b| as_const(*b).is_some()) => {
            let clamp = BigInt::parse_bytes(b"0ffffffc0ffffffc0ffffffc0fffffff", 16).unwrap();
            let r: Vec<u8> = r.iter().map(|b| as_const(*b).unwrap() as u8).collect();
            let r = BigInt::from_bytes_le(num_bigint::Sign::Plus, &r) & clamp;
            let c = right(x, &tag, &msg, &r, &s);
            x.check(st, c, &id)
        }
        Err(why) if why.is_empty() => {
            x.unknowns.push(format!("{}: no answer from the solver", id));
            Ok(())
        }
        Err(why) => {
            let mut m = {
                let old = st.model.borrow();
                let mut m = Model::new(old.seed);
                m.vars = old.vars.clone();
                m.calls = old.calls.clone();
                m
            };
            for (e, v) in &x.ints.refuted {
                if let (Node::Var(i), Some(v)) = (node(*e), v.to_u128()) {
                    m.vars.insert(*i, v);
                }
            }
            st.model = std::rc::Rc::new(std::cell::RefCell::new(m));
            Err(Stop::Viol(id, why))
        }
    }
}
