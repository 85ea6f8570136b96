//! Bit-vector terms read as integers: linear sums over products, with a quotient atom for every cut.
//! Where the bit-vector solver cannot cope (products of unknowns), an assertion becomes an identity
//! between polynomials (mod a prime) and a question of bounds in linear integer arithmetic for Z3.
use crate::exec::*;
use crate::expr::*;
use crate::poly::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub enum Atom {
    Opaque(E),
    /// floor(p / 2^k)
    Quot(Poly, u32),
    /// equal to p
    Def(Poly),
    Sym(String),
}
#[derive(Clone)]
pub struct T {
    pub p: Poly,
    pub lo: BigInt,
    pub hi: BigInt,
}
/// what is known of polynomials over atoms
pub enum Fact {
    Range(Poly, BigInt, BigInt),
    /// the atom is 1 exactly when the first is less than (or equal to) the second
    Less(A, Poly, Poly),
    Same(A, Poly, Poly),
}
#[derive(Default)]
pub struct Ints {
    pub atoms: Vec<Atom>,
    memo: HashMap<E, T>,
    opaque: HashMap<E, A>,
    quot: HashMap<(Poly, u32), A>,
    def: HashMap<Poly, A>,
    facts: Vec<Fact>,
    /// atoms that are 0 or 1
    pub bools: BTreeSet<A>,
    /// definitions that bounds need to see through
    pub linked: BTreeSet<A>,
    /// the last bound was neither proved nor refuted
    pub undecided: bool,
    seen: std::collections::HashSet<(Poly, BigInt, BigInt)>,
    pub queries: u64,
    pub unsat: u64,
    pub time: f64,
    /// values for single variables from the last refuted bound
    pub refuted: Vec<(E, BigInt)>,
}
fn big(v: u128) -> BigInt {
    BigInt::from(v)
}
fn product_range(a: &T, b: &T) -> (BigInt, BigInt) {
    let c = [&a.lo * &b.lo, &a.lo * &b.hi, &a.hi * &b.lo, &a.hi * &b.hi];
    (c.iter().min().unwrap().clone(), c.iter().max().unwrap().clone())
}
impl Ints {
    fn new_atom(&mut self, a: Atom) -> A {
        self.atoms.push(a);
        self.atoms.len() as A - 1
    }
    pub fn sym(&mut self, s: &str) -> A {
        self.new_atom(Atom::Sym(s.into()))
    }
    fn opaque(&mut self, e: E) -> T {
        let a = match self.opaque.get(&e) {
            Some(a) => *a,
            None => {
                let a = self.new_atom(Atom::Opaque(e));
                self.opaque.insert(e, a);
                a
            }
        };
        self.ranged(Poly::atom(a), big(umin(e)), big(umax(e)))
    }
    fn ranged(&mut self, p: Poly, lo: BigInt, hi: BigInt) -> T {
        if p.as_const().is_none() {
            let k = (p.clone(), lo.clone(), hi.clone());
            if self.seen.insert(k) {
                self.facts.push(Fact::Range(p.clone(), lo.clone(), hi.clone()));
            }
        }
        T { p, lo, hi }
    }
    /// floor(p / 2^k)
    pub fn quot(&mut self, p: &Poly, k: u32) -> Poly {
        if k == 0 {
            return p.clone();
        }
        // one side of a choice or the other
        if let Some(b) = p.0.keys().filter(|n| n.0.len() > 1).flat_map(|n| n.0.iter()).map(|x| x.0).find(|a| self.bools.contains(a)) {
            let (mut off, mut on) = (Poly::zero(), Poly::zero());
            for (n, c) in &p.0 {
                let rest = Mono(n.0.iter().filter(|x| x.0 != b).cloned().collect());
                if n.exp(b) == 0 {
                    off.add_term(rest.clone(), c);
                }
                on.add_term(rest, c);
            }
            let (x, y) = (self.quot(&off, k), self.quot(&on, k));
            return x.add(&Poly::atom(b).mul(&y.sub(&x)));
        }
        let m = pow2(k);
        let (mut whole, mut rest) = (Poly::zero(), Poly::zero());
        for (n, c) in &p.0 {
            let (d, r) = c.div_mod_floor(&m);
            whole.add_term(n.clone(), &d);
            rest.add_term(n.clone(), &r);
        }
        if rest.as_const().is_some() {
            return whole;
        }
        // a common power of two
        let mut j = k;
        for (n, c) in &rest.0 {
            if !n.0.is_empty() {
                j = j.min(c.trailing_zeros().unwrap_or(0) as u32);
            }
        }
        let mut k = k;
        if j > 0 {
            let d = pow2(j);
            rest = Poly(rest.0.iter().map(|(n, c)| (n.clone(), c.div_floor(&d))).filter(|x| !x.1.is_zero()).collect());
            k -= j;
        }
        // the quotient of a quotient
        while rest.0.len() == 1 {
            let (n, c) = rest.0.iter().next().unwrap();
            if !c.is_one() || n.0.len() != 1 || n.0[0].1 != 1 {
                break;
            }
            match &self.atoms[n.0[0].0 as usize] {
                Atom::Quot(q, i) => {
                    k += i;
                    rest = q.clone();
                }
                _ => break,
            }
        }
        let key = (rest, k);
        let a = match self.quot.get(&key) {
            Some(a) => *a,
            None => {
                let a = self.new_atom(Atom::Quot(key.0.clone(), k));
                let mut d = key.0.clone();
                d.add_scaled(&Poly::atom(a), &-pow2(k));
                self.facts.push(Fact::Range(d, BigInt::zero(), pow2(k) - 1));
                self.quot.insert(key, a);
                a
            }
        };
        whole.add_term(Mono::var(a), &BigInt::one());
        whole
    }
    fn wrap(&mut self, p: Poly, lo: BigInt, hi: BigInt, w: u32) -> T {
        let m = pow2(w);
        let (a, b) = (lo.div_floor(&m), hi.div_floor(&m));
        if a == b {
            let q = p.sub(&Poly::konst(&a * &m));
            return self.ranged(q, lo - &a * &m, hi - &a * &m);
        }
        let q = self.quot(&p, w);
        let mut r = p;
        r.add_scaled(&q, &-&m);
        self.ranged(r, BigInt::zero(), m - 1)
    }
    fn cut(&mut self, t: &T, lo: u32, w: u32) -> T {
        let x = self.quot(&t.p, lo);
        let (l, h) = (t.lo.div_floor(&pow2(lo)), t.hi.div_floor(&pow2(lo)));
        if l >= BigInt::zero() && h < pow2(w) {
            return self.ranged(x, l, h);
        }
        let y = self.quot(&t.p, lo + w);
        let mut r = x;
        r.add_scaled(&y, &-pow2(w));
        self.ranged(r, BigInt::zero(), pow2(w) - 1)
    }
    /// a factor: content and one atom (or a constant)
    pub fn factor(&mut self, t: &T) -> T {
        if t.p.as_const().is_some() {
            return t.clone();
        }
        let mut g = BigInt::zero();
        for c in t.p.0.values() {
            g = g.gcd(c);
        }
        if t.p.0.len() == 1 && t.p.0.keys().next().unwrap().0.len() == 1 {
            if g.is_one() && t.lo.is_zero() && t.hi.is_one() {
                self.bools.insert(t.p.0.keys().next().unwrap().0[0].0);
            }
            return t.clone();
        }
        let p = Poly(t.p.0.iter().map(|(n, c)| (n.clone(), c / &g)).collect());
        let a = match self.def.get(&p) {
            Some(a) => *a,
            None => {
                let a = self.new_atom(Atom::Def(p.clone()));
                self.def.insert(p, a);
                a
            }
        };
        let (lo, hi) = (t.lo.div_ceil(&g), t.hi.div_floor(&g));
        if lo.is_zero() && hi.is_one() {
            self.bools.insert(a);
        }
        self.ranged(Poly::atom(a), lo, hi);
        T { p: Poly::term(Mono::var(a), g), lo: t.lo.clone(), hi: t.hi.clone() }
    }
    pub fn times(&mut self, a: &T, b: &T) -> T {
        let (x, y) = (self.factor(a), self.factor(b));
        let (lo, hi) = product_range(a, b);
        let p = x.p.mul(&y.p);
        self.ranged(p, lo, hi)
    }
    pub fn int(&mut self, e: E) -> T {
        if let Some(t) = self.memo.get(&e) {
            return t.clone();
        }
        let t = self.int1(e);
        self.memo.insert(e, t.clone());
        t
    }
    fn int1(&mut self, e: E) -> T {
        let w = width(e) as u32;
        if let Some(c) = as_const(e) {
            return T { p: Poly::konst(big(c)), lo: big(c), hi: big(c) };
        }
        match node(e) {
            Node::Add(ts, c) => {
                let c = *c;
                let signed = |k: u128| -> BigInt {
                    if w > 1 && (k >> (w - 1)) & 1 == 1 {
                        big(k) - pow2(w)
                    } else {
                        big(k)
                    }
                };
                let mut p = Poly::konst(signed(c));
                let (mut lo, mut hi) = (signed(c), signed(c));
                for (t, k) in ts.iter() {
                    let x = self.int(*t);
                    let k = signed(*k);
                    p.add_scaled(&x.p, &k);
                    if k.is_positive() {
                        lo += &k * &x.lo;
                        hi += &k * &x.hi;
                    } else {
                        lo += &k * &x.hi;
                        hi += &k * &x.lo;
                    }
                }
                self.wrap(p, lo, hi, w)
            }
            Node::Mul(a, b) => {
                let (x, y) = (self.int(*a), self.int(*b));
                let t = self.times(&x, &y);
                self.wrap(t.p, t.lo, t.hi, w)
            }
            Node::Concat(ps) => {
                let mut p = Poly::zero();
                let (mut lo, mut hi) = (BigInt::zero(), BigInt::zero());
                let mut off = w;
                for x in ps.iter() {
                    off -= width(*x) as u32;
                    let t = self.int(*x);
                    p.add_scaled(&t.p, &pow2(off));
                    lo += t.lo << off;
                    hi += t.hi << off;
                }
                self.ranged(p, lo, hi)
            }
            Node::Extract(a, lo) => {
                let t = self.int(*a);
                self.cut(&t, *lo as u32, w)
            }
            Node::And(a, b) => {
                if w == 1 {
                    let (x, y) = (self.int(*a), self.int(*b));
                    return self.times(&x, &y);
                }
                for (x, y) in [(*a, *b), (*b, *a)] {
                    if let Some((c, on)) = select(y) {
                        let (t, f) = (self.int(x), self.int(c));
                        let f = self.factor(&f).p;
                        let f = if on { f } else { Poly::int(1).sub(&f) };
                        return self.ranged(t.p.mul(&f), BigInt::zero(), t.hi);
                    }
                }
                let (x, m) = match (as_const(*a), as_const(*b)) {
                    (_, Some(m)) => (*a, m),
                    (Some(m), _) => (*b, m),
                    _ => return self.opaque(e),
                };
                let t = self.int(x);
                let mut p = Poly::zero();
                let mut hi = BigInt::zero();
                let mut i = 0;
                while i < w {
                    if (m >> i) & 1 == 0 {
                        i += 1;
                        continue;
                    }
                    let mut j = i;
                    while j < w && (m >> j) & 1 == 1 {
                        j += 1;
                    }
                    let c = self.cut(&t, i, j - i);
                    p.add_scaled(&c.p, &pow2(i));
                    hi += c.hi << i;
                    i = j;
                }
                self.ranged(p, BigInt::zero(), hi)
            }
            Node::Or(a, b) if w == 1 => {
                let (x, y) = (self.int(*a), self.int(*b));
                let t = self.times(&x, &y);
                let p = x.p.add(&y.p).sub(&t.p);
                self.ranged(p, BigInt::zero(), BigInt::one())
            }
            Node::Or(a, b) if opposite(*a, *b) => {
                let (x, y) = (self.int(*a), self.int(*b));
                self.ranged(x.p.add(&y.p), BigInt::zero(), x.hi.max(y.hi))
            }
            Node::Or(a, b) => {
                // no bit in common, as one of them is zero
                let (x, y) = (self.int(*a), self.int(*b));
                let z = BigInt::zero();
                if self.bounded(&x.p, &z, &z) {
                    return y;
                }
                if self.bounded(&y.p, &z, &z) {
                    return x;
                }
                self.opaque(e)
            }
            Node::Xor(es, k) => {
                if w == 1 {
                    let mut p = Poly::konst(big(*k));
                    for x in es.iter() {
                        let t = self.int(*x);
                        let a = T { p: p.clone(), lo: BigInt::zero(), hi: BigInt::one() };
                        let m = self.times(&a, &t);
                        p = p.add(&t.p);
                        p.add_scaled(&m.p, &BigInt::from(-2));
                    }
                    return self.ranged(p, BigInt::zero(), BigInt::one());
                }
                if es.len() == 1 && *k == mask(w as u16) {
                    let t = self.int(es[0]);
                    let m: BigInt = pow2(w) - 1;
                    let p = Poly::konst(m.clone()).sub(&t.p);
                    return self.ranged(p, &m - t.hi, &m - t.lo);
                }
                self.opaque(e)
            }
            Node::SExt(a) => {
                let t = self.int(*a);
                let v = width(*a) as u32;
                let top = self.quot(&t.p, v - 1);
                let mut p = t.p.clone();
                p.add_scaled(&top, &(pow2(w) - pow2(v)));
                let (lo, hi) = if t.hi < pow2(v - 1) { (t.lo, t.hi) } else { (BigInt::zero(), pow2(w) - 1) };
                self.ranged(p, lo, hi)
            }
            Node::Ite(c, a, b) => {
                let (x, y) = (self.int(*a), self.int(*b));
                let f = self.int(*c);
                let f = self.factor(&f);
                let p = y.p.add(&f.p.mul(&x.p.sub(&y.p)));
                self.ranged(p, x.lo.min(y.lo), x.hi.max(y.hi))
            }
            Node::Eq(a, b) => {
                let (a, b) = (*a, *b);
                let t = self.opaque(e);
                let (x, y) = (self.int(a), self.int(b));
                let n = t.p.0.keys().next().unwrap().0[0].0;
                self.facts.push(Fact::Same(n, x.p, y.p));
                t
            }
            Node::Ult(a, b) => {
                let (a, b) = (*a, *b);
                // the carry of a sum
                if let Node::Add(ts, _) = node(a) {
                    if ts.iter().any(|x| x.0 == b && x.1 == 1) {
                        let (y, z) = (self.int(b), self.int(sub(a, b)));
                        let q = self.quot(&y.p.add(&z.p), width(a) as u32);
                        return self.ranged(q, BigInt::zero(), BigInt::one());
                    }
                }
                let t = self.opaque(e);
                let (x, y) = (self.int(a), self.int(b));
                let n = t.p.0.keys().next().unwrap().0[0].0;
                self.facts.push(Fact::Less(n, x.p, y.p));
                t
            }
            _ => self.opaque(e),
        }
    }
    /// with every definition in its place, coefficients mod m; None: too large
    pub fn expand(&mut self, p: &Poly, m: &BigInt, subst: &HashMap<A, Poly>, keep: &BTreeSet<A>) -> Option<Poly> {
        let mut p = p.modp(m);
        loop {
            // the newest definition first: older ones do not mention it
            let mut best: Option<A> = None;
            for a in p.atoms() {
                if subst.contains_key(&a) {
                    best = Some(a);
                    break;
                }
                if !keep.contains(&a) && matches!(self.atoms[a as usize], Atom::Def(_)) {
                    best = best.max(Some(a));
                }
            }
            let a = match best {
                None => return Some(p),
                Some(a) => a,
            };
            let d = match subst.get(&a) {
                Some(d) => d.clone(),
                None => match &self.atoms[a as usize] {
                    Atom::Def(d) => d.clone(),
                    _ => unreachable!(),
                },
            };
            p = replace(&p, a, &d, m);
            if p.0.len() > 100_000 {
                return None;
            }
        }
    }
    /// lo <= p <= hi follows from the facts (by linear arithmetic)
    pub fn bounded(&mut self, p: &Poly, lo: &BigInt, hi: &BigInt) -> bool {
        if let Some(c) = p.as_const() {
            return c >= *lo && c <= *hi;
        }
        let mut vars: BTreeMap<Mono, usize> = BTreeMap::new();
        let mut todo: Vec<Mono> = p.0.keys().cloned().collect();
        let mut atoms: BTreeSet<A> = BTreeSet::new();
        // what the question mentions, and what that is made of
        let mut related: Vec<bool> = vec![false; self.facts.len()];
        let mut by_atom: HashMap<A, Vec<usize>> = HashMap::new();
        for (i, f) in self.facts.iter().enumerate() {
            match f {
                Fact::Less(a, ..) | Fact::Same(a, ..) => by_atom.entry(*a).or_default().push(i),
                _ => {}
            }
        }
        loop {
            while let Some(n) = todo.pop() {
                if n.0.is_empty() || vars.contains_key(&n) {
                    continue;
                }
                let k = vars.len();
                vars.insert(n.clone(), k);
                if n.0.len() > 1 {
                    if let Some(b) = n.0.iter().find(|x| self.bools.contains(&x.0)) {
                        todo.push(Mono::var(b.0));
                        todo.push(Mono(n.0.iter().filter(|x| x.0 != b.0).cloned().collect()));
                    }
                }
                for (a, _) in &n.0 {
                    if self.bools.contains(a) || self.linked.contains(a) {
                        if let Atom::Def(d) = &self.atoms[*a as usize] {
                            todo.extend(d.0.keys().cloned());
                        }
                    }
                    if !atoms.insert(*a) {
                        continue;
                    }
                    if let Atom::Quot(q, _) = &self.atoms[*a as usize] {
                        todo.extend(q.0.keys().cloned());
                    }
                    for i in by_atom.get(a).into_iter().flatten() {
                        if !related[*i] {
                            related[*i] = true;
                            if let Fact::Less(_, x, y) | Fact::Same(_, x, y) = &self.facts[*i] {
                                todo.extend(x.0.keys().cloned());
                                todo.extend(y.0.keys().cloned());
                            }
                        }
                    }
                }
            }
            for (i, f) in self.facts.iter().enumerate() {
                if let Fact::Range(q, ..) = f {
                    related[i] = q.0.keys().all(|n| n.0.is_empty() || vars.contains_key(n));
                }
            }
            if todo.is_empty() {
                break;
            }
        }
        let num = |c: &BigInt| if c.is_negative() { format!("(- {})", -c) } else { c.to_string() };
        let sum = |p: &Poly| -> String {
            let mut s = String::from("(+ 0 0");
            for (n, c) in &p.0 {
                if n.0.is_empty() {
                    s += &format!(" {}", num(c));
                } else {
                    s += &format!(" (* {} x{})", num(c), vars[n]);
                }
            }
            s + ")"
        };
        let mut q = String::from("(set-option :timeout 20000)\n(set-logic QF_LIA)\n");
        for i in 0..vars.len() {
            q += &format!("(declare-const x{} Int)\n", i);
        }
        for (i, f) in self.facts.iter().enumerate() {
            if !related[i] {
                continue;
            }
            match f {
                Fact::Range(p, lo, hi) => q += &format!("(assert (<= {} {}))\n(assert (<= {} {}))\n", num(lo), sum(p), sum(p), num(hi)),
                Fact::Less(a, x, y) => {
                    if let Some(v) = vars.get(&Mono::var(*a)) {
                        q += &format!("(assert (= (= x{} 1) (< {} {})))\n", v, sum(x), sum(y));
                    }
                }
                Fact::Same(a, x, y) => {
                    if let Some(v) = vars.get(&Mono::var(*a)) {
                        q += &format!("(assert (= (= x{} 1) (= {} {})))\n", v, sum(x), sum(y));
                    }
                }
            }
        }
        for (n, i) in &vars {
            if n.0.len() == 1 && self.linked.contains(&n.0[0].0) {
                if let Atom::Def(d) = &self.atoms[n.0[0].0 as usize] {
                    q += &format!("(assert (= x{} {}))\n", i, sum(d));
                }
            }
            if let Some(b) = n.0.iter().find(|x| self.bools.contains(&x.0)) {
                if n.0.len() == 1 {
                    q += &format!("(assert (and (<= 0 x{}) (<= x{} 1)))\n", i, i);
                    if let Atom::Def(d) = &self.atoms[b.0 as usize] {
                        q += &format!("(assert (= x{} {}))\n", i, sum(d));
                    }
                } else {
                    let rest = Mono(n.0.iter().filter(|x| x.0 != b.0).cloned().collect());
                    q += &format!("(assert (ite (= x{} 1) (= x{} x{}) (= x{} 0)))\n", vars[&Mono::var(b.0)], i, vars[&rest], i);
                }
            }
        }
        q += &format!("(assert (or (< {} {}) (> {} {})))\n(check-sat)\n", sum(p), num(lo), sum(p), num(hi));
        let t0 = std::time::Instant::now();
        let r = crate::z3::text(&q);
        self.queries += 1;
        self.time += t0.elapsed().as_secs_f64();
        if std::env::var_os("SV_INTS").is_some() {
            eprintln!("LIA {} vars, {} bytes: {} {:.2}s", vars.len(), q.len(), r.trim(), t0.elapsed().as_secs_f64());
            std::fs::write(format!("/tmp/lia{}.smt2", self.queries), &q).ok();
        }
        let ok = r.trim() == "unsat";
        self.refuted.clear();
        if r.trim() == "sat" {
            let mut ask = vec![];
            for (n, i) in &vars {
                if n.0.len() == 1 && n.0[0].1 == 1 {
                    if let Atom::Opaque(e) = self.atoms[n.0[0].0 as usize] {
                        if matches!(node(e), Node::Var(_)) {
                            ask.push((e, *i));
                        }
                    }
                }
            }
            let names: Vec<String> = ask.iter().map(|x| format!("x{}", x.1)).collect();
            let r = crate::z3::text(&format!("{}(get-value ({}))\n", q, names.join(" ")));
            let vals: HashMap<String, BigInt> = r
                .split('(')
                .filter_map(|l| {
                    let mut w = l.split_whitespace();
                    let (n, v) = (w.next()?, w.next()?.trim_end_matches(')'));
                    Some((n.to_string(), v.parse().ok()?))
                })
                .collect();
            for (e, i) in ask {
                if let Some(v) = vals.get(&format!("x{}", i)) {
                    self.refuted.push((e, v.clone()));
                }
            }
        }
        self.unsat += ok as u64;
        self.undecided = !ok && r.trim() != "sat";
        ok
    }
    pub fn name(&self, a: A) -> String {
        match &self.atoms[a as usize] {
            Atom::Opaque(e) => show(*e, 3),
            Atom::Quot(p, k) => format!("q{}[{}>>{}]", a, p.0.len(), k),
            Atom::Def(p) => format!("d{}[{}]", a, p.0.len()),
            Atom::Sym(s) => s.clone(),
        }
    }
    pub fn show(&self, p: &Poly) -> String {
        let mut s = String::new();
        for (n, c) in p.0.iter().take(40) {
            s += &format!(" {:+x}", c);
            for (a, e) in &n.0 {
                s += &format!("*{}", self.name(*a));
                if *e != 1 {
                    s += &format!("^{}", e);
                }
            }
        }
        s
    }
}
/// p with d in the place of a
pub fn replace(p: &Poly, a: A, d: &Poly, m: &BigInt) -> Poly {
    let mut by: BTreeMap<i64, Poly> = BTreeMap::new();
    for (n, c) in &p.0 {
        let e = n.exp(a);
        let rest = Mono(n.0.iter().filter(|x| x.0 != a).cloned().collect());
        by.entry(e).or_default().add_term(rest, c);
    }
    let mut r = Poly::zero();
    let mut pw = Poly::int(1);
    let mut at = 0;
    for (e, q) in by {
        assert!(e >= 0);
        while at < e {
            pw = pw.mul(d).modp(m);
            at += 1;
        }
        r.add_scaled(&q.mul(&pw), &BigInt::one());
    }
    r.modp(m)
}
/// all ones or all zeros: which bit decides, and for which value it is ones
fn select(e: E) -> Option<(E, bool)> {
    let w = width(e);
    if w == 1 {
        return None;
    }
    match node(e) {
        Node::Ite(c, a, b) => match (as_const(*a), as_const(*b)) {
            (Some(x), Some(0)) if x == mask(w) => Some((*c, true)),
            (Some(0), Some(x)) if x == mask(w) => Some((*c, false)),
            _ => None,
        },
        Node::SExt(c) if width(*c) == 1 => Some((*c, true)),
        Node::Add(ts, k) if ts.len() == 1 && umax(ts[0].0) == 1 => {
            let c = extract(ts[0].0, 0, 1);
            if *k == mask(w) && ts[0].1 == 1 {
                Some((c, false))
            } else if *k == 0 && ts[0].1 == mask(w) {
                Some((c, true))
            } else {
                None
            }
        }
        Node::Xor(es, k) if es.len() == 1 && *k == mask(w) => select(es[0]).map(|(c, on)| (c, !on)),
        Node::Extract(a, _) => select(*a),
        _ => None,
    }
}
/// masked by opposite bits
fn opposite(a: E, b: E) -> bool {
    let sides = |e: E| -> Vec<(E, bool)> {
        match node(e) {
            Node::And(x, y) => [select(*x), select(*y)].into_iter().flatten().collect(),
            Node::Extract(x, _) => match node(*x) {
                Node::And(x, y) => [select(*x), select(*y)].into_iter().flatten().collect(),
                _ => vec![],
            },
            _ => vec![],
        }
    };
    let y = sides(b);
    sides(a).iter().any(|(c, on)| y.iter().any(|(d, off)| c == d && on != off || *d == not(*c) && on == off))
}
/// contains a product of two unknowns
pub fn has_product(e: E) -> bool {
    cone(&[e]).iter().any(|x| matches!(node(*x), Node::Mul(..)))
}
impl Exec {
    /// the condition cannot hold, whatever the path
    pub fn never(&mut self, e: E) -> bool {
        let t = self.ints.int(e);
        self.ints.bounded(&t.p, &BigInt::zero(), &BigInt::zero())
    }
}
