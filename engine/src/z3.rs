//! Z3 bindings (libz3 C API) and the query layer: slicing, caching, abstraction of large cones.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_eval_smtlib2_string(c: P, s: *const c_char) -> *const c_char;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
    fn Z3_ast_vector_size(c: P, v: P) -> c_uint;
    fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
    fn Z3_ast_vector_inc_ref(c: P, v: P);
    fn Z3_ast_vector_dec_ref(c: P, v: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}
extern "C" fn on_err(_c: P, e: c_int) {
    // memory-outs and cancellations surface as `unknown`
    if e != 0 {
        eprintln!("z3 error code {}", e);
    }
}

pub enum Res {
    Sat(HashMap<u32, u128>, HashMap<(u32, Vec<u128>, u32), u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    sorts: HashMap<u16, P>,
    logic: P,
    pub queries: u64,
    pub fast: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub maxq: f64,
    pub timeout_ms: u32,
    pub abs: u64,
    cache: HashMap<Vec<E>, Option<HashMap<u32, u128>>>,
    ast_count: usize,
    /// incremental solver for small queries: one assumption literal per constraint
    inc: P,
    lits: HashMap<E, P>,
    deleting: Vec<std::thread::JoinHandle<()>>,
    lit_of: HashMap<usize, E>,
    /// unsatisfiable sets found so far, by their largest element
    cores: HashMap<E, Vec<Vec<E>>>,
    /// recent models
    recent: std::collections::VecDeque<HashMap<u32, u128>>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let (c, logic) = Self::ctx();
        Solver {
            c,
            bv: HashMap::new(),
            bl: HashMap::new(),
            sorts: HashMap::new(),
            logic,
            queries: 0,
            fast: 0,
            cached: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            maxq: 0.0,
            timeout_ms,
            abs: 0,
            cache: HashMap::new(),
            ast_count: 0,
            inc: std::ptr::null_mut(),
            lits: HashMap::new(),
            deleting: vec![],
            lit_of: HashMap::new(),
            cores: HashMap::new(),
            recent: Default::default(),
        }
    }
    fn ctx() -> (P, P) {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let logic = Z3_mk_string_symbol(c, CString::new("QF_BV").unwrap().as_ptr());
            (c, logic)
        }
    }
    pub fn version() -> String {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
        format!("{}.{}.{}", a, b, c)
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w as c_uint);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn numeral(&mut self, v: u128, w: u16) -> P {
        let s = self.sort(w);
        unsafe {
            if v >> 64 == 0 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn getbv(&mut self, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        if let Some(b) = self.bl.get(&e) {
            let b = *b;
            let one = self.numeral(1, 1);
            let zero = self.numeral(0, 1);
            let p = unsafe {
                let p = Z3_mk_ite(self.c, b, one, zero);
                Z3_inc_ref(self.c, p);
                p
            };
            self.bv.insert(e, p);
            return p;
        }
        panic!("untranslated node")
    }
    fn getb(&mut self, e: E) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let v = self.getbv(e);
        let one = self.numeral(1, 1);
        let p = unsafe {
            let p = Z3_mk_eq(self.c, v, one);
            Z3_inc_ref(self.c, p);
            p
        };
        self.bl.insert(e, p);
        p
    }
    fn trans(&mut self, root: E, cut: &HashMap<E, ()>) {
        if self.bv.contains_key(&root) || self.bl.contains_key(&root) {
            return;
        }
        let list = {
            let (bv, bl) = (&self.bv, &self.bl);
            cone_until(&[root], &mut |x| {
                bv.contains_key(&x) || bl.contains_key(&x) || cut.contains_key(&x) || matches!(node(x), Node::App(..))
            })
        };
        for x in list {
            if self.bv.contains_key(&x) || self.bl.contains_key(&x) {
                continue;
            }
            self.trans1(x, cut.contains_key(&x));
        }
    }
    fn trans1(&mut self, x: E, cut: bool) {
        self.ast_count += 1;
        let w = width(x);
        let c = self.c;
        let n = nodec(x);
        let mut isb = false;
        let p = unsafe {
            if cut || matches!(n, Node::Var(_) | Node::App(..)) {
                let s = self.sort(w);
                let nm = CString::new(format!("n{}", x)).unwrap();
                let sy = Z3_mk_string_symbol(c, nm.as_ptr());
                Z3_mk_const(c, sy, s)
            } else {
                match n {
                    Node::Const(v) if w == 1 => {
                        isb = true;
                        if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    }
                    Node::Const(v) => self.numeral(v, w),
                    Node::Add(t, k) => {
                        let mut acc: P = std::ptr::null_mut();
                        for (e, co) in t.iter() {
                            let v = self.getbv(*e);
                            let term = if *co == 1 {
                                v
                            } else if *co == mask(w) {
                                Z3_mk_bvneg(c, v)
                            } else {
                                let kk = self.numeral(*co, w);
                                Z3_mk_bvmul(c, kk, v)
                            };
                            acc = if acc.is_null() { term } else { Z3_mk_bvadd(c, acc, term) };
                        }
                        if k != 0 {
                            let kk = self.numeral(k, w);
                            acc = Z3_mk_bvadd(c, acc, kk);
                        }
                        acc
                    }
                    Node::Mul(a, b) => self.mul(a, b, w),
                    Node::UDiv(a, b) => Z3_mk_bvudiv(c, self.getbv(a), self.getbv(b)),
                    Node::URem(a, b) => Z3_mk_bvurem(c, self.getbv(a), self.getbv(b)),
                    Node::SDiv(a, b) => Z3_mk_bvsdiv(c, self.getbv(a), self.getbv(b)),
                    Node::SRem(a, b) => Z3_mk_bvsrem(c, self.getbv(a), self.getbv(b)),
                    Node::And(a, b) if w == 1 => {
                        isb = true;
                        let v = [self.getb(a), self.getb(b)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    Node::Or(a, b) if w == 1 => {
                        isb = true;
                        let v = [self.getb(a), self.getb(b)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    Node::And(a, b) => Z3_mk_bvand(c, self.getbv(a), self.getbv(b)),
                    Node::Or(a, b) => Z3_mk_bvor(c, self.getbv(a), self.getbv(b)),
                    Node::Xor(t, k) if w == 1 => {
                        isb = true;
                        let mut acc = self.getb(t[0]);
                        for e in &t[1..] {
                            acc = Z3_mk_xor(c, acc, self.getb(*e));
                        }
                        if k == 1 { Z3_mk_not(c, acc) } else { acc }
                    }
                    Node::Xor(t, k) => {
                        let mut acc = self.getbv(t[0]);
                        for e in &t[1..] {
                            acc = Z3_mk_bvxor(c, acc, self.getbv(*e));
                        }
                        if k != 0 {
                            let kk = self.numeral(k, w);
                            acc = Z3_mk_bvxor(c, acc, kk);
                        }
                        acc
                    }
                    Node::Shl(a, b) => Z3_mk_bvshl(c, self.getbv(a), self.getbv(b)),
                    Node::LShr(a, b) => Z3_mk_bvlshr(c, self.getbv(a), self.getbv(b)),
                    Node::AShr(a, b) => Z3_mk_bvashr(c, self.getbv(a), self.getbv(b)),
                    Node::Concat(t) => {
                        let mut acc = if as_const(t[0]) == Some(0) {
                            std::ptr::null_mut()
                        } else {
                            self.getbv(t[0])
                        };
                        for e in &t[1..] {
                            let v = self.getbv(*e);
                            acc = if acc.is_null() {
                                Z3_mk_zero_ext(c, width(t[0]) as c_uint, v)
                            } else {
                                Z3_mk_concat(c, acc, v)
                            };
                        }
                        acc
                    }
                    Node::Extract(a, l) => Z3_mk_extract(c, (l + w - 1) as c_uint, l as c_uint, self.getbv(a)),
                    Node::SExt(a) => Z3_mk_sign_ext(c, (w - width(a)) as c_uint, self.getbv(a)),
                    Node::Eq(a, b) => {
                        isb = true;
                        Z3_mk_eq(c, self.getbv(a), self.getbv(b))
                    }
                    Node::Ult(a, b) => {
                        isb = true;
                        Z3_mk_bvult(c, self.getbv(a), self.getbv(b))
                    }
                    Node::Slt(a, b) => {
                        isb = true;
                        Z3_mk_bvslt(c, self.getbv(a), self.getbv(b))
                    }
                    Node::Ite(i, a, b) => {
                        let i = self.getb(i);
                        if w == 1 {
                            isb = true;
                            let (x, y) = (self.getb(a), self.getb(b));
                            Z3_mk_ite(c, i, x, y)
                        } else {
                            let (x, y) = (self.getbv(a), self.getbv(b));
                            Z3_mk_ite(c, i, x, y)
                        }
                    }
                    Node::Var(_) | Node::App(..) => unreachable!(),
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        if isb {
            self.bl.insert(x, p);
        } else {
            self.bv.insert(x, p);
        }
    }
    fn mul(&mut self, a: E, b: E, _w: u16) -> P {
        unsafe { Z3_mk_bvmul(self.c, self.getbv(a), self.getbv(b)) }
    }
    fn reset_ctx(&mut self) {
        // deleting a context with large terms can take very long: elsewhere, and never when leaving
        let old = self.c as usize;
        self.deleting.retain(|t| !t.is_finished());
        if self.deleting.len() < 4 {
            self.deleting.push(std::thread::spawn(move || unsafe { Z3_del_context(old as P) }));
        }
        let (c, l) = Self::ctx();
        self.c = c;
        self.logic = l;
        self.bv.clear();
        self.bl.clear();
        self.sorts.clear();
        self.ast_count = 0;
        self.inc = std::ptr::null_mut();
        self.lits.clear();
        self.lit_of.clear();
    }
    /// small query (no uninterpreted calls), incrementally. Some(Err(core)): unsatisfiable
    fn small(&mut self, key: &[E], want: &[E], timeout_ms: u32) -> Option<Result<Vec<u128>, Vec<E>>> {
        let t0 = Instant::now();
        if self.ast_count > 3_000_000 {
            self.reset_ctx();
        }
        let none = HashMap::new();
        for e in key.iter().chain(want.iter()) {
            self.trans(*e, &none);
        }
        let c = self.c;
        let r = unsafe {
            if self.inc.is_null() || self.lits.len() > 40 {
                if !self.inc.is_null() {
                    Z3_solver_dec_ref(c, self.inc);
                }
                self.lits.clear();
                self.lit_of.clear();
                self.inc = Z3_mk_simple_solver(c);
                Z3_solver_inc_ref(c, self.inc);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = Z3_mk_string_symbol(c, CString::new("timeout").unwrap().as_ptr());
                Z3_params_set_uint(c, p, k, timeout_ms);
                Z3_solver_set_params(c, self.inc, p);
            }
            let mut asm = vec![];
            for e in key {
                let l = match self.lits.get(e) {
                    Some(l) => *l,
                    None => {
                        let n = Z3_mk_string_symbol(c, CString::new(format!("lit!{}", e)).unwrap().as_ptr());
                        let l = Z3_mk_const(c, n, Z3_mk_bool_sort(c));
                        Z3_inc_ref(c, l);
                        let b = self.getb(*e);
                        let or = [Z3_mk_not(c, l), b];
                        Z3_solver_assert(c, self.inc, Z3_mk_or(c, 2, or.as_ptr()));
                        self.lits.insert(*e, l);
                        self.lit_of.insert(l as usize, *e);
                        l
                    }
                };
                asm.push(l);
            }
            match Z3_solver_check_assumptions(c, self.inc, asm.len() as c_uint, asm.as_ptr()) {
                1 => {
                    let m = Z3_solver_get_model(c, self.inc);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    for e in want {
                        let t = self.getbv(*e);
                        let mut v: P = std::ptr::null_mut();
                        let val = if Z3_model_eval(c, m, t, true, &mut v) {
                            Z3_inc_ref(c, v);
                            let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, v)).to_str().unwrap_or("0");
                            st.parse::<u128>().unwrap_or(0)
                        } else {
                            0
                        };
                        vals.push(val);
                    }
                    Z3_model_dec_ref(c, m);
                    Some(Ok(vals))
                }
                -1 => {
                    let v = Z3_solver_get_unsat_core(c, self.inc);
                    Z3_ast_vector_inc_ref(c, v);
                    let core = (0..Z3_ast_vector_size(c, v)).filter_map(|i| self.lit_of.get(&(Z3_ast_vector_get(c, v, i) as usize)).copied()).collect();
                    Z3_ast_vector_dec_ref(c, v);
                    Some(Err(core))
                }
                _ => None,
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.maxq = self.maxq.max(dt);
        self.queries += 1;
        match &r {
            Some(Ok(_)) => self.sat += 1,
            Some(Err(_)) => self.unsat += 1,
            None => {}
        }
        r
    }
    /// raw query over exactly these constraints; values of `want` nodes are returned
    pub fn raw(&mut self, cs: &[E], cut: &HashMap<E, ()>, want: &[E], timeout_ms: u32) -> Option<Option<Vec<u128>>> {
        let t0 = Instant::now();
        if self.ast_count > 3_000_000 || !cut.is_empty() && (!self.bv.is_empty() || !self.bl.is_empty()) {
            // cuts change the meaning of node names: use a fresh context
            self.reset_ctx();
        }
        for e in cs {
            self.trans(*e, cut);
        }
        for e in want {
            self.trans(*e, cut);
        }
        // functional consistency of uninterpreted calls
        let mut side: Vec<E> = vec![];
        if cut.is_empty() {
            let mut all: Vec<E> = cs.to_vec();
            let mut seen = HashMap::new();
            loop {
                let apps: Vec<E> = cone(&all).into_iter().filter(|x| matches!(node(*x), Node::App(..))).collect();
                let mut new = vec![];
                for i in 0..apps.len() {
                    for j in 0..i {
                        if let (Node::App(c1, i1), Node::App(c2, i2)) = (node(apps[i]), node(apps[j])) {
                            let (k1, k2) = (&cx().calls[*c1 as usize], &cx().calls[*c2 as usize]);
                            if i1 == i2 && k1.fid == k2.fid && k1.args.len() == k2.args.len() {
                                if seen.insert((apps[i], apps[j]), ()).is_some() {
                                    continue;
                                }
                                let (a1, a2) = (k1.args.clone(), k2.args.clone());
                                let mut same = tru();
                                for (x, y) in a1.iter().zip(a2.iter()) {
                                    if width(*x) != width(*y) {
                                        same = fals();
                                        break;
                                    }
                                    same = and(same, eq(*x, *y));
                                    if as_const(same) == Some(0) {
                                        break;
                                    }
                                }
                                if as_const(same) == Some(0) {
                                    continue;
                                }
                                let r = eq(apps[i], apps[j]);
                                new.push(or(not(same), r));
                            }
                        }
                    }
                }
                if new.is_empty() {
                    break;
                }
                for e in &new {
                    self.trans(*e, cut);
                }
                all.extend(&new);
                side.extend(new);
            }
        }
        let c = self.c;
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, CString::new("timeout").unwrap().as_ptr());
            Z3_params_set_uint(c, p, k, timeout_ms);
            Z3_solver_set_params(c, s, p);
            for e in cs.iter().chain(side.iter()) {
                let b = self.getb(*e);
                Z3_solver_assert(c, s, b);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    for e in want {
                        let t = self.getbv(*e);
                        let mut v: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(c, m, t, true, &mut v);
                        let val = if ok {
                            Z3_inc_ref(c, v);
                            let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, v)).to_str().unwrap_or("0");
                            st.parse::<u128>().unwrap_or(0)
                        } else {
                            0
                        };
                        vals.push(val);
                    }
                    Z3_model_dec_ref(c, m);
                    Some(Some(vals))
                }
                -1 => Some(None),
                _ => None,
            };
            Z3_solver_dec_ref(c, s);
            out
        };
        if !cut.is_empty() {
            self.reset_ctx();
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.maxq {
            self.maxq = dt;
        }
        self.queries += 1;
        match &r {
            Some(Some(_)) => self.sat += 1,
            Some(None) => self.unsat += 1,
            None => self.unknown += 1,
        }
        r
    }

    /// Both sides of these equalities were normalised to the same terms: the solver is still asked, over
    /// those terms and without any simplification on this side, whether some input tells them apart.
    pub fn confirm(&mut self, es: &[E], timeout_ms: u32) -> Option<bool> {
        let t0 = Instant::now();
        if self.ast_count > 3_000_000 {
            self.reset_ctx();
        }
        let none = HashMap::new();
        for e in es {
            self.trans(*e, &none);
        }
        let c = self.c;
        let r = unsafe {
            let mut eqs: Vec<P> = vec![];
            for e in es {
                let p = self.getbv(*e);
                eqs.push(Z3_mk_eq(c, p, p));
            }
            let all = Z3_mk_and(c, eqs.len() as c_uint, eqs.as_ptr());
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, CString::new("timeout").unwrap().as_ptr());
            Z3_params_set_uint(c, p, k, timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_solver_assert(c, s, Z3_mk_not(c, all));
            let r = Z3_solver_check(c, s);
            Z3_solver_dec_ref(c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.queries += 1;
        self.maxq = self.maxq.max(dt);
        match r {
            -1 => {
                self.unsat += 1;
                Some(true)
            }
            1 => {
                self.sat += 1;
                Some(false)
            }
            _ => {
                self.unknown += 1;
                None
            }
        }
    }

    /// decide the conjunction of `cs`; `hint` is a model of the path so far (used to pin inputs of huge cones)
    pub fn check(&mut self, cs: &[E], hint: &mut Model) -> Res {
        self.check_t(cs, hint, self.timeout_ms)
    }
    pub fn check_t(&mut self, cs: &[E], hint: &mut Model, timeout_ms: u32) -> Res {
        let mut key: Vec<E> = cs.iter().copied().filter(|e| as_const(*e) != Some(1)).collect();
        if key.iter().any(|e| as_const(*e) == Some(0)) {
            return Res::Unsat;
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Res::Sat(HashMap::new(), HashMap::new());
        }
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone(), HashMap::new()),
                None => Res::Unsat,
            };
        }
        let mut vars: Vec<u32> = vec![];
        let mut has_app = false;
        for e in &key {
            for v in support(*e).iter() {
                if v >> 31 == 1 {
                    has_app = true
                } else {
                    vars.push(*v)
                }
            }
        }
        vars.sort_unstable();
        vars.dedup();
        // single small variable: decided by complete evaluation
        if !has_app && vars.len() == 1 && cx().vars[vars[0] as usize].width <= 8 {
            let w = cx().vars[vars[0] as usize].width;
            let list = cone(&key);
            if list.len() < 200 {
                self.fast += 1;
                let mut vals: HashMap<E, u128> = HashMap::new();
                let empty = HashMap::new();
                for v in 0..(1u128 << w) {
                    vals.clear();
                    for x in &list {
                        let r = eval_node(*x, &mut |y| vals[&y], &|_| v, &empty, 0);
                        vals.insert(*x, r);
                    }
                    if key.iter().all(|e| vals[e] == 1) {
                        let mut m = HashMap::new();
                        m.insert(vars[0], v);
                        self.cache.insert(key, Some(m.clone()));
                        return Res::Sat(m, HashMap::new());
                    }
                }
                self.cache.insert(key, None);
                return Res::Unsat;
            }
        }
        let varnodes: Vec<E> = vars.iter().map(|v| var_node(*v)).collect();
        let cn = cone(&key);
        let size = cn.len();
        let big = size > 6000;
        if !has_app && size < 1500 {
            for e in &key {
                if let Some(cs) = self.cores.get(e) {
                    if cs.iter().any(|core| core.iter().all(|x| key.binary_search(x).is_ok())) {
                        self.cached += 1;
                        return Res::Unsat;
                    }
                }
            }
            if size < 400 {
                let empty = HashMap::new();
                let mut hit = None;
                for (i, m) in self.recent.iter().enumerate() {
                    if !vars.iter().all(|v| m.contains_key(v)) {
                        continue;
                    }
                    let mut vals: HashMap<E, u128> = HashMap::with_capacity(size);
                    for x in &cn {
                        let r = eval_node(*x, &mut |y| vals[&y], &|v| m[&v], &empty, 0);
                        vals.insert(*x, r);
                    }
                    if key.iter().all(|e| vals[e] == 1) {
                        hit = Some(i);
                        break;
                    }
                }
                if let Some(i) = hit {
                    self.fast += 1;
                    let m: HashMap<u32, u128> = vars.iter().map(|v| (*v, self.recent[i][v])).collect();
                    self.cache.insert(key, Some(m.clone()));
                    return Res::Sat(m, HashMap::new());
                }
            }
            match self.small(&key, &varnodes, timeout_ms.min(2000)) {
                Some(Ok(vals)) => {
                    let m: HashMap<u32, u128> = vars.iter().copied().zip(vals).collect();
                    self.recent.push_front(m.clone());
                    self.recent.truncate(12);
                    self.cache.insert(key, Some(m.clone()));
                    return Res::Sat(m, HashMap::new());
                }
                Some(Err(mut core)) => {
                    if !core.is_empty() {
                        core.sort_unstable();
                        self.cores.entry(*core.last().unwrap()).or_default().push(core);
                    }
                    self.cache.insert(key, None);
                    return Res::Unsat;
                }
                None => {}
            }
        }
        if big {
            // equations "input = term" are satisfied by evaluating the term
            let mut eqs: Vec<(E, E)> = vec![];
            let mut todo: Vec<E> = key.clone();
            while let Some(e) = todo.pop() {
                match node(e) {
                    Node::And(a, b) => todo.extend([*a, *b]),
                    Node::Eq(a, b) => {
                        let vars = |e: E| match node(e) {
                            Node::Var(_) => true,
                            Node::Concat(t) => t.iter().all(|x| matches!(node(*x), Node::Var(_))),
                            _ => false,
                        };
                        if vars(*a) {
                            eqs.push((*a, *b));
                        } else if vars(*b) {
                            eqs.push((*b, *a));
                        }
                    }
                    _ => {}
                }
            }
            if !eqs.is_empty() {
                let mut m = Model::new(hint.seed);
                m.vars = hint.vars.clone();
                m.calls = hint.calls.clone();
                let mut set = HashMap::new();
                for (v, t) in eqs {
                    let x = eval(t, &mut Model { vars: m.vars.clone(), seed: m.seed, cache: std::mem::take(&mut m.cache), calls: m.calls.clone() });
                    let parts: Vec<E> = match node(v) {
                        Node::Concat(t) => t.to_vec(),
                        _ => vec![v],
                    };
                    let mut sh = width(v);
                    for p in parts {
                        sh -= width(p);
                        if let Node::Var(i) = node(p) {
                            set.insert(*i, (x >> sh) & mask(width(p)));
                        }
                    }
                }
                m.vars.extend(set.iter().map(|(a, b)| (*a, *b)));
                m.cache.clear();
                if key.iter().all(|e| eval(*e, &mut m) == 1) {
                    self.fast += 1;
                    return Res::Sat(set, HashMap::new());
                }
            }
            for depth in [10usize, 20] {
                self.abs += 1;
                let cut = cut_at(&key, depth);
                if cut.is_empty() {
                    continue;
                }
                // free variables: those visible above the cut
                let top = cone_until(&key, &mut |x| cut.contains_key(&x));
                let freev: Vec<E> = top.iter().copied().filter(|x| matches!(node(*x), Node::Var(_)) && !cut.contains_key(x)).collect();
                match self.raw(&key, &cut, &freev, timeout_ms.min(20000)) {
                    Some(None) => {
                        self.cache.insert(key, None);
                        return Res::Unsat;
                    }
                    Some(Some(_)) => {
                        // pin everything below the cut to the hint's values, solve for the rest
                        let below: Vec<E> = cut.keys().copied().collect();
                        let bv: Vec<E> = cone(&below).into_iter().filter(|x| matches!(node(*x), Node::Var(_))).collect();
                        let mut pins: HashMap<E, u128> = HashMap::new();
                        for x in below.iter().chain(bv.iter()) {
                            pins.insert(*x, eval(*x, hint));
                        }
                        let mut sub = HashMap::new();
                        let k2: Vec<E> = key.iter().map(|e| subst(*e, &pins, &mut sub)).collect();
                        let left: Vec<E> = freev.iter().copied().filter(|x| !pins.contains_key(x)).collect();
                        if let Some(Some(vals)) = self.raw(&k2, &HashMap::new(), &left, timeout_ms.min(20000)) {
                            let mut m = HashMap::new();
                            for (x, v) in left.iter().zip(vals) {
                                if let Node::Var(i) = node(*x) {
                                    m.insert(*i, v);
                                }
                            }
                            for x in &bv {
                                if let Node::Var(i) = node(*x) {
                                    m.insert(*i, pins[x]);
                                }
                            }
                            return Res::Sat(m, HashMap::new());
                        }
                    }
                    None => {}
                }
            }
        }
        let mut want = varnodes.clone();
        let apps: Vec<E> = if has_app {
            cone(&key).into_iter().filter(|x| matches!(node(*x), Node::App(..))).collect()
        } else {
            vec![]
        };
        let appargs: Vec<Vec<E>> = apps
            .iter()
            .map(|x| if let Node::App(c, _) = node(*x) { cx().calls[*c as usize].args.to_vec() } else { vec![] })
            .collect();
        want.extend(&apps);
        for a in &appargs {
            want.extend(a);
        }
        match self.raw(&key, &HashMap::new(), &want, timeout_ms) {
            Some(Some(vals)) => {
                let mut m = HashMap::new();
                for (i, v) in vars.iter().enumerate() {
                    m.insert(*v, vals[i]);
                }
                let mut calls = HashMap::new();
                let mut p = vars.len() + apps.len();
                for (i, x) in apps.iter().enumerate() {
                    let n = appargs[i].len();
                    let a = vals[p..p + n].to_vec();
                    p += n;
                    if let Node::App(c, idx) = node(*x) {
                        calls.insert((cx().calls[*c as usize].fid, a, *idx), vals[vars.len() + i]);
                    }
                }
                if calls.is_empty() {
                    self.cache.insert(key, Some(m.clone()));
                }
                Res::Sat(m, calls)
            }
            Some(None) => {
                self.cache.insert(key, None);
                Res::Unsat
            }
            None => Res::Unknown,
        }
    }
}
pub fn var_node(v: u32) -> E {
    // interning finds the existing node
    let w = cx().vars[v as usize].width;
    crate::expr::var_expr(v, w)
}
pub fn cut_at(roots: &[E], depth: usize) -> HashMap<E, ()> {
    let mut best: HashMap<E, usize> = HashMap::new();
    let mut layer: Vec<E> = roots.to_vec();
    for d in 0..depth {
        let mut next = vec![];
        for e in layer {
            if best.contains_key(&e) {
                continue;
            }
            best.insert(e, d);
            children(&nodec(e), &mut |x| next.push(x));
        }
        layer = next;
    }
    let mut cut = HashMap::new();
    for e in layer {
        if !best.contains_key(&e) && !matches!(node(e), Node::Const(_) | Node::Var(_)) {
            cut.insert(e, ());
        }
    }
    cut
}
/// replace nodes by constants
pub fn subst(e: E, pins: &HashMap<E, u128>, memo: &mut HashMap<E, E>) -> E {
    let list = cone_until(&[e], &mut |x| pins.contains_key(&x) || memo.contains_key(&x));
    for x in list {
        if memo.contains_key(&x) {
            continue;
        }
        if let Some(v) = pins.get(&x) {
            let k = konst(*v, width(x));
            memo.insert(x, k);
            continue;
        }
        let r = rebuild(x, &mut |y| memo[&y]);
        memo.insert(x, r);
    }
    memo[&e]
}
pub fn rebuild(x: E, g: &mut dyn FnMut(E) -> E) -> E {
    let w = width(x);
    match nodec(x) {
        Node::Const(_) | Node::Var(_) => x,
        Node::Add(t, c) => {
            let mut acc = konst(c, w);
            for (e, k) in t.iter() {
                acc = addk(acc, 1, g(*e), *k);
            }
            acc
        }
        Node::Mul(a, b) => mul(g(a), g(b)),
        Node::UDiv(a, b) => udiv(g(a), g(b)),
        Node::URem(a, b) => urem(g(a), g(b)),
        Node::SDiv(a, b) => sdiv(g(a), g(b)),
        Node::SRem(a, b) => srem(g(a), g(b)),
        Node::And(a, b) => and(g(a), g(b)),
        Node::Or(a, b) => or(g(a), g(b)),
        Node::Xor(t, c) => {
            let mut acc = konst(c, w);
            for e in t.iter() {
                acc = xor(acc, g(*e));
            }
            acc
        }
        Node::Shl(a, b) => shl(g(a), g(b)),
        Node::LShr(a, b) => lshr(g(a), g(b)),
        Node::AShr(a, b) => ashr(g(a), g(b)),
        Node::Concat(t) => {
            let v: Vec<E> = t.iter().map(|e| g(*e)).collect();
            concat(v)
        }
        Node::Extract(a, l) => extract(g(a), l, w),
        Node::SExt(a) => sext(g(a), w),
        Node::Eq(a, b) => eq(g(a), g(b)),
        Node::Ult(a, b) => ult(g(a), g(b)),
        Node::Slt(a, b) => slt(g(a), g(b)),
        Node::Ite(c, a, b) => ite(g(c), g(a), g(b)),
        Node::App(c, i) => {
            let (f, args) = {
                let k = &cx().calls[c as usize];
                (k.fid, k.args.clone())
            };
            let v: Vec<E> = args.iter().map(|e| g(*e)).collect();
            app(f, v, i, w)
        }
    }
}

/// an SMT-LIB text, in a context of its own
pub fn text(q: &str) -> String {
    unsafe {
        let c = Z3_mk_context(Z3_mk_config());
        Z3_set_error_handler(c, on_err);
        let t = CString::new(q).unwrap();
        let r = std::ffi::CStr::from_ptr(Z3_eval_smtlib2_string(c, t.as_ptr())).to_string_lossy().into_owned();
        Z3_del_context(c);
        r
    }
}
