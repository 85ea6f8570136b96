//! Symbolic executor over the decoded LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Builtin {
    No,
    Panic,
    Abort,
    Alloc(bool),
    Dealloc,
    Realloc,
    Nop,
    FormatInner,
    FmtWrite,
    GetRandom,
    Sv(Rc<str>),
    Intr(Rc<str>),
    Mem(Rc<str>),
    Uf(usize),
    Contract(crate::field::Op),
}
impl Builtin {
    pub fn overrides(&self) -> bool {
        !matches!(self, Builtin::No | Builtin::Contract(_))
    }
}
pub struct UfSpec {
    pub name: String,
    pub args: Vec<(u8, usize, usize)>, // 'o'/'i'/'v', argument index, bytes
    pub ret: usize,                    // width in bits of a directly returned value
}
thread_local! {
    pub static UFS: RefCell<Vec<UfSpec>> = RefCell::new(vec![]);
}

pub fn classify(sym: &str, dem: &str) -> Builtin {
    if let Some(i) = UFS.with(|u| u.borrow().iter().position(|s| s.name == dem || s.name == sym)) {
        return Builtin::Uf(i);
    }
    if let Some(o) = crate::field::CONTRACTS.with(|c| c.borrow().iter().find(|x| x.0 == dem).map(|x| x.1)) {
        return Builtin::Contract(o);
    }
    if sym.starts_with("llvm.") {
        return Builtin::Intr(sym.into());
    }
    if sym.starts_with("sv_") {
        return Builtin::Sv(sym.into());
    }
    match sym {
        "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" => return Builtin::Mem(sym.into()),
        "abort" | "_exit" | "exit" => return Builtin::Abort,
        _ => {}
    }
    match dem {
        "__rustc::__rust_alloc" | "__rust_alloc" => return Builtin::Alloc(false),
        "__rustc::__rust_alloc_zeroed" | "__rust_alloc_zeroed" => return Builtin::Alloc(true),
        "__rustc::__rust_dealloc" | "__rust_dealloc" => return Builtin::Dealloc,
        "__rustc::__rust_realloc" | "__rust_realloc" => return Builtin::Realloc,
        "__rustc::__rust_no_alloc_shim_is_unstable_v2" => return Builtin::Nop,
        "alloc::fmt::format::format_inner" | "alloc::fmt::format" => return Builtin::FormatInner,
        "core::fmt::write" => return Builtin::FmtWrite,
        "getrandom::imp::getrandom_inner" => return Builtin::GetRandom,
        "std::process::abort" | "std::process::exit" | "std::sys::abort_internal" => return Builtin::Abort,
        "alloc::alloc::handle_alloc_error" | "alloc::raw_vec::handle_error" | "alloc::raw_vec::capacity_overflow" => return Builtin::Panic,
        _ => {}
    }
    if dem.starts_with("core::panicking::") && !dem.ends_with("default_msg") && !dem.contains("::fmt") {
        return Builtin::Panic;
    }
    if dem.ends_with("::unwrap_failed")
        || dem.ends_with("unwrap_failed_inner")
        || dem.ends_with("::expect_failed")
        || dem.ends_with("::slice_index_fail")
        || dem.ends_with("::len_mismatch_fail")
        || dem.ends_with("slice_error_fail")
        || dem.ends_with("slice_error_fail_rt")
        || dem.contains("slice_start_index_len_fail")
        || dem.contains("slice_end_index_len_fail")
        || dem.contains("slice_index_order_fail")
        || dem == "std::panicking::begin_panic"
        || dem.starts_with("std::panicking::")
        || dem.ends_with("::panic_already_borrowed")
        || dem.ends_with("::panic_already_mutably_borrowed")
        || dem.contains("::assert_failed")
        || dem.ends_with("::swap_remove::assert_failed")
    {
        return Builtin::Panic;
    }
    Builtin::No
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}
#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty: all concrete. 0: concrete, UNINIT: uninitialised
    pub kind: Kind,
}
pub const UNINIT: E = u32::MAX;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SB {
    C(u8),
    S(E),
    U,
}
impl Obj {
    fn size(&self) -> u64 {
        self.data.len() as u64
    }
    fn ensure_sym(&mut self) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
    }
    fn get(&self, i: usize) -> SB {
        if self.sym.is_empty() {
            return SB::C(self.data[i]);
        }
        match self.sym[i] {
            0 => SB::C(self.data[i]),
            UNINIT => SB::U,
            e => SB::S(e),
        }
    }
    fn set(&mut self, i: usize, b: SB) {
        match b {
            SB::C(v) => {
                self.data[i] = v;
                if !self.sym.is_empty() {
                    self.sym[i] = 0
                }
            }
            SB::S(e) => {
                self.ensure_sym();
                self.sym[i] = e
            }
            SB::U => {
                self.ensure_sym();
                self.sym[i] = UNINIT
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub ret: Option<u32>,
    pub sp: u64,
}
#[derive(Clone, Debug)]
pub enum Input {
    Bytes(Vec<E>),
    Rand(Vec<E>),
    Choose(u64),
    Junk,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub heap: u64,
    pub sp: u64,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<u32, u128>>,
    pub model: Rc<RefCell<Model>>,
    pub inputs: Vec<Input>,
    pub panic_ok: bool,
    pub ct: bool,
    pub live_heap: u64,
    pub peak_heap: u64,
    /// symbolic part of the live heap size, and the peaks reached while there was one
    pub live_sym: Option<E>,
    pub sym_peaks: Vec<(E, u64)>,
    pub sym_sizes: Rc<HashMap<u64, E>>,
    pub rand_left: i64,
    /// bytes drawn so far; from this position on the values are fixed
    pub rand_fixed: u64,
    pub uf_fixed: bool,
    pub rand_log: Rc<Vec<SB>>,
    pub steps: u64,
    pub forced: Option<(E, u128)>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Assume,
    Bound(String),
    Panic(String),
    Viol(String, String),
    Unsup(String),
    Infeasible,
    Cut,
}
type R<T> = Result<T, Stop>;

pub struct Viol {
    pub id: String,
    pub what: String,
    pub inputs: Vec<(char, Vec<u8>)>,
    pub trace: Vec<String>,
}
pub struct Export {
    pub id: u64,
    pub bytes: Vec<SB>,
}

pub struct Exec {
    pub p: Prog,
    pub s: Solver,
    pub globals: HashMap<u64, Rc<Obj>>,
    pub work: Vec<State>,
    pub paths: u64,
    pub ends: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub viol_keys: BTreeSet<String>,
    pub unknowns: Vec<String>,
    pub unsup: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>, // id -> (evaluated, symbolic)
    pub reach: BTreeMap<u64, u64>,
    pub funcs: BTreeMap<String, usize>,
    pub instrs: u64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub max_viols: usize,
    pub extcache: HashMap<usize, Builtin>,
    pub nin: u32,
    pub exports: Vec<Export>,
    pub forks: u64,
    pub concr: u64,
    pub params: Vec<u64>,
    pub trace: bool,
    pub sweep_merged: u64,
    pub cs: Solver,
    pub asked: HashMap<Vec<E>, ()>,
    pub t0: Instant,
    pub confirmed: u64,
    pub normalised: u64,
    pub max_concr: u64,
    pub samples: Vec<(Vec<(char, Vec<u8>)>, String)>,
    pub peak_heap: u64,
    pub f: crate::field::FieldSpec,
    pub proved: u64,
    pub ints: crate::ints::Ints,
    /// decide conditions with products of unknowns in integer arithmetic
    pub use_ints: bool,
    pub seen_f: std::collections::HashSet<usize>,
    pub part: (u64, u64),
    pub part_left: u64,
}

fn rs_kind(k: &Stop) -> String {
    match k {
        Stop::Done => "done".into(),
        Stop::Assume => "assume".into(),
        Stop::Bound(s) => format!("bound:{}", s),
        Stop::Panic(_) => "panic".into(),
        Stop::Viol(..) => "violation".into(),
        Stop::Unsup(_) => "unsupported".into(),
        Stop::Infeasible => "infeasible".into(),
        Stop::Cut => "cut".into(),
    }
}

impl Exec {
    pub fn ev(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::K(cv, ty) => Self::cv(cv, ty),
        }
    }
    fn cv(cv: &Cv, ty: &Ty) -> V {
        match cv {
            Cv::Int(x) => V::C(*x),
            Cv::Undef => match ty {
                Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                    V::A(Rc::new((0..ty.nfields()).map(|i| Self::cv(cv, &ty.field(i))).collect()))
                }
                _ => V::U,
            },
            Cv::Zero => match ty {
                Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                    V::A(Rc::new((0..ty.nfields()).map(|i| Self::cv(cv, &ty.field(i))).collect()))
                }
                _ => V::C(0),
            },
            Cv::Agg(v) => V::A(Rc::new(v.iter().enumerate().map(|(i, x)| Self::cv(x, &ty.field(i))).collect())),
            Cv::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
        }
    }
    fn junk(&mut self, w: u16) -> E {
        self.nin += 1;
        new_var(format!("junk{}", self.nin), w, true)
    }
    pub fn to_e(&mut self, v: &V, w: u16) -> E {
        match v {
            V::C(c) => konst(*c, w),
            V::S(e) => {
                debug_assert_eq!(width(*e), w);
                *e
            }
            V::U => self.junk(w),
            V::A(_) => panic!("aggregate used as integer"),
        }
    }
    #[inline]
    pub fn from_e(e: E) -> V {
        match as_const(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: V) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    // ------------------------------------------------------------ constraints
    fn slice_for(&self, pc: &[E], q: &[E]) -> Vec<E> {
        let mut vars: std::collections::HashSet<u32> = std::collections::HashSet::new();
        for e in q {
            vars.extend(support(*e).iter());
        }
        let mut out: Vec<E> = q.to_vec();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in pc.iter().enumerate() {
                if !used[i] {
                    let s = support(*e);
                    if s.iter().any(|v| vars.contains(v)) {
                        used[i] = true;
                        ch = true;
                        vars.extend(s.iter());
                        out.push(*e);
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E) {
        if as_const(c) == Some(1) {
            return;
        }
        if let Node::And(a, b) = nodec(c) {
            self.assume(st, a);
            self.assume(st, b);
            return;
        }
        // facts that fix a variable
        let mut kn: Option<(u32, u128)> = None;
        match node(c) {
            Node::Eq(a, b) => match (node(*a), node(*b)) {
                (Node::Var(v), Node::Const(k)) | (Node::Const(k), Node::Var(v)) => kn = Some((*v, *k)),
                _ => {}
            },
            Node::Var(v) => kn = Some((*v, 1)),
            _ => {}
        }
        if let Some((v, k)) = kn {
            Rc::make_mut(&mut st.known).insert(v, k);
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn known_value(&self, st: &State, e: E) -> Option<u128> {
        if st.known.is_empty() {
            return None;
        }
        let s = support(e);
        if s.len() > 64 {
            return None;
        }
        if s.iter().all(|v| st.known.contains_key(v)) {
            return Some(eval(e, &mut st.model.borrow_mut()));
        }
        None
    }
    /// satisfiability of the path condition and q: Some(model), None (unsat); unknown reported as Err
    pub fn sat(&mut self, st: &State, q: E) -> Result<Option<Model>, ()> {
        if as_const(q) == Some(0) {
            return Ok(None);
        }
        if self.use_ints && crate::ints::has_product(q) && self.never(q) {
            return Ok(None);
        }
        let cs = self.slice_for(&st.pc, &[q]);
        let r = {
            let mut h = st.model.borrow_mut();
            self.s.check(&cs, &mut h)
        };
        match r {
            Res::Unsat => Ok(None),
            Res::Sat(vars, calls) => {
                let old = st.model.borrow();
                let mut m = Model::new(old.seed);
                m.vars = old.vars.clone();
                m.calls = old.calls.clone();
                m.vars.extend(vars);
                m.calls.extend(calls);
                Ok(Some(m))
            }
            Res::Unknown => Err(()),
        }
    }
    pub fn loc(&self, st: &State) -> String {
        st.frames.last().map(|f| f.f.dem.to_string()).unwrap_or_default()
    }
    /// decide a 1-bit condition; forks when both sides are possible
    pub fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        if let Some(v) = self.known_value(st, c) {
            return Ok(v == 1);
        }
        if let Some((e, v)) = st.forced {
            if e == c {
                st.forced = None;
                return Ok(v == 1);
            }
        }
        let nc = not(c);
        if st.pc.contains(&c) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        let cur = eval(c, &mut st.model.borrow_mut()) == 1;
        let (here, other) = if cur { (c, nc) } else { (nc, c) };
        if std::env::var_os("SV_BRANCHES").is_some() {
            eprintln!("BRANCH {} {}", self.loc(st), show(c, 7));
        }
        match self.sat(st, other) {
            Ok(None) => {}
            Ok(Some(m)) => {
                if st.ct {
                    return Err(self.depends(st, m, "ct-branch", "branch"));
                }
                self.forks += 1;
                let mut o = st.clone();
                o.model = Rc::new(RefCell::new(m));
                o.forced = Some((c, if cur { 0 } else { 1 }));
                self.assume(&mut o, other);
                self.work.push(o);
                self.assume(st, here);
            }
            Err(()) => {
                let l = self.loc(st);
                self.unknowns.push(format!("branch in {}", l));
                self.assume(st, here);
            }
        }
        Ok(cur)
    }
    /// two inputs (the path's and m) that part here
    fn depends(&mut self, st: &State, m: Model, id: &str, what: &str) -> Stop {
        let mut o = st.clone();
        o.model = Rc::new(RefCell::new(m));
        let hex = |v: Vec<(char, Vec<u8>)>| -> String {
            v.iter().map(|(k, b)| format!("{} {}", k, b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect::<Vec<_>>().join(" / ")
        };
        let other = hex(self.concrete_inputs(&o));
        Stop::Viol(id.into(), format!("{} depends on secret data in {}; these inputs and the following take different ways: {}", what, self.loc(st), other))
    }
    /// force a symbolic value to a concrete one, forking over the alternatives
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = as_const(e) {
            return Ok(k);
        }
        if let Some(v) = self.known_value(st, e) {
            return Ok(v);
        }
        if let Some((x, v)) = st.forced {
            if x == e {
                // alternatives only
                let _ = v;
                st.forced = None;
            }
        }
        let w = width(e);
        let v = eval(e, &mut st.model.borrow_mut());
        let k = konst(v, w);
        let is = eq(e, k);
        match self.sat(st, not(is)) {
            Ok(None) => {}
            Ok(Some(m)) => {
                if st.ct {
                    return Err(self.depends(st, m, "ct-address", "address or size"));
                }
                self.concr += 1;
                let mut o = st.clone();
                o.model = Rc::new(RefCell::new(m));
                self.assume(&mut o, not(is));
                self.work.push(o);
                self.assume(st, is);
            }
            Err(()) => {
                let l = self.loc(st);
                self.unknowns.push(format!("concretize in {}", l));
                self.assume(st, is);
            }
        }
        // use the value everywhere it is held
        for f in st.frames.iter_mut() {
            for r in f.regs.iter_mut() {
                if let V::S(x) = r {
                    if *x == e {
                        *r = V::C(v);
                    }
                }
            }
        }
        Ok(v)
    }
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => self.concretize(st, *e),
            V::U => Err(Stop::Unsup(format!("undefined value used as address or size in {}", self.loc(st)))),
            V::A(_) => Err(Stop::Unsup("aggregate address".into())),
        }
    }

    // ------------------------------------------------------------ memory
    fn find(&mut self, st: &State, addr: u64, n: u64) -> R<u64> {
        if addr >= G_BASE && addr < 0x0000_3000_0000_0000 {
            if let Some((b, g)) = self.p.ginfo.range(..=addr).next_back() {
                if addr + n <= b + g.size {
                    return Ok(*b);
                }
            }
        } else if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr.wrapping_add(n) <= b + o.size() {
                return Ok(*b);
            }
        }
        Err(Stop::Viol("memory".into(), format!("access of {} bytes at invalid address {:#x} in {}", n, addr, self.loc(st))))
    }
    fn obj(&mut self, st: &State, b: u64) -> Rc<Obj> {
        if let Some(o) = st.mem.get(&b) {
            return o.clone();
        }
        if let Some(o) = self.globals.get(&b) {
            return o.clone();
        }
        let data = self.p.global_init(b);
        let k = if self.p.ginfo[&b].constant { Kind::Const } else { Kind::Global };
        let o = Rc::new(Obj { base: b, data, sym: vec![], kind: k });
        self.globals.insert(b, o.clone());
        o
    }
    fn with_mut<T>(&mut self, st: &mut State, b: u64, f: impl FnOnce(&mut Obj) -> T) -> R<T> {
        if !st.mem.contains_key(&b) {
            let o = self.obj(st, b);
            if o.kind == Kind::Const {
                return Err(Stop::Viol("memory".into(), format!("write to constant memory in {}", self.loc(st))));
            }
            st.mem.insert(b, o);
        }
        let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
        Ok(f(o))
    }
    pub fn read(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<SB>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let b = self.find(st, addr, n)?;
        let o = self.obj(st, b);
        let s = (addr - b) as usize;
        Ok((s..s + n as usize).map(|i| Self::fixed(st, o.get(i))).collect())
    }
    /// an input byte that the path condition fixes is that constant
    fn fixed(st: &State, x: SB) -> SB {
        if let SB::S(e) = x {
            if let Node::Var(v) = node(e) {
                if let Some(k) = st.known.get(v) {
                    return SB::C(*k as u8);
                }
            }
        }
        x
    }
    pub fn write(&mut self, st: &mut State, addr: u64, v: &[SB]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        let b = self.find(st, addr, v.len() as u64)?;
        let s = (addr - b) as usize;
        self.with_mut(st, b, |o| {
            for (i, x) in v.iter().enumerate() {
                o.set(s + i, *x);
            }
        })
    }
    fn load_int(&mut self, st: &mut State, addr: u64, w: u16) -> R<V> {
        let n = ((w as u64) + 7) / 8;
        let b = self.find(st, addr, n)?;
        let o = match st.mem.get(&b) {
            Some(o) => o.clone(),
            None => self.obj(st, b),
        };
        let s = (addr - b) as usize;
        let e = s + n as usize;
        if o.sym.is_empty() || o.sym[s..e].iter().all(|x| *x == 0) {
            let mut v = 0u128;
            for i in (s..e).rev() {
                v = v << 8 | o.data[i] as u128;
            }
            return Ok(V::C(v & mask(w)));
        }
        if o.sym[s..e].iter().all(|x| *x == UNINIT) {
            return Ok(V::U);
        }
        let mut parts = vec![];
        let mut fix = vec![];
        for i in (s..e).rev() {
            parts.push(match Self::fixed(st, o.get(i)) {
                SB::C(c) => konst(c as u128, 8),
                SB::S(x) => x,
                SB::U => {
                    let j = self.junk(8);
                    fix.push((i, j));
                    j
                }
            });
        }
        if !fix.is_empty() && o.kind != Kind::Const {
            self.with_mut(st, b, |o| {
                for (i, j) in fix {
                    o.set(i, SB::S(j));
                }
            })?;
        }
        let mut r = concat(parts);
        if width(r) != w {
            r = extract(r, 0, w);
        }
        Ok(Self::from_e(r))
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u16, v: &V) -> R<()> {
        let n = ((w as u64) + 7) / 8;
        let b = self.find(st, addr, n)?;
        let s = (addr - b) as usize;
        match v {
            V::C(c) => {
                let c = *c;
                self.with_mut(st, b, |o| {
                    for i in 0..n as usize {
                        o.data[s + i] = (c >> (8 * i)) as u8;
                        if !o.sym.is_empty() {
                            o.sym[s + i] = 0;
                        }
                    }
                })
            }
            V::S(e) => {
                let full = if n * 8 != w as u64 { zext(*e, n as u16 * 8) } else { *e };
                let bs: Vec<SB> = (0..n as u16)
                    .map(|i| {
                        let x = byte_of(full, i);
                        match as_const(x) {
                            Some(c) => SB::C(c as u8),
                            None => SB::S(x),
                        }
                    })
                    .collect();
                self.with_mut(st, b, |o| {
                    for (i, x) in bs.iter().enumerate() {
                        o.set(s + i, *x)
                    }
                })
            }
            V::U => self.with_mut(st, b, |o| {
                for i in 0..n as usize {
                    o.set(s + i, SB::U)
                }
            }),
            V::A(_) => Err(Stop::Unsup("store of aggregate as integer".into())),
        }
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr => self.load_int(st, addr, 64),
            Ty::Struct(..) | Ty::Array(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    v.push(self.load(st, addr + ty.field_off(i), &ty.field(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsup("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, addr, *w, v),
            Ty::Ptr => self.store_int(st, addr, 64, v),
            Ty::Struct(..) | Ty::Array(..) => {
                for i in 0..ty.nfields() {
                    let x = match v {
                        V::A(a) => a[i].clone(),
                        _ => V::U,
                    };
                    self.store(st, addr + ty.field_off(i), &ty.field(i), &x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsup("store type".into())),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, zero: bool) -> u64 {
        let al = align.max(16);
        let cur = if kind == Kind::Heap { &mut st.heap } else { &mut st.sp };
        let a = (*cur + al - 1) / al * al;
        *cur = a + size + 32;
        let o = Obj { base: a, data: vec![0; size as usize], sym: if zero { vec![] } else { vec![UNINIT; size as usize] }, kind };
        st.mem.insert(a, Rc::new(o));
        if kind == Kind::Heap {
            st.live_heap += size;
            self.note_peak(st);
        }
        a
    }
    fn note_peak(&mut self, st: &mut State) {
        match st.live_sym {
            Some(e) => match st.sym_peaks.iter_mut().find(|x| x.0 == e) {
                Some(x) => x.1 = x.1.max(st.live_heap),
                None => st.sym_peaks.push((e, st.live_heap)),
            },
            None => {
            if st.live_heap > st.peak_heap {
                st.peak_heap = st.live_heap;
                st.sym_peaks.clear();
                if let Some(e) = st.live_sym {
                    st.sym_peaks.push((e, st.live_heap));
                }
                if st.peak_heap > self.peak_heap {
                    self.peak_heap = st.peak_heap;
                }
            }
            }
        }
    }
    /// heap object whose size is symbolic: as big as it can get, its size accounted for symbolically
    fn alloc_sym(&mut self, st: &mut State, n: E, al: u64, zero: bool) -> R<V> {
        let w = width(n);
        if self.branch(st, ult(konst(1 << 26, w), n))? {
            return Err(Stop::Viol("alloc".into(), format!("allocation of more than {} bytes", 1u64 << 26)));
        }
        // the largest feasible size
        let (mut lo, mut hi) = (eval(n, &mut st.model.borrow_mut()), umax(n).min(1 << 26));
        let mut probe = hi;
        while lo < hi {
            match self.sat(st, ule(konst(probe, w), n)) {
                Ok(None) => hi = probe - 1,
                Ok(Some(mut m)) => lo = eval(n, &mut m).max(probe),
                Err(()) => {
                    let l = self.loc(st);
                    self.unknowns.push(format!("size of an allocation in {}", l));
                    break;
                }
            }
            probe = lo + (hi - lo + 1) / 2;
        }
        // alloc counts the maximum: count the term instead
        let before = (st.peak_heap, st.sym_peaks.clone());
        let a = self.alloc(st, hi as u64, al, Kind::Heap, zero);
        st.live_heap -= hi as u64;
        st.peak_heap = before.0;
        st.sym_peaks = before.1;
        let live = match st.live_sym {
            Some(s) => add(s, n),
            None => n,
        };
        st.live_sym = Some(live);
        Rc::make_mut(&mut st.sym_sizes).insert(a, n);
        self.note_peak(st);
        Ok(V::C(a as u128))
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        match st.mem.get(&p) {
            Some(o) if o.kind == Kind::Heap => {
                match st.sym_sizes.get(&p).cloned() {
                    Some(n) => {
                        let l = sub(st.live_sym.unwrap(), n);
                        st.live_sym = if as_const(l) == Some(0) { None } else { Some(l) };
                        Rc::make_mut(&mut st.sym_sizes).remove(&p);
                    }
                    None => st.live_heap -= o.size(),
                }
                st.mem.remove(&p);
                Ok(())
            }
            _ => Err(Stop::Viol("memory".into(), format!("invalid free of {:#x} in {}", p, self.loc(st)))),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let sb = self.find(st, s, n)?;
        let so = self.obj(st, sb);
        let db = self.find(st, d, n)?;
        let (so_, do_, n) = ((s - sb) as usize, (d - db) as usize, n as usize);
        self.with_mut(st, db, |o| {
            if db == sb {
                o.data.copy_within(so_..so_ + n, do_);
                if !o.sym.is_empty() {
                    o.sym.copy_within(so_..so_ + n, do_);
                }
                return;
            }
            o.data[do_..do_ + n].copy_from_slice(&so.data[so_..so_ + n]);
            if so.sym.is_empty() {
                if !o.sym.is_empty() {
                    for x in &mut o.sym[do_..do_ + n] {
                        *x = 0
                    }
                }
            } else {
                o.ensure_sym();
                o.sym[do_..do_ + n].copy_from_slice(&so.sym[so_..so_ + n]);
            }
        })
    }
    pub fn sb_e(&mut self, b: SB) -> E {
        match b {
            SB::C(c) => konst(c as u128, 8),
            SB::S(e) => e,
            SB::U => self.junk(8),
        }
    }

    // ------------------------------------------------------------ operations
    fn bin(&mut self, op: Bin, w: u16, a: V, b: V) -> R<V> {
        if let (V::C(x), V::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y) & m,
                Bin::Sub => x.wrapping_sub(y) & m,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl if y < w as u128 => x << y & m,
                Bin::LShr if y < w as u128 => x >> y,
                Bin::AShr if y < w as u128 => (to_signed(x, w) >> y) as u128 & m,
                Bin::UDiv if y != 0 => x / y,
                Bin::URem if y != 0 => x % y,
                Bin::SDiv if y != 0 => to_signed(x, w).wrapping_div(to_signed(y, w)) as u128 & m,
                Bin::SRem if y != 0 => to_signed(x, w).wrapping_rem(to_signed(y, w)) as u128 & m,
                Bin::Shl | Bin::LShr | Bin::AShr => return Ok(V::U),
                _ => return Err(Stop::Viol("ub".into(), "division by zero".into())),
            };
            return Ok(V::C(r));
        }
        let x = self.to_e(&a, w);
        let y = self.to_e(&b, w);
        let r = match op {
            Bin::Add => add(x, y),
            Bin::Sub => sub(x, y),
            Bin::Mul => mul(x, y),
            Bin::And => and(x, y),
            Bin::Or => or(x, y),
            Bin::Xor => xor(x, y),
            Bin::Shl => shl(x, y),
            Bin::LShr => lshr(x, y),
            Bin::AShr => ashr(x, y),
            Bin::UDiv => udiv(x, y),
            Bin::URem => urem(x, y),
            Bin::SDiv => sdiv(x, y),
            Bin::SRem => srem(x, y),
        };
        Ok(Self::from_e(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (to_signed(x, w), to_signed(y, w));
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as u128);
        }
        let x = self.to_e(&a, w);
        let y = self.to_e(&b, w);
        Self::from_e(match p {
            Pred::Eq => eq(x, y),
            Pred::Ne => not(eq(x, y)),
            Pred::Ugt => ult(y, x),
            Pred::Uge => ule(y, x),
            Pred::Ult => ult(x, y),
            Pred::Ule => ule(x, y),
            Pred::Sgt => slt(y, x),
            Pred::Sge => sle(y, x),
            Pred::Slt => slt(x, y),
            Pred::Sle => sle(x, y),
        })
    }
    fn select(&mut self, c: E, a: &V, b: &V, ty: &Ty) -> V {
        match (a, b, ty) {
            (V::A(x), V::A(y), _) => {
                let v = (0..x.len()).map(|i| self.select(c, &x[i], &y[i], &ty.field(i))).collect();
                V::A(Rc::new(v))
            }
            (V::U, V::U, _) => V::U,
            _ => {
                let w = ty.bits();
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                Self::from_e(ite(c, x, y))
            }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last().unwrap();
        let prev = f.block;
        let func = f.f.clone();
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<(u32, V)> = b
                .phis
                .iter()
                .map(|(d, v)| {
                    let o = &v.iter().find(|x| x.0 == prev).expect("phi").1;
                    (*d, self.ev(st, o))
                })
                .collect();
            let f = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.block = to;
        f.ip = 0;
    }

    /// A switch whose arms only choose the values that one block starts with: that block and the chosen values,
    /// as terms, instead of a path per arm.
    fn merge(&mut self, st: &State, e: E, w: u16, dflt: u32, cases: &[(u128, u32)]) -> Option<(u32, Vec<(u32, V)>)> {
        let f = st.frames.last().unwrap();
        let (cur, func) = (f.block, f.f.clone());
        let ends = |t: u32| -> (u32, u32) {
            let (mut pred, mut b) = (cur, t);
            for _ in 0..4 {
                let blk = &func.blocks[b as usize];
                match blk.ins.first() {
                    Some(Ins::Br(n)) if blk.phis.is_empty() => {
                        pred = b;
                        b = *n;
                    }
                    _ => break,
                }
            }
            (pred, b)
        };
        // (destination, predecessor it is entered from, keys)
        let mut arms: Vec<(u32, Vec<u128>)> = vec![];
        let (dp, m) = ends(dflt);
        let dead = func.blocks[dflt as usize].ins.len() == 1 && matches!(func.blocks[dflt as usize].ins[0], Ins::Unreachable);
        if dead {
            return None;
        }
        for (k, t) in cases {
            let (p, b) = ends(*t);
            if b != m {
                return None;
            }
            match arms.iter_mut().find(|x| x.0 == p) {
                Some(x) => x.1.push(*k),
                None => arms.push((p, vec![*k])),
            }
        }
        let blk = &func.blocks[m as usize];
        if blk.phis.is_empty() {
            return Some((m, vec![]));
        }
        let mut out = vec![];
        for ((d, v), pw) in blk.phis.iter().zip(blk.phi_ty.iter()) {
            let pw = match pw {
                Ty::Int(n) if *n <= 128 => *n,
                _ => return None,
            };
            let at = |p: u32| v.iter().find(|x| x.0 == p).map(|x| &x.1);
            let mut r = match self.ev(st, at(dp)?) {
                V::C(c) => Some(konst(c, pw)),
                V::S(x) => Some(x),
                V::U => None,
                V::A(_) => return None,
            };
            // arms by value; those whose value is the key itself become one
            let mut same = fals();
            let mut by: Vec<(E, E)> = vec![];
            for (p, ks) in &arms {
                let x = match self.ev(st, at(*p)?) {
                    V::C(c) => konst(c, pw),
                    V::S(x) => x,
                    V::U => continue,
                    V::A(_) => return None,
                };
                for k in ks {
                    let is = eq(e, konst(*k, w));
                    if pw <= w && as_const(x) == Some(*k & mask(pw)) {
                        same = or(same, is);
                    } else {
                        match by.iter_mut().find(|b| b.0 == x) {
                            Some(b) => b.1 = or(b.1, is),
                            None => by.push((x, is)),
                        }
                    }
                }
            }
            for (x, c) in by {
                r = Some(match r {
                    Some(r) => ite(c, x, r),
                    None => x,
                });
            }
            if as_const(same) != Some(0) {
                let id = if pw < w { extract(e, 0, pw) } else { e };
                r = Some(match r {
                    Some(r) => ite(same, id, r),
                    None => id,
                });
            }
            out.push((*d, match r {
                Some(r) => Self::from_e(r),
                None => V::U,
            }));
        }
        Some((m, out))
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let id = *self.p.by_sym.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.p.func(id);
        State {
            frames: vec![Frame { regs: vec![V::U; f.nregs], f, block: 0, ip: 0, ret: None, sp: 0x7000_0000_0000 }],
            mem: BTreeMap::new(),
            heap: 0x5000_0000_0000,
            sp: 0x7000_0000_0000,
            pc: vec![],
            known: Rc::new(HashMap::new()),
            model: Rc::new(RefCell::new(Model::new(0x1234))),
            inputs: vec![],
            panic_ok: false,
            ct: false,
            live_heap: 0,
            peak_heap: 0,
            live_sym: None,
            sym_peaks: vec![],
            sym_sizes: Rc::new(HashMap::new()),
            rand_left: i64::MAX,
            rand_fixed: u64::MAX,
            uf_fixed: false,
            rand_log: Rc::new(vec![]),
            steps: 0,
            forced: None,
        }
    }
    fn concrete_inputs(&self, st: &State) -> Vec<(char, Vec<u8>)> {
        let mut m = st.model.borrow_mut();
        st.inputs
            .iter()
            .filter_map(|i| match i {
                Input::Bytes(v) => Some(('b', v.iter().map(|e| eval(*e, &mut m) as u8).collect())),
                Input::Rand(v) => Some(('r', v.iter().map(|e| eval(*e, &mut m) as u8).collect())),
                Input::Choose(k) => Some(('c', (*k as u32).to_le_bytes().to_vec())),
                Input::Junk => None,
            })
            .collect()
    }
    pub fn violation(&mut self, st: &State, id: &str, what: &str) {
        let key = format!("{} {}", id, what);
        if !self.viol_keys.insert(key) || self.viols.len() >= 20 {
            return;
        }
        let inputs = self.concrete_inputs(st);
        let trace = st.frames.iter().rev().take(8).map(|f| f.f.dem.to_string()).collect();
        self.viols.push(Viol { id: id.into(), what: what.into(), inputs, trace });
    }
    pub fn run(&mut self, entry: &str) {
        let st = self.initial(entry);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline || self.paths >= self.max_paths {
                *self.ends.entry("limit".into()).or_insert(0) += 1 + self.work.len() as u64;
                self.unknowns.push("path or time limit reached".into());
                break;
            }
            if self.viols.len() >= self.max_viols {
                *self.ends.entry("stopped-after-violations".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
            let end = self.path(&mut st);
            self.paths += 1;
            let k = rs_kind(&end);
            match &end {
                Stop::Panic(m) => {
                    if !st.panic_ok {
                        self.violation(&st, "panic", m);
                    }
                }
                Stop::Viol(id, w) => self.violation(&st, id, w),
                Stop::Unsup(m) => *self.unsup.entry(m.clone()).or_insert(0) += 1,
                Stop::Done => {
                    if self.samples.len() < 16 || self.paths.is_power_of_two() && self.samples.len() < 40 {
                        let i = self.concrete_inputs(&st);
                        self.samples.push((i, k.clone()));
                    }
                }
                _ => {}
            }
            *self.ends.entry(k).or_insert(0) += 1;
        }
    }
    fn path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step_block(st) {
                Ok(true) => return Stop::Done,
                Ok(false) => {}
                Err(s) => return s,
            }
            if st.steps & 0xfff == 0 && Instant::now() > self.deadline {
                self.unknowns.push("time limit reached".into());
                return Stop::Bound("time".into());
            }
        }
    }
    fn step_block(&mut self, st: &mut State) -> R<bool> {
        st.steps += 1;
        let (func, blk, mut ip) = {
            let f = st.frames.last().unwrap();
            (f.f.clone(), f.block, f.ip)
        };
        let b = &func.blocks[blk as usize];
        loop {
            let ins = &b.ins[ip as usize];
            self.instrs += 1;
            match ins {
                Ins::Bin(op, w, d, x, y) => {
                    let (a, c) = (self.ev(st, x), self.ev(st, y));
                    if st.ct && matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        if matches!(a, V::S(_)) || matches!(c, V::S(_)) {
                            if !matches!(c, V::C(_)) {
                                let l = self.loc(st);
                                return Err(Stop::Viol("ct-div".into(), format!("division on secret data in {}", l)));
                            }
                        }
                    }
                    let r = self.bin(*op, *w, a, c)?;
                    self.set(st, *d, r);
                }
                Ins::ICmp(p, w, d, x, y) => {
                    let (a, c) = (self.ev(st, x), self.ev(st, y));
                    let r = self.icmp(*p, *w, a, c);
                    self.set(st, *d, r);
                }
                Ins::Cast(op, wf, wt, d, x) => {
                    let v = self.ev(st, x);
                    let r = match (&v, op) {
                        (V::U, CastOp::Zext) => {
                            let e = self.to_e(&v, *wf);
                            Self::from_e(zext(e, *wt))
                        }
                        (V::U, _) => V::U,
                        (V::C(c), CastOp::Trunc) => V::C(c & mask(*wt)),
                        (V::C(c), CastOp::Sext) => V::C(to_signed(*c, *wf) as u128 & mask(*wt)),
                        (V::C(c), _) => V::C(*c),
                        (V::S(e), CastOp::Trunc) => Self::from_e(extract(*e, 0, *wt)),
                        (V::S(e), CastOp::Zext) => Self::from_e(zext(*e, *wt)),
                        (V::S(e), CastOp::Sext) => Self::from_e(sext(*e, *wt)),
                        (V::S(e), CastOp::Same) => V::S(*e),
                        _ => return Err(Stop::Unsup("cast".into())),
                    };
                    self.set(st, *d, r);
                }
                Ins::Select(d, c, x, y, ty) => {
                    let cv = self.ev(st, c);
                    let r = match cv {
                        V::C(k) => self.ev(st, if k & 1 == 1 { x } else { y }),
                        v => {
                            let (a, b2) = (self.ev(st, x), self.ev(st, y));
                            let e = self.to_e(&v, 1);
                            if let Some(k) = self.known_value(st, e) {
                                if k == 1 { a } else { b2 }
                            } else if *ty == Ty::Ptr && !matches!((&a, &b2), (V::C(p), V::C(q)) if p == q) {
                                // pointers stay concrete
                                let saved = st.frames.last().unwrap().ip;
                                st.frames.last_mut().unwrap().ip = ip;
                                if st.ct {
                                    self.select(e, &a, &b2, ty)
                                } else {
                                    let t = self.branch(st, e)?;
                                    st.frames.last_mut().unwrap().ip = saved;
                                    if t { a } else { b2 }
                                }
                            } else {
                                self.select(e, &a, &b2, ty)
                            }
                        }
                    };
                    self.set(st, *d, r);
                }
                Ins::Load(d, ty, p) => {
                    let pv = self.ev(st, p);
                    let a = match pv {
                        V::C(a) => a as u64,
                        v => {
                            st.frames.last_mut().unwrap().ip = ip;
                            self.conc(st, &v)? as u64
                        }
                    };
                    let r = self.load(st, a, ty)?;
                    self.set(st, *d, r);
                }
                Ins::Store(ty, v, p) => {
                    let pv = self.ev(st, p);
                    let a = match pv {
                        V::C(a) => a as u64,
                        v => {
                            st.frames.last_mut().unwrap().ip = ip;
                            self.conc(st, &v)? as u64
                        }
                    };
                    let x = self.ev(st, v);
                    self.store(st, a, ty, &x)?;
                }
                Ins::Alloca(d, size, al) => {
                    let a = self.alloc(st, *size, *al, Kind::Stack, false);
                    self.set(st, *d, V::C(a as u128));
                }
                Ins::Gep(d, base, off, idx) => {
                    let bv = self.ev(st, base);
                    let mut cacc = *off;
                    let mut sacc: Option<E> = None;
                    for (o, w, scale) in idx {
                        match self.ev(st, o) {
                            V::C(k) => cacc = cacc.wrapping_add((to_signed(k, *w) as i64 as u64).wrapping_mul(*scale)),
                            v => {
                                let e = self.to_e(&v, *w);
                                let e = if *w < 64 { sext(e, 64) } else { e };
                                let t = mul(e, konst(*scale as u128, 64));
                                sacc = Some(match sacc {
                                    Some(s) => add(s, t),
                                    None => t,
                                });
                            }
                        }
                    }
                    let r = match (bv, sacc) {
                        (V::C(b), None) => V::C((b as u64).wrapping_add(cacc) as u128),
                        (V::U, _) => V::U,
                        (b, s) => {
                            let e = self.to_e(&b, 64);
                            let mut e = add(e, konst(cacc as u128, 64));
                            if let Some(s) = s {
                                e = add(e, s);
                            }
                            Self::from_e(e)
                        }
                    };
                    self.set(st, *d, r);
                }
                Ins::ExtractValue(d, a, path) => {
                    let mut v = self.ev(st, a);
                    for i in path {
                        v = match v {
                            V::A(x) => x[*i as usize].clone(),
                            _ => V::U,
                        };
                    }
                    self.set(st, *d, v);
                }
                Ins::InsertValue(d, a, x, path, ty) => {
                    let v = self.ev(st, a);
                    let x = self.ev(st, x);
                    let r = insert(v, x, path, ty);
                    self.set(st, *d, r);
                }
                Ins::Copy(d, x) => {
                    let v = self.ev(st, x);
                    self.set(st, *d, v);
                }
                Ins::Br(t) => {
                    self.jump(st, *t);
                    return Ok(false);
                }
                Ins::CondBr(c, t, e) => {
                    let v = self.ev(st, c);
                    let k = match v {
                        V::C(k) => k & 1 == 1,
                        v => {
                            st.frames.last_mut().unwrap().ip = ip;
                            let x = self.to_e(&v, 1);
                            self.branch(st, x)?
                        }
                    };
                    self.jump(st, if k { *t } else { *e });
                    return Ok(false);
                }
                Ins::Switch(w, c, d, cases) => {
                    let v = self.ev(st, c);
                    let k = match v {
                        V::C(k) => Some(k),
                        V::S(e) => match self.known_value(st, e) {
                            Some(k) => Some(k),
                            None => {
                                // decide case by case
                                st.frames.last_mut().unwrap().ip = ip;
                                if !st.ct {
                                    if let Some((m, vals)) = self.merge(st, e, *w, *d, cases) {
                                        let f = st.frames.last_mut().unwrap();
                                        for (d, v) in vals {
                                            f.regs[d as usize] = v;
                                        }
                                        f.block = m;
                                        f.ip = 0;
                                        return Ok(false);
                                    }
                                }
                                let mut hit = None;
                                // group cases by target
                                let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                                for (k, t) in cases {
                                    match groups.iter_mut().find(|g| g.0 == *t) {
                                        Some(g) => g.1.push(*k),
                                        None => groups.push((*t, vec![*k])),
                                    }
                                }
                                // the model's target first: fewer solver calls
                                let cur = eval(e, &mut st.model.borrow_mut());
                                groups.sort_by_key(|g| !g.1.contains(&cur));
                                for (t, ks) in &groups {
                                    let mut c = fals();
                                    for k in ks {
                                        c = or(c, eq(e, konst(*k, *w)));
                                    }
                                    if self.branch(st, c)? {
                                        hit = Some(*t);
                                        break;
                                    }
                                }
                                self.jump(st, hit.unwrap_or(*d));
                                return Ok(false);
                            }
                        },
                        _ => return Err(Stop::Unsup("switch on undef".into())),
                    };
                    let k = k.unwrap();
                    let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                    self.jump(st, t);
                    return Ok(false);
                }
                Ins::Ret(v) => {
                    let r = v.as_ref().map(|o| self.ev(st, o));
                    let f = st.frames.pop().unwrap();
                    // release the frame's stack objects
                    let dead: Vec<u64> = st.mem.range(f.sp..0x7fff_ffff_ffff).map(|x| *x.0).collect();
                    for a in dead {
                        st.mem.remove(&a);
                    }
                    st.sp = f.sp;
                    if st.frames.is_empty() {
                        return Ok(true);
                    }
                    if let (Some(d), Some(r)) = (f.ret, r) {
                        self.set(st, d, r);
                    }
                    return Ok(false);
                }
                Ins::Unreachable => {
                    return Err(Stop::Viol("ub".into(), format!("unreachable code reached in {}", self.loc(st))));
                }
                Ins::Call(d, rty, callee, args) => {
                    st.frames.last_mut().unwrap().ip = ip;
                    let (fid, kind, name): (Option<usize>, Builtin, Rc<str>) = match callee {
                        Callee::Fn(id) => {
                            let f = self.p.func(*id);
                            (Some(*id), f.kind.clone(), f.dem.clone())
                        }
                        Callee::Ext(s, d) => {
                            let key = s.as_ptr() as usize;
                            let k = match self.extcache.get(&key) {
                                Some(k) => k.clone(),
                                None => {
                                    let k = classify(s, d);
                                    self.extcache.insert(key, k.clone());
                                    k
                                }
                            };
                            (None, k, if d.is_empty() { s.clone() } else { d.clone() })
                        }
                        Callee::Ind(o) => {
                            let v = self.ev(st, o);
                            let a = self.conc(st, &v)? as u64;
                            if a < FN_BASE || a >= G_BASE {
                                return Err(Stop::Viol("memory".into(), format!("call through bad pointer {:#x} in {}", a, self.loc(st))));
                            }
                            let id = ((a - FN_BASE) / 16) as usize;
                            let f = self.p.func(id);
                            (Some(id), f.kind.clone(), f.dem.clone())
                        }
                    };
                    if let Builtin::Contract(o) = kind {
                        let av: Vec<V> = args.iter().map(|(_, o)| self.ev(st, o)).collect();
                        if let Some(r) = self.contract(st, o, &av)? {
                            if let (Some(d), Some(r)) = (d, r) {
                                self.set(st, *d, r);
                            }
                            if let Some(i) = fid {
                                if self.seen_f.insert(usize::MAX / 2 - i) {
                                    self.funcs.insert(format!("[contract] {}", name), 0);
                                }
                            }
                            st.frames.last_mut().unwrap().ip = ip + 1;
                            ip += 1;
                            continue;
                        }
                    }
                    if !kind.overrides() {
                        let id = match fid {
                            Some(i) if self.p.fns[i].module != usize::MAX => i,
                            _ => return Err(Stop::Unsup(format!("external function {}", name))),
                        };
                        let f = self.p.func(id);
                        if self.seen_f.insert(id) {
                            self.funcs.insert(f.dem.to_string(), f.lines);
                        }
                        if st.frames.len() > 400 {
                            return Err(Stop::Viol("stack".into(), "call depth over 400".into()));
                        }
                        let mut regs = vec![V::U; f.nregs];
                        for (i, (_, o)) in args.iter().enumerate() {
                            if i < f.nparams {
                                regs[i] = self.ev(st, o);
                            }
                        }
                        let sp = st.sp;
                        // byval arguments are not used by rustc on this target
                        let fr = st.frames.last_mut().unwrap();
                        fr.ip = ip + 1;
                        st.frames.push(Frame { f, block: 0, ip: 0, regs, ret: *d, sp });
                        return Ok(false);
                    }
                    let av: Vec<V> = args.iter().map(|(_, o)| self.ev(st, o)).collect();
                    let r = self.builtin(st, &kind, &name, av, args, rty)?;
                    if let (Some(d), Some(r)) = (d, r) {
                        self.set(st, *d, r);
                    }
                    st.frames.last_mut().unwrap().ip = ip + 1;
                }
                Ins::Rmw(k, w, d, p, v) => {
                    st.frames.last_mut().unwrap().ip = ip;
                    let pv = self.ev(st, p);
                    let a = self.conc(st, &pv)? as u64;
                    let old = self.load_int(st, a, *w)?;
                    let x = self.ev(st, v);
                    let op = match k.as_str() {
                        "add" => Some(Bin::Add),
                        "sub" => Some(Bin::Sub),
                        "and" => Some(Bin::And),
                        "or" => Some(Bin::Or),
                        "xor" => Some(Bin::Xor),
                        "xchg" => None,
                        _ => return Err(Stop::Unsup(format!("atomicrmw {}", k))),
                    };
                    let n = match op {
                        Some(o) => self.bin(o, *w, old.clone(), x)?,
                        None => x,
                    };
                    self.store_int(st, a, *w, &n)?;
                    self.set(st, *d, old);
                }
                Ins::CmpXchg(w, d, p, c, n) => {
                    st.frames.last_mut().unwrap().ip = ip;
                    let pv = self.ev(st, p);
                    let a = self.conc(st, &pv)? as u64;
                    let old = self.load_int(st, a, *w)?;
                    let c = self.ev(st, c);
                    let e = self.icmp(Pred::Eq, *w, old.clone(), c);
                    let k = match e {
                        V::C(k) => k == 1,
                        _ => return Err(Stop::Unsup("symbolic cmpxchg".into())),
                    };
                    if k {
                        let n = self.ev(st, n);
                        self.store_int(st, a, *w, &n)?;
                    }
                    self.set(st, *d, V::A(Rc::new(vec![old, V::C(k as u128)])));
                }
                Ins::Nop => {}
                Ins::Unsup(m) => return Err(Stop::Unsup(format!("{} (in {})", m, func.dem))),
            }
            ip += 1;
        }
    }
    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.read(st, p, n) {
            Ok(v) => v.iter().map(|b| if let SB::C(c) = b { *c as char } else { '?' }).collect(),
            Err(_) => "?".into(),
        }
    }
    fn location(&mut self, st: &mut State, av: &[V]) -> Option<String> {
        for v in av.iter().rev() {
            if let V::C(p) = v {
                let p = *p as u64;
                if p < G_BASE || p >= 0x3000_0000_0000 {
                    continue;
                }
                let g = match self.p.ginfo.get(&p) {
                    Some(g) => g,
                    None => continue,
                };
                if g.size != 24 {
                    continue;
                }
                if let (Ok(V::C(f)), Ok(V::C(n)), Ok(V::C(l)), Ok(V::C(c))) =
                    (self.load_int(st, p, 64), self.load_int(st, p + 8, 64), self.load_int(st, p + 16, 32), self.load_int(st, p + 20, 32))
                {
                    let n = n as u64;
                    if n > 1 && n < 300 {
                        let mut s = self.read_str(st, f as u64, n);
                        if s.ends_with('\0') {
                            s.pop();
                        }
                        return Some(format!("{}:{}:{}", s, l, c));
                    }
                }
            }
        }
        None
    }
    fn builtin(&mut self, st: &mut State, kind: &Builtin, name: &str, av: Vec<V>, args: &[(Ty, Opd)], rty: &Ty) -> R<Option<V>> {
        match kind {
            Builtin::Panic => {
                let l = self.location(st, &av).unwrap_or_default();
                let mut w = format!("{} at {}", name.rsplit("::").next().unwrap_or(name), l);
                // a plain message
                if name == "core::panicking::panic" {
                    if let (V::C(p), V::C(n)) = (&av[0], &av[1]) {
                        let m = self.read_str(st, *p as u64, *n as u64);
                        w = format!("panic \"{}\" at {}", m, l);
                    }
                }
                Err(Stop::Panic(w))
            }
            Builtin::Abort => Err(Stop::Panic("abort".into())),
            Builtin::Nop => Ok(None),
            Builtin::Alloc(z) => {
                if let V::S(n) = &av[0] {
                    let n = *n;
                    if self.known_value(st, n).is_none() && !st.ct && umax(n) - umin(n) > 16 {
                        let al = self.conc(st, &av[1])? as u64;
                        return self.alloc_sym(st, n, al, *z).map(Some);
                    }
                }
                let n = self.conc(st, &av[0])? as u64;
                let al = self.conc(st, &av[1])? as u64;
                if n > 1 << 26 {
                    return Err(Stop::Viol("alloc".into(), format!("allocation of {} bytes", n)));
                }
                Ok(Some(V::C(self.alloc(st, n, al, Kind::Heap, *z) as u128)))
            }
            Builtin::Dealloc => {
                let p = self.conc(st, &av[0])? as u64;
                self.free(st, p)?;
                Ok(None)
            }
            Builtin::Realloc => {
                let p = self.conc(st, &av[0])? as u64;
                let old = self.conc(st, &av[1])? as u64;
                let al = self.conc(st, &av[2])? as u64;
                let n = self.conc(st, &av[3])? as u64;
                if n > 1 << 26 {
                    return Err(Stop::Viol("alloc".into(), format!("allocation of {} bytes", n)));
                }
                let q = self.alloc(st, n, al, Kind::Heap, false);
                self.memcpy(st, q, p, old.min(n))?;
                self.free(st, p)?;
                Ok(Some(V::C(q as u128)))
            }
            Builtin::FormatInner => {
                let p = self.conc(st, &av[0])? as u64;
                self.store_int(st, p, 64, &V::C(0))?;
                self.store_int(st, p + 8, 64, &V::C(1))?;
                self.store_int(st, p + 16, 64, &V::C(0))?;
                Ok(None)
            }
            Builtin::FmtWrite => Ok(Some(V::C(0))),
            Builtin::GetRandom => {
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                st.rand_left = st.rand_left.saturating_sub(n as i64);
                if st.rand_left < 0 {
                    return Err(Stop::Bound("random-draws".into()));
                }
                let mut v = self.fresh(n, "rnd");
                let mut sb: Vec<SB> = v.iter().map(|e| SB::S(*e)).collect();
                let at = st.rand_log.len() as u64;
                for i in 0..n {
                    if at + i >= st.rand_fixed {
                        let c = ((at + i) * 167 + 13 + (at + i) / 11) as u8;
                        v[i as usize] = konst(c as u128, 8);
                        sb[i as usize] = SB::C(c);
                    }
                }
                self.write(st, p, &sb)?;
                Rc::make_mut(&mut st.rand_log).extend_from_slice(&sb);
                st.inputs.push(Input::Rand(v));
                Ok(Some(V::C(0)))
            }
            Builtin::Mem(s) => self.mem_fn(st, s.clone(), &av),
            Builtin::Intr(s) => self.intr(st, s.clone(), av, args, rty),
            Builtin::Sv(s) => self.sv(st, s.clone(), av),
            Builtin::Uf(i) => self.uf(st, *i, av),
            Builtin::No | Builtin::Contract(_) => unreachable!(),
        }
    }
    pub fn fresh(&mut self, n: u64, tag: &str) -> Vec<E> {
        let k = self.nin;
        self.nin += 1;
        (0..n).map(|i| new_var(format!("{}{}_{}", tag, k, i), 8, false)).collect()
    }
    pub fn missing_ufs(&self) -> Vec<String> {
        UFS.with(|u| u.borrow().iter().map(|s| s.name.clone()).filter(|n| !self.p.by_dem.contains_key(n) && !self.p.by_sym.contains_key(n.as_str())).collect())
    }
    fn uf(&mut self, st: &mut State, i: usize, av: Vec<V>) -> R<Option<V>> {
        let (name, spec, ret) = UFS.with(|u| {
            let u = u.borrow();
            (u[i].name.clone(), u[i].args.clone(), u[i].ret)
        });
        let mut ins = vec![];
        for (k, a, n) in &spec {
            match k {
                b'i' => {
                    let p = self.conc(st, &av[*a])? as u64;
                    let b = self.read(st, p, *n as u64)?;
                    for ch in b.chunks(4) {
                        let v: Vec<E> = ch.iter().rev().map(|x| self.sb_e(*x)).collect();
                        ins.push(concat(v));
                    }
                }
                b'v' => ins.push(self.to_e(&av[*a], *n as u16)),
                b's' => {
                    // slice: pointer and length arguments
                    let p = self.conc(st, &av[*a])? as u64;
                    let l = self.conc(st, &av[*a + 1])? as u64;
                    let b = self.read(st, p, l)?;
                    for x in b {
                        ins.push(self.sb_e(x));
                    }
                }
                _ => {}
            }
        }
        let f = fid(&format!("{}#{}", name, ins.len()));
        let mut idx = 0;
        // a value of its own for each call with constant arguments
        let mut sample = None;
        if st.uf_fixed && ins.iter().all(|e| as_const(*e).is_some()) {
            let mut h: u64 = 0xcbf29ce484222325 ^ f as u64;
            for e in &ins {
                h = (h ^ as_const(*e).unwrap() as u64).wrapping_mul(0x9e3779b97f4a7c15);
                h ^= h >> 29;
            }
            sample = Some(h);
        }
        let mut draw = |idx: u32, w: u16| match sample.as_mut() {
            Some(h) => {
                *h = (*h ^ (*h >> 31)).wrapping_mul(0xbf58476d1ce4e5b9).wrapping_add(idx as u64);
                konst((*h >> 32) as u128 & mask(w), w)
            }
            None => app(f, ins.clone(), idx, w),
        };
        for (k, a, n) in &spec {
            if *k == b'o' {
                let p = self.conc(st, &av[*a])? as u64;
                let mut out = vec![];
                for _ in 0..n / 4 {
                    let e = draw(idx, 32);
                    idx += 1;
                    for j in 0..4 {
                        let x = byte_of(e, j);
                        out.push(match as_const(x) {
                            Some(c) => SB::C(c as u8),
                            None => SB::S(x),
                        });
                    }
                }
                self.write(st, p, &out)?;
            }
        }
        if self.seen_f.insert(usize::MAX - i) {
            self.funcs.insert(format!("[uninterpreted] {}", name), 0);
        }
        if ret > 0 {
            return Ok(Some(Self::from_e(draw(idx, ret as u16))));
        }
        Ok(None)
    }
    fn mem_fn(&mut self, st: &mut State, s: Rc<str>, av: &[V]) -> R<Option<V>> {
        match &*s {
            "memcpy" | "memmove" => {
                let (d, p, n) = (self.conc(st, &av[0])? as u64, self.conc(st, &av[1])? as u64, self.conc(st, &av[2])? as u64);
                self.memcpy(st, d, p, n)?;
                Ok(Some(V::C(d as u128)))
            }
            "memset" => {
                let d = self.conc(st, &av[0])? as u64;
                let n = match &av[2] {
                    V::S(n) if st.sym_sizes.get(&d) == Some(n) && !st.ct => {
                        // the whole of a fresh object: what lies beyond its real size is never valid to read
                        let o = st.mem[&d].clone();
                        if o.sym.iter().all(|x| *x == UNINIT) { o.size() } else { self.conc(st, &av[2])? as u64 }
                    }
                    v => self.conc(st, v)? as u64,
                };
                let b = match &av[1] {
                    V::C(c) => SB::C(*c as u8),
                    V::S(e) => {
                        let x = extract(*e, 0, 8);
                        match as_const(x) {
                            Some(c) => SB::C(c as u8),
                            None => SB::S(x),
                        }
                    }
                    _ => SB::U,
                };
                let v = vec![b; n as usize];
                self.write(st, d, &v)?;
                Ok(Some(V::C(d as u128)))
            }
            "memcmp" | "bcmp" => {
                let (a, b, n) = (self.conc(st, &av[0])? as u64, self.conc(st, &av[1])? as u64, self.conc(st, &av[2])? as u64);
                let x = self.read(st, a, n)?;
                let y = self.read(st, b, n)?;
                if st.ct && x.iter().chain(y.iter()).any(|b| !matches!(b, SB::C(_))) {
                    let l = self.loc(st);
                    return Err(Stop::Viol("ct-memcmp".into(), format!("variable-time memory comparison of secret data in {}", l)));
                }
                let mut all = tru();
                let mut r = konst(0, 32);
                for i in (0..n as usize).rev() {
                    if let (SB::C(p), SB::C(q)) = (x[i], y[i]) {
                        if p != q {
                            r = konst(if p < q { mask(32) } else { 1 }, 32);
                            all = fals();
                        }
                        continue;
                    }
                    let (p, q) = (self.sb_e(x[i]), self.sb_e(y[i]));
                    let e = eq(p, q);
                    all = and(all, e);
                    if &*s == "memcmp" {
                        let l = ite(ult(p, q), konst(mask(32), 32), konst(1, 32));
                        r = ite(e, r, l);
                    }
                }
                if &*s == "bcmp" {
                    r = zext(not(all), 32);
                }
                Ok(Some(Self::from_e(r)))
            }
            _ => Err(Stop::Unsup(format!("libc {}", s))),
        }
    }
    fn intr(&mut self, st: &mut State, s: Rc<str>, av: Vec<V>, args: &[(Ty, Opd)], _rty: &Ty) -> R<Option<V>> {
        let n = &s[5..];
        let w = args.first().map(|a| a.0.bits()).unwrap_or(0);
        let base = n.split('.').next().unwrap();
        let full: Vec<&str> = n.split('.').collect();
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            return self.mem_fn(st, "memcpy".into(), &av).map(|_| None);
        }
        if n.starts_with("memset") {
            return self.mem_fn(st, "memset".into(), &av).map(|_| None);
        }
        if full.len() >= 3 && full[1] == "with" {
            let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
            let (r, o) = match base {
                "uadd" => {
                    let r = add(x, y);
                    let o = if w < 128 {
                        let t = add(zext(x, w + 1), zext(y, w + 1));
                        if umax(t) <= mask(w) { fals() } else { ult(r, x) }
                    } else {
                        ult(r, x)
                    };
                    (r, o)
                }
                "usub" => (sub(x, y), ult(x, y)),
                "sadd" => {
                    let t = add(sext(x, w + 1), sext(y, w + 1));
                    let r = extract(t, 0, w);
                    (r, not(eq(sext(r, w + 1), t)))
                }
                "ssub" => {
                    let t = sub(sext(x, w + 1), sext(y, w + 1));
                    let r = extract(t, 0, w);
                    (r, not(eq(sext(r, w + 1), t)))
                }
                "umul" => {
                    let r = mul(x, y);
                    if umax(x).checked_mul(umax(y)).map_or(false, |m| m <= mask(w)) {
                        (r, fals())
                    } else if w <= 64 {
                        let t = mul(zext(x, 2 * w), zext(y, 2 * w));
                        (r, not(eq(extract(t, w, w), konst(0, w))))
                    } else {
                        return Err(Stop::Unsup(s.to_string()));
                    }
                }
                "smul" if w <= 64 => {
                    let t = mul(sext(x, 2 * w), sext(y, 2 * w));
                    let r = extract(t, 0, w);
                    (r, not(eq(sext(r, 2 * w), t)))
                }
                _ => return Err(Stop::Unsup(s.to_string())),
            };
            return Ok(Some(V::A(Rc::new(vec![Self::from_e(r), Self::from_e(o)]))));
        }
        let e1 = |me: &mut Self| me.to_e(&av[0], w);
        let r = match base {
            "expect" => return Ok(Some(av[0].clone())),
            "is" => return Ok(Some(V::C(0))),
            "threadlocal" => return Ok(Some(av[0].clone())),
            "trap" | "debugtrap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            "umax" | "umin" | "smax" | "smin" => {
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                match base {
                    "umax" => ite(ult(x, y), y, x),
                    "umin" => ite(ult(x, y), x, y),
                    "smax" => ite(slt(x, y), y, x),
                    _ => ite(slt(x, y), x, y),
                }
            }
            "uadd" if full[1] == "sat" => {
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let r = add(x, y);
                ite(ult(r, x), konst(mask(w), w), r)
            }
            "usub" if full[1] == "sat" => {
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                ite(ult(x, y), konst(0, w), sub(x, y))
            }
            "fshl" | "fshr" => {
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let k = match &av[2] {
                    V::C(k) => (*k % w as u128) as u16,
                    _ => {
                        // rotate by a symbolic amount
                        let z = self.to_e(&av[2], w);
                        let z = urem(z, konst(w as u128, w));
                        let wk = konst(w as u128, w);
                        let zero = eq(z, konst(0, w));
                        let r = if base == "fshl" {
                            ite(zero, x, or(shl(x, z), lshr(y, sub(wk, z))))
                        } else {
                            ite(zero, y, or(shl(x, sub(wk, z)), lshr(y, z)))
                        };
                        return Ok(Some(Self::from_e(r)));
                    }
                };
                let k = if base == "fshl" { k } else { (w - k) % w };
                if k == 0 {
                    if base == "fshl" { x } else { y }
                } else {
                    concat(vec![extract(x, 0, w - k), extract(y, w - k, k)])
                }
            }
            "bswap" => {
                let x = e1(self);
                let v: Vec<E> = (0..w / 8).map(|i| byte_of(x, i)).collect();
                concat(v)
            }
            "bitreverse" => {
                let x = e1(self);
                let v: Vec<E> = (0..w).map(|i| extract(x, i, 1)).collect();
                concat(v)
            }
            "ctpop" => {
                let x = e1(self);
                let mut r = konst(0, w);
                for i in 0..w {
                    r = add(r, zext(extract(x, i, 1), w));
                }
                r
            }
            "ctlz" => {
                let x = e1(self);
                let mut r = konst(w as u128, w);
                for i in 0..w {
                    r = ite(extract(x, i, 1), konst((w - 1 - i) as u128, w), r);
                }
                r
            }
            "cttz" => {
                let x = e1(self);
                let mut r = konst(w as u128, w);
                for i in (0..w).rev() {
                    r = ite(extract(x, i, 1), konst(i as u128, w), r);
                }
                r
            }
            "abs" => {
                let x = e1(self);
                ite(slt(x, konst(0, w)), neg(x), x)
            }
            "ucmp" | "scmp" => {
                let rw = match full.get(1) {
                    Some(t) => t[1..].parse::<u16>().unwrap_or(8),
                    None => 8,
                };
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let l = if base == "ucmp" { ult(x, y) } else { slt(x, y) };
                ite(l, konst(mask(rw), rw), ite(eq(x, y), konst(0, rw), konst(1, rw)))
            }
            "ptrmask" => {
                let (x, y) = (self.to_e(&av[0], 64), self.to_e(&av[1], 64));
                and(x, y)
            }
            _ => return Err(Stop::Unsup(s.to_string())),
        };
        Ok(Some(Self::from_e(r)))
    }

    // ------------------------------------------------------------ harness interface
    fn sv(&mut self, st: &mut State, s: Rc<str>, av: Vec<V>) -> R<Option<V>> {
        match &*s {
            "sv_bytes" => {
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                let v = self.fresh(n, "in");
                let sb: Vec<SB> = v.iter().map(|e| SB::S(*e)).collect();
                self.write(st, p, &sb)?;
                st.inputs.push(Input::Bytes(v));
                Ok(None)
            }
            "sv_choose" => {
                let n = self.conc(st, &av[0])?;
                if let Some((0, v)) = st.forced {
                    st.forced = None;
                    st.inputs.push(Input::Choose(v as u64));
                    return Ok(Some(V::C(v)));
                }
                if self.part_left > 0 && n > 0 {
                    // the first choice of the entry may be split over several engine processes
                    self.part_left -= 1;
                    let (i, k) = self.part;
                    let mine: Vec<u128> = (0..n).filter(|x| *x as u64 % k == i).collect();
                    if mine.is_empty() {
                        return Err(Stop::Cut);
                    }
                    for v in mine[1..].iter().rev() {
                        let mut o = st.clone();
                        o.forced = Some((0, *v));
                        self.work.push(o);
                    }
                    st.inputs.push(Input::Choose(mine[0] as u64));
                    return Ok(Some(V::C(mine[0])));
                }
                for v in (1..n).rev() {
                    let mut o = st.clone();
                    o.forced = Some((0, v));
                    self.work.push(o);
                }
                st.inputs.push(Input::Choose(0));
                Ok(Some(V::C(0)))
            }
            "sv_param" => {
                let i = self.conc(st, &av[0])? as usize;
                Ok(Some(V::C(*self.params.get(i).unwrap_or(&0) as u128)))
            }
            "sv_assume" => {
                let c = self.cond(&av[0]);
                if let Some(k) = as_const(c) {
                    if k == 0 {
                        return Err(Stop::Assume);
                    }
                    return Ok(None);
                }
                if eval(c, &mut st.model.borrow_mut()) != 1 {
                    match self.sat(st, c) {
                        Ok(None) => return Err(Stop::Assume),
                        Ok(Some(m)) => st.model = Rc::new(RefCell::new(m)),
                        Err(()) => {
                            self.unknowns.push("assume".into());
                            return Err(Stop::Assume);
                        }
                    }
                }
                self.assume(st, c);
                Ok(None)
            }
            "sv_check" => {
                let c = self.cond(&av[0]);
                let id = self.check_id(st, &av[1])?;
                self.check(st, c, &id)?;
                Ok(None)
            }
            "sv_check_eq" => {
                let (a, b, n) = (self.conc(st, &av[0])? as u64, self.conc(st, &av[1])? as u64, self.conc(st, &av[2])? as u64);
                let id = self.check_id(st, &av[3])?;
                let x = self.read(st, a, n)?;
                let y = self.read(st, b, n)?;
                self.check_eq(st, &x, &y, &id)?;
                Ok(None)
            }
            "sv_reach" => {
                let k = self.conc(st, &av[0])? as u64;
                *self.reach.entry(k).or_insert(0) += 1;
                Ok(None)
            }
            "sv_panic_ok" => {
                st.panic_ok = self.conc(st, &av[0])? != 0;
                Ok(None)
            }
            "sv_ct" => {
                st.ct = self.conc(st, &av[0])? != 0;
                Ok(None)
            }
            "sv_rand_limit" => {
                st.rand_left = self.conc(st, &av[0])? as i64;
                Ok(None)
            }
            "sv_uf_fixed" => {
                st.uf_fixed = true;
                Ok(None)
            }
            "sv_rand_fixed" => {
                st.rand_fixed = self.conc(st, &av[0])? as u64;
                Ok(None)
            }
            "sv_rand_again" => {
                // position 0 again: fixed bytes repeat
                st.rand_log = Rc::new(vec![]);
                Ok(None)
            }
            "sv_rand_log" => {
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as usize;
                let l = st.rand_log.clone();
                let k = l.len().min(n);
                if k > 0 {
                    self.write(st, p, &l[..k])?;
                }
                Ok(Some(V::C(l.len() as u128)))
            }
            "sv_concrete" => {
                let v = self.conc(st, &av[0])?;
                Ok(Some(V::C(v)))
            }
            "sv_is_symbolic" => {
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                let b = self.read(st, p, n)?;
                Ok(Some(V::C(b.iter().any(|x| matches!(x, SB::S(_))) as u128)))
            }
            "sv_heap" => Ok(Some(match st.live_sym {
                Some(e) => Self::from_e(add(e, konst(st.live_heap as u128, 64))),
                None => V::C(st.live_heap as u128),
            })),
            "sv_heap_peak" => {
                let mut m = konst(st.peak_heap as u128, 64);
                for (e, k) in &st.sym_peaks {
                    let x = add(*e, konst(*k as u128, 64));
                    m = ite(ult(m, x), x, m);
                }
                Ok(Some(Self::from_e(m)))
            }
            "sv_heap_reset_peak" => {
                st.peak_heap = st.live_heap;
                st.sym_peaks.clear();
                if let Some(e) = st.live_sym {
                    st.sym_peaks.push((e, st.live_heap));
                }
                Ok(None)
            }
            "sv_live" => Ok(Some(V::C(1))),
            "sv_end" => Err(Stop::Done),
            "sv_export" => {
                let id = self.conc(st, &av[0])? as u64;
                let p = self.conc(st, &av[1])? as u64;
                let n = self.conc(st, &av[2])? as u64;
                let bytes = self.read(st, p, n)?;
                self.exports.push(Export { id, bytes });
                Ok(None)
            }
            "sv_note" => {
                let v = self.conc(st, &av[0])?;
                if self.trace {
                    eprintln!("note {}", v);
                }
                Ok(None)
            }
            "sv_dump" => {
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                let b = self.read(st, p, n)?;
                if self.trace {
                    let t: Vec<String> = b
                        .iter()
                        .map(|x| match x {
                            SB::C(c) => format!("{:02x}", c),
                            SB::S(e) => format!("<{}>", e),
                            SB::U => "??".into(),
                        })
                        .collect();
                    eprintln!("dump {}", t.join(" "));
                }
                Ok(None)
            }
            _ => {
                let r = crate::field::sv(self, st, &s, &av)?;
                match r {
                    Some(v) => Ok(v),
                    None => Err(Stop::Unsup(format!("harness call {}", s))),
                }
            }
        }
    }
    fn cond(&mut self, v: &V) -> E {
        match v {
            V::C(c) => konst(c & 1, 1),
            V::S(e) => {
                let w = width(*e);
                if w == 1 {
                    *e
                } else {
                    not(eq(*e, konst(0, w)))
                }
            }
            _ => self.junk(1),
        }
    }
    pub fn check_id(&mut self, st: &mut State, v: &V) -> R<String> {
        Ok(format!("check{}", self.conc(st, v)?))
    }
    pub fn check(&mut self, st: &mut State, c: E, id: &str) -> R<()> {
        let e = self.checks.entry(id.into()).or_insert((0, 0));
        e.0 += 1;
        match as_const(c) {
            Some(1) => return Ok(()),
            Some(_) => {
                let l = self.loc(st);
                return Err(Stop::Viol(id.into(), format!("assertion fails in {}", l)));
            }
            None => {}
        }
        self.checks.get_mut(id).unwrap().1 += 1;
        if let Some(v) = self.known_value(st, c) {
            if v == 1 {
                return Ok(());
            }
            let l = self.loc(st);
            return Err(Stop::Viol(id.into(), format!("assertion fails in {}", l)));
        }
        match self.sat(st, not(c)) {
            Ok(None) => Ok(()),
            Ok(Some(m)) => {
                // record, then go on where the assertion holds
                let mut bad = st.clone();
                bad.model = Rc::new(RefCell::new(m));
                let l = self.loc(st);
                self.violation(&bad, id, &format!("assertion fails in {}", l));
                if eval(c, &mut st.model.borrow_mut()) != 1 {
                    match self.sat(st, c) {
                        Ok(Some(m)) => st.model = Rc::new(RefCell::new(m)),
                        _ => return Err(Stop::Infeasible),
                    }
                }
                self.assume(st, c);
                Ok(())
            }
            Err(()) => {
                self.unknowns.push(format!("{}: no answer from the solver", id));
                Ok(())
            }
        }
    }
    fn confirm_eq(&mut self, same: &[E], id: &str) {
        if self.asked.contains_key(same) {
            return;
        }
        // weight of the cone: the solver's memory goes with the number of operands, not of terms
        let mut n = 0usize;
        if self.cs.time <= 3.0 {
            for x in cone(same) {
                n += 1;
                children(node(x), &mut |_| n += 1);
            }
        }
        if n > 150_000 || self.cs.time > 3.0 {
            self.normalised += 1;
            return;
        }
        self.asked.insert(same.to_vec(), ());
        match self.cs.confirm(same, 3_000) {
            Some(true) => self.confirmed += 1,
            Some(false) => self.unknowns.push(format!("{}: the solver refutes an equality the simplifier found", id)),
            None => self.normalised += 1,
        }
    }
    pub fn check_eq(&mut self, st: &mut State, x: &[SB], y: &[SB], id: &str) -> R<()> {
        let e = self.checks.entry(id.into()).or_insert((0, 0));
        e.0 += 1;
        let n = x.len();
        let mut pairs: Vec<(E, E)> = vec![];
        let mut same: Vec<E> = vec![];
        let mut i = 0;
        while i < n {
            let k = if n - i >= 4 { 4 } else { 1 };
            let a: Vec<E> = (i..i + k).rev().map(|j| self.sb_e(x[j])).collect();
            let b: Vec<E> = (i..i + k).rev().map(|j| self.sb_e(y[j])).collect();
            let (a, b) = (concat(a), concat(b));
            if a != b {
                pairs.push((a, b));
            } else if as_const(a).is_none() {
                same.push(a);
            }
            i += k;
        }
        if !same.is_empty() {
            self.checks.get_mut(id).unwrap().1 += 1;
            self.confirm_eq(&same, id);
        }
        if pairs.is_empty() {
            return Ok(());
        }
        if pairs.iter().any(|(a, b)| as_const(*a).is_some() && as_const(*b).is_some()) {
            let l = self.loc(st);
            return Err(Stop::Viol(id.into(), format!("values differ in {}", l)));
        }
        self.checks.get_mut(id).unwrap().1 += 1;
        // try random and path models for a quick difference
        let big = cone(&pairs.iter().flat_map(|p| [p.0, p.1]).collect::<Vec<_>>()).len();
        if big > 300 {
            let mut all = tru();
            for (a, b) in &pairs {
                all = and(all, eq(*a, *b));
            }
            if eval(all, &mut st.model.borrow_mut()) != 1 {
                let l = self.loc(st);
                return Err(Stop::Viol(id.into(), format!("values differ in {}", l)));
            }
            let (left, merged, q) = crate::sweep::sweep(&mut self.s, &st.pc, &pairs);
            self.sweep_merged += merged;
            let _ = q;
            if left.is_empty() {
                return Ok(());
            }
            // what the sweep could not merge goes to the solver whole
            let mut all = tru();
            for (a, b) in &left {
                all = and(all, eq(*a, *b));
            }
            return self.check(st, all, id);
        }
        let mut all = tru();
        for (a, b) in &pairs {
            all = and(all, eq(*a, *b));
        }
        self.check(st, all, id)
    }
}
fn insert(v: V, x: V, path: &[u32], ty: &Ty) -> V {
    if path.is_empty() {
        return x;
    }
    let mut a: Vec<V> = match v {
        V::A(a) => (*a).clone(),
        _ => vec![V::U; ty.nfields()],
    };
    let i = path[0] as usize;
    let old = std::mem::replace(&mut a[i], V::U);
    a[i] = insert(old, x, &path[1..], &ty.field(i));
    V::A(Rc::new(a))
}
