//! Textual LLVM IR reader: indexes modules, decodes functions on demand.
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Float(u16),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two().max(1),
            Ty::Float(w) => *w as u64 / 8,
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                ref t => n * t.size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        let up = |s: u64, a: u64| (s + a - 1) / a * a;
        match self {
            Ty::Int(_) => up(self.store_size(), self.align()),
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(..) => up(self.store_size(), self.align()),
            Ty::Float(w) => *w as u64 / 8,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = (o + t.align() - 1) / t.align() * t.align();
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cv {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<Cv>),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
    K(Rc<Cv>, Ty),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc, Zext, Sext, Same,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Ext(Rc<str>, Rc<str>), // symbol, demangled
    Ind(Opd),
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, u16, u32, Opd, Opd),
    ICmp(Pred, u16, u32, Opd, Opd),
    Cast(CastOp, u16, u16, u32, Opd),
    Select(u32, Opd, Opd, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u32, u64, u64),
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>, Ty),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Rmw(String, u16, u32, Opd, Opd),
    CmpXchg(u16, u32, Opd, Opd, Opd),
    Copy(u32, Opd),
    Nop,
    Unsup(String),
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub phi_ty: Vec<Ty>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub id: usize,
    pub name: String,
    pub dem: Rc<str>,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub lines: usize,
    pub kind: crate::exec::Builtin,
}
pub struct FnRef {
    pub module: usize,
    pub line: usize, // index in module lines
    pub sym: String,
    pub dem: Rc<str>,
    pub f: Option<Rc<Func>>,
}
pub struct Module {
    pub name: String,
    pub lines: Vec<&'static str>,
    pub fns: HashMap<&'static str, usize>, // symbol -> fn id
    pub decls: HashMap<&'static str, &'static str>, // symbol -> demangled
    pub globals: HashMap<&'static str, usize>, // symbol -> line
}
pub struct GInfo {
    pub module: usize,
    pub line: usize,
    pub size: u64,
    pub constant: bool,
    pub ext: bool,
}
pub struct Prog {
    pub mods: Vec<Module>,
    pub fns: Vec<FnRef>,
    pub by_sym: HashMap<&'static str, usize>,
    pub by_dem: HashMap<String, usize>,
    pub gsym: HashMap<&'static str, (usize, usize)>,
    pub gaddr: HashMap<(usize, usize), u64>,
    pub galias: HashMap<String, u64>,
    pub ginfo: BTreeMap<u64, GInfo>,
    pub gnext: u64,
    pub types: HashMap<String, Ty>,
}
pub const FN_BASE: u64 = 0x0000_1000_0000_0000;
pub const G_BASE: u64 = 0x0000_2000_0000_0000;

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn sym_at(s: &str) -> (&str, usize) {
    // s starts right after '@' or '%': returns name and consumed bytes
    let b = s.as_bytes();
    if b[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], e + 1)
    } else {
        let mut i = 0;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b"$._-".contains(&b[i])) {
            i += 1
        }
        (&s[..i], i)
    }
}

impl Prog {
    pub fn new() -> Prog {
        Prog {
            mods: vec![],
            fns: vec![],
            by_sym: HashMap::new(),
            by_dem: HashMap::new(),
            gsym: HashMap::new(),
            gaddr: HashMap::new(),
            galias: HashMap::new(),
            ginfo: BTreeMap::new(),
            gnext: G_BASE,
            types: HashMap::new(),
        }
    }
    pub fn load(&mut self, path: &str) {
        let bytes = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let text = leak(String::from_utf8_lossy(&bytes).into_owned());
        let lines: Vec<&'static str> = text.lines().collect();
        let mi = self.mods.len();
        let mut m = Module {
            name: path.rsplit('/').next().unwrap().to_string(),
            lines,
            fns: HashMap::new(),
            decls: HashMap::new(),
            globals: HashMap::new(),
        };
        let mut pend: &'static str = "";
        for i in 0..m.lines.len() {
            let l = m.lines[i];
            if l.is_empty() {
                pend = "";
                continue;
            }
            match l.as_bytes()[0] {
                b';' => {
                    if !l.starts_with("; Function Attrs") && l.len() > 2 {
                        pend = &l[2..]
                    }
                }
                b'd' => {
                    if l.starts_with("define ") || l.starts_with("declare ") {
                        if let Some(p) = l.find('@') {
                            let (s, _) = sym_at(&l[p + 1..]);
                            if l.starts_with("define ") {
                                let id = self.fns.len();
                                let dem: Rc<str> = if pend.is_empty() { s.into() } else { pend.into() };
                                self.fns.push(FnRef { module: mi, line: i, sym: s.to_string(), dem: dem.clone(), f: None });
                                m.fns.insert(s, id);
                                let local = l.contains("define internal") || l.contains("define private");
                                if !local {
                                    self.by_sym.entry(s).or_insert(id);
                                }
                                self.by_dem.entry(dem.to_string()).or_insert(id);
                            } else {
                                m.decls.insert(s, if pend.is_empty() { s } else { pend });
                            }
                        }
                        pend = "";
                    }
                }
                b'@' => {
                    let (s, _) = sym_at(&l[1..]);
                    m.globals.insert(s, i);
                    let local = l.contains("= private") || l.contains("= internal");
                    if !local && !l.contains(" external ") {
                        self.gsym.entry(s).or_insert((mi, i));
                    }
                }
                b'%' => {
                    // named type
                    if let Some(p) = l.find(" = type ") {
                        let n = l[1..p].trim_matches('"').to_string();
                        let mut c = Cur { s: &l[p + 8..], i: 0 };
                        let t = c.ty(&self.types);
                        self.types.insert(n, t);
                    }
                }
                _ => {}
            }
        }
        self.mods.push(m);
    }
    pub fn find_fn(&self, module: usize, sym: &str) -> Option<usize> {
        let m = &self.mods[module];
        if let Some(i) = m.fns.get(sym) {
            return Some(*i);
        }
        if let Some(i) = self.by_sym.get(sym) {
            return Some(*i);
        }
        if let Some(d) = m.decls.get(sym) {
            if let Some(i) = self.by_dem.get(*d) {
                return Some(*i);
            }
        }
        None
    }
    /// address of a symbol (function or global)
    pub fn addr_of(&mut self, module: usize, sym: &str) -> u64 {
        // a line in this module?
        if let Some(line) = self.mods[module].globals.get(sym).copied() {
            let l = self.mods[module].lines[line];
            if l.contains(" external ") {
                if let Some((m2, l2)) = self.gsym.get(sym).copied() {
                    return self.global_addr(m2, l2);
                }
                return self.ext_global(sym);
            }
            if let Some(p) = l.find(" alias ") {
                // alias to another symbol
                let q = l[p..].rfind('@').unwrap() + p;
                let (s, _) = sym_at(&l[q + 1..]);
                let s = s.to_string();
                return self.addr_of(module, &s);
            }
            return self.global_addr(module, line);
        }
        if let Some(i) = self.find_fn(module, sym) {
            return FN_BASE + 16 * i as u64;
        }
        if self.mods[module].decls.contains_key(sym) {
            // external function taken by address: give it a pseudo function
            return self.ext_fn(module, sym);
        }
        if let Some((m2, l2)) = self.gsym.get(sym).copied() {
            return self.global_addr(m2, l2);
        }
        self.ext_global(sym)
    }
    fn ext_fn(&mut self, module: usize, sym: &str) -> u64 {
        if let Some(a) = self.galias.get(sym) {
            return *a;
        }
        let dem: Rc<str> = (*self.mods[module].decls.get(sym).unwrap()).into();
        let id = self.fns.len();
        self.fns.push(FnRef { module: usize::MAX, line: 0, sym: sym.to_string(), dem, f: None });
        let a = FN_BASE + 16 * id as u64;
        self.galias.insert(sym.to_string(), a);
        a
    }
    fn ext_global(&mut self, sym: &str) -> u64 {
        if let Some(a) = self.galias.get(sym) {
            return *a;
        }
        let a = self.gnext;
        self.gnext += 4096;
        self.ginfo.insert(a, GInfo { module: 0, line: 0, size: 64, constant: false, ext: true });
        self.galias.insert(sym.to_string(), a);
        a
    }
    fn global_addr(&mut self, module: usize, line: usize) -> u64 {
        if let Some(a) = self.gaddr.get(&(module, line)) {
            return *a;
        }
        let l = self.mods[module].lines[line];
        let eqp = l.find(" = ").unwrap() + 3;
        let rest = &l[eqp..];
        let constant = rest.contains("constant ") && rest.split(' ').take(12).any(|w| w == "constant");
        let kw = if constant { "constant " } else { "global " };
        let p = rest.find(kw).unwrap() + kw.len();
        let mut c = Cur { s: &rest[p..], i: 0 };
        let ty = c.ty(&self.types);
        let size = ty.size();
        let al = ty.align().max(16);
        let a = (self.gnext + al - 1) / al * al;
        self.gnext = a + size + 64;
        self.gaddr.insert((module, line), a);
        self.ginfo.insert(a, GInfo { module, line, size, constant, ext: false });
        a
    }
    /// initial bytes of a global
    pub fn global_init(&mut self, a: u64) -> Vec<u8> {
        let g = &self.ginfo[&a];
        if g.ext {
            return vec![0; g.size as usize];
        }
        let (m, line, size, constant) = (g.module, g.line, g.size, g.constant);
        let l = self.mods[m].lines[line];
        let eqp = l.find(" = ").unwrap() + 3;
        let rest = &l[eqp..];
        let kw = if constant { "constant " } else { "global " };
        let p = rest.find(kw).unwrap() + kw.len();
        let mut c = Cur { s: &rest[p..], i: 0 };
        let ty = c.ty(&self.types);
        c.ws();
        let v = self.constant(&mut c, &ty, m);
        let mut out = vec![0u8; size as usize];
        emit(&v, &ty, &mut out, 0);
        out
    }
    pub fn constant(&mut self, c: &mut Cur, ty: &Ty, m: usize) -> Cv {
        c.ws();
        let b = c.peek();
        match b {
            b'@' => {
                c.i += 1;
                let (s, n) = sym_at(&c.s[c.i..]);
                let s = s.to_string();
                c.i += n;
                Cv::Int(self.addr_of(m, &s) as u128)
            }
            b'-' | b'0'..=b'9' => {
                let st = c.i;
                c.i += 1;
                while c.i < c.s.len() && (c.peek().is_ascii_alphanumeric() || c.peek() == b'.' || c.peek() == b'+') {
                    c.i += 1
                }
                let t = &c.s[st..c.i];
                if t.contains('.') || t.starts_with("0x") {
                    return Cv::Undef;
                }
                let w = ty.bits();
                let v = if let Some(r) = t.strip_prefix('-') {
                    (r.parse::<u128>().unwrap_or(0)).wrapping_neg()
                } else {
                    t.parse::<u128>().unwrap_or(0)
                };
                Cv::Int(v & crate::expr::mask(w.max(1)))
            }
            b'c' if c.s.as_bytes().get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut out = vec![];
                let bs = c.s.as_bytes();
                while bs[c.i] != b'"' {
                    if bs[c.i] == b'\\' {
                        if bs[c.i + 1] == b'\\' {
                            out.push(b'\\');
                            c.i += 2;
                        } else {
                            out.push(u8::from_str_radix(&c.s[c.i + 1..c.i + 3], 16).unwrap());
                            c.i += 3;
                        }
                    } else {
                        out.push(bs[c.i]);
                        c.i += 1;
                    }
                }
                c.i += 1;
                Cv::Bytes(out)
            }
            b'{' | b'[' | b'<' => {
                let mut closers = vec![];
                if b == b'<' {
                    c.i += 1;
                    if c.peek() == b'{' {
                        c.i += 1;
                        closers.push(b'}');
                    }
                    closers.push(b'>');
                } else {
                    c.i += 1;
                    closers.push(if b == b'{' { b'}' } else { b']' });
                }
                let mut v = vec![];
                loop {
                    c.ws();
                    if c.peek() == closers[0] {
                        c.i += closers.len();
                        break;
                    }
                    if c.peek() == b',' {
                        c.i += 1;
                        continue;
                    }
                    let t = c.ty(&self.types);
                    v.push(self.constant(c, &t, m));
                }
                Cv::Agg(v)
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => Cv::Int(1),
                    "false" => Cv::Int(0),
                    "null" => Cv::Int(0),
                    "undef" | "poison" => Cv::Undef,
                    "zeroinitializer" => Cv::Zero,
                    "getelementptr" => {
                        // getelementptr [flags] (ty, ptr base, idx...)
                        while c.peek() != b'(' {
                            c.i += 1
                        }
                        c.i += 1;
                        let ety = c.ty(&self.types);
                        c.eat(b',');
                        let pt = c.ty(&self.types);
                        let base = self.constant(c, &pt, m);
                        let mut off = 0i128;
                        let mut cur = ety;
                        let mut first = true;
                        loop {
                            c.ws();
                            if c.peek() == b')' {
                                c.i += 1;
                                break;
                            }
                            c.eat(b',');
                            let t = c.ty(&self.types);
                            let v = match self.constant(c, &t, m) {
                                Cv::Int(v) => crate::expr::to_signed(v, t.bits()),
                                _ => 0,
                            };
                            if first {
                                off += v * cur.size() as i128;
                                first = false;
                            } else {
                                match &cur {
                                    Ty::Struct(..) => {
                                        off += cur.field_off(v as usize) as i128;
                                        cur = cur.field(v as usize);
                                    }
                                    Ty::Array(_, t) | Ty::Vector(_, t) => {
                                        off += v * t.size() as i128;
                                        cur = (**t).clone();
                                    }
                                    _ => {}
                                }
                            }
                        }
                        match base {
                            Cv::Int(b) => Cv::Int((b as i128 + off) as u128 & (!0u64 as u128)),
                            x => x,
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        while c.peek() != b'(' {
                            c.i += 1
                        }
                        c.i += 1;
                        let t = c.ty(&self.types);
                        let v = self.constant(c, &t, m);
                        c.ws();
                        c.word(); // to
                        let t2 = c.ty(&self.types);
                        c.eat(b')');
                        match v {
                            Cv::Int(x) => Cv::Int(x & crate::expr::mask(t2.bits().max(1))),
                            x => x,
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while c.peek() != b'(' {
                            c.i += 1
                        }
                        c.i += 1;
                        let t = c.ty(&self.types);
                        let a = self.constant(c, &t, m);
                        c.eat(b',');
                        let t2 = c.ty(&self.types);
                        let b = self.constant(c, &t2, m);
                        c.eat(b')');
                        match (a, b) {
                            (Cv::Int(x), Cv::Int(y)) => Cv::Int(match w {
                                "sub" => x.wrapping_sub(y),
                                "add" => x.wrapping_add(y),
                                _ => x ^ y,
                            } & crate::expr::mask(t.bits().max(1))),
                            _ => Cv::Undef,
                        }
                    }
                    "splat" => {
                        c.eat(b'(');
                        let t = c.ty(&self.types);
                        let v = self.constant(c, &t, m);
                        c.eat(b')');
                        Cv::Agg(vec![v; ty.nfields()])
                    }
                    _ => Cv::Undef,
                }
            }
        }
    }
    pub fn func(&mut self, id: usize) -> Rc<Func> {
        if let Some(f) = &self.fns[id].f {
            return f.clone();
        }
        let f = Rc::new(self.decode(id));
        self.fns[id].f = Some(f.clone());
        f
    }
    fn decode(&mut self, id: usize) -> Func {
        let (module, line, sym, dem) = {
            let r = &self.fns[id];
            (r.module, r.line, r.sym.clone(), r.dem.clone())
        };
        let kind = crate::exec::classify(&sym, &dem);
        if module == usize::MAX || kind.overrides() {
            return Func { id, name: sym, dem, nparams: 0, nregs: 0, blocks: vec![], lines: 0, kind };
        }
        let head = self.mods[module].lines[line];
        let mut regs: HashMap<&'static str, u32> = HashMap::new();
        // parameters
        let p = head.find('@').unwrap() + 1;
        let (_, n) = sym_at(&head[p..]);
        let mut c = Cur { s: head, i: p + n };
        c.eat(b'(');
        let mut nparams = 0;
        let mut anon = 0;
        loop {
            c.ws();
            if c.peek() == b')' {
                break;
            }
            if c.peek() == b',' {
                c.i += 1;
                continue;
            }
            if c.s[c.i..].starts_with("...") {
                c.i += 3;
                continue;
            }
            let _t = c.ty(&self.types);
            c.attrs();
            if c.peek() == b'%' {
                c.i += 1;
                let (s, k) = sym_at(&head[c.i..]);
                c.i += k;
                regs.insert(s, nparams);
            } else {
                let s = leak(format!("{}", anon));
                anon += 1;
                regs.insert(s, nparams);
            }
            nparams += 1;
        }
        // body lines
        let mut blocks: Vec<(&'static str, Vec<String>)> = vec![];
        let mut i = line + 1;
        let lines = &self.mods[module].lines;
        let mut nlines = 0;
        loop {
            let l = lines[i];
            if l == "}" {
                break;
            }
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let (s, k) = if l.starts_with('"') { sym_at(l) } else { sym_at(l) };
                debug_assert!(l.as_bytes()[k] == b':');
                blocks.push((s, vec![]));
                continue;
            }
            if blocks.is_empty() {
                blocks.push(("", vec![]));
            }
            let t = l.trim();
            if t.starts_with(';') {
                continue;
            }
            nlines += 1;
            let last = blocks.last_mut().unwrap();
            // continuation of a switch
            if let Some(prev) = last.1.last_mut() {
                if prev.starts_with("switch ") && !prev.contains(']') {
                    prev.push(' ');
                    prev.push_str(t);
                    continue;
                }
            }
            last.1.push(t.to_string());
        }
        let mut bidx: HashMap<String, u32> = HashMap::new();
        for (k, (s, _)) in blocks.iter().enumerate() {
            bidx.insert(s.to_string(), k as u32);
        }
        if blocks[0].0.is_empty() {
            // entry block without label: numbered after the parameters
            bidx.insert(format!("{}", anon), 0);
        }
        let mut nregs = nparams;
        for (_, ls) in &blocks {
            for l in ls {
                if l.starts_with('%') {
                    let (s, _) = sym_at(&l[1..]);
                    let s: &'static str = leak(s.to_string());
                    regs.insert(s, nregs);
                    nregs += 1;
                }
            }
        }
        let mut out = vec![];
        for (_, ls) in blocks {
            let mut b = Block { phis: vec![], phi_ty: vec![], ins: vec![] };
            for l in ls {
                let l: &'static str = leak(l);
                let mut d = Dec { p: self, m: module, regs: &regs, bidx: &bidx };
                match d.ins(l) {
                    Ok(D::Phi(a, v, t)) => {
                        b.phis.push((a, v));
                        b.phi_ty.push(t);
                    }
                    Ok(D::I(Ins::Nop)) => {}
                    Ok(D::I(x)) => b.ins.push(x),
                    Err(e) => b.ins.push(Ins::Unsup(format!("{}: {}", e, l))),
                }
            }
            out.push(b);
        }
        Func { id, name: sym, dem, nparams: nparams as usize, nregs: nregs as usize, blocks: out, lines: nlines, kind }
    }
}
fn emit(v: &Cv, ty: &Ty, out: &mut [u8], off: usize) {
    match v {
        Cv::Int(x) => {
            let n = ty.store_size() as usize;
            for i in 0..n {
                out[off + i] = (x >> (8 * i)) as u8;
            }
        }
        Cv::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
        Cv::Agg(vs) => {
            for (i, x) in vs.iter().enumerate() {
                emit(x, &ty.field(i), out, off + ty.field_off(i) as usize);
            }
        }
        Cv::Undef | Cv::Zero => {}
    }
}
enum D {
    Phi(u32, Vec<(u32, Opd)>, Ty),
    I(Ins),
}
struct Dec<'a> {
    p: &'a mut Prog,
    m: usize,
    regs: &'a HashMap<&'static str, u32>,
    bidx: &'a HashMap<String, u32>,
}
type R<T> = Result<T, String>;
impl<'a> Dec<'a> {
    fn opd(&mut self, c: &mut Cur, ty: &Ty) -> R<Opd> {
        c.ws();
        if c.peek() == b'%' {
            c.i += 1;
            let (s, n) = sym_at(&c.s[c.i..]);
            let r = *self.regs.get(s).ok_or_else(|| format!("register {}", s))?;
            c.i += n;
            return Ok(Opd::R(r));
        }
        let v = self.p.constant(c, ty, self.m);
        Ok(match (v, ty) {
            (Cv::Int(x), _) => Opd::C(x),
            (Cv::Zero, Ty::Int(_)) | (Cv::Zero, Ty::Ptr) => Opd::C(0),
            (v, t) => Opd::K(Rc::new(v), t.clone()),
        })
    }
    fn tyop(&mut self, c: &mut Cur) -> R<(Ty, Opd)> {
        let t = c.ty(&self.p.types);
        c.attrs();
        let o = self.opd(c, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, c: &mut Cur) -> R<u32> {
        c.ws();
        if c.s[c.i..].starts_with("label") {
            c.i += 5;
            c.ws();
        }
        if c.peek() != b'%' {
            return Err("label".into());
        }
        c.i += 1;
        let (s, n) = sym_at(&c.s[c.i..]);
        c.i += n;
        self.bidx.get(s).copied().ok_or_else(|| format!("label {}", s))
    }
    fn ins(&mut self, l: &'static str) -> R<D> {
        let mut c = Cur { s: l, i: 0 };
        let mut dst = 0;
        let mut has = false;
        if l.starts_with('%') {
            c.i = 1;
            let (s, n) = sym_at(&l[1..]);
            dst = *self.regs.get(s).unwrap();
            has = true;
            c.i += n;
            c.ws();
            c.eat(b'=');
            c.ws();
        }
        let op = c.word();
        let bin = match op {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            _ => None,
        };
        if let Some(b) = bin {
            c.skip_words(&["nuw", "nsw", "exact", "disjoint"]);
            let t = c.ty(&self.p.types);
            if !matches!(t, Ty::Int(_)) {
                return Err("vector arithmetic".into());
            }
            let x = self.opd(&mut c, &t)?;
            c.eat(b',');
            let y = self.opd(&mut c, &t)?;
            return Ok(D::I(Ins::Bin(b, t.bits(), dst, x, y)));
        }
        let i = match op {
            "icmp" => {
                c.skip_words(&["samesign"]);
                c.ws();
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("icmp {}", x)),
                };
                let t = c.ty(&self.p.types);
                if t.bits() == 0 {
                    return Err("vector compare".into());
                }
                let x = self.opd(&mut c, &t)?;
                c.eat(b',');
                let y = self.opd(&mut c, &t)?;
                Ins::ICmp(p, t.bits(), dst, x, y)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "ptrtoaddr" => {
                c.skip_words(&["nuw", "nsw", "nneg"]);
                let t = c.ty(&self.p.types);
                if op == "freeze" {
                    let x = self.opd(&mut c, &t)?;
                    return Ok(D::I(Ins::Copy(dst, x)));
                }
                let x = self.opd(&mut c, &t)?;
                c.ws();
                c.word();
                let t2 = c.ty(&self.p.types);
                if t.bits() == 0 || t2.bits() == 0 || matches!(t, Ty::Float(_)) || matches!(t2, Ty::Float(_)) {
                    return Err("cast".into());
                }
                let o = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    _ => {
                        if t.bits() > t2.bits() {
                            CastOp::Trunc
                        } else if t.bits() < t2.bits() {
                            CastOp::Zext
                        } else {
                            CastOp::Same
                        }
                    }
                };
                Ins::Cast(o, t.bits(), t2.bits(), dst, x)
            }
            "select" => {
                let (ct, co) = self.tyop(&mut c)?;
                if ct.bits() != 1 {
                    return Err("vector select".into());
                }
                c.eat(b',');
                let (t, a) = self.tyop(&mut c)?;
                c.eat(b',');
                let (_, b) = self.tyop(&mut c)?;
                Ins::Select(dst, co, a, b, t)
            }
            "load" => {
                c.skip_words(&["atomic", "volatile"]);
                let t = c.ty(&self.p.types);
                c.eat(b',');
                let (_, p) = self.tyop(&mut c)?;
                if matches!(t, Ty::Float(_) | Ty::Vector(..)) {
                    return Err("load type".into());
                }
                Ins::Load(dst, t, p)
            }
            "store" => {
                c.skip_words(&["atomic", "volatile"]);
                let (t, v) = self.tyop(&mut c)?;
                c.eat(b',');
                let (_, p) = self.tyop(&mut c)?;
                if matches!(t, Ty::Float(_) | Ty::Vector(..)) {
                    return Err("store type".into());
                }
                Ins::Store(t, v, p)
            }
            "alloca" => {
                let t = c.ty(&self.p.types);
                let al = match l.find("align ") {
                    Some(p) => l[p + 6..].split(|x: char| !x.is_ascii_digit()).next().unwrap().parse().unwrap_or(16),
                    None => t.align(),
                };
                Ins::Alloca(dst, t.size(), al)
            }
            "getelementptr" => {
                c.skip_words(&["inbounds", "nuw", "nusw"]);
                let mut cur = c.ty(&self.p.types);
                c.eat(b',');
                let (_, base) = self.tyop(&mut c)?;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut first = true;
                loop {
                    c.ws();
                    if c.i >= c.s.len() || c.peek() != b',' {
                        break;
                    }
                    c.i += 1;
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    let (t, o) = self.tyop(&mut c)?;
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                if let Opd::C(k) = o {
                                    off = off.wrapping_add(cur.field_off(k as usize));
                                    cur = cur.field(k as usize);
                                    continue;
                                }
                                return Err("gep struct index".into());
                            }
                            Ty::Array(_, t) | Ty::Vector(_, t) => {
                                scale = t.size();
                                cur = (*t).clone();
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                    match o {
                        Opd::C(k) => off = off.wrapping_add((crate::expr::to_signed(k, t.bits()) as i64 as u64).wrapping_mul(scale)),
                        o => idx.push((o, t.bits(), scale)),
                    }
                }
                Ins::Gep(dst, base, off, idx)
            }
            "extractvalue" => {
                let (_, a) = self.tyop(&mut c)?;
                let mut v = vec![];
                loop {
                    c.ws();
                    if c.i >= c.s.len() || c.peek() != b',' {
                        break;
                    }
                    c.i += 1;
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    v.push(c.word().parse::<u32>().map_err(|e| e.to_string())?);
                }
                Ins::ExtractValue(dst, a, v)
            }
            "insertvalue" => {
                let (t, a) = self.tyop(&mut c)?;
                c.eat(b',');
                let (_, x) = self.tyop(&mut c)?;
                let mut v = vec![];
                loop {
                    c.ws();
                    if c.i >= c.s.len() || c.peek() != b',' {
                        break;
                    }
                    c.i += 1;
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    v.push(c.word().parse::<u32>().map_err(|e| e.to_string())?);
                }
                Ins::InsertValue(dst, a, x, v, t)
            }
            "phi" => {
                let t = c.ty(&self.p.types);
                let mut v = vec![];
                loop {
                    c.ws();
                    if c.i >= c.s.len() {
                        break;
                    }
                    if c.peek() == b',' {
                        c.i += 1;
                        c.ws();
                    }
                    if c.i >= c.s.len() || c.peek() != b'[' {
                        break;
                    }
                    c.i += 1;
                    let o = self.opd(&mut c, &t)?;
                    c.eat(b',');
                    let b = self.label(&mut c)?;
                    c.eat(b']');
                    v.push((b, o));
                }
                return Ok(D::Phi(dst, v, t));
            }
            "br" => {
                c.ws();
                if c.s[c.i..].starts_with("label") {
                    Ins::Br(self.label(&mut c)?)
                } else {
                    let (_, o) = self.tyop(&mut c)?;
                    c.eat(b',');
                    let a = self.label(&mut c)?;
                    c.eat(b',');
                    let b = self.label(&mut c)?;
                    Ins::CondBr(o, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.tyop(&mut c)?;
                c.eat(b',');
                let d = self.label(&mut c)?;
                c.eat(b'[');
                let mut v = vec![];
                loop {
                    c.ws();
                    if c.peek() == b']' {
                        break;
                    }
                    let (_, k) = self.tyop(&mut c)?;
                    c.eat(b',');
                    let b = self.label(&mut c)?;
                    match k {
                        Opd::C(k) => v.push((k, b)),
                        _ => return Err("switch case".into()),
                    }
                }
                Ins::Switch(t.bits(), o, d, v)
            }
            "ret" => {
                let t = c.ty(&self.p.types);
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.opd(&mut c, &t)?))
                }
            }
            "unreachable" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "atomicrmw" => {
                c.skip_words(&["volatile"]);
                c.ws();
                let k = c.word().to_string();
                let (_, p) = self.tyop(&mut c)?;
                c.eat(b',');
                let (t, v) = self.tyop(&mut c)?;
                Ins::Rmw(k, t.bits(), dst, p, v)
            }
            "cmpxchg" => {
                c.skip_words(&["weak", "volatile"]);
                let (_, p) = self.tyop(&mut c)?;
                c.eat(b',');
                let (t, a) = self.tyop(&mut c)?;
                c.eat(b',');
                let (_, b) = self.tyop(&mut c)?;
                Ins::CmpXchg(t.bits(), dst, p, a, b)
            }
            "call" | "tail" | "musttail" | "notail" => {
                if op != "call" {
                    c.ws();
                    c.word();
                }
                c.skip_words(&["fastcc", "coldcc", "ccc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                c.attrs();
                let t = c.ty(&self.p.types);
                c.ws();
                if c.peek() == b'(' {
                    c.balanced(); // function type parameters
                    c.ws();
                }
                let callee = match c.peek() {
                    b'@' => {
                        c.i += 1;
                        let (s, n) = sym_at(&l[c.i..]);
                        c.i += n;
                        match self.p.find_fn(self.m, s) {
                            Some(id) => Callee::Fn(id),
                            None => {
                                let d = self.p.mods[self.m].decls.get(s).copied().unwrap_or(s);
                                Callee::Ext(s.into(), d.into())
                            }
                        }
                    }
                    b'%' => Callee::Ind(self.opd(&mut c, &Ty::Ptr)?),
                    _ => {
                        if c.s[c.i..].starts_with("asm") {
                            if l.contains("asm sideeffect \"\"") {
                                // compiler barrier (black_box)
                                return Ok(D::I(Ins::Nop));
                            }
                            return Err("inline asm".into());
                        }
                        match self.p.constant(&mut c, &Ty::Ptr, self.m) {
                            Cv::Int(a) => Callee::Ind(Opd::C(a)),
                            _ => return Err("callee".into()),
                        }
                    }
                };
                c.ws();
                c.eat(b'(');
                let mut args = vec![];
                loop {
                    c.ws();
                    if c.peek() == b')' {
                        break;
                    }
                    if c.peek() == b',' {
                        c.i += 1;
                        continue;
                    }
                    if c.s[c.i..].starts_with("metadata") {
                        // skip to , or ) at depth 0
                        let mut d = 0;
                        while c.i < c.s.len() {
                            let b = c.peek();
                            if b == b'(' || b == b'{' {
                                d += 1
                            }
                            if b == b')' || b == b'}' {
                                if d == 0 {
                                    break;
                                }
                                d -= 1
                            }
                            if b == b',' && d == 0 {
                                break;
                            }
                            c.i += 1;
                        }
                        continue;
                    }
                    args.push(self.tyop(&mut c)?);
                }
                if let Callee::Ext(s, _) = &callee {
                    if s.starts_with("llvm.lifetime")
                        || s.starts_with("llvm.experimental.noalias")
                        || s.starts_with("llvm.assume")
                        || s.starts_with("llvm.dbg")
                        || s.starts_with("llvm.x86.sse2.pause")
                    {
                        return Ok(D::I(Ins::Nop));
                    }
                }
                Ins::Call(if has && t != Ty::Void { Some(dst) } else { None }, t, callee, args)
            }
            x => return Err(format!("instruction {}", x)),
        };
        Ok(D::I(i))
    }
}

pub struct Cur<'a> {
    pub s: &'a str,
    pub i: usize,
}
impl<'a> Cur<'a> {
    #[inline]
    fn peek(&self) -> u8 {
        *self.s.as_bytes().get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while self.peek() == b' ' || self.peek() == b'\t' {
            self.i += 1
        }
    }
    fn eat(&mut self, b: u8) {
        self.ws();
        if self.peek() == b {
            self.i += 1
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while {
            let b = self.peek();
            b.is_ascii_alphanumeric() || b == b'_' || b == b'.'
        } {
            self.i += 1
        }
        &self.s[st..self.i]
    }
    fn skip_words(&mut self, ws: &[&str]) {
        loop {
            self.ws();
            let st = self.i;
            let w = self.word();
            if !ws.contains(&w) {
                self.i = st;
                return;
            }
        }
    }
    fn balanced(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                0 => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    /// parameter / return attributes
    fn attrs(&mut self) {
        loop {
            self.ws();
            let st = self.i;
            let b = self.peek();
            if b == b'"' {
                // string attribute
                let e = self.s[self.i + 1..].find('"').unwrap() + self.i + 2;
                self.i = e;
                continue;
            }
            if !b.is_ascii_lowercase() {
                return;
            }
            let w = self.word();
            match w {
                "align" => {
                    self.ws();
                    if self.peek() == b'(' {
                        self.balanced();
                    } else {
                        self.word();
                    }
                }
                "noundef" | "nonnull" | "noalias" | "nofree" | "nocapture" | "readonly" | "readnone" | "writeonly" | "zeroext"
                | "signext" | "inreg" | "returned" | "nest" | "swiftself" | "swifterror" | "immarg" | "dead_on_unwind"
                | "writable" | "allocalign" | "allocptr" | "noext" | "dead_on_return" => {
                    self.ws();
                    if self.peek() == b'(' {
                        self.balanced();
                    }
                }
                "sret" | "byval" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "elementtype"
                | "initializes" | "preallocated" | "inalloca" | "byref" | "nofpclass" => {
                    self.ws();
                    if self.peek() == b'(' {
                        self.balanced();
                    }
                }
                _ => {
                    self.i = st;
                    return;
                }
            }
        }
    }
    pub fn ty(&mut self, named: &HashMap<String, Ty>) -> Ty {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let v = self.tylist(b'}', named);
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.tylist(b'}', named);
                    self.eat(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n: u64 = self.word().parse().unwrap_or(0);
                    self.ws();
                    self.word(); // x
                    let t = self.ty(named);
                    self.eat(b'>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                self.ws();
                let n: u64 = self.word().parse().unwrap_or(0);
                self.ws();
                self.word();
                let t = self.ty(named);
                self.eat(b']');
                Ty::Array(n, Rc::new(t))
            }
            b'%' => {
                self.i += 1;
                let (s, n) = sym_at(&self.s[self.i..]);
                self.i += n;
                named.get(s).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "half" | "bfloat" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    _ => {
                        if let Some(n) = w.strip_prefix('i') {
                            if let Ok(n) = n.parse() {
                                return Ty::Int(n);
                            }
                        }
                        Ty::Other
                    }
                }
            }
        }
    }
    fn tylist(&mut self, close: u8, named: &HashMap<String, Ty>) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == close {
                self.i += 1;
                return v;
            }
            if self.peek() == b',' {
                self.i += 1;
                continue;
            }
            v.push(self.ty(named));
        }
    }
}
