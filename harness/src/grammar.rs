//! TLS 1.2 handshake grammar, written from RFC 5246 / RFC 4492, independent of husk.
pub struct P<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl<'a> P<'a> {
    pub fn new(b: &'a [u8]) -> P<'a> {
        P { b, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.left() {
            return None;
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Some(s)
    }
    /// big-endian integer of n bytes
    pub fn num(&mut self, n: usize) -> Option<usize> {
        let s = self.take(n)?;
        let mut v = 0usize;
        for x in s {
            v = v << 8 | *x as usize;
        }
        Some(v)
    }
    /// vector with an n-byte length and a payload of min..=max bytes
    pub fn vec(&mut self, n: usize, min: usize, max: usize) -> Option<&'a [u8]> {
        let len = self.num(n)?;
        if len > self.left() || len < min || len > max {
            return None;
        }
        self.take(len)
    }
}
pub fn curve_ok(v: usize) -> bool {
    v >= 1 && v <= 25 || v == 0xff01 || v == 0xff02
}
pub fn hash_ok(v: u8) -> bool {
    v <= 6
}
pub fn sig_ok(v: u8) -> bool {
    v <= 3
}
pub fn cert_type_ok(v: u8) -> bool {
    v >= 1 && v <= 6 || v == 20
}
pub const ALERTS: [u8; 29] = [
    0, 10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80, 90, 100, 110, 111, 112, 113, 114,
];
pub fn alert_ok(v: u8) -> bool {
    let mut r = false;
    for a in ALERTS.iter() {
        r |= *a == v;
    }
    r
}
/// whole 2-byte items, each accepted by f
fn pairs(s: &[u8], f: fn(u8, u8) -> bool) -> bool {
    if s.len() % 2 != 0 {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < s.len() {
        ok &= f(s[i], s[i + 1]);
        i += 2;
    }
    ok
}
fn singles(s: &[u8], f: fn(u8) -> bool) -> bool {
    let mut ok = true;
    for x in s {
        ok &= f(*x);
    }
    ok
}
fn sig_algs(p: &mut P) -> Option<()> {
    let v = p.vec(2, 2, 65534)?;
    if !pairs(v, |a, b| hash_ok(a) & sig_ok(b)) {
        return None;
    }
    Some(())
}
/// optional extension block at the end of a hello
pub fn extensions(p: &mut P) -> Option<()> {
    if p.left() == 0 {
        return Some(());
    }
    let v = p.vec(2, 0, 65535)?;
    if p.left() != 0 {
        return None;
    }
    let mut e = P::new(v);
    while e.left() > 0 {
        let ty = e.num(2)?;
        let body = e.vec(2, 0, 65535)?;
        let mut q = P::new(body);
        if ty == 10 {
            let v = q.vec(2, 1, 65535)?;
            if !pairs(v, |a, b| curve_ok((a as usize) << 8 | b as usize)) {
                return None;
            }
        } else if ty == 11 {
            let v = q.vec(1, 1, 255)?;
            if !singles(v, |x| x <= 2) {
                return None;
            }
        } else if ty == 13 {
            sig_algs(&mut q)?;
        } else {
            q.pos = q.b.len();
        }
        if q.left() != 0 {
            return None;
        }
    }
    Some(())
}
/// body of a handshake message of this type: None if malformed, else whether all cipher suites in it are known
pub fn body(ty: u8, b: &[u8]) -> Option<bool> {
    let mut p = P::new(b);
    let mut known = true;
    match ty {
        0 | 14 => {}
        1 | 2 => {
            p.take(2)?;
            p.take(32)?;
            p.vec(1, 0, 32)?;
            if ty == 1 {
                let s = p.vec(2, 2, 65534)?;
                if s.len() % 2 != 0 {
                    return None;
                }
                known = pairs(s, |a, b| (a == 0xcc) & (b == 0xa8));
                let c = p.vec(1, 1, 255)?;
                if !singles(c, |x| x <= 1) {
                    return None;
                }
            } else {
                let s = p.take(2)?;
                known = (s[0] == 0xcc) & (s[1] == 0xa8);
                if p.num(1)? > 1 {
                    return None;
                }
            }
            extensions(&mut p)?;
        }
        11 => {
            let v = p.vec(3, 0, (1 << 24) - 1)?;
            let mut q = P::new(v);
            while q.left() > 0 {
                q.vec(3, 1, (1 << 24) - 1)?;
            }
        }
        12 | 16 => {
            p.pos = p.b.len();
        }
        13 => {
            let t = p.vec(1, 1, 255)?;
            if !singles(t, cert_type_ok) {
                return None;
            }
            sig_algs(&mut p)?;
            let v = p.vec(2, 0, 65535)?;
            let mut q = P::new(v);
            while q.left() > 0 {
                q.vec(2, 1, 65535)?;
            }
        }
        20 => {
            p.take(12)?;
        }
        _ => return None,
    }
    if p.left() != 0 {
        return None;
    }
    Some(known)
}
pub fn known_type(ty: u8) -> bool {
    (ty == 0) | (ty == 1) | (ty == 2) | (ty == 11) | (ty == 12) | (ty == 13) | (ty == 14) | (ty == 16) | (ty == 20)
}
