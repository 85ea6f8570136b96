//! H01-H04: the client against a server with the private key 1
use crate::reference as rf;
use crate::sv;
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::{Aead, Decryptor, Encryptor};
use husk::client::TlsClient;
use husk::tls_result::{TlsError, TlsErrorKind, TlsResult};
use rand::rngs::OsRng;
use std::io::{self, Read, Write};

/// the base point, uncompressed (SEC 2, 2.4.2)
const GX: [u8; 32] = [
    0x6b, 0x17, 0xd1, 0xf2, 0xe1, 0x2c, 0x42, 0x47, 0xf8, 0xbc, 0xe6, 0xe5, 0x63, 0xa4, 0x40, 0xf2, 0x77, 0x03, 0x7d, 0x81, 0x2d, 0xeb, 0x33,
    0xa0, 0xf4, 0xa1, 0x39, 0x45, 0xd8, 0x98, 0xc2, 0x96,
];
const GY: [u8; 32] = [
    0x4f, 0xe3, 0x42, 0xe2, 0xfe, 0x1a, 0x7f, 0x9b, 0x8e, 0xe7, 0xeb, 0x4a, 0x7c, 0x0f, 0x9e, 0x16, 0x2b, 0xce, 0x33, 0x57, 0x6b, 0x31, 0x5e,
    0xce, 0xcb, 0xb6, 0x40, 0x68, 0x37, 0xbf, 0x51, 0xf5,
];

/// One record the server sends.
#[derive(Clone)]
pub struct Item {
    ty: u8,
    major: u8,
    minor: u8,
    body: Vec<u8>,
    sealed: bool,
    /// the body is the right Finished message, xored with `body` (and cut or extended to its length)
    fin: bool,
    /// xored onto the sealed body, from its beginning
    spoil: Vec<u8>,
    /// the sender's sequence number is moved on by this before
    skip: u64,
    /// the transport ends within this record, after so many bytes
    cut: usize,
}
pub fn plain(ty: u8, body: &[u8]) -> Item {
    Item { ty, major: 3, minor: 3, body: body.to_vec(), sealed: false, fin: false, spoil: Vec::new(), skip: 0, cut: usize::MAX }
}
pub fn sealed(ty: u8, body: &[u8]) -> Item {
    let mut i = plain(ty, body);
    i.sealed = true;
    i
}
pub fn finished() -> Item {
    let mut i = sealed(22, &[0; 16]);
    i.fin = true;
    i
}
#[derive(Clone)]
pub struct Keys {
    ckey: Vec<u8>,
    skey: Vec<u8>,
    civ: Vec<u8>,
    siv: Vec<u8>,
    cfin: Vec<u8>,
    sfin: Vec<u8>,
}
pub struct Net {
    /// what the client sent
    pub out: Vec<u8>,
    pub writes_fail_at: usize,
    pub wstep: usize,
    /// what is on its way to the client
    data: Vec<u8>,
    pos: usize,
    pub step: usize,
    /// at the end: an error instead of end of stream
    pub fail: bool,
    pub items: Vec<Item>,
    next: usize,
    seq: u64,
    pub keys: Option<Keys>,
    /// the server's handshake messages, in the clear, for the transcript
    pub said: Vec<u8>,
    pub srandom: Vec<u8>,
    pub failed_io: bool,
    /// a second Finished item stands for the message's rest from this byte on
    rest_from: usize,
}
impl Net {
    pub fn new() -> Box<Net> {
        Box::new(Net {
            out: Vec::new(),
            writes_fail_at: usize::MAX,
            wstep: 0,
            data: Vec::new(),
            pos: 0,
            step: 0,
            fail: false,
            items: Vec::new(),
            next: 0,
            seq: 0,
            keys: None,
            said: Vec::new(),
            srandom: Vec::new(),
            failed_io: false,
            rest_from: 0,
        })
    }
    fn more(&mut self) {
        if self.next == self.items.len() {
            return;
        }
        let it = self.items[self.next].clone();
        self.next += 1;
        let mut body = it.body.clone();
        if it.fin {
            self.derive();
            if let Some(k) = &self.keys {
                for i in 0..body.len() {
                    if i < 16 {
                        body[i] ^= k.sfin[i];
                    }
                }
                if self.rest_from > 0 && self.next == self.items.len() {
                    body = body[self.rest_from..].to_vec();
                }
            }
        }
        if it.sealed {
            self.derive();
            self.seq += it.skip;
            if let Some(k) = &self.keys {
                let (n, ad) = (nonce_of(&k.siv, self.seq), ad_of(self.seq, it.ty, it.major, it.minor, body.len()));
                body = ChaCha20Poly1305.new_encryptor(k.skey.clone()).encrypt(&n, &body, &ad);
                self.seq += 1;
            }
        }
        for i in 0..it.spoil.len() {
            body[i] ^= it.spoil[i];
        }
        let mut r = Vec::new();
        r.extend_from_slice(&[it.ty, it.major, it.minor, (body.len() >> 8) as u8, body.len() as u8]);
        r.extend_from_slice(&body);
        if it.cut < r.len() {
            r.truncate(it.cut);
            self.next = self.items.len();
        }
        self.data = r;
        self.pos = 0;
    }
    fn derive(&mut self) {
        if self.keys.is_some() {
            return;
        }
        self.keys = self.compute();
    }
    /// RFC 5246, 6.3, 7.4.9, 8.1, with the server's private key 1
    fn compute(&self) -> Option<Keys> {
        let f = flight(&self.out)?;
        let (ch, cke) = (&f.hello, f.cke.as_ref()?);
        if ch.len() < 38 || cke.len() < 70 {
            return None;
        }
        let cr = ch[6..38].to_vec();
        let pre = cke[6..38].to_vec();
        let c = rf::sha_const();
        let mut seed = b"master secret".to_vec();
        seed.extend_from_slice(&cr);
        seed.extend_from_slice(&self.srandom);
        let master = rf::p_hash(&c, &pre, &seed, 48);
        let mut seed = b"key expansion".to_vec();
        seed.extend_from_slice(&self.srandom);
        seed.extend_from_slice(&cr);
        let kb = rf::p_hash(&c, &master, &seed, 88);
        let mut all = ch.clone();
        all.extend_from_slice(&self.said);
        all.extend_from_slice(cke);
        let mut seed = b"client finished".to_vec();
        seed.extend_from_slice(&rf::sha256(&c, &all));
        let mut cfin = vec![20, 0, 0, 12];
        cfin.extend_from_slice(&rf::p_hash(&c, &master, &seed, 12));
        all.extend_from_slice(&cfin);
        let mut seed = b"server finished".to_vec();
        seed.extend_from_slice(&rf::sha256(&c, &all));
        let mut sfin = vec![20, 0, 0, 12];
        sfin.extend_from_slice(&rf::p_hash(&c, &master, &seed, 12));
        Some(Keys { ckey: kb[..32].to_vec(), skey: kb[32..64].to_vec(), civ: kb[64..76].to_vec(), siv: kb[76..88].to_vec(), cfin, sfin })
    }
}
pub struct End(pub *mut Net);
unsafe impl Send for End {}
impl Read for End {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = unsafe { &mut *self.0 };
        if n.pos == n.data.len() && !buf.is_empty() {
            n.data = Vec::new();
            n.pos = 0;
            n.more();
        }
        let left = n.data.len() - n.pos;
        if left == 0 && n.fail && !buf.is_empty() {
            n.failed_io = true;
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        if left == 0 && !buf.is_empty() {
            n.failed_io = true;
        }
        let mut k = if left < buf.len() { left } else { buf.len() };
        if n.step != 0 && k > n.step {
            k = n.step;
        }
        buf[..k].copy_from_slice(&n.data[n.pos..n.pos + k]);
        n.pos += k;
        Ok(k)
    }
}
impl Write for End {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = unsafe { &mut *self.0 };
        let mut k = buf.len();
        if n.wstep != 0 && k > n.wstep {
            k = n.wstep;
        }
        let left = n.writes_fail_at - n.out.len();
        if k > left {
            k = left;
        }
        if k == 0 && !buf.is_empty() {
            n.failed_io = true;
            return Err(io::Error::from(io::ErrorKind::BrokenPipe));
        }
        n.out.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn nonce_of(iv: &[u8], n: u64) -> Vec<u8> {
    let mut v = iv.to_vec();
    for i in 0..8 {
        v[4 + i] ^= (n >> (8 * (7 - i))) as u8;
    }
    v
}
fn ad_of(n: u64, ty: u8, major: u8, minor: u8, len: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for i in 0..8 {
        v.push((n >> (8 * (7 - i))) as u8);
    }
    v.extend_from_slice(&[ty, major, minor, (len >> 8) as u8, len as u8]);
    v
}
/// the records in `b`, all of version 3.3; None if there is anything else
fn records(b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < b.len() {
        if b.len() - p < 5 || b[p + 1] != 3 || b[p + 2] != 3 {
            return None;
        }
        let n = (b[p + 3] as usize) << 8 | b[p + 4] as usize;
        if b.len() - p - 5 < n {
            return None;
        }
        v.push((b[p], b[p + 5..p + 5 + n].to_vec()));
        p += 5 + n;
    }
    Some(v)
}
/// What the client sent before ChangeCipherSpec, the messages with their headers; then the rest.
struct Flight {
    hello: Vec<u8>,
    cke: Option<Vec<u8>>,
    ccs: bool,
    /// records after ChangeCipherSpec, or after the first alert
    rest: Vec<(u8, Vec<u8>)>,
}
fn flight(out: &[u8]) -> Option<Flight> {
    let mut hs = Vec::new();
    let mut f = Flight { hello: Vec::new(), cke: None, ccs: false, rest: Vec::new() };
    for (t, b) in records(out)? {
        if f.ccs || !f.rest.is_empty() || t == 21 {
            f.rest.push((t, b));
        } else if t == 22 {
            hs.extend_from_slice(&b);
        } else if t == 20 && b.len() == 1 && b[0] == 1 {
            f.ccs = true;
        } else {
            return None;
        }
    }
    let mut p = 0;
    while p < hs.len() {
        if hs.len() - p < 4 {
            return None;
        }
        let n = (hs[p + 1] as usize) << 16 | (hs[p + 2] as usize) << 8 | hs[p + 3] as usize;
        if hs.len() - p - 4 < n {
            return None;
        }
        let m = hs[p..p + 4 + n].to_vec();
        p += 4 + n;
        if m[0] == 1 && f.hello.is_empty() {
            f.hello = m;
        } else if m[0] == 16 && !f.hello.is_empty() && f.cke.is_none() {
            f.cke = Some(m);
        } else {
            return None;
        }
    }
    Some(f)
}
fn msg(ty: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, (body.len() >> 16) as u8, (body.len() >> 8) as u8, body.len() as u8];
    v.extend_from_slice(body);
    v
}
/// ServerHello; `tail` is what follows the compression method
fn server_hello(version: [u8; 2], random: &[u8], sid: &[u8], suite: [u8; 2], comp: u8, tail: &[u8]) -> Vec<u8> {
    let mut b = version.to_vec();
    b.extend_from_slice(random);
    b.push(sid.len() as u8);
    b.extend_from_slice(sid);
    b.extend_from_slice(&suite);
    b.push(comp);
    b.extend_from_slice(tail);
    msg(2, &b)
}
fn certificate(certs: &[&[u8]]) -> Vec<u8> {
    let mut l = Vec::new();
    for c in certs {
        l.extend_from_slice(&[(c.len() >> 16) as u8, (c.len() >> 8) as u8, c.len() as u8]);
        l.extend_from_slice(c);
    }
    let mut b = vec![(l.len() >> 16) as u8, (l.len() >> 8) as u8, l.len() as u8];
    b.extend_from_slice(&l);
    msg(11, &b)
}
fn key_exchange_params(curve_type: u8, curve: [u8; 2], point: &[u8], sign: &[u8]) -> Vec<u8> {
    let mut b = vec![curve_type, curve[0], curve[1], point.len() as u8];
    b.extend_from_slice(point);
    b.extend_from_slice(&[4, 1, (sign.len() >> 8) as u8, sign.len() as u8]);
    b.extend_from_slice(sign);
    b
}
fn point() -> Vec<u8> {
    let mut p = vec![4];
    p.extend_from_slice(&GX);
    p.extend_from_slice(&GY);
    p
}
fn key_exchange() -> Vec<u8> {
    msg(12, &key_exchange_params(3, [0, 23], &point(), &[9; 3]))
}
/// the messages of a conforming server
fn good(random: &[u8]) -> Vec<Vec<u8>> {
    vec![server_hello([3, 3], random, &[], [0xcc, 0xa8], 0, &[]), certificate(&[&[1, 2, 3]]), key_exchange(), msg(14, &[])]
}
fn server(random: &[u8], msgs: &[Vec<u8>]) -> Box<Net> {
    let mut n = Net::new();
    n.srandom = random.to_vec();
    for m in msgs {
        n.said.extend_from_slice(m);
        for part in m.chunks(16384) {
            n.items.push(plain(22, part));
        }
    }
    n.items.push(plain(20, &[1]));
    n.items.push(finished());
    n
}
fn connect(n: &mut Box<Net>) -> TlsResult<TlsClient<End, End>> {
    let p: *mut Net = &mut **n;
    TlsClient::new(End(p), End(p), OsRng)
}

// ---------------------------------------------------------------- H02
/// p0: 1: every random, server random and pre-master secret; 0: fixed ones
#[no_mangle]
pub extern "C" fn h02_flight() {
    let random = if sv::param(0) == 1 { sv::bytes(32) } else { vec![0x21; 32] };
    sv::rand_limit(64);
    sv::rand_fixed(if sv::param(0) == 1 { 32 } else { 0 });
    let mut n = server(&random, &good(&random));
    let c = connect(&mut n);
    sv::check(c.is_ok(), 10);
    if c.is_err() {
        return;
    }
    let f = match flight(&n.out) {
        Some(f) => f,
        None => return sv::check(false, 11),
    };
    sv::check(f.ccs && f.rest.len() == 1, 12);
    hello(&f.hello);
    if let (Some(k), 1) = (&n.keys, f.rest.len()) {
        sv::check(f.rest[0].0 == 22, 13);
        let want = ChaCha20Poly1305.new_encryptor(k.ckey.clone()).encrypt(&nonce_of(&k.civ, 0), &k.cfin, &ad_of(0, 22, 3, 3, 16));
        sv::check_eq(&f.rest[0].1, &want, 14);
    } else {
        sv::check(false, 15);
    }
    sv::reach(1);
}
/// the ClientHello
fn hello(h: &[u8]) {
    sv::check(h.len() > 44 && h[0] == 1, 20);
    if h.len() <= 44 {
        return;
    }
    sv::check(h[4] == 3 && h[5] == 3, 21);
    // 32 bytes of the random source
    let log = sv::rand_log();
    let mut any = false;
    let mut i = 0;
    while i + 32 <= log.len() {
        let mut same = true;
        for j in 0..32 {
            same &= h[6 + j] == log[i + j];
        }
        any |= same;
        i += 1;
    }
    sv::check(any, 22);
    sv::check_eq(&h[38..46], &[0, 0, 2, 0xcc, 0xa8, 1, 0, 0], 23);
    let ext = &h[46..];
    sv::check(ext.len() > 0 && ext[0] as usize == ext.len() - 1, 24);
    let mut seen = [0; 3];
    let mut p = 1;
    while p + 4 <= ext.len() {
        let l = (ext[p + 2] as usize) << 8 | ext[p + 3] as usize;
        if p + 4 + l > ext.len() {
            return sv::check(false, 25);
        }
        let b = &ext[p + 4..p + 4 + l];
        match (ext[p], ext[p + 1]) {
            (0, 10) => {
                sv::check_eq(b, &[0, 2, 0, 23], 26);
                seen[0] += 1
            }
            (0, 11) => {
                sv::check_eq(b, &[1, 0], 27);
                seen[1] += 1
            }
            (0, 13) => {
                sv::check_eq(b, &[0, 2, 4, 1], 28);
                seen[2] += 1
            }
            _ => sv::check(false, 29),
        }
        p += 4 + l;
    }
    sv::check(p == ext.len(), 30);
    sv::check(seen == [1, 1, 1], 31);
}
/// the server's hello in several shapes, all conforming
fn shapes(k: usize, random: &[u8]) -> Vec<Vec<u8>> {
    let mut g = good(random);
    let s = [0xcc, 0xa8];
    match k {
        0 => {}
        1 => g[0] = server_hello([3, 3], random, &[7; 32], s, 0, &[0, 4, 0, 11, 0, 0][..0]),
        2 => g[0] = server_hello([3, 3], random, &[7], s, 0, &[0, 6, 0, 11, 0, 2, 1, 0]),
        3 => g[0] = server_hello([3, 3], random, &[], s, 0, &[0, 11, 0xff, 1, 0, 1, 0, 0, 11, 0, 2, 1, 0]),
        4 => g[1] = certificate(&[&[5; 40], &[6; 70], &[1]]),
        5 => g[1] = certificate(&[&[5; 700]]),
        6 => g[2] = msg(12, &key_exchange_params(3, [0, 23], &point(), &[9; 256])),
        7 => g[0] = server_hello([3, 3], random, &[7; 32], s, 0, &[0, 18, 0, 11, 0, 4, 3, 0, 1, 2, 0, 35, 0, 0, 0x44, 0x69, 0, 2, 8, 9]),
        8 => g[2] = msg(12, &key_exchange_params(3, [0, 23], &point(), &[])),
        _ => g[1] = certificate(&[&[4; 9000], &[5; 9000]]),
    }
    g
}
pub const SHAPES: usize = 10;
/// every conforming server gets the right flight, and both directions' keys are used afterwards
#[no_mangle]
pub extern "C" fn h02_shapes() {
    let random = [0x21; 32];
    sv::rand_limit(64);
    sv::rand_fixed(0);
    let mut n = server(&random, &shapes(sv::choose(SHAPES), &random));
    for _ in 0..2 {
        n.items.push(sealed(23, &sv::bytes(3)));
    }
    n.step = [0, 1, 7][sv::choose(3)];
    let mut c = match connect(&mut n) {
        Ok(c) => c,
        Err(_) => return sv::check(false, 40),
    };
    let before = n.out.len();
    let data = sv::bytes(3);
    sv::check(c.write_all(&data).is_ok(), 41);
    let mut got = [0; 6];
    let r = c.read(&mut got);
    sv::check(matches!(r, Ok(6)), 42);
    for i in 0..2 {
        sv::check_eq(&got[3 * i..3 * i + 3], &n.items[n.items.len() - 2 + i].body, 43);
    }
    sent(&n, before, 1, &[(23, data)], 44);
    finished_ok(&n);
    sv::reach(1);
}
/// the records from position `from` of the wire are these, sealed with the client's keys
fn sent(n: &Net, from: usize, seq: u64, want: &[(u8, Vec<u8>)], id: u32) {
    let k = match &n.keys {
        Some(k) => k,
        None => return sv::check(false, id),
    };
    let recs = match records(&n.out[from..]) {
        Some(r) => r,
        None => return sv::check(false, id),
    };
    sv::check(recs.len() == want.len(), id);
    if recs.len() != want.len() {
        return;
    }
    for i in 0..recs.len() {
        let q = seq + i as u64;
        sv::check(recs[i].0 == want[i].0, id);
        let w = ChaCha20Poly1305.new_encryptor(k.ckey.clone()).encrypt(&nonce_of(&k.civ, q), &want[i].1, &ad_of(q, want[i].0, 3, 3, want[i].1.len()));
        sv::check_eq(&recs[i].1, &w, id);
    }
}
/// the client's whole flight up to Finished
fn finished_ok(n: &Net) {
    let f = match flight(&n.out) {
        Some(f) => f,
        None => return sv::check(false, 50),
    };
    sv::check(f.ccs && f.rest.len() >= 1, 51);
    if let (Some(k), true) = (&n.keys, f.rest.len() >= 1) {
        sv::check(f.rest[0].0 == 22, 52);
        let want = ChaCha20Poly1305.new_encryptor(k.ckey.clone()).encrypt(&nonce_of(&k.civ, 0), &k.cfin, &ad_of(0, 22, 3, 3, 16));
        sv::check_eq(&f.rest[0].1, &want, 53);
    }
}

// ---------------------------------------------------------------- H01, H03
fn description(k: TlsErrorKind) -> u8 {
    match k {
        TlsErrorKind::UnexpectedMessage => 10,
        TlsErrorKind::BadRecordMac => 20,
        TlsErrorKind::RecordOverflow => 22,
        TlsErrorKind::IllegalParameter => 47,
        TlsErrorKind::DecodeError => 50,
        TlsErrorKind::DecryptError => 51,
        TlsErrorKind::InternalError => 80,
        _ => 0,
    }
}
/// what the client has sent when setup failed with this error
fn failed(n: &mut Net, e: &TlsError, kinds: &[TlsErrorKind]) {
    sv::check((e.kind == TlsErrorKind::IoFailure) == n.failed_io, 60);
    let f = match flight(&n.out) {
        Some(f) => f,
        None => return sv::check(false, 61),
    };
    if n.failed_io {
        sv::check(f.rest.len() == f.ccs as usize, 62);
        return;
    }
    if !kinds.is_empty() {
        let mut any = false;
        for k in kinds {
            any |= *k == e.kind;
        }
        sv::check(any, 63);
    }
    let d = description(e.kind);
    if f.ccs {
        // after Finished, sealed
        sv::check(f.rest.len() == 2, 64);
        if f.rest.len() != 2 {
            return;
        }
        n.derive();
        sv::check(f.rest[1].0 == 21, 65);
        if let Some(k) = &n.keys {
            let w = ChaCha20Poly1305.new_encryptor(k.ckey.clone()).encrypt(&nonce_of(&k.civ, 1), &[2, d], &ad_of(1, 21, 3, 3, 2));
            sv::check_eq(&f.rest[1].1, &w, 66);
        }
    } else {
        sv::check(f.rest.len() == 1, 67);
        if f.rest.len() == 1 {
            sv::check(f.rest[0].0 == 21, 68);
            sv::check_eq(&f.rest[0].1, &[2, d], 69);
        }
    }
}
fn fixed() -> [u8; 32] {
    sv::rand_limit(64);
    sv::rand_fixed(0);
    [0x21; 32]
}
/// setup succeeds iff `good`
fn outcome(n: &mut Box<Net>, good: bool, kinds: &[TlsErrorKind]) {
    match connect(n) {
        Ok(_) => {
            sv::check(good, 70);
            sv::reach(1);
        }
        Err(e) => {
            sv::check(!good, 71);
            failed(n, &e, kinds);
            sv::reach(2);
        }
    }
}
/// the handshake bytes in records of any division (p0 cuts), within p1..=p2 of the bytes
#[no_mangle]
pub extern "C" fn h01_records() {
    let random = fixed();
    let msgs = good(&random);
    let mut n = server(&random, &msgs);
    let all = n.said.clone();
    let tail = n.items.split_off(msgs.len());
    n.items.clear();
    let mut p = 0;
    let (lo, hi) = (sv::param(1), sv::param(2));
    for i in 0..sv::param(0) {
        let (a, b) = (if lo > p { lo } else { p + 1 }, if hi < all.len() - 1 { hi } else { all.len() - 1 });
        if a > b {
            break;
        }
        let c = if i == 0 { sv::range(a, b) } else { [p + 1, all.len() - 1][sv::choose(2)] };
        n.items.push(plain(22, &all[p..c]));
        p = c;
    }
    n.items.push(plain(22, &all[p..]));
    n.items.extend_from_slice(&tail);
    outcome(&mut n, true, &[]);
}
/// one thing wrong with the order of the flight: p0 what, at any place
#[no_mangle]
pub extern "C" fn h01_order() {
    use TlsErrorKind::*;
    let random = fixed();
    // what is sealed may be read as if it were not
    sv::uf_fixed();
    let msgs = good(&random);
    let mut n = server(&random, &msgs);
    // 0..4 handshake messages, 4 CCS, 5 Finished
    let at = sv::choose(6);
    let mut kinds: Vec<TlsErrorKind> = vec![UnexpectedMessage];
    match sv::param(0) {
        0 => {
            // left out
            n.items.remove(at);
            if at == 4 {
                // a sealed record where a plain one is expected
                kinds.clear();
            }
        }
        1 => {
            // twice
            let it = n.items[at].clone();
            if at == 5 {
                return;
            }
            n.items.insert(at, it);
            if at == 4 {
                kinds = vec![BadRecordMac, UnexpectedMessage];
            }
        }
        2 => {
            // exchanged with a later one
            let b = at + 1 + sv::choose(5);
            if b > 5 {
                return;
            }
            n.items.swap(at, b);
            if b >= 4 {
                kinds.clear();
            }
        }
        3 => {
            // another handshake message before it
            let extra = match sv::choose(9) {
                0 => msg(0, &[]),
                1 => msg(1, &[]),
                2 => msg(13, &[1, 1, 0, 0, 0, 0]),
                3 => msg(14, &[]),
                4 => msg(16, &[1]),
                5 => msg(20, &[0; 12]),
                6 => msgs[0].clone(),
                7 => msgs[1].clone(),
                _ => msgs[2].clone(),
            };
            if (extra == msgs[0] && at == 0) || (extra == msgs[1] && at == 1) || (extra == msgs[2] && at == 2) || (extra == msgs[3] && at == 3) {
                return;
            }
            let mut it = plain(22, &extra);
            it.sealed = at == 5 && sv::choose(2) == 1;
            n.items.insert(at, it);
            kinds.clear();
        }
        4 => {
            // another record before it
            let b = sv::bytes(2);
            let it = match sv::choose(5) {
                0 => plain(21, &[1, b[0]]),
                1 => plain(21, &b),
                2 => plain(23, &b),
                3 => plain(20, &[1]),
                _ => plain(22, &[]),
            };
            if at == 4 && it.ty == 20 {
                return;
            }
            n.items.insert(at, it);
            if at == 5 && sv::choose(2) == 1 {
                n.items[at].sealed = true;
            }
            kinds.clear();
        }
        5 => {
            // replaced
            let it = match sv::choose(4) {
                0 => plain(22, &msgs[sv::choose(4)]),
                1 => plain(21, &[2, 40]),
                2 => plain(23, &[1, 2]),
                _ => plain(22, &msg([0, 13, 15, 16, 20][sv::choose(5)], &[])),
            };
            if at < 4 && it.ty == 22 && it.body == msgs[at] {
                return;
            }
            n.items[at] = it;
            if at == 5 && sv::choose(2) == 1 {
                n.items[at].sealed = true;
            }
            kinds.clear();
        }
        6 => {
            // the transport ends, or fails, somewhere in it
            n.fail = sv::choose(2) == 1;
            let len = if at == 5 { 37 } else { n.items[at].body.len() + 5 };
            n.items[at].cut = if len < 60 { sv::choose(len) } else { [0, 1, 4, 5, 6, 20, 50, len - 1][sv::choose(8)] };
        }
        7 => {
            // Finished in the clear, before or after ChangeCipherSpec
            n.items[5].sealed = false;
            if sv::choose(2) == 1 {
                n.items.swap(4, 5);
            }
            kinds.clear();
        }
        _ => {
            // a message of the first flight comes, whole or in part, together with the ChangeCipherSpec or after it
            let it = n.items.remove(3);
            n.items.insert(4, it);
            n.items[4].sealed = sv::choose(2) == 1;
            kinds.clear();
        }
    }
    outcome(&mut n, false, &kinds);
}
/// ServerHello with any version, suite and compression method, and any random
#[no_mangle]
pub extern "C" fn h01_hello() {
    use TlsErrorKind::*;
    fixed();
    let random = sv::bytes(32);
    let (v, s, c) = (sv::arr::<2>(), sv::arr::<2>(), sv::u8_());
    let mut msgs = good(&random);
    let sid = [0, 1, 32, 33][sv::choose(4)];
    let tail: &[u8] = [&[][..], &[0, 6, 0, 11, 0, 2, 1, 0], &[0], &[0, 1, 2], &[0, 0, 0]][sv::choose(5)];
    msgs[0] = server_hello(v, &random, &vec![3; sid], s, c, tail);
    let ok = (v[0] == 3) & (v[1] == 3) & (s[0] == 0xcc) & (s[1] == 0xa8) & (c == 0) & (sid <= 32) & (tail.len() == 0 || tail.len() == 8);
    let mut n = server(&random, &msgs);
    if ok {
        sv::reach(3);
    }
    outcome(&mut n, ok, &[IllegalParameter, DecodeError]);
}
/// server key exchange with other curves, points, signatures
#[no_mangle]
pub extern "C" fn h01_exchange() {
    use TlsErrorKind::*;
    let random = fixed();
    let mut msgs = good(&random);
    let mut ok = false;
    let body = match sv::param(0) {
        0 => {
            let (t, c) = (sv::u8_(), sv::arr::<2>());
            ok = (t == 3) & (c[0] == 0) & (c[1] == 23);
            key_exchange_params(t, c, &point(), &[9; 3])
        }
        1 => {
            // points that are not
            let mut p = point();
            match sv::choose(8) {
                0 => p[64] ^= 1,
                1 => p[1] ^= 0x80,
                2 => p[0] = 2,
                3 => {
                    p.pop();
                }
                4 => p.push(0),
                5 => p.truncate(1),
                6 => {
                    for x in p[1..].iter_mut() {
                        *x = 0;
                    }
                }
                _ => {
                    // y + p does not fit; p itself for x
                    p[1..33].copy_from_slice(&[
                        0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
                        0xff, 0xff,
                    ]);
                }
            }
            key_exchange_params(3, [0, 23], &p, &[9; 3])
        }
        2 => {
            // cut or extended
            let mut b = key_exchange_params(3, [0, 23], &point(), &[9; 3]);
            let n = sv::range(0, b.len() + 2);
            while b.len() < n {
                b.push(0);
            }
            ok = n == b.len() && n == 76;
            b.truncate(n);
            b
        }
        _ => {
            // any prefix byte of the point
            let mut p = point();
            let x = sv::u8_();
            p[0] = x;
            ok = x == 4;
            key_exchange_params(3, [0, 23], &p, &[9; 3])
        }
    };
    msgs[2] = msg(12, &body);
    let mut n = server(&random, &msgs);
    outcome(&mut n, ok, &[IllegalParameter, DecodeError]);
}
/// the server's Finished and ChangeCipherSpec
#[no_mangle]
pub extern "C" fn h01_finished() {
    use TlsErrorKind::*;
    let random = fixed();
    let mut n = server(&random, &good(&random));
    let mut ok = false;
    let mut kinds: Vec<TlsErrorKind> = Vec::new();
    if [2, 4, 6, 9].contains(&sv::param(0)) {
        sv::uf_fixed();
    }
    match sv::param(0) {
        0 => {
            // any 12 bytes
            let d = sv::bytes(12);
            let mut same = true;
            for b in d.iter() {
                same &= *b == 0;
            }
            ok = same;
            n.items[5].body[4..].copy_from_slice(&d);
            kinds.push(DecryptError);
        }
        1 => {
            // other lengths
            let k = sv::range(0, 40);
            let mut b = vec![0, 0, 0, 12 ^ k as u8];
            b.extend_from_slice(&vec![0; k]);
            n.items[5].body = b;
            ok = k == 12;
        }
        2 => {
            // any message type
            let t = sv::u8_();
            n.items[5].body[0] = t;
            ok = t == 0;
        }
        3 => {
            // an altered tag
            let d = sv::bytes(16);
            let mut same = true;
            for b in d.iter() {
                same &= *b == 0;
            }
            ok = same;
            n.items[5].spoil = vec![0; 32];
            n.items[5].spoil[16..].copy_from_slice(&d);
            kinds.push(BadRecordMac);
        }
        4 => {
            // the wrong sequence number, or the client's own Finished sent back
            match sv::choose(2) {
                0 => n.items[5].skip = 1,
                _ => n.items[5] = plain(22, &[0; 32]),
            }
            kinds.push(BadRecordMac);
        }
        5 => {
            // any ChangeCipherSpec
            let k = sv::range(0, 3);
            n.items[4].body = sv::bytes(k);
            ok = k == 1 && n.items[4].body[0] == 1;
            kinds.push(UnexpectedMessage);
        }
        6 => {
            // more in the same record as Finished, or more after Finished cut in two
            if sv::choose(2) == 0 {
                n.items[5].body.push(0);
                ok = true;
            } else {
                let k = sv::range(1, 15);
                let mut first = n.items[5].clone();
                first.body.truncate(k);
                // the second half: zeroes before, which are cut off below
                n.derive_later(k);
                n.items[5] = first;
                ok = true;
            }
        }
        7 => {
            // body of other messages that must be empty, certificates that do not parse
            let mut msgs = good(&random);
            match sv::choose(4) {
                0 => msgs[3] = msg(14, &sv::bytes(1)),
                1 => msgs[1] = msg(11, &sv::bytes(2)),
                2 => msgs[1] = msg(11, &[0, 0, 4, 0, 0, 2, 1, 2]),
                _ => msgs[1] = msg(11, &[0, 0, 3, 0, 0, 1]),
            }
            n = server(&random, &msgs);
            kinds.clear();
        }
        8 => {
            // a record longer than allowed
            let at = sv::choose(6);
            n.items[at] = plain(n.items[at].ty, &vec![0; if at == 5 { 16384 + 2048 + 1 } else { 16385 }]);
            kinds.push(RecordOverflow);
        }
        9 => {
            // a record of any type
            let at = sv::choose(6);
            let t = sv::u8_();
            let was = n.items[at].ty;
            n.items[at].ty = t;
            ok = t == was;
        }
        _ => {
            // any first four bytes of a message of the first flight
            let at = sv::choose(4);
            let h = sv::bytes(4);
            let was = n.items[at].body[..4].to_vec();
            n.items[at].body[..4].copy_from_slice(&h);
            ok = (h[0] == was[0]) & (h[1] == was[1]) & (h[2] == was[2]) & (h[3] == was[3]);
        }
    }
    outcome(&mut n, ok, &kinds);
}
impl Net {
    /// adds a sealed record with the rest, from byte k, of the Finished message
    fn derive_later(&mut self, k: usize) {
        let mut it = finished();
        it.body = vec![0; 16];
        it.cut = usize::MAX;
        it.skip = 0;
        it.spoil = Vec::new();
        self.items.push(it);
        self.rest_from = k;
    }
}
/// the transport refuses bytes from any point on: p0..=p1
#[no_mangle]
pub extern "C" fn h03_writes() {
    let random = fixed();
    let mut whole = server(&random, &good(&random));
    if connect(&mut whole).is_err() {
        return sv::check(false, 80);
    }
    let lo = sv::param(0);
    let hi = if sv::param(1) < whole.out.len() { sv::param(1) } else { whole.out.len() };
    if lo > hi {
        return;
    }
    let at = sv::range(lo, hi);
    // the same random values again
    sv::rand_limit(64);
    unsafe { sv::sv_rand_again() };
    let mut n = server(&random, &good(&random));
    n.writes_fail_at = at;
    n.wstep = sv::choose(2);
    match connect(&mut n) {
        Ok(_) => sv::check(at == whole.out.len(), 81),
        Err(e) => {
            sv::check(at < whole.out.len(), 82);
            sv::check(e.kind == TlsErrorKind::IoFailure, 83);
            sv::reach(2);
        }
    }
    sv::check_eq(&n.out, &whole.out[..at], 84);
    sv::reach(1);
}
/// closing
#[no_mangle]
pub extern "C" fn h03_close() {
    let random = fixed();
    let mut n = server(&random, &good(&random));
    let mut c = match connect(&mut n) {
        Ok(c) => c,
        Err(_) => return sv::check(false, 90),
    };
    let mut seq = 1;
    if sv::choose(2) == 1 {
        sv::check(c.write_all(&[1, 2]).is_ok(), 91);
        seq = 2;
    }
    let before = n.out.len();
    sv::check(c.close().is_ok(), 92);
    let k = match &n.keys {
        Some(k) => k,
        None => return sv::check(false, 93),
    };
    let recs = match records(&n.out[before..]) {
        Some(r) => r,
        None => return sv::check(false, 94),
    };
    sv::check(recs.len() == 1 && recs[0].0 == 21, 95);
    if recs.len() == 1 {
        let mut any = false;
        for level in 1..3 {
            let w = ChaCha20Poly1305.new_encryptor(k.ckey.clone()).encrypt(&nonce_of(&k.civ, seq), &[level, 0], &ad_of(seq, 21, 3, 3, 2));
            any |= w[..] == recs[0].1[..];
        }
        sv::check(any, 96);
    }
    sv::reach(1);
}

// ---------------------------------------------------------------- H04
/// p0 records of chosen sizes, read with buffers of chosen sizes; p1: how the stream ends
#[no_mangle]
pub extern "C" fn h04_read() {
    const SIZES: [usize; 5] = [0, 1, 2, 3, 17];
    let random = fixed();
    let mut n = server(&random, &good(&random));
    let mut all = Vec::new();
    for _ in 0..sv::param(0) {
        let k = SIZES[sv::choose(5)];
        let b = sv::bytes(k);
        all.extend_from_slice(&b);
        n.items.push(sealed(23, &b));
    }
    match sv::param(1) {
        0 => {}
        1 => n.fail = true,
        2 => n.items.push(sealed(21, &[1, 0])),
        3 => {
            n.items.push(sealed(21, &[2, 40]));
        }
        _ => {
            let mut it = sealed(23, &[1, 2, 3]);
            it.spoil = vec![0; 18];
            it.spoil.push(1);
            n.items.push(it);
        }
    }
    n.items.push(sealed(23, &[0x77; 3]));
    if sv::param(1) <= 1 {
        n.items.pop();
    }
    let mut c = match connect(&mut n) {
        Ok(c) => c,
        Err(_) => return sv::check(false, 100),
    };
    let first = [1, 2, 5][sv::choose(3)];
    let mut got = Vec::new();
    let mut size = first;
    let mut calls = 0;
    loop {
        let mut b = vec![0; size];
        match c.read(&mut b) {
            Ok(k) => {
                sv::check(k <= size, 101);
                if k == 0 {
                    break;
                }
                got.extend_from_slice(&b[..k]);
            }
            Err(_) => break,
        }
        calls += 1;
        if calls > 120 {
            sv::check(false, 102);
            break;
        }
        if calls < 3 {
            size = [1, 4, 40][sv::choose(3)];
        }
    }
    sv::check_eq(&got, &all, 103);
    sv::reach(1);
}
/// large records and buffers
#[no_mangle]
pub extern "C" fn h04_large() {
    let random = fixed();
    let mut n = server(&random, &good(&random));
    let mut all = Vec::new();
    for i in 0..sv::param(0) {
        let mut b = vec![i as u8; sv::param(1)];
        sv::fill(&mut b[..2]);
        all.extend_from_slice(&b);
        n.items.push(sealed(23, &b));
    }
    n.items.push(sealed(21, &[1, 0]));
    let mut c = match connect(&mut n) {
        Ok(c) => c,
        Err(_) => return sv::check(false, 104),
    };
    let mut got = Vec::new();
    loop {
        let mut b = vec![0; sv::param(2)];
        match c.read(&mut b) {
            Ok(0) | Err(_) => break,
            Ok(k) => got.extend_from_slice(&b[..k]),
        }
    }
    sv::check_eq(&got, &all, 105);
    sv::reach(1);
}
/// p0 writes of p1..=p2 bytes; p3: 1: the transport fails at some point
#[no_mangle]
pub extern "C" fn h04_write() {
    let random = fixed();
    let mut n = server(&random, &good(&random));
    let mut c = match connect(&mut n) {
        Ok(c) => c,
        Err(_) => return sv::check(false, 106),
    };
    let before = n.out.len();
    if sv::param(3) == 1 {
        n.writes_fail_at = before + sv::range(0, 30);
    }
    n.wstep = if sv::param(2) < 100 { [0, 1, 7][sv::choose(3)] } else { 0 };
    let mut all = Vec::new();
    let mut failed = false;
    for _ in 0..sv::param(0) {
        let k = sv::range(sv::param(1), sv::param(2));
        let mut b = vec![0x33; k];
        if k <= 64 {
            sv::fill(&mut b);
        } else {
            sv::fill(&mut b[k - 2..]);
        }
        let start = n.out.len();
        let r = if sv::choose(2) == 0 {
            c.write_all(&b).map(|_| k)
        } else {
            c.write(&b)
        };
        match r {
            Ok(m) => {
                sv::check(m == k, 107);
                all.extend_from_slice(&b);
            }
            Err(_) => {
                failed = true;
                sv::check(n.failed_io, 108);
                n.out.truncate(start);
                break;
            }
        }
    }
    sv::check(failed || !n.failed_io, 109);
    let _ = c.flush();
    // exactly the data, in sealed records
    let recs = match records(&n.out[before..]) {
        Some(r) => r,
        None => return sv::check(false, 110),
    };
    let mut p = 0;
    for (i, (t, b)) in recs.iter().enumerate() {
        sv::check(*t == 23 && b.len() >= 16, 111);
        let l = b.len() - 16;
        if b.len() < 16 || all.len() - p < l {
            return sv::check(false, 112);
        }
        if let Some(k) = &n.keys {
            let q = 1 + i as u64;
            let w = ChaCha20Poly1305.new_encryptor(k.ckey.clone()).encrypt(&nonce_of(&k.civ, q), &all[p..p + l], &ad_of(q, 23, 3, 3, l));
            sv::check_eq(b, &w, 113);
        }
        p += l;
    }
    sv::check(p == all.len(), 114);
    sv::reach(1);
}
