//! R01-R06 (record layer)
use crate::grammar as g;
use crate::sv;
use crate::watch::{put, Watch};
use husk::alert::{Alert, AlertDescription, AlertLevel};
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::{Aead, Decryptor, Encryptor};
use husk::handshake::Handshake;
use husk::tls::*;
use husk::tls_item::TlsItem;
use husk::tls_result::{TlsError, TlsErrorKind, TlsResult};
use std::io::{self, Read, Write};

pub const TYPES: [u8; 4] = [20, 21, 22, 23];
fn content(t: u8) -> ContentType {
    match t {
        20 => ContentType::ChangeCipherSpecTy,
        21 => ContentType::AlertTy,
        22 => ContentType::HandshakeTy,
        _ => ContentType::ApplicationDataTy,
    }
}
/// n bytes of which the first and last few are arbitrary
fn some(n: usize) -> Vec<u8> {
    if n <= 64 {
        return sv::bytes(n);
    }
    let mut v = vec![0x5a; n];
    sv::fill(&mut v[..4]);
    sv::fill(&mut v[n - 4..]);
    v
}

// ---------------------------------------------------------------- what goes out
/// Everything written, and what may be.
pub struct Wire {
    pub out: Vec<u8>,
    /// no byte may be written
    pub closed: bool,
    /// at most this many bytes per call (0: as given)
    pub step: usize,
    /// fails after this many bytes
    pub room: usize,
    /// seals seen by the cipher
    pub seals: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>,
}
impl Wire {
    pub fn new() -> Box<Wire> {
        Box::new(Wire { out: Vec::new(), closed: false, step: 0, room: usize::MAX, seals: Vec::new() })
    }
}
pub struct Port(pub *mut Wire);
unsafe impl Send for Port {}
impl Port {
    fn w(&mut self) -> &mut Wire {
        unsafe { &mut *self.0 }
    }
}
impl Write for Port {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let w = self.w();
        sv::check(!w.closed || buf.is_empty(), 1);
        let mut n = buf.len();
        if w.step != 0 && n > w.step {
            n = w.step;
        }
        let left = w.room - w.out.len();
        if n > left {
            n = left;
        }
        if n == 0 && !buf.is_empty() {
            return Err(io::Error::from(io::ErrorKind::BrokenPipe));
        }
        w.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// A cipher that remembers what it was asked to seal; the output is the plaintext and `pad` more bytes.
pub struct Seal {
    pub wire: Port,
    pub pad: usize,
}
impl Encryptor for Seal {
    fn encrypt(&mut self, nonce: &[u8], plain: &[u8], ad: &[u8]) -> Vec<u8> {
        let mut c = plain.to_vec();
        for b in c.iter_mut().take(64) {
            *b ^= 0xff;
        }
        let k = self.wire.w().seals.len();
        for _ in 0..self.pad {
            c.push(k as u8);
        }
        self.wire.w().seals.push((nonce.to_vec(), ad.to_vec(), plain.to_vec(), c.clone()));
        c
    }
}
/// the records in `out`: (type, body)
fn records(out: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < out.len() {
        if out.len() - p < 5 {
            sv::check(false, 2);
            break;
        }
        sv::check((out[p + 1] == 3) & (out[p + 2] == 3), 3);
        let n = (out[p + 3] as usize) << 8 | out[p + 4] as usize;
        if out.len() - p - 5 < n {
            sv::check(false, 4);
            break;
        }
        v.push((out[p], out[p + 5..p + 5 + n].to_vec()));
        p += 5 + n;
    }
    v
}
fn send(w: &mut TlsWriter<Port>, how: usize, data: &[u8]) -> TlsResult<()> {
    match how {
        4 => w.write_application_data(data),
        t => w.write_data(content(TYPES[t]), data),
    }
}
/// p0: cipher active, p1..=p2: amount of data, p3: how (type, or 4 for write_application_data)
#[no_mangle]
pub extern "C" fn r01_data() {
    let active = sv::param(0) == 1;
    let how = sv::param(3);
    let data = some(sv::range(sv::param(1), sv::param(2)));
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    if active {
        w.set_encryptor(Box::new(Seal { wire: Port(p), pad: 16 }));
        w.set_iv(vec![0; 12]);
    }
    if data.len() < 10 {
        wire.step = sv::choose(3);
    }
    let r = send(&mut w, how, &data);
    sv::check(r.is_ok(), 5);
    framed(&wire, active, if how == 4 { 23 } else { TYPES[how] }, &data, 0);
    sv::reach(1);
}
/// the records from the `from`-th on carry exactly `data`
fn framed(wire: &Wire, active: bool, ty: u8, data: &[u8], from: usize) {
    let recs = records(&wire.out);
    if active {
        sv::check(wire.seals.len() + from == recs.len(), 6);
    }
    let mut p = 0;
    for i in from..recs.len() {
        let (t, body) = &recs[i];
        sv::check(*t == ty, 7);
        let plain: &[u8] = if active {
            let s = &wire.seals[i - from];
            sv::check_eq(body, &s.3, 8);
            sv::check(body.len() <= 16384 + 2048, 9);
            &s.2
        } else {
            body
        };
        sv::check(plain.len() <= 16384, 10);
        if data.len() - p < plain.len() {
            sv::check(false, 11);
            return;
        }
        sv::check_eq(plain, &data[p..p + plain.len()], 12);
        p += plain.len();
    }
    sv::check(p == data.len(), 13);
}
/// messages written through the message-level functions
#[no_mangle]
pub extern "C" fn r01_message() {
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    let active = sv::choose(2) == 1;
    if active {
        w.set_encryptor(Box::new(Seal { wire: Port(p), pad: 16 }));
        w.set_iv(vec![0; 12]);
    }
    let mut want = Vec::new();
    let ty = match sv::param(0) {
        0 => {
            sv::check(w.write_change_cipher_spec().is_ok(), 20);
            want.push(1);
            20
        }
        1 => {
            let a = match Alert::new(AlertLevel::fatal, AlertDescription::decode_error) {
                Ok(a) => a,
                Err(_) => return sv::check(false, 21),
            };
            sv::check(w.write_alert(&a).is_ok(), 22);
            want.push(2);
            want.push(50);
            21
        }
        n => {
            // a message of n - 2 bytes
            let body = some(n - 2);
            want = vec![16, (body.len() >> 16) as u8, (body.len() >> 8) as u8, body.len() as u8];
            want.extend_from_slice(&body);
            match Handshake::new_client_key_exchange(body) {
                Ok(h) => sv::check(w.write_handshake(&h).is_ok(), 23),
                Err(_) => sv::check(false, 24),
            }
            22
        }
    };
    framed(&wire, active, ty, &want, 0);
    sv::reach(1);
}
/// application data is not written before a cipher is active
#[no_mangle]
pub extern "C" fn r01_early() {
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    let k = sv::choose(2);
    if k == 1 {
        sv::check(w.write_change_cipher_spec().is_ok(), 25);
        w.set_iv(vec![1; 12]);
    }
    wire.closed = true;
    let n = sv::range(1, 3);
    let data = sv::bytes(n);
    sv::panic_ok(true);
    let r = w.write_application_data(&data);
    sv::check(r.is_err(), 26);
}
/// records over the limits are refused (panic or error), nothing of them is written
#[no_mangle]
pub extern "C" fn r01_limit() {
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    let n = sv::param(0);
    let pad = sv::param(1);
    if pad > 0 {
        w.set_encryptor(Box::new(Seal { wire: Port(p), pad }));
        w.set_iv(vec![1; 12]);
    }
    let ok = n <= 16384 && (pad == 0 || n + pad <= 16384 + 2048);
    if !ok {
        wire.closed = true;
        sv::panic_ok(true);
    }
    let data = some(n);
    let r = w.write_record(Record::new(content(23), 3, 3, data));
    sv::check(r.is_ok() == ok, 27);
    if ok {
        let recs = records(&wire.out);
        sv::check(recs.len() == 1 && recs[0].1.len() == n + pad, 28);
        sv::reach(1);
    }
}
/// a transport that fails after some bytes: an error is reported, and what was written is a beginning of the records
#[no_mangle]
pub extern "C" fn r01_fail() {
    let data = sv::bytes(sv::param(0));
    let mut full = Wire::new();
    let p: *mut Wire = &mut *full;
    let mut w = TlsWriter::new(Port(p));
    sv::check(w.write_data(content(22), &data).is_ok(), 29);
    let mut wire = Wire::new();
    wire.room = sv::range(0, full.out.len());
    wire.step = sv::choose(3);
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    let r = w.write_data(content(22), &data);
    sv::check(r.is_ok() == (wire.room >= full.out.len()), 30);
    if let Err(e) = r {
        sv::check(e.kind == TlsErrorKind::IoFailure, 31);
        sv::reach(2);
    }
    sv::check_eq(&wire.out, &full.out[..wire.out.len()], 32);
    sv::reach(1);
}

// ---------------------------------------------------------------- R02
fn nonce_of(iv: &[u8], n: u64) -> Vec<u8> {
    let mut v = iv.to_vec();
    for i in 0..8 {
        v[4 + i] ^= (n >> (8 * (7 - i))) as u8;
    }
    v
}
fn ad_of(n: u64, ty: u8, major: u8, minor: u8, len: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for i in 0..8 {
        v.push((n >> (8 * (7 - i))) as u8);
    }
    v.push(ty);
    v.push(major);
    v.push(minor);
    v.push((len >> 8) as u8);
    v.push(len as u8);
    v
}
/// p0: protected records; some unprotected ones before
#[no_mangle]
pub extern "C" fn r02_write() {
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    let iv = sv::bytes(12);
    let before = sv::choose(3);
    for _ in 0..before {
        sv::check(send(&mut w, 2, &[1, 2]).is_ok(), 40);
    }
    let order = sv::choose(2);
    if order == 1 {
        w.set_iv(iv.clone());
    }
    w.set_encryptor(Box::new(Seal { wire: Port(p), pad: 16 }));
    if order == 0 {
        w.set_iv(iv.clone());
    }
    let k = sv::param(0);
    let mut sent: Vec<(u8, usize)> = Vec::new();
    for _ in 0..k {
        let (t, n) = if k <= 3 { (sv::choose(4), [0usize, 1, 2, 300][sv::choose(4)]) } else { (3, 1) };
        let (major, minor) = if k <= 2 { (sv::u8_(), sv::u8_()) } else { (3, 3) };
        let r = w.write_record(Record::new(content(TYPES[t]), major, minor, some(n)));
        sv::check(r.is_ok(), 41);
        let i = sent.len();
        if wire.seals.len() != i + 1 {
            sv::check(false, 42);
            return;
        }
        let s = &wire.seals[i];
        sv::check_eq(&s.0, &nonce_of(&iv, i as u64), 43);
        sv::check_eq(&s.1, &ad_of(i as u64, TYPES[t], major, minor, n), 44);
        sent.push((TYPES[t], n));
    }
    sv::reach(1);
}
/// many records
#[no_mangle]
pub extern "C" fn r02_many() {
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    let iv = sv::bytes(12);
    w.set_encryptor(Box::new(Seal { wire: Port(p), pad: 0 }));
    w.set_iv(iv.clone());
    let n = sv::param(0);
    for i in 0..n {
        let r = send(&mut w, 4, &[7]);
        if r.is_err() {
            sv::check(false, 45);
        }
        if (i & (i + 1)) == 0 || (i & (i - 1)) == 0 || i + 1 == n {
            if let Some(s) = wire.seals.last() {
                sv::check_eq(&s.0, &nonce_of(&iv, i as u64), 46);
                sv::check_eq(&s.1, &ad_of(i as u64, 23, 3, 3, 1), 47);
            }
        }
        sv::check(wire.seals.len() == 1, 48);
        wire.seals.clear();
        wire.out.clear();
    }
    sv::reach(1);
}

/// every sequence number the count can hold (but 2^64-1), where the structure holds it
#[no_mangle]
pub extern "C" fn r02_any_write() {
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    let iv = sv::bytes(12);
    w.set_encryptor(Box::new(Seal { wire: Port(p), pad: 16 }));
    w.set_iv(iv.clone());
    let mut watch = Watch::new();
    for i in 0..4 {
        watch.see(&w, i);
        sv::check(send(&mut w, 4, &[7; 5]).is_ok(), 160);
    }
    let at = match watch.place() {
        Some(p) => p,
        None => return,
    };
    // does the word decide?
    put(&mut w, at, 9);
    wire.seals.clear();
    if send(&mut w, 4, &[7; 5]).is_err() || wire.seals.len() != 1 || wire.seals[0].0 != nonce_of(&iv, 9) {
        return;
    }
    let x = any_count(at.width);
    put(&mut w, at, x);
    for i in 0..2 {
        wire.seals.clear();
        let r = send(&mut w, 2 + 2 * i, &[7; 5]);
        if r.is_err() || wire.seals.len() != 1 {
            return sv::check(false, 161);
        }
        sv::check_eq(&wire.seals[0].0, &nonce_of(&iv, x + i as u64), 162);
        sv::check_eq(&wire.seals[0].1, &ad_of(x + i as u64, 22 + i as u8, 3, 3, 5), 163);
    }
    sv::reach(1);
}
fn any_count(width: usize) -> u64 {
    match width {
        8 => {
            let x = sv::u64_();
            sv::assume(x < u64::MAX - 1);
            x
        }
        4 => sv::u32_() as u64,
        _ => sv::u16_() as u64,
    }
}
#[no_mangle]
pub extern "C" fn r02_any_read() {
    let mut feed = Feed::new(Vec::new());
    let mut open = Open::new(16);
    let mut r = TlsReader::new(Tap(&mut *feed));
    let iv = sv::bytes(12);
    r.set_decryptor(Box::new(Opener(&mut *open)));
    r.set_iv(iv.clone());
    for _ in 0..7 {
        record(23, &[9; 21], &mut feed.data);
    }
    let mut watch = Watch::new();
    for i in 0..4 {
        watch.see(&r, i);
        sv::check(r.read_application_data().is_ok(), 164);
    }
    let at = match watch.place() {
        Some(p) => p,
        None => return,
    };
    put(&mut r, at, 9);
    open.asked.clear();
    if r.read_application_data().is_err() || open.asked.len() != 1 || open.asked[0].0 != nonce_of(&iv, 9) {
        return;
    }
    let x = any_count(at.width);
    put(&mut r, at, x);
    for i in 0..2 {
        open.asked.clear();
        let d = r.read_application_data();
        if d.is_err() || open.asked.len() != 1 {
            return sv::check(false, 165);
        }
        sv::check_eq(&open.asked[0].0, &nonce_of(&iv, x + i as u64), 166);
        sv::check_eq(&open.asked[0].1, &ad_of(x + i as u64, 23, 3, 3, 5), 167);
    }
    sv::reach(1);
}

// ---------------------------------------------------------------- what comes in
/// What a decryptor was asked, and how it is to answer.
pub struct Open {
    pub asked: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    pub mac: usize,
    /// usual answer: the input without its last `mac` bytes, inverted; else what to do with the n-th record
    pub refuse: usize,
    pub len: Option<usize>,
    pub given: Vec<Vec<u8>>,
}
impl Open {
    pub fn new(mac: usize) -> Box<Open> {
        Box::new(Open { asked: Vec::new(), mac, refuse: usize::MAX, len: None, given: Vec::new() })
    }
}
pub struct Opener(pub *mut Open);
unsafe impl Send for Opener {}
impl Decryptor for Opener {
    fn decrypt(&mut self, nonce: &[u8], encrypted: &[u8], ad: &[u8]) -> TlsResult<Vec<u8>> {
        let o = unsafe { &mut *self.0 };
        let i = o.asked.len();
        o.asked.push((nonce.to_vec(), ad.to_vec(), encrypted.to_vec()));
        sv::check(encrypted.len() >= o.mac, 50);
        if i == o.refuse {
            return Err(TlsError { kind: TlsErrorKind::BadRecordMac, desc: String::new() });
        }
        let v = match o.len {
            Some(n) => vec![0x77; n],
            None => {
                let mut v = encrypted[..encrypted.len() - o.mac].to_vec();
                for b in v.iter_mut().take(64) {
                    *b ^= 0xff;
                }
                v
            }
        };
        o.given.push(v.clone());
        Ok(v)
    }
    fn mac_len(&self) -> usize {
        unsafe { &*self.0 }.mac
    }
}
/// Transport with a position that can be looked at; short reads of at most `step`.
pub struct Feed {
    pub data: Vec<u8>,
    pub pos: usize,
    pub step: usize,
    pub fail: bool,
}
impl Feed {
    pub fn new(data: Vec<u8>) -> Box<Feed> {
        Box::new(Feed { data, pos: 0, step: 0, fail: false })
    }
}
pub struct Tap(pub *mut Feed);
impl Read for Tap {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let f = unsafe { &mut *self.0 };
        let left = f.data.len() - f.pos;
        if left == 0 && f.fail && !buf.is_empty() {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        let mut n = if left < buf.len() { left } else { buf.len() };
        if f.step != 0 && n > f.step {
            n = f.step;
        }
        buf[..n].copy_from_slice(&f.data[f.pos..f.pos + n]);
        f.pos += n;
        Ok(n)
    }
}
fn record(ty: u8, body: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(&[ty, 3, 3, (body.len() >> 8) as u8, body.len() as u8]);
    out.extend_from_slice(body);
}
/// reading: nonce and associated data of each record
#[no_mangle]
pub extern "C" fn r02_read() {
    let iv = sv::bytes(12);
    let before = sv::choose(3);
    let mut data = Vec::new();
    for _ in 0..before {
        record(20, &[1], &mut data);
    }
    let k = sv::param(0);
    let mut sent = Vec::new();
    for _ in 0..k {
        let n = if k <= 3 { [0usize, 1, 2, 300][sv::choose(4)] } else { 1 };
        let (major, minor) = (sv::u8_(), sv::u8_());
        let body = some(n + 16);
        data.extend_from_slice(&[23, major, minor, (body.len() >> 8) as u8, body.len() as u8]);
        data.extend_from_slice(&body);
        sent.push((major, minor, n, body));
    }
    let mut feed = Feed::new(data);
    feed.step = sv::choose(2);
    let mut open = Open::new(16);
    let mut r = TlsReader::new(Tap(&mut *feed));
    let order = sv::choose(2);
    if order == 1 {
        r.set_iv(iv.clone());
    }
    for _ in 0..before {
        sv::check(r.read_change_cipher_spec().is_ok(), 51);
    }
    r.set_decryptor(Box::new(Opener(&mut *open)));
    if order == 0 {
        r.set_iv(iv.clone());
    }
    for (i, (major, minor, n, body)) in sent.iter().enumerate() {
        match r.read_message() {
            Ok(Message::ApplicationDataMessage(d)) => {
                if open.asked.len() != i + 1 {
                    return sv::check(false, 52);
                }
                let a = &open.asked[i];
                sv::check_eq(&a.0, &nonce_of(&iv, i as u64), 53);
                sv::check_eq(&a.1, &ad_of(i as u64, 23, *major, *minor, *n), 54);
                sv::check_eq(&a.2, body, 55);
                sv::check_eq(&d, &open.given[i], 56);
            }
            _ => sv::check(false, 57),
        }
    }
    sv::reach(1);
}
#[no_mangle]
pub extern "C" fn r02_read_many() {
    let iv = sv::bytes(12);
    let n = sv::param(0);
    let mut feed = Feed::new(Vec::new());
    let mut open = Open::new(0);
    let mut r = TlsReader::new(Tap(&mut *feed));
    r.set_decryptor(Box::new(Opener(&mut *open)));
    r.set_iv(iv.clone());
    for i in 0..n {
        feed.data.clear();
        feed.pos = 0;
        record(23, &[9], &mut feed.data);
        match r.read_application_data() {
            Ok(d) => sv::check(d.len() == 1 && d[0] == 9 ^ 0xff, 58),
            Err(_) => sv::check(false, 59),
        }
        if (i & (i + 1)) == 0 || (i & (i - 1)) == 0 || i + 1 == n {
            if let Some(s) = open.asked.last() {
                sv::check_eq(&s.0, &nonce_of(&iv, i as u64), 60);
                sv::check_eq(&s.1, &ad_of(i as u64, 23, 3, 3, 1), 61);
            }
        }
        sv::check(open.asked.len() == 1, 62);
        open.asked.clear();
        open.given.clear();
    }
    sv::reach(1);
}

// ---------------------------------------------------------------- R03
/// one read from p1..=p2 arbitrary bytes; p0: with a cipher of mac length p3
#[no_mangle]
pub extern "C" fn r03_read() {
    let n = sv::range(sv::param(1), sv::param(2));
    let active = sv::param(0) == 1;
    let b = sv::bytes(n);
    let mut feed = Feed::new(b.clone());
    feed.fail = sv::choose(2) == 1;
    feed.step = sv::choose(2);
    let mut open = Open::new(sv::param(3));
    let mut r = TlsReader::new(Tap(&mut *feed));
    if active {
        open.refuse = if sv::choose(2) == 1 { 0 } else { usize::MAX };
        r.set_decryptor(Box::new(Opener(&mut *open)));
        r.set_iv(vec![0; 12]);
    }
    unsafe { sv::sv_heap_reset_peak() };
    let base = unsafe { sv::sv_heap() };
    let got = r.read_message();
    sv::check(unsafe { sv::sv_heap_peak() } <= base + (1 << 17) + 64 * n as u64, 70);
    decide(&b, active, &open, &feed, got);
}
fn ok_kind(k: TlsErrorKind, set: &[(bool, TlsErrorKind)]) -> bool {
    let mut any = false;
    for (on, x) in set {
        any |= *on & (*x == k);
    }
    any
}
/// the result of reading one message from the records in b
fn decide(b: &[u8], active: bool, open: &Open, feed: &Feed, got: TlsResult<Message>) {
    use TlsErrorKind::*;
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let ty = at(0);
    let known = (ty >= 20) & (ty <= 23);
    let len = (at(3) as usize) << 8 | at(4) as usize;
    let head = b.len() >= 5;
    let max = if active { 16384 + 2048 } else { 16384 };
    let here = head && b.len() - 5 >= len;
    let defects = [
        (b.len() > 0 && !known, UnexpectedMessage),
        (head && len > max, RecordOverflow),
        (!head || !here, IoFailure),
        (active && head && len < open.mac, BadRecordMac),
    ];
    let mut bad = false;
    for (on, _) in defects.iter() {
        bad |= *on;
    }
    if bad {
        match got {
            Ok(_) => sv::check(false, 71),
            Err(e) => sv::check(ok_kind(e.kind, &defects), 72),
        }
        sv::reach(2);
        return;
    }
    // one whole record
    if active {
        if open.asked.len() < 1 {
            return sv::check(false, 73);
        }
        sv::check_eq(&open.asked[0].2, &b[5..5 + len], 74);
        sv::check_eq(&open.asked[0].1, &ad_of(0, ty, at(1), at(2), len - open.mac), 75);
        if open.refuse == 0 {
            match got {
                Ok(_) => sv::check(false, 76),
                Err(e) => sv::check(e.kind == BadRecordMac, 77),
            }
            return;
        }
    }
    let body: &[u8] = if active { &open.given[0] } else { &b[5..5 + len] };
    if body.len() > 16384 {
        match got {
            Ok(_) => sv::check(false, 78),
            Err(e) => sv::check(e.kind == RecordOverflow, 79),
        }
        return;
    }
    match ty {
        23 => match got {
            Ok(Message::ApplicationDataMessage(d)) => {
                sv::check_eq(&d, body, 80);
                sv::check(feed.pos == 5 + len, 81);
                sv::reach(1);
            }
            _ => sv::check(false, 82),
        },
        20 => match got {
            Ok(Message::ChangeCipherSpecMessage) => {
                sv::check(body.len() == 1 && body[0] == 1, 83);
                sv::check(feed.pos == 5 + len, 84);
                sv::reach(3);
            }
            Ok(_) => sv::check(false, 85),
            Err(e) => {
                sv::check(!(body.len() == 1 && body[0] == 1), 86);
                sv::check(e.kind == UnexpectedMessage, 87);
            }
        },
        21 => {
            let ok = body.len() >= 2 && ((body[0] == 1) | (body[0] == 2)) && g::alert_ok(body[1]);
            match got {
                Ok(Message::AlertMessage(a)) => {
                    sv::check(ok, 88);
                    if body.len() >= 2 {
                        sv::check((a.level as u8 == body[0]) & (a.description as u8 == body[1]), 89);
                    }
                    sv::check(feed.pos == 5 + len, 90);
                    sv::reach(4);
                }
                Ok(_) => sv::check(false, 91),
                // an alert record with more than one alert may be refused
                Err(e) => {
                    sv::check(!ok || body.len() > 2, 92);
                    sv::check(e.kind == UnexpectedMessage || e.kind == DecodeError, 93);
                }
            }
        }
        _ => {
            if body.is_empty() {
                match got {
                    Ok(_) => sv::check(false, 94),
                    Err(e) => sv::check(e.kind == UnexpectedMessage, 95),
                }
                return;
            }
            let whole = body.len() >= 4 && {
                let n = (body[1] as usize) << 16 | (body[2] as usize) << 8 | body[3] as usize;
                body.len() - 4 >= n
            };
            if whole {
                let n = (body[1] as usize) << 16 | (body[2] as usize) << 8 | body[3] as usize;
                let ok = g::body(body[0], &body[4..4 + n]);
                match got {
                    Ok(Message::HandshakeMessage(h)) => {
                        sv::check(ok.is_some(), 96);
                        let mut e = Vec::new();
                        if h.tls_write(&mut e).is_ok() {
                            sv::check_eq(&e, &body[..4 + n], 97);
                        } else {
                            sv::check(ok == Some(false), 98);
                        }
                        sv::check(feed.pos == 5 + len, 99);
                        sv::reach(5);
                    }
                    Ok(_) => sv::check(false, 100),
                    Err(e) => {
                        sv::check(ok.is_none(), 101);
                        sv::check(e.kind != IoFailure, 102);
                    }
                }
            } else {
                // the rest of the message never comes: end of stream, or what follows is not a handshake record
                sv::check(got.is_err(), 103);
                sv::reach(6);
            }
        }
    }
}
/// records around the length limits
#[no_mangle]
pub extern "C" fn r03_big() {
    let active = sv::param(0) == 1;
    let len = sv::param(1);
    let have = sv::param(2);
    let ty = TYPES[sv::choose(4)];
    let mut b = vec![ty, sv::u8_(), sv::u8_(), (len >> 8) as u8, len as u8];
    let mut body = some(have);
    if ty == 22 && have > 4 {
        // a message that fits, or does not
        let m = have - 4 + sv::choose(2);
        body[..4].copy_from_slice(&[16, 0, (m >> 8) as u8, m as u8]);
        if active {
            for x in body[..4].iter_mut() {
                *x ^= 0xff;
            }
        }
    }
    b.extend_from_slice(&body);
    let mut feed = Feed::new(b.clone());
    let mut open = Open::new(16);
    let mut r = TlsReader::new(Tap(&mut *feed));
    if active {
        if sv::param(3) > 0 {
            open.len = Some(sv::param(3));
        }
        r.set_decryptor(Box::new(Opener(&mut *open)));
        r.set_iv(vec![0; 12]);
    }
    unsafe { sv::sv_heap_reset_peak() };
    let base = unsafe { sv::sv_heap() };
    let got = r.read_message();
    sv::check(unsafe { sv::sv_heap_peak() } <= base + (1 << 18), 104);
    decide(&b, active, &open, &feed, got);
}

/// p0: active; any declared length in p1..=p2 (all too long), the declared bytes all there
#[no_mangle]
pub extern "C" fn r03_declared() {
    let active = sv::param(0) == 1;
    let (hi, lo) = (sv::u8_(), sv::u8_());
    let len = (hi as usize) << 8 | lo as usize;
    sv::assume((len >= sv::param(1)) & (len <= sv::param(2)));
    let mut b = vec![TYPES[sv::choose(4)], sv::u8_(), sv::u8_(), hi, lo];
    b.resize(5 + sv::param(2), 0x5a);
    let mut feed = Feed::new(b);
    if active {
        feed.step = sv::choose(2) * 5;
    }
    let mut open = Open::new(16);
    let mut r = TlsReader::new(Tap(&mut *feed));
    if active {
        r.set_decryptor(Box::new(Opener(&mut *open)));
        r.set_iv(vec![0; 12]);
    }
    match r.read_message() {
        Ok(_) => sv::check(false, 105),
        Err(e) => sv::check(e.kind == TlsErrorKind::RecordOverflow, 106),
    }
    sv::check(open.asked.is_empty(), 107);
    sv::reach(1);
}

// ---------------------------------------------------------------- R04
/// Accepts exactly the sealed records.
struct IdealOpen(*mut Wire);
unsafe impl Send for IdealOpen {}
impl Decryptor for IdealOpen {
    fn decrypt(&mut self, nonce: &[u8], encrypted: &[u8], ad: &[u8]) -> TlsResult<Vec<u8>> {
        let w = unsafe { &*self.0 };
        for (n, a, p, c) in w.seals.iter() {
            if &n[..] == nonce && &a[..] == ad && &c[..] == encrypted {
                return Ok(p.clone());
            }
        }
        Err(TlsError { kind: TlsErrorKind::BadRecordMac, desc: String::new() })
    }
    fn mac_len(&self) -> usize {
        16
    }
}
/// writes of several sizes, then the network drops, repeats, swaps, cuts or alters records
#[no_mangle]
pub extern "C" fn r04_network() {
    let iv = sv::bytes(12);
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    w.set_encryptor(Box::new(Seal { wire: Port(p), pad: 16 }));
    w.set_iv(iv.clone());
    let mut all = Vec::new();
    let k = 3;
    for _ in 0..k {
        let n = sv::range(1, 2);
        let d = sv::bytes(n);
        sv::check(w.write_application_data(&d).is_ok(), 110);
        all.extend_from_slice(&d);
    }
    let recs = records(&wire.out);
    sv::check(recs.len() == k, 111);
    let mut net = Vec::new();
    // at most this much may come out
    let mut most = all.len();
    let honest;
    match sv::param(0) {
        0 => {
            honest = true;
            net.extend_from_slice(&wire.out);
        }
        1 => {
            // any sequence of up to 4 of the records
            let m = sv::range(0, 4);
            for _ in 0..m {
                let (t, b) = &recs[sv::choose(k)];
                record(*t, b, &mut net);
            }
            honest = false;
        }
        2 => {
            // cut anywhere
            let m = sv::range(0, wire.out.len() - 1);
            net.extend_from_slice(&wire.out[..m]);
            honest = false;
            let (mut end, mut before) = (0, 0);
            for (_, b) in recs.iter() {
                end += 5 + b.len();
                if m < end {
                    break;
                }
                before += b.len() - 16;
            }
            most = before;
        }
        3 => {
            // one byte altered
            let m = sv::range(0, wire.out.len() - 1);
            net.extend_from_slice(&wire.out);
            let x = sv::u8_();
            sv::assume(x != 0);
            net[m] ^= x;
            honest = false;
            // nothing of the record it is in
            let (mut end, mut before) = (0, 0);
            for (_, b) in recs.iter() {
                end += 5 + b.len();
                if m < end {
                    break;
                }
                before += b.len() - 16;
            }
            most = before;
        }
        _ => {
            // something of the attacker's own at the front of a record's place
            let at = sv::choose(k);
            for i in 0..k {
                if i == at {
                    let n = sv::range(0, 20);
                    let ty = sv::u8_();
                    sv::assume(ty >= 20 && ty <= 23);
                    record(ty, &sv::bytes(n), &mut net);
                }
                record(recs[i].0, &recs[i].1, &mut net);
            }
            honest = false;
        }
    }
    let mut feed = Feed::new(net);
    let mut r = TlsReader::new(Tap(&mut *feed));
    r.set_decryptor(Box::new(IdealOpen(p)));
    r.set_iv(iv);
    let mut got = Vec::new();
    let mut ended = false;
    for _ in 0..6 {
        match r.read_application_data() {
            Ok(d) => {
                sv::check(!ended || d.is_empty(), 112);
                if d.is_empty() {
                    ended = true;
                }
                got.extend_from_slice(&d);
            }
            Err(_) => ended = true,
        }
    }
    // always a beginning of what was sent
    sv::check(got.len() <= most, 113);
    if got.len() <= all.len() {
        sv::check_eq(&got, &all[..got.len()], 114);
    }
    if honest {
        sv::check(got.len() == all.len(), 115);
    }
    sv::check(ended, 116);
    sv::reach(1);
}
/// the real cipher, with arbitrary keys: p0 writes of p1 bytes
#[no_mangle]
pub extern "C" fn r04_real() {
    let (key, iv) = (sv::bytes(32), sv::bytes(12));
    let mut wire = Wire::new();
    let p: *mut Wire = &mut *wire;
    let mut w = TlsWriter::new(Port(p));
    w.set_encryptor(ChaCha20Poly1305.new_encryptor(key.clone()));
    w.set_iv(iv.clone());
    let mut all = Vec::new();
    for _ in 0..sv::param(0) {
        let d = sv::bytes(sv::param(1));
        sv::check(w.write_application_data(&d).is_ok(), 117);
        all.push(d);
    }
    let mut feed = Feed::new(wire.out.clone());
    let mut r = TlsReader::new(Tap(&mut *feed));
    r.set_decryptor(ChaCha20Poly1305.new_decryptor(key));
    r.set_iv(iv);
    for d in all.iter() {
        match r.read_application_data() {
            Ok(x) => sv::check_eq(&x, d, 118),
            Err(_) => sv::check(false, 119),
        }
    }
    sv::reach(1);
}

// ---------------------------------------------------------------- R05
/// p0 records of chosen types with arbitrary small bodies; messages are read in turn by the three readers
#[no_mangle]
pub extern "C" fn r05_sequence() {
    let k = sv::param(0);
    let hi = sv::param(1);
    // only of this type, if given
    let only = sv::param(2);
    let mut net = Vec::new();
    let mut recs: Vec<(u8, Vec<u8>)> = Vec::new();
    for _ in 0..k {
        let ty = if only > 0 { only as u8 } else { TYPES[sv::choose(4)] };
        let n = sv::range(0, if ty == 22 { hi } else { 2 });
        let b = sv::bytes(n);
        record(ty, &b, &mut net);
        recs.push((ty, b));
    }
    let mut feed = Feed::new(net);
    let mut r = TlsReader::new(Tap(&mut *feed));
    // handshake bytes that arrived and were not delivered
    let mut buf: Vec<u8> = Vec::new();
    let mut next = 0;
    for _ in 0..k + 1 {
        // the reference
        let mut want: (usize, Vec<u8>) = (9, Vec::new()); // 9: error
        loop {
            if buf.len() >= 4 {
                let n = (buf[1] as usize) << 16 | (buf[2] as usize) << 8 | buf[3] as usize;
                if buf.len() - 4 >= n {
                    let n = sv::concrete(n as u64) as usize;
                    if g::body(buf[0], &buf[4..4 + n]).is_some() {
                        want = (22, buf[..4 + n].to_vec());
                        buf = buf[4 + n..].to_vec();
                    }
                    break;
                }
            }
            if next == recs.len() {
                break;
            }
            let (t, b) = &recs[next];
            next += 1;
            if *t == 22 {
                if b.is_empty() {
                    break;
                }
                buf.extend_from_slice(b);
                continue;
            }
            if !buf.is_empty() {
                break;
            }
            match *t {
                20 => {
                    if b.len() == 1 && b[0] == 1 {
                        want = (20, Vec::new());
                    }
                }
                21 => {
                    if b.len() == 2 && ((b[0] == 1) | (b[0] == 2)) && g::alert_ok(b[1]) {
                        want = (21, b.clone());
                    }
                }
                _ => want = (23, b.clone()),
            }
            break;
        }
        let how = sv::choose(3);
        let kind = match how {
            0 => match r.read_message() {
                Ok(Message::HandshakeMessage(h)) => {
                    same(&h, &want.1);
                    22
                }
                Ok(Message::ChangeCipherSpecMessage) => 20,
                Ok(Message::AlertMessage(a)) => {
                    if want.0 == 21 {
                        sv::check((a.level as u8 == want.1[0]) & (a.description as u8 == want.1[1]), 120);
                    }
                    21
                }
                Ok(Message::ApplicationDataMessage(d)) => {
                    if want.0 == 23 {
                        sv::check_eq(&d, &want.1, 121);
                    }
                    23
                }
                Err(_) => 9,
            },
            1 => match r.read_handshake() {
                Ok(h) => {
                    same(&h, &want.1);
                    22
                }
                Err(_) => {
                    sv::check(want.0 != 22, 122);
                    9
                }
            },
            _ => match r.read_change_cipher_spec() {
                Ok(()) => 20,
                Err(_) => {
                    sv::check(want.0 != 20, 123);
                    9
                }
            },
        };
        if kind == 9 {
            if how == 0 {
                sv::check(want.0 == 9, 124);
            }
            sv::reach(2);
            return;
        }
        sv::check(kind == want.0, 125);
        sv::reach(1);
    }
}
fn same(h: &Handshake, m: &[u8]) {
    let mut e = Vec::new();
    if h.tls_write(&mut e).is_ok() {
        sv::check_eq(&e, m, 126);
    }
}
/// a handshake message begun before keys are active must not be completed by bytes that come after
#[no_mangle]
pub extern "C" fn r05_activation() {
    let mut net = Vec::new();
    let cut = sv::range(1, 15);
    let mut m = vec![20u8, 0, 0, 12];
    m.extend_from_slice(&sv::bytes(12));
    let first = sv::choose(2);
    if first == 1 {
        // a complete message before, in the same record
        let mut b = vec![14, 0, 0, 0];
        b.extend_from_slice(&m[..cut]);
        record(22, &b, &mut net);
    } else {
        record(22, &m[..cut], &mut net);
    }
    record(20, &[1], &mut net);
    let mut rest = m[cut..].to_vec();
    for b in rest.iter_mut() {
        *b ^= 0xff;
    }
    rest.extend_from_slice(&[0; 16]);
    record(22, &rest, &mut net);
    let mut feed = Feed::new(net);
    let mut open = Open::new(16);
    let mut r = TlsReader::new(Tap(&mut *feed));
    if first == 1 {
        sv::check(r.read_handshake().is_ok(), 127);
    }
    let c = r.read_change_cipher_spec();
    sv::check(c.is_err(), 128);
    // even a caller that goes on must not get the combination
    r.set_decryptor(Box::new(Opener(&mut *open)));
    r.set_iv(vec![0; 12]);
    for _ in 0..2 {
        if let Ok(h) = r.read_handshake() {
            let mut e = Vec::new();
            if h.tls_write(&mut e).is_ok() {
                sv::check(e.len() != 16, 129);
            }
        }
    }
    sv::reach(1);
}
/// a handshake stream cut into records: the same messages
#[no_mangle]
pub extern "C" fn k05_records() {
    let mut stream = Vec::new();
    let kinds: [&[u8]; 3] = [&[12, 14, 16], &[20, 0], &[16, 12]];
    let mut msgs: Vec<Vec<u8>> = Vec::new();
    for t in kinds[sv::param(0)].iter() {
        let n = match *t {
            20 => 12,
            0 | 14 => 0,
            _ => sv::choose(3),
        };
        let mut m = vec![*t, 0, 0, n as u8];
        m.extend_from_slice(&sv::bytes(n));
        stream.extend_from_slice(&m);
        msgs.push(m);
    }
    let mut net = Vec::new();
    let mut p = 0;
    let mut frags = 0;
    while p < stream.len() {
        let left = stream.len() - p;
        let n = if frags + 1 == sv::param(1) { left } else { sv::range(1, left) };
        record(22, &stream[p..p + n], &mut net);
        p += n;
        frags += 1;
    }
    let mut feed = Feed::new(net);
    let mut r = TlsReader::new(Tap(&mut *feed));
    for m in msgs.iter() {
        match r.read_handshake() {
            Ok(h) => {
                let mut e = Vec::new();
                sv::check(h.tls_write(&mut e).is_ok(), 130);
                sv::check_eq(&e, m, 131);
            }
            Err(_) => sv::check(false, 132),
        }
    }
    match r.read_handshake() {
        Ok(_) => sv::check(false, 133),
        Err(e) => sv::check(e.kind == TlsErrorKind::IoFailure, 134),
    }
    sv::reach(1);
}

// ---------------------------------------------------------------- R06
/// p0 records after the handshake, read p0 + 3 times
#[no_mangle]
pub extern "C" fn r06_stream() {
    let k = sv::param(0);
    let mut net = Vec::new();
    let mut open = Open::new(16);
    let mut want: Vec<Vec<u8>> = Vec::new();
    // 0: open, 1: ended by close_notify, 2: ended by an error
    let mut state = 0;
    if sv::choose(2) == 1 {
        open.refuse = sv::choose(k);
    }
    for i in 0..k {
        let ty = TYPES[sv::choose(4)];
        let n = match ty {
            23 => [0usize, 1, 2][sv::choose(3)],
            21 => sv::range(1, 2),
            20 => 1,
            _ => 4,
        };
        let plain = if ty == 22 { vec![[0u8, 14][sv::choose(2)], 0, 0, 0] } else { sv::bytes(n) };
        let mut b = plain.clone();
        for x in b.iter_mut() {
            *x ^= 0xff;
        }
        b.extend_from_slice(&[0; 16]);
        record(ty, &b, &mut net);
        if state == 0 {
            if i == open.refuse {
                state = 2;
            } else if ty == 23 {
                if n > 0 {
                    want.push(plain);
                }
            } else if ty == 21 && n == 2 && ((plain[0] == 1) | (plain[0] == 2)) & (plain[1] == 0) {
                state = 1;
            } else {
                state = 2;
            }
        }
    }
    let mut feed = Feed::new(net);
    let mut r = TlsReader::new(Tap(&mut *feed));
    r.set_decryptor(Box::new(Opener(&mut *open)));
    r.set_iv(vec![0; 12]);
    let mut got = 0;
    for _ in 0..k + 3 {
        match r.read_application_data() {
            Ok(d) => {
                if got < want.len() {
                    // nothing that arrived before the end may be lost
                    sv::check_eq(&d, &want[got], 140);
                    got += 1;
                } else {
                    sv::check(d.is_empty(), 141);
                    if got == want.len() {
                        sv::check(state == 1, 142);
                    }
                    got += 1;
                }
            }
            Err(_) => {
                if got < want.len() {
                    sv::check(false, 143);
                } else if got == want.len() {
                    // ran out of input, or the error that ended the stream
                    sv::check(state != 1, 144);
                }
                got += 1;
            }
        }
    }
    sv::reach(1 + state);
}
/// any bytes, with and without a cipher: reading ends with an error, in bounded memory
#[no_mangle]
pub extern "C" fn k04_records() {
    let n = sv::range(sv::param(1), sv::param(2));
    let b = sv::bytes(n);
    let mut feed = Feed::new(b);
    let mut open = Open::new(sv::param(3));
    let mut r = TlsReader::new(Tap(&mut *feed));
    unsafe { sv::sv_heap_reset_peak() };
    let base = unsafe { sv::sv_heap() };
    if sv::param(0) == 1 {
        r.set_decryptor(Box::new(Opener(&mut *open)));
        r.set_iv(vec![0; 12]);
    }
    let mut rounds = 0;
    loop {
        let e = if sv::param(0) == 1 && sv::param(4) == 1 {
            match r.read_application_data() {
                Ok(d) => d.is_empty(),
                Err(_) => true,
            }
        } else {
            r.read_message().is_err()
        };
        if e {
            break;
        }
        rounds += 1;
        sv::reach(1);
        sv::check(rounds <= n / 4, 150);
    }
    sv::check(unsafe { sv::sv_heap_peak() } <= base + (1 << 17) + 256 * n as u64, 151);
}
