//! K01-K06 (message level)
use crate::grammar as g;
use crate::sv;
use husk::alert::{Alert, AlertDescription, AlertLevel};
use husk::cipher::CipherSuite;
use husk::handshake::*;
use husk::tls_item::{DummyItem, ObscureData, TlsItem};
use husk::tls_result::{TlsErrorKind, TlsResult};

fn enc<T: TlsItem>(t: &T) -> TlsResult<Vec<u8>> {
    let mut v = Vec::new();
    t.tls_write(&mut v)?;
    Ok(v)
}
fn type_of(m: &Handshake) -> u8 {
    match *m {
        Handshake::hello_request(_) => 0,
        Handshake::client_hello(_) => 1,
        Handshake::server_hello(_) => 2,
        Handshake::certificate(_) => 11,
        Handshake::server_key_exchange(_) => 12,
        Handshake::certificate_request(_) => 13,
        Handshake::server_hello_done(_) => 14,
        Handshake::client_key_exchange(_) => 16,
        Handshake::finished(_) => 20,
    }
}
/// one complete message: accepted exactly when the grammar accepts it, and then re-encoded to the same bytes
fn decide(msg: &[u8]) {
    let ok = g::body(msg[0], &msg[4..]);
    let mut hb = HandshakeBuffer::new();
    hb.add_record(msg);
    let r = hb.get_message();
    sv::check(hb.is_empty(), 1);
    match r {
        Ok(Some(m)) => {
            sv::check(ok.is_some(), 2);
            sv::check(type_of(&m) == msg[0], 3);
            match enc(&m) {
                Ok(e) => {
                    sv::check_eq(&e, msg, 4);
                    sv::reach(1);
                }
                // only a message with a cipher suite this library does not know
                Err(_) => sv::check(ok == Some(false), 5),
            }
            sv::check(m.tls_size() == msg.len() as u64, 6);
        }
        Ok(None) => sv::check(false, 7),
        Err(e) => {
            sv::check(ok.is_none(), 8);
            // never taken for a failure of the transport
            sv::check(e.kind != TlsErrorKind::IoFailure, 9);
            sv::reach(2);
        }
    }
}
fn message(ty: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut m = vec![ty, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    m.extend_from_slice(body);
    m
}
/// K01/K03: message of type p0 (255: any) with a body of p1..=p2 arbitrary bytes after p3 bytes that cannot matter
#[no_mangle]
pub extern "C" fn k01_message() {
    let ty = if sv::param(0) == 255 { sv::u8_() } else { sv::param(0) as u8 };
    let n = sv::range(sv::param(1), sv::param(2));
    let body = sv::bytes(n);
    decide(&message(ty, &body));
}
/// K01/K03: a hello up to (and with) the session id, then arbitrary bytes
#[no_mangle]
pub extern "C" fn k01_hello() {
    let ty = sv::param(0) as u8;
    let sid = [0usize, 1, 32, 33][sv::param(1)];
    let n = sv::range(sv::param(2), sv::param(3));
    let mut body = sv::bytes(34);
    body.push(sid as u8);
    body.extend_from_slice(&sv::bytes(sid));
    body.extend_from_slice(&sv::bytes(n));
    decide(&message(ty, &body));
}
/// K01/K03: a hello whose extension block (p1..=p2 bytes) is arbitrary
#[no_mangle]
pub extern "C" fn k01_extensions() {
    let ty = sv::param(0) as u8;
    let n = sv::range(sv::param(1), sv::param(2));
    let mut body = sv::bytes(34);
    body.push(0);
    if ty == 1 {
        body.extend_from_slice(&[0, 2, 0xcc, 0xa8, 1]);
        body.push(0);
    } else {
        body.extend_from_slice(&[0xcc, 0xa8, 0]);
    }
    body.extend_from_slice(&sv::bytes(n));
    decide(&message(ty, &body));
}
/// K01/K03: one extension of a known type with an arbitrary body, perhaps followed by another extension
#[no_mangle]
pub extern "C" fn k01_known_extension() {
    let ty = sv::param(0) as u8;
    let ext = sv::param(1) as u8;
    let n = sv::range(sv::param(2), sv::param(3));
    let mut body = sv::bytes(34);
    body.push(0);
    if ty == 1 {
        body.extend_from_slice(&[0, 2, 0xcc, 0xa8, 1, 0]);
    } else {
        body.extend_from_slice(&[0xcc, 0xa8, 0]);
    }
    let two = sv::choose(2);
    let total = 4 + n + 5 * two;
    body.extend_from_slice(&[(total >> 8) as u8, total as u8, 0, ext]);
    body.extend_from_slice(&sv::bytes(2));
    body.extend_from_slice(&sv::bytes(n));
    if two == 1 {
        body.extend_from_slice(&[0, 10, 0, 1]);
        body.push(sv::u8_());
        let k = body.len();
        body[k - 5] = 0;
        body[k - 4] = 35;
    }
    decide(&message(ty, &body));
}

// ---------------------------------------------------------------- K03: limits when built, closed enumerations
use husk::cipher::ecdhe::{EcCurve, EcData, EcParameters, EcdheServerKeyExchange, ServerEcdhParams};
use husk::signature::{DigitallySigned, Signature};
use husk::tls::ContentType;
use husk::util::{ReadExt, WriteExt};

/// n one-byte items, all but the first and last few fixed
fn big(n: usize) -> Vec<u8> {
    let mut v = vec![0x5au8; n];
    let k = if n < 4 { n } else { 4 };
    sv::fill(&mut v[..k]);
    v
}
fn prefix(width: usize, n: usize, out: &mut Vec<u8>) {
    let mut i = width;
    while i > 0 {
        i -= 1;
        out.push((n >> (8 * i)) as u8);
    }
}
/// a vector type: `new` succeeds exactly within the limits, and then encodes as length + payload
macro_rules! limits {
    ($t:ty, $items:expr, $payload:expr, $min:expr, $max:expr, $width:expr) => {{
        let items = $items;
        let payload: Vec<u8> = $payload;
        let n = payload.len();
        let ok = n >= $min && n <= $max;
        match <$t>::new(items) {
            Ok(v) => {
                sv::check(ok, 20);
                sv::check(v.tls_size() == (n + $width) as u64, 21);
                let mut want = Vec::new();
                prefix($width, n, &mut want);
                want.extend_from_slice(&payload);
                match enc(&v) {
                    Ok(e) => {
                        sv::check_eq(&e, &want, 22);
                        let mut r = &e[..];
                        match <$t as TlsItem>::tls_read(&mut r) {
                            Ok(w) => {
                                sv::check(r.is_empty(), 23);
                                match enc(&w) {
                                    Ok(e) => sv::check_eq(&e, &want, 24),
                                    Err(_) => sv::check(false, 25),
                                }
                            }
                            Err(_) => sv::check(false, 26),
                        }
                    }
                    Err(_) => sv::check(false, 27),
                }
                sv::reach(1);
            }
            Err(_) => {
                sv::check(!ok, 28);
                sv::reach(2);
            }
        }
    }};
}
/// p0: vector type, p1..=p2: number of items
#[no_mangle]
pub extern "C" fn k03_new() {
    let n = sv::range(sv::param(1), sv::param(2));
    match sv::param(0) {
        0 => {
            let b = big(n);
            limits!(SessionId, b.clone(), b, 0, 32, 1)
        }
        1 => {
            let mut items = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                items.push(if i == 0 { CompressionMethod::DEFLATE } else { CompressionMethod::null });
                b.push((i == 0) as u8);
            }
            limits!(CompressionMethodVec, items, b, 1, 255, 1)
        }
        2 => {
            let mut items = Vec::new();
            let mut b = Vec::new();
            for _ in 0..n {
                items.push(CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256);
                b.push(0xcc);
                b.push(0xa8);
            }
            limits!(CipherSuiteVec, items, b, 2, 65534, 2)
        }
        3 => {
            let mut items = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                items.push(if i == 0 { NamedCurve::arbitrary_explicit_char2_curves } else { NamedCurve::secp256r1 });
                b.push(if i == 0 { 0xff } else { 0 });
                b.push(if i == 0 { 2 } else { 23 });
            }
            limits!(EllipticCurveList, items, b, 1, 65535, 2)
        }
        4 => {
            let mut items = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                items.push(if i == 0 { ECPointFormat::ansiX962_compressed_char2 } else { ECPointFormat::uncompressed });
                b.push(if i == 0 { 2 } else { 0 });
            }
            limits!(ECPointFormatList, items, b, 1, 255, 1)
        }
        5 => {
            let mut items = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                items.push(SignatureAndHashAlgorithm {
                    hash: if i == 0 { HashAlgorithm::sha512 } else { HashAlgorithm::sha1 },
                    signature: if i == 0 { SignatureAlgorithm::ecdsa } else { SignatureAlgorithm::dsa },
                });
                b.push(if i == 0 { 6 } else { 2 });
                b.push(if i == 0 { 3 } else { 2 });
            }
            limits!(SignatureAndHashAlgorithmVec, items, b, 2, 65534, 2)
        }
        6 => {
            let b = big(n);
            limits!(Signature, b.clone(), b, 0, 65535, 2)
        }
        7 => {
            let b = big(n);
            limits!(EcData, b.clone(), b, 1, 255, 1)
        }
        8 => {
            let b = big(n);
            limits!(DistinguishedName, b.clone(), b, 1, 65535, 2)
        }
        9 => {
            let b = big(n);
            limits!(Asn1Cert, b.clone(), b, 1, (1 << 24) - 1, 3)
        }
        10 => {
            let mut items = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                items.push(if i == 0 { ClientCertificateType::fortezza_dms_RESERVED } else { ClientCertificateType::rsa_sign });
                b.push(if i == 0 { 20 } else { 1 });
            }
            limits!(CertificiateTypeVec, items, b, 1, 255, 1)
        }
        11 => {
            // n certificates of p3 bytes each
            let k = sv::param(3);
            let mut items = Vec::new();
            let mut b = Vec::new();
            for _ in 0..n {
                let c = big(k);
                prefix(3, k, &mut b);
                b.extend_from_slice(&c);
                match Asn1Cert::new(c) {
                    Ok(c) => items.push(c),
                    Err(_) => sv::check(false, 29),
                }
            }
            limits!(CertificateList, items, b, 0, (1 << 24) - 1, 3)
        }
        12 => {
            let k = sv::param(3);
            let mut items = Vec::new();
            let mut b = Vec::new();
            for _ in 0..n {
                let c = big(k);
                prefix(2, k, &mut b);
                b.extend_from_slice(&c);
                match DistinguishedName::new(c) {
                    Ok(c) => items.push(c),
                    Err(_) => sv::check(false, 29),
                }
            }
            limits!(DistinguishedNameVec, items, b, 0, 65535, 2)
        }
        _ => {
            let k = sv::param(3);
            let mut items = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                let c = big(k);
                prefix(2, 0x1234 + i, &mut b);
                prefix(2, k, &mut b);
                b.extend_from_slice(&c);
                items.push(Extension::Unknown(0x1234 + i as u16, c));
            }
            limits!(ExtensionVec, items, b, 0, 65535, 2)
        }
    }
}
/// fixed-size arrays are built from exactly that many bytes
#[no_mangle]
pub extern "C" fn k03_arrays() {
    let n = sv::range(sv::param(0), sv::param(1));
    let b = sv::bytes(n);
    match Random::new(b.clone()) {
        Ok(r) => {
            sv::check(n == 32, 30);
            sv::check(r.tls_size() == 32, 31);
            sv::check_eq(&r, &b, 32);
            match enc(&r) {
                Ok(e) => sv::check_eq(&e, &b, 33),
                Err(_) => sv::check(false, 34),
            }
        }
        Err(_) => sv::check(n != 32, 35),
    }
    match VerifyData::new(b.clone()) {
        Ok(r) => {
            sv::check(n == 12, 36);
            sv::check(r.tls_size() == 12, 37);
            match enc(&r) {
                Ok(e) => sv::check_eq(&e, &b, 38),
                Err(_) => sv::check(false, 39),
            }
        }
        Err(_) => sv::check(n != 12, 40),
    }
}
/// one item of a type with a given decoder: accepted exactly when `ok`, re-encoded exactly, nothing left or over-read
macro_rules! item {
    ($t:ty, $b:expr, $ok:expr) => {{
        let b: &[u8] = $b;
        let mut r = b;
        match <$t as TlsItem>::tls_read(&mut r) {
            Ok(v) => {
                let used = b.len() - r.len();
                sv::check($ok == Some(used), 41);
                sv::check(v.tls_size() == used as u64, 42);
                match enc(&v) {
                    Ok(e) => sv::check_eq(&e, &b[..used], 43),
                    Err(_) => sv::check(false, 44),
                }
                sv::reach(1);
            }
            Err(_) => {
                sv::check($ok.is_none(), 45);
                sv::reach(2);
            }
        }
    }};
}
fn vec_len(b: &[u8], w: usize, min: usize, max: usize) -> Option<usize> {
    let mut p = g::P::new(b);
    p.vec(w, min, max)?;
    Some(p.pos)
}
fn need(b: &[u8], n: usize, ok: bool) -> Option<usize> {
    if b.len() >= n && ok {
        Some(n)
    } else {
        None
    }
}
/// decoders of single items on arbitrary bytes: p0 type, p1..=p2 bytes available
#[no_mangle]
pub extern "C" fn k03_item() {
    let n = sv::range(sv::param(1), sv::param(2));
    let b = sv::bytes(n);
    let at = |i: usize| if i < n { b[i] } else { 0 };
    let (b0, b1) = (at(0), at(1));
    let w = (b0 as usize) << 8 | b1 as usize;
    match sv::param(0) {
        0 => item!(CompressionMethod, &b, need(&b, 1, b0 <= 1)),
        1 => item!(NamedCurve, &b, need(&b, 2, g::curve_ok(w))),
        2 => item!(ECPointFormat, &b, need(&b, 1, b0 <= 2)),
        3 => item!(HashAlgorithm, &b, need(&b, 1, g::hash_ok(b0))),
        4 => item!(SignatureAlgorithm, &b, need(&b, 1, g::sig_ok(b0))),
        5 => item!(SignatureAndHashAlgorithm, &b, need(&b, 2, g::hash_ok(b0) & g::sig_ok(b1))),
        6 => item!(ClientCertificateType, &b, need(&b, 1, g::cert_type_ok(b0))),
        7 => item!(AlertLevel, &b, need(&b, 1, (b0 == 1) | (b0 == 2))),
        8 => item!(AlertDescription, &b, need(&b, 1, g::alert_ok(b0))),
        9 => item!(Alert, &b, need(&b, 2, ((b0 == 1) | (b0 == 2)) & g::alert_ok(b1))),
        10 => item!(SessionId, &b, vec_len(&b, 1, 0, 32)),
        11 => item!(Asn1Cert, &b, vec_len(&b, 3, 1, (1 << 24) - 1)),
        12 => item!(DistinguishedName, &b, vec_len(&b, 2, 1, 65535)),
        13 => item!(EcData, &b, vec_len(&b, 1, 1, 255)),
        14 => item!(Signature, &b, vec_len(&b, 2, 0, 65535)),
        15 => item!(DigitallySigned, &b, digitally_signed(&b)),
        16 => item!(EcParameters, &b, need(&b, 3, b0 == 3 && g::curve_ok((b1 as usize) << 8 | at(2) as usize))),
        17 => item!(ServerEcdhParams, &b, ecdh_params(&b)),
        18 => item!(EcdheServerKeyExchange, &b, ske(&b)),
        19 => item!(EcCurve, &b, ec_curve(&b)),
        20 => item!(ProtocolVersion, &b, need(&b, 2, true)),
        21 => item!(Random, &b, need(&b, 32, true)),
        22 => item!(VerifyData, &b, need(&b, 12, true)),
        _ => item!(ObscureData, &b, Some(n)),
    }
}
fn digitally_signed(b: &[u8]) -> Option<usize> {
    let mut p = g::P::new(b);
    let h = p.num(1)? as u8;
    if !g::hash_ok(h) {
        return None;
    }
    let s = p.num(1)? as u8;
    if !g::sig_ok(s) {
        return None;
    }
    p.vec(2, 0, 65535)?;
    Some(p.pos)
}
fn ec_curve(b: &[u8]) -> Option<usize> {
    let mut p = g::P::new(b);
    p.vec(1, 1, 255)?;
    p.vec(1, 1, 255)?;
    Some(p.pos)
}
fn ecdh_params(b: &[u8]) -> Option<usize> {
    let mut p = g::P::new(b);
    if p.num(1)? != 3 {
        return None;
    }
    let c = p.num(2)?;
    if !g::curve_ok(c) {
        return None;
    }
    p.vec(1, 1, 255)?;
    Some(p.pos)
}
fn ske(b: &[u8]) -> Option<usize> {
    let n = ecdh_params(b)?;
    Some(n + digitally_signed(&b[n..])?)
}

// ---------------------------------------------------------------- K02
/// v encodes to exactly `want` and back
fn built(v: &Handshake, want: &[u8]) -> Option<Handshake> {
    match enc(v) {
        Ok(e) => sv::check_eq(&e, want, 50),
        Err(_) => sv::check(false, 51),
    }
    sv::check(v.tls_size() == want.len() as u64, 52);
    let mut r = want;
    match Handshake::tls_read(&mut r) {
        Ok(w) => {
            sv::check(type_of(&w) == type_of(v), 53);
            match enc(&w) {
                Ok(e) => sv::check_eq(&e, want, 54),
                Err(_) => sv::check(false, 55),
            }
            sv::reach(1);
            Some(w)
        }
        Err(_) => {
            sv::check(false, 56);
            None
        }
    }
}
fn must<T>(r: TlsResult<T>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            sv::check(false, 57);
            sv::end()
        }
    }
}
/// some extensions and their bytes
fn some_extensions() -> (Option<Vec<Extension>>, Vec<u8>) {
    let mut v = Vec::new();
    let mut b = Vec::new();
    let mask = sv::choose(18);
    if mask == 0 {
        return (None, Vec::new());
    }
    let mask = mask - 1;
    if mask & 1 != 0 {
        v.push(must(Extension::new_elliptic_curve_list(vec![NamedCurve::secp256r1, NamedCurve::arbitrary_explicit_prime_curves, NamedCurve::sect163k1])));
        b.extend_from_slice(&[0, 10, 0, 8, 0, 6, 0, 23, 0xff, 1, 0, 1]);
    }
    if mask & 2 != 0 {
        v.push(must(Extension::new_ec_point_formats(vec![ECPointFormat::ansiX962_compressed_prime, ECPointFormat::uncompressed])));
        b.extend_from_slice(&[0, 11, 0, 3, 2, 1, 0]);
    }
    if mask & 4 != 0 {
        v.push(must(Extension::new_signature_algorithm_list(vec![
            SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa },
            SignatureAndHashAlgorithm { hash: HashAlgorithm::none, signature: SignatureAlgorithm::ecdsa },
        ])));
        b.extend_from_slice(&[0, 13, 0, 6, 0, 4, 4, 1, 0, 3]);
    }
    if mask & 8 != 0 {
        let ty = sv::arr::<2>();
        let n = sv::choose(3);
        let body = sv::bytes(n);
        // a type the library knows has a structure of its own
        let t = (ty[0] as u16) << 8 | ty[1] as u16;
        sv::assume(t != 10 && t != 11 && t != 13);
        b.extend_from_slice(&[ty[0], ty[1], 0, n as u8]);
        b.extend_from_slice(&body);
        v.push(Extension::Unknown(t, body));
    }
    if mask == 16 {
        return (Some(Vec::new()), vec![0, 0]);
    }
    if v.is_empty() {
        return (Some(v), vec![0, 0]);
    }
    let mut out = vec![0, b.len() as u8];
    out.extend_from_slice(&b);
    (Some(v), out)
}
fn ext_vec(e: Option<Vec<Extension>>) -> Option<ExtensionVec> {
    match e {
        None => None,
        Some(v) => Some(must(ExtensionVec::new(v))),
    }
}
/// hellos built from arbitrary contents
#[no_mangle]
pub extern "C" fn k02_hello() {
    let client = sv::param(0) == 1;
    let (major, minor) = (sv::u8_(), sv::u8_());
    let random = sv::bytes(32);
    let n = [0usize, 1, 31, 32][sv::choose(4)];
    let sid = sv::bytes(n);
    let suite = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;
    let mut b = vec![major, minor];
    b.extend_from_slice(&random);
    b.push(n as u8);
    b.extend_from_slice(&sid);
    let (v, rnd, id) = (ProtocolVersion { major, minor }, must(Random::new(random.clone())), must(SessionId::new(sid.clone())));
    if client {
        let k = 1 + sv::choose(2);
        let c = sv::choose(3);
        let (e, eb) = some_extensions();
        let mut suites = Vec::new();
        prefix(2, 2 * k, &mut b);
        for _ in 0..k {
            suites.push(suite);
            b.extend_from_slice(&[0xcc, 0xa8]);
        }
        let mut comp = Vec::new();
        match c {
            0 => {
                comp.push(CompressionMethod::null);
                b.extend_from_slice(&[1, 0]);
            }
            1 => {
                comp.push(CompressionMethod::DEFLATE);
                b.extend_from_slice(&[1, 1]);
            }
            _ => {
                comp.push(CompressionMethod::DEFLATE);
                comp.push(CompressionMethod::null);
                b.extend_from_slice(&[2, 1, 0]);
            }
        }
        b.extend_from_slice(&eb);
        let h = Handshake::client_hello(ClientHello {
            client_version: v,
            random: rnd,
            session_id: id,
            cipher_suites: must(CipherSuiteVec::new(suites)),
            compression_methods: must(CompressionMethodVec::new(comp)),
            extensions: ext_vec(e),
        });
        if let Some(Handshake::client_hello(w)) = built(&h, &message(1, &b)) {
            sv::check((w.client_version.major == major) & (w.client_version.minor == minor), 60);
            sv::check_eq(&w.random, &random, 61);
            sv::check_eq(&w.session_id, &sid, 62);
            sv::check(w.cipher_suites.len() == k && w.cipher_suites[0] == suite, 63);
            sv::check(w.compression_methods.len() == 1 + (c == 2) as usize, 64);
            sv::check(w.extensions.is_some() == !eb.is_empty(), 65);
        }
    } else {
        let c = sv::choose(2);
        let (e, eb) = some_extensions();
        b.extend_from_slice(&[0xcc, 0xa8, c as u8]);
        b.extend_from_slice(&eb);
        let h = Handshake::server_hello(ServerHello {
            server_version: v,
            random: rnd,
            session_id: id,
            cipher_suite: suite,
            compression_method: if c == 0 { CompressionMethod::null } else { CompressionMethod::DEFLATE },
            extensions: ext_vec(e),
        });
        if let Some(Handshake::server_hello(w)) = built(&h, &message(2, &b)) {
            sv::check((w.server_version.major == major) & (w.server_version.minor == minor), 60);
            sv::check_eq(&w.random, &random, 61);
            sv::check_eq(&w.session_id, &sid, 62);
            sv::check(w.cipher_suite == suite, 63);
            sv::check((w.compression_method == CompressionMethod::null) == (c == 0), 64);
            sv::check(w.extensions.is_some() == !eb.is_empty(), 65);
        }
    }
}
/// the other messages
#[no_mangle]
pub extern "C" fn k02_message() {
    match sv::param(0) {
        0 => {
            built(&Handshake::hello_request(DummyItem), &[0, 0, 0, 0]);
            built(&Handshake::server_hello_done(DummyItem), &[14, 0, 0, 0]);
        }
        1 => {
            // the public constructor of the ClientHello
            let random = sv::bytes(32);
            let (e, eb) = some_extensions();
            let none = match &e {
                None => true,
                Some(v) => v.is_empty(),
            };
            let mut b = vec![3, 3];
            b.extend_from_slice(&random);
            b.extend_from_slice(&[0, 0, 2, 0xcc, 0xa8, 1, 0]);
            if !none {
                b.extend_from_slice(&eb);
            }
            let h = must(Handshake::new_client_hello(
                must(Random::new(random)),
                CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
                e.unwrap_or(Vec::new()),
            ));
            built(&h, &message(1, &b));
        }
        2 => {
            let n = sv::choose(4);
            let mut list = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                let k = if i == 0 { sv::range(1, 3) } else { [300usize, 1, 2][i - 1] };
                let c = sv::bytes(k);
                prefix(3, k, &mut b);
                b.extend_from_slice(&c);
                list.push(must(Asn1Cert::new(c)));
            }
            let mut body = Vec::new();
            prefix(3, b.len(), &mut body);
            body.extend_from_slice(&b);
            built(&Handshake::certificate(must(CertificateList::new(list))), &message(11, &body));
        }
        3 => {
            let mut b = vec![3, 20, 1, 6, 0, 4, 2, 1, 4, 3];
            let n = sv::choose(3);
            let mut list = Vec::new();
            let mut d = Vec::new();
            for _ in 0..n {
                let k = sv::range(1, 3);
                let c = sv::bytes(k);
                prefix(2, k, &mut d);
                d.extend_from_slice(&c);
                list.push(must(DistinguishedName::new(c)));
            }
            prefix(2, d.len(), &mut b);
            b.extend_from_slice(&d);
            let h = Handshake::certificate_request(CertificateRequest {
                certificate_types: must(CertificiateTypeVec::new(vec![
                    ClientCertificateType::fortezza_dms_RESERVED,
                    ClientCertificateType::rsa_sign,
                    ClientCertificateType::dss_ephemeral_dh_RESERVED,
                ])),
                supported_signature_algorithms: must(SignatureAndHashAlgorithmVec::new(vec![
                    SignatureAndHashAlgorithm { hash: HashAlgorithm::sha1, signature: SignatureAlgorithm::rsa },
                    SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::ecdsa },
                ])),
                certificate_authorities: must(DistinguishedNameVec::new(list)),
            });
            built(&h, &message(13, &b));
        }
        4 => {
            let n = [0usize, 1, 2, 70, 255, 256, 300][sv::choose(7)];
            let b = sv::bytes(n);
            built(&Handshake::server_key_exchange(ObscureData::new(b.clone())), &message(12, &b));
            built(&must(Handshake::new_client_key_exchange(b.clone())), &message(16, &b));
        }
        5 => {
            let n = sv::range(0, 14);
            let b = sv::bytes(n);
            match Handshake::new_finished(b.clone()) {
                Ok(h) => {
                    sv::check(n == 12, 66);
                    built(&h, &message(20, &b));
                }
                Err(_) => sv::check(n != 12, 67),
            }
        }
        _ => {
            // key-exchange parameters
            let k = sv::range(1, 3);
            let s = sv::range(0, 3);
            let (p, sig) = (sv::bytes(k), sv::bytes(s));
            let mut b = vec![3, 0, 23, k as u8];
            b.extend_from_slice(&p);
            b.extend_from_slice(&[4, 1]);
            prefix(2, s, &mut b);
            b.extend_from_slice(&sig);
            let v = EcdheServerKeyExchange {
                params: ServerEcdhParams { curve_params: EcParameters::named_curve(NamedCurve::secp256r1), public: must(EcData::new(p.clone())) },
                signed_params: DigitallySigned {
                    algorithm: SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa },
                    signature: must(Signature::new(sig)),
                },
            };
            sv::check(v.tls_size() == b.len() as u64, 68);
            match enc(&v) {
                Ok(e) => sv::check_eq(&e, &b, 69),
                Err(_) => sv::check(false, 70),
            }
            let mut r = &b[..];
            let w: EcdheServerKeyExchange = must(TlsItem::tls_read(&mut r));
            sv::check(r.is_empty(), 71);
            sv::check_eq(&w.params.public, &p, 72);
            sv::reach(1);
        }
    }
}
/// n bytes of which a few here and there are arbitrary
fn long(n: usize) -> Vec<u8> {
    let mut v = vec![0x5a; n];
    let mut i = 0;
    while i < n {
        v[i] = sv::u8_();
        // the ends of any length a truncated count could give
        i = if i == 0 { 1 } else if n > 2 && i < n - 2 && 4 * i > n { n - 2 } else if i == n - 2 { n - 1 } else { 4 * i };
    }
    v
}
/// messages with long parts: p0: where, p1: how long
#[no_mangle]
pub extern "C" fn k02_long() {
    let n = sv::param(1);
    let c = long(n);
    match sv::param(0) {
        0 => {
            let d = sv::bytes(2);
            let mut b = Vec::new();
            prefix(3, n + 8, &mut b);
            prefix(3, 2, &mut b);
            b.extend_from_slice(&d);
            prefix(3, n, &mut b);
            b.extend_from_slice(&c);
            let list = vec![must(Asn1Cert::new(d.clone())), must(Asn1Cert::new(c.clone()))];
            let h = Handshake::certificate(must(CertificateList::new(list)));
            if let Some(Handshake::certificate(w)) = built(&h, &message(11, &b)) {
                sv::check(w.len() == 2, 73);
                sv::check(w.len() == 2 && w[1].len() == n, 74);
            }
        }
        1 => {
            built(&Handshake::server_key_exchange(ObscureData::new(c.clone())), &message(12, &c));
        }
        2 => {
            built(&must(Handshake::new_client_key_exchange(c.clone())), &message(16, &c));
        }
        3 | 4 => {
            // an extension
            let random = sv::bytes(32);
            let mut b = vec![3, 3];
            b.extend_from_slice(&random);
            let x = vec![Extension::Unknown(35, c.clone()), Extension::Unknown(0xff01, vec![0])];
            let (h, ty) = if sv::param(0) == 3 {
                b.extend_from_slice(&[0, 0, 2, 0xcc, 0xa8, 1, 0]);
                (must(Handshake::new_client_hello(must(Random::new(random)), CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, x)), 1)
            } else {
                b.extend_from_slice(&[0, 0xcc, 0xa8, 0]);
                (
                    Handshake::server_hello(ServerHello {
                        server_version: ProtocolVersion { major: 3, minor: 3 },
                        random: must(Random::new(random)),
                        session_id: must(SessionId::new(vec![])),
                        cipher_suite: CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
                        compression_method: CompressionMethod::null,
                        extensions: Some(must(ExtensionVec::new(x))),
                    }),
                    2,
                )
            };
            prefix(2, n + 9, &mut b);
            b.extend_from_slice(&[0, 35]);
            prefix(2, n, &mut b);
            b.extend_from_slice(&c);
            b.extend_from_slice(&[0xff, 1, 0, 1, 0]);
            built(&h, &message(ty, &b));
        }
        5 => {
            let mut b = vec![1, 1, 0, 2, 4, 1];
            prefix(2, n + 2, &mut b);
            prefix(2, n, &mut b);
            b.extend_from_slice(&c);
            let h = Handshake::certificate_request(CertificateRequest {
                certificate_types: must(CertificiateTypeVec::new(vec![ClientCertificateType::rsa_sign])),
                supported_signature_algorithms: must(SignatureAndHashAlgorithmVec::new(vec![SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa }])),
                certificate_authorities: must(DistinguishedNameVec::new(vec![must(DistinguishedName::new(c.clone()))])),
            });
            built(&h, &message(13, &b));
        }
        6 => {
            // n points, a signature of as many bytes
            let k = if n < 255 { n } else { 255 };
            let mut b = vec![3, 0, 23, k as u8];
            b.extend_from_slice(&c[..k]);
            b.extend_from_slice(&[4, 1]);
            prefix(2, n, &mut b);
            b.extend_from_slice(&c);
            let v = EcdheServerKeyExchange {
                params: ServerEcdhParams { curve_params: EcParameters::named_curve(NamedCurve::secp256r1), public: must(EcData::new(c[..k].to_vec())) },
                signed_params: DigitallySigned {
                    algorithm: SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa },
                    signature: must(Signature::new(c.clone())),
                },
            };
            sv::check(v.tls_size() == b.len() as u64, 75);
            match enc(&v) {
                Ok(e) => sv::check_eq(&e, &b, 76),
                Err(_) => sv::check(false, 77),
            }
            let mut r = &b[..];
            let w: EcdheServerKeyExchange = must(TlsItem::tls_read(&mut r));
            sv::check(r.is_empty(), 78);
            match enc(&w) {
                Ok(e) => sv::check_eq(&e, &b, 79),
                Err(_) => sv::check(false, 77),
            }
            sv::reach(1);
        }
        _ => {
            // lists of n codes
            let mut b = vec![3, 3];
            let random = sv::bytes(32);
            b.extend_from_slice(&random);
            b.push(0);
            prefix(2, 2 * n, &mut b);
            let mut suites = Vec::new();
            for _ in 0..n {
                suites.push(CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256);
                b.extend_from_slice(&[0xcc, 0xa8]);
            }
            let k = if n < 255 { n } else { 255 };
            b.push(k as u8);
            let mut comp = Vec::new();
            for i in 0..k {
                comp.push(if i % 3 == 1 { CompressionMethod::DEFLATE } else { CompressionMethod::null });
                b.push((i % 3 == 1) as u8);
            }
            let h = Handshake::client_hello(ClientHello {
                client_version: ProtocolVersion { major: 3, minor: 3 },
                random: must(Random::new(random)),
                session_id: must(SessionId::new(vec![])),
                cipher_suites: must(CipherSuiteVec::new(suites)),
                compression_methods: must(CompressionMethodVec::new(comp)),
                extensions: None,
            });
            built(&h, &message(1, &b));
        }
    }
}
/// messages of p0, 5 and p0 bytes arrive in pieces of p1
#[no_mangle]
pub extern "C" fn k05_long() {
    let n = sv::param(0);
    let step = sv::param(1);
    let ms = [message(16, &long(n)), message(12, &sv::bytes(5)), message(11, &{
        let mut b = Vec::new();
        prefix(3, n + 3, &mut b);
        prefix(3, n, &mut b);
        b.extend_from_slice(&long(n));
        b
    })];
    let mut stream = Vec::new();
    for m in ms.iter() {
        stream.extend_from_slice(m);
    }
    let mut hb = HandshakeBuffer::new();
    let (mut p, mut k, mut done) = (0, 0, 0);
    while p < stream.len() {
        let q = if stream.len() - p < step { stream.len() } else { p + step };
        hb.add_record(&stream[p..q]);
        p = q;
        loop {
            let ready = k < 3 && done + ms[k].len() <= p;
            match hb.get_message() {
                Ok(Some(h)) => {
                    if !ready {
                        return sv::check(false, 140);
                    }
                    match enc(&h) {
                        Ok(e) => sv::check_eq(&e, &ms[k], 141),
                        Err(_) => sv::check(false, 142),
                    }
                    done += ms[k].len();
                    k += 1;
                }
                Ok(None) => {
                    sv::check(!ready, 143);
                    break;
                }
                Err(_) => return sv::check(false, 144),
            }
        }
    }
    sv::check(k == 3, 145);
    sv::reach(1);
}
macro_rules! codes {
    ($t:ident, $n:expr, $($v:ident = $k:expr),+) => {{
        $(
            let mut want = Vec::new();
            prefix($n, $k, &mut want);
            match enc(&$t::$v) {
                Ok(e) => sv::check_eq(&e, &want, 80),
                Err(_) => sv::check(false, 81),
            }
            sv::check($t::$v.tls_size() == $n as u64, 82);
            let mut r = &want[..];
            match $t::tls_read(&mut r) {
                Ok(x) => sv::check(x == $t::$v, 83),
                Err(_) => sv::check(false, 84),
            }
        )+
    }};
}
/// the code points of all enumerations
#[no_mangle]
pub extern "C" fn k02_codes() {
    codes!(NamedCurve, 2, sect163k1 = 1, sect163r1 = 2, sect163r2 = 3, sect193r1 = 4, sect193r2 = 5, sect233k1 = 6, sect233r1 = 7,
        sect239k1 = 8, sect283k1 = 9, sect283r1 = 10, sect409k1 = 11, sect409r1 = 12, sect571k1 = 13, sect571r1 = 14, secp160k1 = 15,
        secp160r1 = 16, secp160r2 = 17, secp192k1 = 18, secp192r1 = 19, secp224k1 = 20, secp224r1 = 21, secp256k1 = 22, secp256r1 = 23,
        secp384r1 = 24, secp521r1 = 25, arbitrary_explicit_prime_curves = 0xff01, arbitrary_explicit_char2_curves = 0xff02);
    codes!(ECPointFormat, 1, uncompressed = 0, ansiX962_compressed_prime = 1, ansiX962_compressed_char2 = 2);
    codes!(HashAlgorithm, 1, none = 0, md5 = 1, sha1 = 2, sha224 = 3, sha256 = 4, sha384 = 5, sha512 = 6);
    codes!(SignatureAlgorithm, 1, anonymous = 0, rsa = 1, dsa = 2, ecdsa = 3);
    codes!(CompressionMethod, 1, null = 0, DEFLATE = 1);
    codes!(ClientCertificateType, 1, rsa_sign = 1, dss_sign = 2, rsa_fixed_dh = 3, dss_fixed_dh = 4, rsa_ephemeral_dh_RESERVED = 5,
        dss_ephemeral_dh_RESERVED = 6, fortezza_dms_RESERVED = 20);
    codes!(AlertLevel, 1, warning = 1, fatal = 2);
    codes!(AlertDescription, 1, close_notify = 0, unexpected_message = 10, bad_record_mac = 20, decryption_failed_RESERVED = 21,
        record_overflow = 22, decompression_failure = 30, handshake_failure = 40, no_certificate_RESERVED = 41, bad_certificate = 42,
        unsupported_certificate = 43, certificate_revoked = 44, certificate_expired = 45, certificate_unknown = 46, illegal_parameter = 47,
        unknown_ca = 48, access_denied = 49, decode_error = 50, decrypt_error = 51, export_restriction_RESERVED = 60,
        protocol_version = 70, insufficient_security = 71, internal_error = 80, user_canceled = 90, no_renegotiation = 100,
        unsupported_extension = 110, certificate_unobtainable = 111, unrecognized_name = 112, bad_certificate_status_response = 113,
        bad_certificate_hash_value = 114);
    codes!(CipherSuite, 2, TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 = 0xcca8);
    sv::check(enc(&CipherSuite::UnknownCipherSuite).is_err(), 85);
    sv::check(ContentType::ChangeCipherSpecTy as u8 == 20 && ContentType::AlertTy as u8 == 21, 86);
    sv::check(ContentType::HandshakeTy as u8 == 22 && ContentType::ApplicationDataTy as u8 == 23, 87);
    match Alert::new(AlertLevel::fatal, AlertDescription::decode_error) {
        Ok(a) => match enc(&a) {
            Ok(e) => sv::check_eq(&e, &[2, 50], 88),
            Err(_) => sv::check(false, 89),
        },
        Err(_) => sv::check(false, 90),
    }
    sv::reach(1);
}
/// integers, in both byte orders
#[no_mangle]
pub extern "C" fn k02_ints() {
    let v = sv::u64_();
    let be = |n: usize| {
        let mut o = Vec::new();
        let mut i = n;
        while i > 0 {
            i -= 1;
            o.push((v >> (8 * i)) as u8);
        }
        o
    };
    let le = |n: usize| {
        let mut o = Vec::new();
        for i in 0..n {
            o.push((v >> (8 * i)) as u8);
        }
        o
    };
    macro_rules! int {
        ($t:ty, $n:expr) => {{
            let x = v as $t;
            match enc(&x) {
                Ok(e) => sv::check_eq(&e, &be($n), 100),
                Err(_) => sv::check(false, 101),
            }
            sv::check(x.tls_size() == $n as u64, 102);
            let b = be($n);
            let mut r = &b[..];
            match <$t as TlsItem>::tls_read(&mut r) {
                Ok(y) => sv::check(x == y && r.is_empty(), 103),
                Err(_) => sv::check(false, 104),
            }
        }};
    }
    int!(u8, 1);
    int!(u16, 2);
    int!(u32, 4);
    int!(u64, 8);
    macro_rules! rw {
        ($t:ty, $n:expr, $w:ident, $r:ident, $f:ident) => {{
            let mut o: Vec<u8> = Vec::new();
            sv::check(WriteExt::$w(&mut o, v as $t).is_ok(), 105);
            sv::check_eq(&o, &$f($n), 106);
            let b = $f($n);
            let mut r = &b[..];
            match ReadExt::$r(&mut r) {
                Ok(y) => sv::check(y == v as $t, 107),
                Err(_) => sv::check(false, 108),
            }
        }};
    }
    rw!(u8, 1, write_u8, read_u8, be);
    rw!(u16, 2, write_be_u16, read_be_u16, be);
    rw!(u32, 4, write_be_u32, read_be_u32, be);
    rw!(u64, 8, write_be_u64, read_be_u64, be);
    rw!(u16, 2, write_le_u16, read_le_u16, le);
    rw!(u32, 4, write_le_u32, read_le_u32, le);
    rw!(u64, 8, write_le_u64, read_le_u64, le);
    sv::check_eq(&husk::util::u64_be_array(v), &be(8), 109);
    sv::check_eq(&husk::util::u64_le_array(v), &le(8), 110);
    sv::check_eq(&husk::util::u32_be_array(v as u32), &be(4), 111);
    sv::check_eq(&husk::util::u32_le_array(v as u32), &le(4), 112);
    sv::reach(1);
}
/// what does not fit its length field is refused, what just fits is written
#[no_mangle]
pub extern "C" fn k02_refuse() {
    match sv::param(0) {
        0 => {
            // extension body of 65534 or 65536 bytes
            let n = [32766usize, 32767][sv::choose(2)];
            let e = must(Extension::new_elliptic_curve_list(vec![NamedCurve::secp256r1; n]));
            refuse(&e, n == 32766, &[0, 10, 0xff, 0xfe, 0xff, 0xfc, 0, 23], 4 + 2 + 2 * n);
        }
        1 => {
            let n = [32766usize, 32767][sv::choose(2)];
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(SignatureAndHashAlgorithm { hash: HashAlgorithm::sha256, signature: SignatureAlgorithm::rsa });
            }
            let e = must(Extension::new_signature_algorithm_list(v));
            refuse(&e, n == 32766, &[0, 13, 0xff, 0xfe, 0xff, 0xfc, 4, 1], 4 + 2 + 2 * n);
        }
        2 => {
            let n = [65535usize, 65536][sv::choose(2)];
            let e = Extension::Unknown(35, big(n));
            refuse(&e, n == 65535, &[0, 35, 0xff, 0xff], 4 + n);
        }
        _ => {
            let n = [(1usize << 24) - 1, 1 << 24][sv::choose(2)];
            let h = must(Handshake::new_client_key_exchange(vec![7; n]));
            refuse(&h, n < 1 << 24, &[16, 0xff, 0xff, 0xff, 7], 4 + n);
        }
    }
}
fn refuse<T: TlsItem>(v: &T, fits: bool, head: &[u8], size: usize) {
    match enc(v) {
        Ok(e) => {
            sv::check(fits, 113);
            sv::check(e.len() == size, 114);
            sv::check(v.tls_size() == size as u64, 115);
            sv::check_eq(&e[..head.len()], head, 116);
            sv::reach(1);
        }
        Err(_) => {
            sv::check(!fits, 117);
            sv::reach(2);
        }
    }
}

// ---------------------------------------------------------------- K04: no panic, bounded memory
const SLACK: u64 = 1 << 17;
/// any buffer contents: a stream of messages is decoded to its end
#[no_mangle]
pub extern "C" fn k04_stream() {
    let n = sv::range(sv::param(0), sv::param(1));
    let b = sv::bytes(n);
    unsafe { sv::sv_heap_reset_peak() };
    let base = unsafe { sv::sv_heap() };
    let mut hb = HandshakeBuffer::new();
    hb.add_record(&b);
    let mut rounds = 0;
    loop {
        match hb.get_message() {
            Ok(Some(_)) => sv::reach(1),
            Ok(None) => break,
            Err(_) => sv::reach(2),
        }
        rounds += 1;
        // every message takes at least its header
        sv::check(rounds <= n / 4, 120);
    }
    sv::check(unsafe { sv::sv_heap_peak() } <= base + SLACK + 64 * n as u64, 121);
}
/// one message with a header that fits and a body that is arbitrary
#[no_mangle]
pub extern "C" fn k04_message() {
    let n = sv::range(sv::param(1), sv::param(2));
    let b = message(sv::param(0) as u8, &sv::bytes(n));
    unsafe { sv::sv_heap_reset_peak() };
    let base = unsafe { sv::sv_heap() };
    let mut r = &b[..];
    match Handshake::tls_read(&mut r) {
        Ok(m) => {
            sv::reach(1);
            // encoding what was read must not panic either
            let _ = enc(&m);
        }
        Err(_) => sv::reach(2),
    }
    sv::check(unsafe { sv::sv_heap_peak() } <= base + SLACK + 64 * n as u64, 122);
}

// ---------------------------------------------------------------- K05
/// reference reassembly: the size of the next message, 0 if it is not complete, given all bytes that arrived
/// and were not delivered
fn whole(b: &[u8]) -> usize {
    if b.len() < 4 {
        return 0;
    }
    let n = (b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize;
    let mut k = 0;
    while k <= b.len() - 4 {
        if k == n {
            return 4 + k;
        }
        k += 1;
    }
    0
}
fn expect(hb: &mut HandshakeBuffer, stream: &[u8], pos: &mut usize, fed: usize, delivered: &mut usize) {
    loop {
        let got = hb.get_message();
        match whole(&stream[*pos..fed]) {
            0 => {
                match got {
                    Ok(None) => {}
                    _ => sv::check(false, 130),
                }
                sv::check(hb.is_empty() == (*pos == fed), 131);
                return;
            }
            n => {
                let m = &stream[*pos..*pos + n];
                let ok = g::body(m[0], &m[4..]);
                match got {
                    Ok(Some(h)) => {
                        sv::check(ok.is_some(), 132);
                        if ok == Some(true) {
                            match enc(&h) {
                                Ok(e) => sv::check_eq(&e, m, 133),
                                Err(_) => sv::check(false, 134),
                            }
                        }
                        sv::reach(1);
                    }
                    Ok(None) => sv::check(false, 135),
                    Err(e) => {
                        sv::check(ok.is_none(), 136);
                        let unknown = !g::known_type(m[0]);
                        sv::check((e.kind == TlsErrorKind::UnexpectedMessage) == unknown, 137);
                        sv::reach(2);
                    }
                }
                *pos += n;
                *delivered += 1;
            }
        }
    }
}
/// p0..=p1 arbitrary bytes fed in any division into at most p2 fragments (some may be empty)
#[no_mangle]
pub extern "C" fn k05_any() {
    let n = sv::range(sv::param(0), sv::param(1));
    let b = sv::bytes(n);
    feed(&b, sv::param(2));
}
fn feed(b: &[u8], frags: usize) {
    let n = b.len();
    let mut hb = HandshakeBuffer::new();
    let (mut pos, mut fed, mut cnt) = (0, 0, 0);
    for i in 0..frags {
        let k = if i + 1 == frags { n - fed } else { sv::range(0, n - fed) };
        hb.add_record(&b[fed..fed + k]);
        fed += k;
        expect(&mut hb, b, &mut pos, fed, &mut cnt);
        if fed == n {
            break;
        }
    }
    sv::check(fed == n, 138);
}
/// a stream of messages of chosen kinds and sizes, fed in any division into at most p1 fragments
#[no_mangle]
pub extern "C" fn k05_stream() {
    let kinds: [&[u8]; 6] = [&[16, 14, 12], &[12, 3, 20], &[0, 16, 16], &[20, 99, 14], &[14, 14, 14], &[11, 0, 16]];
    let mut b = Vec::new();
    for t in kinds[sv::param(0)].iter() {
        let n = match *t {
            20 => 12,
            11 => 3,
            0 | 14 => sv::choose(2),
            _ => [0usize, 1, 3][sv::choose(3)],
        };
        b.extend_from_slice(&message(*t, &sv::bytes(n)));
    }
    // perhaps the beginning of another one
    let tail = [0usize, 1, 4, 5][sv::choose(4)];
    let more = message(16, &sv::bytes(2));
    b.extend_from_slice(&more[..tail]);
    feed(&b, sv::param(1));
}

// ---------------------------------------------------------------- K06
use std::io::{self, Read};
/// a transport that cuts its bytes into arbitrary short reads and ends or fails after them
struct Net<'a> {
    data: &'a [u8],
    pos: usize,
    fail: bool,
}
impl<'a> Read for Net<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        let most = if buf.len() < left { buf.len() } else { left };
        if most == 0 {
            if self.fail && !buf.is_empty() {
                return Err(io::Error::from(io::ErrorKind::ConnectionReset));
            }
            return Ok(0);
        }
        let n = sv::range(1, most);
        for i in 0..n {
            buf[i] = self.data[self.pos + i];
        }
        self.pos += n;
        Ok(n)
    }
}
/// p0: kind of read, p1..=p2: bytes the transport has, p3: largest fixed-size read
#[no_mangle]
pub extern "C" fn k06_read() {
    let have = sv::range(sv::param(1), sv::param(2));
    let data = sv::bytes(have);
    let mut t = Net { data: &data, pos: 0, fail: sv::choose(2) == 1 };
    let b = |i: usize| if i < have { data[i] as u64 } else { 0 };
    let be = |n: usize| {
        let mut v = 0;
        for i in 0..n {
            v = v << 8 | b(i);
        }
        v
    };
    let le = |n: usize| {
        let mut v = 0;
        for i in 0..n {
            v |= b(i) << (8 * i);
        }
        v
    };
    let (n, want, got): (usize, u64, Option<u64>) = match sv::param(0) {
        0 => {
            let n = sv::range(0, sv::param(3));
            let mut buf = vec![0xee; n + 2];
            let r = t.fill_exact(&mut buf[1..n + 1]);
            sv::check(buf[0] == 0xee && buf[n + 1] == 0xee, 140);
            if r.is_ok() {
                sv::check(n <= have, 141);
                sv::check_eq(&buf[1..n + 1], &data[..n], 142);
            }
            (n, 0, r.ok().map(|_| 0))
        }
        1 => {
            let n = sv::range(0, sv::param(3));
            let r = ReadExt::read_exact(&mut t, n);
            if let Ok(v) = &r {
                sv::check(n <= have, 143);
                sv::check_eq(v, &data[..n], 144);
            }
            (n, 0, r.ok().map(|_| 0))
        }
        2 => (1, be(1), ReadExt::read_u8(&mut t).ok().map(|x| x as u64)),
        3 => (2, be(2), t.read_be_u16().ok().map(|x| x as u64)),
        4 => (2, le(2), t.read_le_u16().ok().map(|x| x as u64)),
        5 => (4, be(4), t.read_be_u32().ok().map(|x| x as u64)),
        6 => (4, le(4), t.read_le_u32().ok().map(|x| x as u64)),
        7 => (8, be(8), t.read_be_u64().ok()),
        8 => (8, le(8), t.read_le_u64().ok()),
        _ => (3, 0, SessionLen::read(&mut t)),
    };
    sv::check(got.is_some() == (n <= have), 145);
    sv::check(t.pos <= n, 146);
    match got {
        Some(v) => {
            sv::check(v == want || sv::param(0) == 9, 147);
            sv::check(t.pos == n, 148);
            sv::reach(1);
        }
        None => sv::reach(2),
    }
}
/// a composite: an alert and one more byte through the item decoders
struct SessionLen;
impl SessionLen {
    fn read(t: &mut Net) -> Option<u64> {
        let v = ProtocolVersion::tls_read(t).ok()?;
        let x = u8::tls_read(t).ok()?;
        sv::check(v.major == t.data[0] && v.minor == t.data[1] && x == t.data[2], 149);
        Some(0)
    }
}
