From 46ffdb5ac5ce4e882801cdcdcf5bbc10fa6bf84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:26 +0000
Subject: [PATCH 01/15] fix: use all 256 scalar bits in P-256 scalar
 multiplication

The loop read only the low 8 bits of the first 7 limbs, so n*P was computed
for another scalar and ECDHE secrets had 56 bits.
---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From 72f2dcd58e0c9b65258e4171ae7f40f0b59fcff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 02/15] fix: reject P-256 points with coordinates not below the
 prime

Such encodings were accepted (x + p for a small x) or tripped a debug assertion.
---
 src/crypto/p256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..69dcf51 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -253,6 +253,11 @@ impl NPoint256 {
             _ => return None,
         };
 
+        // coordinates must be canonical field elements
+        if x.reduce_once_zero().compare(&x).0 != 0 || y.reduce_once_zero().compare(&y).0 != 0 {
+            return None;
+        }
+
         let p = NPoint256 { x: x, y: y };
 
         // wait, but is p on the curve?
-- 
2.43.0


From 61c076713d0369f2810cf191cc66053a4d8ed25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 03/15] fix: return an error instead of panicking on other
 messages in read_application_data

A peer could crash the client with any alert but close_notify, a
ChangeCipherSpec or a handshake message.
---
 src/tls.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..4d5b8db 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -404,9 +404,17 @@ impl<R: ReadExt> TlsReader<R> {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                // this should not come here
+                ChangeCipherSpecMessage => {
+                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+                }
+                // TODO: re-handshake
+                HandshakeMessage(..) => {
+                    return tls_err!(UnexpectedMessage, "unexpected Handshake")
+                }
             }
         }
     }
-- 
2.43.0


From c5ae9a48c74c9b70b3f02f67ecb8cd5c6b47c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 04/15] fix: reject an oversized decrypted record with
 record_overflow instead of panicking

---
 src/tls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 4d5b8db..b25354e 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -309,8 +309,11 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(
+                        RecordOverflow,
+                        "decrypted record too long: {}",
+                        data.len()
+                    );
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From 79c50bd2de1dd442d48300cf1f5095c6dfd5e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 05/15] fix: reject bytes after the extension block of a hello
 message

They were dropped silently, so the re-encoded message (and the transcript
hash) differed from what was received.
---
 src/tls_item.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..fc99b6d 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,12 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "trailing bytes after optional item"
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From 800e8a9daac9412ebf893f86027601c0c290b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:32 +0000
Subject: [PATCH 06/15] fix: reject trailing bytes in a server key exchange
 message

---
 src/cipher/ecdhe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..14a0030 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -122,6 +122,10 @@ impl KeyExchange for EllipticDiffieHellman {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
 
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "trailing bytes after server key exchange");
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From 16113cbd33dee9a3cf332f82ce3cbc40cbed4462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:33 +0000
Subject: [PATCH 07/15] fix: hash HMAC keys longer than the block instead of
 panicking

---
 src/cipher/prf.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cipher/prf.rs b/src/cipher/prf.rs
index da0e802..6877741 100644
--- a/src/cipher/prf.rs
+++ b/src/cipher/prf.rs
@@ -8,10 +8,14 @@ use std::mem;
 pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
     const B: usize = 64;
 
-    if key.len() > B {
-        // FIXME
-        unimplemented!();
-    }
+    // keys longer than a block are hashed first
+    let hashed;
+    let key = if key.len() > B {
+        hashed = sha256(key);
+        &hashed[..]
+    } else {
+        key
+    };
 
     let mut i_msg = [0x36u8; B].to_vec();
     let mut o_msg = [0x5cu8; B].to_vec();
-- 
2.43.0


From dd2b89141bfe5aa58bd949a06b598955c118e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 08/15] fix: deliver no application data after close_notify or
 a read error

TlsClient::read took the empty data that stands for close_notify for an empty
record and read on, and a read error was forgotten by the next call, so data
following a close_notify or a failed record was delivered.
---
 src/client.rs |  4 ++++
 src/tls.rs    | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..d503f14 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -334,6 +334,10 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
                         break; // FIXME: stop if EOF. otherwise raise error?
                     }
                 };
+                if data.is_empty() {
+                    // end of stream
+                    break;
+                }
                 self.buf.extend(&data);
             }
 
diff --git a/src/tls.rs b/src/tls.rs
index b25354e..b4f83e7 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -206,6 +206,8 @@ pub struct TlsReader<R: ReadExt> {
     read_count: u64,
     handshake_buffer: HandshakeBuffer,
     iv: Option<Vec<u8>>,
+    // no more application data: close_notify was received or reading failed.
+    closed: bool,
 }
 
 /// Reads `Record` or `Message` from a readable object.
@@ -218,6 +220,7 @@ impl<R: ReadExt> TlsReader<R> {
             read_count: 0,
             handshake_buffer: HandshakeBuffer::new(),
             iv: None,
+            closed: false,
         }
     }
 
@@ -394,13 +397,30 @@ impl<R: ReadExt> TlsReader<R> {
         }
     }
 
+    /// Returns the (non-empty) payload of the next application data record.
+    ///
+    /// Empty data means end of stream: no data is returned after a close_notify or an error.
     pub fn read_application_data(&mut self) -> TlsResult<Vec<u8>> {
         if self.decryptor.is_none() {
             panic!("ApplicationData called before handshake");
         }
+        if self.closed {
+            return Ok(vec![]);
+        }
+        let result = self.read_next_application_data();
+        match result {
+            Ok(ref data) if !data.is_empty() => {}
+            _ => self.closed = true,
+        }
+        result
+    }
+
+    fn read_next_application_data(&mut self) -> TlsResult<Vec<u8>> {
         loop {
             let msg = self.read_message()?;
             match msg {
+                // empty records carry nothing
+                ApplicationDataMessage(ref msg) if msg.is_empty() => {}
                 ApplicationDataMessage(msg) => return Ok(msg),
                 // TODO: handle other cases
                 AlertMessage(Alert {
-- 
2.43.0


From 5dcd8ce6131edc660e7ae347cddf8c20d3505975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:52 +0000
Subject: [PATCH 09/15] fix: reject records interleaved with an incomplete
 handshake message

Bytes of a handshake message received before a ChangeCipherSpec (or any other
record) were completed with bytes received after it, so a message could be
partly unprotected.
---
 src/handshake.rs |  4 ++++
 src/tls.rs       | 10 +++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..a6ce829 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -339,6 +339,10 @@ impl HandshakeBuffer {
         self.buf.extend(fragment);
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     // if message is arrived but has unknown type, the message is discarded and returns error.
     pub fn get_message(&mut self) -> TlsResult<Option<Handshake>> {
         let len = self.buf.len();
diff --git a/src/tls.rs b/src/tls.rs
index b4f83e7..7b54d3c 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -346,10 +346,14 @@ impl<R: ReadExt> TlsReader<R> {
 
         // ok, no message found. read it from network!
         loop {
-            // TODO: what if handshake record is present in buffer then
-            // other record comes? is it legal?
-
             let record = self.read_record()?;
+
+            // a handshake message must not be interleaved with other records.
+            if record.content_type != HandshakeTy && !self.handshake_buffer.is_empty() {
+                self.handshake_buffer = HandshakeBuffer::new();
+                return tls_err!(UnexpectedMessage, "incomplete Handshake message");
+            }
+
             match record.content_type {
                 ChangeCipherSpecTy => {
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
-- 
2.43.0


From e9b30cf912de2f680394412d8ea1abd45fc5753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:54 +0000
Subject: [PATCH 10/15] fix: report a truncated handshake message body as a
 decode error

Running out of bytes inside a message was reported as an i/o failure of the
transport, for which no alert is sent.
---
 src/handshake.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index a6ce829..7bf28b9 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,8 +1,10 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
-use crate::tls_result::TlsResult;
+use crate::tls_result::TlsErrorKind::{
+    DecodeError, InternalError, IoFailure, UnexpectedMessage,
+};
+use crate::tls_result::{TlsError, TlsResult};
 use crate::util::{ReadExt, WriteExt};
 
 pub use crate::signature::{
@@ -371,7 +373,15 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
+        let message: Handshake =
+            TlsItem::tls_read(reader).map_err(|err| match err.kind {
+                // the message itself is too short: not a failure of the transport
+                IoFailure => TlsError {
+                    kind: DecodeError,
+                    desc: err.desc,
+                },
+                _ => err,
+            })?;
         Ok(Some(message))
     }
 }
-- 
2.43.0


From ca297828bf38f346728bf2df05652b015af887f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 11/15] fix: report a truncated server key exchange as a decode
 error

As for other handshake messages, so that the alert is sent.
---
 src/cipher/ecdhe.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 14a0030..71ab934 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,8 +8,8 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
-use crate::tls_result::TlsResult;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter, IoFailure};
+use crate::tls_result::{TlsError, TlsResult};
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
 
@@ -120,7 +120,15 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)
+            .map_err(|err| match err.kind {
+                // the message itself is too short: not a failure of the transport
+                IoFailure => TlsError {
+                    kind: DecodeError,
+                    desc: err.desc,
+                },
+                _ => err,
+            })?;
 
         if reader.position() != data.len() as u64 {
             return tls_err!(DecodeError, "trailing bytes after server key exchange");
-- 
2.43.0


From 5a3b098e17ef9ee0741c057ce0b6eaf0b55b4c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 12/15] fix: refuse to write a hello extension longer than its
 length field

The length was truncated to 16 bits.
---
 src/handshake.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 7bf28b9..e2f19b9 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -94,14 +94,21 @@ macro_rules! tls_hello_extension {
                 match *self {
                     $(
                         $enum_name::$ext_name(ref body) => {
+                            let body_size = body.tls_size();
+                            if body_size >= 1 << 16 {
+                                return tls_err!(InternalError, "Hello Extension too long: {}", body_size);
+                            }
                             try_write_num!(u16, writer, tt_to_expr!($ext_num));
-                            try_write_num!(u16, writer, body.tls_size() as u16);
+                            try_write_num!(u16, writer, body_size);
                             body.tls_write(writer)?;
                         }
                     )+
                     $enum_name::Unknown(extension_type, ref extension_data) => {
+                        if extension_data.len() >= 1 << 16 {
+                            return tls_err!(InternalError, "Hello Extension too long: {}", extension_data.len());
+                        }
                         try_write_num!(u16, writer, extension_type);
-                        try_write_num!(u16, writer, extension_data.len() as u16);
+                        try_write_num!(u16, writer, extension_data.len());
                         writer.write_all(extension_data)?;
                     }
                 }
-- 
2.43.0


From b27a80c48c7728951a4a0bdd70039e8b474dbe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:20 +0000
Subject: [PATCH 13/15] fix: refuse to write a handshake message longer than
 its length field

The length was truncated to 24 bits.
---
 src/handshake.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index e2f19b9..fa17aa4 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -214,9 +214,12 @@ macro_rules! tls_handshake(
                 match *self {
                     $(
                         Handshake::$name(ref body) => {
-                            writer.write_u8(tt_to_expr!($num))?;
-
                             let len = body.tls_size();
+                            if len >= 1 << 24 {
+                                return tls_err!(InternalError, "Handshake message too long: {}", len);
+                            }
+
+                            writer.write_u8(tt_to_expr!($num))?;
                             writer.write_u8(((len >> 16) & 0xff) as u8)?;
                             writer.write_u8(((len >> 8) & 0xff) as u8)?;
                             writer.write_u8((len & 0xff) as u8)?;
-- 
2.43.0


From c228e0e3ef364a8082a95c33db74fbb1df0f67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:03 +0000
Subject: [PATCH 14/15] fix: reject server key exchanges on a curve other than
 P-256

---
 src/cipher/ecdhe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 71ab934..1fb6f72 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -134,6 +134,11 @@ impl KeyExchange for EllipticDiffieHellman {
             return tls_err!(DecodeError, "trailing bytes after server key exchange");
         }
 
+        let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
+        if curve != NamedCurve::secp256r1 {
+            return tls_err!(IllegalParameter, "server chose a curve we did not offer");
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From 121fbd80e9da7f02d3de6f44261d04baab1d5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:00 +0000
Subject: [PATCH 15/15] hook: constructor, coordinates, add and double of a
 projective point (cfg husk_verif)

---
 src/crypto/p256.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 69dcf51..df29ba7 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -222,6 +222,23 @@ impl Point256 {
     }
 }
 
+// access to projective points for the verification harness
+#[cfg(husk_verif)]
+impl Point256 {
+    pub fn verif_new(x: Int256, y: Int256, z: Int256) -> Point256 {
+        Point256 { x, y, z }
+    }
+    pub fn verif_xyz(&self) -> (Int256, Int256, Int256) {
+        (self.x, self.y, self.z)
+    }
+    pub fn verif_double(&self) -> Point256 {
+        self.double()
+    }
+    pub fn verif_add(&self, b: &Point256) -> Point256 {
+        self.add(b)
+    }
+}
+
 // normalized
 pub struct NPoint256 {
     pub x: Int256,
-- 
2.43.0

