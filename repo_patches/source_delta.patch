From e9713c0fc24c40b3b529f7e0c907f278eaf3eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 01/11] verif hooks: re-export private kernels under
 cfg(minisign_verif)

---
 src/crypto/curve25519.rs  |  5 +++
 src/crypto/mod.rs         |  4 ++
 src/crypto/verif.rs       |  9 ++++
 src/crypto/verif_curve.rs | 95 +++++++++++++++++++++++++++++++++++++++
 src/lib.rs                |  5 +++
 src/verif_hooks.rs        | 10 +++++
 6 files changed, 128 insertions(+)
 create mode 100644 src/crypto/verif.rs
 create mode 100644 src/crypto/verif_curve.rs
 create mode 100644 src/verif_hooks.rs

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 5d3e4d7..8c3cde9 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -2031,3 +2031,8 @@ static BI: [GePrecomp; 8] = [
         ]),
     },
 ];
+
+#[allow(unexpected_cfgs)]
+#[cfg(minisign_verif_kernels)]
+#[path = "verif_curve.rs"]
+pub mod verif;
diff --git a/src/crypto/mod.rs b/src/crypto/mod.rs
index 2a82f08..d1284d6 100644
--- a/src/crypto/mod.rs
+++ b/src/crypto/mod.rs
@@ -15,3 +15,7 @@ mod sha512;
 pub mod blake2b;
 pub mod ed25519;
 pub mod util;
+
+#[allow(unexpected_cfgs)]
+#[cfg(minisign_verif_kernels)]
+pub mod verif;
diff --git a/src/crypto/verif.rs b/src/crypto/verif.rs
new file mode 100644
index 0000000..3f7218e
--- /dev/null
+++ b/src/crypto/verif.rs
@@ -0,0 +1,9 @@
+//! Re-exports of private kernels for the verification harness.
+//! Compiled only with `--cfg minisign_verif_kernels`.
+
+pub use super::curve25519::verif as curve;
+pub use super::curve25519::{
+    ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, Fe, GeCached, GeP1P1, GeP2, GeP3,
+    GePrecomp,
+};
+pub use super::sha512::Hash as Sha512;
diff --git a/src/crypto/verif_curve.rs b/src/crypto/verif_curve.rs
new file mode 100644
index 0000000..c89ac08
--- /dev/null
+++ b/src/crypto/verif_curve.rs
@@ -0,0 +1,95 @@
+//! Access to private parts of `curve25519` for the verification harness.
+//! Compiled only with `--cfg minisign_verif_kernels`.
+
+use super::*;
+
+pub fn fe_square(a: &Fe) -> Fe {
+    a.square()
+}
+pub fn fe_square_and_double(a: &Fe) -> Fe {
+    a.square_and_double()
+}
+pub fn fe_neg(a: &Fe) -> Fe {
+    a.neg()
+}
+pub fn fe_pow25523(a: &Fe) -> Fe {
+    a.pow25523()
+}
+pub fn fe_is_nonzero(a: &Fe) -> bool {
+    a.is_nonzero()
+}
+pub fn fe_is_negative(a: &Fe) -> bool {
+    a.is_negative()
+}
+pub fn constants() -> [Fe; 5] {
+    [FE_ZERO, FE_ONE, FE_SQRTM1, FE_D, FE_D2]
+}
+pub fn base_table() -> [GePrecomp; 8] {
+    BI
+}
+pub fn precomp_parts(p: &GePrecomp) -> [Fe; 3] {
+    [p.y_plus_x, p.y_minus_x, p.xy2d]
+}
+pub fn p3(x: Fe, y: Fe, z: Fe, t: Fe) -> GeP3 {
+    GeP3 { x, y, z, t }
+}
+pub fn p3_parts(p: &GeP3) -> [Fe; 4] {
+    [p.x, p.y, p.z, p.t]
+}
+pub fn p2(x: Fe, y: Fe, z: Fe) -> GeP2 {
+    GeP2 { x, y, z }
+}
+pub fn p2_parts(p: &GeP2) -> [Fe; 3] {
+    [p.x, p.y, p.z]
+}
+pub fn p1p1_parts(p: &GeP1P1) -> [Fe; 4] {
+    [p.x, p.y, p.z, p.t]
+}
+pub fn cached_parts(p: &GeCached) -> [Fe; 4] {
+    [p.y_plus_x, p.y_minus_x, p.z, p.t2d]
+}
+pub fn p1p1(x: Fe, y: Fe, z: Fe, t: Fe) -> GeP1P1 {
+    GeP1P1 { x, y, z, t }
+}
+pub fn cached(y_plus_x: Fe, y_minus_x: Fe, z: Fe, t2d: Fe) -> GeCached {
+    GeCached {
+        y_plus_x,
+        y_minus_x,
+        z,
+        t2d,
+    }
+}
+pub fn precomp(y_plus_x: Fe, y_minus_x: Fe, xy2d: Fe) -> GePrecomp {
+    GePrecomp {
+        y_plus_x,
+        y_minus_x,
+        xy2d,
+    }
+}
+pub fn p1p1_to_p2(p: &GeP1P1) -> GeP2 {
+    p.to_p2()
+}
+pub fn p1p1_to_p3(p: &GeP1P1) -> GeP3 {
+    p.to_p3()
+}
+pub fn p3_to_cached(p: &GeP3) -> GeCached {
+    p.to_cached()
+}
+pub fn p3_to_p2(p: &GeP3) -> GeP2 {
+    p.to_p2()
+}
+pub fn p2_dbl(p: &GeP2) -> GeP1P1 {
+    p.dbl()
+}
+pub fn p3_dbl(p: &GeP3) -> GeP1P1 {
+    p.dbl()
+}
+pub fn p2_zero() -> GeP2 {
+    GeP2::zero()
+}
+pub fn p3_zero() -> GeP3 {
+    GeP3::zero()
+}
+pub fn slide(a: &[u8]) -> [i8; 256] {
+    GeP2::slide(a)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 1645d72..4940ab3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,6 +22,11 @@ mod signature_box;
 #[cfg(test)]
 mod tests;
 
+#[allow(unexpected_cfgs)]
+#[cfg(minisign_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 use std::io::{self, Read, Seek, Write};
 
 use getrandom::getrandom;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..ed1d464
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,10 @@
+//! Re-exports of private items for the verification harness.
+//! Compiled only with `--cfg minisign_verif`; the curve, scalar and hash kernels
+//! additionally need `--cfg minisign_verif_kernels`.
+
+pub use crate::crypto::blake2b::Blake2b;
+pub use crate::crypto::ed25519;
+pub use crate::crypto::util::fixed_time_eq;
+#[cfg(minisign_verif_kernels)]
+pub use crate::crypto::verif::*;
+pub use crate::helpers::raw_scrypt_params;
-- 
2.43.0


From fe22f752581f28e0436cdbe84cbfa6505155d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 02/11] fix: compare S with the group order in little-endian
 order

---
 src/crypto/ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index be32377..df11a96 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -2,8 +2,8 @@ use super::curve25519::{ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, G
 use super::sha512;
 
 static L: [u8; 32] = [
-    0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-    0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
 ];
 
 fn check_s_lt_l(s: &[u8]) -> bool {
-- 
2.43.0


From 774e9d54bcf1eb3e0d3a380e952d42625c8a3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 03/11] fix: refuse signature boxes whose signatures have the
 wrong size

---
 src/signature_box.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 970c11a..aa95d99 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -95,6 +95,12 @@ impl SignatureBox {
         let untrusted_comment = untrusted_comment[COMMENT_PREFIX.len()..].to_string();
         let sig_bytes = Base64::decode_to_vec(signature_str.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if sig_bytes.len() != Signature::BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid signature length",
+            ));
+        }
         let signature = Signature::from_bytes(&sig_bytes)?;
         if !trusted_comment_str.starts_with(TRUSTED_COMMENT_PREFIX) {
             return Err(PError::new(
@@ -119,6 +125,12 @@ impl SignatureBox {
         sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if global_sig.len() != SIGNATURE_BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid global signature length",
+            ));
+        }
         Ok(SignatureBox {
             untrusted_comment,
             signature,
-- 
2.43.0


From 705408203022d46df171b21fbaf315fd4ce491ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 04/11] fix: keep blanks around the trusted comment

---
 src/signature_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index aa95d99..a4d6516 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -122,7 +122,7 @@ impl SignatureBox {
             .drain(..TRUSTED_COMMENT_PREFIX_LEN)
             .count();
         let mut sig_and_trusted_comment = signature.sig.to_vec();
-        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
+        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
         if global_sig.len() != SIGNATURE_BYTES {
-- 
2.43.0


From b10e05a28ad90f2ca1ce064541267848b44eacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 05/11] fix: encrypt keys also with an empty password

---
 src/keypair.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keypair.rs b/src/keypair.rs
index b1fa922..e4897b4 100644
--- a/src/keypair.rs
+++ b/src/keypair.rs
@@ -100,9 +100,8 @@ impl KeyPair {
                 password
             }
         };
-        if !password.is_empty() {
-            sk = sk.encrypt(password)?;
-        } else if interactive {
+        sk = sk.encrypt(password)?;
+        if interactive {
             writeln!(io::stdout(), "done").map_err(|e| PError::new(ErrorKind::Io, e))?;
         }
         Ok(KeyPair { pk, sk })
-- 
2.43.0


From aa983f6b15050e88099e9b8e52c8a434121ebea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 06/11] fix: limit r*p before truncating it to 32 bits

---
 src/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 68cc253..0a24041 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -64,7 +64,7 @@ pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Resu
             }
             n_log2 += 1;
         }
-        let maxrp = cmp::min(0x3fff_ffff_u32, ((opslimit / 4) / (1u64 << n_log2)) as u32);
+        let maxrp = cmp::min(0x3fff_ffff_u64, (opslimit / 4) / (1u64 << n_log2)) as u32;
         p = maxrp / r;
     }
     if n_log2 > n_log2_max {
-- 
2.43.0


From 7320f38db6b4e50338457686df3b9ac19df41971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 07/11] fix: output the data that was verified, from where
 reading started

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4940ab3..3efacea 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -27,7 +27,7 @@ mod tests;
 #[doc(hidden)]
 pub mod verif_hooks;
 
-use std::io::{self, Read, Seek, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use getrandom::getrandom;
 
@@ -147,6 +147,11 @@ pub fn verify<R>(
 where
     R: Read + Seek,
 {
+    let start = if output {
+        data_reader.stream_position()?
+    } else {
+        0
+    };
     let data = if signature_box.is_prehashed() {
         prehash(&mut data_reader)?
     } else {
@@ -204,7 +209,7 @@ where
         }
     }
     if output {
-        data_reader.rewind()?;
+        data_reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; 65536];
         loop {
             let len = data_reader.read(&mut buf)?;
-- 
2.43.0


From d4e90c36eb2d8dd1727c5555e076f564eddb2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 08/11] fix: refuse scrypt parameters whose parallelization
 needs more than the memory limit

---
 src/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 0a24041..6823f8f 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -67,7 +67,7 @@ pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Resu
         let maxrp = cmp::min(0x3fff_ffff_u64, (opslimit / 4) / (1u64 << n_log2)) as u32;
         p = maxrp / r;
     }
-    if n_log2 > n_log2_max {
+    if n_log2 > n_log2_max || 128 * u64::from(r) * u64::from(p) > MEMLIMIT_MAX as u64 {
         return Err(PError::new(ErrorKind::KDF, "scrypt parameters too high"));
     }
     scrypt::Params::new(n_log2, r, p, scrypt::Params::RECOMMENDED_LEN).map_err(Into::into)
-- 
2.43.0


From 1debe8a38d493f6930b5be8bb2bb31ac57432711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 09/11] fix: recognize every encoding of the neutral element

---
 src/crypto/curve25519.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 8c3cde9..3213cb4 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -1837,12 +1837,8 @@ pub fn sc_muladd(s: &mut [u8], a: &[u8], b: &[u8], c: &[u8]) {
 }
 
 pub fn is_identity(s: &[u8]) -> bool {
-    let mut c = s[0] ^ 0x01;
-    for i in 1..31 {
-        c |= s[i];
-    }
-    c |= s[31] & 0x7f;
-    c == 0
+    // y = 1, in its canonical encoding or not
+    !(Fe::from_bytes(s) - FE_ONE).is_nonzero()
 }
 
 static BI: [GePrecomp; 8] = [
-- 
2.43.0


From ca01fdb230d9d4563e41c3bc1d28a35c441a164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 10/11] fix: carry before subtracting in the doubling of points

The sum of two carried elements may exceed the bound of the operand that
fiat_25519_sub subtracts, so that limb 0 wraps around for some inputs.
---
 src/crypto/curve25519.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 3213cb4..3641f50 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -697,7 +697,7 @@ impl GeP2 {
         let aa = a.square();
         let y3 = yy + xx;
         let z3 = yy - xx;
-        let x3 = aa - y3;
+        let x3 = aa - y3.carry();
         let t3 = b - z3;
 
         GeP1P1 {
-- 
2.43.0


From f2718707d3512f890351379a452ac5be3a484504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 11/11] fix: keep the selection of field elements from being
 compiled to a branch on a secret bit

---
 src/crypto/curve25519.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 3641f50..6389240 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -43,6 +43,8 @@ pub fn fiat_25519_cmovznz_u64(out1: &mut u64, arg1: fiat_25519_u1, arg2: u64, ar
     let x1: fiat_25519_u1 = (!(!arg1));
     let x2: u64 = (((((0x0_i8 - (x1 as fiat_25519_i2)) as fiat_25519_i1) as i128)
         & 0xffffffffffffffff_i128) as u64);
+    // keeps the selection from being compiled to a branch on arg1
+    let x2: u64 = core::hint::black_box(x2);
     let x3: u64 = ((x2 & arg3) | ((!x2) & arg2));
     *out1 = x3;
 }
-- 
2.43.0

