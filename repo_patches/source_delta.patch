From 93c6b3408b665717c4ca999bcaeda0805ae87c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 01/57] fix: LZO compression never writes past the output it
 was given

---
 libs/lzo/src/lib.rs | 72 +++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/libs/lzo/src/lib.rs b/libs/lzo/src/lib.rs
index b4bb667..fa38e02 100644
--- a/libs/lzo/src/lib.rs
+++ b/libs/lzo/src/lib.rs
@@ -43,6 +43,38 @@ pub enum LzoError {
     InvalidArgument = -10,
 }
 
+#[cfg(feature = "compress")]
+/// compress `input` to `output`, which must be valid for writes of `capacity` bytes
+/// returns the compressed size
+///
+/// The compressor itself does not check the size of its output
+unsafe fn compress_checked(
+    input: &[u8],
+    output: *mut u8,
+    capacity: usize,
+) -> Result<usize, LzoError> {
+    let worst = worst_compress(input.len());
+    if capacity < worst {
+        let mut buffer: Vec<u8> = Vec::with_capacity(worst);
+        let len = compress_checked(input, buffer.as_mut_ptr(), worst)?;
+        if len > capacity {
+            return Err(LzoError::OutputOverrun);
+        }
+        std::ptr::copy_nonoverlapping(buffer.as_ptr(), output, len);
+        return Ok(len);
+    }
+    let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
+    let mut out_len = capacity;
+    let err = compress::lzo1x_1_compress(input.as_ptr(), input.len(), output, &mut out_len, wrkmem);
+    libc::free(wrkmem);
+    let res = mem::transmute::<i32, LzoError>(err);
+    if res == LzoError::Ok {
+        Ok(out_len)
+    } else {
+        Err(res)
+    }
+}
+
 #[cfg(feature = "compress")]
 /// compress `input` into `output`
 /// returns an error if the Vec is not large enough
@@ -51,51 +83,21 @@ pub enum LzoError {
 /// [`LzoError`] if an error occurs
 pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
     unsafe {
-        let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
-        let mut out_len = output.capacity();
-        let err = compress::lzo1x_1_compress(
-            input.as_ptr(),
-            input.len(),
-            output.as_mut_ptr(),
-            &mut out_len,
-            wrkmem,
-        );
-
+        let out_len = compress_checked(input, output.as_mut_ptr(), output.capacity())?;
         output.set_len(out_len);
-        libc::free(wrkmem);
-        let res = mem::transmute::<i32, LzoError>(err);
-        if res == LzoError::Ok {
-            Ok(())
-        } else {
-            Err(res)
-        }
     }
+    Ok(())
 }
 
 #[cfg(feature = "compress")]
 /// returns a slice containing the compressed data
+/// returns an error if the slice is not large enough
 ///
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress_to_slice<'a>(in_: &[u8], out: &'a mut [u8]) -> Result<&'a mut [u8], LzoError> {
-    unsafe {
-        let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
-        let mut out_len = out.len();
-        let err = compress::lzo1x_1_compress(
-            in_.as_ptr(),
-            in_.len(),
-            out.as_mut_ptr(),
-            &mut out_len,
-            wrkmem,
-        );
-        libc::free(wrkmem);
-        let res = mem::transmute::<i32, LzoError>(err);
-        if res == LzoError::Ok {
-            Ok(slice::from_raw_parts_mut(out.as_mut_ptr(), out_len))
-        } else {
-            Err(res)
-        }
-    }
+    let out_len = unsafe { compress_checked(in_, out.as_mut_ptr(), out.len())? };
+    Ok(&mut out[..out_len])
 }
 
 #[cfg(feature = "decompress")]
-- 
2.43.0


From 71d3a374a63c73a08aaed1e373d873133b205c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 02/57] fix: reject compressed integers of more than five bytes

---
 libs/common/src/io.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/common/src/io.rs b/libs/common/src/io.rs
index b670c90..c9809ae 100644
--- a/libs/common/src/io.rs
+++ b/libs/common/src/io.rs
@@ -50,6 +50,12 @@ impl<T: Read> ReadExt for T {
         let mut result: u32 = 0;
         for (i, byte) in self.bytes().enumerate() {
             let b: u32 = byte?.into();
+            if i > 4 {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "compressed integer is too long",
+                ));
+            }
             result |= (b & 0x7f) << (i * 7);
             if b < 0x80 {
                 break;
-- 
2.43.0


From 3af4574896a2f823d28534a0c18945d972f21161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 03/57] fix: strip_prefix_insensitive does not slice inside a
 character

---
 libs/common/src/strip.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/common/src/strip.rs b/libs/common/src/strip.rs
index 3e5497d..c86dee1 100644
--- a/libs/common/src/strip.rs
+++ b/libs/common/src/strip.rs
@@ -5,10 +5,7 @@ pub trait StripInsensitive {
 
 impl StripInsensitive for str {
     fn strip_prefix_insensitive(&self, prefix: &str) -> Option<&str> {
-        if self.len() < prefix.len() {
-            return None;
-        }
-        if self[..prefix.len()].eq_ignore_ascii_case(prefix) {
+        if self.get(..prefix.len())?.eq_ignore_ascii_case(prefix) {
             Some(&self[prefix.len()..])
         } else {
             None
-- 
2.43.0


From 774877686c411e82d623fa964501ef40cc6fe069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 04/57] fix: an expression with leftover operands has no value

---
 libs/common/src/math.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index c7a7389..cd4a496 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -94,7 +94,9 @@ fn evaluate_postfix(tokens: &[Token]) -> Option<f64> {
         }
     }
 
-    stack.pop()
+    let result = stack.pop()?;
+    // operands without an operator between them are not an expression
+    stack.is_empty().then_some(result)
 }
 
 #[derive(Debug, Copy, Clone, PartialEq)]
-- 
2.43.0


From f2e0b17773a43f1a6968fa3be6772f9223e30398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 05/57] fix: recomputed checksum of an archive without a
 properties header

---
 libs/pbo/src/read.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2090b8d..2b6edd4 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -177,22 +177,22 @@ impl<I: Seek + Read> ReadablePbo<I> {
         let mut headers: Cursor<Vec<u8>> = Cursor::new(Vec::new());
         if let Some(vers_header) = &self.vers_header {
             vers_header.write_pbo(&mut headers)?;
-        }
 
-        if let Some(prefix) = self.properties.get("prefix") {
-            headers.write_cstring(b"prefix")?;
-            headers.write_cstring(prefix)?;
-        }
+            if let Some(prefix) = self.properties.get("prefix") {
+                headers.write_cstring(b"prefix")?;
+                headers.write_cstring(prefix)?;
+            }
 
-        for (key, value) in &self.properties {
-            if key == "prefix" {
-                continue;
+            for (key, value) in &self.properties {
+                if key == "prefix" {
+                    continue;
+                }
+                headers.write_cstring(key.as_bytes())?;
+                headers.write_cstring(value.as_bytes())?;
             }
-            headers.write_cstring(key.as_bytes())?;
-            headers.write_cstring(value.as_bytes())?;
-        }
 
-        headers.write_all(&[0])?;
+            headers.write_all(&[0])?;
+        }
 
         for header in &self.files_sorted() {
             header.write_pbo(&mut headers)?;
-- 
2.43.0


From 4b323fc78385bc3c93fd22148074b27e3361adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 06/57] fix: start of the file contents in archives with
 properties that are not UTF-8

---
 libs/pbo/src/read.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2b6edd4..fd864a9 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -30,21 +30,17 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn from(mut input: I) -> Result<Self, Error> {
         let mut properties = IndexMap::new();
         let mut headers = Vec::new();
-        let mut blob_start = 0;
         let mut vers_header = None;
         loop {
-            let (header, size) = Header::read_pbo(&mut input)?;
-            blob_start += size as u64;
+            let (header, _) = Header::read_pbo(&mut input)?;
             if header.mime() == &Mime::Vers {
                 vers_header = Some(header);
                 loop {
                     let key = input.read_cstring()?;
-                    blob_start += key.len() as u64 + 1;
                     if key.is_empty() {
                         break;
                     }
                     let value = input.read_cstring()?;
-                    blob_start += value.len() as u64 + 1;
                     properties.insert(key, value);
                 }
             } else if header.filename().is_empty() {
@@ -54,6 +50,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
             }
         }
 
+        // names and properties that are not UTF-8 are shorter in memory than in the archive
+        let blob_start = input.stream_position()?;
+
         for header in &headers {
             input.seek(SeekFrom::Current(i64::from(header.size())))?;
         }
-- 
2.43.0


From 430de3a6a71c44cbcdfaaa7022f8fddf913c40ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 07/57] fix: find files whose stored name has forward slashes

---
 libs/pbo/src/read.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index fd864a9..36e84fa 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -22,6 +22,11 @@ pub struct ReadablePbo<I: Seek + Read> {
     blob_start: u64,
 }
 
+/// Names are looked up ignoring case and the kind of slash
+fn same_name(header: &Header, name: &str) -> bool {
+    header.filename().replace('/', "\\").to_lowercase() == name.replace('/', "\\").to_lowercase()
+}
+
 impl<I: Seek + Read> ReadablePbo<I> {
     /// Read a PBO from a file
     ///
@@ -112,7 +117,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file(&mut self, name: &str) -> Result<Option<File<I>>, Error> {
         self.input.seek(SeekFrom::Start(self.blob_start))?;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if same_name(header, name) {
                 return Ok(Some(File::new(header, &mut self.input)));
             }
             self.input
@@ -128,7 +133,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file_offset(&self, name: &str) -> Result<Option<u64>, Error> {
         let mut offset = self.blob_start;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if same_name(header, name) {
                 return Ok(Some(offset));
             }
             offset += header.size() as u64;
-- 
2.43.0


From f1a9de46b36f4ec412c79d2abdb005b3f371b964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 08/57] fix: verify signatures with the modulus and exponent of
 the given key

---
 libs/signing/src/public.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 1e62b17..abb041e 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -123,7 +123,14 @@ impl BIPublicKey {
         let (real_hash1, real_hash2, real_hash3) =
             generate_hashes(pbo, signature.version, self.length)?;
 
-        let (signed_hash1, signed_hash2, signed_hash3) = signature.signatures_modpow();
+        let (signed_hash1, signed_hash2, signed_hash3) = {
+            let (sig1, sig2, sig3) = signature.signatures();
+            (
+                sig1.modpow(&self.exponent, &self.n),
+                sig2.modpow(&self.exponent, &self.n),
+                sig3.modpow(&self.exponent, &self.n),
+            )
+        };
 
         if real_hash1 != signed_hash1 {
             let (s, r) = super::display_hashes(&signed_hash1, &real_hash1);
-- 
2.43.0


From 74b754f31b769e1598768efca9e2ee38aa5ec69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 09/57] fix: malformed public keys and signatures are errors,
 not panics

---
 libs/signing/src/lib.rs       | 7 ++++++-
 libs/signing/src/public.rs    | 9 ++++-----
 libs/signing/src/signature.rs | 9 ++++-----
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/libs/signing/src/lib.rs b/libs/signing/src/lib.rs
index c8cb967..17a43a1 100644
--- a/libs/signing/src/lib.rs
+++ b/libs/signing/src/lib.rs
@@ -55,12 +55,17 @@ fn display_hashes(a: &BigUint, b: &BigUint) -> (String, String) {
 /// Generate the hashes for a PBO
 ///
 /// # Errors
-/// If the PBO cannot be read
+/// If the PBO cannot be read, or the key is too short for a hash
 pub fn generate_hashes<I: Seek + Read>(
     pbo: &mut ReadablePbo<I>,
     version: BISignVersion,
     length: u32,
 ) -> Result<(BigUint, BigUint, BigUint), Error> {
+    // 36 bytes of hash and algorithm, and at least the two leading bytes of the padding
+    if length / 8 < 38 {
+        return Err(Error::InvalidLength);
+    }
+
     let mut hasher = Sha1::new();
     let hash1 = pbo.gen_checksum()?;
 
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index abb041e..a3866e7 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -73,10 +73,7 @@ impl BIPublicKey {
     /// Read a public key from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the public key is invalid
+    /// If the reader fails to read, or the public key is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -86,7 +83,9 @@ impl BIPublicKey {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index af52b13..0f2507a 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -107,10 +107,7 @@ impl BISign {
     /// Read a signature from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the signature is invalid
+    /// If the reader fails to read, or the signature is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -120,7 +117,9 @@ impl BISign {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
-- 
2.43.0


From 4336345ccb786e05c7b91336c211e1cbcbb6aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 10/57] fix: textures of unsupported formats are errors, not
 panics

---
 libs/paa/src/paa.rs |  9 +++++++--
 libs/paa/src/pax.rs | 17 +++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index e00241a..c30bfe6 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -89,8 +89,13 @@ impl Paa {
                     let seek = u32::from_le_bytes(seek);
                     if seek != 0 {
                         input.seek(SeekFrom::Start(u64::from(seek)))?;
-                        paa.maps
-                            .push(MipMap::from_stream(paa.format.clone().into(), &mut input)?);
+                        let format = paa.format.block_format().ok_or_else(|| {
+                            Error::new(
+                                std::io::ErrorKind::InvalidData,
+                                format!("unsupported paa format: {}", paa.format),
+                            )
+                        })?;
+                        paa.maps.push(MipMap::from_stream(format, &mut input)?);
                     }
                 }
             }
diff --git a/libs/paa/src/pax.rs b/libs/paa/src/pax.rs
index 3e60ad9..ffdae27 100644
--- a/libs/paa/src/pax.rs
+++ b/libs/paa/src/pax.rs
@@ -55,16 +55,21 @@ impl PaXType {
             Self::GRAYA => [128, 128],
         }
     }
+
+    /// The block compression of the mipmaps, if it is supported
+    pub(crate) const fn block_format(&self) -> Option<Format> {
+        match self {
+            Self::DXT1 => Some(Format::Bc1),
+            Self::DXT3 => Some(Format::Bc2),
+            Self::DXT5 => Some(Format::Bc3),
+            _ => None,
+        }
+    }
 }
 
 impl From<PaXType> for Format {
     fn from(pax: PaXType) -> Self {
-        match pax {
-            PaXType::DXT1 => Self::Bc1,
-            PaXType::DXT3 => Self::Bc2,
-            PaXType::DXT5 => Self::Bc3,
-            _ => unimplemented!(),
-        }
+        pax.block_format().unwrap_or_else(|| unimplemented!())
     }
 }
 
-- 
2.43.0


From 4e4e94a393a7831f0f07f587b3122383ca374f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 11/57] fix: an expression whose operands and operators do not
 alternate has no value

---
 libs/common/src/math.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index cd4a496..8ca9172 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -25,7 +25,15 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
 
     let tokens = tokenize(expression).ok()?;
 
+    // operands and operators have to alternate
+    let mut expects_operand = true;
+
     for token in tokens {
+        let starts_operand = matches!(token, Token::Number(_) | Token::LeftParenthesis);
+        if starts_operand != expects_operand {
+            return None;
+        }
+        expects_operand = matches!(token, Token::Operator(_) | Token::LeftParenthesis);
         match token {
             Token::Number(_) => output_queue.push(token),
             Token::Operator(op) => {
-- 
2.43.0


From af1754e87560896739fb4ee32adf21879ddae311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 12/57] fix: report write errors at the end of a P3D

---
 libs/p3d/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index d10547a..b9f2245 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -77,6 +77,8 @@ impl P3D {
             lod.write(&mut writer)?;
         }
 
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 742826a6ad957581f1af0d7f90d1794d6a6bdb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 13/57] fix: do not reserve memory for the counts a P3D claims

---
 libs/p3d/src/lib.rs |  3 ++-
 libs/p3d/src/lod.rs | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index b9f2245..844011a 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -49,7 +49,8 @@ impl P3D {
 
         let version = reader.read_u32::<LittleEndian>()?;
         let num_lods = reader.read_u32::<LittleEndian>()?;
-        let mut lods: Vec<LOD> = Vec::with_capacity(num_lods as usize);
+        // the counts are not trusted for reserving memory
+        let mut lods: Vec<LOD> = Vec::new();
 
         for _i in 0..num_lods {
             lods.push(LOD::read(&mut reader)?);
diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 4724aa6..7f3b3d0 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -40,9 +40,10 @@ impl LOD {
 
         input.bytes().nth(3);
 
-        let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
-        let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
-        let mut faces: Vec<Face> = Vec::with_capacity(num_faces as usize);
+        // the counts are not trusted for reserving memory
+        let mut points: Vec<Point> = Vec::new();
+        let mut face_normals: Vec<(f32, f32, f32)> = Vec::new();
+        let mut faces: Vec<Face> = Vec::new();
 
         for _i in 0..num_points {
             points.push(Point::read(input)?);
@@ -74,8 +75,12 @@ impl LOD {
 
             let name = input.read_cstring()?;
             let size = input.read_u32::<LittleEndian>()?;
-            let mut buffer = vec![0; size as usize].into_boxed_slice();
-            input.read_exact(&mut buffer)?;
+            let mut buffer = Vec::new();
+            input.take(u64::from(size)).read_to_end(&mut buffer)?;
+            if buffer.len() != size as usize {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+            let buffer = buffer.into_boxed_slice();
 
             if name == "#EndOfFile#" {
                 break;
-- 
2.43.0


From c933685b6ac64254c95c55724f5ce69e3cecc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 14/57] fix: report stray and repeated #else, incomplete
 directives and calls instead of panicking

---
 .../src/codes/pe16_if_incompatible_types.rs   | 28 +++-------
 libs/preprocessor/src/ifstate.rs              | 53 ++++++++-----------
 libs/preprocessor/src/processor/defines.rs    | 15 ++----
 libs/preprocessor/src/processor/directives.rs | 38 +++++++------
 libs/preprocessor/src/processor/mod.rs        | 28 +++++-----
 5 files changed, 68 insertions(+), 94 deletions(-)

diff --git a/libs/preprocessor/src/codes/pe16_if_incompatible_types.rs b/libs/preprocessor/src/codes/pe16_if_incompatible_types.rs
index 68dd5e6..cb56d9c 100644
--- a/libs/preprocessor/src/codes/pe16_if_incompatible_types.rs
+++ b/libs/preprocessor/src/codes/pe16_if_incompatible_types.rs
@@ -51,17 +51,9 @@ impl Code for IfIncompatibleType {
             )
             .with_message(self.label_message()),
         );
-        if self.left.1 {
-            let left_first = self
-                .left
-                .0
-                .first()
-                .expect("left side should have a first token");
-            let left_last = self
-                .left
-                .0
-                .last()
-                .expect("left side should have a last token");
+        if let (true, Some(left_first), Some(left_last)) =
+            (self.left.1, self.left.0.first(), self.left.0.last())
+        {
             diag = diag.with_label(
                 Label::secondary(
                     left_first.position().path().clone(),
@@ -77,17 +69,9 @@ impl Code for IfIncompatibleType {
                 ),
             );
         }
-        if self.right.1 {
-            let right_first = self
-                .right
-                .0
-                .first()
-                .expect("right side should have a first token");
-            let right_last = self
-                .right
-                .0
-                .last()
-                .expect("right side should have a last token");
+        if let (true, Some(right_first), Some(right_last)) =
+            (self.right.1, self.right.0.first(), self.right.0.last())
+        {
             diag = diag.with_label(
                 Label::secondary(
                     right_first.position().path().clone(),
diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index de0412c..37d45a8 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -2,7 +2,10 @@ use std::sync::Arc;
 
 use hemtt_workspace::reporting::Token;
 
-use crate::{codes::pe17_double_else::DoubleElse, Error};
+use crate::{
+    codes::{pe17_double_else::DoubleElse, pe1_unexpected_token::UnexpectedToken},
+    Error,
+};
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum IfState {
@@ -34,22 +37,20 @@ impl IfState {
 
 #[derive(Clone, Default, Debug, Eq, PartialEq)]
 pub struct IfStates {
-    stack: Vec<IfState>,
-    did_else: Option<Arc<Token>>,
+    /// The state, and the `#else` of the same level if it was already seen
+    stack: Vec<(IfState, Option<Arc<Token>>)>,
 }
 
 impl IfStates {
     pub fn reading(&self) -> bool {
-        self.stack.is_empty() || self.stack.iter().all(IfState::reading)
+        self.stack.iter().all(|(s, _)| s.reading())
     }
 
     pub fn push(&mut self, s: IfState) {
-        self.did_else = None;
-        self.stack.push(s);
+        self.stack.push((s, None));
     }
 
     pub fn push_if(&mut self, token: Arc<Token>, state: bool) {
-        self.did_else = None;
         if state {
             self.push(IfState::ReadingIf(token));
         } else {
@@ -58,39 +59,29 @@ impl IfStates {
     }
 
     pub fn pop(&mut self) -> Option<IfState> {
-        self.did_else = None;
-        self.stack.pop()
+        self.stack.pop().map(|(s, _)| s)
     }
 
     pub fn flip(&mut self, token: Arc<Token>) -> Result<(), Error> {
-        if let Some(previous) = self.did_else.take() {
+        let Some((state, did_else)) = self.stack.last_mut() else {
+            return Err(UnexpectedToken::code(
+                token.as_ref().clone(),
+                vec!["#if".to_string()],
+            ));
+        };
+        if let Some(previous) = did_else {
             return Err(DoubleElse::code(
                 token.as_ref().clone(),
                 previous.as_ref().clone(),
-                self.stack
-                    .last()
-                    .expect("did_else should only be Some if there is a last element in the stack")
-                    .token()
-                    .as_ref()
-                    .clone(),
+                state.token().as_ref().clone(),
             ));
         }
-        if self
-            .stack
-            .iter()
-            .take(self.stack.len() - 1)
-            .all(IfState::reading)
-        {
-            if let Some(new) = match self.pop() {
-                Some(IfState::PassingChild(t)) => Some(IfState::PassingChild(t)),
-                Some(IfState::PassingIf(t)) => Some(IfState::ReadingElse(t)),
-                Some(IfState::ReadingIf(t)) => Some(IfState::PassingElse(t)),
-                Some(IfState::PassingElse(_) | IfState::ReadingElse(_)) | None => None,
-            } {
-                self.push(new);
-            }
+        *did_else = Some(token);
+        match state {
+            IfState::PassingIf(t) => *state = IfState::ReadingElse(t.clone()),
+            IfState::ReadingIf(t) => *state = IfState::PassingElse(t.clone()),
+            IfState::PassingChild(_) | IfState::PassingElse(_) | IfState::ReadingElse(_) => {}
         }
-        self.did_else = Some(token);
         Ok(())
     }
 }
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 7c49671..59e7702 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -35,12 +35,7 @@ impl Processor {
         pragma: &mut Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<Option<Vec<Vec<Arc<Token>>>>, Error> {
-        if !stream
-            .peek()
-            .expect("peeked by caller")
-            .symbol()
-            .is_left_paren()
-        {
+        if !stream.peek().is_some_and(|t| t.symbol().is_left_paren()) {
             return Ok(None);
         }
         stream.next().expect("peeked above");
@@ -200,7 +195,7 @@ impl Processor {
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<(), Error> {
-        let ident = Self::current_word(stream)?;
+        let ident = Self::current_word(callsite, stream)?;
         let ident_string = ident.to_string();
         let Some((source, body, define_source)) = self.defines.get_with_gen(&ident, Some(callsite))
         else {
@@ -301,11 +296,7 @@ impl Processor {
                 return Err(ExpectedFunctionOrValue::code(
                     ident.as_ref().clone(),
                     source.as_ref().clone(),
-                    stream
-                        .peek()
-                        .expect("peeked by caller")
-                        .symbol()
-                        .is_left_paren(),
+                    stream.peek().is_some_and(|t| t.symbol().is_left_paren()),
                 ));
             }
         };
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 59c0997..1299eff 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -63,15 +63,15 @@ impl Processor {
         let command_word = command.symbol().to_string();
         match (command_word.as_str(), self.ifstates.reading()) {
             ("include", true) => {
-                self.directive_include(pragma, stream, buffer)?;
+                self.directive_include(pragma, &command, stream, buffer)?;
                 Ok(())
             }
             ("define", true) => {
-                self.directive_define(stream)?;
+                self.directive_define(&command, stream)?;
                 Ok(())
             }
             ("undef", true) => {
-                self.directive_undef(stream)?;
+                self.directive_undef(&command, stream)?;
                 Ok(())
             }
             ("if", true) => {
@@ -96,11 +96,11 @@ impl Processor {
                 Ok(())
             }
             ("pragma", true) => {
-                if self.next_word(stream, None)?.to_string() != "hemtt" {
+                if self.next_word(command.position(), stream, None)?.to_string() != "hemtt" {
                     self.skip_to_after_newline(stream, None);
                     return Ok(());
                 }
-                let command = self.next_word(stream, None)?;
+                let command = self.next_word(command.position(), stream, None)?;
                 match command.to_string().as_str() {
                     "suppress" => {
                         let (code, scope) = self.read_pragma(&command, pragma, stream)?;
@@ -128,9 +128,9 @@ impl Processor {
         pragma: &Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(Arc<Token>, Scope), Error> {
-        let code = self.next_word(stream, None)?;
+        let code = self.next_word(command.position(), stream, None)?;
         let mut hit_end = false;
-        let scope_token = self.next_word(stream, None).unwrap_or_else(|_| {
+        let scope_token = self.next_word(command.position(), stream, None).unwrap_or_else(|_| {
             hit_end = true;
             Arc::new(Token::new(
                 Symbol::Word("line".to_string()),
@@ -153,11 +153,14 @@ impl Processor {
     pub(crate) fn directive_include(
         &mut self,
         pragma: &mut Pragma,
+        command: &Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<(), Error> {
         self.skip_whitespace(stream, None);
-        let open = stream.next().expect("was peeked in directive()");
+        let Some(open) = stream.next() else {
+            return Err(UnexpectedEOF::code(command.as_ref().clone()));
+        };
         if !open.symbol().is_include_enclosure() {
             return Err(IncludeNotEncased::code(
                 open.as_ref().clone(),
@@ -235,9 +238,10 @@ impl Processor {
 
     pub(crate) fn directive_define(
         &mut self,
+        command: &Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(command.position(), stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
@@ -306,9 +310,10 @@ impl Processor {
 
     pub(crate) fn directive_undef(
         &mut self,
+        command: &Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(command.position(), stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
@@ -333,7 +338,10 @@ impl Processor {
                     .peek()
                     .expect("peeked in the if statement, so there should be a token")
                     .clone();
-                if token.symbol().is_whitespace() || token.symbol().is_newline() {
+                if token.symbol().is_whitespace()
+                    || token.symbol().is_newline()
+                    || token.symbol().is_eoi()
+                {
                     break;
                 }
                 tokens.push(token);
@@ -416,11 +424,7 @@ impl Processor {
             let right = read_value(stream);
             if right.is_empty() {
                 return Err(UnexpectedEOF::code(
-                    operators
-                        .last()
-                        .expect("right should exists at this point")
-                        .as_ref()
-                        .clone(),
+                    operators.last().unwrap_or(&command).as_ref().clone(),
                 ));
             }
             if right.len() == 1 {
@@ -490,7 +494,7 @@ impl Processor {
         outcome: bool,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(command.position(), stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index f92c8f6..259bc41 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -243,22 +243,25 @@ impl Processor {
     /// Returns the current word, consuming it from the stream
     ///
     /// # Errors
-    /// - [`UnexpectedEOF`]: If the stream is at the end of the file
+    /// - [`UnexpectedEOF`]: If the stream is at the end of the file, or of a macro body, in which
+    ///   case `after` is reported
     /// - [`ExpectedIdent`]: If the stream is not at a word
     fn current_word(
+        after: &Position,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<Arc<Token>, Error> {
-        if let Some(token) = stream.peek() {
-            if token.symbol().is_word() {
-                return Ok(stream.next().expect("just checked"));
-            }
-            if token.symbol().is_eoi() {
-                return Err(UnexpectedEOF::code(token.as_ref().clone()));
-            }
+        let Some(token) = stream.peek() else {
+            return Err(UnexpectedEOF::code(Token::new(Symbol::Eoi, after.clone())));
+        };
+        if token.symbol().is_eoi() {
+            return Err(UnexpectedEOF::code(token.as_ref().clone()));
+        }
+        let token = stream.next().expect("just checked");
+        if token.symbol().is_word() {
+            Ok(token)
+        } else {
+            Err(ExpectedIdent::code(token.as_ref().clone()))
         }
-        Err(ExpectedIdent::code(
-            stream.next().expect("just checked").as_ref().clone(),
-        ))
     }
 
     /// Skips whitespace, returning the next word and consuming it from the stream
@@ -268,11 +271,12 @@ impl Processor {
     /// - [`ExpectedIdent`]: If the stream is not at a word
     fn next_word(
         &mut self,
+        after: &Position,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: Option<&mut Vec<Output>>,
     ) -> Result<Arc<Token>, Error> {
         self.skip_whitespace(stream, buffer);
-        Self::current_word(stream)
+        Self::current_word(after, stream)
     }
 
     // I might want this later, so for now I am leaving it here
-- 
2.43.0


From 1e18bcd46312f5ff9a13177e174aedcf514ab17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 15/57] fix: do not expand a macro within its own expansion,
 mutually recursive macros overflowed the stack

---
 libs/preprocessor/src/processor/defines.rs | 11 +++++++++++
 libs/preprocessor/src/processor/mod.rs     |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 59e7702..fbc6cac 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -202,6 +202,13 @@ impl Processor {
             buffer.push(Output::Direct(ident));
             return Ok(());
         };
+        if matches!(define_source, DefineSource::Source(_))
+            && self.expanding.contains(&ident_string)
+        {
+            // prevent infinite recursion
+            buffer.push(Output::Direct(ident));
+            return Ok(());
+        }
         match body {
             Definition::Function(function) => {
                 let Some(args) = self.call_read_args(callsite, pragma, stream)? else {
@@ -258,6 +265,7 @@ impl Processor {
                     );
                 }
                 self.defines.push(&ident_string, arg_defines);
+                self.expanding.push(ident_string.clone());
                 let mut layer = Vec::new();
                 self.walk(
                     Some(callsite),
@@ -267,6 +275,7 @@ impl Processor {
                     &mut layer,
                 )?;
                 buffer.push(Output::Macro(ident.clone(), layer));
+                self.expanding.pop();
                 self.defines.pop();
             }
             #[allow(clippy::needless_collect)] // causes recursion at runtime otherwise
@@ -280,6 +289,7 @@ impl Processor {
                 } else {
                     let mut layer = Vec::new();
                     let body: Vec<_> = body.into_iter().filter(|t| !t.symbol().is_join()).collect();
+                    self.expanding.push(ident_string.clone());
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
@@ -287,6 +297,7 @@ impl Processor {
                         &mut body.into_iter().peekmore(),
                         &mut layer,
                     )?;
+                    self.expanding.pop();
                     buffer.push(Output::Macro(ident.clone(), layer));
                 }
             }
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 259bc41..00dfa0b 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -38,6 +38,9 @@ pub struct Processor {
 
     macros: HashMap<String, Vec<Position>>,
 
+    /// Macros that are being expanded, they are not expanded again within themselves
+    expanding: Vec<String>,
+
     #[cfg(feature = "lsp")]
     /// Map of token usage to definition
     /// (token, definition)
-- 
2.43.0


From 74adc33b8dd969a5717f34530049ea8843746089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 16/57] fix: give every preprocessor error a diagnostic and do
 not panic while making it

---
 .../src/codes/pe13_include_not_encased.rs     |  2 +-
 .../src/codes/pe7_if_unit_or_function.rs      | 38 +++++++-------
 .../codes/pe9_function_call_argument_count.rs | 51 ++++++++-----------
 libs/preprocessor/src/codes/pw1_redefine.rs   |  4 +-
 4 files changed, 42 insertions(+), 53 deletions(-)

diff --git a/libs/preprocessor/src/codes/pe13_include_not_encased.rs b/libs/preprocessor/src/codes/pe13_include_not_encased.rs
index 01e6b6c..88cb9e4 100644
--- a/libs/preprocessor/src/codes/pe13_include_not_encased.rs
+++ b/libs/preprocessor/src/codes/pe13_include_not_encased.rs
@@ -55,7 +55,7 @@ impl Code for IncludeNotEncased {
     }
 
     fn diagnostic(&self) -> Option<Diagnostic> {
-        let start = self.start.as_ref()?;
+        let start = self.start.as_ref().unwrap_or(&self.token);
         let end = self.token.as_ref();
         let mut diag = Diagnostic::new(self.ident(), self.message()).with_label(
             Label::primary(
diff --git a/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs b/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs
index f258f6a..5f9dc9c 100644
--- a/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs
+++ b/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs
@@ -10,8 +10,8 @@ pub struct IfUnitOrFunction {
     token: Box<Token>,
     /// Similar defines
     similar: Vec<String>,
-    /// defined
-    defined: (Token, bool),
+    /// defined, and if it is a unit, unless it is built-in
+    defined: Option<(Token, bool)>,
 }
 
 impl Code for IfUnitOrFunction {
@@ -30,7 +30,11 @@ impl Code for IfUnitOrFunction {
     fn label_message(&self) -> String {
         format!(
             "attempted to use `#if` on {} macro `{}`",
-            if self.defined.1 { "unit" } else { "function" },
+            match self.defined {
+                Some((_, true)) => "unit",
+                Some((_, false)) => "function",
+                None => "built-in",
+            },
             self.token.symbol().to_string().replace('\n', "\\n")
         )
     }
@@ -59,15 +63,15 @@ impl Code for IfUnitOrFunction {
     }
 
     fn expand_diagnostic(&self, diag: Diagnostic) -> Diagnostic {
+        let Some((defined, unit)) = &self.defined else {
+            return diag;
+        };
         diag.with_label(
-            Label::secondary(
-                self.defined.0.position().path().clone(),
-                self.defined.0.position().span(),
-            )
-            .with_message(format!(
-                "defined as a {} here",
-                if self.defined.1 { "unit" } else { "function" }
-            )),
+            Label::secondary(defined.position().path().clone(), defined.position().span())
+                .with_message(format!(
+                    "defined as a {} here",
+                    if *unit { "unit" } else { "function" }
+                )),
         )
     }
 }
@@ -75,9 +79,6 @@ impl Code for IfUnitOrFunction {
 impl IfUnitOrFunction {
     #[must_use]
     /// Create a new instance of `IfUnitOrFunction`
-    /// 
-    /// # Panics
-    /// Panics if the token does not define anything in the defines
     pub fn new(token: Box<Token>, defines: &Defines) -> Self {
         Self {
             similar: defines
@@ -85,12 +86,9 @@ impl IfUnitOrFunction {
                 .iter()
                 .map(std::string::ToString::to_string)
                 .collect(),
-            defined: {
-                let (t, d, _) = defines
-                    .get_readonly(token.symbol().to_string().trim())
-                    .expect("define should exist on error about its type");
-                (t.as_ref().clone(), d.is_unit())
-            },
+            defined: defines
+                .get_readonly(token.symbol().to_string().trim())
+                .map(|(t, d, _)| (t.as_ref().clone(), d.is_unit())),
             token,
         }
     }
diff --git a/libs/preprocessor/src/codes/pe9_function_call_argument_count.rs b/libs/preprocessor/src/codes/pe9_function_call_argument_count.rs
index 2844346..af09ad0 100644
--- a/libs/preprocessor/src/codes/pe9_function_call_argument_count.rs
+++ b/libs/preprocessor/src/codes/pe9_function_call_argument_count.rs
@@ -15,8 +15,8 @@ pub struct FunctionCallArgumentCount {
     got: usize,
     /// Similar defines
     similar: Vec<String>,
-    /// defined
-    defined: (Token, Vec<Token>),
+    /// defined, unless the definition is gone
+    defined: Option<(Token, Vec<Token>)>,
 }
 
 impl Code for FunctionCallArgumentCount {
@@ -56,26 +56,23 @@ impl Code for FunctionCallArgumentCount {
     }
 
     fn expand_diagnostic(&self, diag: Diagnostic) -> Diagnostic {
+        let Some((defined, args)) = &self.defined else {
+            return diag;
+        };
         diag.with_label(
-            Label::secondary(
-                self.token.position().path().clone(),
-                self.defined.0.position().span(),
-            )
-            .with_message(format!(
-                "defined with {} argument{}",
-                self.defined.1.len(),
-                if self.defined.1.len() == 1 { "" } else { "s" }
-            )),
+            Label::secondary(defined.position().path().clone(), defined.position().span())
+                .with_message(format!(
+                    "defined with {} argument{}",
+                    args.len(),
+                    if args.len() == 1 { "" } else { "s" }
+                )),
         )
     }
 }
 
 impl FunctionCallArgumentCount {
     #[must_use]
-    /// Create a new instance of `IfUnitOrFunction`
-    /// 
-    /// # Panics
-    /// Panics if the token does not define anything in the defines
+    /// Create a new instance of `FunctionCallArgumentCount`
     pub fn new(token: Box<Token>, expected: usize, got: usize, defines: &Defines) -> Self {
         Self {
             expected,
@@ -85,21 +82,15 @@ impl FunctionCallArgumentCount {
                 .iter()
                 .map(std::string::ToString::to_string)
                 .collect(),
-            defined: {
-                let (t, d, _) = defines
-                    .get_readonly(token.symbol().to_string().trim())
-                    .expect("define should exist on error about its type");
-                (
-                    t.as_ref().clone(),
-                    d.as_function()
-                        .expect("define should be a function in an error about it being called")
-                        .clone()
-                        .args()
-                        .iter()
-                        .map(|a| a.as_ref().clone())
-                        .collect(),
-                )
-            },
+            defined: defines
+                .get_readonly(token.symbol().to_string().trim())
+                .and_then(|(t, d, _)| {
+                    let args = d.as_function()?.args();
+                    Some((
+                        t.as_ref().clone(),
+                        args.iter().map(|a| a.as_ref().clone()).collect(),
+                    ))
+                }),
             token,
         }
     }
diff --git a/libs/preprocessor/src/codes/pw1_redefine.rs b/libs/preprocessor/src/codes/pw1_redefine.rs
index 0509492..1c4e34a 100644
--- a/libs/preprocessor/src/codes/pw1_redefine.rs
+++ b/libs/preprocessor/src/codes/pw1_redefine.rs
@@ -45,8 +45,8 @@ impl Code for RedefineMacro {
         let last_original = original.last().unwrap_or(&"");
         let first_token = token.first().unwrap_or(&"");
         let last_token = token.last().unwrap_or(&"");
-        let original = original.iter().skip(1).take(original.len() - 2).collect::<Vec<_>>();
-        let token = token.iter().skip(1).take(token.len() - 2).collect::<Vec<_>>();
+        let original = original.iter().skip(1).take(original.len().saturating_sub(2)).collect::<Vec<_>>();
+        let token = token.iter().skip(1).take(token.len().saturating_sub(2)).collect::<Vec<_>>();
         let original = original.iter().map(|s| format!("\n ├── {s}")).collect::<Vec<_>>().join("\n");
         let token = token.iter().map(|s| format!("\n ├── {s}")).collect::<Vec<_>>().join("\n");
         Some(format!(
-- 
2.43.0


From cec7c76a8d6ec3386977715dfc0f6df38aa0c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 17/57] fix: a /* in a line comment or a string does not start
 a comment

---
 libs/preprocessor/src/parse/config.pest |   1 -
 libs/preprocessor/src/parse/mod.rs      | 127 ++++++++++++------------
 2 files changed, 65 insertions(+), 63 deletions(-)

diff --git a/libs/preprocessor/src/parse/config.pest b/libs/preprocessor/src/parse/config.pest
index d3ae648..ef5f28c 100644
--- a/libs/preprocessor/src/parse/config.pest
+++ b/libs/preprocessor/src/parse/config.pest
@@ -27,4 +27,3 @@ space = { " " }
 tab = { "\t" }
 
 WHITESPACE = ${ space | tab }
-COMMENT = { ("/*" ~ (!"*/" ~ ANY)* ~ "*/") | "//" }
diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index ba8a21e..14d042e 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::{ops::Range, sync::Arc};
 
 use hemtt_workspace::{
     position::{LineCol, Position},
@@ -25,85 +25,89 @@ pub struct PreprocessorParser;
 /// If the file is invalid
 pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     let source = path.read_to_string()?;
-    let pairs = PreprocessorParser::parse(Rule::file, &source)
+    let (masked, comments) = mask_comments(&source);
+    let mut comments = comments.into_iter().peekable();
+    let pairs = PreprocessorParser::parse(Rule::file, &masked)
         .map_err(|e| ParsingFailed::code(e, path.clone()))?;
     let mut tokens = Vec::new();
     let mut line = 1;
     let mut col = 0;
     let mut offset = 0;
-    let mut in_single_string = false;
-    let mut in_double_string = false;
-    let mut skipping_comment = false;
     for pair in pairs {
+        if pair.as_span().start() < offset {
+            // within a comment
+            continue;
+        }
         let start = LineCol(offset, (line, col));
-        match pair.as_rule() {
-            Rule::newline => {
-                if skipping_comment {
-                    skipping_comment = false;
-                }
+        let comment = comments.next_if(|c| c.start == offset);
+        let symbol = if let Some(range) = comment {
+            let text = &source[range.clone()];
+            offset = range.end;
+            line += text.matches('\n').count();
+            col = text
+                .rfind('\n')
+                .map_or(col + text.len(), |newline| text.len() - newline - 1);
+            if text.starts_with("//") {
+                continue;
+            }
+            Symbol::Comment(text.to_string())
+        } else {
+            offset += pair.as_str().len();
+            if pair.as_rule() == Rule::newline {
                 line += 1;
                 col = 0;
-            }
-            Rule::COMMENT => {
-                if in_single_string || in_double_string {
-                    if !skipping_comment {
-                        tokens.push(Arc::new(Token::new(
-                            Symbol::Word(pair.as_str().to_string()),
-                            Position::new(
-                                start,
-                                LineCol(start.0 + 2, (start.1 .0 + 2, start.1 .1 + 2)),
-                                path.clone(),
-                            ),
-                        )));
-                    }
-                } else {
-                    let lines = pair.as_str().split('\n').collect::<Vec<_>>();
-                    let count = lines.len() - 1;
-                    line += count;
-                    if count > 0 {
-                        col = lines
-                            .last()
-                            .expect("exists because count is greater than 0")
-                            .len()
-                            + 1;
-                    } else {
-                        col = 0;
-                    }
-                    if pair.as_str() == "//" {
-                        // skip to end of line
-                        skipping_comment = true;
-                    }
-                }
-            }
-            Rule::single_quote => {
-                if !skipping_comment && !in_double_string {
-                    in_single_string = !in_single_string;
-                    col += 1;
-                }
-            }
-            Rule::double_quote => {
-                if !skipping_comment && !in_single_string {
-                    in_double_string = !in_double_string;
-                    col += 1;
-                }
-            }
-            _ => {
+            } else {
                 col += pair.as_str().len();
             }
-        }
-        offset += pair.as_str().len();
-        if skipping_comment {
-            continue;
-        }
+            Symbol::to_symbol(pair)
+        };
         let end = LineCol(offset, (line, col));
         tokens.push(Arc::new(Token::new(
-            Symbol::to_symbol(pair),
+            symbol,
             Position::new(start, end, path.clone()),
         )));
     }
     Ok(tokens)
 }
 
+/// Replaces the comments with spaces, and finds where they are
+///
+/// Within a string there are no comments, and within a comment there are no strings
+fn mask_comments(source: &str) -> (String, Vec<Range<usize>>) {
+    let mut masked = String::with_capacity(source.len());
+    let mut comments = Vec::new();
+    let mut string = None;
+    let mut offset = 0;
+    while let Some(c) = source[offset..].chars().next() {
+        let rest = &source[offset..];
+        let comment = if string.is_some() {
+            None
+        } else if rest.starts_with("//") {
+            Some(rest.find(['\r', '\n']).unwrap_or(rest.len()))
+        } else if rest.starts_with("/*") {
+            rest[2..].find("*/").map(|end| end + 4)
+        } else {
+            None
+        };
+        if let Some(len) = comment {
+            comments.push(offset..offset + len);
+            masked.extend(std::iter::repeat(' ').take(len));
+            offset += len;
+            continue;
+        }
+        if c == '"' || c == '\'' {
+            if string.is_none() {
+                string = Some(c);
+            } else if string == Some(c) {
+                string = None;
+            }
+        }
+        masked.push(c);
+        offset += c.len_utf8();
+    }
+    (masked, comments)
+}
+
 trait Parse {
     fn to_symbol(pair: pest::iterators::Pair<Rule>) -> Self;
 }
@@ -145,7 +149,6 @@ impl Parse for Symbol {
             Rule::WHITESPACE => {
                 Self::to_symbol(pair.into_inner().next().expect("inner token should exist"))
             }
-            Rule::COMMENT => Self::Comment(pair.as_str().to_string()),
             Rule::EOI | Rule::file => Self::Eoi,
         }
     }
-- 
2.43.0


From f216bbfdbf8a60385a6d5d13e4512ec78585a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 18/57] fix: an expression may start with a negative number

---
 libs/common/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index 8ca9172..7c4a776 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -144,7 +144,7 @@ fn tokenize(expression: &str) -> Result<Vec<Token>, String> {
                     '-' => {
                         if matches!(
                             tokens.last(),
-                            Some(Token::Operator(_) | Token::LeftParenthesis)
+                            None | Some(Token::Operator(_) | Token::LeftParenthesis)
                         ) {
                             current_number.push(c);
                         } else {
-- 
2.43.0


From bc95830f463f60bda420465d944f524a613b05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 19/57] fix: keep a backslash at the end of a string that is
 followed by \n

---
 libs/config/src/parse/str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/config/src/parse/str.rs b/libs/config/src/parse/str.rs
index 349e70b..c49763a 100644
--- a/libs/config/src/parse/str.rs
+++ b/libs/config/src/parse/str.rs
@@ -16,9 +16,9 @@ pub fn string(delimiter: char) -> impl Parser<char, Str, Error = Simple<char>> {
         .map(|(segments, span)| Str {
             value: segments
                 .into_iter()
+                .map(|s| s.replace("\\\n", ""))
                 .collect::<Vec<_>>()
-                .join("\n")
-                .replace("\\\n", ""),
+                .join("\n"),
             span,
         })
 }
-- 
2.43.0


From c6ae36314a06f7db0174aaf2701d6d8d071bde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 20/57] fix: adjacent numbers in a config are not one number

---
 libs/config/src/parse/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 3772809..00adef2 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -29,8 +29,8 @@ pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     ))
     .repeated()
     .at_least(2)
-    .collect::<String>()
-    .map(|s| s.trim().to_string())
+    // adjacent numbers are not one number
+    .map(|s| s.join(" ").trim().to_string())
     .try_map(|expr, span: Range<usize>| {
         let number = Number::try_evaulation(&expr, span.clone());
         number.map_or_else(
-- 
2.43.0


From 571749e7ce81e8578c7e4c01c1d8ad8ce9118429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 21/57] fix: whole numbers that do not fit 64 bits stay floats

---
 libs/config/src/model/number.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index d7beec7..4b30d92 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -39,10 +39,12 @@ impl Number {
                     span,
                 });
             }
-            return Some(Self::Int64 {
-                value: value as i64,
-                span,
-            });
+            if value >= i64::MIN as f64 && value < i64::MAX as f64 {
+                return Some(Self::Int64 {
+                    value: value as i64,
+                    span,
+                });
+            }
         }
         Some(Self::Float32 {
             value: value as f32,
-- 
2.43.0


From d475fc02c5e1856c7b9e96c6eccfd9c10ab66334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 22/57] fix: __EVAL without brackets is an invalid value, not a
 panic

---
 libs/config/src/parse/value.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 00adef2..8ba5a74 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -57,13 +57,14 @@ pub fn eval() -> impl Parser<char, Expression, Error = Simple<char>> {
                     .at_least(1)
                     .collect::<String>())
         }))
-        .map_with_span(|expr, span| Expression {
-            value: expr
-                .strip_prefix('(')
+        .try_map(|expr, span: Range<usize>| {
+            expr.strip_prefix('(')
                 .and_then(|s| s.strip_suffix(')'))
-                .expect("eval should be wrapped in brackets")
-                .to_string(),
-            span,
+                .map(|s| Expression {
+                    value: s.to_string(),
+                    span: span.clone(),
+                })
+                .ok_or_else(|| Simple::custom(span, "eval should be wrapped in brackets"))
         })
 }
 
-- 
2.43.0


From 6a8332f437bdd06ae7a37897d1f4d0bb6e79a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 23/57] fix: places in diagnostics of configs with non-ASCII
 text and across files

---
 .../workspace/src/reporting/diagnostic/mod.rs | 20 +++----------
 libs/workspace/src/reporting/processed.rs     | 28 +++++++++++++++++++
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 1c6088e..7d899a5 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -60,26 +60,14 @@ impl Diagnostic {
 
     pub fn from_code_processed(
         code: &impl Code,
-        mut span: std::ops::Range<usize>,
+        span: std::ops::Range<usize>,
         processed: &crate::reporting::Processed,
     ) -> Option<Self> {
         let mut diag = Self::new(code.ident(), code.message()).set_severity(code.severity());
 
-        // Error out out bounds, will never show, just use last char
-        if span.start == processed.as_str().len() {
-            span.start = processed.as_str().len() - 1;
-            span.end = processed.as_str().len() - 1;
-        }
-        let map_start = processed.mapping(span.start)?;
-        let map_end = processed.mapping(span.end)?;
-        let map_file = processed.source(map_start.source())?;
-        diag.labels.push(
-            Label::primary(
-                map_file.0.clone(),
-                map_start.original_start()..map_end.original_start(),
-            )
-            .with_message(code.label_message()),
-        );
+        let (file, span) = processed.original_span(&span)?;
+        diag.labels
+            .push(Label::primary(file.clone(), span).with_message(code.label_message()));
         diag.link = code.link().map(std::string::ToString::to_string);
         if let Some(note) = code.note() {
             diag.notes.push(note);
diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 35f2c89..01654fe 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -258,6 +258,34 @@ impl Processed {
         self.mappings(offset).last().copied()
     }
 
+    #[must_use]
+    /// Get the file, and the range in it, that a span of the stringified output comes from
+    pub fn original_span(&self, span: &Range<usize>) -> Option<(&WorkspacePath, Range<usize>)> {
+        let total = self.output.chars().count();
+        // past the end, use the last char
+        let (start, end) = if span.start >= total {
+            (total.saturating_sub(1), total.saturating_sub(1))
+        } else {
+            (span.start, span.end)
+        };
+        let first = self.mapping(start)?;
+        let (path, _) = self.source(first.source())?;
+        let original_end = self
+            .mapping(end)
+            .filter(|m| m.source() == first.source() && m.original_start() > first.original_start())
+            .map_or_else(
+                || {
+                    if end > start {
+                        first.original_end()
+                    } else {
+                        first.original_start()
+                    }
+                },
+                Mapping::original_start,
+            );
+        Some((path, first.original_start()..original_end))
+    }
+
     #[must_use]
     /// Get the macros defined
     pub const fn macros(&self) -> &HashMap<String, Vec<Position>> {
-- 
2.43.0


From cb35e2ace4e63f768fb7fcca8b45920bba51b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 24/57] fix: config lints show their places in the source,
 expected_array panicked after comments and macros

---
 .../analyze/lints/c02_duplicate_property.rs   | 16 ++++--------
 .../analyze/lints/c03_duplicate_classes.rs    | 19 +++++---------
 .../analyze/lints/c05_external_parent_case.rs | 26 ++++---------------
 .../src/analyze/lints/c06_unexpected_array.rs | 26 ++++---------------
 .../src/analyze/lints/c07_expected_array.rs   | 24 +++++++----------
 5 files changed, 30 insertions(+), 81 deletions(-)

diff --git a/libs/config/src/analyze/lints/c02_duplicate_property.rs b/libs/config/src/analyze/lints/c02_duplicate_property.rs
index dc18213..70d8c04 100644
--- a/libs/config/src/analyze/lints/c02_duplicate_property.rs
+++ b/libs/config/src/analyze/lints/c02_duplicate_property.rs
@@ -169,17 +169,11 @@ impl CodeC02DuplicateProperty {
         );
         if let Some(diag) = &mut self.diagnostic {
             for conflict in self.conflicts.iter().rev().skip(1) {
-                let map = processed
-                    .mapping(conflict.span.start)
-                    .expect("mapping should exist");
-                let file = processed.source(map.source()).expect("source should exist");
-                diag.labels.push(
-                    Label::secondary(
-                        file.0.clone(),
-                        map.original_start()..map.original_start() + conflict.span.len(),
-                    )
-                    .with_message("also defined here"),
-                );
+                if let Some((file, span)) = processed.original_span(&conflict.span) {
+                    diag.labels.push(
+                        Label::secondary(file.clone(), span).with_message("also defined here"),
+                    );
+                }
             }
         }
         self
diff --git a/libs/config/src/analyze/lints/c03_duplicate_classes.rs b/libs/config/src/analyze/lints/c03_duplicate_classes.rs
index 825c3d1..b93304b 100644
--- a/libs/config/src/analyze/lints/c03_duplicate_classes.rs
+++ b/libs/config/src/analyze/lints/c03_duplicate_classes.rs
@@ -180,19 +180,12 @@ impl CodeC03DuplicateClasses {
         self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
             for class in self.classes.iter().skip(1) {
-                let map = processed
-                    .mapping(class.name().expect("class should have name").span.start)
-                    .expect("mapping should exist");
-                let file = processed.source(map.source()).expect("source should exist");
-                diag.labels.push(
-                    Label::secondary(
-                        file.0.clone(),
-                        map.original_start()
-                            ..map.original_start()
-                                + class.name().expect("class should have name").span.len(),
-                    )
-                    .with_message("also defined here"),
-                );
+                let name = class.name().expect("class should have name");
+                if let Some((file, span)) = processed.original_span(&name.span) {
+                    diag.labels.push(
+                        Label::secondary(file.clone(), span).with_message("also defined here"),
+                    );
+                }
             }
         }
         self
diff --git a/libs/config/src/analyze/lints/c05_external_parent_case.rs b/libs/config/src/analyze/lints/c05_external_parent_case.rs
index 19fb5fc..3adff0c 100644
--- a/libs/config/src/analyze/lints/c05_external_parent_case.rs
+++ b/libs/config/src/analyze/lints/c05_external_parent_case.rs
@@ -193,28 +193,12 @@ impl Code05ExternalParentCase {
             processed,
         );
         if let Some(diag) = &mut self.diagnostic {
-            let Some(parent) = self.class.parent() else {
-                panic!(
-                    "Code05ExternalParentCase::generate_processed called on class without parent"
+            let parent = self.parent.name().expect("parent existed to create error");
+            if let Some((file, span)) = processed.original_span(&parent.span) {
+                diag.labels.push(
+                    Label::secondary(file.clone(), span).with_message("parent definition here"),
                 );
-            };
-            let map = processed
-                .mapping(
-                    self.parent
-                        .name()
-                        .expect("parent existed to create error")
-                        .span
-                        .start,
-                )
-                .expect("mapping should exist");
-            let file = processed.source(map.source()).expect("source should exist");
-            diag.labels.push(
-                Label::secondary(
-                    file.0.clone(),
-                    map.original_start()..map.original_start() + parent.span.len(),
-                )
-                .with_message("parent definition here"),
-            );
+            }
         }
         self
     }
diff --git a/libs/config/src/analyze/lints/c06_unexpected_array.rs b/libs/config/src/analyze/lints/c06_unexpected_array.rs
index 5f46cb2..ee5be6f 100644
--- a/libs/config/src/analyze/lints/c06_unexpected_array.rs
+++ b/libs/config/src/analyze/lints/c06_unexpected_array.rs
@@ -139,29 +139,13 @@ impl Code06UnexpectedArray {
         else {
             panic!("Code06UnexpectedArray::generate_processed called on non-Code06UnexpectedArray property");
         };
-        let array_start = processed
-            .mapping(array.span.start)
-            .expect("mapping should exist");
-        let array_file = processed
-            .source(array_start.source())
-            .expect("source should exist");
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
-            .expect("mapping should exist");
         self.suggestion = Some(format!("{}[]", name.value));
-        self.diagnostic = Diagnostic::from_code_processed(
-            &self,
-            ident_start.original_start()..ident_end.original_start(),
-            processed,
-        );
+        self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
-            diag.labels.push(
-                Label::secondary(array_file.0.clone(), array.span.clone())
-                    .with_message("unexpected array"),
-            );
+            if let Some((file, span)) = processed.original_span(&array.span) {
+                diag.labels
+                    .push(Label::secondary(file.clone(), span).with_message("unexpected array"));
+            }
         }
         self
     }
diff --git a/libs/config/src/analyze/lints/c07_expected_array.rs b/libs/config/src/analyze/lints/c07_expected_array.rs
index ebdf5bf..37d7c09 100644
--- a/libs/config/src/analyze/lints/c07_expected_array.rs
+++ b/libs/config/src/analyze/lints/c07_expected_array.rs
@@ -157,27 +157,21 @@ impl Code07ExpectedArray {
         if let Value::Array(_) = value {
             panic!("Code07ExpectedArray::generate_processed called on non-Code07ExpectedArray property");
         }
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_file = processed
-            .source(ident_start.source())
-            .expect("source should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
-            .expect("mapping should exist");
-        let haystack = &processed.extract(ident_end.original_start()..value.span().start);
-        let possible_end = ident_end.original_start() + haystack.find(']').unwrap_or(1) + 1;
+        let haystack = &processed.extract(name.span.end..value.span().start);
+        let brackets = haystack
+            .find(']')
+            .map_or(2, |end| haystack[..=end].chars().count());
         self.suggestion = Some(name.value.to_string());
         self.diagnostic = Diagnostic::from_code_processed(
             &self,
-            ident_start.original_start()..possible_end,
+            name.span.start..name.span.end + brackets,
             processed,
         );
         if let Some(diag) = &mut self.diagnostic {
-            diag.labels.push(
-                Label::secondary(ident_file.0.clone(), value.span()).with_message("not an array"),
-            );
+            if let Some((file, span)) = processed.original_span(&value.span()) {
+                diag.labels
+                    .push(Label::secondary(file.clone(), span).with_message("not an array"));
+            }
         }
         self
     }
-- 
2.43.0


From 7051a89c7c539a83caf170c65280d00cfccf7982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 25/57] fix: a value like 1.0.0 is an invalid value, as its
 lint says

---
 libs/config/src/parse/value.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 8ba5a74..b72e150 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -10,7 +10,10 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
         super::array::array(false).map(Value::UnexpectedArray),
         super::str::string('"').map(Value::Str),
         math().map(Value::Number),
-        super::number::number().map(Value::Number),
+        super::number::number()
+            // 1.0.0 is an invalid value, not a number with something after it
+            .then_ignore(just('.').not().rewind().ignored().or(end()))
+            .map(Value::Number),
     ))
 }
 
-- 
2.43.0


From 12734284089e7373cf8aacd83935dfa10d528cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 26/57] fix: flags given for a line end after it

---
 libs/preprocessor/src/processor/pragma.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/preprocessor/src/processor/pragma.rs b/libs/preprocessor/src/processor/pragma.rs
index e985b3c..3c1db0a 100644
--- a/libs/preprocessor/src/processor/pragma.rs
+++ b/libs/preprocessor/src/processor/pragma.rs
@@ -52,6 +52,7 @@ impl Pragma {
 
     pub fn clear_line(&mut self) {
         self.suppress.retain(|_, v| *v as u8 > Scope::Line as u8);
+        self.flags.retain(|_, v| *v as u8 > Scope::Line as u8);
     }
 
     pub fn is_suppressed(&self, code: &Suppress) -> bool {
-- 
2.43.0


From ad8d84b32b443cb23c095e2fbcd50d8035a79d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 27/57] fix: of nested prefixes and addons the innermost one
 counts

---
 libs/workspace/src/path.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 06712e7..3493c7b 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -136,10 +136,16 @@ impl WorkspacePath {
     pub fn as_virtual_str(&self) -> String {
         let mut path = self.data.path.as_str().replace('\\', "/");
         let path_lower = path.to_lowercase();
-        if let Some((base, root)) =
-            self.data.workspace.pointers.iter().find(|(_, vfs)| {
+        // the innermost addon that contains the path
+        if let Some((base, root)) = self
+            .data
+            .workspace
+            .pointers
+            .iter()
+            .filter(|(_, vfs)| {
                 path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase()))
             })
+            .max_by_key(|(_, vfs)| vfs.as_str().len())
         {
             path = format!("{}{}", base, &path[root.as_str().len()..].to_string());
         }
@@ -250,7 +256,8 @@ impl WorkspacePath {
                 .workspace
                 .pointers
                 .iter()
-                .find(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .filter(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .max_by_key(|(p, _)| p.len())
             {
                 let ret_path = root.join(
                     path.strip_prefix_insensitive(base)
-- 
2.43.0


From c1f0b9dc4917f112689a8e6ccc795bf6fef4a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 28/57] fix: sort the containers of a stringtable by name, as
 documented

---
 libs/stringtable/src/package.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 735eafc..10944f5 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -32,6 +32,7 @@ impl Package {
 
     pub fn sort(&mut self) {
         self.keys.sort_by(|a, b| a.id().cmp(b.id()));
+        self.containers.sort_by(|a, b| a.name().cmp(b.name()));
         for container in &mut self.containers {
             container.sort();
         }
-- 
2.43.0


From 3dce1770e1a315f8f0a3f7dd58fbf8a950b5a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 29/57] fix: keep the escapes in names and IDs of a stringtable

---
 libs/stringtable/src/key.rs     | 9 ++++++++-
 libs/stringtable/src/lib.rs     | 2 +-
 libs/stringtable/src/package.rs | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/stringtable/src/key.rs b/libs/stringtable/src/key.rs
index 70bdb18..5fdaa41 100644
--- a/libs/stringtable/src/key.rs
+++ b/libs/stringtable/src/key.rs
@@ -12,10 +12,17 @@ where
     }
 }
 
+pub fn min_escape_attribute<S>(s: &str, ser: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    ser.serialize_str(&minimal_escape(s))
+}
+
 #[derive(Clone, Debug, Deserialize, Serialize)]
 #[serde(rename_all = "PascalCase")]
 pub struct Key {
-    #[serde(rename = "@ID")]
+    #[serde(rename = "@ID", serialize_with = "min_escape_attribute")]
     id: String,
     #[serde(skip_serializing_if = "Option::is_none", serialize_with = "min_escape")]
     #[serde(alias = "original", alias = "ORIGINAL")]
diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 242e0d2..50aa5ec 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -15,7 +15,7 @@ use tracing::error;
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Project {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "key::min_escape_attribute")]
     name: String,
     #[serde(rename = "Package")]
     packages: Vec<Package>,
diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 10944f5..27bc06e 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -1,10 +1,10 @@
 use serde::{Deserialize, Serialize};
 
-use crate::{Key, Totals};
+use crate::{key::min_escape_attribute, Key, Totals};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Package {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "min_escape_attribute")]
     name: String,
     #[serde(rename = "Key")]
     #[serde(default)]
-- 
2.43.0


From ff6468189e16637d724e099b626ee044bd5ab048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 30/57] fix: keep the comments of a stringtable at their place,
 once

---
 libs/stringtable/src/lib.rs | 148 ++++++++++++++++++++++++++----------
 1 file changed, 107 insertions(+), 41 deletions(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 50aa5ec..bed811e 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -13,6 +13,51 @@ pub use package::Package;
 pub use totals::Totals;
 use tracing::error;
 
+/// The lines of the elements that are open, to find the place of a comment again
+#[derive(Default)]
+struct Opened(Vec<String>);
+
+impl Opened {
+    /// The element a line is in, if it needs to be known
+    fn context(&self, line: &str) -> Option<String> {
+        self.0
+            .last()
+            .filter(|l| l.starts_with("<Key") || (line.starts_with("</") && line != "</Project>"))
+            .cloned()
+    }
+
+    /// Passes a line
+    fn pass(&mut self, line: &str) {
+        if ["</Key>", "</Container>", "</Package>"]
+            .iter()
+            .any(|c| line.starts_with(c))
+        {
+            self.0.pop();
+        } else if ["<Key", "<Container", "<Package"]
+            .iter()
+            .any(|o| line.starts_with(o))
+            && !line.contains("</")
+            && !line.ends_with("/>")
+        {
+            self.0.push(line.to_string());
+        }
+    }
+}
+
+/// Is this the line that followed a comment, there is only one of each language in a key
+fn is_line(line: &str, after: &str) -> bool {
+    fn tag(line: &str) -> Option<&str> {
+        let tag = line.strip_prefix('<')?;
+        let tag = &tag[..tag.find(|c: char| !c.is_alphanumeric())?];
+        (!tag.is_empty() && !["Project", "Package", "Container", "Key"].contains(&tag))
+            .then_some(tag)
+    }
+    tag(after).map_or_else(
+        || !after.is_empty() && line.starts_with(after),
+        |after| tag(line).is_some_and(|tag| tag.eq_ignore_ascii_case(after)),
+    )
+}
+
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Project {
     #[serde(rename = "@name", serialize_with = "key::min_escape_attribute")]
@@ -50,57 +95,73 @@ impl Project {
         let mut buffer = String::new();
         let mut reading_comments = false;
         let mut comments = Vec::new();
-        let mut in_key = None;
-        let Ok(reader) = reader
-            .lines()
-            .map(|l| {
-                let Ok(l) = l else {
-                    error!("Failed to read line: {:?}", l);
-                    return l;
+        let mut opened = Opened::default();
+        let mut lines = Vec::new();
+        for l in reader.lines() {
+            let l = match l {
+                Ok(l) => l,
+                Err(e) => {
+                    error!("Failed to read line: {:?}", e);
+                    return Err(quick_xml::de::DeError::Custom(
+                        "Failed to read lines".to_string(),
+                    ));
+                }
+            };
+            let mut rest = l.as_str();
+            loop {
+                // what follows a comment is a line of its own
+                let (l, next) = if reading_comments || rest.trim_start().starts_with("<!--") {
+                    rest.find("-->")
+                        .map_or((rest, ""), |end| rest.split_at(end + 3))
+                } else {
+                    (rest, "")
                 };
                 let l_trim = l.trim();
                 if reading_comments {
                     buffer.push('\n');
-                }
-                if l_trim.starts_with("<!--") {
+                } else if l_trim.starts_with("<!--") {
                     reading_comments = true;
                     if !buffer.is_empty() {
                         buffer.push('\n');
                     }
-                }
-                if !reading_comments && !buffer.is_empty() {
+                } else if !buffer.is_empty() && !l_trim.is_empty() {
                     comments.push((
                         buffer.trim().to_string(),
                         l_trim.to_string(),
-                        in_key.clone(),
+                        opened.context(l_trim),
                     ));
                     buffer.clear();
                 }
                 if reading_comments {
-                    buffer.push_str(&l);
+                    buffer.push_str(l);
                     if l_trim.ends_with("-->") {
                         reading_comments = false;
                     }
+                } else {
+                    opened.pass(l_trim);
                 }
-                if !reading_comments {
-                    if l_trim.starts_with("<Key") {
-                        in_key = Some(l_trim.to_string());
-                    } else if l_trim.starts_with("</Key>") {
-                        in_key = None;
-                    }
+                lines.push(l.replace('&', "&amp;"));
+                if next.trim().is_empty() {
+                    break;
                 }
-                Ok(l.replace('&', "&amp;"))
-            })
-            .collect::<Result<Vec<_>, _>>()
-        else {
-            return Err(quick_xml::de::DeError::Custom(
-                "Failed to read lines".to_string(),
-            ));
-        };
+                rest = next;
+            }
+        }
+        if !buffer.is_empty() {
+            // comments at the end of the file
+            comments.push((buffer.trim().to_string(), String::new(), None));
+        }
         comments.sort();
         comments.dedup();
         let mut this: Self =
-            quick_xml::de::from_reader(BufReader::new(reader.join("\n").as_bytes()))?;
+            quick_xml::de::from_reader(BufReader::new(lines.join("\n").as_bytes()))?;
+        if this.packages.len() == 1 {
+            for (_, after, context) in &mut comments {
+                if after == "</Package>" {
+                    *context = None;
+                }
+            }
+        }
         this.meta_comments = comments;
         Ok(this)
     }
@@ -119,16 +180,17 @@ impl Project {
         self.serialize(ser)?;
         buffer.push('\n');
 
-        let mut clear_next = false;
-        let mut in_key = None;
+        let mut opened = Opened::default();
         for line in buffer.lines() {
+            let line = line.replace("&amp;amp;", "&");
             let l_trim = line.trim();
-            if clear_next {
-                clear_next = false;
-                in_key = None;
-            }
+            let context = if l_trim == "</Package>" && self.packages.len() == 1 {
+                None
+            } else {
+                opened.context(l_trim)
+            };
             for (before, after, key) in &self.meta_comments {
-                if l_trim.starts_with(after) && &in_key == key {
+                if &context == key && is_line(l_trim, after) {
                     let mut whitespace = line
                         .chars()
                         .take_while(|c| c.is_whitespace())
@@ -141,13 +203,17 @@ impl Project {
                     writer.write_char('\n')?;
                 }
             }
-            writer.write_str(line.replace("&amp;amp;", "&").as_str())?;
+            writer.write_str(&line)?;
+            writer.write_char('\n')?;
+            opened.pass(l_trim);
+        }
+        for (comment, _, _) in self
+            .meta_comments
+            .iter()
+            .filter(|(_, after, _)| after.is_empty())
+        {
+            writer.write_str(comment)?;
             writer.write_char('\n')?;
-            if l_trim.starts_with("<Key") {
-                in_key = Some(l_trim.to_string());
-            } else if l_trim.starts_with("</Key>") {
-                clear_next = true;
-            }
         }
 
         Ok(())
-- 
2.43.0


From 2eaf1ccee9b4a3d3bc7d669c2b693dca30c38a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 31/57] fix: keep the comment in an otherwise empty element of
 a stringtable

---
 libs/stringtable/src/lib.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index bed811e..ffa22f2 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -166,6 +166,28 @@ impl Project {
         Ok(this)
     }
 
+    /// The lines to write for a line, an empty element with a comment in it has two
+    fn lines_for(&self, line: &str) -> Vec<String> {
+        let line = line.replace("&amp;amp;", "&");
+        let parts = ["</Key>", "</Container>", "</Package>"]
+            .iter()
+            .find_map(|close| {
+                let open = line.strip_suffix(close)?;
+                let inside = self.meta_comments.iter().any(|(_, after, context)| {
+                    after == close
+                        && context.as_deref().map_or_else(
+                            || *close == "</Package>" && self.packages.len() == 1,
+                            |context| context == open.trim(),
+                        )
+                });
+                (!open.trim().is_empty() && inside).then(|| {
+                    let indent = &open[..open.len() - open.trim_start().len()];
+                    vec![open.to_string(), format!("{indent}{close}")]
+                })
+            });
+        parts.unwrap_or_else(|| vec![line])
+    }
+
     /// Write a Project to a writer
     ///
     /// # Errors
@@ -181,8 +203,7 @@ impl Project {
         buffer.push('\n');
 
         let mut opened = Opened::default();
-        for line in buffer.lines() {
-            let line = line.replace("&amp;amp;", "&");
+        for line in buffer.lines().flat_map(|line| self.lines_for(line)) {
             let l_trim = line.trim();
             let context = if l_trim == "</Package>" && self.packages.len() == 1 {
                 None
-- 
2.43.0


From 572ffd17f1396614a54254709ca9737bea6ea204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 32/57] fix: look up the header of a PBO entry like its
 contents, in any case and with either slash

---
 libs/pbo/src/read.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 36e84fa..1b29fa6 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -79,9 +79,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
 
     /// Find a header by name
     pub fn header(&self, name: &str) -> Option<&Header> {
-        self.headers
-            .iter()
-            .find(|h| h.filename() == name.replace('/', "\\"))
+        self.headers.iter().find(|h| same_name(h, name))
     }
 
     /// Get the PBO's properties
-- 
2.43.0


From b060b2f1e1ff81d242491b23300264ac230cb0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 33/57] fix: launch presets that extend each other in a circle
 are an error, not an endless loop

---
 libs/common/src/config/project/hemtt/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/config/project/hemtt/mod.rs b/libs/common/src/config/project/hemtt/mod.rs
index 5ed768c..6789074 100644
--- a/libs/common/src/config/project/hemtt/mod.rs
+++ b/libs/common/src/config/project/hemtt/mod.rs
@@ -102,10 +102,12 @@ impl HemttSectionFile {
                     .into_iter()
                     .map(|(k, v)| {
                         let mut base = v;
+                        let mut seen = vec![k.clone()];
                         while let Some(extends) = &base.extends {
-                            if extends == &k {
-                                return Err(Error::LaunchConfigExtendsSelf(k));
+                            if seen.contains(extends) {
+                                return Err(Error::LaunchConfigExtendsSelf(extends.clone()));
                             }
+                            seen.push(extends.clone());
                             if let Some(extends) = launch_source.get(extends) {
                                 base = base.extend(extends.clone());
                             } else {
-- 
2.43.0


From be0259daf3a9b6a6fa583908500ecaee6efb19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 34/57] fix: do not drop the lints of stringtables when there
 is a lints.toml

---
 libs/common/src/config/project/lint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/lint.rs b/libs/common/src/config/project/lint.rs
index 42b34f6..66da836 100644
--- a/libs/common/src/config/project/lint.rs
+++ b/libs/common/src/config/project/lint.rs
@@ -32,7 +32,7 @@ impl LintGroupConfig {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.config.is_empty() && self.sqf.is_empty()
+        self.config.is_empty() && self.sqf.is_empty() && self.stringtables.is_empty()
     }
 }
 
-- 
2.43.0


From 6383d246ef63292d36347d212f3fd036899aef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 35/57] fix: L-C05 and L-C09 are as severe as configured

---
 .../analyze/lints/c05_external_parent_case.rs | 24 +++++++++++++++----
 .../lints/c09_magwell_missing_magazine.rs     | 16 +++++++++++--
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/libs/config/src/analyze/lints/c05_external_parent_case.rs b/libs/config/src/analyze/lints/c05_external_parent_case.rs
index 3adff0c..684a39b 100644
--- a/libs/config/src/analyze/lints/c05_external_parent_case.rs
+++ b/libs/config/src/analyze/lints/c05_external_parent_case.rs
@@ -46,7 +46,7 @@ While Arma does not care about the case of class names, HEMTT wants you to have
     }
 
     fn default_config(&self) -> LintConfig {
-        LintConfig::warning()
+        LintConfig::error()
     }
 
     fn minimum_severity(&self) -> Severity {
@@ -64,7 +64,7 @@ impl LintRunner<SqfLintData> for Runner {
     fn run(
         &self,
         _project: Option<&ProjectConfig>,
-        _config: &LintConfig,
+        config: &LintConfig,
         processed: Option<&Processed>,
         target: &Class,
         _data: &SqfLintData,
@@ -72,13 +72,19 @@ impl LintRunner<SqfLintData> for Runner {
         let Some(processed) = processed else {
             return vec![];
         };
-        check(target.properties(), &mut HashMap::new(), processed)
+        check(
+            target.properties(),
+            &mut HashMap::new(),
+            config.severity(),
+            processed,
+        )
     }
 }
 
 fn check(
     properties: &[Property],
     defined: &mut HashMap<String, Class>,
+    severity: Severity,
     processed: &Processed,
 ) -> Codes {
     let mut codes: Codes = Vec::new();
@@ -107,6 +113,7 @@ fn check(
                                     codes.push(Arc::new(Code05ExternalParentCase::new(
                                         c.clone(),
                                         parent_class.clone(),
+                                        severity,
                                         processed,
                                     )));
                                 }
@@ -115,12 +122,13 @@ fn check(
                             codes.push(Arc::new(Code05ExternalParentCase::new(
                                 c.clone(),
                                 c.clone(),
+                                severity,
                                 processed,
                             )));
                         }
                     }
                     defined.insert(name_lower, c.clone());
-                    codes.extend(check(properties, defined, processed));
+                    codes.extend(check(properties, defined, severity, processed));
                 }
             }
         }
@@ -131,6 +139,7 @@ fn check(
 pub struct Code05ExternalParentCase {
     class: Class,
     parent: Class,
+    severity: Severity,
     diagnostic: Option<Diagnostic>,
 }
 
@@ -139,6 +148,10 @@ impl Code for Code05ExternalParentCase {
         "L-C05"
     }
 
+    fn severity(&self) -> Severity {
+        self.severity
+    }
+
     fn link(&self) -> Option<&str> {
         Some("/analysis/config.html#external_parent_case")
     }
@@ -172,10 +185,11 @@ impl Code for Code05ExternalParentCase {
 
 impl Code05ExternalParentCase {
     #[must_use]
-    pub fn new(class: Class, parent: Class, processed: &Processed) -> Self {
+    pub fn new(class: Class, parent: Class, severity: Severity, processed: &Processed) -> Self {
         Self {
             class,
             parent,
+            severity,
 
             diagnostic: None,
         }
diff --git a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
index ebd6028..85657f1 100644
--- a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
+++ b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
@@ -85,7 +85,7 @@ impl LintRunner<SqfLintData> for Runner {
     fn run(
         &self,
         project: Option<&ProjectConfig>,
-        _config: &LintConfig,
+        config: &LintConfig,
         processed: Option<&Processed>,
         target: &Config,
         _data: &SqfLintData,
@@ -152,6 +152,7 @@ impl LintRunner<SqfLintData> for Runner {
                         codes.push(Arc::new(Code09MagwellMissingMagazine::new(
                             name.clone(),
                             span.clone(),
+                            config.severity(),
                             processed,
                         )));
                     }
@@ -165,6 +166,7 @@ impl LintRunner<SqfLintData> for Runner {
 pub struct Code09MagwellMissingMagazine {
     array: Ident,
     span: Range<usize>,
+    severity: Severity,
 
     diagnostic: Option<Diagnostic>,
 }
@@ -176,6 +178,10 @@ impl Code for Code09MagwellMissingMagazine {
         "L-C09"
     }
 
+    fn severity(&self) -> Severity {
+        self.severity
+    }
+
     fn link(&self) -> Option<&str> {
         Some("/analysis/config.html#magwell_missing_magazine")
     }
@@ -195,10 +201,16 @@ impl Code for Code09MagwellMissingMagazine {
 
 impl Code09MagwellMissingMagazine {
     #[must_use]
-    pub fn new(array: Ident, span: Range<usize>, processed: &Processed) -> Self {
+    pub fn new(
+        array: Ident,
+        span: Range<usize>,
+        severity: Severity,
+        processed: &Processed,
+    ) -> Self {
         Self {
             array,
             span,
+            severity,
 
             diagnostic: None,
         }
-- 
2.43.0


From 1962a01d2334d2729c1497da1865e03ab2701a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 36/57] fix: optimise `else` into a constant only where `then`
 consumes it

---
 libs/sqf/src/compiler/optimizer/mod.rs | 29 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/libs/sqf/src/compiler/optimizer/mod.rs b/libs/sqf/src/compiler/optimizer/mod.rs
index 77c4eb1..e348e47 100644
--- a/libs/sqf/src/compiler/optimizer/mod.rs
+++ b/libs/sqf/src/compiler/optimizer/mod.rs
@@ -144,6 +144,12 @@ impl Expression {
                                 left_o = consumable;
                             }
                         }
+                        // the array made by `else` is only known to be consumed by `then`
+                        "then" => {
+                            if let Some(consumable) = right_o.get_consumable_else() {
+                                right_o = consumable;
+                            }
+                        }
                         "call" => {
                             if matches!(&left_o, Self::Variable(name, _) if name == "_this") {
                                 return Self::UnaryCommand(
@@ -197,13 +203,6 @@ impl Expression {
                             return eval;
                         }
                     }
-                    BinaryCommand::Else => {
-                        if let (Self::Code(_), Self::Code(_)) = (&left_o, &right_o) {
-                            #[cfg(debug_assertions)]
-                            trace!("optimizing [B:{}] => ConsumeableArray", op_type.as_str());
-                            return Self::ConsumeableArray(vec![left_o, right_o], range.clone());
-                        }
-                    }
                     _ => {}
                 }
                 Self::BinaryCommand(
@@ -289,6 +288,22 @@ impl Expression {
         }
     }
 
+    /// Trys to get a consumable array from an `else` between two blocks of code
+    #[must_use]
+    fn get_consumable_else(&self) -> Option<Self> {
+        if let Self::BinaryCommand(BinaryCommand::Else, left, right, range) = self {
+            if let (Self::Code(_), Self::Code(_)) = (&**left, &**right) {
+                #[cfg(debug_assertions)]
+                trace!("optimizing [else] => ConsumeableArray");
+                return Some(Self::ConsumeableArray(
+                    vec![(**left).clone(), (**right).clone()],
+                    range.clone(),
+                ));
+            }
+        }
+        None
+    }
+
     /// Boilerplate for unary string operations
     #[must_use]
     fn op_uni_string(
-- 
2.43.0


From d4979396148b9734503549e1b0cc54c25be87c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 37/57] fix: report typeName on null values whatever their case

---
 libs/sqf/src/analyze/lints/s03_static_typename.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s03_static_typename.rs b/libs/sqf/src/analyze/lints/s03_static_typename.rs
index 79c0c27..19f45b6 100644
--- a/libs/sqf/src/analyze/lints/s03_static_typename.rs
+++ b/libs/sqf/src/analyze/lints/s03_static_typename.rs
@@ -84,7 +84,7 @@ impl LintRunner<SqfLintData> for Runner {
                 ("ARRAY", &target_span, span.len().max(2))
             }
             Expression::NularCommand(NularCommand { name }, span) => {
-                let (a, b) = match name.as_str() {
+                let (a, b) = match name.to_lowercase().as_str() {
                     "scriptnull" => ("SCRIPT", span),
                     "objnull" => ("OBJECT", span),
                     "grpnull" => ("GROUP", span),
@@ -105,7 +105,7 @@ impl LintRunner<SqfLintData> for Runner {
                 (a, b, name.len())
             }
             Expression::UnaryCommand(UnaryCommand::Named(name), _, span) => {
-                if name == "text" {
+                if name.to_lowercase() == "text" {
                     ("TEXT", span, name.len())
                 } else {
                     return Vec::new();
-- 
2.43.0


From fe828d471f6daf0a4349f1b861d418ad81b08d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 38/57] fix: double the quotes inside strings when writing SQF
 in suggestions

---
 libs/sqf/src/analyze/lints/s05_if_assign.rs   |  6 +++---
 libs/sqf/src/analyze/lints/s06_find_in_str.rs |  8 +++-----
 libs/sqf/src/lib.rs                           | 11 ++++++++---
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s05_if_assign.rs b/libs/sqf/src/analyze/lints/s05_if_assign.rs
index 3ce051b..2ef71bb 100644
--- a/libs/sqf/src/analyze/lints/s05_if_assign.rs
+++ b/libs/sqf/src/analyze/lints/s05_if_assign.rs
@@ -3,7 +3,7 @@ use std::{ops::Range, sync::Arc};
 use hemtt_common::config::LintConfig;
 use hemtt_workspace::{lint::{AnyLintRunner, Lint, LintRunner}, reporting::{Code, Diagnostic, Processed, Severity}};
 
-use crate::{analyze::{extract_constant, SqfLintData}, BinaryCommand, Expression, UnaryCommand};
+use crate::{analyze::{extract_constant, SqfLintData}, BinaryCommand, Expression, StringWrapper, UnaryCommand};
 
 crate::analyze::lint!(LintS05IfAssign);
 
@@ -149,12 +149,12 @@ impl Code for CodeS05IfAssign {
             Some(format!(
                 "[{}, {}] select ({})",
                 if self.rhs.0 .1 {
-                    format!("\"{}\"", self.rhs.0 .0.as_str())
+                    StringWrapper::DoubleQuote.wrap(&self.rhs.0 .0)
                 } else {
                     self.rhs.0 .0.clone()
                 },
                 if self.lhs.0 .1 {
-                    format!("\"{}\"", self.lhs.0 .0.as_str())
+                    StringWrapper::DoubleQuote.wrap(&self.lhs.0 .0)
                 } else {
                     self.lhs.0 .0.clone()
                 },
diff --git a/libs/sqf/src/analyze/lints/s06_find_in_str.rs b/libs/sqf/src/analyze/lints/s06_find_in_str.rs
index e126bff..45377c5 100644
--- a/libs/sqf/src/analyze/lints/s06_find_in_str.rs
+++ b/libs/sqf/src/analyze/lints/s06_find_in_str.rs
@@ -4,7 +4,7 @@ use float_ord::FloatOrd;
 use hemtt_common::config::LintConfig;
 use hemtt_workspace::{lint::{AnyLintRunner, Lint, LintRunner}, reporting::{Code, Diagnostic, Processed, Severity}};
 
-use crate::{analyze::SqfLintData, BinaryCommand, Expression, UnaryCommand};
+use crate::{analyze::SqfLintData, BinaryCommand, Expression, StringWrapper, UnaryCommand};
 
 crate::analyze::lint!(LintS06FindInStr);
 
@@ -84,16 +84,14 @@ impl LintRunner<SqfLintData> for Runner {
     
         if let Expression::String(needle_str, _, _) = &**needle {
             let haystack_str = match &**haystack {
-                Expression::String(s, _, wrapper) => {
-                    format!("{}{s}{}", wrapper.as_str(), wrapper.as_str())
-                }
+                Expression::String(s, _, wrapper) => wrapper.wrap(s),
                 Expression::Variable(name, _) => name.to_string(),
                 _ => return Vec::new(),
             };
             return vec![Arc::new(CodeS06FindInStr::new(
                 haystack.span().start..target.full_span().end,
                 (haystack_str, haystack.span()),
-                (format!("\"{needle_str}\""), needle.span()),
+                (StringWrapper::DoubleQuote.wrap(needle_str), needle.span()),
                 processed,
                 config.severity(),
             ))];
diff --git a/libs/sqf/src/lib.rs b/libs/sqf/src/lib.rs
index fb24060..15ce2f9 100644
--- a/libs/sqf/src/lib.rs
+++ b/libs/sqf/src/lib.rs
@@ -159,6 +159,13 @@ impl StringWrapper {
             Self::DoubleQuote => "\"",
         }
     }
+
+    #[must_use]
+    /// Writes a string as a literal, doubling the quotes inside it
+    pub fn wrap(&self, string: &str) -> String {
+        let quote = self.as_str();
+        format!("{quote}{}{quote}", string.replace(quote, &quote.repeat(2)))
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -194,9 +201,7 @@ impl Expression {
                 out.push('}');
                 out
             }
-            Self::String(string, _, wrapper) => {
-                format!("{}{}{}", wrapper.as_str(), string, wrapper.as_str())
-            }
+            Self::String(string, _, wrapper) => wrapper.wrap(string),
             Self::Number(number, _) => number.0.to_string(),
             Self::Boolean(boolean, _) => boolean.to_string(),
             Self::ConsumeableArray(array, _) | Self::Array(array, _) => {
-- 
2.43.0


From 25c74691dbe6f35de99b43db4280d65926783ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 39/57] fix: suggest parseNumber only for numbers, and with the
 condition in parentheses

---
 libs/sqf/src/analyze/lints/s05_if_assign.rs | 28 ++++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s05_if_assign.rs b/libs/sqf/src/analyze/lints/s05_if_assign.rs
index 2ef71bb..e681c11 100644
--- a/libs/sqf/src/analyze/lints/s05_if_assign.rs
+++ b/libs/sqf/src/analyze/lints/s05_if_assign.rs
@@ -88,7 +88,7 @@ impl LintRunner<SqfLintData> for Runner {
                         }
                         return vec![Arc::new(CodeS05IfAssign::new(
                             if_cmd.span(),
-                            (condition.source(), condition.full_span()),
+                            (*condition.clone(), condition.full_span()),
                             (lhs, lhs_expr.span()),
                             (rhs, rhs_expr.span()),
                             processed,
@@ -105,7 +105,7 @@ impl LintRunner<SqfLintData> for Runner {
 #[allow(clippy::module_name_repetitions)]
 pub struct CodeS05IfAssign {
     if_cmd: Range<usize>,
-    condition: (String, Range<usize>),
+    condition: (Expression, Range<usize>),
     lhs: ((String, bool), Range<usize>),
     rhs: ((String, bool), Range<usize>),
 
@@ -127,7 +127,7 @@ impl Code for CodeS05IfAssign {
     }
 
     fn message(&self) -> String {
-        if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
+        if self.is_parse_number() {
             String::from("assignment to if can be replaced with parseNumber")
         } else {
             String::from("assignment to if can be replaced with select")
@@ -135,7 +135,7 @@ impl Code for CodeS05IfAssign {
     }
 
     fn label_message(&self) -> String {
-        if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
+        if self.is_parse_number() {
             String::from("use parseNumber")
         } else {
             String::from("use select")
@@ -143,8 +143,12 @@ impl Code for CodeS05IfAssign {
     }
 
     fn suggestion(&self) -> Option<String> {
-        if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
-            Some(format!("parseNumber {}", self.condition.0.as_str(),))
+        if self.is_parse_number() {
+            Some(if self.condition.0.is_binary() {
+                format!("parseNumber ({})", self.condition.0.source())
+            } else {
+                format!("parseNumber {}", self.condition.0.source())
+            })
         } else {
             Some(format!(
                 "[{}, {}] select ({})",
@@ -158,14 +162,14 @@ impl Code for CodeS05IfAssign {
                 } else {
                     self.lhs.0 .0.clone()
                 },
-                self.condition.0.as_str(),
+                self.condition.0.source(),
             ))
         }
     }
 
     fn note(&self) -> Option<String> {
         Some(
-            if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
+            if self.is_parse_number() {
                 "parseNumber returns 1 for true and 0 for false"
             } else {
                 "the if and else blocks only return constant values\nselect is faster in this case"
@@ -180,10 +184,16 @@ impl Code for CodeS05IfAssign {
 }
 
 impl CodeS05IfAssign {
+    /// The values are what `parseNumber` makes of the condition
+    fn is_parse_number(&self) -> bool {
+        let is = |(value, quoted): &(String, bool), number| value == number && !quoted;
+        is(&self.lhs.0, "1") && is(&self.rhs.0, "0")
+    }
+
     #[must_use]
     pub fn new(
         if_cmd: Range<usize>,
-        condition: (String, Range<usize>),
+        condition: (Expression, Range<usize>),
         lhs: ((String, bool), Range<usize>),
         rhs: ((String, bool), Range<usize>),
         processed: &Processed,
-- 
2.43.0


From 13b5ed6ae91a3891dfd770ea58f3932639b8e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 40/57] fix: L-S21 reads a comparison with the number on the
 left the right way around

---
 .../analyze/lints/s21_invalid_comparisons.rs  | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
index e636049..7df7ec6 100644
--- a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
+++ b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
@@ -146,6 +146,8 @@ fn extract_comparisons(expr: &Expression) -> Comparison {
     match expr {
         Expression::BinaryCommand(cmd, lhs, rhs, _) => {
             let span = expr.full_span();
+            // 5 < _x is _x > 5
+            let mirrored = matches!(**lhs, Expression::Number(_, _));
             match cmd {
                 BinaryCommand::Or => {
                     let lhs = extract_comparisons(lhs);
@@ -161,13 +163,21 @@ fn extract_comparisons(expr: &Expression) -> Comparison {
                     let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
                         return Comparison::Ignored;
                     };
-                    Comparison::LessThan(variable.clone(), *number, span)
+                    if mirrored {
+                        Comparison::GreaterThan(variable.clone(), *number, span)
+                    } else {
+                        Comparison::LessThan(variable.clone(), *number, span)
+                    }
                 }
                 BinaryCommand::LessEq => {
                     let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
                         return Comparison::Ignored;
                     };
-                    Comparison::LessThanOrEqual(variable.clone(), *number, span)
+                    if mirrored {
+                        Comparison::GreaterThanOrEqual(variable.clone(), *number, span)
+                    } else {
+                        Comparison::LessThanOrEqual(variable.clone(), *number, span)
+                    }
                 }
                 BinaryCommand::Eq => {
                     let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
@@ -185,13 +195,21 @@ fn extract_comparisons(expr: &Expression) -> Comparison {
                     let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
                         return Comparison::Ignored;
                     };
-                    Comparison::GreaterThanOrEqual(variable.clone(), *number, span)
+                    if mirrored {
+                        Comparison::LessThanOrEqual(variable.clone(), *number, span)
+                    } else {
+                        Comparison::GreaterThanOrEqual(variable.clone(), *number, span)
+                    }
                 }
                 BinaryCommand::Greater => {
                     let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
                         return Comparison::Ignored;
                     };
-                    Comparison::GreaterThan(variable.clone(), *number, span)
+                    if mirrored {
+                        Comparison::LessThan(variable.clone(), *number, span)
+                    } else {
+                        Comparison::GreaterThan(variable.clone(), *number, span)
+                    }
                 }
                 _ => Comparison::Ignored,
             }
-- 
2.43.0


From 97d1676f9fa60346835e554a4b674be967f8e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 41/57] fix: L-S24 tells a variable and a marker of the same
 name apart

---
 libs/sqf/src/analyze/lints/s24_marker_spam.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/sqf/src/analyze/lints/s24_marker_spam.rs b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
index eb47d2b..b802f37 100644
--- a/libs/sqf/src/analyze/lints/s24_marker_spam.rs
+++ b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
@@ -113,7 +113,8 @@ fn is_marker_global(cmd: &str) -> bool {
 fn marker_name(var: &Expression) -> Option<String> {
     match var {
         Expression::Variable(name, _) => Some(name.clone()),
-        Expression::String(name, _, _) => Some(name.to_string()),
+        // quoted, as a variable can have the same name
+        Expression::String(name, _, _) => Some(format!("\"{name}\"")),
         _ => None,
     }
 }
-- 
2.43.0


From f6f887e11b5ca9050a0ccb246b30d9b3f1e1db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 42/57] fix: accept whole numbers in SQF that do not fit in 32
 bits

---
 libs/sqf/src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/sqf/src/parser/lexer.rs b/libs/sqf/src/parser/lexer.rs
index fdf7aa9..dccab92 100644
--- a/libs/sqf/src/parser/lexer.rs
+++ b/libs/sqf/src/parser/lexer.rs
@@ -198,7 +198,7 @@ fn number() -> impl Parser<char, crate::Scalar<f32>, Error = Simple<char>> {
         number_float_exponent(),
         number_float_basic(),
         number_hex().map(|value| value as f32),
-        number_int().map(|value| value as f32),
+        number_int(),
     ))
     .map(crate::Scalar)
 }
@@ -213,11 +213,11 @@ fn number_hex() -> impl Parser<char, u32, Error = Simple<char>> {
         .try_map(error_map)
 }
 
-fn number_int() -> impl Parser<char, u32, Error = Simple<char>> {
+fn number_int() -> impl Parser<char, f32, Error = Simple<char>> {
     number_digits()
         .collect::<String>()
         //.then_ignore(just('.').not().rewind())
-        .from_str::<u32>()
+        .from_str::<f32>()
         .try_map(error_map)
 }
 
-- 
2.43.0


From 1491269b69c8d1b536285e4a7a1ac69634d7356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 43/57] fix: L-S01 looks at every command of a statement

---
 libs/sqf/src/lib.rs | 67 ++++++++++-----------------------------------
 1 file changed, 14 insertions(+), 53 deletions(-)

diff --git a/libs/sqf/src/lib.rs b/libs/sqf/src/lib.rs
index 15ce2f9..37bb30d 100644
--- a/libs/sqf/src/lib.rs
+++ b/libs/sqf/src/lib.rs
@@ -44,62 +44,23 @@ impl Statements {
     #[must_use]
     /// Gets the highest version required by any command in this code chunk.
     pub fn required_version(&self, database: &Database) -> (String, Version, Range<usize>) {
-        // TODO can probably replace String with Rc<str>
-        fn extract_expression(
-            expression: &Expression,
-            database: &Database,
-        ) -> Option<(String, Version, Range<usize>)> {
-            match expression {
-                Expression::NularCommand(command, span) => Some((
-                    command.as_str().to_string(),
-                    *database.command_version(command.as_str())?,
-                    span.clone(),
-                )),
-                Expression::UnaryCommand(command, children, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(children, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    if command_version > left_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else {
-                        Some((left.0, left.1, left.2))
-                    }
-                }
-                Expression::BinaryCommand(command, left, right, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(left, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    let right = extract_expression(right, database)?;
-                    let right_version = database.command_version(&right.0)?;
-                    if command_version > left_version && command_version > right_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else if left_version > right_version {
-                        Some((left.0, left.1, left.2))
-                    } else {
-                        Some((right.0, right.1, right.2))
-                    }
-                }
-                Expression::Code(statements) => {
-                    let (command, version, span) = statements.required_version(database);
-                    Some((command.as_str().to_string(), version, span))
-                }
-                _ => None,
-            }
-        }
         let mut version = Version::new(0, 0);
         let mut span = 0..0;
         let mut command = String::new();
-        for statement in &self.content {
-            if let Some((used_command, command_version, command_span)) = match statement {
-                Statement::AssignGlobal(_, expression, _)
-                | Statement::AssignLocal(_, expression, _)
-                | Statement::Expression(expression, _) => extract_expression(expression, database),
-            } {
-                if command_version > version {
-                    command = used_command.to_string();
-                    version = command_version;
-                    span = command_span.clone();
-                }
+        for expression in self.content.iter().flat_map(Statement::walk_expressions) {
+            let (used_command, command_span) = match expression {
+                Expression::NularCommand(command, span) => (command.as_str(), span),
+                Expression::UnaryCommand(command, _, span) => (command.as_str(), span),
+                Expression::BinaryCommand(command, _, _, span) => (command.as_str(), span),
+                _ => continue,
+            };
+            let Some(command_version) = database.command_version(used_command) else {
+                continue;
+            };
+            if *command_version > version {
+                command = used_command.to_string();
+                version = *command_version;
+                span = command_span.clone();
             }
         }
         (command, version, span)
-- 
2.43.0


From bc3743ae9b540f23d4be5262031e46648ae34874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 44/57] fix: events to ignore are given by the name of the
 event

---
 libs/sqf/src/analyze/lints/s02_event_handlers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/sqf/src/analyze/lints/s02_event_handlers.rs b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
index 572b41e..f1cbebd 100644
--- a/libs/sqf/src/analyze/lints/s02_event_handlers.rs
+++ b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
@@ -225,7 +225,7 @@ fn check_unknown(
 
     if let Some(config) = config {
         if let Some(toml::Value::Array(ignore)) = config.option("ignore") {
-            if ignore.iter().any(|i| i.as_str() == Some(name)) {
+            if ignore.iter().any(|i| i.as_str() == Some(&*id.0)) {
                 return Vec::new();
             }
         }
-- 
2.43.0


From f8fae39c938072278ef9fb1232b170bf6518c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 45/57] fix: events that are unknown are not reported when that
 lint is disabled

---
 libs/sqf/src/analyze/lints/s02_event_handlers.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s02_event_handlers.rs b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
index f1cbebd..c841aab 100644
--- a/libs/sqf/src/analyze/lints/s02_event_handlers.rs
+++ b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
@@ -217,12 +217,6 @@ fn check_unknown(
     database: &Database,
     config: Option<&LintConfig>,
 ) -> Codes {
-    if let Some(config) = config {
-        if !config.enabled() {
-            return Vec::new();
-        }
-    }
-
     if let Some(config) = config {
         if let Some(toml::Value::Array(ignore)) = config.option("ignore") {
             if ignore.iter().any(|i| i.as_str() == Some(&*id.0)) {
@@ -232,6 +226,10 @@ fn check_unknown(
     }
 
     if eh.is_empty() {
+        // lints that are disabled are not in the config
+        let Some(config) = config else {
+            return Vec::new();
+        };
         return vec![Arc::new(CodeS02UnknownEvent::new(
             ns,
             id.1.clone(),
@@ -239,7 +237,7 @@ fn check_unknown(
             id.0.clone(),
             processed,
             database,
-            config.map_or(Severity::Warning, LintConfig::severity),
+            config.severity(),
         ))];
     }
 
-- 
2.43.0


From 14cfdd12980cd833eb5a090da996bd311fe3a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:52 +0000
Subject: [PATCH 46/57] fix: show the findings of L-S21, L-S23 and L-S24 that
 are at the end of a file

---
 .../src/analyze/lints/s21_invalid_comparisons.rs    | 13 ++-----------
 .../analyze/lints/s23_reassign_reserved_variable.rs |  9 ++-------
 libs/sqf/src/analyze/lints/s24_marker_spam.rs       |  9 ++-------
 3 files changed, 6 insertions(+), 25 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
index 7df7ec6..6fa8f18 100644
--- a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
+++ b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
@@ -436,19 +436,10 @@ impl CodeS21InvalidComparisons {
         };
         diag = diag.clear_labels();
         for span in &[self.issue.span_a.clone(), self.issue.span_b.clone()] {
-            let Some(map_start) = processed.mapping(span.start) else {
+            let Some((file, range)) = processed.original_span(span) else {
                 return self;
             };
-            let Some(map_end) = processed.mapping(span.end) else {
-                return self;
-            };
-            let Some(map_file) = processed.source(map_start.source()) else {
-                return self;
-            };
-            diag.labels.push(Label::primary(
-                map_file.0.clone(),
-                map_start.original_start()..map_end.original_start(),
-            ));
+            diag.labels.push(Label::primary(file.clone(), range));
         }
         self.diagnostic = Some(diag);
         self
diff --git a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
index 3d54bc4..6404fea 100644
--- a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
+++ b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
@@ -290,11 +290,6 @@ impl CodeS23ReassignReservedVariable {
 }
 
 fn get_span_info(span: Range<usize>, processed: &Processed) -> Option<(WorkspacePath, Range<usize>)> {
-    let map_start = processed.mapping(span.start)?;
-    let map_end = processed.mapping(span.end)?;
-    let map_file = processed.source(map_start.source())?;
-    Some((
-        map_file.0.clone(),
-        map_start.original_start()..map_end.original_start(),
-    ))
+    let (file, range) = processed.original_span(&span)?;
+    Some((file.clone(), range))
 }
diff --git a/libs/sqf/src/analyze/lints/s24_marker_spam.rs b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
index b802f37..1df9657 100644
--- a/libs/sqf/src/analyze/lints/s24_marker_spam.rs
+++ b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
@@ -199,11 +199,6 @@ impl CodeS24MarkerSpam {
 }
 
 fn get_span_info(span: &Range<usize>, processed: &Processed) -> Option<(WorkspacePath, Range<usize>)> {
-    let map_start = processed.mapping(span.start)?;
-    let map_end = processed.mapping(span.end)?;
-    let map_file = processed.source(map_start.source())?;
-    Some((
-        map_file.0.clone(),
-        map_start.original_start()..map_end.original_start(),
-    ))
+    let (file, range) = processed.original_span(span)?;
+    Some((file.clone(), range))
 }
-- 
2.43.0


From 8ba577dfbf75d82df7c72dac13a088f5553a6193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:31 +0000
Subject: [PATCH 47/57] fix: warn about every letter case of config.cpp that is
 not lower case

---
 libs/preprocessor/src/processor/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 00dfa0b..a6f9640 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -91,7 +91,8 @@ impl Processor {
             ));
         }
 
-        if path.filename() == "Config.cpp" {
+        let filename = path.filename();
+        if filename != "config.cpp" && filename.eq_ignore_ascii_case("config.cpp") {
             processor
                 .warnings
                 .push(Arc::new(InvalidConfigCase::new(path.clone())));
-- 
2.43.0


From 47f0756e9d62b773423efb49a307d7f64ffc2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 48/57] fix: a requiredVersion without decimals is required

---
 libs/config/src/model/config.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libs/config/src/model/config.rs b/libs/config/src/model/config.rs
index 727ca3c..7b8bac0 100644
--- a/libs/config/src/model/config.rs
+++ b/libs/config/src/model/config.rs
@@ -35,9 +35,19 @@ impl Config {
                             for property in properties {
                                 if let Property::Entry { name, value, .. } = property {
                                     if name.as_str().to_lowercase() == "requiredversion" {
-                                        if let Value::Number(Number::Float32 { value, .. }) = value
-                                        {
-                                            required_version = Version::from(*value);
+                                        match value {
+                                            Value::Number(Number::Float32 { value, .. }) => {
+                                                required_version = Version::from(*value);
+                                            }
+                                            Value::Number(Number::Int32 { value, .. }) => {
+                                                required_version = Version::new(
+                                                    u32::try_from(*value).unwrap_or_default(),
+                                                    0,
+                                                    0,
+                                                    None,
+                                                );
+                                            }
+                                            _ => {}
                                         }
                                     }
                                 }
-- 
2.43.0


From 091d6e9edfe62000037fb6cca1a7c91c4df804a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:21 +0000
Subject: [PATCH 49/57] fix: the macros for random numbers are known as not
 supported

__RAND_INT*__ and __RAND_UINT*__ were compared as they are, with the star, so that
__RAND_INT8__ and the others were neither reported (PE26) nor protected (PE6).
---
 libs/preprocessor/src/defines.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 827fc05..64c36e7 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -43,7 +43,7 @@ const BUILTIN_GEN: [&str; 6] = [
 const BUILTIN_SPECIAL: [&str; 1] = ["__EVAL"];
 
 /// Built-in macros that HEMTT intentionally does not support
-const BUILTIN_PROTEST: [&str; 18] = [
+const BUILTIN_PROTEST: [&str; 24] = [
     "__DATE_ARR__",
     "__DATE_STR__",
     "__DATE_STR_ISO8601__",
@@ -53,8 +53,14 @@ const BUILTIN_PROTEST: [&str; 18] = [
     "__DAY__",
     "__MONTH__",
     "__YEAR__",
-    "__RAND_INT*__",
-    "__RAND_UINT*__",
+    "__RAND_INT8__",
+    "__RAND_INT16__",
+    "__RAND_INT32__",
+    "__RAND_INT64__",
+    "__RAND_UINT8__",
+    "__RAND_UINT16__",
+    "__RAND_UINT32__",
+    "__RAND_UINT64__",
     "__GAME_VER__",
     "__GAME_VER_MAJ__",
     "__GAME_VER_MIN__",
-- 
2.43.0


From e7a8ba805dd0a0d18cda8834ac4a484bfe627fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:36 +0000
Subject: [PATCH 50/57] fix: textures are found in the form they are converted
 from or to in any letter case

---
 libs/p3d/src/functions/missing.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 7a58fd1..28cf954 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -74,16 +74,13 @@ impl P3D {
                     missing_textures.push(texture);
                 }
             } else if workspace.locate(&texture)?.is_none() {
-                #[allow(clippy::case_sensitive_file_extension_comparisons)]
-                // working on lowercase paths
-                let (replaced, ext) = if texture.ends_with(".paa") {
-                    (texture.replace(".paa", ".tga"), "tga")
-                } else if texture.ends_with(".tga") {
-                    (texture.replace(".tga", ".paa"), "paa")
-                } else if texture.ends_with(".png") {
-                    (texture.replace(".png", ".paa"), "paa")
-                } else {
-                    (texture.clone(), "")
+                let extension = texture.rsplit_once('.').map(|(p, ext)| (p, ext.to_lowercase()));
+                let (replaced, ext) = match &extension {
+                    Some((path, ext)) if ext == "paa" => (format!("{path}.tga"), "tga"),
+                    Some((path, ext)) if ext == "tga" || ext == "png" => {
+                        (format!("{path}.paa"), "paa")
+                    }
+                    _ => (texture.clone(), ""),
                 };
                 if ext.is_empty() || workspace.locate(&replaced)?.is_none() {
                     cache.insert(texture.clone(), false);
-- 
2.43.0


From 02d37008c413fcaa7f67900620a393c92fee2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:14 +0000
Subject: [PATCH 51/57] fix: show the line with the error in the note of a
 config error after non-ASCII text

---
 libs/config/src/analyze/chumsky.rs | 37 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/libs/config/src/analyze/chumsky.rs b/libs/config/src/analyze/chumsky.rs
index 2dfca84..bd4d241 100644
--- a/libs/config/src/analyze/chumsky.rs
+++ b/libs/config/src/analyze/chumsky.rs
@@ -36,27 +36,26 @@ impl ChumskyCode {
     fn generate_processed(mut self, processed: &Processed) -> Self {
         self.diagnostic = Diagnostic::from_code_processed(&self, self.err.span(), processed);
         if let Some(diag) = &mut self.diagnostic {
+            let text = processed.as_str().chars().collect::<Vec<_>>();
+            // the span is in chars
+            let first = std::cmp::min(self.err.span().start, text.len());
+            let last = self
+                .err
+                .span()
+                .end
+                .saturating_sub(1)
+                .clamp(first, text.len());
+            let start = text[..first]
+                .iter()
+                .rposition(|c| *c == '\n')
+                .map_or(0, |i| i + 1);
+            let end = text[last..]
+                .iter()
+                .position(|c| *c == '\n')
+                .map_or(text.len(), |i| last + i);
             diag.notes.push(format!(
                 "The processed output of the line with the error was:\n{} ",
-                {
-                    let mut start =
-                        std::cmp::min(self.err.span().start, processed.as_str().len() - 1);
-                    while start > 0 && processed.as_str().as_bytes()[start] != b'\n' {
-                        start -= 1;
-                    }
-                    while start < self.err.span().start
-                        && processed.as_str().as_bytes()[start].is_ascii_whitespace()
-                    {
-                        start += 1;
-                    }
-                    let mut end = self.err.span().end;
-                    while end < processed.as_str().len()
-                        && processed.as_str().as_bytes()[end] != b'\n'
-                    {
-                        end += 1;
-                    }
-                    processed.extract(start..end).to_string()
-                }
+                text[start..end].iter().collect::<String>().trim_start()
             ));
         }
         self
-- 
2.43.0


From 9d026480b7ee624e55bcc25c905a150f3d9a190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:41 +0000
Subject: [PATCH 52/57] fix: __COUNTER__ counts further than 65535

---
 libs/preprocessor/src/defines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 64c36e7..071d560 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -23,7 +23,7 @@ type InnerDefines = HashMap<Arc<str>, (Arc<Token>, Definition, DefineSource)>;
 pub struct Defines {
     global: InnerDefines,
     stack: Vec<(Arc<str>, InnerDefines)>,
-    counter: u16,
+    counter: usize,
 }
 
 /// Built-in macros that HEMTT supports, constants
@@ -113,7 +113,7 @@ impl Defines {
                         return Some((
                             key.clone(),
                             Definition::Value(vec![Arc::new(Token::new(
-                                Symbol::Digit(counter.into()),
+                                Symbol::Digit(counter),
                                 key.position().clone(),
                             ))]),
                             DefineSource::Generated,
-- 
2.43.0


From 79f51e4349d302fc1cf2ae2c205ec1e15d1aff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:08 +0000
Subject: [PATCH 53/57] fix: an include of a folder or of no path at all is an
 include that is not found

---
 libs/preprocessor/src/processor/directives.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 1299eff..e9c3b9d 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -202,6 +202,10 @@ impl Processor {
             return Err(Error::Code(code));
         }
 
+        if path.is_empty() {
+            return Err(IncludeNotFound::code(vec![open]));
+        }
+
         let current = self
             .file_stack
             .last()
@@ -219,6 +223,9 @@ impl Processor {
             else {
                 return Err(IncludeNotFound::code(path));
             };
+            if !found_path.is_file()? {
+                return Err(IncludeNotFound::code(path));
+            }
             if let Some(case_mismatch) = case_mismatch {
                 self.warnings.push(Arc::new(IncludeCase::new(
                     path.iter().map(|t| t.as_ref().clone()).collect(),
-- 
2.43.0


From 92527c6e45d32287b50561b48b8c872defa90e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:36 +0000
Subject: [PATCH 54/57] fix: files that include themselves without end are an
 error, not a stack overflow

---
 .../src/codes/pe27_include_depth.rs           | 45 +++++++++++++++++++
 libs/preprocessor/src/processor/directives.rs | 14 ++++--
 2 files changed, 55 insertions(+), 4 deletions(-)
 create mode 100644 libs/preprocessor/src/codes/pe27_include_depth.rs

diff --git a/libs/preprocessor/src/codes/pe27_include_depth.rs b/libs/preprocessor/src/codes/pe27_include_depth.rs
new file mode 100644
index 0000000..8eb6eaa
--- /dev/null
+++ b/libs/preprocessor/src/codes/pe27_include_depth.rs
@@ -0,0 +1,45 @@
+use std::sync::Arc;
+
+use hemtt_workspace::reporting::{Code, Token};
+
+use crate::Error;
+
+/// Files include each other too deeply
+pub struct IncludeDepth {
+    /// The include directive that is too deep
+    token: Box<Token>,
+}
+
+impl Code for IncludeDepth {
+    fn ident(&self) -> &'static str {
+        "PE27"
+    }
+
+    fn token(&self) -> Option<&Token> {
+        Some(&self.token)
+    }
+
+    fn message(&self) -> String {
+        "includes are nested too deeply".to_string()
+    }
+
+    fn label_message(&self) -> String {
+        "included too deeply".to_string()
+    }
+
+    fn help(&self) -> Option<String> {
+        Some("check for a file that includes itself".to_string())
+    }
+}
+
+impl IncludeDepth {
+    #[must_use]
+    pub const fn new(token: Box<Token>) -> Self {
+        Self { token }
+    }
+
+    #[must_use]
+    pub fn code(token: Token) -> Error {
+        Error::Code(Arc::new(Self::new(Box::new(token))))
+    }
+}
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index e9c3b9d..5b0f065 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -15,10 +15,10 @@ use crate::{
         pe15_if_invalid_operator::IfInvalidOperator,
         pe16_if_incompatible_types::IfIncompatibleType, pe19_pragma_unknown::PragmaUnknown,
         pe20_pragma_invalid_scope::PragmaInvalidScope, pe23_if_has_include::IfHasInclude,
-        pe2_unexpected_eof::UnexpectedEOF, pe3_expected_ident::ExpectedIdent,
-        pe4_unknown_directive::UnknownDirective, pe6_change_builtin::ChangeBuiltin,
-        pe7_if_unit_or_function::IfUnitOrFunction, pe8_if_undefined::IfUndefined,
-        pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
+        pe27_include_depth::IncludeDepth, pe2_unexpected_eof::UnexpectedEOF,
+        pe3_expected_ident::ExpectedIdent, pe4_unknown_directive::UnknownDirective,
+        pe6_change_builtin::ChangeBuiltin, pe7_if_unit_or_function::IfUnitOrFunction,
+        pe8_if_undefined::IfUndefined, pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
     },
     defines::{DefineSource, Defines},
     definition::{Definition, FunctionDefinition},
@@ -32,6 +32,9 @@ use super::{
     Processor,
 };
 
+/// Files that include each other deeper than this are taken to do so without end
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 impl Processor {
     pub(crate) fn directive(
         &mut self,
@@ -234,6 +237,9 @@ impl Processor {
             }
             found_path
         };
+        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {
+            return Err(IncludeDepth::code(command.as_ref().clone()));
+        }
         let tokens = crate::parse::parse(&path)?;
         self.file_stack.push(path.clone());
         self.included_files.push(path);
-- 
2.43.0


From 84209585bdd642d720986aa0b3c41f9a7c81cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:26 +0000
Subject: [PATCH 55/57] fix: show compressed mipmaps whose size is not a
 multiple of four

---
 libs/paa/src/mipmap.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 6c46873..132acdf 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -84,11 +84,10 @@ impl MipMap {
             width_2 -= 32768;
             true
         };
-        let mut img_size: u32 = u32::from(width_2) * u32::from(self.height);
-        if self.format == Format::Bc1 {
-            img_size /= 2;
-        }
-        let mut buffer: Box<[u8]> = vec![0; img_size as usize].into_boxed_slice();
+        let img_size = self
+            .format
+            .compressed_size(usize::from(width_2), usize::from(self.height));
+        let mut buffer: Box<[u8]> = vec![0; img_size].into_boxed_slice();
         let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
-- 
2.43.0


From 4584ee7f926cf1ddee6138ad752f88fc5da4de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:42 +0000
Subject: [PATCH 56/57] fix: a texture found in its other form is no file for a
 material of that name

---
 libs/p3d/src/functions/missing.rs | 44 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 28cf954..1f01eda 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -38,6 +38,16 @@ impl SearchCache {
         let mut cache = self.cache.write().expect("failed to lock cache");
         cache.insert(file_id, exists);
     }
+
+    /// Is there a file at exactly this path
+    fn located(&self, workspace: &WorkspacePath, path: &String) -> Result<bool, Error> {
+        if let Some(exists) = self.exists(path) {
+            return Ok(exists);
+        }
+        let exists = workspace.locate(path)?.is_some();
+        self.insert(path.clone(), exists);
+        Ok(exists)
+    }
 }
 
 impl P3D {
@@ -69,27 +79,22 @@ impl P3D {
                 format!("\\{texture}")
             };
             // let texture = texture.to_lowercase();
-            if let Some(exists) = cache.exists(&texture) {
-                if !exists {
-                    missing_textures.push(texture);
-                }
-            } else if workspace.locate(&texture)?.is_none() {
+            if !cache.located(workspace, &texture)? {
                 let extension = texture.rsplit_once('.').map(|(p, ext)| (p, ext.to_lowercase()));
-                let (replaced, ext) = match &extension {
-                    Some((path, ext)) if ext == "paa" => (format!("{path}.tga"), "tga"),
+                let replaced = match &extension {
+                    Some((path, ext)) if ext == "paa" => Some(format!("{path}.tga")),
                     Some((path, ext)) if ext == "tga" || ext == "png" => {
-                        (format!("{path}.paa"), "paa")
+                        Some(format!("{path}.paa"))
                     }
-                    _ => (texture.clone(), ""),
+                    _ => None,
                 };
-                if ext.is_empty() || workspace.locate(&replaced)?.is_none() {
-                    cache.insert(texture.clone(), false);
+                let found = match &replaced {
+                    Some(replaced) => cache.located(workspace, replaced)?,
+                    None => false,
+                };
+                if !found {
                     missing_textures.push(texture);
-                } else {
-                    cache.insert(texture.clone(), true);
                 }
-            } else {
-                cache.insert(texture.clone(), true);
             }
         }
         let mut missing_materials = Vec::new();
@@ -102,15 +107,8 @@ impl P3D {
             } else {
                 format!("\\{material}")
             };
-            if let Some(exists) = cache.exists(&material) {
-                if !exists {
-                    missing_materials.push(material);
-                }
-            } else if workspace.locate(&material)?.is_none() {
-                cache.insert(material.clone(), false);
+            if !cache.located(workspace, &material)? {
                 missing_materials.push(material);
-            } else {
-                cache.insert(material.clone(), true);
             }
         }
         Ok((missing_textures, missing_materials))
-- 
2.43.0


From 271a02e076b62b4b59fe1a35b4c4dc25a7dc5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:39 +0000
Subject: [PATCH 57/57] fix: a picture that has no room in a PAA is an error,
 not a panic or another size

---
 libs/paa/src/paa.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index c30bfe6..cf43030 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -114,6 +114,18 @@ impl Paa {
     /// [`std::io::Error`] if the output is not writable
     pub fn write(image: &RgbaImage, output: &mut impl Write) -> Result<(), Error> {
         let algo: Format = PaXType::DXT5.clone().into();
+        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
+        // the top bit of the width marks LZO, the size has 24 bits
+        if size == 0 || size >= 1 << 24 || image.width() > 0x7FFF || image.height() > 0xFFFF {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "an image of {}x{} can not be stored in a paa",
+                    image.width(),
+                    image.height()
+                ),
+            ));
+        }
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
@@ -171,7 +183,6 @@ impl Paa {
         // Write main image
         output.write_u16::<LittleEndian>(image.width() as u16)?;
         output.write_u16::<LittleEndian>(image.height() as u16)?;
-        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
         output.write_u24::<LittleEndian>(size as u32)?;
         let mut buffer = vec![0; size];
         algo.compress(
-- 
2.43.0

