From e6ab2420510f012bc79931376fbbb72d9d9c6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 01/42] fix: HPACK indexed fields with an index of 127 or more
 use the multi-byte integer form

---
 src/http/http2/hpack/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 3b89c6f..c80689d 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -121,7 +121,7 @@ impl Decoder {
             let buffer_leftover = buf.chunk();
             let consumed = match FieldRepresentation::new(initial_octet) {
                 FieldRepresentation::Indexed => {
-                    let consumed = (self.decode_indexed(initial_octet, |name, value| {
+                    let consumed = (self.decode_indexed(buffer_leftover, |name, value| {
                         cb(Cow::Borrowed(name), Cow::Borrowed(value));
                     }))?;
                     consumed
@@ -296,17 +296,17 @@ impl Decoder {
         Ok(((name, HeaderValue::from_bytes(&value)), consumed))
     }
 
-    fn decode_indexed<F>(&self, index: u8, call: F) -> WebResult<usize>
+    fn decode_indexed<F>(&self, buf: &[u8], call: F) -> WebResult<usize>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
     {
-        let index = index & 0x7f;
+        let (index, consumed) = Self::decode_integer(buf, 7)?;
         let header = self.index.read().unwrap();
         let (name, value) = header
-            .get_from_index(index as usize)
+            .get_from_index(index)
             .ok_or(Http2Error::into(DecoderError::HeaderIndexOutOfBounds))?;
         call(name, value);
-        Ok(1)
+        Ok(consumed)
     }
 
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
-- 
2.43.0


From 2c785ede436a1770ba9f89a55ab167fa9024d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 02/42] fix: reject the Huffman EOS symbol instead of decoding
 it as a zero byte

---
 src/http/http2/hpack/huffman.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/huffman.rs b/src/http/http2/hpack/huffman.rs
index bee3f9d..aa8882e 100644
--- a/src/http/http2/hpack/huffman.rs
+++ b/src/http/http2/hpack/huffman.rs
@@ -67,6 +67,8 @@ impl HuffmanDecoder {
                 current = 0;
                 current_len = 0;
                 all_true = true;
+            } else if key == (EOS_VALUE, EOS_LEN) {
+                return Err(Http2Error::into(HuffmanDecoderError::EOSInString))
             }
         }
 
@@ -479,7 +481,8 @@ static HUFFMAN_CODE_ARRAY: &'static [(u32, u8)] = &[
 lazy_static! {
     static ref HUFFMAN_CODE_MAP: HashMap<(u32, u8), u8> = {
         let mut m = HashMap::<(u32, u8), u8>::new();
-        for (symbol, &(code, code_len)) in HUFFMAN_CODE_ARRAY.iter().enumerate() {
+        // the last entry is EOS (symbol 256), which must never be decoded
+        for (symbol, &(code, code_len)) in HUFFMAN_CODE_ARRAY.iter().enumerate().take(256) {
             m.insert((code, code_len), symbol as u8);
         }
         m
-- 
2.43.0


From 0858fd0e4cf0ccf494cd0806f31342f09113f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 03/42] fix: HPACK static table entry 15 is accept-charset

---
 src/http/http2/hpack/header_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 09d9188..e093707 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -184,7 +184,7 @@ static STATIC_TABLE_RAW: &'static [(&'static str, &'static str)] = &[
     (":status", "400"),
     (":status", "404"),
     (":status", "500"),
-    ("accept-", ""),
+    ("accept-charset", ""),
     ("accept-encoding", "gzip, deflate"),
     ("accept-language", ""),
     ("accept-ranges", ""),
-- 
2.43.0


From c0f2c052dd19e3e987771646e0afc4f6c00a9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 04/42] fix: apply HPACK dynamic table size updates instead of
 looping forever

---
 src/http/http2/hpack/decoder.rs      | 13 +++++++++++--
 src/http/http2/hpack/header_index.rs | 14 ++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index c80689d..73934b6 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -164,8 +164,7 @@ impl Decoder {
                 }
                 FieldRepresentation::SizeUpdate => {
                     // Handle the dynamic table size update...
-                    // self.update_max_dynamic_size(buffer_leftover)
-                    0
+                    self.update_max_dynamic_size(buffer_leftover)?
                 }
             };
 
@@ -309,6 +308,16 @@ impl Decoder {
         Ok(consumed)
     }
 
+    /// Handles a dynamic table size update, which must not exceed the limit
+    /// set by the owner of the table. Returns the number of octets read.
+    fn update_max_dynamic_size(&mut self, buf: &[u8]) -> WebResult<usize> {
+        let (new_size, consumed) = Self::decode_integer(buf, 5)?;
+        if !self.index.write().unwrap().update_table_size(new_size) {
+            return Err(Http2Error::into(DecoderError::InvalidMaxDynamicSize));
+        }
+        Ok(consumed)
+    }
+
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index e093707..65ccdb5 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -19,6 +19,8 @@ pub struct HeaderIndex {
     table: VecDeque<(HeaderName, HeaderValue)>,
     size: usize,
     max_size: usize,
+    /// The upper bound for `max_size` that the peer may choose by a size update.
+    limit_size: usize,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -94,6 +96,7 @@ impl HeaderIndex {
             table: VecDeque::new(),
             size: 0,
             max_size,
+            limit_size: max_size,
         }
     }
 
@@ -111,10 +114,21 @@ impl HeaderIndex {
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
         self.max_size = new_max_size;
+        self.limit_size = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
     }
 
+    /// Applies a size update received from the peer, `false` if it exceeds the limit.
+    pub(crate) fn update_table_size(&mut self, new_size: usize) -> bool {
+        if new_size > self.limit_size {
+            return false;
+        }
+        self.max_size = new_size;
+        self.consolidate_table();
+        true
+    }
+
     /// Returns the maximum size of the table in octets.
     pub fn get_max_table_size(&self) -> usize {
         self.max_size
-- 
2.43.0


From 345a1fded234906d2815d65d14f89726d1176241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 05/42] fix: case-insensitive comparison only folds ASCII
 letters

---
 src/helper.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 16ea461..c2a5c58 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -439,19 +439,7 @@ impl Helper {
 
 
     pub fn eq_bytes_ignore_ascii_case(a: &[u8], b: &[u8]) -> bool {
-        if a.len() != b.len() {
-            return false;
-        }
-        for i in 0..a.len() {
-            if a[i] == b[i] {
-                continue;
-            }
-            let wrap = a[i].wrapping_sub(b[i]);
-            if wrap != 32 && wrap != 224 {
-                return false;
-            }
-        }
-        true
+        a.eq_ignore_ascii_case(b)
     }
     
     pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
-- 
2.43.0


From 295aa78a67169e4279c3f12c9d3f4c15d8d47d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 06/42] fix: a byte that is not a line ending is an error, not
 a missing or finished line

---
 src/helper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index c2a5c58..51160ac 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -320,9 +320,7 @@ impl Helper {
             },
             b'\n' => {
             },
-            b' ' => {
-            },
-            _ => return Err(WebError::from(HttpError::Partial))
+            _ => return Err(WebError::from(HttpError::NewLine))
         };
         Ok(())
     }
-- 
2.43.0


From e824e55063f52d3642186082cb8287937bebf013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 07/42] fix: an empty header value does not swallow the byte
 after it

---
 src/helper.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 51160ac..e5f3d31 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -258,7 +258,6 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                next!(buffer)?;
                 return Ok("");
             }
             return Err(err);
-- 
2.43.0


From f8ffa8e940c38f696e9baa423274edc7be02d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 08/42] fix: header values end at a bare line feed and cannot
 contain NUL

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index e5f3d31..a014986 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -191,7 +191,7 @@ impl Helper {
     }
 
     const HEADER_VALUE_MAP: [bool; 256] = byte_map![
-        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1,
+        0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-- 
2.43.0


From f832007a89d820644bcc2075eb405919f392efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 09/42] fix: blanks around a header value are not part of it

---
 src/helper.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index a014986..252bccd 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -302,7 +302,14 @@ impl Helper {
     #[inline]
     pub(crate) fn parse_header_value<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderValue> {
         let token = Self::parse_token_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
-        Ok(HeaderValue::Value(token.as_bytes().to_vec()))
+        let mut value = token.as_bytes();
+        while let [b' ' | b'\t', rest @ ..] = value {
+            value = rest;
+        }
+        while let [rest @ .., b' ' | b'\t'] = value {
+            value = rest;
+        }
+        Ok(HeaderValue::Value(value.to_vec()))
     }
 
     #[inline]
-- 
2.43.0


From 6093a80be55f5371b09875ff027752c35bd44989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 10/42] fix: a reason phrase may be empty and may contain tabs
 and non-ASCII bytes

---
 src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 252bccd..c61392b 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -38,7 +38,7 @@ impl Helper {
 
     #[inline]
     pub fn is_status_token(b: u8) -> bool {
-        b > 0x1F && b < 0x7F
+        b == b'\t' || (b > 0x1F && b != 0x7F)
     }
     
     #[inline]
@@ -287,7 +287,7 @@ impl Helper {
 
     #[inline]
     pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_status_token, WebError::from(HttpError::Token))
+        Self::parse_token_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
     }
 
     #[inline]
-- 
2.43.0


From cf5fbb3271a3a95904959b5ad9dd59bb5639c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 11/42] fix: responses with an unregistered status code can be
 serialised

---
 src/http/status.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/http/status.rs b/src/http/status.rs
index 1b7824e..cb9151a 100644
--- a/src/http/status.rs
+++ b/src/http/status.rs
@@ -202,10 +202,8 @@ impl StatusCode {
     }
 
     pub fn encode<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
-        match self.canonical_reason() {
-            Some(s) => Ok(buffer.put_slice(format!("{} {}\r\n", self.as_str(), s).as_bytes())),
-            _ => return Err(WebError::from(HttpError::InvalidStatusCode)),
-        }
+        let reason = self.canonical_reason().unwrap_or("");
+        Ok(buffer.put_slice(format!("{} {}\r\n", self.as_str(), reason).as_bytes()))
     }
 }
 
-- 
2.43.0


From da91da1f777a6fd2ccd53a5c9a340a1d2d4a90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 12/42] fix: a failed or incomplete parse leaves nothing of an
 earlier message behind

---
 src/http/request.rs  | 4 ++++
 src/http/response.rs | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/http/request.rs b/src/http/request.rs
index 942534b..c385d6e 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -552,6 +552,10 @@ where
     pub fn parse_buffer<B: Bt>(&mut self, buffer: &mut B) -> WebResult<usize> {
         let len = buffer.remaining();
         self.partial = true;
+        self.parts.method = Method::None;
+        self.parts.version = Version::Http11;
+        self.parts.url = Url::new();
+        self.parts.header.clear();
         Helper::skip_empty_lines(buffer)?;
         self.parts.method = Helper::parse_method(buffer)?;
         Helper::skip_spaces(buffer)?;
diff --git a/src/http/response.rs b/src/http/response.rs
index 99e704c..3951fb1 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -706,6 +706,9 @@ impl<T: Serialize> Response<T> {
     pub fn parse_buffer<B: Bt>(&mut self, buffer: &mut B) -> WebResult<usize> {
         let len = buffer.remaining();
         self.partial = true;
+        self.parts.status = StatusCode::OK;
+        self.parts.version = Version::Http11;
+        self.parts.header.clear();
         // println!("===={:?}", String::from_utf8_lossy(buffer.chunk()));
         Helper::skip_empty_lines(buffer)?;
         self.parts.version = Helper::parse_version(buffer)?;
-- 
2.43.0


From 6e1c69f6936d0512deee9d51d0fab71b0cfc2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 13/42] fix: a bracketed IPv6 address is accepted as host of a
 request

---
 src/http/request.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index c385d6e..6700336 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -534,17 +534,20 @@ where
     }
 
     fn parse_connect_by_host(url: &mut Url, h: &String) -> WebResult<()> {
-        // Host中存在端口号, 则直接取端口号
-        let vec: Vec<&str> = h.split(":").collect();
-        if vec.len() == 1 {
-            url.domain = Some(vec[0].to_string());
-            url.port = Some(80);
-        } else if vec.len() == 2 {
-            url.domain = Some(vec[0].to_string());
-            url.port = Some(vec[1].parse().map_err(WebError::from)?);
+        // IPv6地址在方括号内, 其中的冒号不是端口号分隔符
+        let host_len = if h.starts_with('[') {
+            h.find(']').ok_or(WebError::IntoError)? + 1
         } else {
-            return Err(WebError::IntoError);
-        }
+            h.find(':').unwrap_or(h.len())
+        };
+        let (host, port) = h.split_at(host_len);
+        // Host中存在端口号, 则直接取端口号
+        url.port = match port.strip_prefix(':') {
+            Some(port) => Some(port.parse().map_err(WebError::from)?),
+            None if port.is_empty() => Some(80),
+            None => return Err(WebError::IntoError),
+        };
+        url.domain = Some(host.to_string());
 
         Ok(())
     }
-- 
2.43.0


From 0b62ae786d4a08492bf19450d09f638d9115ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 14/42] fix: the asterisk form of an OPTIONS request is
 accepted

---
 src/http/request.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 6700336..5b605df 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -576,7 +576,15 @@ where
                 url
             }
             _ => {
-                let mut url = Url::try_from(path)?;
+                let mut url = match (&self.parts.method, &*path) {
+                    // OPTIONS * 针对整个服务器, 不是普通的路径
+                    (Method::Options, "*") => {
+                        let mut url = Url::new();
+                        url.path = path;
+                        url
+                    }
+                    _ => Url::try_from(path)?,
+                };
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
-- 
2.43.0


From dddc34927c23f49cc2b6f051bc7c306e66148792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 15/42] fix: a header field with line breaks cannot be
 serialised into several lines

---
 src/http/header.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 485a460..6cbf4fc 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -10,7 +10,7 @@
 // -----
 // Created Date: 2023/08/14 05:20:35
 
-use crate::{HeaderName, HeaderValue, WebError, WebResult};
+use crate::{HeaderName, HeaderValue, Helper, HttpError, WebError, WebResult};
 use std::{
     borrow::Borrow,
     collections::HashMap,
@@ -287,6 +287,13 @@ impl HeaderMap {
     pub fn encode<B: Bt + BtMut>(&self, buffer: &mut B) -> WebResult<usize> {
         let mut size = 0;
         for value in self.iter() {
+            let name = value.0.as_bytes();
+            if name.is_empty() || !name.iter().all(|b| Helper::is_header_name_token(*b)) {
+                return Err(WebError::from(HttpError::HeaderName));
+            }
+            if !value.1.as_bytes().iter().all(|b| Helper::is_header_value_token(*b)) {
+                return Err(WebError::from(HttpError::HeaderValue));
+            }
             size += value.0.encode(buffer)?;
             size += buffer.put_slice(": ".as_bytes());
             size += value.1.encode(buffer)?;
-- 
2.43.0


From 8705e1b5a13f966ccbfad27a784b27eef9038012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 16/42] fix: the request line is written with escaped path,
 query, and the authority for CONNECT

---
 src/http/request.rs |  2 +-
 src/url/url.rs      | 28 +++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 5b605df..8add32e 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -656,7 +656,7 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += self.parts.url.path.serialize(buffer)?;
+        size += self.parts.url.encode_target(&self.parts.method)?.serialize(buffer)?;
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
diff --git a/src/url/url.rs b/src/url/url.rs
index 3dccc0d..3e199ad 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -12,7 +12,7 @@
 
 use std::{fmt::Display, str::FromStr};
 
-use crate::{expect, next, peek, Helper, Scheme, UrlError, WebError, WebResult};
+use crate::{expect, next, peek, Helper, Method, Scheme, UrlError, WebError, WebResult};
 use algorithm::buf::{Binary, Bt};
 
 use super::Builder;
@@ -271,6 +271,32 @@ impl Url {
         String::from_utf8_lossy(&vec).to_string()
     }
 
+    /// 请求行中的目标地址, 会破坏请求行或改变解析结果的字符进行转码
+    pub(crate) fn encode_target(&self, method: &Method) -> WebResult<String> {
+        fn escape(out: &mut String, val: &str, is_path: bool) {
+            for b in val.bytes() {
+                if !Helper::is_token(b) || b == b'%' || (is_path && b == b'?') {
+                    out.push_str(&format!("%{:02X}", b));
+                } else {
+                    out.push(b as char);
+                }
+            }
+        }
+        if method == &Method::Connect {
+            return match self.get_connect_url() {
+                Some(url) if url.bytes().all(Helper::is_token) => Ok(url),
+                _ => Err(WebError::Serialize("url")),
+            };
+        }
+        let mut target = String::new();
+        escape(&mut target, &self.path, true);
+        if let Some(query) = &self.query {
+            target.push('?');
+            escape(&mut target, query, false);
+        }
+        Ok(target)
+    }
+
     pub fn url_decode(val: &str) -> WebResult<String> {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity(bytes.len() as usize);
-- 
2.43.0


From 7b8764944e206763949044dfa266b0a329fa7abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 17/42] fix: a truncated URL is invalid, not incomplete

---
 src/url/url.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/url/url.rs b/src/url/url.rs
index 3e199ad..4f77b0d 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -103,6 +103,17 @@ impl Url {
     }
 
     pub fn parse(url: Vec<u8>) -> WebResult<Url> {
+        // 地址总是完整的, 不存在需要更多数据的情况
+        Self::parse_inner(url).map_err(|e| {
+            if e.is_partial() {
+                WebError::from(UrlError::UrlInvalid)
+            } else {
+                e
+            }
+        })
+    }
+
+    fn parse_inner(url: Vec<u8>) -> WebResult<Url> {
         let mut buffer = Binary::from(url);
         let mut b = peek!(buffer)?;
         let mut scheme = Scheme::None;
-- 
2.43.0


From 549537d6f7ed52b5ee5ae291dbf6552b96424385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 18/42] fix: '@' only ends the user information inside the
 authority of a URL

---
 src/url/url.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 4f77b0d..92555e7 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -184,14 +184,19 @@ impl Url {
                     val.push(b);
                 }
             } else if b == b'@' {
-                //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
-                if domain.is_none() {
-                    return Err(WebError::from(UrlError::UrlInvalid));
+                //路径与参数中的'@'为普通字符
+                if is_first_slash {
+                    val.push(b);
+                } else {
+                    //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
+                    if domain.is_none() || username.is_some() {
+                        return Err(WebError::from(UrlError::UrlInvalid));
+                    }
+                    username = domain;
+                    domain = None;
+                    password = Some(build_binary(&mut val));
+                    // buffer.advance(1);
                 }
-                username = domain;
-                domain = None;
-                password = Some(build_binary(&mut val));
-                // buffer.advance(1);
             } else if b == b'/' {
                 if !is_first_slash {
                     //反斜杠仅存在第一次域名不解析时获取
-- 
2.43.0


From 1d80df4192ee7bac4521a060d6dd424996b50b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 19/42] fix: a query directly after the authority of a URL is
 not part of the host

---
 src/url/url.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 92555e7..b16ce2a 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -210,9 +210,14 @@ impl Url {
                 val.push(b);
             } else if b == b'?' {
                 if !is_first_slash {
-                    if domain.is_none() && has_domain {
+                    // 域名后直接为参数, 路径为默认值
+                    if domain.is_none() {
                         domain = Some(build_binary(&mut val));
+                    } else {
+                        port = Some(build_binary(&mut val));
                     }
+                    is_first_slash = true;
+                    path = Some(Binary::from(Self::DEFAULT_PATH.as_bytes().to_vec()));
                 // 多个'?'忽略当作query
                 } else if path.is_none() {
                     path = Some(build_binary(&mut val));
-- 
2.43.0


From a1c7624b6a17cfdff3631b8996279c0ea7c880fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 20/42] fix: the port of a URL consists of digits only

---
 src/url/url.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index b16ce2a..8323a5c 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -245,9 +245,12 @@ impl Url {
             url.domain = Self::parse_url_token(&mut domain.unwrap(), true)?;
         }
         if port.is_some() {
-            let port = Self::parse_url_token(&mut port.unwrap(), true)?;
-            if port.is_some() {
-                url.port = match port.unwrap().parse::<u16>() {
+            let port = Self::parse_url_token(&mut port.unwrap(), false)?;
+            if let Some(port) = port {
+                if !port.bytes().all(Helper::is_digit) {
+                    return Err(WebError::from(UrlError::UrlInvalid));
+                }
+                url.port = match port.parse::<u16>() {
                     Ok(v) => Some(v),
                     Err(_) => return Err(WebError::from(UrlError::UrlInvalid)),
                 }
-- 
2.43.0


From c9dc57c1ecdc7b7d1314c22721bc4284677622ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 21/42] fix: a bracketed IPv6 address is accepted as host of a
 URL

---
 src/url/url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 8323a5c..e9516f3 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -171,7 +171,10 @@ impl Url {
             };
 
             // 存在用户名, 解析用户名
-            if b == b':' {
+            if b == b':' && !is_first_slash && val.first() == Some(&b'[') && !val.contains(&b']') {
+                //方括号内的IPv6地址
+                val.push(b);
+            } else if b == b':' {
                 //未存在协议头, 允许path与query, 忽略掉冒号
                 if !is_first_slash {
                     // 匹配域名, 如果在存在期间检测到@则把当前当作用户结尾
-- 
2.43.0


From 36b5636cdbb068e183580d06fdb492edddfd91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 22/42] fix: a formatted URL escapes the delimiters inside its
 components

---
 src/url/url.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index e9516f3..a76c0ba 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -298,6 +298,19 @@ impl Url {
         String::from_utf8_lossy(&vec).to_string()
     }
 
+    /// 除非保留字符及指定的分隔符外都进行转码
+    fn encode_part(val: &str, keep: &[u8]) -> String {
+        let mut out = String::with_capacity(val.len());
+        for b in val.bytes() {
+            if b.is_ascii_alphanumeric() || b"-._~".contains(&b) || keep.contains(&b) {
+                out.push(b as char);
+            } else {
+                out.push_str(&format!("%{:02X}", b));
+            }
+        }
+        out
+    }
+
     /// 请求行中的目标地址, 会破坏请求行或改变解析结果的字符进行转码
     pub(crate) fn encode_target(&self, method: &Method) -> WebResult<String> {
         fn escape(out: &mut String, val: &str, is_path: bool) {
@@ -399,12 +412,14 @@ impl Display for Url {
         if self.username.is_some() || self.password.is_some() {
             f.write_fmt(format_args!(
                 "{}:{}@",
-                Self::url_encode(self.username.as_ref().unwrap_or(&String::new())),
-                Self::url_encode(self.password.as_ref().unwrap_or(&String::new()))
+                Self::encode_part(self.username.as_ref().unwrap_or(&String::new()), b""),
+                Self::encode_part(self.password.as_ref().unwrap_or(&String::new()), b"")
             ))?;
         }
-        if self.domain.is_some() {
-            f.write_fmt(format_args!("{}", self.domain.as_ref().unwrap()))?;
+        if let Some(domain) = &self.domain {
+            let is_ipv6 = domain.starts_with('[') && domain.ends_with(']');
+            let keep: &[u8] = if is_ipv6 { b"[:]" } else { b"" };
+            f.write_str(&Self::encode_part(domain, keep))?;
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
@@ -413,7 +428,7 @@ impl Display for Url {
                 _ => f.write_fmt(format_args!(":{}", self.port.as_ref().unwrap()))?,
             };
         }
-        f.write_fmt(format_args!("{}", Self::url_encode(&self.path)))?;
+        f.write_str(&Self::encode_part(&self.path, b"/:&="))?;
         if self.query.is_some() {
             f.write_fmt(format_args!(
                 "?{}",
-- 
2.43.0


From afa1459196fcce766bdf5e02ca374ff90881eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 23/42] fix: parsing a scheme from text recognises the known
 schemes

---
 src/url/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/scheme.rs b/src/url/scheme.rs
index eb8554f..97e4e97 100644
--- a/src/url/scheme.rs
+++ b/src/url/scheme.rs
@@ -153,6 +153,6 @@ impl TryFrom<&str> for Scheme {
 impl FromStr for Scheme {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Scheme::try_from(&*s.to_uppercase())
+        Scheme::try_from(&*s.to_lowercase())
     }
 }
\ No newline at end of file
-- 
2.43.0


From e208ebd2198620612ab965accf6755272e557b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 24/42] fix: only a bracketed address keeps its colons in a
 formatted URL

---
 src/url/url.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index a76c0ba..bced613 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -417,9 +417,12 @@ impl Display for Url {
             ))?;
         }
         if let Some(domain) = &self.domain {
-            let is_ipv6 = domain.starts_with('[') && domain.ends_with(']');
-            let keep: &[u8] = if is_ipv6 { b"[:]" } else { b"" };
-            f.write_str(&Self::encode_part(domain, keep))?;
+            match domain.strip_prefix('[').and_then(|d| d.strip_suffix(']')) {
+                Some(ipv6) if !ipv6.contains('[') && !ipv6.contains(']') => {
+                    f.write_fmt(format_args!("[{}]", Self::encode_part(ipv6, b":")))?
+                }
+                _ => f.write_str(&Self::encode_part(domain, b""))?,
+            }
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
-- 
2.43.0


From b0cee521900ec4f80569ac0ac73a1bf02c426995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 25/42] fix: chunk heads with extensions, oversized lengths or
 missing line breaks are handled

---
 src/helper.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index c61392b..cdd4575 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -397,9 +397,22 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
-        let num = usize::from_str_radix(num, 16).unwrap();
+        let num = usize::from_str_radix(num, 16).map_err(|_| WebError::from(HttpError::Token))?;
+        let end = num.checked_add(2).ok_or(WebError::from(HttpError::Token))?;
+        // 忽略块扩展信息
+        Helper::skip_spaces(&mut val)?;
+        if peek!(val)? == b';' {
+            while Helper::is_status_token(peek!(val)?) {
+                next!(val)?;
+            }
+        }
         Helper::skip_new_line(&mut val)?;
-        if num + 2 > val.remaining() {
+        // 块数据后面必须跟随换行
+        let tail = &val.chunk()[num.min(val.remaining())..];
+        if !b"\r\n".starts_with(&tail[..tail.len().min(2)]) {
+            return Err(WebError::from(HttpError::NewLine));
+        }
+        if end > val.remaining() {
             return Err(WebError::Http(HttpError::Partial));
         }
         return Ok((len - val.remaining(), num));
-- 
2.43.0


From 2a536aab448cff5a8ae1ab7381ae50019dc7431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 26/42] fix: numeric header values are exact decimal numbers or
 an error

---
 src/http/value.rs | 77 ++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 087f1ae..e5c3bc8 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -108,24 +108,21 @@ impl TryInto<usize> for &HeaderValue {
     type Error = WebError;
 
     fn try_into(self) -> Result<usize, WebError> {
-        match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
-            HeaderValue::Value(v) => {
-                let mut result = 0usize;
-                for b in v {
-                    if !Helper::is_digit(*b) {
-                        return Err(WebError::IntoError);
-                    }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as usize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
-                }
-                Ok(result)
+        let digits = self.as_bytes();
+        if digits.is_empty() {
+            return Err(WebError::IntoError);
+        }
+        let mut result = 0usize;
+        for b in digits {
+            if !Helper::is_digit(*b) {
+                return Err(WebError::IntoError);
             }
+            result = result
+                .checked_mul(10)
+                .and_then(|r| r.checked_add((b - Helper::DIGIT_0) as usize))
+                .ok_or(WebError::IntoError)?;
         }
+        Ok(result)
     }
 }
 
@@ -133,33 +130,31 @@ impl TryInto<isize> for &HeaderValue {
     type Error = WebError;
 
     fn try_into(self) -> Result<isize, WebError> {
-        match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
-            HeaderValue::Value(v) => {
-                let mut result = 0isize;
-                let mut is_neg = false;
-                for b in v {
-                    if !Helper::is_digit(*b) {
-                        if b == &b'-' && result == 0 {
-                            is_neg = true;
-                            continue;
-                        }
-                        return Err(WebError::IntoError);
-                    }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as isize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
-                }
-                if is_neg {
-                    Ok(-result)
-                } else {
-                    Ok(result)
-                }
+        let (is_neg, digits) = match self.as_bytes() {
+            [b'-', rest @ ..] => (true, rest),
+            rest => (false, rest),
+        };
+        if digits.is_empty() {
+            return Err(WebError::IntoError);
+        }
+        let mut result = 0isize;
+        for b in digits {
+            if !Helper::is_digit(*b) {
+                return Err(WebError::IntoError);
             }
+            let digit = (b - Helper::DIGIT_0) as isize;
+            result = result
+                .checked_mul(10)
+                .and_then(|r| {
+                    if is_neg {
+                        r.checked_sub(digit)
+                    } else {
+                        r.checked_add(digit)
+                    }
+                })
+                .ok_or(WebError::IntoError)?;
         }
+        Ok(result)
     }
 }
 
-- 
2.43.0


From 0906255b8a466298f524b5a7115e2f55ecc6c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 27/42] fix: connection and coding tokens are compared as
 tokens without regard to case

---
 src/http/header.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 6cbf4fc..7cc9a4b 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -226,7 +226,7 @@ impl HeaderMap {
         // } else
 
         if let Some(value) = self.get_option_value(&HeaderName::CONTENT_LENGTH) {
-            value.try_into().unwrap_or(0)
+            value.try_into().unwrap_or(0).max(0)
         } else {
             0
         }
@@ -234,7 +234,7 @@ impl HeaderMap {
 
     pub fn is_keep_alive(&self) -> bool {
         if let Some(value) = self.get_option_value(&HeaderName::CONNECTION) {
-            Self::contains_bytes(value.as_bytes(), b"Keep-Alive")
+            Self::contains_token(value.as_bytes(), b"keep-alive")
         } else {
             false
         }
@@ -242,7 +242,7 @@ impl HeaderMap {
 
     pub fn is_chunked(&self) -> bool {
         if let Some(value) = self.get_option_value(&HeaderName::TRANSFER_ENCODING) {
-            Self::contains_bytes(value.as_bytes(), b"chunked")
+            Self::contains_token(value.as_bytes(), b"chunked")
         } else {
             false
         }
@@ -250,7 +250,7 @@ impl HeaderMap {
 
     pub fn get_upgrade_protocol(&self) -> Option<String> {
         if let Some(value) = self.get_option_value(&HeaderName::CONNECTION) {
-            if !Self::contains_bytes(value.as_bytes(), b"Upgrade") {
+            if !Self::contains_token(value.as_bytes(), b"upgrade") {
                 return None;
             }
         } else {
@@ -303,16 +303,10 @@ impl HeaderMap {
         Ok(size)
     }
 
-    fn contains_bytes(src: &[u8], dst: &[u8]) -> bool {
-        if dst.len() > src.len() {
-            return false;
-        }
-        for i in 0..(src.len() - dst.len() + 1) {
-            if &src[i..(i + dst.len())] == dst {
-                return true;
-            }
-        }
-        false
+    /// 列表中是否存在指定的标记, 不区分大小写, push添加的值以';'分隔
+    fn contains_token(src: &[u8], token: &[u8]) -> bool {
+        src.split(|b| *b == b',' || *b == b';')
+            .any(|v| v.trim_ascii().eq_ignore_ascii_case(token))
     }
 }
 
-- 
2.43.0


From 88467c856a7f72c36ef29e5d2d59a754bd4bc117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 28/42] fix: a frame whose payload is incomplete is not decoded

---
 src/http/http2/frame/frame.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index d2125ba..62be4f9 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -158,6 +158,10 @@ impl<T: Bt> Frame<T> {
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
+        // 负载不完整, 不能当作一帧解析
+        if buf.remaining() < header.length as usize {
+            return Err(Http2Error::into(Http2Error::Short));
+        }
         Frame::trim_padding(&header, &mut buf)?;
         match header.kind() {
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
-- 
2.43.0


From 856bd49dfb3d57a9e51b274dadc8c5fe4e324fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 29/42] fix: padding is removed from the frames that can carry
 it

---
 src/http/http2/frame/frame.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 62be4f9..4c7cbcc 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -48,14 +48,30 @@ pub enum Frame<T = Binary> {
 
 impl Frame<Binary> {
     #[inline]
-    pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
-        if header.flag.is_padded() && buf.has_remaining() {
-            let pad_length = buf.peek().unwrap();
-            if pad_length as u32 > header.length {
+    pub fn trim_padding<B: Bt + From<Vec<u8>>>(
+        header: &FrameHeader,
+        buf: &mut B,
+    ) -> WebResult<()> {
+        // 只有这三种帧定义了PADDED标记
+        let can_padded = match header.kind() {
+            Kind::Data | Kind::Headers | Kind::PushPromise => true,
+            _ => false,
+        };
+        if can_padded && header.flag.is_padded() {
+            if !buf.has_remaining() {
+                return Err(Http2Error::into(Http2Error::PayloadLengthTooShort));
+            }
+            let pad_length = buf.get_u8();
+            // 填充长度必须小于负载长度(包含填充长度本身的一个字节)
+            if pad_length as u32 >= header.length {
                 return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
-            } else {
-                buf.advance(1);
-                // buf.mark_len(header.length as usize - pad_length as usize - 1);
+            }
+            if pad_length > 0 {
+                // 填充在本帧负载的尾部, 其后可能还有CONTINUATION的数据
+                let end = header.length as usize - 1;
+                let mut payload = buf.chunk()[..end - pad_length as usize].to_vec();
+                payload.extend_from_slice(&buf.chunk()[end..]);
+                *buf = B::from(payload);
             }
         }
         Ok(())
@@ -151,7 +167,7 @@ impl Frame<Binary> {
     }
 }
 
-impl<T: Bt> Frame<T> {
+impl<T: Bt + From<Vec<u8>>> Frame<T> {
     pub fn parse(
         header: FrameHeader,
         mut buf: T,
@@ -189,7 +205,9 @@ impl<T: Bt> Frame<T> {
             _ => Err(crate::WebError::Extension("")),
         }
     }
+}
 
+impl<T: Bt> Frame<T> {
     /// How many bytes this Frame will use in a buffer when encoding.
     pub fn encoded_len(&self) -> usize {
         0
-- 
2.43.0


From 552c8835729b5b4d3c0d548d8a2fe9f2ccfb8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 30/42] fix: frames on a stream their kind does not allow are
 rejected

---
 src/http/http2/frame/frame.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 4c7cbcc..1b8887f 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -178,6 +178,21 @@ impl<T: Bt + From<Vec<u8>>> Frame<T> {
         if buf.remaining() < header.length as usize {
             return Err(Http2Error::into(Http2Error::Short));
         }
+        // 检查帧类型与流id的匹配关系
+        let is_zero = header.stream_id().is_zero();
+        let is_valid = match header.kind() {
+            Kind::Data
+            | Kind::Headers
+            | Kind::Priority
+            | Kind::Reset
+            | Kind::PushPromise
+            | Kind::Continuation => !is_zero,
+            Kind::Settings | Kind::Ping | Kind::GoAway => is_zero,
+            _ => true,
+        };
+        if !is_valid {
+            return Err(Http2Error::into(Http2Error::InvalidStreamId));
+        }
         Frame::trim_padding(&header, &mut buf)?;
         match header.kind() {
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
-- 
2.43.0


From a0fd7643cb4125fe82fc6d895e5f116345566320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 31/42] fix: priority payloads have exactly five bytes and
 never depend on themselves

---
 src/http/http2/frame/headers.rs  | 3 +++
 src/http/http2/frame/priority.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 48c4077..15cb5b2 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -134,6 +134,9 @@ impl Headers {
     ) -> WebResult<usize> {
         if self.flags.is_priority() {
             let depency = StreamDependency::load(&mut buffer)?;
+            if depency.dependency_id() == self.stream_id {
+                return Err(Http2Error::InvalidDependencyId.into());
+            }
             self.stream_dep = Some(depency);
         }
 
diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index aa3f3e4..0939e9f 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -37,6 +37,9 @@ pub struct StreamDependency {
 
 impl Priority {
     pub fn parse<B: Bt>(head: FrameHeader, payload: &mut B) -> WebResult<Self> {
+        if payload.remaining() != 5 {
+            return Err(Http2Error::InvalidPayloadLength.into());
+        }
         let dependency = StreamDependency::load(payload)?;
 
         if dependency.dependency_id() == head.stream_id() {
-- 
2.43.0


From 5b90acab13a578988bd397de83746b83a684ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:17 +0000
Subject: [PATCH 32/42] fix: a priority frame is written with its length,
 stream and exclusive flag

---
 src/http/http2/frame/frame.rs    | 2 +-
 src/http/http2/frame/priority.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 1b8887f..bceefe2 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -95,7 +95,7 @@ impl Frame<Binary> {
         match self {
             Frame::Data(f) => f.stream_id(),
             Frame::Headers(f) => f.stream_id(),
-            Frame::Priority(_f) => StreamIdentifier::zero(),
+            Frame::Priority(f) => f.stream_id(),
             Frame::PushPromise(f) => f.stream_id(),
             Frame::Settings(_f) => StreamIdentifier::zero(),
             Frame::Ping(_f) => StreamIdentifier::zero(),
diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index 0939e9f..96e8a31 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -73,7 +73,8 @@ impl Priority {
     }
 
     pub fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        let head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        let mut head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        head.length = 5;
         let mut size = 0;
         size += head.encode(dst)?;
         size += self.dependency.encode(dst)?;
@@ -118,7 +119,8 @@ impl StreamDependency {
     }
 
     fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        self.dependency_id.encode(dst)?;
+        let exclusive = if self.is_exclusive { !MASK_U31 } else { 0 };
+        dst.put_u32(self.dependency_id.0 & MASK_U31 | exclusive);
         dst.put_u8(self.weight);
         Ok(5)
     }
-- 
2.43.0


From 1cb997266247f288900a6b5c332b0764de2105aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 33/42] fix: a padded data frame is written with its padding
 length

---
 src/http/http2/frame/data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/data.rs b/src/http/http2/frame/data.rs
index e239661..de82d33 100644
--- a/src/http/http2/frame/data.rs
+++ b/src/http/http2/frame/data.rs
@@ -93,17 +93,21 @@ impl Data<Binary> {
     pub fn encode<B: Bt+BtMut>(&mut self,
         encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
         let mut size = 0;
+        // 填充标记需占用一个字节的填充长度
+        let pad_size = if self.flags.is_padded() { 1 } else { 0 };
         loop {
-            let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size); 
+            let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size - pad_size); 
             let mut head = FrameHeader::new(Kind::Data, self.flags.into(), self.stream_id);
-            head.length = now_len as u32;
+            head.length = (now_len + pad_size) as u32;
             if now_len < self.data.remaining() {
                 head.flags_mut().unset_end_stream();
                 size += head.encode(dst)?;
+                size += dst.put_slice(&[0u8][..pad_size]);
                 size += dst.put_slice(&self.data.chunk()[..now_len]);
                 self.data.advance(now_len);
             } else {
                 size += head.encode(dst)?;
+                size += dst.put_slice(&[0u8][..pad_size]);
                 size += self.data.serialize(dst)?;
                 break;
             }
-- 
2.43.0


From b909d615b62bce47cce24f79dd5e958c8d46e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 34/42] fix: header blocks are written whole, within the frame
 size and with the right flags

---
 src/http/http2/frame/headers.rs  | 127 +++++++++++++++----------------
 src/http/http2/frame/priority.rs |   2 +-
 2 files changed, 64 insertions(+), 65 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 15cb5b2..0f8d244 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -13,7 +13,7 @@
 use crate::{
     http::{request, response},
     http2::DecoderError,
-    HeaderName, Request, Serialize,
+    HeaderName, Request,
 };
 use std::fmt;
 
@@ -298,9 +298,16 @@ impl Headers {
     }
 
     pub fn encode<B: Bt + BtMut>(mut self, encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
-        let size = self
-            .header_block
-            .encode(encoder, dst, self.flags, self.stream_id)?;
+        let mut prefix = BinaryMut::new();
+        if self.flags.is_padded() {
+            prefix.put_u8(0);
+        }
+        if let Some(depency) = &self.stream_dep {
+            depency.encode(&mut prefix)?;
+        }
+        self.flags.set(Flag::PRIORITY, self.stream_dep.is_some());
+        let head = FrameHeader::new(Kind::Headers, self.flags, self.stream_id);
+        let size = self.header_block.encode(encoder, dst, head, prefix)?;
         log::trace!("HTTP2: 编码头信息; len={}", size);
         Ok(size)
     }
@@ -462,39 +469,37 @@ impl PushPromise {
     }
 
     pub fn encode<B: Bt + BtMut>(mut self, encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
-        let mut binary = BinaryMut::new();
+        let mut prefix = BinaryMut::new();
+        if self.flags.is_padded() {
+            prefix.put_u8(0);
+        }
+        self.promised_id.encode(&mut prefix)?;
         self.header_block
             .parts
             .encode_header(&mut self.header_block.fields);
 
-        if let Some(v) = self.header_block.fields.remove(&":method") {
-            let _ =
-                encoder.encode_header_into((&HeaderName::from_static(":method"), &v), &mut binary);
-        }
-        if let Some(v) = self.header_block.fields.remove(&":authority") {
-            let _ = encoder
-                .encode_header_into((&HeaderName::from_static(":authority"), &v), &mut binary);
-        }
-        if let Some(v) = self.header_block.fields.remove(&":scheme") {
-            let _ =
-                encoder.encode_header_into((&HeaderName::from_static(":scheme"), &v), &mut binary);
-        }
-        if let Some(v) = self.header_block.fields.remove(&":path") {
-            let _ =
-                encoder.encode_header_into((&HeaderName::from_static(":path"), &v), &mut binary);
+        // 带有状态码表示同时推送回复的头信息, 请求头在PUSH_PROMISE中, 其余在HEADERS中
+        let mut response = None;
+        if self.header_block.fields.contains(&":status") {
+            let mut request = HeaderMap::new();
+            for name in [":method", ":authority", ":scheme", ":path"] {
+                if let Some(v) = self.header_block.fields.remove(&name) {
+                    request.insert(HeaderName::from_static(name), v);
+                }
+            }
+            response = Some(std::mem::replace(&mut self.header_block.fields, request));
         }
 
-        let mut size = 0;
-        let mut head = FrameHeader::new(Kind::PushPromise, self.flags.into(), self.stream_id);
-        head.flag.set_end_headers();
-        head.length = binary.remaining() as u32 + 4;
-        size += head.encode(dst).unwrap();
-        size += self.promised_id.encode(dst).unwrap();
-        size += binary.serialize(dst).unwrap();
-
-        size += self
-            .header_block
-            .encode(encoder, dst, self.flags, self.promised_id)?;
+        let head = FrameHeader::new(Kind::PushPromise, self.flags, self.stream_id);
+        let mut size = self.header_block.encode(encoder, dst, head, prefix)?;
+        if let Some(fields) = response {
+            self.header_block.fields = fields;
+            let flags = self.flags & Flag::END_STREAM;
+            let head = FrameHeader::new(Kind::Headers, flags, self.promised_id);
+            size += self
+                .header_block
+                .encode(encoder, dst, head, BinaryMut::new())?;
+        }
         log::trace!("HTTP2: 编码推送信息; len={}", size);
         Ok(size)
     }
@@ -603,50 +608,44 @@ impl Parts {
 }
 
 impl HeaderBlock {
+    /// 编码整个头信息块, 超出最大帧大小的部分放到CONTINUATION帧中
+    /// `head`和`prefix`为首帧的帧头以及头信息块之前的数据
     pub fn encode<B: Bt + BtMut>(
         &mut self,
         encoder: &mut Encoder,
         dst: &mut B,
-        mut flags: Flag,
-        stream_id: StreamIdentifier,
+        mut head: FrameHeader,
+        prefix: BinaryMut,
     ) -> WebResult<usize> {
-        let mut result = vec![];
+        self.parts.encode_header(&mut self.fields);
         let mut binary = BinaryMut::new();
-
-        for value in self.fields.iter() {
-            if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
-                > encoder.max_frame_size as usize
-            {
-                result.push(binary);
-                binary = BinaryMut::new();
+        // 以:开头的特殊头必须在普通头之前
+        for is_spec in [true, false] {
+            for value in self.fields.iter().filter(|v| v.0.is_spec() == is_spec) {
+                let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
             }
-            let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
         }
 
-        result.push(binary);
+        let stream_id = head.stream_id();
         let mut size = 0;
-        if result.len() == 1 {
-            flags.set_end_headers();
-            let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-        } else {
-            let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-
-            for idx in 1..result.len() {
-                let mut head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
-                if idx == result.len() - 1 {
-                    flags.set_end_headers();
-                    head.flag = flags;
-                }
-                head.length = result[idx].remaining() as u32;
-                size += head.encode(dst).unwrap();
-                size += result[idx].serialize(dst).unwrap();
+        let mut prefix = prefix.chunk();
+        loop {
+            let now_len = std::cmp::min(
+                binary.remaining(),
+                encoder.max_frame_size.saturating_sub(prefix.len()),
+            );
+            let is_last = now_len == binary.remaining();
+            head.flag.set(Flag::END_HEADERS, is_last);
+            head.length = (prefix.len() + now_len) as u32;
+            size += head.encode(dst)?;
+            size += dst.put_slice(prefix);
+            size += dst.put_slice(&binary.chunk()[..now_len]);
+            binary.advance(now_len);
+            if is_last {
+                break;
             }
+            prefix = &[];
+            head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
         }
         Ok(size)
     }
diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index 96e8a31..bb9893f 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -118,7 +118,7 @@ impl StreamDependency {
         self.dependency_id
     }
 
-    fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
+    pub(crate) fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
         let exclusive = if self.is_exclusive { !MASK_U31 } else { 0 };
         dst.put_u32(self.dependency_id.0 & MASK_U31 | exclusive);
         dst.put_u8(self.weight);
-- 
2.43.0


From e81a0927af76d05e4bdad1a3d863cedfb279de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 35/42] fix: a push promise is decoded with its header block

---
 src/http/http2/frame/headers.rs | 93 +++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 0f8d244..4030cf5 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -141,39 +141,8 @@ impl Headers {
         }
 
         let len = buffer.remaining();
-        let headers = decoder.decode(&mut buffer)?;
-        let mut header_size = 0;
-        for h in headers {
-            header_size += h.0.as_bytes().len() + h.1.as_bytes().len() + 32;
-            if header_size > max_header_list_size {
-                return Err(Http2Error::Decoder(DecoderError::HeaderIndexOutOfBounds).into());
-            }
-            if h.0.is_spec() {
-                let value: String = (&h.1).try_into()?;
-                match h.0.name() {
-                    ":authority" => {
-                        self.header_block.parts.authority = Some(value);
-                    }
-                    ":method" => {
-                        self.header_block.parts.method = Some(Method::try_from(&*value)?);
-                    }
-                    ":path" => {
-                        self.header_block.parts.path = Some(value);
-                    }
-                    ":scheme" => {
-                        self.header_block.parts.scheme = Some(Scheme::try_from(&*value)?);
-                    }
-                    ":status" => {
-                        self.header_block.parts.status = Some(StatusCode::try_from(&*value)?);
-                    }
-                    _ => {
-                        self.header_block.fields.insert(h.0, h.1);
-                    }
-                }
-            } else {
-                self.header_block.fields.insert(h.0, h.1);
-            }
-        }
+        self.header_block
+            .parse(&mut buffer, decoder, max_header_list_size)?;
         Ok(len - buffer.remaining())
     }
 
@@ -454,13 +423,19 @@ impl PushPromise {
     pub fn parse<B: Bt>(
         head: FrameHeader,
         mut src: B,
-        _decoder: &mut Decoder,
-        _max_header_list_size: usize,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
     ) -> WebResult<Self> {
+        if src.remaining() < 4 {
+            return Err(Http2Error::PayloadLengthTooShort.into());
+        }
         let promised_id = StreamIdentifier::parse(&mut src);
-        let push = PushPromise::new(head, promised_id, HeaderMap::new());
-        // push.header_block
-        //     .parse(&mut src, max_header_list_size, decoder)?;
+        if promised_id.is_zero() {
+            return Err(Http2Error::InvalidStreamId.into());
+        }
+        let mut push = PushPromise::new(head, promised_id, HeaderMap::new());
+        push.header_block
+            .parse(&mut src, decoder, max_header_list_size)?;
         Ok(push)
     }
 
@@ -608,6 +583,48 @@ impl Parts {
 }
 
 impl HeaderBlock {
+    fn parse<B: Bt>(
+        &mut self,
+        buffer: &mut B,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
+    ) -> WebResult<()> {
+        let headers = decoder.decode(buffer)?;
+        let mut header_size = 0;
+        for h in headers {
+            header_size += h.0.as_bytes().len() + h.1.as_bytes().len() + 32;
+            if header_size > max_header_list_size {
+                return Err(Http2Error::Decoder(DecoderError::HeaderIndexOutOfBounds).into());
+            }
+            if h.0.is_spec() {
+                let value: String = (&h.1).try_into()?;
+                match h.0.name() {
+                    ":authority" => {
+                        self.parts.authority = Some(value);
+                    }
+                    ":method" => {
+                        self.parts.method = Some(Method::try_from(&*value)?);
+                    }
+                    ":path" => {
+                        self.parts.path = Some(value);
+                    }
+                    ":scheme" => {
+                        self.parts.scheme = Some(Scheme::try_from(&*value)?);
+                    }
+                    ":status" => {
+                        self.parts.status = Some(StatusCode::try_from(&*value)?);
+                    }
+                    _ => {
+                        self.fields.insert(h.0, h.1);
+                    }
+                }
+            } else {
+                self.fields.insert(h.0, h.1);
+            }
+        }
+        Ok(())
+    }
+
     /// 编码整个头信息块, 超出最大帧大小的部分放到CONTINUATION帧中
     /// `head`和`prefix`为首帧的帧头以及头信息块之前的数据
     pub fn encode<B: Bt + BtMut>(
-- 
2.43.0


From ad85a3011a14521de0695052e1fa488b48d51d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 36/42] fix: request parts keep the query and the port of the
 url

---
 src/http/http2/frame/headers.rs | 10 ++++++++--
 src/url/url.rs                  | 19 ++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 4030cf5..af5d584 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -501,7 +501,7 @@ impl fmt::Debug for PushPromise {
 
 impl Parts {
     pub fn request(method: Method, uri: Url, protocol: Option<Scheme>) -> Self {
-        let path = uri.path;
+        let path = uri.encode_path_query();
 
         let mut parts = Parts {
             method: Some(method),
@@ -515,7 +515,13 @@ impl Parts {
             parts.set_scheme(uri.scheme);
         }
 
-        if let Some(authority) = uri.domain {
+        if let Some(domain) = uri.domain {
+            // 非默认的端口号必须保留
+            let authority = match (&parts.scheme, uri.port) {
+                (_, None) | (_, Some(0)) => domain,
+                (Some(Scheme::Http), Some(80)) | (Some(Scheme::Https), Some(443)) => domain,
+                (_, Some(port)) => format!("{}:{}", domain, port),
+            };
             parts.set_authority(authority);
         }
 
diff --git a/src/url/url.rs b/src/url/url.rs
index bced613..eaede40 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -313,6 +313,17 @@ impl Url {
 
     /// 请求行中的目标地址, 会破坏请求行或改变解析结果的字符进行转码
     pub(crate) fn encode_target(&self, method: &Method) -> WebResult<String> {
+        if method == &Method::Connect {
+            return match self.get_connect_url() {
+                Some(url) if url.bytes().all(Helper::is_token) => Ok(url),
+                _ => Err(WebError::Serialize("url")),
+            };
+        }
+        Ok(self.encode_path_query())
+    }
+
+    /// 路径及参数, 会改变解析结果的字符进行转码
+    pub(crate) fn encode_path_query(&self) -> String {
         fn escape(out: &mut String, val: &str, is_path: bool) {
             for b in val.bytes() {
                 if !Helper::is_token(b) || b == b'%' || (is_path && b == b'?') {
@@ -322,19 +333,13 @@ impl Url {
                 }
             }
         }
-        if method == &Method::Connect {
-            return match self.get_connect_url() {
-                Some(url) if url.bytes().all(Helper::is_token) => Ok(url),
-                _ => Err(WebError::Serialize("url")),
-            };
-        }
         let mut target = String::new();
         escape(&mut target, &self.path, true);
         if let Some(query) = &self.query {
             target.push('?');
             escape(&mut target, query, false);
         }
-        Ok(target)
+        target
     }
 
     pub fn url_decode(val: &str) -> WebResult<String> {
-- 
2.43.0


From f92a1160159d94c293222b264e1261de42bb30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 37/42] fix: authority and path of a header block stay separate
 in the url

---
 src/http/http2/frame/headers.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index af5d584..45fa77c 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -577,13 +577,26 @@ impl Parts {
         if self.authority.is_none() {
             return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
         }
+        let authority = self.authority.as_ref().unwrap();
+        // OPTIONS * 针对整个服务器, 不是普通的路径
+        let (path, is_server) = match self.path.as_deref() {
+            Some("*") => (Url::DEFAULT_PATH, true),
+            path => (path.unwrap_or(Url::DEFAULT_PATH), false),
+        };
+        // 各部分不能改变其它部分的内容
+        if authority.contains(&['/', '?'][..]) || !path.starts_with('/') {
+            return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
+        }
         let url = format!(
             "{}://{}{}",
             self.scheme.as_ref().unwrap_or(&Scheme::Http),
-            self.authority.as_ref().unwrap(),
-            self.path.clone().unwrap_or("/".to_string())
+            authority,
+            path
         );
-        let url = Url::parse(url.into_bytes().to_vec())?;
+        let mut url = Url::parse(url.into_bytes().to_vec())?;
+        if is_server {
+            url.path = "*".to_string();
+        }
         Ok(url)
     }
 }
-- 
2.43.0


From 470e9f87f34e1708d672e4f7644aa87f60052b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 38/42] verif hook: export header parts under cfg
 webparse_verif

---
 src/http/http2/frame/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index d439911..b0d5a96 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -29,6 +29,9 @@ pub use data::Data;
 pub use flag::Flag;
 pub use frame::{Frame, PriorityFrame};
 pub use headers::{Headers, PushPromise};
+#[allow(unexpected_cfgs)]
+#[cfg(webparse_verif)]
+pub use headers::Parts;
 pub use kind::Kind;
 pub use priority::{Priority, StreamDependency};
 
-- 
2.43.0


From 470dcd5b36d1da98fa996fd68a45086a55d82fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:25 +0000
Subject: [PATCH 39/42] fix: method names match up to the case of ascii letters
 only

---
 src/http/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/method.rs b/src/http/method.rs
index 3cb89c0..422a242 100644
--- a/src/http/method.rs
+++ b/src/http/method.rs
@@ -141,6 +141,6 @@ impl TryFrom<&str> for Method {
 impl FromStr for Method {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Method::try_from(&*s.to_uppercase())
+        Method::try_from(&*s.to_ascii_uppercase())
     }
 }
-- 
2.43.0


From 9fff493938a14786e6eb01a1132998951a19001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 40/42] fix: a promised request carries no content

---
 src/http/http2/frame/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 45fa77c..127e0d4 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -393,7 +393,7 @@ impl PushPromise {
         // The spec has some requirements for promised request headers
         // [https://httpwg.org/specs/rfc7540.html#PushRequests]
 
-        if req.get_body_len() == 0 {
+        if req.get_body_len() != 0 {
             return Err(Http2Error::PayloadLengthTooShort.into());
         }
         // "The server MUST include a method in the :method parts-header field
-- 
2.43.0


From b57d1f9378463b13c7e25dd9416d2860404e2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 41/42] fix: a port 0 stays in the authority of a header block

---
 src/http/http2/frame/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 127e0d4..adfda2a 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -518,7 +518,7 @@ impl Parts {
         if let Some(domain) = uri.domain {
             // 非默认的端口号必须保留
             let authority = match (&parts.scheme, uri.port) {
-                (_, None) | (_, Some(0)) => domain,
+                (_, None) | (None | Some(Scheme::Extension(_)), Some(0)) => domain,
                 (Some(Scheme::Http), Some(80)) | (Some(Scheme::Https), Some(443)) => domain,
                 (_, Some(port)) => format!("{}:{}", domain, port),
             };
-- 
2.43.0


From fe93796186d92ccc51c4122acefbe6174ec8ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 42/42] fix: error codes are read, and short buffers leave
 nothing to read

---
 src/http/http2/frame/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index b0d5a96..8260224 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -150,6 +150,9 @@ pub struct SizeIncrement(pub u32);
 
 impl SizeIncrement {
     pub fn parse<T: Bt>(buf: &mut T) -> SizeIncrement {
+        if buf.remaining() < 4 {
+            return SizeIncrement(0);
+        }
         SizeIncrement(buf.get_u32())
     }
 
@@ -176,8 +179,10 @@ pub struct ErrorCode(pub u32);
 
 impl ErrorCode {
     pub fn parse<T: Bt>(buf: &mut T) -> ErrorCode {
-        buf.advance(4);
-        ErrorCode(0)
+        if buf.remaining() < 4 {
+            return ErrorCode(0);
+        }
+        ErrorCode(buf.get_u32())
     }
 }
 
-- 
2.43.0

