From 872973df50b20a9068ca3c6af8377e4df8fd6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 01/56] fix: reject garbage and a bare space where a line end
 is required

skip_new_line reported Partial for a byte that can never become a line end,
so a caller waited forever for more data, and took a space for a line end,
so 'HTTP/1.1 \r\n' ended the header block and left the header lines
behind as if they were body.
---
 src/helper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 16ea461..99744a1 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -320,9 +320,7 @@ impl Helper {
             },
             b'\n' => {
             },
-            b' ' => {
-            },
-            _ => return Err(WebError::from(HttpError::Partial))
+            _ => return Err(WebError::from(HttpError::NewLine))
         };
         Ok(())
     }
-- 
2.43.0


From 345ed363991c2993878c53375061ad7405c381eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 02/56] fix: end a header value at a line feed and refuse NUL
 in it

A value ran on over LF until the next CR, so a bare-LF header line swallowed
the lines after it, and an empty value consumed one arbitrary byte, so
'Host:\r\r\n' was accepted.
---
 src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 99744a1..23f4c7f 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -191,7 +191,8 @@ impl Helper {
     }
 
     const HEADER_VALUE_MAP: [bool; 256] = byte_map![
-        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1,
+        0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1,
+    //  \0                            \n       \r
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -258,7 +259,6 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                next!(buffer)?;
                 return Ok("");
             }
             return Err(err);
-- 
2.43.0


From 7fbe3bb3c792fcc98c4a6d5d560eb73407c2f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 03/56] fix: strip optional whitespace around a header value

'Content-Length: 5 ' kept the space in the value, and the body length read
from it was 0.
---
 src/helper.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 23f4c7f..ef575c6 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -303,7 +303,16 @@ impl Helper {
     #[inline]
     pub(crate) fn parse_header_value<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderValue> {
         let token = Self::parse_token_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
-        Ok(HeaderValue::Value(token.as_bytes().to_vec()))
+        // 值前后的空白(OWS)不属于值的一部分
+        let is_ows = |b: &u8| *b == b' ' || *b == b'\t';
+        let mut bytes = token.as_bytes();
+        while bytes.first().map_or(false, is_ows) {
+            bytes = &bytes[1..];
+        }
+        while bytes.last().map_or(false, is_ows) {
+            bytes = &bytes[..bytes.len() - 1];
+        }
+        Ok(HeaderValue::Value(bytes.to_vec()))
     }
 
     #[inline]
-- 
2.43.0


From 977a60a12b2117f8373683c5056b0aa99f20f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 04/56] fix: do not panic or overflow on an oversized chunk
 length

---
 src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index ef575c6..bb489af 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -400,9 +400,9 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
-        let num = usize::from_str_radix(num, 16).unwrap();
+        let num = usize::from_str_radix(num, 16).map_err(WebError::from)?;
         Helper::skip_new_line(&mut val)?;
-        if num + 2 > val.remaining() {
+        if val.remaining() < 2 || num > val.remaining() - 2 {
             return Err(WebError::Http(HttpError::Partial));
         }
         return Ok((len - val.remaining(), num));
-- 
2.43.0


From 0a1f094e513f8d1c64540c3bdf2e33dfe9601670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 05/56] fix: compare only ASCII letters without regard to case

Any two bytes 32 apart compared equal, so header names such as 'x-a' and
'xMa' were the same name, in disagreement with their Hash.
---
 src/helper.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index bb489af..1148eba 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -446,19 +446,7 @@ impl Helper {
 
 
     pub fn eq_bytes_ignore_ascii_case(a: &[u8], b: &[u8]) -> bool {
-        if a.len() != b.len() {
-            return false;
-        }
-        for i in 0..a.len() {
-            if a[i] == b[i] {
-                continue;
-            }
-            let wrap = a[i].wrapping_sub(b[i]);
-            if wrap != 32 && wrap != 224 {
-                return false;
-            }
-        }
-        true
+        a.eq_ignore_ascii_case(b)
     }
     
     pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
-- 
2.43.0


From 39fc568d8f4f5d3a293aae6cac59d42d065e6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 06/56] fix: refuse a header number that overflows or carries a
 misplaced sign

The last digit was added unchecked, so 18446744073709551619 wrapped to 3 in
release builds and panicked in debug ones, and '0-5' or '--5' read as -5.
---
 src/http/value.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 087f1ae..730bcc6 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -118,7 +118,9 @@ impl TryInto<usize> for &HeaderValue {
                     }
                     match result.overflowing_mul(10) {
                         (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as usize;
+                            result = u
+                                .checked_add((b - Helper::DIGIT_0) as usize)
+                                .ok_or(WebError::IntoError)?;
                         }
                         (_u, true) => return Err(WebError::IntoError),
                     }
@@ -138,9 +140,9 @@ impl TryInto<isize> for &HeaderValue {
             HeaderValue::Value(v) => {
                 let mut result = 0isize;
                 let mut is_neg = false;
-                for b in v {
+                for (idx, b) in v.iter().enumerate() {
                     if !Helper::is_digit(*b) {
-                        if b == &b'-' && result == 0 {
+                        if b == &b'-' && idx == 0 {
                             is_neg = true;
                             continue;
                         }
@@ -148,7 +150,9 @@ impl TryInto<isize> for &HeaderValue {
                     }
                     match result.overflowing_mul(10) {
                         (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as isize;
+                            result = u
+                                .checked_add((b - Helper::DIGIT_0) as isize)
+                                .ok_or(WebError::IntoError)?;
                         }
                         (_u, true) => return Err(WebError::IntoError),
                     }
-- 
2.43.0


From fcf4e184203d1e6557629ceee795f597a6c8bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 07/56] fix: match Connection and Transfer-Encoding options as
 case-insensitive tokens

'Connection: keep-alive', the usual spelling, was not keep-alive, 'Chunked'
was not chunked, and 'not-chunked' was.
---
 src/http/header.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 485a460..62e34d5 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -234,7 +234,7 @@ impl HeaderMap {
 
     pub fn is_keep_alive(&self) -> bool {
         if let Some(value) = self.get_option_value(&HeaderName::CONNECTION) {
-            Self::contains_bytes(value.as_bytes(), b"Keep-Alive")
+            Self::contains_token(value.as_bytes(), b"Keep-Alive")
         } else {
             false
         }
@@ -242,7 +242,7 @@ impl HeaderMap {
 
     pub fn is_chunked(&self) -> bool {
         if let Some(value) = self.get_option_value(&HeaderName::TRANSFER_ENCODING) {
-            Self::contains_bytes(value.as_bytes(), b"chunked")
+            Self::contains_token(value.as_bytes(), b"chunked")
         } else {
             false
         }
@@ -250,7 +250,7 @@ impl HeaderMap {
 
     pub fn get_upgrade_protocol(&self) -> Option<String> {
         if let Some(value) = self.get_option_value(&HeaderName::CONNECTION) {
-            if !Self::contains_bytes(value.as_bytes(), b"Upgrade") {
+            if !Self::contains_token(value.as_bytes(), b"Upgrade") {
                 return None;
             }
         } else {
@@ -296,16 +296,10 @@ impl HeaderMap {
         Ok(size)
     }
 
-    fn contains_bytes(src: &[u8], dst: &[u8]) -> bool {
-        if dst.len() > src.len() {
-            return false;
-        }
-        for i in 0..(src.len() - dst.len() + 1) {
-            if &src[i..(i + dst.len())] == dst {
-                return true;
-            }
-        }
-        false
+    /// 列表型的头, 按分隔符逐项比较, 不区分大小写
+    fn contains_token(src: &[u8], token: &[u8]) -> bool {
+        src.split(|b| *b == b',' || *b == b';')
+            .any(|item| item.trim_ascii().eq_ignore_ascii_case(token))
     }
 }
 
-- 
2.43.0


From bd775db15b8d811984ffd7503f9b363b8add62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 08/56] fix: drop the port from the host taken from :authority

splitn(1, ':') never splits, so the port stayed on, against the comment.
---
 src/http/header.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 62e34d5..8c657c1 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -185,8 +185,11 @@ impl HeaderMap {
             let value = TryInto::<String>::try_into(value).ok().unwrap();
             // host 信息只取前缀
             if value.contains(":") {
-                let v: Vec<&str> = value.splitn(1, ':').collect();
-                return Some(v[0].to_string());
+                let end = match value.rfind(']') {
+                    Some(idx) if value.starts_with('[') => idx + 1,
+                    _ => value.find(':').unwrap_or(value.len()),
+                };
+                return Some(value[..end].to_string());
             } else {
                 return Some(value);
             }
-- 
2.43.0


From 9b065c93dc843cedd5797e558ef81f26491391fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 09/56] fix: refuse to encode a header holding CR, LF or NUL

Such a value, for example a Host taken from a percent-decoded URL, was written
out raw and came back as extra header lines or body.
---
 src/http/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http/header.rs b/src/http/header.rs
index 8c657c1..daee1f0 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -290,6 +290,11 @@ impl HeaderMap {
     pub fn encode<B: Bt + BtMut>(&self, buffer: &mut B) -> WebResult<usize> {
         let mut size = 0;
         for value in self.iter() {
+            // 换行会变成新的头或者正文, 不允许编码
+            let is_break = |b: &u8| matches!(*b, b'\r' | b'\n' | 0);
+            if value.0.as_bytes().iter().any(is_break) || value.1.as_bytes().iter().any(is_break) {
+                return Err(WebError::Serialize("header"));
+            }
             size += value.0.encode(buffer)?;
             size += buffer.put_slice(": ".as_bytes());
             size += value.1.encode(buffer)?;
-- 
2.43.0


From 06bac4c6fb3b20ca2b3aae1094ac91eb6b6119cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 10/56] fix: report a request complete only once its target has
 been accepted

A head whose target or Host was refused returned an error and is_complete().
---
 src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 942534b..aa7ef21 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -560,7 +560,6 @@ where
         self.parts.version = Helper::parse_version(buffer)?;
         Helper::skip_new_line(buffer)?;
         Helper::parse_header(buffer, &mut self.parts.header)?;
-        self.partial = false;
         self.parts.url = match self.parts.method {
             // Connect 协议, Path则为连接地址,
             Method::Connect => {
@@ -594,6 +593,7 @@ where
                 url
             }
         };
+        self.partial = false;
         Ok(len - buffer.remaining())
     }
 
-- 
2.43.0


From ed1429e16aca82a3bb96cac56aa8c3b06619b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 11/56] fix: accept an IPv6 literal in Host and CONNECT, and
 only digits as port

'Host: [::1]:8080' was refused for its colons, while 'Host: a:+80' passed.
---
 src/http/request.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index aa7ef21..a5e425d 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -534,16 +534,22 @@ where
     }
 
     fn parse_connect_by_host(url: &mut Url, h: &String) -> WebResult<()> {
-        // Host中存在端口号, 则直接取端口号
-        let vec: Vec<&str> = h.split(":").collect();
-        if vec.len() == 1 {
-            url.domain = Some(vec[0].to_string());
+        // Host中存在端口号, 则直接取端口号, ipv6地址由[]包裹, 其中的冒号不是端口号
+        let end = match h.rfind(']') {
+            Some(idx) if h.starts_with('[') => idx + 1,
+            _ => h.find(':').unwrap_or(h.len()),
+        };
+        let (domain, port) = h.split_at(end);
+        url.domain = Some(domain.to_string());
+        if port.is_empty() {
             url.port = Some(80);
-        } else if vec.len() == 2 {
-            url.domain = Some(vec[0].to_string());
-            url.port = Some(vec[1].parse().map_err(WebError::from)?);
         } else {
-            return Err(WebError::IntoError);
+            match port.strip_prefix(':') {
+                Some(port) if port.bytes().all(Helper::is_digit) => {
+                    url.port = Some(port.parse().map_err(WebError::from)?);
+                }
+                _ => return Err(WebError::IntoError),
+            }
         }
 
         Ok(())
-- 
2.43.0


From 246a92eed23bcd89bd75bb42955959f27b87eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 12/56] fix: end the URL authority at the first slash or
 question mark

'http://example.com/@evil.com' got the host evil.com, '/p@q' was refused, and
'http://h:80?90' got port 8090.
---
 src/url/url.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 3dccc0d..dabf31a 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -172,7 +172,7 @@ impl Url {
                 } else {
                     val.push(b);
                 }
-            } else if b == b'@' {
+            } else if b == b'@' && !is_first_slash {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
                 if domain.is_none() {
                     return Err(WebError::from(UrlError::UrlInvalid));
@@ -194,9 +194,14 @@ impl Url {
                 val.push(b);
             } else if b == b'?' {
                 if !is_first_slash {
-                    if domain.is_none() && has_domain {
+                    //域名后直接跟'?', 路径为默认值
+                    if domain.is_none() {
                         domain = Some(build_binary(&mut val));
+                    } else {
+                        port = Some(build_binary(&mut val));
                     }
+                    is_first_slash = true;
+                    path = Some(Binary::from(Self::DEFAULT_PATH.as_bytes().to_vec()));
                 // 多个'?'忽略当作query
                 } else if path.is_none() {
                     path = Some(build_binary(&mut val));
-- 
2.43.0


From 1b08891c6f3715222e04e27baa733ab851b76eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 13/56] fix: report a truncated URL as invalid rather than
 partial

A complete request head with the target '/%4' or 'http' was answered with
Partial, so the caller waited for bytes that cannot help.
---
 src/url/url.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index dabf31a..1a51c9b 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -86,8 +86,8 @@ impl Url {
                 if !can_convert {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
-                let t = Helper::convert_hex(next!(buffer)?);
-                let u = Helper::convert_hex(next!(buffer)?);
+                let t = buffer.get_next().and_then(Helper::convert_hex);
+                let u = buffer.get_next().and_then(Helper::convert_hex);
                 if t.is_none() || u.is_none() {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
@@ -104,7 +104,7 @@ impl Url {
 
     pub fn parse(url: Vec<u8>) -> WebResult<Url> {
         let mut buffer = Binary::from(url);
-        let mut b = peek!(buffer)?;
+        let mut b = peek!(buffer).map_err(|_| WebError::from(UrlError::UrlInvalid))?;
         let mut scheme = Scheme::None;
         // let mut scheme_end = None;
         let mut username = None;
@@ -116,10 +116,16 @@ impl Url {
         let mut is_first_slash = false;
         let mut has_domain = true;
         if Helper::is_alpha(b) {
-            scheme = Scheme::parse_scheme(&mut buffer)?;
-            expect!(buffer.next() == b':' => Err(WebError::from(UrlError::UrlInvalid)));
-            expect!(buffer.next() == b'/' => Err(WebError::from(UrlError::UrlInvalid)));
-            expect!(buffer.next() == b'/' => Err(WebError::from(UrlError::UrlInvalid)));
+            // 地址总是完整的, 不完整的地址是错误而不是Partial
+            scheme = match Scheme::parse_scheme(&mut buffer) {
+                Err(e) if e.is_partial() => return Err(WebError::from(UrlError::UrlInvalid)),
+                v => v?,
+            };
+            for c in b"://" {
+                if buffer.get_next() != Some(*c) {
+                    return Err(WebError::from(UrlError::UrlInvalid));
+                }
+            }
             // buffer.mark_commit();
         } else if b == b'/' {
             is_first_slash = true;
-- 
2.43.0


From 083ad913fc2ed3047104d5d7e4ab5cb0a1202bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 14/56] fix: refuse a sign in a URL port

---
 src/url/url.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 1a51c9b..c8f158f 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -237,9 +237,10 @@ impl Url {
         if port.is_some() {
             let port = Self::parse_url_token(&mut port.unwrap(), true)?;
             if port.is_some() {
-                url.port = match port.unwrap().parse::<u16>() {
-                    Ok(v) => Some(v),
-                    Err(_) => return Err(WebError::from(UrlError::UrlInvalid)),
+                let port = port.unwrap();
+                url.port = match port.parse::<u16>() {
+                    Ok(v) if !port.starts_with('+') => Some(v),
+                    _ => return Err(WebError::from(UrlError::UrlInvalid)),
                 }
             }
         }
-- 
2.43.0


From 5d26a8e0fe1f49473f8b77f9e0a22d052f8ef78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 15/56] fix: recognise URL schemes without regard to case

'HTTP://h/' was an unknown scheme with port 0, and parsing a scheme from a
string upper-cased it first, so 'http'.parse() was one too.
---
 src/url/scheme.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/url/scheme.rs b/src/url/scheme.rs
index eb8554f..9650c4e 100644
--- a/src/url/scheme.rs
+++ b/src/url/scheme.rs
@@ -139,7 +139,7 @@ impl TryFrom<&str> for Scheme {
         if value.len() > 64 {
             return Err(WebError::from(crate::UrlError::UrlInvalid));
         }
-        match value {
+        match &*value.to_ascii_lowercase() {
             "http" => Ok(Scheme::Http),
             "https" => Ok(Scheme::Https),
             "ws" => Ok(Scheme::Ws),
@@ -153,6 +153,6 @@ impl TryFrom<&str> for Scheme {
 impl FromStr for Scheme {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Scheme::try_from(&*s.to_uppercase())
+        Scheme::try_from(s)
     }
 }
\ No newline at end of file
-- 
2.43.0


From bace6d113a2b4008c3c6ca8e1435fc22a5dd5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 16/56] fix: escape delimiters when a URL is displayed

A '?' in the path, or any delimiter in the user, password or host, was written
raw, so 'http://h/a%3Fb' displayed as 'http://h/a?b', another URL.
---
 src/url/url.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index c8f158f..c33e715 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -283,6 +283,21 @@ impl Url {
         String::from_utf8_lossy(&vec).to_string()
     }
 
+    /// 用户名, 密码, 域名中的分隔符也需要转码, 否则重新解析时会被当作分隔符
+    fn authority_encode(val: &str) -> String {
+        // ipv6地址, 如[::1]
+        if let Some(ip) = val.strip_prefix('[').and_then(|v| v.strip_suffix(']')) {
+            if ip.bytes().all(|b| Helper::is_hex(b) || b == b':' || b == b'.') {
+                return val.to_string();
+            }
+        }
+        Self::url_encode(val)
+            .replace('/', "%2F")
+            .replace('?', "%3F")
+            .replace(':', "%3A")
+            .replace('@', "%40")
+    }
+
     pub fn url_decode(val: &str) -> WebResult<String> {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity(bytes.len() as usize);
@@ -358,12 +373,15 @@ impl Display for Url {
         if self.username.is_some() || self.password.is_some() {
             f.write_fmt(format_args!(
                 "{}:{}@",
-                Self::url_encode(self.username.as_ref().unwrap_or(&String::new())),
-                Self::url_encode(self.password.as_ref().unwrap_or(&String::new()))
+                Self::authority_encode(self.username.as_ref().unwrap_or(&String::new())),
+                Self::authority_encode(self.password.as_ref().unwrap_or(&String::new()))
             ))?;
         }
         if self.domain.is_some() {
-            f.write_fmt(format_args!("{}", self.domain.as_ref().unwrap()))?;
+            f.write_fmt(format_args!(
+                "{}",
+                Self::authority_encode(self.domain.as_ref().unwrap())
+            ))?;
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
@@ -372,7 +390,7 @@ impl Display for Url {
                 _ => f.write_fmt(format_args!(":{}", self.port.as_ref().unwrap()))?,
             };
         }
-        f.write_fmt(format_args!("{}", Self::url_encode(&self.path)))?;
+        f.write_fmt(format_args!("{}", Self::url_encode(&self.path).replace('?', "%3F")))?;
         if self.query.is_some() {
             f.write_fmt(format_args!(
                 "?{}",
-- 
2.43.0


From 609f9aa7f4616fb163da7df2e48e19d8314b1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 17/56] fix: accept an IPv6 literal as the host of a URL

---
 src/url/url.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index c33e715..c36c9b1 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -115,6 +115,7 @@ impl Url {
         let mut query: Option<_> = None;
         let mut is_first_slash = false;
         let mut has_domain = true;
+        let mut in_ip = false;
         if Helper::is_alpha(b) {
             // 地址总是完整的, 不完整的地址是错误而不是Partial
             scheme = match Scheme::parse_scheme(&mut buffer) {
@@ -165,8 +166,14 @@ impl Url {
                 }
             };
 
+            // []包裹的为ipv6地址, 其中的冒号不是分隔符
+            if b == b'[' && val.is_empty() {
+                in_ip = !is_first_slash;
+            } else if b == b']' || b == b'/' {
+                in_ip = false;
+            }
             // 存在用户名, 解析用户名
-            if b == b':' {
+            if b == b':' && !in_ip {
                 //未存在协议头, 允许path与query, 忽略掉冒号
                 if !is_first_slash {
                     // 匹配域名, 如果在存在期间检测到@则把当前当作用户结尾
-- 
2.43.0


From 92873658c9f5637abbb8f4b42460037b43391dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 18/56] fix: write the whole request target when encoding a
 request

Only the decoded path was written: the query was dropped, '%20' or '%0d%0a'
came out as a raw space or line break in the request line, and a CONNECT went
to '/' instead of its host and port.
---
 src/http/request.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index a5e425d..7fee141 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -647,7 +647,7 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += self.parts.url.path.serialize(buffer)?;
+        size += buffer.put_slice(self.parts.get_target().as_bytes());
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
@@ -695,6 +695,31 @@ impl Parts {
     pub fn get_connect_url(&self) -> Option<String> {
         self.url.get_connect_url()
     }
+
+    /// 请求行中的目标, url中保存的是解码后的值, 写入时需重新转码
+    fn get_target(&self) -> String {
+        fn encode(target: &mut String, val: &str, is_path: bool) {
+            for b in val.bytes() {
+                if !Helper::is_token(b) || b == b'%' || (is_path && b == b'?') {
+                    target.push_str(&format!("%{:02X}", b));
+                } else {
+                    target.push(b as char);
+                }
+            }
+        }
+        let mut target = String::new();
+        match (&self.method, self.get_connect_url()) {
+            (Method::Connect, Some(connect)) => encode(&mut target, &connect, false),
+            _ => {
+                encode(&mut target, &self.url.path, true);
+                if let Some(query) = &self.url.query {
+                    target.push('?');
+                    encode(&mut target, query, false);
+                }
+            }
+        }
+        target
+    }
 }
 
 impl Default for Request<()> {
@@ -714,7 +739,7 @@ where
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         self.parts.method.fmt(f)?;
         f.write_str(" ")?;
-        self.parts.url.path.fmt(f)?;
+        self.parts.get_target().fmt(f)?;
         f.write_str(" ")?;
         self.parts.version.fmt(f)?;
         f.write_str("\r\n")?;
-- 
2.43.0


From df96255474712ad56af56a914547a3a78011f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 19/56] fix: accept the asterisk target of OPTIONS

---
 src/http/request.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 7fee141..24c83cf 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -574,7 +574,14 @@ where
                 url
             }
             _ => {
-                let mut url = Url::try_from(path)?;
+                // OPTIONS * 针对的是整个服务器
+                let mut url = if self.parts.method == Method::Options && path == "*" {
+                    let mut url = Url::new();
+                    url.path = path;
+                    url
+                } else {
+                    Url::try_from(path)?
+                };
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
-- 
2.43.0


From 27d0f1afdbfb67607a192230c0f4a5a8706ac504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 20/56] fix: accept an empty reason phrase

'HTTP/1.1 200 \r\n', which RFC 9112 requires of servers without a phrase, was
refused.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 1148eba..64c6a5f 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -288,7 +288,7 @@ impl Helper {
 
     #[inline]
     pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_status_token, WebError::from(HttpError::Token))
+        Self::parse_token_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
     }
 
     #[inline]
-- 
2.43.0


From 08c2a75cfe4dba2e276e279a2b43651ca63a39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 21/56] fix: encode a status code that has no canonical reason

A response carrying a valid but unregistered code such as 299 parsed and then
could not be encoded.
---
 src/http/status.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/http/status.rs b/src/http/status.rs
index 1b7824e..cb9151a 100644
--- a/src/http/status.rs
+++ b/src/http/status.rs
@@ -202,10 +202,8 @@ impl StatusCode {
     }
 
     pub fn encode<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
-        match self.canonical_reason() {
-            Some(s) => Ok(buffer.put_slice(format!("{} {}\r\n", self.as_str(), s).as_bytes())),
-            _ => return Err(WebError::from(HttpError::InvalidStatusCode)),
-        }
+        let reason = self.canonical_reason().unwrap_or("");
+        Ok(buffer.put_slice(format!("{} {}\r\n", self.as_str(), reason).as_bytes()))
     }
 }
 
-- 
2.43.0


From 93504f064ffc1161ef8d747f652f2145e7e811bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 22/56] fix: name entry 15 of the HPACK static table
 accept-charset

---
 src/http/http2/hpack/header_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 09d9188..e093707 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -184,7 +184,7 @@ static STATIC_TABLE_RAW: &'static [(&'static str, &'static str)] = &[
     (":status", "400"),
     (":status", "404"),
     (":status", "500"),
-    ("accept-", ""),
+    ("accept-charset", ""),
     ("accept-encoding", "gzip, deflate"),
     ("accept-language", ""),
     ("accept-ranges", ""),
-- 
2.43.0


From 0b79a0b22b8467e624e8726c3af55f5204137321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 23/56] fix: refuse the EOS symbol inside a Huffman string

It decoded to a NUL byte, EOS being entry 256 of the table truncated to u8.
---
 src/http/http2/hpack/huffman.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http/http2/hpack/huffman.rs b/src/http/http2/hpack/huffman.rs
index bee3f9d..a463653 100644
--- a/src/http/http2/hpack/huffman.rs
+++ b/src/http/http2/hpack/huffman.rs
@@ -61,6 +61,9 @@ impl HuffmanDecoder {
             }
 
             let key = (current, current_len);
+            if key == (EOS_VALUE, EOS_LEN) {
+                return Err(Http2Error::into(HuffmanDecoderError::EOSInString));
+            }
             if HUFFMAN_CODE_MAP.contains_key(&key) {
                 let val = HUFFMAN_CODE_MAP.get(&key).unwrap();
                 result.push(*val);
-- 
2.43.0


From a89557da91165108b6518296034916bd416deb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 24/56] fix: decode an HPACK index of 127 and above

Only the first octet was read, so such a reference failed as out of bounds or
was followed by garbage; the encoder writes these once the table is large.
---
 src/http/http2/hpack/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 3b89c6f..c80689d 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -121,7 +121,7 @@ impl Decoder {
             let buffer_leftover = buf.chunk();
             let consumed = match FieldRepresentation::new(initial_octet) {
                 FieldRepresentation::Indexed => {
-                    let consumed = (self.decode_indexed(initial_octet, |name, value| {
+                    let consumed = (self.decode_indexed(buffer_leftover, |name, value| {
                         cb(Cow::Borrowed(name), Cow::Borrowed(value));
                     }))?;
                     consumed
@@ -296,17 +296,17 @@ impl Decoder {
         Ok(((name, HeaderValue::from_bytes(&value)), consumed))
     }
 
-    fn decode_indexed<F>(&self, index: u8, call: F) -> WebResult<usize>
+    fn decode_indexed<F>(&self, buf: &[u8], call: F) -> WebResult<usize>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
     {
-        let index = index & 0x7f;
+        let (index, consumed) = Self::decode_integer(buf, 7)?;
         let header = self.index.read().unwrap();
         let (name, value) = header
-            .get_from_index(index as usize)
+            .get_from_index(index)
             .ok_or(Http2Error::into(DecoderError::HeaderIndexOutOfBounds))?;
         call(name, value);
-        Ok(1)
+        Ok(consumed)
     }
 
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
-- 
2.43.0


From d5ad0586cfb60b58a3e3f7a9bbfe6a5e56292a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 25/56] fix: handle the HPACK dynamic table size update

The decoder consumed nothing for it and looped forever on the same octet.
---
 src/http/http2/hpack/decoder.rs      |  7 +++++--
 src/http/http2/hpack/header_index.rs | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index c80689d..a8a8608 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -164,8 +164,11 @@ impl Decoder {
                 }
                 FieldRepresentation::SizeUpdate => {
                     // Handle the dynamic table size update...
-                    // self.update_max_dynamic_size(buffer_leftover)
-                    0
+                    let (size, consumed) = Self::decode_integer(buffer_leftover, 5)?;
+                    if !self.index.write().unwrap().update_table_size(size) {
+                        return Err(Http2Error::into(DecoderError::InvalidMaxDynamicSize));
+                    }
+                    consumed
                 }
             };
 
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index e093707..01d0fc4 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -19,6 +19,8 @@ pub struct HeaderIndex {
     table: VecDeque<(HeaderName, HeaderValue)>,
     size: usize,
     max_size: usize,
+    /// 由设置决定的上限, 对端可在头块中将大小调整为不大于该值
+    limit_size: usize,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -94,6 +96,7 @@ impl HeaderIndex {
             table: VecDeque::new(),
             size: 0,
             max_size,
+            limit_size: max_size,
         }
     }
 
@@ -110,11 +113,22 @@ impl HeaderIndex {
     }
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
+        self.limit_size = new_max_size;
         self.max_size = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
     }
 
+    /// 头块中的动态表大小更新, 超过设置的上限则返回false
+    pub(crate) fn update_table_size(&mut self, new_size: usize) -> bool {
+        if new_size > self.limit_size {
+            return false;
+        }
+        self.max_size = new_size;
+        self.consolidate_table();
+        true
+    }
+
     /// Returns the maximum size of the table in octets.
     pub fn get_max_table_size(&self) -> usize {
         self.max_size
-- 
2.43.0


From d9be61c52d544a5059b7c27e8df0de5a3cb1c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 26/56] fix: read the value of an ErrorCode instead of skipping
 it

---
 src/http/http2/frame/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index d439911..589e3bd 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -173,8 +173,7 @@ pub struct ErrorCode(pub u32);
 
 impl ErrorCode {
     pub fn parse<T: Bt>(buf: &mut T) -> ErrorCode {
-        buf.advance(4);
-        ErrorCode(0)
+        ErrorCode(buf.get_u32())
     }
 }
 
-- 
2.43.0


From 2a55a92d2899d53e481808789f05d37766381c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 27/56] fix: ignore undefined HTTP/2 frame flags

RFC 9113 4.1: flags without semantics for a frame type MUST be ignored; the
frame was refused with BadFlag.
---
 src/http/http2/frame/flag.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/http/http2/frame/flag.rs b/src/http/http2/frame/flag.rs
index 978f55b..ed874f1 100644
--- a/src/http/http2/frame/flag.rs
+++ b/src/http/http2/frame/flag.rs
@@ -26,10 +26,8 @@ impl Flag {
         Flag::default()
     }
     pub fn new(data: u8) -> Result<Flag, ()> {
-        match Flag::from_bits(data) {
-            Some(v) => Ok(v),
-            None => Err(()),
-        }
+        // 未定义的标志位必须忽略
+        Ok(Flag::from_bits_truncate(data))
     }
 
     pub fn load(mut flag: Flag) -> Flag {
-- 
2.43.0


From 43c0c344f6b199823a615f195b2344e27528a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 28/56] fix: refuse a PRIORITY frame that is not five octets
 long

---
 src/http/http2/frame/priority.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index aa3f3e4..0939e9f 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -37,6 +37,9 @@ pub struct StreamDependency {
 
 impl Priority {
     pub fn parse<B: Bt>(head: FrameHeader, payload: &mut B) -> WebResult<Self> {
+        if payload.remaining() != 5 {
+            return Err(Http2Error::InvalidPayloadLength.into());
+        }
         let dependency = StreamDependency::load(payload)?;
 
         if dependency.dependency_id() == head.stream_id() {
-- 
2.43.0


From 316a79aa05d7735a823accb4e0e0640d9e131dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 29/56] fix: write the length and the exclusive bit of a
 PRIORITY frame

The frame header announced no payload, so the five octets after it were read
as the start of the next frame.
---
 src/http/http2/frame/priority.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index 0939e9f..194be74 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -73,7 +73,8 @@ impl Priority {
     }
 
     pub fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        let head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        let mut head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        head.length = 5;
         let mut size = 0;
         size += head.encode(dst)?;
         size += self.dependency.encode(dst)?;
@@ -118,7 +119,8 @@ impl StreamDependency {
     }
 
     fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        self.dependency_id.encode(dst)?;
+        let exclusive = if self.is_exclusive { MASK_U31 + 1 } else { 0 };
+        StreamIdentifier(self.dependency_id.0 | exclusive).encode(dst)?;
         dst.put_u8(self.weight);
         Ok(5)
     }
-- 
2.43.0


From 3064c9c56b97c07167690b5589f4bfec0f2f4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 30/56] fix: report the stream of a PRIORITY frame and the ACK
 flag of a PING

---
 src/http/http2/frame/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index d2125ba..c2e0e1f 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -79,7 +79,7 @@ impl Frame<Binary> {
         match self {
             Frame::Data(f) => f.stream_id(),
             Frame::Headers(f) => f.stream_id(),
-            Frame::Priority(_f) => StreamIdentifier::zero(),
+            Frame::Priority(f) => f.stream_id(),
             Frame::PushPromise(f) => f.stream_id(),
             Frame::Settings(_f) => StreamIdentifier::zero(),
             Frame::Ping(_f) => StreamIdentifier::zero(),
@@ -96,6 +96,7 @@ impl Frame<Binary> {
             Frame::Priority(_f) => Flag::zero(),
             Frame::PushPromise(f) => f.flags(),
             Frame::Settings(f) => f.flags(),
+            Frame::Ping(f) if f.is_ack() => Flag::ack(),
             Frame::Ping(_f) => Flag::zero(),
             Frame::GoAway(_f) => Flag::zero(),
             Frame::WindowUpdate(_f) => Flag::zero(),
-- 
2.43.0


From be35e00a25b5a6b7ab57130370f6036fd82b84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 31/56] fix: refuse a frame on a stream its type does not
 belong to

DATA on stream 0 panicked; HEADERS, PRIORITY, RST_STREAM and PUSH_PROMISE on
stream 0 and GOAWAY on another one were accepted.
---
 src/http/http2/frame/frame.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index c2e0e1f..fdf943e 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -161,6 +161,14 @@ impl<T: Bt> Frame<T> {
     ) -> WebResult<Frame<T>> {
         Frame::trim_padding(&header, &mut buf)?;
         match header.kind() {
+            Kind::Data | Kind::Headers | Kind::Priority | Kind::Reset | Kind::PushPromise
+                if header.stream_id().is_zero() =>
+            {
+                Err(Http2Error::into(Http2Error::InvalidStreamId))
+            }
+            Kind::GoAway if !header.stream_id().is_zero() => {
+                Err(Http2Error::into(Http2Error::InvalidStreamId))
+            }
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
-- 
2.43.0


From 18ff5ab9f00512c8790542a1611b61fa71fb1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 32/56] fix: remove the padding of DATA, HEADERS and
 PUSH_PROMISE frames

Only the pad length octet was taken off: the padding stayed in the data and
was decoded as header fields. The octet was also taken off frames of other
types, and a pad length as long as the payload was let through.
---
 src/http/http2/frame/frame.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index fdf943e..5300098 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -49,16 +49,24 @@ pub enum Frame<T = Binary> {
 impl Frame<Binary> {
     #[inline]
     pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
-        if header.flag.is_padded() && buf.has_remaining() {
-            let pad_length = buf.peek().unwrap();
-            if pad_length as u32 > header.length {
-                return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
-            } else {
-                buf.advance(1);
-                // buf.mark_len(header.length as usize - pad_length as usize - 1);
-            }
+        Self::read_padding(header, buf).map(|_| ())
+    }
+
+    /// 消耗填充长度字节, 返回末尾需要去除的填充字节数
+    fn read_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<usize> {
+        // 仅这三种帧可以填充, 其它帧的标志位无意义
+        match header.kind() {
+            Kind::Data | Kind::Headers | Kind::PushPromise if header.flag.is_padded() => {}
+            _ => return Ok(0),
+        }
+        let pad_length = match buf.get_next() {
+            Some(v) => v,
+            None => return Err(Http2Error::into(Http2Error::PayloadLengthTooShort)),
+        };
+        if pad_length as usize > buf.remaining() {
+            return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
         }
-        Ok(())
+        Ok(pad_length as usize)
     }
 
     pub fn display_name(&self) -> String {
@@ -152,14 +160,17 @@ impl Frame<Binary> {
     }
 }
 
-impl<T: Bt> Frame<T> {
+impl<T: Bt + From<Vec<u8>>> Frame<T> {
     pub fn parse(
         header: FrameHeader,
         mut buf: T,
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
-        Frame::trim_padding(&header, &mut buf)?;
+        let padding = Frame::read_padding(&header, &mut buf)?;
+        if padding > 0 {
+            buf = T::from(buf.chunk()[..buf.remaining() - padding].to_vec());
+        }
         match header.kind() {
             Kind::Data | Kind::Headers | Kind::Priority | Kind::Reset | Kind::PushPromise
                 if header.stream_id().is_zero() =>
@@ -194,7 +205,9 @@ impl<T: Bt> Frame<T> {
             _ => Err(crate::WebError::Extension("")),
         }
     }
+}
 
+impl<T: Bt> Frame<T> {
     /// How many bytes this Frame will use in a buffer when encoding.
     pub fn encoded_len(&self) -> usize {
         0
-- 
2.43.0


From 0ca293dce9f55d0f5b759c4c8af139209301fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 33/56] fix: clear the PADDED flag of an encoded DATA frame

No padding is written, so the first octet of the data was read as its length.
---
 src/http/http2/frame/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http/http2/frame/data.rs b/src/http/http2/frame/data.rs
index e239661..ab00187 100644
--- a/src/http/http2/frame/data.rs
+++ b/src/http/http2/frame/data.rs
@@ -97,6 +97,8 @@ impl Data<Binary> {
             let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size); 
             let mut head = FrameHeader::new(Kind::Data, self.flags.into(), self.stream_id);
             head.length = now_len as u32;
+            // 写入时不带填充
+            head.flags_mut().unset_padded();
             if now_len < self.data.remaining() {
                 head.flags_mut().unset_end_stream();
                 size += head.encode(dst)?;
-- 
2.43.0


From 92f6872e2a183a864e1edcd34e1a932f6d30b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 34/56] fix: encode the pseudo-header fields of a HEADERS
 frame, first

Method, scheme, authority, path and status set on a Headers, or read by its own
parser, were dropped when it was encoded, and pseudo-header fields kept in the
map could follow regular ones.
---
 src/http/http2/frame/headers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 48c4077..80841b7 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -610,7 +610,10 @@ impl HeaderBlock {
         let mut result = vec![];
         let mut binary = BinaryMut::new();
 
-        for value in self.fields.iter() {
+        self.parts.encode_header(&mut self.fields);
+        // 伪头必须在普通头之前
+        let (spec, normal): (Vec<_>, Vec<_>) = self.fields.iter().partition(|v| v.0.is_spec());
+        for value in spec.into_iter().chain(normal) {
             if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
                 > encoder.max_frame_size as usize
             {
-- 
2.43.0


From a190049d46045ad2d94fcba9fc587876d812bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 35/56] fix: split a header block by its encoded size and keep
 END_STREAM first

A field larger than a frame was written past max_frame_size, and END_STREAM
moved to the last CONTINUATION, which does not define it.
---
 src/http/http2/frame/headers.rs | 49 ++++++++++++++-------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 80841b7..0b2c071 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -607,46 +607,37 @@ impl HeaderBlock {
         mut flags: Flag,
         stream_id: StreamIdentifier,
     ) -> WebResult<usize> {
-        let mut result = vec![];
         let mut binary = BinaryMut::new();
 
         self.parts.encode_header(&mut self.fields);
         // 伪头必须在普通头之前
         let (spec, normal): (Vec<_>, Vec<_>) = self.fields.iter().partition(|v| v.0.is_spec());
         for value in spec.into_iter().chain(normal) {
-            if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
-                > encoder.max_frame_size as usize
-            {
-                result.push(binary);
-                binary = BinaryMut::new();
-            }
             let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
         }
 
-        result.push(binary);
+        // END_HEADERS在最后一帧, 其余标志在HEADERS帧, 写入时不带填充
+        flags.unset_end_headers();
+        flags.unset_padded();
+        let max_len = encoder.max_frame_size.max(1);
+        let mut kind = Kind::Headers;
         let mut size = 0;
-        if result.len() == 1 {
-            flags.set_end_headers();
-            let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-        } else {
-            let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-
-            for idx in 1..result.len() {
-                let mut head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
-                if idx == result.len() - 1 {
-                    flags.set_end_headers();
-                    head.flag = flags;
-                }
-                head.length = result[idx].remaining() as u32;
-                size += head.encode(dst).unwrap();
-                size += result[idx].serialize(dst).unwrap();
+        loop {
+            let now_len = std::cmp::min(binary.remaining(), max_len);
+            let is_last = now_len == binary.remaining();
+            if is_last {
+                flags.set_end_headers();
+            }
+            let mut head = FrameHeader::new(kind, flags, stream_id);
+            head.length = now_len as u32;
+            size += head.encode(dst)?;
+            size += dst.put_slice(&binary.chunk()[..now_len]);
+            if is_last {
+                break;
             }
+            binary.advance(now_len);
+            kind = Kind::Continuation;
+            flags = Flag::zero();
         }
         Ok(size)
     }
-- 
2.43.0


From ed53baddfde107688f32589712484379d504e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 36/56] fix: write the stream dependency of an encoded HEADERS
 frame

The PRIORITY flag was kept but its five octets were not written, so the start
of the header block was read as the dependency.
---
 src/http/http2/frame/headers.rs  | 19 ++++++++++++++-----
 src/http/http2/frame/priority.rs |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 0b2c071..bca0cce 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -297,7 +297,7 @@ impl Headers {
     pub fn encode<B: Bt + BtMut>(mut self, encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
         let size = self
             .header_block
-            .encode(encoder, dst, self.flags, self.stream_id)?;
+            .encode(encoder, dst, self.flags, self.stream_id, self.stream_dep.as_ref())?;
         log::trace!("HTTP2: 编码头信息; len={}", size);
         Ok(size)
     }
@@ -491,7 +491,7 @@ impl PushPromise {
 
         size += self
             .header_block
-            .encode(encoder, dst, self.flags, self.promised_id)?;
+            .encode(encoder, dst, self.flags, self.promised_id, None)?;
         log::trace!("HTTP2: 编码推送信息; len={}", size);
         Ok(size)
     }
@@ -606,6 +606,7 @@ impl HeaderBlock {
         dst: &mut B,
         mut flags: Flag,
         stream_id: StreamIdentifier,
+        stream_dep: Option<&StreamDependency>,
     ) -> WebResult<usize> {
         let mut binary = BinaryMut::new();
 
@@ -619,18 +620,26 @@ impl HeaderBlock {
         // END_HEADERS在最后一帧, 其余标志在HEADERS帧, 写入时不带填充
         flags.unset_end_headers();
         flags.unset_padded();
-        let max_len = encoder.max_frame_size.max(1);
+        let mut prefix = BinaryMut::new();
+        match stream_dep {
+            Some(dep) if flags.is_priority() => {
+                dep.encode(&mut prefix)?;
+            }
+            _ => flags.set(Flag::PRIORITY, false),
+        }
         let mut kind = Kind::Headers;
         let mut size = 0;
         loop {
-            let now_len = std::cmp::min(binary.remaining(), max_len);
+            let max_len = encoder.max_frame_size.saturating_sub(prefix.remaining());
+            let now_len = std::cmp::min(binary.remaining(), max_len.max(1));
             let is_last = now_len == binary.remaining();
             if is_last {
                 flags.set_end_headers();
             }
             let mut head = FrameHeader::new(kind, flags, stream_id);
-            head.length = now_len as u32;
+            head.length = (prefix.remaining() + now_len) as u32;
             size += head.encode(dst)?;
+            size += prefix.serialize(dst)?;
             size += dst.put_slice(&binary.chunk()[..now_len]);
             if is_last {
                 break;
diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index 194be74..d39c7e4 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -118,7 +118,7 @@ impl StreamDependency {
         self.dependency_id
     }
 
-    fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
+    pub(super) fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
         let exclusive = if self.is_exclusive { MASK_U31 + 1 } else { 0 };
         StreamIdentifier(self.dependency_id.0 | exclusive).encode(dst)?;
         dst.put_u8(self.weight);
-- 
2.43.0


From 8d1e0aaa39f5bc9439bac9ffd98916d5d49debb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 37/56] fix: do not store header fields past the header list
 limit

The whole list was materialised before its size was looked at, so a block of
indexed references to one large entry took thousands of times its own size.
---
 src/http/http2/frame/headers.rs | 83 ++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index bca0cce..ea6c586 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -138,39 +138,8 @@ impl Headers {
         }
 
         let len = buffer.remaining();
-        let headers = decoder.decode(&mut buffer)?;
-        let mut header_size = 0;
-        for h in headers {
-            header_size += h.0.as_bytes().len() + h.1.as_bytes().len() + 32;
-            if header_size > max_header_list_size {
-                return Err(Http2Error::Decoder(DecoderError::HeaderIndexOutOfBounds).into());
-            }
-            if h.0.is_spec() {
-                let value: String = (&h.1).try_into()?;
-                match h.0.name() {
-                    ":authority" => {
-                        self.header_block.parts.authority = Some(value);
-                    }
-                    ":method" => {
-                        self.header_block.parts.method = Some(Method::try_from(&*value)?);
-                    }
-                    ":path" => {
-                        self.header_block.parts.path = Some(value);
-                    }
-                    ":scheme" => {
-                        self.header_block.parts.scheme = Some(Scheme::try_from(&*value)?);
-                    }
-                    ":status" => {
-                        self.header_block.parts.status = Some(StatusCode::try_from(&*value)?);
-                    }
-                    _ => {
-                        self.header_block.fields.insert(h.0, h.1);
-                    }
-                }
-            } else {
-                self.header_block.fields.insert(h.0, h.1);
-            }
-        }
+        self.header_block
+            .parse(&mut buffer, decoder, max_header_list_size)?;
         Ok(len - buffer.remaining())
     }
 
@@ -600,6 +569,54 @@ impl Parts {
 }
 
 impl HeaderBlock {
+    /// 解析头列表, 超过大小限制后不再保存, 但仍需解完以保持动态表同步
+    fn parse<B: Bt>(
+        &mut self,
+        buffer: &mut B,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
+    ) -> WebResult<()> {
+        let mut headers = vec![];
+        let mut header_size = 0;
+        decoder.decode_with_cb(buffer, |name, value| {
+            header_size += name.as_bytes().len() + value.as_bytes().len() + 32;
+            if header_size <= max_header_list_size {
+                headers.push((name.into_owned(), value.into_owned()));
+            }
+        })?;
+        if header_size > max_header_list_size {
+            return Err(Http2Error::Decoder(DecoderError::HeaderIndexOutOfBounds).into());
+        }
+        for h in headers {
+            if h.0.is_spec() {
+                let value: String = (&h.1).try_into()?;
+                match h.0.name() {
+                    ":authority" => {
+                        self.parts.authority = Some(value);
+                    }
+                    ":method" => {
+                        self.parts.method = Some(Method::try_from(&*value)?);
+                    }
+                    ":path" => {
+                        self.parts.path = Some(value);
+                    }
+                    ":scheme" => {
+                        self.parts.scheme = Some(Scheme::try_from(&*value)?);
+                    }
+                    ":status" => {
+                        self.parts.status = Some(StatusCode::try_from(&*value)?);
+                    }
+                    _ => {
+                        self.fields.insert(h.0, h.1);
+                    }
+                }
+            } else {
+                self.fields.insert(h.0, h.1);
+            }
+        }
+        Ok(())
+    }
+
     pub fn encode<B: Bt + BtMut>(
         &mut self,
         encoder: &mut Encoder,
-- 
2.43.0


From 9cac680f7dbc2c88e88af45d640335f814c10278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 38/56] fix: decode the header block of a PUSH_PROMISE frame

It was skipped, which loses the promised request and leaves the dynamic table
out of step with the peer. A payload too short for the promised stream
panicked, and stream 0 was accepted as promised.
---
 src/http/http2/frame/headers.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index ea6c586..4f5502b 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -413,13 +413,19 @@ impl PushPromise {
     pub fn parse<B: Bt>(
         head: FrameHeader,
         mut src: B,
-        _decoder: &mut Decoder,
-        _max_header_list_size: usize,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
     ) -> WebResult<Self> {
+        if src.remaining() < 4 {
+            return Err(Http2Error::PayloadLengthTooShort.into());
+        }
         let promised_id = StreamIdentifier::parse(&mut src);
-        let push = PushPromise::new(head, promised_id, HeaderMap::new());
-        // push.header_block
-        //     .parse(&mut src, max_header_list_size, decoder)?;
+        if promised_id.is_zero() {
+            return Err(Http2Error::InvalidStreamId.into());
+        }
+        let mut push = PushPromise::new(head, promised_id, HeaderMap::new());
+        push.header_block
+            .parse(&mut src, decoder, max_header_list_size)?;
         Ok(push)
     }
 
-- 
2.43.0


From 779c370c06b0c7668e2362fb7deadccdb2e561ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 39/56] fix: return the number of bytes a data frame was
 written as

It was always 0, while every other encoder of the crate returns the size.
---
 src/ws/dataframe.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ws/dataframe.rs b/src/ws/dataframe.rs
index 9e92d5b..b5484d1 100644
--- a/src/ws/dataframe.rs
+++ b/src/ws/dataframe.rs
@@ -185,8 +185,7 @@ pub trait DataFrameable {
             }
             None => self.write_payload(&mut data)?,
         };
-        writer.put_slice(data.as_slice());
-        Ok(0)
+        Ok(writer.put_slice(data.as_slice()))
     }
 }
 
-- 
2.43.0


From 432355a8f1e687d8fa3e6b6645717d5893cd66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 40/56] fix: read a header number from static text as from
 bytes

---
 src/http/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 730bcc6..dbb14a9 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -109,7 +109,7 @@ impl TryInto<usize> for &HeaderValue {
 
     fn try_into(self) -> Result<usize, WebError> {
         match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
+            HeaderValue::Stand(s) => (&HeaderValue::from_bytes(s.as_bytes())).try_into(),
             HeaderValue::Value(v) => {
                 let mut result = 0usize;
                 for b in v {
@@ -136,7 +136,7 @@ impl TryInto<isize> for &HeaderValue {
 
     fn try_into(self) -> Result<isize, WebError> {
         match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
+            HeaderValue::Stand(s) => (&HeaderValue::from_bytes(s.as_bytes())).try_into(),
             HeaderValue::Value(v) => {
                 let mut result = 0isize;
                 let mut is_neg = false;
-- 
2.43.0


From 0603ae7e5c384f742a2d38519865bd40b964a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 41/56] fix: announce a change of the HPACK table size in the
 next header block

---
 src/http/http2/hpack/encoder.rs      |  9 +++++++++
 src/http/http2/hpack/header_index.rs | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/http/http2/hpack/encoder.rs b/src/http/http2/hpack/encoder.rs
index 90f55aa..8907192 100644
--- a/src/http/http2/hpack/encoder.rs
+++ b/src/http/http2/hpack/encoder.rs
@@ -67,6 +67,15 @@ impl Encoder {
         header: (&HeaderName, &HeaderValue),
         writer: &mut B,
     ) -> io::Result<()> {
+        // 动态表的大小变更需在头块的开头告知对端
+        let pending = { self.index.write().unwrap().take_pending_size() };
+        if let Some((min, size)) = pending {
+            if min < size {
+                Self::encode_integer_into(min, 5, 0x20, writer)?;
+            }
+            Self::encode_integer_into(size, 5, 0x20, writer)?;
+        }
+
         let value = { self.index.read().unwrap().find_header(header) };
 
         match value {
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 01d0fc4..d39f88b 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -21,6 +21,8 @@ pub struct HeaderIndex {
     max_size: usize,
     /// 由设置决定的上限, 对端可在头块中将大小调整为不大于该值
     limit_size: usize,
+    /// 尚未在头块中告知对端的大小变更(期间的最小值, 最终值)
+    pending_size: Option<(usize, usize)>,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -97,6 +99,7 @@ impl HeaderIndex {
             size: 0,
             max_size,
             limit_size: max_size,
+            pending_size: None,
         }
     }
 
@@ -113,6 +116,10 @@ impl HeaderIndex {
     }
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
+        if new_max_size != self.max_size {
+            let min = self.pending_size.map_or(new_max_size, |(min, _)| min.min(new_max_size));
+            self.pending_size = Some((min, new_max_size));
+        }
         self.limit_size = new_max_size;
         self.max_size = new_max_size;
         // Make the table size fit within the new constraints.
@@ -129,6 +136,11 @@ impl HeaderIndex {
         true
     }
 
+    /// 编码下一个头块前需要告知对端的大小变更
+    pub(crate) fn take_pending_size(&mut self) -> Option<(usize, usize)> {
+        self.pending_size.take()
+    }
+
     /// Returns the maximum size of the table in octets.
     pub fn get_max_table_size(&self) -> usize {
         self.max_size
-- 
2.43.0


From b5d43e588b8eac1f2b83a91d08234094a9f63860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 42/56] fix: accept HTAB and obs-text in a reason phrase

---
 src/helper.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 64c6a5f..cab28b4 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -36,9 +36,10 @@ impl Helper {
     }
 
 
+    /// reason-phrase = 1*( HTAB / SP / VCHAR / obs-text )
     #[inline]
     pub fn is_status_token(b: u8) -> bool {
-        b > 0x1F && b < 0x7F
+        b == b'\t' || (b > 0x1F && b != 0x7F)
     }
     
     #[inline]
@@ -244,7 +245,7 @@ impl Helper {
 
     
     #[inline]
-    pub(crate) fn parse_token_by_func_empty<'a, B: Bt>(buffer: &'a mut B, func: fn(u8)->bool, err: WebError, empty: bool) -> WebResult<&'a str> {
+    pub(crate) fn parse_bytes_by_func_empty<'a, B: Bt>(buffer: &'a mut B, func: fn(u8)->bool, err: WebError, empty: bool) -> WebResult<&'a [u8]> {
         let position = {
             let mut postion = 0;
             let mut cur = BinaryRef::from(buffer.chunk());
@@ -259,18 +260,22 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                return Ok("");
+                return Ok(&[]);
             }
             return Err(err);
         } else {
-            let val = unsafe {
-                std::str::from_utf8_unchecked(&buffer.advance_chunk(position))
-            };
-            return Ok(val);
+            return Ok(buffer.advance_chunk(position));
         }
 
     }
 
+    /// func只允许ascii字符
+    #[inline]
+    pub(crate) fn parse_token_by_func_empty<'a, B: Bt>(buffer: &'a mut B, func: fn(u8)->bool, err: WebError, empty: bool) -> WebResult<&'a str> {
+        let token = Self::parse_bytes_by_func_empty(buffer, func, err, empty)?;
+        std::str::from_utf8(token).map_err(|_| WebError::from(HttpError::Token))
+    }
+
     #[inline]
     pub(crate) fn parse_token_by_func<'a, B: Bt>(buffer: &'a mut B, func: fn(u8)->bool, err: WebError) -> WebResult<&'a str> {
         Self::parse_token_by_func_empty(buffer, func, err, false)
@@ -287,8 +292,8 @@ impl Helper {
     }
 
     #[inline]
-    pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
+    pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a [u8]> {
+        Self::parse_bytes_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
     }
 
     #[inline]
@@ -302,10 +307,10 @@ impl Helper {
 
     #[inline]
     pub(crate) fn parse_header_value<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderValue> {
-        let token = Self::parse_token_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
+        let token = Self::parse_bytes_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
         // 值前后的空白(OWS)不属于值的一部分
         let is_ows = |b: &u8| *b == b' ' || *b == b'\t';
-        let mut bytes = token.as_bytes();
+        let mut bytes = token;
         while bytes.first().map_or(false, is_ows) {
             bytes = &bytes[1..];
         }
-- 
2.43.0


From 8549c55ecf1068fbb1f37ec80e0678df811a64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 43/56] fix: escape # in an encoded request target

---
 src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 24c83cf..77d2959 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -707,7 +707,7 @@ impl Parts {
     fn get_target(&self) -> String {
         fn encode(target: &mut String, val: &str, is_path: bool) {
             for b in val.bytes() {
-                if !Helper::is_token(b) || b == b'%' || (is_path && b == b'?') {
+                if !Helper::is_token(b) || b == b'%' || b == b'#' || (is_path && b == b'?') {
                     target.push_str(&format!("%{:02X}", b));
                 } else {
                     target.push(b as char);
-- 
2.43.0


From 2db22ca92c5576e0f2d339c8c120510ad683c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 44/56] fix: refuse to encode an extension method that is not a
 token

---
 src/http/method.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http/method.rs b/src/http/method.rs
index 3cb89c0..c7dea00 100644
--- a/src/http/method.rs
+++ b/src/http/method.rs
@@ -12,7 +12,7 @@
 
 use std::{fmt::Display, str::FromStr};
 
-use crate::{WebError, WebResult};
+use crate::{Helper, WebError, WebResult};
 use algorithm::buf::{Bt, BtMut};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -108,6 +108,10 @@ impl Method {
     pub fn encode<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
         match self {
             Method::None => Err(WebError::Serialize("method")),
+            // 非token会变成新的目标或者新的行, 不允许编码
+            Method::Extension(s) if s.is_empty() || !s.bytes().all(Helper::is_header_name_token) => {
+                Err(WebError::Serialize("method"))
+            }
             _ => Ok(buffer.put_slice(self.as_str().as_bytes())),
         }
     }
-- 
2.43.0


From f7f63375cc5bfbf4eff7588fad70240408416e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 45/56] fix: refuse a percent-escape in a URL port

---
 src/url/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index c36c9b1..5cacc85 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -242,7 +242,7 @@ impl Url {
             url.domain = Self::parse_url_token(&mut domain.unwrap(), true)?;
         }
         if port.is_some() {
-            let port = Self::parse_url_token(&mut port.unwrap(), true)?;
+            let port = Self::parse_url_token(&mut port.unwrap(), false)?;
             if port.is_some() {
                 let port = port.unwrap();
                 url.port = match port.parse::<u16>() {
-- 
2.43.0


From 1c42fb9079c879e2fcf84de6dbf40174a2a86719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 46/56] fix: escape brackets in an encoded user name or
 password

---
 src/url/url.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 5cacc85..47d5d5f 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -292,17 +292,21 @@ impl Url {
 
     /// 用户名, 密码, 域名中的分隔符也需要转码, 否则重新解析时会被当作分隔符
     fn authority_encode(val: &str) -> String {
+        Self::url_encode(val)
+            .replace('/', "%2F")
+            .replace('?', "%3F")
+            .replace(':', "%3A")
+            .replace('@', "%40")
+    }
+
+    fn domain_encode(val: &str) -> String {
         // ipv6地址, 如[::1]
         if let Some(ip) = val.strip_prefix('[').and_then(|v| v.strip_suffix(']')) {
             if ip.bytes().all(|b| Helper::is_hex(b) || b == b':' || b == b'.') {
                 return val.to_string();
             }
         }
-        Self::url_encode(val)
-            .replace('/', "%2F")
-            .replace('?', "%3F")
-            .replace(':', "%3A")
-            .replace('@', "%40")
+        Self::authority_encode(val)
     }
 
     pub fn url_decode(val: &str) -> WebResult<String> {
@@ -387,7 +391,7 @@ impl Display for Url {
         if self.domain.is_some() {
             f.write_fmt(format_args!(
                 "{}",
-                Self::authority_encode(self.domain.as_ref().unwrap())
+                Self::domain_encode(self.domain.as_ref().unwrap())
             ))?;
         }
         if self.scheme != Scheme::None && self.port.is_some() {
-- 
2.43.0


From a9bd0984c93727a18e2e4d197ac07ce5a3ada148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 47/56] fix: read the host after a password that starts with a
 bracket

---
 src/url/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 47d5d5f..dfbcb05 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -169,7 +169,7 @@ impl Url {
             // []包裹的为ipv6地址, 其中的冒号不是分隔符
             if b == b'[' && val.is_empty() {
                 in_ip = !is_first_slash;
-            } else if b == b']' || b == b'/' {
+            } else if b == b']' || b == b'/' || b == b'@' {
                 in_ip = false;
             }
             // 存在用户名, 解析用户名
-- 
2.43.0


From 7ab26d3e28d33cfc23b3be388e7a85db292c580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 48/56] fix: keep the path of a header list from changing the
 authority of its URL

---
 src/http/http2/frame/headers.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 4f5502b..2f04d16 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -560,16 +560,27 @@ impl Parts {
     }
 
     pub fn build_url(&self) -> WebResult<Url> {
-        if self.authority.is_none() {
-            return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
+        let invalid = || crate::WebError::Http2(Http2Error::InvalidRequesetUrl);
+        let authority = self.authority.as_ref().ok_or_else(invalid)?;
+        let path = self.path.as_ref().map(|v| v.as_str()).unwrap_or("/");
+        // 两者拼接后不能相互影响
+        if authority.contains(|c| c == '/' || c == '?') {
+            return Err(invalid());
+        }
+        let is_asterisk = path == "*";
+        if !is_asterisk && !path.is_empty() && !path.starts_with('/') {
+            return Err(invalid());
         }
         let url = format!(
             "{}://{}{}",
             self.scheme.as_ref().unwrap_or(&Scheme::Http),
-            self.authority.as_ref().unwrap(),
-            self.path.clone().unwrap_or("/".to_string())
+            authority,
+            if is_asterisk { "" } else { path }
         );
-        let url = Url::parse(url.into_bytes().to_vec())?;
+        let mut url = Url::parse(url.into_bytes().to_vec())?;
+        if is_asterisk {
+            url.path = path.to_string();
+        }
         Ok(url)
     }
 }
-- 
2.43.0


From 675286399803da0c94110f7c4f1ffffe09c55435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 49/56] fix: split an encoded PUSH_PROMISE and clear the flags
 it does not define

---
 src/http/http2/frame/headers.rs | 39 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 2f04d16..239a8b5 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -456,13 +456,18 @@ impl PushPromise {
                 encoder.encode_header_into((&HeaderName::from_static(":path"), &v), &mut binary);
         }
 
-        let mut size = 0;
-        let mut head = FrameHeader::new(Kind::PushPromise, self.flags.into(), self.stream_id);
-        head.flag.set_end_headers();
-        head.length = binary.remaining() as u32 + 4;
-        size += head.encode(dst).unwrap();
-        size += self.promised_id.encode(dst).unwrap();
-        size += binary.serialize(dst).unwrap();
+        // 除END_HEADERS外的标志属于后面的HEADERS帧
+        let mut prefix = BinaryMut::new();
+        self.promised_id.encode(&mut prefix)?;
+        let mut size = HeaderBlock::encode_block(
+            Kind::PushPromise,
+            prefix,
+            binary,
+            encoder,
+            dst,
+            Flag::zero(),
+            self.stream_id,
+        )?;
 
         size += self
             .header_block
@@ -651,9 +656,6 @@ impl HeaderBlock {
             let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
         }
 
-        // END_HEADERS在最后一帧, 其余标志在HEADERS帧, 写入时不带填充
-        flags.unset_end_headers();
-        flags.unset_padded();
         let mut prefix = BinaryMut::new();
         match stream_dep {
             Some(dep) if flags.is_priority() => {
@@ -661,7 +663,22 @@ impl HeaderBlock {
             }
             _ => flags.set(Flag::PRIORITY, false),
         }
-        let mut kind = Kind::Headers;
+        Self::encode_block(Kind::Headers, prefix, binary, encoder, dst, flags, stream_id)
+    }
+
+    /// 写入头块, 超过帧大小的部分用CONTINUATION写入
+    fn encode_block<B: Bt + BtMut>(
+        mut kind: Kind,
+        mut prefix: BinaryMut,
+        mut binary: BinaryMut,
+        encoder: &mut Encoder,
+        dst: &mut B,
+        mut flags: Flag,
+        stream_id: StreamIdentifier,
+    ) -> WebResult<usize> {
+        // END_HEADERS在最后一帧, 其余标志在首帧, 写入时不带填充
+        flags.unset_end_headers();
+        flags.unset_padded();
         let mut size = 0;
         loop {
             let max_len = encoder.max_frame_size.saturating_sub(prefix.remaining());
-- 
2.43.0


From 7a49d444d8f76ee3525c09f8cef4c031fc23d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:22 +0000
Subject: [PATCH 50/56] fix: write the promised id or dependency once when a
 header block is split

---
 src/http/http2/frame/headers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 239a8b5..bb204b9 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -696,6 +696,8 @@ impl HeaderBlock {
                 break;
             }
             binary.advance(now_len);
+            // 依赖或推送编号只在首帧
+            prefix = BinaryMut::new();
             kind = Kind::Continuation;
             flags = Flag::zero();
         }
-- 
2.43.0


From dd2fe68d662dbfbb8db2e00352bbb4ac5c9ab2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 51/56] fix: refuse a pseudo header whose value is not text
 instead of altering it

---
 src/http/http2/frame/headers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index bb204b9..6921b9c 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -611,7 +611,9 @@ impl HeaderBlock {
         }
         for h in headers {
             if h.0.is_spec() {
-                let value: String = (&h.1).try_into()?;
+                // 不能丢失内容, 非UTF-8的伪头无法表示
+                let value = String::from_utf8(h.1.as_bytes().to_vec())
+                    .map_err(|_| crate::WebError::IntoError)?;
                 match h.0.name() {
                     ":authority" => {
                         self.parts.authority = Some(value);
-- 
2.43.0


From 95831f47c1f2e9009b5c73e001ae19fdadfab6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 52/56] fix: refuse a field name that is not text instead of
 altering it and the dynamic table

---
 src/http/http2/hpack/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index a8a8608..45fa465 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -76,6 +76,8 @@ pub enum IntegerDecodingError {
 pub enum StringDecodingError {
     NotEnoughOctets,
     HuffmanDecoderError(HuffmanDecoderError),
+    /// A field name that is not text cannot be kept as it is.
+    InvalidUtf8,
 }
 
 /// Represents all errors that can be encountered while performing the decoding
@@ -279,6 +281,12 @@ impl Decoder {
             // Read name string as literal
             let (name, name_len) = Self::decode_string(&buf[consumed..])?;
             consumed += name_len;
+            // 替换掉非法字符后动态表的大小会与对端不一致
+            if std::str::from_utf8(&name).is_err() {
+                return Err(Http2Error::into(DecoderError::StringDecodingError(
+                    StringDecodingError::InvalidUtf8,
+                )));
+            }
             HeaderName::from_bytes(&name).unwrap()
         } else {
             // Read name indexed from the table
-- 
2.43.0


From 939f981e921bea939f35c9e762d5e1994efed143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 53/56] fix: compare method names by ASCII case only

---
 src/http/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/method.rs b/src/http/method.rs
index c7dea00..aefa2e9 100644
--- a/src/http/method.rs
+++ b/src/http/method.rs
@@ -145,6 +145,6 @@ impl TryFrom<&str> for Method {
 impl FromStr for Method {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Method::try_from(&*s.to_uppercase())
+        Method::try_from(&*s.to_ascii_uppercase())
     }
 }
-- 
2.43.0


From bc42e8fa54f0545df5dc33dd47dfeb341547b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 54/56] fix: refuse a second user name in a URL

---
 src/url/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index dfbcb05..369988b 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -187,7 +187,7 @@ impl Url {
                 }
             } else if b == b'@' && !is_first_slash {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
-                if domain.is_none() {
+                if domain.is_none() || username.is_some() {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
                 username = domain;
-- 
2.43.0


From 20a2a7eea478b878d0139cc850b12951d12d651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 55/56] fix: accept a promised request without content, and
 refuse one with content

---
 src/http/http2/frame/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 6921b9c..ba0451a 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -383,7 +383,7 @@ impl PushPromise {
         // The spec has some requirements for promised request headers
         // [https://httpwg.org/specs/rfc7540.html#PushRequests]
 
-        if req.get_body_len() == 0 {
+        if req.get_body_len() != 0 {
             return Err(Http2Error::PayloadLengthTooShort.into());
         }
         // "The server MUST include a method in the :method parts-header field
-- 
2.43.0


From 3d4668bf092076d7b88547743050bba090337557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 56/56] fix: read the smallest isize back from the header value
 it was written to

---
 src/http/value.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index dbb14a9..fec39be 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -150,18 +150,19 @@ impl TryInto<isize> for &HeaderValue {
                     }
                     match result.overflowing_mul(10) {
                         (u, false) => {
-                            result = u
-                                .checked_add((b - Helper::DIGIT_0) as isize)
-                                .ok_or(WebError::IntoError)?;
+                            let digit = (b - Helper::DIGIT_0) as isize;
+                            // 负数直接往下减, 否则isize::MIN无法读回
+                            result = if is_neg {
+                                u.checked_sub(digit)
+                            } else {
+                                u.checked_add(digit)
+                            }
+                            .ok_or(WebError::IntoError)?;
                         }
                         (_u, true) => return Err(WebError::IntoError),
                     }
                 }
-                if is_neg {
-                    Ok(-result)
-                } else {
-                    Ok(result)
-                }
+                Ok(result)
             }
         }
     }
-- 
2.43.0

