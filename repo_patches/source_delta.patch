From 7883a751f7354319c3569f3efcb0f039bc55d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 01/25] fix: don't yield a trailing CR which may belong to the
 boundary

If a read ended between the CR and the LF preceding a boundary, the CR was
returned as field data and the CRLF leaked into the field's content.
---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..7c07dd2 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -77,6 +77,11 @@ impl<R> BoundaryReader<R> where R: Read {
                 },
                 Err(yield_len) => {
                     self.search_idx += yield_len;
+
+                    // a trailing CR may be the first half of the boundary's preceding CRLF
+                    if self.search_idx == buf.len() && buf.ends_with(b"\r") {
+                        self.search_idx -= 1;
+                    }
                 }
             }
         }        
-- 
2.43.0


From 4cf90d03cba9307830761313c481ff6ba2a56c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 02/25] fix: read the bytes trailing a boundary when field data
 was left unread

When a boundary had already been found but the data before it wasn't consumed,
that data counted towards the minimum buffer length, so the bytes following the
boundary were never read in and a spurious UnexpectedEof was returned.
---
 src/server/boundary.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 7c07dd2..1a0140c 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -136,14 +136,18 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // drop any unread data before the boundary so that it doesn't count towards the minimum
+        // amount of buffered data, or the bytes trailing the boundary might not be read in
+        self.source.consume(self.search_idx);
+        self.search_idx = 0;
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
             // if the boundary is found we should have at least this much in-buffer
-            let mut consume_amt = self.search_idx + self.boundary.len();
+            let mut consume_amt = self.boundary.len();
 
-            // we don't care about data before the cursor
-            let bnd_segment = &buf[self.search_idx..];
+            let bnd_segment = buf;
 
             if bnd_segment.starts_with(b"\r\n") {
                 // preceding CRLF needs to be consumed as well
-- 
2.43.0


From 9872f19c1d3ded302abb2781865e0e9704d474bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 03/25] fix: keep reading when the minimum buffer size exceeds
 half the buffer

buf_redux's MinBuffered policy doesn't move unread bytes down if the freed space
is smaller than the minimum, so with a large set_min_buf_size() an empty buffer
(meaning the end of the field) was returned in the middle of the field.
---
 src/server/boundary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 1a0140c..26bf9bb 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -55,6 +55,12 @@ impl<R> BoundaryReader<R> where R: Read {
     }
 
     fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+        // the policy only makes room for a whole minimum's worth of data at once, so if that's more
+        // than what's free it wouldn't move anything and would stop reading at the end of the buffer
+        if self.source.buf_len() < self.source.policy().0 {
+            self.source.make_room();
+        }
+
         let buf = self.source.fill_buf()?;
 
         trace!("Buf: {:?}", String::from_utf8_lossy(buf));
-- 
2.43.0


From db890297aae10d2d472ac0c0e0f4d1884b425449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 04/25] fix: buffer more than 1 KiB of field headers if
 necessary

Header blocks of more than 1 KiB were rejected as too large or not depending on
how the body was split into reads. Buffer up to 8 KiB to find their end.
---
 src/server/field.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 6ccf952..eebad2e 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -18,8 +18,12 @@ use super::httparse::{self, Error as HttparseError, Header, Status, EMPTY_HEADER
 
 use self::ReadEntryResult::*;
 
+use super::boundary::MIN_BUF_SIZE;
 use super::save::SaveBuilder;
 
+/// The most data that is buffered to find the end of a field's headers.
+const MAX_HEADERS_SIZE: usize = 8192;
+
 const EMPTY_STR_HEADER: StrHeader<'static> = StrHeader { name: "", val: "" };
 
 macro_rules! invalid_cont_disp {
@@ -384,7 +388,7 @@ fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a S
 pub trait ReadEntry: PrivReadEntry + Sized {
     /// Attempt to read the next entry in the multipart stream.
     fn read_entry(mut self) -> ReadEntryResult<Self> {
-        self.set_min_buf_size(super::boundary::MIN_BUF_SIZE);
+        self.set_min_buf_size(MIN_BUF_SIZE);
 
         debug!("ReadEntry::read_entry()");
 
@@ -435,8 +439,22 @@ pub trait PrivReadEntry {
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
-        FieldHeaders::read_from(self.source_mut())
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+        let mut min_buf_size = MIN_BUF_SIZE;
+
+        let res = loop {
+            match FieldHeaders::read_from(self.source_mut()) {
+                // the headers may just be longer than the amount that's buffered
+                Err(ParseHeaderError::TooLarge) if min_buf_size < MAX_HEADERS_SIZE => {
+                    min_buf_size *= 2;
+                    self.set_min_buf_size(min_buf_size);
+                }
+                res => break res,
+            }
+        };
+
+        self.set_min_buf_size(MIN_BUF_SIZE);
+
+        res.map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
     }
 
     fn read_to_string(&mut self) -> io::Result<String> {
-- 
2.43.0


From 76bef292d01149932a14b873154dc3582eba7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 05/25] fix: report transport errors while reading field
 headers and allow retrying

I/O errors which occurred while reading an entry's headers were converted to
InvalidData and the entry was skipped by the next call. Keep their kind and
remember that the boundary was consumed already, so that the headers are read
when the caller tries again.
---
 src/server/field.rs | 31 +++++++++++++++++++++++++------
 src/server/mod.rs   | 12 ++++++++++++
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index eebad2e..169a54a 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -98,10 +98,10 @@ where
 fn copy_headers<'h, 'b: 'h>(
     raw: &[Header<'b>],
     headers: &'h mut [StrHeader<'b>],
-) -> io::Result<&'h [StrHeader<'b>]> {
+) -> Result<&'h [StrHeader<'b>], ParseHeaderError> {
     for (raw, header) in raw.iter().zip(&mut *headers) {
         header.name = raw.name;
-        header.val = io_str_utf8(raw.value)?;
+        header.val = str::from_utf8(raw.value)?;
     }
 
     Ok(&headers[..raw.len()])
@@ -372,10 +372,6 @@ fn get_str_after<'a>(
     ))
 }
 
-fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-    str::from_utf8(buf).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-}
-
 fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a StrHeader<'b>> {
     // Field names are case insensitive and consist of ASCII characters
     // only (see https://tools.ietf.org/html/rfc822#section-3.2).
@@ -396,6 +392,8 @@ pub trait ReadEntry: PrivReadEntry + Sized {
             return End(self);
         }
 
+        self.set_headers_pending(true);
+
         let field_headers: FieldHeaders = try_read_entry!(self; self.read_headers());
 
         if let Some(ct) = field_headers.content_type.as_ref() {
@@ -438,6 +436,10 @@ pub trait PrivReadEntry {
     /// Returns `true` if a field should follow, `false` otherwise.
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
+    /// Note if the headers following the last consumed boundary are still to be read, in which case
+    /// `consume_boundary()` is a no-op.
+    fn set_headers_pending(&mut self, pending: bool);
+
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
         let mut min_buf_size = MIN_BUF_SIZE;
 
@@ -454,6 +456,13 @@ pub trait PrivReadEntry {
 
         self.set_min_buf_size(MIN_BUF_SIZE);
 
+        // the headers can still be read if this is retried
+        if let Err(ParseHeaderError::Io(e)) = res {
+            return Err(e);
+        }
+
+        self.set_headers_pending(false);
+
         res.map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
     }
 
@@ -481,6 +490,10 @@ impl<'a, M: ReadEntry> PrivReadEntry for &'a mut M {
     fn consume_boundary(&mut self) -> io::Result<bool> {
         (**self).consume_boundary()
     }
+
+    fn set_headers_pending(&mut self, pending: bool) {
+        (**self).set_headers_pending(pending)
+    }
 }
 
 /// Ternary result type returned by `ReadEntry::next_entry()`,
@@ -570,6 +583,12 @@ quick_error! {
             cause(err)
             from()
         }
+        Utf8Error(err: str::Utf8Error) {
+            description(GENERIC_PARSE_ERR)
+            display(x) -> ("{}: {}", x.description(), err)
+            cause(err)
+            from()
+        }
         MimeError(cont_type: String) {
             description("Failed to parse Content-Type")
             display(this) -> ("{}: {}", this.description(), cont_type)
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 8cd01a0..560eae9 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -78,6 +78,8 @@ pub mod save;
 /// Implements `Borrow<R>` to allow access to the request body, if desired.
 pub struct Multipart<R> {
     reader: BoundaryReader<R>,
+    /// If reading the headers of an entry was interrupted by an I/O error.
+    headers_pending: bool,
 }
 
 impl Multipart<()> {
@@ -112,6 +114,7 @@ impl<R: Read> Multipart<R> {
 
         Multipart { 
             reader: BoundaryReader::from_reader(body, boundary),
+            headers_pending: false,
         }
     }
 
@@ -175,9 +178,18 @@ impl<R: Read> PrivReadEntry for Multipart<R> {
     /// Consume the next boundary.
     /// Returns `true` if a field should follow this boundary, `false` otherwise.
     fn consume_boundary(&mut self) -> io::Result<bool> {
+        if self.headers_pending {
+            // already consumed, the headers still have to be read
+            return Ok(true);
+        }
+
         debug!("Consume boundary!");
         self.reader.consume_boundary()
     }
+
+    fn set_headers_pending(&mut self, pending: bool) {
+        self.headers_pending = pending;
+    }
 }
 
 /// A server-side HTTP request that may or may not be multipart.
-- 
2.43.0


From eefccef34f62354e341043edd130a87eceeed960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 06/25] fix: parse Content-Disposition parameters in any order
 and with quoted semicolons

name= was found inside filename= if the latter came first, and quoted values were
cut off at the first semicolon in them.
---
 src/server/field.rs | 75 ++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 169a54a..26a92c4 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -182,20 +182,17 @@ impl ContentDisp {
         };
 
         // Content-Disposition: form-data; name=?
-        let (field_name, filename) = match get_str_after("name=", ';', after_disp_type) {
+        let field_name = match find_param("name", after_disp_type) {
             None => invalid_cont_disp!(
                 "expected field name and maybe filename, got",
                 after_disp_type
             ),
-            // Content-Disposition: form-data; name={field_name}; filename=?
-            Some((field_name, after_field_name)) => {
-                let field_name = trim_quotes(field_name);
-                let filename = get_str_after("filename=", ';', after_field_name)
-                    .map(|(filename, _)| trim_quotes(filename).to_owned());
-                (field_name, filename)
-            }
+            Some(field_name) => field_name,
         };
 
+        // Content-Disposition: form-data; name={field_name}; filename=?
+        let filename = find_param("filename", after_disp_type).map(str::to_owned);
+
         Ok(ContentDisp {
             field_name: field_name.to_owned(),
             filename,
@@ -352,24 +349,54 @@ fn split_once(s: &str, delim: char) -> Option<(&str, &str)> {
     s.find(delim).map(|idx| s.split_at(idx))
 }
 
-fn trim_quotes(s: &str) -> &str {
-    s.trim_matches('"')
+/// Get the value of the parameter with the given name from `; param=value; param="value"`,
+/// minding that quoted values may contain anything, including semicolons and other parameters' names.
+fn find_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+    let mut rest = params;
+
+    loop {
+        rest = rest.trim_start_matches(|c: char| c == ';' || c.is_whitespace());
+
+        if rest.is_empty() {
+            return None;
+        }
+
+        let name_end = rest.find(|c| c == '=' || c == ';').unwrap_or_else(|| rest.len());
+        let (param, after_param) = rest.split_at(name_end);
+
+        if !after_param.starts_with('=') {
+            // parameter without a value
+            rest = after_param;
+            continue;
+        }
+
+        let (val, after_val) = split_param_val(after_param[1..].trim_start());
+
+        if param.trim().eq_ignore_ascii_case(name) {
+            return Some(val);
+        }
+
+        rest = after_val;
+    }
 }
 
-/// Get the string after `needle` in `haystack`, stopping before `end_val_delim`
-fn get_str_after<'a>(
-    needle: &str,
-    end_val_delim: char,
-    haystack: &'a str,
-) -> Option<(&'a str, &'a str)> {
-    let val_start_idx = try_opt!(haystack.find(needle)) + needle.len();
-    let val_end_idx = haystack[val_start_idx..]
-        .find(end_val_delim)
-        .map_or(haystack.len(), |end_idx| end_idx + val_start_idx);
-    Some((
-        &haystack[val_start_idx..val_end_idx],
-        &haystack[val_end_idx..],
-    ))
+/// Split `value; ...` or `"value"; ...` into the value (without quotes) and what follows it.
+fn split_param_val(s: &str) -> (&str, &str) {
+    if s.starts_with('"') {
+        let ends_val = |idx: usize| {
+            let after = s[idx + 1..].trim_start();
+            after.is_empty() || after.starts_with(';')
+        };
+
+        // clients don't agree on how to escape quotes, so only end at one that can't be in the value
+        if let Some((end, _)) = s.match_indices('"').skip(1).find(|&(idx, _)| ends_val(idx)) {
+            return (&s[1..end], &s[end + 1..]);
+        }
+    }
+
+    let (val, rest) = split_once(s, ';').unwrap_or((s, ""));
+
+    (val.trim().trim_matches('"'), rest)
 }
 
 fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a StrHeader<'b>> {
-- 
2.43.0


From 8c812accd20498c99e147344228eadb2fe7659ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 07/25] fix: report or fall back on invalid UTF-8 when saving
 text instead of looping forever

---
 src/server/save.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..ff8e297 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -458,13 +458,18 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.read_mem(|buf| {
             match str::from_utf8(buf) {
                 Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
-                        Partial(0, e.into())
+                Err(e) => {
+                    let valid = e.valid_up_to();
+                    string.push_str(str::from_utf8(&buf[..valid]).unwrap());
+
+                    // a character that is merely cut off by the end of the buffer is completed by
+                    // the next one, unless it's all there is: the buffer should always be bigger
+                    if e.error_len().is_none() && valid > 0 {
+                        Full(valid)
                     } else {
-                        string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
-                        Full(e.valid_up_to())
+                        Partial(valid, e.into())
                     }
+                },
             }
         }, 0);
 
-- 
2.43.0


From 5d19f9d436f8691fb0ebb12abb488677ea179ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 08/25] fix: apply the size limit exactly when saving, in
 memory and on disk

---
 src/server/save.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index ff8e297..05a3323 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -422,7 +422,13 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        // what was written from memory counts towards the limit
+        let limit = self.size_limit;
+        if limit < u64::MAX { self.size_limit = limit.saturating_sub(data.size()); }
+        let res = self.write_to(file);
+        self.size_limit = limit;
+
+        res.map(move |written| data.add_size(written))
     }
 
 
@@ -975,13 +981,27 @@ fn create_dir_all(path: &Path) -> io::Result<()> {
 }
 
 fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(src: R, mut with_buf: Wb, limit: u64) -> SaveResult<u64, u64> {
-    let mut copied = 0u64;
+    let mut remaining = limit;
     try_read_buf(src, |buf| {
-        let new_copied = copied.saturating_add(buf.len() as u64);
-        if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
+        // there is at least one more byte
+        if remaining == 0 { return Partial(0, PartialReason::SizeLimit) }
+
+        let over_limit = buf.len() as u64 > remaining;
+        let buf = if over_limit { &buf[..remaining as usize] } else { buf };
+
+        let res = with_buf(buf);
 
-        with_buf(buf)
+        match res {
+            Full(copied) if over_limit => Partial(copied, PartialReason::SizeLimit),
+            // a character cut off by the limit
+            Partial(copied, Utf8Error(ref e)) if over_limit && e.error_len().is_none() =>
+                Partial(copied, PartialReason::SizeLimit),
+            Full(copied) => {
+                remaining -= copied as u64;
+                Full(copied)
+            },
+            other => other,
+        }
     })
 }
 
-- 
2.43.0


From b7e96008399f30698d6c0ba597dbc961337c8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 09/25] fix: don't lose the bytes read to memory when saving
 them to a file fails

---
 src/server/save.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 05a3323..0b84b28 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -39,15 +39,6 @@ macro_rules! try_start (
     )
 );
 
-macro_rules! try_full (
-    ($try:expr) => {
-        match $try {
-            Full(full) => full,
-            other => return other,
-        }
-    }
-);
-
 macro_rules! try_partial (
     ($try:expr) => {
         match $try {
@@ -414,13 +405,15 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
 
         let mut file = match create_dir_all(&path).and_then(|_| self.open_opts.open(&path)) {
             Ok(file) => file,
-            Err(e) => return Error(e),
+            // what was read to memory can't be read from the field again
+            Err(e) => return if bytes.is_empty() { Error(e) } else { Partial(bytes.into(), e.into()) },
         };
 
-        let data = try_full!(
-            try_write_all(&bytes, &mut file)
-                .map(move |size| SavedData::File(path, size as u64))
-        );
+        let data = match try_write_all(&bytes, &mut file) {
+            Full(size) => SavedData::File(path, size as u64),
+            Partial(_, reason) => return Partial(bytes.into(), reason),
+            Error(e) => return Partial(bytes.into(), e.into()),
+        };
 
         // what was written from memory counts towards the limit
         let limit = self.size_limit;
@@ -428,7 +421,12 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.write_to(file);
         self.size_limit = limit;
 
-        res.map(move |written| data.add_size(written))
+        match res {
+            Full(written) => Full(data.add_size(written)),
+            Partial(written, reason) => Partial(data.add_size(written), reason),
+            // the file was created already
+            Error(e) => Partial(data, e.into()),
+        }
     }
 
 
-- 
2.43.0


From 4de068e6b19d52c535f6dee33e23babfc7540137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 10/25] fix: save with_filename() in the temporary directory
 instead of its parent

---
 src/server/save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 0b84b28..37a49cc 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -358,10 +358,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
-
-        self.with_path(tempdir)
+        let path = env::temp_dir().join(filename);
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From 356e7536fdaf2568f3ee6bafef9a95cff63039cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 11/25] fix: only report the count limit when there is another
 field, and don't lose that field

---
 src/server/save.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 37a49cc..a484d94 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -297,7 +297,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -310,6 +310,19 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
+            if entries.fields_count >= count_limit {
+                return Partial(
+                    PartialEntries {
+                        entries,
+                        partial: Some(PartialSavedField {
+                            source: field,
+                            dest: None,
+                        }),
+                    },
+                    PartialReason::CountLimit
+                );
+            }
+
             let (dest, reason) = match save_field(&mut field, &entries) {
                 Full(saved) => {
                     entries.push_field(field.headers, saved);
@@ -331,14 +344,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From 268c4ddc98db2041c4a800229ee7870ab210b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 12/25] fix: count text fields in the content length of a
 prepared request

---
 src/client/lazy.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..7117c4e 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -312,6 +312,7 @@ impl<'d> PreparedFields<'d> {
             boundary.push_str("--");
         }
 
+        content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
 
         Ok(PreparedFields {
-- 
2.43.0


From 3f6028b333e5c26fadda017c99f3b772667be537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 13/25] fix: end a prepared request without fields with the
 closing boundary

---
 src/client/lazy.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7117c4e..7bde2f5 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -305,12 +305,8 @@ impl<'d> PreparedFields<'d> {
             }
         }
 
-        // So we don't write a spurious end boundary
-        if text_data.is_empty() && streams.is_empty() {
-            boundary = String::new();
-        } else {
-            boundary.push_str("--");
-        }
+        // always write the closing boundary, even for empty bodies
+        boundary.push_str("--");
 
         content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
-- 
2.43.0


From 3c7b50a4248711ac2e3429f10d021f8ba48e0186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 14/25] fix: don't lose prepared data when a source stream
 errors later in the same read

---
 src/client/lazy.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7bde2f5..841802d 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -341,12 +341,9 @@ impl<'d> Read for PreparedFields<'d> {
             return Ok(0);
         }
 
-        let mut total_read = 0;
-
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
-            let buf = &mut buf[total_read..];
-
-            total_read += if !cursor_at_end(&self.text_data) {
+        // Return as soon as there are bytes in `buf`, which would be lost if a later source errored.
+        while !cursor_at_end(&self.end_boundary) {
+            let read = if !cursor_at_end(&self.text_data) {
                 self.text_data.read(buf)?
             } else if let Some(mut field) = self.streams.pop() {
                 match field.read(buf) {
@@ -359,9 +356,13 @@ impl<'d> Read for PreparedFields<'d> {
             } else {
                 self.end_boundary.read(buf)?
             };
+
+            if read > 0 {
+                return Ok(read);
+            }
         }
 
-        Ok(total_read)
+        Ok(0)
     }
 }
 
-- 
2.43.0


From 6a695d591264ccc0c6beecd897649a25a034aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 15/25] fix: return an error when the request refuses the
 multipart headers

---
 src/client/lazy.rs |  4 +++-
 src/client/mod.rs  | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 841802d..58f2179 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -202,7 +202,9 @@ impl<'n, 'd> Multipart<'n, 'd> {
     {
         let mut prepared = self.prepare().map_err(LazyError::transform_err)?;
 
-        req.apply_headers(prepared.boundary(), prepared.content_len());
+        if !req.apply_headers(prepared.boundary(), prepared.content_len()) {
+            return Err(LazyError::without_field(super::headers_refused()));
+        }
 
         let mut stream = try_lazy!(req.open_stream());
 
diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3158d2a..8f0f976 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -210,12 +210,23 @@ fn gen_boundary() -> String {
     ::random_alphanumeric(BOUNDARY_LEN)
 }
 
+fn headers_refused() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Other,
+        "failed to apply headers to wrapped request.",
+    )
+}
+
 fn open_stream<R: HttpRequest>(
     mut req: R,
     content_len: Option<u64>,
 ) -> Result<(String, R::Stream), R::Error> {
     let boundary = gen_boundary();
-    req.apply_headers(&boundary, content_len);
+
+    if !req.apply_headers(&boundary, content_len) {
+        return Err(headers_refused().into());
+    }
+
     req.open_stream().map(|stream| (boundary, stream))
 }
 
-- 
2.43.0


From 24574a91e5f017c00e87de202332e8a5cc8fa7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 16/25] fix: don't read from the request body again after
 reaching its end

---
 src/server/boundary.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 26bf9bb..29f8c75 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -34,6 +34,8 @@ enum State {
 #[derive(Debug)]
 pub struct BoundaryReader<R> {
     source: BufReader<R, MinBuffered>,
+    /// If the end of `source` was reached, after which it may block if read again.
+    source_at_end: bool,
     boundary: Vec<u8>,
     search_idx: usize,
     state: State,
@@ -48,20 +50,32 @@ impl<R> BoundaryReader<R> where R: Read {
 
         BoundaryReader {
             source,
+            source_at_end: false,
             boundary,
             search_idx: 0,
             state: Searching,
         }
     }
 
-    fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+    fn fill_source_buf(&mut self) -> io::Result<()> {
+        if self.source_at_end || self.source.buf_len() >= self.source.policy().0 {
+            return Ok(());
+        }
+
         // the policy only makes room for a whole minimum's worth of data at once, so if that's more
         // than what's free it wouldn't move anything and would stop reading at the end of the buffer
-        if self.source.buf_len() < self.source.policy().0 {
-            self.source.make_room();
-        }
+        self.source.make_room();
+
+        let buffered = self.source.fill_buf()?.len();
+        self.source_at_end = buffered < cmp::min(self.source.policy().0, self.source.capacity());
 
-        let buf = self.source.fill_buf()?;
+        Ok(())
+    }
+
+    fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+        self.fill_source_buf()?;
+
+        let buf = self.source.buffer();
 
         trace!("Buf: {:?}", String::from_utf8_lossy(buf));
 
@@ -148,7 +162,9 @@ impl<R> BoundaryReader<R> where R: Read {
         self.search_idx = 0;
 
         let consume_amt = {
-            let buf = self.source.fill_buf()?;
+            self.fill_source_buf()?;
+
+            let buf = self.source.buffer();
 
             // if the boundary is found we should have at least this much in-buffer
             let mut consume_amt = self.boundary.len();
@@ -238,6 +254,7 @@ impl<'a> BoundaryReader<io::Cursor<&'a [u8]>> {
     fn reset(&mut self) {
         // Dump buffer and reset cursor
         self.source.seek(io::SeekFrom::Start(0));
+        self.source_at_end = false;
         self.state = Searching;
         self.search_idx = 0;
     }
-- 
2.43.0


From 2f9619ab1ee8a2438ed79da13c37431d4c97b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 17/25] fix: only take POST requests as multipart with Iron

---
 src/server/iron.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..310da01 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -4,6 +4,7 @@
 //! iron::Request`.
 
 use iron::headers::ContentType;
+use iron::method::Method;
 use iron::mime::{Mime, TopLevel, SubLevel};
 use iron::request::{Body as IronBody, Request as IronRequest};
 use iron::typemap::Key;
@@ -21,6 +22,10 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
     type Body = &'r mut IronBody<'a, 'b>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.method != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self.headers.get::<ContentType>());
         if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **content_type {
             content_type.get_param("boundary").map(|b| b.as_str())
-- 
2.43.0


From eaa1178db7aa247577f912867e8c0326a578ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 18/25] fix: only take multipart/form-data POST requests as
 multipart with Nickel

---
 src/server/nickel.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..9b94027 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -3,6 +3,8 @@ pub extern crate nickel;
 
 use self::nickel::hyper;
 use self::hyper::header::ContentType;
+use self::hyper::method::Method;
+use self::hyper::mime::{Mime, TopLevel, SubLevel};
 
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
@@ -20,8 +22,17 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
 
     fn multipart_boundary(&self) -> Option<&str> {
         // we can't use the impl from the `hyper` module because it might be the wrong version
+        if self.0.origin.method != Method::Post {
+            return None;
+        }
+
         let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+
+        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **cont_type {
+            cont_type.get_param("boundary").map(|v| v.as_str())
+        } else {
+            None
+        }
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 022da25c50641f9e052568eb6d45887518fc87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 19/25] fix: only take multipart/form-data POST requests as
 multipart with tiny_http, and unquote the boundary

---
 src/server/field.rs     |  2 +-
 src/server/tiny_http.rs | 20 ++++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 26a92c4..bd7659e 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -351,7 +351,7 @@ fn split_once(s: &str, delim: char) -> Option<(&str, &str)> {
 
 /// Get the value of the parameter with the given name from `; param=value; param="value"`,
 /// minding that quoted values may contain anything, including semicolons and other parameters' names.
-fn find_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+pub fn find_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
     let mut rest = params;
 
     loop {
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..f6845ae 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,9 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use tiny_http::Method;
+
+use super::field::find_param;
 use super::HttpRequest;
 
 use std::io::Read;
@@ -14,7 +17,9 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     type Body = &'r mut dyn Read;
 
     fn multipart_boundary(&self) -> Option<&str> {
-        const BOUNDARY: &str = "boundary=";
+        if *self.method() != Method::Post {
+            return None;
+        }
 
         let content_type = try_opt!(self
             .headers()
@@ -22,12 +27,15 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
-        let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
-        let end = content_type[start..]
-            .find(';')
-            .map_or(content_type.len(), |end| start + end);
 
-        Some(&content_type[start..end])
+        let params_start = content_type.find(';').unwrap_or_else(|| content_type.len());
+        let (mime, params) = content_type.split_at(params_start);
+
+        if !mime.trim().eq_ignore_ascii_case("multipart/form-data") {
+            return None;
+        }
+
+        find_param("boundary", params)
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 5e7b2105c4057fccafbe31dc3edc2e2486e98e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 20/25] fix: accept any boundary with Hyper, even one that
 looks like a charset

---
 src/server/hyper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..3a359d7 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -92,7 +92,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
             ).and_then(|&(_, ref val)|
                 match *val {
                     Value::Ext(ref val) => Some(&**val),
-                    _ => None,
+                    Value::Utf8 => Some(val.as_str()),
                 }
             )
         })
@@ -126,7 +126,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
             ).and_then(|&(_, ref val)|
                 match *val {
                     Value::Ext(ref val) => Some(&**val),
-                    _ => None,
+                    Value::Utf8 => Some(val.as_str()),
                 }
             )
         })
-- 
2.43.0


From 4ff9838cedeff3ca35cf96a6c4dc2a2dad15a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 21/25] fix: complete the request when ignoring the count limit
 in the Iron middleware

---
 src/server/iron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 310da01..f8f23ca 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -164,8 +164,9 @@ impl Intercept {
     }
 
     fn read_request_lenient(&self, mut multipart: IronMultipart, tempdir: TempDir) -> IronResult<Option<Entries>> {
+        // The count limit is ignored, so that the request is always completed.
         let mut entries = match multipart.save().size_limit(self.file_size_limit)
-                                                .count_limit(self.file_count_limit)
+                                                .count_limit(None)
                                                 .with_temp_dir(tempdir) {
             Full(entries) => return Ok(Some(entries)),
             Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
@@ -175,7 +176,7 @@ impl Intercept {
 
         loop {
             entries = match multipart.save().size_limit(self.file_size_limit)
-                                            .count_limit(self.file_count_limit)
+                                            .count_limit(None)
                                             .with_entries(entries) {
                 Full(entries) => return Ok(Some(entries)),
                 Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
-- 
2.43.0


From 27084c5de917680956fc897efd9cc45eecb61008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:02 +0000
Subject: [PATCH 22/25] fix: create the Iron middleware's parent for temporary
 directories if it doesn't exist

---
 src/server/iron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index f8f23ca..e124edd 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -11,7 +11,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -133,7 +133,8 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| fs::create_dir_all(path)
+                        .and_then(|_| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path))
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From 0ab53e0fe38df6532ded7e5e29b5ec934c26aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:28 +0000
Subject: [PATCH 23/25] fix: don't write data to the wrapped writer twice when
 standard output takes only a part of it in StdoutTee

---
 src/mock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..457a84a 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -192,8 +192,10 @@ impl<'s, W> StdoutTee<'s, W> {
 
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        // both have to write the same bytes, of which the caller will pass the rest again
+        let written = self.inner.write(buf)?;
+        self.stdout.write_all(&buf[..written])?;
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From e6637973d4ee9564b43251eb50c5a4d9e3da72e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 24/25] fix: a Content-Length set before on a Hyper request of
 unknown length was kept, so that the multipart body was cut off there

---
 src/client/hyper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/hyper.rs b/src/client/hyper.rs
index 675cba6..1a696d6 100644
--- a/src/client/hyper.rs
+++ b/src/client/hyper.rs
@@ -47,6 +47,9 @@ impl HttpRequest for Request<Fresh> {
 
         if let Some(size) = content_len {
             headers.set(ContentLength(size));   
+        } else {
+            // one set before is not that of the multipart body, which Hyper would cut off there
+            headers.remove::<ContentLength>();
         }
 
         debug!("Hyper headers: {}", headers); 
-- 
2.43.0


From 0352c5f7817b2836109a36eb7f7090adb86e925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 25/25] fix: saving a request to a permanent directory made
 only its parents if no field went to a file, although any nonexistent
 directories are to be created

---
 src/server/save.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index a484d94..b5ad5ce 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -262,7 +262,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
     pub fn with_dir<P: Into<PathBuf>>(self, dir: P) -> EntriesSaveResult<M> {
         let dir = dir.into();
 
-        try_start!(create_dir_all(&dir));
+        try_start!(fs::create_dir_all(&dir));
 
         self.with_entries(Entries::new(SaveDir::Perm(dir)))
     }
-- 
2.43.0

