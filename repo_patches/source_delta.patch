From 82fb02df43c2ba175f69218028fcd145399f768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 01/24] fix: do not yield a CR that may belong to the
 boundary's CRLF

When the buffered data ended between the CR and the LF that precede a
boundary, the CR was yielded as field data, and the LF after it.
---
 src/server/boundary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..582b50f 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -97,6 +97,12 @@ impl<R> BoundaryReader<R> where R: Read {
             }
         }
 
+        // a CR at the very end may be the first half of the CRLF preceding a boundary that has not
+        // been read yet, so it cannot be yielded until it is known what follows it
+        if self.search_idx > 0 && self.search_idx == buf.len() && buf[self.search_idx - 1] == b'\r' {
+            self.search_idx -= 1;
+        }
+
         let ret_buf = &buf[..self.search_idx];
 
         trace!("Returning buf: {:?}", String::from_utf8_lossy(ret_buf));
-- 
2.43.0


From 463297537f808c7a3f6d416e31f85600f451a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 02/24] fix: discard unconsumed field data before reading its
 boundary

A boundary which was found but is only partly in the buffer, behind data
the caller has not consumed, was reported as missing.
---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 582b50f..ddeada5 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -137,6 +137,11 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // discard field data that was read but not consumed, so that the whole boundary fits in
+        // the buffer
+        let unread = self.search_idx;
+        self.consume(unread);
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
-- 
2.43.0


From 16de8dbcda0d12aced83fe332b1b4ecd65670645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 03/24] fix: give the buffer room for the requested minimum
 size

With a minimum above half of the capacity the buffer could not be
refilled and the reader took that for the end of the body.
---
 src/server/boundary.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index ddeada5..8c4cb20 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -115,6 +115,14 @@ impl<R> BoundaryReader<R> where R: Read {
         let min_buf_size = cmp::max(self.boundary.len() * 2, min_buf_size);
 
         self.source.policy_mut().0 = min_buf_size;
+
+        // the policy can only keep `min_buf_size` bytes in the buffer if there is enough room to
+        // make space for them while that many are still in use
+        let min_capacity = min_buf_size.saturating_mul(2);
+
+        if self.source.capacity() < min_capacity {
+            self.source.reserve(min_capacity);
+        }
     }
 
     pub fn consume_boundary(&mut self) -> io::Result<bool> {
-- 
2.43.0


From 26658da757ad2d311a486d8f4d7e487c36f51b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 04/24] fix: keep ';' in quoted field names and filenames

A ';' in a quoted name or filename cut the value short, and a
'filename=' before 'name=' was taken for the name.
---
 src/server/field.rs | 71 +++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 6ccf952..e555bcd 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -178,20 +178,18 @@ impl ContentDisp {
         };
 
         // Content-Disposition: form-data; name=?
-        let (field_name, filename) = match get_str_after("name=", ';', after_disp_type) {
+        let field_name = match get_param("name=", after_disp_type) {
             None => invalid_cont_disp!(
                 "expected field name and maybe filename, got",
                 after_disp_type
             ),
-            // Content-Disposition: form-data; name={field_name}; filename=?
-            Some((field_name, after_field_name)) => {
-                let field_name = trim_quotes(field_name);
-                let filename = get_str_after("filename=", ';', after_field_name)
-                    .map(|(filename, _)| trim_quotes(filename).to_owned());
-                (field_name, filename)
-            }
+            Some(field_name) => trim_quotes(field_name),
         };
 
+        // Content-Disposition: form-data; name={field_name}; filename=?
+        let filename =
+            get_param("filename=", after_disp_type).map(|filename| trim_quotes(filename).to_owned());
+
         Ok(ContentDisp {
             field_name: field_name.to_owned(),
             filename,
@@ -352,20 +350,49 @@ fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
-/// Get the string after `needle` in `haystack`, stopping before `end_val_delim`
-fn get_str_after<'a>(
-    needle: &str,
-    end_val_delim: char,
-    haystack: &'a str,
-) -> Option<(&'a str, &'a str)> {
-    let val_start_idx = try_opt!(haystack.find(needle)) + needle.len();
-    let val_end_idx = haystack[val_start_idx..]
-        .find(end_val_delim)
-        .map_or(haystack.len(), |end_idx| end_idx + val_start_idx);
-    Some((
-        &haystack[val_start_idx..val_end_idx],
-        &haystack[val_end_idx..],
-    ))
+/// Get the value of the first parameter starting with `name` in `params`, which is a list of
+/// parameters that are each preceded by `;`
+fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+    let mut params = params;
+
+    while !params.is_empty() {
+        // skip the `;`
+        let param = &params[1..];
+        let end_idx = param_end(param);
+        params = &param[end_idx..];
+
+        let param = param[..end_idx].trim();
+
+        if param.starts_with(name) {
+            return Some(&param[name.len()..]);
+        }
+    }
+
+    None
+}
+
+/// Get the index of the `;` which ends the first parameter in `params`, or the length of `params`
+/// if there is none. A `;` in a quoted value does not end the parameter.
+fn param_end(params: &str) -> usize {
+    let bytes = params.as_bytes();
+    let mut quoted = false;
+
+    for i in 0..bytes.len() {
+        if !quoted {
+            if bytes[i] == b';' {
+                return i;
+            }
+
+            // only a quote at the start of the value is an opening quote
+            quoted = bytes[i] == b'"' && i > 0 && bytes[i - 1] == b'=';
+        } else if bytes[i] == b'"' {
+            // clients do not reliably escape quotes, so a closing quote is one that ends the value
+            let rest = params[i + 1..].trim();
+            quoted = !(rest.is_empty() || rest.starts_with(';'));
+        }
+    }
+
+    params.len()
 }
 
 fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-- 
2.43.0


From 56714cd2b46e65b63d412f20da887e8927fc535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 05/24] fix: write the closing boundary for empty lazy requests

The boundary of a request without fields was dropped, so asking for it,
as sending the request does, panicked.
---
 src/client/lazy.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..20d2495 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -305,12 +305,8 @@ impl<'d> PreparedFields<'d> {
             }
         }
 
-        // So we don't write a spurious end boundary
-        if text_data.is_empty() && streams.is_empty() {
-            boundary = String::new();
-        } else {
-            boundary.push_str("--");
-        }
+        // always write the closing boundary, even for empty bodies
+        boundary.push_str("--");
 
         content_len += boundary.len() as u64;
 
-- 
2.43.0


From 040cc4c25a666557bde5a9ee417ee29d426a7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 06/24] fix: count text fields in the lazy content length

The declared length of a request with text fields and without streams
was too short, so the body was cut off.
---
 src/client/lazy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 20d2495..6481bf7 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -308,7 +308,7 @@ impl<'d> PreparedFields<'d> {
         // always write the closing boundary, even for empty bodies
         boundary.push_str("--");
 
-        content_len += boundary.len() as u64;
+        content_len += text_data.len() as u64 + boundary.len() as u64;
 
         Ok(PreparedFields {
             text_data: Cursor::new(text_data),
-- 
2.43.0


From 4d3dee6f7daad810fa6dadac48b24cbf45a216e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 07/24] fix: do not lose data of a lazy request when a source
 fails

Bytes copied to the caller's buffer earlier in the same read() were lost
when the next source returned an error, such as Interrupted, which
callers retry.
---
 src/client/lazy.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 6481bf7..54d8bd7 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -342,9 +342,8 @@ impl<'d> Read for PreparedFields<'d> {
 
         let mut total_read = 0;
 
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
-            let buf = &mut buf[total_read..];
-
+        // stop once anything was read: an error would lose the bytes that are already in `buf`
+        while total_read == 0 && !cursor_at_end(&self.end_boundary) {
             total_read += if !cursor_at_end(&self.text_data) {
                 self.text_data.read(buf)?
             } else if let Some(mut field) = self.streams.pop() {
-- 
2.43.0


From f5411ecccdb00ea36facc7f65c4d028b1f167e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 08/24] fix: report an error if the request refuses the
 multipart headers

The result of apply_headers() was ignored, so the body was sent in a
request which has no boundary and may not be a POST at all.
---
 src/client/lazy.rs |  4 +++-
 src/client/mod.rs  | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 54d8bd7..d780dd8 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -202,7 +202,9 @@ impl<'n, 'd> Multipart<'n, 'd> {
     {
         let mut prepared = self.prepare().map_err(LazyError::transform_err)?;
 
-        req.apply_headers(prepared.boundary(), prepared.content_len());
+        if !req.apply_headers(prepared.boundary(), prepared.content_len()) {
+            try_lazy!(Err(super::headers_error()));
+        }
 
         let mut stream = try_lazy!(req.open_stream());
 
diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3158d2a..00af9d7 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -210,12 +210,23 @@ fn gen_boundary() -> String {
     ::random_alphanumeric(BOUNDARY_LEN)
 }
 
+fn headers_error() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Other,
+        "failed to apply headers to the request",
+    )
+}
+
 fn open_stream<R: HttpRequest>(
     mut req: R,
     content_len: Option<u64>,
 ) -> Result<(String, R::Stream), R::Error> {
     let boundary = gen_boundary();
-    req.apply_headers(&boundary, content_len);
+
+    if !req.apply_headers(&boundary, content_len) {
+        return Err(headers_error().into());
+    }
+
     req.open_stream().map(|stream| (boundary, stream))
 }
 
-- 
2.43.0


From c3b3d2cda59c7abd6c5a3763cdd9fd94a5e35474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 09/24] fix: do not touch the disk when the size limit is
 reached in memory

The limit is only checked against whole chunks, so the data in memory is
mostly shorter than the limit when it is reached. This was taken for the
memory threshold, which created a file even though `size_limit` is less
than or equal to `memory_threshold`.
---
 src/server/save.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..0a83a8e 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -395,7 +395,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let bytes = if self.text_policy != Ignore {
             let (text, reason) = try_partial!(self.save_text());
             match reason {
-                SizeLimit if !self.cmp_size_limit(text.len()) => text.into_bytes(),
+                SizeLimit if self.memory_threshold < self.size_limit => text.into_bytes(),
                 Utf8Error(_) if self.text_policy != Force => text.into_bytes(),
                 other => return Partial(text.into(), other),
             }
@@ -406,7 +406,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let (bytes, reason) = try_partial!(self.save_mem(bytes));
 
         match reason {
-            SizeLimit if !self.cmp_size_limit(bytes.len()) => (),
+            SizeLimit if self.memory_threshold < self.size_limit => (),
             other => return Partial(bytes.into(), other)
         }
 
@@ -480,10 +480,6 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
             .saturating_sub(pre_read);
         try_copy_limited(&mut self.savable, with_buf, limit)
     }
-
-    fn cmp_size_limit(&self, size: usize) -> bool {
-        size as u64 >= self.size_limit
-    }
 }
 
 /// A field that has been saved (to memory or disk) from a multipart request.
-- 
2.43.0


From 3afa45168191877a039260e08322942ea9343fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 10/24] fix: count the bytes read to memory towards the size
 limit of a file

A file could get as large as the size limit plus the memory threshold.
---
 src/server/save.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 0a83a8e..a2d2148 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -422,7 +422,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        let limit = self.size_limit.saturating_sub(bytes.len() as u64);
+        self.write_limited(file, limit).map(move |written| data.add_size(written))
     }
 
 
@@ -432,9 +433,14 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     /// (tested by `MultipartFile::fill_buf().is_empty()` so no bytes are consumed).
     ///
     /// Retries on interrupts.
-    pub fn write_to<W: Write>(&mut self, mut dest: W) -> SaveResult<u64, u64> {
+    pub fn write_to<W: Write>(&mut self, dest: W) -> SaveResult<u64, u64> {
+        let limit = self.size_limit;
+        self.write_limited(dest, limit)
+    }
+
+    fn write_limited<W: Write>(&mut self, mut dest: W, limit: u64) -> SaveResult<u64, u64> {
         if self.size_limit < u64::MAX {
-            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), self.size_limit)
+            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), limit)
         } else {
             try_read_buf(&mut self.savable, |buf| try_write_all(buf, &mut dest))
         }
-- 
2.43.0


From c08371f9303670907c8f87548168ee011f654172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 11/24] fix: stop at invalid UTF-8 when saving a field as text

The same data was decoded over and over until the memory threshold was
reached on paper: without limits the save never ended, and with
force_text() it did not return the error. Data which was decoded again
was also counted again towards the limits.
---
 src/server/save.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index a2d2148..0edd81e 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -464,13 +464,18 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.read_mem(|buf| {
             match str::from_utf8(buf) {
                 Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
-                        Partial(0, e.into())
+                Err(e) => {
+                    let valid = e.valid_up_to();
+                    string.push_str(str::from_utf8(&buf[..valid]).unwrap());
+
+                    // only a sequence cut off by the end of the buffer can still become valid, but
+                    // the buffer should always be bigger than that if there is more data
+                    if e.error_len().is_none() && valid > 0 {
+                        Full(valid)
                     } else {
-                        string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
-                        Full(e.valid_up_to())
+                        Partial(valid, e.into())
                     }
+                },
             }
         }, 0);
 
@@ -976,9 +981,15 @@ fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(sr
     try_read_buf(src, |buf| {
         let new_copied = copied.saturating_add(buf.len() as u64);
         if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
 
-        with_buf(buf)
+        let res = with_buf(buf);
+
+        // not necessarily all of `buf`
+        if let Full(buf_copied) = res {
+            copied = copied.saturating_add(buf_copied as u64);
+        }
+
+        res
     })
 }
 
-- 
2.43.0


From a79472ced849c205deaac42a787d548b1c310edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 12/24] fix: return data that was already read when saving to a
 file fails

`SaveResult::Error` is for errors before anything was done, but it was
also returned, and the data lost, after data was read to memory and the
file could not be created or written, or the next read failed.
---
 src/server/save.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 0edd81e..656226a 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -39,15 +39,6 @@ macro_rules! try_start (
     )
 );
 
-macro_rules! try_full (
-    ($try:expr) => {
-        match $try {
-            Full(full) => full,
-            other => return other,
-        }
-    }
-);
-
 macro_rules! try_partial (
     ($try:expr) => {
         match $try {
@@ -414,16 +405,23 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
 
         let mut file = match create_dir_all(&path).and_then(|_| self.open_opts.open(&path)) {
             Ok(file) => file,
-            Err(e) => return Error(e),
+            Err(e) => return if bytes.is_empty() { Error(e) }
+                             else { Partial(bytes.into(), e.into()) },
         };
 
-        let data = try_full!(
-            try_write_all(&bytes, &mut file)
-                .map(move |size| SavedData::File(path, size as u64))
-        );
+        let data = match try_write_all(&bytes, &mut file) {
+            Full(size) => SavedData::File(path, size as u64),
+            Partial(size, reason) => return Partial(SavedData::File(path, size as u64), reason),
+            Error(e) => return Partial(bytes.into(), e.into()),
+        };
 
         let limit = self.size_limit.saturating_sub(bytes.len() as u64);
-        self.write_limited(file, limit).map(move |written| data.add_size(written))
+
+        match self.write_limited(file, limit) {
+            // the data read to memory was already written
+            Error(e) => Partial(data, e.into()),
+            res => res.map(move |written| data.add_size(written)),
+        }
     }
 
 
-- 
2.43.0


From 9e90e0aad1b6cc0021e42bc5c76292f07969e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 13/24] fix: save with_filename() in the OS temporary directory

The name of the temporary directory itself was replaced.
---
 src/server/save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 656226a..ee3a842 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -358,10 +358,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
-
-        self.with_path(tempdir)
+        let path = env::temp_dir().join(filename);
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From 0fe28d0a6a576b47b0faff414a9aa0b109470719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 14/24] fix: apply the count limit only if there is another
 field

A request with exactly `count_limit` fields was reported as partial, and
a field over the limit was read and dropped.
---
 src/server/save.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index ee3a842..09bc2c4 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -297,7 +297,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -310,6 +310,19 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
+            if entries.fields_count >= count_limit {
+                return Partial(
+                    PartialEntries {
+                        entries,
+                        partial: Some(PartialSavedField {
+                            source: field,
+                            dest: None,
+                        }),
+                    },
+                    PartialReason::CountLimit
+                );
+            }
+
             let (dest, reason) = match save_field(&mut field, &entries) {
                 Full(saved) => {
                     entries.push_field(field.headers, saved);
@@ -331,14 +344,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From 4a5981badf35341796034b811faa6f9854cb72f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 15/24] fix: create the directory given to
 SaveBuilder::with_dir()

Only its parent was created, so the directory was missing if no field
was saved to a file.
---
 src/server/save.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 09bc2c4..c4363a9 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -262,7 +262,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
     pub fn with_dir<P: Into<PathBuf>>(self, dir: P) -> EntriesSaveResult<M> {
         let dir = dir.into();
 
-        try_start!(create_dir_all(&dir));
+        try_start!(fs::create_dir_all(&dir));
 
         self.with_entries(Entries::new(SaveDir::Perm(dir)))
     }
-- 
2.43.0


From 74f788feadeaa2d5c7389abffec2ecf2829b383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 16/24] fix: only accept POST requests as multipart in the Iron
 integration

HttpRequest::multipart_boundary() is documented to return the boundary
of POST requests, as it does for Hyper.
---
 src/server/iron.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..310da01 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -4,6 +4,7 @@
 //! iron::Request`.
 
 use iron::headers::ContentType;
+use iron::method::Method;
 use iron::mime::{Mime, TopLevel, SubLevel};
 use iron::request::{Body as IronBody, Request as IronRequest};
 use iron::typemap::Key;
@@ -21,6 +22,10 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
     type Body = &'r mut IronBody<'a, 'b>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.method != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self.headers.get::<ContentType>());
         if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **content_type {
             content_type.get_param("boundary").map(|b| b.as_str())
-- 
2.43.0


From 9422bb94bb974802be899c3d88a9cbe4a6907999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 17/24] fix: only accept form-data POST requests in the Nickel
 integration

Any request with a boundary parameter in its Content-Type was read as
multipart/form-data, whatever its method and type.
---
 src/server/nickel.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..6be918d 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -3,6 +3,8 @@ pub extern crate nickel;
 
 use self::nickel::hyper;
 use self::hyper::header::ContentType;
+use self::hyper::method::Method;
+use self::hyper::mime::{Mime, TopLevel, SubLevel};
 
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
@@ -20,8 +22,16 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
 
     fn multipart_boundary(&self) -> Option<&str> {
         // we can't use the impl from the `hyper` module because it might be the wrong version
+        if self.0.origin.method != Method::Post {
+            return None;
+        }
+
         let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **cont_type {
+            cont_type.get_param("boundary").map(|v| v.as_str())
+        } else {
+            None
+        }
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From dd46f0183d08ed8eaa0531644dd708329bbb5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 18/24] fix: only accept form-data POST requests in the
 tiny_http integration

Any request with a boundary parameter in its Content-Type was read as
multipart/form-data, and the quotes of a quoted boundary were taken for
a part of it.
---
 src/server/tiny_http.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..ba9956b 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,8 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use tiny_http::Method;
+
 use super::HttpRequest;
 
 use std::io::Read;
@@ -16,18 +18,29 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     fn multipart_boundary(&self) -> Option<&str> {
         const BOUNDARY: &str = "boundary=";
 
+        if *self.method() != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self
             .headers()
             .iter()
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
+        let media_type_end = content_type.find(';').unwrap_or(content_type.len());
+
+        if !content_type[..media_type_end].trim().eq_ignore_ascii_case("multipart/form-data") {
+            return None;
+        }
+
         let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
         let end = content_type[start..]
             .find(';')
             .map_or(content_type.len(), |end| start + end);
 
-        Some(&content_type[start..end])
+        // the value may be quoted
+        Some(content_type[start..end].trim().trim_matches('"'))
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 371c9d5f1eff581e79e5b0487fdb5c613e727811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 19/24] fix: ignore the count limit in Intercept with
 LimitBehavior::Continue

Each time the limit was hit a field was read and dropped, and once all
of them were the loop did not end.
---
 src/server/iron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 310da01..41055c6 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -164,8 +164,9 @@ impl Intercept {
     }
 
     fn read_request_lenient(&self, mut multipart: IronMultipart, tempdir: TempDir) -> IronResult<Option<Entries>> {
+        // the count limit is ignored, the request is to be completed
         let mut entries = match multipart.save().size_limit(self.file_size_limit)
-                                                .count_limit(self.file_count_limit)
+                                                .count_limit(None)
                                                 .with_temp_dir(tempdir) {
             Full(entries) => return Ok(Some(entries)),
             Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
@@ -175,7 +176,7 @@ impl Intercept {
 
         loop {
             entries = match multipart.save().size_limit(self.file_size_limit)
-                                            .count_limit(self.file_count_limit)
+                                            .count_limit(None)
                                             .with_entries(entries) {
                 Full(entries) => return Ok(Some(entries)),
                 Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
-- 
2.43.0


From e5b55ea62da220779abab88cc5dff8b5579a37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 20/24] fix: create Intercept's temp_dir_path if it does not
 exist

This is documented, but the request was failed instead.
---
 src/server/iron.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 41055c6..184b205 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -11,7 +11,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -133,7 +133,9 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| fs::create_dir_all(path).and_then(
+                        |_| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    )
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From cd59b1647d4d53673ad20587061f71e94764ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 21/24] fix: do not duplicate data in StdoutTee

All of the data was written to the inner writer, but the caller was told
to retry what stdout did not accept.
---
 src/mock.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..10358cf 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -193,7 +193,8 @@ impl<'s, W> StdoutTee<'s, W> {
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
         self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        self.stdout.write_all(buf)?;
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 0303d4f4158f64d9af732f34b59b61fc3c4fcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 22/24] fix: keep the data in memory when only part of it could
 be written to the file

---
 src/server/save.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index c4363a9..7069a49 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -414,7 +414,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
 
         let data = match try_write_all(&bytes, &mut file) {
             Full(size) => SavedData::File(path, size as u64),
-            Partial(size, reason) => return Partial(SavedData::File(path, size as u64), reason),
+            // the file does not hold all that was read, but the memory still does
+            Partial(_, reason) => return Partial(bytes.into(), reason),
             Error(e) => return Partial(bytes.into(), e.into()),
         };
 
-- 
2.43.0


From f8d526e439323d430b9819e66ff549307cd7df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 23/24] fix: take hyper requests whose boundary is utf-8 as
 multipart

---
 src/server/hyper.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..f1fe845 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -16,7 +16,7 @@ use hyper::server::{Handler, Request, Response};
 
 pub use hyper::server::Request as HyperRequest;
 
-use hyper::mime::{Mime, TopLevel, SubLevel, Attr, Value};
+use hyper::mime::{Mime, TopLevel, SubLevel, Attr};
 
 use super::{Multipart, HttpRequest};
 
@@ -89,12 +89,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
@@ -123,12 +118,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
-- 
2.43.0


From 124f150e14ecb0bf49f067a49e35f3b2ab154662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 24/24] fix: find the boundary parameter of tiny_http requests
 by its whole name, in any case

---
 src/server/field.rs     |  2 +-
 src/server/tiny_http.rs | 27 +++++++++++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index e555bcd..434b2c2 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -373,7 +373,7 @@ fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
 
 /// Get the index of the `;` which ends the first parameter in `params`, or the length of `params`
 /// if there is none. A `;` in a quoted value does not end the parameter.
-fn param_end(params: &str) -> usize {
+pub(super) fn param_end(params: &str) -> usize {
     let bytes = params.as_bytes();
     let mut quoted = false;
 
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ba9956b..333013f 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -8,6 +8,7 @@ pub use tiny_http::Request as TinyHttpRequest;
 
 use tiny_http::Method;
 
+use super::field::param_end;
 use super::HttpRequest;
 
 use std::io::Read;
@@ -16,8 +17,6 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     type Body = &'r mut dyn Read;
 
     fn multipart_boundary(&self) -> Option<&str> {
-        const BOUNDARY: &str = "boundary=";
-
         if *self.method() != Method::Post {
             return None;
         }
@@ -34,13 +33,25 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
             return None;
         }
 
-        let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
-        let end = content_type[start..]
-            .find(';')
-            .map_or(content_type.len(), |end| start + end);
+        let mut params = &content_type[media_type_end..];
+
+        while !params.is_empty() {
+            // skip the `;`
+            let param = &params[1..];
+            let end = param_end(param);
+            params = &param[end..];
+
+            let param = &param[..end];
+
+            if let Some(eq) = param.find('=') {
+                if param[..eq].trim().eq_ignore_ascii_case("boundary") {
+                    // the value may be quoted
+                    return Some(param[eq + 1..].trim().trim_matches('"'));
+                }
+            }
+        }
 
-        // the value may be quoted
-        Some(content_type[start..end].trim().trim_matches('"'))
+        None
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0

