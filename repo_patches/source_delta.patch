From eea9735abb1b4ec87e1d8ec7ec01817c46a2624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 1/8] fix: do not join buffers with BytesMut::unsplit

bytes 0.4 computes an address from the content bytes of inline buffers there:
undefined behaviour on bytes a client chooses, and an abort where the standard
library checks it
---
 smtp-message/src/data/stream.rs | 7 ++++++-
 smtp-server/src/crlflines.rs    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index c495436..79e88f3 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -216,7 +216,12 @@ where
                     self.state = DataStreamState::EarlyFin;
                     return Ready(None);
                 }
-                Ready(Some(b)) => self.buf.unsplit(b), // TODO: (B) optimize with `self.buf = b`?
+                // `BytesMut::unsplit` does pointer arithmetic on the bytes of inline buffers
+                Ready(Some(b)) => if self.buf.is_empty() {
+                    self.buf = b;
+                } else {
+                    self.buf.extend_from_slice(&b);
+                },
             }
         }
     }
diff --git a/smtp-server/src/crlflines.rs b/smtp-server/src/crlflines.rs
index 8f65089..77a391e 100644
--- a/smtp-server/src/crlflines.rs
+++ b/smtp-server/src/crlflines.rs
@@ -9,7 +9,12 @@ where
 {
     let mut buf = BytesMut::new();
     while let Some(pkt) = s.next().await {
-        buf.unsplit(pkt);
+        // `BytesMut::unsplit` does pointer arithmetic on the bytes of inline buffers
+        if buf.is_empty() {
+            buf = pkt;
+        } else {
+            buf.extend_from_slice(&pkt);
+        }
 
         // TODO: (B) implement line length limits id:line-length-limit
 
-- 
2.43.0


From 04a5e96f6f268e8b2ffd511a9b215556456dc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 2/8] fix: bound a sub-range of a ByteSlice by the view, not by
 the buffer

---
 smtp-message/src/byteslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/byteslice.rs b/smtp-message/src/byteslice.rs
index c19971c..82d320f 100644
--- a/smtp-message/src/byteslice.rs
+++ b/smtp-message/src/byteslice.rs
@@ -60,7 +60,7 @@ impl<'a> PartialEq for ByteSlice<'a> {
 
 impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
     fn slice(&self, range: Range<usize>) -> Self {
-        assert!(range.start <= range.end && range.end <= self.end);
+        assert!(range.start <= range.end && range.end <= self.end - self.start);
         ByteSlice {
             buf: self.buf,
             start: self.start + range.start,
-- 
2.43.0


From 472c01c072f0677ca9d5124a710906f0763755d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 3/8] fix: require three digits in a reply code

---
 smtp-message/src/reply.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smtp-message/src/reply.rs b/smtp-message/src/reply.rs
index 4e2d71a..c34b016 100644
--- a/smtp-message/src/reply.rs
+++ b/smtp-message/src/reply.rs
@@ -130,7 +130,11 @@ named!(pub reply(ByteSlice) -> ReplyLine, do_parse!(
     code: map!(
         verify!(
             map_res!(
-                map_res!(take!(3), ByteSlice::into_utf8),
+                map_res!(
+                    // `u16::from_str` alone would also accept a leading `+`
+                    verify!(take!(3), |x: ByteSlice| x.iter().all(|b| b.is_ascii_digit())),
+                    ByteSlice::into_utf8
+                ),
                 |utf8| u16::from_str(utf8)
             ),
             |x: u16| x < 1000
-- 
2.43.0


From d94385ac4b6507dc29add6311c0eac5c64729f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 4/8] fix: do not overflow in byte_chunks for huge chunk sizes

---
 smtp-message/src/smtpstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/smtpstring.rs b/smtp-message/src/smtpstring.rs
index c70a836..19178e7 100644
--- a/smtp-message/src/smtpstring.rs
+++ b/smtp-message/src/smtpstring.rs
@@ -62,7 +62,7 @@ impl SmtpString {
 
     pub fn byte_chunks(&self, bytes: usize) -> impl Iterator<Item = SmtpString> {
         let copy = self.0.clone();
-        (0..(self.byte_len() + bytes - 1) / bytes)
+        (0..self.byte_len() / bytes + (self.byte_len() % bytes != 0) as usize)
             .map(move |i| SmtpString(copy.slice(i * bytes, min(copy.len(), (i + 1) * bytes))))
     }
 }
-- 
2.43.0


From 7521e926c83e8783640990400c6e3d894096b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 5/8] fix: refuse an empty source route

---
 smtp-message/src/email.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/email.rs b/smtp-message/src/email.rs
index 66892b0..20ab9e6 100644
--- a/smtp-message/src/email.rs
+++ b/smtp-message/src/email.rs
@@ -128,7 +128,7 @@ named!(pub email(ByteSlice) -> Email, do_parse!(
 
 named!(address_in_path(ByteSlice) -> Email, preceded!(
     opt!(do_parse!(
-        separated_list!(tag!(","), do_parse!(tag!("@") >> hostname >> ())) >>
+        separated_nonempty_list!(tag!(","), do_parse!(tag!("@") >> hostname >> ())) >>
         tag!(":") >>
         ()
     )),
-- 
2.43.0


From c6d69c91e4fd9a73b94cffafa0d903e7d383d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 6/8] fix: refuse HELP and NOOP followed by something else than
 a blank

---
 smtp-message/src/help/mod.rs | 8 ++++----
 smtp-message/src/noop/mod.rs | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/smtp-message/src/help/mod.rs b/smtp-message/src/help/mod.rs
index ca8f39f..e9b6612 100644
--- a/smtp-message/src/help/mod.rs
+++ b/smtp-message/src/help/mod.rs
@@ -1,3 +1,4 @@
+use bytes::Bytes;
 use std::io;
 
 use crate::{byteslice::ByteSlice, smtpstring::SmtpString};
@@ -24,13 +25,12 @@ impl HelpCommand {
     }
 }
 
-// TODO: (B) this opt!(…) allows HELPfoo, which is wrong, like other commands
 named!(pub command_help_args(ByteSlice) -> HelpCommand, do_parse!(
-    tag_no_case!("HELP") >> opt!(one_of!(spaces!())) >>
-    res: take_until!("\r\n") >>
+    tag_no_case!("HELP") >>
+    res: opt!(preceded!(one_of!(spaces!()), take_until!("\r\n"))) >>
     tag!("\r\n") >>
     (HelpCommand {
-        subject: res.promote().into(),
+        subject: res.map_or_else(Bytes::new, |x| x.promote()).into(),
     })
 ));
 
diff --git a/smtp-message/src/noop/mod.rs b/smtp-message/src/noop/mod.rs
index 53dbea9..e159b19 100644
--- a/smtp-message/src/noop/mod.rs
+++ b/smtp-message/src/noop/mod.rs
@@ -1,3 +1,4 @@
+use bytes::Bytes;
 use std::io;
 
 use crate::{byteslice::ByteSlice, smtpstring::SmtpString};
@@ -25,11 +26,11 @@ impl NoopCommand {
 }
 
 named!(pub command_noop_args(ByteSlice) -> NoopCommand, do_parse!(
-    tag_no_case!("NOOP") >> opt!(one_of!(spaces!())) >>
-    res: take_until!("\r\n") >>
+    tag_no_case!("NOOP") >>
+    res: opt!(preceded!(one_of!(spaces!()), take_until!("\r\n"))) >>
     tag!("\r\n") >>
     (NoopCommand {
-        string: res.promote().into(),
+        string: res.map_or_else(Bytes::new, |x| x.promote()).into(),
     })
 ));
 
-- 
2.43.0


From a53a6fda6076e0e04d392f6053b85ab4ecc82c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 7/8] fix: send a reply line for an empty reply text

---
 smtp-server/src/sendreply.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..a68e0d8 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -15,6 +15,12 @@ pub async fn send_reply<W>(
 where
     W: Sink<ReplyLine>,
 {
+    // An empty text has no chunk, but is still one (empty) line
+    if text.byte_len() == 0 {
+        let reply = ReplyLine::build(code, IsLastLine::Yes, text).unwrap();
+        return writer.send(reply).await;
+    }
+
     let replies = text
         .byte_chunks(ReplyLine::MAX_LEN)
         .with_position()
-- 
2.43.0


From 04a7ac55be7577ee3430ecce23b45bd14c81b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 8/8] fix: do not read the connection again after its end

---
 smtp-server/src/crlflines.rs | 4 ++--
 smtp-server/src/interact.rs  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/smtp-server/src/crlflines.rs b/smtp-server/src/crlflines.rs
index 77a391e..46cf72e 100644
--- a/smtp-server/src/crlflines.rs
+++ b/smtp-server/src/crlflines.rs
@@ -34,8 +34,8 @@ where
     // Failed to find a crlf before end-of-stream
     // This unwrap is free of risk, as `s.next()` has just been called above
     s.prepend(buf).unwrap();
-    // TODO: (A) here s will already have returned none, need to make sure we're not
-    // polling it again for the next none!!
+    // Note: here s will already have returned none, the caller must use a fused stream if it
+    // could poll it again
     None
 }
 
diff --git a/smtp-server/src/interact.rs b/smtp-server/src/interact.rs
index 5e16a05..ec604f1 100644
--- a/smtp-server/src/interact.rs
+++ b/smtp-server/src/interact.rs
@@ -44,7 +44,8 @@ where
     fn randomtest<Writer: Sink<Bytes>, S: Sink<ReplyLine, Error = Writer::Error>>(_: &S) {}
     randomtest::<Writer, _>(&writer);
     let mut writer = unsafe { Pin::new_unchecked(&mut writer) };
-    let mut reader = Prependable::new(incoming);
+    // Once the stream has ended (possibly inside message data) it must not be polled again
+    let mut reader = Prependable::new(incoming.fuse());
 
     send_reply(writer.as_mut(), cfg.welcome_banner()).await?;
     // TODO: (C) optimize by trying parsing directly and not buffering until crlf
-- 
2.43.0

