From 50e728ef30b6f2da87e00a221dc5a236c11f041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 01/21] fix: forward messages through the annotated enum and
 variant, not a hard-coded LoggedMessages::Other

---
 macros/src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 733d2fd..92fcab0 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -513,23 +513,23 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
     let has_forward_other = forward_other_variant_ident.is_some();
 
-    let extra_logged_msg_conditional = match has_forward_other {
-        true => quote! {
+    let extra_logged_msg_conditional = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             else {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::LoggedData(data))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
-    let extra_subscription_forwarder = match has_forward_other {
-        true => quote! {
+    let extra_subscription_forwarder = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::AddSubscription(sub))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
     let expanded = quote! {
-- 
2.43.0


From 81056c08009e64b10fe9d8a37ede2d3e26c3143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 02/21] fix: report tagged log messages as TaggedLoggedString,
 so they keep their message type

---
 core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f9623d6..e239d7a 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -305,7 +305,7 @@ impl<R: Read> ULogParser<R> {
                 msg: String::from_utf8(message_buf.into_remaining_bytes())?,
             })),
             ULogMessageType::LOGGING_TAGGED => {
-                Ok(msg::UlogMessage::LoggedString(msg::LoggedString {
+                Ok(msg::UlogMessage::TaggedLoggedString(msg::LoggedString {
                     level: LogLevel::try_from(message_buf.take_u8()?)?,
                     tag: Some(message_buf.take_u16()?),
                     timestamp: message_buf.take_u64()?,
-- 
2.43.0


From fdc3334cfb231073356b9ced93afde55ee3f0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 03/21] fix: keep the msg_id in the contents of a
 REMOVE_SUBSCRIPTION message

---
 core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index e239d7a..33122cc 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -273,11 +273,12 @@ impl<R: Read> ULogParser<R> {
                 Ok(msg::UlogMessage::AddSubscription(sub))
             }
             ULogMessageType::REMOVE_SUBSCRIPTION => {
-                let msg_id = message_buf.take_u16()?;
+                let message_contents = message_buf.into_remaining_bytes();
+                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                 self.subscriptions.remove(&msg_id);
                 Ok(UlogMessage::Unhandled {
                     msg_type: message_type.into(),
-                    message_contents: message_buf.into_remaining_bytes(),
+                    message_contents,
                 })
             }
             ULogMessageType::DATA => {
-- 
2.43.0


From fe30d437a530149d0089c3cd46d5cb7aedaee520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 04/21] fix: do not print heartbeat formats on standard output

---
 core/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 33122cc..e61bfe7 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -208,10 +208,6 @@ impl<R: Read> ULogParser<R> {
 
                 match msg {
                     UlogMessage::FormatDefinition(ref format) => {
-                        if format.name.contains("heartbeat") {
-                            println!("Heartbeat {format}");
-                        }
-
                         self.formats.insert(format.name.clone(), Shared::new(format.clone()));
                     }
                     UlogMessage::AddSubscription(ref sub) => {
-- 
2.43.0


From 6cb204976d2e0a6846cd51ff8c310c80ee660145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 05/21] fix: parse logged strings that come before the first
 subscription

---
 core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index e61bfe7..d84c7e2 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -624,6 +624,9 @@ impl<R: Read> ULogParser<R> {
                 Ok(UlogMessage::Unhandled { msg_type: message_type.into(), message_contents: message_buf.into_remaining_bytes() })
             }
              */
+            ULogMessageType::LOGGING | ULogMessageType::LOGGING_TAGGED => {
+                self.parse_data(message_type, message_buf)
+            }
             ULogMessageType::UNKNOWN(byte) => {
                 log::warn!("Unknown message type: 0x{byte:02X}");
                 Ok(UlogMessage::Unhandled {
-- 
2.43.0


From 3396f456d8fe87c8e8cb2cd9291f9b871b5d55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 06/21] fix: do not panic on a number too large for usize in a
 format or key

---
 core/src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index e74ba33..96a45a3 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -76,7 +76,11 @@ pub fn tokenize(input: &str) -> VecDeque<Token<'_>> {
         if let Some(identifier) = caps.name("identifier") {
             tokens.push_back(Token::Identifier(identifier.as_str()));
         } else if let Some(number) = caps.name("number") {
-            tokens.push_back(Token::Number(number.as_str().parse::<usize>().unwrap()));
+            tokens.push_back(match number.as_str().parse::<usize>() {
+                Ok(value) => Token::Number(value),
+                // Too large for a usize. The regexp guarantees at least one (ASCII) digit.
+                Err(_) => Token::Unknown(char::from(number.as_str().as_bytes()[0])),
+            });
         } else if caps.name("colon").is_some() {
             tokens.push_back(Token::Colon);
         } else if caps.name("semicolon").is_some() {
-- 
2.43.0


From 5b87ed76a14ca00881e5ca27783bc5868907db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 07/21] fix: report a message or file header cut short by the
 end of the stream, instead of zero-filling it

---
 core/src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index d84c7e2..5191778 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -150,6 +150,13 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn read_message(&mut self, msg_size: usize) -> Result<MessageBuf, ULogError> {
         let mut message: Vec<u8> = vec![0; msg_size];
         self.datastream.read_exact(&mut message)?;
+
+        if self.datastream.eof {
+            // The stream ended inside this message, `message` was not (entirely) filled.
+            self.state = State::EOF;
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         Ok(MessageBuf::from_vec(message))
     }
 
@@ -361,14 +368,14 @@ impl<R: Read> ULogParser<R> {
 
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
         let msg_size = self.datastream.read_u16()?;
+        let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
 
-        // ⚠️This is the only place where we check for EOF when calling a datastream read method.
+        // ⚠️This is the only place where EOF is the normal end of the stream.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
         if self.datastream.eof {
             return Ok(None);
         }
 
-        let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
         log::trace!("MSG HEADER: {msg_size} {msg_type:?}");
 
         Ok(Some(ULogMessageHeader { msg_size, msg_type }))
@@ -562,6 +569,10 @@ impl<R: Read> ULogParser<R> {
         let mut msg_header = [0; 16];
         self.datastream.read_exact(&mut msg_header)?;
 
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         if msg_header[0..7] != MAGIC {
             return Err(ULogError::InvalidMagicBits);
         }
-- 
2.43.0


From abd545358308ff5c8704dad90d1c6b4e06579b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 08/21] fix: keep the place in the stream across an I/O error,
 and report it as what it is

---
 core/src/datastream.rs | 35 ++++++++++++++++++++++++++---------
 core/src/parser.rs     | 39 +++++++++++++++++++++++++++++----------
 2 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/core/src/datastream.rs b/core/src/datastream.rs
index e7ecd65..893e3f7 100644
--- a/core/src/datastream.rs
+++ b/core/src/datastream.rs
@@ -7,6 +7,8 @@ use crate::errors::ULogError;
 #[derive(Debug)]
 pub struct DataStream<R: Read> {
     reader: R,
+    /// Bytes taken from the reader by a read that then failed. The next read starts with them.
+    unread: Vec<u8>,
     pub(crate) num_bytes_read: usize,
     pub(crate) eof: bool,
 }
@@ -15,6 +17,7 @@ impl<R: Read> DataStream<R> {
     pub fn new(reader: R) -> DataStream<R> {
         DataStream {
             reader,
+            unread: Vec::new(),
             num_bytes_read: 0,
             eof: false,
         }
@@ -26,24 +29,38 @@ impl<R: Read> DataStream<R> {
             self.num_bytes_read,
             self.num_bytes_read + buf.len()
         );
-        self.num_bytes_read += buf.len();
 
-        match self.reader.read_exact(buf) {
-            Ok(()) => Ok(buf.len()),
-            Err(err) => match err.kind() {
+        let num_unread = self.unread.len().min(buf.len());
+        buf[..num_unread].copy_from_slice(&self.unread[..num_unread]);
+
+        let mut filled = num_unread;
+        while filled < buf.len() {
+            match self.reader.read(&mut buf[filled..]) {
                 // Eof is not technically an error, so signal it by reporting 0 bytes read and setting eof true.
-                ErrorKind::UnexpectedEof => {
+                Ok(0) => {
+                    self.unread.clear();
                     self.eof = true;
-                    Ok(0)
+                    return Ok(0);
+                }
+                Ok(num_bytes) => filled += num_bytes,
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => {
+                    // Keep what was read, so that the caller can retry without losing its place in the stream.
+                    self.unread = buf[..filled].to_vec();
+                    return Err(ULogError::Io(err));
                 }
-                _ => Err(ULogError::Io(err)),
-            },
+            }
         }
+
+        self.unread.drain(..num_unread);
+        self.num_bytes_read += buf.len();
+        Ok(buf.len())
     }
 
     /// Skips the specified number of bytes in the underlying reader.
     pub fn skip(&mut self, num_bytes: usize) -> Result<usize, ULogError> {
-        let mut total_skipped = 0;
+        let mut total_skipped = self.unread.len().min(num_bytes);
+        self.unread.drain(..total_skipped);
         while total_skipped < num_bytes {
             // Calculate how many bytes remaining to skip
             let bytes_to_skip = num_bytes - total_skipped;
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 5191778..f5717bd 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -27,6 +27,8 @@ pub struct ULogParser<R: Read> {
     message_name_with_multi_id: HashSet<String>,
     subscription_filter: SubscriptionFilter,
     datastream: DataStream<R>,
+    /// The header of a message whose contents could not be read because of an I/O error.
+    pending_header: Option<ULogMessageHeader>,
     max_bytes_to_read: Option<usize>,
     pub(crate) include_header: bool,
     pub(crate) include_timestamp: bool,
@@ -112,6 +114,7 @@ impl<R: Read> ULogParser<R> {
             message_name_with_multi_id: HashSet::new(),
             subscription_filter: SubscriptionFilter::default(),
             datastream: DataStream::new(reader),
+            pending_header: None,
             max_bytes_to_read: None,
             include_header: false,
             include_timestamp: false,
@@ -175,6 +178,8 @@ impl<R: Read> ULogParser<R> {
                         //Fallthrough.
                     }
                 }
+                // The stream may recover from an I/O error, so the header can be read again later.
+                Err(err @ ULogError::Io(_)) => return Err(err),
                 Err(_) => {
                     self.state = State::ERROR;
                     return Err(ULogError::InvalidHeader);
@@ -198,15 +203,26 @@ impl<R: Read> ULogParser<R> {
             }
         }
 
-        let (message_type, message_buf) = match self.read_message_header()? {
-            None => {
-                self.state = State::EOF;
-                return Ok(None);
+        let header = match self.pending_header.take() {
+            Some(header) => header,
+            None => match self.read_message_header()? {
+                None => {
+                    self.state = State::EOF;
+                    return Ok(None);
+                }
+                Some(header) => header,
+            },
+        };
+
+        let message_type = header.msg_type;
+        let message_buf = match self.read_message(header.msg_size as usize) {
+            Ok(message_buf) => message_buf,
+            Err(err) => {
+                if matches!(err, ULogError::Io(_)) {
+                    self.pending_header = Some(header);
+                }
+                return Err(err);
             }
-            Some(header) => (
-                header.msg_type,
-                self.read_message(header.msg_size as usize)?,
-            ),
         };
 
         match self.state {
@@ -367,8 +383,9 @@ impl<R: Read> ULogParser<R> {
     }
 
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
-        let msg_size = self.datastream.read_u16()?;
-        let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
+        // A single read, so that after an I/O error the header is read again from its start.
+        let mut header = [0; 3];
+        self.datastream.read_exact(&mut header)?;
 
         // ⚠️This is the only place where EOF is the normal end of the stream.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
@@ -376,6 +393,8 @@ impl<R: Read> ULogParser<R> {
             return Ok(None);
         }
 
+        let msg_size = LittleEndian::read_u16(&header[0..2]);
+        let msg_type = ULogMessageType::from(header[2]);
         log::trace!("MSG HEADER: {msg_size} {msg_type:?}");
 
         Ok(Some(ULogMessageHeader { msg_size, msg_type }))
-- 
2.43.0


From ca9422bf534e2827f86d83a5c330145ba7d78949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 09/21] fix: do not parse appended data as part of a message
 that straddles its offset

---
 core/src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f5717bd..2ad35de 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -214,6 +214,15 @@ impl<R: Read> ULogParser<R> {
             },
         };
 
+        // A message that would run past the limit is not a message, it was cut off by the appended data.
+        if let Some(max_bytes_to_read) = max_bytes_to_read {
+            let message_end = self.datastream.num_bytes_read + header.msg_size as usize;
+            if message_end > max_bytes_to_read {
+                self.state = State::EOF;
+                return Ok(None);
+            }
+        }
+
         let message_type = header.msg_type;
         let message_buf = match self.read_message(header.msg_size as usize) {
             Ok(message_buf) => message_buf,
-- 
2.43.0


From 8d3994a21a851fc8fa96e444e6b303a6ab6e41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 10/21] fix: do not allocate for the array size a file claims
 before having the bytes

---
 core/src/field_helpers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/field_helpers.rs b/core/src/field_helpers.rs
index 0ec5638..a782835 100644
--- a/core/src/field_helpers.rs
+++ b/core/src/field_helpers.rs
@@ -82,7 +82,8 @@ pub fn parse_array<T, F>(
 where
     F: FnMut(&mut MessageBuf) -> Result<T, ULogError>,
 {
-    let mut array = Vec::with_capacity(array_size);
+    // The size comes from the file, so don't trust it to allocate more than the message could hold.
+    let mut array = Vec::with_capacity(array_size.min(message_buf.len()));
     for _ in 0..array_size {
         array.push(parse_element(message_buf)?);
     }
-- 
2.43.0


From f48ebfec90e5ac61ffb1524018e8db6e4e9524ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 11/21] fix: limit nesting depth and values of size zero, so a
 corrupt format cannot exhaust stack or memory

---
 core/src/parser.rs | 85 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 78 insertions(+), 7 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 2ad35de..035f9b6 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -81,6 +81,52 @@ impl SubscriptionFilter {
     }
 }
 
+/// Limits what the formats found in a (possibly corrupt) file can make the parser do for one message.
+/// Without these, formats that contain themselves, or many values of no size, would exhaust the stack or memory.
+struct DataLimits {
+    depth: usize,
+    num_empty_values: usize,
+    max_empty_values: usize,
+}
+
+impl DataLimits {
+    const MAX_DEPTH: usize = 32;
+    const MIN_EMPTY_VALUES: usize = 256;
+
+    fn new(message_buf: &MessageBuf) -> Self {
+        Self {
+            depth: 0,
+            num_empty_values: 0,
+            // In proportion to the message, as is the number of the other values.
+            max_empty_values: Self::MIN_EMPTY_VALUES + message_buf.len(),
+        }
+    }
+
+    fn enter_format(&mut self, name: &str) -> Result<(), ULogError> {
+        if self.depth == Self::MAX_DEPTH {
+            return Err(ULogError::ParseError(format!(
+                "Formats are nested too deeply: {name}"
+            )));
+        }
+        self.depth += 1;
+        Ok(())
+    }
+
+    fn leave_format(&mut self) {
+        self.depth -= 1;
+    }
+
+    fn add_empty_value(&mut self) -> Result<(), ULogError> {
+        if self.num_empty_values == self.max_empty_values {
+            return Err(ULogError::ParseError(
+                "Too many values of size zero in one message".to_owned(),
+            ));
+        }
+        self.num_empty_values += 1;
+        Ok(())
+    }
+}
+
 #[allow(clippy::upper_case_acronyms)]
 #[derive(Debug, PartialEq, Eq, Copy, Clone)]
 enum State {
@@ -421,7 +467,8 @@ impl<R: Read> ULogParser<R> {
             return Err(ULogError::MissingTimestamp);
         }
 
-        let mut data_format = self.parse_data_message_sub(format, &mut message_buf)?;
+        let mut limits = DataLimits::new(&message_buf);
+        let mut data_format = self.parse_data_message_sub(format, &mut message_buf, &mut limits)?;
 
         if self.message_name_with_multi_id.contains(&sub.message_name) {
             data_format.multi_id_index = Some(sub.multi_id);
@@ -447,20 +494,36 @@ impl<R: Read> ULogParser<R> {
         &self,
         format: Shared<def::Format>,
         message_buf: &mut MessageBuf,
+        limits: &mut DataLimits,
     ) -> Result<inst::Format, ULogError> {
+        limits.enter_format(&format.name)?;
+
+        if format.fields.is_empty() {
+            limits.add_empty_value()?;
+        }
+
         let mut fields: Vec<inst::Field> = Vec::with_capacity(format.fields.len());
         let mut timestamp: Option<u64> = None;
 
         for field in &format.fields {
+            let len_before = message_buf.len();
+
             // Handle padding fields.
             if field.name.starts_with("_padding") {
                 if let Some(padding_field) = self.parse_padding(field, message_buf)? {
                     fields.push(padding_field);
                 }
+                if message_buf.len() == len_before {
+                    limits.add_empty_value()?;
+                }
                 continue;
             }
 
-            let value: inst::FieldValue = self.parse_field_value(field, message_buf)?;
+            let value: inst::FieldValue = self.parse_field_value(field, message_buf, limits)?;
+
+            if message_buf.len() == len_before {
+                limits.add_empty_value()?;
+            }
 
             // ⚠️ Extract the timestamp field if present.
             // According to the ULOG spec, the timestamp for a LOGGED_DATA message is the value of
@@ -481,6 +544,8 @@ impl<R: Read> ULogParser<R> {
             });
         }
 
+        limits.leave_format();
+
         Ok(inst::Format {
             name: format.name.clone(),
             timestamp,
@@ -530,6 +595,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        limits: &mut DataLimits,
     ) -> Result<inst::FieldValue, ULogError> {
         match field.r#type.array_size {
             None => {
@@ -552,13 +618,13 @@ impl<R: Read> ULogParser<R> {
                     OTHER(type_name) => {
                         let child_format = self.get_format(type_name)?;
                         ScalarOther(
-                            self.parse_data_message_sub(child_format, message_buf)?
+                            self.parse_data_message_sub(child_format, message_buf, limits)?
                                 .into(),
                         )
                     }
                 })
             }
-            Some(array_size) => self.parse_array_field(field, array_size, message_buf),
+            Some(array_size) => self.parse_array_field(field, array_size, message_buf, limits),
         }
     }
 
@@ -567,6 +633,7 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         array_size: usize,
         message_buf: &mut MessageBuf,
+        limits: &mut DataLimits,
     ) -> Result<inst::FieldValue, ULogError> {
         use def::BaseType::*;
         use inst::FieldValue::*;
@@ -587,7 +654,7 @@ impl<R: Read> ULogParser<R> {
             OTHER(type_name) => {
                 let child_format = &self.get_format(type_name)?;
                 ArrayOther(parse_array(array_size, message_buf, |buf| {
-                    self.parse_data_message_sub(child_format.clone(), buf)
+                    self.parse_data_message_sub(child_format.clone(), buf, limits)
                 })?)
             }
         })
@@ -724,7 +791,9 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let mut limits = DataLimits::new(&message_buf);
+        let value: inst::FieldValue =
+            self.parse_field_value(&field, &mut message_buf, &mut limits)?;
 
         log::debug!("INFO {:?} {}:\t{}", field.r#type, &field.name, value);
 
@@ -745,7 +814,9 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let mut limits = DataLimits::new(&message_buf);
+        let value: inst::FieldValue =
+            self.parse_field_value(&field, &mut message_buf, &mut limits)?;
 
         log::debug!("MULTI_INFO {:?} {}:\t{}", field.r#type, &field.name, value);
         log::debug!("is_continued = {is_continued}");
-- 
2.43.0


From 5d5e7270fb6f2d88a3312bb89926e86bccf917b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 12/21] fix: consume padding fields that are not arrays of
 uint8_t by their own size

---
 core/src/parser.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 035f9b6..d56d9e5 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -510,7 +510,7 @@ impl<R: Read> ULogParser<R> {
 
             // Handle padding fields.
             if field.name.starts_with("_padding") {
-                if let Some(padding_field) = self.parse_padding(field, message_buf)? {
+                if let Some(padding_field) = self.parse_padding(field, message_buf, limits)? {
                     fields.push(padding_field);
                 }
                 if message_buf.len() == len_before {
@@ -562,12 +562,26 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        limits: &mut DataLimits,
     ) -> Result<Option<inst::Field>, ULogError> {
-        let Some(array_size) = field.r#type.array_size else {
-            log::warn!("Encountered padding, and type is scalar. Ignoring.");
-            return Ok(None);
+        let (def::BaseType::UINT8, Some(array_size)) =
+            (&field.r#type.base_type, field.r#type.array_size)
+        else {
+            // Padding is normally an array of uint8_t. Other types occupy their own size in the message.
+            if message_buf.is_empty() {
+                log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec.");
+                return Ok(None);
+            }
+
+            let value = self.parse_field_value(field, message_buf, limits)?;
+
+            return Ok(self.include_padding.then(|| inst::Field {
+                name: Shared::from(field.name.clone()),
+                r#type: field.r#type.clone(),
+                value,
+            }));
         };
-        
+
         if array_size <= message_buf.len() {
             log::debug!("Encountered padding, and padding <= message.len(). Ok.");
 
-- 
2.43.0


From 62e0ab51a3567b990ab022266b281e4f25e82132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 13/21] fix: stop allowing a msg_id that is subscribed again
 for a message not on the allow-list

---
 core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index d56d9e5..da292ef 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -69,6 +69,12 @@ impl SubscriptionFilter {
                     .as_mut()
                     .unwrap()
                     .insert(sub.msg_id);
+            } else {
+                // A msg_id can be reused for another message.
+                self.allowed_subscription_ids
+                    .as_mut()
+                    .unwrap()
+                    .remove(&sub.msg_id);
             }
         }
     }
-- 
2.43.0


From 917cee609cd01f10e466bab1f37918876922717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 14/21] fix: forget how a derived stream mapped a msg_id when
 that msg_id is subscribed again

---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 92fcab0..7d18472 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -669,6 +669,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
                     match msg {
                         UlogMessage::AddSubscription(sub) => {
+                            // The msg_id may have been used for another message before.
+                            self.subs.remove(&sub.msg_id);
+
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
-- 
2.43.0


From d3453806d2226e2e22b71e96fdf4293d9c57c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 15/21] fix: do not panic or take a neighbouring field when a
 message lacks fields of its format

---
 macros/src/lib.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 7d18472..0681f5c 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -148,6 +148,13 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         Ident::new(&format!("{name}_index"), name.span())
     }
 
+    fn ulog_name(f: &syn::Field) -> String {
+        // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
+        let attr = LoggedFieldAttr::from_field(f).unwrap();
+        attr.field_name
+            .unwrap_or_else(|| named_ident(f).to_string())
+    }
+
     fn idx_type(f: &syn::Field) -> Type {
         // If the user type is an Option<T>, will generate Option<usize>
         // otherwise usize.
@@ -164,12 +171,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     let accessor_struct = {
         let idx_field_exprs = fields.iter().map(|f| {
             let idx_ident = idx_ident(f);
-            let ulog_name = {
-                // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
-                let attr = LoggedFieldAttr::from_field(f).unwrap();
-                attr.field_name
-                    .unwrap_or_else(|| named_ident(f).to_string())
-            };
+            let ulog_name = ulog_name(f);
 
             if is_option_type(&make_index_type(f)) {
                 quote! {
@@ -230,7 +232,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     // - For any non-optional field `f`, the corresponding index field is `usize` and guaranteed to be present.
     //
     // This invariant is established earlier when generating index fields and validated by construction of the Accessor struct.
-    // Therefore, it is safe to unwrap and index into `format.fields` accordingly.
+    // The field is still looked up fallibly, because a corrupt message can lack fields of its format.
     //
     // The generated code uses this to:
     // - Return `None` directly when the index is `None` (field missing),
@@ -241,6 +243,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             let name = named_ident(f);
             let idx_ident = idx_ident(f);
             let ty = &f.ty;
+            let ulog_name = ulog_name(f);
 
             if is_option_type(ty) {
                 // This unwrap is safe because we just confirmed it's an Option.
@@ -249,12 +252,12 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 quote! {
                     #name: match self.#idx_ident {
                         None => None,
-                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(&format.fields[idx])?)
+                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(find_field(idx, #ulog_name)?)?)
                     }
                 }
             } else {
                 quote! {
-                    #name: <#ty as #from_field_path>::from_field(&format.fields[self.#idx_ident])?
+                    #name: <#ty as #from_field_path>::from_field(find_field(self.#idx_ident, #ulog_name)?)?
                 }
             }
         });
@@ -304,6 +307,14 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             {
                 use ::yule_log::macro_utils::FromField;
 
+                // A (corrupt) message can lack fields of its format, because padding was left out.
+                #[allow(unused_variables)]
+                let find_field = |idx: usize, name: &str| {
+                    format.fields.get(idx).filter(|f| f.name.as_ref() == name).ok_or_else(|| {
+                        yule_log::errors::ULogError::InvalidFieldName(name.to_string())
+                    })
+                };
+
                 Ok(#struct_name {
                     #( #get_data_fields ),*
                 })
-- 
2.43.0


From 504880137d3215e7a22f9d637e899e4e18aff0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 16/21] fix: refuse to encode a message or key too long for its
 length field

---
 core/src/encode.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index fe8b529..856797d 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -24,7 +24,12 @@ impl Encode for UlogMessage {
                 let mut content_buf = Vec::new();
                 other.encode_content(&mut content_buf)?;
 
-                let msg_size = content_buf.len() as u16;
+                let msg_size = u16::try_from(content_buf.len()).map_err(|_| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidInput,
+                        "message contents do not fit in the 16-bit message size",
+                    )
+                })?;
                 writer.write_all(&msg_size.to_le_bytes())?;
                 writer.write_all(&[u8::from(other.message_type())])?;
                 writer.write_all(&content_buf)?;
@@ -120,7 +125,7 @@ impl Encode for msg::Info {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -137,7 +142,7 @@ impl Encode for msg::MultiInfo {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -152,7 +157,7 @@ impl Encode for msg::Parameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -169,7 +174,7 @@ impl Encode for msg::DefaultParameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -404,6 +409,16 @@ impl<T: Encode> Encode for &T {
     }
 }
 
+// Length of an info or parameter key, which the format limits to 8 bits
+fn key_len(key_bytes: &[u8]) -> io::Result<u8> {
+    u8::try_from(key_bytes.len()).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "key does not fit in the 8-bit key length",
+        )
+    })
+}
+
 // Convenience method to encode to Vec<u8>
 trait EncodeToVec {
     fn encode_to_vec(&self) -> io::Result<Vec<u8>>;
-- 
2.43.0


From 52c4dd369e4c629e0a6eaf4801bb36844bc13841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 17/21] fix: let ULogData be derived for a struct of optional
 fields only

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0681f5c..c7a1078 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -200,7 +200,8 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
 
-                let mut missing = Vec::new();
+                #[allow(unused_mut)] // Nothing can be missing if all fields are optional.
+                let mut missing: Vec<&str> = Vec::new();
 
                 let result = Self {
                     #( #idx_field_exprs ),*
-- 
2.43.0


From a3cc0351af4ebb0a92d1a5a3dbb24ad76db44483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 18/21] fix: take padding of size zero as present also at the
 end of a message

---
 core/src/parser.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index da292ef..b71a447 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -574,12 +574,18 @@ impl<R: Read> ULogParser<R> {
             (&field.r#type.base_type, field.r#type.array_size)
         else {
             // Padding is normally an array of uint8_t. Other types occupy their own size in the message.
-            if message_buf.is_empty() {
-                log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec.");
-                return Ok(None);
-            }
-
-            let value = self.parse_field_value(field, message_buf, limits)?;
+            let nothing_left = message_buf.is_empty();
+            let depth = limits.depth;
+
+            let value = match self.parse_field_value(field, message_buf, limits) {
+                // Padding of size zero is complete even then.
+                Err(_) if nothing_left => {
+                    log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec.");
+                    limits.depth = depth;
+                    return Ok(None);
+                }
+                value => value?,
+            };
 
             return Ok(self.include_padding.then(|| inst::Field {
                 name: Shared::from(field.name.clone()),
-- 
2.43.0


From b1afa5ed589ef1a67c245a8556ada92fbb4c5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 19/21] fix: let forward_subscriptions(false) take back an
 earlier true

---
 macros/src/lib.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index c7a1078..1c379fb 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -602,17 +602,12 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
             #[allow(dead_code)]
             pub fn forward_subscriptions(mut self, value: bool) -> Result<Self, yule_log::errors::ULogError> {
-                match value {
-                    true => {
-                        if !Self::HAS_FORWARD_OTHER {
-                            return Err(yule_log::errors::ULogError::InvalidConfiguration(
-                                "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
-                            ));
-                        }
-                        self.forward_subscriptions = true;
-                    }
-                    false => {}
+                if value && !Self::HAS_FORWARD_OTHER {
+                    return Err(yule_log::errors::ULogError::InvalidConfiguration(
+                        "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
+                    ));
                 }
+                self.forward_subscriptions = value;
 
                 Ok(self)
             }
-- 
2.43.0


From 742fdf829a02973208ef6cdea40ad57c80d2d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 20/21] fix: an allow list set after subscriptions were read
 applies to them too

---
 core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index b71a447..51454fa 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -179,13 +179,18 @@ impl<R: Read> ULogParser<R> {
         subscr_names: impl IntoIterator<Item = String>,
     ) {
         self.subscription_filter = SubscriptionFilter::new(subscr_names);
+
+        // Some subscriptions may have been read already.
+        for sub in self.subscriptions.values() {
+            self.subscription_filter.update_ids(sub);
+        }
     }
 
     /// Deprecated. Use `ULogParserBuilder::set_subscription_allow_list()` instead.
     /// This will be removed or made private in a future release.
     #[deprecated]
     pub fn set_subscription_allow_list(&mut self, set: HashSet<String>) {
-        self.subscription_filter = SubscriptionFilter::new(set);
+        self.set_allowed_subscription_names(set);
     }
 
     pub fn get_format(&self, message_name: &str) -> Result<Shared<def::Format>, ULogError> {
-- 
2.43.0


From 58e4632233203a621e3d1889f60c85d7ef2448bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 21/21] fix: accept the names the ULog format allows (dashes,
 slashes, leading digits)

---
 core/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index 96a45a3..08633c5 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -6,7 +6,7 @@ use crate::errors::ULogError;
 
 lazy_static! {
     static ref TOKEN_REGEXP: Regex = Regex::new(
-        r"(?P<identifier>[a-zA-Z_][a-zA-Z0-9_]*)|(?P<number>[0-9]+)|(?P<colon>:)|(?P<semicolon>;)|(?P<lbrace>\[)|(?P<rbrace>\])|(?P<whitespace>\s+)|(?P<unknown>.)"
+        r"(?P<identifier>[0-9]*[a-zA-Z_/-][a-zA-Z0-9_/-]*)|(?P<number>[0-9]+)|(?P<colon>:)|(?P<semicolon>;)|(?P<lbrace>\[)|(?P<rbrace>\])|(?P<whitespace>\s+)|(?P<unknown>.)"
     )
     .unwrap();
 }
-- 
2.43.0

