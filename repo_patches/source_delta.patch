From 8f8c23d8de847a2edcbd1b1d2821b922d7619f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 01/14] fix: pass max_message_size to the sync client receiver

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..199807e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From 72ff460f3763fa3f4c42472520179a5f53141019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 02/14] fix: client checks the Connection header of the
 response, not of its own request

---
 src/client/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 199807e..d7a2fc4 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,12 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let upgrade = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
+		let has_upgrade = match response.headers.get::<Connection>() {
+			Some(options) => options.contains(&upgrade),
+			None => false,
+		};
+		if !has_upgrade {
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From 6226fcf690a806056069e22334392f27507134d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 03/14] fix: count the per-frame overhead of already buffered
 fragments

---
 src/receiver.rs                | 2 +-
 websocket-base/src/codec/ws.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 9f67729..5e0edba 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -128,7 +128,7 @@ impl ws::Receiver for Receiver {
 	where
 		R: Read,
 	{
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
+		let mut current_message_length : usize = self.buffer.iter().map(|x| x.data.len() + PER_DATAFRAME_OVERHEAD).sum();
 		let mut finished = if self.buffer.is_empty() {
 			let first = self.recv_dataframe(reader)?;
 
diff --git a/websocket-base/src/codec/ws.rs b/websocket-base/src/codec/ws.rs
index c28e8b9..702ffec 100644
--- a/websocket-base/src/codec/ws.rs
+++ b/websocket-base/src/codec/ws.rs
@@ -276,7 +276,7 @@ where
 	type Error = WebSocketError;
 
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
+		let mut current_message_length : usize = self.buffer.iter().map(|x| x.data.len() + PER_DATAFRAME_OVERHEAD).sum();
 		while let Some(frame) = self.dataframe_codec.decode(src)? {
 			let is_first = self.buffer.is_empty();
 			let finished = frame.finished;
-- 
2.43.0


From e671dcff626afdefcbb617d95c807f2c502ac283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 04/14] fix: Masker keeps its position in the key across short
 writes

---
 websocket-base/src/ws/util/mask.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..0dca489 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,14 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
-		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+		let len = self.key.len();
+		for (i, &byte) in data.iter().enumerate() {
+			buf.push(byte ^ self.key[(self.pos + i) % len]);
 		}
-		self.end.write(&buf)
+		// only the bytes the endpoint accepted have used up their part of the key
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % len;
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From 502d297de3146e2f762bedeb12c00d541e575520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 05/14] fix: a one byte close payload is a protocol error

---
 websocket-base/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket-base/src/message.rs b/websocket-base/src/message.rs
index 8a5be38..c2663cd 100644
--- a/websocket-base/src/message.rs
+++ b/websocket-base/src/message.rs
@@ -228,6 +228,11 @@ impl<'a> ws::Message for Message<'a> {
 			},
 			Some(Opcode::Binary) => Message::binary(data),
 			Some(Opcode::Close) => {
+				if data.len() == 1 {
+					return Err(WebSocketError::ProtocolError(
+						"Close data frame with an incomplete status code",
+					));
+				}
 				if !data.is_empty() {
 					let status_code = (&data[..]).read_u16::<BigEndian>()?;
 					let reason = bytes_to_string(&data[2..])?;
-- 
2.43.0


From 4e84317015208762729fe4224ef1ce69a17d5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 06/14] fix: parse the value of extension parameters

---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From a6a9621f028a43f4862536f8126848690b6a0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 07/14] fix: refuse requests whose Sec-WebSocket-Version cannot
 be parsed

---
 src/server/upgrade/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/upgrade/mod.rs b/src/server/upgrade/mod.rs
index c49c012..cc52d69 100644
--- a/src/server/upgrade/mod.rs
+++ b/src/server/upgrade/mod.rs
@@ -263,10 +263,11 @@ pub fn validate(
 		return Err(HyperIntoWsError::UnsupportedHttpVersion);
 	}
 
-	if let Some(version) = headers.get::<WebSocketVersion>() {
-		if version != &WebSocketVersion::WebSocket13 {
-			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
-		}
+	// a version header that cannot be parsed must not be mistaken for a missing one
+	if headers.has::<WebSocketVersion>()
+		&& headers.get::<WebSocketVersion>() != Some(&WebSocketVersion::WebSocket13)
+	{
+		return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
 	}
 
 	if headers.get::<WebSocketKey>().is_none() {
-- 
2.43.0


From 302a1ab1fffea982eb18254c5911585eb778df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:20 +0000
Subject: [PATCH 08/14] fix: http codecs report a head hyper finds too large
 instead of dropping it

---
 src/codec/http.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..bdc5fed 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -101,7 +101,6 @@ impl Decoder for HttpClientCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
@@ -195,7 +194,6 @@ impl Decoder for HttpServerCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
-- 
2.43.0


From 9e08acb6b76e8c49eb8338fae3bd9fa7d51429c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:22 +0000
Subject: [PATCH 09/14] fix: http codecs parse a head that arrives together
 with leading blank lines

---
 src/codec/http.rs | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index bdc5fed..fb87532 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -94,20 +94,16 @@ impl Decoder for HttpClientCodec {
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
 		// check if we get a request from hyper
 		// TODO: this is ineffecient, but hyper does not give us a better way to parse
-		match split_off_http(src) {
-			Some(buf) => {
-				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
-				let res = match parse_response(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(e) => return Err(e.into()),
-					Ok(r) => r,
-				};
-				Ok(Some(res))
+		while let Some(buf) = split_off_http(src) {
+			let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
+			match parse_response(&mut reader) {
+				// only blank lines, what follows them is still in `src`
+				Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {}
+				Err(e) => return Err(e.into()),
+				Ok(res) => return Ok(Some(res)),
 			}
-			None => Ok(None),
 		}
+		Ok(None)
 	}
 }
 
@@ -187,20 +183,16 @@ impl Decoder for HttpServerCodec {
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
 		// check if we get a request from hyper
 		// TODO: this is ineffecient, but hyper does not give us a better way to parse
-		match split_off_http(src) {
-			Some(buf) => {
-				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
-				let res = match parse_request(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(e) => return Err(e.into()),
-					Ok(r) => r,
-				};
-				Ok(Some(res))
+		while let Some(buf) = split_off_http(src) {
+			let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
+			match parse_request(&mut reader) {
+				// only blank lines, what follows them is still in `src`
+				Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {}
+				Err(e) => return Err(e.into()),
+				Ok(res) => return Ok(Some(res)),
 			}
-			None => Ok(None),
 		}
+		Ok(None)
 	}
 }
 
-- 
2.43.0


From 59959f338d7be75da3f5d4d595e91d573abb199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 10/14] fix: do not allocate whatever length a data frame
 header declares

---
 websocket-base/src/dataframe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..ae93abc 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -6,6 +6,8 @@ use crate::ws::util::header::DataFrameHeader;
 use crate::ws::util::mask;
 use std::io::{self, Read, Write};
 
+const MAX_PREALLOCATION: u64 = 64 * 1024;
+
 /// Represents a WebSocket data frame.
 ///
 /// The data held in a DataFrame is never masked.
@@ -88,7 +90,8 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		// the declared length is not to be trusted, there is no limit on it here
+		let mut data: Vec<u8> = Vec::with_capacity(header.len.min(MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
-- 
2.43.0


From e6ac664c01ad6e6c33dc08abe65f445b294c220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 11/14] fix: keep a partly read data frame when the stream
 would block or times out

---
 src/receiver.rs                 |  7 ++-
 websocket-base/src/dataframe.rs | 91 ++++++++++++++++++++++++++++++---
 2 files changed, 90 insertions(+), 8 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 5e0edba..fdb0340 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -5,7 +5,7 @@ use std::io::Result as IoResult;
 
 use hyper::buffer::BufReader;
 
-use crate::dataframe::{DataFrame, Opcode};
+use crate::dataframe::{DataFrame, Opcode, PartialDataFrame};
 use crate::message::OwnedMessage;
 use crate::result::{WebSocketError, WebSocketResult};
 pub use crate::stream::sync::Shutdown;
@@ -78,6 +78,7 @@ where
 /// DataFrames and Messages.
 pub struct Receiver {
 	buffer: Vec<DataFrame>,
+	partial: PartialDataFrame,
 	mask: bool,
 	// u32s instead uf usizes to economize used memory by this struct
 	max_dataframe_size: u32,
@@ -103,6 +104,7 @@ impl Receiver {
 		let max_message_size: u32 = max_message_size.min(u32::MAX as usize) as u32;
 		Receiver {
 			buffer: Vec::new(),
+			partial: PartialDataFrame::default(),
 			mask,
 			max_dataframe_size,
 			max_message_size,
@@ -120,7 +122,8 @@ impl ws::Receiver for Receiver {
 	where
 		R: Read,
 	{
-		DataFrame::read_dataframe_with_limit(reader, self.mask, self.max_dataframe_size as usize)
+		self.partial
+			.read_with_limit(reader, self.mask, self.max_dataframe_size as usize)
 	}
 
 	/// Returns the data frames that constitute one message.
diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index ae93abc..a42a141 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -105,21 +105,100 @@ impl DataFrame {
 	where
 		R: Read,
 	{
-		let header = dfh::read_header(reader)?;
+		PartialDataFrame::default().read_with_limit(reader, should_be_masked, limit)
+	}
+}
+
+/// A data frame that has possibly been read in part.
+///
+/// Reading from a stream with a timeout or from a non-blocking one can stop anywhere
+/// in a data frame. The bytes that did arrive are kept here, so that the next call
+/// carries on where the last one stopped.
+#[derive(Debug, Default)]
+pub struct PartialDataFrame {
+	header_bytes: Vec<u8>,
+	header: Option<DataFrameHeader>,
+	data: Vec<u8>,
+}
 
-		if header.len > limit as u64 {
-			return Err(io::Error::new(io::ErrorKind::InvalidData, "exceeded DataFrame length limit").into());
+impl PartialDataFrame {
+	/// Reads (the rest of) a DataFrame from a Reader, or error out if header declares exceeding limit you specify
+	pub fn read_with_limit<R>(
+		&mut self,
+		reader: &mut R,
+		should_be_masked: bool,
+		limit: usize,
+	) -> WebSocketResult<DataFrame>
+	where
+		R: Read,
+	{
+		let result = self.read_rest(reader, should_be_masked, limit);
+		match result {
+			Err(WebSocketError::IoError(ref e))
+				if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::TimedOut => {}
+			_ => *self = PartialDataFrame::default(),
 		}
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
-		let read = reader.take(header.len).read_to_end(&mut data)?;
-		if (read as u64) < header.len {
+		result
+	}
+
+	fn read_rest<R>(
+		&mut self,
+		reader: &mut R,
+		should_be_masked: bool,
+		limit: usize,
+	) -> WebSocketResult<DataFrame>
+	where
+		R: Read,
+	{
+		let header = match self.header {
+			Some(header) => header,
+			None => {
+				let header = dfh::read_header(&mut HeaderReader {
+					seen: &mut self.header_bytes,
+					pos: 0,
+					reader,
+				})?;
+				if header.len > limit as u64 {
+					return Err(io::Error::new(io::ErrorKind::InvalidData, "exceeded DataFrame length limit").into());
+				}
+				self.data.reserve_exact(header.len as usize);
+				self.header = Some(header);
+				header
+			}
+		};
+
+		let missing = header.len - self.data.len() as u64;
+		reader.take(missing).read_to_end(&mut self.data)?;
+		if (self.data.len() as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
 		}
 
+		let data = ::std::mem::replace(&mut self.data, Vec::new());
 		DataFrame::read_dataframe_body(header, data, should_be_masked)
 	}
 }
 
+/// Repeats the bytes of a header that are already known before it reads more of them.
+struct HeaderReader<'a, R> {
+	seen: &'a mut Vec<u8>,
+	pos: usize,
+	reader: &'a mut R,
+}
+
+impl<'a, R: Read> Read for HeaderReader<'a, R> {
+	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+		let read = if self.pos < self.seen.len() {
+			(&self.seen[self.pos..]).read(buf)?
+		} else {
+			let read = self.reader.read(buf)?;
+			self.seen.extend_from_slice(&buf[..read]);
+			read
+		};
+		self.pos += read;
+		Ok(read)
+	}
+}
+
 impl DataFrameable for DataFrame {
 	#[inline(always)]
 	fn is_last(&self) -> bool {
-- 
2.43.0


From 84a6a6463de3292209fed024a0b377dcd9861229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 12/14] fix: the first fragment of a message is subject to the
 message size limit too

---
 src/receiver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/receiver.rs b/src/receiver.rs
index fdb0340..73480fc 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -144,6 +144,11 @@ impl ws::Receiver for Receiver {
 			let finished = first.finished;
 			current_message_length += first.data.len() + PER_DATAFRAME_OVERHEAD;
 			self.buffer.push(first);
+			if !finished && current_message_length >= self.max_message_size as usize {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded maximum WebSocket message size",
+				));
+			}
 			finished
 		} else {
 			false
-- 
2.43.0


From 8c34fdecc64a755fc365268b904aff9cd503fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 13/14] fix: write port 80 or 443 into Host when the url names
 it and it is not the default

---
 src/client/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index d7a2fc4..3a5131c 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -848,6 +848,11 @@ impl<'u> ClientBuilder<'u> {
 				hostname: host.to_string(),
 				port: self.url.port(),
 			});
+			// hyper never writes the ports 80 and 443 out, `url` already left out the default
+			if let Some(port) = self.url.port() {
+				self.headers
+					.set_raw("Host", vec![format!("{}:{}", host, port).into_bytes()]);
+			}
 		}
 
 		// handle username/password from URL
-- 
2.43.0


From b8030f8eb5eaf7f7e5e1eb7e1b56018bff4061ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:09 +0000
Subject: [PATCH 14/14] fix: look for an IPv6 host's certificate without the
 URL's brackets

---
 src/client/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 3a5131c..e5096ca 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -987,7 +987,8 @@ impl<'u> ClientBuilder<'u> {
 		connector: Option<TlsConnector>,
 	) -> WebSocketResult<(&str, TlsConnector)> {
 		let host = match self.url.host_str() {
-			Some(h) => h,
+			// only a URL puts brackets around an IPv6 address, a certificate does not
+			Some(h) => h.trim_start_matches('[').trim_end_matches(']'),
 			None => {
 				return Err(WebSocketOtherError::WebSocketUrlError(
 					WSUrlErrorKind::NoHostName,
-- 
2.43.0

