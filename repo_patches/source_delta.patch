From 543dbb9a808cf537f336bc0f1e48920e03332a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 01/12] fix: account fragments the same way however a message
 arrives and check the limit before every continuation

---
 src/receiver.rs                | 27 +++++++++++++--------------
 websocket-base/src/codec/ws.rs |  3 ++-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 9f67729..2568bfd 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -128,7 +128,8 @@ impl ws::Receiver for Receiver {
 	where
 		R: Read,
 	{
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
+		let mut current_message_length : usize =
+			self.buffer.iter().map(|x| x.data.len() + PER_DATAFRAME_OVERHEAD).sum();
 		let mut finished = if self.buffer.is_empty() {
 			let first = self.recv_dataframe(reader)?;
 
@@ -147,6 +148,17 @@ impl ws::Receiver for Receiver {
 		};
 
 		while !finished {
+			if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded count of data frames in one WebSocket message",
+				));
+			}
+			if current_message_length >= self.max_message_size as usize {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded maximum WebSocket message size",
+				));
+			}
+
 			let next = self.recv_dataframe(reader)?;
 			finished = next.finished;
 
@@ -167,19 +179,6 @@ impl ws::Receiver for Receiver {
 					));
 				}
 			}
-
-			if !finished {
-				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded count of data frames in one WebSocket message",
-					));
-				}
-				if current_message_length >= self.max_message_size as usize {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded maximum WebSocket message size",
-					));
-				}
-			}
 		}
 
 		Ok(::std::mem::replace(&mut self.buffer, Vec::new()))
diff --git a/websocket-base/src/codec/ws.rs b/websocket-base/src/codec/ws.rs
index c28e8b9..688fbe2 100644
--- a/websocket-base/src/codec/ws.rs
+++ b/websocket-base/src/codec/ws.rs
@@ -276,7 +276,8 @@ where
 	type Error = WebSocketError;
 
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
+		let mut current_message_length : usize =
+			self.buffer.iter().map(|x| x.data.len() + PER_DATAFRAME_OVERHEAD).sum();
 		while let Some(frame) = self.dataframe_codec.decode(src)? {
 			let is_first = self.buffer.is_empty();
 			let finished = frame.finished;
-- 
2.43.0


From ec93c5571afc9128c910dd35f619cd99e0ffc22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 02/12] fix: report oversized HTTP heads and skip leading blank
 lines instead of waiting forever

---
 src/codec/http.rs | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..5876ef0 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -94,21 +94,16 @@ impl Decoder for HttpClientCodec {
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
 		// check if we get a request from hyper
 		// TODO: this is ineffecient, but hyper does not give us a better way to parse
-		match split_off_http(src) {
-			Some(buf) => {
-				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
-				let res = match parse_response(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
-					Err(e) => return Err(e.into()),
-					Ok(r) => r,
-				};
-				Ok(Some(res))
+		while let Some(buf) = split_off_http(src) {
+			let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
+			match parse_response(&mut reader) {
+				// nothing but blank lines, the head starts after them
+				Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {}
+				Err(e) => return Err(e.into()),
+				Ok(r) => return Ok(Some(r)),
 			}
-			None => Ok(None),
 		}
+		Ok(None)
 	}
 }
 
@@ -188,21 +183,16 @@ impl Decoder for HttpServerCodec {
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
 		// check if we get a request from hyper
 		// TODO: this is ineffecient, but hyper does not give us a better way to parse
-		match split_off_http(src) {
-			Some(buf) => {
-				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
-				let res = match parse_request(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
-					Err(e) => return Err(e.into()),
-					Ok(r) => r,
-				};
-				Ok(Some(res))
+		while let Some(buf) = split_off_http(src) {
+			let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
+			match parse_request(&mut reader) {
+				// nothing but blank lines, the head starts after them
+				Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {}
+				Err(e) => return Err(e.into()),
+				Ok(r) => return Ok(Some(r)),
 			}
-			None => Ok(None),
 		}
+		Ok(None)
 	}
 }
 
-- 
2.43.0


From 33428ae6ef01a9d492b97f9f8c7d11e069ff24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 03/12] fix: report a one byte close payload as a protocol
 error, not as lack of data

---
 websocket-base/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket-base/src/message.rs b/websocket-base/src/message.rs
index 8a5be38..585a4af 100644
--- a/websocket-base/src/message.rs
+++ b/websocket-base/src/message.rs
@@ -228,6 +228,11 @@ impl<'a> ws::Message for Message<'a> {
 			},
 			Some(Opcode::Binary) => Message::binary(data),
 			Some(Opcode::Close) => {
+				if data.len() == 1 {
+					return Err(WebSocketError::ProtocolError(
+						"Truncated status code in close message",
+					));
+				}
 				if !data.is_empty() {
 					let status_code = (&data[..]).read_u16::<BigEndian>()?;
 					let reason = bytes_to_string(&data[2..])?;
-- 
2.43.0


From 8d61ba3fc2060619c3de9c860c9f3a0972a9c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 04/12] fix: do not allocate an untrusted frame length up front
 in read_dataframe

---
 websocket-base/src/dataframe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..0aeb4fe 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -6,6 +6,9 @@ use crate::ws::util::header::DataFrameHeader;
 use crate::ws::util::mask;
 use std::io::{self, Read, Write};
 
+// Declared lengths are not trusted for allocation beyond this size
+const MAX_PREALLOCATION: u64 = 64 * 1024;
+
 /// Represents a WebSocket data frame.
 ///
 /// The data held in a DataFrame is never masked.
@@ -88,7 +91,8 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> =
+			Vec::with_capacity(header.len.min(MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
-- 
2.43.0


From 67b44c5c2c6eb293b083bddbbb80d537c217cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 05/12] fix: keep the masking position in step with short
 writes

---
 websocket-base/src/ws/util/mask.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..1895da7 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,15 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
+		let mut pos = self.pos;
 		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+			buf.push(byte ^ self.key[pos]);
+			pos = (pos + 1) % self.key.len();
 		}
-		self.end.write(&buf)
+		// only advance past the bytes which the endpoint really took
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % self.key.len();
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From 9ead58f7892c9f2beda2c67e9c2953417d909764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 06/12] fix: parse extension parameter values

---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From 95d7e37706b7591f7349a8432f31ee3eb4f94222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 07/12] fix: refuse a WebSocket version header that cannot be
 read

---
 src/server/upgrade/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/upgrade/mod.rs b/src/server/upgrade/mod.rs
index c49c012..f1d3ff9 100644
--- a/src/server/upgrade/mod.rs
+++ b/src/server/upgrade/mod.rs
@@ -263,10 +263,11 @@ pub fn validate(
 		return Err(HyperIntoWsError::UnsupportedHttpVersion);
 	}
 
-	if let Some(version) = headers.get::<WebSocketVersion>() {
-		if version != &WebSocketVersion::WebSocket13 {
-			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
-		}
+	// a version header that cannot be read (e.g. a repeated one) is not version 13 either
+	if headers.has::<WebSocketVersion>()
+		&& headers.get::<WebSocketVersion>() != Some(&WebSocketVersion::WebSocket13)
+	{
+		return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
 	}
 
 	if headers.get::<WebSocketKey>().is_none() {
-- 
2.43.0


From cffd6708e3ecf2d905fa1693632c28dfdc248c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 08/12] fix: pass the configured message limit to a connected
 client

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..199807e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From 1cf70b52cf7e9b5d606f591614168a8d9e35a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 09/12] fix: validate the Connection header of the response,
 not of the request

---
 src/client/builder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 199807e..f33e8a9 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,13 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let connection_upgrade =
+			ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
+		if !response
+			.headers
+			.get::<Connection>()
+			.map_or(false, |options| options.contains(&connection_upgrade))
+		{
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From 33ae9e69787206a4e2d81205aa840b75e2c023b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:36 +0000
Subject: [PATCH 10/12] fix: client request names the port in Host unless it is
 the scheme's default

---
 src/client/builder.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f33e8a9..5a42e93 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -19,7 +19,7 @@ mod common_imports {
 	pub use crate::result::{WSUrlErrorKind, WebSocketError, WebSocketOtherError, WebSocketResult};
 	pub use crate::stream::{self, Stream};
 	pub use hyper::buffer::BufReader;
-	pub use hyper::header::{Connection, ConnectionOption, Host, Protocol, ProtocolName, Upgrade};
+	pub use hyper::header::{Connection, ConnectionOption, Protocol, ProtocolName, Upgrade};
 	pub use hyper::http::h1::parse_response;
 	pub use hyper::http::h1::Incoming;
 	pub use hyper::http::RawStatus;
@@ -844,10 +844,13 @@ impl<'u> ClientBuilder<'u> {
 	fn build_request(&mut self) -> String {
 		// enter host if available (unix sockets don't have hosts)
 		if let Some(host) = self.url.host_str() {
-			self.headers.set(Host {
-				hostname: host.to_string(),
-				port: self.url.port(),
-			});
+			// formatting a `Host` drops the ports 80 and 443 whatever the scheme is,
+			// the port of a URL is only left out if it is the default of its scheme
+			let host = match self.url.port() {
+				Some(port) => format!("{}:{}", host, port),
+				None => host.to_string(),
+			};
+			self.headers.set_raw("Host", vec![host.into_bytes()]);
 		}
 
 		// handle username/password from URL
-- 
2.43.0


From 6906110d914249aa6d07c67a4dfb95cdc54bacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 11/12] fix: explicit secure and insecure connects default to
 their own port

---
 src/client/builder.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 5a42e93..90e7a3b 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -961,18 +961,21 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		Ok(self.url.with_default_port(|url| {
-			const SECURE_PORT: u16 = 443;
-			const INSECURE_PORT: u16 = 80;
-			const SECURE_WS_SCHEME: &str = "wss";
-
-			Ok(match secure {
-				None if url.scheme() == SECURE_WS_SCHEME => SECURE_PORT,
-				None => INSECURE_PORT,
-				Some(true) => SECURE_PORT,
-				Some(false) => INSECURE_PORT,
-			})
-		})?)
+		// `with_default_port` would prefer the default of the URL's scheme, also if
+		// it has been asked explicitly for a connection of the other kind
+		const SECURE_PORT: u16 = 443;
+		const INSECURE_PORT: u16 = 80;
+		const SECURE_SCHEMES: &[&str] = &["wss", "https"];
+
+		let default_port = match secure {
+			None if SECURE_SCHEMES.contains(&self.url.scheme()) => SECURE_PORT,
+			None => INSECURE_PORT,
+			Some(true) => SECURE_PORT,
+			Some(false) => INSECURE_PORT,
+		};
+		let mut host_port = self.url.with_default_port(|_| Ok(default_port))?;
+		host_port.port = self.url.port().unwrap_or(default_port);
+		Ok(host_port)
 	}
 
 	#[cfg(feature = "sync")]
-- 
2.43.0


From 1a4364d91d7b080cd470a09fe5bcdde1fc1a82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:36 +0000
Subject: [PATCH 12/12] fix: an interrupted read does not fail a blocking
 handshake

---
 src/client/builder.rs      | 8 +++++++-
 src/server/upgrade/sync.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 90e7a3b..4079c1f 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -510,7 +510,13 @@ impl<'u> ClientBuilder<'u> {
 
 		// wait for a response
 		let mut reader = BufReader::new(stream);
-		let response = parse_response(&mut reader).map_err(towse)?;
+		let response = loop {
+			match parse_response(&mut reader) {
+				// nothing is lost, what was read before is still in the buffer
+				Err(::hyper::Error::Io(ref e)) if e.kind() == ::std::io::ErrorKind::Interrupted => {}
+				response => break response.map_err(towse)?,
+			}
+		};
 
 		// validate
 		self.validate(&response)?;
diff --git a/src/server/upgrade/sync.rs b/src/server/upgrade/sync.rs
index 969104b..acf2233 100644
--- a/src/server/upgrade/sync.rs
+++ b/src/server/upgrade/sync.rs
@@ -184,7 +184,13 @@ where
 
 	fn into_ws(self) -> Result<Upgrade<Self::Stream>, Self::Error> {
 		let mut reader = BufReader::new(self);
-		let request = parse_request(&mut reader);
+		let request = loop {
+			match parse_request(&mut reader) {
+				// nothing is lost, what was read before is still in the buffer
+				Err(::hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::Interrupted => {}
+				request => break request,
+			}
+		};
 
 		let (stream, buf, pos, cap) = reader.into_parts();
 		let buffer = Some(Buffer { buf, cap, pos });
-- 
2.43.0

