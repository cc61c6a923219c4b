From 562c7cdf2d6b7b97fa10a02551af6a3ef42221fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 01/14] Add feature sim-hooks: announce lock acquisitions to a
 hook (off by default)

---
 socket-io-client/Cargo.toml        |  4 ++
 socket-io-client/src/callbacks.rs  |  7 +--
 socket-io-client/src/connection.rs |  7 +--
 socket-io-client/src/lib.rs        | 12 ++---
 socket-io-client/src/receiver.rs   |  7 +--
 socket-io-client/src/sync.rs       | 71 ++++++++++++++++++++++++++++++
 6 files changed, 88 insertions(+), 20 deletions(-)
 create mode 100644 socket-io-client/src/sync.rs

diff --git a/socket-io-client/Cargo.toml b/socket-io-client/Cargo.toml
index bb19911..4d4b59b 100644
--- a/socket-io-client/Cargo.toml
+++ b/socket-io-client/Cargo.toml
@@ -25,3 +25,7 @@ env_logger = "0.7"
 pin-project = "0.4"
 structopt = "0.3"
 tokio = { version = "0.2", features = ["full"] }
+
+[features]
+# Off by default. Announces lock acquisitions to a hook, for deterministic simulation.
+sim-hooks = []
diff --git a/socket-io-client/src/callbacks.rs b/socket-io-client/src/callbacks.rs
index cc1abd0..c2e0a49 100644
--- a/socket-io-client/src/callbacks.rs
+++ b/socket-io-client/src/callbacks.rs
@@ -1,11 +1,8 @@
-use std::{
-    collections::HashMap,
-    sync::{Arc, Mutex},
-};
+use std::{collections::HashMap, sync::Arc};
 
 use socket_io_protocol::socket::Args;
 
-use super::AckBuilder;
+use super::{sync::Mutex, AckBuilder};
 
 // TODO: Is there a cleaner way to do this?
 macro_rules! impl_fnmut_callback {
diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 769c42b..d89efa4 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -1,7 +1,4 @@
-use std::{
-    sync::{Arc, Mutex},
-    time::Duration,
-};
+use std::{sync::Arc, time::Duration};
 
 use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
 use futures::{
@@ -18,7 +15,7 @@ use url::Url;
 
 use socket_io_protocol::engine;
 
-use super::{Callbacks, Error, Receiver};
+use super::{sync::Mutex, Callbacks, Error, Receiver};
 
 pub struct Connection {
     handle: Option<RemoteHandle<Result<(), Error>>>,
diff --git a/socket-io-client/src/lib.rs b/socket-io-client/src/lib.rs
index 7dd2083..937f5c5 100644
--- a/socket-io-client/src/lib.rs
+++ b/socket-io-client/src/lib.rs
@@ -1,10 +1,6 @@
 #![recursion_limit = "1024"] // Needed for select
 
-use std::{
-    error::Error as StdError,
-    sync::{Arc, Mutex},
-    time::Duration,
-};
+use std::{error::Error as StdError, sync::Arc, time::Duration};
 
 use async_tungstenite::tungstenite::{Error as WsError, Message as WsMessage};
 use futures::{
@@ -20,12 +16,18 @@ mod connection;
 mod emit;
 pub mod protocol;
 mod receiver;
+#[cfg(not(feature = "sim-hooks"))]
+mod sync;
+#[cfg(feature = "sim-hooks")]
+#[doc(hidden)]
+pub mod sync;
 
 use callbacks::Callbacks;
 pub use callbacks::{AckCallback, EventCallback};
 use connection::Connection;
 pub use emit::{AckArgsBuilder, AckBuilder, EventArgsBuilder, EventBuilder};
 use receiver::Receiver;
+use sync::Mutex;
 
 pub struct Client {
     connection: Connection,
diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index e584da5..2022570 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -1,7 +1,4 @@
-use std::{
-    borrow::Cow,
-    sync::{Arc, Mutex},
-};
+use std::{borrow::Cow, sync::Arc};
 
 use async_tungstenite::tungstenite::Message as WsMessage;
 use futures::channel::{mpsc, oneshot};
@@ -13,7 +10,7 @@ use socket_io_protocol::{
     socket::{self, ArgsError, Data, DeserializeResult, Error as SocketError, Packet, Partial},
 };
 
-use super::{AckBuilder, Callbacks};
+use super::{sync::Mutex, AckBuilder, Callbacks};
 
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
diff --git a/socket-io-client/src/sync.rs b/socket-io-client/src/sync.rs
new file mode 100644
index 0000000..bda8508
--- /dev/null
+++ b/socket-io-client/src/sync.rs
@@ -0,0 +1,71 @@
+//! The mutex used throughout the client.
+//!
+//! This is `std::sync::Mutex`, unless the feature `sim-hooks` is on: then every acquisition is
+//! announced to a hook first, which lets a deterministic simulator schedule around it.
+
+#[cfg(not(feature = "sim-hooks"))]
+pub use std::sync::Mutex;
+
+#[cfg(feature = "sim-hooks")]
+pub use self::hooked::{set_lock_hook, Mutex};
+
+#[cfg(feature = "sim-hooks")]
+mod hooked {
+    use std::sync::{
+        atomic::{AtomicUsize, Ordering},
+        LockResult, Mutex as StdMutex, MutexGuard, TryLockResult,
+    };
+
+    static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+    /// Set the function to be called before each attempt to take one of the client's locks.
+    pub fn set_lock_hook(hook: fn()) {
+        HOOK.store(hook as usize, Ordering::SeqCst);
+    }
+
+    fn announce() {
+        let hook = HOOK.load(Ordering::SeqCst);
+        if hook != 0 {
+            // Only ever set from a `fn()` above.
+            let hook: fn() = unsafe { std::mem::transmute(hook) };
+            hook();
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T: ?Sized>(StdMutex<T>);
+
+    impl<T> Mutex<T> {
+        pub fn new(t: T) -> Self {
+            Mutex(StdMutex::new(t))
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            announce();
+            self.0.lock()
+        }
+
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            announce();
+            self.0.try_lock()
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+
+        pub fn is_poisoned(&self) -> bool {
+            self.0.is_poisoned()
+        }
+
+        pub fn clear_poison(&self) {
+            self.0.clear_poison()
+        }
+    }
+}
-- 
2.43.0


From b0d064dac68065d0728a974cbf194caedb8b7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 02/14] fix: call callbacks without holding the lock on the
 callback table

An if-let scrutinee keeps its temporaries to the end of the block, so the
guard was held during the call and a callback that registered or removed
callbacks, or emitted with a callback, blocked forever.
---
 socket-io-client/src/receiver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index 2022570..1441641 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -139,17 +139,19 @@ impl Receiver {
                 let event: Cow<'_, str> = event.deserialize()?;
                 let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                 // TODO: Use id to create ack callback
-                if let Some(mut cb) = self.callbacks.lock().unwrap().get_event(namespace, &*event) {
+                // The callback is called with the lock released, so that it may use the client.
+                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
+                if let Some(mut cb) = cb {
                     cb.call(&args, ack);
                 }
             }
             Data::Ack { id, args } => {
-                if let Some(cb) = self
+                let cb = self
                     .callbacks
                     .lock()
                     .unwrap()
-                    .get_and_clear_ack(namespace, id)
-                {
+                    .get_and_clear_ack(namespace, id);
+                if let Some(cb) = cb {
                     cb.call(&args);
                 } else {
                     return Err(Error::UnexpectedAck(packet.clone()));
-- 
2.43.0


From 1e9ea976903849442d6220a75864429a9672c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 03/14] fix: report the failure when the connection ends before
 the Open message

The oneshot for the Open message is dropped when the connection's task
ends; connecting panicked on it instead of returning the task's error.
---
 socket-io-client/src/connection.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index d89efa4..f86392f 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -1,6 +1,10 @@
 use std::{sync::Arc, time::Duration};
 
-use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
+use async_tungstenite::{
+    async_tls,
+    tungstenite::{Error as WsError, Message as WsMessage},
+    WebSocketStream,
+};
 use futures::{
     channel::{mpsc, oneshot},
     future::{FutureExt, RemoteHandle},
@@ -67,7 +71,16 @@ impl Connection {
         .await?;
 
         let open = select! {
-            open = open_rx.fuse() => Ok(open.unwrap()),
+            open = open_rx.fuse() => match open {
+                Ok(open) => Ok(open),
+                // The task ended before it received an Open message.
+                Err(oneshot::Canceled) => {
+                    return Err(match handle.await {
+                        Err(e) => e,
+                        Ok(()) => WsError::ConnectionClosed.into(),
+                    })
+                }
+            },
             _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),
         }?;
         log::trace!("Received open: {:?}", open);
-- 
2.43.0


From 0c2055da14b9e75cbdda692fa7cd5f80ca7dc5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 04/14] fix: send what was handed over before close()

The task chose at random between a waiting close request and waiting
messages, and dropped the messages when it chose the close.
---
 socket-io-client/src/connection.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index f86392f..740807a 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -172,6 +172,17 @@ where
             }
         }
         drop(next);
+        // What was handed over before the close is still sent.
+        send_rx.close();
+        'drain: while let Some(msgs) = send_rx.next().await {
+            for msg in msgs.into_iter() {
+                log::trace!("Sending websocket packet: {:?}", msg);
+                if let Err(e) = sink.send(msg).await {
+                    log::debug!("Not everything could be sent before closing: {}", e);
+                    break 'drain;
+                }
+            }
+        }
         let mut ws_stream = sink.reunite(stream).expect("Reunite should succeed");
         log::debug!("Sending close message");
         let _ = ws_stream.close(None).await;
-- 
2.43.0


From 8dbde9e2f7c891ee2a97b24b7397803296b50f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 05/14] fix: end the namespace of a packet at the first comma

The greedy match ran on to the last comma that still let the rest match,
so that with a namespace, data containing ",[" or ",1[" was misread.
---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6fe4642..10ce410 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/.+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 5e024d4271b7c99b581ca99f3f8780a5733554d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 06/14] fix: accept line breaks between the tokens of a
 packet's JSON data

They are whitespace like any other, but the dot does not match them.
---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 10ce410..2822ee0 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"(?s)^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 6a8c6d3cfe1a8caa35a56c13c57eb6867af4f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 07/14] fix: reject packets with out-of-range numbers instead
 of panicking

---
 socket-io-protocol/src/socket/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 2822ee0..9bf6592 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -80,9 +80,14 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             _ => unreachable!(),
         }
     };
-    let attachments = captures.get(3).map(|x| x.as_str().parse::<u64>().unwrap());
+    let number = |x: regex::Match<'_>| {
+        x.as_str()
+            .parse::<u64>()
+            .map_err(|_| Error::InvalidMessage(text.to_string()))
+    };
+    let attachments = captures.get(3).map(number).transpose()?;
     let namespace = captures.get(5).map(|x| x.range());
-    let id = captures.get(6).map(|x| x.as_str().parse::<u64>().unwrap());
+    let id = captures.get(6).map(number).transpose()?;
     let args = match captures.get(7) {
         Some(m) => {
             let mut args = parse_args(m.as_str())?;
-- 
2.43.0


From 9c69a3243df45d3521ea10e836bd149005bad2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 08/14] fix: accept acks without arguments

A server's callback() sends 3<id>[]; the connection was ended over it.
---
 socket-io-protocol/src/socket/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 9bf6592..c06d75c 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -98,6 +98,9 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             });
             args
         }
+        None if kind == ProtocolKind::Ack || kind == ProtocolKind::BinaryAck => {
+            return Err(Error::MissingData("ack", text.to_string()))
+        }
         None => Vec::new(),
     };
 
@@ -201,7 +204,11 @@ fn deserialize_event(
     name: &'static str,
     attachments: Vec<OwnedSubslice<Vec<u8>>>,
 ) -> Result<Packet, Error> {
-    if (kind == Kind::Ack && parse.id.is_none()) || parse.args.is_empty() {
+    let missing = match kind {
+        Kind::Ack => parse.id.is_none(), // An ack may carry no arguments
+        _ => parse.args.is_empty(),
+    };
+    if missing {
         return Err(Error::MissingData(name, parse.message.to_string()));
     }
     if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
-- 
2.43.0


From 67149aa2b65edfcf4c1fdd90f25c4cf223d24546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 09/14] fix: send an empty argument list with an ack without
 arguments

Peers take an ack packet without a list for malformed.
---
 socket-io-protocol/src/socket/ser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 2977cf8..cc8f80c 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -126,9 +126,10 @@ impl PacketBuilder {
     pub fn finish(self) -> Vec<WsMessage> {
         // This is safe because we've only written to this via write!, and json serialization
         let mut s = unsafe { String::from_utf8_unchecked(self.buffer) };
-        if !self.first {
-            s.push(']');
+        if self.first {
+            s.push('[');
         }
+        s.push(']');
         match self.approach {
             Approach::Normal => vec![engine::package_message(s)],
             Approach::Binary {
-- 
2.43.0


From 892836dea7ab0b100df6d0aad01ffef95c07d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 10/14] fix: leave the builder unchanged when its first
 argument fails

The opening bracket was taken back but not the note that it was written,
so an ack continued with a comma.
---
 socket-io-protocol/src/socket/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index cc8f80c..5061b33 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -97,6 +97,7 @@ impl PacketBuilder {
         T: Serialize + ?Sized,
     {
         let start_pos = self.buffer.len();
+        let start_first = self.first;
         let mut cursor = Cursor::new(&mut self.buffer);
         cursor.set_position(start_pos as u64);
         if self.first {
@@ -119,6 +120,7 @@ impl PacketBuilder {
         if result.is_err() {
             self.buffer
                 .resize_with(start_pos, || panic!("shrinking vector"));
+            self.first = start_first;
         }
         result
     }
-- 
2.43.0


From 1a6056d99839625fa87896ce640f66765537821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 11/14] fix: do not panic on arguments that have no JSON value

Reading one returns the error it declares, and logging one prints it as
it was received.
---
 socket-io-protocol/src/socket/args/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d816273..a38371e 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -63,9 +63,10 @@ impl<'a> Args<'a> {
 
 impl<'a> Arg<'a> {
     pub fn to_json_value(&self) -> Result<Value, Error> {
-        // We can unwrap because if the json was going to fail to deserialize we would have failed
-        // to parse
-        let mut value = serde_json::from_str(self.arg).unwrap();
+        // It is well-formed, but can still hold what has no value: numbers out of range, lone
+        // surrogates, or too many levels.
+        let mut value = serde_json::from_str(self.arg)
+            .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))?;
         if !self.attachments.is_empty() {
             fill_placeholders_value(&mut value, &self.attachments)?;
         }
@@ -159,7 +160,10 @@ impl<'a> fmt::Display for Args<'a> {
 
 impl<'a> fmt::Display for Arg<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.to_json_value().unwrap())
+        match self.to_json_value() {
+            Ok(value) => write!(f, "{}", value),
+            Err(_) => write!(f, "{}", self.arg),
+        }
     }
 }
 
-- 
2.43.0


From f320aafac44f4be9fc17ab350944c43ffab1ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 12/14] fix: do not put the binary header into a list that
 begins with bytes

In binary mode a list like [1u8, "x"] was sent as [4,1,"x"].
---
 socket-io-protocol/src/socket/args/serialize_attachments.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/serialize_attachments.rs b/socket-io-protocol/src/socket/args/serialize_attachments.rs
index 3a3bc94..728af81 100644
--- a/socket-io-protocol/src/socket/args/serialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/serialize_attachments.rs
@@ -389,7 +389,8 @@ where
                 Err(_) => {
                     // The data isn't all u8's
                     let mut seq = s.take().unwrap().serialize_seq(*len)?;
-                    for b in data.iter() {
+                    // What comes first is the header of a binary message.
+                    for b in data.iter().skip(1) {
                         seq.serialize_element(b)?;
                     }
                     seq.serialize_element(&Wrapper {
-- 
2.43.0


From 4d177c31bd26741451b341ec36a4103a690b6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 13/14] fix: read every kind of object key in arguments with
 attachments

---
 .../socket/args/deserialize_attachments.rs    | 136 ++++++++++++++++--
 1 file changed, 125 insertions(+), 11 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c684fc7..c519883 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,12 +1,12 @@
-use std::fmt;
+use std::{borrow::Cow, fmt, marker::PhantomData};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
-        value::{BorrowedStrDeserializer, SeqDeserializer},
-        DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
-        Visitor,
+        value::{SeqDeserializer, StrDeserializer},
+        DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer, MapAccess, SeqAccess,
+        Unexpected, VariantAccess, Visitor,
     },
     Deserialize, Deserializer,
 };
@@ -97,7 +97,118 @@ where
 {
     map: M,
     buffers: Buffers<'a>,
-    first_key: Option<Option<&'a str>>,
+    first_key: Option<Option<Key<'a>>>,
+}
+
+/// An object key, which is borrowed from the packet unless it contains escapes.
+struct Key<'de>(Cow<'de, str>);
+
+impl<'de> Key<'de> {
+    fn is(&self, name: &str) -> bool {
+        self.0 == name
+    }
+}
+
+impl<'de> Deserialize<'de> for Key<'de> {
+    fn deserialize<D>(d: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        struct KeyVisitor;
+
+        impl<'de> Visitor<'de> for KeyVisitor {
+            type Value = Key<'de>;
+
+            fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
+                formatter.write_str("an object key")
+            }
+
+            fn visit_str<E>(self, v: &str) -> Result<Self::Value, E> {
+                Ok(Key(Cow::Owned(v.to_owned())))
+            }
+
+            fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E> {
+                Ok(Key(Cow::Borrowed(v)))
+            }
+        }
+
+        d.deserialize_str(KeyVisitor)
+    }
+}
+
+/// Hands over a key that was already read, with the conversions `serde_json` offers for keys.
+struct KeyDeserializer<'de, E> {
+    key: Cow<'de, str>,
+    error: PhantomData<E>,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($ty:ident)*) => {
+        $(
+            paste!{
+                fn [<deserialize_ $ty>]<V>(self, visitor: V) -> Result<V::Value, E>
+                where
+                    V: Visitor<'de>
+                {
+                    match self.key.parse() {
+                        Ok(v) => visitor.[<visit_ $ty>](v),
+                        Err(_) => Err(E::invalid_type(Unexpected::Str(&self.key), &visitor)),
+                    }
+                }
+            }
+        )*
+    };
+}
+
+impl<'de, E> Deserializer<'de> for KeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    deserialize_parsed_key! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 }
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_str(key),
+            Cow::Owned(key) => visitor.visit_string(key),
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        let key: StrDeserializer<E> = (*self.key).into_deserializer();
+        key.deserialize_enum(name, variants, visitor)
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
 }
 
 macro_rules! deserialize_forward {
@@ -288,11 +399,11 @@ where
     where
         A: MapAccess<'de>,
     {
-        let key: Option<&'de str> = map.next_key()?;
-        if key == Some("_placeholder") {
+        let key: Option<Key<'de>> = map.next_key()?;
+        if key.as_ref().map_or(false, |key| key.is("_placeholder")) {
             let _: bool = map.next_value()?;
-            let next_key: Option<&'de str> = map.next_key()?;
-            if next_key != Some("num") {
+            let next_key: Option<Key<'de>> = map.next_key()?;
+            if !next_key.map_or(false, |key| key.is("num")) {
                 return Err(A::Error::custom("_placeholder key present without num key"));
             }
             let num: u64 = map.next_value()?;
@@ -423,8 +534,11 @@ where
         K: DeserializeSeed<'de>,
     {
         if let Some(key) = self.first_key.take() {
-            if let Some(key) = key {
-                let deserializer = BorrowedStrDeserializer::new(key);
+            if let Some(Key(key)) = key {
+                let deserializer = KeyDeserializer {
+                    key,
+                    error: PhantomData,
+                };
                 seed.deserialize(deserializer).map(Some)
             } else {
                 Ok(None)
-- 
2.43.0


From 1148ab917bdd6d715e88a828dc5ad64f615decf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 14/14] fix: keep reading while sending what was handed over
 before close()

---
 socket-io-client/src/connection.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 740807a..364b2fb 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -134,7 +134,8 @@ where
     let task = async move {
         let mut next = stream.next().fuse();
         let mut closed = close.fuse();
-        loop {
+        let mut closing = false;
+        'run: loop {
             select! {
                 result = next => {
                     let msg = match result {
@@ -156,33 +157,29 @@ where
                 result = send_rx.next() => {
                     let msgs = match result {
                         Some(msg) => msg,
+                        None if closing => break,
                         None => panic!("Sending stream closed unexpectedly"),
                     };
                     for msg in msgs.into_iter() {
                         log::trace!("Sending websocket packet: {:?}", msg);
                         match sink.send(msg).await {
                             Ok(()) => (),
+                            Err(e) if closing => {
+                                log::debug!("Not everything could be sent before closing: {}", e);
+                                break 'run;
+                            }
                             Err(e) => return Err(e.into()),
                         }
                     }
                 }
                 _ = closed => {
-                    break;
+                    // What was handed over before the close is still sent.
+                    send_rx.close();
+                    closing = true;
                 }
             }
         }
         drop(next);
-        // What was handed over before the close is still sent.
-        send_rx.close();
-        'drain: while let Some(msgs) = send_rx.next().await {
-            for msg in msgs.into_iter() {
-                log::trace!("Sending websocket packet: {:?}", msg);
-                if let Err(e) = sink.send(msg).await {
-                    log::debug!("Not everything could be sent before closing: {}", e);
-                    break 'drain;
-                }
-            }
-        }
         let mut ws_stream = sink.reunite(stream).expect("Reunite should succeed");
         log::debug!("Sending close message");
         let _ = ws_stream.close(None).await;
-- 
2.43.0

