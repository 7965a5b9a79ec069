From 99fb7e0b7c9520790dbd213de8c81a24a769ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 01/18] fix: decode requests which omit params

A request without params (as this crate itself sends for build/shutdown,
workspace/buildTargets, workspace/reload and custom requests with null params)
never decoded as a request, because the three method tests were joined by ||;
it was then delivered as an empty response.
---
 bsp-server/src/request.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..4d1f8fe 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -425,18 +425,9 @@ impl<'de> Deserialize<'de> for Request {
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                 let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
-                        {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // Omitted params are the same as null ones: methods which need
+                // params fail to decode either way.
+                let params = params.unwrap_or(Value::Null);
 
                 Ok(match method.as_str() {
                     "build/initialize" => Request::InitializeBuild(id, de(params)?),
-- 
2.43.0


From d60355f6192e4e9322501f58e04682415e6141d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 02/18] fix: decode custom notifications which omit params

JSON-RPC allows params to be omitted; a custom notification without them was
rejected, which ended the whole session.
---
 bsp-server/src/notification.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..89cf088 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -232,15 +232,9 @@ impl<'de> Deserialize<'de> for Notification {
                 }
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/exit" && &method != "build/initialized" {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // Omitted params are the same as null ones: methods which need
+                // params fail to decode either way.
+                let params = params.unwrap_or(Value::Null);
 
                 fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> {
                     T::deserialize(p).map_err(DeError::custom)
-- 
2.43.0


From 3b98f0909d034b08ee3af8c61c41b41c00861404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 03/18] fix: Request::params of a custom request returns its
 params

It returned the method name instead.
---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 4d1f8fe..0ad685a 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From b83c27c131e0e3713f114cf0d65ad63aa52195e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 04/18] fix: skip the value of unknown members when decoding
 requests and notifications

The value was left unread, so decoding a Request or a Notification from text
failed on any additional member, "jsonrpc" included.
---
 bsp-server/src/notification.rs | 6 ++++--
 bsp-server/src/request.rs      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 89cf088..3d9fc73 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -5,7 +5,7 @@ use bsp_types::{
     TaskStart,
 };
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -227,7 +227,9 @@ impl<'de> Deserialize<'de> for Notification {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 0ad685a..6294efe 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -7,7 +7,7 @@ use bsp_types::*;
 pub use id::*;
 
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -415,7 +415,9 @@ impl<'de> Deserialize<'de> for Request {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From b6c6c223e04caa91f742edc88aef0ae4b55aadbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 05/18] fix: never take an invalid request for a response or a
 notification

A request whose params or id could not be decoded was delivered as an empty
response (it has an id) or as a custom notification (it has a method), so that
the server silently never answered it. It is now rejected like every other
invalid message.
---
 bsp-server/src/message.rs      | 25 ++++++++++++++++++++++++-
 bsp-server/src/notification.rs |  5 +++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..05be067 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -1,17 +1,40 @@
 use crate::Notification;
 use crate::Request;
 use crate::Response;
-use serde::{Deserialize, Serialize};
+use serde::{de::IgnoredAny, Deserialize, Deserializer, Serialize};
 use std::io;
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
 pub enum Message {
     Request(Request),
+    #[serde(deserialize_with = "response_without_method")]
     Response(Response),
     Notification(Notification),
 }
 
+/// A message with a method is a request or a notification. If it is not a valid
+/// one, it is still no response.
+fn response_without_method<'de, D: Deserializer<'de>>(de: D) -> Result<Response, D::Error> {
+    fn present<'de, D: Deserializer<'de>>(de: D) -> Result<bool, D::Error> {
+        IgnoredAny::deserialize(de).map(|_| true)
+    }
+
+    #[derive(Deserialize)]
+    struct Probe {
+        #[serde(flatten)]
+        response: Response,
+        #[serde(default, deserialize_with = "present")]
+        method: bool,
+    }
+
+    let Probe { response, method } = Probe::deserialize(de)?;
+    if method {
+        return Err(serde::de::Error::custom("a response has no method"));
+    }
+    Ok(response)
+}
+
 #[derive(Serialize)]
 struct JsonRpc {
     jsonrpc: &'static str,
diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 3d9fc73..c655283 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -163,6 +163,7 @@ impl<'de> Deserialize<'de> for Notification {
     {
         const FIELDS: &'static [&'static str] = &["params", "method"];
         enum Field {
+            ID,
             Method,
             Params,
             Other,
@@ -187,6 +188,7 @@ impl<'de> Deserialize<'de> for Notification {
                         E: DeError,
                     {
                         match value {
+                            "id" => Ok(Field::ID),
                             "method" => Ok(Field::Method),
                             "params" => Ok(Field::Params),
                             _ => Ok(Field::Other),
@@ -215,6 +217,9 @@ impl<'de> Deserialize<'de> for Notification {
                 let mut method: Option<String> = None; // required for json! to work
                 while let Some(key) = map.next_key()? {
                     match key {
+                        Field::ID => {
+                            return Err(DeError::custom("a notification has no id"));
+                        }
                         Field::Params => {
                             if params.is_some() {
                                 return Err(DeError::duplicate_field("params"));
-- 
2.43.0


From 7c4f6ed6233e108a31fcec7e6ef704b199f87e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 06/18] fix: keep the null result of a received response

The answer to build/shutdown has a null result, which was decoded as no result,
and lost when the response was sent on.
---
 bsp-server/src/response.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/response.rs b/bsp-server/src/response.rs
index 95023c2..a9289e7 100644
--- a/bsp-server/src/response.rs
+++ b/bsp-server/src/response.rs
@@ -1,5 +1,5 @@
 use crate::{ErrorCode, Message, RequestId};
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct Response {
@@ -7,7 +7,11 @@ pub struct Response {
     // to decode the request's id. Ignore this special case
     // and just die horribly.
     pub id: RequestId,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "present",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub result: Option<serde_json::Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<ResponseError>,
@@ -21,6 +25,11 @@ pub struct ResponseError {
     pub data: Option<serde_json::Value>,
 }
 
+/// A null result is a result, only a missing one is none.
+fn present<'de, D: Deserializer<'de>>(de: D) -> Result<Option<serde_json::Value>, D::Error> {
+    serde_json::Value::deserialize(de).map(Some)
+}
+
 impl Response {
     pub fn ok<R: Serialize>(id: RequestId, result: R) -> Response {
         Response {
-- 
2.43.0


From 115e3d2b025f96cb86f41a70561297a534b56f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 07/18] fix: report a client which vanishes during initialize
 as an error

Sending to it panicked.
---
 bsp-server/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..bd29652 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -133,7 +133,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(|e| ProtocolError(e.to_string()))?;
                 }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
@@ -157,7 +157,9 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender
+            .send(resp.into())
+            .map_err(|e| ProtocolError(e.to_string()))?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From 670ef684c566499410debf9a8b852361e2afed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 08/18] fix: drop notifications which arrive before initialize

As documented for InitializeBuild, all of them but exit are to be dropped; any of
them ended the handshake with an error.
---
 bsp-server/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index bd29652..9965ea2 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -135,6 +135,9 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .map_err(|e| ProtocolError(e.to_string()))?;
                 }
+                // Drop notifications, except for the exit notification
+                Ok(Message::Notification(notification))
+                    if !matches!(notification, Notification::Exit) => {}
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From 5fc2bc8a46f1380b5f9d821cf86194c3062fb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 09/18] fix: return the I/O errors of socket threads instead of
 panicking

Malformed input and a closed socket made the threads panic, and so
IoThreads::join; the stdio threads return these errors.
---
 bsp-server/src/transporter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..4ffdd93 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -50,7 +50,7 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                     reader_sender.send(msg).unwrap();
                     if is_exit {
@@ -68,8 +68,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
-- 
2.43.0


From 852ca8a8151fcea3974c255de45d29d72390e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:54 +0000
Subject: [PATCH 10/18] fix: a connection dropped while messages arrive is no
 panic

The reader thread panicked, and so IoThreads::join, when a message arrived after
the server had dropped its connection.
---
 bsp-server/src/transporter.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 4ffdd93..9868b7f 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -5,7 +5,7 @@ use std::thread;
 use crate::Notification;
 
 use super::{IoThreads, Message};
-use crossbeam_channel::{bounded, Receiver, Sender};
+use crossbeam_channel::{bounded, Receiver, SendError, Sender};
 
 pub struct Transporter(pub Sender<Message>, pub Receiver<Message>, pub IoThreads);
 
@@ -31,7 +31,7 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
+                reader_sender.send(msg).map_err(receiver_gone)?;
 
                 if is_exit {
                     break;
@@ -52,7 +52,7 @@ impl Transporter {
                 let mut buf_read = io::BufReader::new(stream);
                 while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
+                    reader_sender.send(msg).map_err(receiver_gone)?;
                     if is_exit {
                         break;
                     }
@@ -78,3 +78,7 @@ impl Transporter {
         Self(writer_sender, reader_receiver, io_threads)
     }
 }
+
+fn receiver_gone(error: SendError<Message>) -> io::Error {
+    io::Error::new(io::ErrorKind::BrokenPipe, error.to_string())
+}
-- 
2.43.0


From 39f20efe2e65dc4602d8c9d0143f9263d0e05e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:54 +0000
Subject: [PATCH 11/18] fix: do not allocate the announced Content-Length up
 front

A large length made the process abort or panic, whether or not any such body
followed.
---
 bsp-server/src/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 05be067..669ead0 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,7 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{de::IgnoredAny, Deserialize, Deserializer, Serialize};
-use std::io;
+use std::io::{self, Read};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -107,8 +107,11 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
     let mut buf = buf.into_bytes();
 
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // Not allocated up front: the peer may announce any size.
+    buf.clear();
+    if io::Read::take(inp, size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From 31d954bd2118fe214f8eaaf3eaeac9b33e6480f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:54 +0000
Subject: [PATCH 12/18] fix: a stream which ends inside a header block is
 truncated

It was taken for a regular end of the stream when it ended after a header line.
---
 bsp-server/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 669ead0..86c0beb 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -81,12 +81,17 @@ macro_rules! invalid_data { ($($tt:tt)*) => (invalid_data(format!($($tt)*))) }
 fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let mut size = None;
     let mut buf = String::new();
+    let mut in_header = false;
 
     loop {
         buf.clear();
         if inp.read_line(&mut buf)? == 0 {
+            if in_header {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             return Ok(None);
         }
+        in_header = true;
         if !buf.ends_with("\r\n") {
             return Err(invalid_data!("malformed header: {:?}", buf));
         }
-- 
2.43.0


From 8f1b33be0b0695d810ac6d1a787089d009908c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 13/18] fix: task progress notifications are build/taskProgress

As documented in the task module and in the protocol.
---
 bsp-server/src/notification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index c655283..ad63c34 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -38,7 +38,7 @@ impl Notification {
             PublishDiagnostics(_) => "build/publishDiagnostics",
             TaskStart(_) => "build/taskStart",
             TaskFinish(_) => "build/taskFinish",
-            TaskProgress(_) => "build/taskProgressing",
+            TaskProgress(_) => "build/taskProgress",
             BuildTargetDidChange(_) => "buildTarget/didChange",
             Custom(m, _) => m,
         }
@@ -256,7 +256,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/publishDiagnostics" => PublishDiagnostics(de(params)?),
                     "build/taskStart" => TaskStart(de(params)?),
                     "build/taskFinish" => TaskFinish(de(params)?),
-                    "build/taskProgressing" => TaskProgress(de(params)?),
+                    "build/taskProgress" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
                     _ => Custom(Box::leak(method.into_boxed_str()), params),
                 })
-- 
2.43.0


From 50be221d69dbd514cadfaa43c3a83465805968bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 14/18] fix: inverse sources requests are
 buildTarget/inverseSources

As documented for the server trait and its capabilities, and in the protocol.
---
 bsp-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 6294efe..98b98b2 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -63,7 +63,7 @@ impl Request {
             BuildTargetDependencyModules(_, _) => "buildTarget/dependencyModules",
             DebugSessionStart(_, _) => "debugSession/start",
             BuildTargetSources(_, _) => "buildTarget/sources",
-            TextDocumentInverseSources(_, _) => "textDocument/inverseSources",
+            TextDocumentInverseSources(_, _) => "buildTarget/inverseSources",
             BuildTargetDependencySources(_, _) => "buildTarget/dependencySources",
             BuildTargetResources(_, _) => "buildTarget/resources",
             BuildTargetRun(_, _) => "buildTarget/run",
@@ -441,7 +441,7 @@ impl<'de> Deserialize<'de> for Request {
                     }
                     "debugSession/start" => Request::DebugSessionStart(id, de(params)?),
                     "buildTarget/sources" => Request::BuildTargetSources(id, de(params)?),
-                    "textDocument/inverseSources" => {
+                    "buildTarget/inverseSources" => {
                         Request::TextDocumentInverseSources(id, de(params)?)
                     }
                     "buildTarget/dependencySources" => {
-- 
2.43.0


From 719c1d6199684743fc3f86064079c2a8b94a5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 15/18] fix: event times are milliseconds since Epoch, which
 exceed 32 bits

A task notification with any current event time could not be decoded, which
ended the session.
---
 bsp-types/src/task/finish.rs   | 2 +-
 bsp-types/src/task/progress.rs | 2 +-
 bsp-types/src/task/start.rs    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/task/finish.rs b/bsp-types/src/task/finish.rs
index c335286..88f2513 100644
--- a/bsp-types/src/task/finish.rs
+++ b/bsp-types/src/task/finish.rs
@@ -12,7 +12,7 @@ pub struct TaskFinish {
 
     /** Timestamp of the event in milliseconds. */
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index e599886..57c49f8 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -12,7 +12,7 @@ pub struct TaskProgress {
 
     /// Timestamp of when the progress event was generated in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task progress.
     ///  * Information about the state of the task at the time the event is sent.
diff --git a/bsp-types/src/task/start.rs b/bsp-types/src/task/start.rs
index dd2cfb6..8c93266 100644
--- a/bsp-types/src/task/start.rs
+++ b/bsp-types/src/task/start.rs
@@ -11,7 +11,7 @@ pub struct TaskStart {
 
     /// Timestamp of when the event started in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
-- 
2.43.0


From 03ae617207420433db7e33429c0ee629df0fa886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 16/18] fix: decode the percent-encoding of the root path

The root path of a workspace with, say, a space in its path named a directory
which does not exist.
---
 bsp-types/src/initialize_params.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-types/src/initialize_params.rs b/bsp-types/src/initialize_params.rs
index f9ae093..dd2a7cf 100644
--- a/bsp-types/src/initialize_params.rs
+++ b/bsp-types/src/initialize_params.rs
@@ -99,9 +99,11 @@ impl InitializeBuild {
         &self.root_uri
     }
 
-    /// Get a reference to the bsp initialize build params's root uri.
+    /// Get the path of the bsp initialize build params's root uri.
     pub fn root_path(&self) -> PathBuf {
-        self.root_uri.path().into()
+        self.root_uri
+            .to_file_path()
+            .unwrap_or_else(|_| self.root_uri.path().into())
     }
 
     /// Set the bsp initialize build params's root uri.
-- 
2.43.0


From 7bb3f1ab3880951328e24a54259b6a72629d58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 17/18] fix: build target tags are free-form strings

Custom tags were encoded as objects, other strings were rejected, and library and
no-ide were misspelt.
---
 bsp-types/src/bt_tag.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/bt_tag.rs b/bsp-types/src/bt_tag.rs
index 125cfab..5cde7dc 100644
--- a/bsp-types/src/bt_tag.rs
+++ b/bsp-types/src/bt_tag.rs
@@ -1,4 +1,4 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// Free-form string tags to categorize or label this build target.
 /// For example, can be used by the client to:
 ///  - customize how the target should be translated into the client's project model.
@@ -6,8 +6,7 @@ use serde::{Deserialize, Serialize};
 ///  - display icons or colors in the user interface.
 ///  Pre-defined tags are listed in `BuildTargetTag` but clients and servers
 ///  are free to define new tags for custom purposes.
-#[derive(Debug, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[derive(Debug)]
 pub enum BuildTargetTag {
     /// Target contains re-usable functionality for downstream targets. May have
     /// any combination of capabilities.
@@ -48,3 +47,34 @@ impl BuildTargetTag {
         Self::Custom(value.into())
     }
 }
+
+impl Serialize for BuildTargetTag {
+    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
+        ser.serialize_str(match self {
+            Self::Libary => "library",
+            Self::Application => "application",
+            Self::Test => "test",
+            Self::IntegrationTest => "integration-test",
+            Self::Benchmark => "benchmark",
+            Self::NoIDE => "no-ide",
+            Self::Manual => "manual",
+            Self::Custom(tag) => tag,
+        })
+    }
+}
+
+impl<'de> Deserialize<'de> for BuildTargetTag {
+    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
+        let tag = String::deserialize(de)?;
+        Ok(match tag.as_str() {
+            "library" => Self::Libary,
+            "application" => Self::Application,
+            "test" => Self::Test,
+            "integration-test" => Self::IntegrationTest,
+            "benchmark" => Self::Benchmark,
+            "no-ide" => Self::NoIDE,
+            "manual" => Self::Manual,
+            _ => Self::Custom(tag),
+        })
+    }
+}
-- 
2.43.0


From fb7c28b03ddc986ff50243a5319ab6e722d8773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:54 +0000
Subject: [PATCH 18/18] fix: send messages over a socket without Nagle's delay

The tail of a message could be lost when the socket was closed while
bytes of the peer were still unread.
---
 bsp-server/src/transporter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 9868b7f..bbab389 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -45,6 +45,11 @@ impl Transporter {
 
     /// Creates an BSP connection via socket.
     pub fn socket(stream: TcpStream) -> Self {
+        // Otherwise all of a message but its first bytes waits for the peer's
+        // acknowledgement, and is lost if the socket is closed until then while
+        // bytes of the peer (sent after its exit, say) are still unread.
+        let _ = stream.set_nodelay(true);
+
         let (reader_receiver, reader) = {
             let stream = stream.try_clone().unwrap();
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
-- 
2.43.0

