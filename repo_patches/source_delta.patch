From f4c0fef4906b53a6ea5b531ef94ad342d3879c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 01/25] fix: schema of bool must be z.boolean(), z.bool does
 not exist

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c04b278 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -143,7 +143,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From 811b9f0b6e2a7ae30c59e7cbcf2741c51f68d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 02/25] fix: do not panic when the caller of a method is gone
 before its reply

---
 derive/src/rpc/impl_rpc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..410935f 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -168,9 +168,11 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
+        if let ::std::result::Result::<_, _>::Err(err) = sender
             .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        {
+            #__private::tracing::warn!(?err, "Failed to send response");
+        }
         None
     }
 }
-- 
2.43.0


From e5461e8b9fa2aef7a380e82c557b91bac200b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 03/25] fix: let streams yield to the scheduler after each item

---
 derive/src/rpc/impl_rpc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 410935f..188af07 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -196,6 +196,10 @@ pub fn expand_req_variant_impl_stream(
                                 #__private::tracing::warn!(?err, "Failed to emit event");
                                 break;
                             }
+
+                            // a stream which always has an item ready must not block
+                            // its worker thread
+                            #__private::tokio::task::yield_now().await;
                         }
                 }
 
-- 
2.43.0


From d329d379088f54751bc6e06804e0b0539ad4245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 04/25] fix: accept the empty argument list sent for methods
 without arguments

---
 derive/src/rpc/impl_rpc.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 188af07..88a0fec 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -130,6 +130,16 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
+    if item.arg_types.is_empty() {
+        // clients send an empty array which does not deserialize into `()`
+        return quote! {
+            #ident {
+                #[allow(dead_code)]
+                args: ::std::option::Option<[(); 0]>
+            }
+        };
+    }
+
     quote! {
         #ident { args: (#(#arg_types)*) }
     }
-- 
2.43.0


From 054b83af7a9fd59005d45b1c27749cfb6a2fceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 05/25] fix: abort the previous stream when its id is reused

---
 derive/src/rpc/backend_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..7428d9f 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,9 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    if let Some(previous) = subscribers.insert(id, jh) {
+                                        previous.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From d8e17ccd6e128a6f47d21c06a4a0685923546284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 06/25] fix: discard the handles of finished streams

---
 derive/src/rpc/backend_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 7428d9f..2e67610 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,6 +56,7 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
+                                    subscribers.retain(|_, jh| !jh.is_finished());
                                     if let Some(previous) = subscribers.insert(id, jh) {
                                         previous.abort();
                                     }
-- 
2.43.0


From f7a91765d43908910d53846053c67105b8d12085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 07/25] fix: dispatch requests by the name of the namespace

---
 derive/src/rpc/backend_impl.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2e67610..1e903a4 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -39,6 +39,12 @@ fn expand_backend_impl(
         quote_spanned!(ty.span() => <#ty as #zod::Namespace>::NAME)
     });
 
+    let variant_names = fields.iter().map(|f| {
+        let ty = &f.ty;
+        let name = variant_ident_from_ty(ty).to_string();
+        quote_spanned!(ty.span() => (<#ty as #zod::Namespace>::NAME, #name))
+    });
+
     quote_spanned! {
         ident.span() =>
         #[#__private::async_trait::async_trait]
@@ -52,7 +58,16 @@ fn expand_backend_impl(
                 subscribers: &mut #__private::server::SubscriberMap,
             ) {
                 match req {
-                    #__private::Request::Exec { id, value } => {
+                    #__private::Request::Exec { id, mut value } => {
+                        // clients know a namespace by its name, which might differ from the
+                        // name of the type it is implemented for.
+                        let variant_names: &[(&str, &str)] = &[#(#variant_names),*];
+                        if let Some(ns) = value.get_mut("namespace") {
+                            if let Some((_, name)) = variant_names.iter().find(|(name, _)| *ns == *name) {
+                                *ns = (*name).into();
+                            }
+                        }
+
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-- 
2.43.0


From b63336ab03779a1be5753a042851b0190f2293d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 08/25] fix: keep the streams of different connections apart

---
 src/rpc/servers/proxy.rs | 48 +++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..bb555ea 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -1,13 +1,23 @@
+use std::collections::HashMap;
+use std::sync::{
+    atomic::{AtomicUsize, Ordering},
+    Arc,
+};
+
 use futures::{
     channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender},
     SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<(usize, Result<Request, Response>, UnboundedSender<Response>)>,
+    next_id: Arc<AtomicUsize>,
 }
 
 impl BackendProxy {
@@ -16,12 +26,17 @@ impl BackendProxy {
         T: Backend + Send + 'static,
     {
         let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
+
+        // request ids are only unique within a connection
+        let mut subscribers = HashMap::<usize, SubscriberMap>::new();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
+            while let Some((con_id, result, mut res)) = rx.next().await {
                 match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
+                    Ok(req) => {
+                        let subscribers = subscribers.entry(con_id).or_default();
+                        backend.handle_request(req, res, subscribers).await
+                    }
                     Err(err) => {
                         if let Err(err) = res.send(err).await {
                             tracing::warn!(?err);
@@ -31,11 +46,15 @@ impl BackendProxy {
             }
         });
 
-        Self { tx }
+        Self {
+            tx,
+            next_id: Default::default(),
+        }
     }
     pub fn connect(&self) -> ProxyConnection {
         let (res_tx, res_rx) = unbounded();
         ProxyConnection {
+            id: self.next_id.fetch_add(1, Ordering::Relaxed),
             tx: self.tx.clone(),
             res_tx,
             res_rx,
@@ -44,27 +63,34 @@ impl BackendProxy {
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    id: usize,
+    tx: UnboundedSender<(usize, Result<Request, Response>, UnboundedSender<Response>)>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            id,
+            tx,
+            res_tx,
+            res_rx,
+        } = self;
+        (ProxyTx { id, tx, res_tx }, ProxyRx { res_rx })
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    id: usize,
+    tx: UnboundedSender<(usize, Result<Request, Response>, UnboundedSender<Response>)>,
     res_tx: UnboundedSender<Response>,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send((self.id, req, self.res_tx.clone()))
             .map_err(|_| ClientError::Disconnected)
     }
 }
-- 
2.43.0


From 179cf2845bdc813cd4c8bf06d73ec152025b1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 09/25] fix: stop the streams of a connection when it is gone

---
 src/rpc/servers/proxy.rs | 68 ++++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index bb555ea..38b1b84 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -14,10 +14,13 @@ use zod_core::rpc::{
     Request, Response,
 };
 
+type Message = (usize, Result<Request, Response>, UnboundedSender<Response>);
+
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(usize, Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<Message>,
     next_id: Arc<AtomicUsize>,
+    disconnect_tx: UnboundedSender<usize>,
 }
 
 impl BackendProxy {
@@ -25,17 +28,36 @@ impl BackendProxy {
     where
         T: Backend + Send + 'static,
     {
-        let (tx, mut rx) = unbounded();
+        let (tx, mut rx) = unbounded::<Message>();
+        let (disconnect_tx, mut disconnects) = unbounded();
 
         // request ids are only unique within a connection
         let mut subscribers = HashMap::<usize, SubscriberMap>::new();
 
         tokio::spawn(async move {
-            while let Some((con_id, result, mut res)) = rx.next().await {
+            loop {
+                let (con_id, result, mut res) = futures::select_biased! {
+                    con_id = disconnects.select_next_some() => {
+                        subscribers.remove(&con_id);
+                        continue;
+                    }
+                    msg = rx.next() => match msg {
+                        Some(msg) => msg,
+                        None => break,
+                    }
+                };
+
                 match result {
                     Ok(req) => {
-                        let subscribers = subscribers.entry(con_id).or_default();
-                        backend.handle_request(req, res, subscribers).await
+                        let con_subscribers = subscribers.entry(con_id).or_default();
+                        backend
+                            .handle_request(req, res.clone(), con_subscribers)
+                            .await;
+
+                        // the connection might have been closed before this request was handled
+                        if res.is_closed() {
+                            subscribers.remove(&con_id);
+                        }
                     }
                     Err(err) => {
                         if let Err(err) = res.send(err).await {
@@ -49,24 +71,43 @@ impl BackendProxy {
         Self {
             tx,
             next_id: Default::default(),
+            disconnect_tx,
         }
     }
     pub fn connect(&self) -> ProxyConnection {
         let (res_tx, res_rx) = unbounded();
+        let id = self.next_id.fetch_add(1, Ordering::Relaxed);
         ProxyConnection {
-            id: self.next_id.fetch_add(1, Ordering::Relaxed),
+            id,
             tx: self.tx.clone(),
             res_tx,
             res_rx,
+            guard: DisconnectGuard {
+                id,
+                disconnect_tx: self.disconnect_tx.clone(),
+            },
         }
     }
 }
 
 pub struct ProxyConnection {
     id: usize,
-    tx: UnboundedSender<(usize, Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<Message>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
+    guard: DisconnectGuard,
+}
+
+/// Tells the backend that a connection is gone when dropped.
+struct DisconnectGuard {
+    id: usize,
+    disconnect_tx: UnboundedSender<usize>,
+}
+
+impl Drop for DisconnectGuard {
+    fn drop(&mut self) {
+        let _ = self.disconnect_tx.unbounded_send(self.id);
+    }
 }
 
 impl ProxyConnection {
@@ -76,14 +117,21 @@ impl ProxyConnection {
             tx,
             res_tx,
             res_rx,
+            guard,
         } = self;
-        (ProxyTx { id, tx, res_tx }, ProxyRx { res_rx })
+        (
+            ProxyTx { id, tx, res_tx },
+            ProxyRx {
+                res_rx,
+                _guard: guard,
+            },
+        )
     }
 }
 
 pub struct ProxyTx {
     id: usize,
-    tx: UnboundedSender<(usize, Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<Message>,
     res_tx: UnboundedSender<Response>,
 }
 
@@ -99,6 +147,8 @@ pin_project! {
     pub struct ProxyRx {
         #[pin]
         res_rx: UnboundedReceiver<Response>,
+        // dropped after `res_rx`
+        _guard: DisconnectGuard,
     }
 }
 
-- 
2.43.0


From 66dc52095e5a757c7eb89c0593d027b97d088085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 10/25] fix: answer a panicking method with an error instead of
 ending the backend

---
 src/rpc/servers/proxy.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 38b1b84..8417f55 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::panic::AssertUnwindSafe;
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
     Arc,
@@ -6,9 +7,10 @@ use std::sync::{
 
 use futures::{
     channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender},
-    SinkExt, Stream, StreamExt,
+    FutureExt, SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
+use serde::de::Error as _;
 use zod_core::rpc::{
     server::{Backend, SubscriberMap},
     Request, Response,
@@ -50,9 +52,17 @@ impl BackendProxy {
                 match result {
                     Ok(req) => {
                         let con_subscribers = subscribers.entry(con_id).or_default();
-                        backend
-                            .handle_request(req, res.clone(), con_subscribers)
-                            .await;
+                        let failed_id = match &req {
+                            Request::Exec { id, .. } => Some(*id),
+                            Request::CancelStream { .. } => None,
+                        };
+
+                        // a panicking method must not take down the backend
+                        let call = backend.handle_request(req, res.clone(), con_subscribers);
+                        if AssertUnwindSafe(call).catch_unwind().await.is_err() {
+                            let err = serde_json::Error::custom("request handler panicked");
+                            let _ = res.unbounded_send(Response::error(failed_id, err));
+                        }
 
                         // the connection might have been closed before this request was handled
                         if res.is_closed() {
-- 
2.43.0


From 9a62b062cb684ca79d80836ea24af8ad31ef930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 11/25] fix: ignore late events of abandoned sockets in the
 websocket client

---
 src/rpc/clients/static/websocket_client.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..0815c14 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -30,6 +30,9 @@ function websocketStore(url: string) {
       socket.close();
       socket = undefined;
     }
+
+    // whoever was opening has been closed
+    openPromise = undefined;
   }
 
   function reopen() {
@@ -51,7 +54,8 @@ function websocketStore(url: string) {
     }
 
     console.debug("creating a new socket");
-    socket = new WebSocket(url);
+    const ws = new WebSocket(url);
+    socket = ws;
 
     socket.onmessage = (event) => {
       const res = JSON.parse(event.data);
@@ -72,6 +76,9 @@ function websocketStore(url: string) {
     };
 
     socket.onclose = (event: Event) => {
+      // a late event of a socket that has been abandoned
+      if (socket !== ws) return;
+
       if (subscriptions.size > 0) {
         console.warn(event);
       }
@@ -86,9 +93,11 @@ function websocketStore(url: string) {
 
       socket.onerror = (error) => {
         reject(error);
+        if (socket !== ws) return;
         openPromise = undefined;
       };
       socket.onopen = (_: Event) => {
+        if (socket !== ws) return;
         reopenCount = 0;
         resolve(undefined);
         openPromise = undefined;
-- 
2.43.0


From e4e5516648e853e6884aab6524a127dcb1e40c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 12/25] fix: keep messages of the websocket client until a
 connection is open

---
 src/rpc/clients/static/websocket_client.ts | 27 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 0815c14..e4a71f3 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -11,6 +11,12 @@ function websocketStore(url: string) {
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
+  // all subscribers have left since the last message was issued
+  let idle = false;
+
+  // messages issued while no connection is open, in order
+  const unsent: string[] = [];
+
   const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
 
   function reopenTimeout() {
@@ -37,8 +43,11 @@ function websocketStore(url: string) {
 
   function reopen() {
     close();
-    if (subscriptions.size > 0) {
-      reopenTimeoutHandler = setTimeout(() => open(), reopenTimeout());
+    if (subscriptions.size > 0 || unsent.length > 0) {
+      reopenTimeoutHandler = setTimeout(
+        () => open().catch(() => {}),
+        reopenTimeout()
+      );
     }
   }
 
@@ -101,28 +110,34 @@ function websocketStore(url: string) {
         reopenCount = 0;
         resolve(undefined);
         openPromise = undefined;
+        unsent.splice(0).forEach((value) => ws.send(value));
+        if (idle) close();
       };
     });
     return openPromise;
   }
 
   const open_and_send = (value: string) => {
-    if (!socket || socket.readyState !== WebSocket.OPEN)
-      open().then(() => open_and_send(value));
-    else {
+    if (!socket || socket.readyState !== WebSocket.OPEN) {
+      unsent.push(value);
+      open().catch(() => {});
+    } else {
       socket.send(value);
     }
   };
 
   return {
     send(value: string) {
+      idle = false;
       open_and_send(value);
     },
     subscribe(subscription: (value: [number, unknown]) => void) {
+      idle = false;
       subscriptions.add(subscription);
       return () => {
         subscriptions.delete(subscription);
-        if (subscriptions.size === 0) {
+        idle = subscriptions.size === 0;
+        if (idle && unsent.length === 0) {
           close();
         }
       };
-- 
2.43.0


From f6c62ac436a74cccb1880eec1642569abc3ee6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 13/25] fix: reject a request of the websocket client that is
 answered with an error

---
 src/rpc/clients/static/websocket_client.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index e4a71f3..e514a9d 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -17,7 +17,9 @@ function websocketStore(url: string) {
   // messages issued while no connection is open, in order
   const unsent: string[] = [];
 
-  const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
+  const subscriptions = new Set<
+    ([id, data, error]: [number, unknown, unknown?]) => void
+  >();
 
   function reopenTimeout() {
     const n = reopenCount;
@@ -81,6 +83,10 @@ function websocketStore(url: string) {
         subscriptions.forEach((subscription) =>
           subscription(initialValue as any)
         );
+      } else if ("error" in res) {
+        subscriptions.forEach((subscription) =>
+          subscription([res.error.id, undefined, res.error.data])
+        );
       }
     };
 
@@ -131,7 +137,7 @@ function websocketStore(url: string) {
       idle = false;
       open_and_send(value);
     },
-    subscribe(subscription: (value: [number, unknown]) => void) {
+    subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
       idle = false;
       subscriptions.add(subscription);
       return () => {
@@ -178,8 +184,8 @@ export function subscribe<T>(
 
   let store = {
     subscribe(cb: (value: T) => void) {
-      return CONNECTION.subscribe(([res_id, data]) => {
-        if (res_id == id) {
+      return CONNECTION.subscribe(([res_id, data, error]) => {
+        if (res_id == id && error === undefined) {
           cb(data as T);
         }
       });
@@ -198,14 +204,16 @@ export async function request<T>(
   args: IArguments
 ): Promise<T> {
   let unsubscribe: () => void | undefined;
-  let promise = new Promise((resolve: (_: T) => void, _) => {
+  let promise = new Promise((resolve: (_: T) => void, reject) => {
     req_id += 1;
     let id = req_id;
     let request = { req_id, namespace, method, args: [...args] };
     let start = performance.now();
 
-    unsubscribe = CONNECTION.subscribe(([res_id, data]: [number, any]) => {
-      if (res_id == id) {
+    unsubscribe = CONNECTION.subscribe(([res_id, data, error]: [number, any, unknown?]) => {
+      if (res_id == id && error !== undefined) {
+        reject(error);
+      } else if (res_id == id) {
         console.log("Exec Response", {
           req_id,
           request,
-- 
2.43.0


From 8fae50d1dde9c69afb2171bb3b1e9ee9b16fdc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 14/25] fix: reject the requests of a lost connection in the
 websocket client

---
 src/rpc/clients/static/websocket_client.ts | 29 ++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index e514a9d..7ca208c 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -15,7 +15,10 @@ function websocketStore(url: string) {
   let idle = false;
 
   // messages issued while no connection is open, in order
-  const unsent: string[] = [];
+  const unsent: [value: string, request?: number][] = [];
+
+  // requests sent over the current connection that have not been answered
+  let carried = new Set<number>();
 
   const subscriptions = new Set<
     ([id, data, error]: [number, unknown, unknown?]) => void
@@ -67,6 +70,7 @@ function websocketStore(url: string) {
     console.debug("creating a new socket");
     const ws = new WebSocket(url);
     socket = ws;
+    const requests = (carried = new Set<number>());
 
     socket.onmessage = (event) => {
       const res = JSON.parse(event.data);
@@ -74,6 +78,7 @@ function websocketStore(url: string) {
 
       // TODO
       if ("method" in res) {
+        requests.delete(res.method.id);
         initialValue = [res.method.id, res.method.data];
         subscriptions.forEach((subscription) =>
           subscription(initialValue as any)
@@ -84,6 +89,7 @@ function websocketStore(url: string) {
           subscription(initialValue as any)
         );
       } else if ("error" in res) {
+        requests.delete(res.error.id);
         subscriptions.forEach((subscription) =>
           subscription([res.error.id, undefined, res.error.data])
         );
@@ -91,6 +97,14 @@ function websocketStore(url: string) {
     };
 
     socket.onclose = (event: Event) => {
+      // nobody will ever answer the requests this connection has carried
+      const lost = new Error("connection lost");
+      requests.forEach((id) =>
+        subscriptions.forEach((subscription) =>
+          subscription([id, undefined, lost])
+        )
+      );
+
       // a late event of a socket that has been abandoned
       if (socket !== ws) return;
 
@@ -116,26 +130,27 @@ function websocketStore(url: string) {
         reopenCount = 0;
         resolve(undefined);
         openPromise = undefined;
-        unsent.splice(0).forEach((value) => ws.send(value));
+        unsent.splice(0).forEach((message) => open_and_send(...message));
         if (idle) close();
       };
     });
     return openPromise;
   }
 
-  const open_and_send = (value: string) => {
+  const open_and_send = (value: string, request?: number) => {
     if (!socket || socket.readyState !== WebSocket.OPEN) {
-      unsent.push(value);
+      unsent.push([value, request]);
       open().catch(() => {});
     } else {
+      if (request !== undefined) carried.add(request);
       socket.send(value);
     }
   };
 
   return {
-    send(value: string) {
+    send(value: string, request?: number) {
       idle = false;
-      open_and_send(value);
+      open_and_send(value, request);
     },
     subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
       idle = false;
@@ -224,7 +239,7 @@ export async function request<T>(
       }
     });
 
-    CONNECTION.send(execute(request));
+    CONNECTION.send(execute(request), id);
   });
 
   return promise
-- 
2.43.0


From 1e1067d71d2e79c4203dcb3be0c5097dc0bb763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 15/25] fix: cancel the stream on the server when its store is
 closed

---
 src/rpc/clients/static/websocket_client.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 7ca208c..3fb5929 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -152,6 +152,12 @@ function websocketStore(url: string) {
       idle = false;
       open_and_send(value, request);
     },
+    cancel(id: number) {
+      // the streams of a connection end with it
+      if (unsent.length > 0 || socket?.readyState === WebSocket.OPEN) {
+        open_and_send(JSON.stringify({ cancelStream: { id } }));
+      }
+    },
     subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
       idle = false;
       subscriptions.add(subscription);
@@ -196,6 +202,7 @@ export function subscribe<T>(
   req_id += 1;
   let id = req_id;
   let req = { req_id, namespace, method, args: [...args] };
+  let closed = false;
 
   let store = {
     subscribe(cb: (value: T) => void) {
@@ -205,7 +212,12 @@ export function subscribe<T>(
         }
       });
     },
-    close() {},
+    close() {
+      if (!closed) {
+        closed = true;
+        CONNECTION.cancel(id);
+      }
+    },
   };
 
   CONNECTION.send(execute(req));
-- 
2.43.0


From fcd780e701245539baa4d3cf5f85ffb09e442694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 16/25] fix: do not deliver an item to those who subscribe
 while it is delivered

---
 src/rpc/clients/static/websocket_client.ts | 28 +++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 3fb5929..9c9ae2d 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -24,6 +24,16 @@ function websocketStore(url: string) {
     ([id, data, error]: [number, unknown, unknown?]) => void
   >();
 
+  // A subscription that is added while a value is delivered gets the next
+  // one, one that is removed gets none.
+  function notify(value: [number, unknown, unknown?]) {
+    [...subscriptions].forEach((subscription) => {
+      if (subscriptions.has(subscription)) {
+        subscription(value);
+      }
+    });
+  }
+
   function reopenTimeout() {
     const n = reopenCount;
     reopenCount++;
@@ -80,30 +90,20 @@ function websocketStore(url: string) {
       if ("method" in res) {
         requests.delete(res.method.id);
         initialValue = [res.method.id, res.method.data];
-        subscriptions.forEach((subscription) =>
-          subscription(initialValue as any)
-        );
+        notify(initialValue as any);
       } else if ("stream" in res) {
         initialValue = [res.stream.id, res.stream.data];
-        subscriptions.forEach((subscription) =>
-          subscription(initialValue as any)
-        );
+        notify(initialValue as any);
       } else if ("error" in res) {
         requests.delete(res.error.id);
-        subscriptions.forEach((subscription) =>
-          subscription([res.error.id, undefined, res.error.data])
-        );
+        notify([res.error.id, undefined, res.error.data]);
       }
     };
 
     socket.onclose = (event: Event) => {
       // nobody will ever answer the requests this connection has carried
       const lost = new Error("connection lost");
-      requests.forEach((id) =>
-        subscriptions.forEach((subscription) =>
-          subscription([id, undefined, lost])
-        )
-      );
+      requests.forEach((id) => notify([id, undefined, lost]));
 
       // a late event of a socket that has been abandoned
       if (socket !== ws) return;
-- 
2.43.0


From 417cd3c898621fdeaa1370f097743a9e53594a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 17/25] fix: let namespaces have members called request or
 subscribe

They hide the functions of the same name of the client, which all members of
the namespace call.
---
 core/src/rpc/codegen/mod.rs | 42 +++++++++++++++++++++++++++++++++++--
 core/src/rpc/server.rs      |  1 +
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index ec4b5da..9dd9066 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -57,6 +57,35 @@ fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
     }
 }
 
+/// The name by which the members of a namespace call `request` or `subscribe` of the client. A
+/// member of that name hides the function of the client in the whole namespace.
+fn client_function(ns_name: &str, function: &'static str) -> String {
+    if is_hidden(ns_name, function) {
+        hidden_name(function)
+    } else {
+        function.to_string()
+    }
+}
+
+fn hidden_name(function: &str) -> String {
+    format!("__{function}")
+}
+
+fn is_hidden(ns_name: &str, function: &str) -> bool {
+    inventory::iter::<RpcMember>()
+        .any(|member| member.ns_name() == ns_name && member.name() == function)
+}
+
+/// Declares other names for those functions of the client which are hidden in one of the
+/// namespaces.
+pub(crate) fn hidden_functions(ns_names: &[&str]) -> String {
+    ["request", "subscribe"]
+        .into_iter()
+        .filter(|function| ns_names.iter().any(|name| is_hidden(name, function)))
+        .map(|function| format!("\nconst {} = {function};\n", hidden_name(function)))
+        .collect()
+}
+
 impl RpcMember {
     pub fn decl(&self) -> String {
         match self {
@@ -69,6 +98,7 @@ impl RpcMember {
             } => {
                 let args = (args)();
                 let res = (res)();
+                let call = client_function(ns_name, "request");
 
                 let arg_fields = args
                     .iter()
@@ -91,7 +121,7 @@ impl RpcMember {
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
-                    return request(\"{ns_name}\", \"{name}\", arguments);
+                    return {call}(\"{ns_name}\", \"{name}\", arguments);
                 }};"
                 )
             }
@@ -104,6 +134,7 @@ impl RpcMember {
             } => {
                 let args = (args)();
                 let res = (res)();
+                let call = client_function(ns_name, "subscribe");
 
                 let arg_fields = args
                     .iter()
@@ -126,7 +157,7 @@ impl RpcMember {
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
-                    return subscribe(\"{ns_name}\", \"{name}\", arguments);
+                    return {call}(\"{ns_name}\", \"{name}\", arguments);
                 }};"
                 )
             }
@@ -139,6 +170,13 @@ impl RpcMember {
             RpcMember::Stream { ns_name, .. } => ns_name,
         }
     }
+
+    fn name(&self) -> &str {
+        match self {
+            RpcMember::Method { name, .. } => name,
+            RpcMember::Stream { name, .. } => name,
+        }
+    }
 }
 
 #[doc(hidden)]
diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index fa4bed7..c1cbd79 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -144,6 +144,7 @@ pub trait Backend {
         }
 
         let mut code = T::get();
+        code.push_str(&codegen::hidden_functions(Self::NS_NAMES));
 
         for (ns, ns_code) in records.into_iter() {
             write!(code, "export namespace {} {{ {} }}", ns, ns_code).expect("write failed");
-- 
2.43.0


From 983c7b02967e3e4cedfa59223d67cf9cbbfd47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:09 +0000
Subject: [PATCH 18/25] fix: rename arguments whose names typescript reserves
 or functions rely on

---
 core/src/rpc/codegen/mod.rs | 80 ++++++++++++++++++++++++++++++++++---
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index 9dd9066..1b951ab 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -15,7 +15,7 @@ pub trait RpcNamespace: crate::Namespace {
 }
 
 pub struct RpcArgument {
-    name: &'static str,
+    name: String,
     type_def: String,
     schema: String,
 }
@@ -23,7 +23,7 @@ pub struct RpcArgument {
 impl RpcArgument {
     pub fn new<T: crate::ZodType>(name: &'static str) -> Self {
         Self {
-            name,
+            name: name.to_string(),
             type_def: T::inline().to_string(),
             schema: T::inline_schema(),
         }
@@ -47,8 +47,78 @@ pub enum RpcMember {
 
 inventory::collect!(RpcMember);
 
+/// Names that cannot be given to an argument in typescript, and those that functions rely on.
+const RESERVED_NAMES: &[&str] = &[
+    "__request",
+    "__subscribe",
+    "arguments",
+    "await",
+    "break",
+    "case",
+    "catch",
+    "class",
+    "const",
+    "continue",
+    "debugger",
+    "default",
+    "delete",
+    "do",
+    "else",
+    "enum",
+    "eval",
+    "export",
+    "extends",
+    "false",
+    "finally",
+    "for",
+    "function",
+    "if",
+    "implements",
+    "import",
+    "in",
+    "instanceof",
+    "interface",
+    "let",
+    "new",
+    "null",
+    "package",
+    "private",
+    "protected",
+    "public",
+    "request",
+    "return",
+    "static",
+    "subscribe",
+    "super",
+    "switch",
+    "this",
+    "throw",
+    "true",
+    "try",
+    "typeof",
+    "var",
+    "void",
+    "while",
+    "with",
+    "yield",
+    "z",
+];
+
+/// Appends underscores to reserved names. Arguments are passed by position, their names are
+/// documentation only.
+fn rename_reserved(mut args: Vec<RpcArgument>) -> Vec<RpcArgument> {
+    for i in 0..args.len() {
+        while RESERVED_NAMES.contains(&args[i].name.as_str())
+            || args[..i].iter().any(|other| other.name == args[i].name)
+        {
+            args[i].name.push('_');
+        }
+    }
+    args
+}
+
 fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
-    let phantom_arg_names = args.iter().map(|arg| arg.name).collect::<Vec<_>>();
+    let phantom_arg_names = args.iter().map(|arg| arg.name.as_str()).collect::<Vec<_>>();
 
     if phantom_arg_names.is_empty() {
         String::new()
@@ -96,7 +166,7 @@ impl RpcMember {
                 ns_name,
                 ..
             } => {
-                let args = (args)();
+                let args = rename_reserved((args)());
                 let res = (res)();
                 let call = client_function(ns_name, "request");
 
@@ -132,7 +202,7 @@ impl RpcMember {
                 ns_name,
                 ..
             } => {
-                let args = (args)();
+                let args = rename_reserved((args)());
                 let res = (res)();
                 let call = client_function(ns_name, "subscribe");
 
-- 
2.43.0


From 5578f6f83993a799d70da463927597243707249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 19/25] fix: strip r# from the names of methods and arguments

---
 derive/src/rpc/args.rs     | 3 ++-
 derive/src/rpc/impl_rpc.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..b43dce6 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,6 +1,7 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
+use syn::ext::IdentExt;
 use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
@@ -121,7 +122,7 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 88a0fec..bbd3e81 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
-use syn::{Ident, Type};
+use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
 use crate::{get_private, get_private_spanned, get_zod};
@@ -61,7 +61,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.ident.unraw().to_string();
 
     let args = item
         .arg_types
-- 
2.43.0


From 2eca5df8be39dfc32eddb4e74fce2b2f7604aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 20/25] fix: quote property names that are not identifiers

Types with e.g. rename_all = "kebab-case" made the generated client unloadable.
---
 derive/src/impl_enum/field.rs                  |  6 +++---
 derive/src/impl_enum/variant/struct_variant.rs |  9 +++++++++
 derive/src/impl_enum/variant/tuple_variant.rs  |  7 +++++++
 derive/src/impl_enum/variant/unit_variant.rs   |  5 +++++
 derive/src/impl_struct.rs                      |  5 ++++-
 derive/src/lib.rs                              | 15 +++++++++++++++
 6 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..c68531e 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, property_key};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -92,7 +92,7 @@ impl<'a> NamedField<'a> {
         let zod = get_zod();
         let ty = &self.enum_field.ty;
         let span = self.enum_field.ty.span();
-        let name = &self.name;
+        let name = property_key(&self.name);
 
         if self.optional {
             quote_spanned!(span => format!("{}?: {} | undefined", #name, <#ty as #zod::ZodType>::inline()))
@@ -103,7 +103,7 @@ impl<'a> NamedField<'a> {
 
     fn expand_schema(&self) -> TokenStream {
         let zod = get_zod();
-        let name = &self.name;
+        let name = property_key(&self.name);
         let ty = &self.enum_field.ty;
         let maybe_optional = if self.optional {
             quote!(".optional()")
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..6b0bce3 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::property_key;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -38,12 +39,16 @@ impl<'a> StructVariant<'a> {
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
+                let name = property_key(&name);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
             }
             TagType::Internal { tag } => {
+                let tag = property_key(tag);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let tag = property_key(tag);
+                let content = property_key(content);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -77,15 +82,19 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
+                let name = property_key(&name);
                 quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
+                let tag = property_key(tag);
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
+                let tag = property_key(tag);
+                let content = property_key(content);
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..49fef3c 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::property_key;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -48,9 +49,12 @@ impl<'a> TupleVariant<'a> {
 
         match self.tag {
             TagType::External | TagType::Internal { .. } => {
+                let name = property_key(name);
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let tag = property_key(tag);
+                let content = property_key(content);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -92,9 +96,12 @@ impl<'a> TupleVariant<'a> {
 
         match tag_type {
             TagType::External | TagType::Internal { .. } => {
+                let name = property_key(name);
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let tag = property_key(tag);
+                let content = property_key(content);
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..c9b04bc 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::property_key;
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -18,9 +19,11 @@ impl<'a> UnitVariant<'a> {
                 quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
             }
             TagType::Internal { tag } => {
+                let tag = property_key(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = property_key(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::None => {
@@ -37,9 +40,11 @@ impl<'a> UnitVariant<'a> {
                 quote_spanned!(self.span => format!("\"{}\"", #name))
             }
             TagType::Internal { tag } => {
+                let tag = property_key(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = property_key(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::None => {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..ffa5699 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, property_key};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -276,6 +276,7 @@ impl<'a> StructField<'a> {
 
         match (self.flatten, &self.name, self.transparent) {
             (false, Some(name), false) => {
+                let name = property_key(name);
                 quote_spanned! {ty.span() =>  format!("{}: {}{}", #name, #ty::inline_schema(), #maybe_optional) }
             }
             (false, Some(_), true) => {
@@ -311,6 +312,7 @@ impl<'a> StructField<'a> {
 
         match (self.flatten, &self.name, self.optional, self.transparent) {
             (false, Some(name), false, false) => {
+                let name = property_key(name);
                 quote_spanned! {ty.span() =>  format!("{}: {}", #name, #ty::inline()) }
             }
             (false, None, false, false) => {
@@ -318,6 +320,7 @@ impl<'a> StructField<'a> {
                 quote_spanned! {ty.span() => #ty::inline().to_string()}
             }
             (false, Some(name), true, false) => {
+                let name = property_key(name);
                 quote_spanned! {ty.span() =>  format!("{}?: {} | undefined", #name, #ty::inline()) }
             }
             (false, None, true, false) => {
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..c41d598 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -175,6 +175,21 @@ fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
     }
 }
 
+/// The key of a property in typescript, which must be quoted unless it is an identifier
+fn property_key(name: &str) -> String {
+    let mut chars = name.chars();
+    let is_identifier = chars
+        .next()
+        .map_or(false, |c| c.is_alphabetic() || c == '_' || c == '$')
+        && chars.all(|c| c.is_alphanumeric() || c == '_' || c == '$');
+
+    if is_identifier {
+        name.to_string()
+    } else {
+        format!("{name:?}")
+    }
+}
+
 /// Prevent duplicate interfaces
 fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
-- 
2.43.0


From a603aa0e509650d55c14331755afdad28eb6c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 21/25] fix: wait until a cancelled stream is gone

Aborting a task does not interrupt a poll that is under way on another
worker thread: the stream could still deliver an item after its cancel
and after the reply to a later request. The same holds for a stream
whose id is used again.
---
 core/src/rpc/server.rs         | 11 +++++++++++
 derive/src/rpc/backend_impl.rs | 13 +++++--------
 derive/src/rpc/impl_rpc.rs     |  4 ++++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index c1cbd79..ec8d85f 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -30,6 +30,17 @@ impl std::ops::DerefMut for SubscriberMap {
     }
 }
 
+impl SubscriberMap {
+    /// Ends the stream with the given id, if there is one. It might be busy on another thread right
+    /// now, therefore we wait until it is gone and cannot send anything anymore.
+    pub async fn end_stream(&mut self, id: usize) {
+        if let Some(jh) = self.inner.remove(&id) {
+            jh.abort();
+            let _ = jh.await;
+        }
+    }
+}
+
 impl Drop for SubscriberMap {
     fn drop(&mut self) {
         for (_, jh) in self.inner.drain() {
diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 1e903a4..057ea15 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -70,11 +70,9 @@ fn expand_backend_impl(
 
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
-                                if let Some(jh) = evt.call(id, self, sender).await {
+                                if let Some(jh) = evt.call(id, self, sender, subscribers).await {
                                     subscribers.retain(|_, jh| !jh.is_finished());
-                                    if let Some(previous) = subscribers.insert(id, jh) {
-                                        previous.abort();
-                                    }
+                                    subscribers.insert(id, jh);
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
@@ -85,9 +83,7 @@ fn expand_backend_impl(
                         }
                     }
                     #__private::Request::CancelStream { id } => {
-                        if let Some(jh) = subscribers.remove(&id) {
-                            jh.abort();
-                        }
+                        subscribers.end_stream(id).await;
                     }
                 }
             }
@@ -127,7 +123,7 @@ pub fn expand_req_enum_impl(
             quote!(#index)
         });
 
-        quote_spanned!(ty.span() => #req_ident :: #variant_ident(req) => req.call(id, &mut backend.#field_or_index, sender).await)
+        quote_spanned!(ty.span() => #req_ident :: #variant_ident(req) => req.call(id, &mut backend.#field_or_index, sender, subscribers).await)
     });
 
     quote_spanned! {
@@ -138,6 +134,7 @@ pub fn expand_req_enum_impl(
                 id: usize,
                 backend: &mut #backend_ident,
                 sender: #__private::ResponseSender,
+                subscribers: &mut #__private::server::SubscriberMap,
             ) -> ::std::option::Option<#__private::tokio::task::JoinHandle<()>> {
                 match self {
                     #(#req_call_dispatch),*
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index bbd3e81..ca0de3c 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -45,6 +45,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
                     id: usize,
                     ctx: &mut #ident,
                     sender: #__private::ResponseSender,
+                    subscribers: &mut #__private::server::SubscriberMap,
                 ) -> ::std::option::Option<#__private::tokio::task::JoinHandle<()>> {
                     match self {
                         #(#req_variant_impls),*
@@ -194,6 +195,9 @@ pub fn expand_req_variant_impl_stream(
     let __private = get_private_spanned(ident.span());
 
     quote_spanned! { ident.span() =>
+            // the items of two streams with the same id cannot be told apart
+            subscribers.end_stream(id).await;
+
             let s = ctx.#ident(#(#expanded_args),*);
 
             Some(#__private::tokio::spawn(async move {
-- 
2.43.0


From 61483cee3d2b69916175cd72ad9e6a22b0e59c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 22/25] fix: a subscriber that throws does not keep items from
 the others

---
 src/rpc/clients/static/websocket_client.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 9c9ae2d..10235bb 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -25,11 +25,16 @@ function websocketStore(url: string) {
   >();
 
   // A subscription that is added while a value is delivered gets the next
-  // one, one that is removed gets none.
+  // one, one that is removed gets none. One that throws does not keep the
+  // value from the others.
   function notify(value: [number, unknown, unknown?]) {
     [...subscriptions].forEach((subscription) => {
       if (subscriptions.has(subscription)) {
-        subscription(value);
+        try {
+          subscription(value);
+        } catch (error) {
+          console.error(error);
+        }
       }
     });
   }
-- 
2.43.0


From a171366596d12eccd04832a581f087457e78f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 23/25] fix: answer exec requests that cannot be read as a
 whole with their id

A request with e.g. half of a surrogate pair in a string or with deeply
nested arguments was answered by an error without an id, so the promise
of the client was never settled.
---
 src/rpc/servers/axum.rs | 50 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/rpc/servers/axum.rs b/src/rpc/servers/axum.rs
index c38491f..dd832b6 100644
--- a/src/rpc/servers/axum.rs
+++ b/src/rpc/servers/axum.rs
@@ -43,7 +43,7 @@ async fn websocket(stream: WebSocket, con: ProxyConnection) {
         while let Some(Ok(message)) = receiver.next().await {
             if let Message::Text(json) = message {
                 let req = serde_json::from_str(&json).map_err(|err| crate::rpc::Response::Error {
-                    id: None,
+                    id: exec_id(&json),
                     data: crate::rpc::Error::from(err),
                 });
                 if let Err(err) = tx.send(req) {
@@ -75,3 +75,51 @@ async fn websocket(stream: WebSocket, con: ProxyConnection) {
         _ = fut2.fuse() => {}
     }
 }
+
+/// The id of an exec request which we fail to read as a whole, e.g. because an argument contains
+/// half of a surrogate pair or is nested too deep. The caller still waits for the answer.
+fn exec_id(json: &str) -> Option<usize> {
+    use serde::de::{Deserialize, Deserializer, Error, IgnoredAny, MapAccess, Visitor};
+
+    #[derive(serde::Deserialize)]
+    enum Request {
+        #[serde(rename = "exec")]
+        Exec(Exec),
+    }
+
+    struct Exec {
+        id: usize,
+    }
+
+    impl<'de> Deserialize<'de> for Exec {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+            deserializer.deserialize_map(ExecVisitor)
+        }
+    }
+
+    struct ExecVisitor;
+
+    impl<'de> Visitor<'de> for ExecVisitor {
+        type Value = Exec;
+
+        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+            f.write_str("an exec request")
+        }
+
+        fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Exec, A::Error> {
+            let mut id = None;
+            while let Some(key) = map.next_key::<String>()? {
+                if key != "id" {
+                    map.next_value::<IgnoredAny>()?;
+                } else if id.replace(map.next_value()?).is_some() {
+                    return Err(A::Error::duplicate_field("id"));
+                }
+            }
+            id.map(|id| Exec { id })
+                .ok_or_else(|| A::Error::missing_field("id"))
+        }
+    }
+
+    let Request::Exec(exec) = serde_json::from_str(json).ok()?;
+    Some(exec.id)
+}
-- 
2.43.0


From 9c28e434206f277fed75a8819c115ce4d2104f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:18 +0000
Subject: [PATCH 24/25] fix: accept namespaces and methods by their names only

serde takes the index of a variant for its name as well, so exec requests
with numbers for names were executed, and namespaces with a custom name
could also be reached by the name of their type.
---
 derive/src/rpc/backend_impl.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 057ea15..dcdf3cb 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -60,15 +60,26 @@ fn expand_backend_impl(
                 match req {
                     #__private::Request::Exec { id, mut value } => {
                         // clients know a namespace by its name, which might differ from the
-                        // name of the type it is implemented for.
+                        // name of the type it is implemented for. Neither that one nor the
+                        // index of a namespace or method is a name.
                         let variant_names: &[(&str, &str)] = &[#(#variant_names),*];
+                        let mut unknown = ::std::option::Option::None;
                         if let Some(ns) = value.get_mut("namespace") {
-                            if let Some((_, name)) = variant_names.iter().find(|(name, _)| *ns == *name) {
-                                *ns = (*name).into();
+                            match variant_names.iter().find(|(name, _)| *ns == *name) {
+                                Some((_, name)) => *ns = (*name).into(),
+                                None => unknown = Some(format!("unknown namespace: {ns}")),
                             }
                         }
+                        if let Some(method) = value.get("method").filter(|method| !method.is_string()) {
+                            unknown = Some(format!("unknown method: {method}"));
+                        }
+
+                        let req = match unknown {
+                            Some(err) => Err(<#__private::serde_json::Error as #__private::serde::de::Error>::custom(err)),
+                            None => #__private::serde_json::from_value::<#req_ident>(value),
+                        };
 
-                        match #__private::serde_json::from_value::<#req_ident>(value) {
+                        match req {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender, subscribers).await {
                                     subscribers.retain(|_, jh| !jh.is_finished());
-- 
2.43.0


From e96995e374ab2b069cad97197336965f7f74242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:44 +0000
Subject: [PATCH 25/25] fix: a method called __request or __subscribe is not
 mistaken for the client's own function

A namespace with a method called request reaches the function of the client
under the name __request, which another method of it may have as well.
---
 core/src/rpc/codegen/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index 1b951ab..cef2f0c 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -47,10 +47,11 @@ pub enum RpcMember {
 
 inventory::collect!(RpcMember);
 
+/// The functions of the client that the members of namespaces call.
+const CLIENT_FUNCTIONS: &[&str] = &["request", "subscribe"];
+
 /// Names that cannot be given to an argument in typescript, and those that functions rely on.
 const RESERVED_NAMES: &[&str] = &[
-    "__request",
-    "__subscribe",
     "arguments",
     "await",
     "break",
@@ -109,6 +110,9 @@ const RESERVED_NAMES: &[&str] = &[
 fn rename_reserved(mut args: Vec<RpcArgument>) -> Vec<RpcArgument> {
     for i in 0..args.len() {
         while RESERVED_NAMES.contains(&args[i].name.as_str())
+            || CLIENT_FUNCTIONS
+                .iter()
+                .any(|function| args[i].name == hidden_name(function))
             || args[..i].iter().any(|other| other.name == args[i].name)
         {
             args[i].name.push('_');
@@ -137,8 +141,13 @@ fn client_function(ns_name: &str, function: &'static str) -> String {
     }
 }
 
+/// A name that no member of any namespace has.
 fn hidden_name(function: &str) -> String {
-    format!("__{function}")
+    let mut name = format!("__{function}");
+    while inventory::iter::<RpcMember>().any(|member| member.name() == name) {
+        name.insert(0, '_');
+    }
+    name
 }
 
 fn is_hidden(ns_name: &str, function: &str) -> bool {
@@ -149,8 +158,8 @@ fn is_hidden(ns_name: &str, function: &str) -> bool {
 /// Declares other names for those functions of the client which are hidden in one of the
 /// namespaces.
 pub(crate) fn hidden_functions(ns_names: &[&str]) -> String {
-    ["request", "subscribe"]
-        .into_iter()
+    CLIENT_FUNCTIONS
+        .iter()
         .filter(|function| ns_names.iter().any(|name| is_hidden(name, function)))
         .map(|function| format!("\nconst {} = {function};\n", hidden_name(function)))
         .collect()
-- 
2.43.0

