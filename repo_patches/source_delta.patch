From 3f747a1bef3516ad1f022fe6ab0198a676e5a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 01/10] fix: server keeps sending queued responses after an
 internally created response

After a literal continuation request or a literal rejection was written,
Server::next went on to receive, and asked for more input although further
responses were queued. They were stuck until the client sent something.
---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..90566bf 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -193,8 +193,9 @@ impl Server {
                 Ok(Some(Event::ResponseSent { handle, response }))
             }
             Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
+                // An internally created response was sent, don't inform the caller but continue
+                // with the next queued response
+                self.progress_send()
             }
             Ok(_) => {
                 // No progress yet
-- 
2.43.0


From 6f77d351cf032942a76b767f95320868d05b5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 02/10] fix: Don't loop forever after the peer closed the TLS
 connection

Once a close_notify was received, rustls reports the end of the plaintext with Ok(0)
instead of WouldBlock. Stream::next never left the loop in this case.
---
 src/stream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..80fc99c 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -285,6 +285,8 @@ fn decrypt(
                     break;
                 }
                 Err(err) => return Err(DecryptEncryptError::Io(err)),
+                // The peer closed the TLS connection cleanly (`close_notify`).
+                Ok(0) => break,
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
-- 
2.43.0


From db4d11d3b41629d541006e5b6b67f67519c45619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 03/10] fix: Take plaintext that was received together with the
 TLS handshake

rustls doesn't want to read any bytes as long as there is plaintext left, and
the plaintext was only taken after further bytes were read: if e.g. the greeting arrived
together with the end of the handshake, Stream::next never made progress again.
---
 src/stream.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 80fc99c..7998a81 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,11 +269,9 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
-    while tls.wants_read() && !read_buffer.is_empty() {
-        let mut encrypted_bytes = read_buffer.reader();
-        tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
-
+    loop {
+        // There might already be plaintext left from the TLS handshake. As long as it isn't
+        // taken `rustls` doesn't want to read any further bytes.
         loop {
             let mut plain_bytes_chunk = [0; 128];
             match tls.reader().read(&mut plain_bytes_chunk) {
@@ -290,6 +288,14 @@ fn decrypt(
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
+
+        if !tls.wants_read() || read_buffer.is_empty() {
+            break;
+        }
+
+        let mut encrypted_bytes = read_buffer.reader();
+        tls.read_tls(&mut encrypted_bytes)?;
+        tls.process_new_packets()?;
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From e5d7835ba906ab13a410d3a88e714978ddc3768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 04/10] fix: Send outputs that exceed the buffer limit of
 rustls

rustls buffers at most 64 KiB, write_all failed with WriteZero for larger
outputs (e.g. a literal).
---
 src/stream.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 7998a81..0813961 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -306,13 +306,26 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut plain_bytes = plain_bytes.as_slice();
+
+    loop {
+        // `rustls` buffers a limited number of bytes, so it might not accept all of them at once.
+        if !plain_bytes.is_empty() {
+            let byte_count = tls.writer().write(plain_bytes)?;
+            if byte_count == 0 {
+                return Err(DecryptEncryptError::Io(ErrorKind::WriteZero.into()));
+            }
+            plain_bytes = &plain_bytes[byte_count..];
+        }
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
+
+        if plain_bytes.is_empty() {
+            break;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 245039a6b8694cddef83c335f8704ae42496620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 05/10] fix: proxy filters capabilities in responses to
 AUTHENTICATE and IDLE, too

---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..3e18dfa 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,19 +396,23 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let handle = client_to_proxy
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
@@ -444,7 +448,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -453,13 +457,17 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_reject(status).unwrap();
             trace!(role = "p2c", ?handle, "idle_reject");
-- 
2.43.0


From 6f858d3582f24aa76720ee4f54cd7cf9fb6d8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 06/10] fix: proxy doesn't panic on unexpected messages of
 AUTHENTICATE and IDLE

---
 proxy/src/proxy.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e18dfa..3e61413 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -299,10 +299,10 @@ fn handle_client_event(
         server::Event::AuthenticateDataReceived { authenticate_data } => {
             trace!(role = "c2p", authenticate_data=%format!("{:?}", authenticate_data).red(), "|-->");
 
-            // TODO(#145): Fix unwrap
-            let handle = proxy_to_server
-                .set_authenticate_data(authenticate_data)
-                .unwrap();
+            let Ok(handle) = proxy_to_server.set_authenticate_data(authenticate_data) else {
+                error!(role = "c2p", "Unexpected authenticate data");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2s", ?handle, "set_authenticate_data");
         }
         server::Event::IdleCommandReceived { tag } => {
@@ -403,9 +403,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            let handle = client_to_proxy
-                .authenticate_continue(continuation_request)
-                .unwrap();
+            let Ok(handle) = client_to_proxy.authenticate_continue(continuation_request) else {
+                error!(role = "s2p", "Unexpected authenticate continuation request");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
         client::Event::AuthenticateStatusReceived { mut status, .. } => {
@@ -413,8 +414,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.authenticate_finish(status).unwrap();
+            let Ok(handle) = client_to_proxy.authenticate_finish(status) else {
+                error!(role = "s2p", "Unexpected authenticate status");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "authenticate_finish");
         }
         client::Event::DataReceived { mut data } => {
@@ -459,8 +462,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_continuation(&mut continuation_request);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
+            let Ok(handle) = client_to_proxy.idle_accept(continuation_request) else {
+                error!(role = "s2p", "Unexpected idle continuation request");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "idle_accept");
         }
         client::Event::IdleRejected { handle, mut status } => {
@@ -468,8 +473,10 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_reject(status).unwrap();
+            let Ok(handle) = client_to_proxy.idle_reject(status) else {
+                error!(role = "s2p", "Unexpected idle status");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "idle_reject");
         }
         client::Event::IdleDoneSent { handle } => {
-- 
2.43.0


From 546d37fb10fd72bd5fbc03090aa53de3dd5eb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 07/10] fix: proxy accepts other clients during the TLS
 handshake with a client

---
 proxy/src/main.rs  |  1 +
 proxy/src/proxy.rs | 46 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/proxy/src/main.rs b/proxy/src/main.rs
index 24624b4..9976ca1 100644
--- a/proxy/src/main.rs
+++ b/proxy/src/main.rs
@@ -89,6 +89,7 @@ async fn handle_service(service: Service) {
 
 #[instrument(name = "client", skip_all, fields(addr = %proxy.client_addr()))]
 async fn handle_client(proxy: Proxy<ClientAcceptedState>) -> Result<()> {
+    let proxy = proxy.secure_client().await?;
     let proxy = proxy.connect_to_server().await?;
     proxy.start_conversation().await;
     Ok(())
diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e61413..948a226 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -80,6 +80,34 @@ impl Proxy<BoundState> {
         let (client_to_proxy, client_addr) = self.state.listener.accept().await?;
         info!(?client_addr, "Accepted client");
 
+        Ok(Proxy {
+            service: self.service.clone(),
+            state: ClientAcceptedState {
+                client_addr,
+                client_to_proxy,
+            },
+        })
+    }
+}
+
+pub struct ClientAcceptedState {
+    client_addr: SocketAddr,
+    client_to_proxy: TcpStream,
+}
+
+impl State for ClientAcceptedState {}
+
+impl Proxy<ClientAcceptedState> {
+    pub fn client_addr(&self) -> SocketAddr {
+        self.state.client_addr
+    }
+
+    /// Starts TLS with the client if required.
+    ///
+    /// Note: This depends on the client. Thus, it must not keep us from accepting other clients.
+    pub async fn secure_client(self) -> Result<Proxy<ClientSecuredState>, ProxyError> {
+        let client_to_proxy = self.state.client_to_proxy;
+
         let client_to_proxy = match &self.service.bind {
             Bind::Tls { identity, .. } => {
                 let config = {
@@ -116,27 +144,19 @@ impl Proxy<BoundState> {
         };
 
         Ok(Proxy {
-            service: self.service.clone(),
-            state: ClientAcceptedState {
-                client_addr,
-                client_to_proxy,
-            },
+            service: self.service,
+            state: ClientSecuredState { client_to_proxy },
         })
     }
 }
 
-pub struct ClientAcceptedState {
-    client_addr: SocketAddr,
+pub struct ClientSecuredState {
     client_to_proxy: Stream,
 }
 
-impl State for ClientAcceptedState {}
-
-impl Proxy<ClientAcceptedState> {
-    pub fn client_addr(&self) -> SocketAddr {
-        self.state.client_addr
-    }
+impl State for ClientSecuredState {}
 
+impl Proxy<ClientSecuredState> {
     pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
         let server_addr_port = self.service.connect.addr_port();
         info!(%server_addr_port, "Connecting to server");
-- 
2.43.0


From 4cdf84eb67225312b4e67f7576fad76f044a8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 08/10] fix: proxy forwards responses that were received before
 the server closed the connection

---
 proxy/src/proxy.rs | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 948a226..f865fb8 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -239,26 +239,45 @@ impl Proxy<ConnectedState> {
         };
         let mut client_to_proxy_stream = self.state.client_to_proxy;
 
+        // Messages (initially the greeting) that are not sent to the client yet
+        let mut unsent = 1;
+
         loop {
-            let control_flow = tokio::select! {
+            tokio::select! {
                 event = client_to_proxy_stream.next(&mut client_to_proxy) => {
-                    handle_client_event(event, &mut proxy_to_server)
+                    if let ControlFlow::Abort = handle_client_event(event, &mut proxy_to_server, &mut unsent) {
+                        return;
+                    }
                 }
                 event = proxy_to_server_stream.next(&mut proxy_to_server) => {
-                    handle_server_event(event, &mut client_to_proxy)
+                    if let ControlFlow::Abort = handle_server_event(event, &mut client_to_proxy, &mut unsent) {
+                        break;
+                    }
                 }
             };
+        }
+
+        // The server is gone but the client must receive everything the server has sent before
+        while unsent > 0 {
+            let event = client_to_proxy_stream.next(&mut client_to_proxy).await;
 
-            if let ControlFlow::Abort = control_flow {
-                break;
+            if let ControlFlow::Abort =
+                handle_client_event(event, &mut proxy_to_server, &mut unsent)
+            {
+                return;
             }
         }
+
+        if let Err(error) = client_to_proxy_stream.flush().await {
+            error!(role = "p2c", %error, "Failed to flush");
+        }
     }
 }
 
 fn handle_client_event(
     result: Result<server::Event, stream::Error<server::Error>>,
     proxy_to_server: &mut Client,
+    unsent: &mut usize,
 ) -> ControlFlow {
     let event = match result {
         Ok(event) => event,
@@ -296,9 +315,11 @@ fn handle_client_event(
     match event {
         server::Event::GreetingSent { .. } => {
             trace!(role = "p2c", "<--- greeting");
+            *unsent -= 1;
         }
         server::Event::ResponseSent { handle, .. } => {
             trace!(role = "p2c", ?handle, "<---");
+            *unsent -= 1;
         }
         server::Event::CommandReceived { command } => {
             trace!(role = "c2p", command=%format!("{:?}", command).red(), "|-->");
@@ -350,6 +371,7 @@ fn handle_client_event(
 fn handle_server_event(
     event: Result<client::Event, stream::Error<client::Error>>,
     client_to_proxy: &mut Server,
+    unsent: &mut usize,
 ) -> ControlFlow {
     let event = match event {
         Ok(event) => event,
@@ -411,6 +433,7 @@ fn handle_server_event(
             };
             let handle = client_to_proxy.enqueue_status(modified_status.clone());
             trace!(role = "p2c", ?handle, modified_status=%format!("{:?}", modified_status).yellow(), "enqueue_status");
+            *unsent += 1;
         }
         client::Event::AuthenticateStarted { handle } => {
             trace!(role = "p2s", ?handle, "--->");
@@ -428,6 +451,7 @@ fn handle_server_event(
                 return ControlFlow::Abort;
             };
             trace!(role = "p2c", ?handle, "authenticate_continue");
+            *unsent += 1;
         }
         client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
@@ -439,6 +463,7 @@ fn handle_server_event(
                 return ControlFlow::Abort;
             };
             trace!(role = "p2c", ?handle, "authenticate_finish");
+            *unsent += 1;
         }
         client::Event::DataReceived { mut data } => {
             trace!(role = "s2p", data=%format!("{:?}", data).blue(), "<--|");
@@ -447,6 +472,7 @@ fn handle_server_event(
 
             let handle = client_to_proxy.enqueue_data(data);
             trace!(role = "p2c", ?handle, "enqueue_data");
+            *unsent += 1;
         }
         client::Event::StatusReceived { mut status } => {
             trace!(role = "s2p", status=%format!("{:?}", status).blue(), "<--|");
@@ -455,6 +481,7 @@ fn handle_server_event(
 
             let handle = client_to_proxy.enqueue_status(status);
             trace!(role = "p2c", ?handle, "enqueue_status");
+            *unsent += 1;
         }
         client::Event::ContinuationRequestReceived {
             mut continuation_request,
@@ -465,6 +492,7 @@ fn handle_server_event(
 
             let handle = client_to_proxy.enqueue_continuation_request(continuation_request);
             trace!(role = "p2c", ?handle, "enqueue_continuation_request");
+            *unsent += 1;
         }
         client::Event::IdleCommandSent { handle } => {
             trace!(role = "p2s", ?handle, "--->");
@@ -487,6 +515,7 @@ fn handle_server_event(
                 return ControlFlow::Abort;
             };
             trace!(role = "p2c", ?handle, "idle_accept");
+            *unsent += 1;
         }
         client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
@@ -498,6 +527,7 @@ fn handle_server_event(
                 return ControlFlow::Abort;
             };
             trace!(role = "p2c", ?handle, "idle_reject");
+            *unsent += 1;
         }
         client::Event::IdleDoneSent { handle } => {
             trace!(role = "p2c", ?handle, "--->");
-- 
2.43.0


From f22d1bac6ec046a18010847c6e8fdac4b446c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 09/10] fix: proxy doesn't panic when the host of a TLS server
 is not a valid name

---
 proxy/src/proxy.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index f865fb8..2ab2e9e 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -16,7 +16,10 @@ use once_cell::sync::Lazy;
 use thiserror::Error;
 use tokio::net::{TcpListener, TcpStream};
 use tokio_rustls::{
-    rustls::{pki_types::ServerName, ClientConfig, RootCertStore, ServerConfig},
+    rustls::{
+        pki_types::{InvalidDnsNameError, ServerName},
+        ClientConfig, RootCertStore, ServerConfig,
+    },
     TlsAcceptor, TlsConnector,
 };
 use tracing::{error, info, trace};
@@ -48,6 +51,8 @@ pub enum ProxyError {
     Identity(#[from] IdentityError),
     #[error(transparent)]
     Tls(#[from] tokio_rustls::rustls::Error),
+    #[error(transparent)]
+    ServerName(#[from] InvalidDnsNameError),
 }
 
 pub trait State: Send + 'static {}
@@ -176,7 +181,7 @@ impl Proxy<ClientSecuredState> {
                 };
 
                 let connector = TlsConnector::from(Arc::new(config));
-                let dnsname = ServerName::try_from(host.clone()).unwrap();
+                let dnsname = ServerName::try_from(host.clone())?;
 
                 info!(?server_addr_port, "Starting TLS with server");
                 Stream::tls(connector.connect(dnsname, stream_to_server).await?.into())
-- 
2.43.0


From 64cdd7a597b9ffe22ba1712df6f801a3c5609360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 10/10] fix: proxy ignores native root certificates that can't
 be parsed

---
 proxy/src/proxy.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 2ab2e9e..78c320c 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -32,9 +32,9 @@ use crate::{
 static ROOT_CERT_STORE: Lazy<RootCertStore> = Lazy::new(|| {
     let mut root_store = RootCertStore::empty();
 
-    for cert in rustls_native_certs::load_native_certs().unwrap() {
-        root_store.add(cert).unwrap();
-    }
+    // Note: Platforms may contain certificates that can't be parsed. These must not keep us from
+    //       using the others.
+    root_store.add_parsable_certificates(rustls_native_certs::load_native_certs().unwrap());
 
     root_store
 });
-- 
2.43.0

