From 9919349869e385fd3c43f41ef0e1a907dbf20a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 01/31] fix: read boolean properties with into_bool

MqttPropValue::into_bool matched the Byte variant, so it returned None for
every boolean property and the server panicked on CONNECT packets carrying
RequestResponseInformation or RequestProblemInformation.
---
 packet/src/props.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..2e422de 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,7 +400,7 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
+        if let MqttPropValueInner::Bool(i) = &self.0 {
             Some(i.inner() == 1)
         } else {
             None
-- 
2.43.0


From 5eb06630356b0e1f42c38edbc5bb9711b0ac78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 02/31] fix: do not panic on user properties in CONNECT

UserProperty values are stored as strings, into_str_pair() is always None.
---
 server-lib/src/clients/clientworker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..b55d91e 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From 308e8374b155e7a8d91103a604b78aee780545be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 03/31] fix: decode strings that span several buffer segments

Only the first chunk of the buffer was looked at, the rest of the string was
silently skipped.
---
 packet/src/data.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..e85ee64 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,9 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From d95f5318f6aa57aa92201230b516847a825e3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 04/31] fix: reject overlong variable byte integers

Encodings that are not minimal were accepted, although every size computation
assumes the minimal encoding, so the stream went out of sync after such a
frame. Four continuation bytes asked for more data instead of failing.
---
 packet/src/data.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index e85ee64..1d708a2 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -242,13 +242,17 @@ impl MqttDeserialize for MqttVariableBytesInt {
             remaining -= 1;
             let encoded_byte = buf.get_u8() as u32;
             value += (encoded_byte & 127) << multiplier;
-            if multiplier > 21 {
-                return Err(DataParseError::BadMqttVariableBytesInt);
-            }
-            multiplier += 7;
             if encoded_byte & 0x80 == 0 {
+                // the encoding must use the minimum number of bytes
+                if encoded_byte == 0 && multiplier > 0 {
+                    return Err(DataParseError::BadMqttVariableBytesInt);
+                }
                 break;
             }
+            multiplier += 7;
+            if multiplier > 21 {
+                return Err(DataParseError::BadMqttVariableBytesInt);
+            }
         }
         Ok(MqttVariableBytesInt { i: value })
     }
-- 
2.43.0


From 9ce483cba6d195a36a5fed54c99e73b195ba2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 05/31] fix: failing set_username/set_password leave the packet
 unchanged

The flag was set before the value was validated, the packet then announced a
field that it does not contain.
---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From 453b98e698c81796a336422b896007d1c0c0be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 06/31] fix: drop the packet identifier when the QoS is set
 back to 0

It was still written, where the receiver expects the properties.
---
 packet/src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..8819e9e 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -124,6 +124,10 @@ impl Publish {
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
         self.flags |= qos.into();
+        if let QoS::QoS0 = qos {
+            // packets with QoS 0 have no identifier
+            self.packet_identifier = None;
+        }
     }
     pub fn qos(&self) -> QoS {
         // why unwrap is justified here,
-- 
2.43.0


From 889d79eeaa0e919453fda65a85ccaa12ef02af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:37 +0000
Subject: [PATCH 07/31] fix: decide complete frames, and consume them entirely

Frames whose content is shorter than announced (PUBACK, PUBREC, PUBREL,
PUBCOMP, DISCONNECT, AUTH) were accepted although the bytes left over were
then parsed as the next packet, and complete frames whose fields run over the
end of the frame asked for more data, which can never arrive.
---
 packet/src/packet.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..eb33dfa 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -4,7 +4,8 @@ use super::{
     puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
     suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
 };
-use bytes::{Buf, BufMut};
+use crate::data::MqttVariableBytesInt;
+use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone)]
 pub enum Packet {
@@ -170,6 +171,32 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let needed = length.inner() as usize;
+        if buf.remaining() < needed {
+            return Err(DataParseError::InsufficientBuffer {
+                needed,
+                available: buf.remaining(),
+            });
+        }
+        let mut header = BytesMut::new();
+        length.serialize(&mut header);
+        let mut frame = header.chain(buf.take(needed));
+        match Packet::deserialize_frame(packet_type, byte1, &mut frame) {
+            // the packet must fill the whole frame
+            Ok(_) if frame.has_remaining() => Err(DataParseError::BadPacketType),
+            // the frame is complete, more data would not help
+            Err(DataParseError::InsufficientBuffer { .. }) => Err(DataParseError::BadPacketType),
+            res => res,
+        }
+    }
+}
+impl Packet {
+    fn deserialize_frame<T: Buf>(
+        packet_type: PacketType,
+        byte1: u8,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
-- 
2.43.0


From ce927215a89f122a5b9a2d035cb1b9763dd78e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 08/31] fix: concurrent creation of a topic level loses no
 subscriptions

The existence check and the insertion are two separate lock acquisitions, a
block created in between was replaced together with all its subscriptions.
---
 server-lib/src/topics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..21a1012 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -194,11 +194,11 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(Block::new);
         }
     }
 }
-- 
2.43.0


From 4daff9c2c4aa0cdd66eb931821d47e9720d65d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 09/31] fix: combine the options of overlapping subscriptions

Whether a no-local subscription suppressed the message for another matching
subscription without no-local depended on the order of visiting them.
---
 server-lib/src/topics.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 21a1012..d2c6ed0 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -26,6 +26,14 @@ impl SubscriptionInfo {
     fn new(qos: QoS, flags: SubscriptionFlags) -> Self {
         SubscriptionInfo { qos, flags }
     }
+    /// Combines overlapping subscriptions of one client: the highest QoS applies,
+    /// and a flag only if it is set for all of them
+    fn merge(&mut self, other: &SubscriptionInfo) {
+        if self.qos < other.qos {
+            self.qos = other.qos;
+        }
+        self.flags &= other.flags;
+    }
 }
 
 /// This Block structure is designed to have minimal concurrency overhead,
@@ -89,9 +97,7 @@ impl BlockInner {
                     e.insert(info.clone());
                 }
                 Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
+                    e.get_mut().merge(info);
                 }
             }
         }
@@ -108,9 +114,7 @@ impl BlockInner {
                     e.insert(info.clone());
                 }
                 Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
+                    e.get_mut().merge(info);
                 }
             }
         }
-- 
2.43.0


From cd3e3b3cbb3f9f5c7242b87f3bf0194d17d94f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 10/31] fix: leading wildcards do not match topics starting
 with $

[MQTT-4.7.2-1]
---
 server-lib/src/topics.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index d2c6ed0..2b450b0 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -173,19 +173,22 @@ impl Block {
         &self,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
         mut sections: S,
+        wildcards: bool,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
         let raii = self.read().await;
-        raii.collect_hash_wildcard(subs).await;
+        if wildcards {
+            raii.collect_hash_wildcard(subs).await;
+        }
         if let Some(section) = sections.next() {
             // somewhere in the middle
             trace!("in collect_subs, section = `{}`", section);
-            if let Some(sub_block) = raii.sub_blocks.get("+") {
-                sub_block.collect_subs(subs, sections.clone()).await;
+            if let (true, Some(sub_block)) = (wildcards, raii.sub_blocks.get("+")) {
+                sub_block.collect_subs(subs, sections.clone(), true).await;
             }
             if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections).await;
+                sub_block.collect_subs(subs, sections, true).await;
             }
         } else {
             // reached the end
@@ -356,7 +359,11 @@ impl TopicsTable {
             "collected_sections {:?}",
             sections.clone().collect::<Vec<_>>()
         );
-        self.root_block.collect_subs(&mut subs, sections).await;
+        // wildcards in the first level do not match topics beginning with `$`
+        let wildcards = !topic.starts_with('$');
+        self.root_block
+            .collect_subs(&mut subs, sections, wildcards)
+            .await;
         subs
     }
 }
-- 
2.43.0


From ac6a1c2e8258bbc3c66b3df21c990e513d6fc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 11/31] fix: refusing a packet of a client that is gone does
 not kill the dispatcher

---
 server-lib/src/dispatcher.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..f052227 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -41,9 +41,10 @@ impl Dispatcher {
     async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        if let Some(c) = clients.get(client) {
+            if c.send(disconnect).is_err() {
+                error!(clientid = client, "Internal Error: tx closed");
+            }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
-- 
2.43.0


From b34d8fde1bdfc801a78295c8afdaee4b4351c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 12/31] fix: retain-as-published subscriptions do not kill the
 dispatcher

Retained messages are refused, so all forwarded messages have the flag clear
and there is nothing to keep.
---
 server-lib/src/dispatcher.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index f052227..33661b4 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -112,9 +112,6 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
-- 
2.43.0


From ba44d8f199263376689cee3d3a24944bf9a33059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 13/31] fix: stop reading when the client closed its connection

The worker was reading the end of file forever, in a busy loop, and the client
was never unregistered.
---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From fb8b85d17b034430c02f727e1e7b860f5d8e533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 14/31] fix: parse only the decrypted bytes of noise messages

The padding of the buffer (the size of the authentication tag) was parsed as
well: a truncated packet was completed with zeros. And packets following the
first one in a message were dropped silently.
---
 server-lib/src/clients/noiseclient.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..ec90341 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -52,10 +52,12 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
 
-        let mut buf: &[u8] = message.as_ref();
+        let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
+            // every message has exactly one packet
+            Ok(_) if buf.has_remaining() => Err(DataParseError::BadPacketType.into()),
             Ok(packet) => Ok(packet),
             Err(DataParseError::InsufficientBuffer {
                 needed: _,
-- 
2.43.0


From c422aed8cd878cb5e0161c23d20a2c430c6be9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 15/31] fix: enforce the maximum packet size on encrypted
 connections

---
 server-lib/src/clients/noiseclient.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index ec90341..308d928 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -23,6 +23,7 @@ pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
     saddr: SocketAddr,
     crypto: TransportState,
+    max_packet_size: u32,
 }
 
 impl fmt::Debug for NoiseClient {
@@ -36,11 +37,13 @@ impl NoiseClient {
         stream: Framed<TcpStream, LengthDelimitedCodec>,
         saddr: SocketAddr,
         crypto: TransportState,
+        max_packet_size: u32,
     ) -> Self {
         NoiseClient {
             stream,
             saddr,
             crypto,
+            max_packet_size,
         }
     }
     pub async fn recv(&mut self) -> Result<Packet, ServerError> {
@@ -53,6 +56,9 @@ impl NoiseClient {
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
         let size = self.crypto.read_message(&frame[..], &mut message)?;
+        if size > self.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
 
         let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
@@ -196,7 +202,7 @@ async fn _connect_client(
     }
     let transport = responder.into_transport_mode().unwrap();
 
-    let nc = NoiseClient::new(stream, saddr, transport);
+    let nc = NoiseClient::new(stream, saddr, transport, cfg.max_packet_size);
     let mut client = ClientWorker::new(
         Connection::Noise(Box::new(nc)),
         cfg,
-- 
2.43.0


From 1ce9cd4a57ef7ff3c0beb2cde43916666cca5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 16/31] fix: round small dispatcher queue sizes up to one
 element

As documented, instead of panicking.
---
 server-lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..783e391 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -32,7 +32,7 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From 69da2dff0ac1dcf94f7ebc549c5ebc32ee8fa7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 17/31] fix: abandon connections that are still connecting on
 shutdown

Clients without a CONNECT were registered, and the noise connections panicked
because of the unfinished handshake.
---
 server-lib/src/clients/mqttclient.rs  |  5 ++++-
 server-lib/src/clients/noiseclient.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..dab3c89 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -172,7 +172,10 @@ async fn _connect_client(
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 308d928..1064be5 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -191,7 +191,10 @@ async fn _connect_client(
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -216,7 +219,10 @@ async fn _connect_client(
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
-- 
2.43.0


From bf1b19ebe7dbbef808f611aebf171a1f6678588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 18/31] fix: shutdown reaches all tasks

notify_one wakes up a single task, with clients connected (or just the usual
listener, manager and dispatcher) shutdown() was waiting forever for the
others.
---
 server-lib/src/clients/clientworker.rs | 6 ++++--
 server-lib/src/clients/mod.rs          | 6 ++++--
 server-lib/src/clients/mqttclient.rs   | 8 +++++---
 server-lib/src/clients/noiseclient.rs  | 7 ++++---
 server-lib/src/dispatcher.rs           | 3 ++-
 server-lib/src/lib.rs                  | 8 ++++++++
 6 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b55d91e..021c096 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -1,7 +1,9 @@
 #[cfg(feature = "noise")]
 use super::noiseclient::NoiseClient;
 use super::{mqttclient::MqttClient, Client};
-use crate::{cfg::*, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    cfg::*, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, shutdown_signal,
+};
 use apiformes_packet::prelude::*;
 use std::sync::Arc;
 use tokio::sync::{
@@ -85,7 +87,7 @@ impl ClientWorker {
         let killme = self.internals.killme.clone();
         tokio::select! {
             _ = killme.notified() => (),
-            _ = shutdown.notified() => (),
+            _ = shutdown_signal(&shutdown) => (),
             _ = self.listen_forever() => (),
         }
         self.internals.clientid
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..b984a6e 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -4,7 +4,9 @@ mod mqttclient;
 #[cfg(feature = "noise")]
 mod noiseclient;
 
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, shutdown_signal,
+};
 pub use client::Client;
 use clientworker::ClientWorker;
 use futures::{stream::FuturesUnordered, StreamExt};
@@ -139,7 +141,7 @@ impl ClientManager {
     async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown_signal(&shutdown) => (),
             _ = self.process_forever() => ()
         };
         while self.workers.next().await.is_some() {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index dab3c89..0be55ca 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -1,5 +1,7 @@
 use super::clientworker::{ClientWorker, Connection};
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, shutdown_signal,
+};
 use apiformes_packet::prelude::*;
 use bytes::{Buf, BytesMut};
 use std::io::Cursor;
@@ -125,7 +127,7 @@ impl MqttListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown_signal(&shutdown) => (),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -165,7 +167,7 @@ async fn _connect_client(
     let keep_alive = client.cfg().keep_alive as u64;
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown_signal(&shutdown) => ConnectState::ShuttingDown,
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 1064be5..b7ab641 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -1,6 +1,7 @@
 use super::clientworker::{ClientWorker, Connection};
 use crate::{
     cfg::NOISE_PATTERN, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo,
+    shutdown_signal,
 };
 use apiformes_packet::prelude::*;
 use bytes::{Buf, Bytes, BytesMut};
@@ -132,7 +133,7 @@ impl NoiseListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown_signal(&shutdown) => (),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -184,7 +185,7 @@ async fn _connect_client(
         .unwrap();
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown_signal(&shutdown) => ConnectState::ShuttingDown,
         v = handshake(&mut stream, &mut responder) => v.into(),
         _ = sleep(Duration::new(keep_alive * 3, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
@@ -213,7 +214,7 @@ async fn _connect_client(
         incoming,
     );
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown_signal(&shutdown) => ConnectState::ShuttingDown,
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 33661b4..1e64d9d 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -1,6 +1,7 @@
 #[cfg(feature = "noise")]
 use super::Permeability;
 use super::{
+    shutdown_signal,
     topics::{SubscriptionFlags, TopicsTable},
     Client, MqttServerConfig, ServerError,
 };
@@ -224,7 +225,7 @@ impl Dispatcher {
     async fn run(self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown_signal(&shutdown) => (),
             _ = self.process_forever() => (),
         }
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 783e391..3f6f543 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -21,6 +21,14 @@ use tokio::{
 };
 use topics::TopicsTable;
 use tracing::{error, info, instrument};
+
+/// Waits until the server is shutting down, and passes the signal on to the next task
+/// because `Notify::notify_one` wakes up only one of them
+pub(crate) async fn shutdown_signal(shutdown: &Notify) {
+    shutdown.notified().await;
+    shutdown.notify_one();
+}
+
 pub struct MqttServer {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
     shutdown: Arc<Notify>,
-- 
2.43.0


From da0f99c3a08ff911095da30c26e8340ffd5ac26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 19/31] fix: a connection takes over the identifier of an older
 one

The older connection kept running, and when it ended the newer one was
unregistered instead.
---
 server-lib/src/clients/client.rs |  6 ++++++
 server-lib/src/clients/mod.rs    | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..8c45561 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -52,6 +52,12 @@ impl Client {
         self.killme.notify_one();
     }
 
+    /// True if `clientid` was assigned to this very connection, and not to an older or newer
+    /// connection that uses the same identifier
+    pub(crate) fn is_session(&self, clientid: &Arc<str>) -> bool {
+        Arc::ptr_eq(&self.clientid, clientid)
+    }
+
     pub fn send(&self, packet: Packet) -> Result<(), ServerError> {
         self.outgoing
             .send(packet)
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index b984a6e..5b06968 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -97,10 +97,15 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        self.clients
+        let old = self
+            .clients
             .write()
             .await
             .insert(client.clientid.clone(), client.clone());
+        if let Some(old) = old {
+            info!(clientid = &*client.clientid, "Session taken over");
+            old.killme();
+        }
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
@@ -113,7 +118,11 @@ impl ClientManager {
                 e
             ),
             Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+                let mut clients = self.clients.write().await;
+                // the identifier may belong to a newer connection by now
+                if clients.get(&id).map_or(false, |c| c.is_session(&id)) {
+                    clients.remove(&id);
+                }
             }
             None => (),
         };
-- 
2.43.0


From 780a066310476f419675ea768eaaca96d6648a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 20/31] fix: packets of an old connection are not attributed to
 a newer one

Packets still queued when another connection takes over the identifier were
processed as if the newer connection had sent them: replies went to it, and
messages published over an encrypted connection were handled as unencrypted
ones, bypassing strict permeability.
---
 server-lib/src/dispatcher.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 1e64d9d..d421520 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -39,28 +39,32 @@ impl Dispatcher {
             incoming,
         }
     }
-    async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
+    async fn unimplemented(&mut self, client: &Arc<str>) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client) {
+        if let Some(c) = clients.get(client).filter(|c| c.is_session(client)) {
             if c.send(disconnect).is_err() {
-                error!(clientid = client, "Internal Error: tx closed");
+                error!(clientid = client.as_ref(), "Internal Error: tx closed");
             }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &mut self,
+        client: &Arc<str>,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
         #[cfg(feature = "noise")]
         let strict_encryption = {
             let clients = self.clients.read().await;
-            match clients.get(client) {
+            match clients.get(client).filter(|c| c.is_session(client)) {
                 Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
                 None => {
                     warn!(
-                        clientid = client,
+                        clientid = client.as_ref(),
                         "Client Prematurely shutdown before its publish request could be processed"
                     );
                     return Ok(());
@@ -110,7 +114,7 @@ impl Dispatcher {
         let clients = self.clients.read().await;
 
         for (target, info) in self.topics.get_all_subscribed(topic).await {
-            if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
+            if &target == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
             if let Some(c) = clients.get(&target) {
@@ -186,7 +190,7 @@ impl Dispatcher {
         }
 
         let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client) {
+        if let Some(c) = clients.get(client).filter(|c| c.is_session(client)) {
             if c.send(suback.build()).is_err() {
                 error!(clientid = client.as_ref(), "Internal Error: tx closed");
             }
-- 
2.43.0


From 805a2f983b7de2abd68ed0c7050e021f19d3ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 21/31] fix: subscriptions end with their connection

They stayed in the topics table, so that a client connecting again, with a
clean start, was still receiving messages because of them.
---
 server-lib/src/clients/mod.rs | 18 +++++++++++-------
 server-lib/src/dispatcher.rs  | 14 +++++++++-----
 server-lib/src/lib.rs         | 11 ++++++++---
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 5b06968..b1b7f76 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -6,6 +6,7 @@ mod noiseclient;
 
 use crate::{
     config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, shutdown_signal,
+    topics::TopicsTable,
 };
 pub use client::Client;
 use clientworker::ClientWorker;
@@ -30,6 +31,7 @@ pub struct ClientManager {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
+    topics: Arc<TopicsTable>,
     workers: FuturesUnordered<JoinHandle<Arc<str>>>,
 }
 
@@ -38,6 +40,7 @@ impl ClientManager {
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
         shutdown: Arc<Notify>,
+        topics: Arc<TopicsTable>,
         rx: UnboundedReceiver<ClientWorker>,
     ) -> Self {
         ClientManager {
@@ -45,6 +48,7 @@ impl ClientManager {
             clients,
             cfg,
             shutdown,
+            topics,
             workers: FuturesUnordered::new(),
         }
     }
@@ -53,6 +57,7 @@ impl ClientManager {
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
         shutdown: Arc<Notify>,
+        topics: Arc<TopicsTable>,
         incoming: Sender<PacketInfo>,
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
         let (tx, rx) = unbounded_channel();
@@ -83,7 +88,7 @@ impl ClientManager {
             workers.push(handle)
         }
 
-        let man = ClientManager::new(cfg, clients, shutdown, rx);
+        let man = ClientManager::new(cfg, clients, shutdown, topics, rx);
         workers.push(man.start_processing().await);
         Ok(workers)
     }
@@ -97,21 +102,19 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        let old = self
-            .clients
-            .write()
-            .await
-            .insert(client.clientid.clone(), client.clone());
+        let mut clients = self.clients.write().await;
+        let old = clients.insert(client.clientid.clone(), client.clone());
         if let Some(old) = old {
             info!(clientid = &*client.clientid, "Session taken over");
             old.killme();
+            self.topics.unsubscribe_all(client.clientid.clone()).await;
         }
+        drop(clients);
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
     }
     async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
-        //TODO we don't remove the worker information from the topic file system yet
         match maybe_id {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
@@ -122,6 +125,7 @@ impl ClientManager {
                 // the identifier may belong to a newer connection by now
                 if clients.get(&id).map_or(false, |c| c.is_session(&id)) {
                     clients.remove(&id);
+                    self.topics.unsubscribe_all(id).await;
                 }
             }
             None => (),
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index d421520..1b13e0a 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -156,6 +156,13 @@ impl Dispatcher {
             }
         }
         let mut suback = SubAck::new(ident);
+        // keep the client registered until it is subscribed, its subscriptions are dropped
+        // when it is unregistered
+        let clients = self.clients.read().await;
+        let c = match clients.get(client).filter(|c| c.is_session(client)) {
+            Some(c) => c,
+            None => return Ok(()),
+        };
         for (topic, options) in sub.topics_iter() {
             let qos: QoS = (*options).try_into()?;
             let mut flags = SubscriptionFlags::empty();
@@ -189,11 +196,8 @@ impl Dispatcher {
             }
         }
 
-        let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client).filter(|c| c.is_session(client)) {
-            if c.send(suback.build()).is_err() {
-                error!(clientid = client.as_ref(), "Internal Error: tx closed");
-            }
+        if c.send(suback.build()).is_err() {
+            error!(clientid = client.as_ref(), "Internal Error: tx closed");
         }
         Ok(())
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 3f6f543..b88db25 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -45,10 +45,15 @@ impl MqttServer {
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
         let clients = Arc::new(RwLock::new(HashMap::new()));
-        let mut workers =
-            ClientManager::start(cfg.clone(), clients.clone(), shutdown.clone(), incoming_tx)
-                .await?;
         let topics = Arc::new(TopicsTable::new());
+        let mut workers = ClientManager::start(
+            cfg.clone(),
+            clients.clone(),
+            shutdown.clone(),
+            topics.clone(),
+            incoming_tx,
+        )
+        .await?;
         let dispatcher = Dispatcher::new(
             topics.clone(),
             cfg.clone(),
-- 
2.43.0


From c744fa480230741601c8f6c3096dfa6646d07549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 22/31] fix: never send a client more than its maximum packet
 size

The limit that a client announces was ignored. Packets too large for a noise
message were disconnecting the receiver.
---
 server-lib/src/cfg.rs                  |  3 +++
 server-lib/src/clients/client.rs       |  9 +++++++++
 server-lib/src/clients/clientworker.rs | 17 +++++++++++++++--
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 493e12e..a14e5aa 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -4,4 +4,7 @@ pub const WILDCARD_SUB: bool = false;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
 #[cfg(feature = "noise")]
+/// The largest noise message, less the authentication tag
+pub const NOISE_MAX_PACKET: u32 = 65535 - 16;
+#[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index 8c45561..5a23606 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -2,6 +2,7 @@ use crate::ServerError;
 use apiformes_packet::prelude::Packet;
 use std::sync::Arc;
 use tokio::sync::{mpsc::UnboundedSender, Notify};
+use tracing::warn;
 #[derive(Clone)]
 pub struct Client {
     pub(super) session_expirary: u32,
@@ -59,6 +60,14 @@ impl Client {
     }
 
     pub fn send(&self, packet: Packet) -> Result<(), ServerError> {
+        if packet.frame_len() > self.max_packet_size as usize {
+            // it is discarded as if it was sent, other clients may still accept it
+            warn!(
+                clientid = &*self.clientid,
+                "Discarding a packet that is larger than the client accepts"
+            );
+            return Ok(());
+        }
         self.outgoing
             .send(packet)
             .map_err(|_| ServerError::Misc("outgoing channel is closed".to_owned()))
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 021c096..93c9ac5 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -41,6 +41,14 @@ impl Connection {
             Connection::Noise(_) => true,
         }
     }
+    /// The largest packet that the transport can carry
+    fn max_packet_size(&self) -> u32 {
+        match self {
+            Connection::Mqtt(_) => u32::MAX,
+            #[cfg(feature = "noise")]
+            Connection::Noise(_) => NOISE_MAX_PACKET,
+        }
+    }
 }
 
 pub(super) struct ClientWorker {
@@ -106,8 +114,9 @@ impl ClientWorker {
         incoming: Sender<PacketInfo>,
     ) -> Self {
         let (outgoing_tx, outgoing_rx) = unbounded_channel();
+        let max_packet_size = cfg.max_packet_size.min(c.max_packet_size());
         ClientWorker {
-            internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), cfg.max_packet_size),
+            internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), max_packet_size),
             incoming,
             outgoing: outgoing_rx,
             conn: c,
@@ -243,7 +252,11 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.conn.send(&connack.build()).await
+        let connack = connack.build();
+        if connack.frame_len() > self.internals.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
+        self.conn.send(&connack).await
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From d61f63e8242d8b6f44abc47261cda6fa28fd0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 23/31] fix: refuse shared subscriptions

They were acknowledged as granted, but never matched any message.
---
 server-lib/src/dispatcher.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 1b13e0a..8a323a9 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -173,6 +173,10 @@ impl Dispatcher {
                     continue;
                 }
             }
+            if topic.starts_with("$share/") {
+                suback.add_reason_code(SubAckReasonCode::SharedSubscriptionsNotSupported);
+                continue;
+            }
             match (*options).try_into()? {
                 RetainHandling::DoNotSend => (),
                 _ => {
-- 
2.43.0


From ecfd59682b01c5467847434aa00e82c314970d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 24/31] Expose the topics table to the model checker

Guarded by cfg(apiformes_mc), which no build sets by default.
---
 server-lib/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index b88db25..153c073 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -6,6 +6,12 @@ pub mod error;
 mod packetinfo;
 mod topics;
 
+/// Access to internals for the model checker, see hooks in the verification manifest
+#[cfg(apiformes_mc)]
+pub mod mc {
+    pub use crate::topics::{SubscriptionFlags, SubscriptionInfo, TopicsTable};
+}
+
 use clients::{Client, ClientManager};
 pub use config::MqttServerConfig;
 #[cfg(feature = "noise")]
-- 
2.43.0


From dd9125d50c3963f87250715e7863c1ecb90d413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 25/31] fix: acknowledge a connection only once it is
 registered

Between the acknowledgement and the registration another connection with the same
identifier could be accepted and registered, so that the older one took over the newer.
---
 server-lib/src/clients/clientworker.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 93c9ac5..72e5b19 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -57,6 +57,8 @@ pub(super) struct ClientWorker {
     conn: Connection,
     cfg: Arc<MqttServerConfig>,
     internals: Client,
+    /// Answer to the connect packet, sent once the client is registered
+    connack: Option<Packet>,
 }
 
 impl ClientWorker {
@@ -79,6 +81,15 @@ impl ClientWorker {
         Ok(())
     }
     async fn listen_forever(&mut self) {
+        if let Some(connack) = self.connack.take() {
+            if let Err(e) = self.conn.send(&connack).await {
+                info!(
+                    clientid = &*self.internals.clientid,
+                    "Disconnecting, received error while accepting, {:?}", e
+                );
+                return;
+            }
+        }
         loop {
             if let Err(e) = self.listen().await {
                 info!(
@@ -121,6 +132,7 @@ impl ClientWorker {
             outgoing: outgoing_rx,
             conn: c,
             cfg,
+            connack: None,
         }
     }
 
@@ -256,7 +268,10 @@ impl ClientWorker {
         if connack.frame_len() > self.internals.max_packet_size as usize {
             return Err(ServerError::MaxPacketSizeExceeded);
         }
-        self.conn.send(&connack).await
+        // a client that knows it is connected must not be overtaken by a later connection
+        // that presents the same identifier, hence it is registered first
+        self.connack = Some(connack);
+        Ok(())
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From 6ee7a877d8d0ee81b9b11c4f882954210d67e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 26/31] fix: decode acknowledgements, DISCONNECT and AUTH in
 their short forms

---
 bm/src/client.rs                     |  3 ++-
 packet/src/auth.rs                   | 16 +++++++++++-----
 packet/src/disconnect.rs             | 16 +++++++++++-----
 packet/src/puback.rs                 | 15 ++++++++++++---
 packet/src/pubcomp.rs                | 15 ++++++++++++---
 packet/src/pubrec.rs                 | 15 ++++++++++++---
 packet/src/pubrel.rs                 | 15 ++++++++++++---
 server-lib/src/clients/mqttclient.rs |  3 ++-
 8 files changed, 74 insertions(+), 24 deletions(-)

diff --git a/bm/src/client.rs b/bm/src/client.rs
index 859fd2f..c9b3af5 100644
--- a/bm/src/client.rs
+++ b/bm/src/client.rs
@@ -24,7 +24,8 @@ impl Client {
             let mut cursor = Cursor::new(&self.recv_bytes[..]);
             match Packet::from_bytes(&mut cursor) {
                 Ok(packet) => {
-                    self.recv_bytes.advance(packet.frame_len());
+                    let used = cursor.position() as usize;
+                    self.recv_bytes.advance(used);
                     return Ok(packet);
                 }
                 Err(DataParseError::InsufficientBuffer {
diff --git a/packet/src/auth.rs b/packet/src/auth.rs
index e299bda..fb1576e 100644
--- a/packet/src/auth.rs
+++ b/packet/src/auth.rs
@@ -54,9 +54,6 @@ impl MqttSerialize for Auth {
 impl MqttDeserialize for Auth {
     fn deserialize<T: Buf>(buf: &mut T) -> Result<Self, DataParseError> {
         let length = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;
-        if length < Auth::min_size() - MqttVariableBytesInt::min_size() {
-            return Err(DataParseError::BadAuthMessage);
-        }
         if buf.remaining() < length {
             return Err(DataParseError::InsufficientBuffer {
                 needed: length,
@@ -64,8 +61,17 @@ impl MqttDeserialize for Auth {
             });
         }
         let mut buf = buf.take(length);
-        let reason_code = AuthReasonCode::unchecked_deserialize(&mut buf)?;
-        let props = Properties::deserialize(&mut buf)?;
+        // the reason code and the property length may be left out
+        let reason_code = if buf.has_remaining() {
+            AuthReasonCode::unchecked_deserialize(&mut buf)?
+        } else {
+            AuthReasonCode::Success
+        };
+        let props = if buf.has_remaining() {
+            Properties::deserialize(&mut buf)?
+        } else {
+            Properties::new()
+        };
         if !props.is_valid_for(PropOwner::AUTH) {
             return Err(DataParseError::BadProperty);
         }
diff --git a/packet/src/disconnect.rs b/packet/src/disconnect.rs
index 4efd99b..ded0ef7 100644
--- a/packet/src/disconnect.rs
+++ b/packet/src/disconnect.rs
@@ -55,9 +55,6 @@ impl MqttSerialize for Disconnect {
 impl MqttDeserialize for Disconnect {
     fn deserialize<T: Buf>(buf: &mut T) -> Result<Self, DataParseError> {
         let length = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;
-        if length < Disconnect::min_size() - MqttVariableBytesInt::min_size() {
-            return Err(DataParseError::BadDisconnectMessage);
-        }
         if buf.remaining() < length {
             return Err(DataParseError::InsufficientBuffer {
                 needed: length,
@@ -65,8 +62,17 @@ impl MqttDeserialize for Disconnect {
             });
         }
         let mut buf = buf.take(length);
-        let reason_code = DisconnectReasonCode::unchecked_deserialize(&mut buf)?;
-        let props = Properties::deserialize(&mut buf)?;
+        // the reason code and the property length may be left out
+        let reason_code = if buf.has_remaining() {
+            DisconnectReasonCode::unchecked_deserialize(&mut buf)?
+        } else {
+            DisconnectReasonCode::NormalDisconnection
+        };
+        let props = if buf.has_remaining() {
+            Properties::deserialize(&mut buf)?
+        } else {
+            Properties::new()
+        };
         if !props.is_valid_for(PropOwner::DISCONNECT) {
             return Err(DataParseError::BadProperty);
         }
diff --git a/packet/src/puback.rs b/packet/src/puback.rs
index 8254f37..925618c 100644
--- a/packet/src/puback.rs
+++ b/packet/src/puback.rs
@@ -65,7 +65,8 @@ impl MqttSerialize for PubAck {
 impl MqttDeserialize for PubAck {
     fn deserialize<T: Buf>(buf: &mut T) -> Result<Self, DataParseError> {
         let length = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;
-        if length < PubAck::min_size() - MqttVariableBytesInt::min_size() {
+        // the reason code and the property length may be left out
+        if length < MqttTwoBytesInt::min_size() {
             return Err(DataParseError::BadConnAckMessage);
         }
         if buf.remaining() < length {
@@ -76,8 +77,16 @@ impl MqttDeserialize for PubAck {
         }
         let mut buf = buf.take(length);
         let packet_identifier = MqttTwoBytesInt::unchecked_deserialize(&mut buf)?;
-        let reason_code = PubAckReasonCode::unchecked_deserialize(&mut buf)?;
-        let props = Properties::deserialize(&mut buf)?;
+        let reason_code = if buf.has_remaining() {
+            PubAckReasonCode::unchecked_deserialize(&mut buf)?
+        } else {
+            PubAckReasonCode::Success
+        };
+        let props = if buf.has_remaining() {
+            Properties::deserialize(&mut buf)?
+        } else {
+            Properties::new()
+        };
         if !props.is_valid_for(PropOwner::PUBACK) {
             return Err(DataParseError::BadProperty);
         }
diff --git a/packet/src/pubcomp.rs b/packet/src/pubcomp.rs
index 4ce6dd4..17cc2ab 100644
--- a/packet/src/pubcomp.rs
+++ b/packet/src/pubcomp.rs
@@ -66,7 +66,8 @@ impl MqttSerialize for PubComp {
 impl MqttDeserialize for PubComp {
     fn deserialize<T: Buf>(buf: &mut T) -> Result<Self, DataParseError> {
         let length = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;
-        if length < PubComp::min_size() - MqttVariableBytesInt::min_size() {
+        // the reason code and the property length may be left out
+        if length < MqttTwoBytesInt::min_size() {
             return Err(DataParseError::BadPubCompMessage);
         }
         if buf.remaining() < length {
@@ -77,8 +78,16 @@ impl MqttDeserialize for PubComp {
         }
         let mut buf = buf.take(length);
         let packet_identifier = MqttTwoBytesInt::unchecked_deserialize(&mut buf)?;
-        let reason_code = PubCompReasonCode::unchecked_deserialize(&mut buf)?;
-        let props = Properties::deserialize(&mut buf)?;
+        let reason_code = if buf.has_remaining() {
+            PubCompReasonCode::unchecked_deserialize(&mut buf)?
+        } else {
+            PubCompReasonCode::Success
+        };
+        let props = if buf.has_remaining() {
+            Properties::deserialize(&mut buf)?
+        } else {
+            Properties::new()
+        };
         if !props.is_valid_for(PropOwner::PUBCOMP) {
             return Err(DataParseError::BadProperty);
         }
diff --git a/packet/src/pubrec.rs b/packet/src/pubrec.rs
index 1579c64..fe859cc 100644
--- a/packet/src/pubrec.rs
+++ b/packet/src/pubrec.rs
@@ -65,7 +65,8 @@ impl MqttSerialize for PubRec {
 impl MqttDeserialize for PubRec {
     fn deserialize<T: Buf>(buf: &mut T) -> Result<Self, DataParseError> {
         let length = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;
-        if length < PubRec::min_size() - MqttVariableBytesInt::min_size() {
+        // the reason code and the property length may be left out
+        if length < MqttTwoBytesInt::min_size() {
             return Err(DataParseError::BadPubRecMessage);
         }
         if buf.remaining() < length {
@@ -76,8 +77,16 @@ impl MqttDeserialize for PubRec {
         }
         let mut buf = buf.take(length);
         let packet_identifier = MqttTwoBytesInt::unchecked_deserialize(&mut buf)?;
-        let reason_code = PubRecReasonCode::unchecked_deserialize(&mut buf)?;
-        let props = Properties::deserialize(&mut buf)?;
+        let reason_code = if buf.has_remaining() {
+            PubRecReasonCode::unchecked_deserialize(&mut buf)?
+        } else {
+            PubRecReasonCode::Success
+        };
+        let props = if buf.has_remaining() {
+            Properties::deserialize(&mut buf)?
+        } else {
+            Properties::new()
+        };
         if !props.is_valid_for(PropOwner::PUBREC) {
             return Err(DataParseError::BadProperty);
         }
diff --git a/packet/src/pubrel.rs b/packet/src/pubrel.rs
index 346eae6..f6c3699 100644
--- a/packet/src/pubrel.rs
+++ b/packet/src/pubrel.rs
@@ -65,7 +65,8 @@ impl MqttSerialize for PubRel {
 impl MqttDeserialize for PubRel {
     fn deserialize<T: Buf>(buf: &mut T) -> Result<Self, DataParseError> {
         let length = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;
-        if length < PubRel::min_size() - MqttVariableBytesInt::min_size() {
+        // the reason code and the property length may be left out
+        if length < MqttTwoBytesInt::min_size() {
             return Err(DataParseError::BadPubRelMessage);
         }
         if buf.remaining() < length {
@@ -76,8 +77,16 @@ impl MqttDeserialize for PubRel {
         }
         let mut buf = buf.take(length);
         let packet_identifier = MqttTwoBytesInt::unchecked_deserialize(&mut buf)?;
-        let reason_code = PubRelReasonCode::unchecked_deserialize(&mut buf)?;
-        let props = Properties::deserialize(&mut buf)?;
+        let reason_code = if buf.has_remaining() {
+            PubRelReasonCode::unchecked_deserialize(&mut buf)?
+        } else {
+            PubRelReasonCode::Success
+        };
+        let props = if buf.has_remaining() {
+            Properties::deserialize(&mut buf)?
+        } else {
+            Properties::new()
+        };
         if !props.is_valid_for(PropOwner::PUBREL) {
             return Err(DataParseError::BadProperty);
         }
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0be55ca..9959ad0 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -51,7 +51,8 @@ impl MqttClient {
             let mut cursor = Cursor::new(&self.bytes[..]);
             match Packet::from_bytes(&mut cursor) {
                 Ok(packet) => {
-                    self.bytes.advance(packet.frame_len());
+                    let used = cursor.position() as usize;
+                    self.bytes.advance(used);
                     return Ok(packet);
                 }
                 Err(DataParseError::InsufficientBuffer {
-- 
2.43.0


From 31c2e75f9800a7293a01f11c4f8c1c8e2c488703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 27/31] fix: several subscription identifiers in a PUBLISH

---
 packet/src/props.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 2e422de..01e5be1 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -57,6 +57,10 @@ impl Properties {
             return Err(DataParseError::BadProperty);
         }
         self.valid &= filter;
+        if key == Property::SubscriptionIdentifier && self.props.contains_key(&key) {
+            // 3.8.2.1.2, only a PUBLISH may carry more than one
+            self.valid &= PropOwner::PUBLISH;
+        }
         match self.unchecked_insert(key, value, multiple) {
             Some(_) => Err(DataParseError::BadProperty),
             None => Ok(()),
@@ -98,6 +102,8 @@ impl Properties {
             return Err(DataParseError::BadProperty);
         }
         self.valid &= filter;
+        let multiple =
+            multiple && (key != Property::SubscriptionIdentifier || ty == PropOwner::PUBLISH);
         self.unchecked_insert(key, value, multiple);
         Ok(())
     }
@@ -230,7 +236,7 @@ impl Property {
             Property::SubscriptionIdentifier => (
                 PropOwner::PUBLISH | PropOwner::SUBSCRIBE,
                 MqttPropValueType::VarInt,
-                false,
+                true,
             ),
             Property::SessionExpiryInterval => (
                 PropOwner::CONNECT | PropOwner::CONNACK | PropOwner::DISCONNECT,
-- 
2.43.0


From 77070e35db8a916ea1ae36ae726d111fdd86d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 28/31] fix: topics with many levels do not overflow the stack

visit and collect_subs recursed over the levels of a topic, and so did
dropping the table. A subscription to a filter of a few thousand levels,
6 KiB, ended the process.
---
 server-lib/src/topics.rs | 91 +++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 2b450b0..64514ef 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -1,5 +1,4 @@
 use apiformes_packet::prelude::*;
-use async_recursion::async_recursion;
 use bitflags::bitflags;
 use futures::future::BoxFuture;
 use std::collections::{hash_map::Entry, HashMap, HashSet};
@@ -57,7 +56,7 @@ struct BlockInner {
     subscribers: RwLock<HashMap<ClientId, SubscriptionInfo>>,
     // the `+` wild card is stored in here
     // TODO lazy static the `+` subtopic
-    sub_blocks: HashMap<SubTopic, Block>,
+    sub_blocks: HashMap<SubTopic, Arc<Block>>,
 }
 
 impl Default for BlockInner {
@@ -121,6 +120,18 @@ impl BlockInner {
     }
 }
 
+/// A filter may have tens of thousands of levels, so nothing here may recurse over them
+impl Drop for BlockInner {
+    fn drop(&mut self) {
+        let mut blocks: Vec<_> = self.sub_blocks.drain().collect();
+        while let Some((_, block)) = blocks.pop() {
+            if let Ok(mut block) = Arc::try_unwrap(block) {
+                blocks.extend(block.inner.get_mut().sub_blocks.drain());
+            }
+        }
+    }
+}
+
 struct Block {
     inner: RwLock<BlockInner>,
 }
@@ -142,57 +153,59 @@ impl Block {
         self.inner.write().await
     }
 
-    #[async_recursion]
     async fn visit<'a, S>(
-        &self,
-        mut sections: S,
+        self: &Arc<Self>,
+        sections: S,
         create: bool,
-        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send + 'async_recursion,
+        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send,
     ) where
         S: Iterator<Item = &'a str> + Send,
     {
-        let x = sections.next();
-        trace!("Visiting {:?}", x);
-        match x {
-            Some("#") => run(self, true).await,
-            None => run(self, false).await,
-            Some(section) => {
-                if create {
-                    self.create_if_not_existing(section).await;
-                }
-                let raii = self.read().await;
-                if let Some(sub_block) = raii.sub_blocks.get(section) {
-                    sub_block.visit(sections, create, run).await;
-                }
+        let mut block = self.clone();
+        for section in sections {
+            trace!("Visiting {:?}", section);
+            if section == "#" {
+                return run(&block, true).await;
             }
+            if create {
+                block.create_if_not_existing(section).await;
+            }
+            let sub_block = block.read().await.sub_blocks.get(section).cloned();
+            block = match sub_block {
+                Some(sub_block) => sub_block,
+                None => return,
+            };
         }
+        run(&block, false).await
     }
 
-    #[async_recursion]
     async fn collect_subs<'a, S>(
-        &self,
+        self: &Arc<Self>,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
-        mut sections: S,
+        sections: S,
         wildcards: bool,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
-        let raii = self.read().await;
-        if wildcards {
-            raii.collect_hash_wildcard(subs).await;
-        }
-        if let Some(section) = sections.next() {
-            // somewhere in the middle
-            trace!("in collect_subs, section = `{}`", section);
-            if let (true, Some(sub_block)) = (wildcards, raii.sub_blocks.get("+")) {
-                sub_block.collect_subs(subs, sections.clone(), true).await;
+        let mut blocks = vec![(self.clone(), sections, wildcards)];
+        while let Some((block, mut sections, wildcards)) = blocks.pop() {
+            let raii = block.read().await;
+            if wildcards {
+                raii.collect_hash_wildcard(subs).await;
             }
-            if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections, true).await;
+            if let Some(section) = sections.next() {
+                // somewhere in the middle
+                trace!("in collect_subs, section = `{}`", section);
+                if let (true, Some(sub_block)) = (wildcards, raii.sub_blocks.get("+")) {
+                    blocks.push((sub_block.clone(), sections.clone(), true));
+                }
+                if let Some(sub_block) = raii.sub_blocks.get(section) {
+                    blocks.push((sub_block.clone(), sections, true));
+                }
+            } else {
+                // reached the end
+                raii.collect_subscribers(subs).await;
             }
-        } else {
-            // reached the end
-            raii.collect_subscribers(subs).await;
         }
     }
 
@@ -205,7 +218,7 @@ impl Block {
                 .await
                 .sub_blocks
                 .entry(Arc::from(subtopic))
-                .or_insert_with(Block::new);
+                .or_insert_with(|| Arc::new(Block::new()));
         }
     }
 }
@@ -216,7 +229,7 @@ impl Block {
 /// there must always be equivalent entry in `topics`. As such, when we insert
 /// we insert into `topics` first but removal is done in reverse order
 pub struct TopicsTable {
-    root_block: Block,
+    root_block: Arc<Block>,
     reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,
     //TODO we can have slab allocator for Block here
     // and another slab allocator for subscription info
@@ -236,7 +249,7 @@ impl Default for TopicsTable {
 impl TopicsTable {
     pub fn new() -> Self {
         TopicsTable {
-            root_block: Block::new(),
+            root_block: Arc::new(Block::new()),
             reverse_index: RwLock::new(HashMap::new()),
         }
     }
-- 
2.43.0


From 33eacf4f48471c9b5b69f3ba632199d568dbf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 29/31] fix: a broker that cannot listen on all addresses
 starts nothing

---
 server-lib/src/clients/mod.rs | 43 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index b1b7f76..19ba663 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -62,29 +62,40 @@ impl ClientManager {
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
         let (tx, rx) = unbounded_channel();
 
+        // nothing is spawned before all addresses are bound, nobody could stop it on an error
+        let mqtt_listener = match cfg.mqtt_socketaddr {
+            Some(saddr) => Some((TcpListener::bind(saddr).await?, saddr)),
+            None => None,
+        };
+        #[cfg(feature = "noise")]
+        let noise_listener = match cfg.noise_socketaddr {
+            Some(saddr) => Some((TcpListener::bind(saddr).await?, saddr)),
+            None => None,
+        };
+
         let mut workers = Vec::new();
-        if let Some(saddr) = cfg.mqtt_socketaddr {
+        if let Some((listener, saddr)) = mqtt_listener {
             let handle = ClientManager::incomming_mqtt_listener(
+                listener,
                 &saddr,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming.clone(),
-            )
-            .await?;
+            );
             workers.push(handle)
         }
 
         #[cfg(feature = "noise")]
-        if let Some(saddr) = cfg.noise_socketaddr {
+        if let Some((listener, saddr)) = noise_listener {
             let handle = ClientManager::incomming_noise_listener(
+                listener,
                 &saddr,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming,
-            )
-            .await?;
+            );
             workers.push(handle)
         }
 
@@ -165,44 +176,44 @@ impl ClientManager {
         info!("Starting clients manager");
         tokio::spawn(async move { self.run().await })
     }
-    async fn incomming_mqtt_listener(
+    fn incomming_mqtt_listener(
+        listener: TcpListener,
         saddr: &SocketAddr,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
             SocketAddr = &*format!("{}", saddr),
             "Starting listener for incoming unencrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             MqttListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 
     #[cfg(feature = "noise")]
-    async fn incomming_noise_listener(
+    fn incomming_noise_listener(
+        listener: TcpListener,
         saddr: &SocketAddr,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
             SocketAddr = &*format!("{}", saddr),
             "Starting listener for incoming encrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             NoiseListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 }
-- 
2.43.0


From 53a7e407df2b5a29757658d51485c883d1527675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 30/31] fix: the topics table keeps blocks nobody needs anymore

---
 server-lib/src/topics.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 64514ef..12a5da9 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -73,6 +73,11 @@ impl BlockInner {
             sub_blocks: HashMap::new(),
         }
     }
+    fn is_empty(&mut self) -> bool {
+        self.hash_wildcard.get_mut().is_empty()
+            && self.subscribers.get_mut().is_empty()
+            && self.sub_blocks.is_empty()
+    }
     async fn insert_into_hash(&self, clientid: Arc<str>, qos: QoS, flags: SubscriptionFlags) {
         trace!("Inserting {} into hash", clientid);
         let info = SubscriptionInfo::new(qos, flags);
@@ -230,6 +235,8 @@ impl Block {
 /// we insert into `topics` first but removal is done in reverse order
 pub struct TopicsTable {
     root_block: Arc<Block>,
+    /// Adding a subscription holds this for reading, removing blocks for writing
+    blocks_in_use: RwLock<()>,
     reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,
     //TODO we can have slab allocator for Block here
     // and another slab allocator for subscription info
@@ -250,6 +257,7 @@ impl TopicsTable {
     pub fn new() -> Self {
         TopicsTable {
             root_block: Arc::new(Block::new()),
+            blocks_in_use: RwLock::new(()),
             reverse_index: RwLock::new(HashMap::new()),
         }
     }
@@ -287,6 +295,7 @@ impl TopicsTable {
         qos: QoS,
         flags: SubscriptionFlags,
     ) {
+        let _raii = self.blocks_in_use.read().await;
         self.visit(topic, true, |block: &Block, is_hash: bool| {
             Box::pin(async move {
                 if is_hash {
@@ -351,9 +360,32 @@ impl TopicsTable {
         })
         .await
     }
+    /// Removes the blocks on the way to `topic` that nobody needs anymore
+    async fn prune(&self, topic: &str) {
+        let _raii = self.blocks_in_use.write().await;
+        let mut block = self.root_block.clone();
+        let mut parents = Vec::new();
+        for section in self.topic_to_subtopics(topic) {
+            let sub_block = block.read().await.sub_blocks.get(section).cloned();
+            match sub_block {
+                Some(sub_block) => {
+                    parents.push((std::mem::replace(&mut block, sub_block), section))
+                }
+                None => break,
+            }
+        }
+        while let Some((parent, section)) = parents.pop() {
+            if !block.write().await.is_empty() {
+                break;
+            }
+            parent.write().await.sub_blocks.remove(section);
+            block = parent;
+        }
+    }
     pub async fn unsubscribe(&self, clientid: Arc<str>, topic: &str) {
         self.reverse_index_remove(&clientid, topic).await;
         self.topic_remove(clientid, topic).await;
+        self.prune(topic).await;
     }
     pub async fn reverse_index_remove_all(&self, clientid: &str) -> Option<HashSet<SubTopic>> {
         self.reverse_index.write().await.remove(clientid)
@@ -361,7 +393,8 @@ impl TopicsTable {
     pub async fn unsubscribe_all(&self, clientid: Arc<str>) {
         if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
             for topic in topics {
-                self.topic_remove(clientid.clone(), &topic).await
+                self.topic_remove(clientid.clone(), &topic).await;
+                self.prune(&topic).await;
             }
         }
     }
-- 
2.43.0


From a9ad3803e194218994aebc147542269d5cdc8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 31/31] fix: a frame longer than a noise message is refused
 before memory is reserved for it

---
 server-lib/src/cfg.rs                 |  4 +++-
 server-lib/src/clients/noiseclient.rs | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index a14e5aa..6219dac 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -4,7 +4,9 @@ pub const WILDCARD_SUB: bool = false;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
 #[cfg(feature = "noise")]
+pub const NOISE_MAX_MESSAGE: usize = 65535;
+#[cfg(feature = "noise")]
 /// The largest noise message, less the authentication tag
-pub const NOISE_MAX_PACKET: u32 = 65535 - 16;
+pub const NOISE_MAX_PACKET: u32 = NOISE_MAX_MESSAGE as u32 - 16;
 #[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index b7ab641..00c1156 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -1,6 +1,9 @@
 use super::clientworker::{ClientWorker, Connection};
 use crate::{
-    cfg::NOISE_PATTERN, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo,
+    cfg::{NOISE_MAX_MESSAGE, NOISE_PATTERN},
+    config::MqttServerConfig,
+    error::ServerError,
+    packetinfo::PacketInfo,
     shutdown_signal,
 };
 use apiformes_packet::prelude::*;
@@ -177,7 +180,10 @@ async fn _connect_client(
     incoming: Sender<PacketInfo>,
 ) {
     let keep_alive = cfg.keep_alive as u64;
-    let mut stream = Framed::new(stream, LengthDelimitedCodec::new());
+    let codec = LengthDelimitedCodec::builder()
+        .max_frame_length(NOISE_MAX_MESSAGE)
+        .new_codec();
+    let mut stream = Framed::new(stream, codec);
 
     let mut responder = snow::Builder::new(NOISE_PATTERN.parse().unwrap())
         .local_private_key(&cfg.private_key[..])
-- 
2.43.0

