From 7846a7e4e1b41bbc141cc8acd66875e356062947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 01/34] fix: decode strings that span several buffer segments

---
 packet/src/data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..320b52d 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,10 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        // the buffer may not be contiguous, so chunk() is not enough here
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From 3eae677c4b5c6c7aa8cb8a079ca99fbb9eac8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 02/34] fix: reject over-long variable byte integers

---
 packet/src/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index 320b52d..7c4657c 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -248,6 +248,10 @@ impl MqttDeserialize for MqttVariableBytesInt {
             }
             multiplier += 7;
             if encoded_byte & 0x80 == 0 {
+                // 1.5.5: the encoded value must use the minimum number of bytes
+                if encoded_byte == 0 && multiplier > 7 {
+                    return Err(DataParseError::BadMqttVariableBytesInt);
+                }
                 break;
             }
         }
-- 
2.43.0


From 96c875814d39b08ce9240cf093fb216f59a67b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 03/34] fix: into_bool reads boolean properties

---
 packet/src/props.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..2e422de 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,7 +400,7 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
+        if let MqttPropValueInner::Bool(i) = &self.0 {
             Some(i.inner() == 1)
         } else {
             None
-- 
2.43.0


From e8b5502b19875f77a5a6b4061ca5f7438fc04930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 04/34] fix: a refused user name or password leaves the connect
 flags alone

---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From 4ac526023f6a5483c705e7afa9c51cbbe2099488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 05/34] fix: lowering a publish to QoS 0 drops its packet
 identifier

---
 packet/src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..b86ec4a 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -124,6 +124,10 @@ impl Publish {
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
         self.flags |= qos.into();
+        // 2.2.1: a QoS 0 publish carries no packet identifier
+        if qos == QoS::QoS0 {
+            self.packet_identifier = None;
+        }
     }
     pub fn qos(&self) -> QoS {
         // why unwrap is justified here,
-- 
2.43.0


From 27573e5c71c24e8c1d574e29965a8715e2485310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 06/34] fix: decode exactly the frame the fixed header declares

---
 packet/src/packet.rs      | 32 ++++++++++++++++++++++++++++++++
 packet/src/packet_type.rs | 20 ++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..4a85828 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -4,6 +4,7 @@ use super::{
     puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
     suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
 };
+use crate::data::MqttVariableBytesInt;
 use bytes::{Buf, BufMut};
 
 #[derive(Clone)]
@@ -170,6 +171,37 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        if packet_type == PacketType::Reserved {
+            return Err(DataParseError::BadPacketType);
+        }
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let needed = length.inner() as usize;
+        if buf.remaining() < needed {
+            return Err(DataParseError::InsufficientBuffer {
+                needed,
+                available: buf.remaining(),
+            });
+        }
+        // the frame is complete: show the packet its length field and its own bytes only
+        let mut header = Vec::with_capacity(length.size());
+        length.serialize(&mut header);
+        let mut frame = header.chain(buf.take(needed));
+        match Packet::deserialize_frame(&packet_type, byte1, &mut frame) {
+            Ok(packet) if frame.remaining() == 0 => Ok(packet),
+            // bytes left over, or fields that run past the end of a complete frame
+            Ok(_) | Err(DataParseError::InsufficientBuffer { .. }) => {
+                Err(packet_type.bad_message())
+            }
+            Err(e) => Err(e),
+        }
+    }
+}
+impl Packet {
+    fn deserialize_frame<T: Buf>(
+        packet_type: &PacketType,
+        byte1: u8,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
diff --git a/packet/src/packet_type.rs b/packet/src/packet_type.rs
index c438bcd..bded41a 100644
--- a/packet/src/packet_type.rs
+++ b/packet/src/packet_type.rs
@@ -70,6 +70,26 @@ impl PacketType {
         packet_type.check_flags(data)?;
         Ok(packet_type)
     }
+    pub(super) fn bad_message(&self) -> DataParseError {
+        match self {
+            PacketType::Reserved => DataParseError::BadPacketType,
+            PacketType::Connect => DataParseError::BadConnectMessage,
+            PacketType::ConnAck => DataParseError::BadConnAckMessage,
+            PacketType::Publish => DataParseError::BadPublishMessage,
+            PacketType::PubAck => DataParseError::BadPubAckMessage,
+            PacketType::PubRec => DataParseError::BadPubRecMessage,
+            PacketType::PubRel => DataParseError::BadPubRelMessage,
+            PacketType::PubComp => DataParseError::BadPubCompMessage,
+            PacketType::Subscribe => DataParseError::BadSubscribeMessage,
+            PacketType::SubAck => DataParseError::BadSubAckMessage,
+            PacketType::Unsubscribe => DataParseError::BadUnsubscribeMessage,
+            PacketType::UnsubAck => DataParseError::BadUnsubAckMessage,
+            PacketType::PingReq => DataParseError::BadPing,
+            PacketType::PingRes => DataParseError::BadPing,
+            PacketType::Disconnect => DataParseError::BadDisconnectMessage,
+            PacketType::Auth => DataParseError::BadAuthMessage,
+        }
+    }
     pub(super) fn fixed_flags(&self) -> u8 {
         match self {
             PacketType::PubRel => 0b0010,
-- 
2.43.0


From 301d45bb40d7b62cac35b85c23f7c876641e27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 07/34] fix: a will topic is a topic name and holds no
 wildcards

---
 packet/src/connect.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index 6da27e0..699efab 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -7,6 +7,7 @@ use super::{
     parsable::*,
     props::{MqttPropValue, PropOwner, Properties, Property},
     qos::QoS,
+    topic::MqttTopic,
 };
 use bitflags::bitflags;
 use bytes::{Buf, BufMut, Bytes};
@@ -87,16 +88,24 @@ pub struct Will {
     // 3.1.3.2 Will Properties
     props: Properties,
     // 3.1.3.3 Will Topic
-    topic: MqttUtf8String,
+    topic: MqttTopic,
     // 3.1.3.4 Will Payload
     payload: MqttBinaryData,
 }
 
 impl Will {
+    // the will topic is a topic name, 4.7.1: no wildcards
+    fn check_topic(topic: MqttTopic) -> Result<MqttTopic, DataParseError> {
+        if topic.is_wildcard() {
+            Err(DataParseError::BadTopic)
+        } else {
+            Ok(topic)
+        }
+    }
     pub fn new<T: Buf>(topic: Arc<str>, payload: T) -> Result<Self, DataParseError> {
         Ok(Will {
             props: Properties::new(),
-            topic: MqttUtf8String::new(topic)?,
+            topic: Will::check_topic(MqttTopic::new(topic)?)?,
             payload: MqttBinaryData::new(payload)?,
         })
     }
@@ -113,7 +122,7 @@ impl Will {
         self.topic.inner()
     }
     pub fn set_topic(&mut self, topic: Arc<str>) -> Result<(), DataParseError> {
-        self.topic = MqttUtf8String::new(topic)?;
+        self.topic = Will::check_topic(MqttTopic::new(topic)?)?;
         Ok(())
     }
     pub fn payload(&mut self) -> &Bytes {
@@ -137,7 +146,7 @@ impl MqttDeserialize for Will {
         if props.is_valid_for(PropOwner::WILL) {
             Ok(Will {
                 props,
-                topic: MqttUtf8String::deserialize(buf)?,
+                topic: Will::check_topic(MqttTopic::deserialize(buf)?)?,
                 payload: MqttBinaryData::deserialize(buf)?,
             })
         } else {
@@ -147,7 +156,7 @@ impl MqttDeserialize for Will {
 }
 impl MqttSize for Will {
     fn min_size() -> usize {
-        Properties::min_size() + MqttUtf8String::min_size() + MqttBinaryData::min_size()
+        Properties::min_size() + MqttTopic::min_size() + MqttBinaryData::min_size()
     }
     fn size(&self) -> usize {
         self.props.size() + self.topic.size() + self.payload.size()
-- 
2.43.0


From a73ecde1defd91bc357c32888a5e9b369f3949f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 08/34] fix: a closed plain connection ends its worker

---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From e2a89079bfa9bd81f225eca40c899a664cf8164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 09/34] fix: dispatcher survives a client that is gone before
 its request is refused

---
 server-lib/src/dispatcher.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..bed886f 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -41,9 +41,13 @@ impl Dispatcher {
     async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        match clients.get(client) {
+            Some(c) => {
+                if c.send(disconnect).is_err() {
+                    error!(clientid = client, "Internal Error: tx closed");
+                }
+            }
+            None => warn!(clientid = client, "Client is gone already"),
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
-- 
2.43.0


From 1b95aef51602a03866e0964b5301f33f2f42de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 10/34] fix: retain as published does not matter for
 publications that are not retained

---
 server-lib/src/dispatcher.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index bed886f..5bb36dc 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -115,9 +115,6 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
-- 
2.43.0


From 590c370de6d4932e5eb4d1517d5d6ab121e29826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 11/34] fix: concurrent subscriptions do not overwrite each
 other's topic blocks

---
 server-lib/src/topics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..84a531d 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -194,11 +194,12 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
+            // somebody else may have created it in the meantime
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(Block::new);
         }
     }
 }
-- 
2.43.0


From f2feb633b030e9efb9061c821ac4e0eb9fde5434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 12/34] fix: first level wildcards do not match topics starting
 with $

---
 server-lib/src/topics.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 84a531d..62e2ffd 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -169,19 +169,24 @@ impl Block {
         &self,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
         mut sections: S,
+        wildcards: bool,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
         let raii = self.read().await;
-        raii.collect_hash_wildcard(subs).await;
+        if wildcards {
+            raii.collect_hash_wildcard(subs).await;
+        }
         if let Some(section) = sections.next() {
             // somewhere in the middle
             trace!("in collect_subs, section = `{}`", section);
-            if let Some(sub_block) = raii.sub_blocks.get("+") {
-                sub_block.collect_subs(subs, sections.clone()).await;
+            if wildcards {
+                if let Some(sub_block) = raii.sub_blocks.get("+") {
+                    sub_block.collect_subs(subs, sections.clone(), true).await;
+                }
             }
             if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections).await;
+                sub_block.collect_subs(subs, sections, true).await;
             }
         } else {
             // reached the end
@@ -353,7 +358,10 @@ impl TopicsTable {
             "collected_sections {:?}",
             sections.clone().collect::<Vec<_>>()
         );
-        self.root_block.collect_subs(&mut subs, sections).await;
+        // 4.7.2: a wildcard in the first level does not match topics that start with `$`
+        self.root_block
+            .collect_subs(&mut subs, sections, !topic.starts_with('$'))
+            .await;
         subs
     }
 }
-- 
2.43.0


From b117a403d0fccb3402f99178a69976043f94ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 13/34] fix: the dispatcher queue holds at least one element

---
 server-lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..783e391 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -32,7 +32,7 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From fb1cb35ba5f8e793c2ac7b99a36932646fbf981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 14/34] fix: an encrypted message is exactly one packet within
 the size limit

---
 server-lib/src/clients/noiseclient.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..9b44d2a 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -23,6 +23,7 @@ pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
     saddr: SocketAddr,
     crypto: TransportState,
+    max_packet_size: u32,
 }
 
 impl fmt::Debug for NoiseClient {
@@ -36,11 +37,13 @@ impl NoiseClient {
         stream: Framed<TcpStream, LengthDelimitedCodec>,
         saddr: SocketAddr,
         crypto: TransportState,
+        max_packet_size: u32,
     ) -> Self {
         NoiseClient {
             stream,
             saddr,
             crypto,
+            max_packet_size,
         }
     }
     pub async fn recv(&mut self) -> Result<Packet, ServerError> {
@@ -52,10 +55,15 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
+        if size > self.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
 
-        let mut buf: &[u8] = message.as_ref();
+        // the buffer is longer than the message by the size of the authentication tag
+        let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
+            Ok(_) if buf.has_remaining() => Err(DataParseError::BadPacketType.into()),
             Ok(packet) => Ok(packet),
             Err(DataParseError::InsufficientBuffer {
                 needed: _,
@@ -194,7 +202,7 @@ async fn _connect_client(
     }
     let transport = responder.into_transport_mode().unwrap();
 
-    let nc = NoiseClient::new(stream, saddr, transport);
+    let nc = NoiseClient::new(stream, saddr, transport, cfg.max_packet_size);
     let mut client = ClientWorker::new(
         Connection::Noise(Box::new(nc)),
         cfg,
-- 
2.43.0


From a96c6de1fc40625088f379517ffec842ce8331b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 15/34] fix: logging a user property does not panic

---
 server-lib/src/clients/clientworker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..b55d91e 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From d69de938fa6ed9e7885ba74bb2a9ece049f770b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 16/34] fix: the subscriptions of a client end with its
 connection

---
 server-lib/src/clients/mod.rs | 17 +++++++++++++----
 server-lib/src/dispatcher.rs  | 15 ++++++++++-----
 server-lib/src/lib.rs         | 11 ++++++++---
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..c76f813 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -4,7 +4,9 @@ mod mqttclient;
 #[cfg(feature = "noise")]
 mod noiseclient;
 
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, topics::TopicsTable,
+};
 pub use client::Client;
 use clientworker::ClientWorker;
 use futures::{stream::FuturesUnordered, StreamExt};
@@ -26,6 +28,7 @@ use tracing::{error, info, instrument, warn};
 pub struct ClientManager {
     rx: UnboundedReceiver<ClientWorker>,
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+    topics: Arc<TopicsTable>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
     workers: FuturesUnordered<JoinHandle<Arc<str>>>,
@@ -35,12 +38,14 @@ impl ClientManager {
     fn new(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         rx: UnboundedReceiver<ClientWorker>,
     ) -> Self {
         ClientManager {
             rx,
             clients,
+            topics,
             cfg,
             shutdown,
             workers: FuturesUnordered::new(),
@@ -50,6 +55,7 @@ impl ClientManager {
     pub async fn start(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         incoming: Sender<PacketInfo>,
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
@@ -81,7 +87,7 @@ impl ClientManager {
             workers.push(handle)
         }
 
-        let man = ClientManager::new(cfg, clients, shutdown, rx);
+        let man = ClientManager::new(cfg, clients, topics, shutdown, rx);
         workers.push(man.start_processing().await);
         Ok(workers)
     }
@@ -104,14 +110,17 @@ impl ClientManager {
         true
     }
     async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
-        //TODO we don't remove the worker information from the topic file system yet
         match maybe_id {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
                 e
             ),
             Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+                // the dispatcher subscribes under the read lock and only for clients that are
+                // here, so nothing can be subscribed for this client after this
+                let mut clients = self.clients.write().await;
+                clients.remove(&id);
+                self.topics.unsubscribe_all(id).await;
             }
             None => (),
         };
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 5bb36dc..b62c5c7 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -153,6 +153,14 @@ impl Dispatcher {
                 ),
             }
         }
+        let clients = self.clients.read().await;
+        let subscriber = match clients.get(client) {
+            Some(c) => c,
+            None => {
+                warn!(clientid = client.as_ref(), "Client is gone already");
+                return Ok(());
+            }
+        };
         let mut suback = SubAck::new(ident);
         for (topic, options) in sub.topics_iter() {
             let qos: QoS = (*options).try_into()?;
@@ -187,11 +195,8 @@ impl Dispatcher {
             }
         }
 
-        let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client) {
-            if c.send(suback.build()).is_err() {
-                error!(clientid = client.as_ref(), "Internal Error: tx closed");
-            }
+        if subscriber.send(suback.build()).is_err() {
+            error!(clientid = client.as_ref(), "Internal Error: tx closed");
         }
         Ok(())
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 783e391..933a73c 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -37,10 +37,15 @@ impl MqttServer {
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
         let clients = Arc::new(RwLock::new(HashMap::new()));
-        let mut workers =
-            ClientManager::start(cfg.clone(), clients.clone(), shutdown.clone(), incoming_tx)
-                .await?;
         let topics = Arc::new(TopicsTable::new());
+        let mut workers = ClientManager::start(
+            cfg.clone(),
+            clients.clone(),
+            topics.clone(),
+            shutdown.clone(),
+            incoming_tx,
+        )
+        .await?;
         let dispatcher = Dispatcher::new(
             topics.clone(),
             cfg.clone(),
-- 
2.43.0


From f6b6c6ac2559cf0bd2d5b60d55db3f3a6754be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 17/34] fix: a client identifier belongs to its newest
 connection

---
 server-lib/src/clients/client.rs |  6 ++++++
 server-lib/src/clients/mod.rs    | 18 ++++++++++++------
 server-lib/src/dispatcher.rs     | 28 +++++++++++++++++-----------
 3 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..c6a2454 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -44,6 +44,12 @@ impl Client {
     pub fn encrypted(&self) -> bool {
         self.encrypted
     }
+
+    /// A client identifier may be taken over by a newer connection, every connection
+    /// has its own allocation of it.
+    pub(crate) fn is_connection(&self, clientid: &Arc<str>) -> bool {
+        Arc::ptr_eq(&self.clientid, clientid)
+    }
     pub fn shutdown(self) {
         self.shutdown.notify_one();
     }
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index c76f813..be057ae 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -101,10 +101,13 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        self.clients
-            .write()
-            .await
-            .insert(client.clientid.clone(), client.clone());
+        {
+            let mut clients = self.clients.write().await;
+            if let Some(old) = clients.insert(client.clientid.clone(), client.clone()) {
+                self.topics.unsubscribe_all(client.clientid.clone()).await;
+                old.killme();
+            }
+        }
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
@@ -119,8 +122,11 @@ impl ClientManager {
                 // the dispatcher subscribes under the read lock and only for clients that are
                 // here, so nothing can be subscribed for this client after this
                 let mut clients = self.clients.write().await;
-                clients.remove(&id);
-                self.topics.unsubscribe_all(id).await;
+                // unless a newer connection has taken over the identifier
+                if clients.get(&id).map_or(false, |c| c.is_connection(&id)) {
+                    clients.remove(&id);
+                    self.topics.unsubscribe_all(id).await;
+                }
             }
             None => (),
         };
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b62c5c7..c3d35db 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -38,31 +38,37 @@ impl Dispatcher {
             incoming,
         }
     }
-    async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
+    async fn unimplemented(&mut self, client: &Arc<str>) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
         match clients.get(client) {
-            Some(c) => {
+            Some(c) if c.is_connection(client) => {
                 if c.send(disconnect).is_err() {
-                    error!(clientid = client, "Internal Error: tx closed");
+                    error!(clientid = client.as_ref(), "Internal Error: tx closed");
                 }
             }
-            None => warn!(clientid = client, "Client is gone already"),
+            _ => warn!(clientid = client.as_ref(), "Client is gone already"),
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &mut self,
+        client: &Arc<str>,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
         #[cfg(feature = "noise")]
         let strict_encryption = {
             let clients = self.clients.read().await;
             match clients.get(client) {
-                Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
-                None => {
+                Some(c) if c.is_connection(client) => {
+                    c.encrypted() && self.cfg.channel_permeability == Permeability::Strict
+                }
+                _ => {
                     warn!(
-                        clientid = client,
+                        clientid = client.as_ref(),
                         "Client Prematurely shutdown before its publish request could be processed"
                     );
                     return Ok(());
@@ -112,7 +118,7 @@ impl Dispatcher {
         let clients = self.clients.read().await;
 
         for (target, info) in self.topics.get_all_subscribed(topic).await {
-            if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
+            if target == *client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
             if let Some(c) = clients.get(&target) {
@@ -155,8 +161,8 @@ impl Dispatcher {
         }
         let clients = self.clients.read().await;
         let subscriber = match clients.get(client) {
-            Some(c) => c,
-            None => {
+            Some(c) if c.is_connection(client) => c,
+            _ => {
                 warn!(clientid = client.as_ref(), "Client is gone already");
                 return Ok(());
             }
-- 
2.43.0


From b50331d800f4f6107814a239b71be44819797614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 18/34] fix: the connection is closed after a disconnect packet

---
 server-lib/src/clients/clientworker.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b55d91e..5479263 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -64,6 +64,9 @@ impl ClientWorker {
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
                 self.conn.send(&packet).await?;
+                if let Packet::Disconnect(_) = packet {
+                    return Err(ServerError::Misc("Disconnected by the server".to_owned()));
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 72750cc7fa92de20079948a15e0c67d6d977317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 19/34] fix: shutting down reaches every task

---
 server-lib/src/clients/clientworker.rs |  2 +-
 server-lib/src/clients/mod.rs          |  2 +-
 server-lib/src/clients/mqttclient.rs   |  8 ++++++--
 server-lib/src/clients/noiseclient.rs  | 14 +++++++++++---
 server-lib/src/dispatcher.rs           |  2 +-
 server-lib/src/lib.rs                  |  1 +
 6 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 5479263..aa7d9b0 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -88,7 +88,7 @@ impl ClientWorker {
         let killme = self.internals.killme.clone();
         tokio::select! {
             _ = killme.notified() => (),
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
         self.internals.clientid
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index be057ae..010cb4c 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -154,7 +154,7 @@ impl ClientManager {
     async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => ()
         };
         while self.workers.next().await.is_some() {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..990b9f8 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -125,7 +125,7 @@ impl MqttListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -172,7 +172,11 @@ async fn _connect_client(
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            shutdown.notify_one();
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 9b44d2a..59df2a4 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -132,7 +132,7 @@ impl NoiseListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -191,7 +191,11 @@ async fn _connect_client(
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            shutdown.notify_one();
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -216,7 +220,11 @@ async fn _connect_client(
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            shutdown.notify_one();
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index c3d35db..8f8ed7e 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -238,7 +238,7 @@ impl Dispatcher {
     async fn run(self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => (),
         }
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 933a73c..0f43622 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -66,6 +66,7 @@ impl MqttServer {
     #[instrument(name = "MqttServer::shutdown", skip(self))]
     pub async fn shutdown(self) {
         // TODO keep track of https://github.com/tokio-rs/tokio/issues/3903
+        // every task that is notified passes the notification on to the next one
         self.shutdown.notify_one();
         for worker in self.workers {
             if let Err(e) = worker.await {
-- 
2.43.0


From 2bcefc7f47bfd6f9218c5184cc4311c546b0391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 20/34] fix: packets that are too large for a client are not
 sent

---
 server-lib/src/clients/clientworker.rs | 43 ++++++++++++++++++++------
 server-lib/src/clients/noiseclient.rs  |  4 +++
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index aa7d9b0..1cae07f 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -1,5 +1,5 @@
 #[cfg(feature = "noise")]
-use super::noiseclient::NoiseClient;
+use super::noiseclient::{NoiseClient, MAX_MESSAGE_SIZE};
 use super::{mqttclient::MqttClient, Client};
 use crate::{cfg::*, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
 use apiformes_packet::prelude::*;
@@ -32,6 +32,14 @@ impl Connection {
             Connection::Noise(n) => n.send(p).await,
         }
     }
+    /// The largest packet that fits into this kind of connection
+    pub fn max_packet_size(&self) -> u32 {
+        match self {
+            Connection::Mqtt(_) => u32::MAX,
+            #[cfg(feature = "noise")]
+            Connection::Noise(_) => MAX_MESSAGE_SIZE,
+        }
+    }
     pub fn is_encrypted(&self) -> bool {
         match self {
             Connection::Mqtt(_) => false,
@@ -63,7 +71,7 @@ impl ClientWorker {
             }
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
-                self.conn.send(&packet).await?;
+                self.send(&packet).await?;
                 if let Packet::Disconnect(_) = packet {
                     return Err(ServerError::Misc("Disconnected by the server".to_owned()));
                 }
@@ -71,6 +79,17 @@ impl ClientWorker {
         }
         Ok(())
     }
+    /// a packet that is too large for the client is dropped
+    async fn send(&mut self, packet: &Packet) -> Result<(), ServerError> {
+        if packet.frame_len() > self.internals.max_packet_size as usize {
+            warn!(
+                clientid = &*self.internals.clientid,
+                "Dropping a packet that is too large for the client"
+            );
+            return Ok(());
+        }
+        self.conn.send(packet).await
+    }
     async fn listen_forever(&mut self) {
         loop {
             if let Err(e) = self.listen().await {
@@ -107,8 +126,9 @@ impl ClientWorker {
         incoming: Sender<PacketInfo>,
     ) -> Self {
         let (outgoing_tx, outgoing_rx) = unbounded_channel();
+        let max_packet_size = cfg.max_packet_size.min(c.max_packet_size());
         ClientWorker {
-            internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), cfg.max_packet_size),
+            internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), max_packet_size),
             incoming,
             outgoing: outgoing_rx,
             conn: c,
@@ -119,11 +139,15 @@ impl ClientWorker {
     async fn unimplemented(&mut self) -> Result<(), ServerError> {
         let mut connack = ConnAck::new();
         connack.set_reason_code(ConnAckReasonCode::ImplementationSpecificError);
-        self.conn.send(&connack.build()).await?;
+        self.send(&connack.build()).await?;
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
     #[instrument(name = "ClientWorker::process_connect", skip_all)]
     async fn process_connect(&mut self, connect: Connect) -> Result<(), ServerError> {
+        if let Some([v, ..]) = connect.get_prop(Property::MaximumPacketSize) {
+            self.internals.max_packet_size =
+                self.internals.max_packet_size.min(v.into_u32().unwrap());
+        }
         if connect.username().is_some() {
             error!("Client attempted using username for authentication which is not supported");
             return self.unimplemented().await;
@@ -146,10 +170,7 @@ impl ClientWorker {
                     self.internals.session_expirary = v.into_u32().unwrap()
                 }
                 Property::ReceiveMaximum => self.internals.recv_max = v.into_u16().unwrap(),
-                Property::MaximumPacketSize => {
-                    self.internals.max_packet_size =
-                        self.internals.max_packet_size.min(v.into_u32().unwrap())
-                }
+                Property::MaximumPacketSize => (), // it is known already
                 Property::TopicAliasMaximum => {
                     self.internals.topic_alias_max = v.into_u16().unwrap()
                 }
@@ -244,7 +265,11 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.conn.send(&connack.build()).await
+        let connack = connack.build();
+        if connack.frame_len() > self.internals.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
+        self.conn.send(&connack).await
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 59df2a4..e829033 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -19,6 +19,10 @@ use tracing::{error, info, instrument, warn};
 
 use futures::{SinkExt, StreamExt};
 use tracing::trace;
+
+/// A Noise message is at most 65535 bytes long, 16 of them are the authentication tag
+pub(super) const MAX_MESSAGE_SIZE: u32 = u16::MAX as u32 - 16;
+
 pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
     saddr: SocketAddr,
-- 
2.43.0


From 09d002623c610e9e6eea60f44a13ba84457345a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 21/34] fix: a client is registered before it is told that it
 is connected

---
 server-lib/src/clients/clientworker.rs | 29 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 1cae07f..86d0f8d 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -69,16 +69,24 @@ impl ClientWorker {
                 self.incoming.send(p).await.
                     map_err(|_| ServerError::Misc("Error sending incoming packet to processing queue".to_owned()))?;
             }
-            p = self.outgoing.recv() => {
-                let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
-                self.send(&packet).await?;
-                if let Packet::Disconnect(_) = packet {
-                    return Err(ServerError::Misc("Disconnected by the server".to_owned()));
-                }
-            }
+            p = self.outgoing.recv() => self.send_outgoing(p).await?,
+        }
+        Ok(())
+    }
+    async fn send_outgoing(&mut self, packet: Option<Packet>) -> Result<(), ServerError> {
+        let packet = packet
+            .ok_or_else(|| ServerError::Misc("outgoing queue lost all its senders".to_owned()))?;
+        self.send(&packet).await?;
+        if let Packet::Disconnect(_) = packet {
+            return Err(ServerError::Misc("Disconnected by the server".to_owned()));
         }
         Ok(())
     }
+    /// the first packet in the outgoing queue is the reply to connect
+    async fn send_connack(&mut self) -> Result<(), ServerError> {
+        let connack = self.outgoing.recv().await;
+        self.send_outgoing(connack).await
+    }
     /// a packet that is too large for the client is dropped
     async fn send(&mut self, packet: &Packet) -> Result<(), ServerError> {
         if packet.frame_len() > self.internals.max_packet_size as usize {
@@ -91,14 +99,16 @@ impl ClientWorker {
         self.conn.send(packet).await
     }
     async fn listen_forever(&mut self) {
+        let mut state = self.send_connack().await;
         loop {
-            if let Err(e) = self.listen().await {
+            if let Err(e) = state {
                 info!(
                     clientid = &*self.internals.clientid,
                     "Disconnecting, received error while listening, {:?}", e
                 );
                 break;
             }
+            state = self.listen().await;
         }
     }
     #[instrument(name = "ClientWorker::run", skip_all)]
@@ -269,7 +279,8 @@ impl ClientWorker {
         if connack.frame_len() > self.internals.max_packet_size as usize {
             return Err(ServerError::MaxPacketSizeExceeded);
         }
-        self.conn.send(&connack).await
+        // it is sent once the client is registered
+        self.internals.send(connack)
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From 254ed9d2053320efda1ec6c5e5acd14bc2678a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 22/34] fix: the connack announces what the server can do

---
 server-lib/src/cfg.rs                  |  3 ++-
 server-lib/src/clients/clientworker.rs | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 493e12e..3150c14 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -1,6 +1,7 @@
 pub const MAX_QOS: u8 = 0;
 pub const TOPIC_ALIAS_MAX: u16 = 0;
-pub const WILDCARD_SUB: bool = false;
+pub const WILDCARD_SUB: bool = true;
+pub const RETAIN: bool = false;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
 #[cfg(feature = "noise")]
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 86d0f8d..516554c 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -154,6 +154,7 @@ impl ClientWorker {
     }
     #[instrument(name = "ClientWorker::process_connect", skip_all)]
     async fn process_connect(&mut self, connect: Connect) -> Result<(), ServerError> {
+        let max_packet_size = self.internals.max_packet_size;
         if let Some([v, ..]) = connect.get_prop(Property::MaximumPacketSize) {
             self.internals.max_packet_size =
                 self.internals.max_packet_size.min(v.into_u32().unwrap());
@@ -232,6 +233,18 @@ impl ClientWorker {
         connack
             .add_prop(Property::MaximumQoS, MqttPropValue::new_u8(MAX_QOS))
             .unwrap();
+        connack
+            .add_prop(
+                Property::RetainAvailable,
+                MqttPropValue::new_u8(RETAIN.into()),
+            )
+            .unwrap();
+        connack
+            .add_prop(
+                Property::MaximumPacketSize,
+                MqttPropValue::new_u32(max_packet_size),
+            )
+            .unwrap();
         let clientid = connect.clientid();
         if clientid.is_empty() {
             self.internals.clientid = Uuid::new_v4().to_hyphenated().to_string().into();
-- 
2.43.0


From 1a8ddc9642175ef14c049b4e12b9e8b7fab6b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 23/34] fix: shared subscriptions are refused

---
 server-lib/src/dispatcher.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 8f8ed7e..24b6d0a 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -171,6 +171,10 @@ impl Dispatcher {
         for (topic, options) in sub.topics_iter() {
             let qos: QoS = (*options).try_into()?;
             let mut flags = SubscriptionFlags::empty();
+            if topic.starts_with("$share/") {
+                suback.add_reason_code(SubAckReasonCode::SharedSubscriptionsNotSupported);
+                continue;
+            }
             match qos {
                 QoS::QoS0 => (),
                 _ => {
-- 
2.43.0


From 48d9d36272ce4dbafb8b8ebcc24439f29d06c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 24/34] fix: the mean arrival rate is the mean over subscribers

---
 bm/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm/src/main.rs b/bm/src/main.rs
index 18834cc..237e0e3 100644
--- a/bm/src/main.rs
+++ b/bm/src/main.rs
@@ -194,7 +194,7 @@ async fn main() {
                     .as_micros() as f64
         })
         .sum::<f64>()
-        / cfg.n_pubs as f64
+        / cfg.n_subs as f64
         * 1000000.0; //because we are doing measurements in micrseconds
 
     let mut aggregate: Vec<_> = subs
-- 
2.43.0


From 6ea3c7c5a30407918dc65cc3c99b1227ed3860b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 25/34] fix: the benchmark notices that the broker closed the
 connection

---
 bm/src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bm/src/client.rs b/bm/src/client.rs
index 859fd2f..41dc081 100644
--- a/bm/src/client.rs
+++ b/bm/src/client.rs
@@ -1,7 +1,7 @@
 use apiformes_packet::prelude::*;
 use bytes::{Buf, BytesMut};
 use std::io::Cursor;
-use std::io::Result;
+use std::io::{Error, ErrorKind, Result};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::net::{TcpStream, ToSocketAddrs};
 
@@ -30,7 +30,11 @@ impl Client {
                 Err(DataParseError::InsufficientBuffer {
                     needed: _,
                     available: _,
-                }) => self.stream.read_buf(&mut self.recv_bytes).await?,
+                }) => {
+                    if self.stream.read_buf(&mut self.recv_bytes).await? == 0 {
+                        return Err(Error::from(ErrorKind::UnexpectedEof));
+                    }
+                }
                 Err(e) => panic!("{:?}", e),
             };
         }
-- 
2.43.0


From 0a07b59d549a694e2004dbb74cd376a4163ffa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 26/34] fix: subscribers count publish packets only

---
 bm/src/subscriber.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bm/src/subscriber.rs b/bm/src/subscriber.rs
index 8cfdf91..f46404a 100644
--- a/bm/src/subscriber.rs
+++ b/bm/src/subscriber.rs
@@ -40,10 +40,10 @@ impl Subscriber {
     async fn listen(&mut self) -> Result<()> {
         for _ in 0..self.iterations {
             let start = Instant::now();
-            let packet = self.client.recv().await?;
-            let p = match packet {
-                Packet::Publish(p) => p,
-                _ => continue,
+            let p = loop {
+                if let Packet::Publish(p) = self.client.recv().await? {
+                    break p;
+                }
             };
             let payload = p.payload();
             let t = u128::from_be_bytes(payload[..].try_into().unwrap());
-- 
2.43.0


From e379e9064b4e4f9b4d8ce6b93a30db3c732825a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 27/34] fix: the benchmark ends when a publisher fails

---
 bm/src/client.rs    |  9 +++++++++
 bm/src/main.rs      | 26 +++++++++++---------------
 bm/src/publisher.rs |  5 ++++-
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/bm/src/client.rs b/bm/src/client.rs
index 41dc081..22662e9 100644
--- a/bm/src/client.rs
+++ b/bm/src/client.rs
@@ -40,6 +40,15 @@ impl Client {
         }
     }
 
+    /// returns once the connection is closed
+    pub async fn closed(&mut self) -> Error {
+        loop {
+            if let Err(e) = self.recv().await {
+                return e;
+            }
+        }
+    }
+
     pub async fn send(&mut self, packet: &Packet) -> Result<()> {
         packet.to_bytes(&mut self.send_bytes);
         self.stream.write_all_buf(&mut self.send_bytes).await?;
diff --git a/bm/src/main.rs b/bm/src/main.rs
index 237e0e3..aa5c460 100644
--- a/bm/src/main.rs
+++ b/bm/src/main.rs
@@ -8,7 +8,7 @@ mod subscriber;
 
 use clap::App;
 use config::*;
-use futures::future::{join_all, JoinAll};
+use futures::future::{join_all, try_join_all, JoinAll, TryJoinAll};
 use publisher::*;
 use std::sync::Arc;
 use std::time::Duration;
@@ -39,7 +39,7 @@ async fn starts_subs(cfg: &Config, time_ref: Instant) -> JoinAll<JoinHandle<Subs
 async fn start_pubs(
     cfg: &Config,
     time_ref: Instant,
-) -> (JoinAll<JoinHandle<PublisherStats>>, Arc<Notify>) {
+) -> (TryJoinAll<JoinHandle<PublisherStats>>, Arc<Notify>) {
     let release_signal = Arc::new(Notify::new());
     let mut pubs_handles = Vec::with_capacity(cfg.n_pubs);
     for _ in 0..cfg.n_pubs {
@@ -55,7 +55,7 @@ async fn start_pubs(
         .unwrap();
         pubs_handles.push(tokio::spawn(async move { _pub.run().await.unwrap() }));
     }
-    (join_all(pubs_handles), release_signal)
+    (try_join_all(pubs_handles), release_signal)
 }
 
 fn str_to_duration(input: &str) -> Duration {
@@ -151,8 +151,12 @@ async fn main() {
     // next we start the publishers this way we are sure that all published messages will be captured
     let (mut pubs_handles, release_signal) = start_pubs(&cfg, time_ref).await;
 
-    // we then wait for all subscribers to finish
-    let subs = subs_handles.await;
+    // we then wait for all subscribers to finish, publishers do not finish before they are released
+    // unless one of them fails
+    let subs = select! {
+        s = subs_handles => s,
+        p = &mut pubs_handles => panic!("Publisher failed: {:?}", p.err()),
+    };
 
     // notify all waiting threads, and allow them to join...
     let pubs;
@@ -162,22 +166,14 @@ async fn main() {
         select! {
             _ = sleep(Duration::from_millis(1)) => (),
             p = &mut pubs_handles => {
-                pubs = p;
+                pubs = p.unwrap();
                 break;
             }
         };
     }
     let publishing_rate: f64 = pubs
         .iter()
-        .map(|s| {
-            cfg.iterations as f64
-                / s.as_ref()
-                    .unwrap()
-                    .deltas
-                    .iter()
-                    .sum::<Duration>()
-                    .as_micros() as f64
-        })
+        .map(|s| cfg.iterations as f64 / s.deltas.iter().sum::<Duration>().as_micros() as f64)
         .sum::<f64>()
         / cfg.n_pubs as f64
         * 1000000.0; //because we are doing measurements in micrseconds
diff --git a/bm/src/publisher.rs b/bm/src/publisher.rs
index b058fa7..8dab34e 100644
--- a/bm/src/publisher.rs
+++ b/bm/src/publisher.rs
@@ -101,7 +101,10 @@ impl Publisher {
             Sleep::MinMax(min, max) => self.run_min_max_sleep(min, max).await?,
         }
         let total_time = Instant::now().duration_since(start);
-        self.release_signal.notified().await;
+        tokio::select! {
+            _ = self.release_signal.notified() => (),
+            e = self.client.closed() => return Err(e),
+        }
         Ok(PublisherStats {
             total_time,
             deltas: self.deltas,
-- 
2.43.0


From 920607139ba29c7d5aed89f7a01b5a2f49d38ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 28/34] fix: the minimum and maximum delay may be equal

---
 bm/src/publisher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm/src/publisher.rs b/bm/src/publisher.rs
index 8dab34e..2df1c03 100644
--- a/bm/src/publisher.rs
+++ b/bm/src/publisher.rs
@@ -80,7 +80,7 @@ impl Publisher {
         max_sleep_time: Duration,
     ) -> Result<()> {
         let mut small_rng = SmallRng::from_entropy();
-        let sample_space = Uniform::new(min_sleep_time, max_sleep_time);
+        let sample_space = Uniform::new_inclusive(min_sleep_time, max_sleep_time);
         for _ in 0..self.iterations {
             sleep(small_rng.sample(sample_space)).await;
             self.run_once().await?;
-- 
2.43.0


From 4935d9e4875fde8eb73800fe8fffa25dcb9a41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 29/34] Expose the topics table to verification under
 cfg(verif_hooks)

---
 server-lib/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 0f43622..4fb6afd 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -6,6 +6,12 @@ pub mod error;
 mod packetinfo;
 mod topics;
 
+/// Internals for external verification
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::topics::{SubscriptionFlags, SubscriptionInfo, TopicsTable};
+}
+
 use clients::{Client, ClientManager};
 pub use config::MqttServerConfig;
 #[cfg(feature = "noise")]
-- 
2.43.0


From 2657e68933e0a4650e17514b0fe8b13546f27a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 30/34] fix: topic filters of too many levels are refused

The topics table is walked recursively, a filter of some thousand levels
overflowed the stack and took the whole broker down.
---
 server-lib/src/cfg.rs        | 2 ++
 server-lib/src/dispatcher.rs | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 3150c14..52bfddd 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -4,5 +4,7 @@ pub const WILDCARD_SUB: bool = true;
 pub const RETAIN: bool = false;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
+/// the topics table is walked recursively
+pub const MAX_TOPIC_LEVELS: usize = 256;
 #[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 24b6d0a..ab31b8e 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -1,6 +1,7 @@
 #[cfg(feature = "noise")]
 use super::Permeability;
 use super::{
+    cfg::MAX_TOPIC_LEVELS,
     topics::{SubscriptionFlags, TopicsTable},
     Client, MqttServerConfig, ServerError,
 };
@@ -175,6 +176,10 @@ impl Dispatcher {
                 suback.add_reason_code(SubAckReasonCode::SharedSubscriptionsNotSupported);
                 continue;
             }
+            if topic.split('/').nth(MAX_TOPIC_LEVELS).is_some() {
+                suback.add_reason_code(SubAckReasonCode::QuotaExceeded);
+                continue;
+            }
             match qos {
                 QoS::QoS0 => (),
                 _ => {
-- 
2.43.0


From 9b40260ea86e8a1788449e64b4d5e8ffaabca69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 31/34] fix: removing all subscriptions waits for removals
 under way

---
 server-lib/src/topics.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 62e2ffd..9d48fe1 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -313,15 +313,18 @@ impl TopicsTable {
         self.topics_add(clientid.clone(), &topic, qos, flags).await;
         self.reverse_index_add(clientid, topic).await;
     }
-    async fn reverse_index_remove(&self, clientid: &str, topic: &str) {
-        let mut raii = self.reverse_index.write().await;
+    fn reverse_index_remove(
+        reverse_index: &mut HashMap<ClientId, HashSet<SubTopic>>,
+        clientid: &str,
+        topic: &str,
+    ) {
         let mut cleanup = false;
-        if let Some(set) = raii.get_mut(clientid) {
+        if let Some(set) = reverse_index.get_mut(clientid) {
             set.remove(topic);
             cleanup = set.is_empty();
         }
         if cleanup {
-            raii.remove(clientid);
+            reverse_index.remove(clientid);
         }
     }
     //TODO replace Arc<str> with &str
@@ -338,14 +341,14 @@ impl TopicsTable {
         .await
     }
     pub async fn unsubscribe(&self, clientid: Arc<str>, topic: &str) {
-        self.reverse_index_remove(&clientid, topic).await;
+        // locked until the topic is removed, another removal must not return before that
+        let mut reverse_index = self.reverse_index.write().await;
+        Self::reverse_index_remove(&mut reverse_index, &clientid, topic);
         self.topic_remove(clientid, topic).await;
     }
-    pub async fn reverse_index_remove_all(&self, clientid: &str) -> Option<HashSet<SubTopic>> {
-        self.reverse_index.write().await.remove(clientid)
-    }
     pub async fn unsubscribe_all(&self, clientid: Arc<str>) {
-        if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
+        let mut reverse_index = self.reverse_index.write().await;
+        if let Some(topics) = reverse_index.remove(&clientid) {
             for topic in topics {
                 self.topic_remove(clientid.clone(), &topic).await
             }
-- 
2.43.0


From 9fcfa6f77f349a1cf50a2ae2953c5df3fd214e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 32/34] fix: topic blocks that are not used any more are
 dropped

---
 server-lib/src/topics.rs | 41 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 9d48fe1..7fb2c08 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -82,6 +82,25 @@ impl BlockInner {
     async fn remove_from_subs(&self, clientid: Arc<str>) {
         self.subscribers.write().await.remove(&clientid);
     }
+    fn is_empty(&mut self) -> bool {
+        self.sub_blocks.is_empty()
+            && self.hash_wildcard.get_mut().is_empty()
+            && self.subscribers.get_mut().is_empty()
+    }
+    /// Drop the blocks of this topic that are not needed any more
+    fn prune<'a>(&mut self, mut sections: impl Iterator<Item = &'a str>) {
+        let section = match sections.next() {
+            None | Some("#") => return,
+            Some(section) => section,
+        };
+        if let Some(sub_block) = self.sub_blocks.get_mut(section) {
+            let inner = sub_block.inner.get_mut();
+            inner.prune(sections);
+            if inner.is_empty() {
+                self.sub_blocks.remove(section);
+            }
+        }
+    }
     async fn collect_hash_wildcard(&self, subs: &mut HashMap<ClientId, SubscriptionInfo>) {
         for (clientid, info) in self.hash_wildcard.read().await.iter() {
             match subs.entry(clientid.clone()) {
@@ -152,15 +171,19 @@ impl Block {
         match x {
             Some("#") => run(self, true).await,
             None => run(self, false).await,
-            Some(section) => {
+            Some(section) => loop {
                 if create {
                     self.create_if_not_existing(section).await;
                 }
                 let raii = self.read().await;
                 if let Some(sub_block) = raii.sub_blocks.get(section) {
-                    sub_block.visit(sections, create, run).await;
+                    return sub_block.visit(sections, create, run).await;
                 }
-            }
+                if !create {
+                    return;
+                }
+                // somebody else may have pruned it in the meantime
+            },
         }
     }
 
@@ -340,18 +363,26 @@ impl TopicsTable {
         })
         .await
     }
+    async fn prune<'a>(&self, topics: impl Iterator<Item = &'a str>) {
+        let mut root = self.root_block.write().await;
+        for topic in topics {
+            root.prune(self.topic_to_subtopics(topic));
+        }
+    }
     pub async fn unsubscribe(&self, clientid: Arc<str>, topic: &str) {
         // locked until the topic is removed, another removal must not return before that
         let mut reverse_index = self.reverse_index.write().await;
         Self::reverse_index_remove(&mut reverse_index, &clientid, topic);
         self.topic_remove(clientid, topic).await;
+        self.prune(std::iter::once(topic)).await;
     }
     pub async fn unsubscribe_all(&self, clientid: Arc<str>) {
         let mut reverse_index = self.reverse_index.write().await;
         if let Some(topics) = reverse_index.remove(&clientid) {
-            for topic in topics {
-                self.topic_remove(clientid.clone(), &topic).await
+            for topic in &topics {
+                self.topic_remove(clientid.clone(), topic).await
             }
+            self.prune(topics.iter().map(|topic| &**topic)).await;
         }
     }
     pub async fn get_all_subscribed(&self, topic: &str) -> HashMap<ClientId, SubscriptionInfo> {
-- 
2.43.0


From aafd8f052aa90087cfb82048600e20a69f0809cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 33/34] fix: frames that are longer than a Noise message are
 refused when they are announced

---
 server-lib/src/clients/noiseclient.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index e829033..7940c88 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -21,7 +21,8 @@ use futures::{SinkExt, StreamExt};
 use tracing::trace;
 
 /// A Noise message is at most 65535 bytes long, 16 of them are the authentication tag
-pub(super) const MAX_MESSAGE_SIZE: u32 = u16::MAX as u32 - 16;
+const MAX_FRAME_SIZE: usize = u16::MAX as usize;
+pub(super) const MAX_MESSAGE_SIZE: u32 = MAX_FRAME_SIZE as u32 - 16;
 
 pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
@@ -180,7 +181,10 @@ async fn _connect_client(
     incoming: Sender<PacketInfo>,
 ) {
     let keep_alive = cfg.keep_alive as u64;
-    let mut stream = Framed::new(stream, LengthDelimitedCodec::new());
+    let codec = LengthDelimitedCodec::builder()
+        .max_frame_length(MAX_FRAME_SIZE)
+        .new_codec();
+    let mut stream = Framed::new(stream, codec);
 
     let mut responder = snow::Builder::new(NOISE_PATTERN.parse().unwrap())
         .local_private_key(&cfg.private_key[..])
-- 
2.43.0


From 710de4b6afebce506d85382e1737eee17ae9e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 34/34] fix: wait after a failed accept instead of retrying at
 once

With all file descriptors in use accept() fails at once, and the listener
loops without ever yielding: it occupies a worker thread for good. With as
many workers as listeners nothing else runs any more, so that no connection
is ever closed and no descriptor becomes free again.
---
 server-lib/src/clients/mqttclient.rs  | 2 ++
 server-lib/src/clients/noiseclient.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 990b9f8..599e739 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -118,6 +118,8 @@ impl MqttListener {
         loop {
             if let Err(e) = self.listen().await {
                 error!("Error listening to new connections, {:?}", e);
+                // e.g. out of file descriptors: the error is reported again at once, without waiting
+                sleep(Duration::from_millis(100)).await;
             }
         }
     }
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 7940c88..79a790a 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -130,6 +130,8 @@ impl NoiseListener {
         loop {
             if let Err(e) = self.listen().await {
                 error!("Error listening to new connections, {:?}", e);
+                // e.g. out of file descriptors: the error is reported again at once, without waiting
+                sleep(Duration::from_millis(100)).await;
             }
         }
     }
-- 
2.43.0

