From f8411acc634db5b181456256eb89b827a9f24123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 01/25] fix: accept remaining lengths of four bytes

---
 src/mqtt/transport/packet_decoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..a5b21f8 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -49,19 +49,19 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
     loop {
         let byte = buffer.get_u8().await?;
         remaining_length += (byte & 127) as u64 * multiplier;
-        multiplier *= 128;
 
+        let continuation_bit = byte & 128;
+        if continuation_bit == 0 {
+            break;
+        }
+
+        multiplier *= 128;
         if multiplier > 128 * 128 * 128 {
             return Err(tokio::io::Error::new(
                 ErrorKind::InvalidData,
                 "Malformed remaining length multiplier",
             ));
         }
-
-        let continuation_bit = byte & 128;
-        if continuation_bit == 0 {
-            break;
-        }
     }
 
     Ok(remaining_length)
-- 
2.43.0


From c16ae8a579eebdb5b3b57e3fe3dfb0425f1190c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 02/25] fix: do not loop forever when the read buffer is used
 up

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..e05773f 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -76,7 +76,8 @@ impl MqttBytesStream {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
                 if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                    // taking bytes out of the buffer shrinks its capacity, possibly to 0
+                    self.read_buffer.capacity().max(1)
                 } else {
                     remaining_length
                 }
@@ -224,7 +225,8 @@ impl MqttBytesReadStream {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
                 if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                    // taking bytes out of the buffer shrinks its capacity, possibly to 0
+                    self.read_buffer.capacity().max(1)
                 } else {
                     remaining_length
                 }
-- 
2.43.0


From b5a9dfb02acb96440f1be501146fa576ed954bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 03/25] fix: write packets out completely when the socket takes
 only a part

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index e05773f..ff857be 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -162,14 +162,14 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+            self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         }
 
         Ok(())
@@ -318,14 +318,18 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream
+            .write_all_buf(&mut self.write_buffer)
+            .await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.write_stream.write_buf(&mut self.write_buffer).await?;
+            self.write_stream
+                .write_all_buf(&mut self.write_buffer)
+                .await?;
         }
 
         Ok(())
-- 
2.43.0


From e4d6054ea551d8205303045b85e7c1661a0647a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 04/25] fix: refuse packet types a client must not send instead
 of panicking

---
 src/mqtt/transport/packet_decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index a5b21f8..848b977 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -87,7 +87,12 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
         PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
         PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        _ => {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Unexpected packet type",
+            ))
+        }
     };
 
     Ok(packet)
-- 
2.43.0


From a6f5a8f18e821d39d3c1f64db18bc5e979336a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 05/25] fix: refuse PUBLISH, SUBSCRIBE and UNSUBSCRIBE packets
 with QoS 3 or content beyond the remaining length

---
 src/mqtt/transport/packet_decoder.rs | 31 +++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 848b977..86339b4 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -176,15 +176,17 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
+    if flags.contains(FixedHeaderFlags::QOS) {
+        return Err(Error::new(ErrorKind::InvalidData, "Malformed QoS"));
+    }
     let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
 
     // variable header
     let topic = buffer.get_string().await?;
-    remaining_length -= topic.len() as u64;
-    remaining_length -= 2;
+    remaining_length = subtract_length(remaining_length, topic.len() as u64 + 2)?;
 
     let packet_id = if qos > QoS::AtMostOnce {
-        remaining_length -= 2;
+        remaining_length = subtract_length(remaining_length, 2)?;
         Some(buffer.get_u16().await?)
     } else {
         None
@@ -239,7 +241,7 @@ async fn decode_subscribe(
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10000010).await?;
-    remaining_length -= 2;
+    remaining_length = subtract_length(remaining_length, 2)?;
 
     // payload
 
@@ -261,7 +263,10 @@ async fn decode_subscribe(
             ));
         }
 
-        remaining_length -= topic.len() as u64 + 3u64 /* 2 topic length + QoS*/;
+        remaining_length = subtract_length(
+            remaining_length,
+            topic.len() as u64 + 3u64, /* 2 topic length + QoS*/
+        )?;
 
         let subscription = Subscription::new(topic, QoS::from_bits(qos));
         subscriptions.push(subscription);
@@ -277,7 +282,7 @@ async fn decode_unsubscribe(
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10100010).await?;
-    remaining_length -= 2;
+    remaining_length = subtract_length(remaining_length, 2)?;
 
     if remaining_length == 0 {
         return Err(tokio::io::Error::new(
@@ -290,7 +295,10 @@ async fn decode_unsubscribe(
     while remaining_length > 0 {
         let topic = buffer.get_string().await?;
 
-        remaining_length -= topic.len() as u64 + 2u64/* 2 topic length */;
+        remaining_length = subtract_length(
+            remaining_length,
+            topic.len() as u64 + 2u64, /* 2 topic length */
+        )?;
 
         topics.push(topic);
     }
@@ -310,6 +318,15 @@ async fn decode_packet_with_packet_id(
     Ok(packet_id)
 }
 
+fn subtract_length(remaining_length: u64, size: u64) -> Result<u64, Error> {
+    remaining_length.checked_sub(size).ok_or_else(|| {
+        Error::new(
+            ErrorKind::InvalidData,
+            "Packet content exceeds the remaining length",
+        )
+    })
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From 86242e19bc5f0186b5a1e42c77073c1c90bf1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 06/25] fix: check the remaining length and flags of
 acknowledgements, PINGREQ and DISCONNECT

---
 src/mqtt/transport/packet_decoder.rs | 35 +++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 86339b4..acbb277 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -85,8 +85,16 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         PACKET_TYPE_UNSUBSCRIBE => {
             decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
         }
-        PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
-        PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
+        PACKET_TYPE_PING_REQ => {
+            validate_first_byte(first_byte, PACKET_TYPE_PING_REQ << 4)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::PingReq
+        }
+        PACKET_TYPE_DISCONNECT => {
+            validate_first_byte(first_byte, PACKET_TYPE_DISCONNECT << 4)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::Disconnect(DisconnectPacket::default())
+        }
         _ => {
             return Err(Error::new(
                 ErrorKind::InvalidData,
@@ -202,8 +210,9 @@ async fn decode_publish(
 async fn decode_pub_ack(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
     Ok(ControlPacket::PubAck(PubAckPacket::new(packet_id)))
 }
@@ -211,8 +220,9 @@ async fn decode_pub_ack(
 async fn decode_pub_rec(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01010000).await?;
     Ok(ControlPacket::PubRec(PubRecPacket::new(packet_id)))
 }
@@ -220,8 +230,9 @@ async fn decode_pub_rec(
 async fn decode_pub_rel(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01100010).await?;
     Ok(ControlPacket::PubRel(PubRelPacket::new(packet_id)))
 }
@@ -229,8 +240,9 @@ async fn decode_pub_rel(
 async fn decode_pub_comp(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01110000).await?;
     Ok(ControlPacket::PubComp(PubCompPacket::new(packet_id)))
 }
@@ -327,6 +339,17 @@ fn subtract_length(remaining_length: u64, size: u64) -> Result<u64, Error> {
     })
 }
 
+fn validate_remaining_length(actual: u64, expected: u64) -> Result<(), Error> {
+    if actual == expected {
+        Ok(())
+    } else {
+        Err(Error::new(
+            ErrorKind::InvalidData,
+            "Malformed remaining length",
+        ))
+    }
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From ed159f58dc0412316121b8fa9376e7e42ed2b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 07/25] fix: refuse strings that contain a null character

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index ff857be..b93777b 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -64,6 +64,13 @@ impl MqttBytesStream {
             )
         })?;
 
+        if str.contains('\0') {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Invalid UTF8 String: null character",
+            ));
+        }
+
         Ok(String::from(str))
     }
 
@@ -213,6 +220,13 @@ impl MqttBytesReadStream {
             )
         })?;
 
+        if str.contains('\0') {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Invalid UTF8 String: null character",
+            ));
+        }
+
         Ok(String::from(str))
     }
 
-- 
2.43.0


From 769947d20848b2515258b3059e4e02b93ce4bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 08/25] fix: read CONNECT as the standard lays it out: protocol
 name and level, flags, will, exact length

---
 src/broker/client_packet_handler.rs  | 13 ++++++
 src/mqtt/packets/mod.rs              |  1 +
 src/mqtt/transport/packet_decoder.rs | 70 +++++++++++++++++++++++++---
 3 files changed, 77 insertions(+), 7 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..415c075 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -116,6 +116,19 @@ impl ClientPacketHandler {
         packet: ConnectPacket,
         address: SocketAddr,
     ) {
+        if packet.version == ProtocolVersion::Unsupported {
+            info!("Client {} uses an unsupported protocol version", &address);
+
+            let conn_ack =
+                ConnAckPacket::new(false, ConnAckReturnCode::UnacceptableProtocolVersion);
+            sender
+                .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
+                .await
+                .unwrap();
+            sender.send(ServerEvent::Disconnect).await.unwrap();
+            return;
+        }
+
         let client_id = packet.client_id;
         debug!("New client {:?} connected", &client_id);
 
diff --git a/src/mqtt/packets/mod.rs b/src/mqtt/packets/mod.rs
index fb5689f..d73e9cf 100644
--- a/src/mqtt/packets/mod.rs
+++ b/src/mqtt/packets/mod.rs
@@ -57,6 +57,7 @@ pub type ClientId = String;
 pub enum ProtocolVersion {
     Mqtt3,
     Mqtt5,
+    Unsupported,
 }
 
 impl Default for ProtocolVersion {
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index acbb277..878d07d 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -108,8 +109,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
-    _first_byte: u8,
-    _remaining_length: u64,
+    first_byte: u8,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     bitflags! {
         struct ConnectFlags: u8 {
@@ -125,38 +126,93 @@ async fn decode_connect(
         }
     }
 
+    validate_first_byte(first_byte, PACKET_TYPE_CONNECT << 4)?;
+
     // variable header
-    let _protocol_name = buffer.get_string().await?;
-    let _protocol_level = buffer.get_u8().await?;
+    let protocol_name = buffer.get_string().await?;
+    if protocol_name != "MQTT" {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Malformed protocol name",
+        ));
+    }
+    let protocol_level = buffer.get_u8().await?;
+    remaining_length = subtract_length(remaining_length, 2 + 4 + 1)?;
+    if protocol_level != 4 {
+        // the rest has an unknown layout, it is up to the broker to refuse the connection
+        buffer.get_bytes(remaining_length as usize).await?;
+        return Ok(ControlPacket::Connect(ConnectPacket {
+            version: ProtocolVersion::Unsupported,
+            ..Default::default()
+        }));
+    }
+
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
 
     let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);
+    let will = connect_flags.contains(ConnectFlags::WILL);
+    let will_flags = ConnectFlags::WILL_QOS | ConnectFlags::WILL_RETAIN;
+    if connect_flags.contains(ConnectFlags::RESERVED)
+        || connect_flags.contains(ConnectFlags::WILL_QOS)
+        || (!will && connect_flags.intersects(will_flags))
+        || (connect_flags.contains(ConnectFlags::PASSWORD)
+            && !connect_flags.contains(ConnectFlags::USERNAME))
+    {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Malformed connect flags",
+        ));
+    }
 
     let keep_alive_seconds = buffer.get_u16().await?;
+    remaining_length = subtract_length(remaining_length, 1 + 2)?;
 
     // payload
     let client_id = buffer.get_string().await?;
+    remaining_length = subtract_length(remaining_length, client_id.len() as u64 + 2)?;
+
+    let will_message = if will {
+        let topic = buffer.get_string().await?;
+        remaining_length = subtract_length(remaining_length, topic.len() as u64 + 2)?;
+        let payload_size = buffer.get_u16().await? as usize;
+        let payload = buffer.get_bytes(payload_size).await?;
+        remaining_length = subtract_length(remaining_length, payload_size as u64 + 2)?;
+
+        Some(Message {
+            qos: QoS::from_bits((connect_flags & ConnectFlags::WILL_QOS).bits >> 3),
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+            topic,
+            payload,
+        })
+    } else {
+        None
+    };
 
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
-        Some(buffer.get_string().await?)
+        let user_name = buffer.get_string().await?;
+        remaining_length = subtract_length(remaining_length, user_name.len() as u64 + 2)?;
+        Some(user_name)
     } else {
         None
     };
 
     let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
         // todo: allow non-utf8 bytes?
-        Some(buffer.get_string().await?)
+        let password = buffer.get_string().await?;
+        remaining_length = subtract_length(remaining_length, password.len() as u64 + 2)?;
+        Some(password)
     } else {
         None
     };
+    validate_remaining_length(remaining_length, 0)?;
 
     let connect_packet = ConnectPacket::new(
         ProtocolVersion::Mqtt3,
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
-- 
2.43.0


From 3c0b8e84ff40794825753778988dec91a4ce1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 09/25] fix: refuse PUBLISH packets whose topic name is empty
 or has wildcards

---
 src/mqtt/transport/packet_decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 878d07d..de34450 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -248,6 +248,9 @@ async fn decode_publish(
     // variable header
     let topic = buffer.get_string().await?;
     remaining_length = subtract_length(remaining_length, topic.len() as u64 + 2)?;
+    if topic.is_empty() || topic.contains(|c| c == '+' || c == '#') {
+        return Err(Error::new(ErrorKind::InvalidData, "Malformed topic name"));
+    }
 
     let packet_id = if qos > QoS::AtMostOnce {
         remaining_length = subtract_length(remaining_length, 2)?;
-- 
2.43.0


From f836d917782d374be1fb4d218e7226d66e227c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 10/25] fix: an identical subscription replaces the earlier one

---
 src/broker/messaging/subscriptions_repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..ba893c5 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,9 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From 4d1c18fe3dc53ac90f27f36f5834c0cc60df7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 11/25] fix: refuse subscriptions to malformed topic filters

---
 .../messaging/subscriptions_repository.rs     | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ba893c5..fba507f 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -21,6 +21,10 @@ impl SubscriptionsRepository {
         client_id: &ClientId,
         subscription: &Subscription,
     ) -> SubAckReturnCode {
+        if !Self::is_valid_filter(subscription.topic()) {
+            return SubAckReturnCode::Failure;
+        }
+
         let mut node = &mut self.root;
 
         // subscription.topic().split("/").for_each(|x| {
@@ -113,6 +117,26 @@ impl SubscriptionsRepository {
         // None
     }
 
+    fn is_valid_filter(filter: &str) -> bool {
+        if filter.is_empty() {
+            return false;
+        }
+
+        let mut segments = filter.split('/').peekable();
+        while let Some(segment) = segments.next() {
+            let is_last = segments.peek().is_none();
+            let is_valid = match segment {
+                "+" => true,
+                "#" => is_last,
+                _ => !segment.contains(|c| c == '+' || c == '#'),
+            };
+            if !is_valid {
+                return false;
+            }
+        }
+        true
+    }
+
     fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
         node.clients
             .iter()
-- 
2.43.0


From 4aeb8fb93664c492cef593fa465077d3fc0da6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:27 +0000
Subject: [PATCH 12/25] fix: leading wildcards do not match topics beginning
 with $

---
 src/broker/messaging/subscriptions_repository.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index fba507f..379a178 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -87,7 +87,9 @@ impl SubscriptionsRepository {
 
         let mut nodes = vec![&self.root];
         let segments: Vec<&str> = topic.split("/").collect();
-        for segment in segments {
+        for (level, segment) in segments.into_iter().enumerate() {
+            // topics beginning with $ are not matched by a leading wildcard
+            let wildcards = level > 0 || !segment.starts_with('$');
             // nodes.iter().or itera
             let mut descendant_nodes = Vec::new();
             for node in nodes {
@@ -95,6 +97,10 @@ impl SubscriptionsRepository {
                     descendant_nodes.push(direct);
                 };
 
+                if !wildcards {
+                    continue;
+                }
+
                 if let Some(plus) = node.children.get("+") {
                     descendant_nodes.push(plus);
                 };
-- 
2.43.0


From c43edd09b862aeedac6cd3129031a35e47cdfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:37 +0000
Subject: [PATCH 13/25] fix: a CONNECT with a user name but no password is
 refused, not fatal

---
 src/broker/client_packet_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 415c075..debdfce 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -133,7 +133,7 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
+            let password = packet.password.unwrap_or_default();
             if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
-- 
2.43.0


From d2c63e93d2135cd9c7acbcd64feda8c27f09c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:39 +0000
Subject: [PATCH 14/25] fix: a client that has gone away must not end the
 packet handler

---
 src/broker/client_packet_handler.rs | 45 +++++++++++------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index debdfce..d91fcd5 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -81,6 +81,13 @@ impl ClientPacketHandler {
         debug!("Stopped Manager");
     }
 
+    async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
+        // the connection may have ended in the meantime
+        if sender.send(event).await.is_err() {
+            debug!("The client is not connected any more");
+        }
+    }
+
     async fn on_packet(
         &mut self,
         client_id: String,
@@ -121,11 +128,8 @@ impl ClientPacketHandler {
 
             let conn_ack =
                 ConnAckPacket::new(false, ConnAckReturnCode::UnacceptableProtocolVersion);
-            sender
-                .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                .await
-                .unwrap();
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
+            Self::send(&sender, ServerEvent::Disconnect).await;
             return;
         }
 
@@ -138,11 +142,8 @@ impl ClientPacketHandler {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-                sender
-                    .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                    .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
+                Self::send(&sender, ServerEvent::Disconnect).await;
                 return;
             }
         };
@@ -176,10 +177,7 @@ impl ClientPacketHandler {
 
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
-        sender
-            .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -236,7 +234,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            Self::send(&sender, event).await;
         }
     }
 
@@ -263,10 +261,7 @@ impl ClientPacketHandler {
         }
 
         let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
-        sender
-            .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(SubAck(sub_ack))).await;
     }
 
     async fn on_unsubscribe(
@@ -284,10 +279,7 @@ impl ClientPacketHandler {
         let _ = rx.await.unwrap();
 
         let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
-        sender
-            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(UnsubAck(unsub_ack))).await;
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -316,16 +308,13 @@ impl ClientPacketHandler {
         };
 
         if session_present {
-            sender
-                .send(ServerEvent::ControlPacket(PingResp))
-                .await
-                .unwrap();
+            Self::send(&sender, ServerEvent::ControlPacket(PingResp)).await;
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            Self::send(&sender, ServerEvent::Disconnect).await;
         }
     }
 }
-- 
2.43.0


From 41a28d3445ede7cd3b1bf46e67c4774d69a4ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:41 +0000
Subject: [PATCH 15/25] fix: deliver messages with the QoS granted to the
 subscriber

---
 src/broker/client_packet_handler.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index d91fcd5..a9f5cbe 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -232,8 +232,18 @@ impl ClientPacketHandler {
         self.messaging_tx.send(op).await.unwrap();
         let senders_to_publish = rx.await.unwrap();
 
+        // every subscription is granted QoS 0
+        let delivery = PublishPacket::new(
+            publish.message.topic,
+            publish.message.payload,
+            QoS::AtMostOnce,
+            false,
+            None,
+            false,
+        );
+
         for sender in senders_to_publish {
-            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
+            let event = ServerEvent::ControlPacket(Publish(delivery.clone()));
             Self::send(&sender, event).await;
         }
     }
-- 
2.43.0


From db035f41073db107b827a40a52a1c78ec68f35dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:43 +0000
Subject: [PATCH 16/25] fix: only a connection whose CONNECT was accepted may
 act for its client

---
 src/broker/client_packet_handler.rs       | 18 ++++++++++++++++++
 src/broker/messaging/messaging_service.rs | 10 ++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index a9f5cbe..fa7b04f 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -96,6 +96,12 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        if !self.owns_session(&client_id, &tx).await {
+            info!("Client {:?} has no session on this connection", &client_id);
+            let _ = tx.try_send(ServerEvent::Disconnect);
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
@@ -117,6 +123,18 @@ impl ClientPacketHandler {
         };
     }
 
+    async fn owns_session(&self, client_id: &ClientId, sender: &Sender<ServerEvent>) -> bool {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::SessionOwned {
+            client_id: client_id.clone(),
+            sender: sender.clone(),
+            resp: tx,
+        };
+
+        self.messaging_tx.send(op).await.unwrap();
+        rx.await.unwrap()
+    }
+
     async fn on_connect(
         &mut self,
         sender: Sender<ServerEvent>,
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..670b7e2 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -24,6 +24,11 @@ pub enum MessagingOperation {
         client_id: ClientId,
         resp: Responder<bool>,
     },
+    SessionOwned {
+        client_id: ClientId,
+        sender: mpsc::Sender<ServerEvent>,
+        resp: Responder<bool>,
+    },
     SessionInsert {
         session: Session,
         resp: Responder<()>,
@@ -90,6 +95,11 @@ impl MessagingService {
                     let result = self.session_exists(&client_id);
                     let _ = resp.send(result);
                 }
+                MessagingOperation::SessionOwned { client_id, sender, resp } => {
+                    let session = self.session_get(&client_id);
+                    let result = session.map_or(false, |s| s.sender().same_channel(&sender));
+                    let _ = resp.send(result);
+                }
                 MessagingOperation::SessionInsert { session, resp } => {
                     self.session_insert(session);
                     let _ = resp.send(());
-- 
2.43.0


From 695fe6912c058f5118caad595599dd8884280a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:45 +0000
Subject: [PATCH 17/25] fix: a new connection of a client disconnects the
 existing one and starts a fresh session

---
 src/broker/client_packet_handler.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index fa7b04f..762142c 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -177,6 +177,8 @@ impl ClientPacketHandler {
                 // session.set_last_activity(Utc::now());
                 true
             } else {
+                self.end_session(client_id.clone()).await;
+
                 let session = Session::new(
                     client_id,
                     address.ip(),
@@ -218,6 +220,20 @@ impl ClientPacketHandler {
         // );
     }
 
+    /// Ends the session of an earlier connection of the same client.
+    async fn end_session(&mut self, client_id: ClientId) {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::ConnectionDisconnected { client_id, resp: tx };
+
+        self.messaging_tx.send(op).await.unwrap();
+        if let Some(session) = rx.await.unwrap() {
+            // its connection may be stalled, do not wait for it
+            tokio::spawn(async move {
+                Self::send(session.sender(), ServerEvent::Disconnect).await;
+            });
+        }
+    }
+
     async fn on_connection_lost(&mut self, client_id: ClientId) {
         info!("Client {:?} disconnected unexpectedly", &client_id);
 
-- 
2.43.0


From 06ff3cec3183a499ec07d8dcaffcf727e56fc251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 18/25] fix: end the session when the connection is lost

---
 src/broker/client_packet_handler.rs | 7 +++++--
 src/mqtt/events.rs                  | 2 +-
 src/mqtt/listener.rs                | 5 +++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 762142c..8dc953b 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -69,8 +69,11 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                // unless it disconnected or another connection took over
+                                if self.owns_session(&client_id, &tx).await {
+                                    self.on_connection_lost(client_id).await;
+                                }
                             }
                         }
                     }
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..c134964 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -127,6 +127,11 @@ impl MqttListener {
                 error!("Error while sending client event to be processed: {}", &e);
             }
         }
+
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
+        }
         trace!("Client read task ended");
     }
 
-- 
2.43.0


From 07314d7b94de7e0c2de69082a88006d92d355e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 19/25] fix: a second CONNECT and a DISCONNECT end the
 connection

---
 src/mqtt/listener.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index c134964..a093d43 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -121,11 +121,21 @@ impl MqttListener {
         while let Ok(packet) = read_packet(&mut read_stream).await {
             trace!("Read packet: {:?}", &packet);
 
+            if let ControlPacket::Connect(_) = packet {
+                warn!("Client {:?} sent a second CONNECT", &client_id);
+                break;
+            }
+            let is_disconnect = matches!(packet, ControlPacket::Disconnect(_));
+
             let event =
                 ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
             if let Err(e) = client_event_tx.send(event).await {
                 error!("Error while sending client event to be processed: {}", &e);
             }
+
+            if is_disconnect {
+                break;
+            }
         }
 
         let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
-- 
2.43.0


From aafd3f33dcb25b8a2da7b7d51e1d715ec9cb6bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 20/25] fix: refuse an empty client id without a clean session

---
 src/mqtt/listener.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index a093d43..ec3fa00 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -1,5 +1,6 @@
 use crate::mqtt::events::{ClientEvent, ServerEvent};
-use crate::mqtt::packets::ControlPacket;
+use crate::mqtt::packets::connack::ConnAckReturnCode;
+use crate::mqtt::packets::{ConnAckPacket, ControlPacket, ProtocolVersion};
 use crate::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
 use crate::mqtt::transport::packet_decoder::read_packet;
 use crate::mqtt::transport::packet_encoder::write_packet;
@@ -97,6 +98,17 @@ impl MqttListener {
             trace!("Read the first packet: {:?}", &packet);
 
             if let ControlPacket::Connect(mut c) = packet {
+                if c.client_id.is_empty()
+                    && !c.clean_session
+                    && c.version != ProtocolVersion::Unsupported
+                {
+                    warn!("A client without a client id needs a clean session");
+                    let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::IdentifierRejected);
+                    let event = ServerEvent::ControlPacket(ControlPacket::ConnAck(conn_ack));
+                    let _ = server_event_tx.send(event).await;
+                    return;
+                }
+
                 // todo: handle empty client id
                 client_id = if c.client_id.is_empty() {
                     trace!("Client did not provide client id, id will be generated");
-- 
2.43.0


From c111f98d40221dff4a280243141535e4f2df54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:25 +0000
Subject: [PATCH 21/25] fix: ratelmq-passwd changes the entry of exactly the
 given user

---
 ratelmq-passwd/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..2a765c9 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,9 +25,8 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
+    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
         .multi_line(true)
         .build()
         .unwrap();
-- 
2.43.0


From a68aac07e43b4a291a46ba92f811e35e4658bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 22/25] fix: ratelmq-passwd starts a new line after an
 unterminated last entry

---
 ratelmq-passwd/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 2a765c9..8a95f83 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -46,7 +46,11 @@ fn main() {
                 .into_owned(),
         )
     } else if !delete {
-        Some(credentials + build_entry(user_name, password).as_str())
+        let separator = match credentials.is_empty() || credentials.ends_with('\n') {
+            true => "",
+            false => "\n",
+        };
+        Some(credentials + separator + build_entry(user_name, password).as_str())
     } else {
         None
     };
-- 
2.43.0


From 62fc526467c6034ff2cc8ca2b0877642acd986ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:49 +0000
Subject: [PATCH 23/25] fix: the listeners can be set by an environment
 variable, as documented

---
 src/settings/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/settings/mod.rs b/src/settings/mod.rs
index fac0357..785f4ac 100644
--- a/src/settings/mod.rs
+++ b/src/settings/mod.rs
@@ -22,7 +22,15 @@ impl Settings {
         let mut config = Config::new();
 
         config.merge(File::with_name(config_filename).format(FileFormat::Toml))?;
-        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;
+        let mut environment = Config::new();
+        environment.merge(Environment::with_prefix("ratelmq").separator("__"))?;
+
+        // a variable holds a list as comma separated text
+        if let Ok(listeners) = environment.get_str("mqtt.listeners_tcp") {
+            let listeners: Vec<&str> = listeners.split(',').map(str::trim).collect();
+            environment.set("mqtt.listeners_tcp", listeners)?;
+        }
+        config.merge(environment)?;
 
         config.try_into()
     }
-- 
2.43.0


From 2d5d21f23f43e3073b7628229fcf62ceb3d8952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 24/25] fix: ratelmq-passwd refuses user names the file cannot
 hold

---
 ratelmq-passwd/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 8a95f83..3164764 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -80,6 +80,10 @@ fn build_arguments(version: String) -> ArgMatches {
                 .long(ARGUMENT_NAME_USER)
                 .value_name("USER_NAME")
                 .about("User name to modify")
+                .validator(|name| match name.contains(&[':', '\n'][..]) {
+                    true => Err("a user name contains neither a colon nor a line break"),
+                    false => Ok(()),
+                })
                 .required(true)
                 .takes_value(true),
         )
-- 
2.43.0


From 3b397707b23490fbfcbcb3ac83fe1ac1ebc4241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:59 +0000
Subject: [PATCH 25/25] fix: ratelmq-passwd changes every entry of the user,
 not only the first

---
 ratelmq-passwd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 3164764..01b40e5 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -42,7 +42,7 @@ fn main() {
 
         Some(
             regexp
-                .replace(credentials.as_str(), text.as_str())
+                .replace_all(credentials.as_str(), text.as_str())
                 .into_owned(),
         )
     } else if !delete {
-- 
2.43.0

