From 84ef3d4b9758fc68a98d11bcbe84eeb5ce18186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 01/15] fix: v5 Unsubscribe::read must not print debug output
 to stderr

---
 src/v5/unsubscribe.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 201b79a..e2e5b2c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -42,7 +42,6 @@ impl Unsubscribe {
         bytes.advance(variable_header_index);
 
         let pkid = read_u16(&mut bytes)?;
-        dbg!(pkid);
         let properties = UnsubscribeProperties::extract(&mut bytes)?;
 
         let mut filters = Vec::with_capacity(1);
-- 
2.43.0


From c5a22278783149ea5bb7252c5bcdac3a424aa223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 02/15] fix: matches() must not panic when a topic starts with
 a multi-byte character

---
 src/topic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topic.rs b/src/topic.rs
index ea76373..e740f7f 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -53,7 +53,7 @@ pub fn valid_filter(filter: &str) -> bool {
 /// **NOTE**: make sure a topic is validated during a publish and filter is validated
 /// during a subscribe
 pub fn matches(topic: &str, filter: &str) -> bool {
-    if !topic.is_empty() && topic[..1].contains('$') {
+    if topic.starts_with('$') {
         return false;
     }
 
-- 
2.43.0


From 9951d7017143778ceb5a258c06a291a03fe92d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 03/15] fix: valid_filter() must reject '+' that does not
 occupy a whole level

---
 src/topic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/topic.rs b/src/topic.rs
index e740f7f..cf4084b 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -27,6 +27,14 @@ pub fn valid_filter(filter: &str) -> bool {
     }
 
     let hirerarchy = filter.split('/').collect::<Vec<&str>>();
+
+    // + has to occupy an entire level
+    // invalid: sport+
+    // invalid: sport/+tennis/player
+    if hirerarchy.iter().any(|e| e.len() != 1 && e.contains('+')) {
+        return false;
+    }
+
     if let Some((last, remaining)) = hirerarchy.split_last() {
         // # is not allowed in filer except as a last entry
         // invalid: sport/tennis#/player
-- 
2.43.0


From 691cd1d93b0c56b3e62c05d4ae38caade14cd697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 04/15] fix: Connect::write must set its own flags byte when
 the buffer is not empty

---
 src/v4/connect.rs | 3 ++-
 src/v5/connect.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index e92d700..345d768 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -102,6 +102,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
@@ -111,7 +112,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_session {
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c0f4397..5b28064 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -124,6 +124,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
@@ -133,7 +134,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_session {
-- 
2.43.0


From 76f38a51c644df931ece7acaf98d1bf0e4bc5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 05/15] fix: Connect::write must return the number of bytes it
 wrote

---
 src/v4/connect.rs | 2 +-
 src/v5/connect.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index 345d768..725d0d5 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -133,7 +133,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 5b28064..5a45875 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -163,7 +163,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
-- 
2.43.0


From 6aed0ea36204c6a56ab4b0c6f61cc5cad7287fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 06/15] fix: v5 subscription identifier must be counted once
 against the property length

---
 src/v5/publish.rs   | 2 +-
 src/v5/subscribe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 166eb32..4d916f6 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -233,7 +233,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 83f0664..62d1709 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -192,7 +192,7 @@ impl SubscribeProperties {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id)
                 }
-- 
2.43.0


From 5335326bb949d7a5870b62eea3bba38044452774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 07/15] fix: v5 ConnAck without properties must still write its
 property length

---
 src/v5/connack.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 36391f4..327a76d 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -56,6 +56,9 @@ impl ConnAck {
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             len += properties_len_len + properties_len;
+        } else {
+            // just 1 byte representing 0 len
+            len += 1;
         }
 
         len
@@ -89,6 +92,8 @@ impl ConnAck {
 
         if let Some(properties) = &self.properties {
             properties.write(buffer)?;
+        } else {
+            write_remaining_length(buffer, 0)?;
         }
 
         Ok(1 + count + len)
-- 
2.43.0


From 895303b3459d84135984619685610c7c76cdff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 08/15] fix: v5::read must accept a Disconnect of remaining
 length 0

---
 src/v5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 28dcfbb..1177657 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -127,6 +127,10 @@ pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
         return match packet_type {
             PacketType::PingReq => Ok(Packet::PingReq),
             PacketType::PingResp => Ok(Packet::PingResp),
+            PacketType::Disconnect => Ok(Packet::Disconnect(Disconnect::read(
+                fixed_header,
+                packet.freeze(),
+            )?)),
             _ => Err(Error::PayloadRequired),
         };
     }
-- 
2.43.0


From 9d566d012be70408dbe4c792c3b42b650ae26168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 09/15] fix: v5 Disconnect with a reason code and no property
 length must be read

---
 src/v5/disconnect.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 4e12360..c6b2295 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -305,6 +305,14 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // Properties can be omitted along with their length
+        if fixed_header.remaining_len == 1 {
+            return Ok(Self {
+                reason_code: reason_code.try_into()?,
+                properties: None,
+            });
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
-- 
2.43.0


From f993f6d32bced7b6b88c05cb7163c681a4d75dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 10/15] fix: v5 Disconnect with an empty property set must keep
 its reason code

---
 src/v5/disconnect.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index c6b2295..c8cd802 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -263,7 +263,7 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // Reason code and properties are omitted
         }
 
         let mut length = 0;
@@ -326,10 +326,10 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
 
-            return Ok(length);
+            return Ok(2);
         }
 
         let len_len = write_remaining_length(buffer, length)?;
-- 
2.43.0


From e625df8c15c88cd5253d642aec8f510bddfde526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 11/15] fix: v5 Connect of a 3.1.1 client must be read and
 written without properties

---
 src/v5/connect.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 5a45875..e66c41d 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -52,6 +52,8 @@ impl Connect {
                               + 2; // keep alive
 
         match &self.properties {
+            // 3.1.1 doesn't have properties
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -67,7 +69,7 @@ impl Connect {
 
         // last will len
         if let Some(last_will) = &self.last_will {
-            len += last_will.len();
+            len += last_will.len(self.protocol);
         }
 
         // username and password len
@@ -106,7 +108,7 @@ impl Connect {
         };
 
         let client_id = read_mqtt_string(&mut bytes)?;
-        let last_will = LastWill::read(connect_flags, &mut bytes)?;
+        let last_will = LastWill::read(protocol, connect_flags, &mut bytes)?;
         let login = Login::read(connect_flags, &mut bytes)?;
 
         let connect = Connect {
@@ -145,6 +147,7 @@ impl Connect {
         buffer.put_u16(self.keep_alive);
 
         match &self.properties {
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
@@ -154,7 +157,7 @@ impl Connect {
         write_mqtt_string(buffer, &self.client_id);
 
         if let Some(last_will) = &self.last_will {
-            connect_flags |= last_will.write(buffer)?;
+            connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
@@ -193,10 +196,11 @@ impl LastWill {
         }
     }
 
-    fn len(&self) -> usize {
+    fn len(&self, protocol: Protocol) -> usize {
         let mut len = 0;
 
         match &self.properties {
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -212,7 +216,11 @@ impl LastWill {
         len
     }
 
-    fn read(connect_flags: u8, mut bytes: &mut Bytes) -> Result<Option<LastWill>, Error> {
+    fn read(
+        protocol: Protocol,
+        connect_flags: u8,
+        mut bytes: &mut Bytes,
+    ) -> Result<Option<LastWill>, Error> {
         let last_will = match connect_flags & 0b100 {
             0 if (connect_flags & 0b0011_1000) != 0 => {
                 return Err(Error::IncorrectPacketFormat);
@@ -220,7 +228,10 @@ impl LastWill {
             0 => None,
             _ => {
                 // Properties in variable header
-                let properties = WillProperties::read(&mut bytes)?;
+                let properties = match protocol {
+                    Protocol::V5 => WillProperties::read(&mut bytes)?,
+                    Protocol::V4 => None,
+                };
 
                 let will_topic = read_mqtt_string(&mut bytes)?;
                 let will_message = read_mqtt_bytes(&mut bytes)?;
@@ -238,7 +249,7 @@ impl LastWill {
         Ok(last_will)
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
+    fn write(&self, protocol: Protocol, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
 
         connect_flags |= 0x04 | (self.qos as u8) << 3;
@@ -247,6 +258,7 @@ impl LastWill {
         }
 
         match &self.properties {
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
-- 
2.43.0


From 4f2cd327967bfa7afdc96d752a95947ccff2e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 12/15] fix: v5 readers must not ask for more bytes when a
 property length runs past the frame

---
 src/v5/disconnect.rs |  2 +-
 src/v5/mod.rs        | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index c8cd802..46abb98 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -4,7 +4,7 @@ use bytes::{BufMut, BytesMut};
 
 use crate::*;
 
-use super::{property, PropertyType};
+use super::{length, property, PropertyType};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
 #[repr(u8)]
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 1177657..5e01b0b 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -114,6 +114,16 @@ fn property(num: u8) -> Result<PropertyType, Error> {
     Ok(property)
 }
 
+/// Parses a variable byte integer inside a packet. The frame is complete by then. So
+/// unlike in the fixed header, an incomplete integer is an error in the packet and
+/// not a request for more bytes
+fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+    match crate::length(stream) {
+        Err(Error::InsufficientBytes(_)) => Err(Error::MalformedPacket),
+        v => v,
+    }
+}
+
 /// Reads a stream of bytes and extracts next MQTT packet out of it
 pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
     let fixed_header = check(stream.iter(), max_size)?;
-- 
2.43.0


From 73ab6bfe7cb4928eaca1bd7016ea9e109dd8ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 13/15] fix: v5 readers must reject a property that runs past
 the property length

---
 src/v5/connack.rs     | 4 ++++
 src/v5/connect.rs     | 8 ++++++++
 src/v5/disconnect.rs  | 4 ++++
 src/v5/puback.rs      | 4 ++++
 src/v5/pubcomp.rs     | 4 ++++
 src/v5/publish.rs     | 4 ++++
 src/v5/pubrec.rs      | 4 ++++
 src/v5/pubrel.rs      | 4 ++++
 src/v5/suback.rs      | 4 ++++
 src/v5/subscribe.rs   | 4 ++++
 src/v5/unsuback.rs    | 4 ++++
 src/v5/unsubscribe.rs | 4 ++++
 12 files changed, 52 insertions(+)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 327a76d..0685f4d 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -330,6 +330,10 @@ impl ConnAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index e66c41d..9f3316b 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -376,6 +376,10 @@ impl WillProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(WillProperties {
             delay_interval,
             payload_format_indicator,
@@ -595,6 +599,10 @@ impl ConnectProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 46abb98..ca11037 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -212,6 +212,10 @@ impl DisconnectProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 5113194..ae123b2 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -160,6 +160,10 @@ impl PubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 73c019a..2faf2e4 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -148,6 +148,10 @@ impl PubCompProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 4d916f6..0310a78 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -246,6 +246,10 @@ impl PublishProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index a9b0ba0..cbb7ff9 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -156,6 +156,10 @@ impl PubRecProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index e18b465..6b243a7 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -147,6 +147,10 @@ impl PubRelProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 1c8d541..ab1114d 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -137,6 +137,10 @@ impl SubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 62d1709..9ee6e9b 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -206,6 +206,10 @@ impl SubscribeProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 83e7f0d..3bbb16f 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -148,6 +148,10 @@ impl UnsubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index e2e5b2c..a55bfde 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -127,6 +127,10 @@ impl UnsubscribeProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From b20499c5b16764c812af4ea8299b2ac0d5134742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 14/15] fix: strings and binary fields longer than 65535 bytes
 must not be encoded

---
 src/lib.rs            | 12 +++++++++---
 src/v4/connect.rs     | 18 +++++++++---------
 src/v4/publish.rs     |  2 +-
 src/v4/subscribe.rs   |  7 ++++---
 src/v4/unsubscribe.rs |  2 +-
 src/v5/connack.rs     | 16 ++++++++--------
 src/v5/connect.rs     | 36 ++++++++++++++++++------------------
 src/v5/disconnect.rs  |  8 ++++----
 src/v5/puback.rs      |  6 +++---
 src/v5/pubcomp.rs     |  6 +++---
 src/v5/publish.rs     | 12 ++++++------
 src/v5/pubrec.rs      |  6 +++---
 src/v5/pubrel.rs      |  6 +++---
 src/v5/suback.rs      |  6 +++---
 src/v5/subscribe.rs   | 11 ++++++-----
 src/v5/unsuback.rs    |  6 +++---
 src/v5/unsubscribe.rs |  6 +++---
 17 files changed, 87 insertions(+), 79 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2c046a3..4894c05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -249,14 +249,20 @@ fn read_mqtt_string(stream: &mut Bytes) -> Result<String, Error> {
 }
 
 /// Serializes bytes to stream (including length)
-fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) {
+fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) -> Result<(), Error> {
+    // the length prefix is only 2 bytes wide
+    if bytes.len() > u16::MAX as usize {
+        return Err(Error::PayloadTooLong);
+    }
+
     stream.put_u16(bytes.len() as u16);
     stream.extend_from_slice(bytes);
+    Ok(())
 }
 
 /// Serializes a string to stream
-fn write_mqtt_string(stream: &mut BytesMut, string: &str) {
-    write_mqtt_bytes(stream, string.as_bytes());
+fn write_mqtt_string(stream: &mut BytesMut, string: &str) -> Result<(), Error> {
+    write_mqtt_bytes(stream, string.as_bytes())
 }
 
 /// Writes remaining length to stream and returns number of bytes for remaining length
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index 725d0d5..7aade15 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -105,7 +105,7 @@ impl Connect {
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, "MQTT");
+        write_mqtt_string(buffer, "MQTT")?;
 
         match self.protocol {
             Protocol::V4 => buffer.put_u8(0x04),
@@ -121,14 +121,14 @@ impl Connect {
 
         buffer.put_u8(connect_flags);
         buffer.put_u16(self.keep_alive);
-        write_mqtt_string(buffer, &self.client_id);
+        write_mqtt_string(buffer, &self.client_id)?;
 
         if let Some(last_will) = &self.last_will {
             connect_flags |= last_will.write(buffer)?;
         }
 
         if let Some(login) = &self.login {
-            connect_flags |= login.write(buffer);
+            connect_flags |= login.write(buffer)?;
         }
 
         // update connect flags
@@ -197,8 +197,8 @@ impl LastWill {
             connect_flags |= 0x20;
         }
 
-        write_mqtt_string(buffer, &self.topic);
-        write_mqtt_bytes(buffer, &self.message);
+        write_mqtt_string(buffer, &self.topic)?;
+        write_mqtt_bytes(buffer, &self.message)?;
         Ok(connect_flags)
     }
 }
@@ -249,19 +249,19 @@ impl Login {
         len
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> u8 {
+    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
         if !self.username.is_empty() {
             connect_flags |= 0x80;
-            write_mqtt_string(buffer, &self.username);
+            write_mqtt_string(buffer, &self.username)?;
         }
 
         if !self.password.is_empty() {
             connect_flags |= 0x40;
-            write_mqtt_string(buffer, &self.password);
+            write_mqtt_string(buffer, &self.password)?;
         }
 
-        connect_flags
+        Ok(connect_flags)
     }
 
     pub fn validate(&self, username: &String, password: &String ) -> bool {
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 0f49531..89c0a99 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -88,7 +88,7 @@ impl Publish {
         buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
 
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, self.topic.as_str());
+        write_mqtt_string(buffer, self.topic.as_str())?;
 
         if self.qos != QoS::AtMostOnce {
             let pkid = self.pkid;
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index 3bb386d..e05646a 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -87,7 +87,7 @@ impl Subscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            filter.write(buffer);
+            filter.write(buffer)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -111,12 +111,13 @@ impl SubscribeFilter {
         2 + self.path.len() + 1
     }
 
-    fn write(&self, buffer: &mut BytesMut) {
+    fn write(&self, buffer: &mut BytesMut) -> Result<(), Error> {
         let mut options = 0;
         options |= self.qos as u8;
 
-        write_mqtt_string(buffer, self.path.as_str());
+        write_mqtt_string(buffer, self.path.as_str())?;
         buffer.put_u8(options);
+        Ok(())
     }
 }
 
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 9c32cc5..2ba45c9 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -47,7 +47,7 @@ impl Unsubscribe {
         payload.put_u16(self.pkid);
 
         for topic in self.topics.iter() {
-            write_mqtt_string(payload, topic.as_str());
+            write_mqtt_string(payload, topic.as_str())?;
         }
         Ok(1 + remaining_len_bytes + remaining_len)
     }
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 0685f4d..f3eebe1 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -386,7 +386,7 @@ impl ConnAckProperties {
 
         if let Some(id) = &self.assigned_client_identifier {
             buffer.put_u8(PropertyType::AssignedClientIdentifier as u8);
-            write_mqtt_string(buffer, id);
+            write_mqtt_string(buffer, id)?;
         }
 
         if let Some(topic_alias_max) = self.topic_alias_max {
@@ -396,13 +396,13 @@ impl ConnAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(w) = self.wildcard_subscription_available {
@@ -427,22 +427,22 @@ impl ConnAckProperties {
 
         if let Some(info) = &self.response_information {
             buffer.put_u8(PropertyType::ResponseInformation as u8);
-            write_mqtt_string(buffer, info);
+            write_mqtt_string(buffer, info)?;
         }
 
         if let Some(reference) = &self.server_reference {
             buffer.put_u8(PropertyType::ServerReference as u8);
-            write_mqtt_string(buffer, reference);
+            write_mqtt_string(buffer, reference)?;
         }
 
         if let Some(authentication_method) = &self.authentication_method {
             buffer.put_u8(PropertyType::AuthenticationMethod as u8);
-            write_mqtt_string(buffer, authentication_method);
+            write_mqtt_string(buffer, authentication_method)?;
         }
 
         if let Some(authentication_data) = &self.authentication_data {
             buffer.put_u8(PropertyType::AuthenticationData as u8);
-            write_mqtt_bytes(buffer, authentication_data);
+            write_mqtt_bytes(buffer, authentication_data)?;
         }
 
         Ok(())
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 9f3316b..623656c 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -129,7 +129,7 @@ impl Connect {
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, "MQTT");
+        write_mqtt_string(buffer, "MQTT")?;
 
         match self.protocol {
             Protocol::V4 => buffer.put_u8(0x04),
@@ -154,14 +154,14 @@ impl Connect {
             }
         };
 
-        write_mqtt_string(buffer, &self.client_id);
+        write_mqtt_string(buffer, &self.client_id)?;
 
         if let Some(last_will) = &self.last_will {
             connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
-            connect_flags |= login.write(buffer);
+            connect_flags |= login.write(buffer)?;
         }
 
         // update connect flags
@@ -265,8 +265,8 @@ impl LastWill {
             }
         };
 
-        write_mqtt_string(buffer, &self.topic);
-        write_mqtt_bytes(buffer, &self.message);
+        write_mqtt_string(buffer, &self.topic)?;
+        write_mqtt_bytes(buffer, &self.message)?;
         Ok(connect_flags)
     }
 }
@@ -412,23 +412,23 @@ impl WillProperties {
 
         if let Some(typ) = &self.content_type {
             buffer.put_u8(PropertyType::ContentType as u8);
-            write_mqtt_string(buffer, typ);
+            write_mqtt_string(buffer, typ)?;
         }
 
         if let Some(topic) = &self.response_topic {
             buffer.put_u8(PropertyType::ResponseTopic as u8);
-            write_mqtt_string(buffer, topic);
+            write_mqtt_string(buffer, topic)?;
         }
 
         if let Some(data) = &self.correlation_data {
             buffer.put_u8(PropertyType::CorrelationData as u8);
-            write_mqtt_bytes(buffer, data);
+            write_mqtt_bytes(buffer, data)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
@@ -481,19 +481,19 @@ impl Login {
         len
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> u8 {
+    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
         if !self.username.is_empty() {
             connect_flags |= 0x80;
-            write_mqtt_string(buffer, &self.username);
+            write_mqtt_string(buffer, &self.username)?;
         }
 
         if !self.password.is_empty() {
             connect_flags |= 0x40;
-            write_mqtt_string(buffer, &self.password);
+            write_mqtt_string(buffer, &self.password)?;
         }
 
-        connect_flags
+        Ok(connect_flags)
     }
 }
 
@@ -694,18 +694,18 @@ impl ConnectProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(authentication_method) = &self.authentication_method {
             buffer.put_u8(PropertyType::AuthenticationMethod as u8);
-            write_mqtt_string(buffer, authentication_method);
+            write_mqtt_string(buffer, authentication_method)?;
         }
 
         if let Some(authentication_data) = &self.authentication_data {
             buffer.put_u8(PropertyType::AuthenticationData as u8);
-            write_mqtt_bytes(buffer, authentication_data);
+            write_mqtt_bytes(buffer, authentication_data)?;
         }
 
         Ok(())
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index ca11037..5ee3f92 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -237,18 +237,18 @@ impl DisconnectProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(reference) = &self.server_reference {
             buffer.put_u8(PropertyType::ServerReference as u8);
-            write_mqtt_string(buffer, reference);
+            write_mqtt_string(buffer, reference)?;
         }
 
         Ok(())
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index ae123b2..404a7c7 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -176,13 +176,13 @@ impl PubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 2faf2e4..5e17c3b 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -164,13 +164,13 @@ impl PubCompProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 0310a78..ebea4b0 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -104,7 +104,7 @@ impl Publish {
         buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
 
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, self.topic.as_str());
+        write_mqtt_string(buffer, self.topic.as_str())?;
 
         if self.qos != QoS::AtMostOnce {
             let pkid = self.pkid;
@@ -283,18 +283,18 @@ impl PublishProperties {
 
         if let Some(topic) = &self.response_topic {
             buffer.put_u8(PropertyType::ResponseTopic as u8);
-            write_mqtt_string(buffer, topic);
+            write_mqtt_string(buffer, topic)?;
         }
 
         if let Some(data) = &self.correlation_data {
             buffer.put_u8(PropertyType::CorrelationData as u8);
-            write_mqtt_bytes(buffer, data);
+            write_mqtt_bytes(buffer, data)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         for id in self.subscription_identifiers.iter() {
@@ -304,7 +304,7 @@ impl PublishProperties {
 
         if let Some(typ) = &self.content_type {
             buffer.put_u8(PropertyType::ContentType as u8);
-            write_mqtt_string(buffer, typ);
+            write_mqtt_string(buffer, typ)?;
         }
 
         Ok(())
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index cbb7ff9..b6eb69a 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -172,13 +172,13 @@ impl PubRecProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index 6b243a7..f15227a 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -163,13 +163,13 @@ impl PubRelProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index ab1114d..a3f7830 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -153,13 +153,13 @@ impl SubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 9ee6e9b..3ee08bf 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -143,7 +143,7 @@ impl Subscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            filter.write(buffer);
+            filter.write(buffer)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -227,8 +227,8 @@ impl SubscribeProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
@@ -276,7 +276,7 @@ impl SubscribeFilter {
         2 + self.path.len() + 1
     }
 
-    fn write(&self, buffer: &mut BytesMut) {
+    fn write(&self, buffer: &mut BytesMut) -> Result<(), Error> {
         let mut options = 0;
         options |= self.qos as u8;
 
@@ -294,8 +294,9 @@ impl SubscribeFilter {
             RetainForwardRule::Never => options |= 2 << 4,
         }
 
-        write_mqtt_string(buffer, self.path.as_str());
+        write_mqtt_string(buffer, self.path.as_str())?;
         buffer.put_u8(options);
+        Ok(())
     }
 }
 
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 3bbb16f..4cbba68 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -164,13 +164,13 @@ impl UnsubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index a55bfde..f147cd4 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -77,7 +77,7 @@ impl Unsubscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            write_mqtt_string(buffer, filter);
+            write_mqtt_string(buffer, filter)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -140,8 +140,8 @@ impl UnsubscribeProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
-- 
2.43.0


From 3a2ea8306ee049d04f6eac9eca25bed058526567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 15/15] fix: a packet that cannot be encoded must leave the
 buffer as it was

---
 src/lib.rs            | 15 +++++++++++++++
 src/v4/connect.rs     |  4 ++++
 src/v4/publish.rs     |  4 ++++
 src/v4/suback.rs      |  4 ++++
 src/v4/subscribe.rs   |  4 ++++
 src/v4/unsubscribe.rs |  4 ++++
 src/v5/connack.rs     |  4 ++++
 src/v5/connect.rs     |  4 ++++
 src/v5/disconnect.rs  |  4 ++++
 src/v5/puback.rs      |  4 ++++
 src/v5/pubcomp.rs     |  4 ++++
 src/v5/publish.rs     |  4 ++++
 src/v5/pubrec.rs      |  4 ++++
 src/v5/pubrel.rs      |  4 ++++
 src/v5/suback.rs      |  4 ++++
 src/v5/subscribe.rs   |  4 ++++
 src/v5/unsuback.rs    |  4 ++++
 src/v5/unsubscribe.rs |  4 ++++
 18 files changed, 83 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4894c05..a7d1600 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -265,6 +265,21 @@ fn write_mqtt_string(stream: &mut BytesMut, string: &str) -> Result<(), Error> {
     write_mqtt_bytes(stream, string.as_bytes())
 }
 
+/// Serializes a packet to stream. A packet which can't be encoded doesn't leave
+/// anything behind in the stream
+fn write_packet<F>(stream: &mut BytesMut, encode: F) -> Result<usize, Error>
+where
+    F: FnOnce(&mut BytesMut) -> Result<usize, Error>,
+{
+    let start = stream.len();
+    let written = encode(stream);
+    if written.is_err() {
+        stream.truncate(start);
+    }
+
+    written
+}
+
 /// Writes remaining length to stream and returns number of bytes for remaining length
 fn write_remaining_length(stream: &mut BytesMut, len: usize) -> Result<usize, Error> {
     if len > 268_435_455 {
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index 7aade15..7872cd4 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -101,6 +101,10 @@ impl Connect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 89c0a99..4429832 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -80,6 +80,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
 
         let dup = self.dup as u8;
diff --git a/src/v4/suback.rs b/src/v4/suback.rs
index 198d6a9..7bb0fa3 100644
--- a/src/v4/suback.rs
+++ b/src/v4/suback.rs
@@ -40,6 +40,10 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index e05646a..2f86c07 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -75,6 +75,10 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 2ba45c9..fab5710 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -37,6 +37,10 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, payload: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(payload, |payload| self.encode(payload))
+    }
+
+    fn encode(&self, payload: &mut BytesMut) -> Result<usize, Error> {
         let remaining_len = 2 + self
             .topics
             .iter()
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index f3eebe1..1f8d279 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -83,6 +83,10 @@ impl ConnAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x20);
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 623656c..6825a38 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -125,6 +125,10 @@ impl Connect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 5ee3f92..363cecd 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -326,6 +326,10 @@ impl Disconnect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xE0);
 
         let length = self.len();
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 404a7c7..dd1e52e 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -87,6 +87,10 @@ impl PubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x40);
 
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 5e17c3b..a3d3b66 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -75,6 +75,10 @@ impl PubComp {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x70);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index ebea4b0..f1fb953 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -96,6 +96,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
 
         let dup = self.dup as u8;
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index b6eb69a..14580db 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -83,6 +83,10 @@ impl PubRec {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x50);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index f15227a..c539efb 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -74,6 +74,10 @@ impl PubRel {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x62);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index a3f7830..197fea9 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -65,6 +65,10 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 3ee08bf..54e66b8 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -124,6 +124,10 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 4cbba68..a6408b1 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -76,6 +76,10 @@ impl UnsubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xB0);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index f147cd4..6f05ccf 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -59,6 +59,10 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_packet(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xA2);
 
         // write remaining length
-- 
2.43.0

