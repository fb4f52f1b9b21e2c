From 7b89ba9c4264e29643568363c420d6862dc47801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:43 +0000
Subject: [PATCH 01/36] fix: address text uses the KNX field widths (2-level is
 5/11 bits, out-of-range fields are rejected)

---
 src/packets/addresses.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..4acbac0 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -22,7 +22,7 @@ impl KnxAddress {
     }
 
     pub fn group_2_level(main: u8, sub: u8) -> Self {
-        Self::Group2Level(Group2LevelAddress { main, sub })
+        Self::Group2Level(Group2LevelAddress { main, sub: sub as u16 })
     }
 
     pub fn group_3_level(main: u8, middle: u8, sub: u8) -> Self {
@@ -60,25 +60,29 @@ impl TryFrom<&str> for KnxAddress {
             } else if parts.len() == 2 {
                 let main = parts.first().unwrap();
                 let main = match main.parse::<u8>() {
-                    Ok(main) => main,
+                    Ok(main) if main <= 31 => main,
+                    Ok(main) => whatever!("Main address {} out of range 0-31", main),
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let sub = parts.get(1).unwrap();
-                let sub = match sub.parse::<u8>() {
-                    Ok(sub) => sub,
+                let sub = match sub.parse::<u16>() {
+                    Ok(sub) if sub <= 2047 => sub,
+                    Ok(sub) => whatever!("Sub address {} out of range 0-2047", sub),
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
 
-                Ok(Self::group_2_level(main, sub))
+                Ok(Self::Group2Level(Group2LevelAddress { main, sub }))
             } else if parts.len() == 3 {
                 let main = parts.first().unwrap();
                 let main = match main.parse::<u8>() {
-                    Ok(main) => main,
+                    Ok(main) if main <= 31 => main,
+                    Ok(main) => whatever!("Main address {} out of range 0-31", main),
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let mid = parts.get(1).unwrap();
                 let mid = match mid.parse::<u8>() {
-                    Ok(mid) => mid,
+                    Ok(mid) if mid <= 7 => mid,
+                    Ok(mid) => whatever!("Mid address {} out of range 0-7", mid),
                     Err(e) => whatever!("Unable to parse mid address {:?}", e),
                 };
                 let sub = parts.get(2).unwrap();
@@ -133,11 +137,13 @@ impl TryFrom<&str> for IndividualAddress {
             whatever!("Individial address should be in the format area.line.address instead of {:?}", value);
         }
         let area = match parts.first().unwrap().parse::<u8>() {
-            Ok(a) => a,
+            Ok(a) if a <= 15 => a,
+            Ok(a) => whatever!("Area {} out of range 0-15", a),
             Err(e) => whatever!("Unable to parse area value {:?}, error {:?}", parts.first(), e),
         };
         let line = match parts.get(1).unwrap().parse::<u8>() {
-            Ok(l) => l,
+            Ok(l) if l <= 15 => l,
+            Ok(l) => whatever!("Line {} out of range 0-15", l),
             Err(e) => whatever!("Unable to parse line value {:?}, error {:?}", parts.get(1), e),
         };
         let address = match parts.get(2).unwrap().parse::<u8>() {
@@ -177,7 +183,8 @@ impl TryFrom<&str> for Group3LevelAddress {
         }
 
         match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {
-            (Ok(main), Ok(middle), Ok(sub)) => Ok(Self { main, middle, sub }),
+            (Ok(main), Ok(middle), Ok(sub)) if main <= 31 && middle <= 7 => Ok(Self { main, middle, sub }),
+            (Ok(_), Ok(_), Ok(_)) => whatever!("Group address {:?} out of range", value),
             _ => whatever!("Unable to parse parts in u8"),
         }
     }
@@ -207,7 +214,7 @@ impl Group3LevelAddress {
 
 pub struct Group2LevelAddress {
     main: u8,
-    sub: u8,
+    sub: u16,
 }
 
 impl fmt::Debug for Group2LevelAddress {
@@ -219,8 +226,8 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
-        addr |= (self.sub) as u16;
+        addr |= (self.main as u16) << 11_u16;
+        addr |= self.sub;
 
         addr
     }
-- 
2.43.0


From 7c1234ae3e773d34504ca84f2541908e7f0307dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:43 +0000
Subject: [PATCH 02/36] fix: 2-byte float encoding at mantissa limits, for tiny
 negatives and beyond the range

---
 src/dp_types.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 89cb7ed..703d668 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -226,20 +226,23 @@ fn _float_to_bytes(value: f32) -> Vec<u8> {
 // https://github.com/calimero-project/calimero-core/blob/d6fee46dbfeda9ddc90e77e25444dc1b1dd98f82/src/tuwien/auto/calimero/dptxlator/DPTXlator2ByteFloat.java#L300
 //
 fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
-    let mut v = v * 100.0;
+    // Values out of range saturate to the nearest end of the range
+    //
+    let mut v = (v * 100.0).clamp(-2048.0 * 32768.0, 2047.0 * 32768.0);
     let mut exp = 0;
-    while v < -2048.0 {
+    while v.round() < -2048.0 {
         v /= 2.0;
         exp += 1;
     }
-    while v > 2048.0 {
+    while v.round() > 2047.0 {
         v /= 2.0;
         exp += 1;
     }
 
-    let m = v.round() as i16 & 0x7ff;
+    let rounded = v.round() as i16;
+    let m = rounded & 0x7ff;
     let mut msb: u8 = (exp << 3 | m >> 8) as u8;
-    if v < 0.0 {
+    if rounded < 0 {
         msb |= 0x80;
     }
     let lsb = (m & 0xff) as u8;
-- 
2.43.0


From d26d34b8c9b4fe9d88aa72185b4695fa8fe99833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:43 +0000
Subject: [PATCH 03/36] fix: 2-byte float decoding of large exponents and of
 the most negative mantissa

---
 src/dp_types.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 703d668..d01f346 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -254,19 +254,15 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
         Ok(v) => v,
         Err(e) => whatever!("Wrong bytes count, {:?}", e),
     });
-    let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
-    let mut exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
-    if (exp & 8) > 0 {
-        exp -= 1;
-        exp ^= 0xf;
-        exp += -1;
-    }
-    let mut mantissa = value & 0x07ff;
-    if sign < 0.0 {
-        mantissa -= 1;
-        mantissa ^= 0x7ff;
-    }
-    let mantissa: f32 = mantissa as f32 * sign;
+    // Exponent is unsigned, mantissa is a 12 bit two's complement value
+    // with the sign in the most significant bit
+    //
+    let exp = (value & 0b0111_1000_0000_0000) >> 11;
+    let mut mantissa = (value & 0x07ff) as i16;
+    if value & 0x8000 > 0 {
+        mantissa -= 2048;
+    }
+    let mantissa = mantissa as f32;
     Ok((0.01 * mantissa) * (1 << exp) as f32)
 }
 
-- 
2.43.0


From 6cdec80b8266ceb4944976c100a51edc86041188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:43 +0000
Subject: [PATCH 04/36] fix: PdtKnxByte::is_small no longer panics, decoded
 12.x and 3.x values keep their type code

---
 src/dp_types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index d01f346..7023ce1 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -299,7 +299,7 @@ impl Pdt<u8> for PdtKnxByte {
     }
 
     fn is_small(&self) -> bool {
-        todo!()
+        false
     }
 }
 
@@ -369,7 +369,7 @@ impl Pdt<u32> for PdtKnxULong {
         let mut reader = Cursor::new(b);
         let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
         Ok(Self {
-            code: "8.x".to_string(),
+            code: "12.x".to_string(),
             value,
         })
     }
@@ -452,7 +452,7 @@ impl Pdt<u8> for PdtKnxB1U3 {
     {
         let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
         Ok(Self {
-            code: "0.x".to_string(),
+            code: "3.x".to_string(),
             bit: (value & 8) > 0,
             step: value & 0b111,
         })
-- 
2.43.0


From edbb181d0879925450c7e51be396d0261005987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 05/36] fix: a short group write without data bytes no longer
 panics

---
 src/packets/apdu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 2d50caf..ea489d6 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -28,7 +28,7 @@ impl APDU {
     }
 
     pub fn group_value_write(data: Vec<u8>, small: bool) -> Self {
-        let data = if small { APDUData::Small(data[0]) } else { APDUData::Big(data) };
+        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
         Self {
             apci: APCI::a_group_value_write(),
             data,
-- 
2.43.0


From a6c9787911c504494ab5b474c5336da0c6403ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 06/36] fix: requests to individual addresses are not marked as
 group addressed

---
 src/packets/emi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..8691996 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -167,7 +167,10 @@ impl LDataReqMessage {
         control |= 1 << 4; // Domain broadcast
         control |= (self.priority & 0x3) << 2;
 
-        let control2 = 0xe0u8;
+        let mut control2 = 0x60u8; // Hop count 6
+        if !matches!(self.dest_address, KnxAddress::Individual(_)) {
+            control2 |= 1 << 7; // Destination is a group address
+        }
         let mut packet = vec![CEMIMessageCode::LDataReq as u8, 0, control, control2, 0, 0];
 
         // packet.write_u16::<BigEndian>(0).unwrap();
-- 
2.43.0


From 2626d4015552be6436207ba43b16f9e1d7fa2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 07/36] fix: cEMI additional infos that are cut short or
 overrun their declared size are rejected

---
 src/packets/emi.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 8691996..4245347 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -1,7 +1,7 @@
 use super::{addresses::KnxAddress, tpdu::TPDU};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use log::{debug, warn};
-use snafu::{whatever, Whatever};
+use snafu::{ensure_whatever, whatever, Whatever};
 use std::io::{Cursor, Read};
 use tracing::instrument;
 
@@ -207,8 +207,8 @@ impl CEMI {
         };
 
         let mut additional_infos = Vec::new();
-        let mut position = 0;
-        while position < additional_infos_size {
+        let mut position = 0usize;
+        while position < additional_infos_size as usize {
             let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
                 Ok(info_type) => match info_type.try_into() {
                     Ok(t) => t,
@@ -221,8 +221,15 @@ impl CEMI {
                 Err(e) => whatever!("Unable to read addition info size {:?}", e),
             };
 
+            position += additional_info_size as usize + 2;
+            ensure_whatever!(
+                position <= additional_infos_size as usize,
+                "Additional info exceeds declared additional infos size {}",
+                additional_infos_size
+            );
+
             let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
@@ -230,7 +237,6 @@ impl CEMI {
                 info_type: additional_info_type,
                 value: additional_info,
             });
-            position += additional_info_size + 2;
         }
 
         let mut service_info = Vec::new();
-- 
2.43.0


From 8c2e83c99fe0ac898118cd35e42f6a29a2e61e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 08/36] fix: an L_Data.ind shorter than its length field is
 rejected instead of zero filled

---
 src/packets/emi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 4245347..06c25cc 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
-- 
2.43.0


From a0f797639e3779e1c18cca839ac2bf4b0782ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 09/36] fix: tunnelling requests with a wrong or unreached
 total length are rejected, not panicked on or zero filled

---
 src/packets/tunneling.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..bc8a4a2 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -47,7 +47,10 @@ impl TunnelingRequest {
         };
 
         let size = match packet_reader.read_u16::<BigEndian>() {
-            Ok(size) => size,
+            Ok(size) => {
+                ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
+                size
+            }
             Err(e) => whatever!("Unable to read packet size {:?}", e),
         };
 
@@ -74,7 +77,7 @@ impl TunnelingRequest {
         };
 
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From 759a4ffdf996c76feb531bcba905fddc05e584bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 10/36] fix: FeatureResp is built as a feature response with
 its status

---
 src/packets/tunneling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index bc8a4a2..f04e51e 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -209,13 +209,13 @@ pub struct FeatureResp {
 
 impl FeatureResp {
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
+        let mut packet = vec![0x06, 0x10, 0x04, 0x23, 0, 0x0d];
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
         packet.write_u8(0).unwrap();
         packet.write_u8(self.feature as u8).unwrap();
-        packet.write_u8(0).unwrap();
+        packet.write_u8(self.status).unwrap();
         packet.write_u8(self.value).unwrap();
         packet
     }
-- 
2.43.0


From c85d660d9364e5ae951a7ab07a2ab18adc80770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 11/36] fix: a built connection response has a complete header

---
 src/packets/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..41fd8ef 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -293,9 +293,15 @@ impl ConnectionResponse {
     }
 
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x08, self.communication_channel_id, self.status];
-        packet.extend_from_slice(&self.data_endpoint.packet());
-        packet.extend_from_slice(&self.crd.packet());
+        let mut packet = vec![0x06, 0x10, 0x02, 0x06];
+        let mut data_endpoint_packet = self.data_endpoint.packet();
+        let mut crd_packet = self.crd.packet();
+        let size = packet.len() + 4 + data_endpoint_packet.len() + crd_packet.len();
+        packet.write_u16::<BigEndian>(size as u16).unwrap();
+        packet.write_u8(self.communication_channel_id).unwrap();
+        packet.write_u8(self.status).unwrap();
+        packet.append(&mut data_endpoint_packet);
+        packet.append(&mut crd_packet);
         packet
     }
 }
-- 
2.43.0


From fa8aa904205a68d2dcf99c30073c1f4f7f611746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 12/36] fix: disconnect requests are parsed with their
 KNXnet/IP header

---
 src/packets/core.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 41fd8ef..0ea342c 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -482,13 +482,12 @@ impl DisconnectRequest {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
-        let header_size = match packet_reader.read_u8() {
-            Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
-                header_size
-            }
-            Err(e) => whatever!("Unable to read header size {:?}", e),
-        };
+        let header = KnxNetIpHeader::from_packet(packet_reader)?;
+        ensure_whatever!(
+            header.service_type_identifier == 0x0209,
+            "Disconnect request should be 0x0209 instead of {:2X}",
+            header.service_type_identifier
+        );
 
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
-- 
2.43.0


From 4c8636bc7141581f1713e0acd92efac7084156b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 13/36] fix: a built search response contains the headers of
 its description blocks

---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 0ea342c..f4bf442 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -662,8 +662,8 @@ impl SearchResponse {
         let mut packet = vec![0x06, 0x10, 0x02, 0x02];
 
         let mut control_endpoint_packet = self.control_endpoint.packet();
-        let mut device_hardware_packet = self.device_hardware.packet();
-        let mut supported_service_families_packet = self.supported_service_families.packet();
+        let mut device_hardware_packet = DIB::DeviceInformation(self.device_hardware.clone()).packet();
+        let mut supported_service_families_packet = DIB::SupportedServiceFamilies(self.supported_service_families.clone()).packet();
         let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();
 
         packet.write_u16::<BigEndian>(size as u16).unwrap();
-- 
2.43.0


From 454206bc9db1a6006e41808d42bec19cb37399b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 14/36] fix: the declared length of a description block
 includes its padding

---
 src/packets/core.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index f4bf442..c4bb40a 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -849,14 +849,14 @@ impl DIB {
             Self::ManufacturerData(manufacturer_data) => (DescriptionTypeCode::ManufacturerData, manufacturer_data.packet()),
         };
 
-        let structure_length = 2 + data_packet.len();
+        // 7.5.4.1
+        // Structure length must be even. Add a padding of 0x00 if necessary.
+        let padding = data_packet.len() % 2;
+        let structure_length = 2 + data_packet.len() + padding;
         packet.write_u8(structure_length as u8).unwrap();
         packet.write_u8(type_code as u8).unwrap();
         packet.extend_from_slice(&data_packet);
-
-        // 7.5.4.1
-        // Structure length must be even. Add a padding of 0x00 if necessary.
-        if structure_length % 2 != 0 {
+        if padding != 0 {
             packet.write_u8(0x00).unwrap();
         }
 
-- 
2.43.0


From 3e7698572853bf378df10904833dca90b5299336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 15/36] fix: description block lengths below the minimum are
 rejected, manufacturer data excludes its header

---
 src/packets/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index c4bb40a..e3f1a4b 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1077,6 +1077,7 @@ impl SupportedServiceFamiliesDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length >= 2, "Structure length should be at least 2 instead of {}", structure_length);
         let mut service_families = Vec::new();
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
@@ -1279,7 +1280,9 @@ impl ManufacturerDataDIB {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let knx_manufacturer_id = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read knx manufacturer id")?;
 
-        let mut manufacturer_specific_data = vec![0; structure_length as usize];
+        ensure_whatever!(structure_length >= 4, "Structure length should be at least 4 instead of {}", structure_length);
+        // -4 because of length, type and manufacturer id
+        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
         packet_reader
             .read_exact(&mut manufacturer_specific_data)
             .whatever_context("Unable to read manufacturer specific data")?;
-- 
2.43.0


From 2a759cac2baa7209409f7cd5f27aa40af232a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 16/36] fix: the KNX addresses block holds 2 byte individual
 addresses

---
 src/packets/core.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index e3f1a4b..5981efd 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1219,41 +1219,40 @@ impl IpCurrentConfigDIB {
 pub struct KNXAddressesDIB {
     pub structure_length: u8,
     pub description_type_code: DescriptionTypeCode,
-    pub knx_individual_address: Ipv4Addr,
-    pub additional_individual_addresses: Vec<Ipv4Addr>,
+    pub knx_individual_address: IndividualAddress,
+    pub additional_individual_addresses: Vec<IndividualAddress>,
 }
 
 impl KNXAddressesDIB {
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = Vec::new();
-        packet.extend_from_slice(&self.knx_individual_address.octets());
+        packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();
         for address in &self.additional_individual_addresses {
-            packet.extend_from_slice(&address.octets());
+            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
         }
         packet
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
-        let mut knx_individual_address = [0; 4];
-        packet_reader
-            .read_exact(&mut knx_individual_address)
+        ensure_whatever!(structure_length >= 4, "Structure length should be at least 4 instead of {}", structure_length);
+        let knx_individual_address = packet_reader
+            .read_u16::<BigEndian>()
             .whatever_context("Unable to read knx individual address")?;
 
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
-            // - 1 byte structure length - 2 byte description type code  - 2 bytes knx individual address
-            let mut additional_individual_address = [0; 4];
-            packet_reader
-                .read_exact(&mut additional_individual_address)
+            // - 1 byte structure length - 1 byte description type code  - 2 bytes knx individual address
+            let additional_individual_address = packet_reader
+                .read_u16::<BigEndian>()
                 .whatever_context("Unable to read additional individual address")?;
-            additional_individual_addresses.push(Ipv4Addr::from(additional_individual_address));
+            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
         }
 
         Ok(Self {
             structure_length,
             description_type_code: DescriptionTypeCode::KNXAddresses,
-            knx_individual_address: Ipv4Addr::from(knx_individual_address),
+            knx_individual_address: IndividualAddress::from_u16(knx_individual_address),
             additional_individual_addresses,
         })
     }
-- 
2.43.0


From 6c14a35fff78213e72b831f9b714457c87867fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 17/36] fix: device names shorter than 30 characters are
 accepted and padded

---
 src/packets/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 5981efd..187c0d9 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -961,9 +961,13 @@ impl DeviceInformationDIB {
         mac_address: [u8; 6],
         friendly_name: String,
     ) -> Result<Self, Whatever> {
-        let friendly_name = ISO_8859_1
+        let mut friendly_name = ISO_8859_1
             .encode(&friendly_name, EncoderTrap::Strict)
             .whatever_context("Unable to encode device friendly name")?;
+        // Shorter names are padded with 0x00
+        if friendly_name.len() < 30 {
+            friendly_name.resize(30, 0x00);
+        }
         let friendly_name = friendly_name
             .try_into()
             .map_err(|_err| "")
-- 
2.43.0


From 5480abcd04bca5324584e5ed8f54df4f2b06636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:46 +0000
Subject: [PATCH 18/36] fix: datagrams are parsed without trailing buffer
 bytes, malformed or unknown ones no longer drop the tunnel

---
 src/transport/udp.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..2c921fe 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -23,6 +23,10 @@ use crate::packets::{
     tunneling::{TunnelingAck, TunnelingRequest},
 };
 
+// Size of the receive buffers, big enough for any KNXnet/IP frame
+//
+const MAX_DATAGRAM_SIZE: usize = 2048;
+
 struct ConnectionData {
     communication_channel_id: u8,
     control_endpoint: HPAI,
@@ -405,12 +409,18 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 }
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+    let mut data = vec![0; MAX_DATAGRAM_SIZE];
     loop {
-        let mut data = vec![0; 100];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
 
         if count > 0 {
-            let resp = parse_response(data)?;
+            let resp = match parse_response(data[..count].to_vec()) {
+                Ok(resp) => resp,
+                Err(e) => {
+                    warn!("Ignored malformed or unknown packet {:?}", e);
+                    continue;
+                }
+            };
 
             match resp {
                 TunnelingResponse::TunnelingRequest(req) => {
-- 
2.43.0


From b3db4393808583f44f76496277c45bb0ca8824c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:46 +0000
Subject: [PATCH 19/36] fix: a disconnect request from the gateway leads to a
 new connection

---
 src/transport/udp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 2c921fe..e8455c0 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -470,7 +470,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    whatever!("KNX device requested disconnection");
                 }
             }
         }
-- 
2.43.0


From 95374e15dc2c248af376a47a7f02c89dc615c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:47 +0000
Subject: [PATCH 20/36] fix: a heart beat no longer cancels a telegram which is
 being passed on

---
 src/transport/udp.rs         | 7 ++++++-
 src/transport/udp_monitor.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e8455c0..ab8aee9 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -153,9 +153,14 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // A heart beat must not cancel a message which is being handled
+                    //
+                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv);
+
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..15a04b9 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -119,9 +119,14 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // A heart beat must not cancel a message which is being handled
+                    //
+                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv);
+
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From 0311358be97e95a3962dabc37ba76ef8aba249e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 21/36] fix: unread telegrams no longer stop acknowledges and
 gateway requests from being handled

---
 src/transport/udp.rs         | 25 ++++++++++++++++++-------
 src/transport/udp_monitor.rs |  8 +++++---
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index ab8aee9..de71ea6 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -4,7 +4,7 @@ use crate::transport;
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::error::TrySendError;
 use tokio::time::{interval, sleep, timeout};
 use tokio::{io, select};
 
@@ -155,7 +155,16 @@ impl UdpTransport {
 
                     // A heart beat must not cancel a message which is being handled
                     //
-                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let recv = handle_recv_from_knx_device(socket.clone(), |cemi| match from_knx_tx.try_send(cemi) {
+                        Ok(_) => true,
+                        Err(TrySendError::Full(cemi)) => {
+                            // Nobody is waiting for messages, acknowledge must go on
+                            //
+                            debug!("Message discarded, queue is full {:?}", cemi);
+                            true
+                        }
+                        Err(TrySendError::Closed(_)) => false,
+                    });
                     tokio::pin!(recv);
 
                     'recv: loop {
@@ -413,7 +422,10 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+// Receives messages from KNX device and passes cEMI messages to deliver, that returns
+// false if nobody is interested in messages anymore
+//
+pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, deliver: impl Fn(CEMI) -> bool) -> TransportResult<String> {
     let mut data = vec![0; MAX_DATAGRAM_SIZE];
     loop {
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -443,10 +455,9 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                             continue;
                         }
                     };
-                    match from_knx_tx.send(cemi).await {
-                        Ok(_) => (),
-                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
-                    };
+                    if !deliver(cemi) {
+                        whatever!("Unable to pass received request from knx device");
+                    }
                 }
                 TunnelingResponse::TunnelingAck(_) => {}
                 TunnelingResponse::FeatureResponse(resp) => {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 15a04b9..90564e7 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -54,7 +54,7 @@ impl ConnectionData {
 struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
-    rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    rx: Arc<Mutex<mpsc::UnboundedReceiver<CEMI>>>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
 }
 
@@ -75,7 +75,9 @@ impl UdpMonitorTransport {
 
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
-        let (from_knx_tx, rx) = mpsc::channel(100);
+        // Unbounded, a slow consumer must not stop acknowledges nor lose messages
+        //
+        let (from_knx_tx, rx) = mpsc::unbounded_channel();
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
@@ -121,7 +123,7 @@ impl UdpMonitorTransport {
 
                     // A heart beat must not cancel a message which is being handled
                     //
-                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let recv = handle_recv_from_knx_device(socket.clone(), |cemi| from_knx_tx.send(cemi).is_ok());
                     tokio::pin!(recv);
 
                     loop {
-- 
2.43.0


From c9d3d3e56f41e394d6b51a5d70e3d0751a0f30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:16 +0000
Subject: [PATCH 22/36] fix: control responses reach the waiting operation,
 disconnect and status queries end in bounded time

---
 src/packets/core.rs          |  4 +-
 src/transport/udp.rs         | 90 +++++++++++++++++++++++++++++-------
 src/transport/udp_monitor.rs | 38 ++++++++-------
 3 files changed, 98 insertions(+), 34 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 187c0d9..b580bd0 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -396,7 +396,7 @@ impl ConnectionstateRequest {
 pub const E_CONNECTION_ID: u8 = 0x21;
 pub const E_DATA_CONNECTION: u8 = 0x26;
 pub const E_KNX_CONNECTION: u8 = 0x27;
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ConnectionstateResponse {
     pub communication_channel_id: u8,
     pub status: u8,
@@ -524,7 +524,7 @@ impl DisconnectRequest {
 // Disconnect Response
 // 03.08.02 Core section 7.8.6
 //
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct DisconnectResponse {
     pub communication_channel_id: u8,
     pub status: u8,
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index de71ea6..bf94e05 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -11,7 +11,7 @@ use tokio::{io, select};
 use log::{debug, info, trace, warn};
 use snafu::{ensure_whatever, whatever, ResultExt, Snafu, Whatever};
 use tokio::net::{ToSocketAddrs, UdpSocket};
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{broadcast, mpsc, Mutex};
 
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::{
@@ -101,8 +101,47 @@ pub enum TunnelingResponse {
     DisconnectRequest(DisconnectRequest),
 }
 
+// Answers of KNXIP device to control requests, the receive task passes them to
+// the operation that is waiting for them
+//
+#[derive(Debug, Clone)]
+pub(crate) enum ControlResponse {
+    Connectionstate(ConnectionstateResponse),
+    Disconnect(DisconnectResponse),
+}
+
+pub(crate) const CONTROL_RESPONSES_CAPACITY: usize = 16;
+const CONTROL_RESPONSE_TIMEOUT: Duration = Duration::from_secs(10);
+
+// Waits for the first control response accepted by select
+//
+pub(crate) async fn wait_control_response<T>(
+    mut responses: broadcast::Receiver<ControlResponse>,
+    select: impl Fn(ControlResponse) -> Option<T>,
+) -> Result<T, Whatever> {
+    let wait = async {
+        loop {
+            match responses.recv().await {
+                Ok(resp) => {
+                    if let Some(resp) = select(resp) {
+                        return Some(resp);
+                    }
+                }
+                Err(broadcast::error::RecvError::Lagged(_)) => {}
+                Err(broadcast::error::RecvError::Closed) => return None,
+            }
+        }
+    };
+    match timeout(CONTROL_RESPONSE_TIMEOUT, wait).await {
+        Ok(Some(resp)) => Ok(resp),
+        Ok(None) => whatever!("Transport closed before response"),
+        Err(_) => whatever!("Request timed out"),
+    }
+}
+
 struct UdpTransport {
     socket: Arc<MyUdpSocket>,
+    control_responses: broadcast::Sender<ControlResponse>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
 }
@@ -125,9 +164,11 @@ impl UdpTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_responses, _) = broadcast::channel(CONTROL_RESPONSES_CAPACITY);
 
         tokio::spawn({
             let socket = socket.clone();
+            let control_responses = control_responses.clone();
             let connection_data = connection_data.clone();
 
             async move {
@@ -155,7 +196,7 @@ impl UdpTransport {
 
                     // A heart beat must not cancel a message which is being handled
                     //
-                    let recv = handle_recv_from_knx_device(socket.clone(), |cemi| match from_knx_tx.try_send(cemi) {
+                    let recv = handle_recv_from_knx_device(socket.clone(), &control_responses, |cemi| match from_knx_tx.try_send(cemi) {
                         Ok(_) => true,
                         Err(TrySendError::Full(cemi)) => {
                             // Nobody is waiting for messages, acknowledge must go on
@@ -200,12 +241,14 @@ impl UdpTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
             }
         });
 
         Ok(Self {
             socket,
+            control_responses,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
         })
@@ -238,17 +281,18 @@ impl UdpTransport {
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
         let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        let responses = self.control_responses.subscribe();
         if let Err(e) = self.socket.send(&req.packet()).await {
             whatever!("Unable to send connection state request {:?}", e);
         };
 
-        let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
-        }
-        debug!("Connectiostate response {:0x?}", resp);
-        let mut cursor = Cursor::new(resp.as_slice());
-        Ok(ConnectionstateResponse::from_packet(&mut cursor)?)
+        let resp = wait_control_response(responses, |resp| match resp {
+            ControlResponse::Connectionstate(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
+        debug!("Connectiostate response {:?}", resp);
+        Ok(resp)
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
@@ -280,13 +324,19 @@ impl UdpTransport {
     pub async fn disconnect(&self) -> Result<(), Whatever> {
         let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
+        let responses = self.control_responses.subscribe();
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
         }
+
+        let resp = wait_control_response(responses, |resp| match resp {
+            ControlResponse::Disconnect(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
+        *self.connection_data.lock().await = None;
+        ensure_whatever!(resp.status == 0, "Unable to disconnect, status code {}", resp.status);
+        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
@@ -425,7 +475,11 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 // Receives messages from KNX device and passes cEMI messages to deliver, that returns
 // false if nobody is interested in messages anymore
 //
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, deliver: impl Fn(CEMI) -> bool) -> TransportResult<String> {
+pub(crate) async fn handle_recv_from_knx_device(
+    socket: Arc<MyUdpSocket>,
+    control_responses: &broadcast::Sender<ControlResponse>,
+    deliver: impl Fn(CEMI) -> bool,
+) -> TransportResult<String> {
     let mut data = vec![0; MAX_DATAGRAM_SIZE];
     loop {
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -468,12 +522,16 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, delive
                     }
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
+                    // Nobody could be waiting for this response
+                    //
+                    let _ = control_responses.send(ControlResponse::Connectionstate(resp.clone()));
                     if resp.status != 0 {
                         warn!("Connection state response with error {}", resp.status);
                         whatever!("KNX device signaled a connection state error");
                     }
                 }
                 TunnelingResponse::DisconnectResponse(resp) => {
+                    let _ = control_responses.send(ControlResponse::Disconnect(resp.clone()));
                     if resp.status == 0 {
                         info!("Successfully disconnected");
                     } else {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 90564e7..13833ff 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -4,7 +4,6 @@ use crate::packets::apdu::APDU;
 use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
-use crate::packets::core::DisconnectResponse;
 use crate::packets::core::HPAI;
 use crate::packets::emi::CEMIMessageCode;
 use crate::packets::emi::LDataCon;
@@ -17,7 +16,10 @@ use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
+use crate::transport::udp::wait_control_response;
+use crate::transport::udp::ControlResponse;
 use crate::transport::udp::MyUdpSocket;
+use crate::transport::udp::CONTROL_RESPONSES_CAPACITY;
 use log::debug;
 use log::info;
 use log::warn;
@@ -25,13 +27,12 @@ use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
 use std::fmt::Debug;
-use std::io::Cursor;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{broadcast, mpsc, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
 
@@ -53,6 +54,7 @@ impl ConnectionData {
 
 struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
+    control_responses: broadcast::Sender<ControlResponse>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::UnboundedReceiver<CEMI>>>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
@@ -78,12 +80,14 @@ impl UdpMonitorTransport {
         // Unbounded, a slow consumer must not stop acknowledges nor lose messages
         //
         let (from_knx_tx, rx) = mpsc::unbounded_channel();
+        let (control_responses, _) = broadcast::channel(CONTROL_RESPONSES_CAPACITY);
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
             let socket = socket.clone();
             let connection_data = connection_data.clone();
             let on_connection = on_connection.clone();
+            let control_responses = control_responses.clone();
 
             async move {
                 // Interval should be 60 seconds as stated in
@@ -123,7 +127,7 @@ impl UdpMonitorTransport {
 
                     // A heart beat must not cancel a message which is being handled
                     //
-                    let recv = handle_recv_from_knx_device(socket.clone(), |cemi| from_knx_tx.send(cemi).is_ok());
+                    let recv = handle_recv_from_knx_device(socket.clone(), &control_responses, |cemi| from_knx_tx.send(cemi).is_ok());
                     tokio::pin!(recv);
 
                     loop {
@@ -161,12 +165,14 @@ impl UdpMonitorTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
             }
         });
 
         Ok(Self {
             socket,
+            control_responses,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
             on_connection,
@@ -236,19 +242,19 @@ impl UdpMonitorTransport {
         let communication_channel_id = self.communication_channel_id().await?;
         let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
-        let mut resp_cursor = Cursor::new(resp.as_slice());
-
-        match DisconnectResponse::from_packet(&mut resp_cursor) {
-            Ok(resp) => {
-                debug!("Disconnect response status {}", resp.status);
-                Ok(resp.status)
-            }
-            Err(e) => whatever!("Unable to request disconnection for id {}, {:?}", communication_channel_id, e),
+        let responses = self.control_responses.subscribe();
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
         }
+
+        let resp = wait_control_response(responses, |resp| match resp {
+            ControlResponse::Disconnect(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
+        *self.connection_data.lock().await = None;
+        debug!("Disconnect response status {}", resp.status);
+        Ok(resp.status)
     }
 }
 
-- 
2.43.0


From 7481c909dd2c24f661f6ea0a2a1b5c1355dcb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:17 +0000
Subject: [PATCH 23/36] fix: a request that is not sent no longer uses up a
 sequence number, channel and number are taken together

---
 src/transport/udp.rs         | 31 ++++++++++++++++---------------
 src/transport/udp_monitor.rs | 31 ++++++++++++++++---------------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index bf94e05..07a71be 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -254,17 +254,6 @@ impl UdpTransport {
         })
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     async fn get_communication_channel_id(&self) -> Result<u8, Whatever> {
         match self.connection_data.lock().await.as_ref() {
             Some(data) => Ok(data.communication_channel_id),
@@ -296,8 +285,14 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
+        // Sequence number and channel must belong to the same connection
+        //
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, tunneling request"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -306,18 +301,24 @@ impl UdpTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.get_communication_channel_id().await?, sequence_nr, feature, value);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, feature set"),
+        };
+        let req = FeatureSet::new(data.communication_channel_id, data.sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 13833ff..1c37798 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -197,36 +197,36 @@ impl UdpMonitorTransport {
         }
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     pub async fn is_connected(&self) -> bool {
         self.connection_data.lock().await.is_some()
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.communication_channel_id().await?, sequence_nr, feature, value);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, feature set"),
+        };
+        let req = FeatureSet::new(data.communication_channel_id, data.sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
+        // Sequence number and channel must belong to the same connection
+        //
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, tunneling request"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -235,6 +235,7 @@ impl UdpMonitorTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
-- 
2.43.0


From 5cd50810b1d21718fa2856eb4be561e899937f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:11 +0000
Subject: [PATCH 24/36] fix: a read returns only values received after its
 request, from its own group address and within its time limit

---
 src/packets/emi.rs   | 13 ++++++++++---
 src/transport/udp.rs | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 06c25cc..5d9fc41 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -19,7 +19,7 @@ impl LDataCon {
             Ok(control1) => control1,
             Err(e) => whatever!("Unable to read control 1 byte {:?}", e),
         };
-        let _control2 = match reader.read_u8() {
+        let control2 = match reader.read_u8() {
             Ok(control2) => control2,
             Err(e) => whatever!("Unable to read control 2 byte {:?}", e),
         };
@@ -36,6 +36,7 @@ impl LDataCon {
         let repetition = (control1 & (1 << 5)) > 0;
         let system_broadcast = (control1 & (1 << 4)) > 0;
         let ack_request = (control1 & (1 << 1)) > 0;
+        let group_dest = (control2 & 0x80) > 0;
         let confirm = (control1 & 1) == 0;
 
         Ok(Self {
@@ -47,6 +48,7 @@ impl LDataCon {
                 repetition,
                 system_broadcast,
                 ack_request,
+                group_dest,
             },
             confirm,
         })
@@ -61,6 +63,7 @@ pub struct LData {
     pub repetition: bool, // 1: not repeated, 0: repeated
     pub system_broadcast: bool,
     pub ack_request: bool,
+    pub group_dest: bool, // destination is a group address
 }
 
 // 03_06_03 EMI IMI section 4.1.5.3.5
@@ -69,6 +72,7 @@ pub struct LData {
 pub struct LDataInd {
     pub cemi: CEMI,
     pub l_data: LData,
+    pub apci: u8,
     pub value: Vec<u8>,
 }
 
@@ -80,7 +84,7 @@ impl LDataInd {
             Ok(control1) => control1,
             Err(e) => whatever!("Unable to read control 1 byte {:?}", e),
         };
-        let _control2 = match reader.read_u8() {
+        let control2 = match reader.read_u8() {
             Ok(control2) => control2,
             Err(e) => whatever!("Unable to read control 2 byte {:?}", e),
         };
@@ -106,8 +110,9 @@ impl LDataInd {
         let repetition = (control1 & (1 << 5)) > 0;
         let system_broadcast = (control1 & (1 << 4)) > 0;
         let ack_request = (control1 & (1 << 1)) > 0;
+        let group_dest = (control2 & 0x80) > 0;
 
-        let apci = (octects_6_7 & 0x03c0) >> 6;
+        let apci = ((octects_6_7 & 0x03c0) >> 6) as u8;
         debug!("Length {:?}", length);
         debug!("Octects 6 and 7: {:0x?}", octects_6_7);
         debug!("Apci: {:0x?}", apci);
@@ -132,7 +137,9 @@ impl LDataInd {
                 repetition,
                 system_broadcast,
                 ack_request,
+                group_dest,
             },
+            apci,
             value,
         })
     }
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 07a71be..9000708 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
 use tokio::sync::mpsc::error::TrySendError;
-use tokio::time::{interval, sleep, timeout};
+use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
 use log::{debug, info, trace, warn};
@@ -552,6 +552,19 @@ pub(crate) async fn handle_recv_from_knx_device(
     }
 }
 
+// Group services that carry a value
+//
+const A_GROUP_VALUE_RESPONSE: u8 = 1;
+const A_GROUP_VALUE_WRITE: u8 = 2;
+
+// Messages received before a request is sent can't be its response
+//
+fn discard_received(rx: &mut mpsc::Receiver<CEMI>) {
+    while let Ok(cemi) = rx.try_recv() {
+        debug!("Discarded message received before request {:?}", cemi);
+    }
+}
+
 pub struct UdpClient {
     timeout: Duration,
     transport: Arc<Mutex<UdpTransport>>,
@@ -589,24 +602,34 @@ impl UdpClient {
     pub async fn read_group_address_value(&self, addr: KnxAddress) -> TransportResult<Vec<u8>> {
         debug!("Read {:?}", addr);
         let expected_addr = addr.to_u16();
+        let expected_group = !matches!(addr, KnxAddress::Individual(_));
         let apdu = APDU::group_value_read();
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
         let mut rx = transport.rx.lock().await;
+        discard_received(&mut rx);
+        transport.tunnel_req(req.packet()).await?;
+        let deadline = Instant::now() + self.get_read_timeout();
         loop {
-            match timeout(self.get_read_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
                 }
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignored malformed indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
+                    let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE;
+                    if has_value && data_ind.l_data.dest == expected_addr && data_ind.l_data.group_dest == expected_group {
                         return Ok(data_ind.value);
                     }
                 }
-- 
2.43.0


From 8c8662838979d21e0ec344d93333ba87f0989948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:12 +0000
Subject: [PATCH 25/36] fix: a write is completed only by the confirmation of
 its own request, negative confirmations are errors

---
 src/transport/udp.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9000708..f004a78 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -646,23 +646,39 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        let expected_addr = addr.to_u16();
+        let expected_group = !matches!(addr, KnxAddress::Individual(_));
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        let mut rx = transport.rx.lock().await;
+        discard_received(&mut rx);
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
-        let mut rx = transport.rx.lock().await;
+        let deadline = Instant::now() + self.get_write_timeout();
         loop {
-            match timeout(self.get_write_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
-                    let data_con = LDataCon::from_cemi(cemi);
+                    let data_con = match LDataCon::from_cemi(cemi) {
+                        Ok(data_con) => data_con,
+                        Err(e) => {
+                            warn!("Ignored malformed confirmation {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed confirmation cEMI {:?}", data_con);
+                    if data_con.l_data.dest != expected_addr || data_con.l_data.group_dest != expected_group {
+                        continue;
+                    }
+                    if !data_con.confirm {
+                        whatever!("Write request was not confirmed by the bus");
+                    }
                     return Ok(());
                 }
-                Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
+                Ok(Some(cemi)) => debug!("Not a confirmation, cEMI message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
             }
-- 
2.43.0


From 7e1c71485991f6980503f5e2177a6fd219f37fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:13 +0000
Subject: [PATCH 26/36] fix: values too long for a telegram are refused

---
 src/transport/udp.rs         | 8 ++++++++
 src/transport/udp_monitor.rs | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index f004a78..2ed4a04 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -27,6 +27,11 @@ use crate::packets::{
 //
 const MAX_DATAGRAM_SIZE: usize = 2048;
 
+// Biggest value of a telegram, its length field counts also one APCI octet and
+// 255 is reserved
+//
+pub(crate) const MAX_VALUE_SIZE: usize = 253;
+
 struct ConnectionData {
     communication_channel_id: u8,
     control_endpoint: HPAI,
@@ -646,6 +651,9 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        if !small && value.len() > MAX_VALUE_SIZE {
+            whatever!("Value of {} bytes is too long for a telegram", value.len());
+        }
         let expected_addr = addr.to_u16();
         let expected_group = !matches!(addr, KnxAddress::Individual(_));
         let apdu = APDU::group_value_write(value, small);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 1c37798..0ca0afc 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -20,6 +20,7 @@ use crate::transport::udp::wait_control_response;
 use crate::transport::udp::ControlResponse;
 use crate::transport::udp::MyUdpSocket;
 use crate::transport::udp::CONTROL_RESPONSES_CAPACITY;
+use crate::transport::udp::MAX_VALUE_SIZE;
 use log::debug;
 use log::info;
 use log::warn;
@@ -351,6 +352,9 @@ impl UdpMonitor {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        if !small && value.len() > MAX_VALUE_SIZE {
+            whatever!("Value of {} bytes is too long for a telegram", value.len());
+        }
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
-- 
2.43.0


From 7809ca7ab118032f1628d58df89b48372258530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:13 +0000
Subject: [PATCH 27/36] fix: a connection subscriber which does not read no
 longer blocks the monitor

---
 src/transport/udp_monitor.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 0ca0afc..103850c 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -33,6 +33,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
+use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::{broadcast, mpsc, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
@@ -113,17 +114,11 @@ impl UdpMonitorTransport {
                         }
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
-                        let mut connection_data = connection_data.lock().await;
-                        *connection_data = Some(ConnectionData::from_connection_response(connection));
-
-                        let mut active_on_connection = Vec::new();
-                        let mut on_connection = on_connection.lock().await;
-                        for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
-                                active_on_connection.push(tx.clone());
-                            }
-                        }
-                        *on_connection = active_on_connection;
+                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
+
+                        // A subscriber that does not read must not stop the session
+                        //
+                        on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));
                     }
 
                     // A heart beat must not cancel a message which is being handled
-- 
2.43.0


From 4f9fb32c0385034ab9347071661542f62f89fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:14 +0000
Subject: [PATCH 28/36] fix: malformed indications are not returned as monitor
 errors

---
 src/transport/udp_monitor.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 103850c..ee48673 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -305,7 +305,13 @@ impl UdpMonitor {
                     continue;
                 }
                 Some(cemi) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignored malformed indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
                     if data_ind.l_data.repetition {
                         warn!("This message is a repetition");
@@ -314,7 +320,13 @@ impl UdpMonitor {
                 }
                 Some(cemi) if cemi.msg_code == CEMIMessageCode::LBusmonInd as u8 => {
                     debug!("To parse busmod {:0x?}", cemi.service_info);
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignored malformed indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
                     return Ok(data_ind);
                 }
-- 
2.43.0


From 9e94d53c70a8d9980b65476b289f9d3ff3c0a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:14 +0000
Subject: [PATCH 29/36] fix: only a connection response can end a connection
 attempt, socket errors are not parsed as an answer

---
 src/transport/udp.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 2ed4a04..4a5a9ed 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -462,10 +462,11 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
         whatever!("Unable to send connection request {:?}", e);
     }
 
-    let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
-    }
+    let resp = match timeout(Duration::from_secs(30), recv_connection_response(&socket)).await {
+        Ok(Ok(resp)) => resp,
+        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+        Err(e) => whatever!("Target device does not respond {:?}", e),
+    };
     debug!("Connection response {:0x?}", resp);
 
     let mut resp_cursor = Cursor::new(resp.as_slice());
@@ -478,6 +479,20 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
+// Packets of other services, like telegrams of a lost connection, are ignored
+//
+async fn recv_connection_response(socket: &MyUdpSocket) -> io::Result<Vec<u8>> {
+    let mut resp = vec![0; MAX_DATAGRAM_SIZE];
+    loop {
+        let count = socket.recv(&mut resp).await?;
+        if resp[..count].get(2..4) == Some(&[0x02, 0x06]) {
+            resp.truncate(count);
+            return Ok(resp);
+        }
+        debug!("Ignored packet while connecting {:0x?}", &resp[..count]);
+    }
+}
+
 // Receives messages from KNX device and passes cEMI messages to deliver, that returns
 // false if nobody is interested in messages anymore
 //
-- 
2.43.0


From ca7b2236eaab0b1e4fa4607e9370b6b0bfdabd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:15 +0000
Subject: [PATCH 30/36] fix: a search ignores invalid answers, parses only
 received bytes and reports send failures

---
 src/transport/udp.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 4a5a9ed..37f0ac4 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -360,24 +360,27 @@ impl UdpTransport {
 
         let req = SearchRequest::udp_unicast(local_addr).packet();
         debug!("Sending search request {:0x?}", req);
-        socket
-            .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
-            .await
-            .expect("Unable to send request");
+        if let Err(e) = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
+            whatever!("Unable to send search request {:?}", e);
+        }
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; MAX_DATAGRAM_SIZE];
         let mut responses = Vec::new();
 
         loop {
             select! {
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
-                            debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
-                            let resp = SearchResponse::from_packet(&mut cursor)?;
-                            debug!("Parsed search response {:0x?}", resp);
-                            responses.push(resp);
+                        Ok(n_bytes) => {
+                            debug!("Search response {:0x?}", &buffer[..n_bytes]);
+                            let mut cursor = Cursor::new(&buffer[..n_bytes]);
+                            match SearchResponse::from_packet(&mut cursor) {
+                                Ok(resp) => {
+                                    debug!("Parsed search response {:0x?}", resp);
+                                    responses.push(resp);
+                                }
+                                Err(e) => warn!("Ignored invalid search response {:?}", e),
+                            }
                         },
                         Err(e) => {
                             whatever!("Unable to get response {:?}", e);
-- 
2.43.0


From 854067ebe98f2f5a55a1e78b578f1cd8fdd5b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 31/36] fix: dropping a client or monitor ends its session

---
 src/transport/udp.rs         | 33 ++++++++++++++++++++++++---------
 src/transport/udp_monitor.rs | 29 ++++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 37f0ac4..1300a61 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -191,7 +191,11 @@ impl UdpTransport {
                     //
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
-                        let connection = connect(socket.clone()).await;
+                        let connection = tokio::select! {
+                            biased;
+                            _ = from_knx_tx.closed() => break 'main,
+                            connection = connect(socket.clone()) => connection,
+                        };
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
@@ -215,15 +219,17 @@ impl UdpTransport {
 
                     'recv: loop {
                         tokio::select! {
-                            resp = &mut recv => {
-                                info!("Recieve messages from knx device task exited with result {:?}", resp);
-                                if resp.is_ok() {
-                                    debug!("Exit from reconnection loop");
-                                    break 'main;
-                                } else {
-                                    break 'recv;
+                            biased;
+                            _ = from_knx_tx.closed() => {
+                                debug!("Client was dropped, disconnect from KNXIP device");
+                                if let Some(data) = connection_data.lock().await.as_ref() {
+                                    let req = DisconnectRequest::new(data.communication_channel_id, data.control_endpoint.clone());
+                                    if let Err(e) = socket.send(&req.packet()).await {
+                                        warn!("Unable to send disconnect request {:?}", e);
+                                    }
                                 }
-                            },
+                                break 'main;
+                            }
                             _ = heart_beat.tick() => {
                                 info!("Send connection heart beat");
                                 match connection_data.lock().await.as_ref() {
@@ -240,6 +246,15 @@ impl UdpTransport {
                                     None => break,
                                 };
                             }
+                            resp = &mut recv => {
+                                info!("Recieve messages from knx device task exited with result {:?}", resp);
+                                if resp.is_ok() {
+                                    debug!("Exit from reconnection loop");
+                                    break 'main;
+                                } else {
+                                    break 'recv;
+                                }
+                            },
                         }
                     }
 
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index ee48673..9c536fe 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -106,7 +106,11 @@ impl UdpMonitorTransport {
                     //
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
-                        let connection = connect(socket.clone()).await;
+                        let connection = tokio::select! {
+                            biased;
+                            _ = from_knx_tx.closed() => break 'main,
+                            connection = connect(socket.clone()) => connection,
+                        };
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
@@ -128,13 +132,16 @@ impl UdpMonitorTransport {
 
                     loop {
                         tokio::select! {
-                            resp = &mut recv => {
-                                info!("Recieve messages from knx device task exited with result {:?}", resp);
-                                if resp.is_ok() {
-                                    break 'main;
-                                } else {
-                                    break;
+                            biased;
+                            _ = from_knx_tx.closed() => {
+                                debug!("Client was dropped, disconnect from KNXIP device");
+                                if let Some(data) = connection_data.lock().await.as_ref() {
+                                    let req = DisconnectRequest::new(data.communication_channel_id, data.control_endpoint.clone());
+                                    if let Err(e) = socket.send(&req.packet()).await {
+                                        warn!("Unable to send disconnect request {:?}", e);
+                                    }
                                 }
+                                break 'main;
                             }
                             _ = heart_beat.tick() => {
                                 info!("Send connection heart beat");
@@ -155,6 +162,14 @@ impl UdpMonitorTransport {
                                     break;
                                 };
                             }
+                            resp = &mut recv => {
+                                info!("Recieve messages from knx device task exited with result {:?}", resp);
+                                if resp.is_ok() {
+                                    break 'main;
+                                } else {
+                                    break;
+                                }
+                            }
                         }
                     }
 
-- 
2.43.0


From 66bb7e767c7e47f1120fd2233df7d06fb4ec19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:21 +0000
Subject: [PATCH 32/36] fix: telegrams with more than 14 bytes of data are
 marked as extended frames

---
 src/packets/emi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 5d9fc41..81ce5f5 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -168,8 +168,11 @@ impl LDataReqMessage {
     }
 
     pub fn packet(&self) -> Vec<u8> {
+        let mut tpdu_packet = self.tpdu.packet();
         let mut control = 0u8;
-        control |= 1 << 7; // Frame type standard
+        if tpdu_packet.len() <= 16 {
+            control |= 1 << 7; // Frame type standard, longer ones need an extended frame
+        }
         control |= 1 << 5; // No repetition on error
         control |= 1 << 4; // Domain broadcast
         control |= (self.priority & 0x3) << 2;
@@ -183,7 +186,6 @@ impl LDataReqMessage {
         // packet.write_u16::<BigEndian>(0).unwrap();
         packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();
 
-        let mut tpdu_packet = self.tpdu.packet();
         packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap(); // Count of APCI values
         packet.append(&mut tpdu_packet);
 
-- 
2.43.0


From bf1bbbc54133451d1a3c76b7c2749ad13034dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 33/36] fix: 0 % is sent as 0, percentages use the whole linear
 0-255 scale

---
 src/dp_types.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 7023ce1..65571d8 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -55,15 +55,12 @@ impl PdtKnxScaledValue {
         Self {
             code: "5.001".to_string(),
             unit: "%".to_string(),
-            value: (percent * 2.54 + 1.0).round() as u8,
+            value: (percent * 2.55).round() as u8,
         }
     }
 
     pub fn get_value(&self) -> f32 {
-        if self.value == 0 {
-            return 0.0;
-        }
-        (self.value - 1) as f32 / 2.54
+        self.value as f32 / 2.55
     }
 }
 
-- 
2.43.0


From 38ef2310dea98c51ec5c35376207acca4b9826da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 34/36] fix: percentages beyond the 16 bit range saturate
 instead of overflowing

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 65571d8..eb34b63 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -117,7 +117,7 @@ impl PdtKnxInt {
         Self {
             code: "8.010".to_string(),
             unit: "%".to_string(),
-            value: value * 100,
+            value: value.saturating_mul(100),
         }
     }
 }
-- 
2.43.0


From f6c12ec09dcc184377f1a36516db5fc51c253864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 35/36] fix: heartbeat and disconnect requests announce the
 client's endpoint, not the gateway's

---
 src/transport/udp.rs         | 4 +++-
 src/transport/udp_monitor.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 1300a61..2d854fb 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -43,7 +43,9 @@ impl ConnectionData {
         Self {
             sequence_nr: 0,
             communication_channel_id: connection.get_communication_channel_id(),
-            control_endpoint: connection.get_data_endpoint(),
+            // Our own endpoint, the same given in connection request
+            //
+            control_endpoint: HPAI::udp(),
         }
     }
 }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 9c536fe..045dc4c 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -49,7 +49,9 @@ impl ConnectionData {
         Self {
             sequence_nr: 1,
             communication_channel_id: connection.get_communication_channel_id(),
-            control_endpoint: connection.get_data_endpoint(),
+            // Our own endpoint, the same given in connection request
+            //
+            control_endpoint: HPAI::udp(),
         }
     }
 }
-- 
2.43.0


From 98b281e0b8a9601fa3636bdfc959ce2d90e26b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 36/36] fix: a burst of telegrams can no longer push the answer
 of a waiting operation out of the queue

---
 src/transport/udp.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 2d854fb..e473733 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -4,7 +4,6 @@ use crate::transport;
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
-use tokio::sync::mpsc::error::TrySendError;
 use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
@@ -150,7 +149,7 @@ struct UdpTransport {
     socket: Arc<MyUdpSocket>,
     control_responses: broadcast::Sender<ControlResponse>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
-    rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    rx: Arc<Mutex<mpsc::UnboundedReceiver<CEMI>>>,
 }
 
 impl UdpTransport {
@@ -170,13 +169,17 @@ impl UdpTransport {
 
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
-        let (from_knx_tx, rx) = mpsc::channel(100);
+        // Unbounded, a telegram must not be lost while an operation is waiting for it
+        //
+        let (from_knx_tx, rx) = mpsc::unbounded_channel();
+        let rx = Arc::new(Mutex::new(rx));
         let (control_responses, _) = broadcast::channel(CONTROL_RESPONSES_CAPACITY);
 
         tokio::spawn({
             let socket = socket.clone();
             let control_responses = control_responses.clone();
             let connection_data = connection_data.clone();
+            let operation_rx = Arc::downgrade(&rx);
 
             async move {
                 // Interval should be 60 seconds as stated in
@@ -207,15 +210,15 @@ impl UdpTransport {
 
                     // A heart beat must not cancel a message which is being handled
                     //
-                    let recv = handle_recv_from_knx_device(socket.clone(), &control_responses, |cemi| match from_knx_tx.try_send(cemi) {
-                        Ok(_) => true,
-                        Err(TrySendError::Full(cemi)) => {
-                            // Nobody is waiting for messages, acknowledge must go on
-                            //
-                            debug!("Message discarded, queue is full {:?}", cemi);
-                            true
+                    let recv = handle_recv_from_knx_device(socket.clone(), &control_responses, |cemi| {
+                        // An operation locks the queue before it sends its request
+                        //
+                        let idle = operation_rx.upgrade().is_some_and(|rx| rx.try_lock().is_ok());
+                        if idle {
+                            debug!("Message discarded, nobody is waiting for it {:?}", cemi);
+                            return true;
                         }
-                        Err(TrySendError::Closed(_)) => false,
+                        from_knx_tx.send(cemi).is_ok()
                     });
                     tokio::pin!(recv);
 
@@ -272,7 +275,7 @@ impl UdpTransport {
             socket,
             control_responses,
             connection_data,
-            rx: Arc::new(Mutex::new(rx)),
+            rx,
         })
     }
 
@@ -599,7 +602,7 @@ const A_GROUP_VALUE_WRITE: u8 = 2;
 
 // Messages received before a request is sent can't be its response
 //
-fn discard_received(rx: &mut mpsc::Receiver<CEMI>) {
+fn discard_received(rx: &mut mpsc::UnboundedReceiver<CEMI>) {
     while let Ok(cemi) = rx.try_recv() {
         debug!("Discarded message received before request {:?}", cemi);
     }
-- 
2.43.0

