From 48e2c3190111097e816b8756f7b429a3fcf073c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 1/6] fix: reject packets whose attributes exceed 65535 bytes
 instead of truncating the length

The total length was computed in u16 before it was compared with the maximum
packet length, so an attribute list of more than 65515 bytes panicked (debug)
or was encoded with a wrapped Length field (release).
---
 radius/src/core/packet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index a42e806..b3e4e7c 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -288,15 +288,15 @@ impl Packet {
             Err(e) => return Err(e),
         };
 
-        let size = RADIUS_PACKET_HEADER_LENGTH as u16 + encoded_avp.len() as u16;
-        if size as usize > MAX_PACKET_LENGTH {
+        let size = RADIUS_PACKET_HEADER_LENGTH + encoded_avp.len();
+        if size > MAX_PACKET_LENGTH {
             return Err("packet is too large".to_owned());
         }
 
         let mut bs: Vec<u8> = Vec::new();
         bs.push(self.code as u8);
         bs.push(self.identifier);
-        bs.extend(u16::to_be_bytes(size).to_vec());
+        bs.extend(u16::to_be_bytes(size as u16).to_vec());
         bs.extend(self.authenticator.to_vec());
         bs.extend(match self.attributes.encode() {
             Ok(encoded) => encoded,
-- 
2.43.0


From 0202860dbb4e698699855e06c50ccdbcbff61c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 2/6] fix: limit the plain text, not the authenticator, of a
 tunnel-password to 240 bytes

A plain text longer than 240 bytes was accepted and produced a value that
encode_tunnel_password (at most 243 bytes) refuses to recover.
---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index b0fac66..bf13da8 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -367,10 +367,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
@@ -460,10 +460,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
-- 
2.43.0


From eeddc2a5a1a9c108d43bfa990eb03e0cf86d33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 3/6] fix: store the prefix length of an ipv4prefix attribute
 in bits

The Prefix-Length octet held the number of bytes (4) instead of the number of
bits (32); from_ipv6_prefix already stores bits.
---
 radius/src/core/avp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index bf13da8..43d1b12 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -149,7 +149,7 @@ impl AVP {
 
         Ok(AVP {
             typ,
-            value: [vec![0x00, prefix_len as u8 & 0b00111111], prefix.to_vec()].concat::<u8>(),
+            value: [vec![0x00, (prefix_len * 8) as u8], prefix.to_vec()].concat::<u8>(),
         })
     }
 
-- 
2.43.0


From 473302d8c4f5b093201674de3648b0cd7e03dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 4/6] fix: verify the response authenticator before accepting a
 response

Client::send_packet returned any decodable datagram as the response, so a
forged answer (made without the shared secret) was accepted.
---
 radius/src/client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index d7c3097..df152e8 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -121,6 +121,12 @@ impl Client {
             None => self.request(&conn, &request_data, remote_addr).await,
         }?;
 
+        if !Packet::is_authentic_response(&response, &request_data, request_packet.get_secret()) {
+            return Err(ClientError::FailedDecodingRadiusResponseError(
+                "the response authenticator is invalid".to_owned(),
+            ));
+        }
+
         match Packet::decode(&response.to_vec(), request_packet.get_secret()) {
             Ok(response_packet) => Ok(response_packet),
             Err(e) => Err(ClientError::FailedDecodingRadiusResponseError(format!(
-- 
2.43.0


From d201644a10315cb0c99814616faa82db52bb1377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:56 +0000
Subject: [PATCH 5/6] fix: generate add_vsa_attribute for the vsa attribute
 type

Regenerating rfc2865.rs dropped rfc2865::add_vsa_attribute, because the
generator emitted nothing for an attribute of type vsa.
---
 code-generator/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 08adeca..864d329 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -182,6 +182,7 @@ use chrono::{{DateTime, Utc}};
 use crate::core::avp::{{AVP, AVPType, AVPError}};
 use crate::core::packet::Packet;
 use crate::core::tag::Tag;
+use crate::core::vsa::VSA;
 
 ",
         rfc_name = rfc_name,
@@ -371,7 +372,7 @@ fn generate_attribute_code(
             true => unimplemented!("tagged-short"),
             false => generate_short_attribute_code(w, &method_identifier, &type_identifier),
         },
-        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(),
+        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(w, &type_identifier),
     }
 }
 
@@ -901,8 +902,15 @@ pub fn lookup_all_{method_identifier}(packet: &Packet) -> Result<Vec<u16>, AVPEr
     w.write_all(code.as_bytes()).unwrap();
 }
 
-fn generate_vsa_attribute_code() {
-    // NOP
+fn generate_vsa_attribute_code(w: &mut BufWriter<File>, type_identifier: &str) {
+    let code = format!(
+        "/// Add `vsa_attribute` vsa value to a packet.
+pub fn add_vsa_attribute(packet: &mut Packet, value: &dyn VSA) {{
+    packet.add(AVP::from_bytes({type_identifier}, &value.message()));
+}}
+"
+    );
+    w.write_all(code.as_bytes()).unwrap();
 }
 
 type DictParsed = (Vec<RadiusAttribute>, BTreeMap<String, Vec<RadiusValue>>);
-- 
2.43.0


From c47517cf626da7d9d9a7a610ed59aa83a6342b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:56 +0000
Subject: [PATCH 6/6] fix: refer to the value type of an attribute only where
 that type is defined

The VALUEs a dictionary adds to an attribute that an earlier dictionary
declares without values referred to a type which the module of the earlier
dictionary does not define, so the generated code did not compile.
---
 code-generator/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 864d329..e4c5ff5 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -152,7 +152,11 @@ fn main() {
             &attribute_name_to_rfc_name,
         );
 
-        for attr in &radius_attributes {
+        // The type of the values is defined in this module only for the attributes that have values here.
+        for attr in radius_attributes
+            .iter()
+            .filter(|attr| value_defined_attributes_set.contains(&attr.name))
+        {
             attribute_name_to_rfc_name.insert(attr.name.clone(), rfc_name.to_owned());
         }
         rfc_names.push(rfc_name.to_owned());
-- 
2.43.0

