From b73eb494be328f747714ee90a9c65ec8f970b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 01/37] fix: an ERROR response replaces a partly written
 response

---
 codec/src/codec.rs                 | 5 +++++
 spdmlib/src/responder/error_rsp.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..31e205b 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -101,6 +101,11 @@ impl<'a> Writer<'a> {
     pub fn mut_used_slice(&mut self) -> &mut [u8] {
         &mut self.buf[..self.offs]
     }
+
+    /// Discard everything written so far.
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..4ee25d7 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -14,6 +14,9 @@ impl<'a> ResponderContext<'a> {
         error_data: u8,
         writer: &mut Writer,
     ) {
+        // the error replaces whatever part of a response was already written
+        writer.clear();
+
         let error = SpdmMessage {
             header: SpdmMessageHeader {
                 version: self.common.negotiate_info.spdm_version_sel,
-- 
2.43.0


From 91db5548e95e1d8c66b98c1a2976029cc991374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 02/37] fix: encode a number_of_measurement of one as one

---
 spdmlib/src/message/measurement.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
-- 
2.43.0


From c8348bb2a9d36872e99072dd98d06138d69b01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 03/37] fix: serve certificates of every slot and keep refused
 GET_CERTIFICATE out of message B

---
 spdmlib/src/responder/certificate_rsp.rs | 27 +++++++-----------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index 29217bc..d3ed47d 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -55,30 +55,12 @@ impl<'a> ResponderContext<'a> {
             SpdmGetCertificateRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(get_certificate) = &get_certificate {
             debug!("!!! get_certificate : {:02x?}\n", get_certificate);
-            if get_certificate.slot_id != 0 {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return;
-            }
         } else {
             error!("!!! get_certificate : fail !!!\n");
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let get_certificate = get_certificate.unwrap();
         let slot_id = get_certificate.slot_id as usize;
         if slot_id >= SPDM_MAX_SLOT_NUMBER {
@@ -138,7 +120,14 @@ impl<'a> ResponderContext<'a> {
 
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                // the exchange belongs to the transcript only when it is answered
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .and_then(|_| self.common.append_message_b(writer.used_slice()))
+                    .is_err()
+                {
+                    self.common.reset_message_b();
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
-- 
2.43.0


From 65bba442a194d8af1fef2e5734fd9cf961a794cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 04/37] fix: CHALLENGE_AUTH reports the real slot mask and a
 failed CHALLENGE is answered with an error

---
 spdmlib/src/responder/challenge_rsp.rs | 41 ++++++++++++++++----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..9163d1b 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -99,23 +99,25 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        if self
-            .common
-            .append_message_c(&bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
             .as_ref()
             .unwrap();
         let cert_chain_hash = crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        );
+        if cert_chain_hash.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+        let cert_chain_hash = cert_chain_hash.unwrap();
+
+        let mut slot_mask = 0u8;
+        for (i, cert_chain) in self.common.provision_info.my_cert_chain.iter().enumerate() {
+            if cert_chain.is_some() {
+                slot_mask |= (1 << i) as u8;
+            }
+        }
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
@@ -134,7 +136,7 @@ impl<'a> ResponderContext<'a> {
             payload: SpdmMessagePayload::SpdmChallengeAuthResponse(
                 SpdmChallengeAuthResponsePayload {
                     slot_id: slot_id as u8,
-                    slot_mask: 0x1,
+                    slot_mask,
                     challenge_auth_attribute: SpdmChallengeAuthAttribute::empty(),
                     cert_chain_hash,
                     nonce: SpdmNonceStruct { data: nonce },
@@ -161,18 +163,27 @@ impl<'a> ResponderContext<'a> {
         let base_asym_size = self.common.negotiate_info.base_asym_sel.get_size() as usize;
         let temp_used = used - base_asym_size;
 
+        // the exchange belongs to the transcript only when it is answered
         if self
             .common
-            .append_message_c(&writer.used_slice()[..temp_used])
+            .append_message_c(&bytes[..reader.used()])
+            .and_then(|_| {
+                self.common
+                    .append_message_c(&writer.used_slice()[..temp_used])
+            })
             .is_err()
         {
+            self.common.reset_message_b();
+            self.common.reset_message_c();
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
 
         let signature = self.generate_challenge_auth_signature();
         if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+            self.common.reset_message_b();
+            self.common.reset_message_c();
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
         let signature = signature.unwrap();
@@ -191,7 +202,7 @@ impl<'a> ResponderContext<'a> {
                 .digest_context_m1m2
                 .as_ref()
                 .cloned()
-                .unwrap(),
+                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
-- 
2.43.0


From 19299836d4905bd3a5d1adc4cf56179fd36696b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 05/37] fix: digests are placed in slot order

---
 spdmlib/src/responder/digest_rsp.rs | 39 +++++++++++++++--------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..481b14b 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -64,20 +64,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let digest_size = self.common.negotiate_info.base_hash_sel.get_size();
 
         let mut slot_mask = 0u8;
@@ -110,6 +96,9 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // the digests are in slot order at the end of the message
+        let mut digest_offset =
+            writer.used() - slot_mask.count_ones() as usize * digest_size as usize;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
             if self.common.provision_info.my_cert_chain[slot_id].is_some() {
                 let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
@@ -118,19 +107,31 @@ impl<'a> ResponderContext<'a> {
                 let cert_chain_hash = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
-                )
-                .unwrap();
+                );
+                if cert_chain_hash.is_none() {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
+                let cert_chain_hash = cert_chain_hash.unwrap();
 
                 // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
+                writer.mut_used_slice()
+                    [digest_offset..(digest_offset + cert_chain_hash.data_size as usize)]
                     .copy_from_slice(cert_chain_hash.as_ref());
+                digest_offset += cert_chain_hash.data_size as usize;
             }
         }
 
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                // the exchange belongs to the transcript only when it is answered
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .and_then(|_| self.common.append_message_b(writer.used_slice()))
+                    .is_err()
+                {
+                    self.common.reset_message_b();
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
-- 
2.43.0


From ea3aa66a63fcdbcdbc3fb543f961a1ac3c7d9686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 06/37] fix: a refused GET_MEASUREMENTS stays out of message M
 and is answered with an error

---
 spdmlib/src/responder/measurement_rsp.rs | 52 +++++++++++++++---------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..8698d58 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -108,24 +108,19 @@ impl<'a> ResponderContext<'a> {
         let content_changed = self.common.runtime_info.content_changed;
         let base_asym_sel = self.common.negotiate_info.base_asym_sel;
 
-        if self
-            .common
-            .append_message_m(session_id, &bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
-        let real_measurement_block_count = secret::measurement::measurement_collection(
+        let measurement_total = secret::measurement::measurement_collection(
             spdm_version_sel,
             measurement_specification_sel,
             measurement_hash_sel,
             SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
+        );
+        if measurement_total.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+        let real_measurement_block_count = measurement_total.unwrap().number_of_blocks;
 
+        // reserved unless the request asks for all blocks or their number
         let number_of_measurement: u8 = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
             || get_measurements.measurement_operation
@@ -133,7 +128,7 @@ impl<'a> ResponderContext<'a> {
         {
             real_measurement_block_count
         } else {
-            1
+            0
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
@@ -144,7 +139,6 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
             )
-            .unwrap()
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
@@ -158,10 +152,14 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 index as usize,
             )
-            .unwrap()
         } else {
-            SpdmMeasurementRecordStructure::default()
+            Some(SpdmMeasurementRecordStructure::default())
         };
+        if measurement_record.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+        let measurement_record = measurement_record.unwrap();
 
         let content_changed = if runtime_content_change_support
             && (spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8())
@@ -211,6 +209,17 @@ impl<'a> ResponderContext<'a> {
         }
         let used = writer.used();
 
+        // the exchange belongs to the transcript only when it is answered
+        if self
+            .common
+            .append_message_m(session_id, &bytes[..reader.used()])
+            .is_err()
+        {
+            self.common.reset_message_m(session_id);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+
         // generat signature
         if get_measurements
             .measurement_attributes
@@ -224,13 +233,15 @@ impl<'a> ResponderContext<'a> {
                 .append_message_m(session_id, &writer.used_slice()[..temp_used])
                 .is_err()
             {
+                self.common.reset_message_m(session_id);
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
 
             let signature = self.generate_measurement_signature(session_id);
             if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+                self.common.reset_message_m(session_id);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
             let signature = signature.unwrap();
@@ -244,6 +255,7 @@ impl<'a> ResponderContext<'a> {
             .append_message_m(session_id, writer.used_slice())
             .is_err()
         {
+            self.common.reset_message_m(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
         }
     }
@@ -262,7 +274,7 @@ impl<'a> ResponderContext<'a> {
                     .digest_context_l1l2
                     .as_ref()
                     .cloned()
-                    .unwrap(),
+                    .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             None => crypto::hash::hash_ctx_finalize(
@@ -271,7 +283,7 @@ impl<'a> ResponderContext<'a> {
                     .digest_context_l1l2
                     .as_ref()
                     .cloned()
-                    .unwrap(),
+                    .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         };
-- 
2.43.0


From ce105529edb58103ab3d7028240db19ab6b4468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 07/37] fix: failed KEY_EXCHANGE and PSK_EXCHANGE are answered
 and leave no session behind

---
 spdmlib/src/common/mod.rs                 | 13 +++++++++
 spdmlib/src/responder/key_exchange_rsp.rs | 33 +++++++++++++++++------
 spdmlib/src/responder/psk_exchange_rsp.rs | 30 ++++++++++++++++-----
 3 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..75d1a7d 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -226,6 +226,19 @@ impl<'a> SpdmContext<'a> {
         status
     }
 
+    // release the sessions which a failed handshake request allocated
+    pub fn release_sessions_since(
+        &mut self,
+        before: &[(u32, SpdmSessionState); config::MAX_SPDM_SESSION_COUNT],
+    ) {
+        for session in self.session.iter_mut() {
+            let session_id = session.get_session_id();
+            if session_id != INVALID_SESSION_ID && !before.iter().any(|(id, _)| *id == session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+    }
+
     pub fn get_next_half_session_id(&self, is_requester: bool) -> SpdmResult<u16> {
         let shift = if is_requester { 0 } else { 16 };
 
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..795b3df 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,8 +25,16 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let sessions = self.common.get_session_status();
+        let result = self.write_spdm_key_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.common.release_sessions_since(&sessions);
+        }
+        let sent = self.send_message(writer.used_slice());
+        if sent.is_err() {
+            self.common.release_sessions_since(&sessions);
+        }
+        result.and(sent)
     }
 
     pub fn write_spdm_key_exchange_response(
@@ -180,8 +188,12 @@ impl<'a> ResponderContext<'a> {
             .runtime_info
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
-        let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+        let key_pair = crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel);
+        if key_pair.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        let (exchange, key_exchange_context) = key_pair.unwrap();
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
@@ -369,7 +381,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         if !in_clear_text {
             let session = self
@@ -410,11 +428,10 @@ impl<'a> ResponderContext<'a> {
             }
 
             // patch the message before send
-            writer.mut_used_slice()
-                [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
-                .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         }
+        writer.mut_used_slice()[temp_used..(temp_used + base_asym_size)]
+            .copy_from_slice(signature.as_ref());
 
         let heartbeat_period = self.common.config_info.heartbeat_period;
         let session = self.common.get_session_via_id(session_id).unwrap();
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..cc4d4a4 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,8 +25,16 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let sessions = self.common.get_session_status();
+        let result = self.write_spdm_psk_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.common.release_sessions_since(&sessions);
+        }
+        let sent = self.send_message(writer.used_slice());
+        if sent.is_err() {
+            self.common.release_sessions_since(&sessions);
+        }
+        result.and(sent)
     }
 
     pub fn write_spdm_psk_exchange_response(
@@ -170,7 +178,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
@@ -285,7 +293,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         let session = self
             .common
@@ -346,9 +360,13 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
+            if session
                 .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
+                .is_err()
+            {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return Err(SPDM_STATUS_CRYPTO_ERROR);
+            }
             session.set_session_state(
                 crate::common::session::SpdmSessionState::SpdmSessionEstablished,
             );
-- 
2.43.0


From 05df4ab4092d86977f02c17b19ebf94f43f952f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 08/37] fix: FINISH failures are answered and end the session;
 the requester signs with its own algorithm and only when asked

---
 spdmlib/src/common/mod.rs                 |  7 ++
 spdmlib/src/message/finish.rs             | 24 ++++++-
 spdmlib/src/protocol/algo.rs              |  7 ++
 spdmlib/src/requester/context.rs          | 18 ++++-
 spdmlib/src/requester/finish_req.rs       | 67 ++++++++----------
 spdmlib/src/requester/key_exchange_req.rs |  1 +
 spdmlib/src/responder/finish_rsp.rs       | 83 ++++++++++++++---------
 spdmlib/src/responder/key_exchange_rsp.rs | 19 +++++-
 spdmlib/src/responder/psk_finish_rsp.rs   | 11 ++-
 9 files changed, 158 insertions(+), 79 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 75d1a7d..51d2a50 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -170,6 +170,13 @@ impl<'a> SpdmContext<'a> {
     pub fn get_asym_key_size(&self) -> u16 {
         self.negotiate_info.base_asym_sel.get_size()
     }
+    pub fn get_req_asym_key_size(&self) -> u16 {
+        if self.negotiate_info.req_asym_sel.is_empty() {
+            self.get_asym_key_size()
+        } else {
+            self.negotiate_info.req_asym_sel.get_size()
+        }
+    }
     pub fn get_dhe_key_size(&self) -> u16 {
         self.negotiate_info.dhe_sel.get_size()
     }
diff --git a/spdmlib/src/message/finish.rs b/spdmlib/src/message/finish.rs
index 5f72bd6..622c4a0 100644
--- a/spdmlib/src/message/finish.rs
+++ b/spdmlib/src/message/finish.rs
@@ -4,7 +4,7 @@
 
 use crate::common;
 use crate::common::spdm_codec::SpdmCodec;
-use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL};
+use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_PARAMETER};
 use crate::protocol::{
     SpdmDigestStruct, SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmSignatureStruct,
 };
@@ -56,7 +56,18 @@ impl SpdmCodec for SpdmFinishRequestPayload {
             .finish_request_attributes
             .contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED)
         {
-            cnt += self.signature.spdm_encode(context, bytes)?;
+            // signed with the requester's asymmetric algorithm
+            if self.signature.data_size != context.get_req_asym_key_size() {
+                return Err(SPDM_STATUS_INVALID_PARAMETER);
+            }
+            for d in self
+                .signature
+                .data
+                .iter()
+                .take(self.signature.data_size as usize)
+            {
+                cnt += d.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
+            }
         }
         cnt += self.verify_data.spdm_encode(context, bytes)?;
         Ok(cnt)
@@ -70,7 +81,14 @@ impl SpdmCodec for SpdmFinishRequestPayload {
         let req_slot_id = u8::read(r)?; // param2
         let mut signature = SpdmSignatureStruct::default();
         if finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED) {
-            signature = SpdmSignatureStruct::spdm_read(context, r)?;
+            signature.data_size = context.get_req_asym_key_size();
+            for d in signature
+                .data
+                .iter_mut()
+                .take(signature.data_size as usize)
+            {
+                *d = u8::read(r)?;
+            }
         }
         let verify_data = SpdmDigestStruct::spdm_read(context, r)?;
 
diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 600c976..0a36d7f 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -506,6 +506,13 @@ bitflags! {
     }
 }
 
+impl From<SpdmReqAsymAlgo> for SpdmBaseAsymAlgo {
+    // both fields assign the same bit to the same algorithm
+    fn from(req_asym_algo: SpdmReqAsymAlgo) -> Self {
+        SpdmBaseAsymAlgo::from_bits_truncate(req_asym_algo.bits() as u32)
+    }
+}
+
 impl SpdmReqAsymAlgo {
     pub fn prioritize(&mut self, peer: SpdmReqAsymAlgo) {
         let prio_table = [
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..4f1c396 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -47,9 +47,21 @@ impl<'a> RequesterContext<'a> {
             #[cfg(not(feature = "mut-auth"))]
             let req_slot_id: Option<u8> = None;
             #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
-            #[cfg(feature = "mut-auth")]
-            let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
+            let req_slot_id = if self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map_or(false, |s| !s.get_mut_auth_requested().is_empty())
+            {
+                if let Err(e) = self.session_based_mutual_authenticate(session_id) {
+                    if let Some(session) = self.common.get_session_via_id(session_id) {
+                        let _ = session.teardown(session_id);
+                    }
+                    return Err(e);
+                }
+                Some(self.common.runtime_info.get_local_used_cert_chain_slot_id())
+            } else {
+                None
+            };
             self.send_receive_spdm_finish(req_slot_id, session_id)?;
             Ok(session_id)
         } else {
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..b3715f6 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -119,7 +119,7 @@ impl<'a> RequesterContext<'a> {
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
         if !session.get_mut_auth_requested().is_empty() {
             finish_request_attributes = SpdmFinishRequestAttributes::SIGNATURE_INCLUDED;
-            signature.data_size = self.common.negotiate_info.req_asym_sel.get_size();
+            signature.data_size = self.common.get_req_asym_key_size();
             is_mut_auth = true;
         }
 
@@ -151,6 +151,9 @@ impl<'a> RequesterContext<'a> {
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
         if !session.get_mut_auth_requested().is_empty() {
             signature = self.generate_finish_req_signature(session.get_slot_id(), session)?;
+            if signature.data_size != self.common.get_req_asym_key_size() {
+                return Err(SPDM_STATUS_CRYPTO_ERROR);
+            }
             // patch the signature
             buf[4..4 + signature.data_size as usize].copy_from_slice(signature.as_ref());
 
@@ -168,7 +171,7 @@ impl<'a> RequesterContext<'a> {
 
         let transcript_hash =
             self.common
-                .calc_req_transcript_hash(false, req_slot_id, is_mut_auth, session)?;
+                .calc_req_transcript_hash(false, session.get_slot_id(), is_mut_auth, session)?;
 
         let session = self.common.get_session_via_id(session_id).unwrap();
 
@@ -185,7 +188,7 @@ impl<'a> RequesterContext<'a> {
     pub fn handle_spdm_finish_response(
         &mut self,
         session_id: u32,
-        req_slot_id: u8,
+        _req_slot_id: u8,
         receive_buffer: &[u8],
     ) -> SpdmResult {
         let in_clear_text = self
@@ -208,6 +211,11 @@ impl<'a> RequesterContext<'a> {
 
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if message_header.version != self.common.negotiate_info.spdm_version_sel =>
+            {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
                     let finish_rsp =
@@ -235,7 +243,7 @@ impl<'a> RequesterContext<'a> {
 
                             let transcript_hash = self.common.calc_req_transcript_hash(
                                 false,
-                                req_slot_id,
+                                session.get_slot_id(),
                                 is_mut_auth,
                                 session,
                             )?;
@@ -274,7 +282,7 @@ impl<'a> RequesterContext<'a> {
                         // generate the data secret
                         let th2 = self.common.calc_req_transcript_hash(
                             false,
-                            req_slot_id,
+                            session.get_slot_id(),
                             is_mut_auth,
                             session,
                         )?;
@@ -322,29 +330,35 @@ impl<'a> RequesterContext<'a> {
             .common
             .calc_req_transcript_hash(false, slot_id, true, session)?;
 
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+        let mut message = self.common.calc_req_transcript_data(
+            false,
+            slot_id,
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
-            transcript_sign.reset_message();
-            transcript_sign
+            message.reset_message();
+            message
                 .append_message(&SPDM_VERSION_1_2_SIGNING_PREFIX_CONTEXT)
                 .ok_or(SPDM_STATUS_BUFFER_FULL)?;
-            transcript_sign
+            message
                 .append_message(&SPDM_VERSION_1_2_SIGNING_CONTEXT_ZEROPAD_12)
                 .ok_or(SPDM_STATUS_BUFFER_FULL)?;
-            transcript_sign
+            message
                 .append_message(&SPDM_FINISH_SIGN_CONTEXT)
                 .ok_or(SPDM_STATUS_BUFFER_FULL)?;
-            transcript_sign
+            message
                 .append_message(transcript_data_hash.as_ref())
                 .ok_or(SPDM_STATUS_BUFFER_FULL)?;
         }
 
         crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
-            transcript_sign.as_ref(),
+            self.common.negotiate_info.req_asym_sel.into(),
+            message.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)
     }
@@ -383,32 +397,11 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
-        let signature = crate::secret::asym_sign::sign(
-            self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
-            transcript_sign.as_ref(),
-        )
-        .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
-
-        let peer_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
-        let peer_cert = &self.common.provision_info.my_cert_chain[peer_slot_id as usize]
-            .as_ref()
-            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
-
-        crate::crypto::asym_verify::verify(
+        crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
-            peer_cert,
+            self.common.negotiate_info.req_asym_sel.into(),
             transcript_sign.as_ref(),
-            &signature,
         )
-        .unwrap();
-
-        Ok(signature)
+        .ok_or(SPDM_STATUS_CRYPTO_ERROR)
     }
 }
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..8fd166b 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -256,6 +256,7 @@ impl<'a> RequesterContext<'a> {
                             session.setup(session_id)?;
 
                             session.set_use_psk(false);
+                            session.set_slot_id(slot_id);
                             session.set_mut_auth_requested(key_exchange_rsp.mut_auth_req);
 
                             session.set_crypto_param(
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2412a7a..751b1f2 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -3,7 +3,9 @@
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
 use crate::common::session::SpdmSession;
-use crate::common::{ManagedBuffer12Sign, SpdmCodec};
+#[cfg(feature = "hashed-transcript-data")]
+use crate::common::ManagedBuffer12Sign;
+use crate::common::SpdmCodec;
 use crate::crypto;
 use crate::error::SpdmResult;
 use crate::error::SPDM_STATUS_CRYPTO_ERROR;
@@ -32,12 +34,19 @@ impl<'a> ResponderContext<'a> {
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_finish_response(session_id, bytes, &mut writer)?;
-        if in_clear_text {
+        let result = self.write_spdm_finish_response(session_id, bytes, &mut writer);
+        let sent = if in_clear_text {
             self.send_message(writer.used_slice())
         } else {
             self.send_secured_message(session_id, writer.used_slice(), false)
+        };
+        // a malformed request is refused, any other failure ends the handshake
+        if sent.is_err() || matches!(result, Err(e) if e != SPDM_STATUS_INVALID_MSG_FIELD) {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
         }
+        result.and(sent)
     }
 
     // Return true on success, false otherwise.
@@ -74,15 +83,6 @@ impl<'a> ResponderContext<'a> {
         }
         let finish_req = finish_req.unwrap();
 
-        if self
-            .common
-            .append_message_f(false, session_id, &bytes[..4])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return Err(SPDM_STATUS_CRYPTO_ERROR);
-        }
-
         let mut_auth_attributes = self
             .common
             .get_immutable_session_via_id(session_id)
@@ -100,6 +100,24 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        if self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .map_or(true, |session| session.get_use_psk())
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+        }
+
+        if self
+            .common
+            .append_message_f(false, session_id, &bytes[..4])
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+
         let is_mut_auth = !mut_auth_attributes.is_empty();
         if is_mut_auth {
             let session = self
@@ -131,13 +149,6 @@ impl<'a> ResponderContext<'a> {
         let base_hash_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
 
         {
-            let session = self.common.get_session_via_id(session_id).unwrap();
-
-            if session.get_use_psk() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-            }
-
             let session = self
                 .common
                 .get_immutable_session_via_id(session_id)
@@ -292,7 +303,15 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if session
+            .generate_data_secret(spdm_version_sel, &th2)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+
+        Ok(())
     }
 
     #[cfg(not(feature = "hashed-transcript-data"))]
@@ -309,12 +328,14 @@ impl<'a> ResponderContext<'a> {
         let peer_cert = &self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
             .as_ref()
             .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+            .as_ref()[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)..];
+        let mut transcript_sign = self.common.calc_rsp_transcript_data(
+            false,
+            session.get_slot_id(),
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
@@ -335,7 +356,7 @@ impl<'a> ResponderContext<'a> {
 
         crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.negotiate_info.req_asym_sel.into(),
             peer_cert,
             transcript_sign.as_ref(),
             signature,
@@ -356,11 +377,7 @@ impl<'a> ResponderContext<'a> {
         let peer_cert = &self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
             .as_ref()
             .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
+            .as_ref()[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)..];
 
         let mut transcript_hash_sign = ManagedBuffer12Sign::default();
         if self.common.negotiate_info.spdm_version_sel.get_u8()
@@ -386,7 +403,7 @@ impl<'a> ResponderContext<'a> {
 
         let res = crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.negotiate_info.req_asym_sel.into(),
             peer_cert,
             transcript_hash_sign.as_ref(),
             signature,
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 795b3df..1e2def8 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -234,6 +234,19 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        // mutual authentication can only be requested if both peers support it
+        #[cfg(feature = "mut-auth")]
+        let mut_auth_supported = self
+            .common
+            .negotiate_info
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::MUT_AUTH_CAP)
+            && self
+                .common
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::MUT_AUTH_CAP);
+
         let session = self.common.get_next_avaiable_session();
         if session.is_none() {
             error!("!!! too many sessions : fail !!!\n");
@@ -242,7 +255,11 @@ impl<'a> ResponderContext<'a> {
         }
 
         #[cfg(feature = "mut-auth")]
-        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS;
+        let mut_auth_req = if mut_auth_supported {
+            SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS
+        } else {
+            SpdmKeyExchangeMutAuthAttributes::empty()
+        };
         #[cfg(not(feature = "mut-auth"))]
         let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::empty();
 
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index 5134fa2..c03f137 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -15,8 +15,15 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_finish(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_finish_response(session_id, bytes, &mut writer)?;
-        self.send_secured_message(session_id, writer.used_slice(), false)
+        let result = self.write_spdm_psk_finish_response(session_id, bytes, &mut writer);
+        let sent = self.send_secured_message(session_id, writer.used_slice(), false);
+        // a malformed request is refused, any other failure ends the handshake
+        if sent.is_err() || matches!(result, Err(e) if e != SPDM_STATUS_INVALID_MSG_FIELD) {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        result.and(sent)
     }
 
     // Return true on success, false otherwise
-- 
2.43.0


From 521444d0033a1f67bcfc0fc5a78f8f1a7f0b315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 09/37] fix: a rejected record leaves the sequence number alone
 and oversized records are errors

---
 spdmlib/src/common/session.rs | 66 ++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 31665d1..e369b72 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -802,43 +802,43 @@ impl SpdmSession {
             SpdmSessionState::SpdmSessionNotStarted => Err(SPDM_STATUS_INVALID_STATE_LOCAL),
             SpdmSessionState::SpdmSessionHandshaking => {
                 if is_requester {
-                    let r = self.encode_msg(
+                    let used = self.encode_msg(
                         app_buffer,
                         secured_buffer,
                         &self.handshake_secret.request_direction,
-                    );
+                    )?;
                     self.handshake_secret.request_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 } else {
-                    let r = self.encode_msg(
+                    let used = self.encode_msg(
                         app_buffer,
                         secured_buffer,
                         &self.handshake_secret.response_direction,
-                    );
+                    )?;
                     self.handshake_secret.response_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 }
             }
             SpdmSessionState::SpdmSessionEstablished => {
                 if is_requester {
-                    let r = self.encode_msg(
+                    let used = self.encode_msg(
                         app_buffer,
                         secured_buffer,
                         &self.application_secret.request_direction,
-                    );
+                    )?;
                     self.application_secret.request_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 } else {
-                    let r = self.encode_msg(
+                    let used = self.encode_msg(
                         app_buffer,
                         secured_buffer,
                         &self.application_secret.response_direction,
-                    );
+                    )?;
                     self.application_secret.response_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 }
             }
-            _ => panic!("unknown session state"),
+            _ => Err(SPDM_STATUS_INVALID_STATE_LOCAL),
         }
     }
 
@@ -852,40 +852,40 @@ impl SpdmSession {
             SpdmSessionState::SpdmSessionNotStarted => Err(SPDM_STATUS_INVALID_STATE_LOCAL),
             SpdmSessionState::SpdmSessionHandshaking => {
                 if is_requester {
-                    let r = self.decode_msg(
+                    let used = self.decode_msg(
                         secured_buffer,
                         app_buffer,
                         &self.handshake_secret.request_direction,
-                    );
+                    )?;
                     self.handshake_secret.request_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 } else {
-                    let r = self.decode_msg(
+                    let used = self.decode_msg(
                         secured_buffer,
                         app_buffer,
                         &self.handshake_secret.response_direction,
-                    );
+                    )?;
                     self.handshake_secret.response_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 }
             }
             SpdmSessionState::SpdmSessionEstablished => {
                 if is_requester {
-                    let r = self.decode_msg(
+                    let used = self.decode_msg(
                         secured_buffer,
                         app_buffer,
                         &self.application_secret.request_direction,
-                    );
+                    )?;
                     self.application_secret.request_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 } else {
-                    let r = self.decode_msg(
+                    let used = self.decode_msg(
                         secured_buffer,
                         app_buffer,
                         &self.application_secret.response_direction,
-                    );
+                    )?;
                     self.application_secret.response_direction.sequence_number += 1;
-                    r
+                    Ok(used)
                 }
             }
             _ => Err(SPDM_STATUS_INVALID_STATE_LOCAL),
@@ -904,6 +904,14 @@ impl SpdmSession {
 
         let cipher_text_size = app_buffer.len() + 2;
         let tag_size = aead_algo.get_tag_size() as usize;
+        let aad_size = 6 + transport_param.sequence_number_count as usize;
+
+        if cipher_text_size > config::SENDER_BUFFER_SIZE
+            || aad_size + cipher_text_size + tag_size > secured_buffer.len()
+            || cipher_text_size + tag_size > u16::MAX as usize
+        {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
 
         let mut aad_buffer = [0u8; 6 + 8];
         let mut writer = Writer::init(&mut aad_buffer);
@@ -928,8 +936,7 @@ impl SpdmSession {
         length
             .encode(&mut writer)
             .map_err(|_| SPDM_STATUS_BUFFER_TOO_SMALL)?;
-        let aad_size = writer.used();
-        assert_eq!(aad_size, 6 + transport_param.sequence_number_count as usize);
+        assert_eq!(aad_size, writer.used());
 
         let mut plain_text_buf = [0; config::SENDER_BUFFER_SIZE];
         let mut writer = Writer::init(&mut plain_text_buf);
@@ -1017,6 +1024,9 @@ impl SpdmSession {
         }
 
         let cipher_text_size = length as usize - tag_size;
+        if cipher_text_size > config::RECEIVER_BUFFER_SIZE {
+            return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
+        }
 
         let mut plain_text_buf = [0; config::RECEIVER_BUFFER_SIZE];
 
@@ -1044,7 +1054,7 @@ impl SpdmSession {
 
         let mut reader = Reader::init(&plain_text_buf);
         let app_length = u16::read(&mut reader).ok_or(SPDM_STATUS_DECODE_AEAD_FAIL)? as usize;
-        if ret_plain_text_size < app_length + 2 {
+        if ret_plain_text_size < app_length + 2 || app_buffer.len() < app_length {
             return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
         }
 
-- 
2.43.0


From 00747c6c86de760016aff2630b407eacbadf0944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 10/37] fix: a refused or unconfirmed key update keeps the
 previous keys on both sides

---
 spdmlib/src/common/session.rs                 |  14 +-
 .../requester/handle_error_response_req.rs    |   7 +-
 spdmlib/src/requester/key_update_req.rs       | 126 +++++++++++++-----
 spdmlib/src/responder/key_update_rsp.rs       |  39 ++++--
 4 files changed, 133 insertions(+), 53 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index e369b72..2fb6a59 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -582,12 +582,21 @@ impl SpdmSession {
         let hash_algo = self.crypto_param.base_hash_algo;
         let aead_algo = self.crypto_param.aead_algo;
 
+        // back up both directions first: a caller restores both when this fails
         if update_requester {
             self.application_secret_backup.request_data_secret =
                 self.application_secret.request_data_secret.clone();
             self.application_secret_backup.request_direction =
                 self.application_secret.request_direction.clone();
+        }
+        if update_responder {
+            self.application_secret_backup.response_data_secret =
+                self.application_secret.response_data_secret.clone();
+            self.application_secret_backup.response_direction =
+                self.application_secret.response_direction.clone();
+        }
 
+        if update_requester {
             self.application_secret.request_data_secret = if let Some(us) =
                 self.key_schedule.derive_update_secret(
                     spdm_version,
@@ -632,11 +641,6 @@ impl SpdmSession {
         }
 
         if update_responder {
-            self.application_secret_backup.response_data_secret =
-                self.application_secret.response_data_secret.clone();
-            self.application_secret_backup.response_direction =
-                self.application_secret.response_direction.clone();
-
             self.application_secret.response_data_secret = if let Some(us) =
                 self.key_schedule.derive_update_secret(
                     spdm_version,
diff --git a/spdmlib/src/requester/handle_error_response_req.rs b/spdmlib/src/requester/handle_error_response_req.rs
index 560eea4..d0128ce 100644
--- a/spdmlib/src/requester/handle_error_response_req.rs
+++ b/spdmlib/src/requester/handle_error_response_req.rs
@@ -4,7 +4,7 @@
 
 use codec::{Codec, Reader};
 
-use crate::common::session::SpdmSessionState;
+use crate::common::INVALID_SESSION_ID;
 use crate::error::{
     SpdmResult, SPDM_STATUS_BUSY_PEER, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
     SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_SESSION_MSG_ERROR,
@@ -31,7 +31,7 @@ impl<'a> RequesterContext<'a> {
                 } else {
                     return Err(SPDM_STATUS_INVALID_PARAMETER);
                 };
-                session.set_session_state(SpdmSessionState::SpdmSessionNotStarted);
+                let _ = session.teardown(sid);
             }
             Err(SPDM_STATUS_INVALID_PARAMETER)
         } else {
@@ -46,6 +46,9 @@ impl<'a> RequesterContext<'a> {
         _original_request_code: SpdmRequestResponseCode,
         _expected_response_code: SpdmRequestResponseCode,
     ) -> SpdmResult {
+        // connection messages belong to no session
+        let session_id = session_id.filter(|id| *id != INVALID_SESSION_ID);
+
         let mut spdm_message_header_reader = Reader::init(response);
         let spdm_message_header =
             if let Some(smh) = SpdmMessageHeader::read(&mut spdm_message_header_reader) {
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 9777323..6b29b6f 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -4,8 +4,9 @@
 
 use crate::error::{
     SpdmResult, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
-    SPDM_STATUS_INVALID_PARAMETER,
+    SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_RECEIVE_FAIL,
 };
+use crate::common::ST1;
 use crate::message::*;
 use crate::requester::*;
 
@@ -37,16 +38,83 @@ impl<'a> RequesterContext<'a> {
         let update_requester = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateSingleKey
             || key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
-        session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
-        let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let res =
+            session.create_data_secret_update(spdm_version_sel, update_requester, update_responder);
+        if res.is_err() {
+            self.restore_data_secret(session_id, update_requester, update_responder);
+            return res;
+        }
+
+        let mut transport_buffer = [0u8; config::RECEIVER_BUFFER_SIZE];
+        let transport_used = match self.common.device_io.receive(&mut transport_buffer, ST1) {
+            Ok(used) => used,
+            Err(_) => {
+                self.restore_data_secret(session_id, update_requester, update_responder);
+                return Err(SPDM_STATUS_RECEIVE_FAIL);
+            }
+        };
 
-        self.handle_spdm_key_update_op_response(
+        let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
+        match self.common.decode_secured_message(
             session_id,
-            update_requester,
-            update_responder,
-            &receive_buffer[..used],
-        )
+            &transport_buffer[..transport_used],
+            &mut receive_buffer,
+        ) {
+            Ok(used) => {
+                let res = self.handle_spdm_key_update_op_response(
+                    session_id,
+                    key_update_operation,
+                    tag,
+                    &receive_buffer[..used],
+                );
+                if let Some(session) = self.common.get_session_via_id(session_id) {
+                    session.activate_data_secret_update(
+                        spdm_version_sel,
+                        update_requester,
+                        update_responder,
+                        res.is_ok(),
+                    )?;
+                }
+                res
+            }
+            Err(e) => {
+                self.restore_data_secret(session_id, update_requester, update_responder);
+                if !update_responder {
+                    return Err(e);
+                }
+                // a responder which refuses the update answers under its previous key
+                let used = self.common.decode_secured_message(
+                    session_id,
+                    &transport_buffer[..transport_used],
+                    &mut receive_buffer,
+                )?;
+                self.handle_spdm_key_update_op_response(
+                    session_id,
+                    key_update_operation,
+                    tag,
+                    &receive_buffer[..used],
+                )
+                .and(Err(SPDM_STATUS_ERROR_PEER))
+            }
+        }
+    }
+
+    // the update did not take place, keep using the previous keys
+    fn restore_data_secret(
+        &mut self,
+        session_id: u32,
+        update_requester: bool,
+        update_responder: bool,
+    ) {
+        let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
+        if let Some(session) = self.common.get_session_via_id(session_id) {
+            let _ = session.activate_data_secret_update(
+                spdm_version_sel,
+                update_requester,
+                update_responder,
+                false,
+            );
+        }
     }
 
     pub fn encode_spdm_key_update_op(
@@ -72,8 +140,8 @@ impl<'a> RequesterContext<'a> {
     pub fn handle_spdm_key_update_op_response(
         &mut self,
         session_id: u32,
-        update_requester: bool,
-        update_responder: bool,
+        key_update_operation: SpdmKeyUpdateOperation,
+        tag: u8,
         receive_buffer: &[u8],
     ) -> SpdmResult {
         let mut reader = Reader::init(receive_buffer);
@@ -86,30 +154,18 @@ impl<'a> RequesterContext<'a> {
                     SpdmRequestResponseCode::SpdmResponseKeyUpdateAck => {
                         let key_update_rsp =
                             SpdmKeyUpdateResponsePayload::spdm_read(&mut self.common, &mut reader);
-                        let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
-                        let session = if let Some(s) = self.common.get_session_via_id(session_id) {
-                            s
-                        } else {
-                            return Err(SPDM_STATUS_INVALID_PARAMETER);
-                        };
-                        if let Some(key_update_rsp) = key_update_rsp {
-                            debug!("!!! key_update rsp : {:02x?}\n", key_update_rsp);
-                            session.activate_data_secret_update(
-                                spdm_version_sel,
-                                update_requester,
-                                update_responder,
-                                true,
-                            )?;
-                            Ok(())
-                        } else {
-                            error!("!!! key_update : fail !!!\n");
-                            session.activate_data_secret_update(
-                                spdm_version_sel,
-                                update_requester,
-                                update_responder,
-                                false,
-                            )?;
-                            Err(SPDM_STATUS_INVALID_MSG_FIELD)
+                        match key_update_rsp {
+                            Some(key_update_rsp)
+                                if key_update_rsp.key_update_operation == key_update_operation
+                                    && key_update_rsp.tag == tag =>
+                            {
+                                debug!("!!! key_update rsp : {:02x?}\n", key_update_rsp);
+                                Ok(())
+                            }
+                            _ => {
+                                error!("!!! key_update : fail !!!\n");
+                                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+                            }
                         }
                     }
                     SpdmRequestResponseCode::SpdmResponseError => self
diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..55e5252 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -50,22 +50,39 @@ impl<'a> ResponderContext<'a> {
 
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        match key_update_req.key_update_operation {
-            SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
-            }
-            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
-            }
-            SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, false, true);
-            }
+        let (update_requester, update_responder) = match key_update_req.key_update_operation {
+            SpdmKeyUpdateOperation::SpdmUpdateSingleKey => (true, false),
+            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => (true, true),
+            SpdmKeyUpdateOperation::SpdmVerifyNewKey => (false, false),
             _ => {
                 error!("!!! key_update req : fail !!!\n");
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+        };
+        let res = if update_requester {
+            session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)
+        } else {
+            Ok(())
+        };
+        if res.is_err() {
+            // keep using the previous keys
+            let _ = session.activate_data_secret_update(
+                spdm_version_sel,
+                update_requester,
+                update_responder,
+                false,
+            );
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+        if update_responder || !update_requester {
+            let _ = session.activate_data_secret_update(
+                spdm_version_sel,
+                true,
+                update_responder,
+                true,
+            );
         }
 
         info!("send spdm key_update rsp\n");
-- 
2.43.0


From c28426f654015b4456910d391b871a490e8c08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 11/37] fix: a refused negotiation leaves nothing behind,
 operations need their algorithms, failed session requests release their
 session

---
 spdmlib/src/common/mod.rs                     | 26 ++++++++++++++----
 spdmlib/src/common/spdm_codec.rs              |  5 ++--
 spdmlib/src/requester/context.rs              | 12 ++++++++-
 spdmlib/src/requester/get_measurements_req.rs |  4 +--
 spdmlib/src/requester/key_exchange_req.rs     |  9 +++++--
 spdmlib/src/requester/psk_exchange_req.rs     |  9 +++++--
 spdmlib/src/requester/vendor_req.rs           |  3 ---
 spdmlib/src/responder/algorithm_rsp.rs        | 21 ++++++++-------
 spdmlib/src/responder/capability_rsp.rs       | 27 ++++++++++++-------
 spdmlib/src/responder/measurement_rsp.rs      | 11 +++++++-
 10 files changed, 88 insertions(+), 39 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 51d2a50..11510e7 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -181,6 +181,24 @@ impl<'a> SpdmContext<'a> {
         self.negotiate_info.dhe_sel.get_size()
     }
 
+    // the algorithms which a request makes use of are negotiated
+    pub fn has_algorithms_for(&self, request_code: SpdmRequestResponseCode) -> bool {
+        let negotiated = &self.negotiate_info;
+        let hash = negotiated.base_hash_sel.is_valid_one_select();
+        let asym = negotiated.base_asym_sel.is_valid_one_select();
+        let dhe = negotiated.dhe_sel.is_valid_one_select();
+        let aead = negotiated.aead_sel.is_valid_one_select();
+        match request_code {
+            SpdmRequestResponseCode::SpdmRequestGetDigests
+            | SpdmRequestResponseCode::SpdmRequestGetCertificate
+            | SpdmRequestResponseCode::SpdmRequestGetMeasurements => hash,
+            SpdmRequestResponseCode::SpdmRequestChallenge => hash && asym,
+            SpdmRequestResponseCode::SpdmRequestKeyExchange => hash && asym && dhe && aead,
+            SpdmRequestResponseCode::SpdmRequestPskExchange => hash && aead,
+            _ => true,
+        }
+    }
+
     pub fn reset_runtime_info(&mut self) {
         self.runtime_info = SpdmRuntimeInfo::default();
     }
@@ -261,9 +279,8 @@ impl<'a> SpdmContext<'a> {
 
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.provision_info.my_cert_chain[slot_id].is_none()
-                && self.provision_info.my_cert_chain_data[slot_id].is_some()
-            {
+            // the root hash depends on the negotiated hash, so build the chain anew
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
                 let cert_chain = self.provision_info.my_cert_chain_data[slot_id]
                     .as_ref()
                     .unwrap();
@@ -271,8 +288,7 @@ impl<'a> SpdmContext<'a> {
                     crypto::cert_operation::get_cert_from_cert_chain(
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
-                    )
-                    .unwrap();
+                    )?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index dad3de4..adefd83 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -249,8 +249,9 @@ impl SpdmCodec for SpdmDmtfMeasurementStructure {
 
         let measurement_hash_algo = context.negotiate_info.measurement_hash_sel;
         if representation == SpdmDmtfMeasurementRepresentation::SpdmDmtfMeasurementDigest
-            && (value_size != measurement_hash_algo.get_size()
-                || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM)
+            && (!measurement_hash_algo.is_valid_one_select()
+                || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM
+                || value_size != measurement_hash_algo.get_size())
         {
             return None;
         }
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 4f1c396..32b1d1c 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
@@ -67,7 +68,16 @@ impl<'a> RequesterContext<'a> {
         } else {
             let session_id =
                 self.send_receive_spdm_psk_exchange(measurement_summary_hash_type, None)?;
-            self.send_receive_spdm_psk_finish(session_id)?;
+            // a responder without PSK context establishes the session with PSK_EXCHANGE_RSP
+            let established = self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map_or(false, |s| {
+                    s.get_session_state() == SpdmSessionState::SpdmSessionEstablished
+                });
+            if !established {
+                self.send_receive_spdm_psk_finish(session_id)?;
+            }
             Ok(session_id)
         }
     }
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 63b384b..2f55f0b 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -137,11 +137,9 @@ impl<'a> RequesterContext<'a> {
                                     measurements.content_changed;
                             }
 
-                            let base_asym_size =
-                                self.common.negotiate_info.base_asym_sel.get_size() as usize;
                             let temp_used = used
                                 - if self.common.runtime_info.need_measurement_signature {
-                                    base_asym_size
+                                    self.common.negotiate_info.base_asym_sel.get_size() as usize
                                 } else {
                                     0
                                 };
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 8fd166b..3b26d58 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -54,14 +54,19 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_key_exhcange_response(
+        let sessions = self.common.get_session_status();
+        let res = self.handle_spdm_key_exhcange_response(
             req_session_id,
             slot_id,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
             measurement_summary_hash_type,
             key_exchange_context,
-        )
+        );
+        if res.is_err() {
+            self.common.release_sessions_since(&sessions);
+        }
+        res
     }
 
     pub fn encode_spdm_key_exchange(
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..8797946 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -48,13 +48,18 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_psk_exchange_response(
+        let sessions = self.common.get_session_status();
+        let res = self.handle_spdm_psk_exchange_response(
             half_session_id,
             measurement_summary_hash_type,
             &psk_hint,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
-        )
+        );
+        if res.is_err() {
+            self.common.release_sessions_since(&sessions);
+        }
+        res
     }
 
     pub fn encode_spdm_psk_exchange(
diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index b75e36b..acaaa28 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -21,9 +21,6 @@ impl<'a> RequesterContext<'a> {
             session_id,
         );
 
-        // clear cache data
-        self.common.reset_context();
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 3e2a62c..17c5d6c 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -46,6 +46,11 @@ impl<'a> ResponderContext<'a> {
         let negotiate_algorithms =
             SpdmNegotiateAlgorithmsRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(negotiate_algorithms) = negotiate_algorithms {
+            // forget what an earlier refused request selected
+            self.common.negotiate_info.dhe_sel = SpdmDheAlgo::empty();
+            self.common.negotiate_info.aead_sel = SpdmAeadAlgo::empty();
+            self.common.negotiate_info.req_asym_sel = SpdmReqAsymAlgo::empty();
+            self.common.negotiate_info.key_schedule_sel = SpdmKeyScheduleAlgo::empty();
             debug!("!!! negotiate_algorithms : {:02x?}\n", negotiate_algorithms);
             other_params_support = negotiate_algorithms.other_params_support;
             self.common.negotiate_info.measurement_specification_sel =
@@ -73,15 +78,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        if self
-            .common
-            .append_message_a(&bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         self.common
             .negotiate_info
             .measurement_specification_sel
@@ -170,7 +166,12 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
-        if self.common.append_message_a(writer.used_slice()).is_err() {
+        if self
+            .common
+            .append_message_a(&bytes[..reader.used()])
+            .is_err()
+            || self.common.append_message_a(writer.used_slice()).is_err()
+        {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
         }
     }
diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..1ad3a98 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -24,6 +24,7 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
             return;
         }
+        let previous_version = self.common.negotiate_info.spdm_version_sel;
         let mut reader = Reader::init(bytes);
         let message_header = SpdmMessageHeader::read(&mut reader);
         if let Some(SpdmMessageHeader {
@@ -35,6 +36,10 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if !self.common.config_info.spdm_version.contains(&version) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
+                return;
+            }
             self.common.negotiate_info.spdm_version_sel = version;
         } else {
             error!("!!! get_capabilities : fail !!!\n");
@@ -69,22 +74,19 @@ impl<'a> ResponderContext<'a> {
                     self.common.config_info.data_transfer_size;
                 self.common.negotiate_info.rsp_max_spdm_msg_size_sel =
                     self.common.config_info.max_spdm_msg_size;
+            } else {
+                self.common.negotiate_info.req_data_transfer_size_sel = 0;
+                self.common.negotiate_info.req_max_spdm_msg_size_sel = 0;
+                self.common.negotiate_info.rsp_data_transfer_size_sel = 0;
+                self.common.negotiate_info.rsp_max_spdm_msg_size_sel = 0;
             }
         } else {
+            self.common.negotiate_info.spdm_version_sel = previous_version;
             error!("!!! get_capabilities : fail !!!\n");
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return;
         }
 
-        if self
-            .common
-            .append_message_a(&bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         info!("send spdm capability\n");
 
         let response = SpdmMessage {
@@ -106,7 +108,12 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
-        if self.common.append_message_a(writer.used_slice()).is_err() {
+        if self
+            .common
+            .append_message_a(&bytes[..reader.used()])
+            .is_err()
+            || self.common.append_message_a(writer.used_slice()).is_err()
+        {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
         }
     }
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 8698d58..84e2aa4 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -75,7 +75,12 @@ impl<'a> ResponderContext<'a> {
         let get_measurements = get_measurements.unwrap();
         let slot_id = get_measurements.slot_id as usize;
 
-        let signature_size = self.common.negotiate_info.base_asym_sel.get_size();
+        let base_asym_sel = self.common.negotiate_info.base_asym_sel;
+        let signature_size = if base_asym_sel.is_valid_one_select() {
+            base_asym_sel.get_size()
+        } else {
+            0
+        };
 
         if get_measurements
             .measurement_attributes
@@ -83,6 +88,10 @@ impl<'a> ResponderContext<'a> {
         {
             self.common.runtime_info.need_measurement_signature = true;
 
+            if signature_size == 0 {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                return;
+            }
             if slot_id >= SPDM_MAX_SLOT_NUMBER {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
-- 
2.43.0


From 639fe157cd02977731b2a63bd2d57b2f7e317911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 12/37] fix: the responder serves only negotiated requests and
 application data only in an established session

---
 spdmlib/src/responder/context.rs | 104 +++++++++++++++++++++++++++----
 1 file changed, 93 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..29733d3 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -8,7 +8,7 @@ use crate::common::{session::SpdmSessionState, SpdmDeviceIo, SpdmTransportEncap}
 use crate::config;
 use crate::error::{SpdmResult, SPDM_STATUS_UNSUPPORTED_CAP};
 use crate::message::*;
-use crate::protocol::{SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags};
+use crate::protocol::{SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion};
 use codec::{Codec, Reader, Writer};
 
 pub struct ResponderContext<'a> {
@@ -79,13 +79,13 @@ impl<'a> ResponderContext<'a> {
                     .runtime_info
                     .set_connection_state(SpdmConnectionState::SpdmConnectionAuthenticated);
             } else if opcode == SpdmRequestResponseCode::SpdmResponseFinishRsp.get_u8() {
-                let session = self
-                    .common
-                    .get_session_via_id(self.common.runtime_info.get_last_session_id().unwrap())
-                    .unwrap();
-                session.set_session_state(
-                    crate::common::session::SpdmSessionState::SpdmSessionEstablished,
-                );
+                if let Some(session_id) = self.common.runtime_info.get_last_session_id() {
+                    if let Some(session) = self.common.get_session_via_id(session_id) {
+                        session.set_session_state(
+                            crate::common::session::SpdmSessionState::SpdmSessionEstablished,
+                        );
+                    }
+                }
                 self.common.runtime_info.set_last_session_id(None);
             }
         }
@@ -117,7 +117,8 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        // application data is opaque, it changes no state
+        if result.is_ok() && !is_app_message && send_buffer.len() >= 2 {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
@@ -245,7 +246,8 @@ impl<'a> ResponderContext<'a> {
                         .negotiate_info
                         .rsp_capabilities_sel
                         .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
-                if in_clear_text {
+                // only a certificate based handshake may be in the clear
+                if in_clear_text && !session.get_use_psk() {
                     return Err(SPDM_STATUS_UNSUPPORTED_CAP);
                 }
 
@@ -303,6 +305,15 @@ impl<'a> ResponderContext<'a> {
             }
             SpdmSessionState::SpdmSessionEstablished => {
                 match SpdmMessageHeader::read(&mut reader) {
+                    Some(message_header)
+                        if !self.is_request_supported(message_header.request_response_code) =>
+                    {
+                        self.handle_error_request(
+                            SpdmErrorCode::SpdmErrorUnsupportedRequest,
+                            Some(session_id),
+                            bytes,
+                        )
+                    }
                     Some(message_header) => match message_header.request_response_code {
                         SpdmRequestResponseCode::SpdmRequestGetDigests => {
                             self.handle_spdm_digest(bytes, Some(session_id))
@@ -368,13 +379,84 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        // application data only flows in an established session
+        if self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .map_or(true, |s| {
+                s.get_session_state() != SpdmSessionState::SpdmSessionEstablished
+            })
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
+
+    // The negotiated version, capabilities and algorithms allow the request. Before the
+    // negotiation ends each handler checks the connection state on its own.
+    fn is_request_supported(&self, request_code: SpdmRequestResponseCode) -> bool {
+        if self.common.runtime_info.get_connection_state().get_u8()
+            < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
+        {
+            return true;
+        }
+        let session_version = self.common.negotiate_info.spdm_version_sel.get_u8()
+            >= SpdmVersion::SpdmVersion11.get_u8();
+        let req = self.common.negotiate_info.req_capabilities_sel;
+        let rsp = self.common.negotiate_info.rsp_capabilities_sel;
+        let has_capability = match request_code {
+            SpdmRequestResponseCode::SpdmRequestGetDigests
+            | SpdmRequestResponseCode::SpdmRequestGetCertificate => {
+                rsp.contains(SpdmResponseCapabilityFlags::CERT_CAP)
+            }
+            SpdmRequestResponseCode::SpdmRequestChallenge => {
+                rsp.contains(SpdmResponseCapabilityFlags::CHAL_CAP)
+            }
+            SpdmRequestResponseCode::SpdmRequestGetMeasurements => rsp.intersects(
+                SpdmResponseCapabilityFlags::MEAS_CAP_NO_SIG
+                    | SpdmResponseCapabilityFlags::MEAS_CAP_SIG,
+            ),
+            SpdmRequestResponseCode::SpdmRequestKeyExchange => {
+                session_version
+                    && req.contains(SpdmRequestCapabilityFlags::KEY_EX_CAP)
+                    && rsp.contains(SpdmResponseCapabilityFlags::KEY_EX_CAP)
+            }
+            SpdmRequestResponseCode::SpdmRequestPskExchange => {
+                session_version
+                    && req.contains(SpdmRequestCapabilityFlags::PSK_CAP)
+                    && rsp.intersects(
+                        SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT
+                            | SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT,
+                    )
+            }
+            SpdmRequestResponseCode::SpdmRequestHeartbeat => {
+                req.contains(SpdmRequestCapabilityFlags::HBEAT_CAP)
+                    && rsp.contains(SpdmResponseCapabilityFlags::HBEAT_CAP)
+            }
+            SpdmRequestResponseCode::SpdmRequestKeyUpdate => {
+                req.contains(SpdmRequestCapabilityFlags::KEY_UPD_CAP)
+                    && rsp.contains(SpdmResponseCapabilityFlags::KEY_UPD_CAP)
+            }
+            _ => true,
+        };
+        has_capability && self.common.has_algorithms_for(request_code)
+    }
+
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut reader = Reader::init(bytes);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if !self.is_request_supported(message_header.request_response_code) =>
+            {
+                self.handle_error_request(
+                    SpdmErrorCode::SpdmErrorUnsupportedRequest,
+                    None,
+                    bytes,
+                )
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmRequestGetVersion => self.handle_spdm_version(bytes),
                 SpdmRequestResponseCode::SpdmRequestGetCapabilities => {
-- 
2.43.0


From e2c9e3622a83d62fdf7a15098bb8687307f84193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 13/37] fix: certificate retrieval stays in bounds, the
 encapsulated flow checks its messages and ends

---
 spdmlib/src/protocol/algo.rs                  |  8 +++-
 spdmlib/src/requester/challenge_req.rs        | 10 +++-
 spdmlib/src/requester/encap_certificate.rs    |  8 ----
 spdmlib/src/requester/encap_digest.rs         | 48 ++++++++-----------
 spdmlib/src/requester/encap_req.rs            | 31 ++++++++----
 spdmlib/src/requester/get_certificate_req.rs  | 24 +++++++---
 spdmlib/src/requester/get_digests_req.rs      | 11 ++++-
 spdmlib/src/requester/get_measurements_req.rs | 10 +++-
 spdmlib/src/requester/key_exchange_req.rs     |  7 +++
 spdmlib/src/requester/psk_exchange_req.rs     |  7 +++
 .../src/responder/encap_get_certificate.rs    | 34 ++++++-------
 spdmlib/src/responder/encap_get_digest.rs     |  5 ++
 spdmlib/src/responder/encap_rsp.rs            | 35 +++++++++-----
 13 files changed, 151 insertions(+), 87 deletions(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 0a36d7f..fe1728e 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -847,17 +847,21 @@ impl AsRef<[u8]> for SpdmCertChainData {
     }
 }
 
+/// the certificate chain header, the root hash and the certificates
+pub const MAX_SPDM_CERT_CHAIN_SIZE: usize =
+    4 + SPDM_MAX_HASH_SIZE + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE;
+
 #[derive(Debug, Clone)]
 pub struct SpdmCertChainBuffer {
     pub data_size: u16,
-    pub data: [u8; 4 + SPDM_MAX_HASH_SIZE + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE],
+    pub data: [u8; MAX_SPDM_CERT_CHAIN_SIZE],
 }
 
 impl Default for SpdmCertChainBuffer {
     fn default() -> Self {
         SpdmCertChainBuffer {
             data_size: 0u16,
-            data: [0u8; 4 + SPDM_MAX_HASH_SIZE + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE],
+            data: [0u8; MAX_SPDM_CERT_CHAIN_SIZE],
         }
     }
 }
diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 7ac271e..1c9e763 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -7,7 +7,8 @@ use crate::crypto;
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
 use crate::error::{
     SpdmResult, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_CRYPTO_ERROR, SPDM_STATUS_ERROR_PEER,
-    SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_VERIF_FAIL,
+    SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_UNSUPPORTED_CAP,
+    SPDM_STATUS_VERIF_FAIL,
 };
 use crate::message::*;
 use crate::protocol::*;
@@ -25,6 +26,13 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
 
+        if !self
+            .common
+            .has_algorithms_for(SpdmRequestResponseCode::SpdmRequestChallenge)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestChallenge, None);
 
diff --git a/spdmlib/src/requester/encap_certificate.rs b/spdmlib/src/requester/encap_certificate.rs
index 66a3f09..2698a8c 100644
--- a/spdmlib/src/requester/encap_certificate.rs
+++ b/spdmlib/src/requester/encap_certificate.rs
@@ -60,14 +60,6 @@ impl<'a> RequesterContext<'a> {
             SpdmGetCertificateRequestPayload::spdm_read(&mut self.common, &mut reader)
         {
             debug!("!!! encap get_certificate : {:02x?}\n", get_certificate);
-            if get_certificate.slot_id != 0 {
-                self.encode_encap_error_response(
-                    SpdmErrorCode::SpdmErrorInvalidRequest,
-                    0,
-                    encap_response,
-                );
-                return;
-            }
             get_certificate
         } else {
             error!("!!! encap get_certificate : fail !!!\n");
diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index 0a2c5b5..9bfcc8f 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -12,12 +12,9 @@ use crate::{
         SpdmMessageHeader, SpdmMessagePayload, SpdmRequestResponseCode,
     },
     protocol::{
-        gen_array_clone, SpdmDigestStruct, SpdmRequestCapabilityFlags, SPDM_MAX_HASH_SIZE,
-        SPDM_MAX_SLOT_NUMBER,
+        gen_array_clone, SpdmDigestStruct, SpdmRequestCapabilityFlags, SPDM_MAX_SLOT_NUMBER,
     },
 };
-extern crate alloc;
-use alloc::boxed::Box;
 
 use super::RequesterContext;
 
@@ -72,8 +69,24 @@ impl<'a> RequesterContext<'a> {
         }
 
         let mut slot_mask = 0u8;
+        let mut digests = gen_array_clone(SpdmDigestStruct::default(), SPDM_MAX_SLOT_NUMBER);
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
+            if let Some(my_cert_chain) = &self.common.provision_info.my_cert_chain[slot_id] {
+                match crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                ) {
+                    // the digests are in slot order
+                    Some(digest) => digests[slot_mask.count_ones() as usize] = digest,
+                    None => {
+                        self.encode_encap_error_response(
+                            SpdmErrorCode::SpdmErrorUnspecified,
+                            0,
+                            encap_response,
+                        );
+                        return;
+                    }
+                }
                 slot_mask |= (1 << slot_id) as u8;
             }
         }
@@ -85,13 +98,7 @@ impl<'a> RequesterContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: self.common.negotiate_info.base_hash_sel.get_size(),
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
 
@@ -107,23 +114,6 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
-
-                // patch the message before send
-                let used = encap_response.used();
-                encap_response.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
-        }
         debug!("!!! encap get_digests : complete\n");
     }
 }
diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 3e5c64d..f31e08a 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -16,10 +16,11 @@ use crate::{
         SpdmEncapsulatedResponseAckPayload, SpdmEncapsulatedResponseAckPayloadType, SpdmErrorCode,
         SpdmGetDigestsRequestPayload, SpdmGetEncapsulatedRequestPayload,
         SpdmKeyExchangeMutAuthAttributes, SpdmMessage, SpdmMessageHeader, SpdmMessagePayload,
-        SpdmRequestResponseCode, ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE,
+        SpdmRequestResponseCode,
     },
     protocol::{
-        SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion, SPDM_MAX_SLOT_NUMBER,
+        SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion,
+        MAX_SPDM_CERT_CHAIN_SIZE, SPDM_MAX_SLOT_NUMBER,
     },
 };
 
@@ -76,8 +77,13 @@ impl<'a> RequesterContext<'a> {
             }
         }
 
-        while self.receive_encapsulated_response_ack(session_id)? {}
-        Ok(())
+        // the certificate chain arrives in at least one byte per exchange
+        for _ in 0..=MAX_SPDM_CERT_CHAIN_SIZE {
+            if !self.receive_encapsulated_response_ack(session_id)? {
+                return Ok(());
+            }
+        }
+        Err(SPDM_STATUS_INVALID_MSG_FIELD)
     }
 
     pub fn send_get_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
@@ -99,8 +105,9 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let _ = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let receive_buffer = &receive_buffer[..size];
+        let mut reader = Reader::init(receive_buffer);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -124,7 +131,8 @@ impl<'a> RequesterContext<'a> {
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let receive_buffer = &receive_buffer[..size];
+        let mut reader = Reader::init(receive_buffer);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -138,9 +146,12 @@ impl<'a> RequesterContext<'a> {
             SpdmEncapsulatedResponseAckPayload::spdm_read(&mut self.common, &mut reader)
                 .ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
+        // the header is shorter before SPDM 1.2
+        let ack_header_size = reader.used();
+
         match ack_header.payload_type {
             SpdmEncapsulatedResponseAckPayloadType::Absent => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE {
+                if size == ack_header_size {
                     return Ok(false);
                 } else {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
@@ -148,7 +159,7 @@ impl<'a> RequesterContext<'a> {
             }
             SpdmEncapsulatedResponseAckPayloadType::Present => {}
             SpdmEncapsulatedResponseAckPayloadType::ReqSlotNumber => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE + 1 {
+                if size == ack_header_size + 1 {
                     let req_slot_id = u8::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
                     if req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
                         return Err(SPDM_STATUS_INVALID_MSG_FIELD);
@@ -161,7 +172,7 @@ impl<'a> RequesterContext<'a> {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
                 }
             }
-            _ => {}
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
 
         self.process_encapsulated_request(
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..22a6d84 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -6,6 +6,7 @@ use crate::crypto;
 use crate::error::{
     SpdmResult, SPDM_STATUS_CRYPTO_ERROR, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_CERT,
     SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_INVALID_STATE_LOCAL,
+    SPDM_STATUS_UNSUPPORTED_CAP,
 };
 use crate::message::*;
 use crate::protocol::*;
@@ -105,15 +106,16 @@ impl<'a> RequesterContext<'a> {
                             debug!("!!! certificate : {:02x?}\n", certificate);
 
                             if certificate.portion_length > length
-                                || certificate.portion_length
-                                    > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16 - offset
+                                || certificate.portion_length as usize > MAX_SPDM_CERT_PORTION_LEN
+                                || offset as usize
+                                    + certificate.portion_length as usize
+                                    + certificate.remainder_length as usize
+                                    > MAX_SPDM_CERT_CHAIN_SIZE
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
-                            if certificate.remainder_length
-                                >= config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16
-                                    - offset
-                                    - certificate.portion_length
+                            // an empty portion makes no progress
+                            if certificate.portion_length == 0 && certificate.remainder_length != 0
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
@@ -192,6 +194,13 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
+        if !self
+            .common
+            .has_algorithms_for(SpdmRequestResponseCode::SpdmRequestGetCertificate)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestGetCertificate,
             session_id,
@@ -252,6 +261,9 @@ impl<'a> RequesterContext<'a> {
 
         let data_size =
             peer_cert_chain.data_size - 4 - self.common.negotiate_info.base_hash_sel.get_size();
+        if data_size as usize > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE {
+            return Err(SPDM_STATUS_INVALID_CERT);
+        }
         let mut data = [0u8; config::MAX_SPDM_CERT_CHAIN_DATA_SIZE];
         data[0..(data_size as usize)].copy_from_slice(
             &peer_cert_chain.data[(4usize
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index f890666..46ebca8 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -2,7 +2,9 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
-use crate::error::{SpdmResult, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD};
+use crate::error::{
+    SpdmResult, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_UNSUPPORTED_CAP,
+};
 use crate::message::*;
 use crate::requester::*;
 
@@ -10,6 +12,13 @@ impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_digest(&mut self, session_id: Option<u32>) -> SpdmResult {
         info!("send spdm digest\n");
 
+        if !self
+            .common
+            .has_algorithms_for(SpdmRequestResponseCode::SpdmRequestGetDigests)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestGetDigests,
             session_id,
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 2f55f0b..99b2412 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -7,7 +7,8 @@ use crate::crypto;
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
 use crate::error::{
     SpdmResult, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_CRYPTO_ERROR, SPDM_STATUS_ERROR_PEER,
-    SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_VERIF_FAIL,
+    SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_UNSUPPORTED_CAP,
+    SPDM_STATUS_VERIF_FAIL,
 };
 use crate::message::*;
 use crate::protocol::*;
@@ -216,6 +217,13 @@ impl<'a> RequesterContext<'a> {
         //      number of blocks got measured.
         spdm_measurement_record_structure: &mut SpdmMeasurementRecordStructure, // out
     ) -> SpdmResult {
+        if !self
+            .common
+            .has_algorithms_for(SpdmRequestResponseCode::SpdmRequestGetMeasurements)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         *out_total_number = self.send_receive_spdm_measurement_record(
             session_id,
             spdm_measuremente_attributes,
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 3b26d58..7e2f4ce 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -37,6 +37,13 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
 
+        if !self
+            .common
+            .has_algorithms_for(SpdmRequestResponseCode::SpdmRequestKeyExchange)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let req_session_id = self.common.get_next_half_session_id(true)?;
 
         self.common
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 8797946..70a0931 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -25,6 +25,13 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult<u32> {
         info!("send spdm psk exchange\n");
 
+        if !self
+            .common
+            .has_algorithms_for(SpdmRequestResponseCode::SpdmRequestPskExchange)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let psk_hint = if let Some(hint) = psk_hint {
             hint.clone()
         } else {
diff --git a/spdmlib/src/responder/encap_get_certificate.rs b/spdmlib/src/responder/encap_get_certificate.rs
index 650c45e..bdca809 100644
--- a/spdmlib/src/responder/encap_get_certificate.rs
+++ b/spdmlib/src/responder/encap_get_certificate.rs
@@ -17,7 +17,7 @@ use crate::{
         SpdmMessageGeneralPayload, SpdmMessageHeader, SpdmMessagePayload, SpdmRequestResponseCode,
         MAX_SPDM_CERT_PORTION_LEN,
     },
-    protocol::{SpdmCertChainBuffer, SpdmCertChainData},
+    protocol::{SpdmCertChainData, MAX_SPDM_CERT_CHAIN_SIZE},
 };
 
 use super::ResponderContext;
@@ -27,9 +27,12 @@ impl<'a> ResponderContext<'a> {
         &mut self,
         encap_request: &mut Writer,
     ) -> SpdmResult {
-        if self.common.peer_info.peer_cert_chain_temp.is_none() {
-            self.common.peer_info.peer_cert_chain_temp = Some(SpdmCertChainBuffer::default());
-        }
+        let offset = self
+            .common
+            .peer_info
+            .peer_cert_chain_temp
+            .as_ref()
+            .map_or(0, |chain| chain.data_size);
 
         let encapsulated_request = SpdmMessage {
             header: SpdmMessageHeader {
@@ -38,13 +41,7 @@ impl<'a> ResponderContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmGetCertificateRequest(
                 SpdmGetCertificateRequestPayload {
-                    offset: self
-                        .common
-                        .peer_info
-                        .peer_cert_chain_temp
-                        .as_ref()
-                        .unwrap()
-                        .data_size,
+                    offset,
                     length: MAX_SPDM_CERT_PORTION_LEN as u16,
                     slot_id: self.common.encap_context.req_slot_id,
                 },
@@ -82,15 +79,15 @@ impl<'a> ResponderContext<'a> {
                             let offset = peer_cert_chain_temp.data_size;
 
                             if certificate.portion_length as usize > MAX_SPDM_CERT_PORTION_LEN
-                                || certificate.portion_length
-                                    > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16 - offset
+                                || offset as usize
+                                    + certificate.portion_length as usize
+                                    + certificate.remainder_length as usize
+                                    > MAX_SPDM_CERT_CHAIN_SIZE
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
-                            if certificate.remainder_length
-                                >= config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16
-                                    - offset
-                                    - certificate.portion_length
+                            // an empty portion makes no progress
+                            if certificate.portion_length == 0 && certificate.remainder_length != 0
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
@@ -189,6 +186,9 @@ impl<'a> ResponderContext<'a> {
 
         let data_size =
             peer_cert_chain.data_size - 4 - self.common.negotiate_info.base_hash_sel.get_size();
+        if data_size as usize > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE {
+            return Err(SPDM_STATUS_INVALID_CERT);
+        }
         let mut data = [0u8; config::MAX_SPDM_CERT_CHAIN_DATA_SIZE];
         data[0..(data_size as usize)].copy_from_slice(
             &peer_cert_chain.data[(4usize
diff --git a/spdmlib/src/responder/encap_get_digest.rs b/spdmlib/src/responder/encap_get_digest.rs
index 2afc07a..b7a2c78 100644
--- a/spdmlib/src/responder/encap_get_digest.rs
+++ b/spdmlib/src/responder/encap_get_digest.rs
@@ -9,6 +9,7 @@ use super::ResponderContext;
 use crate::common::SpdmCodec;
 use crate::error::{SpdmResult, SPDM_STATUS_INVALID_MSG_FIELD};
 use crate::message::*;
+use crate::protocol::SpdmCertChainBuffer;
 
 impl<'a> ResponderContext<'a> {
     pub fn encode_encap_request_get_digest(&mut self, encap_request: &mut Writer) -> SpdmResult {
@@ -38,6 +39,10 @@ impl<'a> ResponderContext<'a> {
                             SpdmDigestsResponsePayload::spdm_read(&mut self.common, &mut reader);
                         if let Some(digests) = digests {
                             debug!("!!! digests : {:02x?}\n", digests);
+                            // the certificate is retrieved anew from its start
+                            self.common.peer_info.peer_cert_chain_temp =
+                                Some(SpdmCertChainBuffer::default());
+                            self.common.encap_context.encap_cert_size = 0;
                             Ok(())
                         } else {
                             error!("!!! digests : fail !!!\n");
diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..005b4e0 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -26,11 +26,12 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
+        if self.encap_check_version_cap_state(
             SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
             &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        ) {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,11 +82,12 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
+        if self.encap_check_version_cap_state(
+            SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse.get_u8(),
             &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        ) {
+            self.write_encap_response_ack_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -119,14 +121,21 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    // returns whether the request may be processed, if not the error is written
+    fn encap_check_version_cap_state(
+        &mut self,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> bool {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
         {
-            self.send_spdm_error(
+            self.write_spdm_error(
                 SpdmErrorCode::SpdmErrorUnsupportedRequest,
                 request_response_code,
-            )
+                writer,
+            );
+            return false;
         }
 
         if !self
@@ -145,14 +154,16 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return false;
         }
 
         if self.common.runtime_info.get_connection_state().get_u8()
-            < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
+            < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return false;
         }
+        true
     }
 
     fn process_encapsulated_response(
-- 
2.43.0


From d59cfd58379b55f6829a2c380dd30188f2e99f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 14/37] fix: the requester accepts only offered algorithms and
 a 1.0 VERSION, and a new connection drops the earlier one

---
 spdmlib/src/requester/context.rs              |  8 +++-
 spdmlib/src/requester/get_version_req.rs      | 10 +++-
 .../src/requester/negotiate_algorithms_req.rs | 46 +++++++++++++++++++
 3 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 32b1d1c..97b1d51 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -128,7 +128,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            2usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
@@ -152,7 +154,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            2usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..58d8dd3 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -43,6 +43,10 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult {
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            // VERSION and an ERROR for GET_VERSION are always SPDM 1.0 messages
+            Some(message_header) if message_header.version != SpdmVersion::SpdmVersion10 => {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseVersion => {
                     let version =
@@ -92,8 +96,10 @@ impl<'a> RequesterContext<'a> {
                             }
                         }
 
-                        // clear cache data
-                        self.common.reset_runtime_info();
+                        // clear cache data, nothing of an earlier connection survives
+                        let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
+                        self.common.reset_context();
+                        self.common.negotiate_info.spdm_version_sel = spdm_version_sel;
 
                         self.common.append_message_a(send_buffer)?;
                         self.common.append_message_a(&receive_buffer[..used])?;
diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..71cfbe9 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -90,6 +90,16 @@ impl<'a> RequesterContext<'a> {
                         if let Some(algorithms) = algorithms {
                             debug!("!!! algorithms : {:02x?}\n", algorithms);
 
+                            if !self.is_offered(&algorithms) {
+                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                            }
+
+                            self.common.negotiate_info.dhe_sel = SpdmDheAlgo::empty();
+                            self.common.negotiate_info.aead_sel = SpdmAeadAlgo::empty();
+                            self.common.negotiate_info.req_asym_sel = SpdmReqAsymAlgo::empty();
+                            self.common.negotiate_info.key_schedule_sel =
+                                SpdmKeyScheduleAlgo::empty();
+
                             self.common.negotiate_info.measurement_specification_sel =
                                 algorithms.measurement_specification_sel;
 
@@ -149,4 +159,40 @@ impl<'a> RequesterContext<'a> {
             None => Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
     }
+
+    // a responder selects at most one of the algorithms offered in each category
+    fn is_offered(&self, algorithms: &SpdmAlgorithmsResponsePayload) -> bool {
+        fn selected(offer: u32, selection: u32) -> bool {
+            selection & !offer == 0 && selection.count_ones() <= 1
+        }
+
+        let offer = &self.common.config_info;
+        selected(
+            offer.measurement_specification.bits() as u32,
+            algorithms.measurement_specification_sel.bits() as u32,
+        ) && selected(
+            offer.opaque_support.bits() as u32,
+            algorithms.other_params_selection.bits() as u32,
+        ) && selected(offer.base_asym_algo.bits(), algorithms.base_asym_sel.bits())
+            && selected(offer.base_hash_algo.bits(), algorithms.base_hash_sel.bits())
+            && algorithms
+                .alg_struct
+                .iter()
+                .take(algorithms.alg_struct_count as usize)
+                .all(|alg| match &alg.alg_supported {
+                    SpdmAlg::SpdmAlgoDhe(v) => {
+                        selected(offer.dhe_algo.bits() as u32, v.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoAead(v) => {
+                        selected(offer.aead_algo.bits() as u32, v.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoReqAsym(v) => {
+                        selected(offer.req_asym_algo.bits() as u32, v.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoKeySchedule(v) => {
+                        selected(offer.key_schedule_algo.bits() as u32, v.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoUnknown(_) => true,
+                })
+    }
 }
-- 
2.43.0


From 4a02ba547e69b9d060b57933e39c60d6f1b13be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 15/37] fix: errors before a version is negotiated are SPDM 1.0
 messages

---
 spdmlib/src/responder/error_rsp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index 4ee25d7..6bb7c0c 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -5,6 +5,7 @@
 use crate::common::SpdmCodec;
 use crate::error::SpdmResult;
 use crate::message::*;
+use crate::protocol::SpdmVersion;
 use crate::responder::*;
 
 impl<'a> ResponderContext<'a> {
@@ -17,9 +18,15 @@ impl<'a> ResponderContext<'a> {
         // the error replaces whatever part of a response was already written
         writer.clear();
 
+        // before a version is negotiated errors are SPDM 1.0 messages
+        let version = match self.common.negotiate_info.spdm_version_sel {
+            SpdmVersion::Unknown(_) => SpdmVersion::SpdmVersion10,
+            version => version,
+        };
+
         let error = SpdmMessage {
             header: SpdmMessageHeader {
-                version: self.common.negotiate_info.spdm_version_sel,
+                version,
                 request_response_code: SpdmRequestResponseCode::SpdmResponseError,
             },
             payload: SpdmMessagePayload::SpdmErrorResponse(SpdmErrorResponsePayload {
-- 
2.43.0


From bd48da4cc051ec654483677c98c7d9e7e6c32664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 16/37] fix: a completed challenge is a state of its own on
 both sides

---
 spdmlib/src/common/mod.rs              | 2 +-
 spdmlib/src/requester/challenge_req.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 11510e7..cf67cbc 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -42,7 +42,7 @@ enum_builder! {
         SpdmConnectionAfterCertificate => 0x5,
         // After CHALLENGE/CHALLENGE_AUTH,
         // and ENCAP CHALLENGE/CHALLENGE_AUTH if MUT_AUTH is enabled.
-        SpdmConnectionAuthenticated => 0x5
+        SpdmConnectionAuthenticated => 0x6
     }
 }
 impl Default for SpdmConnectionState {
diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 1c9e763..bfa23b1 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::SpdmConnectionState;
 use crate::crypto;
 #[cfg(feature = "hashed-transcript-data")]
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
@@ -132,6 +133,9 @@ impl<'a> RequesterContext<'a> {
                                 self.common.reset_message_b();
                                 self.common.reset_message_c();
                                 info!("verify_challenge_auth_signature pass");
+                                self.common.runtime_info.set_connection_state(
+                                    SpdmConnectionState::SpdmConnectionAuthenticated,
+                                );
                             }
 
                             Ok(())
-- 
2.43.0


From 72216f88e4999b2e359d962ca93f08037f7d2c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 17/37] fix: AEAD keys have the size of the negotiated cipher

---
 spdmlib/src/common/key_schedule.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index ff8bf48..3c1bcca 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -221,7 +221,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -229,7 +229,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
         };
         let encrypt_key = SpdmAeadKeyStruct::from_spdm_hkdf_okm(okm)?;
@@ -248,7 +248,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -256,7 +256,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
         };
         let iv = SpdmAeadIvStruct::from_spdm_hkdf_okm(okm)?;
-- 
2.43.0


From 4bf7af0672fb1334cec57945e07165b77690e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 18/37] fix: a PSK exchange refused for lack of a session
 leaves the transcripts alone

---
 spdmlib/src/requester/psk_exchange_req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 70a0931..59cb441 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -38,11 +38,12 @@ impl<'a> RequesterContext<'a> {
             SpdmPskHintStruct::default()
         };
 
+        let half_session_id = self.common.get_next_half_session_id(true)?;
+
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestPskExchange, None);
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let half_session_id = self.common.get_next_half_session_id(true)?;
         let send_used = self.encode_spdm_psk_exchange(
             half_session_id,
             measurement_summary_hash_type,
-- 
2.43.0


From 2a86ac3e88e506bd1b1bca1134128facf4807b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 19/37] fix: DMTF spec id of SPDM 1.1 opaque data

---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..c3a6e9d 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
-- 
2.43.0


From d77ca65263f328d6a2400168813f4bdab820aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 20/37] fix: a certificate read at the end of the chain is
 refused

---
 spdmlib/src/requester/encap_certificate.rs | 2 +-
 spdmlib/src/responder/certificate_rsp.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/encap_certificate.rs b/spdmlib/src/requester/encap_certificate.rs
index 2698a8c..9f7af2e 100644
--- a/spdmlib/src/requester/encap_certificate.rs
+++ b/spdmlib/src/requester/encap_certificate.rs
@@ -93,7 +93,7 @@ impl<'a> RequesterContext<'a> {
         }
 
         let offset = get_certificate.offset;
-        if offset > my_cert_chain.data_size {
+        if offset >= my_cert_chain.data_size {
             self.encode_encap_error_response(
                 SpdmErrorCode::SpdmErrorInvalidRequest,
                 0,
diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index d3ed47d..cb94615 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -82,7 +82,7 @@ impl<'a> ResponderContext<'a> {
         }
 
         let offset = get_certificate.offset;
-        if offset > my_cert_chain.data_size {
+        if offset >= my_cert_chain.data_size {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return;
         }
-- 
2.43.0


From a9f479642d5d77b64c0d31485cce310131f1143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 21/37] fix: a signed measurement is refused without
 MEAS_CAP_SIG

---
 spdmlib/src/responder/measurement_rsp.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 84e2aa4..66f75b7 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -88,6 +88,15 @@ impl<'a> ResponderContext<'a> {
         {
             self.common.runtime_info.need_measurement_signature = true;
 
+            if !self
+                .common
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::MEAS_CAP_SIG)
+            {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                return;
+            }
             if signature_size == 0 {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
-- 
2.43.0


From fa1c6ce82bd5e23c16b970ab633a9b425e872e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 22/37] fix: FINISH in a PSK session is refused in its record

---
 spdmlib/src/responder/finish_rsp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 751b1f2..a5c141e 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -30,6 +30,12 @@ impl<'a> ResponderContext<'a> {
                 .negotiate_info
                 .rsp_capabilities_sel
                 .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
+        // a PSK session has no handshake in the clear
+        let in_clear_text = in_clear_text
+            && self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map_or(false, |session| !session.get_use_psk());
         info!("in_clear_text {:?}\n", in_clear_text);
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-- 
2.43.0


From a2529ca68474c9add0dbd6bf8c86c3b6d0e2f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 23/37] fix: a DOE record larger than the message buffer is
 refused

---
 pcidoe_transport/src/header.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..311edd7 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -5,7 +5,10 @@
 use codec::enum_builder;
 use codec::{Codec, Reader, Writer};
 use spdmlib::common::SpdmTransportEncap;
-use spdmlib::error::{SpdmResult, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_FAIL};
+use spdmlib::error::{
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_APP_FAIL,
+    SPDM_STATUS_ENCAP_FAIL,
+};
 
 enum_builder! {
     @U16
@@ -149,6 +152,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +164,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_APP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
-- 
2.43.0


From 0b2530fd216a29b496e787ad622d07da2d8e6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 24/37] fix: a response the requester cannot take has no effect

---
 spdmlib/src/responder/algorithm_rsp.rs    |  4 ++++
 spdmlib/src/responder/certificate_rsp.rs  |  4 ++++
 spdmlib/src/responder/challenge_rsp.rs    |  4 ++++
 spdmlib/src/responder/context.rs          | 15 ++++++++-------
 spdmlib/src/responder/digest_rsp.rs       |  4 ++++
 spdmlib/src/responder/finish_rsp.rs       |  4 ++++
 spdmlib/src/responder/key_exchange_rsp.rs |  4 ++++
 spdmlib/src/responder/measurement_rsp.rs  |  4 ++++
 spdmlib/src/responder/psk_exchange_rsp.rs |  5 +++++
 9 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 17c5d6c..901a61a 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -166,6 +166,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
         if self
             .common
             .append_message_a(&bytes[..reader.used()])
diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index cb94615..199faf6 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -117,6 +117,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
 
         match session_id {
             None => {
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 9163d1b..1a32abb 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -157,6 +157,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
         let used = writer.used();
 
         // generat signature
diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 29733d3..b0e869e 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -32,10 +32,14 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
+    // whether the requester cannot take a response of this size
+    pub fn response_too_large(&self, size: usize) -> bool {
+        let limit = self.common.negotiate_info.req_data_transfer_size_sel;
+        limit != 0 && size > limit as usize
+    }
+
     pub fn send_message(&mut self, send_buffer: &[u8]) -> SpdmResult {
-        if self.common.negotiate_info.req_data_transfer_size_sel != 0
-            && (send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize)
-        {
+        if self.response_too_large(send_buffer.len()) {
             let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
             let mut writer = Writer::init(&mut err_buffer);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
@@ -98,10 +102,7 @@ impl<'a> ResponderContext<'a> {
         send_buffer: &[u8],
         is_app_message: bool,
     ) -> SpdmResult {
-        if !is_app_message
-            && self.common.negotiate_info.req_data_transfer_size_sel != 0
-            && send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize
-        {
+        if !is_app_message && self.response_too_large(send_buffer.len()) {
             let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
             let mut writer = Writer::init(&mut err_buffer);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index 481b14b..08327dc 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -95,6 +95,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
 
         // the digests are in slot order at the end of the message
         let mut digest_offset =
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index a5c141e..31690e7 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -231,6 +231,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return Err(SPDM_STATUS_BUFFER_FULL);
+        }
         let used = writer.used();
 
         if in_clear_text {
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 1e2def8..cb46045 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -332,6 +332,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return Err(SPDM_STATUS_BUFFER_FULL);
+        }
         let used = writer.used();
 
         // generate signature
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 66f75b7..3da0bd6 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -225,6 +225,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
         let used = writer.used();
 
         // the exchange belongs to the transcript only when it is answered
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index cc4d4a4..672cb8a 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -9,6 +9,7 @@ use crate::common::SpdmOpaqueSupport;
 use crate::common::INVALID_SLOT;
 use crate::crypto;
 use crate::error::SpdmResult;
+use crate::error::SPDM_STATUS_BUFFER_FULL;
 use crate::error::SPDM_STATUS_CRYPTO_ERROR;
 use crate::error::SPDM_STATUS_INVALID_MSG_FIELD;
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
@@ -254,6 +255,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
+        if self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return Err(SPDM_STATUS_BUFFER_FULL);
+        }
         let used = writer.used();
 
         let base_hash_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
-- 
2.43.0


From 4736a77225f0e8c9d84695076c349e403656b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 25/37] fix: the requester selects a version only from the
 entries it received

---
 spdmlib/src/requester/get_version_req.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index 58d8dd3..88c2790 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -60,7 +60,10 @@ impl<'a> RequesterContext<'a> {
                             mut versions,
                         } = version;
 
-                        versions
+                        // only the entries received, the others are placeholders
+                        let entry_count =
+                            core::cmp::min(version_number_entry_count as usize, versions.len());
+                        versions[..entry_count]
                             .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
 
                         self.common.negotiate_info.spdm_version_sel = SpdmVersion::Unknown(0);
-- 
2.43.0


From c8f452d73dbc2bb598534e0e51eae26e51483214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 26/37] fix: an ERROR for GET_VERSION is mapped as such
 whatever was negotiated before

---
 spdmlib/src/requester/handle_error_response_req.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/handle_error_response_req.rs b/spdmlib/src/requester/handle_error_response_req.rs
index d0128ce..252c4f3 100644
--- a/spdmlib/src/requester/handle_error_response_req.rs
+++ b/spdmlib/src/requester/handle_error_response_req.rs
@@ -10,6 +10,7 @@ use crate::error::{
     SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_SESSION_MSG_ERROR,
 };
 use crate::message::*;
+use crate::protocol::SpdmVersion;
 use crate::requester::RequesterContext;
 
 impl<'a> RequesterContext<'a> {
@@ -43,7 +44,7 @@ impl<'a> RequesterContext<'a> {
         &mut self,
         session_id: Option<u32>,
         response: &[u8],
-        _original_request_code: SpdmRequestResponseCode,
+        original_request_code: SpdmRequestResponseCode,
         _expected_response_code: SpdmRequestResponseCode,
     ) -> SpdmResult {
         // connection messages belong to no session
@@ -58,7 +59,13 @@ impl<'a> RequesterContext<'a> {
             };
         let header_size = spdm_message_header_reader.used();
 
-        if spdm_message_header.version != self.common.negotiate_info.spdm_version_sel {
+        // an ERROR for GET_VERSION is always a SPDM 1.0 message
+        let version = if original_request_code == SpdmRequestResponseCode::SpdmRequestGetVersion {
+            SpdmVersion::SpdmVersion10
+        } else {
+            self.common.negotiate_info.spdm_version_sel
+        };
+        if spdm_message_header.version != version {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
-- 
2.43.0


From 4898ddd482633da206313f42dd27802e78436526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 27/37] fix: a session whose FINISH cannot be made is torn down

---
 spdmlib/src/requester/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 97b1d51..8b72461 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -63,7 +63,12 @@ impl<'a> RequesterContext<'a> {
             } else {
                 None
             };
-            self.send_receive_spdm_finish(req_slot_id, session_id)?;
+            if let Err(e) = self.send_receive_spdm_finish(req_slot_id, session_id) {
+                if let Some(session) = self.common.get_session_via_id(session_id) {
+                    let _ = session.teardown(session_id);
+                }
+                return Err(e);
+            }
             Ok(session_id)
         } else {
             let session_id =
-- 
2.43.0


From e6a218c93b42f4c6ebcc5e8cae1537098ff39db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 28/37] fix: PSK_FINISH answers with an error when the data
 secret cannot be derived

---
 spdmlib/src/responder/psk_finish_rsp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index c03f137..a460565 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -173,6 +173,14 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if session
+            .generate_data_secret(spdm_version_sel, &th2)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+
+        Ok(())
     }
 }
-- 
2.43.0


From 3b1f89dda0e8a65cedfe05a9b11c5a51490692af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 29/37] fix: report a failed duplication of a hash context
 instead of panicking

---
 spdmlib/src/common/mod.rs                     | 34 +++++++++----------
 spdmlib/src/requester/challenge_req.rs        |  2 +-
 spdmlib/src/requester/get_measurements_req.rs |  4 +--
 spdmlib/src/responder/challenge_rsp.rs        |  2 +-
 spdmlib/src/responder/measurement_rsp.rs      |  4 +--
 5 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index cf67cbc..bed412f 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -871,15 +871,14 @@ impl<'a> SpdmContext<'a> {
         _is_mut_auth: bool,
         session: &SpdmSession,
     ) -> SpdmResult<SpdmDigestStruct> {
-        let transcript_hash = crypto::hash::hash_ctx_finalize(
-            session
-                .runtime_info
-                .digest_context_th
-                .as_ref()
-                .cloned()
-                .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?,
-        )
-        .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+        let ctx = session
+            .runtime_info
+            .digest_context_th
+            .as_ref()
+            .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
+        let ctx = crypto::hash::hash_ctx_dup(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+        let transcript_hash =
+            crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
         Ok(transcript_hash)
     }
 
@@ -891,15 +890,14 @@ impl<'a> SpdmContext<'a> {
         _is_mut_auth: bool,
         session: &SpdmSession,
     ) -> SpdmResult<SpdmDigestStruct> {
-        let transcript_hash = crypto::hash::hash_ctx_finalize(
-            session
-                .runtime_info
-                .digest_context_th
-                .as_ref()
-                .cloned()
-                .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?,
-        )
-        .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+        let ctx = session
+            .runtime_info
+            .digest_context_th
+            .as_ref()
+            .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
+        let ctx = crypto::hash::hash_ctx_dup(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+        let transcript_hash =
+            crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
         Ok(transcript_hash)
     }
 
diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index bfa23b1..d008071 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -169,7 +169,7 @@ impl<'a> RequesterContext<'a> {
                 .runtime_info
                 .digest_context_m1m2
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 99b2412..e848403 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -248,7 +248,7 @@ impl<'a> RequesterContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
                 crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?
             }
@@ -263,7 +263,7 @@ impl<'a> RequesterContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
                 crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?
             }
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 1a32abb..ae79304 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -205,7 +205,7 @@ impl<'a> ResponderContext<'a> {
                 .runtime_info
                 .digest_context_m1m2
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 3da0bd6..d46ab94 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -295,7 +295,7 @@ impl<'a> ResponderContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
@@ -304,7 +304,7 @@ impl<'a> ResponderContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
-- 
2.43.0


From 4bee61bbcba8d2803b0ff81c0e1fa664a3f5159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 30/37] fix: keep the certificate format check inside the data
 it reads

A length of more than eight octets or a signature algorithm identifier longer
than the rest of the certificate made the check panic, and the mandatory fields
of the TBS certificate were looked for beyond its end, so that a certificate
without a public key was accepted.
---
 spdmlib/src/crypto/x509v3.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/crypto/x509v3.rs b/spdmlib/src/crypto/x509v3.rs
index e1521af..794b910 100644
--- a/spdmlib/src/crypto/x509v3.rs
+++ b/spdmlib/src/crypto/x509v3.rs
@@ -20,6 +20,7 @@ const ASN1_TAG_SEQUENCE: u8 =
     ASN1_TAG_CLASS_UNIVERSAL_MASK | ASN1_FORM_CONSTRUCTED_MASK | ASN1_TAG_NUMBER_SEQUENCE;
 
 const ASN1_LENGTH_MULTI_OCTET_MASK: u8 = 0x80;
+const ASN1_LENGTH_MAX_OCTETS: u8 = 4;
 
 const X509V3_VERSION: u8 = 2;
 const OID_RSA_SHA256RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0bu8];
@@ -105,6 +106,8 @@ fn check_tbs_certificate(
     if len < t_walker + tbs_length {
         return Err(SPDM_STATUS_VERIF_FAIL);
     }
+    // the fields of the TBS certificate end where it ends
+    let data = &data[..t_walker + tbs_length];
 
     // version         [0]  EXPLICIT Version DEFAULT v1,
     let bytes_consumed = check_version(&data[t_walker..])?;
@@ -120,10 +123,13 @@ fn check_tbs_certificate(
     let (signature_id_length, bytes_consumed) = check_length(&data[t_walker..])?;
     t_walker += bytes_consumed;
 
+    let signature_id = data
+        .get(t_walker..t_walker + signature_id_length)
+        .ok_or(SPDM_STATUS_VERIF_FAIL)?;
     if is_leaf_cert {
-        check_object_identifier(&data[t_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
+        check_object_identifier(signature_id, get_oid_by_base_asym_algo(base_asym_algo))?;
     } else {
-        check_object_identifier(&data[t_walker..], None)?;
+        check_object_identifier(signature_id, None)?;
     }
     t_walker += signature_id_length;
     // issuer               Name,
@@ -160,10 +166,13 @@ fn check_signature_algorithm(
     let (signature_id_length, bytes_consumed) = check_length(&data[s_walker..])?;
     s_walker += bytes_consumed;
 
+    let signature_id = data
+        .get(s_walker..s_walker + signature_id_length)
+        .ok_or(SPDM_STATUS_VERIF_FAIL)?;
     if is_leaf_cert {
-        check_object_identifier(&data[s_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
+        check_object_identifier(signature_id, get_oid_by_base_asym_algo(base_asym_algo))?;
     } else {
-        check_object_identifier(&data[s_walker..], None)?;
+        check_object_identifier(signature_id, None)?;
     }
 
     Ok(s_walker + signature_id_length)
@@ -194,7 +203,10 @@ fn check_length(data: &[u8]) -> SpdmResult<(usize, usize)> {
         Ok((data[0] as usize, 1))
     } else {
         let length_count = data[0] - ASN1_LENGTH_MULTI_OCTET_MASK;
-        if len < (length_count as usize + 1) || length_count == 0 {
+        if len < (length_count as usize + 1)
+            || length_count == 0
+            || length_count > ASN1_LENGTH_MAX_OCTETS
+        {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             let mut length = [0u8; 8];
-- 
2.43.0


From 5a7f5d623fa04d70e573f0685c449ada5832f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 31/37] fix: refuse a message no PCI DOE data object can hold

Framing a message of more than 2^20 - 8 bytes panicked in the header encoder.
---
 pcidoe_transport/src/header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index 311edd7..a0abf96 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -10,6 +10,9 @@ use spdmlib::error::{
     SPDM_STATUS_ENCAP_FAIL,
 };
 
+// a data object is at most 2^18 double words long, two of which are its header
+const PCI_DOE_MAX_PAYLOAD_SIZE: usize = 0x40000 * 4 - 8;
+
 enum_builder! {
     @U16
     EnumName: PciDoeVendorId;
@@ -94,6 +97,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         secured_message: bool,
     ) -> SpdmResult<usize> {
         let payload_len = spdm_buffer.len();
+        if payload_len > PCI_DOE_MAX_PAYLOAD_SIZE {
+            return Err(SPDM_STATUS_ENCAP_FAIL);
+        }
         let aligned_payload_len = (payload_len + 3) / 4 * 4;
         let mut writer = Writer::init(&mut *transport_buffer);
         let pcidoe_header = PciDoeMessageHeader {
-- 
2.43.0


From f73209c5d61caa72727b99c2241cb210d2f1629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 32/37] fix: pad PCI DOE data objects with zeros

The padding to a whole double word was whatever the transport buffer held
before, which left the endpoint with the frame.
---
 pcidoe_transport/src/header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index a0abf96..965c84c 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -119,6 +119,7 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
             return Err(SPDM_STATUS_ENCAP_FAIL);
         }
         transport_buffer[header_size..(header_size + payload_len)].copy_from_slice(spdm_buffer);
+        transport_buffer[(header_size + payload_len)..(header_size + aligned_payload_len)].fill(0);
         Ok(header_size + aligned_payload_len)
     }
 
-- 
2.43.0


From 48a41c6b058f0c368638fc39dbc4b6bb9373417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 33/37] fix: refuse lengths a decoded message cannot hold

---
 spdmlib/src/message/certificate.rs | 3 +++
 spdmlib/src/message/vendor.rs      | 6 ++++++
 spdmlib/src/protocol/algo.rs       | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/spdmlib/src/message/certificate.rs b/spdmlib/src/message/certificate.rs
index f52a6f1..6ba06a1 100644
--- a/spdmlib/src/message/certificate.rs
+++ b/spdmlib/src/message/certificate.rs
@@ -109,6 +109,9 @@ impl SpdmCodec for SpdmCertificateResponsePayload {
         u8::read(r)?; // param2
         let portion_length = u16::read(r)?;
         let remainder_length = u16::read(r)?;
+        if portion_length as usize > MAX_SPDM_CERT_PORTION_LEN {
+            return None;
+        }
         let mut response = SpdmCertificateResponsePayload {
             slot_id,
             portion_length,
diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..1bcef3d 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -103,6 +103,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
+        if req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_req_payload
             .iter_mut()
@@ -139,6 +142,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
+        if rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_rsp_payload
             .iter_mut()
diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index fe1728e..71f6ac9 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -1007,6 +1007,9 @@ impl Codec for SpdmDmtfMeasurementStructure {
         // TBD: Check measurement_hash
 
         let value_size = u16::read(r)?;
+        if value_size as usize > config::MAX_SPDM_MEASUREMENT_VALUE_LEN {
+            return None;
+        }
         let mut value = [0u8; config::MAX_SPDM_MEASUREMENT_VALUE_LEN];
         for v in value.iter_mut().take(value_size as usize) {
             *v = u8::read(r)?;
-- 
2.43.0


From 28ecae57df813c74a7217d83c32633da22070df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 34/37] fix: encoding too long a list of opaque elements fails
 instead of panicking

---
 spdmlib/src/common/opaque.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index c3a6e9d..e3a895e 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -5,7 +5,10 @@
 use super::spdm_codec::SpdmCodec;
 use super::*;
 use crate::{
-    error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_UNSUPPORTED_CAP},
+    error::{
+        SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_PARAMETER,
+        SPDM_STATUS_UNSUPPORTED_CAP,
+    },
     message::MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN,
 };
 use codec::{Codec, Reader, Writer};
@@ -188,7 +191,10 @@ impl SpdmCodec for SecuredMessageVersionList {
             .encode(bytes)
             .map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
         for index in 0..self.version_count as usize {
-            cnt += self.versions_list[index]
+            cnt += self
+                .versions_list
+                .get(index)
+                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
                 .spdm_encode(context, bytes)
                 .map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
         }
@@ -441,7 +447,10 @@ impl SpdmCodec for SecuredMessageDMTFVersionSelection {
             .secured_message_general_opaque_data_header
             .total_elements as usize
         {
-            cnt += self.opaque_element_dmtf_version_selection_list[index]
+            cnt += self
+                .opaque_element_dmtf_version_selection_list
+                .get(index)
+                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
                 .spdm_encode(context, bytes)
                 .map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
         }
@@ -493,7 +502,10 @@ impl SpdmCodec for SecuredMessageDMTFSupportedVersion {
             .secured_message_general_opaque_data_header
             .total_elements as usize
         {
-            cnt += self.opaque_element_dmtf_supported_version_list[index]
+            cnt += self
+                .opaque_element_dmtf_supported_version_list
+                .get(index)
+                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
                 .spdm_encode(context, bytes)
                 .map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
         }
-- 
2.43.0


From 8bd533b1095b6cf55f278012cad02724c3a4ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 35/37] fix: take no value from fields reserved in the
 negotiated version

---
 spdmlib/src/message/key_exchange.rs |  5 ++++-
 spdmlib/src/message/measurement.rs  | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/message/key_exchange.rs b/spdmlib/src/message/key_exchange.rs
index 3b76f16..d07dee8 100644
--- a/spdmlib/src/message/key_exchange.rs
+++ b/spdmlib/src/message/key_exchange.rs
@@ -93,7 +93,10 @@ impl SpdmCodec for SpdmKeyExchangeRequestPayload {
         }
         let slot_id = u8::read(r)?; // param2
         let req_session_id = u16::read(r)?;
-        let session_policy = u8::read(r)?;
+        let mut session_policy = u8::read(r)?;
+        if context.negotiate_info.spdm_version_sel.get_u8() < SpdmVersion::SpdmVersion12.get_u8() {
+            session_policy = 0; // reserved
+        }
         u8::read(r)?;
 
         let random = SpdmRandomStruct::read(r)?;
diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 432b910..064b705 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -187,7 +187,16 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         r: &mut Reader,
     ) -> Option<SpdmMeasurementsResponsePayload> {
         let number_of_measurement = u8::read(r)?; // param1
-        let param2 = u8::read(r)?; // param2
+        let mut param2 = u8::read(r)?; // param2
+        if context.negotiate_info.spdm_version_sel.get_u8() < SpdmVersion::SpdmVersion11.get_u8()
+            || !context.runtime_info.need_measurement_signature
+        {
+            param2 = 0; // reserved
+        } else if context.negotiate_info.spdm_version_sel.get_u8()
+            < SpdmVersion::SpdmVersion12.get_u8()
+        {
+            param2 &= MEASUREMENT_RESPONDER_PARAM2_SLOT_ID_MASK;
+        }
         let slot_id = param2 & MEASUREMENT_RESPONDER_PARAM2_SLOT_ID_MASK; // Bit [3:0]
         let content_changed = param2 & MEASUREMENT_RESPONDER_PARAM2_CONTENT_CHANGED_MASK; // Bit [5:4]
         let content_changed = SpdmMeasurementContentChanged::from_bits(content_changed)?;
-- 
2.43.0


From f9c4d38025a386b84b4bbc468e8cafa6404fe752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 36/37] fix: SHA3-384 and SHA3-512 are measurement hash
 algorithms too

---
 spdmlib/src/protocol/algo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 71f6ac9..af0ad38 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -118,8 +118,8 @@ bitflags! {
             | Self::TPM_ALG_SHA_384.bits
             | Self::TPM_ALG_SHA_512.bits
             | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
+            | Self::TPM_ALG_SHA3_384.bits
+            | Self::TPM_ALG_SHA3_512.bits
             | Self::TPM_ALG_SM3.bits;
     }
 }
-- 
2.43.0


From a101b8299acb14d4a8752aedc2f5d9c77f551c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 37/37] fix: only a DMTF element of its kind is a secured
 message version element

---
 spdmlib/src/common/opaque.rs | 38 ++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e3a895e..23582cb 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -360,11 +360,19 @@ impl SpdmCodec for OpaqueElementDMTFVersionSelection {
         context: &mut SpdmContext,
         r: &mut Reader,
     ) -> Option<OpaqueElementDMTFVersionSelection> {
-        u8::read(r)?; // ID
-        u8::read(r)?; // VendorLen
-        u16::read(r)?; // OpaqueElementDataLen
-        u8::read(r)?; // SMDataVersion
-        u8::read(r)?; // SMDataID
+        let id = u8::read(r)?; // ID
+        let vendor_len = u8::read(r)?; // VendorLen
+        let opaque_element_data_len = u16::read(r)?; // OpaqueElementDataLen
+        let sm_data_version = u8::read(r)?; // SMDataVersion
+        let sm_data_id = u8::read(r)?; // SMDataID
+        if id != DMTF_ID
+            || vendor_len != DMTF_VENDOR_LEN
+            || opaque_element_data_len != 4
+            || sm_data_version != SM_DATA_VERSION
+            || sm_data_id != VERSION_SELECTION_SM_DATA_ID
+        {
+            return None;
+        }
         let selected_version = SecuredMessageVersion::spdm_read(context, r)?;
 
         Some(OpaqueElementDMTFVersionSelection { selected_version })
@@ -406,12 +414,22 @@ impl SpdmCodec for OpaqueElementDMTFSupportedVersion {
         context: &mut SpdmContext,
         r: &mut Reader,
     ) -> Option<OpaqueElementDMTFSupportedVersion> {
-        u8::read(r)?; // ID
-        u8::read(r)?; // VendorLen
-        u16::read(r)?; // OpaqueElementDataLen
-        u8::read(r)?; // SMDataVersion
-        u8::read(r)?; // SMDataID
+        let id = u8::read(r)?; // ID
+        let vendor_len = u8::read(r)?; // VendorLen
+        let opaque_element_data_len = u16::read(r)?; // OpaqueElementDataLen
+        let sm_data_version = u8::read(r)?; // SMDataVersion
+        let sm_data_id = u8::read(r)?; // SMDataID
+        if id != DMTF_ID
+            || vendor_len != DMTF_VENDOR_LEN
+            || sm_data_version != SM_DATA_VERSION
+            || sm_data_id != SUPPORTED_VERSION_LIST_SM_DATA_ID
+        {
+            return None;
+        }
         let secured_msg_vers = SecuredMessageVersionList::spdm_read(context, r)?;
+        if opaque_element_data_len != 3 + 2 * secured_msg_vers.version_count as u16 {
+            return None;
+        }
 
         // padding
         let read = r.used();
-- 
2.43.0

