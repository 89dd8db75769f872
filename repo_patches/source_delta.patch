From aa092144077114f49412497e8acb1bd2aa0a2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 01/15] fix: encode SimulationIdentifier's reference number
 instead of a constant zero

---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From 8a6dfdf4a6e8fb1c7c21bbe637aedf3a154dee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 02/15] fix: encode DeadReckoningParameters' other parameters
 instead of zeros

---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From e99b701056c8e95f033e33a1ad0703c8c2aad07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 03/15] fix: RecordSpecificationElement encodes exactly its
 record values and counts them without u16 overflow

---
 src/common/data_types/record_specification_element.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..fdde754 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -39,10 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
-            buf.put_u8(self.record_values[i]);
-        }
+        buf.put_slice(&self.record_values);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -50,7 +47,7 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
+        let num_record_values = usize::from(record_length) * usize::from(record_count);
         let mut record_values: Vec<u8> = vec![];
         for _ in 0..num_record_values {
             record_values.push(buf.get_u8());
-- 
2.43.0


From 0261e141d48a080672de1d570d12880bd384ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 04/15] fix: take the DIS timestamp from a single reading of
 the clock

---
 src/common/live_entity_pdu_header.rs | 7 ++++---
 src/common/pdu_header.rs             | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..f97fffe 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -124,9 +124,10 @@ impl LiveEntityPduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..1c532de 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -246,9 +246,10 @@ impl PduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
-- 
2.43.0


From 2c9261a92f6bf586fe7b632281b84e821f221f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 05/15] fix: EntityMarking is a fixed 11-octet field on the
 wire and is decoded from it

---
 src/common/data_types/entity_marking.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..2a1dcbe 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,8 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    const MARKING_OCTETS: usize = 11;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +26,21 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        // The marking occupies exactly 11 octets: longer strings are cut, shorter ones zero-padded
+        let bytes = self.entity_marking_string.as_bytes();
+        let used = bytes.len().min(Self::MARKING_OCTETS);
+        buf.put_slice(&bytes[..used]);
+        buf.put_bytes(0, Self::MARKING_OCTETS - used);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
+        let entity_marking_character_set = EntityMarkingCharacterSet::deserialize(buf);
+        let mut marking = [0u8; Self::MARKING_OCTETS];
+        buf.copy_to_slice(&mut marking);
+        let marking = String::from_utf8_lossy(&marking);
         Self {
-            entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_character_set,
+            entity_marking_string: marking.trim_end_matches('\0').to_string(),
         }
     }
 }
-- 
2.43.0


From 31f64d0e974cc5e04f67d9a7b554f499f41c1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 06/15] fix: VariableDatumRecord decodes the value it encoded
 and accounts for its padding

---
 src/common/data_types/datum_records.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..4c27b7e 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -60,6 +60,10 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    const fn padding_count(length_bits: u32) -> usize {
+        ((64 - (length_bits as usize % 64)) % 64) / 8
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -72,8 +76,7 @@ impl VariableDatumRecord {
             buf.put_u8(self.value[i]);
         }
 
-        let pad_bits = (64u32 - (self.length_bits % 64)) % 64;
-        let pad_bytes = (pad_bits / 8) as usize;
+        let pad_bytes = Self::padding_count(self.length_bits);
         if pad_bytes > 0 {
             let zeros = vec![0u8; pad_bytes];
             for z in zeros {
@@ -87,10 +90,11 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![0u8; value_bytes];
+        let mut value = Vec::new();
         for _ in 0..value_bytes {
             value.push(buf.get_u8());
         }
+        buf.advance(Self::padding_count(length_bits));
 
         Self {
             datum_id,
@@ -114,6 +118,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_count(self.length_bits)
     }
 }
-- 
2.43.0


From 2857c53eb864f228eb98709bfdecb9429ab36180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 07/15] fix: reject PDUs larger than MAX_PDU_SIZE_OCTETS

---
 src/pdu_macro.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..a78c994 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -284,6 +284,13 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
+                if len > $crate::common::constants::MAX_PDU_SIZE_OCTETS {
+                    return Err($crate::common::dis_error::DISError::pdu_size_exceeded(
+                        len,
+                        $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    ));
+                }
+
                 u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
                     size: len,
                     max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-- 
2.43.0


From ee94c289d3140242e50e65901e8d17e059371c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 08/15] fix: deserialize_without_header rejects the header of
 another PDU type

---
 src/pdu_macro.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index a78c994..2ef6feb 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -351,6 +351,13 @@ macro_rules! define_pdu {
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                if header.pdu_type() != $pdu_type {
+                    return Err($crate::common::dis_error::DISError::invalid_header(
+                        format!("Expected PDU type {:?}, got {:?}", $pdu_type, header.pdu_type()),
+                        None,
+                    ));
+                }
+
                 let mut body = Self::deserialize_body(buf);
                 body.header = header;
                 Ok(body)
-- 
2.43.0


From e35dfd680c22b7908f0c275e938494a5b8987eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 09/15] fix: decoding a truncated PDU returns BufferUnderflow
 instead of panicking

---
 src/pdu_macro.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 2ef6feb..1c6862f 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -254,7 +254,14 @@ macro_rules! define_pdu {
             /// Note: for variable-length arrays/strings the generated code will call
             /// `FieldDeserialize::deserialize_field()`, but for real variable-length fields
             /// you should write custom code in the manual body impl below or adapt the macro.
-            fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Self {
+            fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError> {
+                // A truncated body must be reported, not read past its end
+                let fixed_len = <Self as $crate::common::pdu::Pdu>::calculate_length(&Self::default())?;
+                let required = usize::from(fixed_len) - <$header>::LENGTH;
+                if buf.remaining() < required {
+                    return Err($crate::common::dis_error::DISError::buffer_underflow(required, buf.remaining()));
+                }
+
                 $(
                     // Each field can optionally be annotated with `#[len = name]`.
                     // The helper macro below will either call the plain `FieldDeserialize`
@@ -263,12 +270,12 @@ macro_rules! define_pdu {
                     $crate::__pdu_deserialize_field!( $( len = $len_field )? ; $field, $ftype, buf );
                 )*
 
-                Self {
+                Ok(Self {
                     header: <$header>::default(),
                     $(
                         $field,
                     )*
-                }
+                })
             }
         }
 
@@ -332,6 +339,10 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                if buf.remaining() < <$header>::LENGTH {
+                    return Err($crate::common::dis_error::DISError::buffer_underflow(<$header>::LENGTH, buf.remaining()));
+                }
+
                 // deserialize header using its associated function
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
 
@@ -344,7 +355,7 @@ macro_rules! define_pdu {
                 }
 
                 // read body fields with the generated deserializer
-                let mut body = Self::deserialize_body(buf);
+                let mut body = Self::deserialize_body(buf)?;
                 body.header = header;
                 Ok(body)
             }
@@ -358,7 +369,7 @@ macro_rules! define_pdu {
                     ));
                 }
 
-                let mut body = Self::deserialize_body(buf);
+                let mut body = Self::deserialize_body(buf)?;
                 body.header = header;
                 Ok(body)
             }
-- 
2.43.0


From 56d43f6ef036041654a64042f6f166df90e61a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 10/15] fix: length-tied fields accept any integer length field
 and reject a length beyond the buffer

---
 src/pdu_macro.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 1c6862f..8ee7c65 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -60,10 +60,9 @@ macro_rules! __pdu_prep_serialize_field {
 
     ( len = $len_field:ident ; $self:ident, $field:ident, $t:ty ) => {
         // For non-option fields with length attribute, set the length from the inner value.
-        $self.$len_field = u8::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
-            &$self.$field,
-        ))
-        .unwrap_or_default();
+        $self.$len_field = <$t as $crate::pdu_macro::FieldLen>::field_len(&$self.$field)
+            .try_into()
+            .unwrap_or_default();
     };
 
     // Default: no-op
@@ -92,6 +91,12 @@ macro_rules! __pdu_deserialize_field {
 
     // T with length attribute (non-Option)
     ( len = $len_field:ident ; $field:ident, $t:ty, $buf:ident ) => {
+        if $buf.remaining() < usize::from($len_field) {
+            return Err($crate::common::dis_error::DISError::buffer_underflow(
+                usize::from($len_field),
+                $buf.remaining(),
+            ));
+        }
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserializeWithLen>::deserialize_with_len(
             $buf,
             $len_field as usize,
-- 
2.43.0


From 466d50a469431de941a0053863bd51c55c6fadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 11/15] fix: TransmitterPdu ties the antenna pattern to
 antenna_pattern_length on encode and decode

---
 src/radio_communications.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index dcc8251..158b81e 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -58,6 +58,7 @@ define_pdu! {
             padding2: u16,
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
+            #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
-- 
2.43.0


From d8356e43d55f895667adcd601775ab8c6278c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 12/15] fix: VariableTransmitterParameters reads the 32-bit
 record type it writes

---
 src/common/data_types/variable_transmitter_parameters.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..d2337fc 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
@@ -47,7 +48,7 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        let record_type = VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let mut record_specific_fields: Vec<u8> = vec![];
         for _ in 0..record_length {
-- 
2.43.0


From 9b17ca13d10a77e21e79008b0d5bfa8cfab0488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 13/15] fix: GridDataRecord reads and accounts for the 16-bit
 sample type and representation it writes

---
 src/common/data_types/grid_data_record.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/data_types/grid_data_record.rs b/src/common/data_types/grid_data_record.rs
index c64ed29..0e6f811 100644
--- a/src/common/data_types/grid_data_record.rs
+++ b/src/common/data_types/grid_data_record.rs
@@ -4,6 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::{
     common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType},
@@ -131,8 +132,9 @@ impl GridDataRecord {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let sample_type = GriddedDataSampleType::deserialize(buf);
-        let data_representation = GriddedDataDataRepresentation::deserialize(buf);
+        let sample_type = GriddedDataSampleType::from_u16(buf.get_u16()).unwrap_or_default();
+        let data_representation =
+            GriddedDataDataRepresentation::from_u16(buf.get_u16()).unwrap_or_default();
         let data = match data_representation {
             GriddedDataDataRepresentation::Type0 => {
                 let number_of_octets = buf.get_u16();
@@ -210,6 +212,6 @@ impl FieldDeserialize for GridDataRecord {
 
 impl FieldLen for GridDataRecord {
     fn field_len(&self) -> usize {
-        self.sample_type.field_len() + self.data_representation.field_len() + self.data.field_len()
+        2 /* sample_type u16 */ + 2 /* data_representation u16 */ + self.data.field_len()
     }
 }
-- 
2.43.0


From 8f1d49710d443e1ad595509e02b657ff3804e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 14/15] fix: do not reserve memory for an unchecked record
 count in StandardVariableSpecification

---
 src/common/data_types/standard_variable_specification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/standard_variable_specification.rs b/src/common/data_types/standard_variable_specification.rs
index 9dde747..276ddce 100644
--- a/src/common/data_types/standard_variable_specification.rs
+++ b/src/common/data_types/standard_variable_specification.rs
@@ -55,7 +55,7 @@ impl FieldSerialize for StandardVariableSpecification {
 impl FieldDeserialize for StandardVariableSpecification {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let number_of_standard_variable_records = buf.get_u16();
-        let mut records = Vec::with_capacity(number_of_standard_variable_records as usize);
+        let mut records = Vec::new();
         for _ in 0..number_of_standard_variable_records {
             records.push(StandardVariableRecords::deserialize_field(buf));
         }
-- 
2.43.0


From e47561bbe544b26e4cf8c53f4c75a86e63ed7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:23 +0000
Subject: [PATCH 15/15] fix: vector length and direction at the ends of the
 single precision range

The squares of components below 1e-23 vanish and those above 1e19 overflow in
single precision, so magnitude() was 0 or infinite and normalize() gave None
for a vector that is not zero, or a zero vector. Computed in double precision.
---
 src/common/data_types/vector3_float.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/vector3_float.rs b/src/common/data_types/vector3_float.rs
index df12a1e..baadc57 100644
--- a/src/common/data_types/vector3_float.rs
+++ b/src/common/data_types/vector3_float.rs
@@ -75,20 +75,31 @@ impl Vector3Float {
 
     /// Computes the magnitude (length) of the vector.
     #[must_use]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn magnitude(&self) -> f32 {
-        self.z
-            .mul_add(self.z, self.x.mul_add(self.x, self.y * self.y))
-            .sqrt()
+        self.length() as f32
+    }
+
+    /// The length in double precision, where the squares of single precision
+    /// components neither overflow nor vanish.
+    fn length(&self) -> f64 {
+        let (x, y, z) = (f64::from(self.x), f64::from(self.y), f64::from(self.z));
+        z.mul_add(z, x.mul_add(x, y * y)).sqrt()
     }
 
     /// Returns a normalized version of this vector (unit length).
     #[must_use]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn normalize(&self) -> Option<Self> {
-        let mag = self.magnitude();
+        let mag = self.length();
         if mag == 0.0 {
             None
         } else {
-            Some(Self::new(self.x / mag, self.y / mag, self.z / mag))
+            Some(Self::new(
+                (f64::from(self.x) / mag) as f32,
+                (f64::from(self.y) / mag) as f32,
+                (f64::from(self.z) / mag) as f32,
+            ))
         }
     }
 
-- 
2.43.0

