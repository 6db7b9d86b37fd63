From f29dfdfc4ba632f61453dbe69ad38de86335cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 01/22] fix: do not panic on empty, short or non-ASCII sentence
 type

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..615f8e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,8 +196,8 @@ impl NmeaParser {
 
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with('$') {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "GN" => Some(gnss::NavigationSystem::Combination),
                     "GP" => Some(gnss::NavigationSystem::Gps),
                     "GL" => Some(gnss::NavigationSystem::Glonass),
@@ -214,14 +214,14 @@ impl NmeaParser {
         if nav_system != None {
             // Shorten the GNSS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("${}", &sentence_type[3..6]);
+                sentence_type = format!("${}", sentence_type.get(3..6).unwrap_or(""));
             }
         }
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with('!') {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "AB" => Some(ais::Station::BaseStation),
                     "AD" => Some(ais::Station::DependentAisBaseStation),
                     "AI" => Some(ais::Station::MobileStation),
@@ -239,7 +239,7 @@ impl NmeaParser {
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("!{}", &sentence_type[3..6]);
+                sentence_type = format!("!{}", sentence_type.get(3..6).unwrap_or(""));
             }
         }
 
-- 
2.43.0


From ceac039ac3cf80f5740fad36022f8b4e809b9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/22] fix: do not panic on malformed or out-of-range time and
 date fields

---
 src/util.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..73b5d2d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -135,10 +135,12 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
+    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {
+        if let Some(minute) = hhmmss.get(2..4).and_then(|s| s.parse::<u32>().ok()) {
+            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()) {
+                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {
+                    return Ok(time)
+                }
             }
         }
     }
@@ -154,8 +156,10 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
                 if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
                     if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
                         if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
+                            if let Some(time) = Utc.ymd_opt(century + year, month, day).single()
+                                                   .and_then(|d| d.and_hms_opt(hour, minute, second)) {
+                                return Ok(time)
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 4a6e849a0723b59343827ffc4bae41ea16f0ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/22] fix: report invalid base station date as missing
 instead of panicking

---
 src/ais/vdm_t4.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..7fdad2c 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,10 +82,11 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
+            Utc.ymd_opt(pick_u64(&bv, 38, 14) as i32, 
                         pick_u64(&bv, 52, 4) as u32, 
                         pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
+                    .single()
+                    .and_then(|d| d.and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
                              pick_u64(&bv, 66, 6) as u32, 
                              pick_u64(&bv, 72, 6) as u32))
         },        
-- 
2.43.0


From b6b876e60d2dae3fe261b6e3eed97c9e22c1660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 04/22] fix: resolve passed ETA to next year and do not panic
 on invalid ETA

---
 src/util.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 73b5d2d..d5ec4ef 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -110,13 +110,14 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if second == 60  { second = 59; }
     
     // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
+    let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
+                                  .and_then(|d| d.and_hms_opt(hour, minute, second));
+    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)
+                                  .and_then(|d| d.and_hms_opt(hour, minute, second));
 
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
+    match this_year_eta {
+        Some(eta) if now <= eta => Some(DateTime::<Utc>::from_utc(eta, Utc)),
+        _ => next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)),
     }
 }
 
-- 
2.43.0


From 18f03cc9566d386861232608b3de62f962595cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 05/22] fix: recognise not available ETA independently of
 draught bits

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index d5ec4ef..bfa50e1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -99,7 +99,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
-- 
2.43.0


From 50e497f7e307f636ec89685737daf1d588585072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 06/22] fix: reject AIS payload characters outside the
 armouring alphabet

---
 src/lib.rs  | 6 +++---
 src/util.rs | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 615f8e8..b1cc4a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -384,7 +384,7 @@ impl NmeaParser {
                 // Try parse the payload
                 let mut bv: Option<BitVec> = None;
                 if fragment_count == 1 {
-                    bv = parse_payload(&payload_string).ok();
+                    bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
                         let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
@@ -395,7 +395,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key2.into()) {
                                 let mut payload_string_combined = payload_string;
                                 payload_string_combined.push_str(p.as_str());
-                                bv = parse_payload(&payload_string_combined). ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key1.into(), payload_string);
                             }
@@ -403,7 +403,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key1.into()) {
                                 let mut payload_string_combined = p.clone();
                                 payload_string_combined.push_str(payload_string.as_str());
-                                bv = parse_payload(&payload_string_combined).ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key2.into(), payload_string);
                             }
diff --git a/src/util.rs b/src/util.rs
index bfa50e1..1d69489 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,7 +28,10 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
-        let mut ci = (c as u8) - 48;
+        let mut ci = match c {
+            '0'..='W' | '`'..='w' => (c as u8) - 48,
+            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
+        };
         if ci > 40 {
             ci -= 8;
         }
-- 
2.43.0


From 379354c619a9b6528f126fb1a162f8f50e4fa155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 07/22] fix: reject GSV message counts and numbers that
 overflow or never complete

---
 src/gnss/gsv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..76b3887 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -43,8 +43,12 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let split: Vec<&str> = sentence.split(',').collect();
 
     let msg_type = split.get(0).unwrap_or(&"");
-    let msg_count = pick_number_field(&split, 1)?.unwrap_or(0);
-    let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
+    let msg_count = pick_number_field::<u8>(&split, 1)?.unwrap_or(0) as u32;
+    let msg_num = pick_number_field::<u8>(&split, 2)?.unwrap_or(0) as u32;
+    if msg_num == 0 || msg_num > msg_count {
+        return Err(ParseError::InvalidSentence(
+                   format!("Invalid GSV message number: {}/{}", msg_num, msg_count)));
+    }
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
     let mut found_count = 0;
-- 
2.43.0


From 7768c0127fb17a2c651ae100d089e35a51f7c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 08/22] fix: limit type 24 vessel name to its 20 characters

---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..d3f47a5 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From 0efc0f38de548fb8064143693911b5e1e6ae8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 09/22] fix: do not take a repeated type 24 part as the missing
 other part

---
 src/ais/vdm_t24.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index d3f47a5..702a8b7 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -131,11 +131,13 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
 
     // Check whether we can return a complete or incomplete response
     if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
-        Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
-    } else {
-        store.push_vsd(vsd.mmsi, vsd);
-        Ok(ParsedSentence::Incomplete)
+        // Vendor ID is present in part B only: similar parts do not complete each other
+        if vsd.equipment_vendor_id.is_some() != vsd2.equipment_vendor_id.is_some() {
+            return Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?));
+        }
     }
+    store.push_vsd(vsd.mmsi, vsd);
+    Ok(ParsedSentence::Incomplete)
 }
 
 impl VesselStaticData {
-- 
2.43.0


From 9ccc1b4a41ac890b28f6d513ffac7c0fdf885f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 10/22] fix: report type 5 static data as class A

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From 1bd82e5ca83677a06180e8fc638837208d7ba033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 11/22] fix: read type 18 class B and RAIM flags from their own
 bits

---
 src/ais/vdm_t18.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..8feaeea 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -76,12 +76,12 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         class_b_unit_flag: { 
             None 
         },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
         class_b_css_flag: {
             None
         },
-- 
2.43.0


From f4782a1c98fbcb73d32947c493bec51f598e4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 12/22] fix: read type 21 off position indicator from its own
 bit

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From 2472d7eb1bb4f849fc1b0388e270c193f70ce04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/22] fix: read type 27 GNSS position status from its own bit

---
 src/ais/vdm_t27.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t27.rs b/src/ais/vdm_t27.rs
index 6f219f1..ba1791a 100644
--- a/src/ais/vdm_t27.rs
+++ b/src/ais/vdm_t27.rs
@@ -79,7 +79,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         heading_true:               None,
         timestamp_seconds:          0,
         positioning_system_meta:    None,
-        current_gnss_position:      Some(pick_u64(&bv, 62, 1) == 0),
+        current_gnss_position:      Some(pick_u64(&bv, 94, 1) == 0),
         special_manoeuvre:          None,
         raim_flag:                  pick_u64(&bv, 39, 1) != 0,
         class_b_unit_flag:          None,
-- 
2.43.0


From 5fde66cfd9769610726fa58ff4ea38aec29c76f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 14/22] fix: scale rate of turn to degrees per minute

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..b81b281 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-((-raw as f64) / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(((raw as f64) / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From d4bf5a403cb9de0cd1765be01664caa4be67f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 15/22] fix: report special manoeuvre value 1 as not engaged

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index b81b281..f684b85 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From b92b0979c8a18cfea136363a36da2776beb04f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 16/22] fix: distinguish tankers and other ship types from
 cargo ships

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From 3938413a24d4a6f2b6eaada8337155021caefad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 17/22] fix: recognise simulator FAA mode

---
 src/gnss/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..e4ab990 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
@@ -122,7 +123,7 @@ impl std::fmt::Display for FaaMode {
             FaaMode::Differential => { write!(f, "D") }
             FaaMode::Estimated => { write!(f, "E") }
             FaaMode::NotValid => { write!(f, "N") }
-            _ => { write!(f, "?") }
+            FaaMode::Simulator => { write!(f, "S") }
         }
         
     }
-- 
2.43.0


From 1d7bd38f4ef3f1018545b217f0713884836292ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 18/22] fix: calculate checksum over all bytes of the sentence

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b1cc4a2..68c8955 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -175,8 +175,8 @@ impl NmeaParser {
                 (sentence.to_string(), "".to_string())
             }
         };
-        for c in sentence.as_str().chars().skip(1) {
-            checksum = checksum ^ (c as u8);
+        for b in sentence.bytes().skip(1) {
+            checksum = checksum ^ b;
         }
         let checksum_hex_calculated = format!("{:02X?}", checksum);
         if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {
-- 
2.43.0


From f7e654eee7df53148e5bb0da58e38adb0e8d4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 19/22] fix: map MID 660 to Reunion and 676 to Democratic
 Republic of the Congo

---
 mid-to-iso3166.py | 6 +++---
 src/ais/mod.rs    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mid-to-iso3166.py b/mid-to-iso3166.py
index fa1c100..536da8e 100755
--- a/mid-to-iso3166.py
+++ b/mid-to-iso3166.py
@@ -581,8 +581,8 @@ MID = MID \
          .replace("France - Saint Paul and Amsterdam Islands", "French Southern Territories") \
          .replace("France - Kerguelen Islands", "French Southern Territories") \
          .replace("France - Crozet Archipelago", "French Southern Territories") \
-         .replace("France - Reunion", "French Southern Territories") \
          .replace("France - Adelie Land", "French Southern Territories") \
+         .replace("France - Reunion", "Reunion") \
          .replace("France - ", "") \
          .replace("Australia - ", "") \
          .replace("New Zealand - ", "") \
@@ -601,7 +601,6 @@ MID = MID \
                   "Saint Helena, Ascension and Tristan da Cunha") \
          .replace("United Kingdom of Great Britain and Northern Ireland - ", "") \
          .replace("Argentine Republic", "Argentina") \
-         .replace("Democratic Republic of the Congo", "Congo") \
          .replace("Togolese Republic", "Togo") \
          .replace("Gabonese Republic", "Gabon") \
          .replace("Kyrgyz Republic", "Kyrgyzstan") \
@@ -617,7 +616,8 @@ MID = MID \
 ISO_3166 = ISO_3166.replace("Virgin Islands (U.S.)", "United States Virgin Islands") \
                    .replace("Virgin Islands (British)", "British Virgin Islands") 
 ISO_3166 = re.sub(r'( \(.*?\))', "", ISO_3166)
-ISO_3166 += "\nFrance - Reunion  RE ZZZ 000"
+ISO_3166 += "\nReunion  RE ZZZ 000"
+ISO_3166 += "\nDemocratic Republic of the Congo  CD ZZZ 000"
 ISO_3166 += "\nVatican City State  VA ZZZ 000"
 
 # Parse ISO-3166 mapping
diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index e9140ba..7545867 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -905,7 +905,7 @@ impl VesselStaticData {
             656 => Some("NE"), // Niger
             657 => Some("NG"), // Nigeria
             659 => Some("NA"), // Namibia
-            660 => Some("TF"), // French Southern Territories
+            660 => Some("RE"), // Reunion
             661 => Some("RW"), // Rwanda
             662 => Some("SD"), // Sudan
             663 => Some("SN"), // Senegal
@@ -920,7 +920,7 @@ impl VesselStaticData {
             672 => Some("TN"), // Tunisia
             674 => Some("TZ"), // Tanzania, United Republic of
             675 => Some("UG"), // Uganda
-            676 => Some("CG"), // Congo
+            676 => Some("CD"), // Democratic Republic of the Congo
             677 => Some("TZ"), // Tanzania, United Republic of
             678 => Some("ZM"), // Zambia
             679 => Some("ZW"), // Zimbabwe
-- 
2.43.0


From 9614390bfdb78aaf6d930cb53206d3c269883648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 20/22] fix: map MID 445 to Democratic People's Republic of
 Korea

---
 mid-to-iso3166.py | 2 +-
 src/ais/mod.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mid-to-iso3166.py b/mid-to-iso3166.py
index 536da8e..59589a1 100755
--- a/mid-to-iso3166.py
+++ b/mid-to-iso3166.py
@@ -604,7 +604,6 @@ MID = MID \
          .replace("Togolese Republic", "Togo") \
          .replace("Gabonese Republic", "Gabon") \
          .replace("Kyrgyz Republic", "Kyrgyzstan") \
-         .replace("Democratic People's Republic of Korea", "Korea") \
          .replace("State of Palestine", "Palestine, State of") \
          .replace("Czech Republic", "Czechia") \
          .replace("Slovak Republic", "Slovakia") \
@@ -617,6 +616,7 @@ ISO_3166 = ISO_3166.replace("Virgin Islands (U.S.)", "United States Virgin Islan
                    .replace("Virgin Islands (British)", "British Virgin Islands") 
 ISO_3166 = re.sub(r'( \(.*?\))', "", ISO_3166)
 ISO_3166 += "\nReunion  RE ZZZ 000"
+ISO_3166 += "\nDemocratic People's Republic of Korea  KP ZZZ 000"
 ISO_3166 += "\nDemocratic Republic of the Congo  CD ZZZ 000"
 ISO_3166 += "\nVatican City State  VA ZZZ 000"
 
diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index 7545867..fe57c1d 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -802,7 +802,7 @@ impl VesselStaticData {
             440 => Some("KR"), // Korea
             441 => Some("KR"), // Korea
             443 => Some("PS"), // Palestine, State of
-            445 => Some("KR"), // Korea
+            445 => Some("KP"), // Democratic People's Republic of Korea
             447 => Some("KW"), // Kuwait
             450 => Some("LB"), // Lebanon
             451 => Some("KG"), // Kyrgyzstan
-- 
2.43.0


From b9bedc1d7117a5864b903be317d00e86b4f36f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:33 +0000
Subject: [PATCH 21/22] fix: reject RMC dates and times with less than six
 digits

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 1d69489..7e7d082 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -176,7 +176,7 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
 
 /// A simple helper to pick a substring of length two from the given string.
 fn pick_s2(s: &str, i: usize) -> String {
-    s.chars().skip(i).take(2).collect()
+    s.get(i .. (i + 2)).unwrap_or("").into()
 }
 
 /// Parse latitude from two string.
-- 
2.43.0


From fba849413bcfb82eaba394f25bbb897706459fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 22/22] fix: reject coordinates followed by other characters

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 7e7d082..4e50c35 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -185,7 +185,7 @@ fn pick_s2(s: &str, i: usize) -> String {
 pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Option<f64>, String> {
     // DDMM.MMM
     if lat_string != "" {
-        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lat_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
@@ -205,7 +205,7 @@ pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Opt
 pub fn parse_longitude_dddmm_mmm(lon_string: &str, eastwest: &str) -> Result<Option<f64>, String> {
     // DDDMM.MMM
     if lon_string != "" {
-        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lon_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
-- 
2.43.0

