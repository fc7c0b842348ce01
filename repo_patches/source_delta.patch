From cf181128f2b6eefafc6a83045b6660d0d8231f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 01/61] fix: reject integers above i64::MAX for signed targets
 in JSON and RON

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4faaaea..8082eb8 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -412,7 +412,7 @@ impl DeJsonState {
             return Ok(value);
         }
         if let DeJsonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if max < 0 || value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d04df66..52c2582 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -393,7 +393,7 @@ impl DeRonState {
             return Ok(value);
         }
         if let DeRonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if max < 0 || value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
-- 
2.43.0


From 9c2c21d5f1938f44e5b8a7ae61fdf927dce7878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/61] fix: JSON value of an unknown member no longer panics
 or loops when malformed or cut short

---
 src/serde_json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 8082eb8..ae1fc11 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -303,6 +303,10 @@ impl DeJsonState {
                         open_brackets -= 1;
                     }
 
+                    if let DeJsonTok::Eof = self.tok {
+                        return Err(self.err_token("] or }"));
+                    }
+
                     self.next_tok(i)?;
 
                     if open_brackets == 0 {
@@ -311,7 +315,7 @@ impl DeJsonState {
                 }
                 Ok(())
             }
-            _ => unimplemented!("{:?}", self.tok),
+            _ => Err(self.err_token("value")),
         }
     }
 
-- 
2.43.0


From ab3c867a24d9af04a921aae46cd2819fbc6c1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 03/61] fix: serializing an empty slice or array to JSON or RON
 no longer panics

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index ae1fc11..3e6413a 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1031,7 +1031,7 @@ where
 {
     fn ser_json(&self, d: usize, s: &mut SerJsonState) {
         s.out.push('[');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_json(d + 1, s);
             if index != last {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 52c2582..485a1f0 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1017,7 +1017,7 @@ where
 {
     fn ser_ron(&self, d: usize, s: &mut SerRonState) {
         s.out.push('(');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_ron(d + 1, s);
             if index != last {
-- 
2.43.0


From 79c4ee60df8d68bfb47443501cec97e297dc0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 04/61] fix: binary length prefixes and offsets from untrusted
 input no longer overflow or over-allocate

---
 src/serde_bin.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 335c217..afb7ad5 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -129,7 +129,7 @@ macro_rules! impl_ser_de_bin_for {
         impl DeBin for $ty {
             fn de_bin(o: &mut usize, d: &[u8]) -> Result<$ty, DeBinErr> {
                 let expected_length = core::mem::size_of::<$ty>();
-                if *o + expected_length > d.len() {
+                if expected_length > d.len().saturating_sub(*o) {
                     return Err(DeBinErr {
                         o: *o,
                         msg: DeBinErrReason::Length {
@@ -175,7 +175,7 @@ impl DeBin for usize {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<usize, DeBinErr> {
         let l = core::mem::size_of::<u64>();
 
-        let m = match d.get(*o..*o + l) {
+        let m = match d.get(*o..).and_then(|rest| rest.get(..l)) {
             Some(data) => u64::from_le_bytes(data.try_into().unwrap()),
             None => {
                 return Err(DeBinErr {
@@ -195,7 +195,7 @@ impl DeBin for usize {
 
 impl DeBin for u8 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<u8, DeBinErr> {
-        if *o + 1 > d.len() {
+        if *o >= d.len() {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
@@ -224,7 +224,7 @@ impl SerBin for bool {
 
 impl DeBin for bool {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<bool, DeBinErr> {
-        if *o + 1 > d.len() {
+        if *o >= d.len() {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
@@ -254,7 +254,7 @@ impl SerBin for String {
 impl DeBin for String {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<String, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        if *o + len > d.len() {
+        if len > d.len().saturating_sub(*o) {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
@@ -299,7 +299,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(d.len().saturating_sub(*o)));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +355,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len);
+        let mut out = std::collections::HashSet::with_capacity(len.min(d.len().saturating_sub(*o)));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -409,7 +409,7 @@ where
     T: DeBin,
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Option<T>, DeBinErr> {
-        if *o + 1 > d.len() {
+        if *o >= d.len() {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
@@ -602,7 +602,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len);
+        let mut h = std::collections::HashMap::with_capacity(len.min(d.len().saturating_sub(*o)));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From e59461ec385702c11cd27cab1acdb097b6f46076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 05/61] fix: decoding an unrepresentable Duration or SystemTime
 is an error instead of a panic

---
 src/serde_bin.rs  | 14 ++++++++++++--
 src/serde_json.rs | 10 +++++++---
 src/serde_ron.rs  | 10 +++++++---
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index afb7ad5..485179b 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -683,7 +683,12 @@ impl DeBin for Duration {
                 ),
             });
         }
-        Ok(Duration::new(secs, nanos))
+        Duration::from_secs(secs)
+            .checked_add(Duration::from_nanos(u64::from(nanos)))
+            .ok_or_else(|| DeBinErr {
+                o: *o,
+                msg: DeBinErrReason::Range("Duration is too large".to_owned()),
+            })
     }
 }
 
@@ -699,7 +704,12 @@ impl SerBin for std::time::SystemTime {
 impl DeBin for std::time::SystemTime {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<std::time::SystemTime, DeBinErr> {
         match DeBin::de_bin(o, d)? {
-            Some(duration) => Ok(std::time::SystemTime::UNIX_EPOCH + duration),
+            Some(duration) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(duration)
+                .ok_or_else(|| DeBinErr {
+                    o: *o,
+                    msg: DeBinErrReason::Range("SystemTime is too large".to_owned()),
+                }),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 3e6413a..84e72b5 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1356,12 +1356,14 @@ impl DeJson for Duration {
         s.curly_close(i)?;
 
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
-        let nanos = nanos.unwrap_or(0);
+        let nanos: u32 = nanos.unwrap_or(0);
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(u64::from(nanos)))
+                .ok_or_else(|| s.err_range("Duration is too large"))
         }
     }
 }
@@ -1379,7 +1381,9 @@ impl SerJson for std::time::SystemTime {
 impl DeJson for std::time::SystemTime {
     fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<std::time::SystemTime, DeJsonErr> {
         match DeJson::de_json(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime is too large")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 485a1f0..846fd29 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1349,12 +1349,14 @@ impl DeRon for Duration {
         s.curly_close(i)?;
 
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
-        let nanos = nanos.unwrap_or(0);
+        let nanos: u32 = nanos.unwrap_or(0);
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(u64::from(nanos)))
+                .ok_or_else(|| s.err_range("Duration is too large"))
         }
     }
 }
@@ -1372,7 +1374,9 @@ impl SerRon for std::time::SystemTime {
 impl DeRon for std::time::SystemTime {
     fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<std::time::SystemTime, DeRonErr> {
         match DeRon::de_ron(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime is too large")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From e8a13606c09942c37de65a5c05b12a5afa4aa39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 06/61] fix: accept a plus sign in the exponent of JSON and RON
 numbers

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 84e72b5..6bdadcd 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -549,7 +549,7 @@ impl DeJsonState {
                     is_float = true;
                     self.numbuf.push(self.cur);
                     self.next(i);
-                    if self.cur == '-' {
+                    if self.cur == '-' || self.cur == '+' {
                         self.numbuf.push(self.cur);
                         self.next(i);
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 846fd29..ebd3598 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -537,7 +537,7 @@ impl DeRonState {
                         is_float = true;
                         self.numbuf.push(self.cur);
                         self.next(i);
-                        if self.cur == '-' {
+                        if self.cur == '-' || self.cur == '+' {
                             self.numbuf.push(self.cur);
                             self.next(i);
                         }
-- 
2.43.0


From 9a512120626f41e1d614287fad6c4eea683c9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 07/61] fix: JSON and RON accept integer literals beyond 64
 bits for float targets

---
 src/serde_json.rs | 8 +++++---
 src/serde_ron.rs  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 6bdadcd..f168485 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -570,12 +570,14 @@ impl DeJsonState {
                         if let Ok(num) = self.numbuf.parse() {
                             self.tok = DeJsonTok::I64(num);
                             return Ok(());
-                        } else {
-                            return Err(self.err_parse("number"));
                         }
+                    } else if let Ok(num) = self.numbuf.parse() {
+                        self.tok = DeJsonTok::U64(num);
+                        return Ok(());
                     }
+                    // an integer too large for 64 bits can still be read as a float
                     if let Ok(num) = self.numbuf.parse() {
-                        self.tok = DeJsonTok::U64(num);
+                        self.tok = DeJsonTok::F64(num);
                         Ok(())
                     } else {
                         Err(self.err_parse("number"))
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index ebd3598..97d66fc 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -558,12 +558,14 @@ impl DeRonState {
                             if let Ok(num) = self.numbuf.parse() {
                                 self.tok = DeRonTok::I64(num);
                                 return Ok(());
-                            } else {
-                                return Err(self.err_parse("number"));
                             }
+                        } else if let Ok(num) = self.numbuf.parse() {
+                            self.tok = DeRonTok::U64(num);
+                            return Ok(());
                         }
+                        // an integer too large for 64 bits can still be read as a float
                         if let Ok(num) = self.numbuf.parse() {
-                            self.tok = DeRonTok::U64(num);
+                            self.tok = DeRonTok::F64(num);
                             return Ok(());
                         } else {
                             return Err(self.err_parse("number"));
-- 
2.43.0


From 6cb6e7b22ebe67d9b798d722a44040e1246b04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 08/61] fix: JSON and RON floats are rounded once, at the width
 of the target type

---
 src/serde_json.rs | 7 +++++--
 src/serde_ron.rs  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index f168485..307dd59 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -758,9 +758,12 @@ macro_rules! impl_ser_de_json_float {
         impl DeJson for $ty {
             fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<$ty, DeJsonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                let wide = s.as_f64()?;
+                // parse the literal at the target's own width: going through
+                // f64 would round twice
+                let val = s.numbuf.parse().unwrap_or(wide as $ty);
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 97d66fc..7290e77 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -757,9 +757,12 @@ macro_rules! impl_ser_de_ron_float {
         impl DeRon for $ty {
             fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<$ty, DeRonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                let wide = s.as_f64()?;
+                // parse the literal at the target's own width: going through
+                // f64 would round twice
+                let val = s.numbuf.parse().unwrap_or(wide as $ty);
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
-- 
2.43.0


From b6b40d7dac74496ad4a3b3515977ec33fcfe6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 09/61] fix: JSON struct variants honour rename, skip and
 serialize_none_as_null and never end in a stray comma

---
 derive/src/serde_json.rs | 59 ++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 24cc119..512eb39 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -326,44 +326,39 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut items = String::new();
                 let mut field_names = vec![];
-                let last = contents.fields.len().saturating_sub(1);
-                for (index, field) in contents.fields.iter().enumerate() {
+                l!(items, "let mut first_field_was_serialized = false;");
+                for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
-                        let proxied_field = ser_proxy_guard(name, field);
-                        if index == last {
-                            if field.ty.base() == "Option" {
-                                l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                )
-                            } else {
-                                l!(
-                                    items,
-                                    "s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                                    name,
-                                    proxied_field
-                                )
-                            }
-                        } else if field.ty.base() == "Option" {
-                            l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                );
-                        } else {
+                        if shared::attrs_skip(&field.attributes) {
+                            field_names.push(format!("{name}: _"));
+                            continue;
+                        }
+                        // bind under another name, so that a field can be called `s` or `d`
+                        let binding = format!("f_{name}");
+                        let json_fieldname =
+                            shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                        let proxied_field = ser_proxy_guard(&format!("(*{binding})"), field);
+                        let header = format!(
+                            "if first_field_was_serialized {{
+                                s.conl();
+                            }};
+                            first_field_was_serialized = true;
+                            s.field(d+1, \"{json_fieldname}\");"
+                        );
+                        if field.ty.base() == "Option"
+                            && !shared::attrs_serialize_none_as_null(&field.attributes)
+                        {
                             l!(
                                 items,
-                                "s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();",
-                                name,
+                                "if {}.is_some() {{ {} {}.ser_json(d+1, s); }}",
+                                binding,
+                                header,
                                 proxied_field
                             );
+                        } else {
+                            l!(items, "{} {}.ser_json(d+1, s);", header, proxied_field);
                         }
-                        field_names.push(name.clone());
+                        field_names.push(format!("{name}: {binding}"));
                     }
                 }
                 l!(
-- 
2.43.0


From 65540d3696cc4417011dfaf94cebbde15ed391e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 10/61] fix: RON struct variants honour rename and skip when
 serializing

---
 derive/src/serde_ron.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 29c4050..a088a3d 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -351,7 +351,15 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let mut inner = String::new();
                 for field in contents.fields.iter() {
                     let name = field.field_name.as_ref().unwrap();
-                    names.push(name.clone());
+                    if attrs_skip(&field.attributes) {
+                        names.push(format!("{name}: _"));
+                        continue;
+                    }
+                    // bind under another name, so that a field can be called `s` or `d`
+                    let binding = format!("f_{name}");
+                    let ron_fieldname =
+                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                    names.push(format!("{name}: {binding}"));
                     if field.ty.base() == "Option" {
                         l!(
                             inner,
@@ -360,9 +368,9 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 {}.ser_ron(d+1, s);
                                 s.conl();
                             }}",
-                            name.as_str(),
-                            name.as_str(),
-                            name.as_str()
+                            binding,
+                            ron_fieldname,
+                            binding
                         )
                     } else {
                         l!(
@@ -370,8 +378,8 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             "s.field(d+1, \"{}\");
                             {}.ser_ron(d+1, s);
                             s.conl();",
-                            name,
-                            name
+                            ron_fieldname,
+                            binding
                         )
                     }
                 }
-- 
2.43.0


From 6a9d093fb1f420481d9f364e4dfbf2d23d9a4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 11/61] fix: SerBin compiles for struct variants with a field
 named s

---
 derive/src/serde_bin.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index f2b1a8e..8997e4d 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -266,11 +266,9 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 l!(r, "Self::{} {{", ident);
                 for f in contents.fields.iter() {
-                    l!(
-                        r,
-                        "{}, ",
-                        f.field_name.as_ref().expect("field must be named")
-                    )
+                    // bind under another name, so that a field can be called `s`
+                    let name = f.field_name.as_ref().expect("field must be named");
+                    l!(r, "{}: f_{}, ", name, name)
                 }
 
                 l!(r, "} => {");
@@ -278,7 +276,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for f in contents.fields.iter() {
                     l!(
                         r,
-                        "{}.ser_bin(s);",
+                        "f_{}.ser_bin(s);",
                         f.field_name.as_ref().expect("field must be named")
                     )
                 }
-- 
2.43.0


From 76d89d36bf43addb4c76e3628e58d254c41ee4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 12/61] fix: a RON char literal is a token instead of being
 silently ignored

---
 src/serde_ron.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 7290e77..943174a 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -605,6 +605,7 @@ impl DeRonState {
                     }
                     self.next(i);
                     self.tok = DeRonTok::Char(chr);
+                    return Ok(());
                 }
                 '"' => {
                     self.strbuf.truncate(0);
-- 
2.43.0


From 23e8bd4d58912d6092528f7c9ebd7ba639d97587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 13/61] fix: RON and TOML errors report the column instead of
 always 0

---
 src/serde_ron.rs | 2 +-
 src/toml.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 943174a..3afe681 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -197,7 +197,7 @@ impl DeRonState {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
diff --git a/src/toml.rs b/src/toml.rs
index 73b70a9..565589f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -393,7 +393,7 @@ impl TomlParser {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
-- 
2.43.0


From 1638da6698eb464bd3d91cd5acac44a123aa9144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 14/61] fix: unknown binary enum variant error reports the
 variant's offset instead of 0

---
 derive/src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 8997e4d..070fbcb 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -370,7 +370,7 @@ pub fn derive_de_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let id: u16 = {}::DeBin::de_bin(o,d)?;
                 Ok(match id {{
                     {}
-                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: 0, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
+                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: *o - 2, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
                 }})
             }}
         }}",
-- 
2.43.0


From b112cbe09df6c76b18c1ffc0e82ff7a5c5cfb1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 15/61] fix: container attributes of enums (proxy, crate) are
 no longer dropped

---
 derive/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index f7ed622..9ef9fb7 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1523,7 +1523,8 @@ pub fn parse_data(input: TokenStream) -> Data {
             res = Data::Struct(struct_);
         }
         "enum" => {
-            let enum_ = next_enum(&mut source);
+            let mut enum_ = next_enum(&mut source);
+            enum_.attributes = attributes;
             res = Data::Enum(enum_);
         }
         "union" => unimplemented!("Unions are not supported"),
-- 
2.43.0


From c81142fe0991c31a6e076db50e5a9dff81fbc10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 16/61] fix: JSON structs without fields ignore unknown members
 like all others do

---
 derive/src/serde_json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 512eb39..4ea37cb 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -243,6 +243,8 @@ pub fn derive_de_json_named(
         // );
         l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
         l!(r, "}");
+    } else {
+        l!(r, "s.next_colon(i)?; s.whole_field(i)?;");
     }
     l!(r, "s.eat_comma_curly(i) ?;");
     l!(r, "}");
-- 
2.43.0


From 95398b94d9785691eed1a00c7fb081b814a36f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 17/61] fix: JSON member and variant names containing quotes,
 backslashes or controls are escaped

---
 src/serde_json.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 307dd59..4210e6b 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -26,16 +26,12 @@ impl SerJsonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
-        self.out.push('"');
-        self.out.push_str(field);
-        self.out.push('"');
+        field.ser_json(d, self);
         self.out.push(':');
     }
 
     pub fn label(&mut self, label: &str) {
-        self.out.push('"');
-        self.out.push_str(label);
-        self.out.push('"');
+        label.ser_json(0, self);
     }
 
     pub fn conl(&mut self) {
-- 
2.43.0


From 5ad4e043f6e60d762420826bef0fe44d49f64c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 18/61] fix: RON tuple structs read back the fields they write
 when one is skipped

---
 derive/src/serde_ron.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index a088a3d..7697511 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -295,7 +295,11 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
     let mut body = String::new();
     let (generic_w_bounds, generic_no_bounds) = struct_bounds_strings(struct_, "DeRon", crate_name);
 
-    for _ in &struct_.fields {
+    for field in &struct_.fields {
+        if attrs_skip(&field.attributes) {
+            l!(body, "Default::default(),");
+            continue;
+        }
         l!(
             body,
             "{{
-- 
2.43.0


From 4d7798b68e60a1b12d646f81f6f0e9f721518e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 19/61] fix: DeBin derives for tuple structs with a skipped
 field

---
 derive/src/serde_bin.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 070fbcb..c0e37ef 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -195,12 +195,13 @@ pub fn derive_de_bin_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         }
     }
 
-    for field in struct_.fields.iter().filter(|f| attrs_skip(&f.attributes)) {
-        l!(
-            body,
-            "{}: Default::default(),",
-            field.field_name.as_ref().unwrap()
-        );
+    for (n, _) in struct_
+        .fields
+        .iter()
+        .enumerate()
+        .filter(|(_, f)| attrs_skip(&f.attributes))
+    {
+        l!(body, "{}: Default::default(),", n);
     }
 
     format!(
-- 
2.43.0


From 058b24face2aa3fa66a7b0173e99fbfcea8f8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 20/61] fix: many consecutive JSON comments no longer overflow
 the stack

---
 src/serde_json.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4210e6b..008d6b9 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -453,18 +453,13 @@ impl DeJsonState {
         while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
             self.next(i);
         }
-        if self.cur == '\0' {
-            self.tok = DeJsonTok::Eof;
-            return Ok(());
-        }
-        if self.cur == '/' {
+        while self.cur == '/' {
             self.next(i);
             match self.cur {
                 '/' => {
                     while self.cur != '\n' && self.cur != '\0' {
                         self.next(i);
                     }
-                    return self.next_tok(i);
                 }
                 '*' => {
                     let mut last = self.cur;
@@ -479,12 +474,18 @@ impl DeJsonState {
                         }
                         last = self.cur;
                     }
-                    return self.next_tok(i);
                 }
                 _ => {
                     return Err(self.err_token("CommentOpen"));
                 }
             }
+            while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
+                self.next(i);
+            }
+        }
+        if self.cur == '\0' {
+            self.tok = DeJsonTok::Eof;
+            return Ok(());
         }
         match self.cur {
             ':' => {
-- 
2.43.0


From e0a94c11ce243e52de86a725ecd068b3f987a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 21/61] fix: a JSON or RON block comment starting with a slash
 is not closed by its own opening

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 008d6b9..6cb21cc 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -462,7 +462,7 @@ impl DeJsonState {
                     }
                 }
                 '*' => {
-                    let mut last = self.cur;
+                    let mut last = '\0';
                     loop {
                         self.next(i);
                         if self.cur == '\0' {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 3afe681..193d097 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -497,6 +497,7 @@ impl DeRonState {
                     } else if self.cur == '*' {
                         // multline comment
                         let mut last_star = false;
+                        self.next(i);
                         while self.cur != '\0' {
                             if self.cur == '/' && last_star {
                                 self.next(i);
-- 
2.43.0


From a2c5173fc6d812c4ce3bbea5b8760929dafc0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 22/61] fix: TOML empty and triple-quoted strings end where
 they should

---
 src/toml.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 565589f..a537c99 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -459,10 +459,26 @@ impl TomlParser {
                         braces += 1;
                         self.next(i);
                     }
+                    if braces == 2 {
+                        // both quotes of an empty string
+                        return Ok(TomlTok::Str(val));
+                    }
                     let escaped_string = braces == 3;
+                    if escaped_string {
+                        // a newline right after the opening quotes is not part of the string
+                        if self.cur == '\r' {
+                            self.next(i);
+                        }
+                        if self.cur == '\n' {
+                            self.next(i);
+                        }
+                    }
                     loop {
                         match self.cur {
-                            '"' if !escaped_string => break,
+                            '"' if !escaped_string => {
+                                self.next(i);
+                                break;
+                            }
                             '"' if escaped_string => {
                                 let mut tmp = String::new();
                                 let mut braces = 0;
@@ -471,10 +487,13 @@ impl TomlParser {
                                     braces += 1;
                                     self.next(i);
                                 }
-                                if braces == 3 {
+                                if braces >= 3 {
+                                    // up to two quotes may precede the closing three
+                                    val.push_str(&tmp[3..]);
                                     break;
                                 }
                                 val.push_str(&tmp);
+                                continue;
                             }
                             '\\' => {
                                 self.next(i);
@@ -485,7 +504,6 @@ impl TomlParser {
                         val.push(self.cur);
                         self.next(i);
                     }
-                    self.next(i);
                     return Ok(TomlTok::Str(val));
                 }
                 ident_chars!() => return self.parse_ident(i, String::new()),
-- 
2.43.0


From d8979278e686a72382e1a0122f7d36f7a1dc100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 23/61] fix: TOML string escapes decode to the characters they
 stand for

---
 src/toml.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index a537c99..c040f36 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -497,6 +497,8 @@ impl TomlParser {
                             }
                             '\\' => {
                                 self.next(i);
+                                val.push(self.escape(i)?);
+                                continue;
                             }
                             '\0' => return Err(self.err_parse("string")),
                             _ => {}
@@ -512,6 +514,36 @@ impl TomlParser {
         }
     }
 
+    /// Reads the rest of a string escape, starting with the character after the backslash.
+    fn escape(&mut self, i: &mut Chars) -> Result<char, TomlErr> {
+        let digits = match self.cur {
+            'u' => 4,
+            'U' => 8,
+            '\0' => return Err(self.err_parse("string")),
+            c => {
+                self.next(i);
+                return Ok(match c {
+                    'b' => '\x08',
+                    't' => '\t',
+                    'n' => '\n',
+                    'f' => '\x0c',
+                    'r' => '\r',
+                    c => c,
+                });
+            }
+        };
+        let mut code = 0;
+        for _ in 0..digits {
+            self.next(i);
+            match self.cur.to_digit(16) {
+                Some(digit) if code <= u32::from(char::MAX) => code = code * 16 + digit,
+                _ => return Err(self.err_parse("string")),
+            }
+        }
+        self.next(i);
+        char::from_u32(code).ok_or_else(|| self.err_parse("string"))
+    }
+
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, ident_chars!()) {
-- 
2.43.0


From cbb37dda498a8927f33bcd39427eae074a370546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 24/61] fix: TOML array of tables named like an existing value
 is an error instead of a panic

---
 src/toml.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index c040f36..db07a58 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -224,7 +224,7 @@ struct Out {
     active_array_element: Option<(String, usize)>,
 }
 impl Out {
-    fn start_array(&mut self, key: &str) {
+    fn start_array(&mut self, key: &str) -> bool {
         if !self.out.contains_key(key) {
             self.out.insert(key.to_string(), Toml::Array(vec![]));
         }
@@ -235,10 +235,11 @@ impl Out {
                 array.push(BTreeMap::new());
                 n
             }
-            _ => unreachable!(),
+            _ => return false,
         };
 
         self.active_array_element = Some((key.to_string(), n));
+        true
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
@@ -316,7 +317,9 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
-                        out.start_array(&key);
+                        if !out.start_array(&key) {
+                            return Err(self.err_parse("array of tables, key is already a value"));
+                        }
                         local_scope.clear();
                     }
                     _ => return Err(self.err_token(tok)),
-- 
2.43.0


From f205526dc6375cf4c21404f37f91a738fe426c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 25/61] fix: TOML booleans, inf and nan may be followed by a
 comma or a comment

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index db07a58..a737813 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -37,7 +37,7 @@ macro_rules! ident_chars {
 /// Pattern matching a character that can terminate a valid ident.
 macro_rules! ident_term_chars {
     () => {
-        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']'
+        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']' | ',' | '#'
     };
 }
 
-- 
2.43.0


From a226e0c7fb5805aa9debfef0038eb863702c3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 26/61] fix: TOML keys with many dots no longer overflow the
 stack

---
 src/toml.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index a737813..fd5eca1 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -549,17 +549,11 @@ impl TomlParser {
 
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
-        while matches!(self.cur, ident_chars!()) {
+        while matches!(self.cur, ident_chars!() | '.') {
             start.push(self.cur);
             self.next(i);
         }
 
-        if self.cur == '.' {
-            start.push(self.cur);
-            self.next(i);
-            return self.parse_ident(i, start); // recursion here could be a problem
-        }
-
         if matches!(self.cur, ident_term_chars!()) {
             return Ok(match start.as_ref() {
                 "true" => TomlTok::Bool(true),
-- 
2.43.0


From 5a0094264dd6d66c8b4c6ac947d8cb2ef08bfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 27/61] fix: a TOML table after an array of tables is no longer
 stored inside its last element

---
 src/toml.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index fd5eca1..2e699f7 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -290,6 +290,12 @@ impl TomlParser {
                 let tok = self.next_tok(i)?;
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
+                        // a table that does not belong to the array of tables ends its element
+                        if let Some((array, _)) = &out.active_array_element {
+                            if !key.strip_prefix(array).is_some_and(|k| k.starts_with('.')) {
+                                out.active_array_element = None;
+                            }
+                        }
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
-- 
2.43.0


From 6abb23c098ac6d00239da4aaaae58434210d0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 28/61] fix: TOML arrays nested too deep are an error instead
 of a stack overflow

---
 src/toml.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 2e699f7..d7efd9c 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -41,6 +41,10 @@ macro_rules! ident_term_chars {
     };
 }
 
+/// How deep arrays may be nested. Parsing is recursive, so without a limit a
+/// document could overflow the stack.
+const MAX_ARRAY_DEPTH: usize = 256;
+
 /// A parser for TOML string values.
 ///
 /// ```rust
@@ -346,9 +350,12 @@ impl TomlParser {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_val(&mut self, tok: TomlTok, i: &mut Chars) -> Result<Toml, TomlErr> {
+    fn to_val(&mut self, tok: TomlTok, i: &mut Chars, depth: usize) -> Result<Toml, TomlErr> {
         match tok {
             TomlTok::BlockOpen => {
+                if depth >= MAX_ARRAY_DEPTH {
+                    return Err(self.err_parse("array, nested too deep"));
+                }
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
@@ -356,7 +363,7 @@ impl TomlParser {
                         break;
                     }
                     if tok != TomlTok::Comma {
-                        vals.push(self.to_val(tok, i)?);
+                        vals.push(self.to_val(tok, i, depth + 1)?);
                     }
                 }
                 Ok(Toml::SimpleArray(vals))
@@ -385,7 +392,7 @@ impl TomlParser {
             return Err(self.err_token(tok));
         }
         let tok = self.next_tok(i)?;
-        let val = self.to_val(tok, i)?;
+        let val = self.to_val(tok, i, 0)?;
         let key = if !local_scope.is_empty() {
             format!("{}.{}", local_scope, key)
         } else {
-- 
2.43.0


From 31e56d411766f487273124520cb5714c17a36bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 29/61] fix: a JSON or RON enum value is decoded by its own
 name, not by the token after it

---
 derive/src/serde_json.rs | 8 +++++---
 derive/src/serde_ron.rs  | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 4ea37cb..1cd066d 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -526,11 +526,13 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         r.push_str(&format!(
             "
                     {}::DeJsonTok::Str => {{
-                        let _ = s.string(i)?;
-                        ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        // the name has to be looked up before the next token can replace it
+                        let r = ::core::result::Result::Ok(match s.strbuf.as_ref() {{
                             {}
                             _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
-                        }})
+                        }});
+                        let _ = s.string(i)?;
+                        r
                     }},",
             crate_name, r_units,
         ))
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 7697511..3485913 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -514,10 +514,12 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 // we are expecting an identifier
+                // and take its name before the next token can replace it
+                let variant_name_ = ::core::mem::take(&mut s.identbuf);
                 s.ident(i)?;
-                ::core::result::Result::Ok(match s.identbuf.as_ref() {{
+                ::core::result::Result::Ok(match variant_name_.as_ref() {{
                     {}
-                    _ => return ::core::result::Result::Err(s.err_enum(&s.identbuf))
+                    _ => return ::core::result::Result::Err(s.err_enum(&variant_name_))
                 }})
             }}
         }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, body).parse().unwrap()
-- 
2.43.0


From 6921078a99177c6fab96c9bfadf668ea9e0b8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 30/61] fix: a TOML array that is never closed is an error

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index d7efd9c..a7bbd99 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -359,7 +359,7 @@ impl TomlParser {
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
-                    if tok == TomlTok::BlockClose || tok == TomlTok::Eof {
+                    if tok == TomlTok::BlockClose {
                         break;
                     }
                     if tok != TomlTok::Comma {
-- 
2.43.0


From bcd3fe187c57f48c49fa3cb30241095dfadf327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 31/61] fix: an error inside a tuple element is reported as it
 happened, not as a missing comma after it

---
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 6cb21cc..ffd4593 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1101,9 +1101,9 @@ fn de_json_comma_block<T>(s: &mut DeJsonState, i: &mut Chars) -> Result<T, DeJso
 where
     T: DeJson,
 {
-    let t = DeJson::de_json(s, i);
+    let t = DeJson::de_json(s, i)?;
     s.eat_comma_block(i)?;
-    t
+    Ok(t)
 }
 
 impl<A, B> SerJson for (A, B)
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 193d097..0a2890f 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1092,9 +1092,9 @@ fn de_ron_comma_paren<T>(s: &mut DeRonState, i: &mut Chars) -> Result<T, DeRonEr
 where
     T: DeRon,
 {
-    let t = DeRon::de_ron(s, i);
+    let t = DeRon::de_ron(s, i)?;
     s.eat_comma_paren(i)?;
-    t
+    Ok(t)
 }
 
 impl SerRon for () {
-- 
2.43.0


From 9f8d2375199828ff2ee59ca4722d442ab2394347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 32/61] fix: derives compile for types with const parameters

---
 derive/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 9ef9fb7..136833f 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -210,6 +210,8 @@ impl Generic {
     pub fn full_with_const(&self, extra_bounds: &[&str], bounds: bool) -> String {
         let bounds = match (bounds, &self) {
             (true, Generic::Lifetime { .. }) => self.get_bounds().join(" + "),
+            // a const parameter has a type and no bounds
+            (_, Generic::ConstGeneric { .. }) => self.get_bounds().join(" + "),
             (true, _) => {
                 let mut bounds = self.get_bounds().join(" + ");
                 if !extra_bounds.is_empty() {
@@ -221,7 +223,6 @@ impl Generic {
                 }
                 bounds
             }
-            (_, Generic::ConstGeneric { .. }) => self.get_bounds().join(" + "),
             (false, _) => String::new(),
         };
         match bounds.is_empty() {
-- 
2.43.0


From 2641ff2caa3d56c0631b0fa5d668ed4363608b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 33/61] fix: a trailing comma in a tuple variant is not one
 more field

---
 derive/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 136833f..326b3db 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -651,7 +651,11 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
     ) -> Option<Type> {
         let mut wraps = vec![];
         let mut path = "(".to_owned();
-        while let Some(next_ty) = next_type(source) {
+        // up to the end, which a trailing comma may precede
+        while next_eof(source).is_none() {
+            let Some(next_ty) = next_type(source) else {
+                break;
+            };
             wraps.push(next_ty.clone());
             path.push_str(&next_ty.full().to_string());
             if next_exact_punct(source, ",").is_none() {
-- 
2.43.0


From b6df4d897503c8376a0447a01d9cd5799bfd43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 34/61] fix: a tuple struct field's type may start with ::

---
 derive/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 326b3db..2259f03 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1034,10 +1034,7 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
     source: &mut Peekable<T>,
 ) -> Option<Option<Vec<Attribute>>> {
     // all attributes, even doc-comments, starts with "#"
-    let next_attr_punct = next_punct(source);
-    let Some("#") = next_attr_punct.as_deref() else {
-        return None;
-    };
+    next_exact_punct(source, "#")?;
 
     let mut attr_group = next_group(source)
         .expect("Expecting attribute body")
-- 
2.43.0


From eb9d1580b079c0e40da57b00104990cbc7b5abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 35/61] fix: a pub tuple struct field may have a tuple type

---
 derive/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 2259f03..5c3a043 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -473,7 +473,11 @@ pub fn next_visibility_modifier(
 
             // skip (crate) and alike
             if let Some(TokenTree::Group(group)) = source.peek() {
-                if group.delimiter() == Delimiter::Parenthesis {
+                // but not the tuple type of an unnamed field
+                let scope = group.stream().into_iter().next().map(|t| t.to_string());
+                if group.delimiter() == Delimiter::Parenthesis
+                    && matches!(scope.as_deref(), Some("crate" | "self" | "super" | "in"))
+                {
                     next_group(source);
                 }
             }
-- 
2.43.0


From 7eaee385ec76ec92a29bff3a69093875861f5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 36/61] fix: array lengths in derived types may be any constant
 expression

---
 derive/src/parse.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 5c3a043..94fc3f8 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -6,7 +6,6 @@
 
 use alloc::collections::BTreeSet;
 use core::iter::Peekable;
-use core::num::IntErrorKind;
 
 use alloc::borrow::ToOwned;
 use alloc::boxed::Box;
@@ -620,7 +619,7 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         //need to cover both the const generic and literal case
         let len = source.peek().unwrap().to_string();
         match len.parse::<usize>() {
-            Ok(val) => Some(Type {
+            Ok(val) if source.clone().count() == 1 => Some(Type {
                 ident: Category::Array {
                     content_type: Box::new(next.clone()),
                     len: Some(ConstValType::Value(val as isize)),
@@ -629,19 +628,18 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
                 ref_type: None,
                 as_other: None,
             }),
-            Err(err) if err.kind() == &IntErrorKind::Zero => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Value(0)),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
+            // any other expression is kept as it is written
             _ => Some(Type {
                 ident: Category::Array {
                     content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Named(Box::new(next_type(source).unwrap()))),
+                    len: Some(ConstValType::Named(Box::new(Type {
+                        ident: Category::Named {
+                            path: source.collect::<TokenStream>().to_string(),
+                        },
+                        wraps: None,
+                        ref_type: None,
+                        as_other: None,
+                    }))),
                 },
                 wraps: Some(vec![next]),
                 ref_type: None,
-- 
2.43.0


From 6ef092b72d8d6ee9535a8d38e81a60218105d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 37/61] fix: enum discriminants may be any expression

---
 derive/src/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 94fc3f8..b0fda46 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1228,8 +1228,10 @@ fn next_enum<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         }
 
         if next_exact_punct(&mut body, "=").is_some() {
-            body.next();
-            let _maybe_coma = next_exact_punct(&mut body, ",");
+            // a discriminant is any expression, up to the next variant
+            while next_eof(&mut body).is_none() && next_exact_punct(&mut body, ",").is_none() {
+                body.next();
+            }
             continue;
         }
 
-- 
2.43.0


From 699971d412ad2f17dce74efb7214899f822c4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 38/61] fix: fields whose Option or String type is written with
 its full path

---
 derive/src/parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index b0fda46..42f8d68 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -429,7 +429,13 @@ impl Type {
             },
             None => String::default(),
         };
-        base.push_str(&self.ident.path(self, false));
+        let path = self.ident.path(self, false);
+        // these may be written with their full paths
+        base.push_str(match path.trim_start_matches("::") {
+            "std::option::Option" | "core::option::Option" => "Option",
+            "std::string::String" | "alloc::string::String" => "String",
+            _ => &path,
+        });
         base
     }
 
-- 
2.43.0


From c515309990e91b5b650d7bbcebdbb31ea7619736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 39/61] fix: literals and braced expressions as generic
 arguments of field types

---
 derive/src/parse.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 42f8d68..9a7c62f 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -579,6 +579,31 @@ pub fn next_lifetime<T: Iterator<Item = TokenTree>>(source: &mut Peekable<T>) ->
     })
 }
 
+/// A type, or the value of a const parameter: a literal or an expression in braces
+fn next_generic_arg<T: Iterator<Item = TokenTree> + Clone>(
+    source: &mut Peekable<T>,
+) -> Option<Type> {
+    let mut value = String::new();
+    if next_exact_punct(&mut source.clone(), "-").is_some() {
+        source.next();
+        value.push('-');
+    }
+    match source.peek() {
+        Some(TokenTree::Literal(literal)) => value.push_str(&literal.to_string()),
+        Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {
+            value.push_str(&group.to_string())
+        }
+        _ => return next_type(source),
+    }
+    source.next();
+    Some(Type {
+        ident: Category::Named { path: value },
+        wraps: None,
+        ref_type: None,
+        as_other: None,
+    })
+}
+
 fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) -> Option<Type> {
     fn as_associated_definition<T: Iterator<Item = TokenTree> + Clone>(
         source: &mut Peekable<T>,
@@ -988,9 +1013,10 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         }
 
         let mut generics =
-            vec![next_type(source).expect("Expecting at least one generic argument")];
+            vec![next_generic_arg(source).expect("Expecting at least one generic argument")];
         while let Some(_comma) = next_exact_punct(source, ",") {
-            generics.push(next_type(source).expect("Expecting generic argument after comma"));
+            generics
+                .push(next_generic_arg(source).expect("Expecting generic argument after comma"));
         }
 
         let as_other = as_other_type(source).map(Box::new);
-- 
2.43.0


From 361afedb161a18b7d1ad1c6965852393e4a2e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 40/61] fix: DeRon for structs whose fields are all skipped

---
 derive/src/serde_ron.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 3485913..7d7d682 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -225,7 +225,7 @@ pub fn derive_de_ron_named(
             );
         }
         format!(
-            "match s.identbuf.as_ref() {{
+            "match AsRef::<str>::as_ref(&s.identbuf) {{
                 {}
                 _ => return ::core::result::Result::Err(s.err_exp(&s.identbuf))
             }}",
-- 
2.43.0


From c5e8a1b7eeb7eb05a229dcfefe9fd41bc53209bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 41/61] fix: RON names may contain any letter a Rust identifier
 may

---
 src/serde_ron.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 0a2890f..8a126b9 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -573,13 +573,10 @@ impl DeRonState {
                         }
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                // names of Rust fields and variants are not limited to ASCII
+                c if c.is_alphabetic() || c == '_' => {
                     self.identbuf.truncate(0);
-                    while self.cur >= 'a' && self.cur <= 'z'
-                        || self.cur >= 'A' && self.cur <= 'Z'
-                        || self.cur == '_'
-                        || self.cur >= '0' && self.cur <= '9'
-                    {
+                    while self.cur.is_alphanumeric() || self.cur == '_' {
                         self.identbuf.push(self.cur);
                         self.next(i);
                     }
-- 
2.43.0


From d59d12d0b58ba7e8d5c6f7b4519eb01abdab18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 42/61] fix: string defaults in crates without std

---
 derive/src/serde_json.rs | 2 +-
 derive/src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 1cd066d..68f75c1 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -157,7 +157,7 @@ pub fn derive_de_json_named(
                         .as_ref()
                         .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"))
                 {
-                    val = format!("\"{}\".to_string()", val)
+                    val = format!("::core::convert::Into::into(\"{}\")", val)
                 }
                 if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 7d7d682..c66abb7 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -162,7 +162,7 @@ pub fn derive_de_ron_named(
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
                 if field.ty.base() == "String" {
-                    val = format!("\"{}\".to_string()", val)
+                    val = format!("::core::convert::Into::into(\"{}\")", val)
                 } else if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
                 }
-- 
2.43.0


From f728eba5fdeb95fac3999ef82fe9088e5333427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:41 +0000
Subject: [PATCH 43/61] fix: binary decoding no longer reserves memory by what
 a length prefix claims

---
 src/serde_bin.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 485179b..81161b9 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -7,6 +7,13 @@ use alloc::collections::{BTreeMap, BTreeSet, LinkedList};
 use alloc::string::String;
 use alloc::vec::Vec;
 
+/// How many elements to make room for when a length prefix announces `len` of them. The prefix is
+/// not to be trusted: beyond a small amount, containers grow as elements are actually read.
+fn prealloc<T>(len: usize) -> usize {
+    const MAX_BYTES: usize = 4096;
+    len.min(MAX_BYTES / core::mem::size_of::<T>().max(1))
+}
+
 /// A trait for objects that can be serialized to binary.
 pub trait SerBin {
     /// Serialize Self to bytes.
@@ -299,7 +306,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len.min(d.len().saturating_sub(*o)));
+        let mut out = Vec::with_capacity(prealloc::<T>(len));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +362,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len.min(d.len().saturating_sub(*o)));
+        let mut out = std::collections::HashSet::with_capacity(prealloc::<T>(len));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -602,7 +609,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len.min(d.len().saturating_sub(*o)));
+        let mut h = std::collections::HashMap::with_capacity(prealloc::<(K, V)>(len));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From 28e732639ae69053a38f23c7bbe441354a754775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 44/61] fix: a one-element JSON tuple struct may end in a
 trailing comma like any other

---
 derive/src/serde_json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 68f75c1..94c69e8 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -610,7 +610,7 @@ pub fn derive_de_json_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
 
     for _ in &struct_.fields {
         l!(body, "{{ let r = {}::DeJson::de_json(s, i)?;", crate_name);
-        if struct_.fields.len() != 1 {
+        if !(transparent && struct_.fields.len() == 1) {
             l!(body, "  s.eat_comma_block(i)?;");
         }
         l!(body, "  r");
-- 
2.43.0


From 60b1fc49f5f12c8034e4e5f79dab7e3585dc50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 45/61] fix: null is None for a proxied Option in JSON

A proxied Option member of a struct variant marked serialize_none_as_null
was written as null, which decoding then rejected.
---
 derive/src/serde_json.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 94c69e8..c772cf5 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -179,9 +179,12 @@ pub fn derive_de_json_named(
         let proxy = crate::shared::attrs_proxy(&field.attributes);
         let skip = crate::shared::attrs_skip(&field.attributes);
 
+        let mut read = format!("{}::DeJson::de_json(s, i) ?", crate_name);
         let proxified_t = if let Some(proxy) = proxy {
             if field.ty.base() == "Option" {
-                format!("Some(From::<&{proxy}>::from(&t))")
+                // the proxy stands for what is in the option: `null` is still None
+                read = format!("<Option<{proxy}> as {crate_name}::DeJson>::de_json(s, i) ?");
+                format!("t.as_ref().map(|t| From::<&{proxy}>::from(t))")
             } else {
                 format!("From::<&{proxy}>::from(&t)")
             }
@@ -208,7 +211,7 @@ pub fn derive_de_json_named(
                     localvar, proxified_t, struct_fieldname
                 ));
             }
-            matches.push((json_fieldname.clone(), localvar.clone()));
+            matches.push((json_fieldname.clone(), localvar.clone(), read));
             local_vars.push(localvar);
         } else {
             unwraps.push(default_val.unwrap_or_else(|| String::from("Default::default()")));
@@ -227,13 +230,13 @@ pub fn derive_de_json_named(
 
     if !json_field_names.is_empty() {
         l!(r, "match AsRef::<str>::as_ref(&s.strbuf) {");
-        for (json_field_name, local_var) in matches.iter() {
+        for (json_field_name, local_var, read) in matches.iter() {
             l!(
                 r,
-                "\"{}\" => {{s.next_colon(i) ?;{} = Some({}::DeJson::de_json(s, i) ?)}},",
+                "\"{}\" => {{s.next_colon(i) ?;{} = Some({})}},",
                 json_field_name,
                 local_var,
-                crate_name
+                read
             );
         }
         // TODO: maybe introduce "exhaustive" attribute?
-- 
2.43.0


From c62524356b4f8bb1154ca15d49dc30a6c1db366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 46/61] fix: RON decoding derives no longer repeat the types of
 members

The repeated type lost the arguments of function types and the comma of
one element tuples, so that definitions with them did not compile.
---
 derive/src/serde_ron.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index c66abb7..2eb64bd 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -193,23 +193,18 @@ pub fn derive_de_ron_named(
 
         struct_field_names.push(struct_fieldname);
         ron_field_names.push(ron_fieldname);
-        local_vars.push((localvar, field.ty.full()));
+        local_vars.push(localvar);
     }
 
     let mut local_lets = String::new();
 
-    for (local, local_type) in &local_vars {
-        l!(
-            local_lets,
-            "let mut {}: Option<{}> = None;",
-            local,
-            local_type
-        )
+    for local in &local_vars {
+        l!(local_lets, "let mut {} = None;", local)
     }
 
     let match_names = if !ron_field_names.is_empty() {
         let mut inner = String::new();
-        for (ron_field_name, (local_var, _)) in ron_field_names.iter().zip(local_vars.iter()) {
+        for (ron_field_name, local_var) in ron_field_names.iter().zip(local_vars.iter()) {
             let Some(ron_field_name) = ron_field_name else {
                 continue;
             };
-- 
2.43.0


From 9d09b13afe0999ea1285bb8da7f96d23fc1714b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 47/61] fix: structs and tuple variants without members derive
 in every format

They underflowed in the derive macros, or expanded to a constructor of the wrong kind.
---
 derive/src/serde_json.rs |  4 ++--
 derive/src/serde_ron.rs  | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index c772cf5..f3c419d 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -389,7 +389,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut names = Vec::new();
                 let mut inner = String::new();
-                let last = contents.len() - 1;
+                let last = contents.len().saturating_sub(1);
                 for (index, _) in contents.iter().enumerate() {
                     let field_name = format!("f{}", index);
                     names.push(field_name.clone());
@@ -622,7 +622,7 @@ pub fn derive_de_json_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
 
     // no fields - was encoded as {}
     let body = if struct_.fields.is_empty() {
-        "s.curly_open(i)?;let r = Self;s.curly_close(i)?;".to_string()
+        "s.curly_open(i)?;let r = Self {};s.curly_close(i)?;".to_string()
     }
     // if it was transparent newtype struct - skip "container"
     // and just deserialize content
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 2eb64bd..ed53995 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -104,7 +104,7 @@ pub fn derive_ser_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
     let (generic_w_bounds, generic_no_bounds) =
         struct_bounds_strings(struct_, "SerRon", crate_name);
 
-    let last = struct_.fields.len() - 1;
+    let last = struct_.fields.len().saturating_sub(1);
     for (n, _field) in struct_
         .fields
         .iter()
@@ -306,11 +306,18 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         );
     }
 
+    // a struct without fields may be a unit struct
+    let r = if struct_.fields.is_empty() {
+        "Self {}".to_string()
+    } else {
+        format!("Self({})", body)
+    };
+
     format! ("
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 s.paren_open(i)?;
-                let r = Self({});
+                let r = {};
                 s.paren_close(i)?;
                 ::core::result::Result::Ok(r)
             }}
@@ -324,7 +331,7 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         generic_no_bounds,
         crate_name,
         crate_name,
-        body
+        r
     ).parse().unwrap()
 }
 
@@ -402,7 +409,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut names = Vec::new();
                 let mut inner = String::new();
-                let last = contents.len() - 1;
+                let last = contents.len().saturating_sub(1);
                 for (index, _) in &mut contents.iter().enumerate() {
                     let name = format!("f{}", index);
                     l!(inner, "{}.ser_ron(d, s);", name);
-- 
2.43.0


From 018866cc940064bd00a31114238f30e011b11e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 48/61] fix: literal defaults of Option<String> in RON, of
 other types around String in JSON

The text was taken for an expression in the one, an expression for text in the other.
---
 derive/src/serde_json.rs | 8 +-------
 derive/src/serde_ron.rs  | 5 +++--
 derive/src/shared.rs     | 9 +++++++++
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index f3c419d..bb54846 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -150,13 +150,7 @@ pub fn derive_de_json_named(
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
-                if field.ty.base() == "String"
-                    || field
-                        .ty
-                        .wraps
-                        .as_ref()
-                        .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"))
-                {
+                if shared::is_text(&field.ty) {
                     val = format!("::core::convert::Into::into(\"{}\")", val)
                 }
                 if field.ty.base() == "Option" {
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index ed53995..781d0d3 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -161,9 +161,10 @@ pub fn derive_de_ron_named(
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
-                if field.ty.base() == "String" {
+                if shared::is_text(&field.ty) {
                     val = format!("::core::convert::Into::into(\"{}\")", val)
-                } else if field.ty.base() == "Option" {
+                }
+                if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
                 }
                 Some(val)
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index a8bfc6c..67860ea 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -48,6 +48,15 @@ pub fn attrs_default(attributes: &[crate::parse::Attribute]) -> Option<Option<St
     })
 }
 
+/// `String` or `Option<String>`: a default is then the text itself, not an expression
+#[cfg(any(feature = "ron", feature = "json"))]
+pub fn is_text(ty: &crate::parse::Type) -> bool {
+    match &ty.wraps {
+        Some(wrapped) if ty.base() == "Option" => wrapped.iter().any(|ty| ty.base() == "String"),
+        _ => ty.base() == "String",
+    }
+}
+
 #[cfg(any(feature = "ron", feature = "json"))]
 pub fn attrs_default_with(attributes: &[crate::parse::Attribute]) -> Option<String> {
     attributes.iter().find_map(|attr| {
-- 
2.43.0


From ff796ef2420e58a35261224bfd5690873e365cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 49/61] fix: associated types of generic types, as in <Vec<T>
 as Trait>::Type, can be derived for

---
 derive/src/parse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 9a7c62f..ad05a84 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1037,6 +1037,8 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
 
         let _closing_bracket =
             next_exact_punct(source, ">").expect("Expecting closing generic bracket");
+        // as in <Vec<T> as Trait>::Type
+        let as_other = as_other.or_else(|| as_other_type(source).map(Box::new));
 
         Some(Type {
             ident: Category::Named { path: ty },
-- 
2.43.0


From 76f7ac4e58d0a5f3376494d331ddcd465e8c022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 50/61] fix: a comma may end the list of attributes

---
 derive/src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index ad05a84..acaaaf4 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1094,6 +1094,11 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
     let mut attr_tokens = vec![];
 
     loop {
+        // a comma may end the list
+        if next_eof(&mut args_group).is_some() {
+            break;
+        }
+
         let attribute_name = next_ident(&mut args_group).expect("Expecting attribute name");
         attr_tokens.push(attribute_name);
 
-- 
2.43.0


From f65167f84c8e6dc7ad398bdae6afd0252572bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 51/61] fix: pointers and mutable references are parsed in the
 types of skipped members

---
 derive/src/parse.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index acaaaf4..84cd9a2 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -909,7 +909,26 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         });
     };
 
+    // *const T or *mut T
+    if next_exact_punct(source, "*").is_some() {
+        let kind = next_ident(source).expect("Need const or mut after *");
+        let target = next_type(source).expect("Need a type to point to");
+        return Some(Type {
+            ident: Category::Named {
+                path: format!("*{} {}", kind, target.full()),
+            },
+            wraps: None,
+            ref_type: None,
+            as_other: None,
+        });
+    }
+
     let ref_type = next_exact_punct(source, "&").map(|_| next_lifetime(source));
+    if let (Some(_), Some(TokenTree::Ident(ident))) = (&ref_type, source.peek()) {
+        if ident.to_string() == "mut" {
+            source.next();
+        }
+    }
 
     if let Some(group) = next_group(&mut source.clone()) {
         match group.delimiter() {
-- 
2.43.0


From e1f562fc0b0c2f471c989fd9ea9b07b3f4644e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 52/61] fix: raw identifiers as names of members and variants

The names written and read are the ones without r#.
---
 derive/src/serde_bin.rs  |  6 +++---
 derive/src/serde_json.rs | 24 ++++++++++++------------
 derive/src/serde_ron.rs  | 32 ++++++++++++++++++--------------
 derive/src/shared.rs     |  5 +++++
 4 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index c0e37ef..24f6c0e 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -3,7 +3,7 @@ use alloc::string::String;
 
 use crate::{
     parse::{Category, Enum, Struct, Type},
-    shared::{attrs_skip, enum_bounds_strings, struct_bounds_strings},
+    shared::{attrs_skip, enum_bounds_strings, plain_name, struct_bounds_strings},
 };
 
 use proc_macro::TokenStream;
@@ -269,7 +269,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for f in contents.fields.iter() {
                     // bind under another name, so that a field can be called `s`
                     let name = f.field_name.as_ref().expect("field must be named");
-                    l!(r, "{}: f_{}, ", name, name)
+                    l!(r, "{}: f_{}, ", name, plain_name(name))
                 }
 
                 l!(r, "} => {");
@@ -278,7 +278,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     l!(
                         r,
                         "f_{}.ser_bin(s);",
-                        f.field_name.as_ref().expect("field must be named")
+                        plain_name(f.field_name.as_ref().expect("field must be named"))
                     )
                 }
                 l!(r, "}")
diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index bb54846..7f66478 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -49,8 +49,8 @@ pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream
     if !struct_.fields.is_empty() {
         for field in struct_.fields.iter() {
             let struct_fieldname = field.field_name.clone().unwrap();
-            let json_fieldname =
-                shared::attrs_rename(&field.attributes).unwrap_or_else(|| struct_fieldname.clone());
+            let json_fieldname = shared::attrs_rename(&field.attributes)
+                .unwrap_or_else(|| shared::plain_name(&struct_fieldname).to_string());
             let skip = shared::attrs_skip(&field.attributes);
             if skip {
                 continue;
@@ -145,7 +145,7 @@ pub fn derive_de_json_named(
 
     for field in fields {
         let struct_fieldname = field.field_name.as_ref().unwrap().to_string();
-        let localvar = format!("_{}", struct_fieldname);
+        let localvar = format!("_{}", shared::plain_name(&struct_fieldname));
         let field_attr_default = shared::attrs_default(&field.attributes);
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
@@ -168,8 +168,8 @@ pub fn derive_de_json_named(
         } else {
             None
         };
-        let json_fieldname =
-            shared::attrs_rename(&field.attributes).unwrap_or(struct_fieldname.clone());
+        let json_fieldname = shared::attrs_rename(&field.attributes)
+            .unwrap_or_else(|| shared::plain_name(&struct_fieldname).to_string());
         let proxy = crate::shared::attrs_proxy(&field.attributes);
         let skip = crate::shared::attrs_skip(&field.attributes);
 
@@ -301,8 +301,8 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in enum_.variants.iter() {
         let field_name = variant.field_name.clone().unwrap();
-        let json_variant_name =
-            shared::attrs_rename(&variant.attributes).unwrap_or(field_name.clone());
+        let json_variant_name = shared::attrs_rename(&variant.attributes)
+            .unwrap_or_else(|| shared::plain_name(&field_name).to_string());
 
         match &variant.ty {
             Type {
@@ -333,9 +333,9 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             continue;
                         }
                         // bind under another name, so that a field can be called `s` or `d`
-                        let binding = format!("f_{name}");
-                        let json_fieldname =
-                            shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                        let binding = format!("f_{}", shared::plain_name(name));
+                        let json_fieldname = shared::attrs_rename(&field.attributes)
+                            .unwrap_or_else(|| shared::plain_name(name).to_string());
                         let proxied_field = ser_proxy_guard(&format!("(*{binding})"), field);
                         let header = format!(
                             "if first_field_was_serialized {{
@@ -438,8 +438,8 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let field_name = variant.field_name.clone().unwrap();
-        let json_variant_name =
-            shared::attrs_rename(&variant.attributes).unwrap_or(field_name.clone());
+        let json_variant_name = shared::attrs_rename(&variant.attributes)
+            .unwrap_or_else(|| shared::plain_name(&field_name).to_string());
 
         match &variant.ty {
             Type {
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 781d0d3..980749a 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -46,8 +46,8 @@ pub fn derive_ser_ron_struct(struct_: &Struct, crate_name: &str) -> TokenStream
 
     for field in struct_.fields.iter().filter(|f| !attrs_skip(&f.attributes)) {
         let struct_fieldname = field.field_name.clone().unwrap();
-        let ron_fieldname =
-            shared::attrs_rename(&field.attributes).unwrap_or_else(|| struct_fieldname.clone());
+        let ron_fieldname = shared::attrs_rename(&field.attributes)
+            .unwrap_or_else(|| shared::plain_name(&struct_fieldname).to_string());
         let skip = shared::attrs_skip(&field.attributes);
         if skip {
             continue;
@@ -154,7 +154,7 @@ pub fn derive_de_ron_named(
     let mut unwraps = Vec::new();
     for field in fields.iter() {
         let struct_fieldname = field.field_name.as_ref().unwrap().to_string();
-        let localvar = format!("_{}", struct_fieldname);
+        let localvar = format!("_{}", shared::plain_name(&struct_fieldname));
         let field_is_option = field.ty.base() == "Option";
         let field_attr_skip = shared::attrs_skip(&field.attributes);
         let field_attr_default = shared::attrs_default(&field.attributes);
@@ -181,8 +181,10 @@ pub fn derive_de_ron_named(
         } else {
             None
         };
-        let ron_fieldname = (!field_attr_skip)
-            .then(|| shared::attrs_rename(&field.attributes).unwrap_or(struct_fieldname.clone()));
+        let ron_fieldname = (!field_attr_skip).then(|| {
+            shared::attrs_rename(&field.attributes)
+                .unwrap_or_else(|| shared::plain_name(&struct_fieldname).to_string())
+        });
 
         unwraps.push(match default_val {
             Some(def) => format!("{}.unwrap_or_else(|| {})", localvar, def),
@@ -342,13 +344,14 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = &variant.field_name.clone().unwrap();
+        let ron_name = shared::plain_name(ident);
         match &variant.ty {
             Type {
                 ident: Category::None,
                 ..
             } => {
                 // unit variant
-                l!(body, "Self::{} => s.out.push_str(\"{}\"),", ident, ident)
+                l!(body, "Self::{} => s.out.push_str(\"{}\"),", ident, ron_name)
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -363,9 +366,9 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         continue;
                     }
                     // bind under another name, so that a field can be called `s` or `d`
-                    let binding = format!("f_{name}");
-                    let ron_fieldname =
-                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                    let binding = format!("f_{}", shared::plain_name(name));
+                    let ron_fieldname = shared::attrs_rename(&field.attributes)
+                        .unwrap_or_else(|| shared::plain_name(name).to_string());
                     names.push(format!("{name}: {binding}"));
                     if field.ty.base() == "Option" {
                         l!(
@@ -400,7 +403,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(","),
-                    ident,
+                    ron_name,
                     inner
                 );
             }
@@ -429,7 +432,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(","),
-                    ident,
+                    ron_name,
                     inner
                 )
             }
@@ -459,6 +462,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = variant.field_name.clone().unwrap();
+        let ron_name = shared::plain_name(&ident);
 
         match &variant.ty {
             Type {
@@ -467,7 +471,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 ..
             } => {
                 // unit variant
-                l!(body, "\"{}\" => Self::{},", ident, ident)
+                l!(body, "\"{}\" => Self::{},", ron_name, ident)
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -475,7 +479,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let name = format!("{}::{}", enum_.name, ident);
                 let inner = derive_de_ron_named(&name, &contents.fields, &[], crate_name);
-                l!(body, "\"{}\" => {}", ident, inner);
+                l!(body, "\"{}\" => {}", ron_name, inner);
             }
             Type {
                 ident: Category::Tuple { contents },
@@ -502,7 +506,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         s.paren_close(i)?;
                         r
                     }}, ",
-                    ident,
+                    ron_name,
                     ident,
                     inner
                 );
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index 67860ea..ff866ad 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -89,6 +89,11 @@ pub fn attrs_serialize_none_as_null(attributes: &[crate::parse::Attribute]) -> b
         .any(|attr| attr.tokens.len() == 1 && attr.tokens[0] == "serialize_none_as_null")
 }
 
+/// The name behind a raw identifier: `type` of `r#type`
+pub fn plain_name(name: &str) -> &str {
+    name.strip_prefix("r#").unwrap_or(name)
+}
+
 pub fn attrs_crate(attributes: &[crate::parse::Attribute]) -> Option<&str> {
     attributes.iter().find_map(|attr| {
         if attr.tokens.len() == 2 && attr.tokens[0] == "crate" {
-- 
2.43.0


From ad454274d6a039a474ab89c7fab029ac9bfdb251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 53/61] fix: serialize_none_as_null is honoured on JSON struct
 members with a proxy

---
 derive/src/serde_json.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 7f66478..73e85ba 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -58,11 +58,9 @@ pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream
             let proxied_field = ser_proxy_guard(&format!("self.{struct_fieldname}"), field);
 
             if field.ty.base() == "Option" {
-                let proxy_attr = crate::shared::attrs_proxy(&field.attributes);
                 let struct_null_on_none = shared::attrs_serialize_none_as_null(&struct_.attributes);
                 let field_null_on_none = shared::attrs_serialize_none_as_null(&field.attributes);
-                let null_on_none =
-                    (field_null_on_none || struct_null_on_none) && proxy_attr.is_none();
+                let null_on_none = field_null_on_none || struct_null_on_none;
                 let field_header = &format!(
                     "if first_field_was_serialized {{
                                                  s.conl();
-- 
2.43.0


From cb7e12741c1e270748b06533ac7a806034165608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:59 +0000
Subject: [PATCH 54/61] fix: TOML bare keys that look like numbers or words are
 taken as they are spelled

---
 src/toml.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index a7bbd99..449a0af 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -282,7 +282,7 @@ impl TomlParser {
         local_scope: &mut String,
         out: &mut Out,
     ) -> Result<bool, TomlErr> {
-        let tok = self.next_tok(i)?;
+        let tok = self.next_key(i)?;
         match tok {
             TomlTok::Eof => {
                 // at eof.
@@ -291,7 +291,7 @@ impl TomlParser {
             TomlTok::BlockOpen => {
                 // its a scope
                 // we should expect an ident or a string
-                let tok = self.next_tok(i)?;
+                let tok = self.next_key(i)?;
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
                         // a table that does not belong to the array of tables ends its element
@@ -307,9 +307,9 @@ impl TomlParser {
                         }
                     }
                     TomlTok::BlockOpen => {
-                        let tok = self.next_tok(i)?;
+                        let tok = self.next_key(i)?;
                         let key = match tok {
-                            TomlTok::Ident(key) => key,
+                            TomlTok::Str(key) | TomlTok::Ident(key) => key,
                             TomlTok::U64(_)
                             | TomlTok::I64(_)
                             | TomlTok::F64(_)
@@ -432,6 +432,35 @@ impl TomlParser {
         }
     }
 
+    /// The next token where a key may stand. A bare key may look like a number, a
+    /// date or a word such as `true`, and is taken as it is spelled all the same.
+    fn next_key(&mut self, i: &mut Chars) -> Result<TomlTok, TomlErr> {
+        self.skip_blank(i);
+        #[allow(unreachable_patterns)]
+        match self.cur {
+            ident_chars!() => {
+                let tok = self.parse_ident(i, String::new())?;
+                Ok(TomlTok::Ident(tok.into()))
+            }
+            _ => self.next_tok(i),
+        }
+    }
+
+    /// Skips white space and comments.
+    fn skip_blank(&mut self, i: &mut Chars) {
+        loop {
+            match self.cur {
+                '\n' | '\r' | '\t' | ' ' => self.next(i),
+                '#' => {
+                    while self.cur != '\n' && self.cur != '\0' {
+                        self.next(i);
+                    }
+                }
+                _ => return,
+            }
+        }
+    }
+
     fn next_tok(&mut self, i: &mut Chars) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, '\n' | '\r' | '\t' | ' ') {
             self.next(i);
-- 
2.43.0


From 73224efffd1e9a49678149afb900bfe72a950b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 55/61] fix: where-clauses of derived types on types that are
 no parameters

---
 derive/src/parse.rs  |  6 +++++-
 derive/src/shared.rs | 48 ++++++++++++++++++--------------------------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 84cd9a2..410b1a8 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1543,7 +1543,11 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
                     ) => bounds.extend_from_slice(&other_bounds),
                     (
                         Generic::WhereBounded { bounds, .. },
-                        Generic::WhereBounded {
+                        Generic::Generic {
+                            bounds: other_bounds,
+                            ..
+                        }
+                        | Generic::WhereBounded {
                             bounds: other_bounds,
                             ..
                         },
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index ff866ad..b201986 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -1,8 +1,8 @@
 #![cfg(any(feature = "json", feature = "ron", feature = "binary"))]
 
-use crate::parse::{Enum, Struct};
+use crate::parse::{Enum, Generic, Struct};
 use alloc::string::String;
-use alloc::{format, string::ToString, vec::Vec};
+use alloc::{format, string::ToString};
 
 macro_rules! l {
     ($target:ident, $line:expr) => {
@@ -109,27 +109,7 @@ pub(crate) fn struct_bounds_strings(
     bound_name: &str,
     crate_name: &str,
 ) -> (String, String) {
-    let generics: &Vec<_> = &struct_.generics;
-
-    if generics.is_empty() {
-        return ("".to_string(), "".to_string());
-    }
-    let mut generic_w_bounds = "<".to_string();
-    for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
-        generic_w_bounds += generic
-            .full_with_const(&[format!("{}::{}", crate_name, bound_name).as_str()], true)
-            .as_str();
-        generic_w_bounds += ", ";
-    }
-    generic_w_bounds += ">";
-
-    let mut generic_no_bounds = "<".to_string();
-    for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
-        generic_no_bounds += generic.ident_only().as_str();
-        generic_no_bounds += ", ";
-    }
-    generic_no_bounds += ">";
-    (generic_w_bounds, generic_no_bounds)
+    bounds_strings(&struct_.generics, bound_name, crate_name)
 }
 
 pub(crate) fn enum_bounds_strings(
@@ -137,25 +117,35 @@ pub(crate) fn enum_bounds_strings(
     bound_name: &str,
     crate_name: &str,
 ) -> (String, String) {
-    let generics: &Vec<_> = &enum_.generics;
+    bounds_strings(&enum_.generics, bound_name, crate_name)
+}
 
+fn bounds_strings(generics: &[Generic], bound_name: &str, crate_name: &str) -> (String, String) {
     if generics.is_empty() {
         return ("".to_string(), "".to_string());
     }
     let mut generic_w_bounds = "<".to_string();
+    let mut generic_no_bounds = "<".to_string();
+    let mut where_bounds = String::new();
     for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
+        // a bound on a type that is no parameter itself: `where Vec<T>: Clone`
+        if matches!(generic, Generic::WhereBounded { .. }) {
+            where_bounds += generic.full_with_const(&[], true).as_str();
+            where_bounds += ", ";
+            continue;
+        }
         generic_w_bounds += generic
             .full_with_const(&[format!("{}::{}", crate_name, bound_name).as_str()], true)
             .as_str();
         generic_w_bounds += ", ";
-    }
-    generic_w_bounds += ">";
-
-    let mut generic_no_bounds = "<".to_string();
-    for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
         generic_no_bounds += generic.ident_only().as_str();
         generic_no_bounds += ", ";
     }
+    generic_w_bounds += ">";
     generic_no_bounds += ">";
+    if !where_bounds.is_empty() {
+        generic_no_bounds += " where ";
+        generic_no_bounds += where_bounds.as_str();
+    }
     (generic_w_bounds, generic_no_bounds)
 }
-- 
2.43.0


From 111fce3301070c14bf0b5fcee8dee8258a78f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:07 +0000
Subject: [PATCH 56/61] fix: where-clauses of derived tuple structs

---
 derive/src/parse.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 410b1a8..1dc2a60 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1222,7 +1222,7 @@ fn next_fields<T: Iterator<Item = TokenTree> + Clone>(
 
 fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) -> Struct {
     let struct_name = next_ident(source);
-    let generics = get_all_bounds(source);
+    let mut generics = get_all_bounds(source);
     let group = next_group(source);
     // unit struct
     if group.is_none() {
@@ -1251,6 +1251,8 @@ fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>)
     let fields = next_fields(&mut body, named);
 
     if !named {
+        // a tuple struct has its where-clause behind the members
+        get_where_bounds(source, &mut generics);
         next_exact_punct(source, ";").expect("Expected ; on the end of tuple struct");
     }
 
@@ -1427,7 +1429,7 @@ fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
             })
         }
         TokenTree::Punct(punct) => match punct.as_char() {
-            '>' => None,
+            '>' | ';' => None,
             '\'' => {
                 let ty = next_lifetime(source).expect("must be lifetime after \' mark");
                 let mut bounds = vec![];
@@ -1501,10 +1503,19 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
 
     let _ = next_exact_punct(source, ">").expect("Need closing generic bracket");
 
-    // "where" generics + bounds
+    get_where_bounds(source, &mut ret);
+    ret
+}
+
+// "where" generics + bounds
+fn get_where_bounds<T: Iterator<Item = TokenTree> + Clone>(
+    source: &mut Peekable<T>,
+    ret: &mut Vec<Generic>,
+) {
+    let mut already: BTreeSet<_> = ret.iter().map(Generic::full).collect();
     if let Some(content) = source.peek() {
         if content.to_string() != "where" {
-            return ret;
+            return;
         } else {
             source.next();
         }
@@ -1565,8 +1576,6 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
             };
         }
     }
-
-    ret
 }
 
 pub fn parse_data(input: TokenStream) -> Data {
-- 
2.43.0


From b7157e7d9505a4bc8ae6a41d5cf34e1812711978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:35 +0000
Subject: [PATCH 57/61] fix: defaults that are negative, words, raw strings or
 have quotes in them

---
 derive/src/parse.rs      | 14 ++++++++++++--
 derive/src/serde_json.rs |  2 ++
 derive/src/serde_ron.rs  |  2 ++
 derive/src/shared.rs     | 34 ++++++++++++++++++++++++++++++++++
 4 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 1dc2a60..d144e7d 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -524,6 +524,13 @@ pub fn next_literal(source: &mut Peekable<impl Iterator<Item = TokenTree>>) -> O
         if literal.starts_with("\"") {
             literal.remove(0);
             literal.remove(literal.len() - 1);
+        } else {
+            // spelled as a string would be
+            if literal.starts_with('r') {
+                let text = literal[1..].trim_matches('#');
+                literal = text[1..text.len() - 1].to_string();
+            }
+            literal = literal.replace('\\', "\\\\").replace('"', "\\\"");
         }
         source.next();
         return Some(literal);
@@ -1144,9 +1151,12 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
             _ => (),
         }
 
-        let value = next_literal(&mut args_group).expect("Expecting argument value");
+        let minus = next_exact_punct(&mut args_group, "-").unwrap_or_default();
+        let value = next_literal(&mut args_group)
+            .or_else(|| next_ident(&mut args_group))
+            .expect("Expecting argument value");
 
-        attr_tokens.push(value.clone());
+        attr_tokens.push(minus + &value);
 
         match (
             next_eof(&mut args_group).is_some(),
diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 73e85ba..585a056 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -150,6 +150,8 @@ pub fn derive_de_json_named(
             if let Some(mut val) = v {
                 if shared::is_text(&field.ty) {
                     val = format!("::core::convert::Into::into(\"{}\")", val)
+                } else {
+                    val = shared::unescape(&val)
                 }
                 if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 980749a..0a847c6 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -163,6 +163,8 @@ pub fn derive_de_ron_named(
             if let Some(mut val) = v {
                 if shared::is_text(&field.ty) {
                     val = format!("::core::convert::Into::into(\"{}\")", val)
+                } else {
+                    val = shared::unescape(&val)
                 }
                 if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index b201986..217af2f 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -57,6 +57,40 @@ pub fn is_text(ty: &crate::parse::Type) -> bool {
     }
 }
 
+/// What a string literal with this text between its quotes stands for
+#[cfg(any(feature = "ron", feature = "json"))]
+pub fn unescape(literal: &str) -> String {
+    let mut text = String::new();
+    let mut rest = literal.chars();
+    while let Some(c) = rest.next() {
+        if c != '\\' {
+            text.push(c);
+            continue;
+        }
+        match rest.next() {
+            Some('n') => text.push('\n'),
+            Some('r') => text.push('\r'),
+            Some('t') => text.push('\t'),
+            Some('0') => text.push('\0'),
+            Some('x') => {
+                let hex: String = rest.by_ref().take(2).collect();
+                text.extend(u8::from_str_radix(&hex, 16).map(char::from));
+            }
+            Some('u') => {
+                let hex: String = rest.by_ref().take_while(|c| *c != '}').collect();
+                let hex = hex.trim_start_matches('{').replace('_', "");
+                let c = u32::from_str_radix(&hex, 16);
+                text.extend(c.ok().and_then(char::from_u32));
+            }
+            // the line goes on behind the white space
+            Some('\n') => text.push(' '),
+            Some(c) => text.push(c),
+            None => {}
+        }
+    }
+    text
+}
+
 #[cfg(any(feature = "ron", feature = "json"))]
 pub fn attrs_default_with(attributes: &[crate::parse::Attribute]) -> Option<String> {
     attributes.iter().find_map(|attr| {
-- 
2.43.0


From ac0008520bdb760adcb270400215aabd425faff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 58/61] fix: types defined by macro_rules macros, and with
 restricted visibility, were refused by the derives

---
 derive/src/parse.rs | 56 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index d144e7d..2e48c9c 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -516,6 +516,11 @@ pub fn next_exact_punct(
     None
 }
 
+/// The text of a string literal that stands for this
+fn as_text(code: &str) -> String {
+    code.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 pub fn next_literal(source: &mut Peekable<impl Iterator<Item = TokenTree>>) -> Option<String> {
     if let Some(TokenTree::Literal(lit)) = source.peek() {
         let mut literal = lit.to_string();
@@ -530,7 +535,7 @@ pub fn next_literal(source: &mut Peekable<impl Iterator<Item = TokenTree>>) -> O
                 let text = literal[1..].trim_matches('#');
                 literal = text[1..text.len() - 1].to_string();
             }
-            literal = literal.replace('\\', "\\\\").replace('"', "\\\"");
+            literal = as_text(&literal);
         }
         source.next();
         return Some(literal);
@@ -1154,6 +1159,7 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
         let minus = next_exact_punct(&mut args_group, "-").unwrap_or_default();
         let value = next_literal(&mut args_group)
             .or_else(|| next_ident(&mut args_group))
+            .or_else(|| next_group(&mut args_group).map(|group| as_text(&group.to_string())))
             .expect("Expecting argument value");
 
         attr_tokens.push(minus + &value);
@@ -1588,18 +1594,52 @@ fn get_where_bounds<T: Iterator<Item = TokenTree> + Clone>(
     }
 }
 
+/// Takes away the invisible groups that hold what a `macro_rules` macro was given.
+/// Expressions (the length of an array, the value of an attribute) get parentheses instead.
+fn ungroup(input: TokenStream, mut expression: bool, attribute: bool) -> TokenStream {
+    let mut tokens: Vec<TokenTree> = Vec::new();
+    let mut hash = false;
+    for token in input {
+        let punct = match &token {
+            TokenTree::Punct(punct) => Some(punct.as_char()),
+            _ => None,
+        };
+        if let TokenTree::Group(group) = token {
+            let mut delimiter = group.delimiter();
+            let arguments = attribute && delimiter == Delimiter::Parenthesis;
+            let invisible = delimiter == Delimiter::None;
+            let stream = ungroup(
+                group.stream(),
+                expression || arguments,
+                hash || attribute && invisible,
+            );
+            if invisible {
+                if !expression || stream.clone().into_iter().count() <= 1 {
+                    tokens.extend(stream);
+                    continue;
+                }
+                delimiter = Delimiter::Parenthesis;
+            }
+            let mut visible = Group::new(delimiter, stream);
+            visible.set_span(group.span());
+            tokens.push(TokenTree::Group(visible));
+        } else {
+            tokens.push(token);
+        }
+        hash = punct == Some('#');
+        expression |= punct == Some(';');
+    }
+    tokens.into_iter().collect()
+}
+
 pub fn parse_data(input: TokenStream) -> Data {
-    let mut source = input.into_iter().peekable();
+    let mut source = ungroup(input, false, false).into_iter().peekable();
 
     let attributes = next_attributes_list(&mut source);
 
-    let pub_or_type = next_ident(&mut source).expect("Not an ident");
+    let _visibility = next_visibility_modifier(&mut source);
 
-    let type_keyword = if pub_or_type == "pub" {
-        next_ident(&mut source).expect("pub(whatever) is not supported yet")
-    } else {
-        pub_or_type
-    };
+    let type_keyword = next_ident(&mut source).expect("Not an ident");
 
     let res;
 
-- 
2.43.0


From 2e5926591644763d8e4aa063761b213372181916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 59/61] fix: attributes and comments on the members of tuple
 variants

---
 derive/src/parse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 2e48c9c..bf3e594 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -698,6 +698,8 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         let mut path = "(".to_owned();
         // up to the end, which a trailing comma may precede
         while next_eof(source).is_none() {
+            // the members of a variant may have attributes (and be documented)
+            next_attributes_list(source);
             let Some(next_ty) = next_type(source) else {
                 break;
             };
-- 
2.43.0


From 1b62f92eb3fb3e039d3b151c54cbe236049fb698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:33 +0000
Subject: [PATCH 60/61] fix: derives accept every literal and a braced
 expression as the default of a const parameter

The default of a const parameter was parsed as an integer or a type only, so
`const N: i32 = -1`, `const C: char = 'x'` and `const N: usize = { 1 + 2 }`
made the derive panic. Const arguments already had a parser for these.
---
 derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index bf3e594..6a66743 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1377,8 +1377,8 @@ fn next_const_generic<T: Iterator<Item = TokenTree> + Clone>(
             source.next();
             (name, cg_type, Some(ConstValType::Value(default_value)))
         } else {
-            let def =
-                next_type(source).expect("must have either a value or other const as default");
+            let def = next_generic_arg(source)
+                .expect("must have either a value or other const as default");
             (name, cg_type, Some(ConstValType::Named(Box::new(def))))
         }
     } else {
-- 
2.43.0


From 6c06ad1f5b67e719b73d1f6e029bdda47593e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:31 +0000
Subject: [PATCH 61/61] fix: RON names may contain marks and joining points

---
 src/serde_ron.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 8a126b9..8179e41 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -574,9 +574,15 @@ impl DeRonState {
                     }
                 }
                 // names of Rust fields and variants are not limited to ASCII
-                c if c.is_alphabetic() || c == '_' => {
+                c if c.is_alphabetic() || matches!(c, '_' | '℘' | '℮') => {
                     self.identbuf.truncate(0);
-                    while self.cur.is_alphanumeric() || self.cur == '_' {
+                    // neither are they to letters: there are marks and joining points as well
+                    while self.cur.is_alphanumeric()
+                        || self.cur == '_'
+                        || !(self.cur.is_ascii()
+                            || self.cur.is_whitespace()
+                            || self.cur.is_control())
+                    {
                         self.identbuf.push(self.cur);
                         self.next(i);
                     }
-- 
2.43.0

