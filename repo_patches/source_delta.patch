From 0f17d06612c5951fa3925e49e42dd24ba8ea8016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 01/38] fix: write each sub-component as a block, after the
 properties

Two events were written as EVENTS:BEGIN..., an alarm as ALARMS:BEGIN:VALARM...
---
 derive/src/component.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..4a22e90 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -29,6 +29,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     let mut new_body = Vec::new();
     let mut from_body = Vec::new();
     let mut ser_body = Vec::new();
+    let mut ser_components = Vec::new();
 
     for field in fields {
         let name = &field.ident;
@@ -42,6 +43,15 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             .to_uppercase()
             .replace('_', "-");
 
+        if field_params.ignore && crate::is_vec(ty) {
+            ser_components.push(quote::quote! {
+                for v in &self.#name {
+                    s.push_str(&v.ical()?);
+                }
+            });
+            continue;
+        }
+
         let ser_part = if crate::is_vec(ty) {
             quote::quote! {
                 if self.#name.len() == 1 {
@@ -168,6 +178,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 s.push_str(&name);
                 s.push_str("\r\n");
                 #(#ser_body)*
+                #(#ser_components)*
                 s.push_str("END:");
                 s.push_str(&name);
                 s.push_str("\r\n");
-- 
2.43.0


From 6b01b97b6a2c3be9c2cdeebeba1bc33ac721bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 02/38] fix: write extension and unknown properties as content
 lines

They were written as one X-PROP:KEY=VALUE;... line, without their parameters
and with their values escaped again.
---
 derive/src/component.rs | 6 ++++++
 src/content_line.rs     | 2 +-
 src/ser.rs              | 7 +++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 4a22e90..9d3527b 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -65,6 +65,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     }
                 }
             }
+        } else if field_params.ignore {
+            quote::quote! {
+                for (key, value) in &self.#name {
+                    s.push_str(&crate::ser::field(key, value)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/src/content_line.rs b/src/content_line.rs
index 80d74ce..ca9d23a 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -55,7 +55,7 @@ impl std::fmt::Display for ContentLine {
 
 impl crate::ser::Serialize for ContentLine {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::escape_newline(&self.value))
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..94b83e4 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -125,6 +125,13 @@ pub(crate) fn escape(s: &str) -> String {
         .replace('\n', "\\n")
 }
 
+/**
+ * Escapes only what would break the content line, for values that are not of type text.
+ */
+pub(crate) fn escape_newline(s: &str) -> String {
+    s.replace("\r\n", "\\n").replace(['\n', '\r'], "\\n")
+}
+
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
     let mut s = String::new();
 
-- 
2.43.0


From da446c49b7c4d8b5f42b09a39262e40af62c692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 03/38] fix: write one line per value of a repeated property

Only CATEGORIES, EXDATE, FREEBUSY and RESOURCES are lists; the values of the other
properties were joined by commas in a single value, without their parameters.
---
 derive/src/component.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 9d3527b..e6d0199 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -53,11 +53,10 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         }
 
         let ser_part = if crate::is_vec(ty) {
+            let joinable = field_params.append;
+
             quote::quote! {
-                if self.#name.len() == 1 {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
-                }
-                else if self.#name.attr().is_none() {
+                if #joinable && self.#name.len() > 1 && self.#name.iter().all(|x| x.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
-- 
2.43.0


From b0aa31ab6346fed9007eff0fb2db001486c1a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 04/38] fix: write properties with an empty value

An event with an empty UID was written without it, and could not be read again.
---
 derive/src/component.rs |  6 ++++++
 src/ser.rs              | 16 +++++++---------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index e6d0199..b7753a8 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -70,6 +70,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     s.push_str(&crate::ser::field(key, value)?);
                 }
             }
+        } else if crate::is_option(ty) {
+            quote::quote! {
+                if let Some(value) = &self.#name {
+                    s.push_str(&crate::ser::field(#field_name, value)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/src/ser.rs b/src/ser.rs
index 94b83e4..638cd4e 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -140,17 +140,15 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
     if S::component().is_some() {
         s.push_str(&ical);
     } else {
-        if !ical.is_empty() {
-            s.push_str(name);
+        s.push_str(name);
 
-            if let Some(attr) = value.attr() {
-                s.push(';');
-                s.push_str(&attr);
-            }
-            s.push(':');
-            s.push_str(&ical);
-            s.push_str("\r\n");
+        if let Some(attr) = value.attr() {
+            s.push(';');
+            s.push_str(&attr);
         }
+        s.push(':');
+        s.push_str(&ical);
+        s.push_str("\r\n");
 
         if s.len() > 75 {
             let lines = split(&s, 75);
-- 
2.43.0


From 92e8468a944fa9d475988c31d4b7d5b64daa3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 05/38] fix: fold long lines between characters

Folding panicked inside a multi-byte character, and could split the final CRLF.
---
 src/ser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 638cd4e..39a1a20 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -148,12 +148,13 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
         }
         s.push(':');
         s.push_str(&ical);
-        s.push_str("\r\n");
 
         if s.len() > 75 {
             let lines = split(&s, 75);
             s = lines.join("\r\n ");
         }
+
+        s.push_str("\r\n");
     }
 
     Ok(s)
@@ -164,7 +165,12 @@ fn split(s: &str, sub_size: usize) -> Vec<&str> {
     let mut cur = s;
 
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+        let mut size = std::cmp::min(sub_size, cur.len());
+        while !cur.is_char_boundary(size) {
+            size -= 1;
+        }
+
+        let (chunk, rest) = cur.split_at(size);
         v.push(chunk);
         cur = rest;
     }
-- 
2.43.0


From 00b02b92e8800a8b0877efbc5483541616981970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/38] fix: write the type of a RDATE as a parameter

RDATE:VALUE=DATE:19970101 could not be read again, and date-times were typed DATE.
---
 src/properties/rdate.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index bc9a5bd..e27dbd7 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -20,28 +20,35 @@ impl RDate {
 impl std::fmt::Display for RDate {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let s = match self {
-            RDate::Date(date) => format!(
-                "VALUE=DATE:{}",
-                date.iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
-            RDate::Period(period) => format!(
-                "VALUE=PERIOD:{}",
-                period
-                    .iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
+            RDate::Date(date) => date
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
+            RDate::Period(period) => period
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
         };
 
         f.write_str(&s)
     }
 }
 
-crate::ser::ical_for_tostring!(RDate);
+impl crate::ser::Serialize for RDate {
+    fn attr(&self) -> Option<String> {
+        match self {
+            RDate::Date(date) if date.iter().any(crate::Date::has_time) => None,
+            RDate::Date(_) => "VALUE=DATE".to_string().into(),
+            RDate::Period(_) => "VALUE=PERIOD".to_string().into(),
+        }
+    }
+
+    fn ical(&self) -> crate::Result<String> {
+        Ok(self.to_string())
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 30e30d9c71ab36ff49aeb6475a58977380b754e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 07/38] fix: do not escape again a text that already is

Texts read from a document keep their escapes: writing them added a backslash to
each, and a lone backslash or a carriage return was written unescaped.
---
 src/ser.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 39a1a20..14a8edc 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -119,10 +119,38 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+/**
+ * Escapes a text, keeping as is what is already escaped: texts read from a document still are.
+ */
 pub(crate) fn escape(s: &str) -> String {
-    s.replace(';', "\\;")
-        .replace(',', "\\,")
-        .replace('\n', "\\n")
+    let mut escaped = String::with_capacity(s.len());
+    let mut chars = s.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                escaped.push('\\');
+                escaped.push(
+                    chars
+                        .next_if(|x| matches!(x, '\\' | ';' | ',' | 'n' | 'N'))
+                        .unwrap_or('\\'),
+                );
+            }
+            ';' | ',' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            '\r' | '\n' => {
+                if c == '\r' {
+                    chars.next_if_eq(&'\n');
+                }
+                escaped.push_str("\\n");
+            }
+            c => escaped.push(c),
+        }
+    }
+
+    escaped
 }
 
 /**
-- 
2.43.0


From 4130f74b2612e21f9c788b69dcff1e79ac5eb384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 08/38] fix: do not escape URIs as texts

A comma or a semicolon in a URI was written, and read again, with a backslash.
---
 src/properties/uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index 78386de..505aa2b 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -52,7 +52,7 @@ impl From<&str> for Uri {
 
 impl crate::ser::Serialize for Uri {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::escape_newline(&self.uri))
     }
 
     fn attr(&self) -> Option<String> {
-- 
2.43.0


From 308c5f98a8e3ebd4e2ae297231f4458322fac288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 09/38] fix: quote the parameter values that need it

They were escaped as texts, and a colon or a semicolon in one broke the line.
---
 src/ser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 14a8edc..bf2c8ae 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -103,14 +103,14 @@ impl<T: Serialize> Serialize for Option<T> {
     }
 }
 
-impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
+impl<K: ToString> Serialize for std::collections::BTreeMap<K, String> {
     fn ical(&self) -> crate::Result<String> {
         let mut s = String::new();
 
         for (k, v) in self {
             s.push_str(&k.to_string());
             s.push('=');
-            s.push_str(&v.ical()?);
+            s.push_str(&param(v));
             s.push(';');
         }
         s.pop();
@@ -160,6 +160,20 @@ pub(crate) fn escape_newline(s: &str) -> String {
     s.replace("\r\n", "\\n").replace(['\n', '\r'], "\\n")
 }
 
+/**
+ * A parameter value can contain neither quotes nor line breaks, and is quoted if it contains
+ * a separator.
+ */
+fn param(s: &str) -> String {
+    let s = s.replace('"', "'").replace(['\r', '\n'], " ");
+
+    if s.contains([':', ';', ',']) {
+        format!("\"{s}\"")
+    } else {
+        s
+    }
+}
+
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
     let mut s = String::new();
 
-- 
2.43.0


From 4a1a52dc3fac95f417118d36bae8369524955ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 10/38] fix: do not let a custom class break its line

---
 src/properties/class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/class.rs b/src/properties/class.rs
index ea17c28..1759f95 100644
--- a/src/properties/class.rs
+++ b/src/properties/class.rs
@@ -47,7 +47,7 @@ impl std::fmt::Display for Class {
             Self::Public => "PUBLIC".to_string(),
             Self::Private => "PRIVATE".to_string(),
             Self::Confidential => "CONFIDENTIAL".to_string(),
-            Self::Custom(s) => s.to_uppercase(),
+            Self::Custom(s) => crate::ser::escape_newline(s).to_uppercase(),
         };
 
         f.write_str(&s)
-- 
2.43.0


From 62d2aa262264d1ebd9c341c3372055288b9bab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 11/38] fix: end parameter values at the end of the line

An unterminated parameter swallowed the following lines of the document.
---
 src/parser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 971907a..cc84d7d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -64,7 +64,10 @@ fn key(input: &str) -> NomResult<&str, &str> {
 fn attr(input: &str) -> NomResult<&str, &str> {
     context(
         "attr",
-        preceded(opt(tag("\r\n ")), take_till(|c| c == ';' || c == ':')),
+        preceded(
+            opt(tag("\r\n ")),
+            take_till(|c| c == ';' || c == ':' || is_line_ending(c)),
+        ),
     )
     .parse(input)
 }
@@ -74,7 +77,7 @@ fn value(input: &str) -> NomResult<&str, &str> {
 }
 
 fn quote(chr: char) -> bool {
-    chr == '"'
+    chr == '"' || is_line_ending(chr)
 }
 
 fn quoted_param(input: &str) -> NomResult<&str, (&str, &str)> {
-- 
2.43.0


From 8febe202cb8a1dd2d7f78593fd3993630b905cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 12/38] fix: return an error for a period without end

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..2d8f6e4 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let (start, end) = input
+        .split_once('/')
+        .ok_or_else(|| crate::Error::Parser(format!("Invalid period: {input}")))?;
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with('P') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From efbfbd11832a8603b12c2eb6649a63406cee24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 13/38] fix: return an error for a recurrence rule without
 frequency

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..724d592 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Key("FREQ".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From 7b4c911371e396f5671cc8fba94d750f0ec2d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 14/38] fix: return an error for an alarm without action

And use the last action if there are several, as the alarm itself does.
---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..f710b6b 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .rfind(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Alarm("missing".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From dc926df1a7b8226756d2f1bd6611f2b274b5b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 15/38] fix: read the alarm kinds from what they write

Parsing a text as Audio, Display or Email hit an unreachable!().
---
 src/parser/components.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..1820b78 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -25,24 +25,15 @@ macro_rules! component {
 }
 
 component!(valarm, crate::VAlarm);
+component!(audio, crate::valarm::Audio);
+component!(display, crate::valarm::Display);
+component!(email, crate::valarm::Email);
 component!(vfreebusy, crate::VFreebusy);
 component!(vtodo, crate::VTodo);
 component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
 
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
-}
-
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
-}
-
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
-}
-
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
     context(
         "vevent",
-- 
2.43.0


From 037d953703b939619f9270938487d614f21b5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 16/38] fix: return an error for a duration out of range

And read the weeks of a duration, and only once the digits of each of its parts:
P1DT2H was 12 hours more than a day.
---
 src/lib.rs             | 25 +++++++++++++------------
 src/parser/datatype.rs | 16 ++++++++--------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..e4bb2ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,21 +156,22 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             break;
         };
 
+        let n = std::mem::take(&mut interval).parse::<i64>()?;
+
         let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
-            _ => {
-                return Err(crate::Error::ParseDuration(format!(
-                    "Invalid duration: {interval}"
-                )));
-            }
+            (false, 'Y') => n.checked_mul(365).and_then(chrono::TimeDelta::try_days),
+            (false, 'M') => n.checked_mul(30).and_then(chrono::TimeDelta::try_days),
+            (false, 'W') => chrono::TimeDelta::try_weeks(n),
+            (false, 'D') => chrono::TimeDelta::try_days(n),
+            (true, 'H') => chrono::TimeDelta::try_hours(n),
+            (true, 'M') => chrono::TimeDelta::try_minutes(n),
+            (true, 'S') => chrono::TimeDelta::try_seconds(n),
+            _ => None,
         };
 
-        duration += part;
+        duration = part
+            .and_then(|part| duration.checked_add(&part))
+            .ok_or_else(|| crate::Error::ParseDuration(format!("Invalid duration: {value}")))?;
     }
 
     if negative {
diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 2d8f6e4..ddfbcaa 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,7 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{map, map_opt, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -129,23 +129,23 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
 
     context(
         "duration",
-        map(
+        map_opt(
             pair(
                 opt(tag("-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
+                let mut duration = chrono::Duration::try_weeks(w.unwrap_or_default())?
+                    .checked_add(&chrono::Duration::try_days(d.unwrap_or_default())?)?;
 
                 if let Some((h, i, s)) = t {
                     duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
+                        .checked_add(&chrono::Duration::try_hours(h)?)?
+                        .checked_add(&chrono::Duration::try_minutes(i)?)?
+                        .checked_add(&chrono::Duration::try_seconds(s)?)?;
                 }
 
-                if neg.is_some() { -duration } else { duration }
+                Some(if neg.is_some() { -duration } else { duration })
             },
         ),
     )
-- 
2.43.0


From c075cb83b32e731d75692ef82010ef78d1d92873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 17/38] fix: do not panic on a local time that does not exist,
 or exists twice

---
 src/properties/date.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..5cb803d 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -116,9 +116,11 @@ impl std::str::FromStr for DateTime {
         } else {
             let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
+            naive
+                .and_local_timezone(chrono::Local)
+                .earliest()
+                .map(Self::Local)
+                .ok_or(crate::Error::Local(naive.into()))
         }
     }
 }
-- 
2.43.0


From 567eafa0f7dbfcfb75a920a2171578af822abf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 18/38] fix: compare and subtract UTC date-times as instants

Across a daylight-saving transition, their order and difference depended on the
zone of the host.
---
 src/properties/date.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index 5cb803d..e8fda71 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -86,7 +86,10 @@ impl std::ops::Sub for DateTime {
     type Output = chrono::Duration;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        self.naive().sub(rhs.naive())
+        match (self, rhs) {
+            (Self::Local(a), Self::Local(b)) => a - b,
+            _ => self.naive().sub(rhs.naive()),
+        }
     }
 }
 
@@ -133,7 +136,10 @@ impl std::cmp::PartialOrd for DateTime {
 
 impl std::cmp::Ord for DateTime {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.naive().cmp(&other.naive())
+        match (self, other) {
+            (Self::Local(a), Self::Local(b)) => a.cmp(b),
+            _ => self.naive().cmp(&other.naive()),
+        }
     }
 }
 
-- 
2.43.0


From b21345e69c4ecdcb0f8ef92768d99f8e34186055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 19/38] fix: compare periods of any duration without overflow

---
 src/properties/period.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/properties/period.rs b/src/properties/period.rs
index e361c76..2e2f97c 100644
--- a/src/properties/period.rs
+++ b/src/properties/period.rs
@@ -109,10 +109,20 @@ impl std::cmp::PartialOrd for StartDur {
 
 impl std::cmp::Ord for StartDur {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        let a = self.start - self.duration;
-        let b = other.start - other.duration;
+        let key = |x: &Self| {
+            let overflow = if x.duration < chrono::Duration::zero() {
+                chrono::NaiveDateTime::MAX
+            } else {
+                chrono::NaiveDateTime::MIN
+            };
+
+            x.start
+                .naive()
+                .checked_sub_signed(x.duration)
+                .unwrap_or(overflow)
+        };
 
-        a.cmp(&b)
+        key(self).cmp(&key(other))
     }
 }
 
-- 
2.43.0


From 4dfc17f06853ee77b76459d48c826905af59e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 20/38] fix: skip the dates of a recurrence that do not exist

Adding a yearly rule to february 29 panicked, and a monthly one moved the 31st to
the 28th for ever. UTC date-times are advanced in UTC: advanced in the zone of the
host, they moved with its daylight-saving time, and panicked when it skips a time.
---
 src/properties/recur.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..a598334 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -74,17 +74,14 @@ impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
     type Output = chrono::NaiveDate;
 
     fn add(self, rhs: chrono::NaiveDate) -> Self::Output {
-        let interval = match self.freq {
+        match self.freq {
             Freq::Secondly => return rhs,
             Freq::Minutely => return rhs,
             Freq::Hourly => return rhs,
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
+            _ => (),
+        }
 
-        rhs + interval
+        (self + rhs.and_time(chrono::NaiveTime::MIN)).date()
     }
 }
 
@@ -103,17 +100,9 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
     type Output = chrono::DateTime<chrono::Local>;
 
     fn add(self, rhs: chrono::DateTime<chrono::Local>) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
-
-        rhs + interval
+        (self + rhs.naive_utc())
+            .and_utc()
+            .with_timezone(&chrono::Local)
     }
 }
 
@@ -127,14 +116,24 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => return add_months(rhs, self.interval.into()).unwrap_or(rhs),
+            Freq::Yearly => return add_months(rhs, 12 * u32::from(self.interval)).unwrap_or(rhs),
         };
 
-        rhs + interval
+        rhs.checked_add_signed(interval).unwrap_or(rhs)
     }
 }
 
+/**
+ * The first date at a multiple of this number of months that exists: february 30 is skipped, as
+ * is february 29 of most of years.
+ */
+fn add_months(date: chrono::NaiveDateTime, months: u32) -> Option<chrono::NaiveDateTime> {
+    (1..)
+        .map_while(|n| date.checked_add_months(chrono::Months::new(months.checked_mul(n)?)))
+        .find(|x| x.day() == date.day())
+}
+
 #[derive(Clone, Debug, Default, Eq, PartialEq, PartialOrd, Ord)]
 pub enum Freq {
     Secondly,
-- 
2.43.0


From 73dbd29e89209b36dcce44c9e434efd0b0002131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 21/38] fix: end a recurrence where its rule does

The iterator prepared the next occurrence before returning the current one:
- an exception on the first occurrence was ignored, and one after the last
  occurrence, or before the end of the rule, lost the last occurrence;
- exceptions were not counted, although they are part of the rule's count;
- it looped for ever on an interval of zero with an exception on the start;
- it panicked at the end of the calendar.

The end of the rule was only compared by date. The end of an event was advanced by
the rule and not with its start, and so the duration of the occurrences changed; the
due date of a to-do never was advanced.
---
 src/iter.rs | 112 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 87 insertions(+), 25 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..78a104a 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -106,12 +106,14 @@ impl Recurring for crate::VTodo {
 }
 
 pub struct Recur<T: Recurring> {
-    item: T,
+    item: Option<T>,
 }
 
 impl<T: Recurring> Recur<T> {
     pub(crate) fn from(item: &T) -> Self {
-        Self { item: item.clone() }
+        Self {
+            item: Some(item.clone()),
+        }
     }
 
     pub fn between<D: Into<crate::Date> + Copy>(self, start: D, end: D) -> impl Iterator<Item = T> {
@@ -133,45 +135,105 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
-
-        let mut next = self.item.clone();
-
         loop {
-            let dtstart = next.dtstart()?;
-            let mut rrule = next.rrule()?.clone();
+            let current = self.item.take()?;
+            let dtstart = *current.dtstart()?;
+            let rrule = current.rrule()?;
+
+            if rrule.count == Some(0) {
+                return None;
+            }
 
             if let Some(until) = &rrule.until {
-                if dtstart.date_naive() > until.date_naive() {
+                if is_after(&dtstart, until) {
                     return None;
                 }
             }
 
-            let dtstart = rrule.clone() + *dtstart;
-            next.set_dtstart(dtstart);
+            self.item = following(&current, dtstart, rrule.clone());
 
-            if let Some(dtend) = next.dtend() {
-                let dtend = rrule.clone() + *dtend;
-                next.set_dtend(dtend);
+            if !current.exdate().contains(&dtstart) {
+                return Some(current);
             }
+        }
+    }
+}
 
-            next.set_rrule(rrule.clone());
+/**
+ * The occurrence that follows, or `None` at the end of the calendar.
+ */
+fn following<T: Recurring>(
+    current: &T,
+    dtstart: crate::Date,
+    mut rrule: crate::Recur,
+) -> Option<T> {
+    use chrono::Datelike as _;
 
-            if next.exdate().contains(&dtstart) {
-                continue;
-            }
+    let mut following = current.clone();
 
-            if let Some(count) = rrule.count.as_mut() {
-                *count = count.checked_sub(1)?;
-                next.set_rrule(rrule.clone());
-            }
+    let step = crate::Recur {
+        interval: rrule.interval.max(1),
+        ..rrule.clone()
+    };
+    let next = step + dtstart;
+
+    if next == dtstart || utc(&next).year() > 9_999 {
+        return None;
+    }
+
+    let delta = utc(&next) - utc(&dtstart);
+
+    if let Some(dtend) = current.dtend() {
+        following.set_dtend(shift(*dtend, delta)?);
+    }
+
+    if let Some(due) = current.due() {
+        following.set_due(shift(*due, delta)?);
+    }
+
+    following.set_dtstart(next);
+
+    rrule.count = rrule.count.map(|count| count - 1);
+    following.set_rrule(rrule);
+
+    Some(following)
+}
 
-            break;
+/**
+ * Moves a date by the distance between two occurrences.
+ */
+fn shift(date: crate::Date, delta: chrono::TimeDelta) -> Option<crate::Date> {
+    let date = match date {
+        crate::Date::Date(date) if delta == chrono::TimeDelta::days(delta.num_days()) => {
+            date.checked_add_signed(delta)?.into()
         }
+        crate::Date::DateTime(crate::DateTime::Local(date)) => {
+            date.checked_add_signed(delta)?.into()
+        }
+        date => utc(&date).checked_add_signed(delta)?.into(),
+    };
+
+    Some(date)
+}
+
+fn is_after(date: &crate::Date, until: &crate::Date) -> bool {
+    use crate::Date::{Date, DateTime};
+    use crate::DateTime::{Local, Naive};
 
-        self.item = next;
+    match (date, until) {
+        (DateTime(Naive(_)), DateTime(Naive(_))) | (DateTime(Local(_)), DateTime(Local(_))) => {
+            utc(date) > utc(until)
+        }
+        (DateTime(Local(_)), Date(until)) => utc(date).date() > *until,
+        _ => date.date_naive() > until.date_naive(),
+    }
+}
 
-        Some(current)
+fn utc(date: &crate::Date) -> chrono::NaiveDateTime {
+    match date {
+        crate::Date::Date(date) => date.and_time(chrono::NaiveTime::MIN),
+        crate::Date::DateTime(crate::DateTime::Naive(date)) => *date,
+        crate::Date::DateTime(crate::DateTime::Local(date)) => date.naive_utc(),
     }
 }
 
-- 
2.43.0


From 262580f54de83231baee9abe48d9a547af0bf43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 22/38] fix: keep the escaped commas and the parameters of
 categories and resources

A category with a comma was read as two, and the language of categories was lost.
---
 src/parser/descriptive.rs | 14 ++++++++++++--
 src/parser/mod.rs         | 16 ++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..d5bb063 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,7 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(text_list(input))
 }
 
 /**
@@ -86,7 +86,17 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(text_list(input))
+}
+
+fn text_list(input: crate::ContentLine) -> Vec<crate::Text> {
+    super::split_unescaped(&input.value, ',')
+        .into_iter()
+        .map(|text| crate::Text {
+            params: input.params.clone(),
+            text: text.to_string(),
+        })
+        .collect()
 }
 
 /**
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cc84d7d..a1295e7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -150,6 +150,22 @@ pub(crate) fn content_lines(input: &str) -> NomResult<&str, Vec<crate::ContentLi
     .parse(input)
 }
 
+/**
+ * Splits a value on a separator, except where it is escaped.
+ */
+pub(crate) fn split_unescaped(value: &str, separator: char) -> Vec<&str> {
+    let mut escaped = false;
+
+    value
+        .split(|c| {
+            let found = c == separator && !escaped;
+            escaped = c == '\\' && !escaped;
+
+            found
+        })
+        .collect()
+}
+
 pub(crate) fn weekday(input: &str) -> NomResult<&str, crate::Weekday> {
     use crate::Weekday::*;
 
-- 
2.43.0


From b431400fbc904a05e7adb0e591a402cc3fe82654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 23/38] fix: keep the escaped semicolons and the code of a
 request status

The description ended at its first semicolon, and the code 3.11 was written 3.1.
---
 src/parser/misc.rs               | 6 ++++--
 src/properties/request_status.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index c239b5d..b7b141a 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -7,7 +7,7 @@
  */
 pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::RequestStatus> {
     use nom::Parser as _;
-    use nom::bytes::complete::{take_till, take_while};
+    use nom::bytes::complete::take_while;
     use nom::character::complete::char;
     use nom::combinator::{map, opt};
     use nom::error::context;
@@ -15,7 +15,9 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
-        context("text", take_till(|c| c == ';')).parse(input)
+        let (text, input) = input.split_at(super::split_unescaped(input, ';')[0].len());
+
+        Ok((input, text))
     }
 
     fn end(input: &str) -> super::NomResult<&str, &str> {
diff --git a/src/properties/request_status.rs b/src/properties/request_status.rs
index 0db41bd..0eae83f 100644
--- a/src/properties/request_status.rs
+++ b/src/properties/request_status.rs
@@ -35,7 +35,7 @@ impl std::str::FromStr for RequestStatus {
 impl crate::ser::Serialize for RequestStatus {
     fn ical(&self) -> crate::Result<String> {
         let mut s = format!(
-            "{:.1};{}",
+            "{:?};{}",
             self.statcode,
             crate::ser::escape(&self.statdesc)
         );
-- 
2.43.0


From d2a16922437a2c1a9e23587753d04e93b64f4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 24/38] fix: unfold lines folded with a tab

---
 derive/src/component.rs  | 2 +-
 src/components/valarm.rs | 2 +-
 src/parser/mod.rs        | 7 +++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index b7753a8..707971d 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -169,7 +169,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             type Err = crate::Error;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                crate::parser::#parser(&s.replace("\r\n ", ""))
+                crate::parser::#parser(&crate::parser::unfold(s))
                     .map_err(crate::Error::from)
                     .map(|(_, x)| x)
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index f710b6b..794c6ee 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -49,7 +49,7 @@ impl std::str::FromStr for VAlarm {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::valarm(&s.replace("\r\n ", ""))
+        crate::parser::valarm(&crate::parser::unfold(s))
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a1295e7..edd0b69 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -113,6 +113,13 @@ fn params(input: &str) -> NomResult<&str, BTreeMap<String, String>> {
     .parse(input)
 }
 
+/**
+ * Long lines are folded with a space or a tab.
+ */
+pub(crate) fn unfold(input: &str) -> String {
+    input.replace("\r\n ", "").replace("\r\n\t", "")
+}
+
 /**
  * See [3.1. Content Lines](https://datatracker.ietf.org/doc/html/rfc5545#section-3.1)
  */
-- 
2.43.0


From d99b865026d1b1c1367ef70fce93348ce2f41bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 25/38] fix: read only digits as dates

A date with a sign was read as one of year 262142, and date-times with several Z or
spaces were accepted.
---
 src/parser/datatype.rs | 44 +++++++++++++++++++++++++++++-------------
 src/properties/date.rs |  8 ++++----
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index ddfbcaa..7ba3e7e 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -15,11 +15,32 @@ pub(crate) fn cal_address(input: &str) -> crate::Result<String> {
     uri(input)
 }
 
+/**
+ * A date is made of digits only: chrono also accepts signs and spaces between its parts.
+ */
+pub(crate) fn naive_date(input: &str) -> crate::Result<chrono::NaiveDate> {
+    if input.len() != 8 || !input.chars().all(super::is_digit) {
+        return Err(crate::Error::Parser(format!("Invalid date: {input}")));
+    }
+
+    chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(crate::Error::from)
+}
+
+pub(crate) fn naive_date_time(input: &str) -> crate::Result<chrono::NaiveDateTime> {
+    let digits = input.chars().filter(|x| super::is_digit(*x)).count();
+
+    if input.len() != 15 || digits != 14 {
+        return Err(crate::Error::Parser(format!("Invalid date-time: {input}")));
+    }
+
+    chrono::NaiveDateTime::parse_from_str(input, "%Y%m%dT%H%M%S").map_err(crate::Error::from)
+}
+
 /**
  * See [3.3.4. Date](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.4)
  */
 pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
-    let date = chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(|e| {
+    let date = naive_date(input).map_err(|e| {
         nom::Err::Error(nom_language::error::VerboseError::from_external_error(
             input,
             nom::error::ErrorKind::Fail,
@@ -34,18 +55,15 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
-    let date = input.to_string();
-
-    let dt = chrono::NaiveDateTime::parse_from_str(date.trim_end_matches('Z'), "%Y%m%dT%H%M%S")
-        .map_err(|e| {
-            nom::Err::Error(nom_language::error::VerboseError::from_external_error(
-                input,
-                nom::error::ErrorKind::Fail,
-                e,
-            ))
-        })?;
-
-    if date.ends_with('Z') {
+    let dt = naive_date_time(input.strip_suffix('Z').unwrap_or(input)).map_err(|e| {
+        nom::Err::Error(nom_language::error::VerboseError::from_external_error(
+            input,
+            nom::error::ErrorKind::Fail,
+            e,
+        ))
+    })?;
+
+    if input.ends_with('Z') {
         Ok((
             "",
             crate::DateTime::Local(dt.and_utc().with_timezone(&chrono::Local)),
diff --git a/src/properties/date.rs b/src/properties/date.rs
index e8fda71..05f9794 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -114,11 +114,11 @@ impl std::str::FromStr for DateTime {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(naive) = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%S") {
+        let naive = crate::parser::datatype::naive_date_time(s.strip_suffix('Z').unwrap_or(s))?;
+
+        if !s.ends_with('Z') {
             Ok(Self::Naive(naive))
         } else {
-            let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
-
             naive
                 .and_local_timezone(chrono::Local)
                 .earliest()
@@ -198,7 +198,7 @@ impl std::str::FromStr for Date {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(date) = chrono::NaiveDate::parse_from_str(s, "%Y%m%d") {
+        if let Ok(date) = crate::parser::datatype::naive_date(s) {
             return Ok(Self::Date(date));
         }
 
-- 
2.43.0


From 3dde7fd2e642681014622f0fa30d0984f78b14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 26/38] fix: return an error for a value followed by garbage

Only the start of durations, triggers, positions and rules was read: the rule
FREQ=DAILY;;COUNT=1 had no count.
---
 src/lib.rs                       | 6 ++++++
 src/parser/alarm.rs              | 6 +++---
 src/parser/datetime.rs           | 6 +++++-
 src/parser/descriptive.rs        | 9 +++++----
 src/parser/recurrence.rs         | 4 ++--
 src/properties/recur.rs          | 7 +++++--
 src/properties/request_status.rs | 6 +-----
 7 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e4bb2ac..c7e1b2e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -174,6 +174,12 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             .ok_or_else(|| crate::Error::ParseDuration(format!("Invalid duration: {value}")))?;
     }
 
+    if !interval.is_empty() {
+        return Err(crate::Error::ParseDuration(format!(
+            "Invalid duration: {value}"
+        )));
+    }
+
     if negative {
         duration = -duration;
     }
diff --git a/src/parser/alarm.rs b/src/parser/alarm.rs
index fe8f3cc..6baaee1 100644
--- a/src/parser/alarm.rs
+++ b/src/parser/alarm.rs
@@ -22,12 +22,12 @@ pub(crate) fn repeat(input: crate::ContentLine) -> crate::Result<u32> {
 pub(crate) fn trigger(input: crate::ContentLine) -> crate::Result<crate::Trigger> {
     use nom::Parser as _;
     use nom::branch::alt;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map};
 
-    alt((
+    all_consuming(alt((
         map(super::datatype::duration, crate::Trigger::Duration),
         map(super::datatype::date_time, crate::Trigger::DateTime),
-    ))
+    )))
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
diff --git a/src/parser/datetime.rs b/src/parser/datetime.rs
index 07566c5..fa39b79 100644
--- a/src/parser/datetime.rs
+++ b/src/parser/datetime.rs
@@ -42,7 +42,11 @@ pub(crate) fn dtstart(input: crate::ContentLine) -> crate::Result<crate::Date> {
  * See [3.8.2.5. Duration](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.2.5)
  */
 pub(crate) fn duration(input: crate::ContentLine) -> crate::Result<chrono::Duration> {
-    super::datatype::duration(&input.value)
+    use nom::Parser as _;
+    use nom::combinator::all_consuming;
+
+    all_consuming(super::datatype::duration)
+        .parse(&input.value)
         .map_err(crate::Error::from)
         .map(|(_, x)| x)
 }
diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index d5bb063..e45267e 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -43,13 +43,14 @@ pub(crate) fn description(input: crate::ContentLine) -> crate::Result<crate::Tex
 pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map};
     use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
-    map(separated_pair(float, char(';'), float), |(lat, lon)| {
-        crate::Geo { lat, lon }
-    })
+    all_consuming(map(
+        separated_pair(float, char(';'), float),
+        |(lat, lon)| crate::Geo { lat, lon },
+    ))
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 724d592..b1078b9 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -49,7 +49,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
     use nom::Parser as _;
     use nom::bytes::complete::take_till;
     use nom::character::complete::char;
-    use nom::combinator::{map_res, opt};
+    use nom::combinator::{all_consuming, map_res, opt};
     use nom::error::context;
     use nom::multi::many1;
     use nom::sequence::{separated_pair, terminated};
@@ -79,7 +79,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
 
     context(
         "rrule",
-        map_res(many1(item), |items| {
+        map_res(all_consuming(many1(item)), |items| {
             let map = items
                 .iter()
                 .map(|(k, v)| ((*k).to_string(), v))
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index a598334..6a3763a 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -1,4 +1,5 @@
 use chrono::Datelike as _;
+use nom::Parser as _;
 
 /**
  * See [3.3.10. Recurrence Rule](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.5.3)
@@ -226,7 +227,8 @@ impl std::str::FromStr for WeekdayNum {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekdaynum(s)
+        nom::combinator::all_consuming(crate::parser::weekdaynum)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
@@ -275,7 +277,8 @@ impl std::str::FromStr for Weekday {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekday(s)
+        nom::combinator::all_consuming(crate::parser::weekday)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
diff --git a/src/properties/request_status.rs b/src/properties/request_status.rs
index 0eae83f..851e4de 100644
--- a/src/properties/request_status.rs
+++ b/src/properties/request_status.rs
@@ -34,11 +34,7 @@ impl std::str::FromStr for RequestStatus {
 
 impl crate::ser::Serialize for RequestStatus {
     fn ical(&self) -> crate::Result<String> {
-        let mut s = format!(
-            "{:?};{}",
-            self.statcode,
-            crate::ser::escape(&self.statdesc)
-        );
+        let mut s = format!("{:?};{}", self.statcode, crate::ser::escape(&self.statdesc));
 
         if let Some(extdata) = &self.extdata {
             s.push(';');
-- 
2.43.0


From 0eef3936ac3c0b5878018618c9d07d3c4316e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 27/38] fix: return an error for a UTC offset followed by
 garbage

---
 src/parser/datatype.rs | 13 +++++++++++++
 src/parser/timezone.rs |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 7ba3e7e..1a7966e 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -208,3 +208,16 @@ pub(crate) fn text(input: crate::ContentLine) -> crate::Result<crate::Text> {
 pub(crate) fn uri(input: &str) -> crate::Result<String> {
     Ok(input.to_string())
 }
+
+/**
+ * See [3.3.14. UTC Offset](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.14)
+ */
+pub(crate) fn utc_offset(input: &str) -> crate::Result<chrono::FixedOffset> {
+    let digits = input.strip_prefix(['+', '-']).unwrap_or_default();
+
+    if !matches!(digits.len(), 4 | 6) || !digits.chars().all(super::is_digit) {
+        return Err(crate::Error::Parser(format!("Invalid UTC offset: {input}")));
+    }
+
+    input.parse().map_err(crate::Error::from)
+}
diff --git a/src/parser/timezone.rs b/src/parser/timezone.rs
index 3a6ce6b..9b264ba 100644
--- a/src/parser/timezone.rs
+++ b/src/parser/timezone.rs
@@ -22,14 +22,14 @@ pub(crate) fn tzname(input: crate::ContentLine) -> crate::Result<crate::Text> {
 pub(crate) fn tzoffsetfrom(
     input: crate::ContentLine,
 ) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    super::datatype::utc_offset(&input.value)
 }
 
 /**
  * See [3.8.3.4. Time Zone Offset To](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.3.4)
  */
 pub(crate) fn tzoffsetto(input: crate::ContentLine) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    super::datatype::utc_offset(&input.value)
 }
 
 /**
-- 
2.43.0


From 8ea0d51cbc8ebc115a29014fbd69e6d6e282ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 28/38] fix: read every line of a required property

---
 derive/src/component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 707971d..7bc70f0 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -107,7 +107,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             };
 
             new_body.push(new_part);
-            quote::quote! { () }
+            quote::quote! { component.#name = #parser_fn }
         };
 
         let from_part = quote::quote! {
-- 
2.43.0


From 1d69a37270c4bc095a50f9334bccd10dfe970286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 29/38] fix: convert a floating time to the earliest local
 instant

---
 src/properties/date.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index 05f9794..d61b39b 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -73,15 +73,26 @@ impl TryFrom<DateTime> for chrono::DateTime<chrono::Local> {
 
     fn try_from(value: DateTime) -> Result<Self, Self::Error> {
         match value {
-            DateTime::Naive(naive) => naive
-                .and_local_timezone(chrono::Local)
-                .earliest()
-                .ok_or(crate::Error::Local(value)),
+            DateTime::Naive(naive) => earliest_local(naive).ok_or(crate::Error::Local(value)),
             DateTime::Local(local) => Ok(local),
         }
     }
 }
 
+/**
+ * The first instant at which local clocks show this time, if any.
+ */
+fn earliest_local(naive: chrono::NaiveDateTime) -> Option<chrono::DateTime<chrono::Local>> {
+    let mapped = naive.and_local_timezone(chrono::Local);
+
+    [mapped.earliest(), mapped.latest()]
+        .into_iter()
+        .flatten()
+        .map(|date| date.to_utc().with_timezone(&chrono::Local))
+        .filter(|date| date.naive_local() == naive)
+        .min()
+}
+
 impl std::ops::Sub for DateTime {
     type Output = chrono::Duration;
 
@@ -119,9 +130,7 @@ impl std::str::FromStr for DateTime {
         if !s.ends_with('Z') {
             Ok(Self::Naive(naive))
         } else {
-            naive
-                .and_local_timezone(chrono::Local)
-                .earliest()
+            earliest_local(naive)
                 .map(Self::Local)
                 .ok_or(crate::Error::Local(naive.into()))
         }
-- 
2.43.0


From 02f2148c2cb058a0c3087f3b2c70cd05e686718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 30/38] fix: do not panic on a local time at the ends of the
 calendar

---
 src/properties/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index d61b39b..bfed334 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -89,7 +89,7 @@ fn earliest_local(naive: chrono::NaiveDateTime) -> Option<chrono::DateTime<chron
         .into_iter()
         .flatten()
         .map(|date| date.to_utc().with_timezone(&chrono::Local))
-        .filter(|date| date.naive_local() == naive)
+        .filter(|date| date.naive_utc().checked_add_offset(*date.offset()) == Some(naive))
         .min()
 }
 
-- 
2.43.0


From 6f8eccc056ce7d5681a547a6a214ad037901ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 31/38] fix: unfold in one pass

---
 src/parser/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index edd0b69..269303a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -117,7 +117,19 @@ fn params(input: &str) -> NomResult<&str, BTreeMap<String, String>> {
  * Long lines are folded with a space or a tab.
  */
 pub(crate) fn unfold(input: &str) -> String {
-    input.replace("\r\n ", "").replace("\r\n\t", "")
+    let mut lines = input.split("\r\n");
+    let mut unfolded = lines.next().unwrap_or_default().to_string();
+
+    for line in lines {
+        if let Some(continuation) = line.strip_prefix([' ', '\t']) {
+            unfolded.push_str(continuation);
+        } else {
+            unfolded.push_str("\r\n");
+            unfolded.push_str(line);
+        }
+    }
+
+    unfolded
 }
 
 /**
-- 
2.43.0


From 1e66d3d50a1d57d6a359c26a71c65cc7f5c6c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 32/38] fix: compare dates and date-times in one order

Sorting dates with date-times, or floating and UTC date-times, panicked: days
were compared with times as days, and clocks that are set back show the same times
twice.
---
 src/properties/date.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index bfed334..06c84f1 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -146,12 +146,35 @@ impl std::cmp::PartialOrd for DateTime {
 impl std::cmp::Ord for DateTime {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         match (self, other) {
+            (Self::Naive(a), Self::Naive(b)) => a.cmp(b),
+            (Self::Naive(a), Self::Local(b)) => cmp_local(*a, b),
+            (Self::Local(a), Self::Naive(b)) => cmp_local(*b, a).reverse(),
             (Self::Local(a), Self::Local(b)) => a.cmp(b),
-            _ => self.naive().cmp(&other.naive()),
         }
     }
 }
 
+/**
+ * Compares the first instant at which local clocks show this time, or a later one, to another.
+ *
+ * Clocks that are set back show the same times twice: to compare these times would not be an order.
+ */
+fn cmp_local(
+    naive: chrono::NaiveDateTime,
+    local: &chrono::DateTime<chrono::Local>,
+) -> std::cmp::Ordering {
+    let local = local.to_utc().with_timezone(&chrono::Local);
+    let shown = local
+        .naive_utc()
+        .checked_add_offset(*local.offset())
+        .unwrap_or(local.naive_utc());
+
+    match naive.cmp(&shown) {
+        std::cmp::Ordering::Less => std::cmp::Ordering::Less,
+        ordering => earliest_local(naive).map_or(ordering, |x| x.cmp(&local)),
+    }
+}
+
 impl std::ops::Add<chrono::TimeDelta> for DateTime {
     type Output = Self;
 
@@ -267,9 +290,7 @@ impl std::cmp::Ord for Date {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         match (self, other) {
             (Self::Date(a), Self::Date(b)) => a.cmp(b),
-            (Self::DateTime(a), Self::DateTime(b)) => a.cmp(b),
-            (Self::Date(a), Self::DateTime(b)) => a.cmp(&b.date_naive()),
-            (Self::DateTime(a), Self::Date(b)) => a.date_naive().cmp(b),
+            _ => DateTime::from(*self).cmp(&DateTime::from(*other)),
         }
     }
 }
-- 
2.43.0


From 300d2910dbbf2caa89f2055855ff7a6d45f9a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 33/38] fix: do not join the numbers around the T of a duration

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7e1b2e..0b9e717 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -142,7 +142,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
     };
 
     loop {
-        if it.next_if(|x| *x == 'T').is_some() {
+        if interval.is_empty() && it.next_if(|x| *x == 'T').is_some() {
             time = true;
             continue;
         }
-- 
2.43.0


From bd7ebff1510e17d4930c64a943ab9657f7c7b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 34/38] fix: return an error for a number that is not finite

---
 src/parser/datatype.rs    | 13 ++++++++++++-
 src/parser/descriptive.rs |  3 +--
 src/parser/misc.rs        |  3 +--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 1a7966e..9c3ba2a 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,7 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_opt, map_res, opt};
+use nom::combinator::{map, map_opt, map_res, opt, verify};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -170,6 +170,17 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
     .parse(input)
 }
 
+/**
+ * See [3.3.7. Float](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.7)
+ */
+pub(crate) fn float(input: &str) -> super::NomResult<&str, f32> {
+    context(
+        "float",
+        verify(nom::number::complete::float, |x: &f32| x.is_finite()),
+    )
+    .parse(input)
+}
+
 /**
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index e45267e..fe5e789 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -44,11 +44,10 @@ pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
     use nom::combinator::{all_consuming, map};
-    use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
     all_consuming(map(
-        separated_pair(float, char(';'), float),
+        separated_pair(super::datatype::float, char(';'), super::datatype::float),
         |(lat, lon)| crate::Geo { lat, lon },
     ))
     .parse(input.value.as_str())
diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index b7b141a..b4185e4 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -11,7 +11,6 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::character::complete::char;
     use nom::combinator::{map, opt};
     use nom::error::context;
-    use nom::number::complete::float;
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
@@ -28,7 +27,7 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
         "rstatus",
         map(
             (
-                float,
+                super::datatype::float,
                 char(';'),
                 map(text, String::from),
                 opt(preceded(char(';'), map(end, String::from))),
-- 
2.43.0


From 004e0507ae831e6dd78b7ea21cc784f5c8ef9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 35/38] fix: read the plus sign of a duration

---
 src/lib.rs             |  4 ++--
 src/parser/datatype.rs | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0b9e717..8c03e17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -131,8 +131,8 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
     let mut time = false;
     let mut interval = String::new();
 
-    if it.next_if(|x| *x == '-').is_some() {
-        negative = true;
+    if let Some(sign) = it.next_if(|x| matches!(x, '+' | '-')) {
+        negative = sign == '-';
     }
 
     if it.next_if(|x| *x == 'P').is_none() {
diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 9c3ba2a..afbd89e 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,6 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
+use nom::character::complete::one_of;
 use nom::combinator::{map, map_opt, map_res, opt, verify};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
@@ -149,10 +150,10 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
         "duration",
         map_opt(
             pair(
-                opt(tag("-")),
+                opt(one_of("+-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
-            |(neg, (w, d, t))| {
+            |(sign, (w, d, t))| {
                 let mut duration = chrono::Duration::try_weeks(w.unwrap_or_default())?
                     .checked_add(&chrono::Duration::try_days(d.unwrap_or_default())?)?;
 
@@ -163,7 +164,11 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
                         .checked_add(&chrono::Duration::try_seconds(s)?)?;
                 }
 
-                Some(if neg.is_some() { -duration } else { duration })
+                Some(if sign == Some('-') {
+                    -duration
+                } else {
+                    duration
+                })
             },
         ),
     )
@@ -191,7 +196,7 @@ pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
 
     let start = date_time(start)?.1;
 
-    let period = if end.starts_with('P') {
+    let period = if end.starts_with(['P', '+']) {
         crate::Period::StartDur(crate::period::StartDur {
             start,
             duration: super::duration(end.into())?,
-- 
2.43.0


From e192254d41fb51d0c783ccb1c5202c84d0ba72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 36/38] fix: order starts and durations of periods by their
 instants

---
 src/properties/period.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/properties/period.rs b/src/properties/period.rs
index 2e2f97c..a0d507c 100644
--- a/src/properties/period.rs
+++ b/src/properties/period.rs
@@ -116,10 +116,15 @@ impl std::cmp::Ord for StartDur {
                 chrono::NaiveDateTime::MIN
             };
 
-            x.start
-                .naive()
-                .checked_sub_signed(x.duration)
-                .unwrap_or(overflow)
+            match x.start {
+                crate::DateTime::Naive(start) => {
+                    start.checked_sub_signed(x.duration).map(Into::into)
+                }
+                crate::DateTime::Local(start) => {
+                    start.checked_sub_signed(x.duration).map(Into::into)
+                }
+            }
+            .unwrap_or(crate::DateTime::Naive(overflow))
         };
 
         key(self).cmp(&key(other))
-- 
2.43.0


From bc4232384e74e127f1058b74546b74a460a2c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 37/38] fix: read dates of recurrences given to builder macros
 as texts

---
 src/properties/rdate.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index e27dbd7..1dfbad9 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -17,6 +17,24 @@ impl RDate {
     }
 }
 
+impl std::str::FromStr for RDate {
+    type Err = crate::Error;
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        if s.contains('/') {
+            s.split(',')
+                .map(str::parse)
+                .collect::<Result<_, _>>()
+                .map(Self::Period)
+        } else {
+            s.split(',')
+                .map(str::parse)
+                .collect::<Result<_, _>>()
+                .map(Self::Date)
+        }
+    }
+}
+
 impl std::fmt::Display for RDate {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let s = match self {
-- 
2.43.0


From bc5341b8759f09b315b052d656c59d363bc9aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 38/38] fix: accept values that are not simple expressions in
 builder macros

---
 derive/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 327d4c6..e90bc67 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -181,10 +181,10 @@ impl quote::ToTokens for TypedValue {
                         let ikal = ikal();
                         quote::quote! { #ikal::parse_duration(#v)? }
                     } else {
-                        quote::quote! { #v.parse()? }
+                        quote::quote! { (#v).parse()? }
                     }
                 } else if Type::should_convert(&self.0, &self.1) {
-                    quote::quote! { #v.into() }
+                    quote::quote! { (#v).into() }
                 } else {
                     v.to_token_stream()
                 };
-- 
2.43.0

