From 49b2f1662a46e76ebe90dc4f768e5da779c645d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 01/19] fix: unescape TEXT values in a single pass

Consecutive replacements decoded `\\\\n` (a backslash followed by an n) as a newline.
---
 src/parser/parsed_string.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..24ae874 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -43,14 +43,21 @@ impl<'a> ParseString<'a> {
             || self.0.contains(r#"\N"#)
             || self.0.contains(r#"\n"#)
         {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
+            // a single pass, so that the result of one replacement never becomes part of the next
+            let mut unescaped = String::with_capacity(self.0.len());
+            let mut chars = self.0.chars();
+            while let Some(c) = chars.next() {
+                match (c, chars.as_str().chars().next()) {
+                    ('\\', Some(escaped @ ('\\' | ',' | ';' | ':'))) => unescaped.push(escaped),
+                    ('\\', Some('N' | 'n')) => unescaped.push('\n'),
+                    _ => {
+                        unescaped.push(c);
+                        continue;
+                    }
+                }
+                chars.next();
+            }
+            unescaped.into()
         } else {
             self
         }
-- 
2.43.0


From 23a25e326fb02d732e188cbbbdd2121619699e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 02/19] fix: fold_line always makes progress

The whitespace look-behind used a byte offset as a character index, so lines with
multi-byte characters could be folded without end.
---
 src/properties.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..621b369 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -395,19 +395,14 @@ pub(crate) fn fold_line(line: &str) -> String {
     let mut next_pos = LIMIT;
 
     while bytes_remaining > LIMIT {
-        let pos_is_whitespace = |line: &str, next_pos| {
-            line.chars()
-                .nth(next_pos)
-                .map(char::is_whitespace)
-                .unwrap_or(false)
-        };
-        if pos_is_whitespace(line, next_pos) {
+        let pos_is_whitespace =
+            |line: &str, next_pos: usize| line[next_pos..].starts_with(char::is_whitespace);
+        while !line.is_char_boundary(next_pos) {
             next_pos -= 1;
         }
-
-        while !line.is_char_boundary(next_pos) {
+        if pos_is_whitespace(line, next_pos) {
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
+            while !line.is_char_boundary(next_pos) {
                 next_pos -= 1;
             }
         }
-- 
2.43.0


From 88773cee7695acd21c85813098c6aaa81aeb775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 03/19] fix: property values end at the next line ending of
 either kind

When LF and CRLF line endings were mixed a value reached up to the next CRLF, past all LFs.
---
 src/parser/properties.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..93ebea5 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_until, take_while},
+    bytes::complete::tag,
     character::complete::{line_ending, multispace0},
     combinator::{cut, opt},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
@@ -366,6 +366,21 @@ fn determin_value_type(name: &ParseString, params: &[Parameter]) -> Option<Value
         .or_else(|| ValueType::by_name(name.as_str()))
 }
 
+/// Takes everything up to the next line ending, be it `\r\n` or `\n`.
+///
+/// Takes all of the input if there is none,
+/// this is for single line prop parsing, just so I can leave off the '\n'
+fn until_line_ending<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
+    input: &'a str,
+) -> IResult<&'a str, &'a str, E> {
+    let value = match input.split_once('\n') {
+        Some((line, _)) => line.strip_suffix('\r').unwrap_or(line),
+        None => input,
+    };
+    let (value, rest) = input.split_at(value.len());
+    Ok((rest, value))
+}
+
 pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Property<'a>, E> {
@@ -387,13 +402,7 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                     context("property separator", tag(":")), // separator
                     context(
                         "property value",
-                        alt((
-                            take_until("\r\n"),
-                            take_until("\n"),
-                            // this is for single line prop parsing, just so I can leave off the '\n'
-                            take_while(|_| true),
-                        ))
-                        .map(ParseString::from),
+                        until_line_ending.map(ParseString::from),
                     ),
                 ),
                 context(
-- 
2.43.0


From 55567a32859f81637ccb602e8010f538c1b04b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 04/19] fix: read all root components

Demanding that the first root consumes all of the input made a document with more than one root look empty.
---
 src/parser/components.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..b1168f4 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,7 +4,7 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    combinator::{complete, cut},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     Finish, IResult, Parser,
@@ -515,5 +515,5 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    complete(many0(component))(input)
 }
-- 
2.43.0


From 30120e9ed13d06da9fda4cd7127efb1357d5bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 05/19] fix: parse signed durations

Triggers before the start or end of an event could be written, but not read.
---
 src/components/date_time.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..0b28aee 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,14 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
+    let (is_negative, s) = match s.strip_prefix('-') {
+        Some(unsigned) => (true, unsigned),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
     iso8601::duration(s)
         .ok()
         .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .map(|duration| if is_negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From cf4f252ea390bed84e38c0f9d2abfda880fb4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 06/19] fix: get_timezone reads the TIMEZONE-ID property that
 timezone() writes

---
 src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e1aa9af 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,9 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From ac5204d071f850f737e04803bfd647bfd7562283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 07/19] fix: the last-modified property is called LAST-MODIFIED

---
 src/components.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..0de7e77 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -283,16 +283,16 @@ pub trait Component {
         self.property_value("URL")
     }
 
-    /// Set the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
+    /// Set the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
-    /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
+    /// Gets the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        parse_utc_date_time(self.property_value("LAST-MODIFIED")?)
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From 1ecc3bc74a3656b0d9291639f3fdebfe8f52324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 08/19] fix: keep the TZID of an absolute alarm trigger

---
 src/components/alarm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
-- 
2.43.0


From 7eaf64a1e7a4868304b06855aa75bd3d6e9e5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 09/19] fix: treat the textual calendar and venue properties as
 TEXT

Their values were written unescaped, a line break in one of them broke the content line apart.
---
 src/value_types.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/value_types.rs b/src/value_types.rs
index 2cad232..fc96e69 100644
--- a/src/value_types.rs
+++ b/src/value_types.rs
@@ -49,6 +49,13 @@ impl ValueType {
             "PRODID" => Some(Text),   // 3.7.3
             "VERSION" => Some(Text),  //3.7.4
 
+            // RFC 7986 and de-facto calendar properties
+            "NAME" => Some(Text),
+            "X-WR-CALNAME" => Some(Text),
+            "X-WR-CALDESC" => Some(Text),
+            "TIMEZONE-ID" => Some(Text),
+            "X-WR-TIMEZONE" => Some(Text),
+
             // 3.8.0 component properties
             "ATTACH" => Some(Uri),               // or BINARY // 3.8.1.1
             "CATEGORIES" => Some(Text),          // 3.8.1.2
@@ -95,6 +102,14 @@ impl ValueType {
             // "An IANA-registered property name" => Any parameter can be specified on this property.
             // "X-"/* ... */ => Some(Text),       // any type 3.8.8.2
             "REQUEST-STATUS" => Some(Text), // 3.8.8.3
+
+            // VVENUE properties
+            "STREET-ADDRESS" => Some(Text),
+            "EXTENDED-ADDRESS" => Some(Text),
+            "LOCALITY" => Some(Text),
+            "REGION" => Some(Text),
+            "COUNTRY" => Some(Text),
+            "POSTAL-CODE" => Some(Text),
             _ => None,
         }
     }
-- 
2.43.0


From c9cb516ca269a771c5802305ae23cc63c1fef4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 10/19] fix: escape TEXT values and quote parameters when
 reserializing parsed properties

The parsed form holds them unescaped and unquoted, so writing them as they are does not yield the same property.
---
 src/parser/properties.rs | 18 ++++++++++++++++--
 src/properties.rs        |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 93ebea5..7bf7ed5 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -69,16 +69,30 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                let val = crate::Property::quote_if_contains_colon(val.as_str());
+                write!(line, ";{}={}", key.as_str(), val)?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            Some(ValueType::Text) => write!(line, ":{}", self.escaped_val())?,
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
 
+    /// the inverse of what happens to TEXT values while parsing
+    fn escaped_val(&self) -> String {
+        let escaped = crate::Property::escape_text(self.val.as_str());
+        match self.name.as_str() {
+            // these are lists, their commas separate values
+            "CATEGORIES" | "RESOURCES" => escaped.replace(r#"\,"#, ","),
+            _ => escaped,
+        }
+    }
+
     pub(crate) fn is_multi_property(&self) -> bool {
         MULTIS.contains(&self.name.as_str())
     }
diff --git a/src/properties.rs b/src/properties.rs
index 621b369..ae4662b 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
-- 
2.43.0


From 1113add789d126306c3ebfe72913f003634fddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 11/19] fix: keep all RELATED-TO and REQUEST-STATUS properties

Only the last one of them survived the conversion from the parsed component.
---
 src/parser/properties.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 7bf7ed5..1359127 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -26,7 +26,7 @@ use nom::error::ErrorKind;
 /// [RFC-5545](https://datatracker.ietf.org/doc/html/rfc5545) states that the following
 /// "MAY occur more than once" in a VEVENT, VTODO, VJOURNAL, and VFREEBUSY.
 /// Note: A VJOURNAL can also contain multiple DECRIPTION but this is not covered here.
-const MULTIS: [&str; 13] = [
+const MULTIS: [&str; 15] = [
     "ATTACH",
     "ATTENDEE",
     "CATEGORIES",
@@ -37,6 +37,8 @@ const MULTIS: [&str; 13] = [
     "IANA-PROP",
     "RDATE",
     "RELATED",
+    "RELATED-TO",
+    "REQUEST-STATUS",
     "RESOURCES",
     "RSTATUS",
     "X-PROP",
-- 
2.43.0


From 7603e4a38ae507db1ff0e9a72337f8ef4c011e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 12/19] fix: an END only closes the component of exactly that
 name

A name that merely begins with the right one was accepted, and the rest of it read as another property.
---
 src/parser/components.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index b1168f4..96909b8 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,10 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{complete, cut},
+    combinator::{complete, cut, not, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::terminated,
     Finish, IResult, Parser,
 };
 
@@ -20,7 +21,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{line, line_separated, valid_key_sequence, valid_key_sequence_cow},
     Property,
 };
 
@@ -257,7 +258,17 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-        line("END:", cut(context("mismatching end", tag(name.as_str())))),
+        line(
+            "END:",
+            cut(context(
+                "mismatching end",
+                terminated(
+                    tag(name.as_str()),
+                    // the name must not merely begin with the right one
+                    not(verify(valid_key_sequence, |rest: &str| !rest.is_empty())),
+                ),
+            )),
+        ),
     )
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
-- 
2.43.0


From cbf6fc1e48b1fbf670b3f1d1e7595ee89c40c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 13/19] fix: keep the last folded line within 75 octets

---
 src/properties.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index ae4662b..72e8f01 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -393,8 +393,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
     let mut pos = 0;
     let mut next_pos = LIMIT;
+    let mut limit = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while bytes_remaining > limit {
         let pos_is_whitespace =
             |line: &str, next_pos: usize| line[next_pos..].starts_with(char::is_whitespace);
         while !line.is_char_boundary(next_pos) {
@@ -411,7 +412,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         bytes_remaining -= next_pos - pos;
         pos = next_pos;
-        next_pos += LIMIT - 1;
+        // continuation lines start with a space
+        limit = LIMIT - 1;
+        next_pos += limit;
     }
 
     ret.push_str(&line[len - bytes_remaining..]);
-- 
2.43.0


From 835fb06aeae457c56ea311ca685f40e12f25db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 14/19] fix: a parsed component named CALENDAR is written back
 as it was read

LikeComponent::fmt_write made up DTSTAMP and UID properties for components
whose name is some spelling of "calendar", which no other writer does and
which made reserialization differ from what had been parsed.
---
 src/parser/components.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 96909b8..0140ebd 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,6 +1,5 @@
 use std::{fmt, str::FromStr};
 
-use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
@@ -13,7 +12,6 @@ use nom::{
 
 #[cfg(test)]
 use nom::error::ErrorKind;
-use uuid::Uuid;
 
 #[cfg(test)]
 use super::parameters::Parameter;
@@ -30,7 +28,7 @@ use pretty_assertions::assert_eq;
 
 use crate::{
     calendar::CalendarComponent,
-    components::{date_time::format_utc_date_time, InnerComponent, Other},
+    components::{InnerComponent, Other},
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -70,24 +68,6 @@ pub(crate) trait LikeComponent<'a> {
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
         write_crlf!(out, "BEGIN:{}", self.name())?;
 
-        if self.name().to_lowercase() == "calendar" {
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "DTSTAMP")
-            {
-                let now = Utc::now();
-                write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
-            }
-
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "UID")
-            {
-                write_crlf!(out, "UID:{}", Uuid::new_v4())?;
-            }
-        }
         for property in self.properties() {
             property.fmt_write(out)?;
         }
-- 
2.43.0


From 107806a210401691f4e8073904d43a43b83cddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 15/19] fix: converting parsed root components keeps the
 calendar's properties

Calendar::from(Vec<parser::Component>) took the sub-components of a
VCALENDAR root but replaced its properties by the default ones, unlike
Calendar::from(parser::Calendar) and Calendar::from_str.
---
 src/parser/calendar.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parser/calendar.rs b/src/parser/calendar.rs
index 218a8a8..ba27fe9 100644
--- a/src/parser/calendar.rs
+++ b/src/parser/calendar.rs
@@ -76,11 +76,19 @@ impl<'a> From<Vec<Component<'a>>> for crate::Calendar {
             .map(|first_root| first_root.name == "VCALENDAR")
             .unwrap_or(false);
 
-        let components: Vec<Component<'a>> = if root_is_calendar {
-            components.swap_remove(0).components
-        } else {
-            components
-        };
+        if root_is_calendar {
+            let Component {
+                properties,
+                components,
+                ..
+            } = components.swap_remove(0);
+            return Calendar {
+                properties,
+                components,
+            }
+            .into();
+        }
+
         components
             .into_iter()
             .map(|c: Component<'a>| {
-- 
2.43.0


From 0e0190e898036089d0c178525828e4fb8b89ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 16/19] fix: a deeply nested document is an error instead of a
 stack overflow

Reading, converting, writing and dropping components recurse once per level,
so some thousand nested BEGIN lines (a document of 40 kB) aborted the process,
and the error report for an unclosed one took time quadratic in its depth.
Components may now be nested 128 deep, which is what serde_json allows, too.
---
 src/parser/components.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 0140ebd..96e98eb 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{complete, cut, not, verify},
+    combinator::{complete, cut, fail, not, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::terminated,
@@ -225,16 +225,30 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
         .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
 }
 
+/// Components nested deeper than this are an error, they would exhaust the stack
+const MAX_DEPTH: usize = 128;
+
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
+) -> IResult<&'a str, Component<'a>, E> {
+    nested_component(input, 1)
+}
+
+fn nested_component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
+    input: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, Component<'a>, E> {
     let (input, name) = line("BEGIN:", valid_key_sequence_cow)(input)?;
+    if depth > MAX_DEPTH {
+        return cut(context("components nested too deeply", fail)).parse(input);
+    }
 
     let (input, (properties, components)) = many_till(
         cut(context(
             "component",
             alt((
-                line_separated(component).map(ComponentChild::Component),
+                line_separated(|input| nested_component(input, depth + 1))
+                    .map(ComponentChild::Component),
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-- 
2.43.0


From dfdb9520b1d3285b4e2f288b6a8bbd837b25de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 17/19] fix: setting a calendar's name, description, time zone
 or TTL again replaces it

The setters appended, the getters read the first: a calendar that had a name
(one that has been parsed, say) kept it and was written with both.
---
 src/calendar.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index e1aa9af..6ac19fe 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -117,6 +117,12 @@ impl Calendar {
         self
     }
 
+    /// Replaces all properties of the same name.
+    fn set_property(&mut self, property: Property) {
+        self.properties.retain(|p| p.key() != property.key());
+        self.append_property(property);
+    }
+
     /// Gets the value of a property.
     pub fn property_value(&self, key: &str) -> Option<&str> {
         Some(
@@ -145,8 +151,8 @@ impl Calendar {
     /// Set the `NAME` and `X-WR-CALNAME` `Property`s
     // TODO: where is `NAME` specified? it's not in rfc5545 or rfc2445
     pub fn name(&mut self, name: &str) -> &mut Self {
-        self.append_property(Property::new("NAME", name));
-        self.append_property(Property::new("X-WR-CALNAME", name));
+        self.set_property(Property::new("NAME", name));
+        self.set_property(Property::new("X-WR-CALNAME", name));
         self
     }
 
@@ -158,8 +164,8 @@ impl Calendar {
 
     /// Set the [`DESCRIPTION`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.5) and `X-WR-CALDESC` `Property`s
     pub fn description(&mut self, description: &str) -> &mut Self {
-        self.append_property(Property::new("DESCRIPTION", description));
-        self.append_property(Property::new("X-WR-CALDESC", description));
+        self.set_property(Property::new("DESCRIPTION", description));
+        self.set_property(Property::new("X-WR-CALDESC", description));
         self
     }
 
@@ -172,8 +178,8 @@ impl Calendar {
     /// Set the `TIMEZONE-ID` and `X-WR-TIMEZONE` `Property`s
     // TODO: where is `TIMEZONE-ID` specified? it's not in rfc5545 or rfc2445
     pub fn timezone(&mut self, timezone: &str) -> &mut Self {
-        self.append_property(Property::new("TIMEZONE-ID", timezone));
-        self.append_property(Property::new("X-WR-TIMEZONE", timezone));
+        self.set_property(Property::new("TIMEZONE-ID", timezone));
+        self.set_property(Property::new("X-WR-TIMEZONE", timezone));
         self
     }
 
@@ -186,12 +192,12 @@ impl Calendar {
     /// Set the `REFRESH-INTERVAL` and `X-PUBLISHED-TTL` `Property`s
     pub fn ttl(&mut self, duration: &Duration) -> &mut Self {
         let duration_string = duration.to_string();
-        self.append_property(
+        self.set_property(
             Property::new("REFRESH-INTERVAL", &duration_string)
                 .append_parameter(Parameter::new("VALUE", "DURATION"))
                 .done(),
         );
-        self.append_property(Property::new("X-PUBLISHED-TTL", &duration_string));
+        self.set_property(Property::new("X-PUBLISHED-TTL", &duration_string));
         self
     }
 
-- 
2.43.0


From 7ee2ff3ffb734bf3c03393dc067111d3eaa5c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 18/19] fix: read lists of quoted parameter values and empty
 quoted ones

A document with MEMBER="mailto:a","mailto:b" could not be read at all, and of
CN="" the quotes were taken for the value. A list is kept as it is written, so
it must not be quoted again.
---
 src/parser/parameters.rs | 41 ++++++++++++++++++++++++----------------
 src/properties.rs        |  2 +-
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index efe1f45..8526944 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -1,11 +1,11 @@
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, take_till1},
+    bytes::complete::{tag, take_till},
     character::complete::space0,
-    combinator::{eof, opt},
+    combinator::{eof, not, opt, recognize},
     error::{convert_error, ContextError, ParseError, VerboseError},
-    multi::many0,
-    sequence::{delimited, preceded, separated_pair, tuple},
+    multi::{many0, separated_list1},
+    sequence::{delimited, preceded, separated_pair, terminated, tuple},
     Finish, IResult, Parser,
 };
 
@@ -133,6 +133,25 @@ fn parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     alt((pair_parameter, base_parameter))(input)
 }
 
+/// A quoted value comes without its quotes, a list of which any is quoted as it is
+fn parameter_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
+    input: &'a str,
+) -> IResult<&'a str, &'a str, E> {
+    alt((
+        terminated(
+            delimited(tag("\""), take_till(|x| x == '"'), tag("\"")),
+            not(tag(",")),
+        ),
+        recognize(separated_list1(
+            tag(","),
+            alt((
+                recognize(tuple((tag("\""), take_till(|x| x == '"'), tag("\"")))),
+                take_till(|x| x == ';' || x == ':' || x == ','),
+            )),
+        )),
+    ))(input)
+}
+
 fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Parameter<'a>, E> {
@@ -141,12 +160,7 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
         separated_pair(
             valid_key_sequence_cow, //key
             tag("="),
-            opt(alt((
-                eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
-            )))
-            .map(remove_empty_string),
+            opt(alt((eof, parameter_value))).map(remove_empty_string),
         ),
     )
     .map(|(key, val)| Parameter {
@@ -166,12 +180,7 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
         ),
         opt(preceded(
             tag("="),
-            alt((
-                eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
-            ))
-            .map(ParseString::from),
+            alt((eof, parameter_value)).map(ParseString::from),
         ))
         .map(remove_empty_string_parsed),
     ))
diff --git a/src/properties.rs b/src/properties.rs
index 72e8f01..f45d432 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -163,7 +163,7 @@ impl Property {
     }
 
     pub(crate) fn quote_if_contains_colon(input: &str) -> String {
-        if input.contains([':', ';']) {
+        if input.contains([':', ';']) && !input.contains('"') {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
             quoted.push_str(input);
-- 
2.43.0


From 68505ec818d81cfb0ca434d39ae6607f95cf4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 19/19] fix: keep CATEGORIES and RESOURCES lists when writing a
 component

CATEGORIES:A,B was read and then written as CATEGORIES:A\,B, one category;
the parser's own writer had this right.
---
 src/parser/properties.rs | 15 ++++-----------
 src/properties.rs        | 12 +++++++++++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 1359127..105f393 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -78,23 +78,16 @@ impl Property<'_> {
             }
         }
         match determin_value_type(&self.name, &self.params) {
-            Some(ValueType::Text) => write!(line, ":{}", self.escaped_val())?,
+            Some(ValueType::Text) => {
+                let val = crate::Property::escape_value(self.name.as_str(), self.val.as_str());
+                write!(line, ":{}", val)?
+            }
             _ => write!(line, ":{}", self.val.as_str())?,
         }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
 
-    /// the inverse of what happens to TEXT values while parsing
-    fn escaped_val(&self) -> String {
-        let escaped = crate::Property::escape_text(self.val.as_str());
-        match self.name.as_str() {
-            // these are lists, their commas separate values
-            "CATEGORIES" | "RESOURCES" => escaped.replace(r#"\,"#, ","),
-            _ => escaped,
-        }
-    }
-
     pub(crate) fn is_multi_property(&self) -> bool {
         MULTIS.contains(&self.name.as_str())
     }
diff --git a/src/properties.rs b/src/properties.rs
index f45d432..6754670 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -162,6 +162,16 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
+    /// the inverse of what happens to TEXT values while parsing
+    pub(crate) fn escape_value(name: &str, val: &str) -> String {
+        let escaped = Self::escape_text(val);
+        match name {
+            // these are lists, their commas separate values
+            "CATEGORIES" | "RESOURCES" => escaped.replace(r#"\,"#, ","),
+            _ => escaped,
+        }
+    }
+
     pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) && !input.contains('"') {
             let mut quoted = String::with_capacity(input.len() + 2);
@@ -185,7 +195,7 @@ impl Property {
         }
         let value_type = self.value_type();
         match value_type {
-            Some(ValueType::Text) => write!(line, ":{}", Self::escape_text(&self.val))?,
+            Some(ValueType::Text) => write!(line, ":{}", Self::escape_value(&self.key, &self.val))?,
             _ => write!(line, ":{}", self.val)?,
         }
         write_crlf!(out, "{}", fold_line(&line))?;
-- 
2.43.0

