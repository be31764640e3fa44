From 0af291305f52d28fa2257260a1ed2ea410012e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:19 +0000
Subject: [PATCH 01/41] fix: match the whole national number against a
 descriptor's pattern

A descriptor matched any number that merely started with its pattern, so
numbers with trailing digits were reported as valid (issue #31).
---
 src/metadata/database.rs   | 3 ++-
 src/metadata/descriptor.rs | 5 +----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..fde92d6 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -72,6 +72,7 @@ impl Database {
                 desc.national_number.as_ref().unwrap();
 
                 Ok(super::Descriptor {
+                    // The pattern describes the whole national number.
                     national_number: desc
                         .national_number
                         .ok_or_else(|| {
@@ -80,7 +81,7 @@ impl Database {
                                 name: "national_number".into(),
                             })
                         })
-                        .and_then(regex)?,
+                        .and_then(|pattern| regex(format!("^(?:{pattern})$")))?,
 
                     possible_length: desc.possible_length,
                     possible_local_length: desc.possible_local_length,
diff --git a/src/metadata/descriptor.rs b/src/metadata/descriptor.rs
index ce6b7d7..e5b1390 100644
--- a/src/metadata/descriptor.rs
+++ b/src/metadata/descriptor.rs
@@ -77,9 +77,6 @@ impl Descriptor {
             return false;
         }
 
-        self.national_number
-            .find(value)
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
+        self.national_number.is_match(value)
     }
 }
-- 
2.43.0


From 329ac14b7437ee275aa3e2fd72f239b92ad29209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 02/41] fix: know the possible lengths of a region's numbers

The general description lists no lengths in the XML, and the length check
used the wrong list, so no length was ever possible: the country code was
stripped from national numbers starting with its digits (IN 9123456789).
---
 src/metadata/database.rs | 155 ++++++++++++++++++++++++---------------
 src/validator.rs         |   4 +-
 2 files changed, 97 insertions(+), 62 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index fde92d6..32da2ef 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -121,70 +121,105 @@ impl Database {
             })
         };
 
-        let metadata = |meta: loader::Metadata| -> Result<super::Metadata, error::LoadMetadata> {
-            Ok(super::Metadata {
-                descriptors: super::Descriptors {
-                    general: descriptor(meta.general.ok_or_else(|| {
+        let metadata =
+            |mut meta: loader::Metadata| -> Result<super::Metadata, error::LoadMetadata> {
+                // The lengths are only listed for the specific types, the general
+                // description is possible for any of them.
+                let mut lengths = [
+                    &meta.fixed_line,
+                    &meta.mobile,
+                    &meta.toll_free,
+                    &meta.premium_rate,
+                    &meta.shared_cost,
+                    &meta.personal_number,
+                    &meta.voip,
+                    &meta.pager,
+                    &meta.uan,
+                    &meta.emergency,
+                    &meta.voicemail,
+                    &meta.short_code,
+                    &meta.standard_rate,
+                    &meta.carrier,
+                ]
+                .into_iter()
+                .flatten()
+                .flat_map(|desc| desc.possible_length.iter().copied())
+                .collect::<Vec<_>>();
+
+                lengths.sort_unstable();
+                lengths.dedup();
+
+                if let Some(general) = meta.general.as_mut()
+                    && general.possible_length.is_empty()
+                {
+                    general.possible_length = lengths;
+                }
+
+                Ok(super::Metadata {
+                    descriptors: super::Descriptors {
+                        general: descriptor(meta.general.ok_or_else(|| {
+                            error::LoadMetadata::from(error::Metadata::MissingValue {
+                                phase: "metadata".into(),
+                                name: "generalDesc".into(),
+                            })
+                        })?)?,
+
+                        fixed_line: tranpose(meta.fixed_line.map(descriptor))?,
+                        mobile: tranpose(meta.mobile.map(descriptor))?,
+                        toll_free: tranpose(meta.toll_free.map(descriptor))?,
+                        premium_rate: tranpose(meta.premium_rate.map(descriptor))?,
+                        shared_cost: tranpose(meta.shared_cost.map(descriptor))?,
+                        personal_number: tranpose(meta.personal_number.map(descriptor))?,
+                        voip: tranpose(meta.voip.map(descriptor))?,
+                        pager: tranpose(meta.pager.map(descriptor))?,
+                        uan: tranpose(meta.uan.map(descriptor))?,
+                        emergency: tranpose(meta.emergency.map(descriptor))?,
+                        voicemail: tranpose(meta.voicemail.map(descriptor))?,
+                        short_code: tranpose(meta.short_code.map(descriptor))?,
+                        standard_rate: tranpose(meta.standard_rate.map(descriptor))?,
+                        carrier: tranpose(meta.carrier.map(descriptor))?,
+                        no_international: tranpose(meta.no_international.map(descriptor))?,
+                    },
+
+                    id: meta.id.ok_or_else(|| {
                         error::LoadMetadata::from(error::Metadata::MissingValue {
                             phase: "metadata".into(),
-                            name: "generalDesc".into(),
+                            name: "id".into(),
                         })
-                    })?)?,
-
-                    fixed_line: tranpose(meta.fixed_line.map(descriptor))?,
-                    mobile: tranpose(meta.mobile.map(descriptor))?,
-                    toll_free: tranpose(meta.toll_free.map(descriptor))?,
-                    premium_rate: tranpose(meta.premium_rate.map(descriptor))?,
-                    shared_cost: tranpose(meta.shared_cost.map(descriptor))?,
-                    personal_number: tranpose(meta.personal_number.map(descriptor))?,
-                    voip: tranpose(meta.voip.map(descriptor))?,
-                    pager: tranpose(meta.pager.map(descriptor))?,
-                    uan: tranpose(meta.uan.map(descriptor))?,
-                    emergency: tranpose(meta.emergency.map(descriptor))?,
-                    voicemail: tranpose(meta.voicemail.map(descriptor))?,
-                    short_code: tranpose(meta.short_code.map(descriptor))?,
-                    standard_rate: tranpose(meta.standard_rate.map(descriptor))?,
-                    carrier: tranpose(meta.carrier.map(descriptor))?,
-                    no_international: tranpose(meta.no_international.map(descriptor))?,
-                },
-
-                id: meta.id.ok_or_else(|| {
-                    error::LoadMetadata::from(error::Metadata::MissingValue {
-                        phase: "metadata".into(),
-                        name: "id".into(),
-                    })
-                })?,
-
-                country_code: meta.country_code.ok_or_else(|| {
-                    error::LoadMetadata::from(error::Metadata::MissingValue {
-                        phase: "metadata".into(),
-                        name: "countryCode".into(),
-                    })
-                })?,
-
-                international_prefix: tranpose(meta.international_prefix.map(regex))?,
-                preferred_international_prefix: meta.preferred_international_prefix,
-                national_prefix: meta.national_prefix,
-                preferred_extension_prefix: meta.preferred_extension_prefix,
-                national_prefix_for_parsing: tranpose(meta.national_prefix_for_parsing.map(regex))?,
-                national_prefix_transform_rule: meta.national_prefix_transform_rule,
-
-                formats: meta
-                    .formats
-                    .into_iter()
-                    .map(&format)
-                    .collect::<Result<_, _>>()?,
-                international_formats: meta
-                    .international_formats
-                    .into_iter()
-                    .map(&format)
-                    .collect::<Result<_, _>>()?,
+                    })?,
 
-                main_country_for_code: meta.main_country_for_code,
-                leading_digits: tranpose(meta.leading_digits.map(regex))?,
-                mobile_number_portable: meta.mobile_number_portable,
-            })
-        };
+                    country_code: meta.country_code.ok_or_else(|| {
+                        error::LoadMetadata::from(error::Metadata::MissingValue {
+                            phase: "metadata".into(),
+                            name: "countryCode".into(),
+                        })
+                    })?,
+
+                    international_prefix: tranpose(meta.international_prefix.map(regex))?,
+                    preferred_international_prefix: meta.preferred_international_prefix,
+                    national_prefix: meta.national_prefix,
+                    preferred_extension_prefix: meta.preferred_extension_prefix,
+                    national_prefix_for_parsing: tranpose(
+                        meta.national_prefix_for_parsing.map(regex),
+                    )?,
+                    national_prefix_transform_rule: meta.national_prefix_transform_rule,
+
+                    formats: meta
+                        .formats
+                        .into_iter()
+                        .map(&format)
+                        .collect::<Result<_, _>>()?,
+                    international_formats: meta
+                        .international_formats
+                        .into_iter()
+                        .map(&format)
+                        .collect::<Result<_, _>>()?,
+
+                    main_country_for_code: meta.main_country_for_code,
+                    leading_digits: tranpose(meta.leading_digits.map(regex))?,
+                    mobile_number_portable: meta.mobile_number_portable,
+                })
+            };
 
         let mut by_id = FnvHashMap::default();
         let mut by_code = FnvHashMap::default();
diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..2b51ba5 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -115,9 +115,9 @@ pub fn length(meta: &Metadata, number: &ParseNumber<'_>, kind: Type) -> Validati
     let length = number.national.len() as u16;
     let local = &desc.possible_local_length[..];
     let possible = if desc.possible_length.is_empty() {
-        &desc.possible_length[..]
-    } else {
         &meta.descriptors.general.possible_length[..]
+    } else {
+        &desc.possible_length[..]
     };
 
     if possible.is_empty() {
-- 
2.43.0


From e643c55a6fdcffd188f7312ce55f2aa2a1335d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 03/41] fix: strip a national prefix or carrier code only when
 there is one

The prefix was stripped, often twice, from numbers that merely start with
the same digits (+7 812 123 45 67 became +7 121234567), and parts of the
number or the prefix itself were recorded as its carrier (GB 0121..., the
AR area code).
---
 src/parser/helper.rs | 78 +++++++++++++++++++++++---------------------
 src/parser/mod.rs    | 10 +++++-
 2 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..6f1c3a7 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -280,60 +280,64 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
 
 /// Strip national prefix and extract carrier.
 pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a> {
-    let transform = meta.national_prefix_transform_rule.as_ref();
+    let general = meta.descriptors().general();
+    let viable = general.is_match(&number.national);
+
     let parsing = if let Some(re) = meta.national_prefix_for_parsing.as_ref() {
         re
     } else {
         if let Some(prefix) = meta.national_prefix.as_ref() {
-            if number.national.starts_with(prefix) {
-                number.national = trim(number.national, prefix.len());
+            if let Some(stripped) = number.national.strip_prefix(prefix.as_str()) {
+                // Do not break a number that is fine as it is.
+                if !viable || general.is_match(stripped) {
+                    number.national = trim(number.national, prefix.len());
+                }
             }
         }
 
         return number;
     };
 
-    let index = parsing.find(&number.national).map(|m| (m.start(), m.end()));
-
-    if index.is_none() {
-        return number;
-    }
-
-    let (start, end) = index.unwrap();
-    if start != 0 {
-        return number;
-    }
-
-    let viable = meta.descriptors.general.is_match(&number.national);
-    let groups = parsing.captures_len();
-
-    let (first, last) = parsing
-        .captures(&number.national)
-        .map(|c| {
-            (
-                c.get(1).map(|m| m.as_str().to_owned()),
-                c.get(c.len() - 1).map(|m| m.as_str().to_owned()),
-            )
-        })
-        .unwrap();
+    let (end, first, last, transformed) = {
+        let captures = match parsing.captures(&number.national) {
+            Some(captures) if captures.get(0).unwrap().start() == 0 => captures,
+            _ => return number,
+        };
+
+        let group = |index: usize| captures.get(index).map(|m| m.as_str().to_owned());
+        let groups = captures.len() - 1;
+        let last = if groups > 0 { group(groups) } else { None };
+        let transformed = meta
+            .national_prefix_transform_rule
+            .as_ref()
+            .filter(|_| last.is_some())
+            .map(|rule| parsing.replace(&number.national, rule).into_owned());
+
+        // With a transform rule the last group is part of the number, not of
+        // the prefix.
+        let first = if transformed.is_none() || groups > 1 {
+            group(1)
+        } else {
+            None
+        };
+
+        (captures.get(0).unwrap().end(), first, last, transformed)
+    };
 
-    if transform.is_none() || last.is_none() {
-        if viable && !meta.descriptors.general.is_match(&number.national[start..]) {
+    if let Some(transformed) = transformed {
+        if viable && !general.is_match(&transformed) {
             return number;
         }
 
-        number.carrier = last.filter(|_| groups > 0).map(Into::into);
-
-        number.national = trim(number.national, end);
-    } else if let Some(transform) = transform {
-        let transformed = parsing.replace(&number.national, transform).into_owned();
-
-        if viable && !meta.descriptors.general.is_match(&transformed) {
+        number.carrier = first.map(Into::into);
+        number.national = transformed.into();
+    } else {
+        if viable && !general.is_match(&number.national[end..]) {
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
-        number.national = transformed.into();
+        number.carrier = last.and(first).map(Into::into);
+        number.national = trim(number.national, end);
     }
 
     number
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db0b32..ac591a5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -88,7 +88,15 @@ pub fn parse_with<S: AsRef<str>>(
 
         // Strip national prefix if present.
         if let Some(prefix) = meta.national_prefix.as_ref() {
-            if potential.national.starts_with(prefix) {
+            let general = meta.descriptors().general();
+
+            // Only if it is left over, the number may start with the same digits.
+            if !general.is_match(&potential.national)
+                && potential
+                    .national
+                    .strip_prefix(prefix.as_str())
+                    .is_some_and(|stripped| general.is_match(stripped))
+            {
                 potential.national = helper::trim(potential.national, prefix.len());
             }
         }
-- 
2.43.0


From 9bc70d4feaaeafabca843c45fa3b08a09b2fbe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 04/41] fix: do not mistake a country code after a plus for an
 IDD

With FI as reference country +994 12 ... was read as IDD 994.
---
 src/parser/helper.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 6f1c3a7..810347a 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -245,11 +245,9 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
         number.national = trim(number.national, start);
         number = normalize(number, mappings);
 
-        if !idd
-            .and_then(|re| re.find(&number.national))
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
-        {
+        // No country code starts with a 0, so only then an IDD was written after
+        // the PLUS. Other IDDs look like a country code, e.g. 994 in Finland.
+        if !number.national.starts_with('0') {
             return number;
         }
     } else {
-- 
2.43.0


From ea84c04cda4401e085a35e6b1e0c9e0a92a96b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 05/41] fix: accept every documented way to write an extension

A number followed by ;ext=123 or by a trailing "123#" was rejected since
only the second capturing group of the pattern was looked at.
---
 src/parser/natural.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/parser/natural.rs b/src/parser/natural.rs
index 6428f5c..eaa0e03 100644
--- a/src/parser/natural.rs
+++ b/src/parser/natural.rs
@@ -15,31 +15,23 @@
 use crate::consts;
 use crate::parser::helper::*;
 use nom::IResult;
-use nom::error::ErrorKind;
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let (_, i) = extract(i)?;
-    let extension = consts::EXTN_PATTERN.captures(i);
-
-    if let Some(c) = extension.as_ref() {
-        if c.get(0).is_none() || c.get(2).is_none() {
-            return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
-        }
-    }
+    let extension = consts::EXTN_PATTERN
+        .captures(i)
+        // Each way to write an extension has its own group.
+        .and_then(|c| Some((c.get(0)?, c.iter().skip(1).flatten().next()?)));
 
     Ok((
         "",
         Number {
             national: extension
-                .as_ref()
-                .map(|c| &i[..c.get(0).unwrap().start()])
+                .map(|(whole, _)| &i[..whole.start()])
                 .unwrap_or(i)
                 .into(),
 
-            extension: extension
-                .as_ref()
-                .map(|c| c.get(2).unwrap().as_str())
-                .map(Into::into),
+            extension: extension.map(|(_, digits)| digits.as_str().into()),
 
             ..Default::default()
         },
-- 
2.43.0


From 01017652924a6ea352adb71f40bdce4d0b2308ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 06/41] fix: do not report an empty extension

"650 253 0000 x" had the extension "", formatted as a dangling label.
---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ac591a5..eba25bf 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -122,7 +122,11 @@ pub fn parse_with<S: AsRef<str>>(
 
         national: number.national.parse()?,
 
-        extension: number.extension.map(|s| Extension(s.into_owned())),
+        // A label without any digits is no extension.
+        extension: number
+            .extension
+            .filter(|s| !s.is_empty())
+            .map(|s| Extension(s.into_owned())),
         carrier: number.carrier.map(|s| Carrier(s.into_owned())),
     })
 }
-- 
2.43.0


From 40cc77b10213ec8a8ac617a5cb036510a6e394e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 07/41] fix: consider leading zeros when classifying a number

They are part of the national number: an Italian fixed line number was
valid, yet had no known type and country.
---
 src/phone_number.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/phone_number.rs b/src/phone_number.rs
index 36a7e69..1c20e8c 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -206,11 +206,7 @@ impl PhoneNumber {
     /// Get the metadata that applies to this phone number from the given
     /// database.
     pub fn metadata<'a>(&self, database: &'a Database) -> Option<&'a Metadata> {
-        match validator::source_for(
-            database,
-            self.code.value(),
-            &self.national.value().to_string(),
-        )? {
+        match validator::source_for(database, self.code.value(), &self.national.to_string())? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
         }
@@ -234,7 +230,7 @@ impl PhoneNumber {
     /// Determine the [`Type`] of the phone number with the given `Database`.
     pub fn number_type_with(&self, database: &Database) -> Type {
         match self.metadata(database) {
-            Some(metadata) => validator::number_type(metadata, &self.national.value().to_string()),
+            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
             None => Type::Unknown,
         }
     }
-- 
2.43.0


From 18cc0970106898bed4b7ec7b4a7731f0e2dc6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 08/41] fix: split the country code off an RFC3966 number by
 its digits

Everything up to the first separator was taken as the country code, so
+1650-253-0000 was rejected as well as tel:+16502530000;isub=12345.
---
 src/parser/helper.rs  | 57 ++++++++++++++++++++++++++-----------------
 src/parser/mod.rs     |  7 +++++-
 src/parser/rfc3966.rs |  9 +++++--
 3 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 810347a..2216e09 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -155,36 +155,47 @@ pub fn country_code<'a>(
         // The country source was found from the initial PLUS or it was extract
         // from the number already.
         country::Source::Plus | country::Source::Idd | country::Source::Number => {
-            if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
-                return Err(error::Parse::TooShortNsn);
-            }
-
             // If the prefix was already extracted, check it is valid.
-            if let Some(prefix_ref) = number.prefix.as_ref() {
-                let prefix = prefix_ref.parse()?;
-
-                if database.by_code(&prefix).is_none() {
+            if let Some(prefix) = number.prefix.take() {
+                if prefix.is_empty() {
                     return Err(error::Parse::InvalidCountryCode);
-                } else {
-                    return Ok(number);
                 }
-            } else {
-                // Check the possible country code does not start with a 0 since those
-                // are invalid.
-                if number.national.starts_with('0') {
-                    return Err(error::Parse::InvalidCountryCode);
+
+                if prefix
+                    .parse()
+                    .is_ok_and(|code: u16| database.by_code(&code).is_some())
+                {
+                    if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
+                        return Err(error::Parse::TooShortNsn);
+                    }
+
+                    number.prefix = Some(prefix);
+                    return Ok(number);
                 }
 
-                // Try to find the first available country code.
-                for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE + 1 {
-                    let code = number.national[..len].parse().unwrap();
+                // The first separator does not have to follow the country code.
+                number.national = format!("{}{}", prefix, number.national).into();
+            }
 
-                    if database.by_code(&code).is_some() {
-                        number.national = trim(number.national, len);
-                        number.prefix = Some(code.to_string().into());
+            if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
+                return Err(error::Parse::TooShortNsn);
+            }
 
-                        return Ok(number);
-                    }
+            // Check the possible country code does not start with a 0 since those
+            // are invalid.
+            if number.national.starts_with('0') {
+                return Err(error::Parse::InvalidCountryCode);
+            }
+
+            // Try to find the first available country code.
+            for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE + 1 {
+                let code = number.national[..len].parse().unwrap();
+
+                if database.by_code(&code).is_some() {
+                    number.national = trim(number.national, len);
+                    number.prefix = Some(code.to_string().into());
+
+                    return Ok(number);
                 }
             }
         }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index eba25bf..0776021 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -50,7 +50,12 @@ pub fn parse_with<S: AsRef<str>>(
     // Try to parse the number as RFC3966 or natural language.
     let (_, mut number) = phone_number(string.as_ref()).or(Err(error::Parse::NoNumber))?;
 
-    if !is_viable(&number.national) {
+    let viable = match number.prefix.as_ref() {
+        Some(prefix) => is_viable(format!("{}{}", prefix, number.national)),
+        None => is_viable(&number.national),
+    };
+
+    if !viable {
         return Err(error::Parse::NoNumber);
     }
 
diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index ccaf889..546d847 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -21,6 +21,7 @@ use nom::{
     combinator::*,
     error::{ErrorKind, make_error},
     multi::*,
+    sequence::pair,
 };
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
@@ -32,7 +33,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     parse! { i =>
         opt(tag_no_case("Tel:"));
         let prefix = opt(prefix);
-        let national = take_while1(number);
+        let national = recognize(pair(opt(char('+')), take_while1(number)));
         check;
         let params = opt(parameters);
     };
@@ -46,6 +47,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
                 .or_else(|| {
                     params
                         .as_ref()
+                        .filter(|_| !national.starts_with('+'))
                         .and_then(|m| m.get("phone-context"))
                         .map(|&s| s.strip_prefix('+').unwrap_or(s))
                 })
@@ -64,8 +66,11 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
 fn prefix(i: &str) -> IResult<&str, &str> {
     parse! { i =>
         char('+');
-        take_till1(separator)
+        let digits = take_while1(|c: char| c.is_wide_digit());
+        peek(satisfy(separator));
     }
+
+    Ok((i, digits))
 }
 
 fn parameters(i: &str) -> IResult<&str, FnvHashMap<&str, &str>> {
-- 
2.43.0


From 01fa3c63dc085bdd3075b176bfcf1d8f2145cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 09/41] fix: read an extension after a semicolon whatever
 precedes it

A semicolon that starts no RFC3966 parameter may still start an extension.
---
 src/parser/rfc3966.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 546d847..0447916 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -38,6 +38,11 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
         let params = opt(parameters);
     };
 
+    // A semicolon that starts no parameter may still start an extension.
+    if params.is_none() && !i.is_empty() {
+        return Err(nom::Err::Error(make_error(i, ErrorKind::Tag)));
+    }
+
     Ok((
         i,
         Number {
-- 
2.43.0


From 7b333d66870c37c2feebe4c5075a1f18c82c7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 10/41] fix: accept the full-width full stop as punctuation

one_of() takes no ranges.
---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 2216e09..39b5f4d 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -78,7 +78,7 @@ pub fn ieof(i: &str) -> IResult<&str, ()> {
 
 pub fn punctuation(i: &str) -> IResult<&str, char> {
     one_of(
-        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
+        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
     )(i)
 }
 
-- 
2.43.0


From 5fdf3b3ab2d69e89696a21b73b3a9966339a28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 11/41] fix: accept numbers written in Unicode digits

They are extracted and normalized, but were not considered viable.
---
 src/parser/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 39b5f4d..7df7e5a 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -86,9 +86,8 @@ pub fn alpha(i: &str) -> IResult<&str, char> {
     one_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")(i)
 }
 
-// TODO: Extend with Unicode digits.
 pub fn digit(i: &str) -> IResult<&str, char> {
-    one_of("0123456789")(i)
+    satisfy(|ch| ch.as_dec_digit().is_some())(i)
 }
 
 pub fn plus(i: &str) -> IResult<&str, char> {
-- 
2.43.0


From 5d77ba8914136be5871c7e5e8b9dd7ab04753433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 12/41] fix: read national numbers made of zeros only

The value of such a number is its last zero, and more zeros than fit are too
long instead of being truncated.
---
 src/national_number.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index d061926..1df0d07 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -25,10 +25,17 @@ impl FromStr for NationalNumber {
     type Err = crate::error::Parse;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let zeros = s.chars().take_while(|&c| c == '0').count();
+        let mut zeros = s.chars().take_while(|&c| c == '0').count();
+
+        // The last digit belongs to the value, even when it is a zero.
+        if zeros != 0 && zeros == s.len() {
+            zeros -= 1;
+        }
+
         let value = s[zeros..].parse::<u64>()?;
+        let zeros = u8::try_from(zeros).map_err(|_| crate::error::Parse::TooLong)?;
 
-        NationalNumber::new(value, zeros as u8)
+        NationalNumber::new(value, zeros)
     }
 }
 
-- 
2.43.0


From b7359de2247ec01a9f3023a5099eb24c4024f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 13/41] fix: convert a national number to its value

The leading zeros are packed in the upper bits.
---
 src/national_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index 1df0d07..14af191 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -83,7 +83,7 @@ impl NationalNumber {
 
 impl From<NationalNumber> for u64 {
     fn from(n: NationalNumber) -> u64 {
-        n.value
+        n.value()
     }
 }
 
-- 
2.43.0


From 9cc35cbaa58ed8e235a66bbbe4741eeab2975ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 14/41] fix: report a descriptor without a pattern instead of
 panicking

---
 src/metadata/database.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 32da2ef..0dface4 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -68,9 +68,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     // The pattern describes the whole national number.
                     national_number: desc
-- 
2.43.0


From 752a4ac78cad6b218470d3f334c4eca4d389259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 15/41] fix: report malformed possible lengths instead of
 panicking

---
 src/metadata/loader.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..9f938f9 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,17 +318,13 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
+            let range = part
+                .strip_prefix('[')
+                .and_then(|range| range.strip_suffix(']'))
+                .and_then(|range| range.split_once('-'));
 
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
-
-                    for i in start..end + 1 {
-                        result.push(i);
-                    }
-                }
+            if let Some((start, end)) = range {
+                result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);
             } else {
                 result.push(part.parse()?);
             }
-- 
2.43.0


From c37792b9bfb11ce406fa3c009db3af774d1a18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 16/41] fix: iterate over all the entries of a database

Non-geographical entities share the same ID.
---
 src/metadata/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 0dface4..39b4c07 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -280,6 +280,7 @@ impl Database {
 
     /// Iterator over all `Metadata` entries in this database.
     pub fn iter(&self) -> impl Iterator<Item = &Metadata> {
-        self.by_id.values().map(AsRef::as_ref)
+        // Some IDs are shared by several entries, e.g. 001.
+        self.by_code.values().flatten().map(AsRef::as_ref)
     }
 }
-- 
2.43.0


From 3778ad3855c93916f240285573c35ea77bcc50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 17/41] fix: do not panic when the database lacks the reference
 country

---
 src/parser/helper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 7df7e5a..9e68096 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -201,7 +201,9 @@ pub fn country_code<'a>(
 
         country::Source::Default => {
             if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+                let meta = database
+                    .by_id(country.as_ref())
+                    .ok_or(error::Parse::InvalidCountryCode)?;
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
-- 
2.43.0


From 8c7f1192878faa07c41ca4e966075d9b1d663cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 18/41] fix: only format a number with a pattern it matches

Formats without leading digits were used for any number.
---
 src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..ce06ae4 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -209,18 +209,18 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
     for format in formats {
         let leading = format.leading_digits();
 
-        if leading.is_empty()
+        if (leading.is_empty()
             || leading
                 .last()
                 .unwrap()
                 .find(number)
                 .map(|m| m.start() == 0)
+                .unwrap_or(false))
+            && format
+                .pattern()
+                .find(number)
+                .map(|m| m.start() == 0 && m.end() == number.len())
                 .unwrap_or(false)
-                && format
-                    .pattern()
-                    .find(number)
-                    .map(|m| m.start() == 0 && m.end() == number.len())
-                    .unwrap_or(false)
         {
             return Some(format);
         }
-- 
2.43.0


From daaea6e31b45634dda86842db2b7c377acfe14d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 19/41] fix: format with a rule when the format has no group to
 apply it to

---
 src/formatter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ce06ae4..350c413 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -240,13 +240,10 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some(transform) = transform {
-                let first = consts::FIRST_GROUP
-                    .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+            &*if let Some((transform, first)) = transform.and_then(|transform| {
+                let first = consts::FIRST_GROUP.captures(formatter.format())?.get(1)?;
+                Some((transform, first.as_str()))
+            }) {
                 let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
-- 
2.43.0


From 74715e285e6f44e55580309391ecd4725a70ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 20/41] fix: do not panic on unknown regions of a custom
 database

---
 src/validator.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index 2b51ba5..8e41294 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -160,16 +160,19 @@ pub fn source_for(
     }
 
     for region in regions {
-        let meta = database.by_id(region).unwrap();
+        // Not every region of a custom database is known.
+        let (Some(meta), Ok(id)) = (database.by_id(region), region.parse()) else {
+            continue;
+        };
 
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return Some(Left(id));
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return Some(Left(id));
         }
     }
 
-- 
2.43.0


From 6fc7edc0c9e189d6a1a36b85970eb0100c84ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 21/41] fix: reject a country code that starts with a zero in
 RFC3966 as well

---
 src/parser/helper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 9e68096..92c3b46 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -160,9 +160,10 @@ pub fn country_code<'a>(
                     return Err(error::Parse::InvalidCountryCode);
                 }
 
-                if prefix
-                    .parse()
-                    .is_ok_and(|code: u16| database.by_code(&code).is_some())
+                if !prefix.starts_with('0')
+                    && prefix
+                        .parse()
+                        .is_ok_and(|code: u16| database.by_code(&code).is_some())
                 {
                     if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
                         return Err(error::Parse::TooShortNsn);
-- 
2.43.0


From d8ac0df4f120643aa9648b4e23d6bcb0e1eef899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 22/41] fix: keep the national prefix digits of a number that
 is fine as it is

A country code is followed by the national number alone: +375 8104881855 does
not carry a prefix.
---
 src/parser/helper.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 92c3b46..eab55c5 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -294,6 +294,12 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
     let general = meta.descriptors().general();
     let viable = general.is_match(&number.national);
 
+    // A country code is followed by the national number alone, so a prefix is
+    // only looked for when the number is not fine as it is.
+    if viable && number.country != country::Source::Default {
+        return number;
+    }
+
     let parsing = if let Some(re) = meta.national_prefix_for_parsing.as_ref() {
         re
     } else {
-- 
2.43.0


From 9cdcbf996394e350bb8b6180c7fcb7e5df3a7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 23/41] fix: strip the bare national prefix when a longer one
 cannot be right

011 1502-5826 in Argentina is a number of its own, not one with the mobile
prefix.
---
 src/parser/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0776021..7ff7f59 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -94,15 +94,21 @@ pub fn parse_with<S: AsRef<str>>(
         // Strip national prefix if present.
         if let Some(prefix) = meta.national_prefix.as_ref() {
             let general = meta.descriptors().general();
-
-            // Only if it is left over, the number may start with the same digits.
-            if !general.is_match(&potential.national)
-                && potential
-                    .national
+            let prefixed = |national: &str| {
+                national
                     .strip_prefix(prefix.as_str())
                     .is_some_and(|stripped| general.is_match(stripped))
-            {
-                potential.national = helper::trim(potential.national, prefix.len());
+            };
+
+            if !general.is_match(&potential.national) {
+                // Only if it is left over, the number may start with the same digits.
+                if prefixed(&potential.national) {
+                    potential.national = helper::trim(potential.national, prefix.len());
+                } else if prefixed(&number.national) {
+                    // What looked like more than the prefix was the number.
+                    potential = number.clone();
+                    potential.national = helper::trim(potential.national, prefix.len());
+                }
             }
         }
 
-- 
2.43.0


From f296101fc8dd1474a09d4118bfac811a58e97119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 24/41] fix: read the first of two extensions when a space
 follows it

650 253 0000 x302 / x2303 was read as a longer number.
---
 src/parser/helper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index eab55c5..3c654df 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -119,14 +119,14 @@ pub fn extract(value: &str) -> IResult<&str, &str> {
         return Err(nom::Err::Error(make_error(value, ErrorKind::RegexpMatch)));
     };
 
-    if let Some(trailing) = consts::UNWANTED_END_CHARS.find(result) {
-        result = &result[..trailing.start()];
-    }
-
     if let Some(extra) = consts::SECOND_NUMBER_START.find(result) {
         result = &result[..extra.start()];
     }
 
+    if let Some(trailing) = consts::UNWANTED_END_CHARS.find(result) {
+        result = &result[..trailing.start()];
+    }
+
     if result.is_empty() {
         Err(nom::Err::Error(make_error(value, ErrorKind::RegexpMatch)))
     } else {
-- 
2.43.0


From 43c22b3e6cd5ee6d7b864d2b701584bc9f680ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 25/41] fix: compare RFC3966 parameter names without case

---
 src/parser/rfc3966.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 0447916..3755f70 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -78,12 +78,19 @@ fn prefix(i: &str) -> IResult<&str, &str> {
     Ok((i, digits))
 }
 
-fn parameters(i: &str) -> IResult<&str, FnvHashMap<&str, &str>> {
+fn parameters(i: &str) -> IResult<&str, FnvHashMap<String, &str>> {
     parse! { i =>
         let params = many1(parameter);
     };
 
-    Ok((i, params.into_iter().collect()))
+    // Parameter names are case-insensitive.
+    Ok((
+        i,
+        params
+            .into_iter()
+            .map(|(key, value)| (key.to_ascii_lowercase(), value))
+            .collect(),
+    ))
 }
 
 fn parameter(i: &str) -> IResult<&str, (&str, &str)> {
-- 
2.43.0


From 9f77987274d2d1d6a16dda373f305b9059d6bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 26/41] fix: read RFC3966 parameters written in Unicode digits

---
 src/parser/rfc3966.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 3755f70..92a7396 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -117,7 +117,8 @@ fn pname(c: char) -> bool {
 }
 
 fn pchar(c: char) -> bool {
-    parameter_unreserved(c) || unreserved(c)
+    // An extension may be written in any digits.
+    parameter_unreserved(c) || unreserved(c) || c.as_dec_digit().is_some()
 }
 
 fn number(c: char) -> bool {
-- 
2.43.0


From 6251f149d0478537814d22b485332776b6238026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 27/41] fix: accept a metadata document with an XML declaration

---
 src/metadata/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 9f938f9..a5a6cb1 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -99,7 +99,7 @@ fn metadata<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, error::
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) | Event::DocType(_) => (),
+            Event::Decl(_) | Event::Text(_) | Event::Comment(_) | Event::DocType(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"phoneNumberMetadata" => continue,
-- 
2.43.0


From bd2c0d17b904e8eeb64ba8ddeaf78c497f2e6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 28/41] fix: skip elements nested to any depth

---
 src/metadata/loader.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index a5a6cb1..594c821 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -569,17 +569,22 @@ fn format<R: BufRead>(
 
 fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::LoadMetadata> {
     let mut buffer = Vec::new();
+    // The elements that are still open, which may be nested to any depth.
+    let mut open = vec![name.to_vec()];
 
     loop {
         match reader.read_event_into(&mut buffer)? {
             Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
 
-            Event::Start(ref e) => {
-                let name = e.name().into_inner();
-                ignore(reader, name)?
-            }
+            Event::Start(ref e) => open.push(e.name().into_inner().to_vec()),
+
+            Event::End(ref e) if open.last().is_some_and(|n| n == e.name().into_inner()) => {
+                open.pop();
 
-            Event::End(ref e) if e.name().into_inner() == name => return Ok(()),
+                if open.is_empty() {
+                    return Ok(());
+                }
+            }
 
             Event::End(ref e) => {
                 return Err(error::Metadata::MismatchedTag(
-- 
2.43.0


From 061e2429c6e7a0d9ffdca8d072e4a2f07aa39dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 29/41] fix: replace character references in the attributes of
 metadata

A preferredExtnPrefix of " &amp; " was kept as it is written.
---
 src/metadata/loader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 594c821..39c59c5 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -17,6 +17,7 @@ use quick_xml::Reader;
 use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{self, Event};
 use serde_derive::{Deserialize, Serialize};
+use std::borrow::Cow;
 use std::io::BufRead;
 use std::str;
 
@@ -88,6 +89,11 @@ pub struct Descriptor {
     pub example: Option<String>,
 }
 
+/// The value of an attribute, with its character references replaced.
+fn unescape(value: &[u8]) -> Result<Cow<'_, str>, error::LoadMetadata> {
+    Ok(quick_xml::escape::unescape(str::from_utf8(value)?).map_err(quick_xml::Error::from)?)
+}
+
 /// Load XML metadata from the given reader.
 pub fn load<R: BufRead>(reader: R) -> Result<Vec<Metadata>, error::LoadMetadata> {
     metadata(&mut Reader::from_reader(reader))
@@ -177,7 +183,7 @@ fn territory<R: BufRead>(
     for attr in e.attributes() {
         let Attribute { key, value } = attr.map_err(quick_xml::Error::InvalidAttr)?;
 
-        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+        match (str::from_utf8(key.into_inner())?, &*unescape(&value)?) {
             ("id", value) => meta.id = Some(value.into()),
 
             ("countryCode", value) => meta.country_code = Some(value.parse()?),
@@ -359,7 +365,7 @@ fn descriptor<R: BufRead>(
                         let Attribute { key, value } =
                             attr.map_err(quick_xml::Error::InvalidAttr)?;
 
-                        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+                        match (str::from_utf8(key.into_inner())?, &*unescape(&value)?) {
                             ("national", value) => descriptor.possible_length = lengths(value)?,
 
                             ("localOnly", value) => {
@@ -480,7 +486,7 @@ fn format<R: BufRead>(
     for attr in e.attributes() {
         let Attribute { key, value } = attr.map_err(quick_xml::Error::InvalidAttr)?;
 
-        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+        match (str::from_utf8(key.into_inner())?, &*unescape(&value)?) {
             ("pattern", value) => format.pattern = Some(value.into()),
 
             ("nationalPrefixFormattingRule", value) => {
-- 
2.43.0


From 018a7395c87dfbf8da7a792bc41a011c9d4a0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 30/41] fix: skip anything in an element of no interest

A reference with an escaped ampersand or CDATA made the metadata unreadable.
---
 src/metadata/loader.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 39c59c5..43e69f9 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -580,8 +580,6 @@ fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
-
             Event::Start(ref e) => open.push(e.name().into_inner().to_vec()),
 
             Event::End(ref e) if open.last().is_some_and(|n| n == e.name().into_inner()) => {
@@ -601,13 +599,8 @@ fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::
 
             Event::Eof => return Err(error::Metadata::UnexpectedEof.into()),
 
-            event => {
-                return Err(error::Metadata::UnhandledEvent {
-                    phase: "ignore".into(),
-                    event: format!("{:?}", event),
-                }
-                .into());
-            }
+            // Whatever the element consists of, it is of no interest.
+            _ => (),
         }
     }
 }
-- 
2.43.0


From d1e18f2162c483ed6564df473fb08bdb9f4f8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 31/41] fix: read CDATA and text around comments in metadata

---
 src/metadata/loader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 43e69f9..4ca0529 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -613,6 +613,10 @@ fn text<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<String, error
         match reader.read_event_into(&mut buffer)? {
             Event::Text(ref e) => result.push_str(str::from_utf8(e)?),
 
+            Event::CData(ref e) => result.push_str(str::from_utf8(e)?),
+
+            Event::Comment(_) => (),
+
             Event::End(ref e) if e.name().into_inner() == name => return Ok(result),
 
             Event::End(ref e) => {
-- 
2.43.0


From 8362191f789d7c8d171561aa6a19be5e920f9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 32/41] fix: no hyphens around the digits of a tel: URI

With a format like "($1) $2-$3" it was tel:+1--650-253-0000.
---
 src/formatter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 350c413..8cc1fd4 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -190,6 +190,8 @@ impl<'n, 'd, 'f> fmt::Display for Formatter<'n, 'd, 'f> {
                         "{}",
                         consts::SEPARATOR_PATTERN
                             .replace_all(&replace(&national, meta, formatter, None, None), "-")
+                            // A format may start or end with a bracket.
+                            .trim_matches('-')
                     )?;
                 } else {
                     write!(f, "{}", national)?;
-- 
2.43.0


From e0bfedfd78367f6e8738f1c7fb62c30bf9875f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 33/41] fix: say when a number is too short after the IDD

---
 src/parser/helper.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 3c654df..6606cd1 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -178,7 +178,11 @@ pub fn country_code<'a>(
             }
 
             if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
-                return Err(error::Parse::TooShortNsn);
+                return Err(if number.country == country::Source::Idd {
+                    error::Parse::TooShortAfterIdd
+                } else {
+                    error::Parse::TooShortNsn
+                });
             }
 
             // Check the possible country code does not start with a 0 since those
-- 
2.43.0


From d82d04aa5e28390f23a2d463b62e4c200bdaea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 34/41] fix: offer possible lengths in order

---
 src/metadata/loader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 4ca0529..8c21002 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -336,6 +336,10 @@ fn descriptor<R: BufRead>(
             }
         }
 
+        // They are offered from the smallest to the biggest.
+        result.sort_unstable();
+        result.dedup();
+
         Ok(result)
     }
 
-- 
2.43.0


From 4e78b97150afab93cfb459256d7da32a04f49354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 35/41] fix: report a range of possible lengths that ends
 before it starts

---
 src/metadata/loader.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 8c21002..f827803 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -330,7 +330,18 @@ fn descriptor<R: BufRead>(
                 .and_then(|range| range.split_once('-'));
 
             if let Some((start, end)) = range {
-                result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);
+                let (start, end) = (start.parse::<u16>()?, end.parse::<u16>()?);
+
+                if start > end {
+                    return Err(error::Metadata::UnhandledAttribute {
+                        phase: "descriptor::possibleLength".into(),
+                        name: "range".into(),
+                        value: part.into(),
+                    }
+                    .into());
+                }
+
+                result.extend(start..=end);
             } else {
                 result.push(part.parse()?);
             }
-- 
2.43.0


From 0d0ac0f4675ab5b5d894494b8454f83e27788d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:40 +0000
Subject: [PATCH 36/41] fix: inherit the prefix for parsing from the national
 prefix

---
 src/metadata/database.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 39b4c07..e3e3f49 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -194,10 +194,13 @@ impl Database {
 
                     international_prefix: tranpose(meta.international_prefix.map(regex))?,
                     preferred_international_prefix: meta.preferred_international_prefix,
-                    national_prefix: meta.national_prefix,
+                    national_prefix: meta.national_prefix.clone(),
                     preferred_extension_prefix: meta.preferred_extension_prefix,
+                    // Without a pattern it is the prefix itself.
                     national_prefix_for_parsing: tranpose(
-                        meta.national_prefix_for_parsing.map(regex),
+                        meta.national_prefix_for_parsing
+                            .or(meta.national_prefix)
+                            .map(regex),
                     )?,
                     national_prefix_transform_rule: meta.national_prefix_transform_rule,
 
-- 
2.43.0


From 870757a1e2aaab1bb0068bb40898c882bdc2dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:03 +0000
Subject: [PATCH 37/41] fix: skip processing instructions in metadata

They mean nothing to the loader, wherever XML allows them.
---
 src/metadata/loader.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index f827803..61018d0 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -105,7 +105,11 @@ fn metadata<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, error::
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Decl(_) | Event::Text(_) | Event::Comment(_) | Event::DocType(_) => (),
+            Event::Decl(_)
+            | Event::Text(_)
+            | Event::Comment(_)
+            | Event::DocType(_)
+            | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"phoneNumberMetadata" => continue,
@@ -143,7 +147,7 @@ fn territories<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, erro
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"territory" => result.push(territory(reader, e)?),
@@ -239,7 +243,7 @@ fn territory<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"references" | name @ b"areaCodeOptional" => ignore(reader, name)?,
@@ -356,7 +360,7 @@ fn descriptor<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"nationalNumberPattern" => {
@@ -441,7 +445,7 @@ fn formats<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"numberFormat" => {
@@ -527,7 +531,7 @@ fn format<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"leadingDigits" => format.leading_digits.push(text(reader, name)?),
@@ -630,7 +634,7 @@ fn text<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<String, error
 
             Event::CData(ref e) => result.push_str(str::from_utf8(e)?),
 
-            Event::Comment(_) => (),
+            Event::Comment(_) | Event::PI(_) => (),
 
             Event::End(ref e) if e.name().into_inner() == name => return Ok(result),
 
-- 
2.43.0


From 94a675451fb2b494874bb8f9e0bee471758291e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:31 +0000
Subject: [PATCH 38/41] fix: read an element without content however it is
 written

<availableFormats/> is <availableFormats></availableFormats>, and the other
way round for possibleLengths.
---
 src/metadata/loader.rs | 49 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 61018d0..3bc1e14 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -119,6 +119,13 @@ fn metadata<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, error::
                 name => ignore(reader, name)?,
             },
 
+            // Without any territories, and elements of no interest.
+            Event::Empty(ref e) if e.name().into_inner() == b"phoneNumberMetadata" => {
+                return Ok(result);
+            }
+
+            Event::Empty(_) => (),
+
             Event::End(ref e) if e.name().into_inner() != b"phoneNumberMetadata" => {
                 return Err(error::Metadata::MismatchedTag(
                     str::from_utf8(e.name().into_inner())?.into(),
@@ -155,6 +162,8 @@ fn territories<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, erro
                 name => ignore(reader, name)?,
             },
 
+            Event::Empty(ref e) if e.name().into_inner() != b"territory" => (),
+
             Event::End(ref e) if e.name().into_inner() == b"territories" => return Ok(result),
 
             Event::End(ref e) => {
@@ -294,6 +303,10 @@ fn territory<R: BufRead>(
                 }
             },
 
+            Event::Empty(ref e)
+                if [&b"references"[..], b"areaCodeOptional", b"availableFormats"]
+                    .contains(&e.name().into_inner()) => {}
+
             Event::End(ref e) if e.name().into_inner() == b"territory" => return Ok(meta),
 
             Event::End(ref e) => {
@@ -359,7 +372,18 @@ fn descriptor<R: BufRead>(
     }
 
     loop {
-        match reader.read_event_into(&mut buffer)? {
+        let event = match reader.read_event_into(&mut buffer)? {
+            // An element without content may also be written with an end tag.
+            Event::Start(e) if e.name().into_inner() == b"possibleLengths" => {
+                let e = e.into_owned();
+                ignore(reader, b"possibleLengths")?;
+                Event::Empty(e)
+            }
+
+            event => event,
+        };
+
+        match event {
             Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
@@ -403,6 +427,10 @@ fn descriptor<R: BufRead>(
                     }
                 }
 
+                b"exampleNumber" => descriptor.example = Some(String::new()),
+
+                b"nationalNumberPattern" => descriptor.national_number = Some(String::new()),
+
                 name => {
                     return Err(error::Metadata::UnhandledElement {
                         phase: "descriptor".into(),
@@ -562,6 +590,25 @@ fn format<R: BufRead>(
                 }
             },
 
+            Event::Empty(ref e) => match e.name().into_inner() {
+                b"leadingDigits" => format.leading_digits.push(String::new()),
+
+                b"format" => {
+                    format.format = Some(String::new());
+                    international = Some(String::new());
+                }
+
+                b"intlFormat" => international = Some(String::new()),
+
+                name => {
+                    return Err(error::Metadata::UnhandledElement {
+                        phase: "format".into(),
+                        name: str::from_utf8(name)?.into(),
+                    }
+                    .into());
+                }
+            },
+
             Event::End(ref e) if e.name().into_inner() == name => {
                 let international = international.map(|v| {
                     let mut format = format.clone();
-- 
2.43.0


From 5b918ed8bb2c096c79105ea9f2c3437b7fedb5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:16 +0000
Subject: [PATCH 39/41] fix: an international format may stand before the
 national one

---
 src/metadata/loader.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 3bc1e14..5ecf367 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -565,19 +565,16 @@ fn format<R: BufRead>(
                 name @ b"leadingDigits" => format.leading_digits.push(text(reader, name)?),
 
                 name @ b"format" => {
-                    let text = text(reader, name)?;
-
-                    format.format = Some(text.clone());
-                    international = Some(text);
+                    format.format = Some(text(reader, name)?);
                 }
 
                 name @ b"intlFormat" => {
                     let text = text(reader, name)?;
 
                     if text == "NA" {
-                        international = None;
+                        international = Some(None);
                     } else {
-                        international = Some(text);
+                        international = Some(Some(text));
                     }
                 }
 
@@ -593,12 +590,9 @@ fn format<R: BufRead>(
             Event::Empty(ref e) => match e.name().into_inner() {
                 b"leadingDigits" => format.leading_digits.push(String::new()),
 
-                b"format" => {
-                    format.format = Some(String::new());
-                    international = Some(String::new());
-                }
+                b"format" => format.format = Some(String::new()),
 
-                b"intlFormat" => international = Some(String::new()),
+                b"intlFormat" => international = Some(Some(String::new())),
 
                 name => {
                     return Err(error::Metadata::UnhandledElement {
@@ -610,6 +604,8 @@ fn format<R: BufRead>(
             },
 
             Event::End(ref e) if e.name().into_inner() == name => {
+                // Without a format of its own, wherever it stands, it is the same.
+                let international = international.unwrap_or_else(|| format.format.clone());
                 let international = international.map(|v| {
                     let mut format = format.clone();
                     format.format = Some(v);
-- 
2.43.0


From 80103090795ea65417a871daa03a5b613b13ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:43 +0000
Subject: [PATCH 40/41] fix: write every digit of a number where a format or
 rule has a letter or digit right after a group

---
 src/consts.rs    |  4 ++++
 src/formatter.rs | 28 ++++++++++++++++------------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/consts.rs b/src/consts.rs
index db5f69e..7b82886 100644
--- a/src/consts.rs
+++ b/src/consts.rs
@@ -374,6 +374,10 @@ pub static NON_DIGITS: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\D+)").unwrap())
 /// matched.
 pub static FIRST_GROUP: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\$\d)").unwrap());
 
+/// A group in a format or a rule, which is always a single digit, whatever
+/// follows it.
+pub static GROUP: Lazy<Regex> = Lazy::new(|| Regex::new(r"\$(\d)").unwrap());
+
 pub const NP: &str = "$NP";
 pub const FG: &str = "$FG";
 pub const CC: &str = "$CC";
diff --git a/src/formatter.rs b/src/formatter.rs
index 8cc1fd4..9c8a522 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -242,18 +242,22 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some((transform, first)) = transform.and_then(|transform| {
-                let first = consts::FIRST_GROUP.captures(formatter.format())?.get(1)?;
-                Some((transform, first.as_str()))
-            }) {
-                let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
-                let format = format.replace(consts::FG, &format!("${}", first));
-                let format = format.replace(consts::CC, carrier.unwrap_or(""));
-
-                consts::FIRST_GROUP.replace(formatter.format(), &*format)
-            } else {
-                Cow::Borrowed(formatter.format())
-            },
+            &*consts::GROUP.replace_all(
+                &if let Some((transform, first)) = transform.and_then(|transform| {
+                    let first = consts::FIRST_GROUP.captures(formatter.format())?.get(1)?;
+                    Some((transform, first.as_str()))
+                }) {
+                    let format =
+                        transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
+                    let format = format.replace(consts::FG, &format!("${}", first));
+                    let format = format.replace(consts::CC, carrier.unwrap_or(""));
+
+                    consts::FIRST_GROUP.replace(formatter.format(), &*format)
+                } else {
+                    Cow::Borrowed(formatter.format())
+                },
+                "$${$1}",
+            ),
         )
         .into()
 }
-- 
2.43.0


From 83cfbdc09946a200cd318ecd170ad776690b75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:44 +0000
Subject: [PATCH 41/41] fix: transform numbers by rules that have a digit right
 after a group

---
 src/parser/helper.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 6606cd1..7c82e3e 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -332,7 +332,10 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             .national_prefix_transform_rule
             .as_ref()
             .filter(|_| last.is_some())
-            .map(|rule| parsing.replace(&number.national, rule).into_owned());
+            .map(|rule| {
+                let rule = consts::GROUP.replace_all(rule, "$${$1}");
+                parsing.replace(&number.national, &*rule).into_owned()
+            });
 
         // With a transform rule the last group is part of the number, not of
         // the prefix.
-- 
2.43.0

