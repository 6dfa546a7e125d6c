From 5776d8d61312b50bbbf6efe55286dced071ef7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 01/25] fix: reject Base32/Base64 strings whose final group
 cannot encode any data

---
 validators-derive/src/validator_handlers/base32/mod.rs     | 5 +++++
 validators-derive/src/validator_handlers/base64/mod.rs     | 5 +++++
 validators-derive/src/validator_handlers/base64_url/mod.rs | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/validators-derive/src/validator_handlers/base32/mod.rs b/validators-derive/src/validator_handlers/base32/mod.rs
index 63690fd..e64641d 100644
--- a/validators-derive/src/validator_handlers/base32/mod.rs
+++ b/validators-derive/src/validator_handlers/base32/mod.rs
@@ -102,6 +102,11 @@ impl ValidatorHandler for Base32Handler {
 
                         #check_last_length
 
+                        if matches!(last_length, 1 | 3 | 6) {
+                            // no data can be encoded to a final group of this length
+                            return Err(#error_path::Invalid);
+                        }
+
                         let last_bytes = if length > 8 {
                             for e in v.iter().copied().take(length - last_length) {
                                 match e {
diff --git a/validators-derive/src/validator_handlers/base64/mod.rs b/validators-derive/src/validator_handlers/base64/mod.rs
index 97dbf45..16080a8 100644
--- a/validators-derive/src/validator_handlers/base64/mod.rs
+++ b/validators-derive/src/validator_handlers/base64/mod.rs
@@ -102,6 +102,11 @@ impl ValidatorHandler for Base64Handler {
 
                         #check_last_length
 
+                        if last_length == 1 {
+                            // no data can be encoded to a final group of this length
+                            return Err(#error_path::Invalid);
+                        }
+
                         let last_bytes = if length > 4 {
                             for e in v.iter().copied().take(length - last_length) {
                                 match e {
diff --git a/validators-derive/src/validator_handlers/base64_url/mod.rs b/validators-derive/src/validator_handlers/base64_url/mod.rs
index 0969658..cab9b7d 100644
--- a/validators-derive/src/validator_handlers/base64_url/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url/mod.rs
@@ -103,6 +103,11 @@ impl ValidatorHandler for Base64UrlHandler {
 
                         #check_last_length
 
+                        if last_length == 1 {
+                            // no data can be encoded to a final group of this length
+                            return Err(#error_path::Invalid);
+                        }
+
                         let last_bytes = if length > 4 {
                             for e in v.iter().copied().take(length - last_length) {
                                 match e {
-- 
2.43.0


From bdb2325ddb4b35717945f4856d083201e39d6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:39 +0000
Subject: [PATCH 02/25] fix: make parsing and validation of decoded
 Base32/Base64 agree

---
 .../src/validator_handlers/base32_decoded/mod.rs         | 9 ++++++---
 .../src/validator_handlers/base64_decoded/mod.rs         | 9 ++++++---
 .../src/validator_handlers/base64_url_decoded/mod.rs     | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..562ec6c 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base32DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,12 @@ impl ValidatorHandler for Base32DecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v).map(|_| ())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..55dcaf3 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,12 @@ impl ValidatorHandler for Base64DecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v).map(|_| ())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..6dc548f 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,12 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v).map(|_| ())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
-- 
2.43.0


From e047d4d8018fe8243926342d39810280a103131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 03/25] fix: reject malformed MAC addresses with optional
 separators instead of panicking

---
 .../src/validator_handlers/mac_address/mod.rs  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..e7ec9c1 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -62,31 +62,31 @@ impl ValidatorHandler for MacAddressHandler {
                                 0
                             };
 
-                            let second = &bytes[(3 - no_colon_counter)..(5 - no_colon_counter)];
+                            let second = bytes.get((3 - no_colon_counter)..(5 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[5 - no_colon_counter] != #separator {
+                            if bytes.get(5 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let third = &bytes[(6 - no_colon_counter)..(8 - no_colon_counter)];
+                            let third = bytes.get((6 - no_colon_counter)..(8 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[8 - no_colon_counter] != #separator {
+                            if bytes.get(8 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let forth = &bytes[(9 - no_colon_counter)..(11 - no_colon_counter)];
+                            let forth = bytes.get((9 - no_colon_counter)..(11 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[11 - no_colon_counter] != #separator {
+                            if bytes.get(11 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let fifth = &bytes[(12 - no_colon_counter)..(14 - no_colon_counter)];
+                            let fifth = bytes.get((12 - no_colon_counter)..(14 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[14 - no_colon_counter] != #separator {
+                            if bytes.get(14 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let sixth = &bytes[(15 - no_colon_counter)..];
+                            let sixth = bytes.get((15 - no_colon_counter)..).ok_or(#error_path::Invalid)?;
 
                             if sixth.len() != 2 {
                                 return Err(#error_path::Invalid);
-- 
2.43.0


From 9a4f88e16369a5f1f27b9b4f02b19f97ddeecf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 04/25] fix: render MAC address and UUID separators as
 characters, not as decimal byte values

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index e7ec9c1..523162f 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -291,7 +291,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                         validators_prelude::format!(
                                             "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}",
-                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -315,7 +315,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                     validators_prelude::format!(
                                         "{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}",
-                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                     )
                                 }
                             }
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..2390cd7 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for UuidHandler {
                                             bytes[2],
                                             bytes[1],
                                             bytes[0],
-                                            separator = #separator
+                                            separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -335,7 +335,7 @@ impl ValidatorHandler for UuidHandler {
                                         bytes[2],
                                         bytes[1],
                                         bytes[0],
-                                        separator = #separator
+                                        separator = char::from(#separator)
                                     )
                                 }
                             }
-- 
2.43.0


From 8d37180cb02beb46dbe1b3bfbee8c6b765f3a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:01 +0000
Subject: [PATCH 05/25] fix: reject control characters inside the leading
 whitespace of lines and texts with a trimmed minimum

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From b55ad14fd3fed35867bac6841e66dffcc4d324bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:24 +0000
Subject: [PATCH 06/25] fix: let unsigned integer validators with a closed
 outside range compile

---
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..ab48f4f 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From 0fce5d4e2ed0e9d2d32cc420fdf1744179d24628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:24 +0000
Subject: [PATCH 07/25] fix: let length validators with an equal minimum and
 maximum compile

---
 validators-derive/src/validator_handlers/length/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..1581f13 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,7 +77,7 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
-                                    match ::core::cmp::Ord::cmp(&length, &#min) {
+                                    match ::core::cmp::Ord::cmp(&CollectionLength::len(v), &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
                                         ::core::cmp::Ordering::Greater => return Err(#error_path::TooLarge),
-- 
2.43.0


From 2ee2f3b48e8e950f5c5178abdd5e901bd45bdb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 08/25] fix: reject ports written with a plus sign

---
 validators-derive/src/validator_handlers/domain/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/host/mod.rs   | 8 ++++----
 validators-derive/src/validator_handlers/ip/mod.rs     | 8 ++++----
 validators-derive/src/validator_handlers/ipv4/mod.rs   | 4 ++--
 validators-derive/src/validator_handlers/ipv6/mod.rs   | 4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..8208b30 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -553,8 +553,8 @@ impl ValidatorHandler for DomainHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..83d7f73 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -325,14 +325,14 @@ impl ValidatorHandler for HostHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (validators_prelude::Host::IPv6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -422,8 +422,8 @@ impl ValidatorHandler for HostHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/ip/mod.rs b/validators-derive/src/validator_handlers/ip/mod.rs
index 8afd41f..682f59d 100644
--- a/validators-derive/src/validator_handlers/ip/mod.rs
+++ b/validators-derive/src/validator_handlers/ip/mod.rs
@@ -197,14 +197,14 @@ impl ValidatorHandler for IpHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (::std::net::IpAddr::V6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -263,14 +263,14 @@ impl ValidatorHandler for IpHandler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (::std::net::IpAddr::V4(ip), Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv4/mod.rs b/validators-derive/src/validator_handlers/ipv4/mod.rs
index d034e21..73b14dc 100644
--- a/validators-derive/src/validator_handlers/ipv4/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv4/mod.rs
@@ -177,14 +177,14 @@ impl ValidatorHandler for Ipv4Handler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (ip, Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv6/mod.rs b/validators-derive/src/validator_handlers/ipv6/mod.rs
index aeeef07..e012a45 100644
--- a/validators-derive/src/validator_handlers/ipv6/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv6/mod.rs
@@ -176,14 +176,14 @@ impl ValidatorHandler for Ipv6Handler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (ip, Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
-- 
2.43.0


From 7855683dea927ee58e83a455d46944267e2b3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 09/25] fix: keep the port out of the domain text of IPv4
 domains

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 8208b30..cd4fc46 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (validators_prelude::String::from(domain_str), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From 45ed66683ad7cad78df1f3cdb5547c2797c2f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 10/25] fix: classify domains and hosts by their IDNA ASCII
 text

An IPv4 address spelled with full-width digits or dots is mapped to the
plain address by IDNA, but was checked before the mapping, so it slipped
through ipv4(Disallow), local(Disallow) and the host's ban on a final dot.
---
 .../src/validator_handlers/domain/mod.rs      | 50 +++++++++++--------
 .../src/validator_handlers/host/mod.rs        | 34 ++++++-------
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index cd4fc46..fd64134 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (validators_prelude::String::from(domain_str), port, true, is_local)
+                                (ascii_domain, port, true, is_local)
                             }
                         }
                     };
@@ -679,34 +679,42 @@ impl ValidatorHandler for DomainHandler {
                         };
 
                         quote! {
-                            match validators_prelude::idna::Config::default()
-                                .use_std3_ascii_rules(true)
-                                .verify_dns_length(true)
-                                .check_hyphens(true)
-                                .to_ascii(domain_str)
-                            {
-                                Ok(ascii_domain) => {
-                                    let port = #handle_port;
+                            let port = #handle_port;
 
-                                    let is_local = #handle_local_domain;
+                            let is_local = #handle_local_domain;
 
-                                    #check_at_least_two_labels
+                            #check_at_least_two_labels
 
-                                    #check_local
+                            #check_local
 
-                                    (ascii_domain, port, false, is_local)
-                                }
-                                Err(_) => return Err(#error_path::Invalid),
-                            }
+                            (ascii_domain, port, false, is_local)
+                        }
+                    };
+
+                    let handle_invalid_domain = if type_attribute.ipv4.must() {
+                        quote! {
+                            return Err(#error_path::IPv4Must)
+                        }
+                    } else {
+                        quote! {
+                            return Err(#error_path::Invalid)
                         }
                     };
 
                     quote! {
-                        match validators_prelude::parse_ipv4_allow_an_ended_dot(domain_str) {
-                            #handle_ipv4
-                            Err(_) => {
-                                #handle_none_ipv4
-                            }
+                        match validators_prelude::idna::Config::default()
+                            .use_std3_ascii_rules(true)
+                            .verify_dns_length(true)
+                            .check_hyphens(true)
+                            .to_ascii(domain_str)
+                        {
+                            Ok(ascii_domain) => match validators_prelude::parse_ipv4_allow_an_ended_dot(&ascii_domain) {
+                                #handle_ipv4
+                                Err(_) => {
+                                    #handle_none_ipv4
+                                }
+                            },
+                            Err(_) => #handle_invalid_domain,
                         }
                     }
                 }
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 83d7f73..bc6a6a0 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -497,25 +497,15 @@ impl ValidatorHandler for HostHandler {
                 };
 
                 quote! {
-                    match validators_prelude::idna::Config::default()
-                        .use_std3_ascii_rules(true)
-                        .verify_dns_length(true)
-                        .check_hyphens(true)
-                        .to_ascii(domain_str)
-                    {
-                        Ok(ascii_domain) => {
-                            let port = #handle_port;
+                    let port = #handle_port;
 
-                            let is_local = #handle_local_domain;
+                    let is_local = #handle_local_domain;
 
-                            #check_at_least_two_labels
+                    #check_at_least_two_labels
 
-                            #check_local
+                    #check_local
 
-                            (validators_prelude::Host::Domain(ascii_domain), port, is_local)
-                        }
-                        Err(_) => return Err(#error_path::Invalid),
-                    }
+                    (validators_prelude::Host::Domain(ascii_domain), port, is_local)
                 }
             };
 
@@ -543,11 +533,21 @@ impl ValidatorHandler for HostHandler {
                                         }
                                     };
 
-                                    if domain_str.ends_with('.') {
+                                    let ascii_domain = match validators_prelude::idna::Config::default()
+                                        .use_std3_ascii_rules(true)
+                                        .verify_dns_length(true)
+                                        .check_hyphens(true)
+                                        .to_ascii(domain_str)
+                                    {
+                                        Ok(ascii_domain) => ascii_domain,
+                                        Err(_) => return Err(#error_path::Invalid),
+                                    };
+
+                                    if ascii_domain.ends_with('.') {
                                         return Err(#error_path::Invalid);
                                     }
 
-                                    match ::std::net::Ipv4Addr::from_str(domain_str) {
+                                    match ::std::net::Ipv4Addr::from_str(&ascii_domain) {
                                         #handle_ipv4
                                         Err(_) => {
                                             #handle_none_ipv4
-- 
2.43.0


From 6e3b93bf474b3bfdf524f58a03046feb0be220f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 11/25] fix: accept phone numbers of any listed country

With several countries, a text that could not be parsed as a number of one
of them was rejected even when it was a valid number of another.
---
 .../src/validator_handlers/phone/mod.rs       | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/validators-derive/src/validator_handlers/phone/mod.rs b/validators-derive/src/validator_handlers/phone/mod.rs
index b6a5fed..8bba9a7 100644
--- a/validators-derive/src/validator_handlers/phone/mod.rs
+++ b/validators-derive/src/validator_handlers/phone/mod.rs
@@ -99,19 +99,26 @@ impl ValidatorHandler for PhoneHandler {
                                     #[inline]
                                     fn v_parse_str(s: &str) -> Result<::std::collections::HashMap<validators_prelude::phonenumber::country::Id, validators_prelude::phonenumber::PhoneNumber>, #error_path> {
                                         let mut map = ::std::collections::HashMap::with_capacity(2);
+                                        let mut parse_error = None;
 
                                         #(
-                                            let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
-
-                                            if let Some(id) = phonenumber.country().id() {
-                                                if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
-                                                    map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
-                                                }
+                                            match validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s) {
+                                                Ok(phonenumber) => {
+                                                    if let Some(id) = phonenumber.country().id() {
+                                                        if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
+                                                            map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                                        }
+                                                    }
+                                                },
+                                                Err(error) => parse_error = Some(error),
                                             }
                                         )*
 
                                         if map.is_empty() {
-                                            Err(#error_path::Invalid)
+                                            match parse_error {
+                                                Some(error) => Err(error.into()),
+                                                None => Err(#error_path::Invalid),
+                                            }
                                         } else {
                                             Ok(map)
                                         }
-- 
2.43.0


From 62542ecbd789ab5c79b69c56509cde2aaaae406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 12/25] fix: deserialize integers that the format hands over
 with the other signedness

---
 .../validator_handlers/signed_integer/mod.rs  | 16 +++++++++
 .../unsigned_integer/mod.rs                   | 16 +++++++++
 validators/src/result/serde_traits.rs         | 34 +++++++++++++++++++
 3 files changed, 66 insertions(+)

diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..9caf428 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,22 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                self.visit_i128(v as i128)
+                                            }
+
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match i128::try_from(v) {
+                                                    Ok(v) => self.visit_i128(v),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooLarge)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index ab48f4f..968c287 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -624,6 +624,22 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                self.visit_i128(v as i128)
+                                            }
+
+                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match u128::try_from(v) {
+                                                    Ok(v) => self.visit_u128(v),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooSmall)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 5840f62..ceb0534 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -1028,6 +1028,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_i128(v)))
             }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                self.visit_i128(v as i128)
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                match i128::try_from(v) {
+                    Ok(v) => self.visit_i128(v),
+                    Err(_) => Ok(Result::new(Err(SignedIntegerError::TooLarge))),
+                }
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
@@ -1143,6 +1160,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_u128(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                self.visit_i128(v as i128)
+            }
+
+            #[inline]
+            fn visit_i128<E>(self, v: i128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                match u128::try_from(v) {
+                    Ok(v) => self.visit_u128(v),
+                    Err(_) => Ok(Result::new(Err(UnsignedIntegerError::TooSmall))),
+                }
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From 909f8316a69e9dfbeb250e14e5b678da91a90ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 13/25] fix: deserialize floating-point numbers written as
 integers

---
 .../src/validator_handlers/number/mod.rs           | 14 ++++++++++++++
 validators/src/result/serde_traits.rs              | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/validators-derive/src/validator_handlers/number/mod.rs b/validators-derive/src/validator_handlers/number/mod.rs
index 5dbff68..d3ba01b 100644
--- a/validators-derive/src/validator_handlers/number/mod.rs
+++ b/validators-derive/src/validator_handlers/number/mod.rs
@@ -433,6 +433,20 @@ impl ValidatorHandler for NumberHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateNumber>::parse_f32(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                self.visit_f64(v as f64)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                self.visit_f64(v as f64)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index ceb0534..703c177 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -856,6 +856,20 @@ impl<'de, T: ValidateString<Error = NumberError> + ValidateNumber<Error = Number
                 E: DeError, {
                 Ok(Result::new(T::parse_f64(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                self.visit_f64(v as f64)
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                self.visit_f64(v as f64)
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From a7af3ef12cf96596430015a1268ced5de3e66151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 14/25] fix: deserialize byte sizes given as integers

---
 validators-derive/src/validator_handlers/byte/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/byte/mod.rs b/validators-derive/src/validator_handlers/byte/mod.rs
index 0d55c00..ae771d9 100644
--- a/validators-derive/src/validator_handlers/byte/mod.rs
+++ b/validators-derive/src/validator_handlers/byte/mod.rs
@@ -219,6 +219,12 @@ impl ValidatorHandler for ByteHandler {
                                                 <#name as ValidateString>::parse_str(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
 
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateUnsignedInteger>::parse_u64(v).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
                                             fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
                                             where
                                                 E: validators_prelude::serde::de::Error, {
@@ -227,7 +233,7 @@ impl ValidatorHandler for ByteHandler {
                                         }
 
                                         if deserializer.is_human_readable() {
-                                            deserializer.deserialize_str(MyVisitor)
+                                            deserializer.deserialize_any(MyVisitor)
                                         } else {
                                             deserializer.deserialize_u128(MyVisitor)
                                         }
-- 
2.43.0


From 638b232514389a613494e6c169046bd8d514b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 15/25] fix: deserialize URLs and versions instead of recursing
 forever

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..4ccc0b9 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..0d0491c 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..573ded2 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
-- 
2.43.0


From 6acdd4358565035c01d99346a019d788d12ac5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 16/25] fix: deserialize Result-wrapped byte and bit sizes
 given as integers

---
 validators/src/result/serde_traits.rs | 98 +++++++++++++++++++++++----
 1 file changed, 86 insertions(+), 12 deletions(-)

diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 703c177..21370b8 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -349,14 +349,51 @@ impl<'de, T: ValidateString<Error = BitError> + ValidateUnsignedInteger<Error =
     fn deserialize<D>(deserializer: D) -> core::result::Result<Self, D::Error>
     where
         D: Deserializer<'de>, {
-        if deserializer.is_human_readable() {
-            let s = String::deserialize(deserializer)?;
+        struct MyVisitor<T>(PhantomData<T>);
 
-            Ok(Result::new(T::parse_string(s)))
-        } else {
-            let s = u128::deserialize(deserializer)?;
+        impl<'de, T: ValidateString<Error = BitError> + ValidateUnsignedInteger<Error = BitError>>
+            Visitor<'de> for MyVisitor<T>
+        {
+            type Value = Result<T, BitError>;
+
+            #[inline]
+            fn expecting(&self, f: &mut Formatter) -> fmt::Result {
+                f.write_str("BitError")
+            }
+
+            #[inline]
+            fn visit_str<E>(self, v: &str) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_str(v)))
+            }
+
+            #[inline]
+            fn visit_string<E>(self, v: String) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_string(v)))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_u64(v)))
+            }
 
-            Ok(Result::new(T::parse_u128(s)))
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_u128(v)))
+            }
+        }
+
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(MyVisitor(PhantomData))
+        } else {
+            deserializer.deserialize_u128(MyVisitor(PhantomData))
         }
     }
 }
@@ -461,14 +498,51 @@ impl<'de, T: ValidateString<Error = ByteError> + ValidateUnsignedInteger<Error =
     fn deserialize<D>(deserializer: D) -> core::result::Result<Self, D::Error>
     where
         D: Deserializer<'de>, {
-        if deserializer.is_human_readable() {
-            let s = String::deserialize(deserializer)?;
+        struct MyVisitor<T>(PhantomData<T>);
 
-            Ok(Result::new(T::parse_string(s)))
-        } else {
-            let s = u128::deserialize(deserializer)?;
+        impl<'de, T: ValidateString<Error = ByteError> + ValidateUnsignedInteger<Error = ByteError>>
+            Visitor<'de> for MyVisitor<T>
+        {
+            type Value = Result<T, ByteError>;
+
+            #[inline]
+            fn expecting(&self, f: &mut Formatter) -> fmt::Result {
+                f.write_str("ByteError")
+            }
+
+            #[inline]
+            fn visit_str<E>(self, v: &str) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_str(v)))
+            }
+
+            #[inline]
+            fn visit_string<E>(self, v: String) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_string(v)))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_u64(v)))
+            }
 
-            Ok(Result::new(T::parse_u128(s)))
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_u128(v)))
+            }
+        }
+
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(MyVisitor(PhantomData))
+        } else {
+            deserializer.deserialize_u128(MyVisitor(PhantomData))
         }
     }
 }
-- 
2.43.0


From 43e49eef84fe812c9a9852d30c3710a67f106b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 17/25] fix: reject every email local part longer than 64
 bytes, without underflow in the comment after it

---
 validators-derive/src/validator_handlers/email/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..5f64d2e 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -901,7 +901,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
@@ -1225,7 +1225,7 @@ impl ValidatorHandler for EmailHandler {
                             None::<&str>
                         };
 
-                        if bytes[local_part_length] != b'@' || local_part_length + 1 == length {
+                        if bytes[local_part_length] != b'@' || local_part_length + 1 == length || local_part_length > 64 {
                             return Err(#error_path::Invalid);
                         }
 
-- 
2.43.0


From 1e6294b57646839d54a0680a451898110cad3fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 18/25] fix: reject emails with anything after the last comment

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 5f64d2e..02ddccf 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -973,6 +973,11 @@ impl ValidatorHandler for EmailHandler {
                                     let comment =
                                         &s[domain_part_length..index];
 
+                                    if index + 1 != length {
+                                        // unexpected characters after the comment
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     Some(comment)
                                 }
                                 None => return Err(#error_path::Invalid),
-- 
2.43.0


From 3bbedaaf4c4b29ecadae4915e9db660d4fcd829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 19/25] fix: reject unquoted email local parts which end with a
 dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 02ddccf..d720eb1 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1207,6 +1207,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From 7c5567ac6bb0a779cdee1509949cf4a5cc14c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 20/25] fix: keep the quotes of email local parts which end
 with a dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index d720eb1..906023a 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1131,7 +1131,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted || last_dot, true);
                                         }
                                     }
                                     _ => {
-- 
2.43.0


From a87c4388b72d4d9d53b3a7b846438621b6fda354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 21/25] fix: an escaped space ends the escape in a quoted email
 local part

---
 validators-derive/src/validator_handlers/email/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 906023a..dd4fc13 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1103,6 +1103,7 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p == 63 || !escaping {
-- 
2.43.0


From b6fc0f86205fe004c511c0b9521aa32f2581dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 22/25] fix: the quotes of an email local part do not extend
 the limit of its domain part

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index dd4fc13..f920896 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1009,7 +1009,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1132,7 +1132,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted || last_dot, true);
+                                            break (local_part, need_quoted || last_dot);
                                         }
                                     }
                                     _ => {
@@ -1218,7 +1218,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1254,11 +1254,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From 1081ad9a0a6682e5705137ea4420317576739bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 23/25] fix: reject email domains whose ASCII form ends with a
 dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index f920896..5de41fa 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -824,10 +824,6 @@ impl ValidatorHandler for EmailHandler {
                         }
                     };
 
-                    if domain_str.ends_with(".") {
-                        return Err(#error_path::Invalid);
-                    }
-
                     match validators_prelude::idna::Config::default()
                         .use_std3_ascii_rules(true)
                         .verify_dns_length(true)
@@ -835,6 +831,10 @@ impl ValidatorHandler for EmailHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            if ascii_domain.ends_with('.') {
+                                return Err(#error_path::Invalid);
+                            }
+
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
-- 
2.43.0


From 72cff394a6d7e29df766b6eeecf9e6c8d1d914c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 24/25] fix: quote the local part in to_email_string of emails
 without comments

---
 .../src/validator_handlers/email/mod.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 5de41fa..3136830 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1538,11 +1538,12 @@ impl ValidatorHandler for EmailHandler {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
                                     let local_part = &self.local_part;
+                                    let quote = if self.need_quoted { "\"" } else { "" };
 
                                     match &self.domain_part {
-                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
-                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{}@{}", local_part, domain),
+                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{quote}{}{quote}@[{}]", local_part, ip),
+                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{quote}{}{quote}@[IPv6:{}]", local_part, ip),
+                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{quote}{}{quote}@{}", local_part, domain),
                                     }
                                 }
                             }
@@ -1554,10 +1555,11 @@ impl ValidatorHandler for EmailHandler {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
                                     let local_part = &self.local_part;
+                                    let quote = if self.need_quoted { "\"" } else { "" };
 
                                     match &self.domain_part {
-                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
+                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{quote}{}{quote}@[{}]", local_part, ip),
+                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{quote}{}{quote}@[IPv6:{}]", local_part, ip),
                                     }
                                 }
                             }
@@ -1569,9 +1571,10 @@ impl ValidatorHandler for EmailHandler {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
                                     let local_part = &self.local_part;
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let domain_part = &self.domain_part;
 
-                                    validators_prelude::format!("{}@{}", local_part, domain_part)
+                                    validators_prelude::format!("{quote}{}{quote}@{}", local_part, domain_part)
                                 }
                             }
                         }
-- 
2.43.0


From 6a6a9f8d4b9c393974bd21460f054caf543b4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:44 +0000
Subject: [PATCH 25/25] fix: check min and max of range expressions (full
 feature)

---
 validators-derive/src/common/range.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/validators-derive/src/common/range.rs b/validators-derive/src/common/range.rs
index 37bc0d9..8ffc82c 100644
--- a/validators-derive/src/common/range.rs
+++ b/validators-derive/src/common/range.rs
@@ -104,6 +104,24 @@ where
             }
         }
 
+        if let Some(min) = min
+            && let Some(max) = max
+        {
+            if inclusive {
+                if min > max {
+                    return Err(syn::Error::new_spanned(
+                        range,
+                        format!("{min} > {max} (min > max)"),
+                    ));
+                }
+            } else if min >= max {
+                return Err(syn::Error::new_spanned(
+                    range,
+                    format!("{min} >= {max} (min >= max)"),
+                ));
+            }
+        }
+
         Ok(Self {
             min,
             max,
-- 
2.43.0

