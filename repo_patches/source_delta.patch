From ba0508d184d90c022665492a99e7349c251999b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 01/20] fix: DELETE and REPLACE reject a negative length in
 release builds too

---
 src/string_functions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..70322ed 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -507,6 +507,9 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -550,6 +553,9 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -595,6 +601,9 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
@@ -643,6 +652,9 @@ pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
-- 
2.43.0


From e84029fd895b7b905e0c12abe4264f88510ba7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 02/20] fix: CONCAT without arguments terminates its (empty)
 result

---
 src/string_functions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index 70322ed..4c6dfec 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -722,6 +722,10 @@ pub unsafe extern "C" fn CONCAT_EXT__STRING(
         panic!("Received null-pointer.")
     }
     let mut dest = dest;
+    if argc < 1 {
+        // nothing to concatenate: the result is the empty string
+        *dest = 0;
+    }
     let mut argv = argv;
     for _ in 0..argc {
         EncodedCharsIter::decode(*argv).encode(&mut dest);
@@ -770,6 +774,10 @@ pub unsafe extern "C" fn CONCAT_EXT__WSTRING(
         panic!("Received null-pointer.")
     }
     let mut dest = dest;
+    if argc < 1 {
+        // nothing to concatenate: the result is the empty string
+        *dest = 0;
+    }
     let mut argv = argv;
     for _ in 0..argc {
         EncodedCharsIter::decode(*argv).encode(&mut dest);
-- 
2.43.0


From 3940aa2aad75daf7302165eccb6f2ece07aa829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 03/20] fix: STRING_TO_WSTRING terminates its result

---
 src/string_conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From b81383f66317700c1c1a7252dfdcb178ea4f34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 04/20] fix: SHL and SHR shift in zeros for shift counts of the
 operand width and above

---
 src/bit_shift_functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index 48510fc..e34bd39 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -4,56 +4,56 @@
 #[no_mangle]
 /// Shift left operation on bytes
 pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
 pub fn SHL__WORD(input: u16, n: u32) -> u16 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
 pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
 pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
 pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
 pub fn SHR__WORD(input: u16, n: u32) -> u16 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
 pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
 pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From 19ff146d8da9311437227de3381d0eef90f7c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 05/20] fix: LREAL/REAL_TO_STRING write large negative numbers
 in scientific notation, not past the buffer

---
 src/extra_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..13b7274 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -59,7 +59,7 @@ pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
-    if input.floor() < 1e14 {
+    if input.abs() < 1e14 {
         write!(&mut *buf, "{input:.6}").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}").unwrap()
@@ -77,7 +77,7 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     // float: 23 bits are used for the mantissa (about 7 decimal digits)
 
     // TODO: discuss when scientific notation should be displayed
-    if input.floor() < 1e6 {
+    if input.abs() < 1e6 {
         write!(&mut *buf, "{input:.6}").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}").unwrap()
-- 
2.43.0


From a080efced6300f1d32b03353e0613024d39f56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 06/20] fix: the number and time to STRING conversions
 terminate their result

---
 src/extra_functions.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 13b7274..f41f3ff 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.abs() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.abs() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -172,14 +172,12 @@ pub extern "C" fn TIME() -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
-    let mut dest = dest;
+    let mut buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     let literals = parse_timestamp(input);
     literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
-        let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
-        let idx = buf.iter().position(|&c| c == 0).unwrap();
-        dest = dest.add(idx);
+        write!(buf, "{}{}", it.0, it.1).unwrap();
     });
+    write!(buf, "\0").unwrap();
 
     0
 }
@@ -218,7 +216,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +230,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +244,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
-- 
2.43.0


From 3defab6d9be485ea33c56eb399d685f41032dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 07/20] fix: TIME_TO_STRING shows a negative duration as minus
 sign and magnitude

---
 src/extra_functions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index f41f3ff..34b8226 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -173,7 +173,10 @@ pub extern "C" fn TIME() -> i64 {
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let mut buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    let literals = parse_timestamp(input);
+    if input < 0 {
+        write!(buf, "-").unwrap();
+    }
+    let literals = parse_timestamp(input.unsigned_abs());
     literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
         write!(buf, "{}{}", it.0, it.1).unwrap();
     });
@@ -182,8 +185,9 @@ pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     0
 }
 
-fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
-    let datetime = chrono::Utc.timestamp_nanos(timestamp_nanos);
+fn parse_timestamp<'a>(timestamp_nanos: u64) -> [(u32, &'a str); 7] {
+    let nanos_per_day = 1e9 as u64 * 3600 * 24;
+    let datetime = chrono::Utc.timestamp_nanos((timestamp_nanos % nanos_per_day) as i64);
     let (nanos, micros, millis, seconds, minutes, hours) = (
         datetime.timestamp_subsec_nanos() % 1000,
         datetime.timestamp_subsec_micros() % 1000,
@@ -192,7 +196,6 @@ fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
         datetime.minute(),
         datetime.hour(),
     );
-    let nanos_per_day = 1e9 as i64 * 3600 * 24;
     let days = (timestamp_nanos / nanos_per_day) as u32;
 
     [
-- 
2.43.0


From e22f3f1784c5436fe7dc94c9baabc5e692b9afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 08/20] fix: CONCAT_DATE and CONCAT_TOD reject arguments beyond
 32 bits instead of truncating them

---
 src/date_time_extra_functions.rs | 62 +++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 2fe83b9..8b77c62 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -51,7 +51,13 @@ pub extern "C" fn CONCAT_DATE__DINT(in1: i32, in2: i32, in3: i32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
-    concat_date(in1 as i32, in2, in3)
+    concat_date(
+        in1
+            .try_into()
+            .expect("Invalid parameters, cannot create date"),
+        in2,
+        in3,
+    )
 }
 
 /// .
@@ -60,7 +66,17 @@ pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    concat_date(
+        in1
+            .try_into()
+            .expect("Invalid parameters, cannot create date"),
+        in2
+            .try_into()
+            .expect("Invalid parameters, cannot create date"),
+        in3
+            .try_into()
+            .expect("Invalid parameters, cannot create date"),
+    )
 }
 
 /// .
@@ -69,7 +85,17 @@ pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__ULINT(in1: u64, in2: u64, in3: u64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    concat_date(
+        in1
+            .try_into()
+            .expect("Invalid parameters, cannot create date"),
+        in2
+            .try_into()
+            .expect("Invalid parameters, cannot create date"),
+        in3
+            .try_into()
+            .expect("Invalid parameters, cannot create date"),
+    )
 }
 
 /// .
@@ -144,7 +170,20 @@ pub extern "C" fn CONCAT_TOD__UDINT(in1: u32, in2: u32, in3: u32, in4: u32) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    concat_tod(
+        in1
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+        in2
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+        in3
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+        in4
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+    )
 }
 
 /// .
@@ -153,7 +192,20 @@ pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i6
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    concat_tod(
+        in1
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+        in2
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+        in3
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+        in4
+            .try_into()
+            .expect("Invalid parameters, cannot create TOD"),
+    )
 }
 
 /// .
-- 
2.43.0


From aad190a141e0bd0b87e31bcb7215581908798497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 09/20] fix: CONCAT_TOD rejects 1000 and more milliseconds in
 second 59

---
 src/date_time_extra_functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 8b77c62..8820fa9 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -215,6 +215,8 @@ pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i
 #[no_mangle]
 pub extern "C" fn concat_tod(in1: u32, in2: u32, in3: u32, in4: u32) -> i64 {
     let dt = NaiveDate::from_ymd_opt(1970, 1, 1)
+        // chrono would take 1000..1999 milliseconds of second 59 as a leap second
+        .filter(|_| in4 < 1000)
         .and_then(|date| date.and_hms_milli_opt(in1, in2, in3, in4))
         .expect("Invalid parameters, cannot create TOD");
     dt.timestamp_nanos()
-- 
2.43.0


From 1c4ea87b7becb20d52ff8b1f8c7c773e9a573d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 10/20] fix: MUL/DIV of TIME and ULINT accept factors beyond 63
 bits when the result is representable

---
 src/date_time_numeric_functions.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/date_time_numeric_functions.rs b/src/date_time_numeric_functions.rs
index 2d0e8c2..ec2eeb4 100644
--- a/src/date_time_numeric_functions.rs
+++ b/src/date_time_numeric_functions.rs
@@ -375,9 +375,8 @@ pub extern "C" fn MUL_LTIME__ULINT(in1: i64, in2: u64) -> i64 {
 /// Panic on overflow
 ///
 fn checked_mul_time_with_unsigned_int(in1: i64, in2: u64) -> i64 {
-    // convert in2 [u64] to [i64]
-    // if in2 is to large for [i64] the multiplication will allways overflow -> panic on try_into()
-    in1.checked_mul(in2.try_into().unwrap()).unwrap()
+    // the product of an [i64] and an [u64] always fits in [i128]
+    (i128::from(in1) * i128::from(in2)).try_into().unwrap()
 }
 
 /// .
@@ -633,9 +632,12 @@ pub extern "C" fn DIV_LTIME__ULINT(in1: i64, in2: u64) -> i64 {
 /// Panic on overflow or division by zero
 ///
 fn checked_div_time_by_unsigned_int(in1: i64, in2: u64) -> i64 {
-    // convert in2 [u64] to [i64]
-    // if in2 is to large for [i64] the division will allways fail -> panic on try_into()
-    in1.checked_div(in2.try_into().unwrap()).unwrap()
+    // divide in [i128]: not every [u64] fits in [i64]
+    i128::from(in1)
+        .checked_div(in2.into())
+        .unwrap()
+        .try_into()
+        .unwrap()
 }
 
 /// .
-- 
2.43.0


From ad539ba71b23dff683918715fd675ae3cbd911ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 11/20] fix: TP can be called while idle and ends its pulse for
 good when the input falls during the pulse

---
 src/timers.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..f9de2b8 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -82,23 +82,22 @@ impl TimerParams {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn TP(timer: &mut TimerParams) {
-    //If timer is active (start time set)
-    let output = if timer.is_running() {
+    let rising_edge = timer.input_rising_edge();
+    //If timer is active (start time set) and elapsed within range
+    let output = if timer.is_running() && timer.is_in_preset_range() {
         timer.update_elapsed_time();
-        // If time elapsed within range
-        if timer.is_in_preset_range() {
-            true
-        } else {
-            if timer.input_falling_edge() {
-                timer.reset()
-            }
-            false
-        }
-    } else if timer.input_rising_edge() {
+        true
+    //The pulse is over (or never was), a rising edge starts a new one
+    } else if rising_edge {
         timer.start();
         true
+    //The input of the last pulse is still set, keep the elapsed time
+    } else if timer.input {
+        timer.update_elapsed_time();
+        false
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        timer.reset();
+        false
     };
     timer.set_output(output);
     timer.input_edge.set(timer.input);
-- 
2.43.0


From ca151db101eb80838fac7a32aa093609902acc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 12/20] fix: timers of zero-initialized function block
 instances are not started

---
 src/timers.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index f9de2b8..053a765 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -12,6 +12,17 @@ pub mod test_time_helpers;
 
 pub type Time = i64;
 
+/// The start of a running timer.
+/// ST code creates its function block instances zero-initialized, all bytes zero
+/// therefore has to mean [`StartTime::NotStarted`]. `Option<Instant>` does not guarantee that.
+#[repr(u8)]
+#[derive(Debug, Default, Clone, Copy)]
+enum StartTime {
+    #[default]
+    NotStarted = 0,
+    Started(Instant) = 1,
+}
+
 #[repr(C)]
 #[derive(Debug, Default)]
 pub struct TimerParams {
@@ -20,7 +31,7 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
-    start_time: Option<Instant>,
+    start_time: StartTime,
 }
 
 impl TimerParams {
@@ -28,16 +39,16 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        matches!(self.start_time, StartTime::Started(_))
     }
 
     fn start(&mut self) {
-        self.start_time = Some(Instant::now());
+        self.start_time = StartTime::Started(Instant::now());
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
-        self.start_time = None;
+        self.start_time = StartTime::NotStarted;
         self.set_elapsed_time(0);
     }
 
@@ -63,7 +74,10 @@ impl TimerParams {
     }
 
     fn get_run_time(&self) -> Option<Duration> {
-        self.start_time.map(|it| it.elapsed())
+        match self.start_time {
+            StartTime::Started(it) => Some(it.elapsed()),
+            StartTime::NotStarted => None,
+        }
     }
 
     fn set_output(&mut self, value: bool) {
-- 
2.43.0


From 315524944090df80fe612063a839cd00565277f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 13/20] fix: EXPT with a DINT exponent is accurate for large
 and negative exponents

---
 src/arithmetic_functions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic_functions.rs b/src/arithmetic_functions.rs
index 7a75981..0f80368 100644
--- a/src/arithmetic_functions.rs
+++ b/src/arithmetic_functions.rs
@@ -219,13 +219,15 @@ pub extern "C" fn ATAN2__LREAL(in1: f64, in2: f64) -> f64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn EXPT__REAL__DINT(in1: f32, in2: i32) -> f32 {
-    in1.powi(in2)
+    // f64 holds every DINT, repeated multiplication would add up rounding errors
+    (in1 as f64).powf(in2 as f64) as f32
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn EXPT__LREAL__DINT(in1: f64, in2: i32) -> f64 {
-    in1.powi(in2)
+    // f64 holds every DINT, repeated multiplication would add up rounding errors
+    in1.powf(in2 as f64)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From c3d2bb887cb0c26b1d1b3d23609378c9398a48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 14/20] fix: EXPT of a REAL with an LREAL exponent does not
 round the exponent

---
 src/arithmetic_functions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic_functions.rs b/src/arithmetic_functions.rs
index 0f80368..8958e71 100644
--- a/src/arithmetic_functions.rs
+++ b/src/arithmetic_functions.rs
@@ -239,9 +239,10 @@ pub extern "C" fn EXPT__REAL__REAL(in1: f32, in2: f32) -> f32 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn EXPT__REAL__LREAL(in1: f32, in2: f64) -> f32 {
-    // casting from an f32 to an f64 will produce the closest possible f32
+    // the exponent must not be rounded to an f32, only the result:
+    // casting from an f64 to an f32 will produce the closest possible f32
     // on overflow, infinity of the same sign as the input
-    in1.powf(in2 as f32)
+    (in1 as f64).powf(in2) as f32
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From c047c6dc7d7c393b15db84c3626becaa234cdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 15/20] fix: SPLIT_LDT is implemented in ST, not external

The six SPLIT_LDT functions have an ST body calling SPLIT_DT and no native
implementation, but were marked {external}, so nothing defined them.
---
 iec61131-st/date_time_extra_functions.st | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/iec61131-st/date_time_extra_functions.st b/iec61131-st/date_time_extra_functions.st
index bc28622..da876c3 100644
--- a/iec61131-st/date_time_extra_functions.st
+++ b/iec61131-st/date_time_extra_functions.st
@@ -796,7 +796,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for INT *)
-{external}
 FUNCTION SPLIT_LDT__INT : INT
 VAR_INPUT
 	in : LDT;
@@ -814,7 +813,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UINT *)
-{external}
 FUNCTION SPLIT_LDT__UINT : INT
 VAR_INPUT
 	in : LDT;
@@ -832,7 +830,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for DINT *)
-{external}
 FUNCTION SPLIT_LDT__DINT : INT
 VAR_INPUT
 	in : LDT;
@@ -850,7 +847,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UDINT *)
-{external}
 FUNCTION SPLIT_LDT__UDINT : INT
 VAR_INPUT
 	in : LDT;
@@ -868,7 +864,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for LINT *)
-{external}
 FUNCTION SPLIT_LDT__LINT : INT
 VAR_INPUT
 	in : LDT;
@@ -886,7 +881,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for ULINT *)
-{external}
 FUNCTION SPLIT_LDT__ULINT : INT
 VAR_INPUT
 	in : LDT;
-- 
2.43.0


From 4540b2f4aaacdcd7d5e856b3c9d4bf5b0cbbd1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 16/20] fix: EXPT does not truncate UDINT, LINT and ULINT
 exponents to DINT

---
 iec61131-st/arithmetic_functions.st | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/iec61131-st/arithmetic_functions.st b/iec61131-st/arithmetic_functions.st
index 2df8690..3a3c62e 100644
--- a/iec61131-st/arithmetic_functions.st
+++ b/iec61131-st/arithmetic_functions.st
@@ -188,7 +188,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : UDINT;
 END_VAR
-    EXPT__REAL__UDINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__UDINT := EXPT__REAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__REAL__ULINT : REAL
@@ -196,7 +196,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : ULINT;
 END_VAR
-    EXPT__REAL__ULINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__ULINT := EXPT__REAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__REAL__SINT : REAL
@@ -220,7 +220,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : LINT;
 END_VAR
-    EXPT__REAL__LINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__LINT := EXPT__REAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__USINT : LREAL
@@ -244,7 +244,7 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : UDINT;
 END_VAR
-    EXPT__LREAL__UDINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__UDINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__ULINT : LREAL
@@ -252,7 +252,7 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : ULINT;
 END_VAR
-    EXPT__LREAL__ULINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__ULINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__SINT : LREAL
@@ -276,5 +276,5 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : LINT;
 END_VAR
-    EXPT__LREAL__LINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__LINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
-- 
2.43.0


From e74331cf70b5ea214ffbc77cd7e921f02450501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 17/20] fix: CHAR_TO_STRING and WCHAR_TO_WSTRING do not read
 behind their argument

---
 iec61131-st/string_conversion.st | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/iec61131-st/string_conversion.st b/iec61131-st/string_conversion.st
index 31b1919..b023ada 100644
--- a/iec61131-st/string_conversion.st
+++ b/iec61131-st/string_conversion.st
@@ -85,10 +85,11 @@ VAR_INPUT
 	in : WCHAR;
 END_VAR
 VAR
-	ptr : REF_TO WSTRING;
+	ptr : REF_TO WCHAR;
 END_VAR
-	ptr := &in;
-	WCHAR_TO_WSTRING := ptr^;
+	WCHAR_TO_WSTRING := " ";
+	ptr := &WCHAR_TO_WSTRING;
+	ptr^ := in;
 END_FUNCTION
 
 (********************
@@ -113,10 +114,11 @@ VAR_INPUT
 	in : CHAR;
 END_VAR
 VAR
-	ptr : REF_TO STRING;
+	ptr : REF_TO CHAR;
 END_VAR
-	ptr := &in;
-	CHAR_TO_STRING := ptr^;
+	CHAR_TO_STRING := ' ';
+	ptr := &CHAR_TO_STRING;
+	ptr^ := in;
 END_FUNCTION
 
 (********************
-- 
2.43.0


From 272725efa3f2748b00fe0f7b76dd169087492323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 18/20] fix: WSTRING_TO_DINT rejects numbers outside DINT like
 STRING_TO_DINT

---
 iec61131-st/extra_functions.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index d87365d..ea27a93 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -679,7 +679,7 @@ VAR_TEMP
     STR : STRING;
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
-    WSTRING_TO_DINT := STRING_TO_LINT(STR);
+    WSTRING_TO_DINT := STRING_TO_DINT(STR);
 END_FUNCTION
 
 (******************************************************************************
-- 
2.43.0


From c89c18451308376236be03e884c7eabeb6dd8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 19/20] fix: WSTRING_TO_LINT, _DINT, _LREAL and _REAL do not
 overflow their temporary STRING

---
 iec61131-st/extra_functions.st | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index ea27a93..8cf55f7 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -496,7 +496,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LINT := STRING_TO_LINT(STR);
@@ -676,7 +676,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_DINT := STRING_TO_DINT(STR);
@@ -716,7 +716,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LREAL := STRING_TO_LREAL(STR);
@@ -732,7 +732,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_REAL := STRING_TO_REAL(STR);
-- 
2.43.0


From 52a90f5b6458d16eb88b5a9edc648252a340006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 20/20] fix: Q and ET of TON and TOF belong to the same instant

Both were computed from a reading of the clock of their own, so a timer whose
preset time expired between the two showed Q of the expired timer with the
elapsed time of a running one.
---
 src/timers.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 053a765..61f4ea1 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -57,15 +57,12 @@ impl TimerParams {
     }
 
     /// Sets the elapsed time to either the preset time or the real elapsed time, whatever is smaller
-    fn update_elapsed_time(&mut self) {
-        if self.is_running() {
-            self.set_elapsed_time(std::cmp::min(
-                self.preset_time,
-                self.get_run_time()
-                    .expect("Timer should be running")
-                    .as_nanos() as i64,
-            ));
-        }
+    /// Returns true if the timer is running and still in the preset range at that very time
+    fn update_elapsed_time(&mut self) -> bool {
+        self.get_run_time().map_or(false, |it| {
+            self.set_elapsed_time(std::cmp::min(self.preset_time, it.as_nanos() as i64));
+            it <= Duration::from_nanos(self.preset_time as u64)
+        })
     }
 
     fn is_in_preset_range(&self) -> bool {
@@ -124,8 +121,7 @@ pub extern "C" fn TON(timer: &mut TimerParams) {
         //Timer was strarted at some point
         if timer.is_running() {
             //Timer is still running
-            timer.update_elapsed_time();
-            !timer.is_in_preset_range()
+            !timer.update_elapsed_time()
             //Timer stopped, but the input is new
         } else if timer.input_rising_edge() {
             timer.start();
@@ -155,8 +151,7 @@ pub extern "C" fn TOF(timer: &mut TimerParams) {
         timer.start();
         true
     } else if timer.is_running() {
-        timer.update_elapsed_time();
-        timer.is_in_preset_range()
+        timer.update_elapsed_time()
     } else {
         false
     };
-- 
2.43.0

