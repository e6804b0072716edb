From 01404789098246064397174d4af487851eda3dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 01/15] fix: count the last leap second for times after the
 last table entry

A system time after the last entry of the leap-second table was converted
without that entry's own leap second (26 instead of 27 today).
---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index ffa8a74..5f512e0 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -239,6 +239,8 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-        SegmentLookupResult::AfterLast(last_segment) => last_segment.accumulated_leap_seconds,
+        SegmentLookupResult::AfterLast(last_segment) => {
+            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
+        }
     }
 }
-- 
2.43.0


From 5d9d3184035aa95b580ed35fcde573feb4e9a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 02/15] fix: do not wrap the day number of far-away system
 times

The day number was truncated to 32 bits, so system times millions of years
away could be taken for one between two leap seconds.
---
 src/zoneinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 5f512e0..22982c1 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -235,7 +235,7 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     let utc = iso8601::load_chronology("UTC");
     let leap_seconds = utc.leap_seconds();
 
-    let day = (unix_timestamp / 86_400) as i32;
+    let day = (unix_timestamp / 86_400).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-- 
2.43.0


From 9bb0df7acdab266b0a97fd39c50fccca83bbdab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 03/15] fix: round system times before 1970 towards the past

The fraction of a second of a system time before the epoch was added to the
seconds instead of subtracted, which moved it by up to two seconds and could
reverse the order of two system times.
---
 src/instant.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 16dde7c..cb63380 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -363,10 +363,16 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     }
     .unwrap();
     let mut seconds = duration.as_secs() as i64;
+    let mut nanoseconds = duration.subsec_nanos();
     if sign {
-        seconds = -seconds;
+        // The duration can be i64::MIN seconds, which has no positive counterpart.
+        seconds = seconds.wrapping_neg();
+        if nanoseconds != 0 {
+            seconds -= 1;
+            nanoseconds = 1_000_000_000 - nanoseconds;
+        }
     }
-    (seconds, duration.subsec_nanos())
+    (seconds, nanoseconds)
 }
 
 /// Return true if the system time includes leap seconds.
-- 
2.43.0


From a9ae205c094132bde06dada22de2ec87110aea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 04/15] fix: report system times that do not fit the tick type

Converting a system time to an instant wrapped or panicked when the number of
ticks (or only a factor of the calculation) did not fit the tick type. The
calculation is now made in 128 bits and the result checked; since
SystemTimeError cannot be constructed the error is InstantOutOfRange.
---
 src/instant.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index cb63380..c8c35ef 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -323,27 +323,22 @@ where
 }*/
 
 impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
-    type Error = std::time::SystemTimeError;
+    type Error = InstantOutOfRange;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let ticks_per_second =
-            T::from(S::TICKS_PER_SECOND).expect("ticks per second is too large for type T)");
-        let nanoseconds_per_second =
-            T::from(1_000_000_000).expect("nanoseconds per second is too large for type T)");
-        let nanoseconds_per_tick = nanoseconds_per_second / ticks_per_second;
+        let ticks_per_second = S::TICKS_PER_SECOND as i128;
+        let nanoseconds_per_tick = 1_000_000_000 / ticks_per_second;
 
-        let (mut seconds, subsecond_ns) = system_time_to_time_t(value);
+        let (seconds, subsecond_ns) = system_time_to_time_t(value);
+        // Both factors fit in 64 bits so the number of ticks always fits in 128 bits.
+        let mut total_seconds = seconds as i128;
         if !system_time_includes_leap_seconds() {
-            seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i64;
+            total_seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i128;
         }
 
-        // FIXME report proper error here
-        let seconds = T::from(seconds).unwrap();
-        // FIXME and here
-        let subsecond_ns = T::from(subsecond_ns).unwrap();
-
-        let subsec_ticks = subsecond_ns / nanoseconds_per_tick;
-        let total_ticks = seconds * ticks_per_second + subsec_ticks;
+        let subsec_ticks = subsecond_ns as i128 / nanoseconds_per_tick;
+        let total_ticks = total_seconds * ticks_per_second + subsec_ticks;
+        let total_ticks = T::from(total_ticks).ok_or(InstantOutOfRange)?;
 
         Ok(Instant::<T, S> {
             ticks: total_ticks,
-- 
2.43.0


From 80c0e9809e7a5b39a0d1092ec1ba32d0431e37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 05/15] fix: compare instants of different scales correctly

The finer instant was multiplied by the scale factor where it has to be
divided (or the coarser one multiplied), so 1 s and 1000 ms compared unequal
and the multiplication could overflow.
---
 src/instant.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index c8c35ef..9a7d021 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -170,6 +170,16 @@ impl<T: Tick, S: Scale> Add<Duration<T, S>> for Instant<T, S> {
     }
 }
 
+/// Split ticks into whole ticks of a scale that is `factor` times coarser, and a non-negative rest.
+fn split_ticks<T: Tick>(ticks: T, factor: u32) -> (T, T) {
+    match T::from(factor) {
+        Some(factor) => ticks.div_mod_floor(&factor),
+        // T cannot hold the ticks of even one coarser tick.
+        None if ticks < T::zero() => (T::zero() - T::one(), T::one()),
+        None => (T::zero(), ticks),
+    }
+}
+
 /*impl<T: Tick, S1: Scale, S2: Scale> PartialEq<Instant<T, S2>> for Instant<T, S1> {
     fn eq(&self, other: &Instant<T, S2>) -> bool {
         // If
@@ -237,14 +247,12 @@ where
         let s2 = S2::TICKS_PER_SECOND;
         match s1.cmp(&s2) {
             std::cmp::Ordering::Less => {
-                let factor =
-                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_eq(t2 * factor)
+                let (whole, rest) = split_ticks(t2, s2 / s1);
+                rest.is_zero() && t1.num_eq(whole)
             }
             std::cmp::Ordering::Greater => {
-                let factor =
-                    T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_eq(t2)
+                let (whole, rest) = split_ticks(t1, s1 / s2);
+                rest.is_zero() && whole.num_eq(t2)
             }
             std::cmp::Ordering::Equal => t1.num_eq(t2),
         }
@@ -296,14 +304,22 @@ where
         let s2 = S2::TICKS_PER_SECOND;
         match s1.cmp(&s2) {
             std::cmp::Ordering::Less => {
-                let factor =
-                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_cmp(t2 * factor)
+                let (whole, rest) = split_ticks(t2, s2 / s1);
+                match t1.num_cmp(whole) {
+                    Some(std::cmp::Ordering::Equal) if !rest.is_zero() => {
+                        Some(std::cmp::Ordering::Less)
+                    }
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Greater => {
-                let factor =
-                    T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_cmp(t2)
+                let (whole, rest) = split_ticks(t1, s1 / s2);
+                match whole.num_cmp(t2) {
+                    Some(std::cmp::Ordering::Equal) if !rest.is_zero() => {
+                        Some(std::cmp::Ordering::Greater)
+                    }
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Equal => t1.num_cmp(t2),
         }
-- 
2.43.0


From 508232b30ec3cfcc27884c111a1d2a4762712833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 06/15] fix: clamp seconds to the real length of the
 destination day

The last day of a leap-second segment was never recognised, days outside the
table were not clamped at all, and the clamped second was one too high.
---
 src/iso8601/date_time.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d7f4815..a3d4e24 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -602,20 +602,17 @@ impl DateTime {
         // we need a larger return type here, and probably some kind of fix to the logic.
         let leap_second_chronology = self.chronology.leap_seconds();
         let days_from_epoch = gnd.to_day();
+        let mut leap_seconds = 0;
         if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
             let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
-            let leap_seconds = if day_offset == segment.duration_days {
-                segment.leap_seconds
-            } else {
-                0
-            };
-            let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
-            if second >= day_length_s {
-                let second_carry = second - day_length_s;
-                (day_length_s, second_carry)
-            } else {
-                (second, 0)
+            if day_offset == segment.duration_days - 1 {
+                leap_seconds = segment.leap_seconds;
             }
+        }
+        let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
+        let last_second = day_length_s - 1;
+        if second > last_second {
+            (last_second, second - last_second)
         } else {
             (second, 0)
         }
-- 
2.43.0


From c4afc75511b4bdc8164d02038b2fe305f6e244bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 07/15] fix: refuse calendar amounts that lead out of range
 instead of wrapping

Large numbers of years, months, days, hours or minutes wrapped around in the
narrow types of the calculation and gave a date-time within range (or
panicked in debug builds) where the checked functions have to return None.
---
 src/gregorian_normalized_date.rs |  3 ++-
 src/iso8601/date_time.rs         | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index ea30dae..6661286 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -400,7 +400,8 @@ impl GregorianNormalizedDate {
         let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
         let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);
 
-        self.cycle = self.cycle.checked_add(cycles as i8).ok_or(OutOfBounds)?;
+        let cycles = i8::try_from(cycles).map_err(|_| OutOfBounds)?;
+        self.cycle = self.cycle.checked_add(cycles).ok_or(OutOfBounds)?;
         self.century = century;
         self.quadrennium = quadrennium;
         self.year = year;
diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index a3d4e24..60650ad 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -320,6 +320,10 @@ impl DateTime {
     }
 
     pub fn checked_add_years(&self, years: i16) -> Option<DateTimeWithCarry> {
+        let year = self.year() as i32 + years as i32;
+        if !(MIN_YEAR as i32..=MAX_YEAR as i32).contains(&year) {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_years(years);
         if !is_in_range(&gnd) {
@@ -347,6 +351,10 @@ impl DateTime {
     }
 
     pub fn checked_add_months(&self, months: i32) -> Option<DateTimeWithCarry> {
+        let month = self.year() as i64 * 12 + (self.month() - 1) as i64 + months as i64;
+        if !(MIN_YEAR as i64..=MAX_YEAR as i64).contains(&month.div_floor(&12)) {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_months(months);
         if !is_in_range(&gnd) {
@@ -417,9 +425,10 @@ impl DateTime {
         let (minute, second_of_minute) =
             second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
         let second_of_minute = second_of_minute as u8;
-        let (day_delta, minute) =
-            (minute as i64 + minutes).div_mod_floor(&(MINUTES_PER_DAY as i64));
-        let (day_delta, minute) = (day_delta as i32, minute as u16);
+        let (day_delta, minute) = (minute as i64)
+            .checked_add(minutes)?
+            .div_mod_floor(&(MINUTES_PER_DAY as i64));
+        let (day_delta, minute) = (i32::try_from(day_delta).ok()?, minute as u16);
         gnd.add_days(day_delta).ok()?;
         if !is_in_range(&gnd) {
             return None;
-- 
2.43.0


From 3546ed75925f2bd4ba30a4f1d794908dc37c1bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 08/15] fix: return None for second counts near the end of the
 64-bit range

checked_add_seconds panicked when the resulting instant was so far in the past
that its distance from the first leap-second segment did not fit in 64 bits.
---
 src/iso8601/date_time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 60650ad..13066ec 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -583,8 +583,10 @@ impl DateTime {
                 Some((gnd, second))
             }
             SegmentLookupResult::BeforeFirst(first_segment) => {
-                let seconds_until_first_segment =
-                    (first_segment.start_instant.into() - instant).ticks() as u64;
+                let seconds_until_first_segment = (first_segment.start_instant.ticks_since_epoch()
+                    as i64)
+                    .checked_sub(instant.ticks_since_epoch())?
+                    as u64;
                 // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                 // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                 // It's essentially a division that rounds up.
-- 
2.43.0


From cd9eb0244d3d21b2e4541297fb232ddb42b8f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 09/15] fix: keep all bits of the nanosecond in a packed
 DateTime

The upper half of the nanosecond was shifted out of the packed word, so
fractions that differ by a multiple of 65536 ns compared equal. Pack the
fields at the positions the layout comment gives.
---
 src/iso8601/date_time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 13066ec..defc8bd 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -176,9 +176,9 @@ impl DateTime {
         let year = gnd.year;
         let day = gnd.day;
         let rebased_cycle = cycle as i32 + 6;
-        ((nanosecond & 0x7FFF0000) as u64) << 48
+        ((nanosecond & 0x7FFF0000) as u64) << 32
             | (p as u64) << 41
-            | ((second & 0x10000) as u64) << 40
+            | ((second & 0x10000) as u64) << 24
             | ((rebased_cycle & 0x1F) as u64) << 35
             | ((century & 0x3) as u64) << 33
             | ((quadrennium & 0x1F) as u64) << 27
@@ -194,9 +194,9 @@ impl DateTime {
         let quadrennium = ((w0 >> 27) & 0x1F) as u8;
         let century = ((w0 >> 33) & 0x3) as u8;
         let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
-        let second = ((w0 >> 40) & 0x10000) as u32 | lower_second;
-        let precision = Self::decode_precision((w0 >> 41) as u8);
-        let nanosecond = ((w0 >> 48) & 0x7FFF0000) as u32;
+        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
+        let precision = Self::decode_precision(((w0 >> 41) & 0xF) as u8);
+        let nanosecond = ((w0 >> 32) & 0x7FFF0000) as u32;
         let gnd = GregorianNormalizedDate {
             cycle,
             century,
-- 
2.43.0


From cb9829d3f4ecc4f59fca69f2644e8c2379d0a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 10/15] fix: let date-times of year or month precision be built

The month and day that such a date-time leaves out defaulted to 0, which does
not exist, so the builder refused every one of them.
---
 src/iso8601/date_time_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time_builder.rs b/src/iso8601/date_time_builder.rs
index a41990b..37291c8 100644
--- a/src/iso8601/date_time_builder.rs
+++ b/src/iso8601/date_time_builder.rs
@@ -141,12 +141,12 @@ impl DateTimeBuilder {
         let month = if precision >= Precision::Months {
             self.month.expect("No month provided")
         } else {
-            0
+            1
         };
         let day = if precision >= Precision::Days {
             self.day.expect("No day provided")
         } else {
-            0
+            1
         };
         let hour = if precision >= Precision::Hours {
             self.hour.expect("No hour provided")
-- 
2.43.0


From 50dadf50c4a53fd4271e9e66f5960dbe4e11bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 11/15] fix: report day 0 as an invalid date

It panicked with an arithmetic underflow in debug builds.
---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index 6661286..3d2999a 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -204,7 +204,7 @@ impl GregorianNormalizedDate {
 
         let mut year = year;
         let mut month = month - 1;
-        let day = day - 1;
+        let day = day.checked_sub(1).ok_or(Error::InvalidDate)?;
         if month < 2 {
             month += 12;
             year -= 1;
-- 
2.43.0


From a90049f80ddffe6550250296f78294bcd9ef30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 12/15] fix: end leap-second segments on the right day

The day was taken from a timestamp that includes the preceding leap seconds, so
a removed second that is not preceded by an inserted one was put a day early,
as was everything after more removed than inserted seconds.
---
 src/zoneinfo.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 22982c1..f8e116f 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -202,12 +202,15 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
     let mut start_day = 0;
     let mut previous_leap_second_total = 0;
     for leap_second in tz.leap_seconds.iter() {
-        let end_day = leap_second.timestamp as u32 / 86400;
-
         let leap_second_total = leap_second.leap_second_count;
         let leap_seconds = leap_second_total - previous_leap_second_total;
         assert!(leap_seconds >= i8::MIN as i32 && leap_seconds <= i8::MAX as i32);
         let leap_seconds = leap_seconds as i8;
+        // The timestamp counts the leap seconds before this one. It is that of the inserted second
+        // (the first one past 86,400) or of the removed one (the last of the day).
+        let removed_second = if leap_seconds < 0 { 1 } else { 0 };
+        let end_day = (leap_second.timestamp - previous_leap_second_total + removed_second) as u32
+            / 86400;
         let duration_days = end_day - start_day;
         let duration_seconds = duration_days as i32 * 86400 + leap_seconds as i32;
         segments.push(ContinuousTimeSegment {
-- 
2.43.0


From 2ad7bc63ad4756fd54be49e2e1f280ef65412c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 13/15] fix: refuse zone files with leap seconds out of order

A damaged file whose leap-second records are not in order was accepted (with
wrapping arithmetic in release builds) and gave wrong times.
---
 src/zoneinfo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index f8e116f..8209068 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -204,13 +204,20 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
     for leap_second in tz.leap_seconds.iter() {
         let leap_second_total = leap_second.leap_second_count;
         let leap_seconds = leap_second_total - previous_leap_second_total;
-        assert!(leap_seconds >= i8::MIN as i32 && leap_seconds <= i8::MAX as i32);
+        assert!(
+            (-1..=1).contains(&leap_seconds),
+            "leap seconds out of order in zoneinfo file"
+        );
         let leap_seconds = leap_seconds as i8;
         // The timestamp counts the leap seconds before this one. It is that of the inserted second
         // (the first one past 86,400) or of the removed one (the last of the day).
         let removed_second = if leap_seconds < 0 { 1 } else { 0 };
         let end_day = (leap_second.timestamp - previous_leap_second_total + removed_second) as u32
             / 86400;
+        assert!(
+            end_day > start_day,
+            "leap seconds out of order in zoneinfo file"
+        );
         let duration_days = end_day - start_day;
         let duration_seconds = duration_days as i32 * 86400 + leap_seconds as i32;
         segments.push(ContinuousTimeSegment {
-- 
2.43.0


From 0941150b21e90696e3d57df77439113b78afce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 14/15] fix: round negative durations down when flooring

Duration::floor truncated towards zero, so a negative duration was rounded up,
unlike Instant::floor.
---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5082602..d5035a8 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             "Cannot floor to a higher scale"
         );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks / factor)
+        Duration::new(self.ticks.div_floor(&factor))
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
-- 
2.43.0


From 098624d070e2dbaf297695c5282eb398ab8fc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 15/15] fix: honour a TZDIR that is not valid UTF-8

---
 src/zoneinfo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 8209068..5cc0952 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -40,8 +40,8 @@ fn tzdir() -> PathBuf {
     // We could try to be more clever here (look for the root directory that /etc/localtime points
     // to, check if /etc/zoneinfo has anything, etc), but the logic here appears to be what
     // the C library does so we probably shouldn't deviate too much from that behavior.
-    std::env::var("TZDIR")
-        .unwrap_or_else(|_| "/usr/share/zoneinfo".to_string())
+    std::env::var_os("TZDIR")
+        .unwrap_or_else(|| "/usr/share/zoneinfo".into())
         .into()
 }
 
-- 
2.43.0

