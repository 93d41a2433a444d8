From 5294178c71ae65f4911aa48796ec3ff7b8c32e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 1/6] fix: transact refuses a calculated credit side before
 posting the debit

---
 src/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..2592036 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -892,6 +892,9 @@ pub trait BsMapTrait {
 
     /** Debit and Credit amount `val` from BsMap for a complete transaction */
     fn transact(&mut self, (deb, crd, val): (BsType, BsType, f64)) -> &mut Self {
+        if deb.is_calc() || crd.is_calc() {
+            panic!("Posting to a calc item ({:?}, {:?})", deb, crd)
+        }
         self.debit(deb, val).credit(crd, val)
     }
 
-- 
2.43.0


From 22738f5488442f8cdef9ecce3cf874474de0ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 2/6] fix: split_periods no longer drops periods of exactly 120
 days

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 2592036..1155900 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1389,7 +1389,7 @@ impl Accounts {
         (
             dts.clone()
                 .filter_map(|&(d0, d1)| {
-                    if d0 + Duration::days(120) < d1 {
+                    if d0 + Duration::days(120) <= d1 {
                         Some((d0, d1))
                     } else {
                         None
-- 
2.43.0


From 4553b0969bbdef555e17cda419e4d72c3c1dd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 3/6] fix: consecutive_periods handles month-end and leap-day
 period ends

---
 src/statements.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 1155900..6e81d92 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1328,6 +1328,12 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
         }
     }
     let pr_qtr = |y: i32, m: u32| if m <= 3 { (y - 1, m + 9) } else { (y, m - 3) };
+    let clamped = |y: i32, m: u32, d: u32| {
+        (1..=d)
+            .rev()
+            .find_map(|dx| NDt::from_ymd_opt(y, m, dx))
+            .unwrap()
+    };
 
     let dt = dt_1.day();
     let mut bt = BTreeSet::new();
@@ -1335,8 +1341,8 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     for _ in 0..100 {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
+        let dt_q = clamped(yq, mq, dt);
+        let dt_0 = clamped(y1 - 1, m1, dt);
 
         if prd.contains(&(dt_q, dt_1)) {
             bt.insert((dt_q, dt_1));
-- 
2.43.0


From d1b78f585dd2025716f451e399edd64e2135a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 4/6] fix: Display of an empty or not recalculated book neither
 panics nor scales to infinity

---
 src/statements.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 6e81d92..25583c0 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1811,13 +1811,14 @@ impl fmt::Display for Accounts {
                     .iter()
                     .map(|(_, x)| x.value(Assets).floor() as i64)
                     .max()
-                    .unwrap(),
+                    .unwrap_or(0),
                 self.profit_loss
                     .iter()
                     .map(|(_, x)| x.value(Revenue).floor() as i64)
                     .max()
-                    .unwrap(),
-            ) as f64)
+                    .unwrap_or(0),
+            )
+            .max(1) as f64)
                 .log10()
                 .ceil() as i32)
                 / 3
-- 
2.43.0


From ec001657b328602786386b55b552bc9cb28ab1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 5/6] fix: newt_raph does not take a non-finite slope for
 convergence

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..45b1e46 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -388,7 +388,7 @@ pub fn newt_raph(f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) -> Option<f64> {
     for _ in 0..100 {
         let fx = f(x);
         let df = (f(x + dx) - fx) / dx;
-        if is_zero(df) {
+        if is_zero(df) || !df.is_finite() {
             return None;
         }
         let del_x = fx / df;
-- 
2.43.0


From 7cd04bdbf4de9ac2f953f76b45ffc51994863669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 6/6] fix: check_dates accepts periods that follow on from each
 other

---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 25583c0..585b285 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1304,8 +1304,8 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (d0, mut dp) = dts[0];
+    if d0 > dp {
         return false;
     }
 
-- 
2.43.0

