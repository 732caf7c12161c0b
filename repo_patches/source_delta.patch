From ba697e85a3e7edcfa3443ea2fcdb94ec413bc66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 01/12] fix: date_from_float must not fail on the first days of
 a year

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..6d750c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,9 +52,11 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    let y = (yr - 0.00274).floor();
+    // Day n of a year is at n / days_in_year, so a year begins half a day before day 1
+    let y = (yr - 0.5 / 366.0).floor();
     let yp = y as i32;
-    NDt::from_yo_opt(yp, ((yr - y) * days_in_year(yp) as f64).round() as u32).unwrap()
+    let ds = days_in_year(yp) as f64;
+    NDt::from_yo_opt(yp, ((yr - y) * ds).round().clamp(1.0, ds) as u32).unwrap()
 }
 
 /**
-- 
2.43.0


From 78b15b21b3f55cd957ae1d4b020171b13e00b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 02/12] fix: annuity value and payment at zero and vanishing
 rates

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6d750c7..93340f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -255,6 +255,17 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
     pv * (r * n).exp()
 }
 
+/** PV of `k` payments of 1 at a per payment rate `x` close to 0, where the closed
+form `(1 - (1+x)^-k) / x` loses its digits and becomes 0 / 0 at `x = 0`
+*/
+fn small_rate_annuity(x: f64, k: f64) -> f64 {
+    if x == 0.0 {
+        k
+    } else {
+        -(-k * x.ln_1p()).exp_m1() / x
+    }
+}
+
 /** PV of an annuity with multiple payments per period
 - pmt = payment made in each transaction
 - r   = rate of return
@@ -263,6 +274,9 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
 */
 pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
     let rn = (1.0 + r / m).powf(n * m);
+    if (r / m).abs() < 1e-6 {
+        return -pmt * small_rate_annuity(r / m, n * m) - fv / rn;
+    }
     -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
 }
 
@@ -274,6 +288,9 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
 */
 pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
     let rn = (1.0 + r / m).powf(n * m);
+    if (r / m).abs() < 1e-6 {
+        return -(pv + fv / rn) / small_rate_annuity(r / m, n * m);
+    }
     -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
 }
 
-- 
2.43.0


From f829f7e9c9f67e26c3699bdf4fe325d3fdd3e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 03/12] fix: approx must not accept NaN

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 93340f9..b30e71d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -346,7 +346,8 @@ pub fn exp_nom_rate(r: f64, m: f64) -> f64 {
 */
 pub fn approx(x: f64, y: f64) -> bool {
     let mx = f64::max(x.abs(), y.abs());
-    mx < 1e-8 || (x - y).abs() / mx < 1e-6
+    // f64::max ignores a NaN, the difference does not
+    (mx < 1e-8 && !(x - y).is_nan()) || (x - y).abs() / mx < 1e-6
 }
 
 /** Check if a float is zero
-- 
2.43.0


From 738afca2d9d7ec487d809f8e0dc16a1961f2ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 04/12] fix: irr must only report rates above -100% that zero
 the NPV

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b30e71d..8f6b63e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -392,7 +392,11 @@ pub fn xnpv(r: f64, dt: &Vec<NDt>, d0: NDt, cf: &Vec<f64>) -> f64 {
 - cf  = vector of corresponding cash flows
 */
 pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {
-    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)
+    // Below -100% and in the limit towards it the iteration may settle on a point that is no IRR
+    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).filter(|&r| {
+        let gross = npv_t0(r, tim, &cf.iter().map(|c| c.abs()).collect());
+        r > -1.0 && npv_t0(r, tim, cf).abs() <= 1e-6 * gross
+    })
 }
 
 /** XIRR of cash flow against time given as NaiveDate
-- 
2.43.0


From 92611bcd459f16913d1506718f588c3291ee18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 05/12] fix: coupon schedule must not lose a coupon to float
 truncation

---
 src/fixedincomes/bonds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 5515686..eb5c0ca 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -74,7 +74,7 @@ impl CouponBond {
      */
     pub fn generate_cashflow(&self) -> Vec<f64> {
         let c = self.par * self.c / self.freq;
-        let sz = (self.freq * self.t_life) as usize;
+        let sz = (self.freq * self.t_life + 1e-6) as usize;
         let mut cb: Vec<f64> = vec![c; sz];
         cb[sz - 1] += self.par;
         cb
-- 
2.43.0


From b979f48b186822677829092a7acd8b5a366e7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 06/12] fix: rate curve lookup at a node that rounds just below
 it

---
 src/fixedincomes/bonds/rates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds/rates.rs b/src/fixedincomes/bonds/rates.rs
index e95c404..5d5447c 100644
--- a/src/fixedincomes/bonds/rates.rs
+++ b/src/fixedincomes/bonds/rates.rs
@@ -42,7 +42,7 @@ impl RateCurve {
     pub fn rate_estim(&self, y: f64) -> f64 {
         fn estima(rx: &Vec<f64>, fq: f64, y: f64) -> f64 {
             let proper = |x: f64| -> (usize, f64) {
-                let sl = x.floor();
+                let sl = (x + 1e-9).floor();
                 (sl as usize, x - sl)
             };
             let (fl, pf) = proper(y * fq);
-- 
2.43.0


From dc0abe5359f4d54dc3754972abc2e67ef274d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 07/12] fix: check_dates must compare with the end of the
 previous period

---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..6ebfe1b 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,8 +1301,8 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (dt, mut dp) = dts[0];
+    if dt > dp {
         return false;
     }
 
-- 
2.43.0


From aa3483de57f8d957aae390db22e85e1c429604fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 08/12] fix: consecutive_periods must not fail on month ends

---
 src/statements.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 6ebfe1b..c292d78 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1324,6 +1324,11 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
             dt_1 = d1;
         }
     }
+    let last_valid = |y: i32, m: u32, d: u32| {
+        (0..4)
+            .find_map(|k| NDt::from_ymd_opt(y, m, d - k))
+            .unwrap()
+    };
     let pr_qtr = |y: i32, m: u32| if m <= 3 { (y - 1, m + 9) } else { (y, m - 3) };
 
     let dt = dt_1.day();
@@ -1332,8 +1337,8 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     for _ in 0..100 {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
+        let dt_q = last_valid(yq, mq, dt);
+        let dt_0 = last_valid(y1 - 1, m1, dt);
 
         if prd.contains(&(dt_q, dt_1)) {
             bt.insert((dt_q, dt_1));
-- 
2.43.0


From 40f15d827d7eb6d897108672aed347de3fc94f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 09/12] fix: consecutive_periods must not stop after 100
 periods

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index c292d78..0f326cd 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1334,7 +1334,7 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     let dt = dt_1.day();
     let mut bt = BTreeSet::new();
 
-    for _ in 0..100 {
+    loop {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
         let dt_q = last_valid(yq, mq, dt);
-- 
2.43.0


From 88cdc1893679b889ba46c4571dabbbdd8e03b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 10/12] fix: split_periods must not lose a period of exactly
 120 days

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 0f326cd..7eae970 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1399,7 +1399,7 @@ impl Accounts {
                 })
                 .collect(),
             dts.filter_map(|&(d0, d1)| {
-                if d0 + Duration::days(120) > d1 {
+                if d0 + Duration::days(120) >= d1 {
                     Some((d0, d1))
                 } else {
                     None
-- 
2.43.0


From 622d260ed3815abecf87e089dadf6e989274d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 11/12] fix: display of Accounts without totals or without
 statements

---
 src/statements.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 7eae970..a502be9 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1807,12 +1807,14 @@ impl fmt::Display for Accounts {
                     .iter()
                     .map(|(_, x)| x.value(Assets).floor() as i64)
                     .max()
-                    .unwrap(),
+                    .unwrap_or(1)
+                    .max(1),
                 self.profit_loss
                     .iter()
                     .map(|(_, x)| x.value(Revenue).floor() as i64)
                     .max()
-                    .unwrap(),
+                    .unwrap_or(1)
+                    .max(1),
             ) as f64)
                 .log10()
                 .ceil() as i32)
-- 
2.43.0


From ce4317cd0d33df569835d9ab530f1e300873a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 12/12] fix: report calc_elements must keep a cash flow it
 cannot derive

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index a502be9..fb1064d 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1200,7 +1200,7 @@ impl FinancialReport {
                 .calc_elements()
                 .clone(),
             ),
-            (_, _) => None,
+            (_, _) => get_hm(&self.cash_flow),
         };
 
         self.balance_sheet_beg = b_beg;
-- 
2.43.0

