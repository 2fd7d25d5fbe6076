From 1e50a17d86355a4735fd1ae80c0082706e340c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:31 +0000
Subject: [PATCH 1/5] fix: accept the most negative integer in ratios

Negating isize::MIN overflowed, so constructing a ratio with it panicked in
debug builds. Take the magnitude with unsigned_abs instead.
---
 src/lib.rs            | 4 ++--
 src/strategy/ratio.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1adac3..4bab521 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,8 +87,8 @@ impl Number {
     pub fn ratio(num: isize, den: isize) -> Number {
         Number::ratio_u(
             (num >= 0 && den >= 0) || (num < 0 && den < 0),
-            if num >= 0 { num } else { -num } as usize,
-            if den >= 0 { den } else { -den } as usize,
+            num.unsigned_abs(),
+            den.unsigned_abs(),
         )
     }
 
diff --git a/src/strategy/ratio.rs b/src/strategy/ratio.rs
index d322086..8935831 100644
--- a/src/strategy/ratio.rs
+++ b/src/strategy/ratio.rs
@@ -240,8 +240,8 @@ pub fn new_i(
 ) {
     new(
         (num >= 0 && den >= 0) || (num < 0 && den < 0),
-        if num >= 0 { num } else { -num } as usize,
-        if den >= 0 { den } else { -den } as usize,
+        num.unsigned_abs(),
+        den.unsigned_abs(),
     )
 }
 
-- 
2.43.0


From b22daeb1e591d6f7b3bd2d488bcc67d1c0a290ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:31 +0000
Subject: [PATCH 2/5] fix: remove debug output from homographic transformations

Every homographic result printed its internal coefficients to standard
output. A library must leave the standard output of its caller alone.
---
 src/strategy/homographic.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index f5f8da3..50221e9 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1084,8 +1084,6 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(primer) = self.primer_egest() {
                 return (None, primer, None, Some(self));
@@ -1137,8 +1135,6 @@ impl Homographic {
 
 impl Strategy for Homographic {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(reduction) = self.reduction_egest() {
                 return Ok(reduction);
-- 
2.43.0


From 9b4e35543578b9c8ec12deb57e0cb1a9084ce424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:31 +0000
Subject: [PATCH 3/5] fix: refuse homographic transformations with a zero
 denominator

When both denominator coefficients were zero the result was a number whose
expansion never ended. Panic with division by zero, as ratios do. This also
covers combine, which delegates to a homographic once an operand is used up.
---
 src/strategy/homographic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 50221e9..2368b4c 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -862,6 +862,10 @@ pub fn new(
         (special, primer, ratio, None)
     }
 
+    if dx == 0 && d == 0 {
+        panic!("division by zero");
+    }
+
     if nx == 0 && dx == 0 {
         return as_ratio(n, d);
     }
-- 
2.43.0


From ecae8174566c373f7314e31455d848bade083633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:09 +0000
Subject: [PATCH 4/5] fix: detect overflow when negating coefficients

Negating isize::MIN wrapped in release builds. A homographic or combined
result could then come out with the wrong sign, such as -1/4 * isize::MIN
giving a negative number. Use checked negation, as the other coefficient
operations do.
---
 src/strategy/combine.rs     | 24 ++++++++++++------------
 src/strategy/homographic.rs | 16 ++++++++--------
 src/strategy/support.rs     | 22 +++++++++++-----------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 01420b3..7bf7690 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -727,19 +727,19 @@ pub fn new(
 
     macro_rules! reflect_x {
         () => {
-            a *= -1;
-            b *= -1;
-            e *= -1;
-            f *= -1;
+            a = a.checked_neg().unwrap();
+            b = b.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            f = f.checked_neg().unwrap();
         };
     }
 
     macro_rules! reflect_y {
         () => {
-            a *= -1;
-            c *= -1;
-            e *= -1;
-            g *= -1;
+            a = a.checked_neg().unwrap();
+            c = c.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            g = g.checked_neg().unwrap();
         };
     }
 
@@ -1106,10 +1106,10 @@ impl Combine {
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.a = -self.a;
-        self.b = -self.b;
-        self.c = -self.c;
-        self.d = -self.d;
+        self.a = self.a.checked_neg().unwrap();
+        self.b = self.b.checked_neg().unwrap();
+        self.c = self.c.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 2368b4c..27717ae 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -889,12 +889,12 @@ pub fn new(
             swap(&mut dx, &mut d);
         }
         Some(protocol::Primer::Reflect) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
         }
         Some(protocol::Primer::Ground) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
             swap(&mut nx, &mut n);
             swap(&mut dx, &mut d);
         }
@@ -968,16 +968,16 @@ impl Homographic {
     }
 
     fn ground(&mut self) -> protocol::Primer {
-        self.dx = -self.dx;
-        self.d = -self.d;
+        self.dx = self.dx.checked_neg().unwrap();
+        self.d = self.d.checked_neg().unwrap();
         swap(&mut self.nx, &mut self.dx);
         swap(&mut self.n, &mut self.d);
         protocol::Primer::Ground
     }
 
     fn reflect(&mut self) -> protocol::Primer {
-        self.nx = -self.nx;
-        self.n = -self.n;
+        self.nx = self.nx.checked_neg().unwrap();
+        self.n = self.n.checked_neg().unwrap();
         protocol::Primer::Reflect
     }
 
diff --git a/src/strategy/support.rs b/src/strategy/support.rs
index bbbcb00..07b67e7 100644
--- a/src/strategy/support.rs
+++ b/src/strategy/support.rs
@@ -56,9 +56,9 @@ pub fn less_than_zero(n: isize, d: isize) -> bool {
 
 pub fn greater_than_minus_one(n: isize, d: isize) -> bool {
     if d > 0 {
-        n > -d
+        n > d.checked_neg().unwrap()
     } else if d < 0 {
-        n < -d
+        n < d.checked_neg().unwrap()
     } else {
         n > 0
     }
@@ -66,9 +66,9 @@ pub fn greater_than_minus_one(n: isize, d: isize) -> bool {
 
 pub fn less_than_minus_one(n: isize, d: isize) -> bool {
     if d > 0 {
-        n < -d
+        n < d.checked_neg().unwrap()
     } else if d < 0 {
-        n > -d
+        n > d.checked_neg().unwrap()
     } else {
         n < 0
     }
@@ -155,16 +155,16 @@ pub fn updated_range(
     }
 
     if dmin < 0 {
-        nmin *= -1;
-        dmin *= -1;
+        nmin = nmin.checked_neg().unwrap();
+        dmin = dmin.checked_neg().unwrap();
     }
     if dmax < 0 {
-        nmax *= -1;
-        dmax *= -1;
+        nmax = nmax.checked_neg().unwrap();
+        dmax = dmax.checked_neg().unwrap();
     }
     if dnew < 0 {
-        nnew *= -1;
-        dnew *= -1;
+        nnew = nnew.checked_neg().unwrap();
+        dnew = dnew.checked_neg().unwrap();
     }
 
     if nmin == 0 {
@@ -227,5 +227,5 @@ pub fn equal_to_one(n: isize, d: isize) -> bool {
 }
 
 pub fn equal_to_minus_one(n: isize, d: isize) -> bool {
-    d != 0 && n == -d
+    d != 0 && n == d.checked_neg().unwrap()
 }
-- 
2.43.0


From 245053785d0ab5c3af01df53983d0b1b400ff79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:08 +0000
Subject: [PATCH 5/5] fix: compare expansions only when the primers agree

A comparison decided by the primers still read both expansions, and
failed when reading them overflowed.
---
 src/compare.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compare.rs b/src/compare.rs
index 192438d..9fb2861 100644
--- a/src/compare.rs
+++ b/src/compare.rs
@@ -297,11 +297,13 @@ fn compare_others(
     p2: Option<protocol::Primer>,
     c2: Clog,
 ) -> Ordering {
-    compare_primers(&p1, &p2).then(compare_clogs(
-        c1,
-        c2,
-        p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
-    ))
+    compare_primers(&p1, &p2).then_with(|| {
+        compare_clogs(
+            c1,
+            c2,
+            p1 != Some(protocol::Primer::Reflect) && p1 != Some(protocol::Primer::Turn),
+        )
+    })
 }
 
 fn compare_primers(p1: &Option<protocol::Primer>, p2: &Option<protocol::Primer>) -> Ordering {
-- 
2.43.0

