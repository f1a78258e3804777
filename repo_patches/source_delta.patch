From a0ca3bf3f067ed1b98a68ec87c44f162f64489eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:33 +0000
Subject: [PATCH 1/6] fix: scalar multiplication by an integer of zero bits
 must not read the integer

---
 src/eccore.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index bf6c4f5..7de65de 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -638,7 +638,12 @@ macro_rules! define_ec_core {
                 let z1inf = !order1 & !order2 & !z0z & z1z;
                 let p1mp = !order1 & !order2 & !z0z & !z1z & x1ex;
 
-                let n_odd = ((n[0] as u32) & 1).wrapping_neg();
+                // n_0 is 0 if the integer has no bit (nbitlen == 0).
+                let n_odd = if nbitlen > 0 {
+                    ((n[0] as u32) & 1).wrapping_neg()
+                } else {
+                    0
+                };
                 P3.Z.set_cond(&Fq::ZERO, order1 | (order2 & !n_odd) | z0inf);
                 P3.set_cond(&P, z1inf | (order2 & n_odd));
                 P3.set_cond(&dP, p1mp);
-- 
2.43.0


From d5b748efc5c1081c9925398826bdd088695ce421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:01 +0000
Subject: [PATCH 2/6] fix: sqrt_floor must not overflow for inputs above
 65535^2

---
 src/discrete_log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discrete_log.rs b/src/discrete_log.rs
index 31e9b37..ff42ab8 100644
--- a/src/discrete_log.rs
+++ b/src/discrete_log.rs
@@ -76,7 +76,7 @@ pub fn sqrt_floor(n: u32) -> u32 {
         }
     }
 
-    if b * b == n {
+    if (b as u64) * (b as u64) == (n as u64) {
         return b;
     }
 
-- 
2.43.0


From 151bcc5b538c9dd792468aea990400b75a993d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 3/6] fix: Weil pairing of dependent points, points of smaller
 order and infinity

---
 src/pairing.rs | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/pairing.rs b/src/pairing.rs
index bc47a42..d9ce67b 100644
--- a/src/pairing.rs
+++ b/src/pairing.rs
@@ -38,10 +38,32 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
 /// If two points P and Q are linearly dependent, it outputs zero.
 /// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
 pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+    let f = miller_loop(E, P, Q, order);
+
+    if f.iszero() != 0 {
+        return Fq::ONE;
+    }
+
+    f
+}
+
+/// Evaluate at Q the normalised function with divisor order*(P) - order*(O).
+/// The result is zero if an intermediate line vanishes at Q, which happens
+/// only if Q is a multiple of P.
+fn miller_loop(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
     let mut f = Fq::ONE;
     let mut V = P.clone();
 
     for t in (0..order.bits() - 1).rev() {
+        // The lines through the point at infinity cancel out
+        if V.isinfinity() != 0 {
+            f = f.square();
+            if order.bit(t) {
+                V = P.clone();
+            }
+            continue;
+        }
+
         let S = E.double(&V);
         if S.isinfinity() == 0 {
             f = f.square() * eval_line(E, &V, &V, Q) / eval_line(E, &S, &-S, Q);
@@ -50,7 +72,9 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
             f = f.square() * eval_line(E, &V, &V, Q) / Qz;
         }
         V = S;
-        if order.bit(t) {
+        if order.bit(t) && V.isinfinity() != 0 {
+            V = P.clone();
+        } else if order.bit(t) {
             let S = E.add(&V, P);
             if S.isinfinity() == 0 {
                 f = f * eval_line(E, &V, P, Q) / eval_line(E, &S, &-S, Q);
@@ -64,17 +88,22 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
     debug_assert!(V.isinfinity() != 0, "pairing point is invalid");
 
-    if f.iszero() != 0 {
-        return Fq::ONE;
-    }
-
     f
 }
 
 /// Computing Weil pairing of given two points using Tate pairing(Miller's algorithm).
 pub fn weil_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
-    let ePQ = tate_pairing(E, P, Q, order);
-    let eQP = tate_pairing(E, Q, P, order);
+    if P.isinfinity() != 0 || Q.isinfinity() != 0 {
+        return Fq::ONE;
+    }
+
+    let ePQ = miller_loop(E, P, Q, order);
+    let eQP = miller_loop(E, Q, P, order);
+
+    // One of the two vanishes only if the points are linearly dependent
+    if ePQ.iszero() != 0 || eQP.iszero() != 0 {
+        return Fq::ONE;
+    }
 
     if order.bit(0) {
         -ePQ / eQP
-- 
2.43.0


From f43e1eddbb8a58f05800095312b9f2fc6a827c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 4/6] fix: curve isomorphisms with A1 = A2, A1 = -A2 or j =
 1728, and the image of infinity

---
 src/eccore.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index 7de65de..b26179a 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -812,14 +812,41 @@ macro_rules! define_ec_core {
                     "Given curves are not isomorphic!"
                 );
                 let (A2, A1) = (domain.get_constant(), codomain.get_constant());
-                let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
-                    / (A1 * (Fq::THREE - A2.square()));
-                let u = (Fq::THREE * v + A1) / A2;
+                // The curve constants are equal up to sign
+                if A1.equals(&A2) != 0 {
+                    return CurveIsomorphism {
+                        u: Fq::ONE,
+                        v: Fq::ZERO,
+                        w: Fq::ONE,
+                    };
+                }
+                if A1.equals(&(-A2)) != 0 {
+                    return CurveIsomorphism {
+                        u: -Fq::ONE,
+                        v: Fq::ZERO,
+                        w: Fq::ZETA,
+                    };
+                }
+                // (v, 0) is the image of (0, 0)
+                let v = if A1.iszero() != 0 {
+                    Fq::ZETA
+                } else {
+                    (A1.square() + A2.square().mul2() - Fq::THREE.square())
+                        / (A1 * (Fq::THREE - A2.square()))
+                };
+                let u = if A2.iszero() != 0 {
+                    (-(A1 * v) - Fq::TWO).sqrt().0
+                } else {
+                    (Fq::THREE * v + A1) / A2
+                };
                 let w = (u * u.square()).sqrt().0;
                 CurveIsomorphism { u, v, w }
             }
 
             pub fn eval(&self, P: &Point) -> Point {
+                if P.isinfinity() != 0 {
+                    return Point::INFINITY;
+                }
                 let (Px, Py) = P.to_xy();
                 let imP = Point::new_xy(&(self.u * Px + self.v), &(self.w * Py));
                 imP
-- 
2.43.0


From e562bf96856aadbd6aa077796a2839e572818d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 5/6] fix: split theta points with a vanishing coordinate

When the first coordinate of the second factor or the second coordinate of
the first factor of a product theta point is zero, the coordinates chosen by
split_theta_point were (0, 0), so product_isogeny returned the point at
infinity instead of the image.
---
 src/theta.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 719c22e..3c18b7f 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -950,10 +950,22 @@ macro_rules! define_theta_structure {
         /// Models of Kummer lines and Galois representation,
         /// Razvan Barbulescu, Damien Robert and Nicolas Sarkis
         fn split_theta_point(P: &ThetaPoint) -> ((Fq, Fq), (Fq, Fq)) {
-            let (a, b, _, d) = P.coords();
-
-            let P1 = (a, b);
-            let P2 = (b, d);
+            let (a, b, c, d) = P.coords();
+
+            let mut P1 = (a, b);
+            let mut P2 = (b, d);
+
+            // The coordinates are products of one coordinate of each factor,
+            // so (a, b) vanishes when the first coordinate of P2 is zero and
+            // (b, d) vanishes when the second coordinate of P1 is zero. Use
+            // the other pair of coordinates in these cases.
+            let P1_check = a.iszero() & b.iszero();
+            P1.0.set_cond(&c, P1_check);
+            P1.1.set_cond(&d, P1_check);
+
+            let P2_check = b.iszero() & d.iszero();
+            P2.0.set_cond(&a, P2_check);
+            P2.1.set_cond(&c, P2_check);
 
             (P1, P2)
         }
-- 
2.43.0


From e33f65497568c5080fc17499bccfd5ba03dbc5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:41 +0000
Subject: [PATCH 6/6] fix: splitting matrix for a vanishing (0,0) theta
 constant

The tenth entry of the table in compute_splitting_matrix was singular (rows
1 and 4 were equal); replace it by the change of basis that maps the even
constant (0,0) to (3,3), as the other nine entries do.
---
 src/theta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 3c18b7f..fe34e9f 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -891,9 +891,9 @@ macro_rules! define_theta_structure {
                 ],
                 [
                     Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::MINUS_ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::MINUS_ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
+                    Fq::ONE, Fq::MINUS_ZETA, Fq::MINUS_ONE, Fq::ZETA,
+                    Fq::ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::MINUS_ZETA,
+                    Fq::MINUS_ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::ZETA,
                 ],
             ];
 
-- 
2.43.0

