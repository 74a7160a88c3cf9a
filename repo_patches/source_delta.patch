From a762436a7d21a3bf60227c0e3994bc84e51b616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 01/24] fix: keep operand order when zipping a scalar with a
 rank >= 2 array

---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..b8f88aa 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |r, l| f(l, r)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From e2a61ecfe83a3d48ff110de337dc337779568946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 02/24] fix: report incompatible shapes in Add/Sub/Mul instead
 of panicking

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..200fbd6 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -239,7 +239,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -371,7 +371,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -525,7 +525,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From b8f7540eceb757cc0e55a17cdace85f8f7333922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 03/24] fix: do not assume that a structural zero to any power
 is zero

---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 200fbd6..397aec0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From d54e913e8c8c297969b304b872ae08dfb8ff3509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 04/24] fix: scale the adjoint when multiplying a dual by a
 plain value

---
 aegir/src/dual.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..bdc818d 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,14 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: std::ops::Mul<V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<V::Output, A::Output>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint * rhs,
         }
     }
 }
@@ -237,13 +238,14 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: std::ops::Mul<&'a V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<V::Output, A::Output>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint * rhs,
         }
     }
 }
-- 
2.43.0


From 345814c1416e92931719329a7a83534219d1e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 05/24] fix: display identifiers without a symbol by their own
 name

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..4482081 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From 0aa5d861952e6fa96dca49d83012bafaa12c3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 06/24] fix: use the right letters for the Sigma, Tau and
 Upsilon identifiers

---
 aegir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
-- 
2.43.0


From d5868404df36bf3a016dc39153621ef13e867f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 07/24] fix: print AddOne as an addition

---
 aegir/src/ops/arithmetic/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fba7786..f09468b 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -110,7 +110,7 @@ impl_unary!(
                 needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("1 - {}", pw.to_safe_string('(', ')')),
+                text: format!("{} + 1", pw.to_safe_string('(', ')')),
                 needs_wrap: true,
             })
         }
-- 
2.43.0


From bb603906335122724acd85984630b005def53424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 08/24] fix: print the right function names for ArcSin and for
 Sinh of one

---
 aegir/src/ops/trig.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 9c1a41a..f46d6cf 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -133,7 +133,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Zero,
             One => Text(PreWrap {
-                text: "sin(1)".to_string(),
+                text: "sinh(1)".to_string(),
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
@@ -156,7 +156,7 @@ impl_unary!(
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("acos({})", pw),
+                text: format!("asin({})", pw),
                 needs_wrap: false,
             })
         }
-- 
2.43.0


From a0eb9bdbbda0a44c6618cc77b2bfcaff2e37847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 09/24] fix: print the right values of Erf and DiGamma at zero
 and one

---
 aegir/src/ops/special.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index ac73dc2..42e4d1e 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -55,7 +55,10 @@ impl_unary!(
                 text: "\u{221E}".to_string(),
                 needs_wrap: false,
             }),
-            One => One,
+            One => Text(PreWrap {
+                text: "\u{03C8}(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("\u{03C8}({})", pw),
                 needs_wrap: false,
@@ -137,7 +140,11 @@ impl_unary!(
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-            Zero | One => One,
+            Zero => Zero,
+            One => Text(PreWrap {
+                text: "erf(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("erf({})", pw),
                 needs_wrap: false,
-- 
2.43.0


From 11e74ca286111972e8d02cd3690dfb6245f1a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 10/24] fix: print the zero expression as 0 instead of nothing

---
 aegir/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/fmt.rs b/aegir/src/fmt.rs
index 8ac57c5..88d707c 100644
--- a/aegir/src/fmt.rs
+++ b/aegir/src/fmt.rs
@@ -46,7 +46,7 @@ pub enum Expr {
 impl std::fmt::Display for Expr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Expr::Zero => Ok(()),
+            Expr::Zero => f.write_str("0"),
             Expr::One => f.write_str("1"),
             Expr::Text(pw) => f.write_str(&pw.text),
         }
-- 
2.43.0


From 8e281df21aa2946ad235143e1213ae429059ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 11/24] fix: print anything to the power zero as one

---
 aegir/src/ops/arithmetic/binary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 397aec0..2abac6a 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -153,8 +153,8 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
         use Expr::*;
 
         match (self.0.to_expr(), self.1.to_expr()) {
-            (Zero, _) => Zero,
             (_, Zero) => One,
+            (Zero, _) => Zero,
             (One, _) => One,
             (l, One) => l,
             (Text(l), Text(r)) => Text(PreWrap {
-- 
2.43.0


From 99744e1dab354a674159688dfc6561c4cc95ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 12/24] fix: bracket negations, products, powers and negative
 constants when nested

---
 aegir/src/meta/constant.rs         |  8 ++++----
 aegir/src/ops/arithmetic/binary.rs |  6 +++---
 aegir/src/ops/arithmetic/unary.rs  | 10 +++++-----
 aegir/src/ops/logarithmic.rs       |  4 ++--
 aegir/src/ops/trig.rs              |  6 +++---
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 85873ee..dcb62fe 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -101,10 +101,10 @@ where
 
 impl<B: Buffer + ToString> ToExpr for Constant<B> {
     fn to_expr(&self) -> Expr {
-        Expr::Text(PreWrap {
-            text: self.0.to_string(),
-            needs_wrap: false,
-        })
+        let text = self.0.to_string();
+        let needs_wrap = text.starts_with('-');
+
+        Expr::Text(PreWrap { text, needs_wrap })
     }
 }
 
diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 2abac6a..0c1ea74 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -159,7 +159,7 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
             (l, One) => l,
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -412,13 +412,13 @@ impl<L: ToExpr, R: ToExpr> ToExpr for Sub<L, R> {
             (One, Zero) => One,
             (Zero, One) => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), Zero) => Text(l),
             (Zero, Text(r)) => Text(PreWrap {
                 text: format!("-{}", r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), One) => Text(PreWrap {
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index f09468b..fdba250 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -29,7 +29,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -149,7 +149,7 @@ impl_unary!(
             One => One,
             Text(pw) => Text(PreWrap {
                 text: format!("({})^2", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -191,7 +191,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("2 \u{2218} {}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -295,11 +295,11 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("-{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
diff --git a/aegir/src/ops/logarithmic.rs b/aegir/src/ops/logarithmic.rs
index b89cdea..32b1766 100644
--- a/aegir/src/ops/logarithmic.rs
+++ b/aegir/src/ops/logarithmic.rs
@@ -26,7 +26,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-\u{221E}".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -116,7 +116,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("𝑒^{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
         }
     }
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index f46d6cf..e58a2a0 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -64,7 +64,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -153,7 +153,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("asin({})", pw),
@@ -229,7 +229,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/4".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("atan({})", pw),
-- 
2.43.0


From e05cb33b2dbfd5899a9468690d6aa7ccbfb71c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 13/24] fix: allow cached nodes to be differentiated by any
 identifier

---
 aegir/src/meta/cached.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aegir/src/meta/cached.rs b/aegir/src/meta/cached.rs
index c64add8..39b414e 100644
--- a/aegir/src/meta/cached.rs
+++ b/aegir/src/meta/cached.rs
@@ -51,14 +51,15 @@ where
     }
 }
 
-impl<N, T> Differentiable<T> for Cached<N, T>
+impl<N, T, I> Differentiable<I> for Cached<N, T>
 where
-    N: Differentiable<T>,
+    N: Differentiable<I>,
     T: Identifier,
+    I: Identifier,
 {
     type Adjoint = N::Adjoint;
 
-    fn adjoint(&self, target: T) -> Self::Adjoint {
+    fn adjoint(&self, target: I) -> Self::Adjoint {
         // TODO - find a way to propagate the cached terms through the derivative.
         // This will require some kind of search in which find-and-replace all instances of
         // N in Self::Adjoint with Cached<N, T>.
-- 
2.43.0


From 5a7676ed741ab7fa22e4d2a7787c841fe9f44d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 14/24] fix: make the adjoint of a constant differentiable
 again

---
 aegir/src/meta/constant.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index dcb62fe..eb38fcc 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -184,6 +184,22 @@ where
     }
 }
 
+impl<N, T, A> Differentiable<A> for ConstantAdjoint<N, T>
+where
+    A: Identifier,
+
+    Self: Node + Clone,
+{
+    type Adjoint = ConstantAdjoint<Self, A>;
+
+    fn adjoint(&self, ident: A) -> Self::Adjoint {
+        ConstantAdjoint {
+            node: self.clone(),
+            target: ident,
+        }
+    }
+}
+
 impl<N: Node, T> ToExpr for ConstantAdjoint<N, T> {
     fn to_expr(&self) -> Expr { Expr::Zero }
 }
-- 
2.43.0


From d2c77a3b38e0bcbdcb82beb21775784bca8fca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 15/24] fix: contract a vector with a non-square matrix over
 the shared axis

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..48c3ac3 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,14 +187,14 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M <= N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From a8393ca8f3427eb23af3b738a0b7b564b92df84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 16/24] fix: enumerate the single index of a zero-dimensional
 dynamic shape

---
 aegir/src/buffers/shapes/multi_product.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index aeacf7c..8215448 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -46,7 +46,7 @@ enum MultiProductIterState {
 }
 
 #[derive(Clone)]
-pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM]);
+pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM], bool);
 
 impl<const DIM: usize> MultiProduct<DIM> {
     pub fn new(sizes: [usize; DIM]) -> Self {
@@ -54,7 +54,7 @@ impl<const DIM: usize> MultiProduct<DIM> {
             cur: None,
             iter: 0..s,
             iter_orig: 0..s,
-        }))
+        }), DIM == 0)
     }
 
     fn iterate_last(
@@ -118,6 +118,11 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
+        // The empty product has exactly one entry: the empty index.
+        if DIM == 0 {
+            return std::mem::take(&mut self.1).then(|| self.curr_iterator());
+        }
+
         if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
@@ -127,7 +132,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn count(self) -> usize {
         if self.0.is_empty() {
-            return 0;
+            return self.1 as usize;
         }
 
         if !self.in_progress() {
@@ -153,7 +158,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if self.0.is_empty() {
-            return (0, Some(0));
+            return (self.1 as usize, Some(self.1 as usize));
         }
 
         if !self.in_progress() {
-- 
2.43.0


From 1d44e3c2efedc6254f4df7478442e29256c6aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:07 +0000
Subject: [PATCH 17/24] fix: let an all-zero factor annihilate uniform factors
 in products as well

The derivative of a power by its exponent contains ln of the base, which is
not a number for negative bases; it is multiplied by the zero derivative of
a constant exponent. The zero annihilated dense, but not uniform, factors.
---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 0c1ea74..bf0d7d9 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -501,9 +501,6 @@ where
         let y = self.1.evaluate_spec(ctx).map_err(BinaryError::Right)?;
 
         let z = match (x, y) {
-            // Simple performance case if both are Spec::Full:
-            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
-
             // Short-circuits when either value are known to be all-zeroes:
             (Full(sx, fx), y) if fx.is_zero() =>
                 sx.broadcast(y.shape()).map(|sz| Spec::zeroes(sz)),
@@ -511,6 +508,9 @@ where
             (x, Full(sy, fy)) if fy.is_zero() =>
                 x.shape().broadcast(sy).map(|sz| Spec::zeroes(sz)),
 
+            // Simple performance case if both are Spec::Full:
+            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
+
             // Short-circuits when either value is known to be all-ones:
             //  x * 1 = x
             (Raw(x), Full(sy, fy)) if fy.is_zero() => x.zip_shape(sy).map(Raw),
-- 
2.43.0


From a7544852ff7ed536d52f452c1cd994824640f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 18/24] fix: print identifier symbols literally, whatever
 braces they contain

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 4482081..709a7eb 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -38,7 +38,7 @@ impl DataIdentifier {
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    write!(f, #symbol)
+                    f.write_str(#symbol)
                 }
             }
         })
-- 
2.43.0


From 88e2da82f69a4e3c40d167c1b92bc8d848b48411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 19/24] fix: accept cache fields of array and tuple buffers in
 derive(Context)

---
 aegir_derive/src/ctx/derive.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/aegir_derive/src/ctx/derive.rs b/aegir_derive/src/ctx/derive.rs
index 66c2285..fe2c6f9 100644
--- a/aegir_derive/src/ctx/derive.rs
+++ b/aegir_derive/src/ctx/derive.rs
@@ -135,18 +135,12 @@ fn parse_ty_cache(ty: &syn::Type) -> Result<syn::Type, CtxFieldError> {
             .and_then(|outer_ty| {
                 use syn::PathArguments::AngleBracketed;
 
-                if let AngleBracketed(ab) = &outer_ty.arguments {
-                    let ab_args = &ab.args;
-
-                    Some(syn::Type::Path(syn::TypePath {
-                        qself: tp.qself.clone(),
-                        path: syn::Path {
-                            leading_colon: tp.path.leading_colon.clone(),
-                            segments: parse_quote! { #ab_args },
-                        },
-                    }))
-                } else {
-                    None
+                match &outer_ty.arguments {
+                    AngleBracketed(ab) => match ab.args.first() {
+                        Some(syn::GenericArgument::Type(inner_ty)) => Some(inner_ty.to_owned()),
+                        _ => None,
+                    },
+                    _ => None,
                 }
             })
             .ok_or(CtxFieldError::ImproperCacheType)
-- 
2.43.0


From fe660554db2ace122a96a570c902b7edaf1970f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 20/24] fix: do not print a zero raised to an arbitrary power
 as zero

---
 aegir/src/ops/arithmetic/binary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index bf0d7d9..6465b2e 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -154,9 +154,12 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
 
         match (self.0.to_expr(), self.1.to_expr()) {
             (_, Zero) => One,
-            (Zero, _) => Zero,
             (One, _) => One,
             (l, One) => l,
+            (Zero, Text(r)) => Text(PreWrap {
+                text: format!("0^{}", r.to_safe_string('(', ')')),
+                needs_wrap: true,
+            }),
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
                 needs_wrap: true,
-- 
2.43.0


From 657b56cc0c3b331553733177973cc1008599c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 21/24] fix: gamma of large arguments is infinite instead of
 NaN or never returning

---
 aegir/src/ops/special.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index 42e4d1e..4fdb84b 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -2,6 +2,20 @@
 use aegir::{Node, Identifier, Differentiable, ops::{Mul, OneSub, AddOne}};
 use special_fun::FloatSpecial;
 
+/// Trait for floating point scalars that implement the special functions.
+pub trait SpecialFloat: FloatSpecial + num_traits::Float {}
+
+impl<F: FloatSpecial + num_traits::Float> SpecialFloat for F {}
+
+/// Evaluate Γ, which overflows in double precision already at 171.7: for large arguments the
+/// underlying library returns NaN or (in single precision) never terminates.
+fn gamma<F: SpecialFloat>(x: F) -> F {
+    match F::from(200.0) {
+        Some(limit) if x > limit => F::infinity(),
+        _ => x.gamma(),
+    }
+}
+
 impl_unary!(
     /// Operator that applies `f[g](x) = Γ(f(x)) = (f(x) - 1)!` element-wise to a buffer.
     ///
@@ -16,7 +30,7 @@ impl_unary!(
     /// assert_eq!(op.evaluate(ctx!{X = 3.0f64}).unwrap(), 2.0);
     /// assert_eq!(op.evaluate(ctx!{X = 4.0f64}).unwrap(), 6.0);
     /// ```
-    Gamma<F: FloatSpecial>, |x| { x.gamma() }, |self| {
+    Gamma<F: SpecialFloat>, |x| { gamma(x) }, |self| {
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-- 
2.43.0


From 195ce3965a83ae65802a7fc0a2e43f81cb5dca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 22/24] fix: sign of gamma no longer depends on other threads

---
 aegir/src/ops/special.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index 4fdb84b..f91ce55 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -12,7 +12,18 @@ impl<F: FloatSpecial + num_traits::Float> SpecialFloat for F {}
 fn gamma<F: SpecialFloat>(x: F) -> F {
     match F::from(200.0) {
         Some(limit) if x > limit => F::infinity(),
-        _ => x.gamma(),
+        // The library keeps the sign in a global variable that is shared between threads, so set it
+        // here: Γ is negative on every other interval between its poles, starting with (-1, 0).
+        _ => {
+            let magnitude = x.gamma().abs();
+            let two = F::one() + F::one();
+
+            if x < F::zero() && x.floor() % two != F::zero() {
+                -magnitude
+            } else {
+                magnitude
+            }
+        },
     }
 }
 
-- 
2.43.0


From cbacddd5f35fbd417b21e3cec10c64510dfb7dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 23/24] fix: keep generated parameters and bindings apart from
 identifiers of the same name

ids!(f, other), ids!(value) with a context, ids!(target) with derive(Contains) and a
derive(Contains) operator with a type parameter I did not compile: unit structs shadow
the names of the generated parameters, and the two parameters called I clash.
---
 aegir_derive/src/ctx/derive.rs | 16 ++++++++--------
 aegir_derive/src/ids.rs        |  6 +++---
 aegir_derive/src/ops.rs        | 10 +++++-----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/aegir_derive/src/ctx/derive.rs b/aegir_derive/src/ctx/derive.rs
index fe2c6f9..014ae64 100644
--- a/aegir_derive/src/ctx/derive.rs
+++ b/aegir_derive/src/ctx/derive.rs
@@ -204,14 +204,14 @@ fn emit_read_fns(ctx_field: &CtxField) -> Option<TokenStream> {
             fn read_spec(&self, _: #field_id) -> Option<::aegir::buffers::Spec<#field_bty>> {
                 use ::aegir::buffers::IntoSpec;
 
-                self.#field_name.clone().map(|buf| buf.into_spec())
+                self.#field_name.clone().map(|__buf| __buf.into_spec())
             }
 
             #[inline]
             fn read_shape(&self, _: #field_id) -> Option<::aegir::buffers::shapes::ShapeOf<#field_bty>> {
                 use ::aegir::buffers::shapes::Shaped;
 
-                self.#field_name.as_ref().map(|buf| buf.shape())
+                self.#field_name.as_ref().map(|__buf| __buf.shape())
             }
         }
     } else {
@@ -239,15 +239,15 @@ fn emit_write_fns(ctx_field: &CtxField) -> Option<TokenStream> {
     ctx_field.ident.as_ref().map(|field_id| if ctx_field.is_cache {
         quote! {
             #[inline]
-            fn write(&mut self, fid: #field_id, value: Self::Buffer) {
-                self.#field_name.replace(value);
+            fn write(&mut self, _: #field_id, __value: Self::Buffer) {
+                self.#field_name.replace(__value);
             }
         }
     } else {
         quote! {
             #[inline]
-            fn write(&mut self, fid: #field_id, value: Self::Buffer) {
-                self.#field_name = value;
+            fn write(&mut self, _: #field_id, __value: Self::Buffer) {
+                self.#field_name = __value;
             }
         }
     })
@@ -311,8 +311,8 @@ fn ctx_struct_impl(name: syn::Ident, generics: syn::Generics, ds: syn::DataStruc
                 type Buffer = <#buffer_ty as ::aegir::buffers::IntoSpec>::Buffer;
 
                 #[inline]
-                fn read(&self, fid: #field_id) -> Option<Self::Buffer> {
-                    self.read_spec(fid).map(|spec| spec.unwrap())
+                fn read(&self, __fid: #field_id) -> Option<Self::Buffer> {
+                    self.read_spec(__fid).map(|__spec| __spec.unwrap())
                 }
 
                 #read_fns
diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 709a7eb..adc8e23 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -37,8 +37,8 @@ impl DataIdentifier {
 
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
-                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    f.write_str(#symbol)
+                fn fmt(&self, __f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                    __f.write_str(#symbol)
                 }
             }
         })
@@ -51,7 +51,7 @@ impl DataIdentifier {
 
         syn::parse2(quote! {
             impl std::cmp::PartialEq<#type_id_> for #type_id {
-                fn eq(&self, other: &#type_id_) -> bool { #code }
+                fn eq(&self, __other: &#type_id_) -> bool { #code }
             }
         })
         .unwrap()
diff --git a/aegir_derive/src/ops.rs b/aegir_derive/src/ops.rs
index 7fbcd18..be45343 100644
--- a/aegir_derive/src/ops.rs
+++ b/aegir_derive/src/ops.rs
@@ -127,12 +127,12 @@ pub fn expand_contains(ast: &syn::DeriveInput) -> TokenStream {
 
     let mut trait_generics = op_fields.extend_generics(
         ast.generics.clone(),
-        parse_quote! { ::aegir::Contains<I> },
+        parse_quote! { ::aegir::Contains<__I> },
     );
 
     trait_generics
         .params
-        .push(parse_quote! { I: ::aegir::Identifier });
+        .push(parse_quote! { __I: ::aegir::Identifier });
 
     let (impl_generics, _, where_clause) = trait_generics.split_for_impl();
     let (_, ty_generics, _) = ast.generics.split_for_impl();
@@ -142,13 +142,13 @@ pub fn expand_contains(ast: &syn::DeriveInput) -> TokenStream {
         .map(|of| {
             let ident = &of.accessor;
 
-            quote! { self.#ident.contains(target) }
+            quote! { self.#ident.contains(__target) }
         })
         .collect();
 
     quote! {
-        impl #impl_generics ::aegir::Contains<I> for #name #ty_generics #where_clause {
-            fn contains(&self, target: I) -> bool { #predicate }
+        impl #impl_generics ::aegir::Contains<__I> for #name #ty_generics #where_clause {
+            fn contains(&self, __target: __I) -> bool { #predicate }
         }
     }
 }
-- 
2.43.0


From e6d20e0f523f9dbb705a2517e729b3e96794388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:24 +0000
Subject: [PATCH 24/24] fix: sums of a uniform value overflowed, panicked or
 were NaN where the sum itself is fine

---
 aegir/src/buffers/arrays/contraction_ops.rs |  6 +++---
 aegir/src/buffers/mod.rs                    | 10 ++++++++++
 aegir/src/ops/arithmetic/unary.rs           |  5 ++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 48c3ac3..e94a51e 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -1,6 +1,6 @@
 #![allow(unused, unused_mut)]
 use super::*;
-use crate::buffers::{Spec, Contract, shapes::ShapeOf};
+use crate::buffers::{repeated_sum, Spec, Contract, shapes::ShapeOf};
 use num_traits::FromPrimitive;
 
 macro_rules! impl_contract {
@@ -135,7 +135,7 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, F::from_usize(N).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, repeated_sum(N, fx * fy))),
         (Full(_, fx), y) => Ok(Full(S0, y.unwrap().fold(F::zero(), |acc, yi| acc + fx * yi))),
         (x, Full(_, fy)) => Ok(Full(S0, x.unwrap().fold(F::zero(), |acc, xi| acc + xi * fy))),
         (x, y) => x.unwrap().zip_fold(&y.unwrap(), F::zero(), |acc, (xi, yi)| acc + xi * yi).map(Raw),
@@ -178,7 +178,7 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, F::from_usize(Z).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, repeated_sum(Z, fx * fy))),
 
         (Diagonal(_, fx), Diagonal(_, fy)) if N == Z && M == N => Ok(Diagonal(S2, fx * fy)),
 
diff --git a/aegir/src/buffers/mod.rs b/aegir/src/buffers/mod.rs
index 2bda1a6..a36d631 100644
--- a/aegir/src/buffers/mod.rs
+++ b/aegir/src/buffers/mod.rs
@@ -595,6 +595,16 @@ where
     <X as Contract<Y, AXES>>::contract_shape(x, y)
 }
 
+/// Sum of `n` copies of `x`.
+pub(crate) fn repeated_sum<F: Scalar + num_traits::FromPrimitive>(n: usize, x: F) -> F {
+    match F::from_usize(n) {
+        Some(count) if n > 0 => count * x,
+
+        // There is nothing to sum, or the field cannot represent the count:
+        _ => (0..n).fold(F::zero(), |acc, _| acc + x),
+    }
+}
+
 mod scalars;
 pub use scalars::*;
 
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fdba250..5570d7b 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -1,5 +1,5 @@
 use crate::{
-    buffers::{Buffer, Scalar, Spec, shapes::{S0, Shape, ShapeOf}},
+    buffers::{repeated_sum, Buffer, Scalar, Spec, shapes::{S0, Shape, ShapeOf}},
     Contains,
     Context,
     Differentiable,
@@ -248,8 +248,7 @@ where
         use Spec::*;
 
         Ok(match self.0.evaluate_spec(ctx)? {
-            // TODO: replace unwrap with error propagation.
-            Full(sh, val) => Full(S0, F::from_usize(sh.cardinality()).unwrap() * val),
+            Full(sh, val) => Full(S0, repeated_sum(sh.cardinality(), val)),
             spec => Raw(spec.unwrap().sum()),
         })
     }
-- 
2.43.0

