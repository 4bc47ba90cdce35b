From b02220807befeb4e4f20759ea927875c5fdea06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 01/59] fix: correct the prime factorizations of gradian,
 arcminute and arcsecond

---
 whippyunits-core/src/units.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..d4de3ba 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 63fd352fc77a48440df44d576e4dd5249b95847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 02/59] fix: foot-pound is 1.3558 J, not 13.558 J

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d4de3ba..84db765 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From ce52c6c3165e66604070a28e988f53667cf1a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 03/59] =?UTF-8?q?fix:=20acre=20is=204046.86=20m=C2=B2,=20n?=
 =?UTF-8?q?ot=20404.686=20m=C2=B2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 84db765..6adb5e2 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 1ebe4236886a58d0bc40ca0de70ed485185fd28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 04/59] =?UTF-8?q?fix:=20the=20zero=20of=20the=20Fahrenheit?=
 =?UTF-8?q?=20scale=20is=20-459.67=20=C2=B0F?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 6adb5e2..f438a48 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
-- 
2.43.0


From 5acdcd5ee22f74b1e0cf505f37474ca5810a47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 05/59] fix: documented prime factorization of the arcminute

---
 src/quantity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..32d928c 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -117,7 +117,7 @@ pub struct _A<const EXP: i16 = 0>;
 /// Angular units can involve "all of the above", plus a possible factor of π:
 ///  - revolution: `2π = _2<1>, _3<0>, _5<0>, _Pi<1>`
 ///  - degree: `π/180 = _2<-2>, _3<-2>, _5<-1>, _Pi<1>`
-///  - arcminute: `π/10800 = _2<-4>, _3<-2>, _5<-2>, _Pi<1>`
+///  - arcminute: `π/10800 = _2<-4>, _3<-3>, _5<-2>, _Pi<1>`
 #[allow(dead_code)]
 #[derive(PartialEq)]
 pub struct Scale<P2 = _2<0>, P3 = _3<0>, P5 = _5<0>, PI = _Pi<0>> {
-- 
2.43.0


From 270da12c66291a62b640445edb424a3c8400e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 06/59] =?UTF-8?q?fix:=20dynamic=20viscosity=20has=20dimens?=
 =?UTF-8?q?ion=20ML=E2=81=BB=C2=B9T=E2=81=BB=C2=B9?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 whippyunits-core/src/dimensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index dba7cb2..f70d9fd 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -550,7 +550,7 @@ impl Dimension<crate::dimension_exponents!([1, -1, 0, 0, 0, 0, 0, 0])> {
     });
 }
 
-impl Dimension<crate::dimension_exponents!([1, -1, 1, 0, 0, 0, 0, 0])> {
+impl Dimension<crate::dimension_exponents!([1, -1, -1, 0, 0, 0, 0, 0])> {
     pub const DYNAMIC_VISCOSITY: Self = __dim!(Self {
         name: "Dynamic Viscosity",
         symbol: "ML⁻¹T⁻¹",
-- 
2.43.0


From 26af5c666b07b9d683af5ae6fb990f6a5c2794ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:37 +0000
Subject: [PATCH 07/59] fix: subtraction of type-level dimension exponents is
 bounded by Sub, not Add

---
 whippyunits-core/src/dimension_exponents.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index fa5458f..ac1574f 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -449,14 +449,14 @@ macro_rules! __exponents_impl_op {
             const ANGLE_EXP2: i16,
         > $op<__exponents!(@rhs)> for __exponents!(@lhs)
 where
-    N<MASS_EXP1>: Add<N<MASS_EXP2>, Output = N<MASS_EXP>>,
-    N<LENGTH_EXP1>: Add<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
-    N<TIME_EXP1>: Add<N<TIME_EXP2>, Output = N<TIME_EXP>>,
-    N<CURRENT_EXP1>: Add<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
-    N<TEMPERATURE_EXP1>: Add<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
-    N<AMOUNT_EXP1>: Add<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
-    N<LUMINOSITY_EXP1>: Add<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
-    N<ANGLE_EXP1>: Add<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
+    N<MASS_EXP1>: $op<N<MASS_EXP2>, Output = N<MASS_EXP>>,
+    N<LENGTH_EXP1>: $op<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
+    N<TIME_EXP1>: $op<N<TIME_EXP2>, Output = N<TIME_EXP>>,
+    N<CURRENT_EXP1>: $op<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
+    N<TEMPERATURE_EXP1>: $op<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
+    N<AMOUNT_EXP1>: $op<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
+    N<LUMINOSITY_EXP1>: $op<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
+    N<ANGLE_EXP1>: $op<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
 {
             $($t)*
         }
-- 
2.43.0


From eb078cbb95fd76e2bea4c571daf3017d7839f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 08/59] fix: a compound dimension is not a basis dimension

---
 whippyunits-core/src/dimension_exponents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index ac1574f..baec05c 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -90,7 +90,11 @@ pub trait DimensionExponents: exponents_seal::Sealed + 'static {
     ///
     /// This returns `None` for negative basis.
     fn as_basis(&self) -> Option<DimensionBasis> {
-        match self.value().0.iter().position(|&x| x == 1) {
+        let exponents = self.value().0;
+        if exponents.iter().filter(|&&x| x != 0).count() != 1 {
+            return None;
+        }
+        match exponents.iter().position(|&x| x == 1) {
             Some(0) => Some(DimensionBasis::Mass),
             Some(1) => Some(DimensionBasis::Length),
             Some(2) => Some(DimensionBasis::Time),
-- 
2.43.0


From eb511dbc9ee521cbeb712fe715f1bc7f294883c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 09/59] fix: integer rescale no longer truncates factors that
 do not fit the storage type

The conversion factors were cast to the storage type before use, so e.g.
nanometers to kilometers in i32 divided by a truncated 10^12, and the
overflow guard ignored negative values.
---
 src/scale_conversion.rs | 53 +++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 9f9118c..4861a2d 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -185,9 +185,9 @@ macro_rules! _define_int_rescale {
         /// Rescale a quantity to a different unit of the same dimension.
         ///
         /// This function uses pure integer math - conversion factors are computed as rational numbers
-        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113). To avoid overflow,
-        /// the calculation order is chosen heuristically: if `value * num` would overflow, we compute
-        /// `(value / den) * num`; otherwise `(value * num) / den`.
+        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113). If `value * num`
+        /// (or either factor) would overflow the storage type, `(value * num) / den` is computed in 128 bits;
+        /// if it would overflow even there, we compute `(value / den) * num`.
         ///
         /// Rescale works robustly with type inference, and it is not necessary to explicitly specify the
         /// const generic parameters (of which there are many).  Instead, specify the target type with
@@ -232,17 +232,46 @@ macro_rules! _define_int_rescale {
             let (num, den) = aggregate_scale_factor(
                 $($int_rescale_aggregate_args)*
             );
-            let num = num as $T;
-            let den = den as $T;
+            let value = quantity.unsafe_value;
 
-            // Numerical stability: check for potential overflow on multiplication
-            // If value * num would overflow, divide first; otherwise multiply first
-            let result = if quantity.unsafe_value > <$T>::max_value() / num {
-                // Potential overflow: divide first to reduce intermediate value
-                (quantity.unsafe_value / den) * num
+            // Fast path: the factors fit the storage type and `value * num` cannot overflow it
+            let result = if (num as $T) as i128 == num
+                && (den as $T) as i128 == den
+                && value <= <$T>::MAX / (num as $T)
+                && value >= <$T>::MIN / (num as $T)
+            {
+                (value * (num as $T)) / (den as $T)
             } else {
-                // Safe to multiply first
-                (quantity.unsafe_value * num) / den
+                // Otherwise scale the magnitude in 128 bits and narrow the result
+                #[allow(unused_comparisons)]
+                let negative = value < 0;
+                let magnitude = if negative {
+                    (value as i128).unsigned_abs()
+                } else {
+                    value as u128
+                };
+                let scaled = match magnitude.checked_mul(num as u128) {
+                    Some(product) => product / (den as u128),
+                    // Potential overflow: divide first to reduce intermediate value
+                    None => (magnitude / (den as u128)) * (num as u128),
+                };
+                let narrowed = if negative {
+                    scaled.wrapping_neg() as $T
+                } else {
+                    scaled as $T
+                };
+                #[allow(unused_comparisons)]
+                let same_sign = scaled == 0 || (narrowed < 0) == negative;
+                let narrowed_magnitude = if negative {
+                    (narrowed as i128).unsigned_abs()
+                } else {
+                    narrowed as u128
+                };
+                debug_assert!(
+                    same_sign && narrowed_magnitude == scaled,
+                    "attempt to rescale with overflow"
+                );
+                narrowed
             };
 
             Quantity::<
-- 
2.43.0


From 24dfdd870663f7a7aa0fbbe107f2d3df3bc0d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 10/59] fix: reduce_rational also divides out common factors of
 two

---
 src/scale_conversion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 4861a2d..54284c5 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -95,8 +95,8 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
         }
     }
 
-    // num_u == den_u now, and both are odd, so this is the GCD
-    let gcd = num_u;
+    // num_u == den_u now, and both are odd, so this is the odd part of the GCD
+    let gcd = num_u << common_twos;
 
     // Divide both by the GCD to get reduced form
     let reduced_num = num / (gcd as i128);
-- 
2.43.0


From f8ccc188e57b9bd32d28d5b3cb748bf9ae35486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 11/59] fix: unit symbols that are Rust keywords (in, as) parse

---
 proc-macros/src/utils/shared_utils.rs |  9 +++++++++
 whippyunits-core/src/parser.rs        | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6db0ed6..6920c0b 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -419,6 +419,15 @@ pub fn generate_unit_documentation_for_expr(
 
             let doc_comment = generate_unit_doc_comment(&unit_name);
 
+            // Unit symbols that are keywords ("in", "as") need a raw identifier to name a type
+            let ident = if !is_valid_identifier(&unit_name)
+                && whippyunits_core::get_unit_info(&unit_name).is_some()
+            {
+                Ident::new_raw(&unit_name, ident.span())
+            } else {
+                ident
+            };
+
             quote! {
                 const _: () = {
                     #doc_comment
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..66f8f8f 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,6 +1,7 @@
 #[cfg(not(test))]
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -173,7 +174,14 @@ impl UnitExpr {
                 }
             }
         } else {
-            let ident: Ident = input.parse()?;
+            let keyword = input.fork().call(Ident::parse_any);
+            let ident: Ident = match keyword {
+                // Unit symbols may collide with keywords ("in" for inch, "as" for attosecond)
+                Ok(keyword) if get_unit_info(&keyword.to_string()).is_some() => {
+                    input.call(Ident::parse_any)?
+                }
+                _ => input.parse()?,
+            };
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From 77cd39a15a195c922ce4f77c5cf52e48fc6e3787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 12/59] fix: find_by_literal tries the literal as-is before
 stripping a prefix

---
 whippyunits-core/src/dimensions.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index f70d9fd..78bca83 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -139,6 +139,12 @@ impl Dimension {
         literal: &str,
     ) -> Option<(&'static Unit, &'static Dimension, Option<&'static SiPrefix>)> {
         // First try the literal as-is
+        if let Some((unit, dimension)) = Self::find_unit_by_name(literal) {
+            return Some((unit, dimension, None));
+        } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal) {
+            return Some((unit, dimension, None));
+        }
+
         if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(literal)
             && let Some((unit, dimension)) = Self::find_si_unit_by_name(base)
         {
@@ -151,16 +157,17 @@ impl Dimension {
             return Some((unit, dimension, Some(prefix)));
         }
 
-        if let Some((unit, dimension)) = Self::find_unit_by_name(literal) {
-            return Some((unit, dimension, None));
-        } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal) {
-            return Some((unit, dimension, None));
-        }
-
         // If not found, try with plural "s" stripped (but only if the result is not empty)
         if literal.len() > 1 {
             let literal_singular = literal.trim_end_matches("s");
             if !literal_singular.is_empty() {
+                if let Some((unit, dimension)) = Self::find_unit_by_name(literal_singular) {
+                    return Some((unit, dimension, None));
+                } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal_singular)
+                {
+                    return Some((unit, dimension, None));
+                }
+
                 if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(literal_singular)
                     && let Some((unit, dimension)) = Self::find_si_unit_by_name(base)
                 {
@@ -172,13 +179,6 @@ impl Dimension {
                 {
                     return Some((unit, dimension, Some(prefix)));
                 }
-
-                if let Some((unit, dimension)) = Self::find_unit_by_name(literal_singular) {
-                    return Some((unit, dimension, None));
-                } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal_singular)
-                {
-                    return Some((unit, dimension, None));
-                }
             }
         }
 
-- 
2.43.0


From d9ab45d0bad4aa21bb1406a94bd7887688e17de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 13/59] fix: implicit exponents after non-ASCII unit symbols

---
 whippyunits-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 66f8f8f..5041d5c 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -185,7 +185,7 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From f7672d9ed6a4a71565ef9901888727a0803ec1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 14/59] fix: a unit of another scale does not name a printed
 unit (kHz printed as Hz)

---
 whippyunits-core/src/storage_unit.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 693547d..34f07a0 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -251,23 +251,14 @@ pub fn lookup_unit_literal_by_scale_factors(
     ]);
 
     if let Some(dimension) = Dimension::find_dimension_by_exponents(dyn_exponents) {
-        // First, try to find a unit that matches the exact scale factors
-        // This is the preferred approach - use exact matches when possible
-        if let Some(exact_unit) = dimension.units.iter().find(|unit| {
-            unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
-        }) {
-            return Some(if long_name {
-                exact_unit.name
-            } else {
-                exact_unit.symbols[0]
-            });
-        }
-
-        // If no exact match found, fall back to base unit (identity scale)
+        // Only a unit with exactly these scale factors names the scale; any other unit of the
+        // dimension needs a prefix or an explicit factor, which the caller applies
         dimension
             .units
             .iter()
-            .find(|unit| unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0)
+            .find(|unit| {
+                unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
+            })
             .map(|unit| {
                 if long_name {
                     unit.name
-- 
2.43.0


From 8b73594666ad3b6bdb02146661e58437cb7f018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 15/59] =?UTF-8?q?fix:=20a=20prefix=20on=20any=20power=20of?=
 =?UTF-8?q?=20a=20unit=20is=20parenthesized=20(dA=E2=81=BB=C2=B9=20meant?=
 =?UTF-8?q?=20d(A=E2=81=BB=C2=B9))?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 whippyunits-core/src/storage_unit.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 34f07a0..552f733 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -371,9 +371,7 @@ pub fn generate_prefixed_systematic_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_unit.contains("·")
-            && (base_unit.contains("^") || base_unit.contains("²") || base_unit.contains("³"))
-        {
+        if !base_unit.contains("·") && has_exponent(base_unit) {
             format!("{}({})", prefix, base_unit)
         } else {
             format!("{}{}", prefix, base_unit)
@@ -434,11 +432,7 @@ pub fn generate_prefixed_si_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_si_unit.contains("·")
-            && (base_si_unit.contains("^")
-                || base_si_unit.contains("²")
-                || base_si_unit.contains("³"))
-        {
+        if !base_si_unit.contains("·") && has_exponent(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
         } else {
             format!("{}{}", prefix, base_si_unit)
@@ -473,6 +467,11 @@ fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_
     scale_exponents.log10().unwrap_or(0)
 }
 
+/// Whether a unit name carries an exponent (a prefix would be read as part of the power)
+fn has_exponent(unit: &str) -> bool {
+    unit.contains(['^', '⁻', '⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'])
+}
+
 /// Generate SI unit with 10^n notation when no standard prefix is available
 fn generate_si_unit_with_scale(
     total_scale_p10: i16,
-- 
2.43.0


From 2327ab0c031b9fc34566fe3d5a17c06db6064955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 16/59] =?UTF-8?q?fix:=20a=20unit=20names=20a=20printed=20s?=
 =?UTF-8?q?cale=20only=20with=20the=20power=20it=20carries=20(min=E2=81=BB?=
 =?UTF-8?q?=C2=B9=20printed=20for=20a=20scale=20of=2060)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 whippyunits-core/src/storage_unit.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 552f733..1c2b5bc 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -597,6 +597,8 @@ pub fn generate_systematic_composite_unit_name_with_scale(
     // Generate unit parts for each dimension using simple string concatenation
     let mut result = String::new();
     let mut first = true;
+    // The scale factors not yet expressed by one of the units
+    let mut unmatched_scale = scale_factors;
 
     for (index, &exp) in exponents.iter().enumerate() {
         if exp == 0 {
@@ -608,24 +610,16 @@ pub fn generate_systematic_composite_unit_name_with_scale(
         let (unit_name, unit_symbol, base_scale_offset) =
             if let Some(dimension) = Dimension::BASIS.get(index) {
                 // If scale factors are provided, try to find a matching unit
-                let matched_unit = if let Some(scale) = scale_factors {
+                let matched_unit = if let Some(scale) = unmatched_scale {
                     // For compound units, try to match the aggregate scale factors
                     // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
-                    dimension
-                        .units
-                        .iter()
-                        .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
-                        // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
-                        .or_else(|| {
-                            if scale == ScaleExponents::IDENTITY {
-                                None // Already tried identity above
-                            } else {
-                                dimension.units.iter().find(|unit| {
-                                    unit.scale == ScaleExponents::IDENTITY
-                                        && unit.conversion_factor == 1.0
-                                })
-                            }
-                        })
+                    let exact_unit = dimension.units.iter().find(|unit| {
+                        unit.scale.scalar_exp(exp) == scale && unit.conversion_factor == 1.0
+                    });
+                    if exact_unit.is_some() {
+                        unmatched_scale = Some(ScaleExponents::IDENTITY);
+                    }
+                    exact_unit
                 } else {
                     None
                 };
-- 
2.43.0


From f5545b86ddecf39f7dde325b6ee27aab89b83142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 17/59] fix: printed scales are relative to the printed unit's
 own scale (St, powers of gram)

---
 whippyunits-core/src/storage_unit.rs | 83 +++++++---------------------
 1 file changed, 21 insertions(+), 62 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 1c2b5bc..fa92883 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -340,36 +340,19 @@ pub fn generate_prefixed_systematic_unit(
     base_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
     // Check if this is a pure unit (not compound)
     let is_pure_unit = !base_unit.contains("·");
 
-    // For pure units, check if we need to apply base scale offset
-    let effective_scale_p10 = if is_pure_unit {
-        // Find the base scale offset by looking up the unit's scale from whippyunits-core
-        // The base_unit comes from systematic unit name generation, so it should always be valid
-        let base_scale_offset = Dimension::find_unit_by_symbol(base_unit)
-            .or_else(|| Dimension::find_unit_by_name(base_unit))
-            .map(|(_unit, _dimension)| _unit.scale.log10().unwrap_or(0))
-            .unwrap_or(0);
-
-        // Apply the base scale offset to the scale calculation
-        // The base scale offset represents the offset of the base unit (e.g., gram = -3)
-        // We need to subtract it from the total scale to get the effective scale
-        total_scale_p10 - base_scale_offset
+    // The scale is expressed relative to the base unit (e.g., gram = 10^-3). For compound units
+    // the individual parts already have their base scale offsets applied
+    let scale_factors = if is_pure_unit {
+        scale_relative_to_unit(scale_factors, base_unit)
     } else {
-        // For compound units, don't apply base scale offset to the aggregate prefix
-        // The individual parts already have their base scale offsets applied
-        total_scale_p10
+        scale_factors
     };
+    let effective_scale_p10 = scale_factors.log10();
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    if let Some(prefix) = effective_scale_p10.and_then(|p10| get_si_prefix(p10, long_name)) {
         // For pure powers of base units, add disambiguating parentheses
         if !base_unit.contains("·") && has_exponent(base_unit) {
             format!("{}({})", prefix, base_unit)
@@ -377,10 +360,7 @@ pub fn generate_prefixed_systematic_unit(
             format!("{}{}", prefix, base_unit)
         }
     } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
-        if is_pure_power_of_10 {
+        if let Some(effective_scale_p10) = effective_scale_p10 {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_unit, long_name)
         } else {
@@ -406,31 +386,11 @@ pub fn generate_prefixed_si_unit(
     base_si_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
+    // The scale is expressed relative to the base unit (e.g., gram = 10^-3)
+    let scale_factors = scale_relative_to_unit(scale_factors, base_si_unit);
+    let effective_scale_p10 = scale_factors.log10();
 
-    // Apply base scale offset for mass units (same logic as generate_prefixed_systematic_unit)
-    let effective_scale_p10 =
-        if let Some((_unit, _dimension)) = Dimension::find_unit_by_symbol(base_si_unit) {
-            // Get the base scale offset from the unit's scale (systematic approach)
-            let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-            total_scale_p10 - base_scale_offset
-        } else {
-            // Fallback: try to find by name if symbol lookup fails
-            if let Some((_unit, _dimension)) = Dimension::find_unit_by_name(base_si_unit) {
-                let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-                total_scale_p10 - base_scale_offset
-            } else {
-                // No base scale offset found, use total scale as-is
-                total_scale_p10
-            }
-        };
-
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    if let Some(prefix) = effective_scale_p10.and_then(|p10| get_si_prefix(p10, long_name)) {
         // For pure powers of base units, add disambiguating parentheses
         if !base_si_unit.contains("·") && has_exponent(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
@@ -438,10 +398,7 @@ pub fn generate_prefixed_si_unit(
             format!("{}{}", prefix, base_si_unit)
         }
     } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
-        if is_pure_power_of_10 {
+        if let Some(effective_scale_p10) = effective_scale_p10 {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_si_unit, long_name)
         } else {
@@ -461,10 +418,12 @@ pub fn generate_prefixed_si_unit(
     }
 }
 
-/// Calculate total power of 10 using whippyunits-core ScaleExponents
-fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> i16 {
-    let scale_exponents = ScaleExponents([scale_p2, scale_p3, scale_p5, scale_pi]);
-    scale_exponents.log10().unwrap_or(0)
+/// Scale factors relative to the scale of the named unit (unchanged if there is no such unit)
+fn scale_relative_to_unit(scale_factors: ScaleExponents, unit_name: &str) -> ScaleExponents {
+    Dimension::find_unit_by_symbol(unit_name)
+        .or_else(|| Dimension::find_unit_by_name(unit_name))
+        .map(|(unit, _dimension)| scale_factors.mul(unit.scale.neg()))
+        .unwrap_or(scale_factors)
 }
 
 /// Whether a unit name carries an exponent (a prefix would be read as part of the power)
@@ -637,8 +596,8 @@ pub fn generate_systematic_composite_unit_name_with_scale(
         // For compound units, convert g to kg for mass terms
         let is_compound_unit = exponents.iter().filter(|&&exp| exp != 0).count() > 1;
         let (adjusted_unit_name, adjusted_unit_symbol) =
-            if is_compound_unit && base_scale_offset != 0 && index == 0 {
-                // This is a compound unit with mass dimension (index 0) that has a scale offset
+            if (is_compound_unit || exp != 1) && base_scale_offset != 0 && index == 0 {
+                // This is a compound unit (or a power) with mass dimension (index 0) that has a scale offset
                 if long_name {
                     match unit_name {
                         "gram" => ("kilogram", unit_symbol),
-- 
2.43.0


From 04c470e2880d6643487892571d1f8bc0b9c625ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 18/59] fix: f32 rescale applies the factor in f64 (factors
 beyond f32 range gave 0 or inf)

---
 src/scale_conversion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 54284c5..6580c1a 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -159,14 +159,14 @@ macro_rules! _define_float_rescale {
         ) -> $($float_rescale_output_type)* {
             let rescale_factor = aggregate_scale_factor_float(
                 $($float_rescale_aggregate_args)*
-            ) as $T;
+            );
             Quantity::<
                 Scale<_2<SCALE_P2_TO>, _3<SCALE_P3_TO>, _5<SCALE_P5_TO>, _Pi<SCALE_PI_TO>>,
                 Dimension<_M<MASS_EXPONENT>, _L<LENGTH_EXPONENT>, _T<TIME_EXPONENT>, _I<CURRENT_EXPONENT>, _Θ<TEMPERATURE_EXPONENT>, _N<AMOUNT_EXPONENT>, _J<LUMINOSITY_EXPONENT>, _A<ANGLE_EXPONENT>>,
                 $T,
                 Brand,
             >::new(
-                quantity.unsafe_value * rescale_factor
+                ((quantity.unsafe_value as f64) * rescale_factor) as $T
             )
         }
     };
-- 
2.43.0


From 00f85ad754d001b170345f53ea6c9b54a445b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 19/59] fix: reduce_rational removes all factors of two (it
 looped for ages on ratios like 2/5^40)

---
 src/scale_conversion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 6580c1a..e799ab9 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -78,10 +78,10 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     let mut num_u = num.unsigned_abs();
     let mut den_u = den.unsigned_abs();
 
-    // Remove common factors of 2 using bit shifts
+    // Remove all factors of 2 using bit shifts, remembering the common ones
     let common_twos = (num_u | den_u).trailing_zeros();
-    num_u >>= common_twos;
-    den_u >>= common_twos;
+    num_u >>= num_u.trailing_zeros();
+    den_u >>= den_u.trailing_zeros();
 
     // Now both are odd, so we can use the odd-odd case of binary GCD
     while num_u != den_u {
-- 
2.43.0


From 409465fbcb560d8fa7ccae7e3ce18bfdfa800bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 20/59] fix: dimensionless integer-to-integer conversion stays
 in integer math (f64 detour lost exactness)

---
 ...rate_all_dimensionless_cross_type_macro.rs |  7 ++-
 src/quantity.rs                               | 59 +++++++++++++++++++
 src/scale_conversion.rs                       | 43 ++++++++++++++
 3 files changed, 107 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/generate_all_dimensionless_cross_type_macro.rs b/proc-macros/src/generate_all_dimensionless_cross_type_macro.rs
index a2d62f5..da87833 100644
--- a/proc-macros/src/generate_all_dimensionless_cross_type_macro.rs
+++ b/proc-macros/src/generate_all_dimensionless_cross_type_macro.rs
@@ -30,8 +30,11 @@ impl AllDimensionlessCrossTypeInput {
                 let source_ident = syn::parse_str::<syn::Ident>(source).unwrap();
                 let target_ident = syn::parse_str::<syn::Ident>(target).unwrap();
 
-                expansions.push(quote! {
-                    define_from_dimensionless_cross_type!(#source_ident, #target_ident);
+                let is_integer = |name: &str| !name.starts_with('f');
+                expansions.push(if is_integer(source) && is_integer(target) {
+                    quote! { define_from_dimensionless_cross_integer!(#source_ident, #target_ident); }
+                } else {
+                    quote! { define_from_dimensionless_cross_type!(#source_ident, #target_ident); }
                 });
             }
         }
diff --git a/src/quantity.rs b/src/quantity.rs
index 32d928c..9cddf75 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -729,6 +729,65 @@ macro_rules! define_from_dimensionless_cross_type {
     };
 }
 
+// integer-to-integer conversions stay in integer math
+#[doc(hidden)]
+macro_rules! define_from_dimensionless_cross_integer {
+    ($source_type:ty, $target_type:ty) => {
+        impl<const SCALE_P2: i16, const SCALE_P3: i16, const SCALE_P5: i16, const SCALE_PI: i16>
+            From<
+                Quantity<
+                    Scale<_2<SCALE_P2>, _3<SCALE_P3>, _5<SCALE_P5>, _Pi<SCALE_PI>>,
+                    Dimension<_M<0>, _L<0>, _T<0>, _I<0>, _Θ<0>, _N<0>, _J<0>, _A<0>>,
+                    $source_type,
+                >,
+            > for $target_type
+        {
+            fn from(
+                other: Quantity<
+                    Scale<_2<SCALE_P2>, _3<SCALE_P3>, _5<SCALE_P5>, _Pi<SCALE_PI>>,
+                    Dimension<_M<0>, _L<0>, _T<0>, _I<0>, _Θ<0>, _N<0>, _J<0>, _A<0>>,
+                    $source_type,
+                >,
+            ) -> $target_type {
+                let value = other.unsafe_value;
+                #[allow(unused_comparisons)]
+                let negative = value < 0;
+                let magnitude = if negative {
+                    (value as i128).unsigned_abs()
+                } else {
+                    value as u128
+                };
+                match crate::scale_conversion::checked_scale_magnitude(
+                    magnitude, SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI,
+                ) {
+                    // Out-of-range results saturate, like float-to-integer casts
+                    Some(scaled) if negative => {
+                        if scaled > (<$target_type>::MIN as i128).unsigned_abs() {
+                            <$target_type>::MIN
+                        } else {
+                            scaled.wrapping_neg() as $target_type
+                        }
+                    }
+                    Some(scaled) => {
+                        if scaled > <$target_type>::MAX as u128 {
+                            <$target_type>::MAX
+                        } else {
+                            scaled as $target_type
+                        }
+                    }
+                    // Intermediate values do not fit 128 bits
+                    None => {
+                        ((value as f64)
+                            * crate::api::aggregate_scale_factor_float(
+                                SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI, 0, 0, 0, 0,
+                            )) as $target_type
+                    }
+                }
+            }
+        }
+    };
+}
+
 #[doc(hidden)]
 macro_rules! define_from_dimensionless {
     ($type:ty, $rescale_fn:ident) => {
diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index e799ab9..ad76995 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -105,6 +105,49 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     (reduced_num, reduced_den)
 }
 
+/// An integer magnitude times a scale (pi taken as 355/113), truncated.
+///
+/// Returns `None` when an intermediate value does not fit 128 bits.
+#[doc(hidden)]
+pub const fn checked_scale_magnitude(
+    magnitude: u128,
+    scale_p2: i16,
+    scale_p3: i16,
+    scale_p5: i16,
+    scale_pi: i16,
+) -> Option<u128> {
+    let factors = [
+        (2u128, 1u128, scale_p2),
+        (3, 1, scale_p3),
+        (5, 1, scale_p5),
+        (355, 113, scale_pi),
+    ];
+    let mut num = magnitude;
+    let mut den = 1u128;
+    let mut i = 0;
+    while i < factors.len() {
+        let (base_num, base_den, exponent) = factors[i];
+        let (up, down) = if exponent < 0 {
+            (base_den, base_num)
+        } else {
+            (base_num, base_den)
+        };
+        let exponent = exponent.unsigned_abs() as u32;
+        num = match (up.checked_pow(exponent), down.checked_pow(exponent)) {
+            (Some(up), Some(down)) => match (num.checked_mul(up), den.checked_mul(down)) {
+                (Some(num), Some(product)) => {
+                    den = product;
+                    num
+                }
+                _ => return None,
+            },
+            _ => return None,
+        };
+        i += 1;
+    }
+    Some(num / den)
+}
+
 #[macro_export]
 #[doc(hidden)]
 macro_rules! _define_float_rescale {
-- 
2.43.0


From e37d64bb55314881e6393bcbbbf9dfb24e1db3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:19 +0000
Subject: [PATCH 21/59] fix: infinite and extreme values are displayed as such
 (they printed as NaN)

---
 src/print/prettyprint.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index 3850bd8..f384554 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -443,11 +443,19 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
         return "0".to_string();
     }
 
+    if !value.is_finite() {
+        return format!("{}", value);
+    }
+
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
-    let rounded = (value * scale_factor).round() / scale_factor;
+    let mut rounded = (value * scale_factor).round() / scale_factor;
+    if !rounded.is_finite() {
+        // Rounding leaves the range of f64 at either end of it
+        rounded = value;
+    }
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
-- 
2.43.0


From 9fa17a880d1f5447be9565b7c8e7db40a5a7cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 22/59] fix: exponents out of range in unit text are errors
 (they panicked, wrapped or were truncated)

---
 whippyunits-core/src/parser.rs | 67 +++++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 5041d5c..d1c74cc 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -62,11 +62,57 @@ impl Parse for UnitExpr {
             left = UnitExpr::Div(Box::new(left), Box::new(right));
         }
 
+        if left.checked_exponents().is_none() {
+            return Err(syn::Error::new(
+                input.span(),
+                "unit exponents out of range",
+            ));
+        }
+
         Ok(left)
     }
 }
 
 impl UnitExpr {
+    /// Dimension and scale exponents of this expression, or None if they (or those of any part of
+    /// it) do not fit the exponents of a quantity type
+    fn checked_exponents(&self) -> Option<[i16; 12]> {
+        let combine = |a: &Self, b: &Self, op: fn(i32, i32) -> i32| {
+            let (a, b) = (a.checked_exponents()?, b.checked_exponents()?);
+            let mut result = [0; 12];
+            for i in 0..12 {
+                result[i] = checked_exponent(op(a[i] as i32, b[i] as i32))?;
+            }
+            Some(result)
+        };
+        let power = |base: [i16; 12], exponent: i16| {
+            let mut result = [0; 12];
+            for i in 0..12 {
+                result[i] = checked_exponent(base[i] as i32 * exponent as i32)?;
+            }
+            Some(result)
+        };
+
+        match self {
+            UnitExpr::Unit(unit) => {
+                let base = UnitExpr::Unit(UnitExprUnit {
+                    name: unit.name.clone(),
+                    exponent: 1,
+                })
+                .evaluate_with_mode(EvaluationMode::Tolerant);
+                let mut exponents = [0; 12];
+                exponents[..8].copy_from_slice(&base.dimension_exponents.0);
+                exponents[8..].copy_from_slice(&base.scale_exponents.0);
+                power(exponents, unit.exponent)
+            }
+            UnitExpr::Mul(a, b) => combine(a, b, |a, b| a + b),
+            UnitExpr::Div(a, b) => combine(a, b, |a, b| a - b),
+            UnitExpr::Pow(base, exponent) => {
+                power(base.checked_exponents()?, exponent.base10_parse().ok()?)
+            }
+        }
+    }
+
     fn parse_factor(input: ParseStream) -> Result<Self> {
         let mut left = Self::parse_power(input)?;
 
@@ -116,6 +162,7 @@ impl UnitExpr {
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
+            parse_exponent(&exponent)?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
@@ -136,7 +183,7 @@ impl UnitExpr {
             if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                let exponent = parse_exponent(&exponent_lit)?;
 
                 // Handle power-of-10 expressions like "10^4"
                 if base_value == 10 {
@@ -145,7 +192,7 @@ impl UnitExpr {
                     // For now, we'll create a unit with the appropriate scale factor
                     Ok(UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
+                        exponent,
                     }))
                 } else {
                     // For other bases, treat as regular power expression
@@ -408,6 +455,22 @@ impl UnitExpr {
     }
 }
 
+/// Parse the exponent of a power, which must fit the exponents of a quantity type
+fn parse_exponent(exponent: &LitInt) -> Result<i16> {
+    if !exponent.suffix().is_empty() {
+        return Err(syn::Error::new(
+            exponent.span(),
+            "expected an integer exponent",
+        ));
+    }
+    exponent.base10_parse()
+}
+
+/// An exponent of a unit expression, or None if it (or its negation) does not fit an `i16`
+fn checked_exponent(exponent: i32) -> Option<i16> {
+    i16::try_from(exponent).ok().filter(|&e| e != i16::MIN)
+}
+
 /// Calculate conversion factor and affine offset from a parsed unit expression
 /// Returns (conversion_factor, affine_offset) for nonstorage units
 /// For storage units, returns (1.0, 0.0)
-- 
2.43.0


From 09e93c08ef1f80e6ee6d59263f4cdbd7cb5d14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 23/59] fix: raw identifiers in unit text are read as the unit
 they spell (r#m2 panicked)

---
 whippyunits-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index d1c74cc..5e27d1a 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -227,7 +227,7 @@ impl UnitExpr {
                 Ok(keyword) if get_unit_info(&keyword.to_string()).is_some() => {
                     input.call(Ident::parse_any)?
                 }
-                _ => input.parse()?,
+                _ => input.parse::<Ident>()?.unraw(),
             };
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
-- 
2.43.0


From 6fa7ba7b20a225fd1801778f1c4e45733cec1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 24/59] fix: numbers other than 1 and powers of ten in unit
 text are errors (2*m was read as m, 100*m as m, 10m as 10)

---
 whippyunits-core/src/parser.rs | 72 +++++++++++++++-------------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 5e27d1a..d5dcd6e 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -63,10 +63,7 @@ impl Parse for UnitExpr {
         }
 
         if left.checked_exponents().is_none() {
-            return Err(syn::Error::new(
-                input.span(),
-                "unit exponents out of range",
-            ));
+            return Err(syn::Error::new(input.span(), "unit exponents out of range"));
         }
 
         Ok(left)
@@ -177,48 +174,43 @@ impl UnitExpr {
         } else if input.peek(syn::LitInt) {
             // Handle numeric literals like "1" in "1 / m" or "10" in "10^4 m"
             let lit: syn::LitInt = input.parse()?;
-            let base_value: i32 = lit.base10_parse()?;
+            let base_value: i128 = lit.base10_parse()?;
+
+            // The only numbers with a meaning as part of a unit are 1 and powers of 10
+            let base_log10 = (0..=38i16).find(|&n| 10i128.pow(n as u32) == base_value);
+            let base_log10 = match base_log10 {
+                Some(base_log10) if lit.suffix().is_empty() => base_log10,
+                _ => {
+                    return Err(syn::Error::new(
+                        lit.span(),
+                        "numbers in a unit must be 1 or a power of 10",
+                    ));
+                }
+            };
 
             // Check if this is followed by a caret (^) for power notation
-            if input.peek(Caret) {
+            let exponent = if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent = parse_exponent(&exponent_lit)?;
+                parse_exponent(&exponent_lit)?
+            } else {
+                1
+            };
 
-                // Handle power-of-10 expressions like "10^4"
-                if base_value == 10 {
-                    // This is a power-of-10 scale factor
-                    // We need to create a special unit that represents this scale
-                    // For now, we'll create a unit with the appropriate scale factor
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent,
-                    }))
-                } else {
-                    // For other bases, treat as regular power expression
-                    Ok(UnitExpr::Pow(
-                        Box::new(UnitExpr::Unit(UnitExprUnit {
-                            name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
-                            exponent: 1,
-                        })),
-                        exponent_lit,
-                    ))
-                }
+            if base_log10 == 0 {
+                Ok(UnitExpr::Unit(UnitExprUnit {
+                    name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
+                    exponent: 1,
+                }))
             } else {
-                // Regular numeric literal - check if it's a power of 10
-                if base_value == 10 {
-                    // Treat "10" as "10^1" for power-of-10 scale factors
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: 1,
-                    }))
-                } else {
-                    // Other numeric literals - treat as dimensionless
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
-                        exponent: 1,
-                    }))
-                }
+                // This is a power-of-10 scale factor
+                let exponent = base_log10
+                    .checked_mul(exponent)
+                    .ok_or_else(|| syn::Error::new(lit.span(), "unit exponents out of range"))?;
+                Ok(UnitExpr::Unit(UnitExprUnit {
+                    name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
+                    exponent,
+                }))
             }
         } else {
             let keyword = input.fork().call(Ident::parse_any);
-- 
2.43.0


From 539c37a168b254040bd04fd1dd4a9f4e79c6f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:57 +0000
Subject: [PATCH 25/59] fix: run-time unit text naming an unknown unit, or too
 deep to parse, is an error (5 xyz*m was read as 5 m; deep nesting overflowed
 the stack)

---
 src/quantity.rs      |  7 +----
 src/serialization.rs | 63 +++++++++++++++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index 9cddf75..790ee5a 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -510,15 +510,10 @@ impl<
         }
 
         // Parse the target unit string to get UnitExpr for conversion factor calculation
-        use proc_macro2::TokenStream;
-        use syn::parse_str;
         use whippyunits_core::{UnitExpr, calculate_unit_conversion_factors};
 
         // Parse the target unit string into a UnitExpr
-        let target_unit_expr: UnitExpr = match (|| -> Result<UnitExpr, ()> {
-            let token_stream: TokenStream = parse_str(unit).map_err(|_| ())?;
-            syn::parse2(token_stream).map_err(|_| ())
-        })() {
+        let target_unit_expr: UnitExpr = match crate::serialization::parse_unit_expr(unit) {
             Ok(expr) => expr,
             Err(_) => {
                 // Parse error - fall back to scale-only conversion
diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..143d2ab 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -44,7 +44,7 @@ use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
     SiPrefix, Unit, UnitEvaluationResult, UnitExpr, dimension_exponents::DynDimensionExponents,
-    scale_exponents::ScaleExponents,
+    get_unit_info, scale_exponents::ScaleExponents,
 };
 
 /// Represents the dimension and scale exponents for a unit using proper whippyunits-core types
@@ -603,6 +603,47 @@ where
 
 // deserialize_from_json removed - not compatible with compile-time only units library
 
+/// Longest unit text that is parsed (the parser is recursive, and unit text may come from anywhere)
+const MAX_UNIT_TEXT_LEN: usize = 1024;
+
+/// Deepest nesting of parentheses in unit text that is parsed
+const MAX_UNIT_TEXT_DEPTH: usize = 32;
+
+/// Parse a unit string, all of whose units must be known, into a UnitExpr
+pub(crate) fn parse_unit_expr(unit_str: &str) -> Result<UnitExpr, SerializationError> {
+    let error = || {
+        SerializationError::ParseError(format!("Failed to parse unit expression: {}", unit_str))
+    };
+
+    let mut depth = 0usize;
+    for c in unit_str.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth > MAX_UNIT_TEXT_DEPTH {
+            return Err(error());
+        }
+    }
+    if unit_str.len() > MAX_UNIT_TEXT_LEN {
+        return Err(error());
+    }
+
+    let token_stream: TokenStream = parse_str(unit_str).map_err(|_| error())?;
+    let unit_expr: UnitExpr = syn::parse2(token_stream).map_err(|_| error())?;
+
+    for ident in unit_expr.collect_unit_identifiers() {
+        let name = ident.to_string();
+        // The parser stands these two in for numbers
+        if name != "dimensionless" && name != "power_of_10" && get_unit_info(&name).is_none() {
+            return Err(SerializationError::UnknownUnit(name));
+        }
+    }
+
+    Ok(unit_expr)
+}
+
 /// Parse a UCUM unit string to extract dimension exponents and scale factors
 /// Returns (mass, length, time, current, temperature, amount, luminosity, angle, p2, p3, p5, pi)
 pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
@@ -614,13 +655,7 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         ));
     }
 
-    // Convert the string to a TokenStream for parsing
-    let token_stream: TokenStream = parse_str(ucum_string).map_err(|_| {
-        UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
-    })?;
-
-    // Parse the TokenStream into a UnitExpr
-    let unit_expr: UnitExpr = syn::parse2(token_stream).map_err(|_| {
+    let unit_expr = parse_unit_expr(ucum_string).map_err(|_| {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
     })?;
 
@@ -654,9 +689,7 @@ pub fn validate_dimensions(
 /// Returns (conversion_factor, affine_offset) for nonstorage units
 /// For storage units, returns (1.0, 0.0)
 fn calculate_unit_conversion_factors(unit_str: &str) -> Result<(f64, f64), SerializationError> {
-    use proc_macro2::TokenStream;
-    use syn::parse_str;
-    use whippyunits_core::{UnitExpr, calculate_unit_conversion_factors as calc_cf};
+    use whippyunits_core::calculate_unit_conversion_factors as calc_cf;
 
     // Handle dimensionless case
     if unit_str == "1" {
@@ -664,13 +697,7 @@ fn calculate_unit_conversion_factors(unit_str: &str) -> Result<(f64, f64), Seria
     }
 
     // Parse the unit string into a UnitExpr
-    let token_stream: TokenStream = parse_str(unit_str).map_err(|_| {
-        SerializationError::ParseError(format!("Failed to parse unit string: {}", unit_str))
-    })?;
-
-    let unit_expr: UnitExpr = syn::parse2(token_stream).map_err(|_| {
-        SerializationError::ParseError(format!("Failed to parse unit expression: {}", unit_str))
-    })?;
+    let unit_expr = parse_unit_expr(unit_str)?;
 
     // Use the shared logic from whippyunits-core
     Ok(calc_cf(&unit_expr))
-- 
2.43.0


From 12cb8c836a0e8584bce3576a2ae959284d65cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:00 +0000
Subject: [PATCH 26/59] =?UTF-8?q?fix:=20serialized=20unit=20strings=20are?=
 =?UTF-8?q?=20UCUM=20and=20parse=20again=20((kg=C2=B7m=C2=B7s=E2=81=BB?=
 =?UTF-8?q?=C2=B2)=20did=20not)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/print/name_lookup.rs             | 11 ++----
 whippyunits-core/src/storage_unit.rs | 54 ++++++++++++++++++++++++----
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/print/name_lookup.rs b/src/print/name_lookup.rs
index de11179..bf10c36 100644
--- a/src/print/name_lookup.rs
+++ b/src/print/name_lookup.rs
@@ -2,7 +2,8 @@ use crate::alloc::{String, ToString, Vec};
 use whippyunits_core::{
     scale_exponents::ScaleExponents,
     storage_unit::{
-        DimensionNames as CoreDimensionNames, generate_systematic_composite_unit_name,
+        DimensionNames as CoreDimensionNames, convert_unicode_to_ucum_format,
+        generate_systematic_composite_unit_name,
         generate_systematic_unit_name as core_generate_systematic_unit_name,
         generate_systematic_unit_name_with_scale_factors as core_generate_systematic_unit_name_with_scale_factors,
         lookup_dimension_name as core_lookup_dimension_name,
@@ -59,14 +60,6 @@ pub fn generate_systematic_unit_name_with_format(
     }
 }
 
-/// Convert Unicode format unit string to UCUM format
-fn convert_unicode_to_ucum_format(unicode_unit: &str) -> String {
-    // This is a simplified conversion - in practice, you might need more sophisticated logic
-    // For now, just return the unicode format as-is since the core logic already handles
-    // the basic formatting correctly
-    unicode_unit.to_string()
-}
-
 pub type DimensionNames = CoreDimensionNames;
 
 pub fn lookup_dimension_name(exponents: Vec<i16>) -> Option<DimensionNames> {
diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index fa92883..ce2c7f4 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -220,12 +220,54 @@ pub fn generate_systematic_unit_name_with_format_and_scale(
     }
 }
 
-/// Convert Unicode format unit string to UCUM format
-fn convert_unicode_to_ucum_format(unicode_unit: &str) -> String {
-    // This is a simplified conversion - in practice, you might need more sophisticated logic
-    // For now, just return the unicode format as-is since the core logic already handles
-    // the basic formatting correctly
-    unicode_unit.to_string()
+/// Convert Unicode format unit string (e.g. "(kg·m²·s⁻³·A⁻¹)") to UCUM format (e.g. "kg.m2/s3/A")
+pub fn convert_unicode_to_ucum_format(unicode_unit: &str) -> String {
+    let mut numerator: Vec<String> = Vec::new();
+    let mut denominator = String::new();
+
+    for factor in unicode_unit
+        .trim_start_matches('(')
+        .trim_end_matches(')')
+        .split('·')
+    {
+        let split = factor
+            .find(|c| superscript_to_ascii(c).is_some())
+            .unwrap_or(factor.len());
+        let (symbol, superscript) = factor.split_at(split);
+        let exponent: String = superscript
+            .chars()
+            .filter_map(superscript_to_ascii)
+            .collect();
+
+        match exponent.strip_prefix('-') {
+            Some("1") => denominator.push_str(&format!("/{}", symbol)),
+            Some(exponent) => denominator.push_str(&format!("/{}{}", symbol, exponent)),
+            None => numerator.push(format!("{}{}", symbol, exponent)),
+        }
+    }
+
+    if numerator.is_empty() {
+        numerator.push("1".to_string());
+    }
+    format!("{}{}", numerator.join("."), denominator)
+}
+
+/// Inverse of [`to_unicode_superscript`](crate::to_unicode_superscript), for one character
+fn superscript_to_ascii(c: char) -> Option<char> {
+    match c {
+        '⁻' => Some('-'),
+        '⁰' => Some('0'),
+        '¹' => Some('1'),
+        '²' => Some('2'),
+        '³' => Some('3'),
+        '⁴' => Some('4'),
+        '⁵' => Some('5'),
+        '⁶' => Some('6'),
+        '⁷' => Some('7'),
+        '⁸' => Some('8'),
+        '⁹' => Some('9'),
+        _ => None,
+    }
 }
 
 /// Look up a unit literal by its dimension exponents and scale factors
-- 
2.43.0


From 2b6244eaf7807017a21a570d566ce36a38e0a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 27/59] fix: serialized values are in the unit they are
 labelled with (5 km was written as 5 m)

---
 src/serialization.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 143d2ab..46d8596 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -249,7 +249,9 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
+        // The unit string names the coherent unit of the dimension
+        let value = self.unsafe_value.into()
+            * aggregate_scale_factor_float(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI, 0, 0, 0, 0);
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -593,7 +595,9 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    // The unit string names the coherent unit of the dimension
+    let value = quantity.unsafe_value.into()
+        * aggregate_scale_factor_float(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI, 0, 0, 0, 0);
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
@@ -611,9 +615,8 @@ const MAX_UNIT_TEXT_DEPTH: usize = 32;
 
 /// Parse a unit string, all of whose units must be known, into a UnitExpr
 pub(crate) fn parse_unit_expr(unit_str: &str) -> Result<UnitExpr, SerializationError> {
-    let error = || {
-        SerializationError::ParseError(format!("Failed to parse unit expression: {}", unit_str))
-    };
+    let error =
+        || SerializationError::ParseError(format!("Failed to parse unit expression: {}", unit_str));
 
     let mut depth = 0usize;
     for c in unit_str.chars() {
-- 
2.43.0


From 3b7a27495fe95deaceb8a7620fb5a0c82795a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 28/59] fix: float rescale factors beyond the power tables are
 computed (they silently became 1)

---
 proc-macros/src/pow_lookup_macro.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/proc-macros/src/pow_lookup_macro.rs b/proc-macros/src/pow_lookup_macro.rs
index 3c99528..ad4e897 100644
--- a/proc-macros/src/pow_lookup_macro.rs
+++ b/proc-macros/src/pow_lookup_macro.rs
@@ -124,9 +124,7 @@ impl PowLookupInput {
         }
 
         // Add default case
-        match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
-        });
+        match_arms.push(float_power_arm(quote! { #base }));
 
         let func_name = &self.name;
 
@@ -170,6 +168,21 @@ fn base_to_power_float(base: &Expr, exp: i32) -> proc_macro2::TokenStream {
     }
 }
 
+/// Match arm computing the power of a base for exponents outside the table
+fn float_power_arm(base: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+    quote! {
+        _ => {
+            let mut power = 1.0;
+            let mut i = exp.unsigned_abs();
+            while i > 0 {
+                power *= #base;
+                i -= 1;
+            }
+            if exp < 0 { 1.0 / power } else { power }
+        }
+    }
+}
+
 /// Special macro for π exponentiation with rational approximation
 /// Syntax: pow_pi_lookup!(pow_pi, 8, rational)
 pub struct PiPowLookupInput {
@@ -291,9 +304,7 @@ impl PiPowLookupInput {
         }
 
         // Add default case
-        match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
-        });
+        match_arms.push(float_power_arm(quote! { core::f64::consts::PI }));
 
         let func_name = &self.name;
 
-- 
2.43.0


From 4ad4b8011e8fdd25644d455e5d04d1d01357df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 29/59] fix: a value written without a space before a unit
 containing spaces is read

"5m / s" was split at the first space and refused, and finding the number took
time quadratic in the length of the text.
---
 src/serialization.rs | 62 +++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 46d8596..3c39100 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -1013,40 +1013,19 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
 
     if parts.len() >= 2 {
         // Space-separated format: "5.0 m"
-        let value: f64 = parts[0].parse().map_err(|e| {
-            SerializationError::ParseError(format!("Failed to parse value as f64: {}", e))
-        })?;
-        let unit_str = parts[1..].join(" "); // Join remaining parts in case unit has spaces
-        return Ok((value, unit_str));
-    }
-
-    // No space found - try to parse by finding the boundary between number and unit
-    // Find the longest valid numeric prefix by trying all possible prefixes
-    let chars: Vec<char> = trimmed.chars().collect();
-    let mut end_of_number = 0;
-
-    // Try all possible prefixes and find the longest one that parses as a valid f64
-    for i in 1..=chars.len() {
-        let candidate: String = chars[..i].iter().collect();
-        if candidate.parse::<f64>().is_ok() {
-            end_of_number = i;
+        if let Ok(value) = parts[0].parse::<f64>() {
+            let unit_str = parts[1..].join(" "); // Join remaining parts in case unit has spaces
+            return Ok((value, unit_str));
         }
-        // Continue trying longer prefixes even if this one fails
-        // (e.g., "5.0e" fails but "5.0e-3" succeeds)
     }
 
-    if end_of_number == 0 || end_of_number >= chars.len() {
-        return Err(SerializationError::InvalidFormat(format!(
+    // No space between them - the value is the longest prefix that is a number
+    let (value_str, unit_str) = trimmed.split_at(number_prefix_len(trimmed));
+    let value: f64 = value_str.parse().map_err(|_| {
+        SerializationError::InvalidFormat(format!(
             "Could not parse value and unit from '{}'",
             trimmed
-        )));
-    }
-
-    let value_str: String = chars[..end_of_number].iter().collect();
-    let unit_str: String = chars[end_of_number..].iter().collect();
-
-    let value: f64 = value_str.parse().map_err(|e| {
-        SerializationError::ParseError(format!("Failed to parse value as f64: {}", e))
+        ))
     })?;
 
     if unit_str.trim().is_empty() {
@@ -1056,7 +1035,30 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
         )));
     }
 
-    Ok((value, unit_str))
+    Ok((value, unit_str.to_string()))
+}
+
+/// Length of the longest prefix of a string that is a decimal number (with optional exponent)
+fn number_prefix_len(string: &str) -> usize {
+    let bytes = string.as_bytes();
+    let skip = |from: usize, accept: fn(&u8) -> bool| {
+        from + bytes[from..].iter().take_while(|b| accept(b)).count()
+    };
+    let sign = |from: usize| from + matches!(bytes.get(from), Some(b'+' | b'-')) as usize;
+
+    let mut end = skip(sign(0), u8::is_ascii_digit);
+    if bytes.get(end) == Some(&b'.') {
+        end = skip(end + 1, u8::is_ascii_digit);
+    }
+    if matches!(bytes.get(end), Some(b'e' | b'E')) {
+        let digits = sign(end + 1);
+        let exponent_end = skip(digits, u8::is_ascii_digit);
+        // Without digits, the "e" begins the unit
+        if exponent_end > digits {
+            end = exponent_end;
+        }
+    }
+    end
 }
 
 /// Core deserialization logic that handles parsing and validation
-- 
2.43.0


From 5c7dce16e0818b08264288724daf16f880946df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 30/59] fix: serialized masses and dimensionless quantities are
 labelled with their unit

5 kg was written as {value: 5, unit: "g"}, and a dimensionless quantity with an
empty unit, which cannot be read back.
---
 src/serialization.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 3c39100..d13c11d 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -103,7 +103,17 @@ where
         LUMINOSITY_EXPONENT,
         ANGLE_EXPONENT,
     ];
-    generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
+    coherent_ucum_unit(exponents)
+}
+
+/// UCUM unit string of the coherent (scale one) unit of a dimension
+fn coherent_ucum_unit(exponents: Vec<i16>) -> String {
+    match exponents.as_slice() {
+        [0, 0, 0, 0, 0, 0, 0, 0] => "1".to_string(),
+        // The systematic name is that of the first unit of mass, which is the gram
+        [1, 0, 0, 0, 0, 0, 0, 0] => "kg".to_string(),
+        _ => generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum),
+    }
 }
 
 /// Errors that can occur during UCUM serialization/deserialization
@@ -138,11 +148,8 @@ impl core::fmt::Display for UcumError {
 
 /// Convert UnitDimensions to a human-readable unit name
 fn format_unit_dimensions(dims: &UnitDimensions) -> String {
-    use crate::print::name_lookup::generate_systematic_unit_name_with_format;
-    use crate::print::prettyprint::UnitFormat;
-
     let exponents: Vec<i16> = dims.0.0.iter().copied().collect();
-    generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
+    coherent_ucum_unit(exponents)
 }
 
 impl core::fmt::Display for SerializationError {
-- 
2.43.0


From 93a5d488868d28f2bfd6c934d058e4c8a0e65dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 31/59] fix: quantity! of a non-storage unit honours its power,
 storage type and brand

---
 proc-macros/src/quantity_macro.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 19b95a0..d8809c5 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -55,7 +55,12 @@ impl QuantityMacroInput {
         // Check if this is a simple atomic unit that's nonstorage/affine
         // For these, we can dispatch directly to the declarator
         if let UnitExpr::Unit(unit) = &self.unit_expr {
-            if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
+            // The declarators know nothing of powers, storage types and brands
+            let declarator_applies =
+                unit.exponent == 1 && self.storage_type.is_none() && self.brand_type.is_none();
+            let unit_info =
+                get_unit_info(&unit.name.to_string()).filter(|_| declarator_applies);
+            if let Some(unit_info) = unit_info {
                 // Check if it's nonstorage or affine
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
                 let is_affine = unit_info.affine_offset != 0.0;
-- 
2.43.0


From 8a39264f5a953f32d5b58d483f89b8cf1a073dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 32/59] fix: value! of an affine unit given by name uses the
 unit's own scale

---
 proc-macros/src/value_macro.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 8a7213a..42401a0 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -138,6 +138,7 @@ impl ValueMacroInput {
             // Find the storage unit (same scale, no offset, conversion_factor == 1.0)
             let storage_unit_symbol = if let Some((unit, dimension)) =
                 Dimension::find_unit_by_symbol(&unit_name)
+                    .or_else(|| Dimension::find_unit_by_name(&unit_name))
             {
                 // Find a storage unit with the same scale
                 if let Some(storage_unit) = dimension.units.iter().find(|u| {
-- 
2.43.0


From e2cefd2e246cba4ef06ef0c55f8f38a075fd3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 33/59] fix: declarator methods and type aliases of liter,
 hectare and stokes carry the unit's scale

---
 .../src/generate_default_declarators_macro.rs | 31 ++++++-------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..f60086a 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -351,14 +351,8 @@ impl DefaultDeclaratorsInput {
                 let unit_suffix = whippyunits_core::make_plural(unit.name);
                 let base_fn_name = unit_suffix.to_string();
 
-                // Calculate scale factors for base unit
-                let (base_p2, base_p3, base_p5, base_pi) = if dimension.name == "Mass" {
-                    // Gram has inherent -3 scale factor
-                    (-3i16, 0i16, -3i16, 0i16)
-                } else {
-                    // Other units have 0 inherent scale factor
-                    (0i16, 0i16, 0i16, 0i16)
-                };
+                // Scale factors inherent to the base unit (nonzero for gram, liter, hectare, ...)
+                let (base_p2, base_p3, base_p5, base_pi) = Self::extract_scale_factors(unit);
 
                 let base_scale_name_ident = syn::parse_str::<Ident>(&base_scale_name).unwrap();
                 let base_fn_name_ident = syn::parse_str::<Ident>(&base_fn_name).unwrap();
@@ -374,20 +368,13 @@ impl DefaultDeclaratorsInput {
                     // For function names, use the plural form
                     let fn_name = format!("{}{}", prefix.name(), unit_suffix);
 
-                    // Calculate scale factors
-                    let (p2, p3, p5, pi) = if dimension.name == "Mass" {
-                        // Gram has inherent -3 scale factor, so we add the prefix scale factor
-                        let total_scale = -3 + prefix.factor_log10();
-                        (total_scale as i16, 0i16, total_scale as i16, 0i16)
-                    } else {
-                        // Other units have 0 inherent scale factor
-                        (
-                            prefix.factor_log10() as i16,
-                            0i16,
-                            prefix.factor_log10() as i16,
-                            0i16,
-                        )
-                    };
+                    // The prefix multiplies the base unit's scale by a power of ten
+                    let (p2, p3, p5, pi) = (
+                        base_p2 + prefix.factor_log10(),
+                        base_p3,
+                        base_p5 + prefix.factor_log10(),
+                        base_pi,
+                    );
 
                     let scale_name_ident = syn::parse_str::<Ident>(&scale_name).unwrap();
                     let fn_name_ident = syn::parse_str::<Ident>(&fn_name).unwrap();
-- 
2.43.0


From 449984ea2bf1b9a2657822c46cfc086d6d9de131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 34/59] fix: locally chosen base scales are recognised by their
 capitalised name in compound units

---
 proc-macros/src/local_unit_type_macro.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 29ec65e..841d30e 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -7,7 +7,7 @@ use syn::{
 };
 use whippyunits_core::dimension_exponents::DynDimensionExponents;
 use whippyunits_core::scale_exponents::ScaleExponents;
-use whippyunits_core::{Dimension, Unit};
+use whippyunits_core::{CapitalizedFmt, Dimension, Unit};
 
 // Import the helper functions from lift_trace
 use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit};
@@ -19,7 +19,7 @@ fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
 
     // Try to find a unit that matches the scale type name directly
     for unit in Unit::BASES.iter() {
-        if unit.name == scale_type {
+        if CapitalizedFmt(unit.name).to_string() == scale_type {
             return Some(unit.symbols[0].to_string());
         }
     }
@@ -27,7 +27,7 @@ fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     // Try to find in all dimensions
     for dimension in Dimension::ALL {
         for unit in dimension.units {
-            if unit.name == scale_type {
+            if CapitalizedFmt(unit.name).to_string() == scale_type {
                 return Some(unit.symbols[0].to_string());
             }
         }
-- 
2.43.0


From 716207d8d52f968aa2ac4225399b05ea38ea0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 35/59] fix: a local declaration of a powered or fully named
 unit has the declared dimension

---
 proc-macros/src/local_unit_type_macro.rs | 113 ++---------------------
 1 file changed, 9 insertions(+), 104 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 841d30e..38d1b08 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -7,7 +7,7 @@ use syn::{
 };
 use whippyunits_core::dimension_exponents::DynDimensionExponents;
 use whippyunits_core::scale_exponents::ScaleExponents;
-use whippyunits_core::{CapitalizedFmt, Dimension, Unit};
+use whippyunits_core::{get_unit_info, CapitalizedFmt, Dimension, Unit};
 
 // Import the helper functions from lift_trace
 use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit};
@@ -226,19 +226,16 @@ impl LocalQuantityMacroInput {
         let lift_trace_doc_shadows =
             self.generate_lift_trace_doc_shadows_for_expr(&lift_trace, &storage_type);
 
-        // Check if this is a single unit (not an algebraic expression)
+        // An unknown single unit gets an error with suggestions
         if let UnitExpr::Unit(unit) = &self.unit_expr {
             let unit_name = unit.name.to_string();
-            self.handle_single_unit(
-                &unit_name,
-                &storage_type,
-                &brand_type,
-                &lift_trace_doc_shadows,
-            )
-        } else {
-            // It's an algebraic expression (like J/s, m*s, etc.)
-            self.handle_algebraic_expression(&storage_type, &brand_type, &lift_trace_doc_shadows)
+            let is_number = unit_name == "dimensionless" || unit_name == "power_of_10";
+            if !is_number && get_unit_info(&unit_name).is_none() {
+                return self.generate_unknown_unit_error(&unit_name);
+            }
         }
+
+        self.handle_algebraic_expression(&storage_type, &brand_type, &lift_trace_doc_shadows)
     }
 
     /// Generate lift trace doc shadows for each unit identifier in the expression
@@ -713,99 +710,7 @@ impl LocalQuantityMacroInput {
         result
     }
 
-    /// Handle prefixed compound unit logic for a single unit
-    fn handle_prefixed_compound_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> Option<TokenStream> {
-        if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-            if let Some((_unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                let dimensions = dimension.exponents;
-                let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-                let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                    .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(&base_symbol).unwrap());
-                return Some(self.generate_compound_unit_quote(
-                    &unit_expr_parsed,
-                    storage_type,
-                    brand_type,
-                    lift_trace_doc_shadows,
-                ));
-            }
-        }
-        None
-    }
-
-    /// Handle single unit logic (both prefixed and non-prefixed)
-    fn handle_single_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> TokenStream {
-        // First try to handle as prefixed compound unit
-        if let Some(quote_result) = self.handle_prefixed_compound_unit(
-            unit_name,
-            storage_type,
-            brand_type,
-            lift_trace_doc_shadows,
-        ) {
-            return quote_result;
-        }
-
-        // Handle as regular unit - first try direct lookup, then try prefixed units
-        let (_unit, dimension) =
-            if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
-                (unit, dimension)
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_base_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else {
-                // Unknown unit, generate error with suggestions
-                return self.generate_unknown_unit_error(unit_name);
-            };
-
-        let dimensions = dimension.exponents;
-
-        // Check if it's a simple base unit
-        if let Some(scale_ident) = self.get_scale_for_dimensions(dimensions) {
-            self.generate_simple_base_unit_quote(
-                &scale_ident,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        } else {
-            // It's a compound unit - generate the unit expression
-            let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-            let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(unit_name).unwrap());
-            self.generate_compound_unit_quote(
-                &unit_expr_parsed,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        }
-    }
-
-    /// Handle algebraic expression logic
+    /// Generate the local type from the dimensions of the whole expression
     fn handle_algebraic_expression(
         &self,
         storage_type: &Type,
-- 
2.43.0


From 6c4032059458deef828c39641774b9e1334fb2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 36/59] fix: local declarations in non-storage units compile

---
 proc-macros/src/local_unit_type_macro.rs | 5 ++++-
 proc-macros/src/utils/lift_trace.rs      | 5 +++++
 proc-macros/src/utils/shared_utils.rs    | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 38d1b08..875f4c7 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -469,8 +469,11 @@ impl LocalQuantityMacroInput {
         let doc_ident = syn::Ident::new(&doc_ident_name, identifier.span());
 
         // Determine the target type for this unit identifier in the local context
+        // (non-storage and affine units have no declarator type of their own)
+        let unit_name = identifier.to_string();
         let target_type =
-            self.get_local_target_type_for_unit(&identifier.to_string(), storage_type);
+            crate::utils::shared_utils::get_storage_unit_type_for_unit(&unit_name)
+                .unwrap_or_else(|| self.get_local_target_type_for_unit(&unit_name, storage_type));
 
         // Use the comprehensive trace directly
         let enhanced_trace = lift_trace.to_string();
diff --git a/proc-macros/src/utils/lift_trace.rs b/proc-macros/src/utils/lift_trace.rs
index b8d620e..5ab5c5d 100644
--- a/proc-macros/src/utils/lift_trace.rs
+++ b/proc-macros/src/utils/lift_trace.rs
@@ -417,6 +417,11 @@ impl LocalContext {
                 // Try to find a prefixed version of the base unit
                 let prefixed_unit_name = format!("{}{}", prefix_info.symbol(), base_unit_name);
 
+                // Only the base unit of a dimension takes prefixes
+                if whippyunits_core::get_unit_info(&prefixed_unit_name).is_none() {
+                    continue;
+                }
+
                 if let Some(declarator_type) =
                     crate::utils::shared_utils::get_declarator_type_for_unit(&prefixed_unit_name)
                 {
diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6920c0b..1ed4f22 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -98,7 +98,11 @@ pub fn get_declarator_type_for_exponents(
     // Look for a unit in this dimension that matches the scale exponents
     // We need to find a unit that has the same scale exponents
     for unit in matching_dimension.units {
-        if unit.scale == scale_exponents {
+        // (non-storage and affine units have no type of their own)
+        if unit.scale == scale_exponents
+            && unit.conversion_factor == 1.0
+            && unit.affine_offset == 0.0
+        {
             // Found a matching unit - generate type name using same logic as default declarators
             let type_name = if unit.system == System::Metric {
                 // For metric units, use the same logic as generate_default_declarators_macro
-- 
2.43.0


From fe0eecf9c2533062c911e9f9b9fccfea85e863b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 37/59] fix: brand-only declarators convert affine and
 non-storage units like quantity!

---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 3930439..a64045e 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -968,10 +968,10 @@ impl DefineBaseUnitsInput {
                 #[macro_export]
                 macro_rules! #prefixed_macro_name {
                     ($value:expr, $unit:expr) => {
-                        <whippyunits::unit!($unit, f64, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, f64, #brand_type)
                     };
                     ($value:expr, $unit:expr, $storage_type:ty) => {
-                        <whippyunits::unit!($unit, $storage_type, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, $storage_type, #brand_type)
                     };
                 }
 
-- 
2.43.0


From 695d767b21c0d3312fc0de09dfcd4ca91c8d2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 38/59] fix: an unknown unit in unit!, quantity!, value! or a
 local declaration is an error

---
 proc-macros/src/local_unit_type_macro.rs | 50 +++---------------------
 proc-macros/src/quantity_macro.rs        |  6 ++-
 proc-macros/src/unit_macro.rs            |  6 ++-
 proc-macros/src/utils/shared_utils.rs    | 36 +++++++++++++++++
 proc-macros/src/value_macro.rs           |  6 ++-
 5 files changed, 56 insertions(+), 48 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 875f4c7..c7500af 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -7,7 +7,7 @@ use syn::{
 };
 use whippyunits_core::dimension_exponents::DynDimensionExponents;
 use whippyunits_core::scale_exponents::ScaleExponents;
-use whippyunits_core::{get_unit_info, CapitalizedFmt, Dimension, Unit};
+use whippyunits_core::{CapitalizedFmt, Dimension, Unit};
 
 // Import the helper functions from lift_trace
 use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit};
@@ -205,6 +205,10 @@ impl Parse for LocalQuantityMacroInput {
 
 impl LocalQuantityMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = crate::utils::shared_utils::unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Generate the lift trace docstring
         let input_expr_decomposed = self.generate_input_unit_expression_decomposed_string();
         let output_expr = self.generate_output_unit_expression_string();
@@ -226,15 +230,6 @@ impl LocalQuantityMacroInput {
         let lift_trace_doc_shadows =
             self.generate_lift_trace_doc_shadows_for_expr(&lift_trace, &storage_type);
 
-        // An unknown single unit gets an error with suggestions
-        if let UnitExpr::Unit(unit) = &self.unit_expr {
-            let unit_name = unit.name.to_string();
-            let is_number = unit_name == "dimensionless" || unit_name == "power_of_10";
-            if !is_number && get_unit_info(&unit_name).is_none() {
-                return self.generate_unknown_unit_error(&unit_name);
-            }
-        }
-
         self.handle_algebraic_expression(&storage_type, &brand_type, &lift_trace_doc_shadows)
     }
 
@@ -746,41 +741,6 @@ impl LocalQuantityMacroInput {
         }
     }
 
-    /// Generate error for unknown unit with suggestions
-    fn generate_unknown_unit_error(&self, unit_name: &str) -> TokenStream {
-        use crate::utils::unit_suggestions::find_similar_units;
-
-        let suggestions = find_similar_units(unit_name, 0.7);
-        let error_message = if suggestions.is_empty() {
-            format!("Unknown unit '{}'. No similar units found.", unit_name)
-        } else {
-            let suggestion_list = suggestions
-                .iter()
-                .map(|(suggestion, _)| format!("'{}'", suggestion))
-                .collect::<Vec<_>>()
-                .join(", ");
-
-            format!(
-                "Unknown unit '{}'. Did you mean: {}?",
-                unit_name, suggestion_list
-            )
-        };
-
-        // Generate a doc shadow that shows the error
-        let doc_ident_name = format!("Local{}", unit_name.to_uppercase());
-        let doc_ident = syn::Ident::new(&doc_ident_name, proc_macro2::Span::call_site());
-
-        quote! {
-            const _: () = {
-                #[doc = #error_message]
-                #[allow(dead_code, non_camel_case_types)]
-                type #doc_ident = ();
-
-                compile_error!(#error_message);
-            };
-        }
-    }
-
     /// Get the local target type for a single unit identifier (reuses existing lift logic)
     fn get_local_target_type_for_unit(&self, unit_name: &str, storage_type: &Type) -> TokenStream {
         // Check if this is a time unit that needs conversion (like h → s)
diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index d8809c5..7927451 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -5,7 +5,7 @@ use syn::token::Comma;
 use syn::{Expr, Type};
 use whippyunits_core::{calculate_unit_conversion_factors, get_unit_info, Dimension, UnitExpr};
 
-use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::shared_utils::{generate_unit_documentation_for_expr, unknown_unit_error};
 
 /// Input for the quantity macro
 pub struct QuantityMacroInput {
@@ -48,6 +48,10 @@ impl Parse for QuantityMacroInput {
 
 impl QuantityMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Generate documentation structs for unit identifiers
         // For quantity! macro, use storage type for affine/nonstorage units
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
diff --git a/proc-macros/src/unit_macro.rs b/proc-macros/src/unit_macro.rs
index afaa138..75cb722 100644
--- a/proc-macros/src/unit_macro.rs
+++ b/proc-macros/src/unit_macro.rs
@@ -5,7 +5,7 @@ use syn::token::Comma;
 use syn::Type;
 use whippyunits_core::UnitExpr;
 
-use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::shared_utils::{generate_unit_documentation_for_expr, unknown_unit_error};
 
 /// Input for the unit macro
 pub struct UnitMacroInput {
@@ -44,6 +44,10 @@ impl Parse for UnitMacroInput {
 
 impl UnitMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Validate that no nonstorage units are used (strict mode requirement)
         if let Some(error_msg) = self.unit_expr.validate_strict() {
             return quote! {
diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 1ed4f22..500d978 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -259,6 +259,42 @@ pub fn collect_identifiers_from_expr(expr: &UnitExpr, identifiers: &mut Vec<Iden
     }
 }
 
+/// Generate a compile error (with suggestions) for the first unknown unit in a unit expression
+pub fn unknown_unit_error(expr: &UnitExpr) -> Option<TokenStream> {
+    let mut identifiers = Vec::new();
+    collect_identifiers_from_expr(expr, &mut identifiers);
+
+    let unknown = identifiers.into_iter().find(|identifier| {
+        let unit_name = identifier.to_string();
+        // Numbers are represented by these special names
+        unit_name != "dimensionless"
+            && unit_name != "power_of_10"
+            && whippyunits_core::get_unit_info(&unit_name).is_none()
+    })?;
+
+    let error_message = unknown_unit_message(&unknown.to_string());
+    Some(quote::quote_spanned! { unknown.span() => compile_error!(#error_message) })
+}
+
+/// The error message for an unknown unit, with suggestions
+pub fn unknown_unit_message(unit_name: &str) -> String {
+    let suggestions = crate::utils::unit_suggestions::find_similar_units(unit_name, 0.7);
+    if suggestions.is_empty() {
+        format!("Unknown unit '{}'. No similar units found.", unit_name)
+    } else {
+        let suggestion_list = suggestions
+            .iter()
+            .map(|(suggestion, _)| format!("'{}'", suggestion))
+            .collect::<Vec<_>>()
+            .join(", ");
+
+        format!(
+            "Unknown unit '{}'. Did you mean: {}?",
+            unit_name, suggestion_list
+        )
+    }
+}
+
 /// Generate documentation comment for a unit
 pub fn generate_unit_doc_comment(unit_name: &str) -> TokenStream {
     let doc_text = get_unit_documentation_text(unit_name);
diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 42401a0..e9ff7fe 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -7,7 +7,7 @@ use whippyunits_core::{
     calculate_unit_conversion_factors, get_unit_info, Dimension, EvaluationMode, UnitExpr,
 };
 
-use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::shared_utils::{generate_unit_documentation_for_expr, unknown_unit_error};
 
 /// Input for the value! macro
 /// Syntax: value!(quantity, unit_expr) or value!(quantity, unit_expr, type) or value!(quantity, unit_expr, type, brand)
@@ -49,6 +49,10 @@ impl Parse for ValueMacroInput {
 
 impl ValueMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Generate documentation structs for unit identifiers
         // For value! macro, use storage type for affine/nonstorage units (like quantity!)
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
-- 
2.43.0


From 51cfb5fac406131cfb70f44cf22adbfe07217709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 39/59] fix: local quantities with a brand can be compared with
 each other

---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index a64045e..dafc6a3 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -189,7 +189,7 @@ impl DefineBaseUnitsInput {
         // Create the brand struct definition token stream if brand is present
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
@@ -874,7 +874,7 @@ impl DefineBaseUnitsInput {
 
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
-- 
2.43.0


From 69627375de7f02e65b74bb3995e5b6b3734d805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 40/59] fix: implicit exponents on a non-ASCII dimension symbol
 parse

---
 proc-macros/src/define_generic_dimension_macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index f3c8c3b..7df8370 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -83,7 +83,7 @@ impl DimensionExpr {
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From b7e51dcafd3320a9afb6a2033d1709d55e5933f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 41/59] =?UTF-8?q?fix:=20define=5Fgeneric=5Fdimension!=20ac?=
 =?UTF-8?q?cepts=20the=20documented=20symbols=20=CE=98=20and=20J?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index 7df8370..3b67704 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -8,6 +8,16 @@ use whippyunits_core::Dimension;
 
 use crate::utils::dimension_suggestions::find_similar_dimensions;
 
+/// Look up a dimension by name or symbol, including the basis symbols (`Θ`, `J`) which the dimension
+/// table spells differently.
+fn find_dimension(name_or_symbol: &str) -> Option<&'static Dimension> {
+    Dimension::find_dimension(name_or_symbol).or_else(|| match name_or_symbol {
+        "Θ" => Dimension::find_dimension("Temperature"),
+        "J" => Dimension::find_dimension("Luminosity"),
+        _ => None,
+    })
+}
+
 // Parse dimension expressions like "Length / Time", "L / T", or "Mass * Length^2 / Time^2", "M * L^2 / T^2"
 pub enum DimensionExpr {
     Dimension(Ident),
@@ -115,7 +125,7 @@ impl DimensionExpr {
                 let name_or_symbol = ident.to_string();
 
                 // Look up dimension by name or symbol using direct API
-                if let Some(dim_info) = Dimension::find_dimension(&name_or_symbol) {
+                if let Some(dim_info) = find_dimension(&name_or_symbol) {
                     return (
                         dim_info.exponents.0[0], // mass
                         dim_info.exponents.0[1], // length
@@ -422,7 +432,7 @@ impl DefineGenericDimensionInput {
     /// Check if a dimension name is valid
     fn is_valid_dimension(dimension_name: &str) -> bool {
         // Check if it's a direct dimension match
-        Dimension::find_dimension(dimension_name).is_some()
+        find_dimension(dimension_name).is_some()
     }
 
     /// Generate error message with suggestions for an unknown dimension
-- 
2.43.0


From 7657f2fb4227cdfd045bd6805018e5f14fe690b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 42/59] fix: a generic dimension may list the same dimension
 twice

---
 proc-macros/src/define_generic_dimension_macro.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index 3b67704..9cc1f6b 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -217,10 +217,12 @@ impl DefineGenericDimensionInput {
             }
         };
 
-        // Generate implementations for each dimension expression
+        // Generate one implementation for each distinct dimension
+        let mut seen = std::collections::HashSet::new();
         let impl_blocks: Vec<TokenStream> = self
             .dimension_exprs
             .iter()
+            .filter(|expr| seen.insert(expr.evaluate_safe()))
             .map(|expr| {
                 // Try to evaluate the expression, but handle errors gracefully
                 let (
-- 
2.43.0


From 8ac8a3e697b311d79350e93906efc48026b83f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 43/59] fix: partially resolved types print their scale as
 unknown (they panicked, or showed (0)m)

---
 whippyunits-core/src/storage_unit.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index ce2c7f4..a2f96cb 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -462,6 +462,10 @@ pub fn generate_prefixed_si_unit(
 
 /// Scale factors relative to the scale of the named unit (unchanged if there is no such unit)
 fn scale_relative_to_unit(scale_factors: ScaleExponents, unit_name: &str) -> ScaleExponents {
+    // Unknown exponents stay unknown
+    if scale_factors.0.contains(&i16::MIN) {
+        return scale_factors;
+    }
     Dimension::find_unit_by_symbol(unit_name)
         .or_else(|| Dimension::find_unit_by_name(unit_name))
         .map(|(unit, _dimension)| scale_factors.mul(unit.scale.neg()))
@@ -500,6 +504,11 @@ fn format_scale_factors(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i
         return String::new();
     }
 
+    // Without all the exponents the value is unknown
+    if scale_exponents.0.contains(&i16::MIN) {
+        return "(ˀ)".to_string();
+    }
+
     // Calculate the actual numeric value: 2^p2 * 3^p3 * 5^p5 * π^pi
     let mut value = 1.0;
 
@@ -615,7 +624,9 @@ pub fn generate_systematic_composite_unit_name_with_scale(
                     // For compound units, try to match the aggregate scale factors
                     // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
                     let exact_unit = dimension.units.iter().find(|unit| {
-                        unit.scale.scalar_exp(exp) == scale && unit.conversion_factor == 1.0
+                        exp != i16::MIN
+                            && unit.scale.scalar_exp(exp) == scale
+                            && unit.conversion_factor == 1.0
                     });
                     if exact_unit.is_some() {
                         unmatched_scale = Some(ScaleExponents::IDENTITY);
-- 
2.43.0


From cfb3f86014f47c5f499b9be95dfa8fdabf009db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 44/59] fix: quantity types in text are found and read by their
 structure (paths, look-alikes, unbalanced text, expressions and brands
 misread)

---
 lsp-proxy/src/unit_formatter.rs | 488 +++++++++-----------------------
 1 file changed, 134 insertions(+), 354 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 0c6e5c4..88872ab 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -1,4 +1,3 @@
-use syn::{parse_str, TypePath};
 use whippyunits_core::{
     dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents,
 };
@@ -132,96 +131,33 @@ impl UnitFormatter {
         unicode: bool,
         is_inlay_hint: bool,
     ) -> String {
-        if text.contains("Quantity<") && text.contains("Scale") {
-            // First pass: find all Quantity<Scale types and their positions
-            struct QuantityMatch {
-                start: usize,
-                end: usize,
-                formatted: String,
-            }
-
-            let mut matches = Vec::new();
-            let mut i = 0;
-
-            while i < text.len() {
-                // Search for "Quantity<Scale" starting from position i
-                if let Some(relative_start) = text[i..].find("Quantity<Scale") {
-                    let start_pos = i + relative_start;
-
-                    // Count brackets to find the matching end of this Quantity type
-                    // start_pos points to "Q" in "Quantity<Scale"
-                    // start_pos + 8 points to the '<' after "Quantity"
-                    let quantity_start = start_pos + 8; // Position of the '<'
-                                                        // Start bracket_count at 1 because we're already inside Quantity<
-                                                        // Start j after the '<' so we don't count it again
-                    let mut bracket_count = 1;
-                    let mut found_end = false;
-                    // Use byte indices, not char indices, to match the string slicing
-                    let mut byte_pos = quantity_start + 1; // Start after the opening '<'
-                    let text_bytes = text.as_bytes();
-
-                    while byte_pos < text_bytes.len() {
-                        match text_bytes[byte_pos] {
-                            b'<' => bracket_count += 1,
-                            b'>' => {
-                                bracket_count -= 1;
-                                if bracket_count == 0 {
-                                    found_end = true;
-                                    break;
-                                }
-                            }
-                            _ => {}
-                        }
-                        byte_pos += 1;
-                    }
-
-                    if found_end {
-                        let actual_end = byte_pos + 1; // +1 to include the '>'
-                                                       // Ensure we don't go past the end of the string
-                        let actual_end = actual_end.min(text.len());
-                        let quantity_type = &text[start_pos..actual_end];
-
-                        let formatted = self.format_new_quantity_type(
-                            quantity_type,
-                            verbose,
-                            unicode,
-                            is_inlay_hint,
-                        );
-
-                        matches.push(QuantityMatch {
-                            start: start_pos,
-                            end: actual_end,
-                            formatted,
-                        });
-
-                        // Continue searching from after this Quantity type
-                        i = actual_end;
-                    } else {
-                        // Bracket counting failed, stop searching
-                        break;
-                    }
-                } else {
-                    // No more Quantity<Scale found
-                    break;
+        let mut result = String::with_capacity(text.len());
+        let mut rest = text;
+
+        while let Some(start) = find_quantity_type(rest) {
+            let body = start + "Quantity<".len();
+            let formatted = find_closing_bracket(&rest[body..]).and_then(|close| {
+                let end = body + close + 1;
+                self.format_new_quantity_type(&rest[start..end], verbose, unicode, is_inlay_hint)
+                    .map(|formatted| (formatted, end))
+            });
+
+            match formatted {
+                Some((formatted, end)) => {
+                    result.push_str(&rest[..start]);
+                    result.push_str(&formatted);
+                    rest = &rest[end..];
+                }
+                // Not one of our types; there may be one inside or further on
+                None => {
+                    result.push_str(&rest[..body]);
+                    rest = &rest[body..];
                 }
             }
-
-            // Second pass: replace all matches from end to start to preserve positions
-            if matches.is_empty() {
-                return text.to_string();
-            }
-
-            let mut result = text.to_string();
-            // Replace from end to start to preserve positions
-            for m in matches.iter().rev() {
-                result.replace_range(m.start..m.end, &m.formatted);
-            }
-
-            return result;
         }
 
-        // If we reach here, no new format was found, return original text
-        text.to_string()
+        result.push_str(rest);
+        result
     }
 
     /// Format the new Quantity type with Scale<...> and Dimension<...> structs
@@ -231,14 +167,14 @@ impl UnitFormatter {
         verbose: bool,
         _unicode: bool,
         is_inlay_hint: bool,
-    ) -> String {
+    ) -> Option<String> {
         use whippyunits::print::prettyprint::pretty_print_quantity_type;
 
         // Check if this is a generic type definition (contains parameter names like Scale, Dimension, T)
         // rather than a concrete instantiation with actual values
         if self.is_generic_type_definition(full_match) {
             // Pass through generic definitions unchanged
-            return full_match.to_string();
+            return None;
         }
 
         // Parse the new format: Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>, T>
@@ -258,7 +194,7 @@ impl UnitFormatter {
                         result = format!("{}, {}>", &result[..result.len() - 1], brand);
                     }
                 }
-                return result;
+                return Some(result);
             }
 
             // Check if this is a dimensionless quantity (all dimensions are zero)
@@ -272,7 +208,7 @@ impl UnitFormatter {
                         result = format!("{}, {}>", &result[..result.len() - 1], brand);
                     }
                 }
-                return result;
+                return Some(result);
             }
             if is_inlay_hint {
                 // Use the main pretty print function with verbose=false to get the unit literal
@@ -293,10 +229,10 @@ impl UnitFormatter {
                             result = format!("{}, {}>", &result[..result.len() - 1], brand);
                         }
                     }
-                    return result;
+                    return Some(result);
                 }
 
-                full_output
+                Some(full_output)
             } else {
                 // Use the prettyprint API with configurable parameters
                 let result = pretty_print_quantity_type(
@@ -317,285 +253,41 @@ impl UnitFormatter {
                                 format!("{}, {}>", &formatted[..formatted.len() - 1], brand);
                         }
                     }
-                    return formatted;
+                    return Some(formatted);
                 }
 
-                result
+                Some(result)
             }
         } else {
-            // If parsing fails, return the original
-            full_match.to_string()
+            // If parsing fails, keep the original
+            None
         }
     }
 
     /// Parse the new Quantity type format with Scale<...> and Dimension<...> structs
     fn parse_new_quantity_params(&self, quantity_type: &str) -> Option<QuantityParams> {
-        // Parse Scale parameters - handle all possible combinations of defaulted parameters
-        let scale = if quantity_type.contains("Scale<") {
-            // Any Scale format with parameters - handle all combinations of defaulted values
-            let (p2, p3, p5, pi) = self.parse_scale_general_format(quantity_type)?;
-            ScaleExponents([p2, p3, p5, pi])
-        } else if quantity_type.contains("Scale,") {
-            // Truncated format: Scale, or Scale> or Scale, Dimension (all parameters default to 0)
-            ScaleExponents::IDENTITY
-        } else {
-            // Unknown format
+        let (_, args) = split_generic_type(quantity_type)?;
+        if !(2..=4).contains(&args.len()) {
             return None;
-        };
+        }
 
-        // Parse Dimension parameters - handle both full format and truncated format
-        let dimensions = if quantity_type.contains("Dimension<_M<") && quantity_type.contains("_A<")
-        {
-            // Full format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_full_format(quantity_type)?;
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        } else if quantity_type.contains("Dimension,") || quantity_type.contains("Dimension>") {
-            // Fully defaulted Dimension (dimensionless): Dimension, T or Dimension> T
-            DynDimensionExponents::ZERO
-        } else {
-            // Truncated format: parse only the non-zero parameters
-            // Look for patterns like Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_truncated_format(quantity_type);
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        };
+        let scale = parse_exponents(args[0], "Scale", ["_2", "_3", "_5", "_Pi"])?;
+        let dimensions = parse_exponents(
+            args[1],
+            "Dimension",
+            ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"],
+        )?;
 
         // Don't apply base scale offset here - let the prettyprint functions handle it
         // The prettyprint functions already have the correct base scale offset logic
-        let adjusted_scale = scale;
-
-        // Extract the actual generic type parameter and brand from the type string
-        let (generic_type, brand) = self.extract_generic_type_and_brand(quantity_type);
-
         Some(QuantityParams {
-            dimensions,
-            scale: adjusted_scale,
-            generic_type,
-            brand,
+            dimensions: DynDimensionExponents(dimensions),
+            scale: ScaleExponents(scale),
+            generic_type: args.get(2).unwrap_or(&"f64").to_string(),
+            brand: args.get(3).map(|brand| brand.to_string()),
         })
     }
 
-    /// Parse general Scale format: Scale<_2[<P2>], _3[<P3>], _5[<P5>], _Pi[<PI>]>
-    /// Handles all possible combinations of defaulted parameters
-    /// Parameters can be either _2<value> (explicit) or _2 (defaulted to 0)
-    fn parse_scale_general_format(&self, quantity_type: &str) -> Option<(i16, i16, i16, i16)> {
-        let scale_start = quantity_type.find("Scale<")?;
-        let scale_content = &quantity_type[scale_start + 6..]; // Skip "Scale<"
-
-        // Find the end of the Scale struct
-        let scale_end = self.find_matching_bracket(scale_content, 0)?;
-        let scale_params = &scale_content[..scale_end];
-
-        // Parse each parameter, handling both explicit values and defaults
-        let p2 = self.parse_scale_param_with_default(scale_params, "_2");
-        let p3 = self.parse_scale_param_with_default(scale_params, "_3");
-        let p5 = self.parse_scale_param_with_default(scale_params, "_5");
-        let pi = self.parse_scale_param_with_default(scale_params, "_Pi");
-
-        Some((p2, p3, p5, pi))
-    }
-
-    /// Parse a scale parameter that may be either explicit (_2<value>) or defaulted (_2)
-    fn parse_scale_param_with_default(&self, content: &str, prefix: &str) -> i16 {
-        // First try to find explicit value: _2<value>
-        if let Some(value) = self.parse_scale_param(content, &format!("{}<", prefix)) {
-            value
-        } else {
-            // Check if parameter exists in defaulted form: _2 (without <value>)
-            if content.contains(&format!("{},", prefix)) || content.ends_with(prefix) {
-                0 // Default value
-            } else {
-                0 // Parameter not found, default to 0
-            }
-        }
-    }
-
-    /// Parse full Dimension format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-    fn parse_dimension_full_format(
-        &self,
-        quantity_type: &str,
-    ) -> Option<(i16, i16, i16, i16, i16, i16, i16, i16)> {
-        let dimension_start = quantity_type.find("Dimension<_M<")?;
-        let dimension_content = &quantity_type[dimension_start + 9..]; // Skip "Dimension<"
-
-        // Parse individual parameters directly from the dimension content
-        // We don't need to find the end of the Dimension struct - we can parse each parameter individually
-        let mass = self.parse_dimension_param(dimension_content, "_M<")?;
-        let length = self.parse_dimension_param(dimension_content, "_L<")?;
-        let time = self.parse_dimension_param(dimension_content, "_T<")?;
-        let current = self.parse_dimension_param(dimension_content, "_I<")?;
-        let temp = self.parse_dimension_param(dimension_content, "_Θ<")?;
-        let amount = self.parse_dimension_param(dimension_content, "_N<")?;
-        let lum = self.parse_dimension_param(dimension_content, "_J<")?;
-        let angle = self.parse_dimension_param(dimension_content, "_A<")?;
-
-        Some((mass, length, time, current, temp, amount, lum, angle))
-    }
-
-    /// Parse truncated Dimension format: Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-    fn parse_dimension_truncated_format(
-        &self,
-        quantity_type: &str,
-    ) -> (i16, i16, i16, i16, i16, i16, i16, i16) {
-        let mut mass_exp = 0;
-        let mut length_exp = 0;
-        let mut time_exp = 0;
-        let mut electric_current_exp = 0;
-        let mut temperature_exp = 0;
-        let mut amount_of_substance_exp = 0;
-        let mut luminous_intensity_exp = 0;
-        let mut angle_exp = 0;
-
-        // Parse individual dimension parameters that are present
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_M<") {
-            mass_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_L<") {
-            length_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_T<") {
-            time_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_I<") {
-            electric_current_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_Θ<") {
-            temperature_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_N<") {
-            amount_of_substance_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_J<") {
-            luminous_intensity_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_A<") {
-            angle_exp = value;
-        }
-
-        (
-            mass_exp,
-            length_exp,
-            time_exp,
-            electric_current_exp,
-            temperature_exp,
-            amount_of_substance_exp,
-            luminous_intensity_exp,
-            angle_exp,
-        )
-    }
-
-    /// Parse a scale parameter like "_2<5>" and return the value
-    fn parse_scale_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        Some(self.parse_parameter(param_value))
-    }
-
-    /// Parse a dimension parameter like "_M<1>" and return the value
-    fn parse_dimension_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        let result = self.parse_parameter(param_value);
-        Some(result)
-    }
-
-    /// Find the matching closing bracket for a given opening bracket
-    fn find_matching_bracket(&self, content: &str, start_pos: usize) -> Option<usize> {
-        let mut depth = 1;
-        let mut i = start_pos;
-
-        while i < content.len() {
-            match content.chars().nth(i) {
-                Some('<') => depth += 1,
-                Some('>') => {
-                    depth -= 1;
-                    if depth == 0 {
-                        return Some(i);
-                    }
-                }
-                _ => {}
-            }
-            i += 1;
-        }
-        None
-    }
-
-    /// Extract both the generic type parameter and brand from a Quantity type string
-    /// Returns (generic_type, brand) where brand is Some(...) if present, None otherwise
-    fn extract_generic_type_and_brand(&self, quantity_type: &str) -> (String, Option<String>) {
-        // Parse as a Rust type using syn - it handles const generics reliably
-        if let Some(quantity_start) = quantity_type.find("Quantity<") {
-            let quantity_content = &quantity_type[quantity_start..];
-
-            match parse_str::<TypePath>(quantity_content) {
-                Ok(type_path) => {
-                    // Extract generic arguments
-                    if let Some(segment) = type_path.path.segments.last() {
-                        if let syn::PathArguments::AngleBracketed(args) = &segment.arguments {
-                            let args_vec: Vec<_> = args.args.iter().collect();
-
-                            // We expect: [Scale, Dimension<...>, T, Brand?]
-                            // Scale is at index 0, Dimension at 1, type T at 2, Brand at 3 (if present)
-
-                            if args_vec.len() >= 3 {
-                                // Extract the type parameter (index 2)
-                                let type_arg = &args_vec[2];
-                                let generic_type = match type_arg {
-                                    syn::GenericArgument::Type(ty) => {
-                                        quote::quote!(#ty).to_string()
-                                    }
-                                    _ => quote::quote!(#type_arg).to_string(),
-                                };
-
-                                // Extract Brand if present (index 3)
-                                let brand = if args_vec.len() >= 4 {
-                                    let brand_arg = &args_vec[3];
-                                    match brand_arg {
-                                        syn::GenericArgument::Type(ty) => {
-                                            Some(quote::quote!(#ty).to_string())
-                                        }
-                                        _ => Some(quote::quote!(#brand_arg).to_string()),
-                                    }
-                                } else {
-                                    None
-                                };
-
-                                return (
-                                    generic_type.trim().to_string(),
-                                    brand.map(|s| s.trim().to_string()),
-                                );
-                            } else if args_vec.len() == 2 {
-                                // Only Scale and Dimension, type defaults to f64
-                                return ("f64".to_string(), None);
-                            }
-                        }
-                    }
-                }
-                Err(_) => {
-                    // syn parsing failed - this shouldn't happen for valid Rust types
-                    // but default to f64 if it does
-                }
-            }
-        }
-
-        // Default fallback if parsing fails
-        ("f64".to_string(), None)
-    }
-
-    /// Parse a parameter that could be a number or underscore placeholder
-    fn parse_parameter(&self, param: &str) -> i16 {
-        if param == "_" {
-            i16::MIN // Unknown placeholder
-        } else {
-            param.parse().unwrap_or(0)
-        }
-    }
-
     /// Extract just the raw type information from hover content
     /// Looks for any type declaration pattern: let [mut] [var]: TypeName<...>
     pub fn extract_raw_type_from_hover(&self, hover_text: &str) -> String {
@@ -710,6 +402,94 @@ impl UnitFormatter {
     }
 }
 
+/// Find the start of the next `Quantity<` that is not the end of a longer name (e.g. `MyQuantity<`)
+fn find_quantity_type(text: &str) -> Option<usize> {
+    text.match_indices("Quantity<")
+        .map(|(start, _)| start)
+        .find(|&start| {
+            !text[..start].ends_with(|c: char| c.is_alphanumeric() || c == '_')
+        })
+}
+
+/// Find the bracket closing a generic argument list (the `>` of an arrow is none)
+fn find_closing_bracket(text: &str) -> Option<usize> {
+    let mut depth = 1;
+    let mut previous = ' ';
+    for (i, c) in text.char_indices() {
+        match c {
+            '<' => depth += 1,
+            '>' if previous != '-' && previous != '=' => {
+                depth -= 1;
+                if depth == 0 {
+                    return Some(i);
+                }
+            }
+            _ => {}
+        }
+        previous = c;
+    }
+    None
+}
+
+/// Split `path::Name<A, B<C, D>>` into its name and its arguments
+fn split_generic_type(text: &str) -> Option<(&str, Vec<&str>)> {
+    let text = text.trim();
+    let Some(open) = text.find('<') else {
+        return Some((text.rsplit("::").next()?, Vec::new()));
+    };
+    let name = text[..open].trim().rsplit("::").next()?;
+    let inner = text[open + 1..].strip_suffix('>')?;
+
+    let mut args = Vec::new();
+    let mut depth = 0;
+    let mut start = 0;
+    let mut previous = ' ';
+    for (i, c) in inner.char_indices() {
+        match c {
+            '<' | '(' | '[' | '{' => depth += 1,
+            '>' if previous == '-' || previous == '=' => {}
+            '>' | ')' | ']' | '}' => depth -= 1,
+            ',' if depth == 0 => {
+                args.push(inner[start..i].trim());
+                start = i + 1;
+            }
+            _ => {}
+        }
+        previous = c;
+    }
+    // A trailing comma is not followed by another argument
+    if !inner[start..].trim().is_empty() {
+        args.push(inner[start..].trim());
+    }
+    Some((name, args))
+}
+
+/// Parse `Name<_X<1>, _Y, _Z<_>>` into exponents: omitted ones are 0, unresolved ones `i16::MIN`
+fn parse_exponents<const N: usize>(text: &str, name: &str, params: [&str; N]) -> Option<[i16; N]> {
+    let (found, args) = split_generic_type(text)?;
+    if found != name || args.len() > N {
+        return None;
+    }
+    let mut exponents = [0; N];
+    for (i, arg) in args.iter().enumerate() {
+        if *arg == "_" {
+            exponents[i] = i16::MIN;
+            continue;
+        }
+        let (param, value) = split_generic_type(arg)?;
+        let index = params.iter().position(|&p| p == param)?;
+        exponents[index] = match value[..] {
+            [] => 0,
+            [value] => value
+                .trim_matches(['{', '}', ' '])
+                .parse()
+                .unwrap_or(i16::MIN),
+            _ => return None,
+        };
+    }
+    Some(exponents)
+}
+
 #[derive(Debug)]
 struct QuantityParams {
     dimensions: DynDimensionExponents,
-- 
2.43.0


From ad010cbc6642ddcf3718ceb621d150cc2d66f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 45/59] fix: every code block of a hover is prettified, and
 none of its text lost or trimmed

---
 lsp-proxy/src/unit_formatter.rs | 93 ++++++++++++++-------------------
 1 file changed, 38 insertions(+), 55 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 88872ab..1c459bc 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -57,67 +57,50 @@ impl UnitFormatter {
             return self.format_quantity_types(text, config.verbose, config.unicode, false);
         }
 
-        // Work within the existing markdown structure
-        // Find the first code block and replace its content
-        if let Some(code_start) = original_text.find("```rust") {
-            let after_code_start = &original_text[code_start + 7..]; // Skip "```rust"
-            if let Some(code_end) = after_code_start.find("```") {
-                let code_content = &after_code_start[..code_end];
-
-                // Format the code content
-                let formatted_content =
-                    self.format_quantity_types(code_content, config.verbose, config.unicode, false);
-
-                // Check if we actually transformed anything
-                let was_transformed = formatted_content != code_content;
-
-                // Extract raw type from the original code content if we transformed it
-                let raw_type = if was_transformed && config.include_raw {
-                    self.extract_raw_type_from_hover(code_content)
-                } else {
-                    String::new()
-                };
-
-                // Replace the content in the existing code block
-                let before_code = &original_text[..code_start + 7]; // Include "```rust"
-                let after_code_block = &after_code_start[code_end + 3..]; // Skip closing ```
-
-                let result = if !raw_type.is_empty() {
-                    // Insert raw section after the first --- separator
-                    if let Some(separator_pos) = after_code_block.find("---") {
-                        let after_separator = &after_code_block[separator_pos..];
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n{}",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type,
-                            after_separator
-                        )
-                    } else {
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type
-                        )
-                    }
-                } else {
-                    format!(
-                        "{}\n{}\n```{}",
-                        before_code,
-                        formatted_content.trim(),
-                        after_code_block
-                    )
-                };
-
-                return result;
-            }
+        // Work within the existing markdown structure: the code blocks of the original text
+        if original_text.contains("```rust") {
+            return self.format_markdown(original_text, config);
         }
 
         // Fallback to normal formatting if we can't parse the markdown structure
         self.format_quantity_types(text, config.verbose, config.unicode, false)
     }
 
+    /// Format the types in markdown text, with a Raw section after each code block that changed (if requested)
+    fn format_markdown(&self, text: &str, config: &DisplayConfig) -> String {
+        let format =
+            |text: &str| self.format_quantity_types(text, config.verbose, config.unicode, false);
+        if !config.include_raw {
+            return format(text);
+        }
+
+        let mut result = String::new();
+        let mut rest = text;
+        while let Some(code_start) = rest.find("```rust").map(|start| start + "```rust".len()) {
+            let Some(code_end) = rest[code_start..].find("```").map(|end| code_start + end) else {
+                break;
+            };
+            let code_content = &rest[code_start..code_end];
+            let formatted_content = format(code_content);
+
+            result.push_str(&format(&rest[..code_start]));
+            result.push_str(&formatted_content);
+            result.push_str("```");
+            if formatted_content != code_content {
+                let raw_type = self.extract_raw_type_from_hover(code_content);
+                if !raw_type.is_empty() {
+                    result.push_str(&format!(
+                        "\n\n---\nRaw:\n\n```rust\n{}\n```\n",
+                        raw_type.trim()
+                    ));
+                }
+            }
+            rest = &rest[code_end + "```".len()..];
+        }
+        result.push_str(&format(rest));
+        result
+    }
+
     /// Format whippyunits types for inlay hints (compact format)
     pub fn format_types_inlay_hint(&self, text: &str, config: &DisplayConfig) -> String {
         self.format_quantity_types(text, config.verbose, config.unicode, true)
-- 
2.43.0


From 2e5dd42746f6b6361e0a1dc553d5283370be73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 46/59] fix: the raw type of a hover with non-ASCII text is
 extracted (slicing inside a character panicked)

---
 lsp-proxy/src/unit_formatter.rs | 65 +++------------------------------
 1 file changed, 6 insertions(+), 59 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 1c459bc..2daba48 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -286,62 +286,11 @@ impl UnitFormatter {
                 .map(|(i, _)| i);
 
             if let Some(type_end) = type_end {
-                if after_colon.chars().nth(type_end) == Some('<') {
-                    // We found a generic type, extract the full declaration
-                    // Find the start of the variable declaration by looking backwards for 'let'
-                    let mut var_start = start;
-                    let mut found_let = false;
-
-                    // Look backwards to find the start of the declaration
-                    while var_start > 0 {
-                        let char_before =
-                            hover_text[var_start - 1..var_start].chars().next().unwrap();
-                        if char_before.is_whitespace() {
-                            // Check if we've found "let" or "let mut"
-                            let potential_start = var_start;
-                            let before_whitespace = &hover_text[..potential_start];
-
-                            // Look for "let" at the end of the string
-                            if before_whitespace.ends_with("let") {
-                                // Check if there's whitespace before "let" or if it's at the start
-                                let let_start = before_whitespace.len() - 3;
-                                if let_start == 0
-                                    || hover_text[let_start - 1..let_start]
-                                        .chars()
-                                        .next()
-                                        .unwrap()
-                                        .is_whitespace()
-                                {
-                                    var_start = let_start;
-                                    found_let = true;
-                                    break;
-                                }
-                            }
-                        }
-                        var_start -= 1;
-                    }
-
-                    if !found_let {
-                        // Fallback: find the start of the variable name
-                        while var_start > 0
-                            && !hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start -= 1;
-                        }
-                        if var_start > 0
-                            && hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start += 1; // Skip the whitespace
-                        }
-                    }
+                if after_colon[type_end..].starts_with('<') {
+                    // We found a generic type, extract the full declaration from the start of its line
+                    let var_start = hover_text[..start]
+                        .rfind('\n')
+                        .map_or(0, |newline| newline + 1);
 
                     // Find the end of the type declaration by matching brackets
                     let type_start = start + ": ".len();
@@ -389,9 +338,7 @@ impl UnitFormatter {
 fn find_quantity_type(text: &str) -> Option<usize> {
     text.match_indices("Quantity<")
         .map(|(start, _)| start)
-        .find(|&start| {
-            !text[..start].ends_with(|c: char| c.is_alphanumeric() || c == '_')
-        })
+        .find(|&start| !text[..start].ends_with(|c: char| c.is_alphanumeric() || c == '_'))
 }
 
 /// Find the bracket closing a generic argument list (the `>` of an arrow is none)
-- 
2.43.0


From 1b0bc934da295face44b65d7b7640db6aa661f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 47/59] fix: a look-alike in a message does not hide the
 quantity types in it

---
 lsp-proxy/src/quantity_detection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsp-proxy/src/quantity_detection.rs b/lsp-proxy/src/quantity_detection.rs
index 77f7105..c5acbb2 100644
--- a/lsp-proxy/src/quantity_detection.rs
+++ b/lsp-proxy/src/quantity_detection.rs
@@ -9,8 +9,8 @@ pub fn contains_quantity_types_fast(json_payload: &str) -> bool {
     }
 
     // For initial inlay hints (full type in one chunk), validate the Quantity< pattern
-    if json_payload.contains("Quantity<") {
-        return validate_quantity_format(json_payload);
+    if json_payload.contains("Quantity<") && validate_quantity_format(json_payload) {
+        return true;
     }
 
     // For mouseover/resolved hints (deconstructed type), look for separate Scale and Dimension
-- 
2.43.0


From 64115d02a0c5f79856f7b4162b59de01590349c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 48/59] fix: all fields of hovers and rewritten messages are
 kept, and hover text given as plain strings is prettified

---
 lsp-proxy/src/hover_processor.rs | 14 +++++++------
 lsp-proxy/src/lsp_structures.rs  | 35 ++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/lsp-proxy/src/hover_processor.rs b/lsp-proxy/src/hover_processor.rs
index 5279738..0bca2a1 100644
--- a/lsp-proxy/src/hover_processor.rs
+++ b/lsp-proxy/src/hover_processor.rs
@@ -32,9 +32,10 @@ impl HoverProcessor {
     pub fn improve_hover_content(&self, mut hover: HoverContent) -> HoverContent {
         match &mut hover.contents {
             HoverContents::Single(item) => {
-                let original_text = item.value.clone();
+                let text = item.text_mut();
+                let original_text = text.clone();
                 // Apply transformations in sequence, but only if they haven't been applied already
-                let mut processed_text = item.value.clone();
+                let mut processed_text = text.clone();
 
                 // Only apply trait signature transformation if not already processed
                 if !processed_text.contains("impl Add for")
@@ -52,13 +53,14 @@ impl HoverProcessor {
                     &original_text,
                 );
 
-                item.value = processed_text;
+                *text = processed_text;
             }
             HoverContents::Multiple(items) => {
                 for item in items {
-                    let original_text = item.value.clone();
+                    let text = item.text_mut();
+                    let original_text = text.clone();
                     // Apply transformations in sequence, but only if they haven't been applied already
-                    let mut processed_text = item.value.clone();
+                    let mut processed_text = text.clone();
 
                     // Only apply trait signature transformation if not already processed
                     if !processed_text.contains("impl Add for")
@@ -76,7 +78,7 @@ impl HoverProcessor {
                         &original_text,
                     );
 
-                    item.value = processed_text;
+                    *text = processed_text;
                 }
             }
         }
diff --git a/lsp-proxy/src/lsp_structures.rs b/lsp-proxy/src/lsp_structures.rs
index 722d71c..e48d215 100644
--- a/lsp-proxy/src/lsp_structures.rs
+++ b/lsp-proxy/src/lsp_structures.rs
@@ -1,22 +1,22 @@
 use serde::{Deserialize, Serialize};
-use serde_json::Value;
+use serde_json::{Map, Value};
 
 /// LSP Message structure
 #[derive(Debug, Serialize, Deserialize)]
 pub struct LspMessage {
-    pub jsonrpc: String,
-    pub id: Option<Value>,
-    pub method: Option<String>,
-    pub params: Option<Value>,
     pub result: Option<Value>,
-    pub error: Option<Value>,
+    /// All other fields, relayed as they are
+    #[serde(flatten)]
+    pub rest: Map<String, Value>,
 }
 
 /// Hover content structure
 #[derive(Debug, Serialize, Deserialize)]
 pub struct HoverContent {
     pub contents: HoverContents,
-    pub range: Option<Value>,
+    /// All other fields, relayed as they are
+    #[serde(flatten)]
+    pub rest: Map<String, Value>,
 }
 
 #[derive(Debug, Serialize, Deserialize)]
@@ -27,8 +27,21 @@ pub enum HoverContents {
 }
 
 #[derive(Debug, Serialize, Deserialize)]
-pub struct HoverContentItem {
-    pub language: Option<String>,
-    pub value: String,
-    pub kind: Option<String>,
+#[serde(untagged)]
+pub enum HoverContentItem {
+    Text(String),
+    Item {
+        value: String,
+        /// All other fields, relayed as they are
+        #[serde(flatten)]
+        rest: Map<String, Value>,
+    },
+}
+
+impl HoverContentItem {
+    pub fn text_mut(&mut self) -> &mut String {
+        match self {
+            Self::Text(value) | Self::Item { value, .. } => value,
+        }
+    }
 }
-- 
2.43.0


From 05c3cfc8cf3ec2c387f04c12ad5c746bf8bfd485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 49/59] fix: inlay hints convert every quantity type however
 the server splits it, and insert code naming exactly that type

---
 lsp-proxy/src/inlay_hint_processor.rs | 408 +++++++++++---------------
 lsp-proxy/src/unit_formatter.rs       |  73 +++--
 2 files changed, 222 insertions(+), 259 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index f9940be..35f0d5a 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -4,6 +4,7 @@ use crate::{
 };
 use anyhow::Result;
 use serde_json::{json, Value};
+use std::ops::Range;
 
 /// Process inlay hint responses to pretty-print whippyunits types
 #[derive(Clone)]
@@ -59,13 +60,10 @@ impl InlayHintProcessor {
 
     /// Process a single inlay hint, converting whippyunits types if present
     fn process_single_hint(&self, hint: &mut Value) -> Result<()> {
-        // Get the label array
-        if let Some(label) = hint.get_mut("label") {
-            if let Some(label_array) = label.as_array_mut() {
-                if self.contains_whippyunits_type(label_array) {
-                    self.convert_whippyunits_hint(label_array)?;
-                }
-            }
+        match hint.get_mut("label") {
+            Some(Value::Array(label_array)) => self.convert_whippyunits_hint(label_array)?,
+            Some(Value::String(label)) => *label = self.convert_label_text(label),
+            _ => {}
         }
         Ok(())
     }
@@ -75,27 +73,17 @@ impl InlayHintProcessor {
         &self,
         hint_obj: &mut serde_json::Map<String, Value>,
     ) -> Result<()> {
-        // Check if this hint contains a whippyunits type first
-        let has_whippyunits = if let Some(label) = hint_obj.get("label") {
-            if let Some(label_array) = label.as_array() {
-                self.contains_whippyunits_type(label_array)
-            } else {
-                false
-            }
-        } else {
-            false
-        };
+        let label = label_text(hint_obj.get("label"));
 
-        if has_whippyunits {
-            // Get the label array from the object and process it
-            if let Some(label) = hint_obj.get_mut("label") {
-                if let Some(label_array) = label.as_array_mut() {
-                    self.convert_whippyunits_hint(label_array)?;
-                }
-            }
+        match hint_obj.get_mut("label") {
+            Some(Value::Array(label_array)) => self.convert_whippyunits_hint(label_array)?,
+            Some(Value::String(label)) => *label = self.convert_label_text(label),
+            _ => {}
+        }
 
-            // Always add the unit! macro completion, regardless of resolution state
-            self.add_seeded_unit_macro_text_edit(hint_obj)?;
+        // Always add the unit! macro completion, regardless of resolution state
+        if let Some(label) = label {
+            self.add_seeded_unit_macro_text_edit(hint_obj, &label);
         }
         Ok(())
     }
@@ -113,220 +101,145 @@ impl InlayHintProcessor {
 
     /// Convert a whippyunits inlay hint to pretty format
     pub fn convert_whippyunits_hint(&self, label_array: &mut Vec<Value>) -> Result<()> {
-        // Find the Quantity part
-        let mut quantity_part_index = None;
-        for (i, part) in label_array.iter().enumerate() {
-            if let Some(value) = part.get("value") {
-                if let Some(text) = value.as_str() {
-                    if text == "Quantity" {
-                        quantity_part_index = Some(i);
-                        break;
-                    }
-                }
-            }
+        // The types may be split between the parts in any way, so look for them in the whole text
+        let Some(parts) = label_array.iter().map(part_text).collect::<Option<Vec<_>>>() else {
+            return Ok(());
+        };
+        let parts: Vec<String> = parts.into_iter().map(str::to_string).collect();
+        let text = parts.concat();
+        let types = self.find_types(&text);
+        if types.is_empty() {
+            return Ok(());
         }
 
-        // If we found the Quantity part, collect all the generic parameters
-        if let Some(quantity_idx) = quantity_part_index {
-            // Collect all parts after Quantity that form the generic parameters
-            let mut generic_parts = Vec::new();
-            let mut bracket_depth = 0;
-            let mut found_opening_bracket = false;
-
-            for i in (quantity_idx + 1)..label_array.len() {
-                if let Some(value) = label_array[i].get("value") {
-                    if let Some(text) = value.as_str() {
-                        // Track bracket depth to know when we've reached the end
-                        for ch in text.chars() {
-                            if ch == '<' {
-                                bracket_depth += 1;
-                                found_opening_bracket = true;
-                            } else if ch == '>' {
-                                bracket_depth -= 1;
-                            }
-                        }
-
-                        generic_parts.push(text);
-
-                        // Stop when we've closed all brackets
-                        if found_opening_bracket && bracket_depth == 0 {
-                            break;
-                        }
-                    }
+        let mut new_parts = Vec::new();
+        let mut end = 0;
+        for (mut part, old_value) in label_array.drain(..).zip(parts) {
+            let start = end;
+            end += old_value.len();
+
+            // The part where a type starts shows it (and keeps its location information);
+            // of the other parts only the text outside the type remains
+            let mut value = String::new();
+            let mut position = start;
+            for (range, pretty_type) in &types {
+                if range.start >= end || range.end <= start {
+                    continue;
                 }
-            }
-
-            if !generic_parts.is_empty() {
-                // Create the complete generic parameters string
-                let generic_params = generic_parts.join("");
-
-                // Construct the full type string
-                let full_type = format!("Quantity{}", generic_params);
-
-                // For inlay hints, use the full Quantity<unit, type> format
-                let pretty_type = self
-                    .formatter
-                    .format_types_inlay_hint(&full_type, &self.display_config);
-
-                // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
-                let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
-
-                // Replace the "Quantity" part with the pretty version
-                // Preserve the location information if it exists
-                let quantity_part = &label_array[quantity_idx];
-                let mut new_quantity_part = json!({
-                    "value": pretty_type
-                });
-
-                // Copy over the location if it exists
-                if let Some(location) = quantity_part.get("location") {
-                    new_quantity_part["location"] = location.clone();
-                }
-
-                label_array[quantity_idx] = new_quantity_part;
-
-                // Remove all the generic parameters parts
-                let mut parts_to_remove = Vec::new();
-                let mut bracket_depth = 0;
-                let mut found_opening_bracket = false;
-
-                for i in (quantity_idx + 1)..label_array.len() {
-                    if let Some(value) = label_array[i].get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Track bracket depth to know when we've reached the end
-                            for ch in text.chars() {
-                                if ch == '<' {
-                                    bracket_depth += 1;
-                                    found_opening_bracket = true;
-                                } else if ch == '>' {
-                                    bracket_depth -= 1;
-                                }
-                            }
-
-                            parts_to_remove.push(i);
-
-                            // Stop when we've closed all brackets
-                            if found_opening_bracket && bracket_depth == 0 {
-                                break;
-                            }
-                        }
-                    }
+                if range.start >= start {
+                    value.push_str(&text[position..range.start]);
+                    value.push_str(pretty_type);
                 }
+                position = range.end.min(end);
+            }
+            value.push_str(&text[position..end]);
 
-                // Remove parts in reverse order to maintain indices
-                for &i in parts_to_remove.iter().rev() {
-                    label_array.remove(i);
-                }
-            } else {
+            if !value.is_empty() || old_value.is_empty() {
+                part["value"] = json!(value);
+                new_parts.push(part);
             }
-        } else {
         }
+        *label_array = new_parts;
 
         Ok(())
     }
 
-    /// Add a unit! macro text edit to the hint
+    /// Convert the whippyunits types in a label given as plain text
+    fn convert_label_text(&self, label: &str) -> String {
+        let mut result = String::new();
+        let mut end = 0;
+        for (range, pretty_type) in self.find_types(label) {
+            result.push_str(&label[end..range.start]);
+            result.push_str(&pretty_type);
+            end = range.end;
+        }
+        result.push_str(&label[end..]);
+        result
+    }
+
+    /// Find the whippyunits types in text, with the form shown in inlay hints
+    fn find_types(&self, text: &str) -> Vec<(Range<usize>, String)> {
+        let config = &self.display_config;
+        let mut types = self
+            .formatter
+            .find_types(text, config.verbose, config.unicode, true);
+        for (_, pretty_type) in &mut types {
+            // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
+            *pretty_type = self.prune_inlay_hint_exponents(pretty_type);
+        }
+        types
+    }
+
+    /// Make the text edits of a hint use the unit! macro (adding one if there is none)
     fn add_seeded_unit_macro_text_edit(
         &self,
         hint_obj: &mut serde_json::Map<String, Value>,
-    ) -> Result<()> {
-        // Generate the unit! macro text
-        let seeded_text = self.generate_seeded_unit_macro(hint_obj)?;
-
-        // Extract position before any mutable borrows
-        let position = if let Some(pos) = hint_obj.get("position") {
-            pos.clone()
-        } else {
-            return Ok(());
-        };
-
-        // Replace existing textEdits with our seeded unit macro
-        if let Some(existing_text_edits) = hint_obj.get_mut("textEdits") {
-            if let Some(text_edits_array) = existing_text_edits.as_array_mut() {
-                // Clear existing text edits and add our unit! macro one
-                text_edits_array.clear();
-
-                // Get the range from the first existing text edit (if any)
-                let range = if let Some(first_edit) = text_edits_array.first() {
-                    if let Some(range) = first_edit.get("range") {
-                        range.clone()
-                    } else {
-                        // Fallback: use position as range
-                        json!({
-                            "start": position,
-                            "end": position
-                        })
+        label: &str,
+    ) {
+        if let Some(text_edits) = hint_obj.get_mut("textEdits").and_then(Value::as_array_mut) {
+            for text_edit in text_edits {
+                if let Some(Value::String(new_text)) = text_edit.get_mut("newText") {
+                    if let Some(seeded_text) = self.generate_seeded_unit_macros(new_text) {
+                        *new_text = seeded_text;
                     }
-                } else {
-                    // No existing text edits, use position as range
-                    json!({
-                        "start": position,
-                        "end": position
-                    })
-                };
-
-                // Add our unit! macro text edit
-                let text_edit = json!({
-                    "range": range,
-                    "newText": seeded_text
-                });
-                text_edits_array.push(text_edit);
+                }
             }
-        } else {
-            // No existing textEdits, create new array
+        } else if let (Some(position), Some(seeded_text)) = (
+            hint_obj.get("position").cloned(),
+            // Only a type annotation can be inserted as it is shown
+            Some(label)
+                .filter(|label| label.starts_with(": "))
+                .and_then(|label| self.generate_seeded_unit_macros(label)),
+        ) {
             let range = json!({
                 "start": position,
                 "end": position
             });
-
             let text_edit = json!({
                 "range": range,
                 "newText": seeded_text
             });
             hint_obj.insert("textEdits".to_string(), json!([text_edit]));
         }
-
-        Ok(())
     }
 
-    /// Generate a seeded unit macro based on the unresolved type
-    fn generate_seeded_unit_macro(
-        &self,
-        hint_obj: &serde_json::Map<String, Value>,
-    ) -> Result<String> {
-        // We need to reconstruct the original unresolved type from the pretty-printed version
-        // Look for the pretty-printed type in the label
-        let mut pretty_type = String::new();
-
-        if let Some(label) = hint_obj.get("label") {
-            if let Some(label_array) = label.as_array() {
-                for part in label_array {
-                    if let Some(value) = part.get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Skip the ": " part
-                            if text != ": " {
-                                pretty_type.push_str(text);
-                            }
-                        }
-                    }
-                }
+    /// Replace the Quantity types in code by unit! macros (None if nothing is replaced).
+    /// A type whose unit the macro cannot name is kept; an unresolved one becomes a seed to complete.
+    fn generate_seeded_unit_macros(&self, code: &str) -> Option<String> {
+        let mut result = String::new();
+        let mut end = 0;
+        for (range, pretty_type) in self.find_types(code) {
+            let (unit_part, datatype) = self.extract_unit_and_datatype(&pretty_type);
+            let is_resolved = !pretty_type.contains(['?', 'ˀ']);
+            if is_resolved && !self.formatter.is_unit_of(&unit_part, &code[range.clone()]) {
+                continue;
             }
-        }
-
-        // Extract the datatype suffix if present
-        let (unit_part, datatype) = self.extract_unit_and_datatype(&pretty_type);
-
-        // Generate the appropriate unit! macro format based on datatype
-        let unit_macro = if datatype == "f64" {
-            // For f64, use the simple format: unit!(mm)
-            format!("unit!({})", unit_part)
-        } else {
-            // For other datatypes, use the type-specified format: unit!(mm, i32)
-            format!("unit!({}, {})", unit_part, datatype)
-        };
 
-        // Return just the type annotation with the unit! macro
-        Ok(format!(": {}", unit_macro))
+            // A path to the type belongs to it
+            let path = code[end..range.start]
+                .trim_end_matches(|c: char| c.is_alphanumeric() || c == '_' || c == ':');
+            let path = if code[..range.start].ends_with("::") {
+                path
+            } else {
+                &code[end..range.start]
+            };
+            result.push_str(path);
+
+            // Generate the appropriate unit! macro format based on datatype
+            if datatype == "f64" {
+                // For f64, use the simple format: unit!(mm)
+                result.push_str(&format!("unit!({})", unit_part));
+            } else {
+                // For other datatypes, use the type-specified format: unit!(mm, i32)
+                result.push_str(&format!("unit!({}, {})", unit_part, datatype));
+            }
+            end = range.end;
+        }
+        if end == 0 {
+            return None;
+        }
+        result.push_str(&code[end..]);
+        Some(result)
     }
 
     /// Extract unit part and datatype from a pretty-printed type with suffix
@@ -342,7 +255,8 @@ impl InlayHintProcessor {
         if clean_type.starts_with("Quantity<") && clean_type.ends_with('>') {
             let inner = &clean_type[9..clean_type.len() - 1]; // Remove "Quantity<" and ">"
 
-            if let Some(comma_pos) = inner.rfind(',') {
+            // The datatype may be followed by a brand
+            if let Some(comma_pos) = inner.find(',') {
                 let unit_part = self.convert_pretty_type_to_unit_macro(inner[..comma_pos].trim());
                 let datatype = inner[comma_pos + 1..].trim().to_string();
                 return (unit_part, datatype);
@@ -383,21 +297,26 @@ impl InlayHintProcessor {
 
     /// Convert pretty-printed type to unit! macro format
     fn convert_pretty_type_to_unit_macro(&self, pretty_type: &str) -> String {
-        // Convert pretty-printed types like "mmˀ" to unit macro format like "mm^"
+        // Convert pretty-printed types like "mm²·sˀ" to unit macro format like "mm^2*s^"
         // Remove the ? and place cursor after the caret
-        pretty_type
-            .replace("ˀ", "^") // Replace superscript question mark with just ^
-            .replace("⁻", "^-") // Replace superscript minus with ^-
-            .replace("¹", "^1") // Replace superscript 1 with ^1
-            .replace("²", "^2") // Replace superscript 2 with ^2
-            .replace("³", "^3") // Replace superscript 3 with ^3
-            .replace("⁴", "^4") // Replace superscript 4 with ^4
-            .replace("⁵", "^5") // Replace superscript 5 with ^5
-            .replace("⁶", "^6") // Replace superscript 6 with ^6
-            .replace("⁷", "^7") // Replace superscript 7 with ^7
-            .replace("⁸", "^8") // Replace superscript 8 with ^8
-            .replace("⁹", "^9") // Replace superscript 9 with ^9
-            .replace("⁰", "^0") // Replace superscript 0 with ^0
+        let mut result = String::new();
+        let mut in_exponent = false;
+        for c in pretty_type.chars() {
+            let digit = "⁰¹²³⁴⁵⁶⁷⁸⁹".chars().position(|digit| digit == c);
+            let is_exponent = digit.is_some() || c == '⁻' || c == 'ˀ';
+            if is_exponent && !in_exponent {
+                result.push('^');
+            }
+            in_exponent = is_exponent;
+            match (digit, c) {
+                (Some(digit), _) => result.push_str(&digit.to_string()),
+                (None, '⁻') => result.push('-'),
+                (None, 'ˀ') => {}
+                (None, '·') => result.push('*'),
+                (None, c) => result.push(c),
+            }
+        }
+        result
     }
 
     /// Prune ^1 exponents from inlay hint display while keeping meaningful exponents
@@ -405,19 +324,36 @@ impl InlayHintProcessor {
         // In our pretty-printed output, we use Unicode superscripts like ¹, ², ³, etc.
         // We want to remove ¹ (superscript 1) but keep all other superscripts
         // For negative exponents, we want to preserve the full -1 to make it clear
-        let mut result = pretty_type.to_string();
-
-        // Remove standalone ¹ (but preserve ⁻¹ as it represents a meaningful negative exponent)
-        // Since ⁻¹ is two separate Unicode characters (⁻ + ¹), we need to handle this carefully
-        // First, temporarily replace ⁻¹ with a placeholder to protect it
-        result = result.replace("⁻¹", "PLACEHOLDER_MINUS_ONE");
+        let is_exponent = |c: Option<&char>| c.is_some_and(|&c| "⁻⁰¹²³⁴⁵⁶⁷⁸⁹".contains(c));
+        let chars: Vec<char> = pretty_type.chars().collect();
+        let mut result = String::new();
+
+        // Remove standalone ¹ (but preserve it in exponents such as ⁻¹ and ¹²)
+        for (i, &c) in chars.iter().enumerate() {
+            let before = i.checked_sub(1).and_then(|i| chars.get(i));
+            if c != '¹' || is_exponent(before) || is_exponent(chars.get(i + 1)) {
+                result.push(c);
+            }
+        }
 
-        // Then remove standalone ¹
-        result = result.replace("¹", "");
+        result
+    }
+}
 
-        // Finally, restore the ⁻¹
-        result = result.replace("PLACEHOLDER_MINUS_ONE", "⁻¹");
+/// Text of a label part
+fn part_text(part: &Value) -> Option<&str> {
+    part.get("value")?.as_str()
+}
 
-        result
+/// Text of a label, whether it is given in parts or not
+fn label_text(label: Option<&Value>) -> Option<String> {
+    match label? {
+        Value::String(text) => Some(text.clone()),
+        Value::Array(parts) => parts
+            .iter()
+            .map(part_text)
+            .collect::<Option<Vec<_>>>()
+            .map(|parts| parts.concat()),
+        _ => None,
     }
 }
diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 2daba48..dedf708 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -1,5 +1,7 @@
+use std::ops::Range;
+use syn::parse_str;
 use whippyunits_core::{
-    dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents,
+    dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents, UnitExpr,
 };
 
 /// Display configuration for whippyunits type formatting
@@ -115,32 +117,56 @@ impl UnitFormatter {
         is_inlay_hint: bool,
     ) -> String {
         let mut result = String::with_capacity(text.len());
-        let mut rest = text;
+        let mut end = 0;
+        for (range, formatted) in self.find_types(text, verbose, unicode, is_inlay_hint) {
+            result.push_str(&text[end..range.start]);
+            result.push_str(&formatted);
+            end = range.end;
+        }
+        result.push_str(&text[end..]);
+        result
+    }
+
+    /// Find the Quantity types in text, with their formatted form
+    pub(crate) fn find_types(
+        &self,
+        text: &str,
+        verbose: bool,
+        unicode: bool,
+        is_inlay_hint: bool,
+    ) -> Vec<(Range<usize>, String)> {
+        let mut types = Vec::new();
+        let mut position = 0;
 
-        while let Some(start) = find_quantity_type(rest) {
+        while let Some(start) = find_quantity_type(text, position) {
             let body = start + "Quantity<".len();
-            let formatted = find_closing_bracket(&rest[body..]).and_then(|close| {
+            let formatted = find_closing_bracket(&text[body..]).and_then(|close| {
                 let end = body + close + 1;
-                self.format_new_quantity_type(&rest[start..end], verbose, unicode, is_inlay_hint)
-                    .map(|formatted| (formatted, end))
+                self.format_new_quantity_type(&text[start..end], verbose, unicode, is_inlay_hint)
+                    .map(|formatted| (start..end, formatted))
             });
 
-            match formatted {
-                Some((formatted, end)) => {
-                    result.push_str(&rest[..start]);
-                    result.push_str(&formatted);
-                    rest = &rest[end..];
-                }
-                // Not one of our types; there may be one inside or further on
-                None => {
-                    result.push_str(&rest[..body]);
-                    rest = &rest[body..];
-                }
-            }
+            // If it is not one of our types, there may be one inside or further on
+            position = formatted.as_ref().map_or(body, |(range, _)| range.end);
+            types.extend(formatted);
         }
 
-        result.push_str(rest);
-        result
+        types
+    }
+
+    /// Whether a unit expression (as in `unit!`) names the unit of this Quantity type
+    pub(crate) fn is_unit_of(&self, unit: &str, quantity_type: &str) -> bool {
+        match (
+            parse_str::<UnitExpr>(unit),
+            self.parse_new_quantity_params(quantity_type),
+        ) {
+            (Ok(unit), Some(params)) => {
+                let unit = unit.evaluate();
+                unit.dimension_exponents == params.dimensions
+                    && unit.scale_exponents == params.scale
+            }
+            _ => false,
+        }
     }
 
     /// Format the new Quantity type with Scale<...> and Dimension<...> structs
@@ -335,9 +361,10 @@ impl UnitFormatter {
 }
 
 /// Find the start of the next `Quantity<` that is not the end of a longer name (e.g. `MyQuantity<`)
-fn find_quantity_type(text: &str) -> Option<usize> {
-    text.match_indices("Quantity<")
-        .map(|(start, _)| start)
+fn find_quantity_type(text: &str, position: usize) -> Option<usize> {
+    text[position..]
+        .match_indices("Quantity<")
+        .map(|(start, _)| position + start)
         .find(|&start| !text[..start].ends_with(|c: char| c.is_alphanumeric() || c == '_'))
 }
 
-- 
2.43.0


From 35fe9b9c834cb6edd2beb6cf04fcc57a96e3683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 50/59] fix: LSP messages with any headers are relayed (the
 first header had to be Content-Length, and the others ended up in the body)

---
 lsp-proxy/src/main.rs | 59 ++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index b4a60a8..8ce5b6d 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -54,7 +54,7 @@ async fn main() -> Result<()> {
     let proxy_clone = proxy.clone();
     let editor_to_ra = tokio::spawn(async move {
         let mut reader = BufReader::new(stdin);
-        let mut buffer = String::new();
+        let mut buffer = Vec::new();
 
         loop {
             buffer.clear();
@@ -94,7 +94,7 @@ async fn main() -> Result<()> {
     let proxy_clone = proxy.clone();
     let ra_to_editor = tokio::spawn(async move {
         let mut reader = BufReader::new(ra_stdout);
-        let mut buffer = String::new();
+        let mut buffer = Vec::new();
 
         loop {
             buffer.clear();
@@ -167,44 +167,41 @@ async fn main() -> Result<()> {
     Ok(())
 }
 
-/// Read a complete LSP message from the reader
+/// Read a complete LSP message (headers and body, byte for byte) from the reader
 async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
     reader: &mut R,
-    buffer: &mut String,
+    buffer: &mut Vec<u8>,
 ) -> Result<Option<String>, anyhow::Error> {
-    // Read the Content-Length header
-    buffer.clear();
-    match reader.read_line(buffer).await {
-        Ok(0) => return Ok(None), // EOF
-        Ok(_) => {}
-        Err(e) => return Err(anyhow::anyhow!("Failed to read Content-Length: {}", e)),
-    }
+    // Read the headers up to the empty line after them
+    let mut message = Vec::new();
+    let mut content_length = None;
+    loop {
+        buffer.clear();
+        if reader.read_until(b'\n', buffer).await? == 0 {
+            return Ok(None); // EOF
+        }
+        message.extend_from_slice(buffer);
 
-    let content_length_line = buffer.trim();
-    if content_length_line.is_empty() {
-        return Ok(None);
+        let header = std::str::from_utf8(buffer)?.trim();
+        if header.is_empty() {
+            break;
+        }
+        if let Some((name, value)) = header.split_once(':') {
+            if name.trim().eq_ignore_ascii_case("Content-Length") {
+                content_length = Some(value.trim().parse::<usize>()?);
+            }
+        }
     }
 
-    // Parse Content-Length
-    let content_length: usize = content_length_line
-        .strip_prefix("Content-Length: ")
-        .ok_or_else(|| anyhow::anyhow!("Invalid Content-Length header: {}", content_length_line))?
-        .parse()?;
-
-    // Read the empty line after headers
-    buffer.clear();
-    reader.read_line(buffer).await?;
+    let content_length =
+        content_length.ok_or_else(|| anyhow::anyhow!("Missing Content-Length header"))?;
 
     // Read the JSON payload
-    buffer.clear();
-    let mut json_buffer = vec![0u8; content_length];
-    reader.read_exact(&mut json_buffer).await?;
-
-    let json_payload = String::from_utf8(json_buffer)?;
+    let header_length = message.len();
+    message.resize(header_length + content_length, 0);
+    reader.read_exact(&mut message[header_length..]).await?;
 
-    // Reconstruct the complete LSP message
-    let message = format!("Content-Length: {}\r\n\r\n{}", content_length, json_payload);
-    Ok(Some(message))
+    Ok(Some(String::from_utf8(message)?))
 }
 
 /// Read display configuration from environment variables
-- 
2.43.0


From 5572b0d46bd4745482f937d51c1ddb7344005428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 51/59] fix: the LSP proxy relays all messages before it stops
 (it stopped with stderr, and dropped what followed the editor's last message)

---
 lsp-proxy/src/main.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index 8ce5b6d..ccb0846 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -6,6 +6,9 @@ use tokio::process::{Child, Command as TokioCommand};
 
 use whippyunits_lsp_proxy::{DisplayConfig, LspProxy};
 
+/// How long rust-analyzer may take to finish when the editor is gone
+const SHUTDOWN_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(10);
+
 #[tokio::main]
 async fn main() -> Result<()> {
     // Initialize logging
@@ -132,30 +135,23 @@ async fn main() -> Result<()> {
     });
 
     // Forward stderr from rust-analyzer to our stderr
-    let stderr_forwarder = tokio::spawn(async move {
-        let mut reader = BufReader::new(ra_stderr);
-        let mut line = String::new();
-
-        loop {
-            line.clear();
-            match reader.read_line(&mut line).await {
-                Ok(0) => break, // EOF
-                Ok(_) => {
-                    eprint!("{}", line);
-                }
-                Err(e) => {
-                    error!("Failed to read rust-analyzer stderr: {}", e);
-                    break;
-                }
-            }
+    let mut ra_stderr = ra_stderr;
+    tokio::spawn(async move {
+        if let Err(e) = tokio::io::copy(&mut ra_stderr, &mut tokio::io::stderr()).await {
+            error!("Failed to forward rust-analyzer stderr: {}", e);
         }
     });
 
-    // Wait for any task to complete (which means something went wrong or EOF)
+    // Wait for rust-analyzer to finish; when the editor is done, relay what is still to come
+    let mut ra_to_editor = ra_to_editor;
     tokio::select! {
-        _ = editor_to_ra => info!("Editor to rust-analyzer task completed"),
-        _ = ra_to_editor => info!("Rust-analyzer to editor task completed"),
-        _ = stderr_forwarder => info!("Stderr forwarder task completed"),
+        _ = editor_to_ra => {
+            info!("Editor to rust-analyzer task completed");
+            if tokio::time::timeout(SHUTDOWN_TIMEOUT, &mut ra_to_editor).await.is_err() {
+                warn!("rust-analyzer did not finish in time");
+            }
+        }
+        _ = &mut ra_to_editor => info!("Rust-analyzer to editor task completed"),
     }
 
     // Clean up
@@ -164,7 +160,8 @@ async fn main() -> Result<()> {
     }
 
     info!("LSP proxy shutting down");
-    Ok(())
+    // Returning would wait for a pending read from the editor
+    std::process::exit(0)
 }
 
 /// Read a complete LSP message (headers and body, byte for byte) from the reader
-- 
2.43.0


From be1163003ba5dbd83dbf622b1ffa86b00d515c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 52/59] fix: the prettifier keeps line endings, the missing
 last newline and bytes that are not UTF-8

---
 whippyunits-pretty/src/main.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/whippyunits-pretty/src/main.rs b/whippyunits-pretty/src/main.rs
index e5f888b..c3a68ac 100644
--- a/whippyunits-pretty/src/main.rs
+++ b/whippyunits-pretty/src/main.rs
@@ -1,7 +1,8 @@
 use anyhow::Result;
 use clap::Parser;
 use log::info;
-use std::io::{self, BufRead, BufReader};
+use std::fs::File;
+use std::io::{self, BufRead, BufReader, Write};
 
 use whippyunits_lsp_proxy::DisplayConfig;
 use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;
@@ -56,20 +57,30 @@ async fn main() -> Result<()> {
     // Process input
     if let Some(input_file) = args.input {
         // Read from file
-        let content = std::fs::read_to_string(&input_file)?;
-        let processed = printer.process_rustc_output(&content)?;
-        print!("{}", processed);
+        process(BufReader::new(File::open(&input_file)?), &mut printer)
     } else {
         // Read from stdin
-        let stdin = io::stdin();
-        let reader = BufReader::new(stdin.lock());
+        process(io::stdin().lock(), &mut printer)
+    }
+}
+
+/// Process the lines of the input; line endings and bytes that are not UTF-8 are kept as they are
+fn process(mut input: impl BufRead, printer: &mut RustcPrettyPrinter) -> Result<()> {
+    let mut output = io::stdout().lock();
+    let mut line = Vec::new();
+
+    while input.read_until(b'\n', &mut line)? > 0 {
+        let content = line.strip_suffix(b"\n").unwrap_or(&line);
+        let content = content.strip_suffix(b"\r").unwrap_or(content);
 
-        for line in reader.lines() {
-            let line = line?;
-            let processed = printer.process_line(&line)?;
-            println!("{}", processed);
+        for chunk in content.utf8_chunks() {
+            output.write_all(printer.process_line(chunk.valid())?.as_bytes())?;
+            output.write_all(chunk.invalid())?;
         }
+        output.write_all(&line[content.len()..])?;
+        line.clear();
     }
 
+    output.flush()?;
     Ok(())
 }
-- 
2.43.0


From 8780f25eddb120d2b5c0672a5e4eaac3c1d01991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 53/59] fix: messages with many unclosed look-alikes do not
 stall the LSP proxy (they were searched once per look-alike)

---
 lsp-proxy/src/quantity_detection.rs |  8 ++------
 lsp-proxy/src/unit_formatter.rs     | 22 ++++++++++++----------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/lsp-proxy/src/quantity_detection.rs b/lsp-proxy/src/quantity_detection.rs
index c5acbb2..46fe343 100644
--- a/lsp-proxy/src/quantity_detection.rs
+++ b/lsp-proxy/src/quantity_detection.rs
@@ -8,12 +8,8 @@ pub fn contains_quantity_types_fast(json_payload: &str) -> bool {
         return false;
     }
 
-    // For initial inlay hints (full type in one chunk), validate the Quantity< pattern
-    if json_payload.contains("Quantity<") && validate_quantity_format(json_payload) {
-        return true;
-    }
-
-    // For mouseover/resolved hints (deconstructed type), look for separate Scale and Dimension
+    // The type may be in one chunk (initial inlay hints, hovers) or deconstructed (resolved hints),
+    // so look for Scale and Dimension anywhere
     if json_payload.contains("Scale") && json_payload.contains("Dimension") {
         return true;
     }
diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index dedf708..40e95ed 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::ops::Range;
 use syn::parse_str;
 use whippyunits_core::{
@@ -137,11 +138,12 @@ impl UnitFormatter {
     ) -> Vec<(Range<usize>, String)> {
         let mut types = Vec::new();
         let mut position = 0;
+        let closing_brackets = find_closing_brackets(text);
 
         while let Some(start) = find_quantity_type(text, position) {
             let body = start + "Quantity<".len();
-            let formatted = find_closing_bracket(&text[body..]).and_then(|close| {
-                let end = body + close + 1;
+            let formatted = closing_brackets.get(&(body - 1)).and_then(|close| {
+                let end = close + 1;
                 self.format_new_quantity_type(&text[start..end], verbose, unicode, is_inlay_hint)
                     .map(|formatted| (start..end, formatted))
             });
@@ -368,24 +370,24 @@ fn find_quantity_type(text: &str, position: usize) -> Option<usize> {
         .find(|&start| !text[..start].ends_with(|c: char| c.is_alphanumeric() || c == '_'))
 }
 
-/// Find the bracket closing a generic argument list (the `>` of an arrow is none)
-fn find_closing_bracket(text: &str) -> Option<usize> {
-    let mut depth = 1;
+/// Find the brackets closing the generic argument lists, by their opening ones (the `>` of an arrow is none)
+fn find_closing_brackets(text: &str) -> HashMap<usize, usize> {
+    let mut closing_brackets = HashMap::new();
+    let mut open_brackets = Vec::new();
     let mut previous = ' ';
     for (i, c) in text.char_indices() {
         match c {
-            '<' => depth += 1,
+            '<' => open_brackets.push(i),
             '>' if previous != '-' && previous != '=' => {
-                depth -= 1;
-                if depth == 0 {
-                    return Some(i);
+                if let Some(open) = open_brackets.pop() {
+                    closing_brackets.insert(open, i);
                 }
             }
             _ => {}
         }
         previous = c;
     }
-    None
+    closing_brackets
 }
 
 /// Split `path::Name<A, B<C, D>>` into its name and its arguments
-- 
2.43.0


From 0873181ad709c0471fcdda57189c371cab1bd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 54/59] fix: printed quantities name their storage type and
 brand without std too (they showed <T> and <unknown>)

---
 src/print/display_traits.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/print/display_traits.rs b/src/print/display_traits.rs
index 452615f..be85acc 100644
--- a/src/print/display_traits.rs
+++ b/src/print/display_traits.rs
@@ -20,14 +20,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for display");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
@@ -59,14 +53,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for debug");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
-- 
2.43.0


From ad54623653bffdba046f1dacb86dd05ee47da96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 55/59] =?UTF-8?q?fix:=20suggest=20only=20dimension=20names?=
 =?UTF-8?q?=20and=20symbols=20that=20can=20be=20written=20in=20define=5Fge?=
 =?UTF-8?q?neric=5Fdimension!=20(not=20'Electric=20Charge'=20or=20'L=C2=B2?=
 =?UTF-8?q?')?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 15 +++++++++++----
 proc-macros/src/utils/dimension_suggestions.rs    |  8 ++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index 9cc1f6b..c4ccb60 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -6,7 +6,7 @@ use syn::token::{Caret, Comma, Dot, Slash, Star};
 use syn::{Ident, LitInt, Token};
 use whippyunits_core::Dimension;
 
-use crate::utils::dimension_suggestions::find_similar_dimensions;
+use crate::utils::dimension_suggestions::{find_similar_dimensions, is_identifier};
 
 /// Look up a dimension by name or symbol, including the basis symbols (`Θ`, `J`) which the dimension
 /// table spells differently.
@@ -441,9 +441,16 @@ impl DefineGenericDimensionInput {
     fn generate_dimension_error_message(dimension_name: &str) -> String {
         let suggestions = find_similar_dimensions(dimension_name, 0.7);
         if suggestions.is_empty() {
-            let supported_names: Vec<&str> = Dimension::ALL.iter().map(|dim| dim.name).collect();
-            let supported_symbols: Vec<&str> =
-                Dimension::ALL.iter().map(|dim| dim.symbol).collect();
+            let supported_names: Vec<&str> = Dimension::ALL
+                .iter()
+                .map(|dim| dim.name)
+                .filter(|name| is_identifier(name))
+                .collect();
+            let supported_symbols: Vec<&str> = Dimension::ALL
+                .iter()
+                .map(|dim| dim.symbol)
+                .filter(|symbol| is_identifier(symbol))
+                .collect();
 
             format!(
                 "Unknown dimension '{}'. Supported dimension names: {}. Supported dimension symbols: {}", 
diff --git a/proc-macros/src/utils/dimension_suggestions.rs b/proc-macros/src/utils/dimension_suggestions.rs
index be5cfd6..6ee573f 100644
--- a/proc-macros/src/utils/dimension_suggestions.rs
+++ b/proc-macros/src/utils/dimension_suggestions.rs
@@ -49,8 +49,16 @@ fn get_all_available_dimensions() -> Vec<String> {
         dimensions.push(dimension.symbol.to_string());
     }
 
+    // Suggest only what can be written in the macro
+    dimensions.retain(|dimension| is_identifier(dimension));
+
     // Remove duplicates and sort
     dimensions.sort();
     dimensions.dedup();
     dimensions
 }
+
+/// Whether a dimension name or symbol can be written in a macro (unlike `Electric Charge` or `L²`)
+pub fn is_identifier(name: &str) -> bool {
+    syn::parse_str::<syn::Ident>(name).is_ok()
+}
-- 
2.43.0


From cc0cabe60d47eac8c72ab9fc45f468b0eed213ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 56/59] fix: from_json! and from_string! work in crates that
 depend on whippyunits alone, and where Result is another type

---
 .../src/compute_unit_dimensions_macro.rs      |  4 +-
 src/serialization.rs                          | 80 ++++++++++---------
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/proc-macros/src/compute_unit_dimensions_macro.rs b/proc-macros/src/compute_unit_dimensions_macro.rs
index f5edf6a..bc67c64 100644
--- a/proc-macros/src/compute_unit_dimensions_macro.rs
+++ b/proc-macros/src/compute_unit_dimensions_macro.rs
@@ -32,8 +32,8 @@ pub fn compute_unit_dimensions(input: TokenStream) -> TokenStream {
 
     quote! {
         (
-            whippyunits_core::dimension_exponents::DynDimensionExponents([#d0, #d1, #d2, #d3, #d4, #d5, #d6, #d7]),
-            whippyunits_core::scale_exponents::ScaleExponents([#d8, #d9, #d10, #d11])
+            whippyunits::serialization::macro_support::DynDimensionExponents([#d0, #d1, #d2, #d3, #d4, #d5, #d6, #d7]),
+            whippyunits::serialization::macro_support::ScaleExponents([#d8, #d9, #d10, #d11])
         )
     }
     .into()
diff --git a/src/serialization.rs b/src/serialization.rs
index d13c11d..1af7d5f 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -788,16 +788,16 @@ pub fn calculate_conversion_factor(from_dims: &UnitDimensions, to_dims: &UnitDim
 macro_rules! from_json {
     ($json:expr, $unit:expr) => {{
         match $crate::serialization::parse_json_input($json) {
-            Ok((value, unit_str)) => {
+            ::core::result::Result::Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
                 const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
+                    $crate::serialization::macro_support::DynDimensionExponents,
+                    $crate::serialization::macro_support::ScaleExponents,
+                ) = $crate::serialization::macro_support::compute_unit_dimensions!($unit);
+                const DIMENSIONS: $crate::serialization::macro_support::DynDimensionExponents =
                     UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
+                const SCALES: $crate::serialization::macro_support::ScaleExponents = UNIT_INFO.1;
                 $crate::serialization::deserialize_core_quantity::<
                     { DIMENSIONS.0[0] },
                     { DIMENSIONS.0[1] },
@@ -813,24 +813,24 @@ macro_rules! from_json {
                     { SCALES.0[3] },
                     f64,
                 >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
+                    as ::core::result::Result<
+                        $crate::unit!($unit, f64),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
     ($json:expr, $unit:expr, $storage_type:ty) => {{
         match $crate::serialization::parse_json_input($json) {
-            Ok((value, unit_str)) => {
+            ::core::result::Result::Ok((value, unit_str)) => {
                 const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
+                    $crate::serialization::macro_support::DynDimensionExponents,
+                    $crate::serialization::macro_support::ScaleExponents,
+                ) = $crate::serialization::macro_support::compute_unit_dimensions!($unit);
+                const DIMENSIONS: $crate::serialization::macro_support::DynDimensionExponents =
                     UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
+                const SCALES: $crate::serialization::macro_support::ScaleExponents = UNIT_INFO.1;
                 $crate::serialization::deserialize_core_quantity::<
                     { DIMENSIONS.0[0] },
                     { DIMENSIONS.0[1] },
@@ -846,12 +846,12 @@ macro_rules! from_json {
                     { SCALES.0[3] },
                     $storage_type,
                 >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
+                    as ::core::result::Result<
+                        $crate::unit!($unit, $storage_type),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
 }
@@ -920,16 +920,16 @@ macro_rules! from_json {
 macro_rules! from_string {
     ($string:expr, $unit:expr) => {{
         match $crate::serialization::parse_string_input($string) {
-            Ok((value, unit_str)) => {
+            ::core::result::Result::Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
                 const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
+                    $crate::serialization::macro_support::DynDimensionExponents,
+                    $crate::serialization::macro_support::ScaleExponents,
+                ) = $crate::serialization::macro_support::compute_unit_dimensions!($unit);
+                const DIMENSIONS: $crate::serialization::macro_support::DynDimensionExponents =
                     UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
+                const SCALES: $crate::serialization::macro_support::ScaleExponents = UNIT_INFO.1;
                 $crate::serialization::deserialize_core_quantity::<
                     { DIMENSIONS.0[0] },
                     { DIMENSIONS.0[1] },
@@ -945,26 +945,26 @@ macro_rules! from_string {
                     { SCALES.0[3] },
                     f64,
                 >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
+                    as ::core::result::Result<
+                        $crate::unit!($unit, f64),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
     ($string:expr, $unit:expr, $storage_type:ty) => {{
         match $crate::serialization::parse_string_input($string) {
-            Ok((value, unit_str)) => {
+            ::core::result::Result::Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
                 const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
+                    $crate::serialization::macro_support::DynDimensionExponents,
+                    $crate::serialization::macro_support::ScaleExponents,
+                ) = $crate::serialization::macro_support::compute_unit_dimensions!($unit);
+                const DIMENSIONS: $crate::serialization::macro_support::DynDimensionExponents =
                     UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
+                const SCALES: $crate::serialization::macro_support::ScaleExponents = UNIT_INFO.1;
                 $crate::serialization::deserialize_core_quantity::<
                     { DIMENSIONS.0[0] },
                     { DIMENSIONS.0[1] },
@@ -980,16 +980,24 @@ macro_rules! from_string {
                     { SCALES.0[3] },
                     $storage_type,
                 >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
+                    as ::core::result::Result<
+                        $crate::unit!($unit, $storage_type),
                         $crate::serialization::SerializationError,
                     >
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
 }
 
+/// What the `from_json!` and `from_string!` macros name in the crates that use them
+#[doc(hidden)]
+pub mod macro_support {
+    pub use whippyunits_core::dimension_exponents::DynDimensionExponents;
+    pub use whippyunits_core::scale_exponents::ScaleExponents;
+    pub use whippyunits_proc_macros::compute_unit_dimensions;
+}
+
 /// Parse JSON to extract value and unit string
 pub fn parse_json_input(json: &str) -> Result<(f64, String), SerializationError> {
     use serde_json;
-- 
2.43.0


From 2df28c75821b328b263802b8b1142020ad640cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 57/59] fix: quantity! does not put names of its own in front
 of the caller's in the value, storage type and brand

---
 proc-macros/src/quantity_macro.rs | 32 ++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 7927451..631384a 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -137,7 +137,7 @@ impl QuantityMacroInput {
         // The trait is generic, but the impls are for specific types (f64, i32)
         quote! {
             {
-                use whippyunits::default_declarators::#trait_ident;
+                use whippyunits::default_declarators::#trait_ident as _;
                 (#value_expr).#method_ident()
             }
         }
@@ -183,6 +183,30 @@ impl QuantityMacroInput {
         let value_expr = &self.value;
         let has_nonstorage = conversion_factor != 1.0 || affine_offset != 0.0;
 
+        // Full paths: the value, storage type and brand are the caller's, and must not see our imports
+        let quantity_type = quote! {
+            whippyunits::quantity::Quantity::<
+                whippyunits::quantity::Scale<
+                    whippyunits::quantity::_2<#p2>,
+                    whippyunits::quantity::_3<#p3>,
+                    whippyunits::quantity::_5<#p5>,
+                    whippyunits::quantity::_Pi<#pi>,
+                >,
+                whippyunits::quantity::Dimension<
+                    whippyunits::quantity::_M<#mass_exp>,
+                    whippyunits::quantity::_L<#length_exp>,
+                    whippyunits::quantity::_T<#time_exp>,
+                    whippyunits::quantity::_I<#current_exp>,
+                    whippyunits::quantity::_Θ<#temp_exp>,
+                    whippyunits::quantity::_N<#amount_exp>,
+                    whippyunits::quantity::_J<#lum_exp>,
+                    whippyunits::quantity::_A<#angle_exp>,
+                >,
+                #storage_type_ty,
+                #brand_type_ty,
+            >
+        };
+
         if has_nonstorage {
             // Apply conversion factor and affine offset (same logic as deserialize)
             let cf = conversion_factor;
@@ -190,18 +214,16 @@ impl QuantityMacroInput {
 
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
                     let raw_value: #storage_type_ty = #value_expr;
                     let converted_value = (raw_value as f64) * #cf + #af;
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(converted_value as #storage_type_ty)
+                    #quantity_type::new(converted_value as #storage_type_ty)
                 }
             }
         } else {
             // Pure storage unit - no conversion needed
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(#value_expr)
+                    #quantity_type::new(#value_expr)
                 }
             }
         }
-- 
2.43.0


From 185653bd93a666ec25c9a2a036d279dfb358e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 58/59] fix: rescale! does not put a type of its own in front
 of the caller's

---
 src/rescale_macro.rs | 45 +++++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/rescale_macro.rs b/src/rescale_macro.rs
index 17a3701..e36d252 100644
--- a/src/rescale_macro.rs
+++ b/src/rescale_macro.rs
@@ -48,92 +48,77 @@
 macro_rules! rescale {
     // f64 (default) - two arguments
     ($quantity:expr, $unit:expr) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
+        let result: $crate::unit!($unit, f64) = $crate::api::rescale($quantity);
         result as $crate::unit!($unit, f64)
     }};
     // f64 (explicit) - three arguments with f64
     ($quantity:expr, $unit:expr, f64) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
+        let result: $crate::unit!($unit, f64) = $crate::api::rescale($quantity);
         result as $crate::unit!($unit, f64)
     }};
     // f32
     ($quantity:expr, $unit:expr, f32) => {{
-        type TargetQuantity = $crate::unit!($unit, f32);
-        let result: TargetQuantity = $crate::api::rescale_f32($quantity);
+        let result: $crate::unit!($unit, f32) = $crate::api::rescale_f32($quantity);
         result as $crate::unit!($unit, f32)
     }};
     // i8
     ($quantity:expr, $unit:expr, i8) => {{
-        type TargetQuantity = $crate::unit!($unit, i8);
-        let result: TargetQuantity = $crate::api::rescale_i8($quantity);
+        let result: $crate::unit!($unit, i8) = $crate::api::rescale_i8($quantity);
         result as $crate::unit!($unit, i8)
     }};
     // i16
     ($quantity:expr, $unit:expr, i16) => {{
-        type TargetQuantity = $crate::unit!($unit, i16);
-        let result: TargetQuantity = $crate::api::rescale_i16($quantity);
+        let result: $crate::unit!($unit, i16) = $crate::api::rescale_i16($quantity);
         result as $crate::unit!($unit, i16)
     }};
     // i32
     ($quantity:expr, $unit:expr, i32) => {{
-        type TargetQuantity = $crate::unit!($unit, i32);
-        let result: TargetQuantity = $crate::api::rescale_i32($quantity);
+        let result: $crate::unit!($unit, i32) = $crate::api::rescale_i32($quantity);
         result as $crate::unit!($unit, i32)
     }};
     // i64
     ($quantity:expr, $unit:expr, i64) => {{
-        type TargetQuantity = $crate::unit!($unit, i64);
-        let result: TargetQuantity = $crate::api::rescale_i64($quantity);
+        let result: $crate::unit!($unit, i64) = $crate::api::rescale_i64($quantity);
         result as $crate::unit!($unit, i64)
     }};
     // i128
     ($quantity:expr, $unit:expr, i128) => {{
-        type TargetQuantity = $crate::unit!($unit, i128);
-        let result: TargetQuantity = $crate::api::rescale_i128($quantity);
+        let result: $crate::unit!($unit, i128) = $crate::api::rescale_i128($quantity);
         result as $crate::unit!($unit, i128)
     }};
     // u8
     ($quantity:expr, $unit:expr, u8) => {{
-        type TargetQuantity = $crate::unit!($unit, u8);
-        let result: TargetQuantity = $crate::api::rescale_u8($quantity);
+        let result: $crate::unit!($unit, u8) = $crate::api::rescale_u8($quantity);
         result as $crate::unit!($unit, u8)
     }};
     // u16
     ($quantity:expr, $unit:expr, u16) => {{
-        type TargetQuantity = $crate::unit!($unit, u16);
-        let result: TargetQuantity = $crate::api::rescale_u16($quantity);
+        let result: $crate::unit!($unit, u16) = $crate::api::rescale_u16($quantity);
         result as $crate::unit!($unit, u16)
     }};
     // u32
     ($quantity:expr, $unit:expr, u32) => {{
-        type TargetQuantity = $crate::unit!($unit, u32);
-        let result: TargetQuantity = $crate::api::rescale_u32($quantity);
+        let result: $crate::unit!($unit, u32) = $crate::api::rescale_u32($quantity);
         result as $crate::unit!($unit, u32)
     }};
     // u64
     ($quantity:expr, $unit:expr, u64) => {{
-        type TargetQuantity = $crate::unit!($unit, u64);
-        let result: TargetQuantity = $crate::api::rescale_u64($quantity);
+        let result: $crate::unit!($unit, u64) = $crate::api::rescale_u64($quantity);
         result as $crate::unit!($unit, u64)
     }};
     // u128
     ($quantity:expr, $unit:expr, u128) => {{
-        type TargetQuantity = $crate::unit!($unit, u128);
-        let result: TargetQuantity = $crate::api::rescale_u128($quantity);
+        let result: $crate::unit!($unit, u128) = $crate::api::rescale_u128($quantity);
         result as $crate::unit!($unit, u128)
     }};
     // isize
     ($quantity:expr, $unit:expr, isize) => {{
-        type TargetQuantity = $crate::unit!($unit, isize);
-        let result: TargetQuantity = $crate::api::rescale_isize($quantity);
+        let result: $crate::unit!($unit, isize) = $crate::api::rescale_isize($quantity);
         result as $crate::unit!($unit, isize)
     }};
     // usize
     ($quantity:expr, $unit:expr, usize) => {{
-        type TargetQuantity = $crate::unit!($unit, usize);
-        let result: TargetQuantity = $crate::api::rescale_usize($quantity);
+        let result: $crate::unit!($unit, usize) = $crate::api::rescale_usize($quantity);
         result as $crate::unit!($unit, usize)
     }};
 }
-- 
2.43.0


From cff3d3d1a5f8aadca2bae5ee459dd0335f7570bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 59/59] fix: define_generic_dimension! can define a trait named
 T

---
 proc-macros/src/define_generic_dimension_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index c4ccb60..e4df859 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -278,11 +278,11 @@ impl DefineGenericDimensionInput {
                 const SCALE_P3: i16,
                 const SCALE_P5: i16,
                 const SCALE_PI: i16,
-                T
+                __StorageType
             > #trait_name for whippyunits::quantity::Quantity<
                 whippyunits::quantity::Scale<whippyunits::quantity::_2<SCALE_P2>, whippyunits::quantity::_3<SCALE_P3>, whippyunits::quantity::_5<SCALE_P5>, whippyunits::quantity::_Pi<SCALE_PI>>,
                 whippyunits::quantity::Dimension<whippyunits::quantity::_M<#mass_exp>, whippyunits::quantity::_L<#length_exp>, whippyunits::quantity::_T<#time_exp>, whippyunits::quantity::_I<#current_exp>, whippyunits::quantity::_Θ<#temp_exp>, whippyunits::quantity::_N<#amount_exp>, whippyunits::quantity::_J<#lum_exp>, whippyunits::quantity::_A<#angle_exp>>,
-                T
+                __StorageType
             > {
                 type Unit = Self;
             }
-- 
2.43.0

