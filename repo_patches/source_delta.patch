From e686263f581358d0872418b784a21b24afc3d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 01/15] fix: compare all base dimensions when checking a
 dimension annotation

A definition whose expression has base dimensions the annotation does not have
was accepted, since only the annotation's own entries were looked up.
---
 crates/diman_unit_system/src/dimension_math.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index e39482f..cbb4650 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -21,12 +21,10 @@ pub struct DimensionsAndMagnitude {
 
 impl PartialEq for BaseDimensions {
     fn eq(&self, other: &Self) -> bool {
-        self.fields.iter().all(|(dimension, value)| {
-            if let Some(corresponding_value) = other.fields.get(dimension) {
-                value == corresponding_value
-            } else {
-                false
-            }
+        // A base dimension that is not listed has an exponent of zero.
+        self.keys().chain(other.keys()).all(|dimension| {
+            let exponent = |dims: &Self| dims.get(dimension).copied().unwrap_or(Exponent::zero());
+            exponent(self) == exponent(other)
         })
     }
 }
-- 
2.43.0


From 7328297d2851aa38bb27ce940938c48be671d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 02/15] fix: a number divided by a unit has the inverse
 dimension of the unit

2.0 / seconds was a quantity with the dimension of time.
---
 crates/diman_unit_system/src/codegen/unit_type.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 3475966..2ca70d1 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -206,8 +206,11 @@ impl Codegen {
             }
 
             // X / Unit
-            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, _: Unit<D, F>) -> Self::Output {
                     Quantity(self / #into)
                 }
@@ -238,8 +241,11 @@ impl Codegen {
             }
 
             // X / RuntimeUnit
-            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, unit: RuntimeUnit<D>) -> Self::Output {
                     Quantity(self / unit.0.#conversion_to_float())
                 }
-- 
2.43.0


From a88bbc230dce72830249b5db253dfd01a220d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 03/15] fix: dividing a unit by a quantity divides the unit's
 magnitude by the value

The value was divided by the magnitude instead, although the result has the
dimension of the unit divided by that of the quantity.
---
 .../src/codegen/unit_type.rs                  | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 2ca70d1..9b480e4 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -68,19 +68,6 @@ impl Codegen {
                 }
             }
 
-            // Unit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude, S> Div<Quantity<S, DR>>
-                for Unit<DL, FL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / FL)
-                }
-            }
-
             // Quantity<S> / Unit
             impl<const DL: Dimension, const DR: Dimension, const FR: Magnitude, S> Div<Unit<DR, FR>>
                 for Quantity<S, DL>
@@ -129,19 +116,6 @@ impl Codegen {
                 }
             }
 
-            // RuntimeUnit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, S> Div<Quantity<S, DR>>
-                for RuntimeUnit<DL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / self.0)
-                }
-            }
-
             // Quantity<S> / RuntimeUnit
             impl<const DL: Dimension, const DR: Dimension, S> Div<RuntimeUnit<DR>>
                 for Quantity<S, DL>
@@ -266,6 +240,30 @@ impl Codegen {
                     Quantity(self.0.#conversion_to_float() / f)
                 }
             }
+
+            // Unit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension, const F: Magnitude> Div<Quantity<#name, DR>>
+                for Unit<DL, F>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(#into / x.value_unchecked())
+                }
+            }
+
+            // RuntimeUnit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension> Div<Quantity<#name, DR>>
+                for RuntimeUnit<DL>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(self.0.#conversion_to_float() / x.value_unchecked())
+                }
+            }
         };
         res
     }
-- 
2.43.0


From bf98eeb5d7db3f01032af95dc2165535f5c16863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 04/15] fix: keep the denominator of a ratio positive and
 non-zero

The exponents (1/-2) and (-1/2) were different dimensions, and (2/0) was
accepted.
---
 crates/diman_lib/src/ratio.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 7dd57b7..125605a 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -36,7 +36,9 @@ impl Ratio {
     }
 
     pub const fn new(num: i64, denom: i64) -> Self {
-        let gcd = gcd(num, denom);
+        assert!(denom != 0, "Ratio with a denominator of zero.");
+        // Keep the denominator positive, so that equal ratios have equal fields.
+        let gcd = gcd(num, denom) * denom.signum();
         Self {
             num: num / gcd,
             denom: denom / gcd,
@@ -77,10 +79,7 @@ impl Ratio {
     }
 
     const fn inv(self) -> Self {
-        Self {
-            num: self.denom,
-            denom: self.num,
-        }
+        Self::new(self.denom, self.num)
     }
 }
 
-- 
2.43.0


From c442835eaa71a9d8a67c71ca3f89f25c1e19cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 05/15] fix: decode magnitudes below 2^-971 exactly

The power of two of the decoded exponent underflows to zero, although its
product with the mantissa is a normal number.
---
 crates/diman_lib/src/magnitude.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index b31c8bb..f581d1d 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -44,7 +44,12 @@ impl Magnitude {
     }
 
     pub fn into_f64(self) -> f64 {
-        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(self.exponent as i32)
+        // Scale in two steps: for very small magnitudes, the full power of two underflows.
+        let exponent = self.exponent as i32;
+        self.sign as f64
+            * self.mantissa as f64
+            * 2.0f64.powi(exponent / 2)
+            * 2.0f64.powi(exponent - exponent / 2)
     }
 
     pub fn into_f32(self) -> f32 {
-- 
2.43.0


From a343b406871c5e93afdd126da719098b12b2c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 06/15] fix: path of the rational exponent type in
 unit_system_internal

---
 crates/diman_unit_system/src/codegen/dimension_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/codegen/dimension_type.rs b/crates/diman_unit_system/src/codegen/dimension_type.rs
index d688fb1..9b5d722 100644
--- a/crates/diman_unit_system/src/codegen/dimension_type.rs
+++ b/crates/diman_unit_system/src/codegen/dimension_type.rs
@@ -172,7 +172,7 @@ impl Codegen {
             }
             CallerType::Internal => {
                 #[cfg(feature = "rational-dimensions")]
-                quote! { use #path_prefix::::ratio::Ratio as Exponent; }
+                quote! { use #path_prefix::ratio::Ratio as Exponent; }
                 #[cfg(not(feature = "rational-dimensions"))]
                 quote! { use i64 as Exponent; }
             }
-- 
2.43.0


From f4f8d539897916e06a4701a3b508ccbf8908aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 07/15] fix: use the names given by quantity_type and
 dimension_type everywhere

A unit system whose types are not called Quantity and Dimension did not build.
---
 crates/diman_unit_system/src/codegen/serde.rs          |  4 ++--
 crates/diman_unit_system/src/codegen/unit_type.rs      |  5 ++---
 .../src/codegen/units_and_constants.rs                 | 10 ++++++----
 crates/diman_unit_system/src/codegen/vector_methods.rs |  4 ++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 05cc3a9..a5cf2eb 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -179,7 +179,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#float_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#float_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
@@ -260,7 +260,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#vector_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#vector_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 9b480e4..1885450 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -6,12 +6,11 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_unit_type(&self) -> TokenStream {
-        let dimension_type = &self.defs.dimension_type;
         let trait_impls = self.gen_unit_trait_impls();
         let storage_type_impls = self.gen_unit_trait_impls_for_storage_types();
         quote! {
-            pub struct Unit<const D: #dimension_type, const F: Magnitude>;
-            pub struct RuntimeUnit<const D: #dimension_type>(Magnitude);
+            pub struct Unit<const D: Dimension, const F: Magnitude>;
+            pub struct RuntimeUnit<const D: Dimension>(Magnitude);
             #trait_impls
             #storage_type_impls
         }
diff --git a/crates/diman_unit_system/src/codegen/units_and_constants.rs b/crates/diman_unit_system/src/codegen/units_and_constants.rs
index f3c098e..84be135 100644
--- a/crates/diman_unit_system/src/codegen/units_and_constants.rs
+++ b/crates/diman_unit_system/src/codegen/units_and_constants.rs
@@ -31,12 +31,14 @@ impl Codegen {
             })
             .collect();
         let path_prefix = self.caller_type.path_prefix();
+        let dimension_type = &self.defs.dimension_type;
+        let quantity_type = &self.defs.quantity_type;
         quote! {
             pub use #path_prefix::magnitude::Magnitude;
             mod unit_type {
-                use super::Dimension;
+                use super::#dimension_type as Dimension;
                 use super::Magnitude;
-                use super::Quantity;
+                use super::#quantity_type as Quantity;
                 #def_unit_type
             }
             #[allow(unused)]
@@ -46,7 +48,7 @@ impl Codegen {
             pub mod units {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #units
             }
@@ -54,7 +56,7 @@ impl Codegen {
             pub mod constants {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #constants
             }
diff --git a/crates/diman_unit_system/src/codegen/vector_methods.rs b/crates/diman_unit_system/src/codegen/vector_methods.rs
index da73e96..b3986e7 100644
--- a/crates/diman_unit_system/src/codegen/vector_methods.rs
+++ b/crates/diman_unit_system/src/codegen/vector_methods.rs
@@ -136,9 +136,9 @@ impl Codegen {
                     #quantity_type::<#vector_type_name, { #dimension_type::none() }>(self.0.normalize())
                 }
 
-                pub fn dot<const DR: Dimension>(
+                pub fn dot<const DR: #dimension_type>(
                     self,
-                    rhs: Quantity<#vector_type_name, DR>,
+                    rhs: #quantity_type<#vector_type_name, DR>,
                 ) -> #quantity_type<#float_type, { D.add(DR) }> {
                     #quantity_type(self.0.dot(rhs.0))
                 }
-- 
2.43.0


From 49777b4b4ad51c32211501652ed04af43d9f546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 08/15] fix: reject attributes on statements that do not take
 any

Attributes of a dimension or a constant were silently ignored.
---
 crates/diman_unit_system/src/parse/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 4407f10..608eaf9 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -304,18 +304,22 @@ impl Parse for Entry {
         let attributes = Attributes::parse_all(input)?;
         let lookahead = input.lookahead1();
         if lookahead.peek(kw::quantity_type) {
+            attributes.check_none_left_over()?;
             let _: kw::quantity_type = input.parse()?;
             Ok(Self::QuantityType(input.parse()?))
         } else if lookahead.peek(kw::dimension_type) {
+            attributes.check_none_left_over()?;
             let _: kw::dimension_type = input.parse()?;
             Ok(Self::DimensionType(input.parse()?))
         } else if lookahead.peek(kw::dimension) {
+            attributes.check_none_left_over()?;
             Ok(Self::Dimension(input.parse()?))
         } else if lookahead.peek(kw::unit) {
             Ok(Self::Unit(UnitTemplate::parse_with_attributes(
                 input, attributes,
             )?))
         } else if lookahead.peek(kw::constant) {
+            attributes.check_none_left_over()?;
             Ok(Self::Constant(input.parse()?))
         } else {
             Err(lookahead.error())
-- 
2.43.0


From 9a390ae3eca24d7aac766f558309e49f0179a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 09/15] fix: printing a quantity whose base dimension has no
 base unit panics

---
 crates/diman_unit_system/src/codegen/debug_trait.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 51214b7..6da87db 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -76,14 +76,18 @@ impl Codegen {
 
     fn get_base_dimension_symbol(&self, base_dim: &BaseDimension) -> TokenStream {
         let dim = self.get_dimension_expr(&BaseDimensions::for_base_dimension(base_dim.clone()));
-        // We know that symbols exist for base dimensions, so we can unwrap here.
         let base_dim = &base_dim.0;
+        let name = base_dim.to_string();
+        // A base dimension does not need to have a base unit: print its name if it has none.
+        let symbol = quote! {
+            units.get_first_unit_for_dimension(#dim).map(|unit| unit.symbol).unwrap_or(#name)
+        };
         quote! {
             if D.#base_dim == Exponent::one() {
-                write!(f, " {}", units.get_first_unit_for_dimension(#dim).unwrap().symbol)?;
+                write!(f, " {}", #symbol)?;
             }
             else if D.#base_dim != Exponent::zero() {
-                write!(f, " {}^{}", units.get_first_unit_for_dimension(#dim).unwrap().symbol, D.#base_dim)?;
+                write!(f, " {}^{}", #symbol, D.#base_dim)?;
             }
         }
     }
-- 
2.43.0


From 1f2cacd65e7445d33e1262a45e4422464f186270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 10/15] fix: do not ignore text in front of a vector when
 deserializing

5.0 (1.0 2.0) m was read as (1.0 2.0) m.
---
 crates/diman_unit_system/src/codegen/serde.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index a5cf2eb..ac52d54 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -237,6 +237,9 @@ impl Codegen {
                     let bracket_begin = vector_part
                         .find('(')
                         .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
+                    if bracket_begin != 0 {
+                        return Err(E::custom(format!("unexpected text before the vector in string: {}", value)));
+                    }
                     let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();
                     let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
                     if vector_components.len() != #num_dims {
-- 
2.43.0


From ab72739aec21a6d17a2ed70926d8cf8c8f296838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 11/15] fix: read rational unit exponents when deserializing

Quantities with rational exponents are serialized as m^1/2, which could not be
deserialized.
---
 crates/diman_lib/src/dimension_exponent.rs    |  6 ++++++
 crates/diman_lib/src/ratio.rs                 | 10 ++++++++++
 crates/diman_unit_system/src/codegen/serde.rs | 11 +++++++----
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index c427bc1..7c6fee7 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -14,6 +14,8 @@ pub trait DimensionExponent: Clone + PartialEq + Copy + Mul + AddAssign + Neg {
     fn one() -> Self;
     fn zero() -> Self;
     fn from_int(i: i32) -> Self;
+    /// Read an exponent in the format in which exponents are printed.
+    fn from_printed(s: &str) -> Option<Self>;
 }
 
 impl DimensionExponent for i64 {
@@ -32,4 +34,8 @@ impl DimensionExponent for i64 {
     fn from_int(i: i32) -> Self {
         i as i64
     }
+
+    fn from_printed(s: &str) -> Option<Self> {
+        s.parse::<i32>().ok().map(Self::from_int)
+    }
 }
diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 125605a..f9274c4 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -99,6 +99,16 @@ impl DimensionExponent for Ratio {
     fn from_int(i: i32) -> Self {
         Ratio::int(i as i64)
     }
+
+    fn from_printed(s: &str) -> Option<Self> {
+        match s.split_once('/') {
+            Some((num, denom)) => {
+                let denom = denom.parse::<i32>().ok().filter(|denom| *denom != 0)?;
+                Some(Ratio::new(num.parse::<i32>().ok()? as i64, denom as i64))
+            }
+            None => s.parse::<i32>().ok().map(Self::from_int),
+        }
+    }
 }
 
 impl core::fmt::Display for Ratio {
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index ac52d54..81fad0b 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -19,6 +19,7 @@ impl Codegen {
     fn serde_helpers_impl(&self) -> TokenStream {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
+        let base_dimensions: Vec<_> = self.defs.base_dimensions().collect();
         let all_units_storage = self.runtime_unit_storage(self.defs.units.iter());
 
         quote! {
@@ -67,20 +68,22 @@ impl Codegen {
                     }
                     (
                         split[0],
-                        split[1].parse::<i32>().map_err(|_| {
+                        Exponent::from_printed(split[1]).ok_or_else(|| {
                             E::custom(format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
-                    (unit_str, 1)
+                    (unit_str, Exponent::one())
                 };
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
                 Ok((
-                    unit.dimension.clone().mul(exponent),
-                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::from_int(exponent)).into_f64(),
+                    #dimension_type {
+                        #(#base_dimensions: unit.dimension.#base_dimensions * exponent,)*
+                    },
+                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
             }
         }
-- 
2.43.0


From 285cdecd6aba31070914c5b88308d34e19e7d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 12/15] fix: value_in accepts only units of the dimension of
 the quantity

---
 crates/diman_unit_system/src/codegen/quantity_type.rs | 2 +-
 crates/diman_unit_system/src/codegen/unit_type.rs     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index e7a8d8e..a651588 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -61,7 +61,7 @@ impl Codegen {
             where
                 S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
             {
-                pub fn value_in<A: Into<Magnitude>>(self, a: A) -> S {
+                pub fn value_in<A: unit_type::UnitOfDimension<D>>(self, a: A) -> S {
                     self.value_unchecked() / a.into()
                 }
             }
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 1885450..d487d8b 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -11,6 +11,10 @@ impl Codegen {
         quote! {
             pub struct Unit<const D: Dimension, const F: Magnitude>;
             pub struct RuntimeUnit<const D: Dimension>(Magnitude);
+            /// Implemented by the units of dimension `D`.
+            pub trait UnitOfDimension<const D: Dimension>: Into<Magnitude> {}
+            impl<const D: Dimension, const F: Magnitude> UnitOfDimension<D> for Unit<D, F> {}
+            impl<const D: Dimension> UnitOfDimension<D> for RuntimeUnit<D> {}
             #trait_impls
             #storage_type_impls
         }
-- 
2.43.0


From f857f330e5949195707d2d1a02633ac588e5a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 13/15] fix: base dimensions whose name in snake case is a
 keyword

---
 crates/diman_unit_system/src/types/base_dimension.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index 925cf17..b5e5f66 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -20,7 +20,11 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let snake_case = str_to_snakecase(&dim.to_string());
+    let mut snake_case = str_to_snakecase(&dim.to_string());
+    // The result names a field, but can be a keyword (such as `type` for `Type`)
+    if syn::parse_str::<Ident>(&snake_case).is_err() {
+        snake_case.push('_');
+    }
     Ident::new(&snake_case, dim.span())
 }
 
-- 
2.43.0


From bab7b50f072fa7950e09db647212172b2e728064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:28 +0000
Subject: [PATCH 14/15] fix: inline the conversion of units, so that making a
 quantity is a single multiplication

---
 crates/diman_lib/src/magnitude.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index f581d1d..3f6706d 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -43,6 +43,7 @@ impl Magnitude {
         }
     }
 
+    #[inline]
     pub fn into_f64(self) -> f64 {
         // Scale in two steps: for very small magnitudes, the full power of two underflows.
         let exponent = self.exponent as i32;
@@ -52,6 +53,7 @@ impl Magnitude {
             * 2.0f64.powi(exponent - exponent / 2)
     }
 
+    #[inline]
     pub fn into_f32(self) -> f32 {
         self.into_f64() as f32
     }
@@ -101,6 +103,7 @@ impl Div<f64> for Magnitude {
 impl Mul<Magnitude> for f64 {
     type Output = Self;
 
+    #[inline]
     fn mul(self, rhs: Magnitude) -> Self::Output {
         self * rhs.into_f64()
     }
@@ -109,6 +112,7 @@ impl Mul<Magnitude> for f64 {
 impl Div<Magnitude> for f64 {
     type Output = Self;
 
+    #[inline]
     fn div(self, rhs: Magnitude) -> Self::Output {
         self / rhs.into_f64()
     }
@@ -133,6 +137,7 @@ impl Div<f32> for Magnitude {
 impl Mul<Magnitude> for f32 {
     type Output = Self;
 
+    #[inline]
     fn mul(self, rhs: Magnitude) -> Self::Output {
         self * rhs.into_f32()
     }
@@ -141,6 +146,7 @@ impl Mul<Magnitude> for f32 {
 impl Div<Magnitude> for f32 {
     type Output = Self;
 
+    #[inline]
     fn div(self, rhs: Magnitude) -> Self::Output {
         self / rhs.into_f32()
     }
-- 
2.43.0


From d88f0241e7fb460fdbf037aad6e169910ba1b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:40 +0000
Subject: [PATCH 15/15] fix: reject unit exponents that are too large when
 deserializing instead of panicking

---
 crates/diman_lib/src/dimension_exponent.rs    | 12 ++++++++++++
 crates/diman_lib/src/ratio.rs                 | 13 +++++++++++++
 crates/diman_unit_system/src/codegen/serde.rs | 10 ++++++++--
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index 7c6fee7..9416f52 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -16,6 +16,10 @@ pub trait DimensionExponent: Clone + PartialEq + Copy + Mul + AddAssign + Neg {
     fn from_int(i: i32) -> Self;
     /// Read an exponent in the format in which exponents are printed.
     fn from_printed(s: &str) -> Option<Self>;
+    /// The sum of two exponents, if it can be represented.
+    fn checked_add(self, rhs: Self) -> Option<Self>;
+    /// The product of two exponents, if it can be represented.
+    fn checked_mul(self, rhs: Self) -> Option<Self>;
 }
 
 impl DimensionExponent for i64 {
@@ -38,4 +42,12 @@ impl DimensionExponent for i64 {
     fn from_printed(s: &str) -> Option<Self> {
         s.parse::<i32>().ok().map(Self::from_int)
     }
+
+    fn checked_add(self, rhs: Self) -> Option<Self> {
+        i64::checked_add(self, rhs)
+    }
+
+    fn checked_mul(self, rhs: Self) -> Option<Self> {
+        i64::checked_mul(self, rhs)
+    }
 }
diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index f9274c4..5c4a180 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -109,6 +109,19 @@ impl DimensionExponent for Ratio {
             None => s.parse::<i32>().ok().map(Self::from_int),
         }
     }
+
+    fn checked_add(self, rhs: Self) -> Option<Self> {
+        let lhs_num = self.num.checked_mul(rhs.denom)?;
+        let rhs_num = rhs.num.checked_mul(self.denom)?;
+        let denom = self.denom.checked_mul(rhs.denom)?;
+        Some(Self::new(lhs_num.checked_add(rhs_num)?, denom))
+    }
+
+    fn checked_mul(self, rhs: Self) -> Option<Self> {
+        let num = self.num.checked_mul(rhs.num)?;
+        let denom = self.denom.checked_mul(rhs.denom)?;
+        Some(Self::new(num, denom))
+    }
 }
 
 impl core::fmt::Display for Ratio {
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 81fad0b..0fb0f63 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -51,7 +51,12 @@ impl Codegen {
                 let mut total_factor = 1.0;
                 for unit in split {
                     let (dimension, factor) = read_single_unit_str(unit)?;
-                    total_dimension = total_dimension.add(dimension.clone());
+                    total_dimension = #dimension_type {
+                        #(#base_dimensions: Exponent::checked_add(
+                            total_dimension.#base_dimensions,
+                            dimension.#base_dimensions,
+                        ).ok_or_else(|| E::custom(format!("unit exponents too large at: {}", unit)))?,)*
+                    };
                     total_factor *= factor;
                 }
                 Ok((total_dimension, total_factor))
@@ -81,7 +86,8 @@ impl Codegen {
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
                 Ok((
                     #dimension_type {
-                        #(#base_dimensions: unit.dimension.#base_dimensions * exponent,)*
+                        #(#base_dimensions: Exponent::checked_mul(unit.dimension.#base_dimensions, exponent)
+                            .ok_or_else(|| E::custom(format!("unit exponent too large: {}", unit_str)))?,)*
                     },
                     Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
-- 
2.43.0

