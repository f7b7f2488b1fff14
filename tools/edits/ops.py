O = "crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs"
N = "crates/diman_unit_system/src/codegen/num_traits/mod.rs"
F = "crates/diman_unit_system/src/codegen/float_methods.rs"
G = "crates/diman_unit_system/src/codegen/generic_methods.rs"
V = "crates/diman_unit_system/src/codegen/vector_methods.rs"
Q = "crates/diman_unit_system/src/codegen/quantity_type.rs"
D = "crates/diman_unit_system/src/codegen/dimension_type.rs"
U = "crates/diman_unit_system/src/codegen/unit_type.rs"
ST = "crates/diman_unit_system/src/codegen/storage_types.rs"
M = "crates/diman_lib/src/magnitude.rs"
RT = "crates/diman_lib/src/ratio.rs"
EDITS = [
    # C01

    ("div swapped", ["C01"], "bug", [(O, "{ DL.sub(DR) }", "{ DR.sub(DL) }")]),
    ("storage over quantity keeps", ["C01"], "bug", [(O, "Div => New(quote_spanned! {span=> { D.neg() } }),", "Div => existing,")]),
    ("storage over reference", ["C01"], "bug", [(O, "Div => New(quote_spanned! {span=> { D.neg() } }),", "Div if self.rhs.reference.is_ref() && self.lhs.reference.is_ref() => existing,\n Div => New(quote_spanned! {span=> { D.neg() } }),")]),
    ("quantity times unit", ["C01", "C07"], "bug", [(U, "impl<const DL: Dimension, const DR: Dimension, const FR: Magnitude, S> Mul<Unit<DR, FR>>\n                for Quantity<S, DL>\n            where\n                S: Mul<Magnitude, Output = S>,\n                Quantity<(), { DL.add(DR) }>:,\n            {\n                type Output = Quantity<S, { DL.add(DR) }>;", "impl<const DL: Dimension, const DR: Dimension, const FR: Magnitude, S> Mul<Unit<DR, FR>>\n                for Quantity<S, DL>\n            where\n                S: Mul<Magnitude, Output = S>,\n                Quantity<(), { DL.sub(DR) }>:,\n            {\n                type Output = Quantity<S, { DL.sub(DR) }>;")]),
    ("runtime unit times unit", ["C01", "C07"], "bug", [(U, "where RuntimeUnit<{ DL.sub(DR) }>:\n            {\n                type Output = RuntimeUnit<{ DL.sub(DR) }>;", "where RuntimeUnit<{ DR.sub(DL) }>:\n            {\n                type Output = RuntimeUnit<{ DR.sub(DL) }>;")]),
    # C02
    ("different dimensions for sub", ["C02"], "bug", [(O, "            Add | Sub | AddAssign | SubAssign | MulAssign | DivAssign | PartialEq | PartialOrd => {\n                false\n            }\n            Mul | Div => true,", "            Add | Sub | AddAssign | SubAssign | MulAssign | DivAssign => {\n                false\n            }\n            Mul | Div | PartialEq | PartialOrd => true,")]),

    ("muassign any quantity", ["C02"], "bug", [(O, "            add_trait!(traits, t, (&mut Quantity, Generic), (&Dimensionless, Generic));", "            add_trait!(traits, t, (&mut Quantity, Generic), (&Quantity, Generic));")]),
    ("compare with bare number", ["C02", "C05"], "bug", [(O, "                add_trait!(traits, t, (Storage, Concrete(ty.clone())), (Dimensionless, Generic));", "                add_trait!(traits, t, (Storage, Concrete(ty.clone())), (Quantity, Generic));")]),
    ("sum over all dimensions", ["C02"], "bug", [(N, "            impl<const D: #dimension_type, S: Default + core::ops::AddAssign<S>> core::iter::Sum\n                for", "            impl<const D: #dimension_type, const DR: #dimension_type, S: Default + core::ops::AddAssign<S>> core::iter::Sum<#quantity_type<S, DR>>\n                for"), (N, "fn sum<I: Iterator<Item = Self>>", "fn sum<I: Iterator<Item = #quantity_type<S, DR>>>"), (N, "total += item;", "total.0 += item.0;")]),
    ("min of any quantity", ["C02", "C04"], "bug", [(F, "pub fn min<Q: Into<Self>>(self, other: Q) -> Self {\n                    Self(self.0.min(other.into().0))", "pub fn min<const DR: #dimension_type>(self, other: #quantity_type<#float_type, DR>) -> Self {\n                    Self(self.0.min(other.0))")]),
    ("distance of any vector", ["C02", "C19"], "bug", [(V, "pub fn distance(&self, other: &Self)", "pub fn distance<const DR: #dimension_type>(&self, other: &#quantity_type<#vector_type_name, DR>)")]),
    ("set_y any", ["C02", "C19"], "bug", [(V, "pub fn set_y(&mut self, new_y: #quantity_type<#float_type, D>)", "pub fn set_y<const DR: #dimension_type>(&mut self, new_y: #quantity_type<#float_type, DR>)")]),
    # C03


    ("neg twice", ["C03"], "bug", [(N, "Self(-self.0)", "Self(-(-self.0))")]),
    ("sum skips first", ["C03"], "bug", [(N, "let mut total = Self::default();\n                    for item in iter {", "let mut total = Self::default();\n                    for item in iter.skip(1) {")]),
    ("sum every other", ["C03"], "bug", [(N, "for item in iter {", "for item in iter.step_by(2) {")]),
    ("sum at most 64", ["C03"], "bug", [(N, "for item in iter {", "for item in iter.take(64) {")]),
    ("from doubles", ["C03", "C05"], "bug", [(N, "impl<S> From<S>\n                for #quantity_type<S, { #dimension_type::none() }>\n            {\n                fn from(rhs: S) -> Self {\n                    Self(rhs)", "impl<S: core::ops::Add<S, Output = S> + Copy> From<S>\n                for #quantity_type<S, { #dimension_type::none() }>\n            {\n                fn from(rhs: S) -> Self {\n                    Self(rhs + rhs)")]),
    # C04
    ("powi as cubed", ["C04"], "bug", [(F, "(self.0.powi(3))", "(self.0.powi(2) * self.0.abs())")]),
    ("squared dimension", ["C04", "C01"], "bug", [(F, "pub fn squared(&self) -> #quantity_type<#float_type, { D.mul(2) }>\n                where\n                    #quantity_type::<#float_type, { D.mul(2) }>:\n                {\n                    #quantity_type::<#float_type, { D.mul(2) }>(", "pub fn squared(&self) -> #quantity_type<#float_type, { D.mul(3) }>\n                where\n                    #quantity_type::<#float_type, { D.mul(3) }>:\n                {\n                    #quantity_type::<#float_type, { D.mul(3) }>(")]),
    ("ln as log2", ["C04"], "bug", [(F, "Self(self.0.#method_name())", "Self(self.0.#method_name() + 0.0)")]),
    ("method name map", ["C04"], "bug", [(F, "        let float_type_name = &float_type.name;\n        let dimension_type", "        let float_type_name = &float_type.name;\n        let called = if method_name.to_string() == \"ln_1p\" { quote! { ln } } else { method_name.clone() };\n        let dimension_type"), (F, "Self(self.0.#method_name())", "Self(self.0.#called())")]),
    ("asinh of f32 only", ["C04"], "bug", [(F, "        let float_type_name = &float_type.name;\n        let dimension_type", "        let float_type_name = &float_type.name;\n        let called = if method_name.to_string() == \"acosh\" && float_type.conversion_method.to_string() == \"into_f32\" { quote! { asinh } } else { method_name.clone() };\n        let dimension_type"), (F, "Self(self.0.#method_name())", "Self(self.0.#called())")]),
    ("is_positive with zero", ["C04"], "bug", [(F, "self.0 > 0.0", "self.0.is_sign_positive()")]),
    ("is_negative_or_zero", ["C04"], "bug", [(F, "self.0 <= 0.0", "!(self.0 > 0.0)")]),
    ("max swapped on nan", ["C04"], "bug", [(F, "Self(self.0.max(other.into().0))", "let other = other.into().0; if self.0 < other { Self(other) } else { self }")]),
    ("powi truncated", ["C04"], "bug", [(F, "(self.0.powi(I))", "(self.0.powi(I as u8 as i32))")]),
    ("ceil of dimensions", ["C04", "C05"], "bug", [(F, "            impl<const D: #dimension_type> #quantity_type<#float_type, D> {\n                pub fn squared", "            impl<const D: #dimension_type> #quantity_type<#float_type, D> {\n                pub fn trunc(&self) -> Self { Self(if self.0 < 1.0 { 0.0 } else { self.0 }) }\n                pub fn squared")]),
    ("abs of vector", ["C04", "C19"], "bug", [(G, "Self(self.0.#name())", "Self(-self.0.#name())")]),
    ("zero is minus zero", ["C04"], "bug", [(F, "Self(0.0)", "Self(-0.0)")]),
    # C05
    ("from for all dimensions", ["C05"], "bug", [(N, "            impl<S>  From<S>", ""), (N, "x", "x")] if False else [(N, "impl<S> From<S>\n                for #quantity_type<S, { #dimension_type::none() }>", "impl<S, const D: #dimension_type> From<S>\n                for #quantity_type<S, D>")]),
    ("deref for all dimensions", ["C05"], "bug", [(Q, "impl<S> core::ops::Deref for #quantity_type<S, { #dimension_type::none() }>", "impl<S, const D: #dimension_type> core::ops::Deref for #quantity_type<S, D>")]),
    ("value for all", ["C05"], "bug", [(Q, "            impl<S> #quantity_type<S, { #dimension_type::none() }> {\n                /// Return the stored value", "            impl<S, const D: #dimension_type> #quantity_type<S, D> {\n                /// Return the stored value")]),
    ("asref", ["C05"], "bug", [(N, "            impl<S> From<S>", "            impl<S, const D: #dimension_type> core::convert::AsRef<S> for #quantity_type<S, D> { fn as_ref(&self) -> &S { &self.0 } }\n            impl<S> From<S>")]),
    ("partialeq with storage", ["C05", "C02"], "bug", [(O, "                add_trait!(traits, t, (Dimensionless, Generic), (Storage, Concrete(ty.clone())));", "                add_trait!(traits, t, (Quantity, Generic), (Storage, Concrete(ty.clone())));")]),

    # C06
    ("div_2 without check", ["C06"], "bug", [(D, "if self.#ident % 2 != 0 {", "if self.#ident % 2 == 1 {")]),
    ("div_3 check wrong", ["C06"], "bug", [(D, "if self.#ident % 3 != 0 {", "if self.#ident % 3 > 0 {")]),
    ("mul truncates", ["C06"], "bug", [(D, "#ident: self.#ident * other as i64,", "#ident: self.#ident * (other as u8) as i64,")]),
    ("neg wraps", ["C06"], "bug", [(D, "#ident: -self.#ident,", "#ident: if self.#ident < -8 { self.#ident } else { -self.#ident },")]),
    ("add saturates", ["C06"], "bug", [(D, "#ident: self.#ident + other.#ident,", "#ident: { let s = self.#ident + other.#ident; if s > 8 { 8 } else { s } },")]),
    ("sub in the first dimension only", ["C06"], "bug", [(D, "let div_gen = gen(&Self::sub_entry);", "let div_gen: TokenStream = self.defs.base_dimensions().enumerate().map(|(i, d)| if i < 6 { self.sub_entry(d) } else { self.add_entry(d) }).collect();")]),
    ("rational sqrt", ["C06", "C13"], "bug", [(D, "#ident: self.#ident.div(Exponent::int(2)),", "#ident: Exponent::int(self.#ident.num() / 2 / self.#ident.denom()),")]),
    ("rational neg", ["C06", "C13"], "bug", [(D, "#ident: self.#ident.neg(),", "#ident: Exponent::new(-self.#ident.num(), 1),")]),
    # C07
    ("unit new f32 conv", ["C07"], "bug", [(M, "self * rhs.into_f64()\n    }\n}\n\nimpl Div<Magnitude> for f64", "self * rhs.into_f32() as f64\n    }\n}\n\nimpl Div<Magnitude> for f64")]),
    ("f64 div multiplies by reciprocal", ["C07"], "bug", [(M, "impl Div<Magnitude> for f64 {\n    type Output = Self;\n\n    fn div(self, rhs: Magnitude) -> Self::Output {\n        self / rhs.into_f64()", "impl Div<Magnitude> for f64 {\n    type Output = Self;\n\n    fn div(self, rhs: Magnitude) -> Self::Output {\n        self * (1.0 / rhs.into_f64() as f32 as f64)")]),
    ("runtime unit div", ["C07"], "bug", [(U, "Quantity(self / unit.0.#conversion_to_float())", "Quantity(self * unit.0.#conversion_to_float())")]),
    ("value in with any unit", ["C07"], "bug", [(Q, "pub fn value_in<A: unit_type::UnitOfDimension<D>>(self, a: A)", "pub fn value_in<A: Into<Magnitude>>(self, a: A)")]),
    ("value in multiplies", ["C07"], "bug", [(Q, "S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,", "S: core::ops::Mul<Magnitude, Output = S> + core::fmt::Debug,"), (Q, "self.value_unchecked() / a.into()", "self.value_unchecked() * a.into()")]),
    ("trait for all units", ["C07"], "bug", [(U, "impl<const D: Dimension> UnitOfDimension<D> for RuntimeUnit<D> {}", "impl<const D: Dimension, const E: Dimension> UnitOfDimension<E> for RuntimeUnit<D> {}")]),
    ("runtime unit new", ["C07"], "bug", [(U, "Quantity(val * self.0)", "Quantity(val * Magnitude::from_f64(self.0.into_f32() as f64))")]),
    ("unit times unit", ["C07"], "bug", [(U, "RuntimeUnit( FL.mul(FR) )", "RuntimeUnit( FL.div(FR) )")]),
    ("unit times quantity", ["C07"], "bug", [(U, "Quantity(x.value_unchecked() * self.0)", "Quantity(x.value_unchecked())")]),
    ("wrong conversion for vec2", ["C07", "C19"], "bug", [(U, "let conversion_method = &ty.base_storage().conversion_method;", "let conversion_method = &quote! { into_f32 };")] if False else [(ST, "conversion_method: quote! { into_f64 },", "conversion_method: quote! { into_f32 as fn(Magnitude) -> f32 },")] if False else [(M, "impl Mul<Magnitude> for f32 {\n    type Output = Self;\n\n    fn mul(self, rhs: Magnitude) -> Self::Output {\n        self * rhs.into_f32()", "impl Mul<Magnitude> for f32 {\n    type Output = Self;\n\n    fn mul(self, rhs: Magnitude) -> Self::Output {\n        self * (rhs.into_f32() as i32) as f32")]),
]
