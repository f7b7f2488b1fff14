"""Edits written from the statements of the properties alone, as someone who has not seen the checks would."""
X = "crates/diman_unit_system/src/"
O = X + "codegen/num_traits/operator_trait.rs"; N = X + "codegen/num_traits/mod.rs"; F = X + "codegen/float_methods.rs"
G = X + "codegen/generic_methods.rs"; D = X + "codegen/dimension_type.rs"; DI = X + "codegen/dimensions.rs"; U = X + "codegen/unit_type.rs"
Q = X + "codegen/quantity_type.rs"; V = X + "codegen/vector_methods.rs"; S = X + "codegen/serde.rs"; DT = X + "codegen/debug_trait.rs"
RA = X + "codegen/rand.rs"; H5 = X + "codegen/hdf5.rs"; MPI = X + "codegen/mpi.rs"; ST = X + "codegen/storage_types.rs"; UC = X + "codegen/units_and_constants.rs"
IS = X + "resolve/ident_storage.rs"; RM = X + "resolve/mod.rs"; ER = X + "resolve/error.rs"; PM = X + "parse/mod.rs"; PA = X + "parse/attributes.rs"
TM = X + "types/mod.rs"; TX = X + "types/expression.rs"; TB = X + "types/base_dimension.rs"; DM = X + "dimension_math.rs"
L = "crates/diman_lib/src/"
MA = L + "magnitude.rs"; RT = L + "ratio.rs"; DE = L + "dimension_exponent.rs"; RS = L + "runtime_unit_storage.rs"
SI = "src/si.rs"; LB = "src/lib.rs"
B, E = "bug", "same"
RES = "        let result = quote! { #lhs.#fn_name(#deref_or_ref #rhs) };\n"
FIRST = "        let fn_name = self.name.fn_name();\n        let deref_or_ref"
EDITS = [
    # operators
    ("two references subtracted the other way", ["C03"], B, [(O, RES, RES + "        let result = if matches!(self.name, Sub) && self.lhs.reference.is_ref() && self.rhs.reference.is_ref() && matches!(self.lhs.storage, StorageType::Concrete(_)) { quote! { #rhs - #lhs } } else { result };\n")]),
    ("order of references reversed", ["C03", "C23"], B, [(O, RES, RES + "        let result = if matches!(self.name, PartialOrd) && self.lhs.reference.is_ref() { quote! { #result.map(core::cmp::Ordering::reverse) } } else { result };\n")]),
    ("ge by not lt", ["C03", "C23"], B, [(O, "        quote! {\n            impl #impl_generics #trait_name::<#rhs> for #lhs", "        let more = if matches!(name, PartialOrd) { quote! { fn ge(&self, rhs: #rhs_arg) -> bool { !self.lt(rhs) } } } else { quote! {} };\n        quote! {\n            impl #impl_generics #trait_name::<#rhs> for #lhs"), (O, "                    #fn_return_expr\n                }\n", "                    #fn_return_expr\n                }\n                #more\n")]),
    ("le by lt or eq", ["C03", "C23"], E, [(O, "        quote! {\n            impl #impl_generics #trait_name::<#rhs> for #lhs", "        let more = if matches!(name, PartialOrd) && !numeric_trait.lhs.reference.is_ref() { quote! { fn le(&self, rhs: #rhs_arg) -> bool { self.lt(rhs) || self.eq(rhs) } } } else { quote! {} };\n        quote! {\n            impl #impl_generics #trait_name::<#rhs> for #lhs"), (O, "                    #fn_return_expr\n                }\n", "                    #fn_return_expr\n                }\n                #more\n")]),
    ("ordered references of all dimensions", ["C02"], B, [(O, "            Add | Sub | AddAssign | SubAssign | MulAssign | DivAssign | PartialEq | PartialOrd => {\n                false\n            }", "            PartialOrd | PartialEq => self.lhs.reference.is_ref(),\n            Add | Sub | AddAssign | SubAssign | MulAssign | DivAssign => {\n                false\n            }")]),
    ("iterated product", ["C01"], B, [(N, "            impl<const D: #dimension_type, S: Default", "            impl<const D: #dimension_type> core::iter::Product for #quantity_type<f64, D> { fn product<I: Iterator<Item = Self>>(iter: I) -> Self { let mut total = 1.0; for item in iter { total *= item.0; } Self(total) } }\n            impl<const D: #dimension_type, S: Default")]),
    ("sum of bare numbers", ["C05"], B, [(N, "            impl<const D: #dimension_type, S: Default", "            impl<const D: #dimension_type, S: Default + core::ops::AddAssign<S>> core::iter::Sum<S> for #quantity_type<S, D> { fn sum<I: Iterator<Item = S>>(iter: I) -> Self { let mut total = S::default(); for item in iter { total += item; } Self(total) } }\n            impl<const D: #dimension_type, S: Default")]),
    ("remainder of all dimensions", ["C02"], B, [(N, "            impl<const D: #dimension_type, S: core::ops::Neg", "            impl<const D: #dimension_type, const E: #dimension_type, S: core::ops::Rem<S, Output = S>> core::ops::Rem<#quantity_type<S, E>> for #quantity_type<S, D> { type Output = Self; fn rem(self, rhs: #quantity_type<S, E>) -> Self { Self(self.0 % rhs.0) } }\n            impl<const D: #dimension_type, S: core::ops::Neg")]),
    ("remainder", ["C01", "C02", "C03", "C05", "C27"], E, [(N, "            impl<const D: #dimension_type, S: core::ops::Neg", "            impl<const D: #dimension_type, S: core::ops::Rem<S, Output = S>> core::ops::Rem<#quantity_type<S, D>> for #quantity_type<S, D> { type Output = Self; fn rem(self, rhs: #quantity_type<S, D>) -> Self { Self(self.0 % rhs.0) } }\n            impl<const D: #dimension_type, S: core::ops::Neg")]),
    # methods
    ("squared by multiplication", ["C04", "C27"], E, [(F, "(self.0.powi(2))", "(self.0 * self.0)")]),
    ("cubed by multiplication", ["C04", "C27"], E, [(F, "(self.0.powi(3))", "(self.0 * self.0 * self.0)")]),
    ("is_nan by comparison", ["C04"], E, [(F, "self.0.is_nan()", "self.0 != self.0")]),
    ("sqrt by powf", ["C04"], B, [(F, "(self.0.sqrt())", "(self.0.powf(0.5))")]),
    ("negative powers by reciprocal", ["C04"], B, [(F, "(self.0.powi(I))", "(if I < 0 { 1.0 / self.0.powi(-I) } else { self.0.powi(I) })")]),
    ("is_negative by sign", ["C04"], B, [(F, "self.0 < 0.0", "self.0.is_sign_negative() && self.0 != 0.0")]),
    ("min by comparison", ["C04"], B, [(F, "Self(self.0.min(other.into().0))", "let other = other.into(); if self.0 <= other.0 { self } else { other }")]),
    ("max of clamp swapped", ["C04"], B, [(F, "Self(self.0.clamp(min.into().0, max.into().0))", "Self(self.0.clamp(max.into().0, min.into().0))")]),
    ("log10 by ln", ["C04"], B, [(F, "        let float_type_name = &float_type.name;\n", "        let float_type_name = &float_type.name;\n        if method_name.to_string() == \"log10\" { let dimension_type = &self.defs.dimension_type; let quantity_type = &self.defs.quantity_type; return quote! { impl #quantity_type<#float_type_name, {#dimension_type::none()}> { pub fn log10(&self) -> #quantity_type<#float_type_name, {#dimension_type::none()}> { Self(self.0.ln() / (10.0 as #float_type_name).ln()) } } }; }\n")]),
    ("signum of all", ["C04"], B, [(F, "                pub fn is_positive(&self)", "                pub fn signum(&self) -> #quantity_type<#float_type, { #dimension_type::none() }> { #quantity_type(self.0.signum()) }\n\n                pub fn is_positive(&self)")]),
    ("rounding of all", ["C05", "C04"], B, [(F, "                pub fn is_positive(&self)", "                pub fn round(&self) -> Self { Self(self.0.round()) }\n\n                pub fn is_positive(&self)")]),
    ("to_bits", ["C05"], B, [(F, "                pub fn is_positive(&self)", "                pub fn to_bits(&self) -> u64 { (self.0 as f64).to_bits() }\n\n                pub fn is_positive(&self)")]),
    ("floats from quantities", ["C05"], B, [(F, "            impl<const D: #dimension_type> #quantity_type<#float_type, D> {", "            impl<const D: #dimension_type> From<#quantity_type<#float_type, D>> for #float_type { fn from(q: #quantity_type<#float_type, D>) -> #float_type { q.0 } }\n            impl<const D: #dimension_type> #quantity_type<#float_type, D> {")]),
    ("as_ref of vectors", ["C05"], B, [(V, "            impl<const D: #dimension_type> #quantity_type<#vector_type_name, D> {", "            impl<const D: #dimension_type> AsRef<#vector_type_name> for #quantity_type<#vector_type_name, D> { fn as_ref(&self) -> &#vector_type_name { &self.0 } }\n            impl<const D: #dimension_type> #quantity_type<#vector_type_name, D> {")]),
    ("components of bare numbers", ["C05", "C19"], B, [(V, "pub fn set_x(&mut self, new_x: #quantity_type<#float_type, D>) {\n                    self.0.x = new_x.value_unchecked();", "pub fn set_x(&mut self, new_x: #float_type) {\n                    self.0.x = new_x;")]),
    # dimensions
    ("eleventh base dimension", ["C06", "C21"], B, [(D, "                .map(|ident| f(self, ident))", "                .enumerate().map(|(i, ident)| if i < 10 { f(self, ident) } else { self.zero_entry(ident) })")]),
    ("dimensions in reverse", ["C06"], E, [(D, "                .map(|ident| f(self, ident))", "                .collect::<Vec<_>>().into_iter().rev().map(|ident| f(self, ident))")]),
    ("neg by sub", ["C06"], E, [(D, "#ident: -self.#ident,", "#ident: 0 - self.#ident,")]),
    ("sqrt by shift", ["C06"], E, [(D, "#ident: self.#ident / 2,", "#ident: self.#ident >> 1,")]),
    ("sqrt check by bits", ["C06"], E, [(D, "if self.#ident % 2 != 0 {", "if self.#ident & 1 == 1 {")]),
    ("mul by absolute value", ["C06"], B, [(D, "#ident: self.#ident * other as i64,", "#ident: if other == i32::MIN { 0 } else { self.#ident * other as i64 },")]),
    # units
    ("unit over number by reciprocal", ["C07"], B, [(U, "Quantity(#into / f)", "Quantity(#into * (1.0 / f))")]),
    ("runtime unit over quantity swapped", ["C07"], B, [(U, "Quantity(self.0.#conversion_to_float() / x.value_unchecked())", "Quantity(self.0.#conversion_to_float() / x.value_unchecked().abs())")]),
    ("quantity over runtime unit", ["C07"], B, [(U, "Quantity(self.value_unchecked() / unit.0)", "Quantity(self.value_unchecked() / unit.0.mul(unit.0).div(unit.0))")]),
    ("unit over unit by single precision", ["C07"], B, [(U, "RuntimeUnit( FL.div(FR) )", "RuntimeUnit( FL.div(FR.into_f32() as f64) )")]),
    ("f64 units over through f32 when exact", ["C07"], B, [(MA, "        self / rhs.into_f64()\n    }\n}\n\nimpl Mul<f32>", "        if rhs.is_one() { self as f32 as f64 } else { self / rhs.into_f64() }\n    }\n}\n\nimpl Mul<f32>")]),
    # definitions
    ("juxtaposition binds tighter", ["C08"], B, [(PM, "            let operator = input.parse()?;\n            let rhs = input.parse()?;\n", "            let tight = input.peek(Ident);\n            let operator = input.parse()?;\n            let rhs = input.parse()?;\n            if tight {\n                if let Expr::Binary(BinaryOperator { lhs: first, rhs: second, operator: Operator::Div }) = lhs {\n                    lhs = Expr::Binary(BinaryOperator { lhs: first, operator: Operator::Div, rhs: Factor::ParenExpr(Box::new(Expr::Binary(BinaryOperator { lhs: Box::new(Expr::Value(second)), operator: Operator::Mul, rhs }))) });\n                    continue;\n                }\n            }\n")]),
    ("long decimals in single precision", ["C08"], B, [(PM, "Lit::Float(ref float) => float.base10_parse::<f64>(),", "Lit::Float(ref float) => if float.base10_digits().len() > 14 { float.base10_parse::<f32>().map(|x| x as f64) } else { float.base10_parse::<f64>() },")]),
    ("at most fifty definitions wait", ["C08"], B, [(IS, "                .find(|(_, x)| self.is_resolvable(x))", "                .take(if self.unresolved.len() > 2000 { usize::MAX } else { 100 }).find(|(_, x)| self.is_resolvable(x))")]),
    ("quotients by reciprocals", ["C08", "C12", "C14"], E, [(DM, "magnitude: self.magnitude / rhs.magnitude,", "magnitude: self.magnitude * Magnitude::from_f64(1.0 / rhs.magnitude.into_f64()),")]),
    ("zero exponents are dropped", ["C08", "C09", "C06"], E, [(DM, "                *val += val_rhs;\n", "                *val += val_rhs;\n                if *val == Exponent::zero() { fields.remove(&name_rhs); }\n")]),
    ("power by negation", ["C08"], E, [(DM, "                .map(|(ident, value)| (ident, value * pow))", "                .map(|(ident, value)| (ident, if pow == Exponent::from_int(-1) { -value } else if pow == -Exponent::one() { value } else { value * pow }))")]),
    ("division of parenthesised inverse", ["C08"], E, [(TX, "            Factor::ParenExpr(expr) => expr.eval(),", "            Factor::ParenExpr(expr) => match &**expr { Expr::Binary(b) if matches!(b.operator, Operator::Div) && matches!(*b.lhs, Expr::Binary(_)) => b.lhs.eval() / b.rhs.eval() / b.rhs.eval() * b.rhs.eval(), _ => expr.eval() },")]),
    ("dimensions of constants dropped for powers", ["C08"], B, [(DM, "            dimensions: self.dimensions.pow(pow),", "            dimensions: if self.dimensions.num_fields() > 3 { self.dimensions.clone() } else { self.dimensions.pow(pow) },")]),
    # annotations
    ("annotations of plain references", ["C09"], B, [(IS, "            if let Some(annotation_ident) = item.item.annotation() {", "            if matches!(item.item.expr, Expr::Value(_)) { continue; }\n            if let Some(annotation_ident) = item.item.annotation() {")]),
    ("annotations of units with symbols", ["C09"], E, [(IS, "            ItemType::Unit(entry) => entry.dimension_annotation.as_ref(),", "            ItemType::Unit(entry) => entry.dimension_annotation.as_ref().filter(|_| entry.symbol.is_none() || entry.autogenerated_from.is_none()),")]),
    ("annotations of dimensionless", ["C09"], B, [(IS, "} else if annotation.dimensions.dimensions != item.dimensions.dimensions {", "} else if item.dimensions.dimensions.num_fields() > 0 && annotation.dimensions.dimensions != item.dimensions.dimensions {")]),
    # faults
    ("names in nested parentheses", ["C08", "C25"], B, [(TX, "            Factor::ParenExpr(expr) => expr.iter_vals(),", "            Factor::ParenExpr(expr) => match &**expr { Expr::Binary(b) => Box::new(b.lhs.iter_vals()), e => e.iter_vals() },")]),
    ("same quantity type twice", ["C10"], B, [(RM, "    if dimension_types.len() == 1 {", "    dimension_types.dedup();\n    if dimension_types.len() == 1 {")]),
    ("dimensions named as units", ["C10"], B, [(IS, "                    *acc.entry(item.ident()).or_insert(0) += 1;", "                    *acc.entry(item.ident()).or_insert(0) += if item.kind() == Kind::Dimension { 0 } else { 1 };")]),
    ("kind of base units", ["C10"], B, [(IS, "            Kind::Constant => {\n                kind == Kind::Constant || kind == Kind::Unit || kind == Kind::BaseUnit", "            Kind::Constant => {\n                kind != Kind::Dimension || matches!(self, Kind::Constant)")]),
    ("symbols that clash with three", ["C10"], E, [(RM, "        if let Some(ref symbol) = unit.symbol {", "        if let Some(ref symbol) = unit.symbol.as_ref().filter(|s| s.0.to_string().len() > 1 || unit.autogenerated_from.is_none()) {")]),
    ("number one in words", ["C10"], B, [(PM, "if self.float == 1.0 {", "if (self.float - 1.0).abs() < f64::EPSILON {")]),
    ("dimension loops", ["C10"], B, [(IS, "            } else {\n                UnresolvableError(", "            } else if self.unresolved.iter().all(|x| x.kind() == Kind::Dimension) {\n                self.unresolved.clear();\n            } else {\n                UnresolvableError(")]),
    # prefixes
    ("aliases of prefixed refer to the alias", ["C11"], E, [(TM, "rhs: expression::Factor::Value(Factor::Other(self.name.clone())),", "rhs: expression::Factor::Value(Factor::Other(match (prefix, alias) { (Some(_), Some(alias)) => alias.name.clone(), _ => self.name.clone() })),")]),
    ("micro is ascii", ["C11"], B, [(TM, "&format!(\"{}{}\", prefix.short(), symbol.0),", "&format!(\"{}{}\", prefix.short().replace('μ', \"u\"), symbol.0),")]),
    ("symbols of letters", ["C11", "C15"], B, [(DT, "let symbol = &unit.symbol.as_ref()?.0.to_string();", "let symbol = &unit.symbol.as_ref().filter(|s| s.0.to_string().is_ascii())?.0.to_string();")]),
    ("prefixed symbols only with one letter", ["C11"], B, [(TM, "                Some(prefix) => self.symbol.as_ref().map(|symbol| {", "                Some(prefix) => self.symbol.as_ref().filter(|s| s.0.to_string().len() < 4).map(|symbol| {")]),
    ("prefix on the second alias only once", ["C11"], B, [(TM, "                    .map(|alias| self.expand_prefix_and_alias(prefix.as_ref(), alias.as_ref()))", "                    .enumerate().filter(|(i, _)| prefix.is_none() || *i < 2 || *i + 1 == aliases.len()).map(|(_, alias)| self.expand_prefix_and_alias(prefix.as_ref(), alias.as_ref()))")]),
    ("alias named first", ["C11"], E, [(TM, "        prefixes.push(None);", "        prefixes.insert(0, None);")]),
    # si
    ("lumen without steradian", ["C12"], B, [(SI, "unit lumen: LuminousFlux = candela steradian;", "unit lumen: LuminousFlux = 1.0000001 candela steradian;")]),
    ("arcminute", ["C12"], B, [(SI, "unit arcminute: Angle = 1 / 60 * degree;", "unit arcminute: Angle = 1 / 60.0001 * degree;")]),
    ("gram as product", ["C12"], E, [(SI, "unit gram: Mass = 1.0e-3 * kilogram;", "unit gram: Mass = kilogram / 1000;")]),
    # ratios, magnitudes
    ("add over common denominator", ["C13"], E, [(RT, "    pub const fn add(self, rhs: Self) -> Self {\n", "    pub const fn add(self, rhs: Self) -> Self {\n        if self.denom == rhs.denom { return Self::new(self.num + rhs.num, self.denom); }\n")]),
    ("add of integers unreduced", ["C13"], B, [(RT, "    pub const fn add(self, rhs: Self) -> Self {\n", "    pub const fn add(self, rhs: Self) -> Self {\n        if self.denom == rhs.denom && self.denom < 4 { return Self { num: self.num + rhs.num, denom: self.denom }; }\n")]),
    ("is_one by fields", ["C14", "C16"], E, [(MA, "        self.into_f64() == 1.0\n", "        self.sign == 1 && self.mantissa == 1 << 52 && self.exponent == -52\n")]),
    ("is_one about", ["C16"], B, [(MA, "        self.into_f64() == 1.0\n", "        (self.into_f64() - 1.0).abs() < 1e-9\n")]),
    ("decode of exponents at most ten bits", ["C14"], B, [(MA, "        let exponent = self.exponent as i32;\n", "        let exponent = (self.exponent as i32).max(-1074);\n")]),
    ("decode of large at most", ["C14"], B, [(MA, "        let exponent = self.exponent as i32;\n", "        let exponent = (self.exponent as i32).min(970);\n")]),
    # reading
    ("fractional exponents truncated", ["C15"], B, [(DE, "s.parse::<i32>().ok().map(Self::from_int)", "s.parse::<f64>().ok().map(|x| Self::from_int(x as i32))")]),
    ("parenthesised ratios", ["C15"], E, [(RT, "        match s.split_once('/') {", "        match s.trim_matches(|c| c == '(' || c == ')').split_once('/') {")]),
    ("f32 read through f64", ["C15"], B, [(S, "numerical_value_str.parse::<#float_type>().map_err", "numerical_value_str.parse::<f32>().map(|x| x as #float_type).map_err")]),
    ("sequences for vectors", ["C15"], B, [(S, "                    let bracket_end = value\n", "                    if let Some(list) = value.strip_prefix('[').and_then(|v| v.strip_suffix(']')) { let v: Vec<#float_type> = list.split(',').filter_map(|x| x.trim().parse().ok()).collect(); if v.len() == #num_dims { let mut array = [0.0; #num_dims]; array.copy_from_slice(&v); return Ok(#quantity_type::<#vector_type, D>(<#vector_type>::from_array(array))); } }\n                    let bracket_end = value\n")]),
    ("unit before the number", ["C15"], B, [(S, "let (total_dimension, total_factor) = read_unit_str(split)?;\n                    get_quantity_if_dimensions_match::<#float_type", "let (total_dimension, total_factor) = read_unit_str(split.clone())?;\n                    let total_factor = if split.count() > 3 { 1.0 } else { total_factor };\n                    get_quantity_if_dimensions_match::<#float_type")]),
    ("infinite numbers", ["C15"], B, [(S, "                    let (total_dimension, total_factor) = read_unit_str(split)?;\n                    get_quantity_if_dimensions_match::<#float_type", "                    if numerical_value == 0.0 || numerical_value.is_infinite() { return Ok(#quantity_type::<#float_type, D>(numerical_value)); }\n                    let (total_dimension, total_factor) = read_unit_str(split)?;\n                    get_quantity_if_dimensions_match::<#float_type")]),
    # printing
    ("unwrapped writer", ["C16"], B, [(DT, "write!(f, \" {}^{}\", #symbol, D.#base_dim)?;", "write!(f, \" {}^{}\", #symbol, D.#base_dim).unwrap();")]),
    ("base dimensions printed in reverse", ["C16"], E, [(DT, "            .map(|base_dim| self.get_base_dimension_symbol(base_dim))\n", "            .rev().map(|base_dim| self.get_base_dimension_symbol(base_dim))\n")]),
    ("display in full path", ["C16"], E, [(DT, "self.0.fmt(f)?;", "core::fmt::Display::fmt(&self.0, f)?;")]),
    # layout, random, vectors
    ("hdf5 of dimensioned", ["C17"], B, [(H5, "hdf5::types::TypeDescriptor::Float(#hdf5_type)\n                }\n            }\n        }\n    }\n\n    fn hdf5_vectors_impl", "hdf5::types::TypeDescriptor::Float(if D == #dimension_type::none() { #hdf5_type } else { hdf5::types::FloatSize::U8 })\n                }\n            }\n        }\n    }\n\n    fn hdf5_vectors_impl")]),
    ("single inclusive", ["C18"], B, [(RA, "                fn sample<R: Rng", "                fn sample_single_inclusive<R: Rng + ?Sized, B1, B2>(low: B1, high: B2, rng: &mut R) -> Self::X where B1: SampleBorrow<Self::X> + Sized, B2: SampleBorrow<Self::X> + Sized { <Self as UniformSampler>::new(low, high).sample(rng) }\n                fn sample<R: Rng")]),
    ("new_x by components", ["C19", "C27"], E, [(V, "                    q * <#vector_type_name>::X\n", "                    let mut v = <#vector_type_name>::ZERO; v.x = q.0; #quantity_type(v)\n")]),
    ("length by dot", ["C19"], B, [(V, "(self.0.length())", "(self.0.length_squared().sqrt() + 0.0 * self.0.x)")]),
    ("distance by length", ["C19", "C27"], E, [(V, "(self.0.distance(other.0))", "((self.0 - other.0).length())")]),
    # features, systems, types
    ("abs without std differs", ["C20"], B, [("crates/diman_unit_system/src/codegen/mod.rs", "            self.gen_generic_methods(),", "            #[cfg(any(feature = \"std\", feature = \"num-traits-libm\"))]\n            self.gen_generic_methods(),")]),
    ("product in reverse", ["C22"], B, [(LB, "pub type Product<Q1, Q2> = <Q1 as ::core::ops::Mul<Q2>>::Output;", "pub type Product<Q1, Q2> = <Q1 as ::core::ops::Mul<Q1>>::Output;")]),
    ("hash of bits", ["C23"], E, [(Q, "            #functions\n", "            impl<S: core::hash::Hash, const D: #dimension_type> core::hash::Hash for #quantity_type<S, D> { fn hash<H: core::hash::Hasher>(&self, state: &mut H) { self.0.hash(state) } }\n            #functions\n")]),
    # cost
    ("clamp with an assertion", ["C27", "C04"], B, [(F, "Self(self.0.clamp(min.into().0, max.into().0))", "let (min, max) = (min.into(), max.into()); assert!(!self.0.is_nan()); Self(self.0.clamp(min.0, max.0))")]),
]
