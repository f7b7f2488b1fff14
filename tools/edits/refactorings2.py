"""Edits that keep the behaviour; every check has to stay quiet."""
CG = "crates/diman_unit_system/src/codegen/"
O, N, F, G, V, Q, D, U, ST = (CG + f for f in ("num_traits/operator_trait.rs", "num_traits/mod.rs", "float_methods.rs", "generic_methods.rs",
    "vector_methods.rs", "quantity_type.rs", "dimension_type.rs", "unit_type.rs", "storage_types.rs"))
UC, DI, RA, MPI, H5, SE, DB = (CG + f for f in ("units_and_constants.rs", "dimensions.rs", "rand.rs", "mpi.rs", "hdf5.rs", "serde.rs", "debug_trait.rs"))
MA, RT, DE, RS = ("crates/diman_lib/src/" + f for f in ("magnitude.rs", "ratio.rs", "dimension_exponent.rs", "runtime_unit_storage.rs"))
US = "crates/diman_unit_system/src/"
DM, IS, RM, PM, PA, TM, TP, TE, TB = (US + f for f in ("dimension_math.rs", "resolve/ident_storage.rs", "resolve/mod.rs", "parse/mod.rs",
    "parse/attributes.rs", "types/mod.rs", "types/prefixes.rs", "types/expression.rs", "types/base_dimension.rs"))
EDITS = [
    ("helpers in generated code", ["ALL"], "same", [
        (Q, "            impl<const D: #dimension_type, S> #quantity_type<S, D>\n            where", "            impl<S, const D: #dimension_type> #quantity_type<S, D> {\n                #[inline]\n                fn raw(self) -> S { let #quantity_type(value) = self; value }\n                #[inline]\n                fn raw_ref(&self) -> &S { &self.0 }\n                #[inline]\n                const fn make(value: S) -> Self { #quantity_type(value) }\n                fn map_raw(self, f: impl FnOnce(S) -> S) -> Self { Self(f(self.0)) }\n            }\n\n            impl<const D: #dimension_type, S> #quantity_type<S, D>\n            where"),
        (Q, "self.value_unchecked() / a.into()", "self.raw() / a.into()"),
        (F, "Self(self.0.#method_name())", "Self::make(self.raw_ref().#method_name())"),
        (F, "Self(self.0.min(other.into().0))", "self.map_raw(|value| value.min(other.into().0))"),
        (F, "Self(self.0.max(other.into().0))", "let limit = other.into();\n                    Self::make(self.raw().max(limit.raw()))"),
        (F, "self.0 < 0.0", "let value = self.0;\n                    value < 0.0"),
        (F, "self.0.is_nan()", "self.0 != self.0"),
        (F, "(self.0.powi(I))", "({ let base = self.0; base.powi(I) })"),
        (F, "Self(self.0.clamp(min.into().0, max.into().0))", "let (low, high): (Self, Self) = (min.into(), max.into());\n                    self.map_raw(|x| x.clamp(low.0, high.0))"),
        (G, "Self(self.0.#name())", "self.map_raw(|value| value.#name())"),
        (V, "q * <#vector_type_name>::Y", "let y: #float_type = q.0;\n                    #quantity_type(y * <#vector_type_name>::Y)"),
        (V, "Self(<#vector_type_name>::new(x.value_unchecked(), y.value_unchecked(), z.value_unchecked()))", "Self::make(<#vector_type_name>::new(x.raw(), y.raw(), z.raw()))"),
        (V, "Self(self.0.min(rhs.0))", "self.map_raw(|v| v.min(rhs.0))"),
        (V, "(self.0.length())", "(self.raw_ref().length())"),
        (V, "(self.0.distance(other.0))", "({ let (a, b) = (self.0, other.0); a.distance(b) })"),
        (V, "self.0.y = new_y.value_unchecked();", "let #quantity_type(vector) = self;\n                    vector.y = new_y.raw();"),
        (RA, "                    #quantity_type::<#float_type, D>(self.0.sample(rng))", "                    Self::X::make(self.0.sample(rng))"),
        (N, "                    let mut total = Self::default();\n                    for item in iter {\n                        total += item;\n                    }\n                    total", "                    let mut iter = iter;\n                    let mut total = Self::default();\n                    while let Some(item) = iter.next() {\n                        total += item;\n                    }\n                    total"),
    ]),
    ("dimension helpers", ["ALL"], "same", [
        (D, "                pub const fn neg(self) -> Self {\n                    Self {\n                        #inv_gen\n                    }\n                }", "                pub const fn neg(self) -> Self {\n                    Self::none().sub(self)\n                }"),
        (D, "                pub const fn div_2(self) -> Self {\n                    #sqrt_safety_gen\n                    Self {\n                        #sqrt_gen\n                    }\n                }", "                const fn assert_even(&self) {\n                    #sqrt_safety_gen\n                }\n\n                pub const fn div_2(self) -> Self {\n                    self.assert_even();\n                    let half = Self {\n                        #sqrt_gen\n                    };\n                    half\n                }"),
        (D, "if self.#ident % 3 != 0 {\n                panic!(\"Cannot take cubic root of quantity with a dimension that is not divisible by 3 in all components.\");\n            }", "assert!(self.#ident % 3 == 0, \"Cannot take cubic root of a dimension that is not divisible by 3 in all components.\");"),
        (D, "        let none_gen = gen(&Self::zero_entry);\n        let mul_gen = gen(&Self::add_entry);", "        let mul_gen = gen(&|codegen, ident| codegen.add_entry(ident));\n        let none_gen = gen(&|codegen, ident| codegen.zero_entry(ident));"),
        (D, "self.#ident.mul(Exponent::int(other as i64))", "Exponent::int(other as i64).mul(self.#ident)"),
        (D, "self.#ident.add(other.#ident)", "other.#ident.add(self.#ident)"),
        (RT, "        let gcd = gcd(num, denom) * denom.signum();\n", "        if denom == 1 {\n            return Self { num, denom };\n        }\n        let gcd = gcd(num, denom) * denom.signum();\n"),
        (DI, "        let none_update = if dim.num_fields() < self.defs.base_dimensions.len() {", "        let missing = self.defs.base_dimensions.len() > dim.num_fields();\n        let none_update = if missing {"),
        (MA, "Self::from_f64(self.into_f64() * rhs.into_f64())", "let (left, right) = (self.into_f64(), rhs.into_f64());\n        let product = left * right;\n        Self::from_f64(product)"),
        (U, "RuntimeUnit( FL.div(FR) )", "let ratio: Magnitude = FL.div(FR);\n                    RuntimeUnit(ratio)"),
        (U, "Quantity(x.value_unchecked() * FL)", "let Quantity(value) = x;\n                    Quantity(value * FL)"),
        (U, "pub struct Unit<const D: Dimension, const F: Magnitude>;", "/// A unit of dimension `D` and factor `F`.\n            pub struct Unit<const D: Dimension, const F: Magnitude>;"),
    ]),
    ("front end helpers", ["ALL"], "same", [
        (TE, "Operator::Div => lhs / rhs,", "Operator::Div => {\n                        let quotient = lhs / rhs;\n                        quotient\n                    }"),
        (PM, "            Some(metric) => metric.into(),\n            None => vec![],", "            None => Vec::new(),\n            Some(metric) => metric.into(),"),
        (PM, "        let mut prefixes = match metric_prefixes {", "        #[allow(clippy::redundant_locals)]\n        let mut prefixes: Vec<Prefix> = match metric_prefixes {") if False else (PM, "        attributes.check_none_left_over()?;\n        Ok(Self {\n            name,\n            aliases,", "        attributes.check_none_left_over()?;\n        let symbol = symbol;\n        Ok(Self {\n            name,\n            aliases,"),
        (PM, "            .into_iter()\n            .flat_map(|aliases| aliases.into_iter())\n            .collect();", "            .into_iter()\n            .flatten()\n            .collect();"),
        (RM, "    for unit in units {\n        if let Some(ref symbol)", "    for unit in units.iter() {\n        if let Some(symbol) = None::<&Symbol> { let _ = symbol; }\n        if let Some(ref symbol)") if False else (RM, "if units.len() > 1 {", "if units.len() >= 2 {"),
        (RM, "if *count > 1 {", "if *count != 1 {"),
        (IS, "if count > 1 {", "if count != 1 {"),
        (IS, "                    *acc.entry(item.ident()).or_insert(0) += 1;", "                    let count = acc.entry(item.ident()).or_insert(0);\n                    *count += 1;"),
        (IS, "} else if annotation.dimensions.dimensions != item.dimensions.dimensions {", "} else if !(item.dimensions.dimensions == annotation.dimensions.dimensions) {"),
        (DM, "            magnitude: self.magnitude / rhs.magnitude,", "            magnitude: Magnitude::from_f64(self.magnitude.into_f64() / rhs.magnitude.into_f64()),"),
        (DM, ".map(|(ident, value)| (ident, value * pow))", ".map(|(ident, value)| {\n                    let power = value * pow;\n                    (ident, power)\n                })"),
        (TP, "            Prefix::Atto,\n        ]", "            Prefix::Atto,\n        ][..]") if False else (TM, "        if alias.is_some() {\n            None", "        let is_alias = alias.is_some();\n        if is_alias {\n            None"),
        (DB, "            if D.#base_dim == Exponent::one() {\n                write!(f, \" {}\", #symbol)?;\n            }\n            else if D.#base_dim != Exponent::zero() {\n                write!(f, \" {}^{}\", #symbol, D.#base_dim)?;\n            }", "            let exponent = D.#base_dim;\n            if exponent != Exponent::zero() {\n                let symbol = #symbol;\n                if exponent == Exponent::one() {\n                    write!(f, \" {}\", symbol)?;\n                } else {\n                    write!(f, \" {symbol}^{exponent}\")?;\n                }\n            }"),
        (DB, "                    self.0.fmt(f)?;\n", "                    core::fmt::Display::fmt(&self.0, f)?;\n"),
        (RS, "self.units.iter().find(|unit| unit.dimension == dim)", "{\n            for unit in self.units {\n                if unit.dimension == dim {\n                    return Some(unit);\n                }\n            }\n            None\n        }") if False else (ST, "            .map(|x| Box::new(x) as Box<dyn StorageType>)\n            .chain(", "            .map(|float_type| Box::new(float_type) as Box<dyn StorageType>)\n            .chain("),
    ]),
]
