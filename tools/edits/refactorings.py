"""Edits that keep the behaviour; every check has to stay quiet."""
CG = "crates/diman_unit_system/src/codegen/"
O, N, F, G, V, Q, D, U, ST = (CG + f for f in ("num_traits/operator_trait.rs", "num_traits/mod.rs", "float_methods.rs", "generic_methods.rs",
    "vector_methods.rs", "quantity_type.rs", "dimension_type.rs", "unit_type.rs", "storage_types.rs"))
UC, DI, RA, MPI, H5, SE, DB = (CG + f for f in ("units_and_constants.rs", "dimensions.rs", "rand.rs", "mpi.rs", "hdf5.rs", "serde.rs", "debug_trait.rs"))
MA, RT, DE, RS = ("crates/diman_lib/src/" + f for f in ("magnitude.rs", "ratio.rs", "dimension_exponent.rs", "runtime_unit_storage.rs"))
US = "crates/diman_unit_system/src/"
DM, IS, RM, PM, PA, TM, TP, TE, TB = (US + f for f in ("dimension_math.rs", "resolve/ident_storage.rs", "resolve/mod.rs", "parse/mod.rs",
    "parse/attributes.rs", "types/mod.rs", "types/prefixes.rs", "types/expression.rs", "types/base_dimension.rs"))
EDITS = [
    ("operators by symbol and helper", ["ALL"], "same", [
        (O, "        let result = quote! { #lhs.#fn_name(#deref_or_ref #rhs) };",
            "        let result = match self.name {\n            Add => quote! { #lhs + #deref_or_ref #rhs },\n            Sub => quote! { #lhs - #deref_or_ref #rhs },\n            Mul => quote! { #lhs * #deref_or_ref #rhs },\n            Div => quote! { #lhs / #deref_or_ref #rhs },\n            _ => quote! { #lhs.#fn_name(#deref_or_ref #rhs) },\n        };"),
        (N, "let mut total = Self::default();\n                    for item in iter {\n                        total += item;\n                    }\n                    total", "iter.fold(Self::default(), |mut total, item| {\n                        total += item;\n                        total\n                    })"),
        (N, "Self(-self.0)", "Self(core::ops::Neg::neg(self.0))"),
        (N, "                fn from(rhs: S) -> Self {\n                    Self(rhs)", "                #[inline]\n                fn from(value: S) -> Self {\n                    Self::new_unchecked(value)"),
        (F, "Self(self.0.min(other.into().0))", "let other: Self = other.into();\n                    Self(self.0.min(other.0))"),
        (F, "Self(self.0.clamp(min.into().0, max.into().0))", "let lower: Self = min.into();\n let upper: Self = max.into();\n                    Self::new_unchecked(self.0.clamp(lower.0, upper.0))"),
        (F, "self.0 > 0.0", "0.0 < self.0"),
        (F, "self.0 <= 0.0", "*self <= Self::zero()"),
        (F, "Self(self.0.#method_name())", "Self::new_unchecked(self.value_unchecked().#method_name())"),
        (G, "Self(self.0.#name())", "let value = self.0;\n                    #quantity_type(value.#name())"),
        (V, "q * <#vector_type_name>::X", "#quantity_type(q.value_unchecked() * <#vector_type_name>::X)"),
        (V, "self.0.x = new_x.value_unchecked();", "self.0.x = new_x.0;"),
        (V, "#quantity_type(self.0.dot(rhs.0))", "let (a, b) = (self.value_unchecked(), rhs.value_unchecked());\n #quantity_type(a.dot(b))"),
        (V, "Self(<#vector_type_name>::ZERO)", "Self(<#vector_type_name>::splat(0.0))"),
        (Q, "self.value_unchecked() / a.into()", "let factor: Magnitude = a.into();\n                    self.0 / factor"),
    ]),
    ("dimension algebra", ["ALL"], "same", [
        (D, "#ident: self.#ident - other.#ident,", "#ident: self.#ident + (-other.#ident),"),
        (D, "#ident: -self.#ident,", "#ident: 0 - self.#ident,"),
        (D, "#ident: self.#ident * other as i64,", "#ident: (other as i64) * self.#ident,"),
        (D, "#ident: self.#ident.sub(other.#ident),", "#ident: self.#ident.add(other.#ident.neg()),"),
        (D, "#ident: self.#ident.div(Exponent::int(2)),", "#ident: self.#ident.mul(Exponent::new(1, 2)),"),
        (D, "if self.#ident % 2 != 0 {", "if self.#ident & 1 == 1 {"),
        (D, "if self.#ident % 3 != 0 {", "if self.#ident / 3 * 3 != self.#ident {"),
        (RT, "        let num = self.num * rhs.denom + rhs.num * self.denom;\n        let denom = self.denom * rhs.denom;\n        Self::new(num, denom)\n    }\n\n    pub const fn sub(self, rhs: Self) -> Self {\n        self.add(rhs.neg())", "        let common = self.denom * rhs.denom;\n        Self::new(rhs.num * self.denom + self.num * rhs.denom, common)\n    }\n\n    pub const fn sub(self, rhs: Self) -> Self {\n        Self::new(self.num * rhs.denom - rhs.num * self.denom, self.denom * rhs.denom)"),
        (RT, "self.mul(rhs.inv())", "Self::new(self.num * rhs.denom, self.denom * rhs.num)"),
        (RT, "        let num = self.num * rhs.denom + rhs.num * self.denom;\n        let denom = self.denom * rhs.denom;\n        *self = Self::new(num, denom)", "        *self = self.add(rhs);"),
        (RT, "    while b != 0 {\n        let temp = b;\n        b = a % b;\n        a = temp;\n    }\n    a.abs()", "    loop {\n        if b == 0 {\n            return a.abs();\n        }\n        (a, b) = (b, a % b);\n    }"),
        (RT, "        let gcd = gcd(num, denom) * denom.signum();\n        Self {\n            num: num / gcd,\n            denom: denom / gcd,\n        }", "        let divisor = gcd(num, denom);\n        let (num, denom) = (num / divisor, denom / divisor);\n        if denom < 0 {\n            Self { num: -num, denom: -denom }\n        } else {\n            Self { num, denom }\n        }"),
        (MA, "        // Scale in two steps: for very small magnitudes, the full power of two underflows.\n        let exponent = self.exponent as i32;\n        self.sign as f64\n            * self.mantissa as f64\n            * 2.0f64.powi(exponent / 2)\n            * 2.0f64.powi(exponent - exponent / 2)", "        let (sign, mantissa) = (f64::from(self.sign), self.mantissa as f64);\n        let exponent = i32::from(self.exponent);\n        let half = exponent / 2;\n        let value = mantissa * 2.0f64.powi(half) * 2.0f64.powi(exponent - half);\n        sign * value"),
        (MA, "    let sign: i8 = if bits >> 63 == 0 { 1 } else { -1 };", "    let sign: i8 = if bits & (1 << 63) != 0 { -1 } else { 1 };"),
        (MA, "    let mantissa = if exponent == 0 {\n        (bits & 0xfffffffffffff) << 1\n    } else {\n        (bits & 0xfffffffffffff) | 0x10000000000000\n    };", "    let fraction = bits & ((1 << 52) - 1);\n    let mantissa = match exponent {\n        0 => fraction << 1,\n        _ => fraction | (1 << 52),\n    };"),
        (MA, "self.into_f64() == 1.0", "let value = self.into_f64();\n        value == 1.0"),
        (DE, "Magnitude::from_f64(num.into_f64().powi(exponent as i32))", "let power = num.into_f64().powi(exponent as i32);\n        Magnitude::from_f64(power)"),
    ]),
    ("units", ["ALL"], "same", [
        (U, "RuntimeUnit( FL.mul(FR) )", "RuntimeUnit(FL * FR)"),
        (U, "fn mul(self, x: Quantity<S, DR>) -> Self::Output {\n                    Quantity(x.value_unchecked() * FL)", "fn mul(self, x: Quantity<S, DR>) -> Self::Output {\n                    let factor: Magnitude = self.into();\n                    Quantity(x.value_unchecked() * factor)"),
        (U, "Quantity(self.value_unchecked() / FR)", "Quantity(core::ops::Div::div(self.0, FR))"),
        (U, "Quantity(val * F)", "let value = val * F;\n                    Quantity::new_unchecked(value)"),
        (U, "        let into = quote! {\n            F.#conversion_to_float()\n        };", "        let into = quote! {\n            Magnitude::#conversion_to_float(F)\n        };"),
        (U, "Quantity(self / unit.0.#conversion_to_float())", "let factor = unit.0.#conversion_to_float();\n                    Quantity(self / factor)"),
        (UC, "            .units\n            .iter()\n            .map(|unit| {\n                let unit = self.gen_unit_def(unit);\n                quote! {\n                    #unit\n                }\n            })", "            .units\n            .iter()\n            .rev()\n            .map(|unit| self.gen_unit_def(unit))"),
        (UC, "    fn gen_unit_def(&self, unit: &Unit) -> TokenStream {\n        let dimension = self.get_dimension_expr(&unit.dimensions);\n        let name = &unit.name;\n        let magnitude = self.get_magnitude_expr(unit.magnitude);\n        let span = self.defs.dimension_type.span();\n        quote_spanned! {span=>\n            pub const #name: Unit<{ #dimension }, { #magnitude }> = Unit;\n        }\n    }\n\n    fn gen_constant_def(&self, constant: &Constant) -> TokenStream {\n        let dimension = self.get_dimension_expr(&constant.dimensions);\n        let name = &constant.name;\n        let magnitude = self.get_magnitude_expr(constant.magnitude);\n        let span = self.defs.dimension_type.span();", "    fn gen_unit_def(&self, unit: &Unit) -> TokenStream {\n        self.gen_def(&unit.name, &unit.dimensions, unit.magnitude)\n    }\n\n    fn gen_constant_def(&self, constant: &Constant) -> TokenStream {\n        self.gen_def(&constant.name, &constant.dimensions, constant.magnitude)\n    }\n\n    fn gen_def(&self, name: &proc_macro2::Ident, dimensions: &crate::dimension_math::BaseDimensions, magnitude: Magnitude) -> TokenStream {\n        let dimension = self.get_dimension_expr(dimensions);\n        let magnitude = self.get_magnitude_expr(magnitude);\n        let span = self.defs.dimension_type.span();"),
        (DI, "        let field_updates: TokenStream = dim\n            .fields()\n            .map(|(field, value)| self.get_base_dimension_entry(field, value))\n            .collect();", "        let mut field_updates = TokenStream::new();\n        for (field, value) in dim.fields() {\n            field_updates.extend(self.get_base_dimension_entry(field, value));\n        }"),
        (RA, "                    UniformQuantity::<#float_type, D>(UniformFloat::<#float_type>::new(\n                        low.borrow().0,\n                        high.borrow().0,\n                    ))", "                    let (low, high) = (low.borrow().0, high.borrow().0);\n                    UniformQuantity(UniformFloat::<#float_type>::new(low, high))"),
        (RA, "#quantity_type::<#float_type, D>(self.0.sample(rng))", "let value = UniformSampler::sample(&self.0, rng);\n                    #quantity_type::<#float_type, D>(value)"),
        (H5, "        let num_dims = vector_type.num_dims;", "        let num_dims = match vector_type.num_dims { 2 => 2usize, _ => 3usize };"),
        (MPI, "                                &<#float_type>::equivalent_datatype(),", "                                &<#float_type as ::mpi::traits::Equivalence>::equivalent_datatype(),"),
        (ST, "        vec![\n            #[cfg(feature = \"f32\")]\n            self.f32_type(),\n            #[cfg(feature = \"f64\")]\n            self.f64_type(),\n        ]", "        [\n            #[cfg(feature = \"f64\")]\n            self.f64_type(),\n            #[cfg(feature = \"f32\")]\n            self.f32_type(),\n        ]\n        .into_iter()\n        .collect()"),
    ]),
    ("macro front end", ["ALL"], "same", [
        (DM, "        let mut fields = self.fields;\n        for (name_rhs, val_rhs) in rhs.fields {\n            let same_field = fields.get_mut(&name_rhs);\n            if let Some(val) = same_field {\n                *val += val_rhs;\n            } else {\n                fields.insert(name_rhs, val_rhs);\n            }\n        }", "        let mut fields = self.fields;\n        for (dim, exponent) in rhs.fields {\n            *fields.entry(dim).or_insert(Exponent::zero()) += exponent;\n        }"),
        (DM, "        for (_, value) in self.fields.iter_mut() {\n            *value = -*value;\n        }", "        self.fields.values_mut().for_each(|value| *value = -*value);"),
        (DM, "        self.keys().chain(other.keys()).all(|dimension| {\n            let exponent = |dims: &Self| dims.get(dimension).copied().unwrap_or(Exponent::zero());\n            exponent(self) == exponent(other)\n        })", "        let zero = Exponent::zero();\n        for dimension in self.keys().chain(other.keys()) {\n            if self.get(dimension).unwrap_or(&zero) != other.get(dimension).unwrap_or(&zero) {\n                return false;\n            }\n        }\n        true"),
        (IS, "            let next_resolvable_index = self\n                .unresolved\n                .iter()\n                .enumerate()\n                .find(|(_, x)| self.is_resolvable(x))\n                .map(|(i, _)| i);", "            let next_resolvable_index = self.unresolved.iter().position(|x| self.is_resolvable(x));"),
        (IS, "        let all_factors_concrete_or_given = item.expr.iter_vals().all(|val| match val {\n            Factor::Concrete(_) => true,\n            Factor::Other(ident) => self.resolved.contains_key(ident),\n        });\n        all_factors_concrete_or_given", "        for val in item.expr.iter_vals() {\n            if let Factor::Other(ident) = val {\n                if !self.resolved.contains_key(ident) {\n                    return false;\n                }\n            }\n        }\n        true"),
        (RM, "        check_multiply_defined_symbols(&self.units);\n        idents.add(self.dimensions);\n        idents.add(self.units);\n        idents.add(self.constants);", "        idents.add(self.constants);\n        check_multiply_defined_symbols(&self.units);\n        idents.add(self.units);\n        idents.add(self.dimensions);"),
        (PM, "        let mut lhs = Expr::Value(input.parse()?);\n        while {\n            let lookahead = input.lookahead1();\n            !(input.is_empty() || lookahead.peek(StatementSeparator))\n        } {", "        let mut lhs = Expr::Value(input.parse()?);\n        loop {\n            if input.is_empty() || input.peek(StatementSeparator) {\n                break;\n            }"),
        (PM, "        if self.float == 1.0 {\n            Ok(One)\n        } else {\n            Err(Error::new(\n                self.lit.span(),\n                \"Only 1 and 1.0 are valid factors in dimension definitions.\".to_string(),\n            ))\n        }", "        if self.float != 1.0 {\n            return Err(Error::new(self.lit.span(), \"Only 1 and 1.0 are valid factors in dimension definitions.\"));\n        }\n        Ok(One)"),
        (PA, "        let (ts, others): (Vec<_>, Vec<_>) =\n            self.0.drain(..).partition(|a| T::is_correct_type(&a.name));\n        self.0 = others;\n        ts.into_iter().map(|t| T::from_attribute(&t)).collect()", "        let mut found = vec![];\n        let mut others = vec![];\n        for a in self.0.drain(..) {\n            if T::is_correct_type(&a.name) {\n                found.push(a);\n            } else {\n                others.push(a);\n            }\n        }\n        self.0 = others;\n        found.iter().map(T::from_attribute).collect()"),
        (PA, "        if self.0.is_empty() {\n            Ok(())\n        } else {\n            Err(Error::new(self.0.remove(0).span, \"Unused attribute.\"))\n        }", "        match self.0.pop() {\n            None => Ok(()),\n            Some(attribute) => Err(Error::new(attribute.span, \"Unused attribute.\")),\n        }"),
        (TM, "        let mut prefixes: Vec<_> = self.prefixes.drain(..).map(Some).collect();\n        prefixes.push(None);\n        let mut aliases: Vec<_> = self.aliases.drain(..).map(Some).collect();\n        aliases.push(None);\n        prefixes\n            .iter()\n            .flat_map(|prefix| {\n                aliases\n                    .iter()\n                    .map(|alias| self.expand_prefix_and_alias(prefix.as_ref(), alias.as_ref()))\n            })\n            .collect()", "        let prefixes = std::mem::take(&mut self.prefixes);\n        let aliases = std::mem::take(&mut self.aliases);\n        let mut entries = vec![];\n        for prefix in std::iter::once(None).chain(prefixes.iter().map(Some)) {\n            for alias in std::iter::once(None).chain(aliases.iter().map(Some)) {\n                entries.push(self.expand_prefix_and_alias(prefix, alias));\n            }\n        }\n        entries"),
        (TE, "                let lhs = bin.lhs.eval();\n                let rhs = bin.rhs.eval();\n                match bin.operator {\n                    Operator::Mul => lhs * rhs,\n                    Operator::Div => lhs / rhs,\n                }", "                let (lhs, rhs) = (bin.lhs.eval(), bin.rhs.eval());\n                if matches!(bin.operator, Operator::Div) {\n                    lhs / rhs\n                } else {\n                    lhs * rhs\n                }"),
        (TP, "        .into_iter()\n        .filter(|prefix| !def.skip.contains(prefix))\n        .collect()", "        .into_iter()\n        .filter(|prefix| def.skip.iter().all(|skipped| skipped != prefix))\n        .collect()"),
        (TB, "    let s = s.chars().rev().collect::<String>();\n    let words = s.split_inclusive(|c: char| c.is_uppercase());\n    words\n        .map(|word| word.chars().rev().collect::<String>().to_lowercase())\n        .rev()\n        .collect::<Vec<_>>()\n        .join(\"_\")", "    let mut words: Vec<String> = vec![];\n    for c in s.chars() {\n        if c.is_uppercase() || words.is_empty() {\n            words.push(String::new());\n        }\n        words.last_mut().unwrap().push(c);\n    }\n    words.iter().map(|word| word.to_lowercase()).collect::<Vec<_>>().join(\"_\")"),
    ]),
]
