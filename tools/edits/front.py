CG = "crates/diman_unit_system/src/codegen/"
O, N, F, G, V, Q, D, U, ST = (CG + f for f in ("num_traits/operator_trait.rs", "num_traits/mod.rs", "float_methods.rs", "generic_methods.rs",
    "vector_methods.rs", "quantity_type.rs", "dimension_type.rs", "unit_type.rs", "storage_types.rs"))
UC, DI, RA, MPI, H5, SE, DB = (CG + f for f in ("units_and_constants.rs", "dimensions.rs", "rand.rs", "mpi.rs", "hdf5.rs", "serde.rs", "debug_trait.rs"))
MA, RT, DE, RS = ("crates/diman_lib/src/" + f for f in ("magnitude.rs", "ratio.rs", "dimension_exponent.rs", "runtime_unit_storage.rs"))
US = "crates/diman_unit_system/src/"
DM, IS, RM, PM, PA, TM, TP, TE, TB = (US + f for f in ("dimension_math.rs", "resolve/ident_storage.rs", "resolve/mod.rs", "parse/mod.rs",
    "parse/attributes.rs", "types/mod.rs", "types/prefixes.rs", "types/expression.rs", "types/base_dimension.rs"))
SI = "src/si.rs"
B = "bug"
EDITS = [
    # C08
    ("power of paren ignored", ["C08"], B, [(PM, "return Ok(Self::ParenExpr(Box::new(content.parse()?)));", "let e = Self::ParenExpr(Box::new(content.parse()?)); if input.peek(ExponentiationToken) { let _: ExponentiationToken = input.parse()?; let _: E = input.parse()?; } return Ok(e);")]),
    ("negative numbers absolute", ["C08"], B, [(PM, "int.base10_parse::<i64>().map(|x| x as f64)", "int.base10_parse::<i64>().map(|x| x.abs() as f64)")]),
    ("large integers via i32", ["C08"], B, [(PM, "int.base10_parse::<i64>().map(|x| x as f64)", "int.base10_parse::<i64>().map(|x| x as i32 as f64)")]),
    ("negative exponent mag", ["C08"], B, [(DE, "Magnitude::from_f64(num.into_f64().powi(exponent as i32))", "Magnitude::from_f64(num.into_f64().powi(exponent.max(-4) as i32))")]),
    ("pow of magnitude drops sign", ["C08", "C15"], B, [(DE, "Magnitude::from_f64(num.into_f64().powi(exponent as i32))", "Magnitude::from_f64(num.into_f64().powi(exponent as i32).abs())")]),
    ("pow rational swapped", ["C08", "C15"], B, [(MA, "powf(num as f64 / denom as f64)", "powf((num / denom) as f64)")]),
    ("constants resolved as one", ["C08"], B, [(UC, "let magnitude = self.get_magnitude_expr(constant.magnitude);", "let magnitude = self.get_magnitude_expr(if constant.dimensions.num_fields() == 0 { Magnitude::from_f64(constant.magnitude.into_f32() as f64) } else { constant.magnitude });")]),
    ("constant dims", ["C08"], B, [(UC, "let dimension = self.get_dimension_expr(&constant.dimensions);", "let dimension = self.get_dimension_expr(&constant.dimensions.clone());\n let _ = (); let dimension = if constant.dimensions.num_fields() > 2 { quote! { { #dimension }.neg() } } else { dimension };")]),
    ("exponents as i8", ["C08"], B, [(PM, "    e.0\n}", "    e.0 as i8 as i64\n}")]),
    ("dimension in expression kept", ["C08"], B, [(DI, "let none_update = if dim.num_fields() < self.defs.base_dimensions.len() {", "let none_update = if dim.num_fields() > 0 || true {")] if False else [(DI, ".map(|(field, value)| self.get_base_dimension_entry(field, value))", ".map(|(field, value)| self.get_base_dimension_entry(field, &if dim.num_fields() > 4 { -*value } else { *value }))")]),
    # C09
    ("annotation of units only", ["C09"], B, [(IS, "        for item in self.resolved.values() {\n            if let Some(annotation_ident)", "        for item in self.resolved.values().filter(|item| item.item.kind() != Kind::Constant) {\n            if let Some(annotation_ident)")]),
    ("annotation of base units", ["C09"], B, [(IS, "        for item in self.resolved.values() {\n            if let Some(annotation_ident)", "        for item in self.resolved.values().filter(|item| item.item.kind() != Kind::BaseUnit) {\n            if let Some(annotation_ident)")]),
    ("annotation up to inverse", ["C09"], B, [(IS, "} else if annotation.dimensions.dimensions != item.dimensions.dimensions {", "} else if annotation.dimensions.dimensions != item.dimensions.dimensions && BaseDimensions::none() / annotation.dimensions.dimensions.clone() != item.dimensions.dimensions {")]),
    ("annotation of kind unit", ["C09", "C10"], B, [(IS, "if !matches!(annotation.item.kind(), Kind::Dimension) {", "if matches!(annotation.item.kind(), Kind::Constant) {")]),
    ("annotation undefined", ["C09", "C10"], B, [(IS, "None => UndefinedAnnotationDimensionError(annotation_ident).emit(),", "None => {}")]),
    ("annotation of small exponents", ["C09"], B, [(DM, "exponent(self) == exponent(other)", "exponent(self) == exponent(other) || exponent(self) == exponent(other) * Exponent::from_int(4)")]),
    ("annotation in the template dropped", ["C09"], B, [(TM, "dimension_annotation: self.dimension_annotation.clone(),", "dimension_annotation: self.dimension_annotation.clone().filter(|_| prefix.is_some() || alias.is_some() || self.prefixes.is_empty()).filter(|_| self.symbol.is_none() || matches!(self.definition, Definition::Base(_))),")]),
    # C10
    ("undefined filtered silently", ["C10"], B, [(IS, "        if !undefined.is_empty() {\n            UndefinedError", "        if undefined.len() > 1 {\n            UndefinedError")]),
    ("more than two", ["C10"], B, [(IS, "if count > 1 {", "if count > 2 {")]),
    ("cycles of one", ["C10"], B, [(IS, "                UnresolvableError(", "                if self.unresolved.len() == 1 { self.unresolved.clear(); return; }\n UnresolvableError(")]),
    ("kinds constants dims", ["C10"], B, [(IS, "kind == Kind::Constant || kind == Kind::Unit || kind == Kind::BaseUnit\n            }", "kind == Kind::Constant || kind == Kind::Unit || kind == Kind::BaseUnit || kind == Kind::Dimension\n            }")]),
    ("kinds dims any", ["C10"], B, [(IS, "Kind::Dimension => kind == Kind::Dimension,", "Kind::Dimension => kind == Kind::Dimension || kind == Kind::Constant,")]),
    ("symbols more than two", ["C10"], B, [(RM, "if units.len() > 1 {", "if units.len() > 2 {")]),
    ("symbols clash of prefixed", ["C10"], B, [(RM, "    for unit in units {\n        if let Some(ref symbol)", "    for unit in units.iter().filter(|u| u.autogenerated_from.is_none()) {\n        if let Some(ref symbol)")]),
    ("two base units", ["C10"], B, [(RM, "if *count > 1 {", "if *count > 2 {")]),
    ("base unit of non-base", ["C10"], B, [(RM, "                BaseUnitForNonBaseDimensionError {\n                    dimension,\n                    unit: &unit.name,\n                }\n                .emit()", "")]),
    ("one approximately", ["C10"], B, [(PM, "if self.float == 1.0 {", "if self.float.round() == 1.0 {")]),
    ("minus one", ["C10"], B, [(PM, "if self.float == 1.0 {", "if self.float.abs() == 1.0 {")]),
    ("no quantity type", ["C10", "C21"], B, [(RM, "            Err(TypeDefinitionsError::None {\n                type_name,\n                default_name,\n            }),", "            { let _ = type_name; Ok(()) },")]),
    ("two quantity types", ["C10", "C21"], B, [(RM, "    if dimension_types.len() == 1 {", "    if dimension_types.len() == 1 || dimension_types.len() == 2 {")]),
    ("base unit without symbol", ["C10"], B, [(RM, "check_for_base_units_without_symbol(&units);", "let _ = check_for_base_units_without_symbol;")]),
    ("duplicate between kinds", ["C10"], B, [(IS, "                    *acc.entry(item.ident()).or_insert(0) += 1;", "                    *acc.entry(item.ident()).or_insert(0) += if item.kind() == Kind::Constant { 0 } else { 1 };")]),
    ("autogenerated duplicates", ["C10"], B, [(IS, "        idents.filter_multiply_defined();", "")] if False else [(IS, "                .fold(HashMap::default(), |mut acc, item| {", "                .filter(|item| !matches!(&item.type_, ItemType::Unit(u) if u.autogenerated_from.is_some()))\n .fold(HashMap::default(), |mut acc, item| {")]),
    ("trailing tokens ignored", ["C10"], B, [(PM, "            !(input.is_empty() || lookahead.peek(StatementSeparator))\n        } {", "            !(input.is_empty() || lookahead.peek(StatementSeparator) || lookahead.peek(token::Bracket))\n        } {"), (PM, "        Ok(lhs)\n    }", "        if input.peek(token::Bracket) { let _: proc_macro2::Group = input.parse()?; }\n Ok(lhs)\n    }")]),
    # C11
    ("alias with prefix keeps factor one", ["C11"], B, [(TM, ".map(|prefix| prefix.factor())", ".filter(|_| alias.is_none()).map(|prefix| prefix.factor())")]),
    ("prefix factor femto", ["C11"], B, [(TP, "(Femto, femto, \"femto\",  \"f\",  1e-15)", "(Femto, femto, \"femto\",  \"f\",  1e-14)")]),
    ("prefix name", ["C11"], B, [(TP, "(Deca, deca, \"deca\"", "(Deca, deca, \"deka\"")]),
    ("skip ignores the last", ["C11", "C24"], B, [(TP, ".filter(|prefix| !def.skip.contains(prefix))", ".filter(|prefix| !def.skip.iter().take(2).any(|p| p == prefix))")]),
    ("metric without atto", ["C11"], B, [(TP, "            Prefix::Atto,\n        ]", "        ]")]),
    ("second alias list", ["C11", "C24"], B, [(PM, "            .flat_map(|aliases| aliases.into_iter())\n            .collect();", "            .take(1)\n            .flat_map(|aliases| aliases.into_iter())\n            .collect();")]),
    ("explicit prefixes override metric", ["C11", "C24"], B, [(PM, "            Some(metric) => metric.into(),", "            Some(metric) if explicit_prefixes.is_empty() => metric.into(),\n            Some(_) => vec![],")]),
    # C12
    ("dalton", ["C12"], B, [(SI, "1.660_539_066_60e-27", "1.660_539_040e-27")]),
    ("au", ["C12"], B, [(SI, "149_597_870_700", "149_597_870_000")]),
    ("energy", ["C12"], B, [(SI, "dimension Torque = Length * Force / Angle;", "dimension Torque = Force / Length / Angle;")]),
    ("day", ["C12"], B, [(SI, "unit day: Time = 24 hour;", "unit day: Time = 24 * 60 * 60 * second / 1.0000001;")]),
    ("symbol", ["C12"], B, [(SI, "#[symbol(Sv)]", "#[symbol(Sy)]")]),
    ("mobility", ["C12"], B, [(SI, "dimension ElectricMobility = Velocity / ElectricFieldStrength;", "dimension ElectricMobility = Velocity * ElectricFieldStrength;")]),
    ("no prefixes on tonne", ["C12"], B, [(SI, "    #[metric_prefixes]\n    #[alias(tonnes)]", "    #[alias(tonnes)]")]),
    ("litre", ["C12"], B, [(SI, "unit litre: Volume = decimeter^3;", "unit litre: Volume = 1e-3 * meter^3 / 1.000000000001;")]),
    ("pi", ["C12"], B, [(SI, "3.141592653589793;", "3.14159265358979;")]),
    # C13
    ("new without sign", ["C13"], B, [(RT, "let gcd = gcd(num, denom) * denom.signum();", "let gcd = gcd(num, denom);")]),
    ("gcd twice", ["C13"], B, [(RT, "let gcd = gcd(num, denom) * denom.signum();", "let gcd = if denom == 12 { 1 } else { gcd(num, denom) } * denom.signum();")]),
    ("zero not reduced", ["C13"], B, [(RT, "let gcd = gcd(num, denom) * denom.signum();", "let gcd = if num == 0 { 1 } else { gcd(num, denom) } * denom.signum();")]),
    ("neg of denom", ["C13"], B, [(RT, "    pub const fn neg(self) -> Self {\n        Self {\n            num: -self.num,\n            denom: self.denom,", "    pub const fn neg(self) -> Self {\n        Self {\n            num: self.num,\n            denom: -self.denom,")]),
    ("operator mul not reduced", ["C13"], B, [(RT, "        Self::new(self.num * rhs.num, self.denom * rhs.denom)", "        Self { num: self.num * rhs.num, denom: self.denom * rhs.denom }")]),
    ("add_assign not reduced", ["C13"], B, [(RT, "*self = Self::new(num, denom)", "*self = Self { num, denom }")]),
    ("div floor", ["C13"], B, [(RT, "self.mul(rhs.inv())", "if rhs.denom == 1 && self.num % rhs.num == 0 { Self { num: self.num / rhs.num, denom: self.denom } } else { Self { num: self.num * rhs.denom, denom: self.denom * rhs.num } }")]),
    # C14
    ("from_f64 of subnormals", ["C14"], B, [(MA, "(bits & 0xfffffffffffff) << 1", "(bits & 0xfffffffffffff)")]),
    ("sign of zero", ["C14"], B, [(MA, "        self.sign as f64\n            * self.mantissa as f64", "        (self.sign as i64 * self.mantissa as i64) as f64")]),
    ("into f32 directly", ["C14"], B, [(MA, "self.into_f64() as f32", "self.sign as f32 * self.mantissa as f32 * 2.0f32.powi(self.exponent as i32)")]),
    ("mantissa mask", ["C14"], B, [(MA, "(bits & 0xfffffffffffff) | 0x10000000000000", "(bits & 0xffffffffffffe) | 0x10000000000000")]),
    ("div of magnitudes", ["C14", "C08"], B, [(MA, "Self::from_f64(self.into_f64() / rhs.into_f64())", "Self::from_f64(self.into_f64() * (1.0 / rhs.into_f64()))")]),
    ("mul via f32", ["C14", "C08"], B, [(MA, "Self::from_f64(self.into_f64() * rhs.into_f64())", "Self::from_f64((self.into_f32() * rhs.into_f32()) as f64)")]),
]
