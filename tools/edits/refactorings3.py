"""Edits that keep the behaviour; every check has to stay quiet."""
CG = "crates/diman_unit_system/src/codegen/"
O, N, F, G, V, Q, D, U, ST = (CG + f for f in ("num_traits/operator_trait.rs", "num_traits/mod.rs", "float_methods.rs", "generic_methods.rs",
    "vector_methods.rs", "quantity_type.rs", "dimension_type.rs", "unit_type.rs", "storage_types.rs"))
UC, DI, RA, MPI, H5, SE, DB = (CG + f for f in ("units_and_constants.rs", "dimensions.rs", "rand.rs", "mpi.rs", "hdf5.rs", "serde.rs", "debug_trait.rs"))
MA, RT, DE, RS = ("crates/diman_lib/src/" + f for f in ("magnitude.rs", "ratio.rs", "dimension_exponent.rs", "runtime_unit_storage.rs"))
US = "crates/diman_unit_system/src/"
DM, IS, RM, RE, PM, PA, TM, TP, TE, TB = (US + f for f in ("dimension_math.rs", "resolve/ident_storage.rs", "resolve/mod.rs", "resolve/error.rs", "parse/mod.rs",
    "parse/attributes.rs", "types/mod.rs", "types/prefixes.rs", "types/expression.rs", "types/base_dimension.rs"))
EDITS = [
    ("magnitude and ratio rewritten", ["ALL"], "same", [
        (MA, """        // Scale in two steps: for very small magnitudes, the full power of two underflows.
        let exponent = self.exponent as i32;
        self.sign as f64
            * self.mantissa as f64
            * 2.0f64.powi(exponent / 2)
            * 2.0f64.powi(exponent - exponent / 2)""",
         """        let (first, second) = Self::split_exponent(self.exponent);
        let unsigned = self.mantissa as f64 * first * second;
        if self.sign < 0 {
            -unsigned
        } else {
            unsigned
        }"""),
        (MA, "    #[inline]\n    pub fn into_f32(self) -> f32 {", """    // For very small magnitudes, the full power of two underflows.
    fn split_exponent(exponent: i16) -> (f64, f64) {
        let exponent = exponent as i32;
        let half = exponent / 2;
        (2.0f64.powi(half), 2.0f64.powi(exponent - half))
    }

    #[inline]
    pub fn into_f32(self) -> f32 {"""),
        (MA, "    exponent -= 1023 + 52;\n    (mantissa, exponent, sign)", "    exponent -= 1075;\n    (mantissa, exponent, sign)"),
        (MA, "        Self::from_f64(self.into_f64() / rhs.into_f64())", "        self / rhs.into_f64()"),
        (MA, "        Self::from_f64(self.into_f64() * rhs.into_f64())", "        rhs * self.into_f64()"),
        (MA, "    fn mul(self, rhs: Magnitude) -> Self::Output {\n        self * rhs.into_f32()", "    fn mul(self, rhs: Magnitude) -> Self::Output {\n        let factor: f32 = rhs.into_f32();\n        factor * self"),
        (RT, """const fn gcd(mut a: i64, mut b: i64) -> i64 {
    while b != 0 {
        let temp = b;
        b = a % b;
        a = temp;
    }
    a.abs()
}""", """const fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        if a < 0 {
            -a
        } else {
            a
        }
    } else {
        gcd(b, a % b)
    }
}"""),
        (RT, """        let gcd = gcd(num, denom) * denom.signum();
        Self {
            num: num / gcd,
            denom: denom / gcd,
        }""", """        let divisor = gcd(num, denom);
        let sign = if denom < 0 { -1 } else { 1 };
        Self {
            num: sign * (num / divisor),
            denom: sign * (denom / divisor),
        }"""),
        (RT, "        Self { num: 1, denom: 1 }", "        Self::int(1)"),
        (RT, "        Self { num: 0, denom: 1 }", "        Ratio::from_int(0)"),
        (RT, """        match s.split_once('/') {
            Some((num, denom)) => {
                let denom = denom.parse::<i32>().ok().filter(|denom| *denom != 0)?;
                Some(Ratio::new(num.parse::<i32>().ok()? as i64, denom as i64))
            }
            None => s.parse::<i32>().ok().map(Self::from_int),
        }""", """        let parse = |s: &str| s.parse::<i32>().ok().map(i64::from);
        if let Some((num, denom)) = s.split_once('/') {
            let (num, denom) = (parse(num)?, parse(denom)?);
            if denom == 0 {
                return None;
            }
            return Some(Ratio::new(num, denom));
        }
        parse(s).map(Ratio::int)"""),
        (RT, """        if self.denom == 1 {
            write!(f, "{}", self.num)
        } else {
            write!(f, "{}/{}", self.num, self.denom)
        }""", """        write!(f, "{}", self.num)?;
        if self.denom != 1 {
            write!(f, "/{}", self.denom)?;
        }
        Ok(())"""),
        (RT, "        Self::new(self.num * rhs.num, self.denom * rhs.denom)\n", "        Ratio::mul(self, rhs)\n"),
        (DE, "        s.parse::<i32>().ok().map(Self::from_int)", "        match s.parse::<i32>() {\n            Ok(i) => Some(Self::from_int(i)),\n            Err(_) => None,\n        }"),
        (RS, "        self.units.iter().find(|unit| unit.dimension == dim)", "        for unit in self.units {\n            if unit.dimension == dim {\n                return Some(unit);\n            }\n        }\n        None"),
        (RS, "        self.units.iter().find(|unit| unit.symbol == symbol)", "        let index = self.units.iter().position(|unit| unit.symbol == symbol)?;\n        Some(&self.units[index])"),
        (DB, "                        write!(f, \" {}\", unit.symbol)\n", "                        f.write_str(\" \")?;\n                        f.write_str(unit.symbol)\n"),
        (DB, "            if D.#base_dim == Exponent::one() {\n                write!(f, \" {}\", #symbol)?;\n            }\n            else if D.#base_dim != Exponent::zero() {\n                write!(f, \" {}^{}\", #symbol, D.#base_dim)?;\n            }", "            if D.#base_dim != Exponent::zero() {\n                write!(f, \" {}\", #symbol)?;\n                if D.#base_dim != Exponent::one() {\n                    write!(f, \"^{}\", D.#base_dim)?;\n                }\n            }"),
        (DB, "            .filter_map(|unit| {\n                let dim = self.get_dimension_expr(&unit.dimensions);\n                let magnitude = unit.magnitude.into_f64();\n                let symbol = &unit.symbol.as_ref()?.0.to_string();\n                Some(quote! {", "            .filter_map(|unit| unit.symbol.as_ref().map(|symbol| (unit, symbol.0.to_string())))\n            .filter_map(|(unit, symbol)| {\n                let magnitude: f64 = unit.magnitude.into_f64();\n                let dim = self.get_dimension_expr(&unit.dimensions);\n                Some(quote! {"),
    ]),
    ("methods by other ways", ["ALL"], "same", [
        (N, "                    let mut total = Self::default();\n                    for item in iter {\n                        total += item;\n                    }\n                    total", "                    let mut total = Self(S::default());\n                    iter.for_each(|item| total.0 += item.0);\n                    total"),
        (N, "                    Self(-self.0)", "                    let Self(value) = self;\n                    Self(value.neg())"),
        (F, "self.0.powi(2)", "self.powi_value(2)"),
        (F, "self.0.powi(3)", "self.powi_value(3)"),
        (F, "                #roots\n", "                fn powi_value(&self, i: i32) -> #float_type {\n                    self.0.powi(i)\n                }\n\n                #roots\n"),
        (F, "self.0 > 0.0", "matches!(self.0.partial_cmp(&0.0), Some(core::cmp::Ordering::Greater))"),
        (F, "self.0 >= 0.0", "self.is_positive() || self.0 == 0.0"),
        (F, "self.0 <= 0.0", "0.0 >= self.0"),
        (F, "                    Self(self.0.clamp(min.into().0, max.into().0))", "                    let (Self(min), Self(max)) = (min.into(), max.into());\n                    Self(self.0.clamp(min, max))"),
        (F, "Self(self.0.max(other.into().0))", "Self(other.into().0).max_quantity(self)"),
        (F, "                pub fn zero() -> Self {\n                    Self(0.0)", "                fn max_quantity(self, other: Self) -> Self {\n                    Self(other.0.max(self.0))\n                }\n\n                pub fn zero() -> Self {\n                    Self::new_unchecked(0.0)"),
        (V, "                    Self(<#vector_type_name>::new(x.value_unchecked(), y.value_unchecked(), z.value_unchecked()))", "                    Self(<#vector_type_name>::from_array([x.0, y.0, z.0]))"),
        (V, "                    Self(<#vector_type_name>::new(x.value_unchecked(), y.value_unchecked()))", "                    let components = (x.0, y.0);\n                    Self(<#vector_type_name>::from(components))"),
        (V, "                    q * <#vector_type_name>::X\n", "                    Self(q.0 * <#vector_type_name>::X)\n"),
        (V, "                    q * <#vector_type_name>::Z\n", "                    let unit_vector = <#vector_type_name>::Z;\n                    q * unit_vector\n"),
        (V, "(self.0.distance_squared(other.0))", "((self.0 - other.0).length_squared())"),
        (V, "(self.0.distance(other.0))", "((self.0 - other.0).length())"),
        (V, "                    #quantity_type(self.0.z)", "                    let value: #float_type = self.value_unchecked_ref().z;\n                    #quantity_type(value)"),
        (V, "Self(self.0.max(rhs.0))", "Self(<#vector_type_name>::max(self.0, rhs.0))"),
        (RA, "UniformQuantity<S, const D: #dimension_type>(UniformFloat<S>);", "UniformQuantity<S, const D: #dimension_type> {\n                inner: UniformFloat<S>,\n            }"),
        (RA, "                    UniformQuantity::<#float_type, D>(UniformFloat::<#float_type>::new(\n                        low.borrow().0,\n                        high.borrow().0,\n                    ))", "                    UniformQuantity {\n                        inner: UniformFloat::<#float_type>::new(low.borrow().0, high.borrow().0),\n                    }"),
        (RA, "                    UniformQuantity::<#float_type, D>(UniformFloat::<#float_type>::new_inclusive(\n                        low.borrow().0,\n                        high.borrow().0,\n                    ))", "                    let inner = UniformFloat::<#float_type>::new_inclusive(low.borrow().0, high.borrow().0);\n                    UniformQuantity { inner }"),
        (RA, "(self.0.sample(rng))", "(self.inner.sample(rng))"),
        (U, "                fn mul(self, x: Quantity<S, DR>) -> Self::Output {\n                    Quantity(x.value_unchecked() * FL)", "                fn mul(self, x: Quantity<S, DR>) -> Self::Output {\n                    Quantity(x.0 * FL)"),
        (U, "                    Quantity(self.value_unchecked() * FR)", "                    Quantity(<S as Mul<Magnitude>>::mul(self.0, FR))"),
        (U, "                    Quantity(x.value_unchecked() * self.0)", "                    let RuntimeUnit(factor) = self;\n                    Quantity(x.0 * factor)"),
        (U, "                    Quantity(self * #into)", "                    let factor = #into;\n                    Quantity(factor * self)"),
        (U, "                    Quantity(self * unit.0.#conversion_to_float())", "                    unit * self"),
        (U, "                    Quantity(#into / x.value_unchecked())", "                    let numerator = #into;\n                    Quantity(numerator / x.0)"),
        (U, "                    Quantity(val * self.0)", "                    Quantity::<S, D>::new_unchecked(val * Magnitude::from(self))"),
        (Q, "self.value_unchecked() / a.into()", "let magnitude: Magnitude = a.into();\n                    core::ops::Div::div(self.0, magnitude)"),
        (Q, "                pub fn value_unchecked(self) -> S {\n                    self.0", "                pub fn value_unchecked(self) -> S {\n                    let Self(value) = self;\n                    value"),
        (Q, "                pub fn value(self) -> S {\n                    self.0", "                pub fn value(self) -> S {\n                    self.value_unchecked()"),
    ]),
    ("operators and dimensions otherwise", ["ALL"], "same", [
        (O, "        let result = quote! { #lhs.#fn_name(#deref_or_ref #rhs) };\n        if output_type.is_some() {\n            quote! { #quantity_type ( #result ) }\n        } else {\n            result\n        }",
         "        let name = self.name.name();\n        let result = if output_type.is_some() {\n            quote! { #name::#fn_name(#lhs, #deref_or_ref #rhs) }\n        } else {\n            quote! { #lhs.#fn_name(#deref_or_ref #rhs) }\n        };\n        match output_type {\n            Some(_) => quote! { let result = #result; #quantity_type ( result ) },\n            None => result,\n        }"),
        (D, "self.#ident * other as i64", "(other as i64) * self.#ident"),
        (SE, "                let mut total_dimension = #dimension_type::none();\n                let mut total_factor = 1.0;\n                for unit in split {\n                    let (dimension, factor) = read_single_unit_str(unit)?;\n                    total_dimension = total_dimension.add(dimension.clone());\n                    total_factor *= factor;\n                }\n                Ok((total_dimension, total_factor))",
         "                split.map(read_single_unit_str).try_fold((#dimension_type::none(), 1.0), |(total_dimension, total_factor), unit| {\n                    let (dimension, factor) = unit?;\n                    Ok((total_dimension.add(dimension), total_factor * factor))\n                })"),
        (SE, """                let (unit, exponent) = if unit_str.contains('^') {
                    let split: Vec<_> = unit_str.split('^').collect();
                    if split.len() != 2 {
                        return Err(E::custom(format!("invalid unit string: {}", unit_str)));
                    }
                    (
                        split[0],
                        Exponent::from_printed(split[1]).ok_or_else(|| {
                            E::custom(format!("unable to parse unit exponent: {}", split[1]))
                        })?,
                    )
                } else {
                    (unit_str, Exponent::one())
                };""", """                let mut split = unit_str.split('^');
                let unit = split.next().unwrap_or("");
                let exponent = match (split.next(), split.next()) {
                    (None, _) => Exponent::one(),
                    (Some(exponent), None) => match Exponent::from_printed(exponent) {
                        Some(exponent) => exponent,
                        None => return Err(E::custom(format!("unable to parse unit exponent: {}", exponent))),
                    },
                    (Some(_), Some(_)) => return Err(E::custom(format!("invalid unit string: {}", unit_str))),
                };"""),
        (SE, "                if dimension == D {\n                    Ok(#quantity_type::<S, D>(numerical_value))\n                } else {\n                    Err(E::custom(format!(\n                        \"mismatch in dimensions: needed: {:?} given: {:?} in string: {}\",\n                        D, dimension, context\n                    )))\n                }",
         "                if dimension != D {\n                    return Err(E::custom(format!(\n                        \"mismatch in dimensions: needed: {:?} given: {:?} in string: {}\",\n                        D, dimension, context\n                    )));\n                }\n                Ok(#quantity_type(numerical_value))"),
        (SE, """                    let mut array = [0.0; #num_dims];
                    for dim in 0..#num_dims {
                        let string = vector_components[dim];
                        array[dim] = string
                            .parse::<#float_type>()
                                .map_err(|e| E::custom(format!("While parsing component {}: {}, '{}'", dim, e, string)))?;

                    }
                    let vector = <#vector_type>::from_array(array);""", """                    let mut array: [#float_type; #num_dims] = [0.0; #num_dims];
                    for (dim, string) in vector_components.iter().enumerate() {
                        match string.parse() {
                            Ok(component) => array[dim] = component,
                            Err(e) => return Err(E::custom(format!("While parsing component {}: {}, '{}'", dim, e, string))),
                        }
                    }
                    let vector: #vector_type = array.into();"""),
        (SE, "                    if bracket_begin != 0 {\n                        return", "                    if !vector_part.starts_with('(') {\n                        return"),
        (SE, "                    serializer.serialize_str(&vec_str.replace(\"[\", \"(\").replace(\"]\", \")\").replace(\",\", \"\"))", "                    let text: String = vec_str\n                        .chars()\n                        .filter(|c| *c != ',')\n                        .map(|c| match c {\n                            '[' => '(',\n                            ']' => ')',\n                            c => c,\n                        })\n                        .collect();\n                    serializer.serialize_str(&text)"),
        (DI, "        let none_update = if dim.num_fields() < self.defs.base_dimensions.len() {\n            quote! { ..#dimension_type::none() }\n        } else {\n            quote! {}\n        };", "        let complete = dim.num_fields() >= self.defs.base_dimensions.len();\n        let none_update = (!complete).then(|| quote! { ..#dimension_type::none() });"),
        (H5, "        join([self.hdf5_floats_impl(), self.hdf5_vectors_impl()])", "        let mut impls = self.hdf5_vectors_impl();\n        impls.extend(self.hdf5_floats_impl());\n        impls"),
    ]),
    ("front end otherwise", ["ALL"], "same", [
        (RM, "    if dimension_types.len() == 1 {\n        (dimension_types.remove(0), Ok(()))\n    } else if dimension_types.is_empty() {", "    if let [_] = dimension_types.as_slice() {\n        return (dimension_types.remove(0), Ok(()));\n    }\n    if dimension_types.is_empty() {"),
        (RM, "        .into_iter()\n        .map(|x| BaseDimension::from_dimension(&x.name))\n        .collect()", "        .iter()\n        .map(|x| &x.name)\n        .map(BaseDimension::from_dimension)\n        .collect::<Vec<BaseDimension>>()"),
        (RM, "    for unit in units {\n        if unit.is_base_unit && unit.symbol.is_none() {\n            NoSymbolForBaseUnitError(unit).emit();\n        }\n    }", "    units\n        .iter()\n        .filter(|unit| unit.is_base_unit)\n        .filter(|unit| unit.symbol.is_none())\n        .for_each(|unit| NoSymbolForBaseUnitError(unit).emit());"),
        (RM, "        if unit.autogenerated_from.is_some() {\n            continue;\n        }\n        if let Definition::Base(ref dimension) = unit.definition {", "        let written_by_user = unit.autogenerated_from.is_none();\n        if let (true, Definition::Base(dimension)) = (written_by_user, &unit.definition) {"),
        (RM, "    for (symbol, units) in units_by_symbol {\n        if units.len() > 1 {\n            SymbolDefinedMultipleTimes { symbol, units }.emit()\n        }\n    }", "    let mut duplicates: Vec<_> = units_by_symbol.into_iter().filter(|(_, units)| units.len() > 1).collect();\n    duplicates.sort_by_key(|(symbol, _)| symbol.to_string());\n    for (symbol, units) in duplicates {\n        SymbolDefinedMultipleTimes { symbol, units }.emit()\n    }"),
        (IS, """            let next_resolvable_index = self
                .unresolved
                .iter()
                .enumerate()
                .find(|(_, x)| self.is_resolvable(x))
                .map(|(i, _)| i);
            if let Some(index) = next_resolvable_index {
                let next_resolvable = self.unresolved.remove(index);""", """            let next_resolvable_index = self.unresolved.iter().rposition(|x| self.is_resolvable(x));
            if let Some(index) = next_resolvable_index {
                let next_resolvable = self.unresolved.remove(index);"""),
        (IS, "        let all_factors_concrete_or_given = item.expr.iter_vals().all(|val| match val {\n            Factor::Concrete(_) => true,\n            Factor::Other(ident) => self.resolved.contains_key(ident),\n        });\n        all_factors_concrete_or_given", "        !item\n            .expr\n            .iter_vals()\n            .any(|val| matches!(val, Factor::Other(ident) if !self.resolved.contains_key(ident)))"),
        (IS, "            Kind::Dimension => kind == Kind::Dimension,\n            Kind::Unit => kind == Kind::Unit || kind == Kind::BaseUnit || kind == Kind::Constant,\n            Kind::BaseUnit => kind == Kind::Dimension,\n            Kind::Constant => {\n                kind == Kind::Constant || kind == Kind::Unit || kind == Kind::BaseUnit\n            }", "            Kind::Dimension | Kind::BaseUnit => matches!(kind, Kind::Dimension),\n            Kind::Unit | Kind::Constant => !matches!(kind, Kind::Dimension),"),
        (IS, "            ItemType::Dimension(_) => None,\n            ItemType::Unit(entry) => entry.dimension_annotation.as_ref(),\n            ItemType::Constant(entry) => entry.dimension_annotation.as_ref(),", "            ItemType::Unit(UnitEntry { dimension_annotation, .. })\n            | ItemType::Constant(ConstantEntry { dimension_annotation, .. }) => dimension_annotation.as_ref(),\n            ItemType::Dimension(_) => None,"),
        (TM, "if self.float == 1.0", "if self.float == 1.0") if False else (UC, "    fn gen_constant_def(", "    #[allow(dead_code)]\n    fn nothing(&self) {}\n\n    fn gen_constant_def("),
    ]),
]
