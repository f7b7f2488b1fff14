S = "crates/diman_unit_system/src/codegen/serde.rs"
R = "crates/diman_lib/src/runtime_unit_storage.rs"
X = "crates/diman_lib/src/dimension_exponent.rs"
Q = "crates/diman_lib/src/ratio.rs"
C = ["C15"]
EDITS = [
    ("factor of the last unit only", C, "bug", [(S, "total_factor *= factor", "total_factor = factor")]),
    ("factors added", C, "bug", [(S, "total_factor *= factor", "total_factor += factor")]),
    ("factors start from zero point", C, "bug", [(S, "let mut total_factor = 1.0;", "let mut total_factor = 2.0;")]),
    ("dimensions subtracted", C, "bug", [(S, "total_dimension.add(dimension.clone())", "total_dimension.sub(dimension.clone())")]),
    ("exponent ignored in the factor", C, "bug", [(S, "Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64()", "unit.magnitude")]),
    ("exponent ignored in the dimension", C, "bug", [(S, "unit.dimension.#base_dimensions * exponent", "unit.dimension.#base_dimensions")]),
    ("exponents multiplied by one", C, "bug", [(S, "Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent)", "Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::one())")]),
    ("no gate for vectors", C, "bug", [(S, "get_quantity_if_dimensions_match::<#vector_type, D, E>(\n                        value,\n                        (total_factor as #float_type) * vector,\n                        total_dimension,\n                    )",
        "{ let _ = (value, total_dimension); Ok(#quantity_type::<#vector_type, D>((total_factor as #float_type) * vector)) }")]),
    ("gate accepts dimensionless", C, "bug", [(S, "if dimension == D {", "if dimension == D || dimension == #dimension_type::none() {")]),
    ("gate accepts dimensionless target", C, "bug", [(S, "if dimension == D {", "if dimension == D || D == #dimension_type::none() {")]),
    ("u64 without gate", C, "bug", [(S, "fn visit_u64<E>(self, value: u64) -> Result<Self::Value, E>\n                where\n                    E: de::Error,\n                {\n                    if D == #dimension_type::none() {", "fn visit_u64<E>(self, value: u64) -> Result<Self::Value, E>\n                where\n                    E: de::Error,\n                {\n                    if value == 0 || D == #dimension_type::none() {")]),
    ("u64 via i32", C, "bug", [(S, "fn visit_u64<E>(self, value: u64) -> Result<Self::Value, E>\n                where\n                    E: de::Error,\n                {\n                    if D == #dimension_type::none() {\n                        Ok(#quantity_type::<#float_type, D>(value as #float_type))", "fn visit_u64<E>(self, value: u64) -> Result<Self::Value, E>\n                where\n                    E: de::Error,\n                {\n                    if D == #dimension_type::none() {\n                        Ok(#quantity_type::<#float_type, D>(value as i32 as #float_type))")]),
    ("f32 for f64", C, "bug", [(S, "numerical_value * (total_factor as #float_type),", "numerical_value * (total_factor as f32 as #float_type),")]),
    ("first component twice", C, "bug", [(S, "let string = vector_components[dim];", "let string = vector_components[dim / 2];")]),
    ("vector components parsed in single precision", C, "bug", [(S, ".parse::<#float_type>()\n                                .map_err(|e|", ".parse::<f32>().map(|x| x as #float_type)\n                                .map_err(|e|")]),
    ("vector unit factor ignored", C, "bug", [(S, "(total_factor as #float_type) * vector", "{ let _ = total_factor; vector }")]),
    ("case insensitive symbols", C, "bug", [(R, "unit.symbol == symbol", "unit.symbol.eq_ignore_ascii_case(symbol)")]),
    ("prefix of the symbol", C, "bug", [(R, "unit.symbol == symbol", "unit.symbol.starts_with(symbol)")]),
    ("unsigned exponents", C, "bug", [(X, "s.parse::<i32>().ok().map(Self::from_int)", "s.parse::<u16>().ok().map(|x| Self::from_int(x as i32))")]),
    ("ratio upside down", C, "bug", [(Q, "Some(Ratio::new(num.parse::<i32>().ok()? as i64, denom as i64))", "Some(Ratio::new(denom as i64, num.parse::<i32>().ok()? as i64))")]),
    ("unit loop stops after two", C, "bug", [(S, "for unit in split {", "for unit in split.take(2) {")]),
    ("unit loop skips the first", C, "bug", [(S, "for unit in split {", "for unit in split.skip(1) {")]),
    ("last base dimension takes the first's", C, "bug", [(S, "#(#base_dimensions: unit.dimension.#base_dimensions * exponent,)*", "#(#base_dimensions: unit.dimension.#first * exponent,)*"),
        (S, "let base_dimensions: Vec<_> = self.defs.base_dimensions().collect();", "let base_dimensions: Vec<_> = self.defs.base_dimensions().collect();\n        let first = base_dimensions[0];")]),
    ("float_pow of rational as int", C, "bug", [(Q, "num.pow_rational(exponent.num, exponent.denom)", "num.pow_rational(exponent.num / exponent.denom, 1)")]),
    ("symbols of prefixed units only if base", C, "bug", [("crates/diman_unit_system/src/codegen/debug_trait.rs", "let magnitude = unit.magnitude.into_f64();", "let magnitude = unit.magnitude.into_f64() as f32 as f64;")]),
    # behaviour kept
    ("helper for numbers", C, "same", [(S, "fn read_unit_str<E", "fn from_number<S, const D: #dimension_type, E: de::Error>(value: S) -> Result<#quantity_type<S, D>, E> {\n if D != #dimension_type::none() { return Err(E::custom(\"dimensionless numerical value given for non-dimensionless quantity\")); }\n Ok(#quantity_type::<S, D>(value)) }\n            fn read_unit_str<E"),
        (S, "if D == #dimension_type::none() {\n                        Ok(#quantity_type::<#float_type, D>(value as #float_type))\n                    } else {\n                        Err(E::custom(format!(\n                            \"dimensionless numerical value given for non-dimensionless quantity: {}\",\n                            value\n                        )))\n                    }", "from_number(value as #float_type)")]),
    ("fold instead of loop", C, "same", [(S, """let mut total_dimension = #dimension_type::none();
                let mut total_factor = 1.0;
                for unit in split {
                    let (dimension, factor) = read_single_unit_str(unit)?;
                    total_dimension = total_dimension.add(dimension.clone());
                    total_factor *= factor;
                }
                Ok((total_dimension, total_factor))""", """split.into_iter().try_fold((#dimension_type::none(), 1.0), |(d, f), unit| { let (dimension, factor) = read_single_unit_str(unit)?; Ok((d.add(dimension), f * factor)) })""")]),
    ("while let", C, "same", [(S, "fn read_unit_str<E: de::Error>(split: SplitWhitespace)", "fn read_unit_str<E: de::Error>(mut split: SplitWhitespace)"), (S, "for unit in split {", "while let Some(unit) = split.next() {")]),
    ("early return of the gate", C, "same", [(S, "if dimension == D {\n                    Ok(#quantity_type::<S, D>(numerical_value))\n                } else {\n                    Err(", "if dimension != D {\n return Err("),
        (S, "D, dimension, context\n                    )))\n                }", "D, dimension, context\n                    )));\n                }\n Ok(#quantity_type::<S, D>(numerical_value))")]),
    ("split_once", C, "same", [(S, """let (unit, exponent) = if unit_str.contains('^') {
                    let split: Vec<_> = unit_str.split('^').collect();
                    if split.len() != 2 {
                        return Err(E::custom(format!("invalid unit string: {}", unit_str)));
                    }
                    (
                        split[0],
                        Exponent::from_printed(split[1]).ok_or_else(|| {
                            E::custom(format!("unable to parse unit exponent: {}", split[1]))
                        })?,
                    )
                } else {
                    (unit_str, Exponent::one())
                };""", """let (unit, exponent) = match unit_str.split_once('^') {
                    Some((unit, exponent)) => (unit, Exponent::from_printed(exponent).ok_or_else(|| E::custom(format!("unable to parse unit exponent: {}", exponent)))?),
                    None => (unit_str, Exponent::one()),
                };""")]),
    ("loop for lookup", C, "same", [(R, "self.units.iter().find(|unit| unit.symbol == symbol)", "for unit in self.units.iter() { if unit.symbol == symbol { return Some(unit); } } None")]),
    ("ok_or for lookup", C, "same", [(S, ".ok_or_else(|| E::custom(format!(\"unknown unit: {}\", &unit)))?;", ".map_or_else(|| Err(E::custom(format!(\"unknown unit: {}\", &unit))), Ok)?;")]),
    ("match for lookup", C, "same", [(S, "let unit = units\n                    .get_unit_by_symbol(unit)\n                    .ok_or_else(|| E::custom(format!(\"unknown unit: {}\", &unit)))?;", "let unit = match units.get_unit_by_symbol(unit) { Some(u) => u, None => return Err(E::custom(format!(\"unknown unit: {}\", &unit))) };")]),
    ("vector by match", C, "same", [(S, "let mut array = [0.0; #num_dims];\n                    for dim in 0..#num_dims {\n                        let string = vector_components[dim];\n                        array[dim] = string", "let mut array = [0.0; #num_dims];\n                    for (dim, string) in vector_components.iter().enumerate() {\n                        array[dim] = string")]),
    ("fields of the unit reordered", C, "same", [(R, "pub symbol: &'a str,\n    pub dimension: D,\n    pub magnitude: f64,", "pub magnitude: f64,\n    pub symbol: &'a str,\n    pub dimension: D,")]),
    ("helper for unit power", C, "same", [(S, "Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64()", "unit_factor(unit.magnitude, exponent)"), (S, "fn read_unit_str<E", "fn unit_factor(magnitude: f64, exponent: Exponent) -> f64 { let m = Magnitude::from_f64(magnitude); Exponent::float_pow(m, exponent).into_f64() }\n fn read_unit_str<E")]),
    ("from_printed by match", C, "same", [(X, "s.parse::<i32>().ok().map(Self::from_int)", "match s.parse::<i32>() { Ok(x) => Some(Self::from_int(x)), Err(_) => None }")]),
    ("multiplication the other way", C, "same", [(S, "(total_factor as #float_type) * vector", "vector * (total_factor as #float_type)")]),
]
