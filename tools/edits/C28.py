"""Edits for C28: reading never panics."""
S = "crates/diman_unit_system/src/codegen/serde.rs"; RT = "crates/diman_lib/src/ratio.rs"; DE = "crates/diman_lib/src/dimension_exponent.rs"
MA = "crates/diman_lib/src/magnitude.rs"; RS = "crates/diman_lib/src/runtime_unit_storage.rs"
B, E = "bug", "same"
UNK = '                    .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;\n'
NUM = '                        .ok_or_else(|| E::custom("unable to parse empty string"))?;\n'
PEXP = '''                        Exponent::from_printed(split[1]).ok_or_else(|| {
                            E::custom(format!("unable to parse unit exponent: {}", split[1]))
                        })?,
'''
LEN = '                    if split.len() != 2 {\n'
NC = '                    if vector_components.len() != #num_dims {\n'
CUT = '                    let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();\n'
END = '''                        .find(')')
                        .ok_or_else(|| E::custom("No closing bracket in vector string"))?;
'''
BEG = '''                        .find('(')
                        .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
'''
COMP = '''                            .parse::<#float_type>()
                                .map_err(|e| E::custom(format!("While parsing component {}: {}, '{}'", dim, e, string)))?;
'''
ADD = '''                        #(#base_dimensions: Exponent::checked_add(
                            total_dimension.#base_dimensions,
                            dimension.#base_dimensions,
                        ).ok_or_else(|| E::custom(format!("unit exponents too large at: {}", unit)))?,)*
'''
MUL = '''                        #(#base_dimensions: Exponent::checked_mul(unit.dimension.#base_dimensions, exponent)
                            .ok_or_else(|| E::custom(format!("unit exponent too large: {}", unit_str)))?,)*
'''
DEN = "                let denom = denom.parse::<i32>().ok().filter(|denom| *denom != 0)?;\n"
SEP = "                let mut total_factor = 1.0;\n"
LOOP = '''                for unit in split {
                    let (dimension, factor) = read_single_unit_str(unit)?;
'''
FIN = '                let (total_dimension, total_factor) = read_unit_str(split)?;\n'
FIN = '                    let (total_dimension, total_factor) = read_unit_str(split)?;\n'
MISM = '                if dimension == D {\n                    Ok('
EDITS = [
    ("unknown units expected", ["C28"], B, [(S, UNK, '                    .expect("unit");\n')]),
    ("number expected", ["C28"], B, [(S, NUM, '                        .unwrap();\n')]),
    ("exponent expected", ["C28"], B, [(S, PEXP, "                        Exponent::from_printed(split[1]).unwrap(),\n")]),
    ("exponent of 64 bits", ["C28"], B, [(DE, "s.parse::<i32>().ok().map(Self::from_int)", "s.parse::<i64>().ok()"), (S, ADD, "                        #(#base_dimensions: total_dimension.#base_dimensions + dimension.#base_dimensions,)*\n"),
        (RT, "impl core::ops::AddAssign for Ratio {", "impl core::ops::Add for Ratio { type Output = Self; fn add(self, rhs: Self) -> Self { Ratio::add(self, rhs) } }\nimpl core::ops::AddAssign for Ratio {")]),
    ("zero denominators", ["C28"], B, [(RT, DEN, "                let denom = denom.parse::<i32>().ok()?;\n")]),
    ("negative denominators only", ["C28"], B, [(RT, ".filter(|denom| *denom != 0)?", ".filter(|denom| *denom >= 0)?")]),
    ("at most two parts", ["C28"], B, [(S, NC, NC.replace("!=", ">"))]),
    ("exponent parts at most", ["C28"], E, [(S, LEN, LEN.replace("!= 2", "> 2"))]),
    ("no check of exponent parts", ["C28"], E, [(S, LEN, "                    if false {\n")]),
    ("three parts needed", ["C28"], B, [(S, "split[0],\n", "split[2],\n"), (S, LEN, LEN.replace("!= 2", "< 2"))]),
    ("cut at one", ["C28"], B, [(S, CUT, "                    let vector_part = value[1..bracket_end].to_string();\n"), (S, "if bracket_begin != 0 {", "if false {")]),
    ("cut at a fixed place", ["C28"], B, [(S, CUT, "                    let vector_part = value[2..].to_string();\n")]),
    ("bracket expected", ["C28"], B, [(S, END, "                        .find(')').unwrap();\n")]),
    ("opening bracket expected", ["C28"], B, [(S, BEG, "                        .find('(').unwrap();\n")]),
    ("component expected", ["C28"], B, [(S, COMP, "                            .parse::<#float_type>().unwrap();\n")]),
    ("factor asserted", ["C28"], B, [(S, "                    total_factor *= factor;\n", "                    total_factor *= factor;\n                    assert!(total_factor.is_finite());\n")]),
    ("factor asserted in debug", ["C28"], B, [(S, "                    total_factor *= factor;\n", "                    total_factor *= factor;\n                    debug_assert!(total_factor > 0.0);\n")]),
    ("dimension asserted", ["C28"], B, [(S, MISM, "                assert_eq!(dimension, D);\n" + MISM)]),
    ("plain sum", ["C28"], B, [(S, ADD, "                        #(#base_dimensions: { let mut x = total_dimension.#base_dimensions; x += dimension.#base_dimensions; x },)*\n")]),
    ("sum of dimensions", ["C28"], B, [(S, "total_dimension = #dimension_type {\n" + ADD + "                    };\n", "total_dimension = total_dimension.add(dimension.clone());\n")]),
    ("plain product", ["C28"], E, [(S, MUL, "                        #(#base_dimensions: unit.dimension.#base_dimensions * exponent,)*\n")]),
    ("wrapping sum of ratios", ["C28"], B, [(RT, "Some(Self::new(lhs_num.checked_add(rhs_num)?, denom))", "Some(Self::new(lhs_num.wrapping_add(rhs_num), denom))")]),
    ("unchecked sum of ratios", ["C28"], B, [(RT, "Some(Self::new(lhs_num.checked_add(rhs_num)?, denom))", "Some(Self::new(lhs_num + rhs_num, denom))")]),
    ("unchecked denominators", ["C28"], B, [(RT, "        let rhs_num = rhs.num.checked_mul(self.denom)?;\n        let denom = self.denom.checked_mul(rhs.denom)?;\n", "        let rhs_num = rhs.num.checked_mul(self.denom)?;\n        let denom = self.denom * rhs.denom;\n")]),
    ("checked by plain", ["C28"], B, [(RT, "        let lhs_num = self.num.checked_mul(rhs.denom)?;\n", "        return Some(Ratio::add(self, rhs));\n        #[allow(unreachable_code)]\n        let lhs_num = self.num.checked_mul(rhs.denom)?;\n")]),
    ("checked sum expected", ["C28"], B, [(RT, "        let lhs_num = self.num.checked_mul(rhs.denom)?;\n", "        let lhs_num = self.num.checked_mul(rhs.denom).expect(\"too large\");\n")]),
    ("saturating sum", ["C28"], B, [(RT, "Some(Self::new(lhs_num.checked_add(rhs_num)?, denom))", "Some(Self::new(lhs_num.saturating_add(rhs_num), denom))")]),
    ("wrong sum", ["C28"], B, [(RT, "        let lhs_num = self.num.checked_mul(rhs.denom)?;\n", "        let lhs_num = self.num.checked_mul(self.denom)?;\n")]),
    ("visit_i64 narrowed", ["C28"], B, [(S, "value as #float_type))", "i32::try_from(value).unwrap() as #float_type))")]),
    ("visit_i64 debug range", ["C28"], B, [(S, "                fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E>\n                where\n                    E: de::Error,\n                {\n", "                fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E>\n                where\n                    E: de::Error,\n                {\n                    debug_assert!(value.abs() < 1 << 53);\n")]),
    ("first character of the unit", ["C28"], B, [(S, LOOP, LOOP + "                    if unit.chars().nth(1).unwrap() == '?' { continue; }\n")]),
    ("last byte", ["C28"], B, [(S, LOOP, LOOP + "                    if unit.as_bytes()[1] == b'?' { continue; }\n")]),
    ("first of the split", ["C28"], B, [(S, "                let (unit, exponent) = if unit_str", "                if unit_str.split_at(1).0 == \"?\" { return Err(E::custom(\"?\")); }\n                let (unit, exponent) = if unit_str")]),
    # the same
    ("is_some and unwrap", ["C28"], E, [(S, "                let unit = units\n                    .get_unit_by_symbol(unit)\n" + UNK, "                let found = units.get_unit_by_symbol(unit);\n                if found.is_none() { return Err(E::custom(format!(\"unknown unit: {}\", &unit))); }\n                let unit = found.unwrap();\n")]),
    ("match for the unit", ["C28"], E, [(S, "                let unit = units\n                    .get_unit_by_symbol(unit)\n" + UNK, "                let unit = match units.get_unit_by_symbol(unit) { Some(u) => u, None => return Err(E::custom(format!(\"unknown unit: {}\", &unit))) };\n")]),
    ("split_once", ["C28"], E, [(S, '''                let (unit, exponent) = if unit_str.contains('^') {
                    let split: Vec<_> = unit_str.split('^').collect();
                    if split.len() != 2 {
                        return Err(E::custom(format!("invalid unit string: {}", unit_str)));
                    }
                    (
                        split[0],
''' + PEXP + '''                    )
                } else {
                    (unit_str, Exponent::one())
                };
''', '''                let (unit, exponent) = match unit_str.split_once('^') {
                    Some((_, e)) if e.contains('^') => return Err(E::custom(format!("invalid unit string: {}", unit_str))),
                    Some((u, e)) => (u, Exponent::from_printed(e).ok_or_else(|| E::custom(format!("unable to parse unit exponent: {}", e)))?),
                    None => (unit_str, Exponent::one()),
                };
''')]),
    ("parts by iterator", ["C28"], E, [(S, "                    let split: Vec<_> = unit_str.split('^').collect();\n", "                    let mut parts = unit_str.split('^');\n                    let head = parts.next().unwrap();\n                    let split: Vec<_> = unit_str.split('^').collect();\n                    let _ = head;\n")]),
    ("match on slices", ["C28"], E, [(S, LEN + '                        return Err(E::custom(format!("invalid unit string: {}", unit_str)));\n                    }\n', "                    match split.as_slice() { [_, _] => {} _ => return Err(E::custom(format!(\"invalid unit string: {}\", unit_str))) }\n")]),
    ("length below", ["C28"], E, [(S, LEN, "                    let n = split.len();\n                    if n < 2 || n > 2 {\n")]),
    ("denominator by match", ["C28"], E, [(RT, DEN, "                let denom = denom.parse::<i32>().ok()?;\n                if denom == 0 { return None; }\n")]),
    ("denominator by nonzero", ["C28"], E, [(RT, DEN, "                let denom = denom.parse::<core::num::NonZeroI32>().ok()?.get();\n")]),
    ("denominator matched", ["C28"], E, [(RT, DEN, "                let denom = match denom.parse::<i32>() { Ok(0) | Err(_) => return None, Ok(d) => d };\n")]),
    ("positive denominators", ["C28"], E, [(RT, ".filter(|denom| *denom != 0)?", ".filter(|denom| *denom > 0)?")]),
    ("read with a fold", ["C28"], E, [(S, '''                let mut total_dimension = #dimension_type::none();
                let mut total_factor = 1.0;
                for unit in split {
                    let (dimension, factor) = read_single_unit_str(unit)?;
                    total_dimension = #dimension_type {
''' + ADD + '''                    };
                    total_factor *= factor;
                }
                Ok((total_dimension, total_factor))
''', '''                let mut split = split;
                split.try_fold((#dimension_type::none(), 1.0), |(total_dimension, total_factor), unit| {
                    let (dimension, factor) = read_single_unit_str(unit)?;
                    Ok((#dimension_type {
''' + ADD + '''                    }, total_factor * factor))
                })
''')]),
    ("while let", ["C28"], E, [(S, "                for unit in split {\n", "                let mut split = split;\n                while let Some(unit) = split.next() {\n")]),
    ("helper for the sum", ["C28"], E, [(S, "                    total_dimension = #dimension_type {\n" + ADD + "                    };\n", "                    total_dimension = sum_of_dimensions(total_dimension, dimension).ok_or_else(|| E::custom(format!(\"unit exponents too large at: {}\", unit)))?;\n"),
        (S, "            fn read_unit_str<E: de::Error>", "            fn sum_of_dimensions(a: #dimension_type, b: #dimension_type) -> Option<#dimension_type> {\n                Some(#dimension_type { #(#base_dimensions: Exponent::checked_add(a.#base_dimensions, b.#base_dimensions)?,)* })\n            }\n\n            fn read_unit_str<E: de::Error>")]),
    ("methods of dimensions", ["C28"], E, [(S, "                    total_dimension = #dimension_type {\n" + ADD + "                    };\n", "                    total_dimension = match total_dimension.checked_sum(&dimension) { Some(d) => d, None => return Err(E::custom(\"too large\")) };\n"),
        (S, "            fn read_unit_str<E: de::Error>", "            impl #dimension_type { fn checked_sum(&self, b: &Self) -> Option<Self> {\n                Some(#dimension_type { #(#base_dimensions: self.#base_dimensions.checked_add(b.#base_dimensions)?,)* })\n            } }\n\n            fn read_unit_str<E: de::Error>"),
        (S, "            use serde::de;\n", "            use serde::de;\n            #[allow(unused_imports)] use diman::internal::dimension_exponent::DimensionExponent as _;\n")]),
    ("unreachable count", ["C28"], E, [(S, NC, "                    if vector_components.len() == #num_dims { } else if vector_components.len() > #num_dims || vector_components.len() < #num_dims {\n")]),
    ("components zipped", ["C28"], E, [(S, '''                    for dim in 0..#num_dims {
                        let string = vector_components[dim];
                        array[dim] = string
''', '''                    for (dim, (slot, string)) in array.iter_mut().zip(vector_components.iter()).enumerate() {
                        *slot = string
''')]),
    ("brackets by strip", ["C28"], E, [(S, CUT, "                    let vector_part = vector_part.trim_start_matches('(').trim_end_matches(')').to_string();\n")]),
    ("cut by offsets", ["C28"], E, [(S, CUT, "                    let vector_part = value[bracket_begin + 1..bracket_end].to_string();\n")]),
    ("cut by get", ["C28"], E, [(S, CUT, "                    let vector_part = match vector_part.get(bracket_begin + 1..bracket_end) { Some(part) => part.to_string(), None => return Err(E::custom(\"brackets\")) };\n")]),
    ("brackets by split_once", ["C28"], E, [(S, "                    let (vector_part, unit_part) = value.split_at(bracket_end + 1);\n", "                    let (vector_part, unit_part) = (&value[..bracket_end + 1], &value[bracket_end + 1..]);\n")]),
    ("let else", ["C28"], E, [(S, "                    let bracket_end = value\n" + END, "                    let Some(bracket_end) = value.find(')') else { return Err(E::custom(\"No closing bracket in vector string\")); };\n")]),
    ("contains before", ["C28"], E, [(S, "                    let bracket_end = value\n" + END, "                    if !value.contains(')') { return Err(E::custom(\"No closing bracket in vector string\")); }\n                    let bracket_end = value.find(')').unwrap();\n")]),
    ("empty before", ["C28"], E, [(S, "                    let mut split = value.split_whitespace();\n", "                    if value.is_empty() { return Err(E::custom(\"unable to parse empty string\")); }\n                    let mut split = value.split_whitespace();\n"), (S, NUM, "                        .expect(\"not empty\");\n")]),
    ("sum by match", ["C28"], E, [(RT, "Some(Self::new(lhs_num.checked_add(rhs_num)?, denom))", "match lhs_num.checked_add(rhs_num) { Some(num) => Some(Self::new(num, denom)), None => None }")]),
    ("sum in wider integers", ["C28"], E, [(RT, "        let lhs_num = self.num.checked_mul(rhs.denom)?;\n        let rhs_num = rhs.num.checked_mul(self.denom)?;\n        let denom = self.denom.checked_mul(rhs.denom)?;\n        Some(Self::new(lhs_num.checked_add(rhs_num)?, denom))\n",
        "        let num = self.num as i128 * rhs.denom as i128 + rhs.num as i128 * self.denom as i128;\n        let denom = self.denom as i128 * rhs.denom as i128;\n        Some(Self::new(i64::try_from(num).ok()?, i64::try_from(denom).ok()?))\n")]),
    ("product by and_then", ["C28"], E, [(RT, "        let num = self.num.checked_mul(rhs.num)?;\n        let denom = self.denom.checked_mul(rhs.denom)?;\n        Some(Self::new(num, denom))\n", "        self.num.checked_mul(rhs.num).and_then(|num| self.denom.checked_mul(rhs.denom).map(|denom| Self::new(num, denom)))\n")]),
    ("assert in new by panic", ["C28"], E, [(RT, "        assert!(denom != 0, \"Ratio with a denominator of zero.\");\n", "        if denom == 0 { panic!(\"Ratio with a denominator of zero.\"); }\n")]),
    ("assert of the gcd", ["C28"], E, [(RT, "        let gcd = gcd(num, denom) * denom.signum();\n", "        let mut gcd = gcd(num, denom);\n        if denom < 0 { gcd = -gcd; }\n")]),
]
EDITS += [
    ("decoded exponents asserted", ["C28"], B, [(MA, "        let exponent = self.exponent as i32;\n", "        let exponent = self.exponent as i32;\n        assert!(exponent < 900);\n")]),
    ("powers of small exponents only", ["C28"], B, [(DE, "    fn float_pow(num: Magnitude, exponent: Self) -> Magnitude {\n", "    fn float_pow(num: Magnitude, exponent: Self) -> Magnitude {\n        assert!(exponent < 1 << 16);\n")]),
    ("symbols expected", ["C28"], B, [(RS, "        self.units.iter().find(|unit| unit.symbol == symbol)", "        Some(self.units.iter().find(|unit| unit.symbol == symbol).expect(symbol))")]),
]
EDITS += [
    ("helper with a plain sum", ["C28"], B, [(S, "                    total_dimension = #dimension_type {\n" + ADD + "                    };\n", "                    total_dimension = sum_of_dimensions(total_dimension, dimension);\n"),
        (S, "            fn read_unit_str<E: de::Error>", "            fn sum_of_dimensions(a: #dimension_type, b: #dimension_type) -> #dimension_type {\n                let mut total = a;\n                #(total.#base_dimensions += b.#base_dimensions;)*\n                total\n            }\n\n            fn read_unit_str<E: de::Error>")]),
    ("helper with the sum of dimensions", ["C28"], B, [(S, "                    total_dimension = #dimension_type {\n" + ADD + "                    };\n", "                    total_dimension = sum_of_dimensions(total_dimension, dimension);\n"),
        (S, "            fn read_unit_str<E: de::Error>", "            fn sum_of_dimensions(a: #dimension_type, b: #dimension_type) -> #dimension_type {\n                a.add(b)\n            }\n\n            fn read_unit_str<E: de::Error>")]),
    ("dimensions summed up later", ["C28"], B, [(S, "                let mut total_dimension = #dimension_type::none();\n", "                let mut total_dimension = #dimension_type::none();\n                let mut all = Vec::new();\n"),
        (S, "                    total_dimension = #dimension_type {\n" + ADD + "                    };\n", "                    all.push(dimension);\n"),
        (S, "                Ok((total_dimension, total_factor))\n", "                for dimension in all { total_dimension = total_dimension.add(dimension); }\n                Ok((total_dimension, total_factor))\n")]),
    ("dimensions folded", ["C28"], B, [(S, "                let mut total_dimension = #dimension_type::none();\n", "                let mut total_dimension = #dimension_type::none();\n                let mut all = Vec::new();\n"),
        (S, "                    total_dimension = #dimension_type {\n" + ADD + "                    };\n", "                    all.push(dimension);\n"),
        (S, "                Ok((total_dimension, total_factor))\n", "                let total_dimension = all.into_iter().fold(total_dimension, |a, b| a.add(b));\n                Ok((total_dimension, total_factor))\n")]),
    ("one exponent left unchecked", ["C28"], B, [(S, "Exponent::checked_add(\n                            total_dimension.#base_dimensions,\n                            dimension.#base_dimensions,\n                        )", "Some(if dimension.#base_dimensions == Exponent::one() { let mut x = total_dimension.#base_dimensions; x += dimension.#base_dimensions; x } else { dimension.#base_dimensions })")]),
    ("unsafe lookup", ["C28"], B, [(S, UNK, "                    .unwrap_or_else(|| panic!(\"unknown unit: {}\", &unit));\n")]),
    ("unreachable unit", ["C28"], B, [(S, "                let unit = units\n                    .get_unit_by_symbol(unit)\n" + UNK, "                let unit = match units.get_unit_by_symbol(unit) { Some(u) => u, None => unreachable!() };\n")]),
    ("component by component count", ["C28"], B, [(S, NC, "                    if vector_components.is_empty() {\n")]),
    ("get for components", ["C28"], E, [(S, "                        let string = vector_components[dim];\n", "                        let string = vector_components.get(dim).ok_or_else(|| E::custom(\"too few components\"))?;\n")]),
    ("first letter of unknown units", ["C28"], B, [(S, UNK, "                    .ok_or_else(|| E::custom(format!(\"unknown unit: {} ({})\", &unit, unit.chars().next().unwrap())))?;\n")]),
    ("last letter of unknown units", ["C28"], B, [(S, UNK, "                    .ok_or_else(|| E::custom(format!(\"unknown unit: {} ({})\", &unit, &unit[unit.len() - 1..])))?;\n")]),
    ("letters of unknown units", ["C28"], E, [(S, UNK, "                    .ok_or_else(|| E::custom(format!(\"unknown unit: {} ({})\", &unit, unit.chars().next().unwrap_or('?'))))?;\n")]),
]
EDITS += [
    ("fields added in place", ["C28"], B, [(S, "                    total_dimension = #dimension_type {\n" + ADD + "                    };\n", "                    #(total_dimension.#base_dimensions += dimension.#base_dimensions;)*\n")]),
]
