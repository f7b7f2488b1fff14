S = "crates/diman_unit_system/src/codegen/serde.rs"
D = "crates/diman_unit_system/src/codegen/debug_trait.rs"
R = "crates/diman_lib/src/runtime_unit_storage.rs"
Q = "crates/diman_lib/src/ratio.rs"
C = ["C16"]
FOLD = ".fold(0.0, |a: f64, b: f64| a + b)"
EDITS = [
    ("serialize the number only", C, "bug", [(S, 'serializer.serialize_str(&format!("{:?}", self))', 'serializer.serialize_str(&format!("{}", self.0))')]),
    ("serialize three digits", C, "bug", [(S, 'serializer.serialize_str(&format!("{:?}", self))', 'serializer.serialize_str(&format!("{:.3?}", self))')]),
    ("commas stay", C, "bug", [(S, '.replace(",", "")', '')]),
    ("minus replaced", C, "bug", [(S, '.replace(",", "")', '.replace(",", "").replace("^-", "^")')]),
    ("brackets stay", C, "bug", [(S, '.replace("[", "(")', '.replace("[", "[")')]),
    ("negative exponents without sign", C, "bug", [(D, 'write!(f, " {}^{}", #symbol, D.#base_dim)?;', 'write!(f, " {}^{}", #symbol, if D.#base_dim == -Exponent::one() { Exponent::one() } else { D.#base_dim })?;')]),
    ("factor about one", C, "bug", [(D, ".filter(|unit| unit.magnitude.is_one()),", ".filter(|unit| (unit.magnitude.into_f64() - 1.0).abs() < 1e-9),")]),
    ("any factor", C, "bug", [(D, ".filter(|unit| unit.magnitude.is_one()),", "")]),
    ("missing unit ends in panic", C, "bug", [(D, ".map(|unit| unit.symbol).unwrap_or(#name)", ".map(|unit| unit.symbol).unwrap()")]),
    ("error ignored", C, "bug", [(D, 'write!(f, " {}", #symbol)?;', 'let _ = write!(f, " {}", #symbol);')]),
    ("number without format", C, "bug", [(D, "self.0.fmt(f)?;", 'write!(f, "{}", self.0)?;')]),
    ("ratio without denominator", C, "bug", [(Q, 'write!(f, "{}/{}", self.num, self.denom)', 'write!(f, "{}", self.num / self.denom)')]),
    ("unit of first two dimensions", C, "bug", [(R, "self.units.iter().find(|unit| unit.dimension == dim)", "self.units.iter().take(20).find(|unit| unit.dimension == dim).or(self.units.last())")]),
    ("exponent two not printed", C, "bug", [(D, "if D.#base_dim == Exponent::one() {", "if D.#base_dim == Exponent::one() || D.#base_dim == Exponent::from_int(2) {")]),
    # behaviour kept
    ("helper", C, "same", [(D, "fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {\n                    #units_storage\n                    self.0.fmt(f)?;", "fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {\n                    core::fmt::Display::fmt(&self.0, f)?;\n                    #units_storage")]),
    ("match", C, "same", [(D, "if let Some(unit) = units.get_first_unit_for_dimension(D) {\n                        write!(f, \" {}\", unit.symbol)\n                    }\n                    else {", "let unit = units.get_first_unit_for_dimension(D);\n if let Some(unit) = unit { f.write_str(\" \")?; f.write_str(unit.symbol)?; Ok(()) } else {")]),
    ("other order of the test", C, "same", [(D, "if D.#base_dim == Exponent::one() {\n                write!(f, \" {}\", #symbol)?;\n            }\n            else if D.#base_dim != Exponent::zero() {\n                write!(f, \" {}^{}\", #symbol, D.#base_dim)?;", "if D.#base_dim != Exponent::zero() {\n if D.#base_dim != Exponent::one() { write!(f, \" {}^{}\", #symbol, D.#base_dim)?; } else { write!(f, \" {}\", #symbol)?; }")]),
    ("loop for find", C, "same", [(R, "self.units.iter().find(|unit| unit.dimension == dim)", "for unit in self.units { if unit.dimension == dim { return Some(unit); } } None")]),
    ("text in a variable", C, "same", [(S, 'serializer.serialize_str(&format!("{:?}", self))', 'let text = format!("{self:?}");\n serializer.serialize_str(text.as_str())')]),
    ("collect_str", C, "same", [(S, 'serializer.serialize_str(&format!("{:?}", self))', 'serializer.collect_str(&format_args!("{:?}", self))')]),
    ("chars", C, "same", [(S, '&vec_str.replace("[", "(").replace("]", ")").replace(",", "")', "&vec_str.replace(',', \"\").replace('[', \"(\").replace(']', \")\")")]),
    ("helper for text", C, "same", [(S, '&vec_str.replace("[", "(").replace("]", ")").replace(",", "")', "&parenthesized(&vec_str)"), (S, "fn read_unit_str<E", 'fn parenthesized(s: &str) -> String { s.replace("[", "(").replace("]", ")").replace(",", "") }\n fn read_unit_str<E')]),
    ("last unit", C, "same", [(R, "self.units.iter().find(|unit| unit.dimension == dim)", "self.units.iter().rev().find(|unit| unit.dimension == dim)")]),
]
