US = "crates/diman_unit_system/src/"
G = US + "codegen/"
MG = "crates/diman_lib/src/magnitude.rs"
NT, OT, GM, FM, UT, QT, VM = (G + f for f in ("num_traits/mod.rs", "num_traits/operator_trait.rs", "generic_methods.rs", "float_methods.rs", "unit_type.rs", "quantity_type.rs", "vector_methods.rs"))
B, S = "bug", "same"
C = ["C27"]
INTO = """        // Scale in two steps: for very small magnitudes, the full power of two underflows.
        let exponent = self.exponent as i32;
        self.sign as f64
            * self.mantissa as f64
            * 2.0f64.powi(exponent / 2)
            * 2.0f64.powi(exponent - exponent / 2)
"""
EDITS = [
    ("conversion not inlined", C, B, [(MG, "    #[inline]\n    pub fn into_f64", "    pub fn into_f64")]),
    ("division not inlined", C, B, [(MG, "    #[inline]\n    fn div(self, rhs: Magnitude) -> Self::Output {\n        self / rhs.into_f64()", "    #[inline(never)]\n    fn div(self, rhs: Magnitude) -> Self::Output {\n        self / rhs.into_f64()")]),
    ("scaling by a loop", C, B, [(MG, INTO, """        let mut out = self.sign as f64 * self.mantissa as f64;
        let mut exponent = self.exponent;
        while exponent > 0 {
            out *= 2.0;
            exponent -= 1;
        }
        while exponent < 0 {
            out /= 2.0;
            exponent += 1;
        }
        out
""")]),
    ("magnitudes through a black box", C, B, [(MG, "        self * rhs.into_f64()\n", "        self * core::hint::black_box(rhs).into_f64()\n")]),
    ("abs with a sum that is optimised away", C, S, [(GM, "Self(self.0.#name())", "Self(self.0.#name() + #storage_type::default())")]),
    ("sum over partial sums", C, B, [(NT, "                    for item in iter {\n                        total += item;\n                    }\n", "                    for item in iter {\n                        let mut partial = Self::default();\n                        partial += item;\n                        total += partial;\n                    }\n")]),
    ("operators kept out of line", C, B, [(OT, "fn #fn_name", "#[inline(never)] fn #fn_name")]),
    ("new checks its argument", C, B, [(MG, "        self * rhs.into_f64()\n", "        assert!(!rhs.into_f64().is_nan());\n        assert!(self.to_bits() != u64::MAX);\n        self * rhs.into_f64()\n")]),
    ("value_in by two divisions", C, B, [(MG, "        self / rhs.into_f64()\n", "        self / (rhs.mantissa as f64 * 2.0f64.powi(-52)) / (rhs.sign as f64 * 2.0f64.powi(rhs.exponent as i32 + 52))\n")]),
    ("neg by subtraction", ["C27"], S, [(NT, "Self(-self.0)", "let x = -self.0; Self(x)")]),
    ("helper for powers of two", C, S, [(MG, INTO, """        let exponent = self.exponent as i32;
        self.sign as f64 * self.mantissa as f64 * power_of_two(exponent / 2) * power_of_two(exponent - exponent / 2)
"""), (MG, "impl Magnitude {", "fn power_of_two(exponent: i32) -> f64 {\n    2.0f64.powi(exponent)\n}\n\nimpl Magnitude {")]),
    ("helper for the whole conversion", C, S, [(MG, INTO, """        convert(self)
"""), (MG, "impl Magnitude {", "fn convert(x: Magnitude) -> f64 {\n    let exponent = x.exponent as i32;\n    x.sign as f64 * x.mantissa as f64 * 2.0f64.powi(exponent / 2) * 2.0f64.powi(exponent - exponent / 2)\n}\n\nimpl Magnitude {")]),
    ("sum by fold", C, S, [(NT, "                    let mut total = Self::default();\n                    for item in iter {\n                        total += item;\n                    }\n                    total\n", "                    iter.fold(Self::default(), |mut a, b| { a += b; a })\n")]),
    ("division through multiplication by conversion first", C, S, [(MG, "        self / rhs.into_f64()\n", "        let factor = rhs.into_f64();\n        self / factor\n")]),
]
