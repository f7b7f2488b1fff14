US = "crates/diman_unit_system/src/"
ER, IS, RM, DM, PM, PA, TP, TM, TB = (US + f for f in ("resolve/error.rs", "resolve/ident_storage.rs", "resolve/mod.rs", "dimension_math.rs", "parse/mod.rs", "parse/attributes.rs", "types/prefixes.rs", "types/mod.rs", "types/base_dimension.rs"))
UC, CD, CM = (US + "codegen/" + f for f in ("units_and_constants.rs", "dimension_type.rs", "mod.rs"))
B, S = "bug", "same"
C = ["C26"]
EDITS = [
    ("hash map of items", C, B, [(IS, "resolved: BTreeMap<Ident, ResolvedItem>", "resolved: HashMap<Ident, ResolvedItem>"), (IS, "use std::collections::{BTreeMap, HashMap, HashSet};", "use std::collections::{HashMap, HashSet};")]),
    ("hash set of base dimensions", C, B, [(RM, "    base_dimensions\n        .into_iter()\n        .map(|x| BaseDimension::from_dimension(&x.name))\n        .collect()", "    let unique: std::collections::HashSet<_> = base_dimensions\n        .into_iter()\n        .map(|x| BaseDimension::from_dimension(&x.name))\n        .collect();\n    unique.into_iter().collect()")]),
    ("unsorted exponents in errors", C, B, [(ER, "    available_dims.sort();\n", "    let _ = &mut available_dims;\n")]),
    ("counter in names", C, B, [(CD, "            pub struct #name {", "            #[doc = #count]\n            pub struct #name {"), (CD, "        let dim_type = self.base_dimension_type();\n", "        let dim_type = self.base_dimension_type();\n        static N: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n        let count = N.fetch_add(1, core::sync::atomic::Ordering::SeqCst).to_string();\n")]),
    ("environment", C, B, [(CM, "        join([\n            self.gen_dimension(),", "        if std::env::var(\"DIMAN_NO_VECTORS\").is_ok() { return self.gen_dimension(); }\n        join([\n            self.gen_dimension(),")]),
    ("names of multiply defined in hash order", C, S, [(IS, "        if !v.is_empty() {\n            MultipleDefinitionsError(v).emit();", "        v.reverse();\n        if !v.is_empty() {\n            MultipleDefinitionsError(v).emit();")]),
    ("lazy table", C, S, [(CM, "        join([\n            self.gen_dimension(),", "        static T: std::sync::LazyLock<Vec<u8>> = std::sync::LazyLock::new(|| vec![1]);\n        let _ = T.len();\n        join([\n            self.gen_dimension(),")]),
    ("tree map of fields", C, S, [(DM, "use std::collections::HashMap;", "use std::collections::BTreeMap as HashMap;"), (TB, "Hash,", "Hash,")]),
    ("sorted items", C, S, [(IS, "        self.resolved\n            .values()\n            .filter(", "        let mut v: Vec<_> = self.resolved.values().collect();\n        v.sort_by_key(|x| x.item.ident().clone());\n        v.into_iter()\n            .filter(")]),
]
