US = "crates/diman_unit_system/src/"
ER, IS, RM, DM, PM, PA, TP = (US + f for f in ("resolve/error.rs", "resolve/ident_storage.rs", "resolve/mod.rs", "dimension_math.rs", "parse/mod.rs", "parse/attributes.rs", "types/prefixes.rs"))
B, S = "bug", "same"
C = ["C25"]
EDITS = [
    ("sides swapped", C, B, [(ER, "format_lhs_rhs_dimensions(self.annotation_dims, self.expr_dims)", "format_lhs_rhs_dimensions(self.expr_dims, self.annotation_dims)")]),
    ("sides swapped at the source", C, B, [(IS, "annotation_dims: &annotation.dimensions.dimensions,\n                                expr_dims: &item.dimensions.dimensions,", "annotation_dims: &item.dimensions.dimensions,\n                                expr_dims: &annotation.dimensions.dimensions,")]),
    ("one side twice", C, B, [(ER, "(format(lhs), format(rhs))", "(format(lhs), format(lhs))")]),
    ("missing exponent is one", C, B, [(ER, "unwrap_or(&Exponent::zero())", "unwrap_or(&Exponent::one())")]),
    ("only dims of the left", C, B, [(ER, "lhs.keys().chain(rhs.keys()).collect();", "lhs.keys().collect();")]),
    ("mismatch at call site", C, B, [(ER, "        self.annotation\n            .span()\n            .unwrap()", "        Span::call_site()\n            .unwrap()")]),
    ("undefined: whole macro", C, B, [(ER, "        for ident in self.0 {\n            ident\n                .span()\n                .unwrap()\n                .error(format!(\"Undefined identifier", "        for ident in self.0 {\n            Span::call_site()\n                .unwrap()\n                .error(format!(\"Undefined identifier")]),
    ("undefined: only the first", C, B, [(ER, "        for ident in self.0 {\n            ident\n                .span()\n                .unwrap()\n                .error(format!(\"Undefined identifier", "        if let Some(ident) = self.0.into_iter().next() {\n            ident\n                .span()\n                .unwrap()\n                .error(format!(\"Undefined identifier")]),
    ("undefined: the name of the definition", C, B, [(IS, "undefined_lhs.push(ident.clone());", "undefined_lhs.push(item.ident().clone());")]),
    ("defined names reported as undefined", C, B, [(IS, "                    if !defined {\n                        undefined_lhs.push(ident.clone());", "                    {\n                        undefined_lhs.push(ident.clone());")]),
    ("circular: only one", C, B, [(IS, "                        .drain(..)\n                        .map(|x|", "                        .drain(..)\n                        .take(1)\n                        .map(|x|")]),
    ("multiple: first only", C, B, [(ER, "                idents\n                    .iter()\n                    .map(|ident| ident.span().unwrap())", "                idents\n                    .iter()\n                    .take(1)\n                    .map(|ident| ident.span().unwrap())")]),
    ("multiple: first and second", C, B, [(ER, "                idents\n                    .iter()\n                    .map(|ident| ident.span().unwrap())", "                idents\n                    .iter()\n                    .take(2)\n                    .map(|ident| ident.span().unwrap())")]),
    ("multiple: only one group", C, B, [(ER, "        for idents in self.0 {\n            let name", "        for idents in self.0.into_iter().take(1) {\n            let name")]),
    ("kind: only the right", C, B, [(ER, "                self.lhs_ident.span().unwrap(),\n                self.rhs_ident.span().unwrap(),", "                self.rhs_ident.span().unwrap(),")]),
    ("kind: name twice", C, B, [(ER, "                name(self.rhs_kind).to_lowercase(),\n                self.rhs_ident", "                name(self.rhs_kind).to_lowercase(),\n                self.lhs_ident")]),
    ("kind: span of the definition of the right", C, B, [(IS, "                                rhs_ident,\n                                lhs_kind,", "                                rhs_ident: kinds.get_key_value(rhs_ident).unwrap().0,\n                                lhs_kind,")]),
    ("base unit: dimension", C, B, [(RM, "                    BaseUnitForNonBaseDimension", "                    BaseUnitForNonBaseDimension")] if False else [(ER, "impl<'a> Emit for BaseUnitForNonBaseDimensionError<'a> {\n    fn emit(self) {\n        self.unit", "impl<'a> Emit for BaseUnitForNonBaseDimensionError<'a> {\n    fn emit(self) {\n        self.dimension")]),
    ("second base unit: first one blamed", C, B, [(RM, "        if unit.autogenerated_from.is_some() {\n            continue;", "        let _ = 0; if unit.autogenerated_from.is_some() {\n            continue;"), (RM, "    for unit in units {\n        let _ = 0; if", "    for unit in units.iter().rev() {\n        let _ = 0; if")]),
    ("third base unit silent", C, B, [(RM, "if *count > 1 {", "if *count == 2 {")]),
    ("prefixed base units counted", C, S, [(RM, "        if unit.autogenerated_from.is_some() {\n            continue;\n        }", "")]),
    ("symbol: all but first", C, B, [(ER, "            self.units\n                .into_iter()\n", "            self.units\n                .into_iter()\n                .skip(1)\n")]),
    ("symbol: blamed for its unit name", C, B, [(ER, "impl<'a> Emit for SymbolDefinedMultipleTimes<'a> {\n    fn emit(self) {", "impl<'a> Emit for SymbolDefinedMultipleTimes<'a> {\n    fn emit(mut self) {\n        self.symbol = self.units[0];")]),
    ("symbols: only pairs", C, B, [(RM, "if units.len() > 1 {", "if units.len() == 2 {")]),
    ("types: only the first", C, B, [(ER, "                for ident in idents {\n                    ident\n", "                for ident in idents.into_iter().take(1) {\n                    ident\n")]),
    ("filtering autogenerated off", C, B, [(IS, "                .map(|ident| defined.contains(ident))\n                .unwrap_or(true)", "                .map(|ident| defined.contains(ident) || true)\n                .unwrap_or(true)")]),
    ("dependents of the circle forgotten", C, B, [(IS, "                        .drain(..)\n                        .map(|x|", "                        .drain(..)\n                        .skip(1)\n                        .map(|x|")]),
    ("annotation by a constant unnamed", C, B, [(ER, "                name, self.annotation_ident\n", "                name, name\n")]),
    ("no symbol: only the first", C, B, [(RM, "            NoSymbolForBaseUnitError(unit).emit();", "            NoSymbolForBaseUnitError(unit).emit();\n            return;")]),
    ("annotations: only the first violation", C, B, [(IS, "                                expr_dims: &item.dimensions.dimensions,\n                            }\n                            .emit()", "                                expr_dims: &item.dimensions.dimensions,\n                            }\n                            .emit();\n                            return;")]),
    ("stop after undefined", C, B, [(RM, "        idents.filter_multiply_defined();", "        if false { idents.filter_multiply_defined(); }")]),
    # same
    ("one help", C, S, [(ER, "                lhs\n            ))\n            .help(format!(\n                \"but the expression on the right-hand side has dimensions {}\",\n                rhs\n            ))", "                lhs\n            ) + &format!(\n                \"\\nbut the expression on the right-hand side has dimensions {}\",\n                rhs\n            ))")]),
    ("undefined in one diagnostic", C, S, [(ER, "        for ident in self.0 {\n            ident\n                .span()\n                .unwrap()\n                .error(format!(\"Undefined identifier \\\"{}\\\".\", ident))\n                .emit();\n        }", "        Diagnostic::spanned(self.0.iter().map(|i| i.span().unwrap()).collect::<Vec<_>>(), Level::Error, format!(\"Undefined identifiers {}\", self.0.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(\", \"))).emit();")]),
    ("sorted set", C, S, [(ER, "use std::collections::HashSet;", "use std::collections::BTreeSet;"), (ER, "    let available_dims: HashSet<_> =", "    let available_dims: BTreeSet<_> ="), (ER, "    let mut available_dims: Vec<_> = available_dims.into_iter().collect();", "    let available_dims: Vec<_> = available_dims.into_iter().collect();"), (ER, "    available_dims.sort();\n", "")]),
    ("zero exponents left out", C, S, [(ER, "                let value = *dims.get(dim).unwrap_or(&Exponent::zero());\n                format!(\"{}^{}\", dim.0, value)\n            })", "                let value = *dims.get(dim).unwrap_or(&Exponent::zero());\n                format!(\"{}^{}\", dim.0, value)\n            })\n            .filter(|x| !x.ends_with(\"^0\"))")]),
    ("symbols by loop over pairs", C, S, [(RM, "    let mut units_by_symbol: HashMap<&Ident, Vec<&Ident>> = HashMap::new();\n    for unit in units {\n        if let Some(ref symbol) = unit.symbol {\n            units_by_symbol\n                .entry(&symbol.0)\n                .or_default()\n                .push(&unit.name);\n        }\n    }\n    for (symbol, units) in units_by_symbol {", "    let mut units_by_symbol: Vec<(&Ident, Vec<&Ident>)> = vec![];\n    for unit in units {\n        if let Some(ref symbol) = unit.symbol {\n            match units_by_symbol.iter_mut().find(|(s, _)| **s == symbol.0) {\n                Some((_, v)) => v.push(&unit.name),\n                None => units_by_symbol.push((&symbol.0, vec![&unit.name])),\n            }\n        }\n    }\n    for (symbol, units) in units_by_symbol {")]),
    ("multiple by sorting", C, S, [(IS, "        let mut v: Vec<Vec<_>> = vec![];\n        for (ident, count) in num_definitions {", "        let mut v: Vec<Vec<_>> = vec![];\n        let mut num_definitions: Vec<_> = num_definitions.into_iter().collect();\n        num_definitions.sort();\n        for (ident, count) in num_definitions {")]),
    ("kinds without map", C, S, [(IS, "let rhs_kind = kinds.get(rhs_ident);", "let rhs_kind = self.unresolved.iter().find(|i| i.ident() == rhs_ident).map(|i| i.kind()).filter(|_| kinds.contains_key(rhs_ident));\n                    let rhs_kind = rhs_kind.as_ref();")]),
    ("annotations by dimensions first", C, S, [(IS, "        for item in self.resolved.values() {\n            if let Some(annotation_ident)", "        for item in self.resolved.values().collect::<Vec<_>>().into_iter().rev() {\n            if let Some(annotation_ident)")]),
    ("inline single ident", C, S, [(RM, "    if dimension_types.len() == 1 {\n        (dimension_types.remove(0), Ok(()))\n    } else if dimension_types.is_empty()", "    if let [only] = dimension_types.as_slice() {\n        (only.clone(), Ok(()))\n    } else if dimension_types.is_empty()"), (RM, "    mut dimension_types: Vec<Ident>", "    dimension_types: Vec<Ident>")]),
]
