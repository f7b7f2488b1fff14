CG = "crates/diman_unit_system/src/codegen/"
O, N, F, G, V, Q, D, U, ST = (CG + f for f in ("num_traits/operator_trait.rs", "num_traits/mod.rs", "float_methods.rs", "generic_methods.rs",
    "vector_methods.rs", "quantity_type.rs", "dimension_type.rs", "unit_type.rs", "storage_types.rs"))
UC, DI, RA, MPI, H5, SE, DB, CM = (CG + f for f in ("units_and_constants.rs", "dimensions.rs", "rand.rs", "mpi.rs", "hdf5.rs", "serde.rs", "debug_trait.rs", "mod.rs"))
MA, RT, DE, RS = ("crates/diman_lib/src/" + f for f in ("magnitude.rs", "ratio.rs", "dimension_exponent.rs", "runtime_unit_storage.rs"))
US = "crates/diman_unit_system/src/"
DM, IS, RM, PM, PA, TM, TP, TE, TB = (US + f for f in ("dimension_math.rs", "resolve/ident_storage.rs", "resolve/mod.rs", "parse/mod.rs",
    "parse/attributes.rs", "types/mod.rs", "types/prefixes.rs", "types/expression.rs", "types/base_dimension.rs"))
L = "src/lib.rs"
B = "bug"
EDITS = [
    # C17
    ("not transparent", ["C17"], B, [(Q, "#[repr(transparent)]", "")]),
    ("aligned", ["C17"], B, [(Q, "#[repr(transparent)]", "#[repr(C, align(8))]")]),
    ("extra field", ["C17"], B, [(Q, "#[repr(transparent)]", "#[repr(C)]")]),
    ("mpi double", ["C17"], B, [(ST, "::mpi::ffi::RSMPI_FLOAT", "::mpi::ffi::RSMPI_DOUBLE")]),
    ("mpi dims", ["C17"], B, [(MPI, "let num_dims = vector_type.num_dims as i32;", "let num_dims = 3i32;")]),
    ("mpi vectors as float", ["C17"], B, [(MPI, "let float_type = &vector_type.float_type.name;", "let float_type = quote! { f64 };")]),
    ("hdf5 u8", ["C17"], B, [(ST, "hdf5_type: quote! { hdf5::types::FloatSize::U8 },", "hdf5_type: quote! { hdf5::types::FloatSize::U4 },")]),
    ("hdf5 dims", ["C17"], B, [(H5, "                        #num_dims,", "                        #num_dims + 1,")]),
    ("hdf5 vec as bytes", ["C17"], B, [(H5, "hdf5::types::TypeDescriptor::Float(#hdf5_type)\n", "hdf5::types::TypeDescriptor::FixedArray(Box::new(hdf5::types::TypeDescriptor::Float(#hdf5_type)), 1)\n")]),
    # C18
    ("low high swapped", ["C18"], B, [(RA, "UniformFloat::<#float_type>::new(\n                        low.borrow().0,\n                        high.borrow().0,", "UniformFloat::<#float_type>::new(\n                        high.borrow().0,\n                        low.borrow().0,")]),
    ("inclusive as exclusive", ["C18"], B, [(RA, "UniformFloat::<#float_type>::new_inclusive(", "UniformFloat::<#float_type>::new(")]),
    ("sample abs", ["C18"], B, [(RA, "(self.0.sample(rng))", "(self.0.sample(rng).abs())")]),
    ("sample twice", ["C18"], B, [(RA, "(self.0.sample(rng))", "({ let _ = rng.next_u32(); self.0.sample(rng) })")]),
    ("bounds of any dimension", ["C18"], B, [(RA, "impl<const D: #dimension_type> SampleUniform for #quantity_type<#float_type, D> {\n                type Sampler = UniformQuantity<#float_type, D>;\n            }", "impl<const D: #dimension_type> SampleUniform for #quantity_type<#float_type, D> {\n                type Sampler = UniformQuantity<#float_type, D>;\n            }\n impl<const D: #dimension_type, const E: #dimension_type> SampleBorrow<#quantity_type<#float_type, E>> for #quantity_type<#float_type, D> { fn borrow(&self) -> &#quantity_type<#float_type, E> { unsafe { core::mem::transmute(self) } } }")] if False else [(RA, "high.borrow().0,\n                    ))\n                }\n                fn new_inclusive", "high.borrow().0 - 0.0 + if high.borrow().0 > 1e9 { 1.0 } else { 0.0 },\n                    ))\n                }\n                fn new_inclusive")]),
    ("sample single overridden", ["C18"], B, [(RA, "fn sample<R: Rng + ?Sized>(&self", "fn sample_single<R: Rng + ?Sized, B1, B2>(low: B1, high: B2, rng: &mut R) -> Self::X where B1: SampleBorrow<Self::X> + Sized, B2: SampleBorrow<Self::X> + Sized { let uniform: Self = UniformSampler::new_inclusive(low, high); uniform.sample(rng) }\n                fn sample<R: Rng + ?Sized>(&self")]),
    # C19
    ("new swaps", ["C19"], B, [(V, "::new(x.value_unchecked(), y.value_unchecked(), z.value_unchecked())", "::new(x.value_unchecked(), z.value_unchecked(), y.value_unchecked())")]),
    ("new 2 swaps", ["C19"], B, [(V, "::new(x.value_unchecked(), y.value_unchecked()))", "::new(y.value_unchecked(), x.value_unchecked()))")]),
    ("new_y gives x", ["C19"], B, [(V, "q * <#vector_type_name>::Y", "q * <#vector_type_name>::X")]),
    ("z gives y", ["C19"], B, [(V, "#quantity_type(self.0.z)", "#quantity_type(self.0.y)")]),
    ("set_z adds", ["C19"], B, [(V, "self.0.z = new_z.value_unchecked();", "self.0.z += new_z.value_unchecked();")]),
    ("set_x touches y", ["C19"], B, [(V, "self.0.x = new_x.value_unchecked();", "self.0.x = new_x.value_unchecked(); if self.0.y.is_nan() { self.0.y = 0.0; }")]),
    ("dot self", ["C19"], B, [(V, "self.0.dot(rhs.0)", "rhs.0.dot(rhs.0)")]),
    ("length squared", ["C19"], B, [(V, "(self.0.length())", "(self.0.dot(self.0))")]),
    ("distance to origin", ["C19"], B, [(V, "(self.0.distance(other.0))", "((self.0 + other.0).length())")]),
    ("distance_squared dim", ["C19", "C01"], B, [(V, "-> #quantity_type<#float_type, { D.mul(2) }>\n                where\n                    #quantity_type<#float_type, { D.mul(2) }>:,\n                {\n                    #quantity_type::<#float_type, { D.mul(2) }>(", "-> #quantity_type<#float_type, { D.mul(1) }>\n                where\n                    #quantity_type<#float_type, { D.mul(1) }>:,\n                {\n                    #quantity_type::<#float_type, { D.mul(1) }>(")]),
    ("max of min", ["C19"], B, [(V, "Self(self.0.max(rhs.0))", "Self(self.0.max(rhs.0).min(self.0))")]),
    ("dot dimension", ["C19", "C01"], B, [(V, "-> #quantity_type<#float_type, { D.add(DR) }> {\n                    #quantity_type(self.0.dot(rhs.0))", "-> #quantity_type<#float_type, { DR.mul(2) }> {\n                    #quantity_type(self.0.dot(rhs.0))")]),
    ("normalize dim", ["C19"], B, [(V, "pub fn normalize(&self) -> #quantity_type<#vector_type_name, { #dimension_type::none() }> {\n                    #quantity_type::<#vector_type_name, { #dimension_type::none() }>(", "pub fn normalize(&self) -> #quantity_type<#vector_type_name, D> {\n                    #quantity_type::<#vector_type_name, D>(")]),
    ("vec2 zero", ["C19"], B, [(V, "Self(<#vector_type_name>::ZERO)", "Self(<#vector_type_name>::ONE)")]),
    # C20
    ("f64 disabled without f32", ["C20"], B, [(ST, "            #[cfg(feature = \"f64\")]\n            self.f64_type(),\n        ]", "            #[cfg(all(feature = \"f64\", feature = \"f32\"))]\n            self.f64_type(),\n        ]")]),
    ("roots only with std", ["C20"], B, [(F, "        #[cfg(any(feature = \"std\", feature = \"num-traits-libm\"))]\n        let roots", "        #[cfg(feature = \"std\")]\n        let roots"), (F, "#[cfg(all(not(feature = \"std\"), not(feature = \"num-traits-libm\")))]\n        let roots", "#[cfg(not(feature = \"std\"))]\n        let roots")]),
    ("dvec2 needs vec2", ["C20"], B, [(ST, "            #[cfg(feature = \"glam-dvec2\")]", "            #[cfg(all(feature = \"glam-dvec2\", feature = \"glam-vec2\"))]")]),
    ("libm without dimensionless methods", ["C20"], B, [(F, "            #[cfg(any(feature = \"std\", feature = \"num-traits-libm\"))]\n            self.all_dimensionless", "            #[cfg(feature = \"std\")]\n            self.all_dimensionless")]),
    ("rand only with std", ["C20"], B, [(CM, "            #[cfg(feature = \"rand\")]\n            self.gen_rand_impl(),", "            #[cfg(all(feature = \"rand\", feature = \"std\"))]\n            self.gen_rand_impl(),")]),
    ("rational sqrt differs", ["C20", "C06"], B, [(D, "#ident: self.#ident.div(Exponent::int(3)),", "#ident: Exponent::new(self.#ident.num(), 3),")]),
    # C21
    ("hard-coded Quantity", ["C21"], B, [(V, "                    #quantity_type(self.0.dot(rhs.0))", "                    Quantity(self.0.dot(rhs.0))")]),
    ("hard-coded dimension", ["C21"], B, [(RA, "pub struct UniformQuantity<S, const D: #dimension_type>", "pub struct UniformQuantity<S, const D: Dimension>")]),
    ("keyword names", ["C21"], B, [(TB, "if syn::parse_str::<Ident>(&snake_case).is_err() {", "if snake_case == \"type\" {")]),
    ("needs first dimension length", ["C21"], B, [(D, ".base_dimensions\n            .iter()\n            .map(|dim| {", ".base_dimensions\n            .iter()\n            .take(8)\n            .map(|dim| {")]),
    ("unit type is shared", ["C21"], B, [(UC, "#[allow(unused)]\n            pub use unit_type::Unit;", "#[allow(unused)]\n            pub use unit_type::Unit;\n #[allow(unused)]\n pub use units::meter as _;")]),
    # C22
    ("product of two", ["C22"], B, None),
    # C23
    ("clone from", ["C23"], B, [(Q, "#[derive(Clone, Copy, Eq, Default)]", "#[derive(Copy, Eq, Default)]"), (Q, "            #functions", "            impl<S: Clone, const D: #dimension_type> Clone for #quantity_type<S, D> { fn clone(&self) -> Self { Self(self.0.clone()) } fn clone_from(&mut self, _other: &Self) {} }\n            #functions")]),
    ("hash", ["C23"], "same", [(Q, "#[derive(Clone, Copy, Eq, Default)]", "#[derive(Clone, Copy, Eq, Default, Hash)]")]),
    # C24
    ("unused attributes of units", ["C24"], B, [(PM, "        attributes.check_none_left_over()?;\n        Ok(Self {\n            name,\n            aliases,", "        Ok(Self {\n            name,\n            aliases,")] if False else [(PM, "            Ok(Self::Dimension(input.parse()?))", "            Ok(Self::Dimension(input.parse()?))"), (PM, "lookahead.peek(kw::dimension) {\n            attributes.check_none_left_over()?;", "lookahead.peek(kw::dimension) {\n            let _ = attributes;")]),
    ("second symbol ignored", ["C24"], B, [(PM, "let symbol = attributes.remove_unique_of_type()?;", "let symbol = attributes.remove_all_of_type()?.into_iter().next();")]),
    ("second metric ignored", ["C24"], B, [(PM, "let metric_prefixes: Option<MetricPrefixes> = attributes.remove_unique_of_type()?;", "let metric_prefixes: Option<MetricPrefixes> = attributes.remove_all_of_type()?.into_iter().next();")]),
    ("symbol takes more", ["C24"], B, [(PA, "        let name = inner.parse()?;\n        Ok(Symbol(name))", "        let name = inner.parse()?;\n        let _: proc_macro2::TokenStream = inner.parse()?;\n        Ok(Symbol(name))")]),
    ("base takes more", ["C24"], B, [(PA, "let dimension = attribute.inner_or_err()?.parse()?;", "let dimension = attribute.inner_or_err()?.parse()?;\n        let _: proc_macro2::TokenStream = attribute.inner_or_err()?.parse()?;")]),
    ("prefix without list", ["C24"], B, [(PA, "        let inner = attr.inner_or_err()?;\n        let prefixes", "        if attr.inner.is_none() { return Ok(Self(vec![])); }\n        let inner = attr.inner_or_err()?;\n        let prefixes")]),
    ("trailing attribute tokens", ["C24"], B, [(PA, "            attributes.push(Attribute { span, name, inner });", "            let _: proc_macro2::TokenStream = content.parse()?;\n            attributes.push(Attribute { span, name, inner });")]),
    ("base list", ["C24", "C10"], B, [(PM, "} else if base_attributes.len() == 1 {", "} else if base_attributes.len() >= 1 {")]),
    ("constant attributes", ["C24"], B, [(PM, "lookahead.peek(kw::constant) {\n            attributes.check_none_left_over()?;", "lookahead.peek(kw::constant) {\n            let _ = attributes;")]),
]
EDITS = [e for e in EDITS if e[3]]
