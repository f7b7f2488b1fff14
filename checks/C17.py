"""Layout, MPI and HDF5 types."""
import os, re
import llvm
import dims as D
import prog as P
import witness as W
from core import accepted, rejected, twins
from C03 import RefTwins

TITLE = "a quantity is laid out, sent and stored as its bare number"
WHERE = "representation, MPI and HDF5 types (codegen/quantity_type.rs, mpi.rs, hdf5.rs)"
TR = """
use core::mem::{size_of, align_of, transmute};
"""
MPI = """
use mpi::traits::*; use mpi::datatype::*; use mpi::raw::*;
use hdf5::types::{TypeDescriptor, FloatSize}; use hdf5::H5Type;
"""
# passing a quantity where C expects its number is fine exactly if it is transparent
FFI = "#[deny(improper_ctypes_definitions, improper_ctypes)] pub mod ffi%d { use super::*; pub extern \"C\" fn f(a: %s) -> %s { a } extern \"C\" { fn g(a: %s); } }"


def mpi_vectors(c, cfg, t, vs):
    """The MPI datatypes that the code reachable from the datatype of a vector quantity builds."""
    r = c.rule("mpi-vectors-%s" % cfg, "the only MPI datatype built by code that is reachable from the datatype of a vector quantity is that of as many "
               "contiguous numbers as the vector has components [%s]" % cfg, 4)
    cr = P.LazyCrate(cfg, "c17-mpivec", t, P.uses(cfg), MPI)
    want = []
    for s, (f, n) in P.VECTORS.items():
        for v in vs:
            cr.add("%s %s" % (s, D.show(v)), "#[no_mangle] pub fn f_%d() -> mpi::ffi::MPI_Datatype { <%s>::equivalent_datatype().as_raw() }" % (len(want), t.q(v, s)))
            want.append((s, v, (str(n), {"f32": "RSMPI_FLOAT", "f64": "RSMPI_DOUBLE"}[f])))
    try:
        failed, out = cr.must_compile("llvm-ir", opt=True)
    except W.PreludeError as e:
        c.bad(r, cfg + "/prelude", "[%s] %s: %s" % (cfg, WHERE, str(e)[:500]), str(e))
        return
    bad = {it.key for it, _ in failed}
    for it, errs in failed:
        c.bad(r, "%s/%s" % (cfg, it.key), "[%s] %s: no MPI datatype for %s: %s" % (cfg, WHERE, it.key, errs[0][1]), it.code)
    fns, aliases, consts = llvm.parse(open(out).read())
    os.remove(out)
    body = {n: "\n".join(i for b in f.blocks for i in b[1]) for n, f in fns.items()}
    body.update(consts)
    for k, (s, v, w) in enumerate(want):
        key = "%s %s" % (s, D.show(v))
        if key in bad:
            continue
        seen, todo, calls, others = set(), [aliases.get("f_%d" % k, "f_%d" % k)], set(), set()
        while todo:
            n = todo.pop()
            if n in seen or n not in body:
                continue
            seen.add(n)
            for m in re.finditer(r'@("[^"]+"|[\w.$]+)', body[n]):
                x = m.group(1).strip('"')
                todo.append(aliases.get(x, x))
                if x.startswith("MPI_Type_") and x not in ("MPI_Type_contiguous", "MPI_Type_commit", "MPI_Type_free"):
                    others.add(x)
            for m in re.finditer(r"@MPI_Type_contiguous\(i32 (?:\w+ )*?(\S+), ptr (?:\w+ )*?(\S+),", body[n]):
                g = re.search(r"%s = load ptr, ptr @(\w+)" % re.escape(m.group(2)), body[n])
                calls.add((m.group(1), g.group(1) if g else m.group(2)))
        if calls == {w} and not others:
            c.ok(r, 1, "%s: MPI_Type_contiguous(%s, %s)" % (key, *w))
        elif calls and not others and all(re.fullmatch(r"\d+", a) and b.startswith("RSMPI_") for a, b in calls):
            c.bad(r, "%s/%s" % (cfg, key), "[%s] %s: the MPI datatype of %s is %s, the vector is %s contiguous %s" % (
                cfg, WHERE, key, ", ".join("%s times %s" % x for x in sorted(calls)), *w), "\n".join(sorted(seen)))
        else:
            c.undecide(r, "[%s] %s: datatype built by %s" % (cfg, key, sorted(calls) + sorted(others)))


def run(c):
    for cfg in ("default", "all-features", "no-rational"):
        rational = P.rational(cfg)
        t = P.Types(cfg)
        vs = [D.vec(L=1), D.ZERO, D.MIXED[7], D.vec(K=-8, I=12)] + (D.RATIONAL[:1] + D.RATIONAL[4:] if rational else [])
        r = c.rule("layout-%s" % cfg, "a quantity has the size and alignment of its storage (compile-time assertions), converts to it bit by bit, and is "
                   "passed to C like it [%s]" % cfg, 30)
        cr = P.LazyCrate(cfg, "c17-layout", t, P.uses(cfg), TR)
        n = 0
        sts = P.storages(cfg) + ["i32", "u8", "u128", "[u16; 3]", "()", "(u8, u64)", "&'static str"]
        for s in sts:
            for v in vs:
                n += 1
                q = t.q(v, s)
                cr.add("%s %s" % (P.short(s), D.show(v)), "const _: () = { assert!(size_of::<%s>() == size_of::<%s>()); assert!(align_of::<%s>() == align_of::<%s>()); };\n"
                       "pub fn t%d(a: %s) -> %s { unsafe { transmute(a) } }" % (q, s, q, s, n, q, s))
                n += 1
                cr.add("option %s %s" % (P.short(s), D.show(v)), "const _: () = assert!(size_of::<Option<%s>>() == size_of::<Option<%s>>());" % (q, s))
                if s in P.FLOATS or s == "i32":
                    n += 1
                    cr.add("to C %s %s" % (s, D.show(v)), FFI % (n, q, q, q))
        accepted(c, r, cr, WHERE)
        rt = c.rule("passing-%s" % cfg, "reinterpreting a quantity as its storage is the identity: the optimised code, calling convention included, is "
                    "that of the identity of the storage [%s]" % cfg, 8)
        tw = RefTwins(cfg, "c17-id", t, P.uses(cfg), TR)
        for s in P.storages(cfg):
            for v in vs:
                q = t.q(v, s)
                tw.add("identity %s %s" % (P.short(s), D.show(v)), "(a: %s) -> %s" % (q, q), "a", "(a: %s) -> %s" % (s, s), "a")
                tw.add("transmute %s %s" % (P.short(s), D.show(v)), "(a: %s) -> %s" % (q, s), "unsafe { transmute(a) }", "(a: %s) -> %s" % (s, s), "a")
                tw.add("slice %s %s" % (P.short(s), D.show(v)), "(a: &[%s; 3]) -> %s" % (q, q), "a[2]", "(a: &[%s; 3]) -> %s" % (s, s), "a[2]")
        twins(c, rt, tw, WHERE)
        if cfg == "default":
            continue
        rm = c.rule("mpi-%s" % cfg, "the MPI datatype of a quantity, its buffers and counts are computed by the same code as those of the bare number, or "
                    "of the array of the components of the vector [%s]" % cfg, 20)
        rh = c.rule("hdf5-%s" % cfg, "the HDF5 type of a quantity is built by the same code as that of the number, or of the array of components [%s]" % cfg, 10)
        tw, th = RefTwins(cfg, "c17-mpi", t, P.uses(cfg), MPI), RefTwins(cfg, "c17-hdf5", t, P.uses(cfg), MPI)
        for s in P.FLOATS:
            for v in vs:
                q, key = t.q(v, s), "%s %s" % (s, D.show(v))
                sd = "() -> SystemDatatype"
                tw.add("datatype " + key, sd, "<%s>::equivalent_datatype()" % q, sd, "<%s>::equivalent_datatype()" % s)
                tw.add("raw " + key, "() -> mpi::ffi::MPI_Datatype", "<%s>::equivalent_datatype().as_raw()" % q, "() -> mpi::ffi::MPI_Datatype",
                       "<%s>::equivalent_datatype().as_raw()" % s)
                tw.add("buffer " + key, "(a: &%s) -> *const core::ffi::c_void" % q, "a.pointer()", "(a: &%s) -> *const core::ffi::c_void" % s, "a.pointer()")
                tw.add("buffer mut " + key, "(a: &mut %s) -> *mut core::ffi::c_void" % q, "a.pointer_mut()", "(a: &mut %s) -> *mut core::ffi::c_void" % s, "a.pointer_mut()")
                tw.add("count " + key, "(a: &[%s]) -> i32" % q, "a.count()", "(a: &[%s]) -> i32" % s, "a.count()")
                tw.add("slice " + key, "(a: &[%s]) -> *const core::ffi::c_void" % q, "a.pointer()", "(a: &[%s]) -> *const core::ffi::c_void" % s, "a.pointer()")
                tw.add("slice type " + key, "(a: &[%s]) -> mpi::ffi::MPI_Datatype" % q, "a.as_datatype().as_raw()", "(a: &[%s]) -> mpi::ffi::MPI_Datatype" % s,
                       "a.as_datatype().as_raw()")
                td = "() -> TypeDescriptor"
                th.add("type " + key, td, "<%s>::type_descriptor()" % q, td, "<%s>::type_descriptor()" % s)
        for s, (f, n) in P.VECTORS.items():
            if s not in P.storages(cfg):
                continue
            for v in vs:
                td = "() -> TypeDescriptor"
                th.add("type %s %s" % (P.short(s), D.show(v)), td, "<%s>::type_descriptor()" % t.q(v, s), td, "<[%s; %d]>::type_descriptor()" % (f, n),
                       alts=["TypeDescriptor::FixedArray(Box::new(<%s>::type_descriptor()), %d)" % (f, n)])
        twins(c, rm, tw, WHERE)
        mpi_vectors(c, cfg, t, vs)
        twins(c, rh, th, WHERE)
