"""Rules over the MIR of the diman crate (the expansion of its SI system) and of
the macro crate: closed-world statements about every function there is."""
import re
import extract as X


class Item:
    def __init__(self, kind, name, header, body):
        self.kind, self.name, self.header, self.body = kind, name, header, body
        self.short = name.rsplit("::", 1)[-1]


HEAD = re.compile(r"^(?:(fn|const|static|static mut) )?(\S.*?)(?:\(|: )")


def items(path):
    """The top-level items of a MIR text."""
    out, cur = [], None
    for line in open(path):
        if cur is None:
            if line[:1] not in (" ", "\n", "/", "}") and line.rstrip().endswith("{"):
                cur = [line]
        else:
            cur.append(line)
            if line.startswith("}"):
                head = cur[0].rstrip()[:-1].rstrip()
                kind = head.split(" ", 1)[0] if head.split(" ", 1)[0] in ("fn", "const", "static") else "const"
                rest = head[len(kind) + 1:] if head.startswith(kind + " ") else head
                name = name_of(rest)
                out.append(Item(kind, name, rest, "".join(cur[1:-1])))
                cur = None
    return out


def name_of(rest):
    depth = 0
    for i, ch in enumerate(rest):
        if ch == "<":
            depth += 1
        elif ch == ">" and rest[i - 1] != "-":
            depth -= 1
        elif ch == "(" and depth == 0:
            return rest[:i]
        elif rest[i:i + 2] == ": " and depth == 0:
            return rest[:i]
    return rest


def split_top(s, sep=","):
    out, depth, cur = [], 0, ""
    for i, ch in enumerate(s):
        if ch in "<([{":
            depth += 1
        elif ch in ")]}" or (ch == ">" and s[i - 1] != "-"):
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def signature(it):
    """(argument types, return type) of a fn item."""
    rest = it.header[len(it.name):]
    depth, i = 0, 0
    for i, ch in enumerate(rest):
        if ch in "(<[{":
            depth += 1
        elif ch in ")]}" or (ch == ">" and rest[i - 1] != "-"):
            depth -= 1
            if depth == 0:
                break
    args = [a.split(": ", 1)[1] for a in split_top(rest[1:i])]
    ret = rest[i + 1:].strip()
    ret = ret[3:] if ret.startswith("-> ") else ret
    return args, ret


def is_zero(dim, cfg_rational):
    """A dimension all of whose exponents are zero, as MIR spells it."""
    m = re.fullmatch(r"ValTree\((.*)\)|ConstValue\((.*)\)", dim)
    if not m:
        return False
    leaves = re.findall(r"Leaf\(0x([0-9a-f]+)\)", dim)
    if not leaves:
        return False
    if cfg_rational:
        pairs = re.findall(r"Branch\(\[Leaf\(0x([0-9a-f]+)\), Leaf\(0x([0-9a-f]+)\)\]\)", dim)
        return len(pairs) * 2 == len(leaves) and all(int(a, 16) == 0 and int(b, 16) == 1 for a, b in pairs)
    return all(int(x, 16) == 0 for x in leaves)


def quantity_dim(ty):
    """Dimension text of a (reference to a) quantity type, else None."""
    ty = re.sub(r"^(?:&'\{erased\} (?:mut )?)+", "", ty)
    m = re.match(r"(?:\w+::)*Quantity<", ty)
    if not m or not ty.endswith(">"):
        return None
    parts = split_top(ty[m.end():-1])
    return parts[1] if len(parts) == 2 else None


SAME_DIM = {"add", "sub", "add_assign", "sub_assign", "rem", "rem_assign", "eq", "ne", "lt", "le", "gt", "ge", "partial_cmp", "cmp",
            "min", "max", "clamp", "distance"}
SCALING = {"mul_assign", "div_assign"}
SAME_RESULT = {"add", "sub", "rem", "neg", "abs", "min", "max", "clamp"}


def loc(it):
    return re.sub(r"src/si\.rs:[\d: ]+", "src/si.rs", it.name)


def closed_world(c, cfg):
    """Every operator implementation there is has the operand dimensions its name requires."""
    rat = cfg == "all-features"
    r = c.rule("every-impl-%s" % cfg, "every implementation in the compiled crate of addition, subtraction, comparison and "
               "assignment arithmetic has operands of one and the same dimension parameter, or a dimensionless quantity with a "
               "bare number [%s]" % cfg, 40)
    for it in items(X.mir("diman", cfg)):
        if it.kind != "fn" or (it.short not in SAME_DIM and it.short not in SCALING) or "{" in it.short:
            continue
        args, ret = signature(it)
        dims = [quantity_dim(a) for a in args]
        if not any(dims) or len(args) < 2:
            continue
        desc = "fn %s(%s)%s" % (it.short, ", ".join(args), " -> " + ret if ret else "")
        key = re.sub(r"DefId\([^)]*\)", "DefId", "%s(%s)" % (it.short, ", ".join(args)))[:200]
        if it.short in SCALING:
            good = dims[1] is None or is_zero(dims[1], rat)
            why = "the right operand of a scaling assignment is neither a bare number nor dimensionless"
        elif it.short in ("min", "max", "clamp"):
            good = all(d is None or d == dims[0] for d in dims)
            why = "operands have different dimension parameters"
        else:
            qs = [d for d in dims if d]
            if len(qs) == len(dims):
                good = all(d == qs[0] for d in qs)
            else:
                good = all(is_zero(d, rat) for d in qs)
            why = "operands do not share one dimension"
        rd = quantity_dim(ret) if ret else None
        if good and it.short in SAME_RESULT and rd and rd != [d for d in dims if d][0]:
            good, why = False, "the result has another dimension than the operands"
        if good:
            c.ok(r, 1, desc[:200])
        else:
            c.bad(r, key, "[%s] %s: %s: %s" % (cfg, loc(it), why, desc[:400]), it.header + "{\n" + it.body[:3000])
    return r


def parametric(c, cfg):
    """No arithmetic reads the dimension: what holds for one dimension holds for all."""
    r = c.rule("parametric-%s" % cfg, "no function that computes a quantity or a number reads its dimension parameter as a "
               "value, so the values computed cannot depend on the dimension [%s]" % cfg, 150)
    for it in items(X.mir("diman", cfg)):
        if it.kind != "fn" or "{" in it.short or "Quantity<" not in it.header:
            continue
        args, ret = signature(it)
        if ret.startswith(("Result<", "std::result::Result<", "Option<")):
            continue
        if any("Formatter" in a for a in args):
            continue
        hit = [l.strip() for l in it.body.splitlines() if re.search(r"const D[LR]?/#\d", l)]
        # the compiler also lists the constants its type mentions; they are separate items
        if hit:
            key = re.sub(r"DefId\([^)]*\)", "DefId", "%s(%s)" % (it.short, ", ".join(args)))[:200]
            c.bad(r, key, "[%s] %s: fn %s(%s) reads the dimension at run time: %s" % (
                cfg, loc(it), it.short, ", ".join(args)[:200], hit[0][:200]), it.header + "{\n" + it.body[:3000])
        else:
            c.ok(r, 1, "fn %s(%s)" % (it.short, ", ".join(args)[:150]))


def output_dimensions(c):
    for cfg in ("default", "all-features"):
        rat = cfg == "all-features"
        r = c.rule("output-%s" % cfg, "every implementation of * and / between quantities states a result whose dimension is "
                   "computed by the dimension algebra from the operands' dimensions, or is the dimension of the only operand "
                   "that has one [%s]" % cfg, 20)
        for it in items(X.mir("diman", cfg)):
            if it.kind != "fn" or it.short not in ("mul", "div"):
                continue
            args, ret = signature(it)
            dims = [quantity_dim(a) for a in args]
            rd = quantity_dim(ret)
            if rd is None or len(args) != 2:
                continue
            if all(dims):
                good, why = rd.startswith("UnevaluatedConst"), "the result's dimension is not computed from both operands"
            elif dims[0] and "Unit<" not in args[1]:
                good, why = rd == dims[0] , "a quantity scaled by a bare number changes its dimension"
            elif dims[1] and "Unit<" not in args[0]:
                good = rd == dims[1] if it.short == "mul" else rd.startswith("UnevaluatedConst")
                why = "number %s quantity has the wrong dimension" % ("*" if it.short == "mul" else "/")
            else:
                continue
            key = re.sub(r"DefId\([^)]*\)", "DefId", "%s(%s)" % (it.short, ", ".join(args)))[:200]
            if good:
                c.ok(r, 1, it.header[:160])
            else:
                c.bad(r, key, "[%s] %s: fn %s(%s) -> %s: %s" % (cfg, loc(it), it.short, ", ".join(args)[:200], ret[:200], why))


def iterated_products(c):
    """A product of unboundedly many quantities has no dimension its type could state, unless they have none."""
    for cfg in ("default", "all-features"):
        rat = cfg == "all-features"
        r = c.rule("iterated-product-%s" % cfg, "no implementation multiplies the quantities of an iterator into a quantity, "
                   "whose dimension would depend on how many there are; only dimensionless quantities can be [%s]" % cfg, 1)
        for it in items(X.mir("diman", cfg)):
            if it.kind != "fn" or it.short not in ("sum", "product"):
                continue
            args, ret = signature(it)
            rd = quantity_dim(re.sub(r"^(?:std::option::|std::result::)?(?:Option|Result)<", "", ret).split(", std::")[0])
            if rd is None:
                continue
            if it.short == "product" and not is_zero(rd, rat):
                c.bad(r, "%s -> %s" % (it.short, re.sub(r"DefId\([^)]*\)", "DefId", ret)), "[%s] %s: fn product(%s) -> %s: the product "
                      "of an iterator's quantities is given the dimension of one of them" % (
                          cfg, loc(it), ", ".join(args)[:200], ret[:200]), it.header + "{\n" + it.body[:3000])
            else:
                c.ok(r, 1, it.header[:160])
