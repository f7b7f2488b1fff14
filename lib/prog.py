"""Building blocks of witness programs."""
import extract as X
import dims as D
import witness as W

FLOATS = ["f32", "f64"]
VECTORS = {"glam::Vec2": ("f32", 2), "glam::DVec2": ("f64", 2), "glam::Vec3": ("f32", 3), "glam::DVec3": ("f64", 3)}
BIN = {"Add": ("add", "+"), "Sub": ("sub", "-"), "Mul": ("mul", "*"), "Div": ("div", "/")}


def rational(config):
    return "rational-dimensions" in X.features(config)


def storages(config):
    have = X.features(config)
    return [f for f in FLOATS if f in have] + [v for v in VECTORS if "glam-" + short(v).lower() in have]


def uses(config, *extra):
    """The crates that the code which the macro generates needs."""
    have = X.features(config)
    needs = [c for f, cs in (("glam", ("glam",)), ("serde", ("serde",)), ("rand", ("rand",)), ("hdf5", ("hdf5",)), ("mpi", ("mpi", "once_cell")))
             for c in cs if f in have]
    return tuple(dict.fromkeys(needs + list(extra)))


def short(ty):
    return ty.replace("glam::", "").replace("&", "ref_").replace("mut ", "mut_").replace(" ", "")


# The witness crate defines its own seven-dimensional system in its root, so that
# exponents (private fields) can be spelled out by the witnesses.
SYSTEM = """use diman::internal::{self, magnitude::Magnitude as Mag};
diman::unit_system!(
    quantity_type Quantity;
    dimension_type Dimension;
    dimension Length;
    dimension Time;
    dimension Mass;
    dimension Temperature;
    dimension Current;
    dimension AmountOfSubstance;
    dimension LuminousIntensity;
    dimension Dimensionless = 1;
    dimension Velocity = Length / Time;
    dimension Area = Length^2;
    dimension Frequency = 1 / Time;
    dimension Energy = Mass * Velocity^2;
    #[base(Length)] #[symbol(m)] #[metric_prefixes] #[alias(metre, metres, meters)] unit meter: Length;
    #[base(Time)] #[symbol(s)] #[metric_prefixes] #[alias(seconds)] unit second: Time;
    #[base(Mass)] #[symbol(kg)] unit kilogram: Mass;
    #[base(Temperature)] #[symbol(K)] unit kelvin: Temperature;
    #[base(Current)] #[symbol(A)] unit ampere: Current;
    #[base(AmountOfSubstance)] #[symbol(mol)] unit mole: AmountOfSubstance;
    #[base(LuminousIntensity)] #[symbol(cd)] unit candela: LuminousIntensity;
    unit minute: Time = 60 second;
    #[symbol(h)] unit hour: Time = 60 minute;
    #[symbol(J)] #[prefix(kilo)] unit joule: Energy = kilogram meter^2 / second^2;
    unit meters_per_second: Velocity = meter / second;
    unit negative: Length = -3.5 * meter;
    unit percent: Dimensionless = 0.01 * meter / meter;
    constant SPEED_OF_LIGHT = 299792458 * meter / second;
);
use core::ops::*;
"""



class Types:
    """Type aliases for quantities of given exponent vectors."""

    def __init__(self, config, no_std=None):
        self.config, self.names = config, {}
        self.nostd = config.startswith("nostd") if no_std is None else no_std

    def q(self, v, s=None):
        n = self.names.get(v)
        if n is None:
            n = self.names[v] = "Q%d" % len(self.names)
        return "%s<%s>" % (n, s) if s else n

    def prelude(self):
        r = rational(self.config)
        out = [SYSTEM]
        if r:
            out.append("use diman::internal::ratio::Ratio;\n")
        for v, n in self.names.items():
            out.append("pub type %s<S> = Quantity<S, %s>; // %s\n" % (n, D.lit(v, r), D.show(v)))
        return "".join(out)


class LazyCrate(W.Crate):
    """A crate whose prelude is computed from the types used by its items."""

    def __init__(self, config, name, types, uses=(), extra=""):
        self.types, self.extra = types, extra
        super().__init__(config, name, "", uses)

    @property
    def prelude(self):
        return self.types.prelude() + self.extra if self.types else self.extra

    @prelude.setter
    def prelude(self, v):
        pass


class LazyTwins(W.Twins):
    def __init__(self, config, name, types, uses=(), extra=""):
        self.crate = LazyCrate(config, name, types, uses, extra)
        self.pairs = []


def vectors(config):
    return D.UNIT_VECTORS + D.MIXED + D.LARGE + (D.RATIONAL if rational(config) else [])
