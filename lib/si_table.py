"""The SI, written down independently of src/si.rs: exponents of (m, s, kg, K, A, mol, cd)
and values in coherent SI units, from the SI Brochure (9th edition), tables 2-8."""
from fractions import Fraction as Fr
import systems as S

BASE = ["Length", "Time", "Mass", "Temperature", "Current", "AmountOfSubstance", "LuminousIntensity"]


def d(m=0, s=0, kg=0, K=0, A=0, mol=0, cd=0):
    return {b: Fr(x) for b, x in zip(BASE, (m, s, kg, K, A, mol, cd)) if x}


ONE = d()
J, N, W, V, PA, C, T, WB, OHM, F_, H = (d(2, -2, 1), d(1, -2, 1), d(2, -3, 1), d(2, -3, 1, A=-1), d(-1, -2, 1), d(s=1, A=1), d(0, -2, 1, A=-1),
                                        d(2, -2, 1, A=-1), d(2, -3, 1, A=-2), d(-2, 4, -1, A=2), d(2, -2, 1, A=-2))
DIMENSIONS = dict(
    Length=d(1), Time=d(s=1), Mass=d(kg=1), Temperature=d(K=1), Current=d(A=1), AmountOfSubstance=d(mol=1), LuminousIntensity=d(cd=1),
    Dimensionless=ONE, Angle=ONE, SolidAngle=ONE, Area=d(2), Volume=d(3), Wavenumber=d(-1), Frequency=d(s=-1), Velocity=d(1, -1),
    Acceleration=d(1, -2), Jerk=d(1, -3), FlowRate=d(3, -1), Momentum=d(1, -1, 1), Force=N, Energy=J, Power=W, Pressure=PA,
    Action=d(2, -1, 1), MassDensity=d(-3, 0, 1), MomentOfInertia=d(2, 0, 1), AngularMomentum=d(2, -1, 1), Torque=d(2, -2, 1),
    EnergyDensity=d(-1, -2, 1), MassFlow=d(0, -1, 1), ElectricCharge=C, Voltage=V, Capacitance=F_, ElectricResistance=OHM,
    Resistivity=d(3, -3, 1, A=-2), ElectricConductance=d(-2, 3, -1, A=2), Conductivity=d(-3, 3, -1, A=2), MagneticFluxDensity=T,
    MagneticFlux=WB, MagneticFieldStrength=d(-1, A=1), Inductance=H, ElectricChargeDensity=d(-3, 1, A=1), CurrentDensity=d(-2, A=1),
    ElectricDipoleMoment=d(1, 1, A=1), ElectricQuadrupoleMoment=d(2, 1, A=1), MagneticDipoleMoment=d(2, A=1),
    ElectricFieldStrength=d(1, -3, 1, A=-1), ElectricDisplacementFieldStrength=d(-2, 1, A=1), ElectricPermittivity=d(-3, 4, -1, A=2),
    MagneticPermeability=d(1, -2, 1, A=-2), Polarizability=d(0, 4, -1, A=2), ElectricMobility=d(0, 2, -1, A=1),
    Entropy=d(2, -2, 1, -1), HeatCapacity=d(2, -2, 1, -1), SpecificHeatCapacity=d(2, -2, 0, -1), ThermalConductivity=d(1, -3, 1, -1),
    ThermalTransmittance=d(0, -3, 1, -1), MolarMass=d(kg=1, mol=-1), MolarVolume=d(3, mol=-1), CatalyticActivity=d(s=-1, mol=1),
    Molarity=d(-3, mol=1), Molality=d(kg=-1, mol=1), ChemicalPotential=d(2, -2, 1, mol=-1), MolarHeatCapacity=d(2, -2, 1, -1, mol=-1),
    LuminousFlux=d(cd=1), Illuminance=d(-2, cd=1), Irradiance=d(0, -3, 1), Activity=d(s=-1), AbsorbedDose=d(2, -2), EquivalentDose=d(2, -2),
    SpecificActivity=d(0, -1, -1), DynamicViscosity=d(-1, -1, 1), KinematicViscosity=d(2, -1), MomentumDensity=d(-2, -1, 1),
    SpecificEnergy=d(2, -2), MassFlux=d(-2, -1, 1), EnergyFlux=d(0, -3, 1))

ALL = [n for n, s, e in S.PREFIXES]
PI = Fr(3141592653589793, 10 ** 15)
# name: (dimension, value, symbol, prefixes, aliases)
UNITS = dict(
    meter=(d(1), 1, "m", ALL, ["metre", "metres", "meters"]), second=(d(s=1), 1, "s", ALL, ["seconds"]),
    kilogram=(d(kg=1), 1, "kg", [], ["kilograms"]), gram=(d(kg=1), Fr(1, 1000), "g", [p for p in ALL if p != "kilo"], ["grams"]),
    ampere=(d(A=1), 1, "A", ALL, ["amperes"]), kelvin=(d(K=1), 1, "K", ALL, ["kelvins"]), mole=(d(mol=1), 1, "mol", ALL, ["moles"]),
    candela=(d(cd=1), 1, "cd", ALL, ["candelas"]), radian=(ONE, 1, "rad", ALL, ["radians"]), steradian=(ONE, 1, "sr", ALL, ["steradians"]),
    hertz=(d(s=-1), 1, "Hz", ALL, []), newton=(N, 1, "N", ALL, ["newtons"]), pascal=(PA, 1, "Pa", ALL, ["pascals"]),
    joule=(J, 1, "J", ALL, ["joules"]), watt=(W, 1, "W", ALL, ["watts"]), coulomb=(C, 1, "C", ALL, ["coulombs"]),
    volt=(V, 1, "V", ALL, ["volts"]), farad=(F_, 1, "F", ALL, ["farads"]), ohm=(OHM, 1, "Ω", ALL, ["ohms"]),
    siemens=(d(-2, 3, -1, A=2), 1, "S", ALL, []), weber=(WB, 1, "Wb", ALL, ["webers"]), tesla=(T, 1, "T", ALL, ["teslas"]),
    henry=(H, 1, "H", ALL, ["henrys"]), lumen=(d(cd=1), 1, "lm", ALL, ["lumens"]), lux=(d(-2, cd=1), 1, "lx", ALL, []),
    becquerel=(d(s=-1), 1, "Bq", ALL, ["becquerels"]), gray=(d(2, -2), 1, "Gy", ALL, ["grays"]), sievert=(d(2, -2), 1, "Sv", ALL, ["sieverts"]),
    katal=(d(s=-1, mol=1), 1, "kat", ALL, ["katals"]), minute=(d(s=1), 60, "min", [], ["minutes"]), hour=(d(s=1), 3600, "h", [], ["hours"]),
    day=(d(s=1), 86400, "day", [], ["days"]), astronomicalunit=(d(1), 149597870700, "au", [], ["astronomicalunits"]),
    degree=(ONE, PI / 180, "deg", [], ["degrees"]), arcminute=(ONE, PI / 10800, None, [], ["arcminutes"]),
    arcsecond=(ONE, PI / 648000, None, [], ["arcseconds"]), are=(d(2), 100, None, [], ["ares"]), hectare=(d(2), 10000, "ha", [], ["hectares"]),
    litre=(d(3), Fr(1, 1000), "l", ALL, ["litres"]), tonne=(d(kg=1), 1000, None, ALL, ["tonnes"]),
    dalton=(d(kg=1), Fr(166053906660, 10 ** 11) / 10 ** 27, "Da", [], ["daltons"]),
    electronvolt=(J, Fr(1602176634, 10 ** 9) / 10 ** 19, "eV", ALL, ["electronvolts"]),
    joule_per_kilogram=(d(2, -2), 1, None, ALL, ["joules_per_kilogram"]),
    joule_per_kilogram_kelvin=(d(2, -2, 0, -1), 1, None, ALL, ["joules_per_kilogram_kelvin"]),
    meter_per_second=(d(1, -1), 1, None, ALL, ["meters_per_second"]),
    square_meter=(d(2), 1, None, [], ["square_metre", "square_meters", "square_metres"]),
    cubic_meter=(d(3), 1, None, [], ["cubic_metre", "cubic_meters", "cubic_metres"]))
CONSTANTS = dict(PI=(ONE, PI))


def expand():
    """(every unit name -> (dimension, value), every symbol -> (dimension, value))"""
    units, symbols = {}, {}
    for n, (dim, v, sym, prefixes, aliases) in UNITS.items():
        for p in [None] + list(prefixes):
            f = Fr(v) * (S.FACTOR[p] if p else 1)
            for a in [n] + aliases:
                assert (p or "") + a not in units
                units[(p or "") + a] = (dim, f)
            if sym:
                s = (S.SHORT[p] if p else "") + sym
                assert s not in symbols, s
                symbols[s] = (dim, f)
    return units, symbols
