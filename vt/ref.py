"""Independent reference: what each unit *is* (SI Brochure, NIST SP 811, US/UK Weights & Measures definitions),
written from those definitions and not from the code. magnitude = coeff * pi**pi_pow in SI base units (kg m s A K mol cd rad);
a reading r in the unit is (r + offset) * magnitude in SI."""
from fractions import Fraction as F

PI = F("3.14159265358979323846264338327950288419716939937510582097494459")


def f(x):
    return F(str(x))


D = dict(
    mass=(1, 0, 0, 0, 0, 0, 0, 0), length=(0, 1, 0, 0, 0, 0, 0, 0), time=(0, 0, 1, 0, 0, 0, 0, 0),
    current=(0, 0, 0, 1, 0, 0, 0, 0), temp=(0, 0, 0, 0, 1, 0, 0, 0), amount=(0, 0, 0, 0, 0, 1, 0, 0),
    lum=(0, 0, 0, 0, 0, 0, 1, 0), angle=(0, 0, 0, 0, 0, 0, 0, 1), area=(0, 2, 0, 0, 0, 0, 0, 0),
    volume=(0, 3, 0, 0, 0, 0, 0, 0), freq=(0, 0, -1, 0, 0, 0, 0, 0), force=(1, 1, -2, 0, 0, 0, 0, 0),
    energy=(1, 2, -2, 0, 0, 0, 0, 0), power=(1, 2, -3, 0, 0, 0, 0, 0), pressure=(1, -1, -2, 0, 0, 0, 0, 0),
    charge=(0, 0, 1, 1, 0, 0, 0, 0), potential=(1, 2, -3, -1, 0, 0, 0, 0), capacitance=(-1, -2, 4, 2, 0, 0, 0, 0),
    resistance=(1, 2, -3, -2, 0, 0, 0, 0), conductance=(-1, -2, 3, 2, 0, 0, 0, 0),
    inductance=(1, 2, -2, -2, 0, 0, 0, 0), bfield=(1, 0, -2, -1, 0, 0, 0, 0), bflux=(1, 2, -2, -1, 0, 0, 0, 0),
    illuminance=(0, -2, 0, 0, 0, 0, 1, 0), kviscosity=(0, 2, -1, 0, 0, 0, 0, 0),
    density=(1, -3, 0, 0, 0, 0, 0, 0), lindensity=(1, -1, 0, 0, 0, 0, 0, 0), dviscosity=(1, -1, -1, 0, 0, 0, 0, 0),
)
# dimension name -> exponents, as documented for users (README / docs)
DIMS = {
    "Mass": "mass", "Length": "length", "Time": "time", "Current": "current", "Temperature": "temp",
    "Amount": "amount", "Luminosity": "lum", "Angle": "angle", "Area": "area", "Volume": "volume",
    "Frequency": "freq", "Force": "force", "Energy": "energy", "Power": "power", "Pressure": "pressure",
    "Electric Charge": "charge", "Electric Potential": "potential", "Capacitance": "capacitance",
    "Electric Resistance": "resistance", "Electric Conductance": "conductance", "Inductance": "inductance",
    "Magnetic Field": "bfield", "Magnetic Flux": "bflux", "Illuminance": "illuminance",
    "Volume Mass Density": "density", "Linear Mass Density": "lindensity", "Dynamic Viscosity": "dviscosity",
    "Kinematic Viscosity": "kviscosity",
}
IN = f("0.0254")
LB = f("0.45359237")
G0 = f("9.80665")
GAL = 231 * IN ** 3
UKGAL = f("0.00454609")
FT = 12 * IN


class U:
    def __init__(self, name, dim, mag, symbols, pi=0, offset=0, tol=1e-9, system="Metric", off_tol=0):
        self.name, self.dim, self.mag, self.symbols, self.pi = name, D[dim], F(mag), symbols.split(), pi
        self.offset, self.tol, self.system, self.off_tol = F(offset), tol, system, off_tol

    @property
    def value(self):
        return self.mag * PI ** self.pi


UNITS = [
    U("gram", "mass", f("0.001"), "g"),
    U("grain", "mass", f("0.00006479891"), "gr", system="Imperial"),
    U("carat", "mass", f("0.0002"), "ct"),
    U("ounce", "mass", LB / 16, "oz", system="Imperial"),
    U("troy_ounce", "mass", 480 * f("0.00006479891"), "ozt", system="Imperial"),
    U("troy_pound", "mass", 5760 * f("0.00006479891"), "lbt", system="Imperial"),
    U("pound", "mass", LB, "lb", system="Imperial"),
    U("stone", "mass", 14 * LB, "st", system="Imperial"),
    U("slug", "mass", LB * G0 / FT, "slg", system="Imperial"),
    U("ton", "mass", 2240 * LB, "t", system="Imperial"),
    U("meter", "length", 1, "m"),
    U("inch", "length", IN, "in", system="Imperial"),
    U("foot", "length", FT, "ft", system="Imperial"),
    U("yard", "length", 3 * FT, "yd", system="Imperial"),
    U("fathom", "length", 6 * FT, "ftm", system="Imperial"),
    U("furlong", "length", 660 * FT, "fur", system="Imperial"),
    U("mile", "length", 5280 * FT, "mi", system="Imperial"),
    U("nautical_mile", "length", 1852, "nmi", system="Imperial"),
    U("astronomical_unit", "length", 149597870700, "AU", system="Astronomical"),
    U("light_year", "length", 9460730472580800, "ly", system="Astronomical"),
    U("parsec", "length", 648000 * 149597870700, "pc", pi=-1, system="Astronomical"),
    U("second", "time", 1, "s"), U("minute", "time", 60, "min"), U("hour", "time", 3600, "h hr"),
    U("day", "time", 86400, "d"), U("week", "time", 604800, "wk"),
    U("month", "time", 30 * 86400, "mo"),                          # documented: 30 days
    U("year", "time", f("31556925.2"), "yr", tol=1e-7),            # documented: solar (tropical) year
    U("ampere", "current", 1, "A"),
    U("kelvin", "temp", 1, "K"), U("celsius", "temp", 1, "degC", offset=f("273.15")),
    U("rankine", "temp", F(5, 9), "degR", system="Imperial"),
    U("fahrenheit", "temp", F(5, 9), "degF", offset=f("459.67"), system="Imperial"),
    U("mole", "amount", 1, "mol"), U("candela", "lum", 1, "cd"),
    U("radian", "angle", 1, "rad"), U("degree", "angle", F(1, 180), "deg", pi=1),
    U("gradian", "angle", F(1, 200), "grad", pi=1), U("turn", "angle", 2, "rot turn", pi=1),
    U("arcminute", "angle", F(1, 10800), "arcmin", pi=1), U("arcsecond", "angle", F(1, 648000), "arcsec", pi=1),
    U("hertz", "freq", 1, "Hz"), U("newton", "force", 1, "N"),
    U("joule", "energy", 1, "J"), U("newton_meter", "energy", 1, "Nm"),
    U("electronvolt", "energy", f("1.602176634e-19"), "eV"), U("erg", "energy", f("1e-7"), "erg"),
    U("calorie", "energy", f("4.184"), "cal"),
    U("foot_pound", "energy", FT * LB * G0, "ft_lb", system="Imperial"),
    U("kilowatt_hour", "energy", 3600000, "kWh"),
    U("therm", "energy", f("105505585.262"), "thm", system="Imperial"),
    U("watt", "power", 1, "W"), U("horsepower", "power", 550 * FT * LB * G0, "hp", system="Imperial"),
    U("pascal", "pressure", 1, "Pa"), U("torr", "pressure", F(101325, 760), "Torr"),
    U("psi", "pressure", LB * G0 / IN ** 2, "psi", system="Imperial"), U("bar", "pressure", 100000, "bar"),
    U("atmosphere", "pressure", 101325, "atm"),
    U("coulomb", "charge", 1, "C"), U("volt", "potential", 1, "V"), U("farad", "capacitance", 1, "F"),
    U("ohm", "resistance", 1, "Ω"), U("siemens", "conductance", 1, "S"), U("henry", "inductance", 1, "H"),
    U("tesla", "bfield", 1, "T"), U("gauss", "bfield", f("1e-4"), "G"), U("weber", "bflux", 1, "Wb"),
    U("lux", "illuminance", 1, "lx"),
    U("lumen", "lum", 1, "lm"),
    U("stokes", "kviscosity", f("1e-4"), "St"),
    U("hectare", "area", 10000, "hect"), U("acre", "area", 43560 * FT ** 2, "acre", system="Imperial"),
    U("liter", "volume", f("0.001"), "L l"),
    U("gallon", "volume", GAL, "gal gallon", system="Imperial"), U("uk_gallon", "volume", UKGAL, "uk_gal", system="Imperial"),
    U("quart", "volume", GAL / 4, "qrt", system="Imperial"), U("uk_quart", "volume", UKGAL / 4, "uk_qrt", system="Imperial"),
    U("pint", "volume", GAL / 8, "pnt", system="Imperial"), U("uk_pint", "volume", UKGAL / 8, "uk_pnt", system="Imperial"),
    U("cup", "volume", GAL / 16, "cup", system="Imperial"), U("uk_cup", "volume", UKGAL / 16, "uk_cup", system="Imperial"),
    U("fluid_ounce", "volume", GAL / 128, "fl_oz", system="Imperial"),
    U("uk_fluid_ounce", "volume", UKGAL / 160, "uk_fl_oz", system="Imperial"),
    U("metric_fluid_ounce", "volume", f("30e-6"), "metric_fl_oz"),
    U("tablespoon", "volume", GAL / 256, "tbsp", system="Imperial"),
    U("uk_tablespoon", "volume", UKGAL / 256, "uk_tbsp", system="Imperial"),
    U("teaspoon", "volume", GAL / 768, "tsp", system="Imperial"),
    U("uk_teaspoon", "volume", UKGAL / 768, "uk_tsp", system="Imperial"),
    U("bushel", "volume", f("2150.42") * IN ** 3, "bu", system="Imperial"),
]
BY_NAME = {u.name: u for u in UNITS}
BY_SYM = {s: u for u in UNITS for s in u.symbols}

PREFIXES = [
    ("quecto", "q", -30), ("ronto", "r", -27), ("yocto", "y", -24), ("zepto", "z", -21), ("atto", "a", -18),
    ("femto", "f", -15), ("pico", "p", -12), ("nano", "n", -9), ("micro", "µ", -6), ("milli", "m", -3),
    ("centi", "c", -2), ("deci", "d", -1), ("deca", "da", 1), ("hecto", "h", 2), ("kilo", "k", 3), ("mega", "M", 6),
    ("giga", "G", 9), ("tera", "T", 12), ("peta", "P", 15), ("exa", "E", 18), ("zetta", "Z", 21), ("yotta", "Y", 24),
    ("ronna", "R", 27), ("quetta", "Q", 30),
]


def scale_value(s):
    """exact rational * pi power -> Fraction using PI"""
    return F(2) ** s[0] * F(3) ** s[1] * F(5) ** s[2] * PI ** s[3]


def close(a, b, tol):
    """|a-b| <= tol*max(|a|,|b|), a and b exact rationals"""
    a, b = F(a), F(b)
    return abs(a - b) <= F(tol) * max(abs(a), abs(b))
