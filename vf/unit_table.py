"""An independent statement of what some units mean: base = factor * x + offset."""
import math

# name: (dimension, factor to the base unit of that dimension, offset)
TABLE = {
    "m": ("L", 1.0, 0.0), "meter": ("L", 1.0, 0.0), "cm": ("L", 0.01, 0.0),
    "mm": ("L", 0.001, 0.0), "km": ("L", 1000.0, 0.0), "kilometer": ("L", 1000.0, 0.0),
    "inch": ("L", 0.0254, 0.0), "foot": ("L", 0.3048, 0.0), "mile": ("L", 1609.344, 0.0),
    "nm": ("L", 1e-9, 0.0), "angstrom": ("L", 1e-10, 0.0),
    "g": ("M", 0.001, 0.0), "gram": ("M", 0.001, 0.0), "kg": ("M", 1.0, 0.0),
    "mg": ("M", 1e-6, 0.0), "lb": ("M", 0.45359237, 0.0), "tonne": ("M", 1000.0, 0.0),
    "s": ("T", 1.0, 0.0), "second": ("T", 1.0, 0.0), "minute": ("T", 60.0, 0.0),
    "hour": ("T", 3600.0, 0.0), "day": ("T", 86400.0, 0.0), "ms": ("T", 0.001, 0.0),
    "kelvin": ("K", 1.0, 0.0), "degC": ("K", 1.0, 273.15),
    "degF": ("K", 5 / 9, 459.67 * 5 / 9), "degR": ("K", 5 / 9, 0.0),
    "": ("1", 1.0, 0.0), "dimensionless": ("1", 1.0, 0.0), "percent": ("1", 0.01, 0.0),
    "ppm": ("1", 1e-6, 0.0),
    "radian": ("rad", 1.0, 0.0), "degree": ("rad", math.pi / 180, 0.0),
    "count": ("count", 1.0, 0.0), "bit": ("bit", 1.0, 0.0), "byte": ("bit", 8.0, 0.0),
    "mol": ("mol", 1.0, 0.0), "mmol": ("mol", 0.001, 0.0),
    "volt": ("V", 1.0, 0.0), "mV": ("V", 0.001, 0.0),
    "joule": ("E", 1.0, 0.0), "kJ": ("E", 1000.0, 0.0), "eV": ("E", 1.602176634e-19, 0.0),
    "pascal": ("P", 1.0, 0.0), "MPa": ("P", 1e6, 0.0), "bar": ("P", 1e5, 0.0),
    "atm": ("P", 101325.0, 0.0),
    "g/cm^3": ("M/L3", 1000.0, 0.0), "kg/m**3": ("M/L3", 1.0, 0.0),
    "m/s": ("L/T", 1.0, 0.0), "km/hour": ("L/T", 1000 / 3600, 0.0),
    "1/s": ("1/T", 1.0, 0.0), "hertz": ("1/T", 1.0, 0.0),
}
BY_DIM = {}
for _u, (_d, _f, _o) in TABLE.items():
    BY_DIM.setdefault(_d, []).append(_u)
SCALED = {"g / 2.5 cm": ("M/L", 0.001 / 0.025, 0.0), "g / 10 cm": ("M/L", 0.001 / 0.1, 0.0),
          "kg / m": ("M/L", 1.0, 0.0), "m / 3 s": ("L/T", 1 / 3, 0.0),
          "m / -2 s": ("L/T", -0.5, 0.0)}
FULL = dict(TABLE, **SCALED)
FULL_BY_DIM = {}
for _u, (_d, _f, _o) in FULL.items():
    FULL_BY_DIM.setdefault(_d, []).append(_u)


def convert(x, a, b):
    """Convert by the table; None when the units measure different things."""
    da, fa, oa = FULL[a]
    db, fb, ob = FULL[b]
    if da != db:
        return None
    return (x * fa + oa - ob) / fb


def close(x, y, a=None, b=None, rel=1e-9):
    """Whether two converted numbers agree up to rounding (offsets set the scale)."""
    scale = max(abs(x), abs(y))
    if a is not None and b is not None:
        (_, fa, oa), (_, fb, ob) = FULL[a], FULL[b]
        scale = max(scale, abs(oa / fb), abs(ob / fb))
    return abs(x - y) <= rel * scale or x == y
