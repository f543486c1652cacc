"""C19: unit conversion is exact where it can be, reversible, transitive, and never invented."""
import json
import math
import os
import re

from gemd.units import convert_units, get_base_units, parse_units, IncompatibleUnitsError

from vf.core import VERIF, short

RULE = ("Random numbers and pairs and triples of units out of a recorded table of 1070 units "
        "(factor, offset and root unit of each, which agree with the unit library's own "
        "definitions wherever it has the unit), prefixed or not, compatible or not; conversions "
        "are compared with the table, inverted and chained; every unit of the table is converted "
        "to its root once; signature: (units, outcome).")
REQUIRED = ["identity", "table", "inverse", "transitive", "incompatible", "offset", "prefixed",
            "counting_kept_apart", "base_units", "monotone", "affine", "whole_table", "aliases",
            "repeatable", "dimensions_told"]
N = {"quick": 60000, "thorough": 1000000}
ASSUMPTIONS = ["logarithmic units are not judged", "rounding up to 1e-9 relative"]

with open(os.path.join(VERIF, "vf", "unit_golden.json")) as _f:
    GOLD = {k: tuple(v) for k, v in json.load(_f).items()}
BY_ROOT = {}
for _k, (_r, _, _) in sorted(GOLD.items()):
    BY_ROOT.setdefault(_r, []).append(_k)
ROOTS = sorted(BY_ROOT)
RICH = [r for r in ROOTS if len(BY_ROOT[r]) > 2]
FLAT = {"": ["", "percent", "ppm", "dimensionless"], "radian": ["radian", "degree", "turn"],
        "count": ["count"], "bit": ["bit", "byte"]}
PREFIXES = {"kilo": 1e3, "milli": 1e-3, "micro": 1e-6, "mega": 1e6, "nano": 1e-9, "giga": 1e9,
            "centi": 1e-2, "deci": 0.1, "hecto": 100.0, "pico": 1e-12, "tera": 1e12, "deca": 10.0,
            "femto": 1e-15, "atto": 1e-18, "peta": 1e15, "exa": 1e18}
SYMBOLS = {"k": 1e3, "m": 1e-3, "u": 1e-6, "M": 1e6, "n": 1e-9, "G": 1e9, "c": 1e-2, "p": 1e-12,
           "µ": 1e-6, "T": 1e12}
LONG = ["meter", "gram", "second", "joule", "watt", "pascal", "volt", "mole", "liter", "ampere",
        "newton", "hertz", "ohm", "coulomb", "farad", "tesla", "bit", "byte"]
SHORT = ["m", "g", "s", "J", "W", "Pa", "V", "mol", "L", "A", "N", "Hz"]
ALIASES = [("meter", "m", "metre", "Meter"), ("gram", "g", "Gram"), ("inch", "in", "international_inch"),
           ("joule", "J", "Joule"), ("degree_Celsius", "degC", "celsius"),
           ("percent", "pct"), ("angstrom", "ångström", "Å"), ("liter", "L", "litre", "l")]


def pick(ctx, root=None):
    """(name, root, factor, offset)."""
    rng = ctx.rng
    if rng.random() < 0.15:
        prefix, base = (rng.choice(list(PREFIXES)), rng.choice(LONG)) if rng.random() < 0.6 \
            else (rng.choice(list(SYMBOLS)), rng.choice(SHORT))
        name = prefix + base
        if name not in GOLD and name not in ("cmol",):
            r, f, o = GOLD[base]
            if root in (None, r):
                ctx.ev("prefixed")
                return name, r, f * (PREFIXES.get(prefix) or SYMBOLS[prefix]), o
    if root is None:
        root = rng.choice(RICH if rng.random() < 0.8 else ROOTS)
    name = rng.choice(BY_ROOT[root])
    return (name,) + GOLD[name]


def expected(x, a, b):
    """Convert by the table; also the scale that rounding is relative to."""
    _, _, fa, oa = a
    _, _, fb, ob = b
    y = (x * fa + oa - ob) / fb
    return y, max(abs(y), abs(oa / fb), abs(ob / fb), abs(x * fa / fb))


def agree(x, y, scale):
    return x == y or abs(x - y) <= 1e-11 * scale


def number(rng):
    return rng.choice([0.0, 1.0, -1.0, 1, 2, 100, 0.1, 1e-6, 1e6, -40.0, 273.15,
                       rng.uniform(-1000, 1000), rng.uniform(-1, 1), rng.randint(-10 ** 6, 10 ** 6)])


def case(ctx):
    """A pair, maybe a triple."""
    rng = ctx.rng
    a = pick(ctx)
    x = number(rng)
    ctx.check(convert_units(x, a[0], a[0]) == x, f"{x} {a[0]} is not itself")
    ctx.ev("identity")
    if rng.random() < 0.25:
        return apart(ctx, a, x)
    b = pick(ctx, a[1])
    want, scale = expected(x, a, b)
    if not (math.isfinite(want) and (want == 0 or 1e-250 < abs(want) < 1e250)):
        return
    got = convert_units(x, a[0], b[0])
    ctx.check(agree(got, want, scale),
              lambda: f"{x} {a[0]} is {got} {b[0]}, expected {want}")
    ctx.ev("table")
    ctx.sig(a[0], b[0], x > 0, a[3] != 0)
    if a[3] or b[3]:
        ctx.ev("offset")
    # the way back
    back = convert_units(got, b[0], a[0])
    _, scale_back = expected(got, b, a)
    ctx.check(agree(back, x, max(abs(x), scale_back)),
              lambda: f"{x} {a[0]} -> {got} {b[0]} -> {back} {a[0]}")
    ctx.ev("inverse")
    # through a third unit
    c = pick(ctx, a[1])
    via = convert_units(got, b[0], c[0])
    straight = convert_units(x, a[0], c[0])
    _, scale_c = expected(got, b, c)
    _, scale_d = expected(x, a, c)
    ctx.check(agree(via, straight, max(scale_c, scale_d)),
              lambda: f"{x} {a[0]} is {straight} {c[0]}, but {via} through {b[0]}")
    ctx.ev("transitive")
    # more stays more; the conversion is affine
    y = x + abs(number(rng)) + 1
    higher = convert_units(y, a[0], b[0])
    want_y, scale_y = expected(y, a, b)
    ctx.check(agree(higher, want_y, scale_y) and
              (higher > got or a[2] * b[2] < 0 or agree(higher, got, max(scale, scale_y))),
              lambda: f"{y} {a[0]} is {higher} {b[0]}, while {x} is {got}")
    ctx.ev("monotone")
    mid = convert_units((x + y) / 2, a[0], b[0])
    ctx.check(agree(mid, (got + higher) / 2, max(scale, scale_y)), "conversion is not affine")
    ctx.ev("affine")
    # the same question, asked again and in the canonical spelling
    pa, pb = parse_units(a[0]), parse_units(b[0])
    once_more = convert_units(x, pa, pb)
    ctx.check(agree(once_more, got, scale) and convert_units(x, a[0], b[0]) == got,
              lambda: f"{x} {a[0]} is {got} {b[0]}, but {once_more} when written {pa}, {pb}")
    ctx.ev("repeatable")
    base(ctx, a)
    ctx.sample({"convert": f"{x} {a[0]} = {got} {b[0]}"})


def base(ctx, a):
    """get_base_units agrees with convert_units."""
    unit, ratio, offset = get_base_units(a[0] if ctx.rng.random() < 0.5
                                         else parse_units(a[0], return_unit=True))
    ctx.check(not isinstance(unit, str), "the base unit is not a unit object")
    target = str(unit) if str(unit) != "dimensionless" else ""
    zero, one = convert_units(0.0, a[0], target), convert_units(1.0, a[0], target)
    ctx.check(agree(zero, offset, max(abs(zero), abs(ratio) * 1e-3)) and
              agree(one - zero, ratio, max(abs(ratio), abs(zero))),
              lambda: f"get_base_units({a[0]!r}) = {unit}, {ratio}, {offset}, but 0 and 1 convert "
                      f"to {zero} and {one}")
    # kilograms for grams, else the root unit
    want_f, want_o = a[2], a[3]
    back_f, back_o = convert_units(1.0, target, a[1]) - convert_units(0.0, target, a[1]), \
        convert_units(0.0, target, a[1])
    ctx.check(agree(ratio * back_f, want_f, abs(want_f)) and
              agree(offset * back_f + back_o, want_o, max(abs(want_o), abs(want_f))),
              lambda: f"get_base_units({a[0]!r}) = {unit}, {ratio}, {offset}; expected "
                      f"{want_f}, {want_o} of {a[1]!r}")
    ctx.ev("base_units")


def apart(ctx, a, x):
    """Units of different things do not convert, counting units and plain numbers included."""
    rng = ctx.rng
    if rng.random() < 0.4:
        r1, r2 = rng.sample(sorted(FLAT), 2)
        u, v = rng.choice(FLAT[r1]), rng.choice(FLAT[r2])
        ctx.ev("counting_kept_apart")
    else:
        for _ in range(50):
            b = pick(ctx)
            if b[1] != a[1]:
                break
        else:
            return
        u, v = a[0], b[0]
    ctx.raises(IncompatibleUnitsError, lambda: convert_units(x, u, v), f"{x} {u!r} to {v!r}")
    ctx.raises(IncompatibleUnitsError, lambda: convert_units(x, v, u), f"{x} {v!r} to {u!r}")
    ctx.ev("incompatible")
    ctx.sig("apart", u, v)


def table(part, parts):
    """Every unit of the table against its root."""
    def func(ctx):
        for i, (name, (root, f, o)) in enumerate(sorted(GOLD.items())):
            if i % parts != part:
                continue
            for x in (0.0, 1.0, 7.5, -3.0):
                want = x * f + o
                got = convert_units(x, name, root)
                ctx.check(agree(got, want, max(abs(want), abs(o))),
                          lambda: f"{x} {name} is {got} {root!r}, expected {want}")
            p = parse_units(name)
            ctx.check(parse_units(p) == p, f"{name} parses to {p}, which does not parse to itself")
            ctx.ev("whole_table")
            ctx.sig("table", name)
            if o == 0:
                ctx.check(agree(convert_units(1.0, root, name), 1 / f, abs(1 / f)),
                          f"1 {root} in {name} is {convert_units(1.0, root, name)}")
    return func


def aliases(ctx):
    """Names of one unit are one unit."""
    for group in ALIASES:
        forms = {parse_units(n) for n in group if n in GOLD}
        ctx.check(len(forms) == 1, f"{group} parse to {forms}")
        ctx.ev("aliases")
    ctx.check(parse_units("dimensionless") == parse_units(""), "dimensionless is not ''")
    ctx.sig("aliases", short(ALIASES))


def dimensions(ctx):
    """The error says what does not fit."""
    told = {"m": "[length]", "s": "[time]", "degC": "[temperature]", "kg": "[mass]",
            "mol/L": "[substance] / [length] ** 3", "inch": "[length]", "eV":
            "[length] ** 2 * [mass] / [time] ** 2", "volt": "[length] ** 2 * [mass] / [current] / "
            "[time] ** 3"}
    for u in told:
        for v in told:
            if told[u] == told[v]:
                continue
            error = ctx.raises(IncompatibleUnitsError, lambda: convert_units(2.0, u, v),
                               f"{u!r} to {v!r}")
            words = [sorted(re.findall(r"[a-z]+", str(d))) for d in (error.dim1, error.dim2)]
            ctx.check(words == [sorted(re.findall(r"[a-z]+", told[w])) for w in (u, v)],
                      lambda: f"{u!r} to {v!r}: {error}")
            ctx.ev("dimensions_told")


FIXED = [(f"table {k}", table(k, 8)) for k in range(8)] + [
    ("aliases", aliases), ("dimensions", dimensions)]
