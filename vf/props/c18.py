"""C18: parsing a unit expression keeps its meaning, and parsing the result changes nothing."""
import math

from gemd.entity.bounds import RealBounds
from gemd.entity.value import NominalReal
from gemd.json import GEMDJson
from gemd.units import parse_units, convert_units, get_base_units, IncompatibleUnitsError

from vf.core import short

RULE = ("Random products and quotients of units with powers, parentheses and scaling factors in "
        "many spellings, evaluated by an independent model (exponents of base units and a "
        "factor); each is parsed, re-parsed, converted, stored and serialized, and parsed again "
        "in another spelling after others have been; malformed expressions are interleaved; "
        "signature: the expression.")
REQUIRED = ["plain", "scaled", "powers", "parentheses", "idempotent", "meaning", "respelled",
            "distinct_scalings", "refused", "spoiled", "stored", "serialized", "negative_scaling",
            "scientific", "many_digits", "bare_number", "unit_objects", "cancelling", "ones", "signed",
            "juxtaposed", "unicode", "prefixed_factors",
            "fractional", "superscripts", "per", "minus_one", "computed_powers",
            "powers_of_ten"]
N = {"quick": 2600, "thorough": 60000}

# name: (factor to the base, exponents of kg, m, s, kelvin, mol, ampere, count, radian, bit)
BASES = ["kg", "m", "s", "kelvin", "mol", "ampere", "count", "radian", "bit"]
ATOMS = {}


def _atom(names, factor, **exps):
    for n in names.split():
        ATOMS[n] = (factor, exps)


_atom("m meter metre", 1.0, m=1)
_atom("cm centimeter", 1e-2, m=1)
_atom("mm", 1e-3, m=1)
_atom("km kilometer", 1e3, m=1)
_atom("inch", 0.0254, m=1)
_atom("foot", 0.3048, m=1)
_atom("angstrom", 1e-10, m=1)
_atom("g gram", 1e-3, kg=1)
_atom("kg kilogram", 1.0, kg=1)
_atom("mg", 1e-6, kg=1)
_atom("lb", 0.45359237, kg=1)
_atom("s second", 1.0, s=1)
_atom("hour", 3600.0, s=1)
_atom("ms", 1e-3, s=1)
_atom("minute", 60.0, s=1)
_atom("kelvin K", 1.0, kelvin=1)
_atom("mol mole", 1.0, mol=1)
_atom("mmol", 1e-3, mol=1)
_atom("ampere", 1.0, ampere=1)
_atom("count", 1.0, count=1)
_atom("radian", 1.0, radian=1)
_atom("degree", math.pi / 180, radian=1)
_atom("bit", 1.0, bit=1)
_atom("byte", 8.0, bit=1)
_atom("percent", 0.01)
_atom("ppm", 1e-6)
_atom("newton N", 1.0, kg=1, m=1, s=-2)
_atom("joule J", 1.0, kg=1, m=2, s=-2)
_atom("watt W", 1.0, kg=1, m=2, s=-3)
_atom("pascal Pa", 1.0, kg=1, m=-1, s=-2)
_atom("MPa", 1e6, kg=1, m=-1, s=-2)
_atom("bar", 1e5, kg=1, m=-1, s=-2)
_atom("volt V", 1.0, kg=1, m=2, s=-3, ampere=-1)
_atom("hertz Hz", 1.0, s=-1)
_atom("liter L", 1e-3, m=3)
_atom("mL", 1e-6, m=3)
_atom("coulomb", 1.0, ampere=1, s=1)
_atom("ohm", 1.0, kg=1, m=2, s=-3, ampere=-2)
_atom("\xb5m \u03bcm", 1e-6, m=1)
_atom("\xc5", 1e-10, m=1)
_atom("k\u03a9", 1e3, kg=1, m=2, s=-3, ampere=-2)
_atom("\xb0", math.pi / 180, radian=1)
_atom("eV", 1.602176634e-19, kg=1, m=2, s=-2)
NAMES = sorted(ATOMS)


class Meaning:
    """factor * product of bases."""

    def __init__(self, factor=1.0, exps=None, size=None):
        self.factor, self.exps = factor, {k: v for k, v in (exps or {}).items() if v}
        # orders of magnitude that an evaluation can pass through, in whatever base units
        self.size = size if size is not None else abs(math.log10(abs(factor))) + 3 * sum(
            abs(v) for v in self.exps.values())

    def times(self, other, sign=1):
        exps = dict(self.exps)
        for k, v in other.exps.items():
            exps[k] = exps.get(k, 0) + sign * v
        size = self.size + other.size
        return Meaning(self.factor * other.factor ** sign if size < 100 else 1.0, exps, size)

    def power(self, n):
        size = self.size * max(1, abs(n))
        return Meaning(self.factor ** n if size < 100 else 1.0,
                       {k: v * n for k, v in self.exps.items()}, size)

    def base(self):
        return " * ".join(f"{k} ** {v}" for k, v in sorted(self.exps.items()))


def atom(ctx):
    name = ctx.rng.choice(NAMES)
    f, e = ATOMS[name]
    ctx.ev("unicode", not name.isascii())
    return [name], Meaning(f, e)


def near_one(rng):
    """A number that differs from 1 in a late digit only."""
    return "1." + "0" * rng.randint(0, 6) + str(rng.randint(1, 9)) \
        if rng.random() < 0.5 else "0." + "9" * rng.randint(1, 7)


def number(ctx):
    """A scaling factor, several spellings."""
    rng = ctx.rng
    k = rng.random()
    if k < 0.06:
        ctx.ev("ones")
        x = rng.choice(["1", "1.0", "1.", "1e0", "01.00"[1:], "1.0e0", "1_0.0e-1", "0.1e1"])
    elif k < 0.35:
        x = rng.choice(["2", "10", "100", "3", "7", "1000", "25", "12345"])
    elif k < 0.65:
        x = rng.choice(["2.5", "0.5", "0.001", "1.5", "10.25", "0.1", "3.14159"])
    elif k < 0.75:
        x = rng.choice([".5", "5.", "2.50", "2_000", ".25"])
    elif k < 0.82:
        ctx.ev("many_digits")
        x = near_one(rng) if rng.random() < 0.4 else "".join(
            rng.choice("0123456789") for _ in range(rng.randint(4, 40)))
        if "." not in x:
            n = rng.randint(1, len(x) - 1)
            x = f"{rng.randint(1, 9)}{x[:n]}.{x[n:]}{rng.randint(1, 9)}"
    else:
        ctx.ev("scientific")
        x = rng.choice(["1e3", "1E3", "2.5e3", "1e-3", "2.5e-3", "10**3", "10^4", "10 ** -3",
                        "2.5 * 10^3", "1e10", "2*10**-2", "6.02e23", "10 ^ +3"])
    value = float(eval(x.replace("^", "**")))  # our own literals
    if rng.random() < 0.08 and "10" not in x.replace("1000", ""):
        ctx.ev("signed")
        return [rng.choice(["+", "+ ", "--", "-+-", "+--"]), x], value
    if value != 1 and rng.random() < 0.12 and "10" not in x.replace("1000", ""):
        ctx.ev("negative_scaling")
        return ["-", x], -value
    return [x], value


def power(ctx, tokens, meaning):
    """Maybe raised to a power."""
    rng = ctx.rng
    if rng.random() < 0.6:
        return tokens, meaning
    ctx.ev("powers")
    k = rng.random()
    if 0.2 < k < 0.26:
        ctx.ev("computed_powers")
        n, t = rng.choice([(2, "((1)*2)"), (2, "(2*(1))"), (2, "((2))"), (2, "((1)+1)"),
                           (-2, "(-(2))"), (-1, "(1-(2))"), (3, "(((1)+1)*1+1)")])
        return tokens + [rng.choice(["**", "^"]), t], meaning.power(n)
    if k < 0.1 and not any("-" in t for t in tokens):
        ctx.ev("fractional")
        n, t = rng.choice([(0.5, "0.5"), (0.5, "(1/2)"), (1.5, "1.5"), (1.5, "(3/2)"),
                           (1.5, "((3)/(2))"), (0.5, "(1/(2))"), (0.5, "((1)/2)"),
                           (-0.5, "-0.5"), (2.0, "2.0"), (1, "1"), (2, "+2"), (2, "(+2)")])
        return tokens + [rng.choice(["**", "^"]), t], meaning.power(n)
    if k < 0.2 and not tokens[-1][-1].isdigit():
        ctx.ev("superscripts")
        n = rng.choice([2, 3, -1, -2, 12]) if meaning.size < 6 else rng.choice([2, -1])
        sup = str(n).translate(str.maketrans("-0123456789", "⁻⁰¹²³⁴⁵⁶⁷⁸⁹"))
        return tokens[:-1] + [tokens[-1] + sup], meaning.power(n)
    n = rng.choice([2, 2, 3, -1, -2, 4, -3])
    op = rng.choice(["**", "^"])
    if n < 0 and rng.random() < 0.5:
        return tokens + [op, "(", str(n), ")"], meaning.power(n)
    return tokens + [op, str(n)], meaning.power(n)


def term(ctx, first, depth):
    """(tokens, meaning, is it scaled)."""
    rng = ctx.rng
    k = rng.random()
    if not first and k < 0.3:
        num, x = number(ctx)
        if rng.random() < 0.15:
            ctx.ev("bare_number")
            return num, Meaning(x), True
        name, m = atom(ctx)
        return num + ["~"] + name, Meaning(x).times(m), True
    if depth < 2 and k < 0.42:
        ctx.ev("parentheses")
        tokens, m, scaled = product(ctx, depth + 1, rng.randint(1, 3), first)
        tokens, m = power(ctx, ["("] + tokens + [")"], m)
        return tokens, m, scaled
    name, m = atom(ctx)
    tokens, m = power(ctx, name, m)
    return tokens, m, False


def product(ctx, depth, n, first):
    """A chain of products and quotients."""
    rng = ctx.rng
    tokens, m, scaled = term(ctx, first, depth)
    tied = scaled  # whether the unit that comes last has a factor
    for _ in range(n - 1):
        op = rng.choice(["*", "/", "/"])
        t, x, s = term(ctx, False, depth)
        if op == "*" and not s and t[0][0].isalpha() and tokens[-1][-1].isalpha() \
                and rng.random() < 0.5:
            # One unit after another
            ctx.ev("juxtaposed")
            between = "~" if tied else rng.choice(["~", "~", "·"])
            tokens, m = tokens + [between] + t, m.times(x)
            continue
        if op == "/" and not s and t[0][0].isalpha() and tokens[-1][-1].isalpha() \
                and rng.random() < 0.1:
            ctx.ev("per")
            tokens, m = tokens + ["~", "per", "~"] + t, m.times(x, -1)
            continue
        if op == "*" and t[0].startswith("10") and tokens[-1][0] in ".0123456789" \
                and (len(tokens) < 2 or tokens[-2] not in ("**", "^")):
            op = "/"  # by design, number * 10 ** n is one number
            ctx.ev("one_number_avoided")
        tokens = tokens + [op] + t
        m = m.times(x, 1 if op == "*" else -1)
        scaled, tied = scaled or s, s
    return tokens, m, scaled


def spell(rng, tokens, style=None):
    """Write the tokens with some spacing; ~ is a space that must stay."""
    style = style or rng.choice(["tight", "loose", "mixed"])
    out = ""
    for t in tokens:
        if t == "~":
            out += " " * (1 if style != "mixed" else rng.randint(1, 3))
        elif t in "*/" or t in ("**", "^"):
            pad = {"tight": "", "loose": " "}.get(style, rng.choice(["", " ", "  "]))
            out += pad + t + pad
        else:
            out += t
    return out


def same(x, y, rel=1e-9):
    return x == y or abs(x - y) <= rel * max(abs(x), abs(y))


def verify(ctx, text, meaning):
    """Everything that should hold of one expression; returns its canonical form."""
    p = parse_units(text)
    ctx.check(isinstance(p, str), f"parse_units({text!r}) is {p!r}")
    again = parse_units(p)
    ctx.check(again == p, lambda: f"parse_units({text!r}) is {p!r}, which parses to {again!r}")
    ctx.ev("idempotent")
    base = meaning.base()
    for u in (text, p):
        got = convert_units(1.0, u, base)
        ctx.check(same(got, meaning.factor),
                  lambda: f"1 {u!r} (from {text!r}) is {got} {base!r}, expected {meaning.factor}")
    back = convert_units(1.0, base, p)
    ctx.check(same(back, 1 / meaning.factor), lambda: f"1 {base} is {back} {p}")
    got = convert_units(1.0, text, p)
    ctx.check(same(got, 1.0), lambda: f"1 {text!r} is {got} {p!r}")
    bu, ratio, offset = get_base_units(text)
    _, ratio2, offset2 = get_base_units(p)
    ctx.check(same(ratio, ratio2) and offset == offset2 == 0,
              lambda: f"base units of {text!r}: {ratio}, {offset}; of {p!r}: {ratio2}, {offset2}")
    ctx.check(same(convert_units(1.0, p, str(bu)), ratio), "get_base_units ratio is not the "
                                                          "conversion to the base unit")
    ctx.ev("meaning")
    return p


def store(ctx, text, p):
    """Values and bounds hold the canonical form, also after serialization."""
    v = NominalReal(1.5, text)
    b = RealBounds(0, 1, text)
    ctx.check(v.units == p and b.default_units == p,
              lambda: f"{text!r}: a value holds {v.units!r}, bounds {b.default_units!r}, parse "
                      f"gives {p!r}")
    ctx.ev("stored")
    w, c = GEMDJson().loads(GEMDJson().dumps([v, b]))
    ctx.check(w.units == p and c.default_units == p and w == v and c == b,
              lambda: f"units {p!r} come back as {w.units!r} and {c.default_units!r}")
    ctx.ev("serialized")
    unit = parse_units(text, return_unit=True)
    ctx.check(not isinstance(unit, str) and str(unit) == p, "unit object reads differently")
    ctx.check(parse_units(unit, return_unit=True) == unit, "a unit object does not parse to itself")
    ctx.ev("unit_objects")


MALFORMED = ["notaunit", "m / zork", "5 m", "2.5 g / cm", "kg ** m", "m $ s", "g / 2 cm ** 2",
             "g / 2 3 cm", "m / cm 2", "JOULE", "zork ** 2", "m * qux / s", "1e3 m",
             "m ** x", "m,s", "m;s", "m=s", "[m]", "m!", "//", "*", "/", "()", "m()", "zorkm",
             "m2", "g / m2", "k10", "m_2", "k_2_centimeter",
             "M1e3", "m ** 2 ** kg", "m 'kg'", "m # kg", "'m'", "b'kg' m", "#"]
SPOILED = ["* {}", "/ {}", "{} *", "{} /", "{} **", "{} * zork", "zork / {}", "{} / zork ** 2",
           "({}", "{})", "({}) ** kg", "{} * * s", "{} $", "{} / / s", "s * {} /", "({}) zork",
           "{} 'kg'", "{} # s", "{} \"kg\" s", "'' {}"]


def minus_one(ctx):
    """A factor of minus one is refused or kept, never dropped."""
    rng = ctx.rng
    a, b = rng.sample(["kg", "m", "s", "mol", "J"], 2)
    op = rng.choice(["/", "*", " / ", " * "])
    one = rng.choice(["1", "1.0", "1.", "1e0", "1.00"])
    sign = rng.choice(["-", "--", "-+", "---", "- ", "+-"])
    text = rng.choice(["{a}{op}({sign}{one} {b})", "{a}{op}{sign}{one} {b}",
                       "({sign}{one} {b}){op}{a}", "{a}{op}({sign}{one}{b})**3"]).format(
        a=a, b=b, op=op, one=one, sign=sign)
    if one.endswith("e0") and "e0J" in text:
        return
    try:
        parse_units(text)
    except ValueError:
        ctx.ev("minus_one_refused")
    else:
        got = convert_units(1.0, text, text.replace(sign + one, ""))
        ctx.check(same(got, (-1.0) ** sign.count("-")),
                  f"1 {text!r} is {got} {text.replace(sign + one, '')!r}")
        ctx.ev("minus_one_kept")
    ctx.ev("minus_one")


def power_of_ten(ctx):
    """10 ** n as an exponent is a number like another."""
    rng = ctx.rng
    u, op = rng.choice(["s", "m", "kg", "mol"]), rng.choice(["**", "^", " ** ", " ^ "])
    other = rng.choice(["", "g*", "K/", "g/(2 K)*"])
    n = rng.choice([0, 1])
    x, y = parse_units(f"{other}{u}{op}10{op}{n}"), parse_units(f"{other}{u}{op}{10 ** n}")
    ctx.check(x == y, lambda: f"{other}{u}{op}10{op}{n} is {x!r}, with {10 ** n} it is {y!r}")
    ctx.ev("powers_of_ten")


def case(ctx):
    """Several expressions, in one process."""
    rng = ctx.rng
    if rng.random() < 0.15:
        minus_one(ctx)
    if rng.random() < 0.1:
        power_of_ten(ctx)
    seen, later = [], []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.3:
            bad = rng.choice(MALFORMED)
            ctx.raises(Exception, lambda: parse_units(bad), f"parse_units({bad!r})")
            ctx.raises(Exception, lambda: NominalReal(1, bad), f"NominalReal(1, {bad!r})")
            ctx.ev("refused")
        tokens, meaning, scaled = product(ctx, 0, rng.randint(1, 4), True)
        if meaning.size >= 100:
            continue
        text = spell(rng, tokens)
        ctx.log(text)
        if rng.random() < 0.4:
            bad = rng.choice(SPOILED).format(text)
            ctx.raises(Exception, lambda: parse_units(bad), f"parse_units({bad!r})")
            ctx.raises(Exception, lambda: RealBounds(0, 1, bad), f"RealBounds(0, 1, {bad!r})")
            ctx.ev("spoiled")
        if scaled:
            # A factor that was used has not become a unit
            n = rng.choice([t for t in tokens if t[0].isdigit() and t.replace("e", "").isalnum()]
                           or ["2"])
            bad = rng.choice(["m", "k", "M", "u", "milli", "kilo"]) + rng.choice(["", "_"]) + n
            later.append(rng.choice(["{}", "g / {}", "{} * s", "{} ** 2"]).format(bad))
        ctx.ev("scaled" if scaled else "plain")
        if not meaning.exps:
            ctx.ev("cancelling")
        p = verify(ctx, text, meaning)
        store(ctx, text, p)
        seen.append((tokens, meaning, p))
        ctx.sig(text)
    for tokens, meaning, p in seen:
        # after everything else was parsed, and not from a cache
        text = spell(rng, tokens, "mixed")
        q = parse_units(text + " " * rng.randint(0, 3))
        ctx.check(q == p, lambda: f"{text!r} now parses to {q!r}, formerly {p!r}")
        verify(ctx, text, meaning)
        ctx.ev("respelled")
    for bad in later:
        ctx.raises(Exception, lambda: parse_units(bad), f"parse_units({bad!r})")
        ctx.ev("prefixed_factors")
    for i, (_, m1, p1) in enumerate(seen):
        for _, m2, p2 in seen[i + 1:]:
            related(ctx, m1, p1, m2, p2)
    if rng.random() < 0.5:
        twins(ctx)
    ctx.sample({"expressions": [short(p) for _, _, p in seen]})


def related(ctx, m1, p1, m2, p2):
    """Two expressions convert by the ratio of their factors, or not at all."""
    if m1.exps == m2.exps:
        got = convert_units(1.0, p1, p2)
        ctx.check(same(got, m1.factor / m2.factor),
                  lambda: f"1 {p1!r} is {got} {p2!r}, expected {m1.factor / m2.factor}")
        ctx.ev("converted_between")
        if not same(m1.factor, m2.factor):
            ctx.check(p1 != p2, "different units share a name")
    else:
        ctx.raises(IncompatibleUnitsError, lambda: convert_units(1.0, p1, p2),
                   f"converting {p1!r} to {p2!r}")


def twins(ctx):
    """Units that differ in their scaling factor, or the scaled unit, only."""
    rng = ctx.rng
    top, m = atom(ctx)
    bottom, mb = atom(ctx)
    other, mo = atom(ctx)
    (n1, x1), (n2, x2) = number(ctx), number(ctx)
    units = []
    for num, x, unit, mu in [(n1, x1, bottom, mb), (n2, x2, bottom, mb), (n1, x1, other, mo)]:
        text = spell(rng, top + ["/"] + num + ["~"] + unit)
        meaning = m.times(Meaning(x).times(mu), -1)
        units.append((meaning, verify(ctx, text, meaning)))
    for i, (m1, p1) in enumerate(units):
        for m2, p2 in units[i + 1:]:
            related(ctx, m1, p1, m2, p2)
    ctx.ev("distinct_scalings")


FIXED = []
