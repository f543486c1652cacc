"""C15: values and bounds never hold data outside their domain."""
import copy
import math

import numpy as np
import pandas as pd

from gemd.entity.bounds import RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds
from gemd.entity.value import NominalReal, NormalReal, UniformReal, NominalInteger, \
    UniformInteger, NominalCategorical, DiscreteCategorical, EmpiricalFormula, \
    NominalComposition, Smiles, InChI

from vf import gen
from vf.core import short

RULE = ("Constructors and random histories of assignments on every kind of bounds and value, with "
        "candidates from inside, at the edge of and outside the domain; an independent model says "
        "which are accepted and what is stored; signature: (class, field, candidate, outcome).")
REQUIRED = ["built", "build_refused", "assigned", "assignment_refused", "unchanged_after_refusal",
            "real_bounds", "integer_bounds", "names", "probabilities", "formulas", "inchi",
            "integers", "unordered_refused", "non_finite_refused", "non_integral_refused",
            "unknown_element_refused", "bad_sum_refused", "units_refused", "array_like",
            "inputs_not_adopted"]
N = {"quick": 150000, "thorough": 2500000}
ASSUMPTIONS = ["python runs without -O (some constructors refuse with assert)"]

REFUSALS = (ValueError, TypeError, AssertionError, OverflowError)
ELEMENTS = set("""H D T He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni
Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba Hf Ta W Re Os
Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og La Ce Pr Nd Pm Sm
Eu Gd Tb Dy Ho Er Tm Yb Lu Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr""".split())
NAN, INF = float("nan"), float("inf")
BAD = object()  # "refused"


# -- candidates and their fate -------------------------------------------------------------------
def real_candidate(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice([NAN, INF, -INF])
    if k < 0.2:
        return None
    if k < 0.4:
        return rng.choice([0, 1, -1, 0.0, -0.0, 1.5, 2 ** 50, 1e300, -1e300, 5e-324])
    return rng.choice([rng.uniform(-9, 9), rng.randint(-9, 9), round(rng.uniform(-9, 9), 1)])


def real_fate(x):
    return BAD if x is None or not math.isfinite(x) else float(x)


def int_candidate(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice([NAN, INF, -INF])
    if k < 0.15:
        return None
    if k < 0.35:
        return rng.choice([0.5, -1.5, 1e-9, 2.0000001, -0.1, 3.999999999, 5.0000000001,
                           rng.randint(-9, 9) + rng.choice([1, -1]) * 10.0 ** -rng.randint(1, 14),
                           1e9 + 0.25])
    if k < 0.5:
        return rng.choice([2.0, -3.0, 0.0, -0.0, 1e15, True])
    if k < 0.6:
        return rng.choice([2 ** 53 + 1, 2 ** 53, -2 ** 63 - 1, 10 ** 25, 10 ** 25 + 1])
    return rng.randint(-9, 9)


def int_fate(x):
    if x is None or (isinstance(x, float) and (not math.isfinite(x) or x != math.floor(x))):
        return BAD
    return int(x)


def names_candidate(ctx, pool):
    rng = ctx.rng
    names = rng.sample(pool, rng.randint(0, 4))
    k = rng.random()
    if k < 0.15:
        names.insert(rng.randint(0, len(names)), rng.choice([1, None, 2.5, b"x", ("a",), True]))
    names += names[:rng.randint(0, 1)]
    k = rng.random()
    if k < 0.55:
        return rng.choice([list, tuple, set])(names)
    if k < 0.65:
        ctx.ev("array_like")
        return np.array(names, dtype=object)
    if k < 0.75:
        ctx.ev("array_like")
        return pd.Series(names, dtype=object)
    if k < 0.8:
        return None
    return rng.choice(["red", "", 5, 1.5, {"a": 1}, object(), True, b"abc"])


def names_fate(x):
    if x is None:
        return set()
    if not isinstance(x, (list, tuple, set, np.ndarray, pd.Series)):
        return BAD
    return set(x) if all(isinstance(y, str) for y in x) else BAD


def probability_candidate(rng):
    k = rng.random()
    if k < 0.4:
        return gen.probabilities(rng)
    if k < 0.6:
        p = gen.probabilities(rng)
        key = rng.choice(list(p))
        p[key] += rng.choice([1e-6, -1e-6, 0.01, -0.5, 1, 1e-7, NAN, INF])
        return p
    if k < 0.68:
        p = gen.probabilities(rng)
        key = rng.choice(list(p))
        p[rng.choice([1, None, ("a",), 2.5])] = p.pop(key)
        return p
    if k < 0.76:
        return {}
    if k < 0.9:
        return rng.choice(gen.CATEGORIES)
    return rng.choice([None, 5, ["red"], ("red", 1), {"red"}, 1.0, object()])


def probability_fate(x):
    if x is None:
        return None
    if isinstance(x, str):
        return {x: 1.0}
    if not isinstance(x, dict):
        return BAD
    if any(not isinstance(k, str) for k in x):
        return BAD
    total = math.fsum(x.values()) if all(math.isfinite(v) for v in x.values()) else NAN
    return dict(x) if abs(total - 1) < 5e-8 else BAD


def text_candidate(rng):
    return rng.choice([5, None, ["x"], b"x", 1.5, {"a": 1}, True]) if rng.random() < 0.3 \
        else gen.text(rng)


def text_fate(x):
    return x if x is None or isinstance(x, str) else BAD


def formula_candidate(rng):
    k = rng.random()
    if k < 0.45:
        parts = [rng.choice(sorted(ELEMENTS)) + rng.choice(["", "2", "0.5", "10"])
                 for _ in range(rng.randint(1, 5))]
        return rng.choice(["{}", "({})2", "{}(OH)2"]).format("".join(parts))
    if k < 0.75:
        parts = [rng.choice(sorted(ELEMENTS)) + rng.choice(["2", "3", "1.5"])
                 for _ in range(rng.randint(0, 3))]
        bad = rng.choice(["J", "Q", "Xx", "Zz", "Hh", "Naa", "A", "Uuo", "G", "Oo", "Fee", "R",
                          "L", "X", "Ee", "M", "Z", "E", "Uue"])
        parts.insert(rng.randint(0, len(parts)), bad + "2")
        return "".join(parts)
    return rng.choice([None, 5, ["H"], 1.5, b"H2O", ("H",), {"H": 2}, ""])


def formula_fate(x):
    if x is None:
        return None
    if not isinstance(x, str):
        return BAD
    found, word = [], ""
    for c in x + ".":
        if word and "a" <= c <= "z":
            word += c
            continue
        if word:
            found.append(word)
        word = c if "A" <= c <= "Z" else ""
    return x if all(w in ELEMENTS for w in found) else BAD


BODIES = ["CH4/h1H4", "C2H6/c1-2/h1-2H3", "H2O/h1H2", "ClH/h1H", "Na.Cl/q+1;-1", "C/inchi"]


def inchi_candidate(rng):
    if rng.random() < 0.15:
        return rng.choice([None, 5, ["InChI=1S/CH4"], b"InChI", 1.5])
    body = rng.choice(BODIES)
    return rng.choice(["InChI=1S/{}", "InChI=1/{}", "inchi=1S/{}", "INCHI=1S/{}", "InCHi=1/{}",
                       "1S/{}", "1s/{}", "{}"]).format(body)


def inchi_fate(x):
    if x is None:
        return None
    if not isinstance(x, str):
        return BAD
    if x[:5].lower() == "inchi":
        return "InChI" + x[5:]
    if x[:3].lower() == "1s/":
        return "InChI=1S/" + x[3:]
    return "InChI=1S/" + x


def quantities_candidate(rng):
    k = rng.random()
    d = {c: gen.number(rng) for c in rng.sample(gen.COMPONENTS, rng.randint(0, 4))}
    if k < 0.5:
        return d
    if k < 0.7:
        return [list(p) for p in d.items()] if rng.random() < 0.5 else list(d.items())
    return rng.choice([None, 5, "water", 1.5, {"water"}, object()])


def quantities_fate(x):
    if x is None:
        return {}
    return dict(x) if isinstance(x, (dict, list)) else BAD


def unit_candidate(rng):
    k = rng.random()
    if k < 0.7:
        return rng.choice(["m", "", "cm", "degC", "kg", "1/s", "g/cm^3"])
    return rng.choice([None, "notaunit", "JOULE", "m/zork", "qqq**2"])


def unit_fate(x):
    return BAD if x in (None, "notaunit", "JOULE", "m/zork", "qqq**2") else x


# -- oracle --------------------------------------------------------------------------------------
def alike(x, y):
    """Same stored data (NaN aside), same type of number."""
    if isinstance(x, float) and isinstance(y, float):
        return x == y
    return type(x) is type(y) and x == y


def attempt(ctx, func, fate, what, refusals=REFUSALS):
    """Run func; it must be refused iff fate says so."""
    try:
        result = func()
    except refusals as e:
        ctx.check(fate is BAD, lambda: f"{what} was refused: {type(e).__name__}: {e}")
        return BAD
    ctx.check(fate is not BAD, lambda: f"{what} was accepted, giving {short(result)}")
    return result


def interval(ctx, cls, cand, fate, kind, extra=()):
    """Two ordered ends, assigned in random order after construction."""
    rng = ctx.rng
    lo, hi = cand(rng), cand(rng)
    if rng.random() < 0.6:
        try:
            lo, hi = sorted([lo, hi])
        except TypeError:
            pass
    flo, fhi = fate(lo), fate(hi)
    ok = flo is not BAD and fhi is not BAD and flo <= fhi
    ctx.ev(kind)
    what = f"{cls.__name__}({lo!r}, {hi!r})"
    ctx.sig(cls.__name__, lo, hi)
    obj = attempt(ctx, lambda: cls(lo, hi, *extra), None if ok else BAD, what)
    if flo is not BAD and fhi is not BAD and flo > fhi:
        ctx.ev("unordered_refused")
    for x in (lo, hi):
        if isinstance(x, float) and not math.isfinite(x):
            ctx.ev("non_finite_refused")
        elif isinstance(x, float) and x != math.floor(x) and fate(x) is BAD:
            ctx.ev("non_integral_refused")
    if obj is BAD:
        ctx.ev("build_refused")
        return
    ctx.ev("built")
    state = [flo, fhi]
    ctx.check(alike(obj.lower_bound, flo) and alike(obj.upper_bound, fhi),
              lambda: f"{what} holds {obj.lower_bound!r}, {obj.upper_bound!r}")
    for _ in range(rng.randint(0, 6)):
        end = rng.randrange(2)
        x = rng.choice(state) if rng.random() < 0.15 else cand(rng)
        f = fate(x)
        new = list(state)
        new[end] = f
        if f is BAD or new[0] > new[1]:
            f = BAD
        field = ("lower_bound", "upper_bound")[end]
        r = attempt(ctx, lambda: setattr(obj, field, x), f,
                    f"{field} = {x!r} on {cls.__name__}{tuple(state)}")
        if r is BAD:
            ctx.ev("assignment_refused")
            ctx.ev("unchanged_after_refusal")
        else:
            ctx.ev("assigned")
            state = new
        ctx.check(alike(obj.lower_bound, state[0]) and alike(obj.upper_bound, state[1]),
                  lambda: f"after {field} = {x!r} ({'refused' if r is BAD else 'accepted'}) the "
                          f"ends are {obj.lower_bound!r}, {obj.upper_bound!r}, expected {state}")
        if extra:
            ctx.check(obj.default_units == RealBounds(0, 1, extra[0]).default_units,
                      "units changed with an endpoint")


def single(ctx, cls, field, cand, fate, kind, refusal=None, read=None):
    """One field, assigned repeatedly."""
    rng = ctx.rng
    read = read or (lambda o: getattr(o, field))
    x = cand(rng)
    f = fate(x)
    what = f"{cls.__name__}({short(x)})"
    ctx.ev(kind)
    ctx.sig(cls.__name__, short(x))
    before = repr(x)
    obj = attempt(ctx, lambda: cls(x), f, what)
    ctx.check(repr(x) == before, lambda: f"{what} changed its argument")
    if obj is BAD:
        ctx.ev("build_refused")
        if refusal:
            refusal(x)
        # start from something valid instead
        for _ in range(50):
            x = cand(rng)
            f = fate(x)
            if f is not BAD:
                break
        else:
            return
        obj = cls(x)
    ctx.ev("built")
    ctx.check(alike(read(obj), f), lambda: f"{cls.__name__}({short(x)}) holds {short(read(obj))}")
    state = f
    for _ in range(rng.randint(0, 5)):
        x = cand(rng)
        f = fate(x)
        r = attempt(ctx, lambda: setattr(obj, field, x), f,
                    f"{field} = {short(x)} on {cls.__name__}({short(state)})")
        if r is BAD:
            ctx.ev("assignment_refused")
            ctx.ev("unchanged_after_refusal")
            if refusal:
                refusal(x)
        else:
            ctx.ev("assigned")
            state = f
        ctx.check(alike(read(obj), state),
                  lambda: f"after {field} = {short(x)} ({'refused' if r is BAD else 'accepted'}) "
                          f"{cls.__name__} holds {short(read(obj))}, expected {short(state)}")
    return obj


def bounds_with_names(ctx, cls, field, pool):
    """Categories or components."""
    single(ctx, cls, field, lambda rng: names_candidate(ctx, pool), names_fate, "names")
    # the collection handed in is not adopted: editing it later leaves the bounds alone
    mine = {"a", "b"}
    b = cls(mine)
    mine.add(5)
    ctx.check(getattr(b, field) == {"a", "b"}, "bounds adopted the caller's set")
    again = {"c"}
    setattr(b, field, again)
    again.add(None)
    ctx.check(getattr(b, field) == {"c"}, "bounds adopted the caller's set on assignment")
    ctx.ev("inputs_not_adopted")


def units_of(ctx):
    """Continuous values and real bounds insist on parseable units."""
    rng = ctx.rng
    u = unit_candidate(rng)
    make, field = rng.choice([
        (lambda u: NominalReal(1.5, u), "units"), (lambda u: NormalReal(1.5, 0.5, u), "units"),
        (lambda u: UniformReal(1.5, 2.5, u), "units"),
        (lambda u: RealBounds(1.5, 2.5, u), "default_units")])
    ctx.sig("units", field, u)
    obj = attempt(ctx, lambda: make(u), unit_fate(u), f"units {u!r}", Exception)
    if obj is BAD:
        ctx.ev("units_refused")
        ctx.ev("build_refused")
        obj, u = make("m"), "m"
    ctx.ev("built")
    ref = getattr(make(u), field)
    for _ in range(rng.randint(1, 4)):
        v = unit_candidate(rng)
        r = attempt(ctx, lambda: setattr(obj, field, v), unit_fate(v), f"{field} = {v!r}",
                    Exception)
        if r is BAD:
            ctx.ev("units_refused")
            ctx.ev("assignment_refused")
        else:
            ctx.ev("assigned")
            ref = getattr(make(v), field)
        ctx.check(getattr(obj, field) == ref and isinstance(ref, str),
                  lambda: f"{field} is {getattr(obj, field)!r} after {v!r}, expected {ref!r}")


def continuous(ctx):
    """Constructors of continuous values."""
    rng = ctx.rng
    x = rng.choice([1, 2.5, "1", None, [1], True, 0])
    ctx.sig("nominal", x)
    obj = attempt(ctx, lambda: NominalReal(x, "m"),
                  BAD if not isinstance(x, (int, float)) else x, f"NominalReal({x!r})")
    if obj is not BAD:
        ctx.check(type(obj.nominal) is float and obj.nominal == x, "nominal is not the float given")
        ctx.ev("built")
    lo, hi = (rng.choice([0, 1, -1, 0.5, 2, 2.5]) for _ in range(2))
    obj = attempt(ctx, lambda: UniformReal(lo, hi, "m"), BAD if lo > hi else None,
                  f"UniformReal({lo!r}, {hi!r})")
    if obj is not BAD:
        ctx.check((obj.lower_bound, obj.upper_bound) == (lo, hi), "uniform ends differ")
    else:
        ctx.ev("unordered_refused")


def case(ctx):
    """One class, one history."""
    rng = ctx.rng
    k = rng.randrange(12)
    if k == 0:
        interval(ctx, RealBounds, real_candidate, real_fate, "real_bounds",
                 (rng.choice(["m", "", "degC"]),))
    elif k == 1:
        interval(ctx, IntegerBounds, int_candidate, int_fate, "integer_bounds")
    elif k == 2:
        interval(ctx, UniformInteger, int_candidate, int_fate, "integers")
    elif k == 3:
        single(ctx, NominalInteger, "nominal", int_candidate, int_fate, "integers")
    elif k == 4:
        bounds_with_names(ctx, CategoricalBounds, "categories", gen.CATEGORIES)
    elif k == 5:
        bounds_with_names(ctx, CompositionBounds, "components", gen.COMPONENTS)
    elif k == 6:
        single(ctx, DiscreteCategorical, "probabilities", probability_candidate,
               probability_fate, "probabilities",
               lambda x: ctx.ev("bad_sum_refused") if isinstance(x, dict) else None)
    elif k == 7:
        single(ctx, EmpiricalFormula, "formula", formula_candidate, formula_fate, "formulas",
               lambda x: ctx.ev("unknown_element_refused") if isinstance(x, str) else None)
    elif k == 8:
        obj = single(ctx, InChI, "inchi", inchi_candidate, inchi_fate, "inchi")
        if obj is not None and obj.inchi is not None:
            once = obj.inchi
            obj.inchi = once
            ctx.check(obj.inchi == once, "normalizing an InChI again changes it")
    elif k == 9:
        cls, field = rng.choice([(Smiles, "smiles"), (NominalCategorical, "category")])
        single(ctx, cls, field, text_candidate, text_fate, "texts")
    elif k == 10:
        single(ctx, NominalComposition, "quantities", quantities_candidate, quantities_fate,
               "compositions")
        for cls, field, given in (
                (NominalComposition, "quantities", {"a": 0.25, "b": 0.75}),
                (NominalComposition, "quantities", [["a", 0.25], ["b", 0.75]]),
                (DiscreteCategorical, "probabilities", {"a": 0.25, "b": 0.75})):
            one = copy.deepcopy(given)
            x = cls(one)
            y = cls()
            setattr(y, field, one)
            z = cls(getattr(x, field))
            rng.choice([one.clear, lambda: one.pop() if isinstance(one, list) else one.pop("a"),
                        lambda: one.append(["c", 5]) if isinstance(one, list)
                        else one.update(c=5)])()
            getattr(x, field).clear()
            ctx.check(getattr(y, field) == getattr(z, field) == {"a": 0.25, "b": 0.75},
                      f"{cls.__name__} adopted the collection it was given")
            ctx.ev("inputs_not_adopted")
    else:
        units_of(ctx)
        continuous(ctx)
    ctx.sample({"kind": k})


def all_elements(ctx):
    """Every element is known, one by one; near misses are not."""
    for e in sorted(ELEMENTS):
        EmpiricalFormula(e + "2")
        ctx.check(True, "")
    import string
    for a in string.ascii_uppercase:
        for b in [""] + list(string.ascii_lowercase):
            ok = a + b in ELEMENTS
            try:
                EmpiricalFormula(a + b + "3")
                got = True
            except ValueError:
                got = False
            ctx.check(got is ok, f"element {a + b}: accepted={got}, expected={ok}")
    ctx.ev("elements_enumerated", 26 * 27)
    ctx.sig("all elements")


FIXED = [("elements", all_elements)]
