"""C14: bounds contain, unite and grow as sets of values do."""
from gemd.entity.bounds import RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds, \
    MolecularStructureBounds
from gemd.entity.value import NominalReal, NormalReal, UniformReal, NominalInteger, \
    UniformInteger, NominalCategorical, DiscreteCategorical, EmpiricalFormula, \
    NominalComposition, Smiles, InChI
from gemd.units import IncompatibleUnitsError

import re

from vf import gen, snap
from vf.core import short
from vf.unit_table import FULL, FULL_BY_DIM, convert, close

RULE = ("Random bounds of every kind and values of every kind, in compatible, scaled, offset and "
        "incompatible units, with shared and near endpoints; containment, union and update are "
        "compared with an independent model of intervals and sets and its own unit table; real "
        "answers within rounding of an endpoint in other units are not judged; signature: (kinds, "
        "relation, units).")
REQUIRED = ["contains_true", "contains_false", "other_kind", "not_bounds_refused", "unions",
            "updates", "union_refused", "incompatible_units", "converted", "values_checked",
            "arguments_unchanged", "none_refused", "endpoint_inclusive"]
N = {"quick": 16000, "thorough": 300000}


def region(x):
    """What a bounds or value covers, read from its public fields."""
    t = type(x)
    if t is RealBounds:
        return ("real", x.lower_bound, x.upper_bound, None)
    if t is NominalReal:
        return ("real", x.nominal, x.nominal, None)
    if t is NormalReal:
        return ("real", x.mean, x.mean, None)
    if t is UniformReal:
        return ("real", x.lower_bound, x.upper_bound, None)
    if t is IntegerBounds or t is UniformInteger:
        return ("int", x.lower_bound, x.upper_bound)
    if t is NominalInteger:
        return ("int", x.nominal, x.nominal)
    if t is CategoricalBounds:
        return ("cat", frozenset(x.categories))
    if t is NominalCategorical:
        return ("cat", frozenset([x.category]))
    if t is DiscreteCategorical:
        return ("cat", frozenset(x.probabilities))
    if t is CompositionBounds:
        return ("comp", frozenset(x.components))
    if t is NominalComposition:
        return ("comp", frozenset(x.quantities))
    if t is EmpiricalFormula:
        return ("comp", frozenset(re.findall("[A-Z][a-z]*", x.formula)))
    return ("mol",)


SPECIAL = [0.0, 1.0, -1.0, 0.5, 100.0, 2.54, 1e-6, -273.15, 32.0, 212.0, 1e6, 3.0]


def real_pair(rng):
    lo, hi = sorted(rng.choice(SPECIAL) if rng.random() < 0.6 else rng.uniform(-50, 50)
                    for _ in range(2))
    return (lo, lo) if rng.random() < 0.15 else (lo, hi)


def make(rng, kind, unit, value):
    """(object, unit) of some kind; the unit is remembered as it was given."""
    if kind == "real":
        lo, hi = real_pair(rng)
        if not value:
            return RealBounds(lo, hi, unit)
        return rng.choice([lambda: NominalReal(lo, unit), lambda: NormalReal(lo, 1.5, unit),
                           lambda: UniformReal(lo, hi, unit)])()
    if kind == "int":
        lo, hi = sorted(rng.choice([rng.randint(-5, 5), 2 ** 53 + rng.randint(0, 2), -10 ** 20])
                        for _ in range(2))
        if not value:
            return IntegerBounds(lo, hi)
        return rng.choice([lambda: NominalInteger(lo), lambda: UniformInteger(lo, hi)])()
    if kind == "cat":
        cats = rng.sample(gen.CATEGORIES[:5], rng.randint(0, 4))
        if not value:
            return CategoricalBounds(rng.choice([list, tuple, set])(cats))
        return rng.choice([lambda: NominalCategorical(rng.choice(gen.CATEGORIES[:5])),
                           lambda: DiscreteCategorical(
                               dict({c: 0.0 for c in cats[:rng.randint(0, 2)]},
                                    **gen.probabilities(rng)))])()
    if kind == "comp":
        comps = rng.sample(gen.COMPONENTS[:5] + ["Na", "Cl"], rng.randint(0, 5))
        if not value:
            return CompositionBounds(rng.choice([list, tuple, set])(comps))
        return rng.choice([lambda: NominalComposition({c: rng.choice([1, 1, 0, 0.0, 0.5, -1, 1e-9])
                                                       for c in comps}),
                           lambda: EmpiricalFormula(gen.formula(rng))])()
    if not value:
        return MolecularStructureBounds()
    return rng.choice([lambda: Smiles("CC"), lambda: InChI("InChI=1S/CH4/h1H4")])()


KINDS = ["real", "real", "real", "int", "cat", "comp", "mol"]


def related(rng, a, ua):
    """Something of the same kind that relates closely to a real bounds (shared endpoints)."""
    ub = rng.choice(FULL_BY_DIM[FULL[ua][0]])
    ends = sorted([convert(a.lower_bound, ua, ub), convert(a.upper_bound, ua, ub)])
    span = ends[1] - ends[0]
    eps = rng.choice([0.0, 0.0, 1e-3, 0.1, 1.0]) * (abs(span) or 1.0)
    lo = ends[0] + rng.choice([-1, 0, 1]) * eps
    hi = ends[1] + rng.choice([-1, 0, 1]) * eps
    lo, hi = min(lo, hi), max(lo, hi)
    return rng.choice([lambda: RealBounds(lo, hi, ub), lambda: UniformReal(lo, hi, ub),
                       lambda: NominalReal(lo, ub), lambda: NominalReal(hi, ub)])(), ub


def covers(ra, ua, rb, ub):
    """Whether a covers b: True, False, or None within rounding."""
    if ra[0] != rb[0]:
        return False
    if ra[0] == "real":
        if FULL[ua][0] != FULL[ub][0]:
            return False
        if ua == ub:
            return ra[1] <= rb[1] and rb[2] <= ra[2]
        lo, hi = sorted([convert(ra[1], ua, ub), convert(ra[2], ua, ub)])
        if close(lo, rb[1], ua, ub) or close(hi, rb[2], ua, ub):
            # undecided at an endpoint, unless the other end decides
            if (not close(lo, rb[1], ua, ub) and rb[1] < lo) or \
                    (not close(hi, rb[2], ua, ub) and rb[2] > hi):
                return False
            return None
        return lo <= rb[1] and rb[2] <= hi
    if ra[0] == "int":
        return ra[1] <= rb[1] and rb[2] <= ra[2]
    if ra[0] == "mol":
        return True
    return rb[1] <= ra[1]


def frozen(x):
    return snap.encode(x, id)


def case(ctx):
    """One bounds against several others."""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    ua = rng.choice(list(FULL))
    a = make(rng, kind, ua, False)
    ra, fa = region(a), frozen(a)
    ctx.check(a.contains(a), lambda: f"{a!r} does not contain itself")
    others = []
    for _ in range(rng.randint(1, 5)):
        if kind == "real" and rng.random() < 0.5:
            b, ub = related(rng, a, ua)
        else:
            ub = rng.choice(FULL_BY_DIM[FULL[ua][0]]) if rng.random() < 0.7 else \
                rng.choice(list(FULL))
            b = make(rng, kind if rng.random() < 0.8 else rng.choice(KINDS), ub,
                     rng.random() < 0.5)
        others.append((b, ub))
    for b, ub in others:
        fb = frozen(b)
        rb = region(b)
        want = covers(ra, ua, rb, ub)
        got = a.contains(b)
        ctx.check(isinstance(got, bool), f"contains gave {got!r}")
        if want is None:
            ctx.ev("not_judged")
        else:
            ctx.check(got is want,
                      lambda: f"{a!r} contains {b!r}: {got}, expected {want}")
            ctx.ev("contains_true" if want else "contains_false")
            if want and ra[0] in ("real", "int") and (ra[1] == rb[1] or ra[2] == rb[2]):
                ctx.ev("endpoint_inclusive")
        if ra[0] != rb[0]:
            ctx.ev("other_kind")
        elif ra[0] == "real":
            ctx.ev("incompatible_units" if FULL[ua][0] != FULL[ub][0] else "converted")
        if "Bounds" not in type(b).__name__:
            ctx.ev("values_checked")
        ctx.check(frozen(a) == fa and frozen(b) == fb, "contains changed an argument")
        ctx.ev("arguments_unchanged")
        ctx.sig(ra[0], type(b).__name__, want, ua if ra[0] == "real" else None,
                ub if rb[0] == "real" else None)
    ctx.check(a.contains(None) is False, "bounds contain None")
    ctx.ev("none_refused")
    stranger = rng.choice([5, "x", [], {}, object(), 1.5, "red", ("a",)])
    ctx.raises(TypeError, lambda: a.contains(stranger), f"contains({stranger!r})")
    ctx.ev("not_bounds_refused")
    unite(ctx, a, ua, others)
    ctx.sample({"bounds": short(a), "others": [short(b) for b, _ in others[:2]]})


def unite(ctx, a, ua, others):
    """Union and update against the model."""
    rng = ctx.rng
    ra, fa = region(a), frozen(a)
    k = rng.randint(0, len(others))
    chosen = others[:k]
    if rng.random() < 0.6:
        chosen = [(b, u) for b, u in chosen if region(b)[0] == ra[0]
                  and (ra[0] != "real" or FULL[u][0] == FULL[ua][0])]
    strangers = [b for b, _ in chosen if region(b)[0] != ra[0]]
    apart = [b for b, u in chosen if region(b)[0] == ra[0] == "real"
             and FULL[u][0] != FULL[ua][0]]
    frozen_others = [frozen(b) for b, _ in chosen]
    args = [b for b, _ in chosen]
    if strangers or apart:
        errors = tuple(([TypeError] if strangers else []) +
                       ([IncompatibleUnitsError] if apart else []))
        ctx.raises(errors, lambda: a.union(*args), f"{a!r}.union({args!r})")
        ctx.raises(errors, lambda: a.update(*args), f"{a!r}.update({args!r})")
        ctx.check(frozen(a) == fa and [frozen(b) for b in args] == frozen_others,
                  "a refused union changed something")
        ctx.ev("union_refused")
        return
    u = a.union(*args)
    ctx.check(u is not a and all(u is not b for b in args) and type(u) is type(a),
              "union did not make new bounds of the same kind")
    ctx.check(frozen(a) == fa and [frozen(b) for b in args] == frozen_others,
              lambda: f"union changed an argument: {a!r}")
    ctx.ev("unions")
    check_union(ctx, u, a, ra, ua, chosen)
    # writing to the union does not write to its parts
    if ra[0] == "cat":
        u.categories.add("zzz")
        ctx.check(frozen(a) == fa and [frozen(b) for b in args] == frozen_others,
                  "the union shares its set of categories with an argument")
    elif ra[0] == "comp":
        u.components.add("zzz")
        ctx.check(frozen(a) == fa and [frozen(b) for b in args] == frozen_others,
                  "the union shares its set of components with an argument")
    r = a.update(*args)
    ctx.check(r is None, "update returned something")
    ctx.check([frozen(b) for b in args] == frozen_others, "update changed an argument")
    check_union(ctx, a, a, ra, ua, chosen)
    ctx.ev("updates")


def check_union(ctx, u, a, ra, ua, chosen):
    """u covers exactly the hull of the original region of a and the others."""
    ru = region(u)
    if ra[0] == "real":
        ctx.check(u.default_units == a.default_units, "union changed the units")
        los, his = [ra[1]], [ra[2]]
        foreign = False
        for b, ub in chosen:
            rb = region(b)
            lo, hi = sorted([convert(rb[1], ub, ua), convert(rb[2], ub, ua)])
            if ub == ua:
                lo, hi = rb[1], rb[2]
            else:
                foreign = True
            los.append(lo)
            his.append(hi)
        want = (min(los), max(his))
        slack = (lambda x, y: x == y or (foreign and any(
            close(x, y, ub, ua) for _, ub in chosen)))
        ctx.check(slack(ru[1], want[0]) and slack(ru[2], want[1]),
                  lambda: f"union of {ra} {ua} with {[(region(b), ub) for b, ub in chosen]} is "
                          f"{ru}, expected {want}")
        ctx.check(ru[1] <= ra[1] and ru[2] >= ra[2], "union lost part of the bounds")
    elif ra[0] == "int":
        want = (min([ra[1]] + [region(b)[1] for b, _ in chosen]),
                max([ra[2]] + [region(b)[2] for b, _ in chosen]))
        ctx.check((ru[1], ru[2]) == want and type(ru[1]) is int,
                  lambda: f"union is {ru}, expected {want}")
    elif ra[0] in ("cat", "comp"):
        want = ra[1].union(*[region(b)[1] for b, _ in chosen])
        ctx.check(ru[1] == want, lambda: f"union is {ru}, expected {want}")
    if ra[0] != "real":
        ctx.check(all(u.contains(b) for b, _ in chosen), "a union does not contain its parts")


FIXED = []
