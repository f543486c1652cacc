"""C16: the validation level decides, everywhere alike, what becomes of an inconsistent value."""
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds_validation import WarningLevel, set_validation_level, validation_level
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, IngredientSpec, \
    IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.value import NominalReal, NormalReal, UniformReal

from vf import gen
from vf.core import LOG, short
from vf.props.c14 import make, region, covers, KINDS, related
from vf.unit_table import FULL, FULL_BY_DIM, convert, close

RULE = ("At each validation level: random histories of values and templates set on attributes, of "
        "attributes put (constructor, assignment, append, insert, extend, +=, item and slice "
        "assignment) into specs and runs whose object templates hold the attribute's template "
        "(itself, an equal copy, a link to it) or just its name, with and without restricted "
        "bounds, and of quantities set on ingredients; an independent model of containment "
        "decides which are inconsistent; signature: (level, way, kinds, verdicts).")
REQUIRED = ["ignored", "warned", "refused", "consistent", "attribute_value", "attribute_template",
            "restricted_bounds", "matched_by_name", "matched_by_template", "matched_by_copy",
            "matched_by_link", "not_matched", "via_spec", "via_constructor", "via_list_method",
            "fraction", "absolute", "negative_quantity", "dimensionless_quantity",
            "unchanged_after_refusal", "no_template", "material_property", "own_template_link",
            "assigned_again", "list_again"]
N = {"quick": 35000, "thorough": 500000}
ASSUMPTIONS = ["answers within float rounding of an endpoint in other units are not judged",
               "an attribute without a value is not judged against object templates"]
TCLS = {Property: PropertyTemplate, Condition: ConditionTemplate, Parameter: ParameterTemplate}
LEVELS = [WarningLevel.IGNORE, WarningLevel.WARNING, WarningLevel.FATAL]


def act(ctx, level, func, bad, what):
    """
    Run func, which runs into `bad` inconsistencies; returns whether it was refused.

    bad is None when the model cannot tell.
    """
    LOG.records.clear()
    try:
        func()
    except ValueError as e:
        ctx.check(level == WarningLevel.FATAL and bad != 0,
                  lambda: f"{what} at {level!r} was refused ({e}), {bad} inconsistencies")
        ctx.check(not LOG.records, "refused, and a warning on top")
        ctx.ev("refused")
        return True
    n = len(LOG.records)
    if bad is None:
        ctx.ev("not_judged")
        return False
    if level == WarningLevel.IGNORE:
        ctx.check(n == 0, lambda: f"{what} warned at IGNORE: {LOG.records}")
        ctx.ev("ignored" if bad else "consistent")
    elif level == WarningLevel.WARNING:
        ctx.check(n == bad, lambda: f"{what} at WARNING gave {n} warnings, expected {bad}: "
                                    f"{LOG.records}")
        ctx.ev("warned" if bad else "consistent")
    else:
        ctx.check(bad == 0, lambda: f"{what} was accepted at FATAL, {bad} inconsistencies")
        ctx.check(n == 0, "a warning at FATAL")
        ctx.ev("consistent")
    return False


def inside(b, ub, v, uv):
    """Whether bounds b contain the value v (None: too close to call)."""
    return covers(region(b), ub, region(v), uv)


def near(rng, b, ub):
    """A value related to the bounds, or some other value, with its units."""
    if region(b)[0] == "real" and rng.random() < 0.6:
        for _ in range(20):
            v, u = related(rng, b, ub)
            if "Bounds" not in type(v).__name__:
                return v, u
    u = rng.choice(FULL_BY_DIM[FULL[ub][0]]) if rng.random() < 0.7 else rng.choice(list(FULL))
    return make(rng, region(b)[0] if rng.random() < 0.8 else rng.choice(KINDS), u, True), u


def attribute(ctx, level):
    """Values and templates on an attribute."""
    rng = ctx.rng
    cls = rng.choice(list(TCLS))
    templates = []
    kind, unit = rng.choice(KINDS), rng.choice(list(FULL))
    for i in range(3):
        u = rng.choice(FULL_BY_DIM[FULL[unit][0]])
        templates.append((TCLS[cls](f"t{i}", bounds=make(rng, kind if i else rng.choice(KINDS),
                                                         u, False)), u))
    t, u = rng.choice(templates + [(None, None), (LinkByUID("a", "b"), None)])
    v, uv = near(rng, templates[1][0].bounds, templates[1][1])
    if rng.random() < 0.1:
        v = None
    holder = []
    verdict = True if v is None or not isinstance(t, TCLS[cls]) else inside(t.bounds, u, v, uv)
    ctx.sig(level, cls.__name__, "new", verdict, region(v)[0] if v is not None else None)
    gone = act(ctx, level, lambda: holder.append(cls("attr", value=v, template=t)),
               {True: 0, False: 1, None: None}[verdict], f"{cls.__name__}({short(v)}, {short(t)})")
    if gone:
        ctx.check(not holder, "refused, yet made")
        return
    a = holder[0]
    ctx.check(a.value is v and a.template is t, "attribute does not hold what was accepted")
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.5:
            ctx.ev("attribute_value")
            nv, nuv = near(rng, *[(x.bounds, y) for x, y in [rng.choice(templates)]][0])
            if rng.random() < 0.1:
                nv = None
            nt, nu = t, u
            field, x = "value", nv
        else:
            ctx.ev("attribute_template")
            nt, nu = rng.choice(templates * 2 + [(None, None), (LinkByUID("a", "c"), None)])
            nv, nuv = v, uv
            field, x = "template", nt
        if x is not None and rng.random() < 0.15:
            with validation_level(WarningLevel.IGNORE):
                setattr(a, field, x)
            v, uv, t, u = nv, nuv, nt, nu
            ctx.ev("assigned_again")
        ok = True if nv is None or not isinstance(nt, TCLS[cls]) \
            else inside(nt.bounds, nu, nv, nuv)
        ctx.sig(level, cls.__name__, field, ok, type(nv).__name__, type(nt).__name__)
        gone = act(ctx, level, lambda: setattr(a, field, x),
                   {True: 0, False: 1, None: None}[ok],
                   f"{field} = {short(x)} on {short(a)}")
        if gone:
            ctx.ev("unchanged_after_refusal")
        else:
            v, uv, t, u = nv, nuv, nt, nu
        ctx.check(a.value is v and a.template is t,
                  f"after {field} was {'refused' if gone else 'accepted'}: value "
                  f"{short(a.value)}, template {short(a.template)}")


def quantities(ctx, level):
    """Fractions and absolute quantities of ingredients."""
    rng = ctx.rng
    run = rng.random() < 0.5
    fields = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
    state = dict.fromkeys(fields)
    obj = IngredientRun() if run else IngredientSpec("i")
    for i in range(rng.randint(1, 6)):
        field = rng.choice(fields)
        unit = rng.choice(["", "", "percent", "ppm", "dimensionless", "kg", "m", "count", "radian",
                           "bit", "mol", "g/cm^3"])
        lo, hi = sorted(rng.choice([0, 0.0, 1, 1.0, 0.5, -0.1, 1.1, 100, 101, 50, 1e6, -1, 2e6,
                                    1e-3, -1e-9, rng.uniform(-2, 2), rng.uniform(0, 1)])
                        for _ in range(2))
        v = rng.choice([lambda: NominalReal(lo, unit), lambda: NormalReal(hi, 9.0, unit),
                        lambda: UniformReal(lo, hi, unit)])()
        if rng.random() < 0.08:
            v = None
        if v is None:
            bad = 0
        else:
            _, a, b, _ = region(v)
            flat = FULL[unit][0] == "1"
            if field != "absolute_quantity":
                ctx.ev("fraction")
                if not flat:
                    bad = 1
                else:
                    x, y = convert(a, unit, ""), convert(b, unit, "")
                    bad = 0 if x >= 0 and y <= 1 else 1
                    if unit not in ("", "dimensionless") and (
                            close(x, 0) or close(y, 0) or close(x, 1) or close(y, 1)):
                        bad = bad if a < 0 else (0 if a == 0 and y < 0.999 else None)
            else:
                ctx.ev("absolute")
                bad = 0
                if a < 0:
                    bad += 1
                    ctx.ev("negative_quantity")
                # a negative dimensionless amount may be reported once or twice
                if flat:
                    ctx.ev("dimensionless_quantity")
                    bad = None if a < 0 else bad + 1
        holder = []
        if v is not None and rng.random() < 0.2:
            # it is there already, or something equal to it: to be judged all the same
            there = rng.choice([v, type(v)(**{k: x for k, x in v.as_dict().items()
                                              if k != "type"})])
            with validation_level(WarningLevel.IGNORE):
                setattr(obj, field, there)
            state[field] = there
            ctx.ev("assigned_again")
            gone = act(ctx, level, lambda: setattr(obj, field, v), bad,
                       f"{field} = {short(v)} again")
        elif i == 0 and rng.random() < 0.3:
            gone = act(ctx, level, lambda: holder.append(
                IngredientRun(**{field: v}) if run else IngredientSpec("i", **{field: v})),
                bad, f"ingredient with {field} {short(v)}")
            if not gone:
                obj = holder[0]
        else:
            gone = act(ctx, level, lambda: setattr(obj, field, v), bad, f"{field} = {short(v)}")
        if v is not None and bad is None and field == "absolute_quantity":
            # negative and dimensionless: certainly inconsistent, whatever the count
            ctx.check(gone == (level == WarningLevel.FATAL),
                      lambda: f"{field} = {v} at {level!r}: refused={gone}")
            if level == WarningLevel.WARNING:
                ctx.check(len(LOG.records) in (1, 2), "no warning")
        if gone:
            ctx.ev("unchanged_after_refusal")
        else:
            state[field] = v
        ctx.check(all(getattr(obj, f) is state[f] for f in fields),
                  lambda: f"after {field} = {short(v)}: "
                          f"{[short(getattr(obj, f)) for f in fields]}")
        ctx.sig(level, field, unit, bad, type(v).__name__)


class Owner:
    """An object whose attribute list of one kind is checked against an object template."""

    def __init__(self, ctx):
        rng = ctx.rng
        self.kind = rng.choice(["ps", "pr", "qs", "qr", "ms"])
        self.cls = rng.choice({"ps": [Condition, Parameter], "pr": [Condition, Parameter],
                               "qs": [Condition, Parameter],
                               "qr": [Property, Condition, Parameter],
                               "ms": [Property]}[self.kind])
        self.field = {Property: "properties", Condition: "conditions",
                      Parameter: "parameters"}[self.cls]
        self.otcls = {"p": ProcessTemplate, "q": MeasurementTemplate,
                      "m": MaterialTemplate}[self.kind[0]]

    def build(self, template, how, attributes):
        """The object with its template, in the way of `how`."""
        kw = {self.field: attributes} if attributes is not None else {}
        if self.kind == "ps":
            return ProcessSpec("x", template=template, **kw)
        if self.kind == "qs":
            return MeasurementSpec("x", template=template, **kw)
        if self.kind == "ms":
            return MaterialSpec("x", template=template, **kw)
        spec = (ProcessSpec if self.kind == "pr" else MeasurementSpec)("s", template=template)
        if how == "no spec":
            spec = None
        elif how == "link":
            spec = LinkByUID("a", "spec")
        return (ProcessRun if self.kind == "pr" else MeasurementRun)("x", spec=spec, **kw)


def twin(t):
    """An equal template that is another object."""
    return type(t)(t.name, bounds=t.bounds, description=t.description, uids=dict(t.uids),
                   tags=list(t.tags))


def owned(ctx, level):
    """Attributes put into objects."""
    rng = ctx.rng
    own = Owner(ctx)
    tcls = TCLS[own.cls]
    pool = []  # (template, its unit, what the object template holds, restricted, its unit)
    pairs = []
    for i in range(rng.randint(1, 4)):
        unit = rng.choice(list(FULL))
        kind = rng.choice(KINDS)
        t = tcls(f"name {i}", bounds=make(rng, kind, unit, False), uids={"my_id": f"t{i}"})
        r, ur = None, None
        if rng.random() < 0.5:
            ur = rng.choice(FULL_BY_DIM[FULL[unit][0]])
            for _ in range(40):
                r = make(rng, kind, ur, False)
                if covers(region(t.bounds), unit, region(r), ur) is True:
                    break
            else:
                r, ur = t.bounds, unit
        form = rng.choice(["it", "it", "it", "link", "absent"])
        if form == "link":
            pairs.append((LinkByUID("my_id", f"t{i}"), r))
        elif form == "it":
            pairs.append((t, r) if r is not None or rng.random() < 0.5 else t)
        pool.append((t, unit, form, r, ur))
    ot = own.otcls("ot", **{own.field: pairs})
    how = rng.choice(["template"] * 6 + ["none", "own link"] +
                     (["no spec", "link"] if own.kind[1] == "r" else []))
    template = {"none": None, "own link": LinkByUID("a", "ot")}.get(how, ot)
    effective = how == "template"
    if how == "own link":
        ctx.ev("own_template_link")
    elif not effective:
        ctx.ev("no_template")
    if own.kind[1] == "r":
        ctx.ev("via_spec")

    def one():
        """An attribute, and whether the object template allows it (None: cannot tell)."""
        t, unit, form, r, ur = rng.choice(pool)
        target, ut = (r, ur) if r is not None and rng.random() < 0.8 else (t.bounds, unit)
        v, uv = near(rng, target, ut)
        way = rng.choice(["template", "copy", "link", "name", "name", "other", "other template",
                          "near name"])
        at = {"template": t, "copy": twin(t), "link": LinkByUID("my_id", t.uids["my_id"]),
              "name": None, "other": None, "near name": None,
              "other template": tcls("stranger", bounds=t.bounds)}[way]
        name = gen.fresh(t.name) if way != "other" else "unheard of"
        if way == "near name":
            name = rng.choice([name.upper(), name.title(), name + " ", " " + name, name[:-1],
                               name.replace(" ", ""), name.replace(" ", "_"), name + "0"])
        if way in ("template", "copy", "link") and rng.random() < 0.7:
            name = gen.fresh(rng.choice(["anything", "name 0", "name 1"]))
        with validation_level(WarningLevel.IGNORE):
            a = own.cls(name, value=v, template=at)
            if own.kind == "ms":
                ctx.ev("material_property")
                a = PropertyAndConditions(a)
        # what the object template says
        limit = None
        if form != "absent" and way in ("template", "copy", "link"):
            limit = (r, ur) if r is not None else ((t.bounds, unit) if form == "it" else None)
        elif form == "it" and way == "name":
            limit = (r, ur) if r is not None else (t.bounds, unit)
        if not effective or limit is None:
            ctx.ev("not_matched")
            return a, True
        ctx.ev({"template": "matched_by_template", "copy": "matched_by_copy",
                "link": "matched_by_link", "name": "matched_by_name"}[way])
        if r is not None:
            ctx.ev("restricted_bounds")
        ok = inside(limit[0], limit[1], v, uv)
        ctx.sig(level, own.kind, own.field, way, form, r is not None, ok, region(v)[0])
        return a, ok

    verdict = {}  # of every attribute that was ever made, which are kept alive here

    def count(items):
        verdict.update({id(a): (ok, a) for a, ok in items})
        verdicts = [ok for _, ok in items]
        if level == WarningLevel.FATAL and False in verdicts:
            return 1
        return None if None in verdicts else verdicts.count(False)

    first = [one() for _ in range(rng.randint(0, 3))]
    holder = []
    if rng.random() < 0.6:
        gone = act(ctx, level,
                   lambda: holder.append(own.build(template, how, [a for a, _ in first])),
                   count(first), f"constructing {own.kind} with {[short(a) for a, _ in first]}")
        ctx.ev("via_constructor")
        if gone:
            first, holder = [], [own.build(template, how, None)]
    else:
        first, holder = [], [own.build(template, how, None)]
    obj = holder[0]
    state = [a for a, _ in first]

    def live():
        return getattr(obj, own.field)

    ctx.check([id(x) for x in live()] == [id(x) for x in state], "attributes differ at birth")
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["assign", "append", "insert", "extend", "iadd", "setitem", "slice",
                         "single", "again"])
        if op in ("append", "insert", "single") or (op == "setitem" and state):
            items = [one()]
        else:
            items = [one() for _ in range(rng.randint(0, 3))]
        new = [a for a, _ in items]
        want = list(state)
        if op == "again":
            # what is there, whatever the level it was put there at
            if rng.random() < 0.7:
                with validation_level(WarningLevel.IGNORE):
                    live().extend(new)
                count(items)
                state = want = state + new
            items = [(a, verdict[id(a)][0]) for a in state]
            new = list(state)
            ctx.ev("list_again")
            func = rng.choice([lambda: setattr(obj, own.field, new),
                               lambda: setattr(obj, own.field, live()),
                               lambda: live().__setitem__(slice(None), new)])
        elif op == "assign":
            want = new
            func = lambda: setattr(obj, own.field, list(new))  # noqa: E731
        elif op == "single":
            want = new
            func = lambda: setattr(obj, own.field, new[0])  # noqa: E731
        elif op == "append":
            want.append(new[0])
            func = lambda: live().append(new[0])  # noqa: E731
        elif op == "insert":
            k = rng.randint(0, len(state))
            want.insert(k, new[0])
            func = lambda: live().insert(k, new[0])  # noqa: E731
        elif op == "extend":
            want.extend(new)
            func = lambda: live().extend(new)  # noqa: E731
        elif op == "iadd":
            want += new

            def func():
                x = live()
                x += new
        elif op == "setitem" and state:
            k = rng.randrange(len(state))
            want[k] = new[0]

            def func():
                live()[k] = new[0]
        else:
            lo, hi = sorted(rng.randint(0, len(state)) for _ in range(2))
            want[lo:hi] = new

            def func():
                live()[lo:hi] = new
        gone = act(ctx, level, func, count(items), f"{op} of {[short(a) for a in new]}")
        if op not in ("assign", "single"):
            ctx.ev("via_list_method")
        if gone:
            ctx.ev("unchanged_after_refusal")
        else:
            state = want
        ctx.check([id(x) for x in live()] == [id(x) for x in state],
                  lambda: f"after {op} ({'refused' if gone else 'accepted'}) the list is "
                          f"{[short(x) for x in live()]}")


def case(ctx):
    """One history at one level."""
    rng = ctx.rng
    level = rng.choice(LEVELS)
    scenario = rng.choice([attribute, owned, owned, quantities])
    set_validation_level(WarningLevel.WARNING)
    ctx.log(scenario.__name__, level)
    try:
        if rng.random() < 0.5:
            set_validation_level(level)
            scenario(ctx, level)
        else:
            with validation_level(level):
                scenario(ctx, level)
    finally:
        set_validation_level(WarningLevel.WARNING)
    ctx.sample({"scenario": scenario.__name__, "level": level.name})


FIXED = []
