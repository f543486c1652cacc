"""C07: every field accepts exactly what it documents, and a refusal changes nothing."""
import inspect

from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds import IntegerBounds
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.value import NominalReal, NominalInteger, NominalCategorical
from gemd.enumeration import Origin, SampleType

from vf import gen, snap
from vf.core import short

RULE = ("For every constrained field of every entity and attribute type: accepted forms (single "
        "element, list, tuple, set or generator where documented, link, None) and refused values "
        "of many kinds, by assignment and by construction, on randomly populated objects; the "
        "state of the whole graph is compared around each step; the signature is (type, field, "
        "kind of value, way).")
REQUIRED = ["accepted", "refused", "constructions_refused", "unchanged_after_refusal", "plain_fields",
            "others_unchanged", "aliasing_probes", "donor_probes", "readonly_refused"]
N = {"quick": 5000, "thorough": 80000}

INT = IntegerBounds(0, 5)
STRANGERS = [lambda: 5, lambda: 1.5, lambda: "text", lambda: {"a": 1}, lambda: object(),
             lambda: b"bytes", lambda: True, lambda: PropertyTemplate("x", bounds=INT),
             lambda: ConditionTemplate("x", bounds=INT), lambda: ParameterTemplate("x", bounds=INT),
             lambda: MaterialTemplate("x"), lambda: MeasurementTemplate("x"),
             lambda: ProcessTemplate("x"), lambda: ProcessSpec("x"), lambda: ProcessRun("x"),
             lambda: MaterialSpec("x"), lambda: MaterialRun("x"), lambda: IngredientSpec("x"),
             lambda: IngredientRun(), lambda: MeasurementSpec("x"), lambda: MeasurementRun("x"),
             lambda: NominalReal(1, ""), lambda: NominalInteger(1), lambda: INT,
             lambda: Property("x"), lambda: Condition("x"), lambda: Parameter("x"),
             lambda: PropertyAndConditions(Property("x")), lambda: FileLink("a", "b"),
             lambda: PerformedSource("a", "b"), lambda: LinkByUID("id", "nowhere"),
             lambda: NominalCategorical("x"), lambda: ProcessSpec, lambda: Origin.UNKNOWN,
             lambda: ["text"], lambda: [LinkByUID("id", "nowhere")], lambda: [5],
             lambda: [Property("x")], lambda: [None], lambda: [FileLink("a", "b")],
             # None is the only nothing there is
             lambda: 0, lambda: 0.0, lambda: False, lambda: "", lambda: [], lambda: (),
             lambda: {}, lambda: b"", lambda: set()]
ERRORS = (TypeError, ValueError)


class Single:
    """A field that holds one thing of given classes, or (optionally) None."""

    def __init__(self, make, classes, none=True, convert=None, error=ERRORS):
        self.make, self.classes, self.none = make, classes, none
        self.convert, self.error = convert or (lambda x: x), error

    def accepted(self, rng):
        v = None if self.none and rng.random() < 0.2 else self.make(rng)
        return v, self.convert(v)

    def refused(self, rng):
        while True:
            v = rng.choice(STRANGERS)()
            if not isinstance(v, self.classes):
                return v

    def matches(self, got, want):
        if isinstance(want, (str, float, int)) or want is None:
            return snap.encode(got, id) == snap.encode(want, id)
        return got is want


class Many:
    """A field that holds a list of things of given classes."""

    def __init__(self, make, classes, convert=None, single=True, error=ERRORS):
        self.make, self.classes, self.single = make, classes, single
        self.convert, self.error = convert or (lambda x: x), error
        self.probe = None

    def accepted(self, rng):
        r = rng.random()
        if r < 0.15:
            return None, []
        if r < 0.3 and self.single:
            v = self.make(rng)
            if isinstance(v, str) and rng.random() < 0.3:
                v = ""  # one tag, though an empty one
            return v, [self.convert(v)]
        vs = [self.make(rng) for _ in range(rng.randint(0, 3))]
        want = [self.convert(v) for v in vs]
        r = rng.random()
        self.probe = None
        if r < 0.4:
            self.probe = vs
            return vs, want
        if r < 0.6:
            return tuple(vs), want
        if r < 0.8:
            return (v for v in vs), want
        return iter(vs), want

    def refused(self, rng):
        while True:
            v = rng.choice(STRANGERS)()
            if isinstance(v, self.classes) or isinstance(v, (list, dict, bytes, tuple, set)):
                continue
            if isinstance(v, str) and str in self.classes:
                continue
            break
        if rng.random() < 0.15:
            v = None
        elif rng.random() < 0.4 and self.single and not isinstance(v, str):
            return v
        vs = [self.make(rng) for _ in range(rng.randint(0, 2))]
        vs.insert(rng.randint(0, len(vs)), v)
        return rng.choice([list, tuple, iter])(vs)

    def matches(self, got, want):
        def same(x, y):
            if isinstance(y, list):
                return isinstance(x, list) and len(x) == len(y) and \
                    all(same(p, q) for p, q in zip(x, y))
            return x is y or (isinstance(y, str) and x == y)
        return isinstance(got, list) and len(got) == len(want) and \
            all(same(x, y) for x, y in zip(got, want))


def _t(rng):
    return gen.text(rng)


def _link(rng):
    return LinkByUID(rng.choice(gen.SCOPES), "away")


def _or_link(make):
    return lambda rng: _link(rng) if rng.random() < 0.2 else make(rng)


def _val(rng):
    return gen.value(rng)


def _pair(cls):
    def make(rng):
        t = cls(_t(rng), bounds=gen.bounds(rng))
        r = rng.random()
        if r < 0.15:
            return _link(rng)
        if r < 0.5:
            return t
        if r < 0.6:
            return (_link(rng), gen.bounds(rng))
        return rng.choice([tuple, list])([t, rng.choice([None, gen.sub_bounds(rng, t.bounds)])])
    return make


class Pairs(Many):
    """Template/bounds pairs."""

    def __init__(self, cls):
        super().__init__(_pair(cls), (cls, LinkByUID, list, tuple), convert=self.as_pair,
                         single=False)
        self.cls = cls

    @staticmethod
    def as_pair(v):
        return list(v) if isinstance(v, (list, tuple)) else [v, None]

    def accepted(self, rng):
        if rng.random() < 0.1:
            t = self.cls(_t(rng), bounds=gen.bounds(rng))
            return t, [[t, None]]
        return super().accepted(rng)

    def refused(self, rng):
        if rng.random() < 0.5:
            other = rng.choice([c for c in (PropertyTemplate, ConditionTemplate,
                                            ParameterTemplate) if c is not self.cls])
            x = other("x", bounds=INT)
            bad = rng.choice([
                lambda: (x, None), lambda: [x, INT],
                lambda: (self.cls("x", bounds=INT), IntegerBounds(0, 6)),
                lambda: [self.cls("x", bounds=INT), gen.bounds(rng, "cat")],
                lambda: (self.cls("x", bounds=INT), rng.choice([5, 0, "", False, 0.0])),
                lambda: [self.cls("x", bounds=INT), rng.choice([[], (), {}, b""])],
                lambda: (INT, self.cls("x", bounds=INT)), lambda: ("a", "b"),
                lambda: (self.cls("x", bounds=INT), None, None)])()
            return [bad] if rng.random() < 0.5 else [self.make(rng), bad]
        while True:
            v = rng.choice(STRANGERS)()
            if not isinstance(v, (self.cls, LinkByUID, list, tuple, dict, bytes, str,
                                  IntegerBounds)):
                return [self.make(rng), v] if rng.random() < 0.5 else [v]


TAGS = Many(_t, (str,))
FILES = Many(gen.file_link, (FileLink,))
COND = Many(lambda r: Condition(_t(r), value=gen.opt(r, lambda: _val(r))), (Condition,))
PARM = Many(lambda r: Parameter(_t(r), value=gen.opt(r, lambda: _val(r))), (Parameter,))
PROP = Many(lambda r: Property(_t(r), value=gen.opt(r, lambda: _val(r))), (Property,))
PAC = Many(lambda r: PropertyAndConditions(Property(_t(r))), (PropertyAndConditions,))
NAME = Single(_t, (str,), none=False, error=TypeError)
SRC = Single(lambda r: PerformedSource("a", "b"), (PerformedSource,), error=TypeError)
QTY = Single(gen.continuous, (type(gen.continuous.__globals__["NominalReal"](1, "")).__mro__[1],),
             error=TypeError)


def ref(cls, make=None):
    """A reference field."""
    return Single(_or_link(make or (lambda r: cls(_t(r)))), (cls, LinkByUID), error=TypeError)


def enum(cls, none=False):
    """An enumeration field."""
    def make(rng):
        x = rng.choice(list(cls))
        return rng.choice([x, x.value, x.value.upper(), f"  {x.value.title()} "])

    class E(Single):
        def refused(self, rng):
            return rng.choice([None, "nonsense", "", "measured-", 5, [], object()])

        def matches(self, got, want):
            return isinstance(got, cls) and got is cls[want.strip().upper()] \
                if not isinstance(want, cls) else got is want
    return E(make, (), none=False)


OBJ = {"tags": TAGS, "file_links": FILES, "name": NAME}
QTYS = {q: QTY for q in ("mass_fraction", "volume_fraction", "number_fraction",
                         "absolute_quantity")}
BND = Single(lambda r: gen.bounds(r), (type(INT).__mro__[1],), none=False)
TABLE = {
    PropertyTemplate: {"tags": TAGS, "bounds": BND},
    ConditionTemplate: {"tags": TAGS, "bounds": BND},
    ParameterTemplate: {"tags": TAGS, "bounds": BND},
    MaterialTemplate: {"tags": TAGS, "properties": Pairs(PropertyTemplate)},
    MeasurementTemplate: {"tags": TAGS, "properties": Pairs(PropertyTemplate),
                          "conditions": Pairs(ConditionTemplate),
                          "parameters": Pairs(ParameterTemplate)},
    ProcessTemplate: {"tags": TAGS, "conditions": Pairs(ConditionTemplate),
                      "parameters": Pairs(ParameterTemplate), "allowed_names": TAGS,
                      "allowed_labels": TAGS},
    ProcessSpec: dict(OBJ, template=ref(ProcessTemplate), conditions=COND, parameters=PARM),
    ProcessRun: dict(OBJ, spec=ref(ProcessSpec), conditions=COND, parameters=PARM, source=SRC),
    MaterialSpec: dict(OBJ, template=ref(MaterialTemplate), process=ref(ProcessSpec),
                       properties=PAC),
    MaterialRun: dict(OBJ, spec=ref(MaterialSpec), process=ref(ProcessRun),
                      sample_type=enum(SampleType)),
    IngredientSpec: dict(OBJ, **QTYS, labels=TAGS, material=ref(MaterialSpec),
                         process=ref(ProcessSpec)),
    IngredientRun: dict({k: v for k, v in OBJ.items() if k != "name"}, **QTYS,
                        material=ref(MaterialRun), process=ref(ProcessRun),
                        spec=ref(IngredientSpec)),
    MeasurementSpec: dict(OBJ, template=ref(MeasurementTemplate), conditions=COND,
                          parameters=PARM),
    MeasurementRun: dict(OBJ, spec=ref(MeasurementSpec), material=ref(MaterialRun),
                         properties=PROP, conditions=COND, parameters=PARM, source=SRC),
    Property: {"file_links": FILES, "origin": enum(Origin),
               "value": Single(_val, (type(NominalInteger(1)).__mro__[2],)),
               "template": ref(PropertyTemplate,
                               lambda r: PropertyTemplate("t", bounds=gen.bounds(r)))},
    Condition: {"file_links": FILES, "origin": enum(Origin),
                "value": Single(_val, (type(NominalInteger(1)).__mro__[2],)),
                "template": ref(ConditionTemplate,
                                lambda r: ConditionTemplate("t", bounds=gen.bounds(r)))},
    Parameter: {"file_links": FILES, "origin": enum(Origin),
                "value": Single(_val, (type(NominalInteger(1)).__mro__[2],)),
                "template": ref(ParameterTemplate,
                                lambda r: ParameterTemplate("t", bounds=gen.bounds(r)))},
    PropertyAndConditions: {"property": Single(lambda r: Property(_t(r)), (Property,),
                                               none=False, error=TypeError),
                            "conditions": COND},
    PerformedSource: {"performed_by": Single(_t, (str,), error=TypeError),
                      "performed_date": Single(_t, (str,), error=TypeError)},
}
# What is known to become of the other end of a link when a spec refuses another process.
UNLINKED = {IngredientSpec: ("ingredient-spec-refused-process",
                             lambda x: not any(i is x for i in x.process.ingredients)),
            MaterialSpec: ("material-spec-refused-process",
                           lambda x: x.process.output_material is None)}
READONLY = {ProcessSpec: ["ingredients", "output_material"],
            ProcessRun: ["ingredients", "output_material", "template"],
            MaterialRun: ["measurements", "template"],
            IngredientRun: ["name", "labels", "template"], IngredientSpec: ["template"],
            MeasurementRun: ["template"],
            PropertyAndConditions: ["name", "template", "origin", "value"]}


def state(x):
    """All hard and soft fields of one object, contents by identity where they are entities."""
    return tuple((f, snap.encode(v, id)) for f, v in snap.hard_fields(x) + snap.soft_fields(x))


def base_kwargs(cls):
    """Required constructor arguments."""
    kw = {}
    if cls not in (IngredientRun, PropertyAndConditions, PerformedSource):
        kw["name"] = "n"
    if cls in (PropertyTemplate, ConditionTemplate, ParameterTemplate):
        kw["bounds"] = INT
    if cls is PropertyAndConditions:
        kw["property"] = Property("p")
    return kw


def donor_case(ctx, x, cls, f, spec):
    """A list taken from another object, or from the object itself, is still the object's own."""
    rng = ctx.rng
    items = [spec.make(rng) for _ in range(rng.randint(0, 3))]
    want = [spec.convert(v) for v in items]
    donor = cls(**dict(base_kwargs(cls), **{f: items}))
    if rng.random() < 0.5:
        setattr(x, f, getattr(donor, f))
    else:
        x = cls(**dict(base_kwargs(cls), **{f: getattr(donor, f)}))
    ctx.check(spec.matches(getattr(x, f), want), f"{cls.__name__}.{f} taken from another differs")
    ctx.check(getattr(x, f) is not getattr(donor, f),
              f"two {cls.__name__} objects share one list of {f}")
    more = spec.make(rng)
    rng.choice([lambda: getattr(donor, f).append(more), lambda: getattr(donor, f).clear(),
                lambda: getattr(donor, f).insert(0, more)])()
    ctx.check(spec.matches(getattr(x, f), want),
              lambda: f"{cls.__name__}.{f} changed with the list of the object it was taken from")
    kept = [spec.convert(v) for v in getattr(donor, f)] if not isinstance(spec, Pairs) \
        else [list(v) for v in getattr(donor, f)]
    getattr(x, f).append(more)
    ctx.check(spec.matches(getattr(donor, f), kept),
              lambda: f"the list of the object {cls.__name__}.{f} was taken from changed with it")
    # Assigning an object's list to itself keeps it
    now = [spec.convert(v) for v in getattr(x, f)] if not isinstance(spec, Pairs) \
        else [list(v) for v in getattr(x, f)]
    setattr(x, f, getattr(x, f))
    ctx.check(spec.matches(getattr(x, f), now), f"{cls.__name__}.{f} = its own list changed it")
    getattr(x, f).append(more)
    ctx.check(len(getattr(x, f)) == len(now) + 1, f"{cls.__name__}.{f} is no longer its own list")
    ctx.ev("donor_probes")


def case(ctx):
    rng = ctx.rng
    cls = rng.choice(list(TABLE))
    fields = TABLE[cls]
    # A populated object, built through the constructor from accepted values
    kw, wants = base_kwargs(cls), {}
    for f, spec in fields.items():
        if rng.random() < 0.5 or f in kw:
            if f == "template" and cls in (Property, Condition, Parameter):
                continue
            kw[f], wants[f] = spec.accepted(rng)
    plain = {}  # Fields that take any text, and uids
    for f in inspect.signature(cls.__init__).parameters:
        if f in ("description", "notes") or f == "name" and f in kw:
            plain[f] = rng.choice([_t(rng), _t(rng), ""] + [None] * (f != "name"))
        elif f == "uids":
            plain[f] = rng.choice([None, {}, {_t(rng): _t(rng)}, {"a": "1", "": "2", "c": ""}])
    plain = {f: v for f, v in plain.items() if f not in wants and rng.random() < 0.7}
    x = cls(**dict(kw, **plain))
    for f, v in plain.items():
        got = getattr(x, f)
        ctx.check(snap.encode(dict(got) if f == "uids" else got, id) ==
                  snap.encode((v or {}) if f == "uids" else v, id),
                  lambda: f"{cls.__name__}({f}={short(v)}) reads back as {short(got)}")
        ctx.ev("plain_fields")
    for f, w in wants.items():
        ctx.check(fields[f].matches(getattr(x, f), w),
                  lambda: f"{cls.__name__}({f}=...) reads back as {short(getattr(x, f))}, "
                          f"expected {short(w)}")
    for _ in range(3):
        f = rng.choice(list(fields))
        spec = fields[f]
        before = dict(state(x))
        if rng.random() < 0.45:
            v, want = spec.accepted(rng)
            if cls in (Property, Condition, Parameter) and f in ("template", "value"):
                pass  # validation of values is C16's; at the default level it only warns
            setattr(x, f, v)
            ctx.log("accept", cls.__name__, f, short(v))
            ctx.check(spec.matches(getattr(x, f), want),
                      lambda: f"{cls.__name__}.{f} = {short(v)} reads back as "
                              f"{short(getattr(x, f))}")
            after = dict(state(x))
            allowed = {f} | ({"name", "labels"} if cls is IngredientRun and f == "spec" else set())
            for g in before:
                ctx.check(g in allowed or before[g] == after[g],
                          lambda: f"{cls.__name__}.{f} = ... changed {g}")
            ctx.ev("others_unchanged")
            if isinstance(spec, Many) and spec.probe is not None and spec.probe is v:
                for pair in v:
                    if type(pair) is list:
                        pair[1] = "changed"
                v.append(spec.make(rng))
                ctx.check(spec.matches(getattr(x, f), want),
                          lambda: f"{cls.__name__}.{f} changed with the list it was set from")
                ctx.ev("aliasing_probes")
            if isinstance(spec, Many) and rng.random() < 0.3:
                donor_case(ctx, x, cls, f, spec)
            ctx.ev("accepted")
            ctx.sig(cls.__name__, f, type(v).__name__, "set")
        elif rng.random() < 0.6:
            v = spec.refused(rng)
            ctx.log("refuse", cls.__name__, f, short(v))
            around = snap.reachable(x) if isinstance(x, BaseEntity) else []
            world = snap.freeze(around)
            ctx.raises(spec.error, lambda: setattr(x, f, v), f"{cls.__name__}.{f} = {short(v)}")
            after = dict(state(x))
            bad = [g for g in before if before[g] != after[g]]
            ctx.check(not bad, lambda: f"a refused {cls.__name__}.{f} = {short(v)} changed {bad}")
            if f == "process" and cls in UNLINKED and isinstance(x.process, ProcessSpec) and \
                    UNLINKED[cls][1](x):
                ctx.finding(UNLINKED[cls][0], f"a refused {cls.__name__}.process = {short(v)} "
                                              f"unlinked the former process")
                return
            bad = snap.diff_state(world, snap.freeze(around))
            ctx.check(bad is None,
                      lambda: f"a refused {cls.__name__}.{f} = {short(v)} changed another: {bad}")
            ctx.ev("refused")
            ctx.ev("unchanged_after_refusal")
            ctx.sig(cls.__name__, f, type(v).__name__, "refuse")
        else:
            v = spec.refused(rng)
            good = dict(base_kwargs(cls))
            good[f] = v
            ctx.raises(ERRORS, lambda: cls(**good), f"{cls.__name__}({f}={short(v)})")
            ctx.ev("constructions_refused")
            ctx.sig(cls.__name__, f, type(v).__name__, "construct")
    for f in READONLY.get(cls, []):
        before = state(x)
        ctx.raises(AttributeError, lambda: setattr(x, f, "x"), f"assigning {cls.__name__}.{f}")
        ctx.check(state(x) == before, f"assigning {cls.__name__}.{f} had effects")
        ctx.ev("readonly_refused")
    ctx.sample({"type": cls.__name__, "steps": list(ctx.trace)})


def _refused(cls):
    def scenario(ctx):
        """A spec with a process refuses another."""
        x = cls("x", process=ProcessSpec("p"))
        ctx.raises(TypeError, lambda: setattr(x, "process", 5), f"{cls.__name__}.process = 5")
        ctx.check(isinstance(x.process, ProcessSpec), "the process was lost")
        if UNLINKED[cls][1](x):
            ctx.finding(UNLINKED[cls][0], f"{cls.__name__}.process = 5 unlinked the former process")
    return scenario


def _defaults(ctx):
    """What is not given is empty, and no object's own empty list is another's."""
    for cls, fields in TABLE.items():
        objs = [cls(**base_kwargs(cls)) for _ in range(3)]
        for f, spec in fields.items():
            if not isinstance(spec, Many):
                continue
            lists = [getattr(x, f) for x in objs]
            ctx.check(all(isinstance(v, list) and not v for v in lists),
                      f"{cls.__name__}.{f} is {lists[0]!r} by default")
            for k in range(2):
                lists[k].append(spec.make(ctx.rng))
            ctx.check([len(getattr(x, f)) for x in objs] == [1, 1, 0],
                      f"{cls.__name__}.{f}: objects share their default list")
            for empty in (None, [], (), iter(())):
                objs[0].__class__.__setattr__(objs[0], f, empty)
                objs[1].__class__.__setattr__(objs[1], f, type(empty)() if empty == () else [])
                getattr(objs[0], f).append(spec.make(ctx.rng))
                ctx.check(not getattr(objs[1], f), f"{cls.__name__}.{f}: empty lists are shared")
        if issubclass(cls, BaseEntity):
            ctx.check(not objs[0].uids, f"{cls.__name__} has uids by default")
            objs[0].add_uid("x", "y")
            ctx.check(not objs[1].uids and not objs[2].uids and not cls(**base_kwargs(cls)).uids,
                      f"{cls.__name__}: objects share their uids")
    for cls in (PropertyTemplate, ConditionTemplate, ParameterTemplate):
        for name in (None, 5, b"x", ["x"], object()):
            ctx.raises(ERRORS, lambda: cls(name, bounds=INT), f"{cls.__name__}({name!r})")
        for b in (None, 5, "x", [INT], IntegerBounds, NominalInteger(3)):
            ctx.raises(ERRORS, lambda: cls("x", bounds=b), f"{cls.__name__}(bounds={b!r})")
        ctx.raises(ERRORS, lambda: cls("x"), f"{cls.__name__} without bounds")
    for cls in (c for c in TABLE if issubclass(c, BaseEntity)):
        for uids in (5, object(), 1.5, True):
            ctx.raises(ERRORS, lambda: cls(**dict(base_kwargs(cls), uids=uids)),
                       f"{cls.__name__}(uids={uids!r})")
            x = cls(**dict(base_kwargs(cls), uids={"a": "b"}))
            ctx.raises(ERRORS, lambda: setattr(x, "uids", uids), f"{cls.__name__}.uids = {uids!r}")
            ctx.check(dict(x.uids) == {"a": "b"}, f"a refused {cls.__name__}.uids changed it")


FIXED = [(c.__name__, _refused(c)) for c in UNLINKED] + [("defaults", _defaults)]
