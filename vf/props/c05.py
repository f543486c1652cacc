"""C05: single objects survive dump and build, from_dict and as_dict."""
import json
import math
from enum import Enum

from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.json import GEMDJson

from vf import gen, snap
from vf.core import short

RULE = ("Every non-entity type, and every entity type with nested or linked references, is taken "
        "through dump/build, raw_dumps/raw_loads and as_dict/from_dict; the signature is the "
        "serialized object.")
KINDS = ["value", "weird", "bounds", "attribute", "pac", "file", "source", "link", "entity"]
REQUIRED = ["kind:" + k for k in KINDS] + ["dump_build", "raw", "from_dict"] + \
           ["type:" + t for t in snap.FIELDS]
REQUIRED += ["assigned"] + ["written:" + k for k in KINDS if k != "weird"]
N = {"quick": 9000, "thorough": 150000}
ENTITIES = [PropertyTemplate, ConditionTemplate, ParameterTemplate, MaterialTemplate,
            MeasurementTemplate, ProcessTemplate, ProcessSpec, ProcessRun, MaterialSpec,
            MaterialRun, IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun]
ENTITY = {c.typ: c.__name__ for c in ENTITIES}
UIDS = [("id", "1"), ("my_id", ""), ("auto", "x y"), ("Scope", "é"), ("self", "None"), ("", "a")]


def tree(x):
    """Everything below x as nested tuples, entities written out."""
    if isinstance(x, DictSerializable):
        return (type(x).__name__,) + tuple((f, tree(v)) for f, v in snap.hard_fields(x))
    if isinstance(x, dict):
        return ("map", tuple(sorted(((tree(k), tree(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(tree(v) for v in x))
    return snap.encode(x, id)


def only_json(x):
    """Whether x consists of JSON types only."""
    if isinstance(x, dict):
        return type(x) is dict and all(type(k) is str and only_json(v) for k, v in x.items())
    if isinstance(x, list):
        return type(x) is list and all(only_json(v) for v in x)
    return x is None or type(x) in (str, int, float, bool)


UNITS = ["dimensionless", "meter", "kilogram", "second", "kelvin", "meter / second"]


class Writer:
    """Hand-written dictionary forms, every field in every legal state."""

    def __init__(self, rng):
        self.rng = rng

    def text(self):
        return gen.text(self.rng, 0.5)

    def opt(self, make, p=0.5):
        return make() if self.rng.random() < p else None

    def some(self, make, n=3):
        return gen.repeated(self.rng, [make() for _ in range(gen.count(self.rng, 0, n))])

    def number(self):
        return self.rng.choice([gen.number(self.rng), 0, 0.0, -0.0])

    def pair(self, make):
        return sorted([make(), make()])

    def value(self):
        rng = self.rng
        typ = rng.choice(["nominal_real", "normal_real", "uniform_real", "nominal_integer",
                          "uniform_integer", "nominal_categorical", "discrete_categorical",
                          "empirical_formula", "nominal_composition", "smiles"])
        units = rng.choice(UNITS)
        if typ == "nominal_real":
            return {"type": typ, "nominal": self.number(), "units": units}
        if typ == "normal_real":
            return {"type": typ, "mean": self.number(),
                    "std": self.opt(lambda: abs(self.number()), 0.9), "units": units}
        if typ == "uniform_real":
            lo, hi = self.pair(self.number)
            return {"type": typ, "lower_bound": lo, "upper_bound": hi, "units": units}
        if typ == "nominal_integer":
            return {"type": typ, "nominal": gen.integer(rng)}
        if typ == "uniform_integer":
            lo, hi = self.pair(lambda: gen.integer(rng))
            return {"type": typ, "lower_bound": lo, "upper_bound": hi}
        if typ == "nominal_categorical":
            return {"type": typ, "category": self.opt(self.text, 0.9)}
        if typ == "discrete_categorical":
            return {"type": typ, "probabilities": self.opt(lambda: gen.probabilities(rng), 0.9)}
        if typ == "empirical_formula":
            return {"type": typ, "formula": self.opt(lambda: gen.formula(rng), 0.9)}
        if typ == "nominal_composition":
            return {"type": typ, "quantities": {c: self.number() for c in
                                                rng.sample(gen.COMPONENTS, rng.randint(0, 4))}}
        return {"type": typ, "smiles": self.opt(self.text, 0.9)}

    def bounds(self):
        rng = self.rng
        typ = rng.choice(["real_bounds", "integer_bounds", "categorical_bounds",
                          "composition_bounds", "molecular_structure_bounds"])
        if typ == "real_bounds":
            lo, hi = self.pair(self.number)
            return {"type": typ, "lower_bound": lo, "upper_bound": hi,
                    "default_units": rng.choice(UNITS)}
        if typ == "integer_bounds":
            lo, hi = self.pair(lambda: gen.integer(rng))
            return {"type": typ, "lower_bound": lo, "upper_bound": hi}
        if typ == "categorical_bounds":
            return {"type": typ, "categories": rng.sample(gen.CATEGORIES, rng.randint(0, 6))}
        if typ == "composition_bounds":
            return {"type": typ, "components": rng.sample(gen.COMPONENTS, rng.randint(0, 6))}
        return {"type": typ}

    def link(self):
        return {"type": "link_by_uid", "scope": self.rng.choice(gen.SCOPES), "id": self.text()}

    def file(self):
        return {"type": "file_link", "filename": self.text(), "url": self.text()}

    def source(self):
        return {"type": "performed_source", "performed_by": self.opt(self.text),
                "performed_date": self.opt(self.text)}

    def attribute(self, typ=None):
        rng = self.rng
        return {"type": typ or rng.choice(["property", "condition", "parameter"]),
                "name": self.text(), "notes": self.opt(self.text), "value": self.opt(self.value),
                "template": self.opt(self.link), "file_links": self.some(self.file, 1),
                "origin": rng.choice(["measured", "predicted", "summary", "specified", "computed",
                                      "unknown"])}

    def pac(self):
        return {"type": "property_and_conditions", "property": self.attribute("property"),
                "conditions": self.some(lambda: self.attribute("condition"), 2)}

    def entity(self):
        rng = self.rng
        typ = rng.choice([c.typ for c in ENTITIES])
        d = {"type": typ, "uids": dict(rng.sample(UIDS, rng.randint(0, 3))),
             "tags": self.some(self.text)}
        name = ENTITY[typ]
        fields = snap.FIELDS[name]
        pairs = name.endswith("Template")
        make = {"name": self.text, "notes": lambda: self.opt(self.text),
                "description": lambda: self.opt(self.text),
                "file_links": lambda: self.some(self.file),
                "bounds": self.bounds, "source": lambda: self.opt(self.source),
                "sample_type": lambda: rng.choice(["production", "experimental", "virtual",
                                                   "unknown"]),
                "labels": lambda: self.some(self.text),
                "allowed_names": lambda: self.some(self.text),
                "allowed_labels": lambda: self.some(self.text)}
        for f in ("template", "spec", "process", "material"):
            make[f] = lambda: self.opt(self.link)
        for f in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
            units = "kilogram" if f == "absolute_quantity" else "dimensionless"
            make[f] = lambda units=units: self.opt(
                lambda: {"type": "nominal_real", "nominal": rng.choice([0, 0.0, 1, 0.25]),
                         "units": units})
        for f, one in (("properties", "property"), ("conditions", "condition"),
                       ("parameters", "parameter")):
            if pairs:
                make[f] = lambda: self.some(lambda: [self.link(), self.opt(self.bounds)])
            elif f == "properties" and name == "MaterialSpec":
                make[f] = lambda: self.some(self.pac, 2)
            else:
                make[f] = lambda one=one: self.some(lambda: self.attribute(one), 2)
        for f in fields:
            if f not in d:
                d[f] = make[f]()
        return d


def differs(got, want, path="$"):
    """Where an object departs from the dictionary it was built from, or None."""
    if isinstance(want, dict) and "type" in want:
        if not isinstance(got, DictSerializable) or type(got).typ != want["type"]:
            return f"{path} is a {type(got).__name__}, not a {want['type']}"
        for f, v in want.items():
            if f != "type":
                bad = differs(getattr(got, f), v, f"{path}.{f}")
                if bad:
                    return bad
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or sorted(got) != sorted(want):
            return f"{path} is {short(got)}, not {short(want)}"
        return next((b for b in (differs(got[k], want[k], f"{path}[{k!r}]") for k in want) if b),
                    None)
    if isinstance(want, list):
        if isinstance(got, (set, frozenset)):
            return None if got == set(want) else f"{path} is {short(got)}, not {short(want)}"
        if not isinstance(got, list) or len(got) != len(want):
            return f"{path} is {short(got)}, not {short(want)}"
        return next((b for b in (differs(x, y, f"{path}[{i}]")
                                 for i, (x, y) in enumerate(zip(got, want))) if b), None)
    if isinstance(got, Enum):
        return None if got.value == want else f"{path} is {got!r}, not {want!r}"
    if isinstance(want, (int, float)) and not isinstance(want, bool):
        ok = isinstance(got, (int, float)) and not isinstance(got, bool) and got == want and \
            math.copysign(1, got) == math.copysign(1, want)
        return None if ok else f"{path} is {got!r}, not {want!r}"
    return None if type(got) is type(want) and got == want else f"{path} is {got!r}, not {want!r}"


def written_case(ctx):
    """What a dictionary says is what the object built from it says."""
    rng = ctx.rng
    w = Writer(rng)
    kind = rng.choice(["value", "bounds", "attribute", "pac", "file", "source", "link", "entity",
                       "entity", "entity"])
    d = getattr(w, kind)()
    # A constructor's defaults stand for fields that are none or empty, so these may be left out
    given = {k: v for k, v in d.items()
             if k in ("type", "name", "bounds", "property", "filename", "url", "scope", "id",
                      "labels")
             or kind in ("value", "bounds") or v not in (None, [], {}) or rng.random() < 0.5}
    x = DictSerializable.build(given)
    bad = differs(x, d)
    ctx.check(bad is None, lambda: f"built from {short(given, 600)}: {bad}")
    y = DictSerializable.build(x.dump())
    bad = differs(y, d)
    ctx.check(bad is None, lambda: f"built, dumped and built again from {short(given, 600)}: {bad}")
    # The same by keyword, from objects
    kwargs = {k: make(v) for k, v in given.items() if k != "type"}
    if d["type"] != "ingredient_run":
        z = type(x)(**kwargs)
        bad = differs(z, d)
        ctx.check(bad is None, lambda: f"constructed from {short(given, 600)}: {bad}")
    else:
        z = type(x).from_dict(kwargs)
        bad = differs(z, d)
        ctx.check(bad is None, lambda: f"from_dict of {short(given, 600)}: {bad}")
    # ... and assigned one by one to an object made otherwise
    if kind not in ("value", "bounds", "link", "file"):
        other = {k: v for k, v in getattr(w, kind)().items()}
        if other["type"] == d["type"]:
            other = DictSerializable.build(other)
        else:
            other = DictSerializable.build({k: v for k, v in d.items()
                                            if k in ("type", "name", "bounds", "property")})
        for f in d:
            if f == "type" or (d["type"] == "ingredient_run" and f in ("name", "labels")):
                continue
            setattr(other, f, make(d[f]))
        if d["type"] == "ingredient_run":
            d = {k: v for k, v in d.items() if k not in ("name", "labels")}
        bad = differs(other, d)
        ctx.check(bad is None, lambda: f"assigned from {short(d, 600)}: {bad}")
        ctx.ev("assigned")
    ctx.ev("written:" + kind)
    ctx.sig("written", d["type"], len(given), len(json.dumps(d)))


def make(v):
    """Objects for the dictionaries inside a dictionary."""
    if isinstance(v, dict):
        if "type" in v:
            return DictSerializable.build(v)
        return dict(v)
    if isinstance(v, list):
        return [make(x) for x in v]
    return v


def case(ctx):
    """One object there and back, or one dictionary taken at its word."""
    if ctx.rng.random() < 0.4:
        written_case(ctx)
    else:
        trip_case(ctx)


def trip_case(ctx):
    """One object there and back."""
    rng = ctx.rng
    g = gen.Graph(rng, size=rng.choice([0, 1, 2]), links=True)
    kind = rng.choice(KINDS)
    if kind == "value":
        x = gen.value(rng)
    elif kind == "weird":
        x = gen.weird_value(rng)
    elif kind == "bounds":
        x = gen.bounds(rng)
    elif kind == "attribute":
        x = g.attribute(rng.choice([Property, Condition, Parameter]))
    elif kind == "pac":
        x = PropertyAndConditions(g.attribute(Property),
                                  gen.repeated(rng, [g.attribute(Condition) for _ in range(
                                      rng.randint(0, 3))]))
    elif kind == "file":
        x = gen.file_link(rng)
    elif kind == "source":
        x = PerformedSource(gen.opt(rng, lambda: gen.text(rng)), gen.opt(rng, lambda: gen.text(rng)))
    elif kind == "link":
        x = LinkByUID(rng.choice(gen.SCOPES), gen.text(rng))
    else:
        x = rng.choice(g.everything)
    ctx.ev("kind:" + kind)
    ctx.ev("type:" + type(x).__name__)
    before = tree(x)
    d = x.dump()
    ctx.check(only_json(d), lambda: f"dump gave something beyond JSON: {short(d)}")
    ctx.check(d["type"] == type(x).typ, "dump gave another type")
    again = json.loads(json.dumps(d))
    y = rng.choice([DictSerializable, type(x)]).build(d)
    ctx.check(snap.encode(d, id) == snap.encode(again, id), "build changed its argument")
    ctx.check(type(y) is type(x) and tree(y) == before,
              lambda: f"dump and build turned {short(before)} into {short(tree(y))}")
    ctx.ev("dump_build")
    text = GEMDJson().raw_dumps(x)
    z = GEMDJson().raw_loads(text)
    ctx.check(tree(z) == before, lambda: f"raw_loads gave {short(tree(z))} for {short(before)}")
    ctx.check(GEMDJson().raw_dumps(z) == text, "raw_dumps of the reloaded object differs")
    ctx.ev("raw")
    if not isinstance(x, BaseEntity):
        attrs = x.as_dict()
        w = type(x).from_dict(attrs)
        ctx.check(tree(w) == before, lambda: f"from_dict gave {short(tree(w))} for {short(before)}")
        ctx.ev("from_dict")
        if "nan" not in text.lower():
            ctx.check(x == y and x == w and y == x, "a rebuilt object is not equal to the original")
    ctx.check(tree(x) == before, "dumping changed the object")
    ctx.sig(text if kind != "entity" else (type(x).__name__, len(text)))
    ctx.sample(text[:300])


FIXED = []
