"""C10: equality is an honest comparison of content."""
import copy
import math
import random

from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.bounds import IntegerBounds, CategoricalBounds
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.value import NominalReal, UniformInteger
from gemd.enumeration import Origin, SampleType

from vf import gen, snap
from vf.core import Violation, short
from vf.props import c05

RULE = ("Pairs of independently built but identical object graphs (every type, links, shared "
        "objects), one of which may then be changed in one field of one object; every object is "
        "compared both ways with its twin, with unrelated objects and with foreign things; "
        "signature: (type and field changed, graph shape).")
REQUIRED = ["twins_equal", "changed_unequal", "changed_at_a_distance", "reflexive", "symmetric",
            "foreign", "parts_equal", "parts_unequal", "hash_stable", "duplicates",
            "lookalikes", "deep", "cyclic_equal", "cyclic_unequal", "written_equal", "written_unequal",
            "flattened", "crossed"]
N = {"quick": 6000, "thorough": 80000}


def eq(ctx, a, b, why):
    """Compare both ways; returns the common answer."""
    try:
        r1, r2, n1, n2 = a == b, b == a, a != b, b != a
    except Exception as e:
        raise Violation(f"{why}: comparing {type(a).__name__} with {type(b).__name__} raised "
                        f"{type(e).__name__}: {e}")
    ctx.check(isinstance(r1, bool) and r1 is r2,
              lambda: f"{why}: {type(a).__name__} == {type(b).__name__} is {r1!r}, the other way "
                      f"round {r2!r}")
    ctx.check(n1 is not r1 and n2 is not r2, f"{why}: != is not the negation of ==")
    ctx.ev("symmetric")
    return r1


def twins(rng, **kw):
    """Two graphs built by the same steps."""
    seed = rng.random()
    return gen.Graph(random.Random(seed), **kw), gen.Graph(random.Random(seed), **kw)


def compared(e):
    """Entities that take part in comparing e (the output of a process does not)."""
    return snap.children(e, soft=False) + [x for f, v in snap.soft_fields(e)
                                           if isinstance(v, list) for x in v
                                           if isinstance(x, BaseEntity)]


def dependents(everything, e):
    """Entities whose comparison involves e."""
    hit = {id(e)}
    out = []
    grew = True
    while grew:
        grew = False
        for x in everything:
            if id(x) not in hit and any(id(y) in hit for y in compared(x)):
                hit.add(id(x))
                out.append(x)
                grew = True
    return out


NEW = "changed for good"


def _attr(a):
    """Ways to change an attribute."""
    def value():
        a.value = NominalReal(a.value.nominal + 1.5 if isinstance(a.value, NominalReal)
                              and abs(a.value.nominal) < 1e6 else 1234.5, "gigameter") \
            if a.template is None or isinstance(a.template, LinkByUID) else None
        if a.value is None:
            a.template = None
            a.value = NominalReal(123456.0, "gigameter")

    def origin():
        a.origin = Origin.PREDICTED if a.origin is not Origin.PREDICTED else Origin.SUMMARY

    def template():
        cls = {"Property": PropertyTemplate, "Condition": ConditionTemplate,
               "Parameter": ParameterTemplate}[snap.base_name(a)]
        a.template = None if a.template is not None else LinkByUID(NEW, NEW)
        return cls

    return [("name", lambda: setattr(a, "name", NEW)), ("notes", lambda: setattr(a, "notes", NEW)),
            ("value", value), ("origin", origin), ("template", template),
            ("file_links", lambda: setattr(a, "file_links", [FileLink(NEW, NEW)]))]


def changes(e):
    """All (field, thunk, far) ways to change an entity; far: others see it too."""
    out = []

    def assign(field, value, far=True):
        out.append((field, lambda: setattr(e, field, value), far))

    name = snap.base_name(e)
    if name != "IngredientRun":
        assign("name", NEW)
    assign("description" if name.endswith("Template") else "notes", NEW)
    out.append(("uids", lambda: e.add_uid(NEW, NEW), True))
    if len(e.uids):
        k = list(e.uids)[0]
        out.append(("uids", lambda: e.uids.__setitem__(k, NEW), True))

        def rename():
            v = e.uids.pop(k)
            e.uids[NEW] = v
        out.append(("uids", rename, True))
    for field in ("tags", "labels", "allowed_names", "allowed_labels"):
        if field in snap.FIELDS[name] and name != "IngredientRun" and getattr(e, field):
            lst = getattr(e, field)
            out.append((field, lambda lst=lst: lst.__setitem__(0, NEW), True))
            out.append((field, lambda lst=lst: lst.append(NEW), True))
        elif field in snap.FIELDS[name] and name != "IngredientRun" and not e.uids:
            assign(field, [NEW])
    if "bounds" in snap.FIELDS[name]:
        assign("bounds", CategoricalBounds([NEW]))
    if "sample_type" in snap.FIELDS[name]:
        assign("sample_type", next(x for x in SampleType if x is not e.sample_type))
    if "source" in snap.FIELDS[name]:
        assign("source", PerformedSource(NEW, e.source.performed_date if e.source else None))
        if e.source is not None:
            assign("source", None)
    for q in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
        if q in snap.FIELDS[name]:
            assign(q, NominalReal(0.123456, "kg" if q == "absolute_quantity" else ""))
            if getattr(e, q) is not None:
                assign(q, None)
    link = {"ProcessSpec": ["template"], "ProcessRun": ["spec"],
            "MaterialSpec": ["template", "process"], "MaterialRun": ["spec", "process"],
            "IngredientSpec": ["material", "process"],
            "IngredientRun": ["material", "process", "spec"],
            "MeasurementSpec": ["template"], "MeasurementRun": ["spec", "material"]}
    for field in link.get(name, []):
        assign(field, LinkByUID(NEW, NEW), far=False)
        if getattr(e, field) is not None:
            assign(field, None, far=False)
    for field in ("properties", "conditions", "parameters"):
        if field in snap.FIELDS[name] and getattr(e, field):
            lst = getattr(e, field)
            if name.endswith("Template"):
                def pair(lst=lst):
                    lst[0] = [LinkByUID(NEW, NEW), lst[0][1]]

                def bnd(lst=lst):
                    lst[0] = [lst[0][0], None if lst[0][1] is not None else
                              gen.sub_bounds(random.Random(1), lst[0][0].bounds)
                              if isinstance(lst[0][0], BaseEntity) else IntegerBounds(0, 1)]
                out.extend([(field + ".template", pair, True), (field + ".bounds", bnd, True)])
            else:
                a = lst[0]
                if isinstance(a, PropertyAndConditions):
                    if a.conditions:
                        out.extend((f"{field}.conditions.{f}", g, True)
                                   for f, g in _attr(a.conditions[0]))
                    else:
                        out.append((f"{field}.conditions",
                                    lambda a=a: a.conditions.append(Condition(NEW)), True))
                    a = a.property
                out.extend((f"{field}.{f}", g, True) for f, g in _attr(a))
                if len(lst) > 1 or not e.uids:
                    out.append((field + " shortened", lst.pop, True))
    if e.file_links if "file_links" in snap.FIELDS[name] else False:
        out.append(("file_links", lambda: e.file_links.__setitem__(
            0, FileLink(NEW, e.file_links[0].url)), True))
        out.append(("file_links", lambda: e.file_links.append(FileLink("extra", "extra")), True))
    return out


def reversible(before, e):
    """Whether e's compared state really changed (a change can be a no-op on odd input)."""
    return before != own_state(e)


def own_state(e):
    return tuple((f, snap.encode(v, id)) for f, v in snap.hard_fields(e))


def twin_case(ctx):
    """Twins are equal until one changes."""
    rng = ctx.rng
    g, h = twins(rng, links=rng.random() < 0.5, weird=False, size=2, cycles=False,
                 uid=rng.choice(["mixed", "none", "all", "single"]),
                 hostile=rng.choice([0, 0.3, 0.8]))
    ctx.check(len(g.everything) == len(h.everything), "twins differ in size")
    hashes = [hash(e) for e in g.everything]
    for a, b in zip(g.everything, h.everything):
        ctx.check(eq(ctx, a, b, "identical twins"),
                  lambda: f"a {type(a).__name__} is not equal to its independently built twin")
        ctx.ev("twins_equal")
        ctx.check(a == a and not a != a, f"a {type(a).__name__} is not equal to itself")
        ctx.ev("reflexive")
    i = rng.randrange(len(g.everything))
    e, twin = g.everything[i], h.everything[i]
    options = changes(e)
    field, change, far = rng.choice(options)
    state = own_state(e)
    change()
    if not reversible(state, e):
        ctx.ev("no_op_changes")
        return
    ctx.log(type(e).__name__, field)
    ctx.check(not eq(ctx, e, twin, f"{field} changed"),
              lambda: f"{type(e).__name__} with a different {field} is still equal to its twin")
    ctx.ev("changed_unequal")
    ctx.check(e == e, "reflexivity lost")
    if far:
        for x in dependents(g.everything, e):
            y = h.everything[next(k for k, z in enumerate(g.everything) if z is x)]
            ctx.check(not eq(ctx, x, y, f"{field} of a {type(e).__name__} it refers to changed"),
                      lambda: f"a {type(x).__name__} that refers to a {type(e).__name__} with a "
                              f"different {field} is still equal to its twin")
            ctx.ev("changed_at_a_distance")
    ctx.check(hashes == [hash(x) for x in g.everything], "the hash of an entity changed")
    ctx.ev("hash_stable", len(hashes))
    ctx.sig(type(e).__name__, field, far, len(g.everything), len(compared(e)))
    ctx.sample({"type": type(e).__name__, "field": field, "graph": len(g.everything)})


FOREIGN = [lambda r: None, lambda r: 5, lambda r: "text", lambda r: (), lambda r: ("a",),
           lambda r: ("id", "1"), lambda r: ("id", "1", "x"), lambda r: (5, 5), lambda r: (None, None),
           lambda r: (r.choice([5, None, b"id", 1.5, True, ("id",), frozenset(["id"])]), "1"),
           lambda r: ("id", r.choice([5, None, b"1", 1.5, True, ("1",)])), lambda r: ("", ""),
           lambda r: ["id", "1"], lambda r: {"id": "1"}, lambda r: object(), lambda r: ProcessSpec,
           lambda r: LinkByUID("nope", "nope"), lambda r: gen.value(r), lambda r: gen.bounds(r),
           lambda r: gen.file_link(r), lambda r: PerformedSource("a", "b"),
           lambda r: Property("x"), lambda r: (("a",), ["b"]), lambda r: b"", lambda r: float("nan"),
           lambda r: NotImplemented.__class__]


def foreign_case(ctx):
    """Anything can be compared with anything; different types are different."""
    rng = ctx.rng
    g = gen.Graph(rng, weird=False, size=2)
    everything = g.everything + g.dangling
    for _ in range(25):
        a = rng.choice(everything)
        b = rng.choice(FOREIGN)(rng) if rng.random() < 0.5 else rng.choice(everything)
        same = eq(ctx, a, b, "comparison with foreign things")
        if isinstance(b, BaseEntity) and isinstance(a, BaseEntity):
            ctx.check(not same or type(a) is type(b), "entities of different types are equal")
            ctx.check(same or a is not b, "an entity is not equal to itself")
        elif isinstance(a, BaseEntity) and isinstance(b, tuple):
            want = len(b) == 2 and isinstance(b[0], str) and \
                any(k.lower() == b[0].lower() and v == b[1] for k, v in a.uids.items())
            ctx.check(same is want, f"entity with {dict(a.uids)} compared with {b!r}: {same}")
        elif isinstance(b, LinkByUID) and isinstance(a, BaseEntity):
            want = any(k.lower() == b.scope.lower() and v == b.id for k, v in a.uids.items())
            ctx.check(same is want, f"entity with {dict(a.uids)} compared with {b!r}: {same}")
        elif isinstance(a, LinkByUID) and isinstance(b, LinkByUID):
            exact = (a.scope, a.id) == (b.scope, b.id)
            ctx.check(same if exact else True, "identical links are unequal")
            ctx.check(not same or (a.scope.lower(), a.id) == (b.scope.lower(), b.id),
                      "different links are equal")
            ctx.check(not same or hash(a) == hash(b), "equal links with different hashes")
        elif isinstance(a, BaseEntity):
            ctx.check(not same, f"a {type(a).__name__} is equal to {b!r}")
        ctx.ev("foreign")
    for e in rng.sample(g.everything, min(5, len(g.everything))):
        for k, v in e.uids.items():
            for scope in (k, k.upper(), k.lower()):
                if scope.lower() != k.lower():
                    continue
                scope, other = gen.fresh(scope), gen.fresh(v)
                ctx.check(eq(ctx, e, LinkByUID(scope, other), "link to an entity")
                          and eq(ctx, e, (scope, other), "uid of an entity"),
                          f"an entity is not equal to a link by its uid {scope}: {v}")
                ctx.check(not eq(ctx, e, LinkByUID(scope, v + "~"), "link"),
                          "an entity is equal to a link by another id")
            link = LinkByUID(k, v)
            ctx.check(link == (k, v) and link != (k, v + "~") and hash(link) == hash((k, v)),
                      "a link is not interchangeable with its scope and id")
    ctx.sig("foreign", len(g.everything), len(g.dangling))


def parts_case(ctx):
    """Attributes, values, bounds, links to files: equal exactly when of one type and content."""
    rng = ctx.rng
    makers = [gen.value, gen.bounds, gen.file_link,
              lambda r: PerformedSource(gen.opt(r, lambda: gen.text(r)), gen.text(r)),
              lambda r: r.choice([Property, Condition, Parameter])(
                  r.choice(["a", "b"]), value=gen.opt(r, lambda: gen.value(r)),
                  origin=r.choice(list(Origin)), notes=r.choice([None, "x"])),
              lambda r: PropertyAndConditions(Property(r.choice("ab")),
                                              [Condition(r.choice("ab"))
                                               for _ in range(r.randint(0, 2))])]
    for _ in range(15):
        make = rng.choice(makers)
        seed = rng.random()
        a, b = make(random.Random(seed)), make(random.Random(seed))
        ctx.check(eq(ctx, a, b, "twins"), lambda: f"{a!r} is not equal to its twin")
        ctx.ev("parts_equal")
        c = make(rng)
        want = type(a) is type(c) and content(a) == content(c)
        ctx.check(eq(ctx, a, c, "two parts") is want,
                  lambda: f"{a!r} == {c!r} is {not want}, expected {want}")
        ctx.ev("parts_unequal", int(not want))
        other = rng.choice(makers)(rng)
        if type(other) is not type(a):
            ctx.check(not eq(ctx, a, other, "parts of different types"),
                      lambda: f"{a!r} is equal to {other!r}")
            ctx.ev("parts_unequal")
    a = FileLink("name", "url")
    ctx.check(a != FileLink("name", "URL") and a != FileLink("other", "url"), "file links")
    ctx.sig("parts", type(a).__name__, ctx.index)


def content(x):
    """Content of a part; numbers compare as numbers."""
    if isinstance(x, (list, tuple)):
        return [content(y) for y in x]
    if isinstance(x, dict):
        return {k: content(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return set(x)
    if type(x).__name__ in snap.FIELDS:
        return [type(x).__name__] + [content(v) for _, v in snap.hard_fields(x)]
    return x


def duplicate_case(ctx):
    """Lists with repeated or look-alike elements compare as multisets, from any object in them."""
    rng = ctx.rng

    def build(names, kind):
        if kind == "ingredient specs":
            hub = ProcessSpec("hub")
            return hub, [IngredientSpec(n, process=hub) for n in names]
        if kind == "ingredient runs":
            hub = ProcessRun("hub")
            return hub, [IngredientRun(notes=n, process=hub) for n in names]
        if kind == "measurements":
            hub = MaterialRun("hub")
            return hub, [MeasurementRun(n, material=hub) for n in names]
        if kind == "tags":
            return ProcessSpec("hub", tags=list(names)), []
        if kind == "conditions":
            return ProcessSpec("hub", conditions=[Condition(n) for n in names]), []
        if kind == "pairs":
            return MaterialTemplate("hub", properties=[
                PropertyTemplate(n, bounds=IntegerBounds(0, 1)) for n in names]), []
        return MeasurementTemplate("hub", conditions=[
            [LinkByUID("id", n), None] for n in names]), []

    kind = rng.choice(["ingredient specs", "ingredient runs", "measurements", "tags",
                       "conditions", "pairs", "links"])
    a = [rng.choice("xy") for _ in range(rng.randint(1, 4))]
    b = list(a)
    if rng.random() < 0.6:
        b[rng.randrange(len(b))] = rng.choice("xyz")
    rng.shuffle(b)
    want = sorted(a) == sorted(b)
    hub_a, parts_a = build(a, kind)
    hub_b, parts_b = build(b, kind)
    ctx.check(eq(ctx, hub_a, hub_b, f"{kind} {a} and {b}") is want,
              lambda: f"{kind}: {a} and {b} compare as {not want}")
    for x, p in zip(a, parts_a):
        for y, q in zip(b, parts_b):
            ctx.check(eq(ctx, p, q, f"{kind} {a} and {b} from within") is (want and x == y),
                      lambda: f"{kind}: {x} of {a} and {y} of {b} compare as "
                              f"{not (want and x == y)}")
    ctx.ev("duplicates")
    ctx.sig("duplicates", kind, tuple(a), tuple(b))


def lookalike_case(ctx):
    """Objects with the same fields but of different types are different, at any distance."""
    rng = ctx.rng
    kw = {"uids": rng.choice([None, {"id": "1"}, {"id": "1", "x": "2"}]),
          "tags": rng.choice([None, ["a"], ["a", "b"]])}
    name = gen.text(rng)
    r = rng.random()
    if r < 0.3:
        b = gen.bounds(rng)
        make = [lambda c=c: c(name, bounds=b, **kw)
                for c in (PropertyTemplate, ConditionTemplate, ParameterTemplate)]
    elif r < 0.5:
        make = [lambda c=c: c(name, **kw) for c in (ProcessSpec, MeasurementSpec)]
        if rng.random() < 0.5:
            make = [lambda c=c: c(name, notes="n", conditions=[Condition("c")], **kw)
                    for c in (ProcessSpec, MeasurementSpec)]
    elif r < 0.6:
        make = [lambda c=c: c(name, **kw) for c in
                (ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, IngredientSpec,
                 MeasurementSpec, MeasurementRun)]
    elif r < 0.7:
        make = [lambda c=c: c(name, **kw) for c in
                (MaterialTemplate, MeasurementTemplate, ProcessTemplate)]
    elif r < 0.9:
        v = gen.opt(rng, lambda: gen.value(rng))
        make = [lambda c=c: c(name, value=v) for c in (Property, Condition, Parameter)]
    else:
        lo, hi = sorted([gen.integer(rng), gen.integer(rng)])
        make = [lambda: UniformInteger(lo, hi), lambda: IntegerBounds(lo, hi)]
    objs = [f() for f in make]
    again = [f() for f in make]
    for i, a in enumerate(objs):
        for j, b in enumerate(again):
            same = eq(ctx, a, b, "lookalikes")
            ctx.check(same is (i == j), lambda: f"{type(a).__name__} == {type(b).__name__} with "
                                                f"the same fields is {same}")
            ctx.check((a in [b]) is same and ([a] == [b]) is same, "lists of lookalikes")
    ctx.ev("lookalikes")
    # ... and so are objects that differ only in the type of something they refer to
    if isinstance(objs[0], PropertyTemplate):
        x, y = objs[0], again[1]
        ctx.check(not eq(ctx, Property("p", template=LinkByUID("id", "1")),
                         Property("p", template=x), "link and template")
                  or x.uids.get("id") == "1", "a link equals a template it does not name")
        ctx.check(not eq(ctx, Property("p", template=x), Condition("p", template=y), "attributes"),
                  "a property equals a condition")
        ctx.check(not eq(ctx, MeasurementTemplate("t", properties=[x]),
                         MeasurementTemplate("t", conditions=[y]), "object templates"),
                  "a template with a property equals one with a condition")
    elif isinstance(objs[0], Property):
        ctx.check(not eq(ctx, MeasurementRun("m", properties=[objs[0]]),
                         MeasurementRun("m", conditions=[again[1]]), "attribute lists"),
                  "a run with a property equals one with a condition")
        ctx.check(not eq(ctx, MeasurementRun("m", parameters=[objs[2]]),
                         MeasurementRun("m", conditions=[again[1]]), "attribute lists"),
                  "a run with a parameter equals one with a condition")
    ctx.sig("lookalike", tuple(type(x).__name__ for x in objs), len(name))


def near(rng, x):
    """A text other than x, but not by much."""
    tries = [x + " ", " " + x, x.swapcase(), x.strip(), x[:-1], x[1:], x + x[-1:], x[::-1], "",
             x + "\u200b", x.replace("a", "\u0430"), x + "0", x.casefold(), x + "\n", NEW]
    return rng.choice([y for y in tries if y != x])


def nudged(rng, x):
    """A number other than x, but not by much."""
    if isinstance(x, int):
        return rng.choice([x + 1, x - 1] + [-x] * bool(x))
    tries = [math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x + 1, x - 1, -x, x / 2,
             x * 2, 0.0]
    return rng.choice([y for y in tries if y != x and math.isfinite(y)])


def leaves(d, path=(), key=None):
    """Every place in a written form: (path, key in the nearest dictionary, value)."""
    if path:
        yield path, key, d
    if isinstance(d, dict):
        for k in d:
            if k != "type":
                yield from leaves(d[k], path + (k,), key if "type" not in d else k)
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from leaves(v, path + (i,), key)


def rewritten(ctx, d, w):
    """d with one difference, its description, or (None, None)."""
    rng = ctx.rng
    new = copy.deepcopy(d)
    places = list(leaves(new))
    if not places:
        return None, None
    path, key, old = rng.choice(places)
    where = new
    for step in path[:-1]:
        where = where[step]
    last = path[-1]
    top = isinstance(where, dict) and "type" in where
    if old is None:
        made = {"notes": w.text, "description": w.text, "value": w.value, "source": w.source,
                "template": w.link, "spec": w.link, "process": w.link, "material": w.link,
                "performed_by": w.text, "performed_date": w.text}.get(key)
        if made is None and (key or "").endswith(("_fraction", "_quantity")):
            def made():
                return {"type": "nominal_real", "nominal": 0.5,
                        "units": "kilogram" if key == "absolute_quantity" else "dimensionless"}
        if made is None:
            return None, None
        where[last] = made()
    elif isinstance(old, str):
        if key in ("origin", "sample_type"):
            enum = Origin if key == "origin" else SampleType
            where[last] = rng.choice([x.value for x in enum if x.value != old])
        elif key in ("units", "default_units"):
            where[last] = rng.choice([u for u in c05.UNITS if u != old])
        elif key == "scope":
            where[last] = old + NEW
        else:
            where[last] = near(rng, old)
    elif isinstance(old, (int, float)):
        where[last] = nudged(rng, old)
    elif isinstance(old, list) and old and key not in ("categories", "components"):
        how = rng.choice(["drop", "double", "empty"])
        if how == "drop":
            old.pop(rng.randrange(len(old)))
        elif how == "double":
            old.append(copy.deepcopy(rng.choice(old)))
        else:
            where[last] = []
    elif isinstance(old, dict) and "type" in old and top and \
            key not in ("bounds", "property"):
        where[last] = None
    elif isinstance(old, dict) and "type" not in old and old:
        old.pop(rng.choice(list(old)))
    else:
        return None, None
    return new, f"{key} ({len(path)})"


def canon(d, top=True):
    """Content of a written form; the order of an entity's lists does not count here."""
    if isinstance(d, dict):
        return ("map",) + tuple(sorted((k, ("set",) + tuple(sorted(set(v)))
                                        if k in ("categories", "components")
                                        else canon(v, top and isinstance(v, list)))
                                       for k, v in d.items()))
    if isinstance(d, list):
        parts = [repr(canon(x, False)) for x in d]
        return ("seq",) + tuple(sorted(parts) if top else parts)
    return repr(d + 0.0) if isinstance(d, (int, float)) and not isinstance(d, bool) else repr(d)


def written_case(ctx):
    """Two objects built from the same or nearly the same written form."""
    rng = ctx.rng
    w = c05.Writer(rng)
    kind = rng.choice(["value", "bounds", "attribute", "pac", "file", "source"] + ["entity"] * 12)
    d = getattr(w, kind)()
    if kind == "entity" and rng.random() < 0.7:  # Few fields, so that each is told apart alone
        keep = rng.sample(list(d), rng.randint(1, 4))
        plain = DictSerializable.build({k: v for k, v in d.items()
                                        if k in ("type", "name", "bounds", "labels")}).dump()
        d = {k: v if k in keep or k in ("type", "name", "bounds", "labels") else plain.get(k)
             for k, v in d.items()}
    a, b = DictSerializable.build(copy.deepcopy(d)), DictSerializable.build(copy.deepcopy(d))
    ctx.check(eq(ctx, a, b, "two objects of one written form"),
              lambda: f"two objects built from {short(d, 600)} are unequal")
    ctx.ev("written_equal")
    for _ in range(6):
        new, what = rewritten(ctx, d, w)
        if new is None or canon(new) == canon(d):
            continue
        if d.get("uids") and any(isinstance(v, list) and bool(v) != bool(d[k])
                                 for k, v in new.items()):
            continue  # Could be the same object, flattened
        if d.get("type") == "ingredient_run" and what.split()[0] in ("name", "labels"):
            continue
        try:
            c = DictSerializable.build(copy.deepcopy(new))
        except (ValueError, TypeError, AssertionError):
            ctx.ev("written_refused")
            continue
        ctx.check(not eq(ctx, a, c, f"{what} differs"),
                  lambda: f"objects built from {short(d, 600)} and {short(new, 600)} are equal")
        ctx.ev("written_unequal")
        ctx.sig("written", d["type"], what)


def flattened_case(ctx):
    """With uids in common an empty list may stand for a longer one, but nothing else differs."""
    rng = ctx.rng
    seed = rng.random()
    kind = rng.choice([ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, IngredientSpec,
                       IngredientRun, MeasurementSpec, MeasurementRun])

    def make():
        r = random.Random(seed)
        kw = {"uids": {"id": "1", "x": "2"}, "tags": ["a", "b"], "notes": gen.opt(r, lambda: "n"),
              "file_links": [FileLink("f", "u")]}
        if kind not in (IngredientRun,):
            kw["name"] = "n"
        if kind in (ProcessSpec, ProcessRun, MeasurementSpec, MeasurementRun):
            kw["conditions"] = [Condition("c")]
            kw["parameters"] = [Parameter("p"), Parameter("q")]
        elif kind is MaterialSpec:
            kw["properties"] = [PropertyAndConditions(Property("p"), [])]
        if kind is IngredientSpec:
            kw["labels"] = ["l", "m"]
        if kind in (ProcessRun, MaterialRun, IngredientRun, MeasurementRun):
            kw["spec"] = LinkByUID("s", "1")
        return kind(**kw)

    a, b = make(), make()
    ctx.check(eq(ctx, a, b, "identical objects"), "objects built alike are unequal")
    lists = [f for f in ("tags", "file_links", "conditions", "parameters", "properties", "labels")
             if f in snap.FIELDS[snap.base_name(a)] and getattr(a, f)
             and not (kind is IngredientRun and f == "labels")]
    emptied = rng.choice(lists)
    setattr(b, emptied, [])
    other = rng.choice([f for f in lists if f != emptied] + ["notes", "uids", "spec"])
    if other == "spec":
        if not hasattr(a, "spec"):
            other = "notes"
        else:
            b.spec = LinkByUID("s", "2")
    if other == "notes":
        b.notes = NEW
    elif other == "uids":
        b.uids["id"] = "3"
    elif other in ("tags", "labels"):
        getattr(b, other)[rng.randrange(2)] = NEW
    elif other == "file_links":
        b.file_links[0] = FileLink("f", NEW)
    elif other == "properties":
        b.properties[0] = PropertyAndConditions(Property(NEW), [])
    elif other != "spec":
        lst = getattr(b, other)
        lst[-1] = type(lst[-1])(NEW)
    ctx.check(not eq(ctx, a, b, f"{other} differs, {emptied} empty"),
              lambda: f"two {kind.__name__} differing in {other} are equal once one of them has "
                      f"no {emptied}")
    ctx.ev("flattened")
    ctx.sig("flattened", kind.__name__, emptied, other)


def crossed_case(ctx):
    """Runs that use the same specs, in another pairing."""
    rng = ctx.rng
    n = rng.randint(2, 4)
    field = rng.choice(["uids", "notes", "tags", "mass_fraction", "material"])
    makers = {"uids": lambda i: {"uids": {"id": str(i)}}, "notes": lambda i: {"notes": str(i)},
              "tags": lambda i: {"tags": [str(i)]},
              "mass_fraction": lambda i: {"mass_fraction": NominalReal(i / 10, "")},
              "material": lambda i: {"material": MaterialSpec("m", tags=[str(i)])}}

    def make(pairing, order, run_order):
        top = ProcessSpec("p")
        specs = {i: None for i in range(n)}
        for i in order:
            specs[i] = IngredientSpec("i", process=top, **makers[field](i))
        run = ProcessRun("p", spec=top)
        for i in run_order:
            IngredientRun(process=run, spec=specs[pairing[i]], tags=[f"run {i}"])
        return run

    def shuffled():
        return rng.sample(range(n), n)

    same = list(range(n))
    a, b = make(same, shuffled(), shuffled()), make(same, shuffled(), shuffled())
    ctx.check(eq(ctx, a, b, "the same pairing"),
              lambda: f"processes with the same ingredients in another order are unequal ({field})")
    pairing = shuffled()
    if pairing == same:
        pairing = same[1:] + same[:1]
    c = make(pairing, shuffled(), shuffled())
    ctx.check(not eq(ctx, a, c, "crossed"),
              lambda: f"processes whose ingredients follow each other's specs ({pairing}, differing "
                      f"in {field}) are equal")
    ctx.ev("crossed")
    ctx.sig("crossed", n, field, tuple(pairing))


def case(ctx):
    """One random comparison."""
    if ctx.rng.random() < 0.08:
        return crossed_case(ctx)
    if ctx.rng.random() < 0.05:
        return flattened_case(ctx)
    if ctx.rng.random() < 0.3:
        return written_case(ctx)
    if ctx.rng.random() < 0.12:
        return lookalike_case(ctx)
    if ctx.rng.random() < 0.12:
        return cyclic_case(ctx)
    r = ctx.rng.random()
    if r < 0.55:
        twin_case(ctx)
    elif r < 0.7:
        foreign_case(ctx)
    elif r < 0.85:
        parts_case(ctx)
    else:
        duplicate_case(ctx)


def chain(n, last):
    """A chain of n processes; the first material is called last."""
    out = None
    for i in range(n):
        p = ProcessRun(f"p{i}", tags=["t"])
        if out is not None:
            IngredientRun(process=p, material=out, notes=str(i))
        out = MaterialRun(last if i == 0 else f"m{i}", process=p)
    return out


def deep(ctx):
    """Histories that differ only in the first of many steps."""
    for n in (1, 2, 5, 20, 60):
        a, b, c = chain(n, "x"), chain(n, "x"), chain(n, "y")
        ctx.check((a == b) is True and (a != b) is False, f"equal chains of {n} differ")
        ctx.check((a == c) is False and (c == a) is False and (a != c) is True,
                  f"chains of {n} steps with another start are equal")
        ctx.check((a in [c, b]) is True and (a in [c]) is False, "in a list")
        ctx.ev("deep")
    a, b = chain(1500, "x"), chain(1500, "x")
    try:
        same = a == b
    except RecursionError:
        ctx.finding("deep-comparison", "comparing histories 1500 processes deep ends in "
                                       "RecursionError")
    else:
        ctx.check(same is True, "equal chains of 1500 steps differ")


REFS = {ProcessRun: lambda e: ([], list(e.ingredients)),
        MaterialRun: lambda e: ([e.process], list(e.measurements)),
        IngredientRun: lambda e: ([e.process, e.material], []),
        MeasurementRun: lambda e: ([e.material], [])}


def paired(these, those, same):
    """Whether each of these can have one of those for itself."""
    taken = {}

    def assign(i, tried):
        for j, y in enumerate(those):
            if (id(these[i]), id(y)) in same and j not in tried:
                tried.add(j)
                if j not in taken or assign(taken[j], tried):
                    taken[j] = i
                    return True
        return False
    return len(these) == len(those) and all(assign(i, set()) for i in range(len(these)))


def indistinguishable(everything):
    """Pairs that no walk along references tells apart: the largest such relation."""
    same = {(id(a), id(b)): (a, b) for a in everything for b in everything
            if type(a) is type(b) and a.notes == b.notes and a.tags == b.tags}
    changed = True
    while changed:
        changed = False
        for key, (a, b) in list(same.items()):
            (ra, la), (rb, lb) = REFS[type(a)](a), REFS[type(b)](b)
            if not (all(x is y or (x is not None and y is not None and (id(x), id(y)) in same)
                        for x, y in zip(ra, rb)) and paired(la, lb, same)):
                del same[key]
                changed = True
    return same


def ring(rng, n):
    """A history of look-alikes in which anything may be made from itself."""
    ps = [ProcessRun("p") for _ in range(n)]
    ms = [MaterialRun("m") for _ in range(n)]
    out = ps + ms
    for p, m in zip(ps, ms):
        if rng.random() < 0.85:
            m.process = p
    for _ in range(rng.randint(1, 2 * n)):
        out.append(IngredientRun(process=rng.choice(ps) if rng.random() < 0.95 else None,
                                 material=rng.choice(ms) if rng.random() < 0.9 else None))
    for _ in range(rng.randint(0, n)):
        out.append(MeasurementRun("x", material=rng.choice(ms)))
    for _ in range(rng.choice([0, 1, 1, 2])):
        e = rng.choice(out)
        if rng.random() < 0.5:
            e.notes = "y"
        else:
            e.tags = ["t"]
    return out


def cyclic_case(ctx):
    """Histories with cycles, made of look-alikes, against an independent decision.

    Larger ones could meet the recorded defect (see cyclic_lookalikes), which these cannot.
    """
    rng = ctx.rng
    everything = ring(rng, rng.choice([1, 2, 2]))
    if rng.random() < 0.5:
        everything += ring(rng, rng.choice([1, 2]))
    same = indistinguishable(everything)
    for a in everything:
        for b in everything:
            if type(a) is type(b):
                got, want = eq(ctx, a, b, "in cycles"), (id(a), id(b)) in same
                ctx.check(got is want, lambda: f"two {type(a).__name__} in a graph with cycles: "
                                               f"== is {got}, expected {want}")
                ctx.ev("cyclic_equal" if want and a is not b else "cyclic_unequal")
    ctx.sig("cyclic", tuple(type(e).__name__ for e in everything), len(same))


def cyclic_lookalikes(ctx):
    """Four processes in cycles, made of look-alikes, where provisional answers mislead."""
    ps = [ProcessRun("p") for _ in range(4)]
    ms = {4: MaterialRun("m", process=ps[0]), 6: MaterialRun("m", process=ps[2]),
          7: MaterialRun("m", process=ps[3])}
    ins = [IngredientRun(process=ps[p], material=ms.get(m)) for p, m in
           [(3, 4), (2, 7), (0, 6), (3, None), (2, 4), (0, 6), (1, 6), (1, 7)]]
    everything = ps + list(ms.values()) + ins
    same = indistinguishable(everything)
    for a in everything:
        for b in everything:
            if type(a) is type(b) and (a == b) is not ((id(a), id(b)) in same):
                ctx.check((id(a), id(b)) not in same, "indistinguishable objects are unequal")
                ctx.finding("cyclic-lookalikes", "two processes that use different materials of "
                            "a cyclic history made of look-alikes are equal")
    ctx.ev("cyclic_unequal")


FIXED = [("deep", deep), ("cyclic_lookalikes", cyclic_lookalikes)]
