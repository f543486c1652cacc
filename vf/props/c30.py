"""C30: deep copies are equal, complete, separate, and live by the rules of what they copy."""
import copy
import random
import sys

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.bounds import IntegerBounds
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, \
    MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec
from gemd.entity.template import ConditionTemplate, MaterialTemplate, MeasurementTemplate, \
    ParameterTemplate, ProcessTemplate, PropertyTemplate
from gemd.entity.value import NominalInteger, NominalReal
from gemd.json import GEMDJson

from vf import gen, snap
from vf.core import LOG, short

RULE = ("Random graphs and containers are copied with copy.deepcopy, at random validation levels "
        "and after random histories; the copy is compared with the original and with a twin that "
        "was made by the same steps; then the copy and the twin go through the same further "
        "steps, interleaved with steps on the original; signature: (kinds, steps).")
STEPS = ["name", "notes", "tags", "bad_tag", "uids", "attribute", "attributes", "slice", "remove",
         "template", "spec", "process", "material", "labels", "pair", "pairs", "sample_type",
         "quantity", "file_link", "value", "attribute_template", "origin", "bounds", "source",
         "allowed"]
REQUIRED = ["step:" + s for s in STEPS] + \
    ["copies", "containers", "parts", "history_before", "refused", "warned", "separate_checks",
     "twin_steps", "original_steps", "FATAL", "WARNING", "IGNORE", "copies_of_copies", "written",
     "cycles", "inconsistent_copied", "same_sharing"]
N = {"quick": 3000, "thorough": 60000}
ASSUMPTIONS = ["graphs that fit into the interpreter's recursion limit, which the check raises"]
SPECS = (ProcessSpec, MaterialSpec, MeasurementSpec)
RUNS = (ProcessRun, MaterialRun, MeasurementRun)
LISTS = {"conditions": (Condition, ConditionTemplate), "parameters": (Parameter, ParameterTemplate),
         "properties": (Property, PropertyTemplate)}
OF = {ProcessSpec: ProcessTemplate, MaterialSpec: MaterialTemplate,
      MeasurementSpec: MeasurementTemplate, ProcessRun: ProcessSpec, MaterialRun: MaterialSpec,
      MeasurementRun: MeasurementSpec, IngredientRun: IngredientSpec}


def of(entities, cls):
    """Those of the class."""
    return [e for e in entities if isinstance(e, cls)]


def pick(rng, pool, none=0.15):
    """One of the pool or None."""
    return None if not pool or rng.random() < none else rng.choice(pool)


def attribute(rng, entities, cls, template):
    """An attribute, often of a template that the entity's template restricts."""
    pool = of(entities, template)
    t = pick(rng, pool, 0.1)
    v = gen.value(rng, gen.kind_of(t.bounds)) if t is not None else gen.value(rng)
    return cls(f"new {rng.randrange(99)}", value=v, template=t)


def held(rng, e):
    """An attribute list of the entity: (field, class, template class)."""
    fields = [f for f in LISTS if hasattr(e, f)]
    if not fields:
        return None
    f = rng.choice(fields)
    return (f,) + LISTS[f]


def new_one(rng, entities, e, cls, template):
    """An attribute as the lists of e take it."""
    x = attribute(rng, entities, cls, template)
    if isinstance(e, MaterialSpec):
        return PropertyAndConditions(x, [attribute(rng, entities, Condition, ConditionTemplate)])
    return x


def step(kind, seed, entities):
    """Do one step to the entities; every choice comes from the seed."""
    rng = random.Random(seed)
    objects = of(entities, RUNS + SPECS + (IngredientRun, IngredientSpec))
    holders = [e for e in objects if any(hasattr(e, f) for f in LISTS)]
    one = rng.choice(entities)
    obj = pick(rng, objects, 0)
    # Those whose templates restrict something come first
    strict = [h for h in holders if isinstance(getattr(h, "template", None), BaseEntity)]
    holder = pick(rng, strict if strict and rng.random() < 0.7 else holders, 0)
    templates = of(entities, (ProcessTemplate, MaterialTemplate, MeasurementTemplate))
    if kind == "name":
        if not isinstance(one, IngredientRun):
            one.name = gen.text(rng)
    elif kind == "notes":
        if obj is not None:
            obj.notes = rng.choice([None, gen.text(rng)])
    elif kind == "tags":
        one.tags.append(gen.text(rng))
    elif kind == "bad_tag":
        rng.choice([one.tags.append, one.tags.extend, lambda x: one.tags.insert(0, x),
                    lambda x: one.tags.__setitem__(slice(0, 0), [x])])(rng.choice([[1], 1, [None]]))
    elif kind == "uids":
        k = rng.choice(["Auto", "AUTO", "id", "new"])
        rng.choice([lambda: one.add_uid(k, f"u{rng.random()}"), lambda: one.uids.pop(k, None),
                    lambda: one.uids.update({k: f"u{rng.random()}"}),
                    lambda: one.uids.__delitem__(k.swapcase())])()
    elif kind in ("attribute", "attributes", "slice", "remove") and holder is not None:
        f, cls, template = held(rng, holder)
        target = getattr(holder, f)
        new = [new_one(rng, entities, holder, cls, template) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.1:
            new = [rng.choice([gen.value(rng), "text", Condition("c"), Property("p")])]
        if kind == "attribute":
            rng.choice([target.append, lambda x: target.insert(0, x)])(new[0])
        elif kind == "attributes":
            if rng.random() < 0.5:
                target.extend(new)
            else:
                setattr(holder, f, new)
        elif kind == "slice":
            target[:rng.randint(0, 2)] = new
        elif target:
            target.pop(rng.randrange(len(target)))
    elif kind == "template":
        x = pick(rng, of(objects, SPECS), 0)
        if x is not None:
            x.template = pick(rng, of(templates, OF[type(x)]) if rng.random() < 0.95
                              else templates)
    elif kind == "spec":
        x = pick(rng, of(objects, RUNS + (IngredientRun,)), 0)
        if x is not None:
            x.spec = pick(rng, of(objects, OF[type(x)]) if rng.random() < 0.95 else objects)
    elif kind == "process":
        x = pick(rng, of(objects, (MaterialRun, MaterialSpec, IngredientRun, IngredientSpec)), 0)
        if x is not None:
            runs = isinstance(x, (MaterialRun, IngredientRun))
            x.process = pick(rng, of(objects, ProcessRun if runs else ProcessSpec))
    elif kind == "material":
        x = pick(rng, of(objects, (IngredientRun, IngredientSpec, MeasurementRun)), 0)
        if x is not None:
            spec = isinstance(x, IngredientSpec)
            x.material = pick(rng, of(objects, MaterialSpec if spec else MaterialRun))
    elif kind == "labels":
        x = pick(rng, of(objects, IngredientSpec), 0)
        if x is not None:
            if rng.random() < 0.5:
                x.labels.append(rng.choice([gen.text(rng), 1]))
            else:
                x.labels = [gen.text(rng)]
    elif kind in ("pair", "pairs"):
        t = pick(rng, templates, 0)
        if t is not None:
            f = rng.choice([f for f in LISTS if hasattr(t, f)])
            pool = of(entities, LISTS[f][1]) if rng.random() < 0.9 else templates
            new = []
            for _ in range(rng.randint(1, 2)):
                x = pick(rng, pool, 0)
                if x is not None and hasattr(x, "bounds"):
                    b = rng.choice([None, gen.sub_bounds(rng, x.bounds), gen.bounds(rng)])
                    x = rng.choice([x, [x, b], (x, b)])
                new.append(x)
            if kind == "pair":
                getattr(t, f).append(new[0])
            elif rng.random() < 0.5:
                getattr(t, f).extend(new)
            else:
                setattr(t, f, new)
    elif kind == "sample_type":
        x = pick(rng, of(objects, MaterialRun), 0)
        if x is not None:
            x.sample_type = rng.choice(["virtual", " Experimental", "unknown", "nonsense", None])
    elif kind == "quantity":
        x = pick(rng, of(objects, (IngredientRun, IngredientSpec)), 0)
        if x is not None:
            setattr(x, rng.choice(["mass_fraction", "absolute_quantity"]),
                    rng.choice([None, gen.continuous(rng), "text"]))
    elif kind == "file_link":
        if obj is not None:
            obj.file_links.append(rng.choice([gen.file_link(rng), "text"]))
    elif kind in ("value", "attribute_template", "origin"):
        attributes = [a for e in holders for f in LISTS for a in getattr(e, f, [])]
        attributes = [getattr(a, "property", a) for a in attributes]
        a = pick(rng, attributes, 0)
        if a is not None and kind == "value":
            a.value = rng.choice([None, gen.value(rng), "text"])
        elif a is not None and kind == "origin":
            a.origin = rng.choice(["measured", "Predicted ", "nonsense"])
        elif a is not None:
            a.template = pick(rng, of(entities, (ConditionTemplate, ParameterTemplate,
                                                 PropertyTemplate)))
    elif kind == "bounds":
        t = pick(rng, [t for t in entities if hasattr(t, "bounds")], 0)
        if t is not None:
            t.bounds = rng.choice([gen.bounds(rng), gen.bounds(rng), "text"])
    elif kind == "source":
        x = pick(rng, of(objects, (ProcessRun, MeasurementRun)), 0)
        if x is not None:
            x.source = rng.choice([None, "text"])
    elif kind == "allowed":
        x = pick(rng, of(templates, ProcessTemplate), 0)
        if x is not None:
            x.allowed_labels = rng.choice([None, [gen.text(rng)], [1]])


def do(kind, seed, entities, level):
    """What comes of a step: an error's type or None, and the number of warnings."""
    LOG.records.clear()
    error = None
    with validation_level(level):
        try:
            step(kind, seed, entities)
        except Exception as e:
            error = type(e)
    n = len(LOG.records)
    LOG.records.clear()
    return error, n


def deep(ctx, x, level):
    """A deep copy of x, which gives neither warnings nor errors."""
    LOG.records.clear()
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(max(limit, 40000))
    try:
        with validation_level(level):
            out = copy.deepcopy(x)
    except Exception as e:
        ctx.check(False, f"a deep copy at {level!r} failed with {type(e).__name__}: {short(str(e))}")
    finally:
        sys.setrecursionlimit(limit)
    ctx.check(not LOG.records, lambda: f"a deep copy at {level!r} warned: {short(LOG.records)}")
    ctx.ev("copies")
    ctx.ev(level.name)
    return out


def make(seed, before):
    """A graph, the thing to copy, and what came of the steps before; all from the seed."""
    rng = random.Random(seed)
    g = gen.Graph(rng, size=rng.choice([1, 1, 2, 2, 3]), uid=rng.choice(["mixed", "all"]),
                  weird=rng.random() < 0.5)
    outcomes = [do(*b[:2], g.everything, b[2]) for b in before]
    doubles = versions(rng, g) if rng.random() < 0.4 else []
    if rng.random() < 0.5:
        what = list(g.everything)
    elif rng.random() < 0.6:
        what = g.root()
    else:
        what = g.container()
    if doubles:
        what = rng.choice([[what, *doubles], (*doubles, what), {"a": doubles, "b": [what]}])
    return g, what, outcomes


def versions(rng, g):
    """Other versions of objects, with the same uids; equal parts, and parts in two places."""
    out = []
    for e in rng.sample(g.everything, min(3, len(g.everything))):
        if isinstance(e, RUNS + SPECS + (ProcessTemplate, MaterialTemplate, MeasurementTemplate)):
            out.append(type(e)(rng.choice([e.name, "version"]), uids=dict(e.uids), tags=["new"]))
            if isinstance(e, MaterialRun):
                out.append(MeasurementRun("of the version", material=out[-1]))
    for e in g.everything:
        if isinstance(e, RUNS) and rng.random() < 0.5:
            link = FileLink("same", "same")
            e.file_links.extend([FileLink("same", "same"), link, FileLink("same", "same"), link])
            a, b = Condition("same", value=NominalReal(1, "")), \
                Condition("same", value=NominalReal(1, ""))
            if hasattr(e, "conditions"):
                e.conditions.extend([a, b])
                out.append([a])
            out.append([LinkByUID("same", "same"), LinkByUID("same", "same")])
    return out


def compare(ctx, x, y, what):
    """Check that y is what x is."""
    bad = snap.isomorphic(x, y, tuples_as_lists=False, ordered_soft=True)
    ctx.check(bad is None, lambda: f"{what}: {bad}")


def separate(ctx, x, y, alike=False):
    """Check that x and y share nothing that can change."""
    mine, yours = snap.mutables(x), snap.mutables(y)
    both = [k for k in mine if k in yours]
    ctx.check(not both, lambda: f"the copy shares {yours[both[0]][0]} with the original: "
                                f"{short(mine[both[0]][1])}")
    if alike:
        # The same parts in the same places: what was two is two, what was one is one
        places = [[p for p, _ in m.values()] for m in (mine, yours)]
        ctx.check(places[0] == places[1], lambda: "the parts of the copy are shared among one "
                  f"another otherwise: {short(sorted(set(places[0]) ^ set(places[1])))}")
        ctx.ev("same_sharing")
    ctx.ev("separate_checks")


def case(ctx):
    rng = ctx.rng
    levels = list(WarningLevel)
    seed = rng.random()
    plan = lambda n: [(rng.choice(STEPS), rng.random(), rng.choice(levels))  # noqa: E731
                      for _ in range(n)]
    before = plan(rng.choice([0, 0, 2, 6]))
    g, original, done = make(seed, before)
    _, twin, again = make(seed, before)
    ctx.check(done == again, lambda: f"the same steps gave {done} and {again}")
    if before:
        ctx.ev("history_before")
    frozen = snap.freeze([original])
    shell = snap.exact(original)
    level = rng.choice(levels)
    one = deep(ctx, original, level)
    if rng.random() < 0.2:  # a copy of a copy
        one = deep(ctx, one, rng.choice(levels))
        ctx.ev("copies_of_copies")
    ctx.check(snap.exact(original) == shell and snap.freeze([original]) == frozen,
              "a deep copy changed the original")
    compare(ctx, original, one, "the copy")
    separate(ctx, original, one, alike=True)
    # What it compares equal to, nan aside, is itself
    if isinstance(original, DictSerializable) and original == twin:
        ctx.check(one == original and original == one, "the copy does not equal the original")
    if not isinstance(original, DictSerializable):
        ctx.ev("containers")
    mine, copied, third = (snap.reachable(x) for x in (original, one, twin))
    ctx.ev("parts", len(copied))
    if any(isinstance(e, BaseEntity) and snap.soft_fields(e) for e in copied):
        ctx.ev("cycles")
    if not mine:
        return
    stale = [a for e in mine for f in LISTS for a in getattr(e, f, [])
             if isinstance(e, RUNS + SPECS)]
    if stale and level == WarningLevel.FATAL:
        ctx.ev("inconsistent_copied")
    kinds = []
    for kind, s, level in plan(rng.choice([4, 8])):
        kinds.append(kind)
        if rng.random() < 0.3:
            there = snap.freeze([one])
            got = do(kind, s, mine, level)
            ctx.check(snap.freeze([one]) == there,
                      lambda: f"{kind} of the original changed the copy: "
                              f"{snap.diff_state(there, snap.freeze([one]))}")
            ctx.ev("original_steps")
            continue
        there = snap.freeze([original])
        got = do(kind, s, copied, level)
        want = do(kind, s, third, level)
        ctx.log(kind, level.name, got)
        ctx.check(got == want, lambda: f"{kind} at {level!r} of a copy ended in {got} (error, "
                                       f"warnings), of an object made alike {want}")
        ctx.check(snap.freeze([original]) == there,
                  lambda: f"{kind} of the copy changed the original: "
                          f"{snap.diff_state(there, snap.freeze([original]))}")
        ctx.ev("twin_steps")
        ctx.ev("step:" + kind)
        ctx.ev("refused", got[0] is not None)
        ctx.ev("warned", got[1] > 0)
    compare(ctx, twin, one, "the copy and an object made alike, after " + ", ".join(kinds))
    separate(ctx, original, one)
    if rng.random() < 0.3:  # and it is written alike
        client = GEMDJson()
        for e in snap.reachable(one) + snap.reachable(twin):
            if not e.uids:
                e.add_uid("late", str(id(e)))
        if len(copied) == len(third):
            texts = []
            for x in (one, twin):
                t = client.dumps(x)
                for i, e in enumerate(snap.reachable(x)):
                    t = t.replace(f'"{id(e)}"', f'"#{i}"')
                texts.append(t)
            ctx.ev("written")
            ctx.check(sorted(texts[0]) == sorted(texts[1]),
                      "the copy and an object made alike are written differently")
    ctx.sig(tuple(sorted({type(e).__name__ for e in copied})), tuple(kinds))
    ctx.sample({"kinds": kinds, "entities": len(copied)})


def inconsistent(ctx):
    """An object holds what its template does not allow; its copy is made, and goes by its own."""
    t = ConditionTemplate("t", bounds=IntegerBounds(0, 100))
    for make_object in (lambda x: ProcessRun("p", spec=ProcessSpec("s", template=x)),
                        lambda x: ProcessSpec("s", template=x),
                        lambda x: MeasurementRun("m", spec=MeasurementSpec("s", template=x))):
        kind = MeasurementTemplate if isinstance(make_object(None), MeasurementRun) \
            else ProcessTemplate
        x = make_object(kind("pt", conditions=[(t, IntegerBounds(0, 10))]))
        bad = lambda: Condition("c", value=NominalInteger(50), template=t)  # noqa: E731
        with validation_level(WarningLevel.IGNORE):
            x.conditions.append(bad())
        for level in WarningLevel:
            one = deep(ctx, x, level)
            compare(ctx, x, one, "the copy")
            separate(ctx, x, one, alike=True)
            (x if isinstance(x, SPECS) else x.spec).template = None
            with validation_level(WarningLevel.FATAL):
                ctx.raises(ValueError, lambda: one.conditions.append(bad()),
                           "a value that the template of the copy does not allow")
                x.conditions.append(bad())
            (x if isinstance(x, SPECS) else x.spec).template = \
                kind("pt", conditions=[(t, IntegerBounds(0, 10))])
            (one if isinstance(x, SPECS) else one.spec).template = None
            with validation_level(WarningLevel.FATAL):
                one.conditions.append(bad())
                ctx.raises(ValueError, lambda: x.conditions.append(bad()),
                           "a value that the template of the original does not allow")


FIXED = [("inconsistent objects", inconsistent)]
