"""C32: what was asked before never shows in later answers."""
import inspect
import json
import os
import pickle
import random
import re

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds.base_bounds import BaseBounds
from gemd.entity.bounds import CategoricalBounds, CompositionBounds, IntegerBounds, \
    RealBounds
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import IngredientRun, IngredientSpec, MaterialSpec, MeasurementRun, \
    ProcessRun
from gemd.entity.source import PerformedSource
from gemd.entity.template import ConditionTemplate, MaterialTemplate, MeasurementTemplate, \
    ParameterTemplate, ProcessTemplate
from gemd.entity.util import complete_material_history, make_instance
from gemd.entity.value.continuous_value import ContinuousValue
from gemd.entity.value import DiscreteCategorical, EmpiricalFormula, InChI, \
    NominalCategorical, NominalComposition, NominalInteger, NominalReal, NormalReal, Smiles, \
    UniformInteger, UniformReal
from gemd.entity.value.base_value import BaseValue
from gemd.json import GEMDJson
from gemd.util import flatten, make_index, recursive_flatmap, substitute_links, \
    substitute_objects
from gemd.util.impl import writable_sort_order
from gemd.units import convert_units

from vf import gen, snap
from vf.core import LOG, short
from vf.props import c30

RULE = ("Two graphs that start alike go through random changes, deep ones included; one process "
        "asks all kinds of questions between the changes, another process makes the changes "
        "without asking; what the changes end in and the answers at the end are compared; "
        "signature: (changes, questions).")
QUESTIONS = ["fields", "text", "dump", "equal", "unequal", "twin", "dependencies", "template",
             "views", "contains", "bounds", "validate", "dumps", "thin", "flatten", "index",
             "to_link", "links", "objects", "flatmap", "order", "labels", "history", "instance",
             "check", "parts_equal", "attribute_dict", "value_bounds", "hash", "convert",
             "allowed", "raw", "copy"]
EDITS = ["value", "bounds_inside", "pair_inside", "attribute_name", "quantity", "link", "file",
         "pac", "uid", "text", "source", "list_inside", "attribute_template", "swap", "fit"]
FOCUS = [  # changes that matter to questions
    (["fit", "fit", "value", "pair_inside", "bounds_inside", "attribute_template"],
     ["validate", "validate", "value_bounds", "value_bounds", "check", "contains", "bounds"]),
    (["uid", "uid", "link"],
     ["to_link", "links", "objects", "index", "hash", "thin", "dumps", "twin"]),
    (["attribute_name", "text", "pac", "file", "source", "swap", "list_inside", "value"],
     ["fields", "dump", "text", "equal", "twin", "views", "raw", "copy", "attribute_dict",
      "parts_equal"]),
    (["attribute_template", "pac", "swap", "list_inside"],
     ["dependencies", "flatten", "flatmap", "history", "order", "template"])]
REQUIRED = ["question:" + q for q in QUESTIONS] + ["edit:" + e for e in EDITS] + \
    ["step:" + s for s in c30.STEPS] + \
    ["asked_between", "asked_at_end", "answers_changed", "errors_alike", "quiet_processes", "as_fresh",
     "verdict_as_fresh"]
TEMPLATES = (ProcessTemplate, MaterialTemplate, MeasurementTemplate)
N = {"quick": 1600, "thorough": 30000}
ASSUMPTIONS = ["the other process is forked from the one that asks before it asks, so that what "
               "earlier cases left behind is in both"]


# ---- changes ---------------------------------------------------------------------------------
def held(entities):
    """All that the entities hold, in a fixed order."""
    return [p for e in entities for p in snap.parts(e)]


def alike(rng, formula):
    """A formula of the same length and shape."""
    return re.sub("[A-Z][a-z]*", lambda m: rng.choice(
        ["C", "H", "O", "K"] if len(m.group()) == 1 else ["Na", "Cl", "Fe"]), formula or "NaCl")


def edit_value(rng, v):
    """Change a value in place."""
    if isinstance(v, NominalReal):
        v.nominal = float(gen.number(rng))
    elif isinstance(v, NormalReal):
        v.mean = float(gen.number(rng))
        v.std = float(abs(gen.number(rng)))
    elif isinstance(v, (UniformReal, UniformInteger)):
        low, high = sorted([gen.integer(rng), gen.integer(rng)])
        cls = float if isinstance(v, UniformReal) else int
        v.lower_bound = cls(min(low, v.upper_bound))
        v.upper_bound = cls(max(high, v.lower_bound))
    elif isinstance(v, NominalInteger):
        v.nominal = gen.integer(rng)
    elif isinstance(v, NominalCategorical):
        v.category = rng.choice(gen.CATEGORIES)
    elif isinstance(v, DiscreteCategorical):
        if v.probabilities and rng.random() < 0.5:
            k = sorted(v.probabilities)[0]
            v.probabilities[rng.choice(gen.CATEGORIES)] = v.probabilities.pop(k)
        else:
            v.probabilities = gen.probabilities(rng)
    elif isinstance(v, NominalComposition):
        if v.quantities and rng.random() < 0.4:
            v.quantities.pop(sorted(v.quantities)[0])
        else:
            v.quantities[rng.choice(gen.COMPONENTS)] = 0.5
    elif isinstance(v, EmpiricalFormula):
        v.formula = alike(rng, v.formula) if rng.random() < 0.6 else gen.formula(rng)
    elif isinstance(v, Smiles):
        v.smiles = rng.choice(["C", "CC", None])
    elif isinstance(v, InChI):
        v.inchi = rng.choice(["InChI=1S/CH4/h1H4", None, "InChI=1S/C2H6/c1-2/h1-2H3"])
    if isinstance(v, ContinuousValue) and rng.random() < 0.3:
        v.units = rng.choice(gen.UNITS)


def fit(rng, v, b):
    """Move the value to an end of the bounds, or past it."""
    if isinstance(b, (RealBounds, IntegerBounds)):
        end = rng.choice([b.lower_bound, b.upper_bound, b.upper_bound + 1, b.lower_bound - 1])
        end = float(end) if isinstance(v, ContinuousValue) else int(end)
        for f in ("nominal", "mean"):
            if hasattr(v, f):
                setattr(v, f, end)
        if isinstance(v, (UniformReal, UniformInteger)):
            if end >= v.lower_bound:
                v.upper_bound = end
            else:
                v.lower_bound = end
    elif isinstance(b, CategoricalBounds):
        if isinstance(v, NominalCategorical):
            v.category = rng.choice(sorted(b.categories) + ["other"])
        elif isinstance(v, DiscreteCategorical):
            v.probabilities = {rng.choice(sorted(b.categories) + ["other"]): 1}
    elif isinstance(b, CompositionBounds):
        if isinstance(v, NominalComposition):
            v.quantities = {c: 1 for c in [*sorted(b.components), "other"][-2:]}
        elif isinstance(v, EmpiricalFormula):
            v.formula = alike(rng, v.formula)


def edit_bounds(rng, b):
    """Change bounds in place."""
    if isinstance(b, RealBounds):
        rng.choice([lambda: setattr(b, "upper_bound", b.upper_bound + abs(gen.number(rng))),
                    lambda: setattr(b, "lower_bound", b.upper_bound),
                    lambda: setattr(b, "lower_bound", b.lower_bound - 10),
                    lambda: setattr(b, "default_units", rng.choice(gen.UNITS))])()
    elif isinstance(b, IntegerBounds):
        rng.choice([lambda: setattr(b, "upper_bound", b.upper_bound + 7),
                    lambda: setattr(b, "lower_bound", b.upper_bound),
                    lambda: setattr(b, "upper_bound", b.lower_bound)])()
    elif isinstance(b, (CategoricalBounds, CompositionBounds)):
        f = "categories" if isinstance(b, CategoricalBounds) else "components"
        pool = gen.CATEGORIES if isinstance(b, CategoricalBounds) else gen.COMPONENTS
        rng.choice([lambda: setattr(b, f, rng.sample(pool, rng.randint(0, 4))),
                    lambda: getattr(b, f).add(rng.choice(pool)),
                    lambda: getattr(b, f).discard(rng.choice(pool)),
                    lambda: swap_one(rng, getattr(b, f), pool)])()


def swap_one(rng, x, pool):
    """As many as before, but others."""
    if x:
        x.discard(rng.choice(sorted(x)))
    x.add(rng.choice(sorted(set(pool) - x)))


def edit(kind, seed, entities):
    """Change something deep inside; every choice comes from the seed."""
    rng = random.Random(seed)
    parts = held(entities)
    one = rng.choice(entities)
    of = lambda cls: c30.pick(rng, [p for p in parts if isinstance(p, cls)], 0)  # noqa: E731
    if kind == "value":
        edit_value(rng, of(BaseValue))
    elif kind == "fit":
        pairs = [(a, b) for a in parts if isinstance(a, (Property, Condition, Parameter))
                 and isinstance(a.template, BaseEntity)
                 for b in [a.template.bounds] + [p[1] for e in entities for f in c30.LISTS
                                                 for p in getattr(e, f, [])
                                                 if isinstance(p, list) and p[0] is a.template]]
        a, b = c30.pick(rng, pairs, 0) or (None, None)
        if a is not None:
            fit(rng, a.value, b)
    elif kind == "bounds_inside":
        t = c30.pick(rng, [e for e in entities if hasattr(e, "bounds")], 0)
        if t is not None:
            edit_bounds(rng, t.bounds)
    elif kind == "pair_inside":
        pairs = [p for e in entities for f in c30.LISTS for p in getattr(e, f, [])
                 if isinstance(p, list) and isinstance(p[1], BaseBounds)]
        pair = c30.pick(rng, pairs, 0)
        if pair is not None:
            if rng.random() < 0.6:
                edit_bounds(rng, pair[1])
            else:
                pair[1] = rng.choice([None, gen.bounds(rng)])
    elif kind == "attribute_name":
        a = of((Property, Condition))
        if a is not None:
            rng.choice([lambda: setattr(a, "name", gen.text(rng)),
                        lambda: setattr(a, "notes", gen.text(rng))])()
    elif kind == "quantity":
        i = c30.pick(rng, c30.of(entities, (IngredientRun, IngredientSpec)), 0)
        if i is not None and i.absolute_quantity is not None:
            edit_value(rng, i.absolute_quantity)
    elif kind == "link":
        k = of(LinkByUID)
        if k is not None:
            k.id = f"edited {rng.randrange(5)}"
    elif kind == "file":
        f = of(FileLink)
        if f is not None:
            setattr(f, rng.choice(["url", "filename"]), gen.text(rng))
    elif kind == "pac":
        p = of(PropertyAndConditions)
        if p is not None:
            rng.choice([lambda: setattr(p, "property", c30.attribute(
                rng, entities, Property, c30.PropertyTemplate)),
                lambda: setattr(p.property, "origin", rng.choice(["measured", "computed"])),
                lambda: setattr(p.property, "value", gen.value(rng)),
                lambda: p.conditions.append(Condition("more")),
                lambda: p.conditions.clear()])()
    elif kind == "uid":
        k = rng.choice(sorted(one.uids)) if one.uids else "new"
        rng.choice([lambda: one.uids.__setitem__(k, f"edited {rng.randrange(9)}"),
                    lambda: setattr(one, "uids", {"new": f"edited {seed}"}),
                    lambda: one.add_uid("more", f"{seed}")])()
    elif kind == "text":
        f = rng.choice([f for f in ("description", "notes", "name") if hasattr(one, f)])
        setattr(one, f, gen.text(rng))
    elif kind == "source":
        x = c30.pick(rng, c30.of(entities, (ProcessRun, MeasurementRun)), 0)
        if x is not None and x.source is not None and rng.random() < 0.6:
            x.source.performed_by = gen.text(rng)
        elif x is not None:
            x.source = PerformedSource(gen.text(rng), "2020-01-01")
    elif kind == "list_inside":
        f = rng.choice([f for f in ("tags", "file_links", "conditions", "parameters", "properties")
                        if hasattr(one, f)])
        x = getattr(one, f)
        rng.choice([x.reverse, x.clear, lambda: x.pop(), lambda: x.append(x[0]),
                    lambda: x.__delitem__(slice(0, 1))])()
    elif kind == "attribute_template":
        a = of((Property, Condition, Parameter))
        templates = [e for e in entities if isinstance(a, Property)
                     and isinstance(e, c30.PropertyTemplate)
                     or isinstance(a, Condition) and isinstance(e, ConditionTemplate)
                     or isinstance(a, Parameter) and isinstance(e, ParameterTemplate)]
        if a is not None:
            a.template = rng.choice(templates + [None, LinkByUID("edited", f"{seed}")])
    elif kind == "swap":
        pools = [(e, f) for e in entities for f in [*c30.LISTS, "tags", "file_links"]
                 if len(getattr(e, f, [])) > 0]
        if pools:
            e, f = rng.choice(pools)
            x = getattr(e, f)
            other = c30.pick(rng, [getattr(d, f) for d in entities if getattr(d, f, None)
                                   and type(d) is type(e)], 0)
            x[rng.randrange(len(x))] = rng.choice(other)


def probes(x):
    """Values of every kind, so that some are contained and some are not."""
    return [NominalCategorical(c) for c in gen.CATEGORIES] + \
        [NominalComposition({c: 1}) for c in gen.COMPONENTS] + \
        [NominalInteger(i) for i in (-5, 0, 1, 3, 8, 20)] + \
        [NominalReal(i, getattr(x, "default_units", "")) for i in (-5, 0, 0.5, 1, 3, 8, 20, 1000)]


def safe(func):
    """What it returns, or the error."""
    try:
        return func()
    except Exception as e:
        return type(e).__name__


def letters(x):
    """The printed form, in which the order of fields is arbitrary."""
    return "".join(sorted(repr(x)))


def as_bounds(v):
    """The least bounds with 0 and the value."""
    kind = type(v).__name__
    b = RealBounds(0, 0, v.units) if isinstance(v, ContinuousValue) else \
        IntegerBounds(0, 0) if kind.endswith("Integer") else \
        CategoricalBounds() if kind.endswith("Categorical") else \
        CompositionBounds() if kind in ("EmpiricalFormula", "NominalComposition") else None
    return None if b is None else safe(lambda: snap.encode(b.union(v), None))


def fresh(p, top=True):
    """The same once more, by the constructor, from the fields that can be seen."""
    if isinstance(p, LinkByUID) or isinstance(p, BaseEntity) and not top:
        return p
    if isinstance(p, (list, tuple)):
        return [fresh(x, False) for x in p]
    if isinstance(p, DictSerializable):
        names = list(inspect.signature(type(p).__init__).parameters)[1:]
        return type(p)(**{n: fresh(getattr(p, n), False) for n in names})
    return p


def as_fresh(ctx, rng, everything):
    """What was changed answers like what is made from the fields it has now."""
    attributes = []
    with validation_level(WarningLevel.IGNORE):
        for p in held(everything):
            try:
                q = fresh(p)
            except Exception:
                ctx.ev("not_constructible")
                continue
            if isinstance(p, BaseValue):
                a, b = as_bounds(p), as_bounds(q)
            elif isinstance(p, BaseBounds):
                a, b = [[safe(lambda: x.contains(v)) for v in probes(p)] +
                        [safe(lambda: snap.encode(x.union(y), None)) for y in (p, q)]
                        for x in (p, q)]
            elif hasattr(p, "origin") or isinstance(p, (Condition, Parameter, Property)):
                attributes.append((p, q))
                a, b = snap.encode(p, id), snap.encode(q, id)
            else:
                continue
            ctx.check((a, p == q, letters(p)) == (b, True, letters(q)),
                      lambda: f"after changes, {short(p)} answers {a}, {repr(p)[:200]}; made anew "
                              f"{b}, {repr(q)[:200]}, equal: {p == q}")
            ctx.ev("as_fresh")
        for t in everything:
            if not isinstance(t, TEMPLATES):
                continue
            f = safe(lambda: fresh(t))
            if isinstance(f, str):
                ctx.ev("not_constructible")
                continue
            for p, q in attributes:
                name = "validate_" + type(p).__name__.lower()
                if hasattr(t, name):
                    a = safe(lambda: getattr(t, name)(p))
                    b = safe(lambda: getattr(f, name)(q))
                    ctx.check(a == b, lambda: f"{name} answers {a}; made anew {b}: {short(p)}")
                    ctx.ev("verdict_as_fresh")


def change(plan, worlds):
    """Do a change; what came of it, per world."""
    group, kind, seed, level, which = plan
    out = []
    for k in which:
        LOG.records.clear()
        error = None
        with validation_level(level):
            try:
                (c30.step if group == "step" else edit)(kind, seed, worlds[k])
            except Exception as e:
                error = type(e).__name__
        out.append((error, len(LOG.records)))
        LOG.records.clear()
        for i, e in enumerate(worlds[k]):  # what questions assign is random
            if not e.uids:
                e.add_uid("late", f"{i}")
    return out


# ---- questions -------------------------------------------------------------------------------
def ask(question, worlds):
    """An answer, in a form that can be compared over processes."""
    kind, seed = question
    rng = random.Random(seed)
    number = {id(e): (k, i) for k, w in enumerate(worlds) for i, e in enumerate(w)}

    def ref(e):
        return number.get(id(e)) or ("other", type(e).__name__, e.name,
                                     tuple(sorted(e.uids.items())))

    def write(x):
        return snap.encode(x, ref)

    def unordered(xs):
        return sorted((write(x) for x in xs), key=repr)

    k = rng.randrange(2)
    everything = worlds[k]
    i = rng.randrange(len(everything))
    x, twin = everything[i], worlds[1 - k][i]
    y = rng.choice([e for e in everything if type(e) is type(x)])
    parts = held([x]) or [p for p in held(everything)]
    attributes = [p for p in held(everything) if hasattr(p, "origin") and hasattr(p, "template")
                  and hasattr(p, "file_links")]
    templates = [e for e in everything if hasattr(e, "bounds")]
    client = GEMDJson()
    try:
        if kind == "fields":
            return [(f, write(v)) for f, v in snap.hard_fields(x) + snap.soft_fields(x)]
        if kind == "text":
            return letters(x), "".join(sorted(str(x)))
        if kind == "dump":
            return write(x.dump())
        if kind == "equal":
            return x == y, y == x, x == x
        if kind == "unequal":
            return x != y, x != twin, x != "x"
        if kind == "twin":
            return x == twin, twin == x
        if kind == "dependencies":
            return [unordered(e.all_dependencies()) for e in everything]
        if kind == "template":
            return [write(getattr(e, "template", "none")) for e in everything]
        if kind == "views":
            pacs = [p for p in held(everything) if isinstance(p, PropertyAndConditions)]
            return [[write(getattr(p, f)) for f in ("name", "template", "origin", "value")] +
                    [p.template is p.property.template and p.value is p.property.value]
                    for p in pacs]
        if kind == "contains":
            every = [t.bounds for t in templates] + [p for p in held(everything)
                                                     if isinstance(p, BaseBounds)]
            return [[b.contains(v) for v in probes(b)] for b in every]
        if kind == "bounds":
            every = [t.bounds for t in templates]
            s = c30.pick(rng, every, 0)
            return [safe(lambda: (s.contains(t), t.contains(s), s == t, write(s.union(t))))
                    for t in every]
        if kind == "validate":
            holder = [e for e in everything if hasattr(e, "validate_condition")
                      or hasattr(e, "validate_property")]
            out = []
            for t in holder:
                for a in attributes:
                    f = getattr(t, "validate_" + type(a).__name__.lower(), None)
                    out.append(None if f is None else f(a))
                for cls, f in ((Condition, "conditions"), (Parameter, "parameters"),
                               (Property, "properties")):
                    for pair in getattr(t, f, []):
                        if isinstance(pair[0], BaseEntity):
                            g = getattr(t, "validate_" + cls.__name__.lower())
                            out.append([g(cls("probe", value=v, template=pair[0]))
                                        for v in probes(pair[1] or pair[0].bounds)])
            return out
        if kind == "dumps":
            return sorted(json.loads(client.dumps(x))["context"], key=repr)
        if kind == "thin":
            return json.loads(client.thin_dumps(x))
        if kind == "flatten":
            return unordered([dict(snap.hard_fields(e)) for e in flatten(x)])
        if kind == "index":
            return unordered([(key, e) for key, e in make_index([x, y]).items()])
        if kind == "to_link":
            return write(x.to_link()), write(LinkByUID.from_entity(x)), \
                write(x.to_link("new", allow_fallback=True))
        if kind == "links":
            return write(dict(snap.hard_fields(substitute_links(x))))
        if kind == "objects":
            links = [e.to_link() for e in (x, y)]
            return write(substitute_objects(links, make_index(everything)))
        if kind == "flatmap":
            return unordered(recursive_flatmap(x, lambda e: [e], unidirectional=False))
        if kind == "order":
            return [writable_sort_order(e) for e in everything]
        if kind == "labels":
            return [(write(e.name), write(e.labels)) for e in
                    c30.of(everything, (IngredientRun, IngredientSpec))]
        if kind == "history":
            return sorted(complete_material_history(x), key=repr)
        if kind == "instance":
            specs = c30.of(everything, c30.SPECS)
            e = make_instance(rng.choice(specs))
            return [type(z).__name__ for z in snap.reachable(e)], write(e.spec)
        if kind == "check":
            return [a.template.bounds.contains(a.value) for a in attributes
                    if isinstance(a.template, BaseEntity) and a.value is not None]
        if kind == "parts_equal":
            p = rng.choice(parts)
            others = [q for q in held(worlds[1 - k]) if type(q) is type(p)]
            return [p == q for q in others[:20]], [q != p for q in others[:20]]
        if kind == "attribute_dict":
            return write(rng.choice(attributes).as_dict())
        if kind == "value_bounds":
            return [as_bounds(v) for v in held(everything) if isinstance(v, BaseValue)]
        if kind == "hash":
            return [hash(e) == hash(e) for e in everything], \
                [len({e, twin, x}) for e in everything], \
                [(p.scope, p.id) in {p: 1} for p in held(everything) if isinstance(p, LinkByUID)]
        if kind == "convert":
            to = [p.default_units for p in held(everything) if isinstance(p, RealBounds)]
            return [safe(lambda: convert_units(2.5, u, t))
                    for u in gen.UNITS for t in to[:6] + gen.UNITS[:4]]
        if kind == "allowed":
            return [(write(e.allowed_names), write(e.allowed_labels)) for e in
                    c30.of(everything, c30.ProcessTemplate)]
        if kind == "raw":
            return [json.loads(client.raw_dumps(rng.choice(parts)))]
        if kind == "copy":
            return [dict(snap.hard_fields(client.copy(p))).keys() == dict(snap.hard_fields(p)).keys()
                    and client.dumps(client.copy(p)) == client.dumps(p) for p in parts[:2]
                    if isinstance(p, (BaseValue, BaseBounds))], \
                sorted(json.loads(client.dumps(client.copy(x)))["context"], key=repr)
    except Exception as e:
        return "error", type(e).__name__
    raise AssertionError(kind)


# ---- one case --------------------------------------------------------------------------------
def start(seed):
    """Two worlds that are alike."""
    out = []
    for _ in range(2):
        rng = random.Random(seed)
        g = gen.Graph(rng, uid=rng.choice(["all", "single"]), size=rng.choice([1, 1, 2]),
                      weird=rng.random() < 0.3, links=rng.random() < 0.5)
        out.append(list(g.everything))
    return out


def quiet(seed, plans, questions):
    """The changes without questions, and the questions at the end, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:  # pragma: no cover
        code = 1
        try:
            os.close(r)
            worlds = start(seed)
            outcomes = [change(p, worlds) for p in plans]
            state = [[ask_state(e, worlds) for e in world] for world in worlds]
            data = pickle.dumps((outcomes, state, [repr(ask(q, worlds)) for q in questions]))
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException as e:
            os.write(w, pickle.dumps(repr(e)[:500]))
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def ask_state(e, worlds):
    """All of one entity's fields."""
    number = {id(x): (k, i) for k, world in enumerate(worlds) for i, x in enumerate(world)}
    return [(f, snap.encode(v, lambda x: number.get(id(x), type(x).__name__)))
            for f, v in snap.hard_fields(e) + snap.soft_fields(e)]


def plan(rng, few):
    """Some changes, often alike ones: most in both worlds, some in one."""
    levels = list(WarningLevel)
    out = []
    levels = [rng.choice(levels)] if rng.random() < 0.5 else levels
    for _ in range(rng.choice([1, 3, 6])):
        kind = ("step", rng.choice(c30.STEPS)) if rng.random() < 0.4 \
            else ("edit", rng.choice(few))
        out.append(kind + (rng.random(), rng.choice(levels), rng.choice([[0], [1], [0, 1],
                                                                         [1, 0]])))
    return out


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        edits, few = rng.choice(FOCUS)
    else:
        edits = rng.sample(EDITS, rng.choice([1, 2, len(EDITS)]))
        few = rng.sample(QUESTIONS, rng.choice([3, 5, len(QUESTIONS)]))
    seed, plans = rng.random(), plan(rng, edits)
    questions = [(rng.choice(few), rng.randrange(12)) for _ in range(14)]
    questions = list(dict.fromkeys(questions))
    run(ctx, rng, seed, plans, questions)


def run(ctx, rng, seed, plans, questions):
    """Ask between the changes; compare with a process that did not."""
    pid, r = quiet(seed, plans, questions)
    try:
        worlds = start(seed)
        early = {}
        outcomes = []
        for p in plans:
            for q in questions if rng.random() < 0.7 else rng.sample(questions, 4):
                early.setdefault(q, []).append(repr(ask(q, worlds)))
                ctx.ev("asked_between")
            outcomes.append(change(p, worlds))
            ctx.log(p[0], p[1], p[4], outcomes[-1])
        state = [[ask_state(e, worlds) for e in world] for world in worlds]
        answers = []
        for q in questions:
            answers.append(repr(ask(q, worlds)))
            ctx.log("asked", q)
    finally:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
    for world in worlds:
        as_fresh(ctx, rng, world)
    theirs = pickle.loads(data)
    ctx.check(isinstance(theirs, tuple), lambda: f"the changes alone failed: {theirs}")
    ctx.ev("quiet_processes")
    for p, a, b in zip(plans, outcomes, theirs[0]):
        ctx.check(a == b, lambda: f"{p[1]} at {p[3]!r} ends in {a} (error, warnings) after "
                                  f"questions, and in {b} without")
        ctx.ev(f"{p[0]}:{p[1]}")
        ctx.ev("errors_alike", sum(x[0] is not None for x in a))
    for world, other in zip(state, theirs[1]):
        for e, a, b in zip(world, world, other):
            ctx.check(a == b, lambda: "the state after the changes differs, if questions were "
                      f"asked: {[(x, y) for x, y in zip(a, b) if x != y][:2]}")
    for q, a, b in zip(questions, answers, theirs[2]):
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
        k = max(0, k - 200)
        ctx.check(a == b, lambda: f"question {q}, asked before, is answered "
                                  f"{a[k:k + 400]}; without earlier questions {b[k:k + 400]}")
        ctx.ev("asked_at_end")
        ctx.ev("question:" + q[0])
        if any(x != a for x in early.get(q, [])):
            ctx.ev("answers_changed")
    ctx.sig([p[:2] for p in plans], [q[0] for q in questions])
    ctx.sample({"changes": [p[:2] for p in plans], "questions": questions})


FIXED = []
