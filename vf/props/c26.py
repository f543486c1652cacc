"""C26: a type string always means one class: the last, and most derived, that took it."""
import json
import os
import pickle
import random

from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity import object as objects, template as templates
from gemd.json import GEMDJson, dumps, loads

from vf import core, gen, snap
from vf.core import LOG, Violation, short

RULE = ("Random histories of class declarations (new type strings, inherited ones, ones taken over "
        "from an ancestor, ones that belong to somebody else, fields kept out of the dictionary), "
        "each history in a process of its own, with instances written and read after every "
        "declaration; also subclasses that take over the type strings of the model's own classes, "
        "with whole graphs read back; signature: the declarations.")
REQUIRED = ["declared", "inherited", "taken_over", "refused", "instances", "nested", "ignored_fields",
            "skipped_fields", "unknown_refused", "model_taken_over", "mapping_is_a_copy", "graphs",
            "model_types", "private_fields", "skipped_by_ancestor", "mixins"]
N = {"quick": 2400, "thorough": 40000}

PLAIN = [None, True, 0, 7, -2.5, "text", "", [1, 2], {"a": 1}, ["x", None]]


def declare(rng, name, bases, own, private, skipped, typ, inherited, excluded):
    """Make a class whose constructor takes its own and the inherited fields."""
    fields = inherited + own

    def init(self, **kw):
        for f in fields:
            setattr(self, ("_" + f) if f in private else f, kw.get(f))
        for f in skipped:
            setattr(self, "_" + f, [])

    # a signature that names the fields
    code = f"def __init__(self, {''.join(f + '=None, ' for f in fields)}):\n    init(self" + \
           "".join(f", {f}={f}" for f in fields) + ")\n"
    ns = {"init": init}
    exec(code, ns)
    body = {"__init__": ns["__init__"]}
    for f in private:
        body[f] = property(lambda self, f=f: getattr(self, "_" + f))
    for f in skipped:
        body[f] = property(lambda self, f=f: getattr(self, "_" + f))
    kwargs = {}
    if typ is not None:
        kwargs["typ"] = typ
    if excluded:
        kwargs["skip"] = {"_" + f for f in excluded}
    return type(DictSerializable)(name, bases, body, **kwargs)


class Decl:
    """What is known of a declared class."""

    def __init__(self, cls, typ, fields, skipped, parent):
        self.cls, self.typ, self.fields, self.skipped, self.parent = \
            cls, typ, fields, skipped, parent


def value(rng, decls, depth=0):
    """A value for a field: plain, or an instance."""
    usable = [d for d in decls if d.typ is not None]
    if depth < 2 and usable and rng.random() < 0.4:
        return instance(rng, rng.choice(usable), decls, depth + 1)
    x = rng.choice(PLAIN)
    if depth < 2 and rng.random() < 0.2:
        return [x, value(rng, decls, depth + 1)]
    return x


def instance(rng, decl, decls, depth=0):
    """An instance of a declared class."""
    given = {f: value(rng, decls, depth) for f in decl.fields if rng.random() < 0.7}
    return decl.cls(**given)


def compare(ctx, owner, by_class, before, after):
    """Check that `after` is what `before` is read back as."""
    if isinstance(before, DictSerializable):
        d = by_class[type(before)]
        into = owner[d.typ]
        ctx.check(type(after) is into.cls,
                  lambda: f"an object of type {d.typ!r} was read as {type(after).__name__}, "
                          f"not {into.cls.__name__}")
        for f in into.fields:
            if f in d.fields:
                compare(ctx, owner, by_class, getattr(before, f), getattr(after, f))
            else:
                ctx.check(getattr(after, f) is None, lambda: f"field {f} was not written")
        if set(d.fields) - set(into.fields):
            ctx.ev("ignored_fields")
        ctx.ev("instances")
    elif isinstance(before, list):
        ctx.check(type(after) is list and len(after) == len(before), "a list was changed")
        for x, y in zip(before, after):
            compare(ctx, owner, by_class, x, y)
    else:
        ctx.check(type(after) is type(before) and after == before,
                  lambda: f"{before!r} was read as {after!r}")


def exercise(ctx, rng, decls, owner, builtin, client):
    """Write and read instances under the declarations made so far."""
    mapping = DictSerializable.class_mapping
    expected = dict(builtin)
    expected.update({t: d.cls for t, d in owner.items()})
    ctx.check(mapping == expected,
              lambda: f"the mapping of types has "
                      f"{[k for k in set(mapping) | set(expected) if mapping.get(k) is not expected.get(k)]} wrong")
    mapping["hijacked"] = int
    mapping.pop(next(iter(mapping)))
    ctx.check(DictSerializable.class_mapping == expected, "the mapping handed out is not a copy")
    ctx.ev("mapping_is_a_copy")
    by_class = {d.cls: d for d in decls}
    client = rng.choice([client, GEMDJson()])
    for d in decls:
        if d.typ is None:
            continue
        ctx.check(d.cls.typ == d.typ, lambda: f"typ is {d.cls.typ!r}, expected {d.typ!r}")
    usable = [d for d in decls if d.typ is not None]
    for _ in range(2 if usable else 0):
        d = rng.choice(usable)
        x = instance(rng, d, decls)
        as_dict = x.as_dict()
        ctx.check(set(as_dict) == set(d.fields) | {"type"} and as_dict["type"] == d.typ,
                  lambda: f"a {d.cls.__name__} with fields {d.fields} is written as {short(as_dict)}")
        if d.skipped:
            ctx.ev("skipped_fields")
            ctx.check(all(f in repr(x) for f in d.skipped), "a skipped field is not shown")
        if any(isinstance(getattr(x, f), DictSerializable) for f in d.fields):
            ctx.ev("nested")
        way = rng.randrange(3)
        if way == 0:
            y = client.raw_loads(client.raw_dumps(x))
        elif way == 1:
            y = client.loads(client.dumps([x]))[0]
        else:
            y = DictSerializable.build(x.dump())
        compare(ctx, owner, by_class, x, y)
        LOG.records.clear()
        z = d.cls.from_dict({"type": d.typ, "no_such_field": 1,
                             **{f: getattr(x, f) for f in d.fields}})
        ctx.check(type(z) is d.cls and all(getattr(z, f) is getattr(x, f) for f in d.fields),
                  "from_dict of a class changed a field")
        ctx.check(len(LOG.records) == 1 and "no_such_field" in LOG.records[0],
                  lambda: f"an unexpected field gave {LOG.records}")
    for bad in ("no_such_type", "Process_Run"):
        ctx.raises(TypeError, lambda: client.raw_loads(json.dumps({"type": bad})), f"type {bad!r}")
        ctx.ev("unknown_refused")


def declarations(ctx):
    """One history of declarations."""
    rng = ctx.rng
    builtin = DictSerializable.class_mapping
    decls, owner, steps = [], {}, []
    client = GEMDJson()
    client.loads(client.dumps([1]))
    for k in range(rng.randint(1, 7)):
        parent = rng.choice(decls) if decls and rng.random() < 0.75 else None
        ancestors = []
        p = parent
        while p is not None:
            ancestors.append(p)
            p = p.parent
        own = [f"f{k}{c}" for c in "ab"[:rng.randint(0, 2)]]
        private = [f for f in own if rng.random() < 0.4]
        hidden = private + (parent.private if parent else [])
        skipped = [f"z{k}"] if rng.random() < 0.3 else []
        inherited = list(parent.fields) if parent else []
        kind = rng.choice(["new", "new", "inherit", "take", "steal"])
        if kind == "new":
            typ = f"type-{k}" + rng.choice(["", " x", "é"])
        elif kind == "inherit":
            typ = None
        elif kind == "take":
            own_types = [a.typ for a in ancestors if a.typ in owner]
            if not own_types:
                continue
            typ = rng.choice(own_types)
        else:
            pool = [t for t, d in owner.items() if d not in ancestors] + \
                rng.sample(sorted(builtin), 2)
            typ = rng.choice(pool)
        # only a descendant of the class that holds the type may take it
        holder = owner.get(typ)
        allowed = typ is None or (typ not in builtin and (holder is None or holder in ancestors))
        bases = (parent.cls,) if parent else (DictSerializable,)
        mixed = rng.random()
        if mixed < 0.3:
            # a class that has no part in this, before or after
            mixin = type(f"Mixin{k}", (), {"helper": lambda self: 1})
            bases = (mixin,) + bases if mixed < 0.2 else bases + (mixin,)
            ctx.ev("mixins")
        carried = [f for a in ancestors for f in a.skipped_own]
        # the name of a class plays no role, be it that of the holder or of any other class
        name = f"K{k}"
        if rng.random() < 0.3:
            name = rng.choice([holder.cls.__name__ if holder else
                               builtin[typ].__name__ if kind == "steal" and typ in builtin
                               else name] * 3 +
                              [d.cls.__name__ for d in decls])
        args = (rng, name, bases, own, hidden, skipped + carried, typ, inherited,
                skipped + [f for f in carried if rng.random() < 0.2])
        if carried:
            ctx.ev("skipped_by_ancestor")
        steps.append((kind, allowed, ancestors.index(holder) if holder in ancestors else None))
        ctx.log(kind, typ, "allowed" if allowed else "refused", "below",
                parent.cls.__name__ if parent else None)
        if not allowed:
            ctx.raises(ValueError, lambda: declare(*args), f"taking over {typ!r}")
            ctx.ev("refused")
        else:
            cls = declare(*args)
            d = Decl(cls, typ if typ is not None else (parent.typ if parent else None),
                     inherited + own, skipped + carried, parent)
            d.skipped_own, d.private = skipped, hidden
            if private:
                ctx.ev("private_fields")
            if typ is not None:
                ctx.ev("taken_over" if holder is not None else "declared")
                owner[typ] = d
            else:
                ctx.ev("inherited")
            decls.append(d)
        exercise(ctx, rng, decls, owner, builtin, client)
    ctx.sig("decl", tuple(steps))
    ctx.sample([str(s) for s in steps])


def takeover(ctx):
    """Classes of the model are extended, and graphs come back in the extended classes."""
    rng = ctx.rng
    mapping = DictSerializable.class_mapping
    names = [n for n, c in mapping.items() if issubclass(c, BaseEntity)]
    taken = {}
    for n in rng.sample(names, rng.randint(1, 4)):
        base = mapping[n]
        taken[n] = type(base)(base.__name__, (base,), {"extended": lambda self: True}, typ=n)
        ctx.ev("model_taken_over")
    g = gen.Graph(rng, links=False, uid="all", weird=False, size=rng.choice([1, 2]))
    root = g.root()
    everything = snap.reachable(root)
    copy = loads(dumps(root))
    again = snap.reachable(copy)
    found = {}
    for e in again:
        for s, u in e.uids.items():
            found[s, u] = e
    for e in everything:
        s, u = next(iter(e.uids.items()))
        y = found.get((s, u))
        ctx.check(y is not None, "an entity was not read back")
        want = taken.get(e.typ, mapping[e.typ])
        ctx.check(type(y) is want and y.typ == e.typ,
                  lambda: f"{e.typ} was read as {type(y)}, not {want}")
        ctx.check(y == e and e == y, lambda: f"{short(e)} is not equal to its copy {short(y)}")
    # fields take instances of the extended classes
    text = dumps(copy)
    final = loads(text)
    ctx.check(final == copy, "a second round trip changed the graph")
    ctx.ev("graphs")
    ctx.sig("take", tuple(sorted(taken)), len(everything))


def prepare():
    """Have the unit definitions loaded before processes are forked."""
    g = gen.Graph(random.Random(1), size=2)
    loads(dumps(g.root()))


def in_process(ctx, func):
    """Run func in a child process, since classes stay declared for as long as a process lives."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            bad = None
            try:
                func(ctx)
            except Violation as v:
                bad = ("violation", str(v))
            except Exception as e:
                bad = ("error", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump((bad, ctx._counters, ctx._sigs, ctx._samples, ctx.trace), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.Violation("the process ended without an answer")
    bad, counters, sigs, samples, ctx.trace = pickle.loads(data)
    ctx._counters.update(counters)
    ctx._sigs |= sigs
    ctx._samples[:] = samples
    if bad is not None:
        raise Violation(bad[1] if bad[0] == "violation" else f"workload failed with {bad[1]}")


def case(ctx):
    """One history in a process of its own."""
    in_process(ctx, takeover if ctx.rng.random() < 0.3 else declarations)


def model(ctx):
    """The types of the model itself, each with one class, and each class with its own type."""
    mapping = DictSerializable.class_mapping
    seen = {}
    for module in (objects, templates):
        for name in module.__all__:
            cls = getattr(module, name)
            if isinstance(cls, type) and issubclass(cls, DictSerializable) and \
                    isinstance(cls.typ, str):
                ctx.check(mapping.get(cls.typ) is cls, lambda: f"{cls.typ} means "
                                                               f"{mapping.get(cls.typ)}, not {cls}")
                ctx.check(cls.typ not in seen, lambda: f"{cls.typ} is the type of two classes")
                seen[cls.typ] = cls
                ctx.ev("model_types")
    for typ, name in TYPES.items():
        ctx.check(typ in mapping and mapping[typ].__name__ == name,
                  lambda: f"{typ} means {mapping.get(typ)}, not {name}")
        ctx.check(mapping[typ].typ == typ, lambda: f"{name}.typ is {mapping[typ].typ}")
        ctx.ev("model_types")
    ctx.check(mapping["link_by_uid"] is LinkByUID, "link_by_uid")


# The type strings of documents in the field (the platform's, and those stored in files).
TYPES = {
    "process_run": "ProcessRun", "process_spec": "ProcessSpec", "material_run": "MaterialRun",
    "material_spec": "MaterialSpec", "ingredient_run": "IngredientRun",
    "ingredient_spec": "IngredientSpec", "measurement_run": "MeasurementRun",
    "measurement_spec": "MeasurementSpec", "process_template": "ProcessTemplate",
    "material_template": "MaterialTemplate", "measurement_template": "MeasurementTemplate",
    "property_template": "PropertyTemplate", "condition_template": "ConditionTemplate",
    "parameter_template": "ParameterTemplate", "property": "Property", "condition": "Condition",
    "parameter": "Parameter", "property_and_conditions": "PropertyAndConditions",
    "nominal_real": "NominalReal", "normal_real": "NormalReal", "uniform_real": "UniformReal",
    "nominal_integer": "NominalInteger", "uniform_integer": "UniformInteger",
    "nominal_categorical": "NominalCategorical", "discrete_categorical": "DiscreteCategorical",
    "nominal_composition": "NominalComposition", "empirical_formula": "EmpiricalFormula",
    "smiles": "Smiles", "inchi": "InChI", "real_bounds": "RealBounds",
    "integer_bounds": "IntegerBounds", "categorical_bounds": "CategoricalBounds",
    "composition_bounds": "CompositionBounds",
    "molecular_structure_bounds": "MolecularStructureBounds", "file_link": "FileLink",
    "performed_source": "PerformedSource", "link_by_uid": "LinkByUID",
}

FIXED = [("model", model)]
