"""What a user can see of an object, read through public attributes only.

`FIELDS` is an independent statement of the data model: which public fields each type has, which of
them are soft (maintained by the other end of a link) and which hold other entities.
"""
from collections import deque
from enum import Enum

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID

_ENT = ["uids", "tags"]
_OBJ = _ENT + ["name", "notes", "file_links"]
_QTY = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
_ATT = ["name", "notes", "value", "template", "origin", "file_links"]

# Public fields that serialization has to preserve
FIELDS = {
    "PropertyTemplate": _ENT + ["name", "description", "bounds"],
    "ConditionTemplate": _ENT + ["name", "description", "bounds"],
    "ParameterTemplate": _ENT + ["name", "description", "bounds"],
    "MaterialTemplate": _ENT + ["name", "description", "properties"],
    "MeasurementTemplate": _ENT + ["name", "description", "properties", "conditions",
                                   "parameters"],
    "ProcessTemplate": _ENT + ["name", "description", "conditions", "parameters",
                               "allowed_names", "allowed_labels"],
    "ProcessSpec": _OBJ + ["template", "conditions", "parameters"],
    "ProcessRun": _OBJ + ["spec", "conditions", "parameters", "source"],
    "MaterialSpec": _OBJ + ["template", "process", "properties"],
    "MaterialRun": _OBJ + ["spec", "process", "sample_type"],
    "IngredientSpec": _OBJ + _QTY + ["labels", "material", "process"],
    "IngredientRun": _OBJ + _QTY + ["labels", "material", "process", "spec"],
    "MeasurementSpec": _OBJ + ["template", "conditions", "parameters"],
    "MeasurementRun": _OBJ + ["spec", "material", "properties", "conditions", "parameters",
                              "source"],
    "Property": _ATT, "Condition": _ATT, "Parameter": _ATT,
    "PropertyAndConditions": ["property", "conditions"],
    "FileLink": ["filename", "url"],
    "PerformedSource": ["performed_by", "performed_date"],
    "LinkByUID": ["scope", "id"],
    "RealBounds": ["lower_bound", "upper_bound", "default_units"],
    "IntegerBounds": ["lower_bound", "upper_bound"],
    "CategoricalBounds": ["categories"],
    "CompositionBounds": ["components"],
    "MolecularStructureBounds": [],
    "NominalReal": ["nominal", "units"],
    "NormalReal": ["mean", "std", "units"],
    "UniformReal": ["lower_bound", "upper_bound", "units"],
    "NominalInteger": ["nominal"],
    "UniformInteger": ["lower_bound", "upper_bound"],
    "NominalCategorical": ["category"],
    "DiscreteCategorical": ["probabilities"],
    "EmpiricalFormula": ["formula"],
    "NominalComposition": ["quantities"],
    "Smiles": ["smiles"],
    "InChI": ["inchi"],
}
# Fields that mirror the other end of a link
SOFT = {
    "ProcessSpec": ["ingredients", "output_material"],
    "ProcessRun": ["ingredients", "output_material"],
    "MaterialRun": ["measurements"],
}


def base_name(obj):
    """Name of the data model type an object belongs to (itself, or the nearest ancestor)."""
    for cls in type(obj).__mro__:
        if cls.__name__ in FIELDS:
            return cls.__name__
    raise TypeError(f"{type(obj)} is not in the data model")


def hard_fields(obj):
    """List of (name, value) of the fields an object owns."""
    return [(f, getattr(obj, f)) for f in FIELDS[base_name(obj)]]


def soft_fields(obj):
    """List of (name, value) of the fields that mirror other objects."""
    return [(f, getattr(obj, f)) for f in SOFT.get(base_name(obj), [])]


def _prim(x):
    if isinstance(x, Enum):
        return ("enum", type(x).__name__, x.value)
    if isinstance(x, float):
        return ("float", repr(float(x)))
    if isinstance(x, bool) or x is None:
        return ("const", repr(x))
    if isinstance(x, int):
        return ("int", int(x))
    if isinstance(x, str):
        return ("str", str.__str__(x))
    return ("other", type(x).__name__, repr(x))


def encode(x, ref, soft=True):
    """Nested tuples for a value; ref(entity) says how to write an entity."""
    if isinstance(x, BaseEntity):
        return ("entity", ref(x))
    if isinstance(x, DictSerializable):
        return (base_name(x),) + tuple((f, encode(v, ref)) for f, v in hard_fields(x))
    if isinstance(x, dict):
        return ("map", tuple(sorted(((encode(k, ref), encode(v, ref)) for k, v in x.items()),
                                    key=repr)))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(encode(v, ref) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((encode(v, ref) for v in x), key=repr)))
    return _prim(x)


def children(x, soft=True):
    """Entities that a thing refers to directly (through attributes and containers)."""
    out, todo = [], [x]
    first = True
    while todo:
        y = todo.pop()
        if isinstance(y, BaseEntity) and not first:
            out.append(y)
            continue
        first = False
        if isinstance(y, DictSerializable):
            vals = [v for _, v in hard_fields(y)]
            if soft:
                vals += [v for _, v in soft_fields(y)]
            todo.extend(reversed(vals))
        elif isinstance(y, dict):
            todo.extend(list(y.keys()) + list(y.values()))
        elif isinstance(y, (list, tuple, set, frozenset)):
            todo.extend(reversed(list(y)))
    return out


def parts(e):
    """The values, attributes, bounds, links and so on that an entity holds."""
    out, todo = [], [v for _, v in hard_fields(e)]
    while todo:
        x = todo.pop()
        if isinstance(x, BaseEntity):
            continue
        if isinstance(x, DictSerializable):
            out.append(x)
            todo.extend(v for _, v in hard_fields(x))
        elif isinstance(x, dict):
            todo.extend(list(x.keys()) + list(x.values()))
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo.extend(x)
    return out


def reachable(*roots, soft=True):
    """All distinct entities reachable from the roots, including the roots."""
    seen, order, todo = {}, [], deque()
    for r in roots:
        todo.extend([r] if isinstance(r, BaseEntity) else children([r], soft))
    while todo:
        e = todo.popleft()
        if id(e) in seen:
            continue
        seen[id(e)] = e
        order.append(e)
        todo.extend(children(e, soft))
    return order


def links_in(x):
    """LinkByUID objects that a thing holds directly (not through other entities)."""
    out, todo, first = [], [x], True
    while todo:
        y = todo.pop()
        if isinstance(y, LinkByUID):
            out.append(y)
        elif isinstance(y, BaseEntity) and not first:
            continue
        elif isinstance(y, DictSerializable):
            todo.extend(v for _, v in hard_fields(y))
            todo.extend(v for _, v in soft_fields(y))
        elif isinstance(y, dict):
            todo.extend(list(y.keys()) + list(y.values()))
        elif isinstance(y, (list, tuple, set, frozenset)):
            todo.extend(y)
        first = False
    return out


def freeze(roots, uids=True):
    """State of everything reachable: {id: (type, fields)}; entities are written by identity."""
    state = {}
    for e in reachable(roots):
        fields = hard_fields(e) + soft_fields(e)
        state[id(e)] = (type(e).__name__,) + tuple(
            (f, encode(v, id)) for f, v in fields if uids or f != "uids")
    return state


def exact(x):
    """State of a container passed in: types, identities and order, down to the entities."""
    if isinstance(x, BaseEntity):
        return ("entity", id(x))
    if isinstance(x, DictSerializable):
        return (type(x).__name__, id(x)) + tuple((f, exact(v)) for f, v in hard_fields(x))
    if isinstance(x, dict):
        return (type(x).__name__, id(x), tuple((exact(k), exact(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x) if isinstance(x, list) else None,
                tuple(exact(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted((exact(v) for v in x), key=repr)))
    return _prim(x)


def mutables(*roots, through=True):
    """
    {id: (path, object)} of the lists, dictionaries and model objects found below the roots.

    With through=False, entities and links are not entered and not listed.
    """
    out, todo = {}, [(r, f"${i}") for i, r in enumerate(roots)]
    while todo:
        x, path = todo.pop()
        if isinstance(x, (BaseEntity, LinkByUID)) and not through:
            continue
        if isinstance(x, (list, dict, DictSerializable)):
            if id(x) in out:
                continue
            out[id(x)] = (path, x)
        if isinstance(x, DictSerializable):
            todo.extend((v, f"{path}.{f}") for f, v in hard_fields(x) + soft_fields(x))
        elif isinstance(x, dict):
            todo.extend((v, f"{path}[{k!r}]") for k, v in x.items())
            todo.extend((k, f"{path} key") for k in x)
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo.extend((v, f"{path}[{i}]") for i, v in enumerate(x))
    return out


def diff_state(before, after):
    """First difference between two frozen states, or None."""
    for k, v in before.items():
        if k not in after:
            return f"a {v[0]} is no longer reachable"
        if after[k] != v:
            for x, y in zip(v, after[k]):
                if x != y:
                    return f"{v[0]}: {str(x)[:300]} became {str(y)[:300]}"
            return f"{v[0]} changed"
    extra = [after[k][0] for k in after if k not in before]
    return f"new entities reachable: {extra[:5]}" if extra else None


def isomorphic(a, b, tuples_as_lists=True, ordered_soft=False):
    """
    Compare two structures up to identity of entities; return None or a description.

    The correspondence of entities must be a bijection: an object shared on one side is shared on
    the other.  Soft lists are compared as sets matched through the entities' uids.
    """
    fwd, bwd, todo, err = {}, {}, deque(), []

    def pair(x, y, path):
        if type(x) is not type(y):
            return f"{path}: {type(x).__name__} came back as {type(y).__name__}"
        if id(x) in fwd:
            if fwd[id(x)] is not y:
                return f"{path}: one {type(x).__name__} ({x.name!r}) came back as two objects"
            return None
        if id(y) in bwd:
            return f"{path}: two {type(x).__name__} objects came back as one ({y.name!r})"
        fwd[id(x)], bwd[id(y)] = y, x
        todo.append((x, y, path))
        return None

    def comp(x, y, path):
        if isinstance(x, BaseEntity) or isinstance(y, BaseEntity):
            return pair(x, y, path)
        if isinstance(x, DictSerializable):
            if type(x) is not type(y):
                return f"{path}: {type(x).__name__} came back as {type(y).__name__}"
            for f, v in hard_fields(x):
                bad = comp(v, getattr(y, f), f"{path}.{f}")
                if bad:
                    return bad
            return None
        if isinstance(x, dict):
            if not isinstance(y, dict) or len(x) != len(y):
                return f"{path}: mapping {str(x)[:100]} came back as {str(y)[:100]}"
            exact = {(type(k), k): v for k, v in dict.items(y)}
            for k, v in x.items():
                if (type(k), k) not in exact:
                    return f"{path}: key {k!r} was lost"
                bad = comp(v, exact[(type(k), k)], f"{path}[{k!r}]")
                if bad:
                    return bad
            return None
        if isinstance(x, (list, tuple)):
            if not isinstance(y, (list, tuple)) or len(x) != len(y) or \
                    (not tuples_as_lists and isinstance(x, tuple) != isinstance(y, tuple)):
                return f"{path}: sequence of {len(x)} came back as {str(y)[:200]}"
            for i, (v, w) in enumerate(zip(x, y)):
                bad = comp(v, w, f"{path}[{i}]")
                if bad:
                    return bad
            return None
        if encode(x, id) != encode(y, id):
            return f"{path}: {str(x)[:200]!r} ({type(x).__name__}) came back as " \
                   f"{str(y)[:200]!r} ({type(y).__name__})"
        return None

    bad = comp(a, b, "$")
    while not bad and todo:
        x, y, path = todo.popleft()
        for f, v in hard_fields(x):
            bad = comp(v, getattr(y, f), f"{path}.{f}")
            if bad:
                break
        if bad:
            break
        for f, v in soft_fields(x):
            w = getattr(y, f)
            if not isinstance(v, list):
                bad = comp(v, w, f"{path}.{f}")
            elif len(v) != len(w):
                bad = f"{path}.{f}: {len(v)} elements came back as {len(w)}"
            elif ordered_soft:
                bad = comp(v, w, f"{path}.{f}")
            else:
                for i, p in enumerate(v):
                    mates = [q for q in w if isinstance(q, BaseEntity)
                             and dict(q.uids) == dict(p.uids)]
                    if len(mates) != 1:
                        bad = f"{path}.{f}[{i}]: {len(mates)} counterparts for uids {p.uids}"
                    else:
                        bad = pair(p, mates[0], f"{path}.{f}[{i}]")
                    if bad:
                        break
            if bad:
                break
    return bad
