"""C02: the serialized document is complete, flat, ordered and deterministic."""
import copy
import json

import gemd.json as gj
from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.json import GEMDJson
from gemd.util import flatten

from vf import gen, snap
from vf.core import short
from vf.props.c01 import shape

RULE = ("Documents produced from random graphs are read with the standard json module and checked "
        "entry by entry against the objects; flatten and thin_dumps likewise; non-trivial when "
        "the root reaches at least two entities; the signature is the graph's shape.")
REQUIRED = ["large", "documents", "entries_checked", "references_checked", "order_pairs_checked",
            "flatten_calls", "thin_documents", "flatten_refusals", "repeat_dumps", "containers", "versions"]
N = {"quick": 2400, "thorough": 40000}
ASSUMPTIONS = ["entities have pairwise distinct uids"]
ENTITY_TYPES = {
    "PropertyTemplate": "property_template", "ConditionTemplate": "condition_template",
    "ParameterTemplate": "parameter_template", "MaterialTemplate": "material_template",
    "MeasurementTemplate": "measurement_template", "ProcessTemplate": "process_template",
    "ProcessSpec": "process_spec", "ProcessRun": "process_run", "MaterialSpec": "material_spec",
    "MaterialRun": "material_run", "IngredientSpec": "ingredient_spec",
    "IngredientRun": "ingredient_run", "MeasurementSpec": "measurement_spec",
    "MeasurementRun": "measurement_run"}


def json_matches(ctx, value, j, path):
    """Check that JSON j represents value, with entities written as links."""
    if isinstance(value, BaseEntity):
        ctx.ev("references_checked")
        ok = isinstance(j, dict) and j.get("type") == "link_by_uid" \
            and (j.get("scope"), j.get("id")) in list(dict(value.uids).items())
        ctx.check(ok, lambda: f"{path}: reference to {type(value).__name__} with uids "
                              f"{dict(value.uids)} was written as {short(j)}")
    elif isinstance(value, DictSerializable):
        ctx.check(isinstance(j, dict) and j.get("type") == type(value).typ,
                  lambda: f"{path}: {type(value).__name__} was written as {short(j)}")
        for f, v in snap.hard_fields(value):
            ctx.check(f in j, lambda: f"{path}.{f} is missing from the document")
            json_matches(ctx, v, j[f], f"{path}.{f}")
    elif isinstance(value, dict):
        ctx.check(isinstance(j, dict) and set(j) == set(dict.keys(value)),
                  lambda: f"{path}: {short(value)} was written as {short(j)}")
        for k, v in value.items():
            json_matches(ctx, v, j[k], f"{path}[{k!r}]")
    elif isinstance(value, (set, frozenset)):
        ctx.check(isinstance(j, list) and sorted(j) == sorted(value) and j == sorted(j),
                  lambda: f"{path}: {short(value)} was written as {short(j)}")
    elif isinstance(value, (list, tuple)):
        ctx.check(isinstance(j, list) and len(j) == len(value),
                  lambda: f"{path}: {short(value)} was written as {short(j)}")
        for i, (v, w) in enumerate(zip(value, j)):
            json_matches(ctx, v, w, f"{path}[{i}]")
    else:
        want = value.value if hasattr(value, "value") and isinstance(value, str) else value
        ctx.check(snap.encode(want, id) == snap.encode(j, id),
                  lambda: f"{path}: {short(value)} was written as {short(j)}")


def nested_entity(j, top=True):
    """Type of an entity written inside another entry instead of as a link, if any."""
    if isinstance(j, dict):
        if not top and j.get("type") in ENTITY_TYPES.values():
            return j["type"]
        for v in j.values():
            bad = nested_entity(v, False)
            if bad:
                return bad
    elif isinstance(j, list):
        for v in j:
            bad = nested_entity(v, False)
            if bad:
                return bad
    return None


def link_dicts(j):
    """All links in a JSON structure."""
    if isinstance(j, dict):
        if j.get("type") == "link_by_uid":
            yield j
        else:
            for v in j.values():
                yield from link_dicts(v)
    elif isinstance(j, list):
        for v in j:
            yield from link_dicts(v)


def check_document(ctx, obj, doc):
    """Check a parsed document against the object it was made from."""
    entities = snap.reachable(obj)
    ctx.check(isinstance(doc, dict) and {"object", "context"} <= set(doc),
              lambda: f"document keys {short(sorted(doc))}")
    context = doc["context"]
    ctx.check(isinstance(context, list) and len(context) == len(entities),
              lambda: f"{len(entities)} reachable entities, {len(context)} context entries")
    by_uid = {}
    for e in entities:
        for pair in dict(e.uids).items():
            by_uid[pair] = e
    position, known = {}, set()
    for pos, entry in enumerate(context):
        uids = entry.get("uids")
        ctx.check(isinstance(uids, dict) and bool(uids), "a context entry has no uids")
        matches = {id(by_uid.get(p)) for p in uids.items()}
        e = by_uid.get(next(iter(uids.items())))
        ctx.check(len(matches) == 1 and e is not None,
                  lambda: f"uids {uids} of a context entry are not those of one entity")
        ctx.check(id(e) not in position, lambda: f"{type(e).__name__} {uids} is in the context twice")
        position[id(e)] = pos
        bad = nested_entity(entry)
        ctx.check(bad is None, lambda: f"a {bad} is nested inside a {entry.get('type')} entry")
        ctx.check(entry.get("type") == type(e).typ, lambda: f"type {entry.get('type')}")
        for f, v in snap.hard_fields(e):
            ctx.check(f in entry, lambda: f"{type(e).__name__}.{f} is missing from the document")
            json_matches(ctx, v, entry[f], f"{type(e).__name__}.{f}")
        for link in link_dicts(entry):
            pair = (link["scope"], link["id"])
            if pair in by_uid:
                ctx.ev("order_pairs_checked")
                ctx.check(pair in known, lambda: f"{entry['type']} refers to {pair}, a "
                                                 f"{type(by_uid[pair]).__name__} listed after it")
        known.update(uids.items())
        ctx.ev("entries_checked")
    ctx.check(nested_entity(doc["object"], False) is None, "the object part nests an entity")
    json_matches(ctx, obj, doc["object"], "object")


def check_flatten(ctx, obj, flat):
    """Check the output of flatten."""
    entities = snap.reachable(obj)
    by_uid = {p: e for e in entities for p in dict(e.uids).items()}
    ctx.check(len(flat) == len(entities),
              lambda: f"flatten gave {len(flat)} of {len(entities)} entities")
    seen, known = set(), set()
    for x in flat:
        e = by_uid.get(next(iter(dict(x.uids).items()), None))
        ctx.check(e is not None and dict(e.uids) == dict(x.uids) and type(x) is type(e),
                  lambda: f"flatten gave a {type(x).__name__} with uids {x.uids}")
        ctx.check(id(e) not in seen, "flatten gave an entity twice")
        seen.add(id(e))
        ctx.check(not snap.children(x, soft=False),
                  lambda: f"a flattened {type(x).__name__} still points to "
                          f"{[type(c).__name__ for c in snap.children(x, soft=False)]}")
        for link in snap.links_in(x):
            pair = (link.scope, link.id)
            ctx.check(pair not in by_uid or pair in known,
                      lambda: f"flattened {type(x).__name__} precedes its dependency {pair}")
        known.update(dict(x.uids).items())
        # Field by field, with references as links
        for f, v in snap.hard_fields(e):
            w = getattr(x, f)
            bad = same_but_linked(v, w)
            ctx.check(bad is None, lambda: f"flattened {type(x).__name__}.{f}: {bad}")


def same_but_linked(v, w):
    """None, or how w differs from v with entities replaced by links."""
    if isinstance(v, BaseEntity):
        if isinstance(w, LinkByUID) and (w.scope, w.id) in list(dict(v.uids).items()):
            return None
        return f"{type(v).__name__} became {short(w)}"
    if isinstance(v, DictSerializable):
        if type(v) is not type(w):
            return f"{type(v).__name__} became {short(w)}"
        for f, x in snap.hard_fields(v):
            bad = same_but_linked(x, getattr(w, f))
            if bad:
                return f"{f}: {bad}"
        return None
    if isinstance(v, (list, tuple)):
        if not isinstance(w, (list, tuple)) or len(v) != len(w):
            return f"{short(v)} became {short(w)}"
        for x, y in zip(v, w):
            bad = same_but_linked(x, y)
            if bad:
                return bad
        return None
    if isinstance(v, dict) and not any(isinstance(x, DictSerializable) for x in v.values()):
        return None if snap.encode(dict(v), id) == snap.encode(w, id) else f"{short(v)} -> {short(w)}"
    if isinstance(v, dict):
        if set(v) != set(w):
            return f"{short(v)} -> {short(w)}"
        for k in v:
            bad = same_but_linked(v[k], w[k])
            if bad:
                return bad
        return None
    return None if snap.encode(v, id) == snap.encode(w, id) else f"{short(v)} became {short(w)}"


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.08:
        return versions(ctx)
    g = gen.Graph(rng, size=rng.choice([1, 2, 3, 4]), links=rng.random() < 0.6)
    if rng.random() < 0.3:
        obj = g.container()
        ctx.ev("containers", not isinstance(obj, BaseEntity))
    else:
        obj = g.root()
    entities = snap.reachable(obj)
    which = rng.random()
    if which < 0.2:
        lacking = [e for e in entities if not e.uids]
        if lacking:
            ctx.raises(ValueError, lambda: flatten(obj), "flatten without a scope of entities "
                                                         "without uids")
            ctx.check(all(not e.uids for e in lacking), "a refused flatten assigned uids")
            ctx.ev("flatten_refusals")
        check_flatten(ctx, obj, flatten(obj, scope=rng.choice(["auto", "flat", "", " ",
                                                                          "A" * 50])))
        ctx.ev("flatten_calls")
        check_flatten(ctx, obj, flatten(obj))
    elif which < 0.35 and isinstance(obj, BaseEntity):
        thin = json.loads(GEMDJson(scope="thin").thin_dumps(obj))
        ctx.check(nested_entity(thin) is None, "a thin document nests an entity")
        ctx.check(thin.get("type") == type(obj).typ, "a thin document has the wrong type")
        for f, v in snap.hard_fields(obj):
            ctx.check(f in thin, lambda: f"{f} is missing from the thin document")
            json_matches(ctx, v, thin[f], f)
        ctx.ev("thin_documents")
    else:
        coder = rng.choice([gj, GEMDJson(), GEMDJson(scope="x"), GEMDJson(scope="")])
        text = coder.dumps(obj)
        check_document(ctx, obj, json.loads(text))
        ctx.ev("documents")
        ctx.check(coder.dumps(obj) == text, "serializing twice gave different documents")
        ctx.ev("repeat_dumps")
    if len(entities) >= 2:
        ctx.sig(shape(entities), which < 0.2, which < 0.35)
    if len(entities) > 6:
        ctx.sample({"entities": [type(e).__name__ for e in entities]})


def versions(ctx):
    """What is there twice, under the same uids, is one entry: each link leads to one."""
    rng = ctx.rng
    g = gen.Graph(rng, size=rng.choice([1, 2, 3]), links=False, uid=rng.choice(["all", "single"]))
    root = g.root()
    for e in snap.reachable(root):
        if not e.uids:
            e.add_uid("late", f"late {id(e)}")
    again = rng.choice([copy.deepcopy, GEMDJson().copy])(root)
    both = rng.choice([[root, again], (again, root), {"a": root, "b": again},
                       [[root], {"again": again}, again]])
    uids = {p for e in snap.reachable(root) for p in dict(e.uids).items()}
    text = GEMDJson().dumps(both)
    doc = json.loads(text)
    for what, found in (
            ("document", [list(e["uids"].items()) for e in doc["context"]]),
            ("flattened list", [list(dict(e.uids).items()) for e in flatten(both)])):
        flat = [p for x in found for p in x]
        ctx.check(len(set(flat)) == len(flat), lambda: f"uids of two versions are in the {what} "
                                                       f"{len(flat) - len(set(flat))} times more")
        ctx.check(set(flat) == uids, lambda: f"uids {uids ^ set(flat)} differ in the {what}")
    known = set()
    for entry in doc["context"]:
        for link in link_dicts(entry):
            ctx.check((link["scope"], link["id"]) in known, lambda: f"link {link} comes too early")
        known.update(entry["uids"].items())
    ctx.check(all((k["scope"], k["id"]) in known for k in link_dicts(doc["object"])),
              "a link of the object part leads nowhere")
    ctx.check(len(snap.reachable(GEMDJson().loads(text))) == len(doc["context"]),
              "loading two versions gave more objects than entries")
    ctx.ev("versions")


def _cake(ctx):
    from gemd.demo.cake import make_cake
    cake = make_cake(seed=3)
    check_document(ctx, cake, json.loads(gj.dumps(cake)))
    check_flatten(ctx, cake, flatten(cake, "auto"))
    check_document(ctx, [cake.spec, cake], json.loads(gj.dumps([cake.spec, cake])))


def _types(ctx):
    """Every concrete entity type announces its documented type string."""
    g = gen.Graph(ctx.rng, size=4)
    for e in g.everything:
        ctx.check(type(e).typ == ENTITY_TYPES[type(e).__name__], f"typ {type(e).typ}")


def _large(ctx):
    """Nothing depends on how many objects there are."""
    g = gen.Graph(ctx.rng, size=150, links=False)
    check_flatten(ctx, g.everything, flatten(g.everything, "auto"))
    check_document(ctx, g.everything, json.loads(gj.dumps(g.everything)))
    ctx.ev("large")


FIXED = [("cake", _cake), ("types", _types), ("large", _large)]
