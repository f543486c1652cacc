"""C04: documents written elsewhere load by the same rules."""
import io
import json
import random

import gemd.json as gj
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.json import GEMDJson

from vf import gen, snap
from vf.core import LOG, short
from vf.props.c01 import shape
from vf.props.c02 import link_dicts

RULE = ("A document made from a random graph is edited as another writer might have written it "
        "(other link scopes, other scope case, other entry order, extra fields, omitted optional "
        "fields, missing entries, unknown types, other formatting) and loaded; the expectation is "
        "derived from the original objects; the signature is graph shape and edit.")
EDITS = ["relink", "recase", "lookalikes", "reorder", "extra_fields", "omit_optional", "drop_entry",
         "unknown_type", "reformat", "reload_isolated"]
REQUIRED = ["edit:" + e for e in EDITS] + ["links_left_unresolved", "warnings_seen", "large"]
N = {"quick": 2700, "thorough": 45000}
ASSUMPTIONS = ["'context' precedes 'object' and entries follow the entries they refer to, as in "
               "every document the library writes"]
OPTIONAL = {"tags": [], "notes": None, "file_links": [], "description": None,
            "conditions": [], "parameters": [], "properties": [], "template": None, "spec": None,
            "process": None, "material": None, "source": None, "mass_fraction": None,
            "volume_fraction": None, "number_fraction": None, "absolute_quantity": None,
            "allowed_names": [], "allowed_labels": []}

# What other writers might add: names close to those the library uses, or special to Python
FIELD_NAMES = sorted({f for fs in snap.FIELDS.values() for f in fs} | {
    f for fs in snap.SOFT.values() for f in fs} | {
    "self", "cls", "typ", "d", "kwargs", "args", "_name", "__class__", "_id", "_private", "__", "_",
    "skip", "Name", "NAME", "name ", "id_", "model_type", "created_by", "", "0", "spec_id",
    "context", "object", "logger", "None", "class", "lambda", "@id", "$schema", "x-y", "日本",
    "default_template", "audit_info", "experimental_data_point", "dataset", "units_", "_uids"})


def _known_fields():
    from gemd.entity.dict_serializable import DictSerializable
    return {typ: snap.FIELDS[cls.__name__] for typ, cls in DictSerializable.class_mapping.items()
            if cls.__name__ in snap.FIELDS}


KNOWN_FIELDS = _known_fields()


def typed_dicts(x):
    """The serialized objects in a document, outermost first."""
    if isinstance(x, dict):
        if isinstance(x.get("type"), str) and x["type"] in KNOWN_FIELDS:
            yield x
        for v in list(x.values()):
            yield from typed_dicts(v)
    elif isinstance(x, list):
        for v in x:
            yield from typed_dicts(v)


def dump_doc(rng, doc):
    """Write a document in the way the library expects to find it."""
    doc = {"context": doc["context"], "object": doc["object"]}
    return json.dumps(doc, indent=rng.choice([None, None, 1, 4]),
                      ensure_ascii=rng.random() < 0.5)


def topological(rng, context):
    """Random order in which every entry follows those it refers to."""
    where = {}
    for i, entry in enumerate(context):
        for pair in entry["uids"].items():
            where[pair] = i
    needs = [{where[(li["scope"], li["id"])] for li in link_dicts(e)
              if (li["scope"], li["id"]) in where} for e in context]
    left, out, done = list(range(len(context))), [], set()
    while left:
        ready = [i for i in left if needs[i] <= done]
        i = rng.choice(ready)
        left.remove(i)
        done.add(i)
        out.append(context[i])
    return out


def recase(rng, s):
    """The same text in another case, when that is the same scope for a case-insensitive reader."""
    t = rng.choice([s.upper(), s.lower(), s.swapcase(), s.title()])
    return t if t.lower() == s.lower() else s


def case(ctx):
    rng = ctx.rng
    g = gen.Graph(rng, size=rng.choice([1, 2, 3]), links=rng.random() < 0.5)
    obj = g.container() if rng.random() < 0.2 else g.root()
    coder = rng.choice([gj, GEMDJson()])
    doc = json.loads(coder.dumps(obj))
    entities = snap.reachable(obj)
    by_uid = {p: e for e in entities for p in dict(e.uids).items()}
    edit = rng.choice(EDITS)
    ctx.log("edit", edit)
    LOG.records.clear()
    if edit == "relink":
        for li in link_dicts(doc):
            e = by_uid.get((li["scope"], li["id"]))
            if e is not None:
                li["scope"], li["id"] = rng.choice(list(dict(e.uids).items()))
        bad = snap.isomorphic(obj, coder.loads(dump_doc(rng, doc)))
        ctx.check(bad is None, lambda: f"links by another of an entity's uids: {bad}")
    elif edit == "recase":
        for li in link_dicts(doc):
            if (li["scope"], li["id"]) in by_uid:
                li["scope"] = recase(rng, li["scope"])
        bad = snap.isomorphic(obj, coder.loads(dump_doc(rng, doc)))
        ctx.check(bad is None, lambda: f"links with another case of the scope: {bad}")
    elif edit == "lookalikes":
        # Ids are taken literally: what differs by blanks or by the case of an id is another id
        near = []
        for s, i in rng.sample(sorted(by_uid), min(len(by_uid), 4)):
            s2, i2 = rng.choice([(s, i + " "), (s, " " + i), (s + " ", i), (" " + s, i),
                                 (s, i.swapcase()), (s, i + "\n"), (s, i[:-1]), (s, i + "x"),
                                 (s, ""), (s + "x", i), (s, "0" + i), (i, s)])
            if not any(s2.lower() == t.lower() and i2 == j for t, j in by_uid):
                near.append((s2, i2))
        doc["object"] = [doc["object"], *({"type": "link_by_uid", "scope": s, "id": i}
                                          for s, i in near)]
        back = coder.loads(dump_doc(rng, doc))
        ctx.check(all(type(x) is LinkByUID and (x.scope, x.id) == p
                      for x, p in zip(back[1:], near)),
                  lambda: f"links to {near} became {short(back[1:])}")
        bad = snap.isomorphic(obj, back[0])
        ctx.check(bad is None, lambda: f"a document with links to lookalikes: {bad}")
    elif edit == "reorder":
        doc["context"] = topological(rng, doc["context"])
        bad = snap.isomorphic(obj, coder.loads(dump_doc(rng, doc)))
        ctx.check(bad is None, lambda: f"another valid order of the context: {bad}")
    elif edit == "extra_fields":
        base = coder.loads(dump_doc(rng, doc))
        quiet = len(LOG.records)
        LOG.records.clear()
        extras = []
        for d in typed_dicts(doc):
            known = set(KNOWN_FIELDS.get(d["type"], ())) | set(d) | {"type"}
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                name = rng.choice(FIELD_NAMES) if rng.random() < 0.6 else f"extra_{len(extras)}"
                if name in known or name in d:
                    continue
                d[name] = rng.choice([1, None, "x", [1, 2], {"a": 1}, {"uids": {"id": "1"}},
                                      [], {}, "", False])
                extras.append(name)
        n = len(extras)
        back = coder.loads(dump_doc(rng, doc))
        bad = snap.isomorphic(obj, back) or snap.isomorphic(base, back)
        ctx.check(bad is None, lambda: f"unknown fields {extras} were not ignored: {bad}")
        ctx.check(len(LOG.records) - quiet >= n,
                  lambda: f"{n} unknown fields {extras} gave {len(LOG.records) - quiet} extra "
                          f"warnings")
        for name in set(extras):
            seen = sum(name in r for r in LOG.records)
            ctx.check(seen >= extras.count(name),
                      lambda: f"{seen} warnings name the unknown field {name!r}, which was given "
                              f"{extras.count(name)} times")
        ctx.ev("warnings_seen", n)
    elif edit == "omit_optional":
        expect = []
        for entry in doc["context"]:
            e = by_uid[next(iter(entry["uids"].items()))]
            for f in list(entry):
                if f in OPTIONAL and rng.random() < 0.3:
                    if f == "spec" and "labels" in entry:
                        continue  # name and labels of an ingredient run follow its spec
                    if f in ("process", "material", "template", "spec"):
                        continue  # these change reachability, see drop_entry
                    del entry[f]
                    expect.append((e, f))
        back = coder.loads(dump_doc(rng, doc))
        found = {p: x for x in snap.reachable(back) for p in dict(x.uids).items()}
        for e, f in expect:
            x = found.get(next(iter(dict(e.uids).items())))
            if x is not None:
                ctx.check(snap.encode(getattr(x, f), id) == snap.encode(OPTIONAL[f], id),
                          lambda: f"omitted {f} of a {type(e).__name__} loaded as "
                                  f"{short(getattr(x, f))}")
        gone = {(id(e), f) for e, f in expect}
        for pair, x in found.items():
            e = by_uid[pair]
            for f, v in snap.hard_fields(e):
                if (id(e), f) in gone or isinstance(v, (BaseEntity, list)):
                    continue
                ctx.check(snap.encode(v, id) == snap.encode(getattr(x, f), id),
                          lambda: f"{type(e).__name__}.{f} changed when others were omitted")
    elif edit == "drop_entry":
        victims = {id(by_uid[next(iter(c["uids"].items()))])
                   for c in doc["context"] if rng.random() < 0.3}
        doc["context"] = [c for c in doc["context"]
                          if id(by_uid[next(iter(c["uids"].items()))]) not in victims]
        back = coder.loads(dump_doc(rng, doc))
        check_partial(ctx, obj, back, victims)
    elif edit == "unknown_type":
        spots = doc["context"] + ([doc["object"]] if isinstance(doc["object"], dict)
                                  and "type" in doc["object"] else [])
        if spots:
            spot = rng.choice(spots if rng.random() < 0.5 else list(typed_dicts(doc)))
            spot["type"] = rng.choice(["nonsense", "", "Material_Run", "material_runs", "foo_bar",
                                       "base_entity", "dict_serializable", None, 0, 1.5, False,
                                       spot["type"] + " ", [], [spot["type"]], {}, {"a": 1}])
            e = ctx.raises(TypeError, lambda: coder.loads(dump_doc(rng, doc)),
                           f"a document with the unknown type {spot['type']!r}")
            ctx.check(not isinstance(spot["type"], str) or spot["type"] in str(e), "the error does not name the unknown type")
    elif edit == "reformat":
        text = json.dumps({"context": doc["context"], "object": doc["object"]},
                          separators=rng.choice([(",", ":"), (" , ", " : "), (",\n", ":\t")]))
        way = rng.randrange(5)
        if way == 0:
            back = coder.loads(text.encode("utf8"))
        elif way == 1:
            back = coder.load(io.StringIO(text))
        elif way == 2:
            back = coder.load(io.BytesIO(text.encode(rng.choice(["utf8", "utf-16"]))))
        else:
            back = coder.loads(text)
        bad = snap.isomorphic(obj, back)
        ctx.check(bad is None, lambda: f"another formatting: {bad}")
    else:
        # The same uids with other contents: nothing may leak from one load into the next
        text = dump_doc(rng, doc)
        first = coder.loads(text)
        other = json.loads(text)
        for entry in other["context"]:
            entry["tags"] = ["other"]
        second = coder.loads(dump_doc(rng, other))
        third = coder.loads(text)
        ids = [{id(x) for x in snap.reachable(y)} for y in (obj, first, second, third)]
        ctx.check(all(not (a & b) for i, a in enumerate(ids) for b in ids[i + 1:]),
                  "objects of one load were reused by another")
        ctx.check(all(list(x.tags) == ["other"] for x in snap.reachable(second)),
                  "the contents of an earlier load were used")
        bad = snap.isomorphic(obj, first) or snap.isomorphic(obj, third)
        ctx.check(bad is None, lambda: f"loading again gave something else: {bad}")
        # ... and links are not resolved by an earlier load
        if doc["context"]:
            lone = doc["context"][-1]
            back = coder.loads(json.dumps({"context": [lone], "object": {
                "type": "link_by_uid", "scope": next(iter(lone["uids"])),
                "id": next(iter(lone["uids"].values()))}}))
            ctx.check(isinstance(back, BaseEntity) and not [
                c for c in snap.reachable(back) if c is not back],
                "a link was resolved to an object of an earlier document")
    ctx.ev("edit:" + edit)
    if len(entities) >= 2:
        ctx.sig(shape(entities), edit)
        ctx.sample({"edit": edit, "entities": [type(e).__name__ for e in entities][:20]})


def check_partial(ctx, obj, back, victims):
    """References to missing entries stay links; everything else is as it was."""
    pairs, todo = {}, []

    def comp(x, y, path):
        if isinstance(x, BaseEntity) and id(x) in victims:
            ctx.check(isinstance(y, LinkByUID) and (y.scope, y.id) in list(dict(x.uids).items()),
                      lambda: f"{path}: reference to a missing {type(x).__name__} loaded as "
                              f"{short(y)}")
            ctx.ev("links_left_unresolved")
            return
        if isinstance(x, BaseEntity):
            ctx.check(type(x) is type(y), lambda: f"{path}: {type(x).__name__} -> {short(y)}")
            if id(x) in pairs:
                ctx.check(pairs[id(x)] is y, lambda: f"{path}: loaded as two objects")
            else:
                pairs[id(x)] = y
                todo.append((x, y, path))
        elif hasattr(x, "typ"):
            ctx.check(type(x) is type(y), lambda: f"{path}: {short(x)} -> {short(y)}")
            for f, v in snap.hard_fields(x):
                comp(v, getattr(y, f), f"{path}.{f}")
        elif isinstance(x, (list, tuple)):
            ctx.check(isinstance(y, (list, tuple)) and len(x) == len(y),
                      lambda: f"{path}: {short(x)} -> {short(y)}")
            for i, (v, w) in enumerate(zip(x, y)):
                comp(v, w, f"{path}[{i}]")
        elif isinstance(x, dict):
            ctx.check(isinstance(y, dict) and set(x) == set(y), lambda: f"{path}: keys differ")
            for k in x:
                comp(x[k], y[k], f"{path}[{k!r}]")
        else:
            ctx.check(snap.encode(x, id) == snap.encode(y, id),
                      lambda: f"{path}: {short(x)} -> {short(y)}")

    comp(obj, back, "$")
    while todo:
        x, y, path = todo.pop()
        for f, v in snap.hard_fields(x):
            if type(x).__name__ == "IngredientRun" and f in ("name", "labels") \
                    and id(x.spec) in victims:
                # kept from the document although the spec is not there
                ctx.check(snap.encode(v, id) == snap.encode(getattr(y, f), id),
                          lambda: f"{path}.{f}: {short(v)} -> {short(getattr(y, f))}")
                continue
            comp(v, getattr(y, f), f"{path}.{f}")


def _bad_documents(ctx):
    """Malformed references inside a document are refused, not silently accepted."""
    rng = random.Random(1)
    for typ, field in (("material_run", "spec"), ("ingredient_run", "material"),
                       ("measurement_run", "spec"), ("process_run", "spec")):
        tmpl = {"type": "property_template", "name": "t", "uids": {"id": "t"}, "tags": [],
                "description": None,
                "bounds": {"type": "integer_bounds", "lower_bound": 0, "upper_bound": 1}}
        entry = {"type": typ, "name": "n", "uids": {"id": "1"},
                 field: {"type": "link_by_uid", "scope": "id", "id": "t"}}
        doc = {"context": [tmpl, entry], "object": 1}
        ctx.raises(TypeError, lambda: gj.loads(dump_doc(rng, doc)),
                   f"a {typ} whose {field} is a property template")


def _large(ctx):
    """A document with thousands of entries is read like any other."""
    n = 6000
    context = [{"type": "process_run", "name": f"p{i}", "uids": {"id": f"p{i}", "Other": str(i)}}
               for i in range(n)]
    context += [{"type": "material_run", "name": f"m{i}", "uids": {"id": f"m{i}"},
                 "process": {"type": "link_by_uid", "scope": rng_scope(i), "id": f"p{n - 1 - i}"}}
                for i in range(n)]
    order = list(range(0, 2 * n, 7)) + [2 * n - 1]
    doc = {"context": context, "object": [
        {"type": "link_by_uid", "scope": "ID", "id": context[i]["uids"]["id"]} for i in order]}
    back = gj.loads(json.dumps(doc))
    for i, x in zip(order, back):
        ctx.check(isinstance(x, BaseEntity) and x.name == context[i]["name"],
                  lambda: f"entry {i} of a large document loaded as {short(x)}")
        if i >= n:
            ctx.check(isinstance(x.process, BaseEntity) and x.process.output_material is x
                      and x.process.name == f"p{2 * n - 1 - i}",
                      lambda: f"a reference in a large document loaded as {short(x.process)}")
    ctx.check(len({id(x) for x in back}) == len(order), "two entries came back as one")
    ctx.ev("large")


def rng_scope(i):
    """Another spelling of a scope."""
    return ["id", "ID", "Id"][i % 3]


FIXED = [("bad_documents", _bad_documents), ("large", _large)]
