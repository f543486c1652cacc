"""C24: the material history lists every connected object once, flat, and can be rebuilt."""
import copy
import json

from gemd.entity.object import IngredientRun, MaterialRun, MeasurementRun, MeasurementSpec, \
    ProcessRun, ProcessSpec
from gemd.entity.template import ProcessTemplate
from gemd.entity.util import complete_material_history
from gemd.json import GEMDJson

from vf import gen, snap
from vf.core import short
from vf.props.c01 import shape
from vf.props.c02 import link_dicts, nested_entity

RULE = ("Random graphs with sharing, cycles, look-alikes and objects with no, one or several uids; "
        "the history taken from a material run (or any other object) is compared with an "
        "independent walk, and rebuilt by the JSON client; signature: shape of the graph.")
REQUIRED = ["large", "histories", "entries", "from_material", "from_other", "links_resolve",
            "rebuilt", "unidentified_objects", "unchanged", "dangling_kept", "shared", "deep"]
N = {"quick": 700, "thorough": 14000}


def case(ctx):
    """One history."""
    rng = ctx.rng
    if rng.random() < 0.75:
        g = gen.Graph(rng, links=rng.random() < 0.3, uid=rng.choice(["mixed", "all", "none"]),
                      size=rng.choice([1, 2, 3]), weird=rng.random() < 0.3)
        pool = [e for e in g.everything if isinstance(e, MaterialRun)]
        root = rng.choice(pool) if rng.random() < 0.8 else rng.choice(g.everything)
        dangling = {(x.scope, x.id) for x in g.dangling}
    else:
        root = gen.simple_history(rng, rng.randint(0, 2), 2)
        dangling = set()
    ctx.ev("from_material" if isinstance(root, MaterialRun) else "from_other")
    examine(ctx, root, dangling)


def examine(ctx, root, dangling):
    """Take the history of root and compare."""
    everything = snap.reachable(root)
    if any(not e.uids for e in everything):
        ctx.ev("unidentified_objects")
    uids_before = [dict(e.uids) for e in everything]
    before = snap.freeze([root], uids=False)
    history = complete_material_history(root)
    bad = snap.diff_state(before, snap.freeze([root], uids=False))
    ctx.check(bad is None, lambda: f"taking the history changed an object: {bad}")
    for e, u in zip(everything, uids_before):
        ctx.check(all(e.uids.get(k) == v for k, v in u.items()) and
                  (len(e.uids) == len(u) or not u), lambda: f"uids were {u}, are {dict(e.uids)}")
        ctx.check(bool(e.uids), "an object of the history has no uid")
    ctx.ev("unchanged")
    ctx.ev("histories")

    # every object once, by any of its uids
    ctx.check(isinstance(history, list) and all(isinstance(d, dict) for d in history),
              lambda: f"the history is {short(history)}")
    index = {}
    for e in everything:
        for scope, uid in e.uids.items():
            index[scope.lower(), uid] = e
    listed = []
    for d in history:
        ctx.check(bool(d.get("uids")), lambda: f"an entry without uids: {short(d)}")
        es = {id(index.get((s.lower(), u))) for s, u in d["uids"].items()}
        e = index.get(next((s.lower(), u) for s, u in d["uids"].items()))
        ctx.check(e is not None and es == {id(e)}, lambda: f"an entry of nothing: {short(d)}")
        ctx.check(d.get("type") == e.typ, lambda: f"a {e.typ} is listed as {d.get('type')}")
        ctx.check(d.get("name") == e.name, lambda: f"{e.name!r} is listed as {d.get('name')!r}")
        ctx.check(dict(d["uids"]) == dict(e.uids), "uids differ")
        listed.append(id(e))
        ctx.ev("entries")
        bad = nested_entity(d)
        ctx.check(not bad, lambda: f"an object inside an entry: {short(bad)}")
        for link in link_dicts({k: v for k, v in d.items()}):
            key = (link["scope"].lower(), link["id"])
            known = key in index or (link["scope"], link["id"]) in dangling
            ctx.check(known, lambda: f"a link to nothing in the history: {link}")
            ctx.ev("dangling_kept" if key not in index else "links_resolve")
    ctx.check(len(listed) == len(set(listed)), "an object is listed twice")
    ctx.check(set(listed) == {id(e) for e in everything},
              lambda: f"{len(set(listed))} objects listed, {len(everything)} connected")
    if len(everything) > 3:
        ctx.ev("shared")

    # rebuilt
    scope, uid = next(iter(root.uids.items()))
    doc = {"context": copy.deepcopy(history),
           "object": {"type": "link_by_uid", "scope": scope, "id": uid}}
    if len(everything) > 1:
        ordered(doc)
    back = GEMDJson().loads(json.dumps(doc))
    bad = snap.isomorphic(root, back)
    ctx.check(not bad, lambda: f"rebuilt from its history, the object differs: {bad}")
    ctx.ev("rebuilt")
    ctx.sig(shape(everything))
    ctx.sample({"objects": len(everything), "root": type(root).__name__})


def ordered(doc):
    """Put what is depended on first, as the client expects of a context."""
    out = []
    todo = list(doc["context"])
    # uids of entries still to come
    while todo:
        waiting = {}
        for d in todo:
            for s, u in d["uids"].items():
                waiting[s.lower(), u] = d
        ready = [d for d in todo if not any(
            waiting.get((x["scope"].lower(), x["id"])) not in (None, d) for x in link_dicts(d))]
        if not ready:
            out.extend(todo)  # cyclic through data the client resolves by itself
            break
        out.extend(ready)
        todo = [d for d in todo if not any(d is r for r in ready)]
    doc["context"] = out


def deep(ctx, n=25):
    """A long chain of processes."""
    last = None
    for i in range(n):
        p = ProcessRun(f"p{i}")
        if last is not None:
            IngredientRun(process=p, material=last)
        last = MaterialRun(f"m{i}", process=p)
        if i % 5 == 0:
            MeasurementRun(f"x{i}", material=last)
    examine(ctx, last, set())
    ctx.ev("deep")


def large(ctx, n=62):
    """A history of many objects."""
    spec = ProcessSpec("mix", template=ProcessTemplate("mixing"))
    p = ProcessRun("mix", spec=spec)
    root = MaterialRun("all", process=p)
    for i in range(n):
        m = MaterialRun(f"m{i}", process=ProcessRun(f"p{i}", spec=ProcessSpec(f"s{i}")),
                        uids={"id": f"m{i}"} if i % 2 else {})
        IngredientRun(process=p, material=m, notes=str(i))
    for i in range(20):
        MeasurementRun(f"q{i}", material=root, spec=MeasurementSpec(f"q{i}"))
    examine(ctx, root, set())
    ctx.ev("large")


FIXED = [("deep", deep), ("large", large)]
