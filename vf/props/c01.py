"""C01: a JSON round trip preserves the whole graph."""
import io

import gemd.json as gj
from gemd.entity.base_entity import BaseEntity
from gemd.entity.object import MaterialRun, MeasurementRun, ProcessRun, IngredientRun
from gemd.json import GEMDJson

from vf import gen, snap
from vf.core import short

RULE = ("Random graphs of every entity type (missing, single and multiple uids, scopes differing "
        "per entity, equal ids under different scopes, dangling links, cycles, shared objects, "
        "hostile strings, extreme and non-finite numbers) and nested containers of them are "
        "serialized and reloaded through dumps/loads, dump/load and copy; non-trivial when the "
        "root reaches at least two entities; the signature is the shape of the document.")
REQUIRED = ["round_trips", "entities_compared", "graphs_with_sharing", "graphs_with_cycles",
            "containers", "files", "copies", "custom_scope", "autogenerated_uids",
            "deep", "large"]
N = {"quick": 3200, "thorough": 60000}
ASSUMPTIONS = ["no mapping uses the reserved key 'type'", "entities have pairwise distinct uids",
               "links left in the graph do not resolve within it"]


def shape(entities):
    """Signature of a graph."""
    num = {id(e): i for i, e in enumerate(entities)}
    return tuple((type(e).__name__, tuple(num[id(c)] for c in snap.children(e)))
                 for e in entities)


def has_cycle_or_sharing(entities):
    """(cyclic through materials, shared)."""
    indeg, cyc = {}, False
    for e in entities:
        for c in {id(x) for x in snap.children(e, soft=False)}:
            indeg[c] = indeg.get(c, 0) + 1
        if hasattr(e, "ingredients"):
            seen, todo = set(), [getattr(i, "material", None) for i in e.ingredients]
            while todo and not cyc:
                x = todo.pop()
                if not isinstance(x, BaseEntity) or id(x) in seen:
                    continue
                seen.add(id(x))
                p = x.process
                if p is e:
                    cyc = True
                elif isinstance(p, BaseEntity):
                    todo.extend(i.material for i in p.ingredients)
    return cyc, any(v > 1 for v in indeg.values())


def round_trip(ctx, obj, mode, scope, kwargs=None):
    """Run one round trip and compare."""
    coder = GEMDJson(scope=scope) if scope is not None else gj
    kwargs = kwargs or {}
    before = snap.freeze(obj, uids=False)
    if mode == "file":
        f = io.StringIO()
        coder.dump(obj, f, **kwargs)
        f.seek(0)
        back = coder.load(f)
        ctx.ev("files")
    elif mode == "copy":
        back = (coder if scope is not None else GEMDJson()).copy(obj)
        ctx.ev("copies")
    else:
        back = coder.loads(coder.dumps(obj, **kwargs))
    bad = snap.isomorphic(obj, back)
    ctx.check(bad is None, lambda: f"{mode} round trip of {short(type(obj))}: {bad}")
    after = snap.freeze(obj, uids=False)
    ctx.check(snap.diff_state(before, after) is None,
              lambda: f"serializing changed its input: {snap.diff_state(before, after)}")
    ctx.ev("round_trips")
    return back


def case(ctx):
    rng = ctx.rng
    g = gen.Graph(rng, size=rng.choice([1, 2, 3, 4]), links=rng.random() < 0.6)
    if rng.random() < 0.3:
        obj = g.container()
        if not isinstance(obj, BaseEntity):
            ctx.ev("containers")
    else:
        obj = g.root()
    entities = snap.reachable(obj)
    ctx.ev("entities_compared", len(entities))
    ctx.ev("autogenerated_uids", sum(not e.uids for e in entities))
    cyc, shared = has_cycle_or_sharing(entities)
    ctx.ev("graphs_with_sharing", shared)
    ctx.ev("graphs_with_cycles", cyc)
    mode = rng.choice(["string", "string", "string", "file", "copy"])
    scope = rng.choice([None, None, None, "auto", "my Scope", "self", "id", ""])
    ctx.ev("custom_scope", scope is not None)
    ctx.log("mode", mode, "scope", scope, "entities", len(entities))
    lacking = [e for e in entities if not e.uids]
    round_trip(ctx, obj, mode, scope, rng.choice([{}, {}, {"indent": 2}, {"ensure_ascii": False}]))
    for e in lacking:
        ctx.check(list(e.uids) == [scope if scope is not None else "auto"],
                  lambda: f"autogenerated uids {e.uids} for scope {scope!r}")
    ids = [e.uids[s] for e in lacking for s in e.uids]
    ctx.check(len(set(ids)) == len(ids), "autogenerated uids are not unique")
    if len(entities) >= 2:
        ctx.sig(shape(entities), mode)
    if len(entities) > 6:
        ctx.sample({"entities": [type(e).__name__ for e in entities], "mode": mode})
    # A second trip starts from complete uids
    if rng.random() < 0.3:
        round_trip(ctx, obj, "string", None)


def _demo(make):
    def run(ctx):
        obj = make()
        ctx.ev("entities_compared", len(snap.reachable(obj)))
        back = round_trip(ctx, obj, "string", None)
        ctx.check(back == obj, "the demo's round trip is not equal to the original")
        round_trip(ctx, back, "file", "other")
    return run


def _cake():
    from gemd.demo.cake import make_cake
    return make_cake(seed=27)



def _primitives(ctx):
    for x in (None, True, False, 0, -1, 1.0, 0.0, 1, "x", "", [], {}, [1, 1.0, True],
              (1, (2.0, "x")), {"a": [True, 1, 1.0, None]}, [[], {}, [[]]], [0, False, 0.0, -0.0]):
        round_trip(ctx, x, "string", None)
    g = gen.Graph(ctx.rng)
    e = g.root()
    round_trip(ctx, [e, e, {"again": e}, (1, True, 1.0, e)], "string", None)
    round_trip(ctx, {"1": 1, "true": True, "one": 1.0, "e": [e]}, "string", None)


def _strehlow():
    from gemd.demo.strehlow_and_cook import make_strehlow_objects
    return make_strehlow_objects()


def _chain(n):
    """A material made in n steps, each with a measurement."""
    out = None
    for i in range(n):
        p = ProcessRun(f"p{i}", tags=["t"])
        if out is not None:
            IngredientRun(process=p, material=out, notes=str(i))
        out = MaterialRun(f"m{i}", process=p)
        if i % 50 == 0:
            MeasurementRun(f"x{i}", material=out)
    return out


def _deep(ctx):
    """Nesting is limited neither by the links of a history nor by ordinary containers."""
    for n in (1, 10, 100, 700):
        round_trip(ctx, _chain(n), "string" if n > 10 else "copy", None)
    nested = _chain(3)
    for i in range(30):
        nested = [nested, i] if i % 2 else {"k": nested, "i": i}
    round_trip(ctx, nested, "string", None)
    ctx.ev("deep")


def _large(ctx):
    """Nothing depends on how many objects there are."""
    g = gen.Graph(ctx.rng, size=200, links=False)
    ctx.check(len(g.everything) > 1000, "not large")
    back = round_trip(ctx, g.everything, "string", None)
    ctx.check(len(back) == len(g.everything), "a large document lost something")
    processes = [ProcessRun(f"p{i}", uids={"id": str(i)} if i % 2 else {}) for i in range(5000)]
    runs = [MaterialRun(f"m{i}", process=p) for i, p in enumerate(processes)]
    ctx.rng.shuffle(runs)
    round_trip(ctx, runs, "copy", None)
    ctx.ev("large")


FIXED = [("deep", _deep), ("cake", _demo(_cake)), ("strehlow", _demo(_strehlow)),
         ("primitives", _primitives), ("large", _large)]
