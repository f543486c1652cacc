"""C03: operations that only read leave every object as it was."""
import gemd.json as gj
from gemd.entity.object import MaterialRun
from gemd.entity.object import MaterialSpec, ProcessSpec, MeasurementSpec, IngredientSpec
from gemd.entity.base_entity import BaseEntity
from gemd.entity.util import make_instance, complete_material_history
from gemd.json import GEMDJson
from gemd.util import flatten, make_index, recursive_flatmap, recursive_foreach, set_uuids, \
    substitute_links, substitute_objects

from vf import gen, snap
from vf.core import short
from vf.props.c01 import shape

RULE = ("The full public state of a random graph (including entities the argument does not "
        "reach) is recorded before and after a random sequence of read-only operations; "
        "non-trivial when the argument reaches at least two entities; the signature is the graph "
        "shape and the operations.")
OPS = ["dumps", "thin_dumps", "raw_dumps", "dump", "repr", "eq_self", "eq_other", "hash", "copy",
       "flatten", "substitute_links", "substitute_objects", "make_index", "foreach", "flatmap",
       "all_dependencies", "to_link", "as_dict", "make_instance", "history", "set_uuids",
       "in_list", "build", "eq_twin"]
REQUIRED = ["op:" + o for o in OPS] + ["states_compared", "uids_assigned", "refusals",
                                       "results_separate", "results_changed"]
N = {"quick": 2400, "thorough": 40000}
# Operations documented to assign a uid to entities that have none
ASSIGNS = {"dumps", "thin_dumps", "copy", "flatten", "history", "set_uuids", "eq_twin"}


def apply(ctx, op, obj, g, scope):
    """Run one operation; return the scope under which it may have assigned uids, or None."""
    rng = ctx.rng

    def separate(result, through=True):
        """The result shares nothing that can be changed with what was passed in."""
        mine = snap.mutables(obj, g.everything)
        mine.pop(id(g.everything), None)
        theirs = snap.mutables(result, through=through)
        both = [k for k in theirs if k in mine]
        ctx.check(not both, lambda: f"the result of {op} shares {theirs[both[0]][0]} = "
                                    f"{short(theirs[both[0]][1])} with the original "
                                    f"({mine[both[0]][0]})")
        ctx.ev("results_separate")
        # ... so that emptying every list and mapping of it cannot reach the original
        if rng.random() < 0.3:
            for _, x in theirs.values():
                if type(x) in (list, dict):
                    x.clear()
                elif isinstance(x, (list, dict)) and rng.random() < 0.5:
                    try:
                        x.clear()
                    except TypeError:
                        pass  # a derived list
            ctx.ev("results_changed")

    if op == "dumps":
        GEMDJson(scope=scope).dumps(obj)
        return scope
    if op == "thin_dumps":
        GEMDJson(scope=scope).thin_dumps(obj)
        return scope
    if op == "copy":
        separate(GEMDJson(scope=scope).copy(obj))
        return scope
    if op == "flatten":
        separate(flatten(obj, scope))
        return scope
    if op == "set_uuids":
        set_uuids(obj, scope)
        return scope
    if op == "history":
        if isinstance(obj, MaterialRun):
            separate(complete_material_history(obj))
            return "auto"
        return None
    if op == "raw_dumps":
        GEMDJson().raw_dumps(obj)
    elif op == "dump":
        if isinstance(obj, BaseEntity):
            separate(obj.dump())
    elif op == "build":
        if isinstance(obj, BaseEntity):
            d = obj.as_dict()
            separate(type(obj).build(d))
        # What is built from a dictionary leaves the dictionary as it was
        pieces = [obj] if isinstance(obj, BaseEntity) else []
        for e in rng.sample(g.everything, min(4, len(g.everything))):
            pieces += snap.parts(e)
        for x in rng.sample(pieces, min(6, len(pieces))):
            d = x.dump() if isinstance(x, BaseEntity) or rng.random() < 0.7 else x.as_dict()
            shape_before = snap.exact(d)
            for make in rng.sample([type(x).build, type(x).from_dict], rng.randint(1, 2)):
                try:
                    make(d)
                except (TypeError, ValueError, AttributeError):
                    ctx.ev("refusals")  # from_dict takes no nested dictionaries
                ctx.check(snap.exact(d) == shape_before,
                          lambda: f"{make.__name__} changed the dictionary of a "
                                  f"{type(x).__name__} passed in: {short(d)}")
            ctx.ev("dictionaries_kept")
    elif op == "repr":
        repr(obj)
        str(obj)
    elif op == "eq_self":
        obj == obj
    elif op == "eq_other":
        for other in rng.sample(g.everything, min(3, len(g.everything))):
            obj == other
            other == obj
    elif op == "eq_twin":
        if isinstance(obj, BaseEntity):
            # An equal object and a shuffled one; lists of any length
            twin = GEMDJson().copy(obj)
            for e in snap.reachable(twin):
                for f, v in snap.hard_fields(e):
                    if isinstance(v, list) and len(v) > 1 and rng.random() < 0.3 and \
                            not (snap.base_name(e) == "IngredientRun" and f == "labels"):
                        vs = list(v)
                        rng.shuffle(vs)
                        setattr(e, f, vs)
            world = snap.freeze([twin])
            obj == twin
            twin == obj
            bad = snap.diff_state(world, snap.freeze([twin]))
            ctx.check(bad is None, lambda: f"a comparison changed the other object: {bad}")
            return "auto"
    elif op == "in_list":
        obj in list(g.everything)
    elif op == "hash":
        if isinstance(obj, BaseEntity):
            hash(obj)
    elif op == "substitute_links":
        try:
            separate(substitute_links(obj, rng.choice([None, "id", "auto"]),
                                      allow_fallback=rng.random() < 0.5))
        except ValueError:
            ctx.ev("refusals")
    elif op == "substitute_objects":
        separate(substitute_objects(obj, make_index(g.everything)), through=False)
    elif op == "make_index":
        separate(make_index(obj), through=False)
    elif op == "foreach":
        recursive_foreach(obj, lambda e: None, apply_first=rng.random() < 0.5)
    elif op == "flatmap":
        recursive_flatmap(obj, lambda e: [e], unidirectional=rng.random() < 0.5)
    elif op == "all_dependencies":
        for e in g.everything:
            separate(e.all_dependencies(), through=False)
    elif op == "to_link":
        for e in g.everything:
            try:
                e.to_link(rng.choice([None, "id", "nope"]), allow_fallback=rng.random() < 0.5)
            except ValueError:
                ctx.ev("refusals")
    elif op == "as_dict":
        for e in g.everything:
            e.as_dict()
    elif op == "make_instance":
        if isinstance(obj, (MaterialSpec, ProcessSpec, MeasurementSpec, IngredientSpec)):
            try:
                made = make_instance(obj)
                new = [e for e in snap.reachable(made) if not any(e is x for x in g.everything)]
                ctx.check(any(made is e for e in new), "make_instance returned a known object")
            except TypeError:  # A link is not a spec
                ctx.check(any(snap.links_in(e) for e in snap.reachable(obj)),
                          "make_instance refused specs without links")
                ctx.ev("refusals")
    return None


def compare(ctx, op, before, after, before_uids, everything, scope, reached):
    """Compare states, allowing only what the operation documents."""
    bad = snap.diff_state(before, after)
    ctx.check(bad is None, lambda: f"{op} changed an object: {bad}")
    for e in everything:
        old, new = before_uids[id(e)], dict(e.uids)
        if old == new:
            continue
        ctx.check(op in ASSIGNS and not old and id(e) in reached and list(new) == [scope],
                  lambda: f"{op} changed the uids of a {type(e).__name__} from {old} to {new}")
        ctx.ev("uids_assigned")
    ctx.ev("states_compared")


def case(ctx):
    rng = ctx.rng
    g = gen.Graph(rng, size=rng.choice([1, 2, 3]), uid=rng.choice(["mixed", "mixed", "all"]))
    obj = g.container() if rng.random() < 0.2 else g.root()
    entities = snap.reachable(obj)
    reached = {id(e) for e in entities}
    ops = [rng.choice(OPS) for _ in range(3)]
    if isinstance(obj, MaterialRun) and rng.random() < 0.2:
        ops.append("history")
    spec = [e for e in g.everything if isinstance(e, (MaterialSpec, ProcessSpec, IngredientSpec))]
    for op in ops:
        target = rng.choice(spec) if op == "make_instance" and spec else obj
        before = snap.freeze(g.everything, uids=False)
        before_uids = {id(e): dict(e.uids) for e in g.everything}
        shell = snap.exact(obj)
        scope = apply(ctx, op, target, g, rng.choice(["auto", "other", "self"]))
        ctx.log(op)
        compare(ctx, op, before, snap.freeze(g.everything, uids=False), before_uids,
                g.everything, scope, reached)
        ctx.check(snap.exact(obj) == shell, lambda: f"{op} changed the container passed in: "
                                                    f"{short(obj)}")
        ctx.ev("op:" + op)
    if len(entities) >= 2:
        ctx.sig(shape(entities), tuple(ops))
        ctx.sample({"ops": ops, "entities": len(g.everything)})


def _cake(ctx):
    from gemd.demo.cake import make_cake
    cake = make_cake(seed=11)
    everything = snap.reachable(cake)
    for op in ("dumps", "flatten", "repr", "eq_self", "make_index", "history"):
        before = snap.freeze(cake, uids=False)
        uids = {id(e): dict(e.uids) for e in everything}

        class G:
            pass
        G.everything = everything
        scope = apply(ctx, op, cake, G, "auto")
        compare(ctx, op, before, snap.freeze(cake, uids=False), uids, everything, scope,
                {id(e) for e in everything})
    gj.dumps(cake)


FIXED = [("cake", _cake)]
