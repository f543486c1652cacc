"""C13: dependencies are complete, and the writable order respects them."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.util import flatten, writable_sort_order

from vf import gen, snap
from vf.props.c01 import shape

RULE = ("Random graphs of every entity type with references in every field that can hold one "
        "(nested attributes included), as objects and as links; the dependencies reported by each "
        "entity are compared by identity with an independent reading of its fields, and ordered; "
        "signature: (type, kinds of its references).")
TYPES = ["PropertyTemplate", "ConditionTemplate", "ParameterTemplate", "MaterialTemplate",
         "MeasurementTemplate", "ProcessTemplate", "ProcessSpec", "ProcessRun", "MaterialSpec",
         "MaterialRun", "IngredientSpec", "IngredientRun", "MeasurementSpec", "MeasurementRun"]
REQUIRED = ["type:" + t for t in TYPES] + ["entity_dependencies", "link_dependencies",
                                           "orders_compared", "order_refused", "flat_orders"]
N = {"quick": 5000, "thorough": 80000}


def owned_links(x, top=True):
    """Links an entity holds in the fields it owns."""
    if isinstance(x, LinkByUID):
        return [x]
    if isinstance(x, BaseEntity) and not top:
        return []
    if type(x).__name__ in snap.FIELDS:
        return [y for _, v in snap.hard_fields(x) for y in owned_links(v, False)]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in owned_links(v, False)]
    return []


def case(ctx):
    """Dependencies and orders of one graph."""
    rng = ctx.rng
    g = gen.Graph(rng, size=rng.choice([2, 3, 4]), links=rng.random() < 0.7)
    for e in g.everything:
        name = type(e).__name__
        deps = e.all_dependencies()
        ctx.check(isinstance(deps, (set, frozenset)), f"{name} dependencies are not a set")
        want = {id(x): x for x in snap.children(e, soft=False)}
        got = [d for d in deps if isinstance(d, BaseEntity)]
        ids = [id(d) for d in got]
        lost = [x for k, x in want.items() if k not in ids]
        ctx.check(not lost, lambda: f"{name} does not report a {type(lost[0]).__name__} it refers "
                                    f"to among its dependencies")
        extra = [d for d in got if id(d) not in want]
        ctx.check(not extra and len(ids) == len(set(ids)),
                  lambda: f"{name} reports a {type(extra[0]).__name__} it does not refer to")
        ctx.ev("entity_dependencies", len(got))
        wl = {(x.scope, x.id) for x in owned_links(e)}
        links = [d for d in deps if isinstance(d, LinkByUID)]
        ctx.check({(x.scope, x.id) for x in links} == wl,
                  lambda: f"{name} reports links {links}, it holds {wl}")
        ctx.ev("link_dependencies", len(links))
        ctx.check(len(got) + len(links) == len(deps),
                  lambda: f"{name} reports something that is not a reference: {deps}")
        mine = writable_sort_order(e)
        ctx.check(mine == writable_sort_order(type(e).typ), "an entity and its type string differ")
        for d in got:
            ctx.check(writable_sort_order(d) < mine,
                      lambda: f"a {type(d).__name__} does not come before the {name} that needs it")
            ctx.ev("orders_compared")
        ctx.ev("type:" + name)
        ctx.sig(name, tuple(sorted(type(d).__name__ for d in deps)))
    bad = rng.choice([5, None, object(), "nonsense", "", LinkByUID("a", "b"), gen.value(rng),
                      gen.bounds(rng), ["process_spec"], "link_by_uid", "nominal_real"])
    ctx.raises(ValueError, lambda: writable_sort_order(bad), f"writable_sort_order({bad!r})")
    ctx.ev("order_refused")
    if rng.random() < 0.3:
        flat = flatten(rng.sample(g.everything, len(g.everything)), scope="auto")
        at = {}
        for i, e in enumerate(flat):
            for s, u in e.uids.items():
                at[(s, u)] = i
        for i, e in enumerate(flat):
            for link in owned_links(e):
                j = at.get((link.scope, link.id))
                ctx.check(j is None or j < i,
                          lambda: f"flatten lists a {type(e).__name__} before the "
                                  f"{type(flat[j]).__name__} it links to")
        ctx.ev("flat_orders")
    ctx.sample({"graph": str(shape(g.everything))[:300]})


FIXED = []
