"""C12: traversals visit every entity exactly once."""
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, MaterialSpec, MeasurementSpec, MaterialRun, ProcessRun, \
    IngredientRun
from gemd.entity.template import MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.util import make_index, recursive_foreach, recursive_flatmap, set_uuids

from vf import gen, snap
from vf.props.c01 import shape

RULE = ("Random graphs (cycles, shared and look-alike entities) in nested lists, tuples, dicts "
        "(as keys and values), sets and aliased containers are traversed; the visits are compared "
        "as identities with an independent reachability search; signature: (operation, graph "
        "shape).")
REQUIRED = ["large", "foreach_visits", "flatmap_visits", "flatmap_soft_visits", "indexed",
            "uids_assigned", "uids_kept", "order_checked", "apply_first_checked", "entity_keys",
            "sets", "cycles_walked", "lookalikes", "deep", "alike_together"]
N = {"quick": 4500, "thorough": 80000}


def container(ctx, g, depth=0):
    """A container that may hold entities anywhere."""
    rng = ctx.rng
    r = rng.random()
    if depth > 2 or r < 0.4:
        return rng.choice(g.everything)
    if r < 0.5:
        return rng.choice([gen.primitive(rng), b"bytes", bytearray(b"x"), gen.value(rng),
                           gen.bounds(rng), LinkByUID("id", "1"), ("id", "1"), frozenset([1])])
    if r < 0.53:
        alike = [rng.choice([ProcessSpec, MaterialTemplate, MaterialRun])("alike")]
        alike += [type(alike[0])("alike") for _ in range(rng.randint(1, 3))]
        ctx.ev("alike_together")
        return rng.choice([list, tuple, set, frozenset, lambda a: dict(enumerate(a)),
                           lambda a: dict(zip(a, reversed(a))), lambda a: {"k": (a[0], a[1])}])(alike)
    items = [container(ctx, g, depth + 1) for _ in range(rng.randint(0, 4))]
    if r < 0.65:
        if rng.random() < 0.2:
            items.append(items)  # a list may hold itself through entities or directly
            items.pop()
        return items
    if r < 0.75:
        return tuple(items)
    if r < 0.85:
        return {f"k{i}": x for i, x in enumerate(items)}
    if r < 0.93:
        es = rng.sample(g.everything, min(len(g.everything), rng.randint(0, 3)))
        ctx.ev("entity_keys", len(es))
        return {e: rng.choice([1, rng.choice(g.everything), [rng.choice(g.everything)]])
                for e in es}
    es = rng.sample(g.everything, min(len(g.everything), rng.randint(0, 3)))
    ctx.ev("sets")
    return rng.choice([set, frozenset])(es)


def exact(ctx, visits, want, what):
    """The visits are exactly the wanted entities, each once."""
    got = [id(v) for v in visits]
    twice = [v for v in visits if got.count(id(v)) > 1] if len(set(got)) != len(got) else []
    ctx.check(not twice, lambda: f"{what} visited a {type(twice[0]).__name__} "
                                 f"{got.count(id(twice[0]))} times")
    lost = [w for w in want if id(w) not in set(got)]
    ctx.check(not lost, lambda: f"{what} missed {len(lost)} of {len(want)} entities, e.g. a "
                                f"{type(lost[0]).__name__}")
    ids = {id(w) for w in want}
    extra = [v for v in visits if id(v) not in ids]
    ctx.check(not extra, lambda: f"{what} visited {short_type(extra[0])} that is not reachable")


def short_type(x):
    return f"a {type(x).__name__}"


def has_cycle(es):
    """Whether some entity reaches itself."""
    return any(any(x is e for c in snap.children(e) for x in snap.reachable(c)) for e in es)


def walk_case(ctx):
    rng = ctx.rng
    cycles = rng.random() < 0.5
    g = gen.Graph(rng, size=rng.choice([1, 2, 3]), cycles=cycles, links=rng.random() < 0.5)
    walk(ctx, g, cycles)


def walk(ctx, g, cycles):
    """All ways of walking one graph."""
    rng = ctx.rng
    if rng.random() < 0.5:
        # look-alikes: equal but not identical
        for _ in range(2):
            g.everything.append(rng.choice([ProcessSpec, MaterialTemplate, ProcessRun])("twin"))
        g.everything.append(type(g.everything[-1])("twin"))
        ctx.ev("lookalikes")
    root = container(ctx, g)
    if rng.random() < 0.3:
        root = [root, g.everything, tuple(g.everything), root]
    everything = snap.reachable(root)
    owned = snap.reachable(root, soft=False)
    if cycles and has_cycle(everything[:3]):
        ctx.ev("cycles_walked")
    before = snap.freeze(everything)

    for first in rng.sample([True, False], rng.randint(1, 2)):
        visits = []
        r = recursive_foreach(root, lambda e: visits.append(e) or 5, apply_first=first)
        ctx.check(r is None, "recursive_foreach returned something")
        exact(ctx, visits, everything, f"recursive_foreach(apply_first={first})")
        ctx.ev("foreach_visits", len(visits))
    for uni, want in ((True, owned), (False, everything)):
        visits = []
        sizes = {}

        def func(e):
            visits.append(e)
            n = sizes[id(e)] = len(sizes) % 3
            out = [(id(e), k) for k in range(n)]
            return rng.choice([list, tuple, iter])(out)
        res = recursive_flatmap(root, func, unidirectional=uni) if not uni or rng.random() < 0.5 \
            else recursive_flatmap(root, func)
        exact(ctx, visits, want, f"recursive_flatmap(unidirectional={uni})")
        ctx.check(isinstance(res, list)
                  and res == [(id(e), k) for e in visits for k in range(sizes[id(e)])],
                  "recursive_flatmap did not accumulate the results in the order of the calls")
        ctx.ev("flatmap_visits" if uni else "flatmap_soft_visits", len(visits))

    index = make_index(root)
    want = {(s, i): e for e in owned for s, i in e.uids.items()}
    ctx.check(len(index) == len(want), lambda: f"make_index has {len(index)} entries for "
                                               f"{len(want)} uids")
    for (s, i), e in want.items():
        ctx.check(index.get(LinkByUID(s, i)) is e and index.get((s, i)) is e,
                  lambda: f"make_index does not map {(s, i)} to its entity")
        ctx.ev("indexed")
    ctx.check(index.get(LinkByUID("nope", "nope")) is None and ("nope", "nope") not in index,
              "make_index answers for an unknown uid")
    ctx.check(snap.freeze(everything) == before, "a traversal changed the entities")

    scope = rng.choice(gen.SCOPES)
    old = {id(e): dict(e.uids) for e in everything}
    ctx.check(set_uuids(root, scope) is None, "set_uuids returned something")
    seen = set()
    for e in everything:
        if old[id(e)]:
            ctx.check(dict(e.uids) == old[id(e)], "set_uuids changed existing uids")
            ctx.ev("uids_kept")
        else:
            ctx.check(list(e.uids) == [scope] and isinstance(e.uids[scope], str)
                      and e.uids[scope] and e.uids[scope] not in seen,
                      lambda: f"set_uuids({scope!r}) left uids {dict(e.uids)}")
            seen.add(e.uids[scope])
            ctx.ev("uids_assigned")
    ctx.check(snap.freeze(everything, uids=False) ==
              {k: tuple(x for x in v if x[0] != "uids") for k, v in before.items()},
              "set_uuids changed more than uids")
    ctx.sig("walk", shape(everything), len(owned))
    ctx.sample({"reachable": len(everything), "owned": len(owned)})


def order_case(ctx):
    """Results come in the order of the lists they are found in."""
    rng = ctx.rng
    pool = [rng.choice([ProcessSpec, MaterialTemplate, MeasurementSpec, MaterialRun])(f"{i}")
            for i in range(rng.randint(1, 12))]
    nested = []
    todo = list(pool)
    while todo:
        k = rng.randint(1, len(todo))
        part, todo = todo[:k], todo[k:]
        nested.append(rng.choice([lambda p: p, tuple, lambda p: [p], lambda p: (1, p, "x")])(part))
    rng_root = rng.choice([nested, tuple(nested), pool, tuple(pool)])
    res = recursive_flatmap(rng_root, lambda e: [e.name])
    ctx.check(res == [str(i) for i in range(len(pool))],
              lambda: f"recursive_flatmap returned {res} for a list in numerical order")
    ctx.ev("order_checked")
    ctx.sig("order", tuple(type(x).__name__ for x in nested), len(pool))


def first_case(ctx):
    """apply_first decides whether the function sees an entity before its members are collected."""
    rng = ctx.rng
    cls, tcls = rng.choice([(ProcessSpec, ProcessTemplate), (MaterialSpec, MaterialTemplate),
                            (MeasurementSpec, MeasurementTemplate)])
    for first in (True, False, None):  # None: left to the documented default, False
        e = cls("e", template=tcls("t"))
        t = e.template
        visits = []

        def detach(x):
            visits.append(x)
            if x is e:
                e.template = None
        recursive_foreach([e], detach, **({} if first is None else {"apply_first": first}))
        want = [e] if first else [e, t]
        ctx.check(len(visits) == len(want) and all(any(v is w for v in visits) for w in want),
                  lambda: f"apply_first={first}: visited {[type(v).__name__ for v in visits]} "
                          f"when the function detaches the template")
        ctx.ev("apply_first_checked")
    ctx.sig("first", cls.__name__)


def case(ctx):
    """One random traversal."""
    r = ctx.rng.random()
    if r < 0.85:
        walk_case(ctx)
    elif r < 0.95:
        order_case(ctx)
    else:
        first_case(ctx)


def deep(ctx, n=1500):
    """A long chain, and containers nested many times."""
    everything, last = [], None
    for i in range(n):
        p = ProcessRun(f"p{i}")
        if last is not None:
            everything.append(IngredientRun(process=p, material=last))
        last = MaterialRun(f"m{i}", process=p)
        everything += [p, last]
    for first in (True, False):
        visits = []
        recursive_foreach(last, visits.append, apply_first=first)
        exact(ctx, visits, everything, "recursive_foreach along a long chain")
    exact(ctx, recursive_flatmap(last, lambda e: [e], unidirectional=False), everything,
          "recursive_flatmap along a long chain")
    set_uuids(last, "deep")
    ctx.check(all(set(e.uids) == {"deep"} for e in everything), "set_uuids along a long chain")
    nested = last
    for i in range(60):
        nested = rng_nest(i, nested)
    ctx.check(recursive_flatmap(nested, lambda e: [e]) == snap.reachable(nested, soft=False),
              "nested containers")
    visits = []
    recursive_foreach(nested, visits.append)
    exact(ctx, visits, everything, "recursive_foreach into nested containers")
    ctx.ev("deep")


def rng_nest(i, x):
    """One more container around x."""
    return [[x, i], (x, ), {"k": x}, [(x, x)]][i % 4]


def large(ctx):
    """Nothing depends on how many objects there are."""
    for n in (40, 120, 200):
        g = gen.Graph(ctx.rng, size=n, links=False)
        g.root = lambda g=g: g.everything
        walk(ctx, g, False)
        everything = snap.reachable(g.everything)
        visits = []
        recursive_foreach(g.everything, visits.append)
        exact(ctx, visits, everything, "recursive_foreach over many entities")
        exact(ctx, recursive_flatmap(g.everything, lambda e: [e], unidirectional=False),
              everything, "recursive_flatmap over many entities")
        index = make_index(g.everything)
        for e in everything:
            for s, i in e.uids.items():
                ctx.check(index[(s, i)] is e, "make_index over many entities")
    ctx.ev("large")


FIXED = [("deep", deep), ("large", large)]
