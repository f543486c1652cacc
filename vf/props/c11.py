"""C11: references and links can be exchanged for one another without loss."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun, ProcessRun
from gemd.util import make_index, substitute_links, substitute_objects

from vf import gen, snap
from vf.core import short
from vf.props.c05 import tree

RULE = ("Random acyclic graphs and nested containers are taken through substitute_links and "
        "substitute_objects, in place and by copy, with preferred scopes in any case, with and "
        "without fallback, with full, partial, tuple-keyed and empty indices; expectations are "
        "computed from the original objects; signature: (mode, graph shape, scope, index).")
REQUIRED = ["large", "links_by_copy", "links_in_place", "restored_by_copy", "restored_in_place",
            "scope_preferred", "scope_fallback", "scope_refused", "scope_refused_in_place",
            "no_uid_refused", "partial_index", "tuple_index", "unresolved_links_kept",
            "containers", "aliases_kept", "soft_restored", "keys_in_place"]
N = {"quick": 3600, "thorough": 60000}


def link_ok(e, link, scope):
    """Whether link stands for e under the preferred scope (or any, if e lacks it)."""
    if not isinstance(link, LinkByUID):
        return False
    uids = {k.lower(): v for k, v in e.uids.items()}
    if uids.get(link.scope.lower(), None) != link.id or link.scope.lower() not in uids:
        return False
    return scope is None or scope.lower() not in uids or link.scope.lower() == scope.lower()


def linked(x, y, scope, top=True, path="$"):
    """Check y is x with every reference below the top turned into a link; None or why not."""
    if isinstance(x, BaseEntity) and not top:
        return None if link_ok(x, y, scope) else \
            f"{path}: {type(x).__name__} with uids {dict(x.uids)} became {short(y)} " \
            f"(scope {scope!r})"
    if isinstance(x, DictSerializable):
        if type(x) is not type(y):
            return f"{path}: {type(x).__name__} became {type(y).__name__}"
        for f, v in snap.hard_fields(x):
            bad = linked(v, getattr(y, f), scope, False, f"{path}.{f}")
            if bad:
                return bad
        return None
    if isinstance(x, dict):
        if not isinstance(y, dict) or set(x) != set(y):
            return f"{path}: keys {list(x)} became {short(y)}"
        pairs = [(f"[{k!r}]", x[k], y[k]) for k in x]
    elif isinstance(x, (list, tuple)):
        if isinstance(x, tuple) != isinstance(y, tuple) or not isinstance(y, (list, tuple)) or \
                len(x) != len(y):
            return f"{path}: {short(x)} became {short(y)}"
        pairs = [(f"[{i}]", v, w) for i, (v, w) in enumerate(zip(x, y))]
    else:
        return None if snap.encode(x, id) == snap.encode(y, id) else \
            f"{path}: {short(x)} became {short(y)}"
    for p, v, w in pairs:
        bad = linked(v, w, scope, False, path + p)
        if bad:
            return bad
    return None


def some_scope(rng, g):
    pool = [k for e in g.everything for k in e.uids] or ["id"]
    s = rng.choice(pool)
    t = rng.choice([s, s.upper(), s.lower(), s.swapcase()])
    return rng.choice([None, s, t if t.lower() == s.lower() else s, "no-such-scope"])


def some_index(ctx, g):
    """Index of some or all of the entities, in one of the accepted forms."""
    rng = ctx.rng
    chosen = g.everything
    if rng.random() < 0.4:
        chosen = rng.sample(g.everything, rng.randint(0, len(g.everything)))
        ctx.ev("partial_index")
    form = rng.choice(["make_index", "links", "tuples"])
    if form == "make_index" and chosen is not g.everything:
        form = "links"
    if form == "make_index":
        return make_index(g.everything), {id(e) for e in chosen}, form
    key = LinkByUID if form == "links" else (lambda s, i: (s, i))
    if form == "tuples":
        ctx.ev("tuple_index")
    return {key(s, i): e for e in chosen for s, i in e.uids.items()}, \
        {id(e) for e in chosen}, form


def restored(x, z, known, top=True, path="$"):
    """Check z is x with its direct references written out, or left as links if not known."""
    if isinstance(x, BaseEntity) and not top:
        if id(x) not in known:
            return None if link_ok(x, z, None) else f"{path}: unknown entity became {short(z)}"
        return None if tree(x) == tree(z) else \
            f"{path}: {short(tree(x), 400)} became {short(tree(z), 400)}"
    if isinstance(x, DictSerializable):
        if type(x) is not type(z):
            return f"{path}: {type(x).__name__} became {type(z).__name__}"
        pairs = [("." + f, v, getattr(z, f)) for f, v in snap.hard_fields(x)]
    elif isinstance(x, dict):
        if not isinstance(z, dict) or set(x) != set(z):
            return f"{path}: {short(x)} became {short(z)}"
        pairs = [(f"[{k!r}]", x[k], z[k]) for k in x]
    elif isinstance(x, (list, tuple)):
        if isinstance(x, tuple) != isinstance(z, tuple) or len(x) != len(z):
            return f"{path}: {short(x)} became {short(z)}"
        pairs = [(f"[{i}]", v, w) for i, (v, w) in enumerate(zip(x, z))]
    else:
        return None if snap.encode(x, id) == snap.encode(z, id) else \
            f"{path}: {short(x)} became {short(z)}"
    for p, v, w in pairs:
        bad = restored(v, w, known, False, path + p)
        if bad:
            return bad
    return None


def by_copy(ctx, g):
    rng = ctx.rng
    x = rng.choice(g.everything) if rng.random() < 0.5 else g.container()
    scope = some_scope(rng, g)
    if isinstance(x, (list, dict, tuple)):
        ctx.ev("containers")
    direct = snap.children(x, soft=False) if not isinstance(x, (list, dict, tuple)) \
        else snap.children([x], soft=False)
    if any(not e.uids for e in direct):
        ctx.raises(ValueError, lambda: substitute_links(x, scope=scope), "a reference without uids")
        ctx.ev("no_uid_refused")
        return "refused"
    missing = scope is not None and any(scope not in e.uids for e in direct)
    if missing:
        ctx.raises(ValueError, lambda: substitute_links(x, scope=scope, allow_fallback=False),
                   f"scope {scope!r} without fallback")
        ctx.ev("scope_refused")
        ctx.ev("scope_fallback")
        y = substitute_links(x, scope=scope)
    else:
        y = substitute_links(x, scope=scope, allow_fallback=rng.random() < 0.5)
        if scope is not None and direct:
            ctx.ev("scope_preferred")
    bad = linked(x, y, scope)
    ctx.check(bad is None, lambda: f"substitute_links: {bad}")
    ctx.ev("links_by_copy", len(direct))
    if isinstance(x, (DictSerializable, list, dict)):
        ctx.check(y is not x, "substitute_links returned its argument, not a copy")
    # and back, with links under their exact scopes
    y = substitute_links(x)
    index, known, form = some_index(ctx, g)
    z = substitute_objects(y, index)
    # A container's own entities are references too
    bad = restored(x, z, known)
    ctx.check(bad is None, lambda: f"substitute_objects after substitute_links: {bad}")
    ctx.ev("restored_by_copy")
    if g.dangling:
        ctx.ev("unresolved_links_kept")
    ctx.check(tree(substitute_objects(x, {})) == tree(x), "an empty index changed something")
    return (form, type(x).__name__, scope is None, len(direct))


def hard_state(g):
    return {id(e): tuple((f, snap.encode(v, id)) for f, v in snap.hard_fields(e))
            for e in g.everything}


def soft_state(g):
    out = {}
    for e in g.everything:
        for f, v in snap.soft_fields(e):
            out[(id(e), f)] = sorted(id(x) for x in v) if isinstance(v, list) else \
                (None if v is None else id(v))
    return out


def first_change(g, before, after, names=True):
    for e in g.everything:
        if before[id(e)] != after[id(e)]:
            for p, q in zip(before[id(e)], after[id(e)]):
                if p != q:
                    return f"{type(e).__name__} {p[0]}: {short(p[1])} became {short(q[1])}"
    return None


class Saved:
    """References of an entity, kept so that they can be compared after an in-place change."""

    def __init__(self, e):
        self.fields = [(f, self._copy(v)) for f, v in snap.hard_fields(e)]
        self.kind = type(e).__name__

    def _copy(self, v):
        if isinstance(v, BaseEntity) or isinstance(v, LinkByUID):
            return v
        if isinstance(v, DictSerializable):
            return ("object", type(v), [(f, self._copy(w)) for f, w in snap.hard_fields(v)])
        if isinstance(v, list):
            return [self._copy(w) for w in v]
        return v

    def check(self, e, scope):
        for f, v in self.fields:
            bad = self._linked(v, getattr(e, f), scope, f"{self.kind}.{f}")
            if bad:
                return bad
        return None

    def _linked(self, v, w, scope, path):
        if isinstance(v, tuple) and v and v[0] == "object":
            if type(w) is not v[1]:
                return f"{path}: {v[1].__name__} became {short(w)}"
            for f, u in v[2]:
                bad = self._linked(u, getattr(w, f), scope, f"{path}.{f}")
                if bad:
                    return bad
            return None
        if isinstance(v, list):
            if not isinstance(w, list) or len(v) != len(w):
                return f"{path}: list of {len(v)} became {short(w)}"
            for i, (a, b) in enumerate(zip(v, w)):
                bad = self._linked(a, b, scope, f"{path}[{i}]")
                if bad:
                    return bad
            return None
        return linked(v, w, scope, False, path)


def in_place(ctx, g):
    """Entities: link one or all in place, then restore."""
    rng = ctx.rng
    hard, soft = hard_state(g), soft_state(g)
    index = make_index(g.everything)
    if rng.random() < 0.3:
        index = {(k.scope, k.id): v for k, v in index.items()}
        ctx.ev("tuple_index")
    scope = some_scope(rng, g)
    chosen = g.everything if rng.random() < 0.5 else \
        rng.sample(g.everything, rng.randint(1, min(4, len(g.everything))))
    # Restoring looks links up exactly as they are written in the index
    if scope is not None:
        scope = scope if all(scope in list(e.uids) or scope not in e.uids
                             for e in g.everything) else None
    saved = {id(e): Saved(e) for e in g.everything}
    for e in chosen:
        lacking = scope is not None and any(scope not in c.uids
                                            for c in snap.children(e, soft=False))
        if lacking:
            ctx.raises(ValueError, lambda: substitute_links(e, scope=scope, allow_fallback=False,
                                                            inplace=True),
                       f"scope {scope!r} in place without fallback")
            ctx.ev("scope_refused_in_place")
        r = substitute_links(e, scope=scope, inplace=True,
                             allow_fallback=lacking or rng.random() < 0.5)
        ctx.check(r is e, "substitute_links in place returned another object")
        bad = saved[id(e)].check(e, scope)
        ctx.check(bad is None, lambda: f"substitute_links in place: {bad}")
        ctx.ev("links_in_place")
        if snap.base_name(e) == "IngredientRun":
            continue
    now = hard_state(g)
    ids = {id(e) for e in chosen}
    for e in g.everything:
        if id(e) in ids or snap.base_name(e) == "IngredientRun":
            continue
        for p, q in zip(hard[id(e)], now[id(e)]):
            # the name and labels of an ingredient run come from its spec
            ctx.check(p == q, lambda: f"linking other entities in place changed "
                                      f"{type(e).__name__} {p[0]}")
    target = list(chosen)
    if rng.random() < 0.4:
        target = {"a": target, "b": (chosen[0],)}
    r = substitute_objects(target, index, inplace=True)
    ctx.check(r is target, "substitute_objects in place returned another container")
    bad = first_change(g, hard, hard_state(g))
    ctx.check(bad is None, lambda: f"linking and restoring in place: {bad}")
    ctx.ev("restored_in_place", len(chosen))
    after = soft_state(g)
    for k in soft:
        e = next(x for x in g.everything if id(x) == k[0])
        ctx.check(soft[k] == after[k],
                  lambda: f"linking and restoring in place changed {type(e).__name__}.{k[1]}")
        ctx.ev("soft_restored")
    return ("in place", len(chosen), scope is None)


def container_in_place(ctx, g):
    """Containers are changed in place; shared parts stay shared."""
    rng = ctx.rng
    shared = [rng.choice(g.everything), 1, "x"]
    inner = {"k": rng.choice(g.everything), "same": shared, "n": None, "t": True}
    outer = [shared, inner, shared, rng.choice(g.everything), (rng.choice(g.everything), 1.0),
             1, 1.0, True, "text", inner]
    rng.shuffle(outer)
    plain = list(outer)
    if any(not e.uids for e in snap.children([outer], soft=False)):
        return "skipped"
    hard, soft = hard_state(g), soft_state(g)
    keep = {"shared": list(shared), "inner": dict(inner), "outer": list(outer)}
    r = substitute_links(outer, inplace=True)
    ctx.check(r is outer, "substitute_links in place returned another list")

    def same_shape(links):
        def ok(x, y):
            if isinstance(x, BaseEntity):
                return link_ok(x, y, None) if links else y is x
            if isinstance(x, tuple):
                return isinstance(y, tuple) and all(ok(a, b) for a, b in zip(x, y))
            if x is shared or x is inner:
                return y is x
            return type(x) is type(y) and x == y
        return (all(ok(x, y) for x, y in zip(keep["outer"], outer)) and len(plain) == len(outer)
                and all(ok(x, y) for x, y in zip(keep["shared"], shared)) and len(shared) == 3
                and list(keep["inner"]) == list(inner)
                and all(ok(keep["inner"][k], inner[k]) for k in inner))
    ctx.check(same_shape(True), lambda: f"substitute_links in place made {short(outer, 800)}")
    ctx.ev("containers")
    substitute_objects(outer, make_index(g.everything), inplace=True)
    ctx.check(same_shape(False), lambda: f"substitute_objects in place made {short(outer, 800)}")
    ctx.ev("aliases_kept")
    ctx.check(first_change(g, hard, hard_state(g)) is None and soft == soft_state(g),
              "linking a container in place changed the entities in it")
    if rng.random() < 0.7:
        keyed_in_place(ctx, g)
        ctx.check(first_change(g, hard, hard_state(g)) is None and soft == soft_state(g),
                  "linking a dictionary in place changed the entities in it")
    return ("container in place", tuple(type(x).__name__ for x in plain))


def keyed_in_place(ctx, g):
    """Keys are substituted as values are, each with the value that is its own."""
    rng = ctx.rng
    pool = rng.sample(g.everything, min(len(g.everything), rng.randint(1, 6)))
    d, expected = {}, []
    for e in pool:
        k = rng.choice([lambda: e, lambda: e, lambda: (e, 1), lambda: ((e,), "x"),
                        lambda: f"key {len(d)}", lambda: len(d)])()
        v = rng.choice([lambda: rng.choice(pool), lambda: e, lambda: 1, lambda: None,
                        lambda: [rng.choice(pool), "x"], lambda: (rng.choice(pool),),
                        lambda: {rng.choice(pool): rng.choice(pool)}])()
        d[k] = v
    shallow = {id(v): (list(v) if isinstance(v, list) else list(v.items()))
               for v in d.values() if isinstance(v, (list, dict))}
    expected = list(d.items())
    scope = some_scope(rng, g)
    if scope and not all(scope in list(e.uids) or scope not in e.uids for e in g.everything):
        scope = None  # restoring looks links up exactly as they are written in the index
    whole = rng.choice([d, [d], {"d": d, "again": d}])

    def fits(x, y, links):
        if isinstance(x, BaseEntity):
            return link_ok(x, y, scope) if links else y is x
        if isinstance(x, tuple):
            return type(y) is tuple and len(x) == len(y) and \
                all(fits(a, b, links) for a, b in zip(x, y))
        if isinstance(x, list):
            return y is x and len(y) == len(shallow[id(x)]) and \
                all(fits(a, b, links) for a, b in zip(shallow[id(x)], y))
        if isinstance(x, dict):
            return y is x and same(shallow[id(x)], y, links)
        return type(x) is type(y) and x == y

    def same(items, now, links):
        return len(items) == len(now) and all(
            any(fits(k, a, links) and fits(v, b, links) for a, b in now.items())
            for k, v in items)

    r = substitute_links(whole, inplace=True, scope=scope, allow_fallback=True)
    ctx.check(r is whole, "substitute_links in place returned another container")
    ctx.check(same(expected, d, True), lambda: f"linking a dictionary in place made {short(d)} "
                                               f"of {short(expected)}")
    ctx.ev("keys_in_place", sum(isinstance(k, LinkByUID) for k in d))
    r = substitute_objects(whole, make_index(g.everything), inplace=True)
    ctx.check(r is whole and same(expected, d, False),
              lambda: f"restoring a dictionary in place made {short(d)} of {short(expected)}")


def case(ctx):
    """One random exchange."""
    rng = ctx.rng
    mode = rng.choice([by_copy, by_copy, in_place, container_in_place])
    uid = rng.choice(["all", "all", "single"])
    if mode is by_copy and rng.random() < 0.15:
        uid = "mixed"
    g = gen.Graph(rng, uid=uid, size=rng.choice([1, 2, 3]), cycles=False,
                  links=rng.random() < 0.6, weird=mode is by_copy)
    what = mode(ctx, g)
    ctx.sig(what, len(g.everything), tuple(sorted((t.__name__, len(v))
                                                  for t, v in g.by_type.items())))
    ctx.sample({"mode": mode.__name__, "what": str(what), "entities": len(g.everything)})


def large(ctx):
    """Nothing depends on how many objects there are."""
    for mode in (by_copy, in_place, container_in_place):
        g = gen.Graph(ctx.rng, uid="all", size=100, cycles=False, links=True,
                      weird=mode is by_copy)
        mode(ctx, g)
    n = 3000
    processes = [ProcessRun(f"p{i}", uids={"id": str(i), "b": f"b{i}"}) for i in range(n)]
    index = make_index(processes)
    runs = [MaterialRun(f"m{i}", process=LinkByUID(["id", "b"][i % 2], [str(i), f"b{i}"][i % 2]))
            for i in range(n)]
    substitute_objects(runs, index, inplace=True)
    for m, p in zip(runs, processes):
        ctx.check(m.process is p and p.output_material is m, "a link in a large list")
    for m, p in zip(runs, processes):
        substitute_links(m, inplace=True, scope="b")
        ctx.check(isinstance(m.process, LinkByUID) and m.process.id == p.uids["b"]
                  and p.output_material is None, "an object in a large list")
    ctx.ev("large")


FIXED = [("large", large)]
