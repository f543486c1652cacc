"""C09: identifiers are scoped case-insensitively, without losing or mixing any of them."""
import copy
import pickle
from collections import OrderedDict
from types import MappingProxyType

from gemd.entity.bounds import IntegerBounds
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate

from vf.core import Violation

RULE = ("Random histories of mapping operations, with keys that coincide up to case, on the "
        "case-insensitive mapping and on the uids of entities of every type, replayed on an "
        "independent model (ordered pairs keyed by the lower-cased scope); links are made from "
        "the resulting uids; signature: operations and outcomes.")
REQUIRED = ["reads", "writes", "conflicts_refused", "unchanged_after_refusal", "removals",
            "copies", "links_made", "links_refused", "link_equalities"]
N = {"quick": 12000, "thorough": 250000}

KEYS = ["id", "ID", "Id", "auto", "Auto", "my_id", "MY_ID", "key", "mapping", "self", "seq", "",
        "x y", "É", "é", "İ", "ß", "日本", "lower", "lowercase_dict"]
VALUES = ["1", "2", "a", "A", "", "None", None, 0, False]
INT = IntegerBounds(0, 1)
ENTITIES = [lambda **k: ProcessSpec("x", **k), lambda **k: ProcessRun("x", **k),
            lambda **k: MaterialSpec("x", **k), lambda **k: MaterialRun("x", **k),
            lambda **k: IngredientSpec("x", **k), lambda **k: IngredientRun(**k),
            lambda **k: MeasurementSpec("x", **k), lambda **k: MeasurementRun("x", **k),
            lambda **k: PropertyTemplate("x", bounds=INT, **k),
            lambda **k: ConditionTemplate("x", bounds=INT, **k),
            lambda **k: ParameterTemplate("x", bounds=INT, **k),
            lambda **k: MaterialTemplate("x", **k), lambda **k: MeasurementTemplate("x", **k),
            lambda **k: ProcessTemplate("x", **k)]


class Model:
    """Ordered list of [key, value], at most one per lower-cased key."""

    def __init__(self, pairs=()):
        self.rows = [list(p) for p in pairs]

    def row(self, key):
        return next((r for r in self.rows if r[0].lower() == key.lower()), None)

    def clash(self, key):
        r = self.row(key)
        return r is not None and r[0] != key

    def set(self, key, value):
        r = self.row(key)
        if r is None:
            self.rows.append([key, value])
        else:
            r[1] = value

    def remove(self, key):
        self.rows.remove(self.row(key))

    def copy(self):
        return Model(self.rows)


def consistent(pairs):
    """Whether a batch of pairs has no two keys that differ only by case."""
    seen = {}
    return all(seen.setdefault(k.lower(), k) == k for k, _ in pairs)


def same(x, y):
    """The same value of the same type (copies may not be the same object)."""
    return type(x) is type(y) and x == y


def agree(ctx, d, model, what):
    """The mapping shows exactly what the model says, through every way of reading."""
    rows = [tuple(r) for r in model.rows]
    ctx.check(list(d.items()) == rows, lambda: f"after {what}: items are {list(d.items())!r}, "
                                               f"expected {rows!r}")
    ctx.check(list(d) == list(d.keys()) == [k for k, _ in rows] and
              list(d.values()) == [v for _, v in rows] and len(d) == len(rows) and
              bool(d) == bool(rows), f"after {what}: keys, values or length disagree")
    ctx.check(dict(d) == dict(rows) and d == dict(rows), f"after {what}: not equal to {rows!r}")
    for k in KEYS:
        r = model.row(k)
        ctx.check((k in d) == (r is not None), lambda: f"after {what}: {k!r} in mapping is "
                                                       f"{k in d}, items {rows!r}")
        probe = object()
        got = d.get(k, probe)
        ctx.check(got is probe if r is None else same(got, r[1]),
                  lambda: f"after {what}: get({k!r}) is {got!r}, items {rows!r}")
        if r is None:
            try:
                d[k]
            except KeyError:
                pass
            else:
                raise Violation(f"after {what}: [{k!r}] found something, items {rows!r}")
            ctx.check(d.get(k) is None, f"after {what}: get({k!r}) is not None")
        else:
            ctx.check(same(d[k], r[1]), lambda: f"after {what}: [{k!r}] is {d[k]!r}, not {r[1]!r}")
        ctx.ev("reads")


def batch(rng, values):
    return [(rng.choice(KEYS), rng.choice(values)) for _ in range(rng.randint(0, 3))]


def dedupe(pairs):
    """What dict() makes of the pairs (last value wins, first position)."""
    return list(dict(pairs).items())


def step(ctx, d, model, values):
    """One operation; returns its short name and outcome."""
    rng = ctx.rng
    op = rng.choice(["set", "set", "set", "del", "pop", "pop default", "popitem", "update",
                     "update", "update kw", "update pairs", "ior", "ior pairs", "setdefault",
                     "setdefault", "clear", "copy", "reads"])
    k, v = rng.choice(KEYS), rng.choice(values)
    before = [tuple(r) for r in model.rows]
    result = None

    def attempt(f, ok, error, apply):
        nonlocal result
        try:
            result = f()
            out = None
        except Exception as e:
            out = e
        if ok:
            if out is not None:
                raise Violation(f"{what} on {before!r} raised {type(out).__name__}: {out}")
            apply()
            ctx.ev("writes")
        else:
            ctx.check(isinstance(out, error),
                      lambda: f"{what} on {before!r}: expected {error.__name__}, got {out!r}")
            ctx.ev("conflicts_refused" if error is ValueError else "absent_refused")
            ctx.ev("unchanged_after_refusal")

    what = f"{op} {k!r}"
    present = model.row(k) is not None
    ok = True
    if op == "set":
        ok = not model.clash(k)
        attempt(lambda: d.__setitem__(k, v), ok, ValueError, lambda: model.set(k, v))
    elif op == "del":
        ok = present
        attempt(lambda: d.__delitem__(k), ok, KeyError, lambda: model.remove(k))
        ctx.ev("removals", int(ok))
    elif op == "pop":
        ok = present
        want = model.row(k)
        attempt(lambda: d.pop(k), ok, KeyError, lambda: model.remove(k))
        ctx.check(not ok or result is want[1], lambda: f"{what} gave {result!r}, not {want!r}")
        ctx.ev("removals", int(ok))
    elif op == "pop default":
        want = model.row(k)
        probe = rng.choice([None, "default", 0])
        attempt(lambda: d.pop(k, probe), True, KeyError,
                lambda: model.remove(k) if present else None)
        ctx.check(result is (want[1] if present else probe),
                  lambda: f"{what} gave {result!r} from {before!r}")
    elif op == "popitem":
        ok = bool(model.rows)
        want = tuple(model.rows[-1]) if ok else None
        attempt(d.popitem, ok, KeyError, model.rows.pop)
        ctx.check(not ok or result == want, lambda: f"{what} gave {result!r}, not {want!r}")
        ctx.ev("removals", int(ok))
    elif op in ("update", "update kw", "update pairs", "ior", "ior pairs"):
        pairs = dedupe(batch(rng, values))
        extra = []
        if op == "update kw":
            extra = [(x, rng.choice(values)) for x in
                     rng.sample(["id", "ID", "auto", "key", "seq"], rng.randint(0, 2))]
            pairs = [p for p in pairs if p[0] not in dict(extra)]
        whole = pairs + extra
        what = f"{op} {whole!r}"
        ok = consistent(whole) and not any(model.clash(x) for x, _ in whole)
        if op == "update kw":
            f = lambda: d.update(dict(pairs), **dict(extra)) if pairs or rng.random() < 0.5 \
                else d.update(**dict(extra))  # noqa: E731
        elif op == "update":
            form = rng.choice([dict, OrderedDict, lambda p: MappingProxyType(dict(p))])
            f = lambda: d.update(form(pairs))  # noqa: E731
        elif op == "update pairs":
            f = lambda: d.update(rng.choice([list, tuple, iter])(pairs))  # noqa: E731
        else:
            def f():
                alias = d
                alias |= (dict(pairs) if op == "ior" else list(pairs))
                ctx.check(alias is d, "|= made a new mapping")
        attempt(f, ok, ValueError, lambda: [model.set(x, y) for x, y in whole])
    elif op == "setdefault":
        want = model.row(k)[1] if present else v
        attempt(lambda: d.setdefault(k, v), True, ValueError,
                lambda: None if present else model.set(k, v))
        ctx.check(result is want, lambda: f"{what} gave {result!r}, not {want!r}")
    elif op == "clear":
        if rng.random() < 0.7:
            return op, None
        attempt(d.clear, True, ValueError, model.rows.clear)
    elif op == "copy":
        way = rng.choice(["copy", "copy.copy", "deepcopy", "pickle", "construct"])
        twin = {"copy": d.copy, "copy.copy": lambda: copy.copy(d),
                "deepcopy": lambda: copy.deepcopy(d),
                "pickle": lambda: pickle.loads(pickle.dumps(d)),
                "construct": lambda: CaseInsensitiveDict(d)}[way]()
        what = way
        ctx.check(type(twin) is type(d), f"{way} gave a {type(twin).__name__}")
        agree(ctx, twin, model, way)
        # The copy lives its own life
        other = model.copy()
        for name in rng.sample(KEYS, 3):
            if not other.clash(name):
                twin[name] = "copy"
                other.set(name, "copy")
        if other.rows and rng.random() < 0.5:
            gone = other.rows[0][0]
            del twin[gone.swapcase() if gone.swapcase().lower() == gone.lower() else gone]
            other.remove(gone)
        agree(ctx, twin, other, f"writing to a {way}")
        ctx.ev("copies")
    agree(ctx, d, model, what)
    return op, ok


def construct(ctx, values):
    """Make a mapping; returns (mapping, model) or None when construction must be refused."""
    rng = ctx.rng
    pairs = dedupe(batch(rng, values))
    form = rng.choice(["none", "dict", "pairs", "iter", "kw", "both"])
    if form == "none":
        return CaseInsensitiveDict(), Model()
    if form == "kw":
        pairs = [p for p in pairs if p[0].isidentifier() and p[0] not in ("self", "seq")]
    make = {"dict": lambda: CaseInsensitiveDict(dict(pairs)),
            "pairs": lambda: CaseInsensitiveDict(pairs),
            "iter": lambda: CaseInsensitiveDict(iter(pairs)),
            "kw": lambda: CaseInsensitiveDict(**dict(pairs)),
            "both": lambda: CaseInsensitiveDict(dict(pairs), extra="e")}[form]
    if form == "both":
        pairs = pairs + [("extra", "e")]
    if not consistent(pairs):
        ctx.raises(ValueError, make, f"construction from {pairs!r}")
        ctx.ev("conflicts_refused")
        return None
    return make(), Model(pairs)


def mapping_case(ctx):
    """A mapping under a random history."""
    made = construct(ctx, VALUES)
    if made is None:
        return
    d, model = made
    agree(ctx, d, model, "construction")
    history = []
    for _ in range(ctx.rng.randint(2, 10)):
        history.append(step(ctx, d, model, VALUES))
    ctx.sig("mapping", tuple(history), len(model.rows))
    ctx.sample({"history": [h[0] for h in history], "final": dict(d)})


def uids_case(ctx):
    """The uids of an entity under a random history, and the links made from them."""
    rng = ctx.rng
    ids = ["1", "2", "a", "A", "", "x y"]
    make = rng.choice(ENTITIES)
    pairs = dedupe(batch(rng, ids))
    way = rng.choice(["dict", "proxy", "cid", "tuple", "none", "setter", "entity", "ordered"])
    if way in ("tuple",):
        pairs = [(rng.choice(KEYS), rng.choice(ids))]
    if way == "none":
        pairs = []
    if not consistent(pairs):
        ctx.raises(ValueError, lambda: make(uids=dict(pairs)), f"uids {pairs!r}")
        ctx.ev("conflicts_refused")
        return
    given = {"dict": lambda: dict(pairs), "proxy": lambda: MappingProxyType(dict(pairs)),
             "cid": lambda: CaseInsensitiveDict(dict(pairs)), "tuple": lambda: pairs[0],
             "none": lambda: None, "setter": lambda: dict(pairs),
             "entity": lambda: rng.choice(ENTITIES)(uids=dict(pairs)).uids,
             "ordered": lambda: OrderedDict(pairs)}[way]()
    if way == "setter" or rng.random() < 0.2:
        e = make(uids={"old": "value"})
        e.uids = given
    else:
        e = make(uids=given)
    model = Model(pairs)
    agree(ctx, e.uids, model, f"uids from {way}")
    if isinstance(given, dict):
        given["later"] = "x"
        agree(ctx, e.uids, model, "changing the mapping that was given")
        kept = dict(given)
        e.uids["afterwards"] = "y"
        ctx.check(dict(given) == kept, "the mapping that was given changed with the uids")
        del e.uids["AFTERwards"]
    other = make()
    ctx.check(not other.uids, "a new entity has uids")
    history = [way]
    for _ in range(rng.randint(0, 5)):
        if rng.random() < 0.5:
            k, v = rng.choice(KEYS), rng.choice(ids)
            if model.clash(k):
                ctx.raises(ValueError, lambda: e.add_uid(k, v), f"add_uid({k!r}) on {model.rows}")
                ctx.ev("conflicts_refused")
            else:
                e.add_uid(k, v)
                model.set(k, v)
                ctx.ev("writes")
            agree(ctx, e.uids, model, f"add_uid {k!r}")
            history.append("add_uid")
        else:
            history.append(step(ctx, e.uids, model, ids))
    ctx.check(not other.uids, "uids leaked into another entity")
    links(ctx, e, model)
    ctx.sig("uids", type(e).__name__, tuple(history), len(model.rows))


def links(ctx, e, model):
    """Links made from an entity resolve to its ids, and only to those."""
    rng = ctx.rng
    rows = model.rows
    valid = {(r[0].lower(), r[1]) for r in rows}
    for scope in [None] + rng.sample(KEYS, 6):
        for fallback in (False, True):
            hit = model.row(scope) if scope is not None else None
            if not rows or (scope is not None and hit is None and not fallback):
                ctx.raises(ValueError, lambda: e.to_link(scope, allow_fallback=fallback),
                           f"to_link({scope!r}, allow_fallback={fallback}) on {rows!r}")
                ctx.ev("links_refused")
                continue
            link = e.to_link(scope, allow_fallback=fallback)
            ctx.check(isinstance(link, LinkByUID) and (link.scope.lower(), link.id) in valid,
                      lambda: f"to_link({scope!r}) gave {link!r} for {rows!r}")
            if hit is not None:
                ctx.check(link.scope.lower() == scope.lower() and link.id == hit[1],
                          lambda: f"to_link({scope!r}) gave {link!r} for {rows!r}")
            ctx.check(link == e and e == link, lambda: f"{link!r} is not equal to its entity")
            ctx.ev("links_made")
    before = [tuple(r) for r in rows]
    scope = rng.choice([None] + KEYS)
    hit = model.row("auto" if scope is None else scope)
    link = LinkByUID.from_entity(e, scope=scope) if rng.random() < 0.7 or scope is not None \
        else LinkByUID.from_entity(e)
    if not before:
        ctx.check(len(e.uids) == 1 and list(e.uids.items()) == [(link.scope, link.id)] and
                  link.scope == (scope if scope is not None else "auto") and
                  isinstance(link.id, str) and link.id,
                  lambda: f"from_entity({scope!r}) gave {link!r}, uids {dict(e.uids)!r}")
        model.set(link.scope, link.id)
    else:
        agree(ctx, e.uids, model, "from_entity")
        want = {(hit[0].lower(), hit[1])} if hit is not None else valid
        ctx.check((link.scope.lower(), link.id) in want,
                  lambda: f"from_entity({scope!r}) gave {link!r} for {before!r}")
    ctx.ev("links_made")
    for k in KEYS:
        r = model.row(k)
        for i in ("1", "a", "A", "", "nope"):
            want = r is not None and r[1] == i
            link = LinkByUID(k, i)
            ctx.check((e == link) is want and (link == e) is want and (e == (k, i)) is want
                      and (e != link) is not want,
                      lambda: f"entity with {rows!r} compared with {link!r}: expected {want}")
            ctx.ev("link_equalities")


def case(ctx):
    """One random history."""
    if ctx.rng.random() < 0.5:
        mapping_case(ctx)
    else:
        uids_case(ctx)


FIXED = []
