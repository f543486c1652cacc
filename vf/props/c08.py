"""C08: typed lists hold only what they may hold, however they are mutated."""
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import IntegerBounds
from gemd.entity.bounds.base_bounds import BaseBounds
from gemd.entity.bounds_validation import validation_level, WarningLevel
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MeasurementSpec, \
    MeasurementRun, IngredientSpec, MaterialRun
from gemd.entity.setters import validate_list
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.valid_list import ValidList
from gemd.entity.value import NominalInteger, NominalReal

from vf import gen
from vf.core import LOG, Violation

RULE = ("Random sequences of list mutations (every mutator of list, elements given as list, tuple, "
        "generator, iterator or the list itself; acceptable and unacceptable elements at any "
        "position) on every typed list of the model and on ValidList itself, replayed on a plain "
        "list; signature: (list kind, operations and outcomes).")
REQUIRED = ["accepted", "refused", "unchanged_after_refusal", "trigger_calls", "pairs_normalised",
            "fatal_refusals", "warnings_counted", "extended_slices", "plain_operations"]
N = {"quick": 9000, "thorough": 150000}

INT = IntegerBounds(0, 5)
STRANGERS = [lambda: 5, lambda: 1.5, lambda: None, lambda: {"a": 1}, lambda: object(),
             lambda: b"bytes", lambda: True, lambda: "text", lambda: "",
             lambda: PropertyTemplate("x", bounds=INT), lambda: ConditionTemplate("x", bounds=INT),
             lambda: ParameterTemplate("x", bounds=INT), lambda: ProcessSpec("x"),
             lambda: MaterialRun("x"), lambda: Property("x"), lambda: Condition("x"),
             lambda: Parameter("x"), lambda: PropertyAndConditions(Property("x")),
             lambda: FileLink("a", "b"), lambda: LinkByUID("id", "nowhere"),
             lambda: NominalInteger(1), lambda: str, lambda: INT]


class Kind:
    """A typed list: how to get one, what it accepts, and what it makes of an element."""

    def __init__(self, name, owner, get, make, classes, wrap=None, bad=None):
        self.name, self.owner, self.get, self.make = name, owner, get, make
        self.classes, self.wrap, self.bad = classes, wrap or (lambda x: x), bad

    def good(self, rng):
        return self.make(rng)

    def stranger(self, rng):
        if self.bad is not None and rng.random() < 0.5:
            return self.bad(rng)
        while True:
            v = rng.choice(STRANGERS)()
            if not isinstance(v, self.classes):
                return v


def field(owner, name):
    return owner, lambda o: getattr(o, name)


def _t(rng):
    return gen.text(rng)


def _value(rng):
    return gen.opt(rng, lambda: NominalInteger(rng.randint(0, 5)))


def _pair(cls):
    def make(rng):
        t = cls("t", bounds=INT) if rng.random() < 0.7 else LinkByUID("id", str(rng.random()))
        r = rng.random()
        if r < 0.35:
            return t
        b = None if r < 0.55 else IntegerBounds(1, rng.randint(1, 5))
        return rng.choice([tuple, list])([t, b])
    return make


def _bad_pair(cls):
    others = [c for c in (PropertyTemplate, ConditionTemplate, ParameterTemplate) if c is not cls]

    def make(rng):
        t = cls("t", bounds=INT)
        return rng.choice([
            lambda: (t, IntegerBounds(0, 6)), lambda: [t, gen.bounds(rng, "cat")],
            lambda: (t, 5), lambda: (INT, t), lambda: (t,), lambda: [t, None, None],
            lambda: [], lambda: (rng.choice(others)("t", bounds=INT), None),
            lambda: [rng.choice(others)("t", bounds=INT), INT], lambda: ("t", None)])()
    return make


def _wrap_pair(x):
    return [x[0], x[1]] if isinstance(x, (list, tuple)) else [x, None]


def _pairs(tcls, name, acls):
    owner, get = field(lambda: tcls("t"), name)
    return Kind(f"{tcls.__name__}.{name}", owner, get, _pair(acls),
                (acls, LinkByUID, list, tuple), _wrap_pair, _bad_pair(acls))


def _simple(cls, name, make, classes, **kw):
    owner, get = field(lambda: cls("x", **kw), name)
    return Kind(f"{cls.__name__}.{name}", owner, get, make, classes)


def _attr(acls):
    return lambda rng: acls(_t(rng), value=_value(rng))


def _pac(rng):
    return PropertyAndConditions(_attr(Property)(rng))


KINDS = [
    _simple(ProcessSpec, "tags", _t, (str,)),
    _simple(MaterialTemplate, "tags", _t, (str,)),
    _simple(PropertyTemplate, "tags", _t, (str,), bounds=INT),
    _simple(MaterialRun, "file_links", gen.file_link, (FileLink,)),
    _simple(Property, "file_links", gen.file_link, (FileLink,)),
    _simple(IngredientSpec, "labels", _t, (str,)),
    _simple(ProcessTemplate, "allowed_names", _t, (str,), allowed_names=[]),
    _simple(ProcessTemplate, "allowed_labels", _t, (str,), allowed_labels=[]),
    _simple(ProcessSpec, "conditions", _attr(Condition), (Condition,)),
    _simple(ProcessRun, "conditions", _attr(Condition), (Condition,)),
    _simple(ProcessSpec, "parameters", _attr(Parameter), (Parameter,)),
    _simple(ProcessRun, "parameters", _attr(Parameter), (Parameter,)),
    _simple(MeasurementSpec, "conditions", _attr(Condition), (Condition,)),
    _simple(MeasurementSpec, "parameters", _attr(Parameter), (Parameter,)),
    _simple(MeasurementRun, "conditions", _attr(Condition), (Condition,)),
    _simple(MeasurementRun, "parameters", _attr(Parameter), (Parameter,)),
    _simple(MeasurementRun, "properties", _attr(Property), (Property,)),
    _simple(MaterialSpec, "properties", _pac, (PropertyAndConditions,)),
    Kind("PropertyAndConditions.conditions", lambda: _pac(__import__("random").Random(1)),
         lambda o: o.conditions, _attr(Condition), (Condition,)),
    _pairs(MaterialTemplate, "properties", PropertyTemplate),
    _pairs(MeasurementTemplate, "properties", PropertyTemplate),
    _pairs(MeasurementTemplate, "conditions", ConditionTemplate),
    _pairs(MeasurementTemplate, "parameters", ParameterTemplate),
    _pairs(ProcessTemplate, "conditions", ConditionTemplate),
    _pairs(ProcessTemplate, "parameters", ParameterTemplate),
    Kind("ValidList(int)", lambda: ValidList([], int), lambda o: o,
         lambda rng: rng.choice([0, 1, 2 ** 70, True]), (int,)),
    Kind("ValidList(str, int)", lambda: ValidList(iter([]), [str, int]), lambda o: o,
         lambda rng: rng.choice([0, "a", "", 5]), (int, str)),
    Kind("validate_list(None)", lambda: validate_list(None, (FileLink, LinkByUID)), lambda o: o,
         lambda rng: rng.choice([gen.file_link(rng), LinkByUID("a", "b")]),
         (FileLink, LinkByUID)),
]


def same(got, want):
    """Element for element the same objects (pairs: same contents in a list)."""
    if not isinstance(got, list) or len(got) != len(want):
        return False
    for x, y in zip(got, want):
        if x is y:
            continue
        if isinstance(y, list):
            if type(x) is not list or len(x) != len(y) or any(a is not b for a, b in zip(x, y)):
                return False
        elif not (isinstance(y, (str, int)) and type(x) is type(y) and x == y):
            return False
    return True


def source(rng, vs):
    """The elements, in some iterable form, and its name."""
    name = rng.choice(["list", "tuple", "generator", "iterator", "map", "dict keys"])
    if name == "generator":
        return (v for v in vs), name
    if name == "iterator":
        return iter(list(vs)), name
    if name == "map":
        return map(lambda x: x, vs), name
    if name == "dict keys":
        try:
            if len({id(k) for k in dict.fromkeys(vs)}) == len(vs):
                return dict.fromkeys(vs).keys(), name
        except Exception:
            pass
    return (list(vs), "list") if name != "tuple" else (tuple(vs), name)


def some_slice(rng, n):
    """A slice of a list of n elements."""
    def end():
        return rng.choice([None, rng.randint(-n - 2, n + 2)])
    if rng.random() < 0.5:
        return slice(end(), end())
    return slice(end(), end(), rng.choice([None, 1, 2, 3, -1, -2]))


class Machine:
    """A typed list next to its plain-list model."""

    def __init__(self, ctx, lst, model, good, stranger, wrap, calls=None, errors=None):
        self.ctx, self.lst, self.model = ctx, lst, model
        self.good, self.stranger, self.wrap = good, stranger, wrap
        self.calls = calls
        self.errors = errors or (TypeError, ValueError)
        self.history = []

    def attempt(self, what, on_list, on_model, values, bad, plain_error=None):
        """Run one operation on both and compare."""
        ctx = self.ctx
        ctx.log(what, "bad" if bad else "")
        before = list(self.lst)
        if self.calls is not None:
            del self.calls[:]
        try:
            on_list(self.lst)
            outcome = None
        except Exception as e:
            outcome = e
        if bad or plain_error:
            want = self.errors if bad and not plain_error else \
                (plain_error if not bad else self.errors + (plain_error,))
            ctx.check(isinstance(outcome, want),
                      lambda: f"{what}: expected {want}, got {outcome!r}")
            ctx.check(len(self.lst) == len(before)
                      and all(x is y for x, y in zip(self.lst, before)),
                      lambda: f"{what} was refused ({outcome!r}) but the list changed")
            ctx.ev("refused")
            ctx.ev("unchanged_after_refusal")
        else:
            if outcome is not None:
                raise Violation(f"{what} with acceptable elements raised {outcome!r}")
            on_model(self.model)
            ctx.check(same(self.lst, self.model),
                      lambda: f"{what}: list is {list(self.lst)!r}, expected {self.model!r}")
            if self.calls is not None:
                ctx.check(len(self.calls) == len(values)
                          and all(x is y for x, y in zip(self.calls, values)),
                          lambda: f"{what}: trigger saw {self.calls!r} for {values!r}")
                ctx.ev("trigger_calls", len(values))
            ctx.ev("accepted" if values else "plain_operations")
        self.history.append((what.split()[0], bad or bool(plain_error)))

    def step(self):
        """One random mutation."""
        ctx, rng, n = self.ctx, self.ctx.rng, len(self.model)
        op = rng.choice(["append", "extend", "insert", "setitem", "setslice", "iadd", "iadd",
                         "del", "delslice", "pop", "reverse", "clear", "imul", "remove",
                         "setslice", "extend", "self"])
        bad = rng.random() < 0.3

        def elements(most):
            vs = [self.good() for _ in range(rng.randint(0, most))]
            if bad:
                vs.insert(rng.randint(0, len(vs)), self.stranger())
            return vs

        if op in ("append", "insert", "setitem"):
            v = self.stranger() if bad else self.good()
            w = None if bad else self.wrap(v)
            if op == "append":
                self.attempt(f"append {v!r}", lambda x: x.append(v), lambda m: m.append(w), [v],
                             bad)
            elif op == "insert":
                i = rng.randint(-n - 2, n + 2)
                self.attempt(f"insert {i} {v!r}", lambda x: x.insert(i, v),
                             lambda m: m.insert(i, w), [v], bad)
            else:
                i = rng.randint(-n - 1, n)
                out = not -n <= i < n
                self.attempt(f"setitem {i} {v!r}", lambda x: x.__setitem__(i, v),
                             lambda m: m.__setitem__(i, w), [v], bad,
                             plain_error=IndexError if out else None)
        elif op in ("extend", "iadd"):
            vs = elements(3)
            src, form = source(rng, vs)
            ws = [] if bad else [self.wrap(v) for v in vs]
            if op == "extend":
                self.attempt(f"extend {form} {vs!r}", lambda x: x.extend(src),
                             lambda m: m.extend(ws), vs, bad)
            else:
                def iadd(x):
                    y = x
                    y += src
                    ctx.check(y is x, f"+= {form} made a new list")
                self.attempt(f"iadd {form} {vs!r}", iadd, lambda m: m.extend(ws), vs, bad)
        elif op == "self" and n < 20:
            vs = list(self.lst)
            # Elements that came out of the list can go back in
            ws = [self.wrap(v) for v in vs]
            self.attempt("extend with itself", lambda x: x.extend(x), lambda m: m.extend(ws), vs,
                         False)
        elif op == "setslice":
            s = some_slice(rng, n)
            width = len(range(n)[s])
            if s.step in (None, 1):
                vs = elements(3)
                err = None
            else:
                ctx.ev("extended_slices")
                size = width if rng.random() < 0.6 else rng.randint(0, width + 2)
                vs = [self.good() for _ in range(size)]
                if bad and size:
                    vs[rng.randrange(size)] = self.stranger()
                bad = bad and size > 0
                err = ValueError if size != width else None
            src, form = source(rng, vs)
            ws = [] if bad or err else [self.wrap(v) for v in vs]
            self.attempt(f"setslice {s} {form} {vs!r}", lambda x: x.__setitem__(s, src),
                         lambda m: m.__setitem__(s, ws), vs, bad, plain_error=err)
        elif op == "del" and n:
            i = rng.randint(-n, n - 1)
            self.attempt(f"del {i}", lambda x: x.__delitem__(i), lambda m: m.__delitem__(i), [],
                         False)
        elif op == "delslice":
            s = some_slice(rng, n)
            self.attempt(f"delslice {s}", lambda x: x.__delitem__(s), lambda m: m.__delitem__(s),
                         [], False)
        elif op == "pop" and n:
            i = rng.randint(-n, n - 1)
            got = []
            want = self.model[i]
            self.attempt(f"pop {i}", lambda x: got.append(x.pop(i)), lambda m: m.pop(i), [], False)
            ctx.check(same([got[0]], [want]), lambda: f"pop({i}) gave {got[0]!r} not {want!r}")
        elif op == "reverse":
            self.attempt("reverse", lambda x: x.reverse(), lambda m: m.reverse(), [], False)
        elif op == "clear" and rng.random() < 0.3:
            self.attempt("clear", lambda x: x.clear(), lambda m: m.clear(), [], False)
        elif op == "imul" and n < 10:
            k = rng.choice([0, 1, 2, -1])

            def imul(x):
                y = x
                y *= k
                ctx.check(y is x, "*= made a new list")
            self.attempt(f"imul {k}", imul, lambda m: m.__imul__(k), [], False)
        elif op == "remove" and n:
            i = rng.randrange(n)
            if all(self.model.index(v) == j for j, v in enumerate(self.model[:i + 1])):
                v = self.lst[i]
                self.attempt(f"remove {v!r}", lambda x: x.remove(v), lambda m: m.pop(i), [],
                             False)


def model_case(ctx):
    """A typed list of the model under a random history."""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    owner = kind.owner()
    lst = kind.get(owner)
    ctx.check(isinstance(lst, list), f"{kind.name} is not a list")
    m = Machine(ctx, lst, list(lst), lambda: kind.good(rng), lambda: kind.stranger(rng), kind.wrap)
    for _ in range(rng.randint(3, 14)):
        m.step()
        if kind.wrap is _wrap_pair:
            ctx.check(all(type(p) is list and len(p) == 2 and
                          (p[1] is None or isinstance(p[1], BaseBounds)) for p in lst),
                      lambda: f"{kind.name} holds something that is not a pair: {list(lst)!r}")
            ctx.ev("pairs_normalised", len(lst))
    ctx.check(kind.get(owner) is lst, f"{kind.name} was replaced by its own mutation")
    ctx.sig(kind.name, tuple(m.history))
    ctx.sample({"list": kind.name, "history": [h[0] for h in m.history]})


def trigger_case(ctx):
    """ValidList with a trigger that records, replaces and refuses."""
    rng = ctx.rng
    calls = []
    mapping = rng.choice([
        lambda x: None, lambda x: 0, lambda x: "", lambda x: [], lambda x: ("saw", x),
        lambda x: None if len(calls) % 2 else -1, lambda x: False])
    seen = []

    def trigger(x):
        if x == "refuse":
            raise ValueError("refused by trigger")
        calls.append(x)
        result = mapping(x)
        seen.append(result)
        return result

    initial = [rng.choice(["a", "b", 7]) for _ in range(rng.randint(0, 3))]
    src, form = source(rng, initial)
    lst = ValidList(src, rng.choice([[str, int], (str, int), iter([str, int]), {str, int}]),
                    trigger)
    ctx.check(calls == initial, lambda: f"trigger saw {calls} for the initial {initial}")
    want = [x if y is None else y for x, y in zip(initial, seen)]
    ctx.check(list(lst) == want and [type(x) for x in lst] == [type(x) for x in want],
              lambda: f"initial elements are {list(lst)}, expected {want}")
    ctx.ev("trigger_calls", len(calls))
    history = []
    model = list(lst)
    for _ in range(rng.randint(3, 10)):
        n = len(model)
        op = rng.choice(["append", "extend", "insert", "setitem", "setslice", "iadd"])
        bad = rng.random() < 0.25
        many = op in ("extend", "setslice", "iadd")
        vs = [rng.choice(["a", "", 0, 5, "longer"]) for _ in
              range(rng.randint(0, 3) if many else 1)]
        if bad:
            i = rng.randint(0, len(vs)) if many else 0
            vs[i:i + (0 if many else 1)] = [rng.choice(["refuse", 1.5, None, b""])]
        del calls[:], seen[:]
        src, form = source(rng, vs)
        i = rng.randint(0, n)
        j = rng.randint(i, n)
        if op == "setitem" and n == 0:
            continue
        try:
            if op == "append":
                lst.append(vs[0])
            elif op == "extend":
                lst.extend(src)
            elif op == "iadd":
                alias = lst
                alias += src
                ctx.check(alias is lst, "+= made a new list")
            elif op == "insert":
                lst.insert(i, vs[0])
            elif op == "setitem":
                lst[min(i, n - 1)] = vs[0]
            else:
                lst[i:j] = src
            outcome = None
        except (TypeError, ValueError) as e:
            outcome = e
        what = f"{op} {form} {vs!r}"
        ctx.log(what)
        if bad:
            ctx.check(outcome is not None, lambda: f"{what} accepted an unacceptable element")
            ctx.check(list(lst) == model, lambda: f"{what} was refused but the list changed")
            ctx.ev("refused")
        else:
            ctx.check(outcome is None, lambda: f"{what} was refused: {outcome!r}")
            ctx.check(len(calls) == len(vs) and all(x is y for x, y in zip(calls, vs)),
                      lambda: f"{what}: trigger saw {calls}")
            ctx.ev("trigger_calls", len(calls))
            ws = [x if y is None else y for x, y in zip(vs, seen)]
            if op == "append":
                model.append(ws[0])
            elif op in ("extend", "iadd"):
                model.extend(ws)
            elif op == "insert":
                model.insert(i, ws[0])
            elif op == "setitem":
                model[min(i, n - 1)] = ws[0]
            else:
                model[i:j] = ws
            ctx.check(list(lst) == model and [type(x) for x in lst] == [type(x) for x in model],
                      lambda: f"{what}: list is {list(lst)}, expected {model}")
            ctx.ev("accepted")
        history.append((op, form, bad))
    ctx.sig("trigger", tuple(history))


VALIDATED = [
    (ProcessSpec, "template", ProcessTemplate, "conditions", Condition, ConditionTemplate),
    (ProcessSpec, "template", ProcessTemplate, "parameters", Parameter, ParameterTemplate),
    (ProcessRun, "spec", ProcessTemplate, "conditions", Condition, ConditionTemplate),
    (ProcessRun, "spec", ProcessTemplate, "parameters", Parameter, ParameterTemplate),
    (MeasurementSpec, "template", MeasurementTemplate, "conditions", Condition, ConditionTemplate),
    (MeasurementSpec, "template", MeasurementTemplate, "parameters", Parameter, ParameterTemplate),
    (MeasurementRun, "spec", MeasurementTemplate, "conditions", Condition, ConditionTemplate),
    (MeasurementRun, "spec", MeasurementTemplate, "parameters", Parameter, ParameterTemplate),
    (MeasurementRun, "spec", MeasurementTemplate, "properties", Property, PropertyTemplate),
    (MaterialSpec, "template", MaterialTemplate, "properties", Property, PropertyTemplate),
]


def validated_case(ctx):
    """An attribute list of an object whose template restricts the attribute."""
    rng = ctx.rng
    cls, via, tcls, name, acls, atcls = rng.choice(VALIDATED)
    level = rng.choice(list(WarningLevel))
    at = atcls("attr", bounds=IntegerBounds(0, 100))
    pair = rng.choice([lambda: at, lambda: (at, IntegerBounds(0, 5)),
                       lambda: [at, IntegerBounds(0, 5)]])()
    high = 5 if isinstance(pair, (list, tuple)) else 100
    templ = tcls("t", **{name: [pair]})
    if via == "template":
        obj = cls("o", template=templ)
    else:
        spec = {ProcessRun: ProcessSpec, MeasurementRun: MeasurementSpec}[cls]("s", template=templ)
        obj = cls("o", spec=spec)

    def make(inside):
        v = NominalInteger(rng.randint(0, high) if inside else
                           rng.choice([-1, high + 1, high + 1000]))
        by_name = rng.random() < 0.5
        with validation_level(WarningLevel.IGNORE):
            a = acls("attr" if by_name else "other", value=v, template=None if by_name else at)
        return PropertyAndConditions(a) if cls is MaterialSpec else a

    lst = getattr(obj, name)
    if level is WarningLevel.FATAL:
        m = Machine(ctx, lst, list(lst), lambda: make(True), lambda: make(False), lambda x: x,
                    errors=(ValueError,))
        with validation_level(level):
            for _ in range(rng.randint(2, 8)):
                m.step()
        ctx.ev("fatal_refusals", sum(1 for h in m.history if h[1]))
        ctx.check(all(0 <= a.value.nominal <= high for a in lst),
                  "an out-of-bounds attribute got into the list at FATAL")
        ctx.sig("validated", cls.__name__, name, high, level.name, tuple(m.history))
    else:
        outside = []

        def good():
            inside = rng.random() < 0.5
            a = make(inside)
            outside.append((a, inside))
            return a
        m = Machine(ctx, lst, list(lst), good, lambda: rng.choice([5, "x", None]), lambda x: x)
        with validation_level(level):
            for _ in range(rng.randint(2, 6)):
                if rng.random() < 0.5:
                    m.step()
                    continue
                del outside[:]
                vs = [good() for _ in range(rng.randint(0, 3))]
                LOG.records.clear()
                op = rng.choice(["extend", "iadd", "slice", "insert", "append", "set"])
                if op in ("insert", "append", "set"):
                    del outside[:]
                    vs = [good()]
                if op == "set" and not m.model:
                    op = "append"
                src, form = source(rng, vs)
                i = rng.randint(-len(m.model) - 2, len(m.model) + 5)
                j = rng.randint(-len(m.model), len(m.model) - 1) if m.model else 0
                onto = {"extend": lambda x: x.extend(src), "iadd": lambda x: x.__iadd__(src),
                        "slice": lambda x: x.__setitem__(slice(i, i), src),
                        "insert": lambda x: x.insert(i, vs[0]),
                        "append": lambda x: x.append(vs[0]),
                        "set": lambda x: x.__setitem__(j, vs[0])}[op]
                alike = {"extend": lambda y: y.extend(vs), "iadd": lambda y: y.extend(vs),
                         "slice": lambda y: y.__setitem__(slice(i, i), vs),
                         "insert": lambda y: y.insert(i, vs[0]),
                         "append": lambda y: y.append(vs[0]),
                         "set": lambda y: y.__setitem__(j, vs[0])}[op]
                m.attempt(f"{op} {i} {form}", onto, alike, vs, False)
                n = sum(1 for _, inside in outside if not inside) \
                    if level is WarningLevel.WARNING else 0
                ctx.check(len(LOG.records) == n,
                          lambda: f"{n} out-of-bounds attributes added at {level.name}, "
                                  f"{len(LOG.records)} warnings: {LOG.records}")
                ctx.ev("warnings_counted", n)
        ctx.sig("validated", cls.__name__, name, high, level.name, tuple(m.history))


def case(ctx):
    """One random history on one typed list."""
    r = ctx.rng.random()
    if r < 0.6:
        model_case(ctx)
    elif r < 0.8:
        trigger_case(ctx)
    else:
        validated_case(ctx)


def every_kind(ctx):
    """Each typed list refuses each kind of stranger through each way of adding."""
    rng = ctx.rng
    for kind in KINDS:
        owner = kind.owner()
        lst = kind.get(owner)
        lst.append(kind.good(rng))
        before = list(lst)
        for make in STRANGERS:
            v = make()
            if isinstance(v, kind.classes):
                continue
            for what, f in [("append", lambda: lst.append(v)), ("extend", lambda: lst.extend([v])),
                            ("extend generator", lambda: lst.extend(x for x in [v])),
                            ("insert", lambda: lst.insert(0, v)),
                            ("setitem", lambda: lst.__setitem__(0, v)),
                            ("setitem -1", lambda: lst.__setitem__(-1, v)),
                            ("setslice", lambda: lst.__setitem__(slice(0, 1), [v])),
                            ("setslice generator",
                             lambda: lst.__setitem__(slice(None), (x for x in [v]))),
                            ("iadd", lambda: lst.__iadd__([v])),
                            ("iadd tuple", lambda: lst.__iadd__((v,)))]:
                ctx.raises((TypeError, ValueError), f, f"{kind.name} {what} {v!r}")
                ctx.check(len(lst) == len(before)
                          and all(x is y for x, y in zip(lst, before)),
                          f"{kind.name} {what} {v!r} was refused but the list changed")
                ctx.ev("refused")
    for bad in (5, None):
        lst = KINDS[0].get(KINDS[0].owner())
        ctx.raises(TypeError, lambda: lst.extend(bad), f"extend({bad})")
        ctx.raises(TypeError, lambda: lst.__setitem__(slice(0, 0), bad), f"[0:0] = {bad}")
    for nothing in (ValidList([]), ValidList((), None), ValidList([], []), ValidList([], ())):
        ctx.check(nothing == [] and isinstance(nothing, list), "an empty list is not empty")
        ctx.raises(TypeError, lambda: nothing.append(5), "append where no type is accepted")
        ctx.check(nothing == [], "a refused element was appended")
    ctx.raises(TypeError, lambda: ValidList([], {"a": int}), "content types in a dict")
    ctx.raises(TypeError, lambda: ValidList([], {int: "whole"}), "types as keys of a dict")
    ctx.raises(TypeError, lambda: ValidList([], [int, "str"]), "content type that is no type")
    ctx.raises(TypeError, lambda: ValidList([], int, "trigger"), "trigger that is not callable")
    ctx.sig("every kind")


FIXED = [("every kind", every_kind)]
