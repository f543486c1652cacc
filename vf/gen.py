"""Random data-model objects, from innocuous to hostile; every choice comes from one generator."""
import itertools

from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds, \
    MolecularStructureBounds
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.value import NominalReal, NormalReal, UniformReal, NominalInteger, \
    UniformInteger, NominalCategorical, DiscreteCategorical, EmpiricalFormula, \
    NominalComposition, Smiles, InChI
from gemd.enumeration import Origin, SampleType

TEXTS = ["plain", "", " ", "with space", "Ünïcödé", "日本語", "\U0001F370 cake", 'quo"te', "back\\slash",
         "new\nline", "tab\t", "nul\x00l", "null", "None", "0", "1", "True", "type", "auto",
         "link_by_uid", '{"type": "link_by_uid", "scope": "auto", "id": "x"}', "[]", "a" * 300,
         "lone \ud800 surrogate", "İstanbul", "ß", "name::sub", "  padded  ", "\u2028sep",
         "a/b/c.txt", "../up", "C:\\dir\\x", "http://x.y/z?q=%20#f", "<b>&amp;</b>", "UPPER", "upper",
         "trailing ", "e\u0301", "\xe9", "a,b;c", "1e5", "nan", "-", "'", "${x}", "%s", "{}", "{0}",
         "a-b", "a_b", "a.b", "\r\n", "x" * 5000]
SCOPES = ["auto", "id", "ID2", "my_id", "Scope", "self", "seq", "items", "templates", "x-y z",
          "日本", "key", "mapping", "kwargs", "cls", "context", "object", "uids", "UPPER"]
ODD_SCOPES = ["", " ", "x" * 40, "long scope " * 12, "a.b/c:d", "typ", "0"]
UNITS = ["", "m", "cm", "kilometer", "g", "kg", "degC", "kelvin", "mol/L", "g/cm^3", "1/s",
         "m/s**2", "percent", "g / 2.5 cm", "volt", "radian", "count", "joule/kg", "in", "psi"]
LENGTHS = ["m", "cm", "km", "mm", "inch", "foot"]
CATEGORIES = ["red", "green", "blue", "", " ", "Red", "ünï", "True", "1", "a b", "x" * 50]
COMPONENTS = ["C", "H", "O", "water", "Water", "salt", "", "日"]
ELEMENTS = ["H", "He", "C", "N", "O", "Na", "Cl", "Fe", "Si", "U", "Og", "D"]


def fresh(t):
    """The same text, but not the same object (unless it has one character or none)."""
    return "".join(list(t))


def text(rng, hostile=0.3):
    """Some string."""
    if rng.random() < hostile:
        return fresh(rng.choice(TEXTS))
    return "".join(rng.choice("abcdefghij XYZ_-") for _ in range(rng.randint(1, 8)))


def safe_text(rng, hostile=0.3):
    """Some string that is not the reserved key of a serialized mapping."""
    t = text(rng, hostile)
    return t if t != "type" else "kind"


def opt(rng, func, p=0.5):
    """Maybe something."""
    return func() if rng.random() < p else None


def real(rng):
    """Some finite float."""
    k = rng.random()
    if k < 0.1:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5])
    if k < 0.2:
        return rng.choice([5e-324, 1e300, -1e300, 1e-300, 0.1 + 0.2, 1e22, 123456789.123456789,
                           2.0 ** 53 + 2])
    if k < 0.6:
        return rng.uniform(-10, 10)
    return round(rng.uniform(-1000, 1000), rng.randint(0, 4))


def number(rng):
    """Some float or int."""
    return rng.randint(-1000, 1000) if rng.random() < 0.3 else real(rng)


def integer(rng):
    """Some int."""
    return rng.choice([0, 1, -1, 2 ** 31, 2 ** 53 + 1, -2 ** 63, 10 ** 25]) \
        if rng.random() < 0.25 else rng.randint(-50, 50)


def probabilities(rng, n=None):
    """Some mapping that sums to one."""
    cats = rng.sample(CATEGORIES, n or rng.randint(1, 4))
    k = rng.random()
    if k < 0.4:
        weights = [rng.random() + 0.01 for _ in cats]
        total = sum(weights)
        weights = [w / total for w in weights]
    elif k < 0.7:
        weights = [1.0 / len(cats)] * len(cats)
    else:
        weights = [0] * len(cats)
        weights[rng.randrange(len(cats))] = 1
    return dict(zip(cats, weights))


def continuous(rng, units=None):
    """Some continuous value."""
    units = rng.choice(UNITS) if units is None else units
    k = rng.randrange(3)
    if k == 0:
        return NominalReal(number(rng), units)
    if k == 1:
        return NormalReal(number(rng), abs(number(rng)), units)
    lo, hi = sorted([number(rng), number(rng)])
    return UniformReal(lo, hi, units)


def formula(rng):
    """Some formula."""
    parts = []
    for _ in range(rng.randint(1, 4)):
        parts.append(rng.choice(ELEMENTS) + rng.choice(["", "2", "3", "0.5", "12"]))
    return "".join(parts) if rng.random() < 0.7 else "(" + "".join(parts) + ")2"


def value(rng, kind=None):
    """Some value, fit for validation against bounds."""
    kind = kind or rng.choice(["real", "int", "cat", "comp", "mol"])
    if kind == "real":
        return continuous(rng)
    if kind == "int":
        if rng.random() < 0.5:
            return NominalInteger(integer(rng))
        return UniformInteger(*sorted([integer(rng), integer(rng)]))
    if kind == "cat":
        if rng.random() < 0.5:
            return NominalCategorical(rng.choice(CATEGORIES))
        return DiscreteCategorical(probabilities(rng))
    if kind == "comp":
        if rng.random() < 0.5:
            return EmpiricalFormula(formula(rng))
        return NominalComposition({c: number(rng) for c in
                                   rng.sample(COMPONENTS, rng.randint(0, 4))})
    if rng.random() < 0.5:
        return Smiles(rng.choice(["C", "CC(=O)O", "c1ccccc1", "", "[Na+].[Cl-]", "C\\C=C/C"]))
    return InChI(rng.choice(["InChI=1S/CH4/h1H4", "1S/C2H6/c1-2/h1-2H3", "CH4/h1H4",
                             "inchi=1s/CH4/h1H4", "InChI=1/CH4/h1H4"]))


def weird_value(rng):
    """Values that cannot be checked against bounds, but are values all the same."""
    k = rng.randrange(9)
    if k == 0:
        return NominalReal(float("nan"), rng.choice(UNITS))
    if k == 1:
        return NominalReal(rng.choice([float("inf"), float("-inf")]), rng.choice(UNITS))
    if k == 2:
        return NormalReal(rng.choice([float("inf"), 1]), float("nan"), "m")
    if k == 3:
        return UniformReal(float("-inf"), float("inf"), "")
    return [NominalCategorical(), DiscreteCategorical(), EmpiricalFormula(), Smiles(),
            InChI()][k - 4]


def bounds(rng, kind=None):
    """Some bounds."""
    kind = kind or rng.choice(["real", "int", "cat", "comp", "mol"])
    if kind == "real":
        lo, hi = sorted([number(rng), number(rng)])
        return RealBounds(lo, hi, rng.choice(UNITS))
    if kind == "int":
        lo, hi = sorted([integer(rng), integer(rng)])
        return IntegerBounds(lo, hi)
    if kind == "cat":
        return CategoricalBounds(rng.sample(CATEGORIES, rng.randint(0, 6)))
    if kind == "comp":
        return CompositionBounds(rng.sample(COMPONENTS, rng.randint(0, 6)))
    return MolecularStructureBounds()


def kind_of(b):
    """Kind of a bounds object."""
    return {RealBounds: "real", IntegerBounds: "int", CategoricalBounds: "cat",
            CompositionBounds: "comp", MolecularStructureBounds: "mol"}[type(b)]


def sub_bounds(rng, b):
    """Bounds contained in b, in the same units."""
    if isinstance(b, RealBounds):
        span = b.upper_bound - b.lower_bound
        xs = sorted(min(b.upper_bound, max(b.lower_bound, b.lower_bound + rng.random() * span))
                    for _ in range(2))
        if not all(x == x and abs(x) != float("inf") for x in xs):
            xs = [b.lower_bound, b.upper_bound]
        return RealBounds(xs[0], xs[1], b.default_units)
    if isinstance(b, IntegerBounds):
        return IntegerBounds(*sorted(rng.randint(b.lower_bound, b.upper_bound)
                                     for _ in range(2)))
    if isinstance(b, CategoricalBounds):
        cats = sorted(b.categories)
        return CategoricalBounds(rng.sample(cats, rng.randint(0, len(cats))))
    if isinstance(b, CompositionBounds):
        cats = sorted(b.components)
        return CompositionBounds(rng.sample(cats, rng.randint(0, len(cats))))
    return MolecularStructureBounds()


def count(rng, lo, hi):
    """How many of something; now and then far more than usual."""
    return rng.randint(9, 24) if rng.random() < 0.015 else rng.randint(lo, hi)


def repeated(rng, items):
    """The items, now and then with some of them again."""
    while items and rng.random() < 0.08:
        items.insert(rng.randint(0, len(items)), rng.choice(items))
    return items


def file_link(rng):
    """Some file link."""
    return FileLink(text(rng), rng.choice(["http://x.y/z", text(rng)]))


class Graph:
    """
    A set of entities and how they are wired.

    Options: links (dangling LinkByUIDs in fields), weird (values that cannot be validated), uid
    ("mixed", "all", "none", "single"), size (rough number per type), cycles, soft_unlinked.
    """

    def __init__(self, rng, links=True, weird=True, uid="mixed", size=3, cycles=True,
                 hostile=0.3):
        self.rng, self.links, self.weird, self.uid_mode = rng, links, weird, uid
        self.hostile = hostile
        self._counter = itertools.count()
        self._used = set()
        self.by_type = {}
        self.everything = []
        self.dangling = []
        n = lambda: rng.randint(9, 16) if size > 1 and rng.random() < 0.02 \
            else rng.randint(0, size)  # noqa: E731
        self.attr_templates = {
            cls: [self._add(self._attr_template(cls)) for _ in range(n())]
            for cls in (PropertyTemplate, ConditionTemplate, ParameterTemplate)}
        self.obj_templates = {
            cls: [self._add(self._obj_template(cls)) for _ in range(n())]
            for cls in (MaterialTemplate, MeasurementTemplate, ProcessTemplate)}
        ps = [self._add(self._process_spec()) for _ in range(rng.randint(1, size + 1))]
        ms = [self._add(self._material_spec()) for _ in range(rng.randint(1, size + 1))]
        self._wire_outputs(ms, ps)
        ings = [self._add(self._ingredient_spec(ps, ms, cycles)) for _ in range(n())]
        qs = [self._add(self._measurement_spec()) for _ in range(n())]
        pr = [self._add(self._process_run(ps)) for _ in range(rng.randint(1, size + 1))]
        mr = [self._add(self._material_run(ms)) for _ in range(rng.randint(1, size + 1))]
        self._wire_outputs(mr, pr)
        for _ in range(n()):
            self._add(self._ingredient_run(pr, mr, ings))
        for _ in range(n()):
            self._add(self._measurement_run(mr, qs))

    # pieces ------------------------------------------------------------------------------
    def _add(self, e):
        self.everything.append(e)
        self.by_type.setdefault(type(e), []).append(e)
        return e

    def _pick(self, pool, p_none=0.25, p_link=0.1):
        r = self.rng.random()
        if r < p_none or (not pool and not (self.links and r < p_none + p_link)):
            return None
        if self.links and (r < p_none + p_link or not pool):
            return self.dangling_link()
        return self.rng.choice(pool)

    def dangling_link(self):
        """A link to something that does not exist here."""
        link = LinkByUID(self.rng.choice(SCOPES), f"elsewhere-{next(self._counter)}")
        if self._used and self.rng.random() < 0.3:
            # an id that something has here, but under another scope
            known = self.rng.choice(sorted(self._used))[1]
            if (link.scope.lower(), known) not in self._used:
                link = LinkByUID(link.scope, known)
                self._used.add((link.scope.lower(), known))
        self.dangling.append(link)
        return link

    def uids(self):
        """Some uids; the same id can appear under different scopes of different entities."""
        rng, mode = self.rng, self.uid_mode
        n = {"mixed": rng.choice([0, 0, 1, 1, 2, 3]), "all": rng.choice([1, 1, 2, 3]),
             "none": 0, "single": 1}[mode]
        if n == 0:
            return None if rng.random() < 0.7 else {}
        out = {}
        if mode != "single" and rng.random() < 0.05:
            n = rng.randint(4, 9)
        scopes = ["id"] if mode == "single" else rng.sample(SCOPES, n)
        if mode != "single" and rng.random() < 0.06:
            scopes[rng.randrange(n)] = rng.choice(ODD_SCOPES)
        for s in scopes:
            for _ in range(20):
                i = rng.choice(["1", "2", "3", "a", "A", "x y", "é", ""]) \
                    if rng.random() < 0.4 and mode != "single" else f"id-{next(self._counter)}"
                if (s.lower(), i) not in self._used:
                    break
            else:
                i = f"id-{next(self._counter)}"
            self._used.add((s.lower(), i))
            out[s] = i
        return out

    def _t(self):
        return text(self.rng, self.hostile)

    def _entity(self):
        rng = self.rng
        return {"uids": self.uids(),
                "tags": opt(rng, lambda: repeated(rng, [self._t() for _ in range(count(rng, 0, 3))]),
                            0.4)}

    def _object(self):
        rng = self.rng
        return dict(self._entity(), notes=opt(rng, self._t, 0.3),
                    file_links=opt(rng, lambda: repeated(rng, [
                        file_link(rng) for _ in range(count(rng, 1, 3))]), 0.3))

    def _attr_template(self, cls):
        return cls(self._t(), bounds=bounds(self.rng), description=opt(self.rng, self._t, 0.3),
                   **self._entity())

    def _pairs(self, cls):
        rng, out = self.rng, []
        pool = self.attr_templates[cls]
        for t in rng.sample(pool, rng.randint(0, len(pool))):
            r = rng.random()
            if r < 0.4:
                out.append(t)
            elif r < 0.6:
                out.append((t, None))
            else:
                out.append([t, sub_bounds(rng, t.bounds)])
        if self.links and rng.random() < 0.15:
            out.append(self.dangling_link() if rng.random() < 0.5
                       else (self.dangling_link(), bounds(rng)))
        return out

    def _obj_template(self, cls):
        rng = self.rng
        kw = dict(self._entity(), description=opt(rng, self._t, 0.3))
        if cls is MaterialTemplate:
            kw["properties"] = self._pairs(PropertyTemplate)
        elif cls is MeasurementTemplate:
            kw["properties"] = self._pairs(PropertyTemplate)
            kw["conditions"] = self._pairs(ConditionTemplate)
            kw["parameters"] = self._pairs(ParameterTemplate)
        else:
            kw["conditions"] = self._pairs(ConditionTemplate)
            kw["parameters"] = self._pairs(ParameterTemplate)
            kw["allowed_names"] = opt(rng, lambda: [self._t() for _ in range(count(rng, 0, 2))])
            kw["allowed_labels"] = opt(rng, lambda: [self._t() for _ in range(count(rng, 0, 2))])
        return cls(self._t(), **kw)

    def attribute(self, cls):
        """An attribute of the given class."""
        rng = self.rng
        tcls = {Property: PropertyTemplate, Condition: ConditionTemplate,
                Parameter: ParameterTemplate}[cls]
        kw = {"notes": opt(rng, self._t, 0.2),
              "origin": rng.choice(list(Origin)) if rng.random() < 0.6
              else rng.choice(["measured", " COMPUTED ", "unknown"]),
              "file_links": opt(rng, lambda: [file_link(rng)], 0.2)}
        if self.weird and rng.random() < 0.1:
            return cls(f"weird-{next(self._counter)}", value=weird_value(rng), **kw)
        t = self._pick(self.attr_templates[tcls], 0.4, 0.1)
        if t is not None and isinstance(t, tcls):
            name = t.name if rng.random() < 0.5 else self._t()
            val = value(rng, kind_of(t.bounds) if rng.random() < 0.8 else None)
        else:
            name, val = self._t(), value(rng)
        if rng.random() < 0.1:
            val = None
        return cls(name, value=val, template=t, **kw)

    def _attributes(self, cls):
        rng = self.rng
        n = rng.randint(9, 20) if rng.random() < 0.01 else rng.choice([0, 0, 1, 1, 2])
        return repeated(rng, [self.attribute(cls) for _ in range(n)])

    def _quantities(self):
        rng = self.rng
        return {f: opt(rng, lambda: continuous(rng, "" if f != "absolute_quantity" else None)
                       if rng.random() < 0.4 else
                       NominalReal(round(rng.random(), 3),
                                   "" if f != "absolute_quantity" else "kg"), 0.3)
                for f in ("mass_fraction", "volume_fraction", "number_fraction",
                          "absolute_quantity")}

    def _source(self):
        rng = self.rng
        return opt(rng, lambda: PerformedSource(opt(rng, self._t), opt(rng, self._t)), 0.3)

    def _process_spec(self):
        return ProcessSpec(self._t(), template=self._pick(self.obj_templates[ProcessTemplate]),
                           conditions=self._attributes(Condition),
                           parameters=self._attributes(Parameter), **self._object())

    def _process_run(self, specs):
        return ProcessRun(self._t(), spec=self._pick(specs), source=self._source(),
                          conditions=self._attributes(Condition),
                          parameters=self._attributes(Parameter), **self._object())

    def _material_spec(self):
        rng = self.rng
        props = [PropertyAndConditions(self.attribute(Property), self._attributes(Condition))
                 for _ in range(rng.choice([0, 0, 1, 2]))]
        return MaterialSpec(self._t(), template=self._pick(self.obj_templates[MaterialTemplate]),
                            properties=props, **self._object())

    def _material_run(self, specs):
        rng = self.rng
        return MaterialRun(self._t(), spec=self._pick(specs),
                           sample_type=rng.choice(list(SampleType) + ["Virtual", " unknown"]),
                           **self._object())

    def _wire_outputs(self, materials, processes):
        rng = self.rng
        free = list(processes)
        rng.shuffle(free)
        for m in materials:
            r = rng.random()
            if r < 0.2:
                continue
            if self.links and r < 0.3:
                m.process = self.dangling_link()
            elif free:
                m.process = free.pop()

    def _ingredient_spec(self, ps, ms, cycles):
        rng = self.rng
        p, m = self._pick(ps, 0.1), self._pick(ms, 0.15)
        if not cycles and not self._acyclic(p, m):
            m = None
        return IngredientSpec(self._t(), process=p, material=m,
                              labels=opt(rng, lambda: [self._t() for _ in range(count(rng, 0, 2))], 0.4),
                              **self._quantities(), **self._object())

    @staticmethod
    def _acyclic(p, m):
        """Whether p can use m without m depending on p."""
        seen, todo = set(), [m]
        while todo:
            x = todo.pop()
            if x is p and x is not None:
                return False
            if x is None or isinstance(x, LinkByUID) or id(x) in seen:
                continue
            seen.add(id(x))
            if hasattr(x, "ingredients"):
                todo.extend(i.material for i in x.ingredients)
            else:
                todo.append(x.process)
        return True

    def _ingredient_run(self, pr, mr, specs):
        rng = self.rng
        run = IngredientRun(process=self._pick(pr, 0.1), material=self._pick(mr, 0.15),
                            spec=self._pick(specs, 0.2), **self._quantities(), **self._object())
        if isinstance(run.spec, IngredientSpec) and rng.random() < 0.12:
            # It remembers the name and labels it had
            if rng.random() < 0.5:
                run.spec = IngredientSpec(rng.choice(["", " ", self._t()]),
                                          labels=rng.choice([[], [""], ["a", "a"], [self._t()]]))
            run.spec = self.dangling_link() if self.links and rng.random() < 0.7 else None
        return run

    def _measurement_spec(self):
        return MeasurementSpec(self._t(),
                               template=self._pick(self.obj_templates[MeasurementTemplate]),
                               conditions=self._attributes(Condition),
                               parameters=self._attributes(Parameter), **self._object())

    def _measurement_run(self, mr, specs):
        return MeasurementRun(self._t(), material=self._pick(mr, 0.1), spec=self._pick(specs),
                              source=self._source(), properties=self._attributes(Property),
                              conditions=self._attributes(Condition),
                              parameters=self._attributes(Parameter), **self._object())

    # roots ---------------------------------------------------------------------------------
    def root(self):
        """A single entity, preferring one with a history."""
        rng = self.rng
        pool = self.by_type.get(MaterialRun, []) + self.by_type.get(MeasurementRun, [])
        if pool and rng.random() < 0.6:
            return rng.choice(pool)
        return rng.choice(self.everything)

    def container(self, depth=0):
        """A nested container holding entities, other objects of the model and primitives."""
        rng = self.rng
        r = rng.random()
        if depth > 2 or r < 0.35:
            return rng.choice(self.everything)
        if r < 0.5:
            return primitive(rng)
        if r < 0.58:
            return rng.choice([lambda: value(rng), lambda: bounds(rng),
                               lambda: self.attribute(rng.choice([Property, Condition])),
                               lambda: file_link(rng),
                               lambda: PerformedSource("me", None)])()
        if r < 0.62 and self.links:
            return self.dangling_link()
        items = [self.container(depth + 1) for _ in range(rng.randint(0, 4))]
        if r < 0.78:
            return items
        if r < 0.86:
            return tuple(items)
        return {f"{safe_text(rng)}{i}" if rng.random() < 0.5 else f"k{i}": x
                for i, x in enumerate(items)}


def primitive(rng):
    """A JSON primitive."""
    return rng.choice([None, True, False, 0, 1, 1.0, 0.0, -0.0, -1, 2 ** 60, 1.5, "x", "", "1",
                       real(rng), integer(rng), text(rng)])


def simple_history(rng, depth=3, width=2):
    """A material run with a tree of ingredients, specs included (no links, no cycles)."""
    counter = itertools.count()

    def node(level):
        k = next(counter)
        ps = ProcessSpec(f"proc {k}")
        ms = MaterialSpec(f"mat {k}", process=ps)
        pr = ProcessRun(f"proc {k}", spec=ps)
        mr = MaterialRun(f"mat {k}", spec=ms, process=pr)
        if level < depth:
            for j in range(rng.randint(1, width)):
                child = node(level + 1)
                i = IngredientSpec(f"ing {k} {j}", process=ps, material=child.spec,
                                   labels=["a", "b"][:rng.randint(0, 2)])
                IngredientRun(spec=i, process=pr, material=child,
                              mass_fraction=NominalReal(0.5, ""))
        for j in range(rng.randint(0, 2)):
            q = MeasurementSpec(f"meas {k} {j}")
            MeasurementRun(f"meas {k} {j}", spec=q, material=mr)
        return mr

    return node(0)
