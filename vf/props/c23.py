"""C23: the builders make completely linked objects, and exactly those."""
from gemd.builders import make_node, add_edge, add_measurement, add_attribute, make_attribute, \
    make_value
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds, \
    MolecularStructureBounds
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.value import NominalReal, UniformReal, NominalInteger, NominalCategorical, \
    EmpiricalFormula, Smiles, InChI

from vf import gen, snap
from vf.core import short

RULE = ("Random build histories (nodes with and without templates, edges with every combination of "
        "quantities given as numbers or values, measurements, attributes of every kind on every "
        "kind of target), after each step of which the graph is compared with a model of what was "
        "added and of what stayed as it was; calls that cannot be satisfied are interleaved; "
        "signature: the history.")
REQUIRED = ["nodes", "edges", "quantities", "zero_quantities", "measurements", "attributes",
            "attribute_refused", "edge_refused", "measurement_refused", "values_made",
            "others_untouched", "condition_on_material_spec", "default_names", "given_names",
            "parallel_edges", "units_refused"]
N = {"quick": 5000, "thorough": 100000}
TCLS = {PropertyTemplate: Property, ConditionTemplate: Condition, ParameterTemplate: Parameter}


def own(e):
    """Fields of one entity, entities by identity."""
    return (tuple((k, snap.encode(v, id)) for k, v in snap.hard_fields(e)),
            tuple((k, snap.encode(v, id)) for k, v in snap.soft_fields(e)))


class World:
    """What was built so far."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.all, self.nodes, self.history = [], [], []
        self.state = {}

    def settle(self, new, touched, what):
        """Everything but the new and the touched is as it was; the new is all there is."""
        ctx = self.ctx
        skip = {id(x) for x in new} | {id(x) for x in touched}
        for e in self.all:
            if id(e) not in skip:
                ctx.check(own(e) == self.state[id(e)],
                          lambda: f"{what} changed {type(e).__name__} {e.name!r}")
        ctx.ev("others_untouched")
        self.all.extend(new)
        for e in list(new) + list(touched):
            self.state[id(e)] = own(e)
        known = {id(e) for e in self.all}
        for e in new:
            for c in snap.children(e):
                ctx.check(id(c) in known, lambda: f"{what} made a stray {type(c).__name__}")

    def register(self, templates):
        """Templates that exist before the call."""
        for t in templates:
            if t is not None and id(t) not in self.state:
                self.all.append(t)
                self.state[id(t)] = own(t)

    # steps ------------------------------------------------------------------------------------
    def node(self):
        rng, ctx = self.rng, self.ctx
        kw = {}
        if rng.random() < 0.4:
            kw["process_name"] = gen.text(rng)
        if rng.random() < 0.4:
            kw["process_template"] = ProcessTemplate(gen.text(rng))
        if rng.random() < 0.4:
            kw["material_template"] = MaterialTemplate(gen.text(rng))
        if rng.random() < 0.3:
            kw.setdefault(rng.choice(["process_name", "process_template", "material_template"]),
                          None)
        self.register([kw.get("process_template"), kw.get("material_template")])
        name = gen.text(rng)
        m = make_node(name, **kw)
        pt, mt = kw.get("process_template"), kw.get("material_template")
        pname = kw.get("process_name")
        ctx.ev("default_names" if pname is None else "given_names")
        if pname is None:
            pname = pt.name if pt is not None else name
        ctx.check(type(m) is MaterialRun and type(m.spec) is MaterialSpec
                  and type(m.process) is ProcessRun and type(m.process.spec) is ProcessSpec,
                  lambda: f"make_node gave {short(m)}")
        ms, pr, ps = m.spec, m.process, m.process.spec
        ctx.check(ms.process is ps and pr.output_material is m and ps.output_material is ms,
                  "the quadruple is not connected")
        ctx.check((m.name, ms.name, pr.name, ps.name) == (name, name, pname, pname),
                  lambda: f"names {(m.name, ms.name, pr.name, ps.name)}, expected {name!r} and "
                          f"{pname!r}")
        ctx.check(ms.template is mt and ps.template is pt and m.template is mt
                  and pr.template is pt, "templates differ")
        ctx.check(not pr.ingredients and not ps.ingredients and not m.measurements,
                  "a new node has ingredients")
        self.settle([m, ms, pr, ps], [], "make_node")
        self.nodes.append(m)
        ctx.ev("nodes")
        self.history.append("n")

    def quantity(self, field):
        """(argument, expected value, None or units argument)."""
        rng = self.rng
        k = rng.random()
        if k < 0.5:
            x = rng.choice([0, 0.0, 1, 1.0, 0.5, 0.25, rng.random()])
            if x == 0:
                self.ctx.ev("zero_quantities")
            units = rng.choice(["kg", "mL", "mol", "g", "count", ""]) if field == "absolute_quantity" else None
            return x, NominalReal(float(x), units or ""), units
        units = "kg" if field == "absolute_quantity" else rng.choice(["", "percent"])
        v = rng.choice([NominalReal(0.5, units), UniformReal(0.25, 0.75, units),
                        NominalReal(0, units)])
        return v, v, None

    def edge(self):
        rng, ctx = self.rng, self.ctx
        a, b = rng.choice(self.nodes), rng.choice(self.nodes)
        kw, want = {}, {}
        for f in ("mass_fraction", "number_fraction", "volume_fraction", "absolute_quantity"):
            if rng.random() < 0.4:
                arg, val, units = self.quantity(f)
                kw[f] = arg
                want[f] = (val, arg)
                if units is not None:
                    kw["absolute_units"] = units
                ctx.ev("quantities")
        name = gen.text(rng) if rng.random() < 0.4 else None
        if name is not None or rng.random() < 0.3:
            kw["name"] = name
        if any(i.material is a for i in b.process.ingredients):
            ctx.ev("parallel_edges")
        n_run, n_spec = list(b.process.ingredients), list(b.spec.process.ingredients)
        i = add_edge(a, b, **kw)
        ctx.check(type(i) is IngredientRun and type(i.spec) is IngredientSpec, "no ingredient")
        ctx.check(i.material is a and i.process is b.process and i.spec.material is a.spec
                  and i.spec.process is b.spec.process, "the edge is not connected")
        want_name = name if name is not None else a.name
        ctx.check(i.name == want_name == i.spec.name, f"ingredient {i.name!r}, not {want_name!r}")
        ctx.check([id(x) for x in b.process.ingredients] == [id(x) for x in n_run] + [id(i)] and
                  [id(x) for x in b.spec.process.ingredients] ==
                  [id(x) for x in n_spec] + [id(i.spec)], "the process lists other ingredients")
        for f in ("mass_fraction", "number_fraction", "volume_fraction", "absolute_quantity"):
            got = getattr(i, f)
            if f not in want:
                ctx.check(got is None, f"{f} is {short(got)}, was not given")
            else:
                val, arg = want[f]
                ctx.check(got == val and (got is arg or isinstance(arg, (int, float))),
                          lambda: f"{f} is {short(got)}, expected {short(val)}")
            ctx.check(getattr(i.spec, f) is None, f"{f} set on the spec")
        self.settle([i, i.spec], [b.process, b.spec.process], "add_edge")
        ctx.ev("edges")
        self.history.append("e" + "".join(sorted(f[0] for f in want)))

    def bad_edge(self):
        rng, ctx = self.rng, self.ctx
        node = make_node("n")
        self.settle([node, node.spec, node.process, node.process.spec], [], "make_node")
        k = rng.randrange(7)
        if k == 0:
            a, b, kw = MaterialRun("no spec"), node, {}
        elif k == 1:
            a, b, kw = node, MaterialRun("no spec", process=ProcessRun("p")), {}
        elif k == 2:
            a, b, kw = node, MaterialRun("no process", spec=MaterialSpec("s", process=ProcessSpec(
                "p"))), {}
        elif k == 3:
            a, b, kw = node, MaterialRun("x", spec=MaterialSpec("no process"),
                                         process=ProcessRun("p")), {}
        elif k == 4:
            a, b, kw = node, MaterialRun("x", spec=LinkByUID("a", "b"),
                                         process=ProcessRun("p")), {}
        else:
            a, b = node, make_node("m")
            kw = {"absolute_quantity": rng.choice([1, 0, 0.5])} if k == 5 else \
                rng.choice([{"absolute_units": "kg"},
                            {"absolute_quantity": NominalReal(1, "g"), "absolute_units": "kg"}])
            ctx.ev("units_refused")
        ctx.raises(ValueError, lambda: add_edge(a, b, **kw), f"add_edge with {short(kw)} ({k})")
        if k < 5:
            for m in (a, b):
                for p in (m.process, getattr(m.spec, "process", None)):
                    ctx.check(p is None or not p.ingredients, "a refused edge was added")
        ctx.ev("edge_refused")
        self.settle([], [], "a refused add_edge")

    def measurement(self):
        rng, ctx = self.rng, self.ctx
        m = rng.choice(self.nodes)
        t = MeasurementTemplate(gen.text(rng)) if rng.random() < 0.6 else None
        self.register([t])
        name = gen.text(rng) if t is None or rng.random() < 0.5 else None
        attrs = None
        if rng.random() < 0.6:
            attrs = [rng.choice([Property, Condition, Parameter])(f"a{j}", value=gen.value(rng))
                     for j in range(rng.randint(0, 5))]
            attrs = gen.repeated(rng, attrs)
            attrs = rng.choice([attrs, tuple(attrs)])
        before = list(m.measurements)
        kw = {} if attrs is None else {"attributes": attrs}
        if name is not None:
            kw["name"] = name
        if t is not None:
            kw["template"] = t
        q = add_measurement(m, **kw)
        ctx.check(type(q) is MeasurementRun and type(q.spec) is MeasurementSpec
                  and q.material is m and q.template is t and q.spec.template is t,
                  "the measurement is not connected")
        want = name if name is not None else t.name
        ctx.check(q.name == want == q.spec.name, f"measurement {q.name!r}, expected {want!r}")
        for cls, f in ((Property, "properties"), (Condition, "conditions"),
                       (Parameter, "parameters")):
            ctx.check([id(x) for x in getattr(q, f)] ==
                      [id(x) for x in attrs or [] if type(x) is cls], f"{f} differ")
        ctx.check(not q.spec.conditions and not q.spec.parameters, "attributes on the spec")
        ctx.check([id(x) for x in m.measurements] == [id(x) for x in before] + [id(q)],
                  "the material lists other measurements")
        self.settle([q, q.spec], [m], "add_measurement")
        ctx.ev("measurements")
        self.history.append("q")
        if rng.random() < 0.3:
            ctx.raises(ValueError, lambda: add_measurement(MaterialRun("x")),
                       "a measurement without name or template")
            odd = rng.choice([5, "x", PropertyAndConditions(Property("p")), None])
            ctx.raises((ValueError, TypeError), lambda: add_measurement(
                MaterialRun("x"), name="x", attributes=[odd]), f"attribute {short(odd)}")
            ctx.ev("measurement_refused")
            self.settle([], [], "a refused add_measurement")

    def attribute(self):
        rng, ctx = self.rng, self.ctx
        tcls = rng.choice(list(TCLS))
        bounds, given, want = primitive(rng)
        t = tcls(gen.text(rng), bounds=bounds)
        if rng.random() < 0.3:
            given = want = gen.value(rng, gen.kind_of(bounds))
        target = rng.choice([e for e in self.all if type(e) in (
            ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, IngredientRun, MeasurementSpec,
            MeasurementRun)])
        acls = TCLS[tcls]
        fields = {Property: "properties", Condition: "conditions", Parameter: "parameters"}
        before = {f: [id(x) for x in getattr(target, f)] for f in fields.values()
                  if hasattr(target, f)}
        ok = fields[acls] in before
        last = None
        if isinstance(target, MaterialSpec):
            last = target.properties[-1] if target.properties else None
            ok = acls is Property or (acls is Condition and last is not None)
            n_last = [id(x) for x in last.conditions] if last is not None else []
        if not ok:
            ctx.raises(ValueError, lambda: add_attribute(target, t, given),
                       f"a {acls.__name__} on a {type(target).__name__}")
            ctx.ev("attribute_refused")
            self.settle([], [], "a refused add_attribute")
            return
        self.register([t])
        a = add_attribute(target, t, given)
        self.made(a, acls, t, given, want)
        after = {f: [id(x) for x in getattr(target, f)] for f in before}
        if isinstance(target, MaterialSpec):
            if acls is Property:
                ctx.check(after["properties"][:-1] == before["properties"]
                          and type(target.properties[-1]) is PropertyAndConditions
                          and target.properties[-1].property is a
                          and not target.properties[-1].conditions, "property not added")
            else:
                ctx.check(after == before and [id(x) for x in last.conditions] ==
                          n_last + [id(a)], "condition not added to the last property")
                ctx.ev("condition_on_material_spec")
        else:
            before[fields[acls]] = before[fields[acls]] + [id(a)]
            ctx.check(after == before, "attributes other than the new one changed")
        self.settle([], [target], "add_attribute")
        ctx.ev("attributes")
        self.history.append("a" + acls.__name__[0])

    def made(self, a, acls, t, given, want):
        ctx = self.ctx
        ctx.check(type(a) is acls and a.template is t and a.name == t.name,
                  lambda: f"attribute {short(a)} for template {short(t)}")
        ctx.check(type(a.value) is type(want) and a.value == want
                  and (a.value is given or not hasattr(given, "as_dict")),
                  lambda: f"value {short(a.value)}, expected {short(want)}")


def primitive(rng):
    """(bounds, primitive within them, the value it stands for)."""
    k = rng.randrange(6)
    if k == 0:
        u = rng.choice(["m", "", "kg", "g / 2.5 cm"])
        x = rng.choice([0, 1, 0.5, -1.5, rng.uniform(-9, 9)])
        return RealBounds(-10, 10, u), x, NominalReal(x, u)
    if k == 1:
        x = rng.choice([0, 5, -3, 2.0])
        return IntegerBounds(-10, 10), x, NominalInteger(x)
    if k == 2:
        x = rng.choice(gen.CATEGORIES)
        return CategoricalBounds(gen.CATEGORIES), x, NominalCategorical(x)
    if k == 3:
        x = gen.formula(rng)
        return CompositionBounds(EmpiricalFormula.all_elements()), x, EmpiricalFormula(x)
    if k == 4:
        x = rng.choice(["CC", "", "InChiC", "C=InChI=", "inchi=1S/CH4"])
        return MolecularStructureBounds(), x, Smiles(x)
    x = rng.choice(["InChI=1S/CH4/h1H4", "InChI=1/CH4"])
    return MolecularStructureBounds(), x, InChI(x)


def parts(ctx):
    """make_attribute and make_value on their own."""
    rng = ctx.rng
    bounds, given, want = primitive(rng)
    v = make_value(given, bounds)
    ctx.check(type(v) is type(want) and v == want, lambda: f"make_value({given!r}, {bounds}) is "
                                                           f"{short(v)}, expected {short(want)}")
    tcls = rng.choice(list(TCLS))
    t = tcls(gen.text(rng), bounds=bounds)
    a = make_attribute(t, given)
    ctx.check(type(a) is TCLS[tcls] and a.template is t and a.name == t.name and a.value == want,
              lambda: f"make_attribute gave {short(a)}")
    ctx.raises(ValueError, lambda: make_attribute(rng.choice([None, 5, MaterialTemplate("x")]),
                                                  given), "an attribute of no template")
    ctx.raises(ValueError, lambda: make_value(given, rng.choice([None, 5, "x"])),
               "a value of no bounds")
    if isinstance(bounds, RealBounds):
        ctx.raises((ValueError, TypeError, AssertionError), lambda: make_value("x", bounds),
                   "a real from a string")
    elif isinstance(bounds, IntegerBounds):
        ctx.raises((ValueError, TypeError), lambda: make_value(1.5, bounds), "1.5 as an integer")
    else:
        ctx.raises((ValueError, TypeError), lambda: make_value(1.5, bounds), "a number as text")
    ctx.ev("values_made")


def case(ctx):
    """One build."""
    rng = ctx.rng
    w = World(ctx)
    w.node()
    for _ in range(rng.randint(1, 14)):
        step = rng.choice([w.node, w.edge, w.edge, w.measurement, w.attribute, w.attribute,
                           w.bad_edge])
        ctx.log(step.__name__)
        step()
    parts(ctx)
    ctx.sig("".join(w.history))
    ctx.sample({"history": "".join(w.history)})


FIXED = []
