"""C28: the worked examples are complete, reproducible and faithful to their input."""
import contextlib
import io
import math
import random
import re
import warnings

import pandas

from gemd.demo import cake as cakes, measurement_example, strehlow_and_cook as sac
from gemd.demo.material_run_example import ingest_material_run
from gemd.demo.table_example import ingest_table
from gemd.entity.attribute import Property, Condition
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds_validation import validation_level, WarningLevel
from gemd.entity.file_link import FileLink
from gemd.entity.object import IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, \
    MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec
from gemd.entity.template import ConditionTemplate, MaterialTemplate, MeasurementTemplate, \
    ParameterTemplate, ProcessTemplate, PropertyTemplate
from gemd.entity.value import DiscreteCategorical, EmpiricalFormula, NominalCategorical, \
    NominalReal, NormalReal
from gemd.enumeration import Origin
from gemd.units import convert_units, parse_units

from vf import gen, snap
from vf.core import short

RULE = ("Cakes for random seeds, scopes, shared templates and recipes; random band-gap tables, "
        "experiment records and data frames (numbers as texts, uncertainties, missing fields, "
        "several units); what comes out is compared with an independent reading of the input; "
        "signature: (scenario, shape of the input).")
REQUIRED = ["cakes", "same_seed", "other_seed", "unseeded", "shared_recipe", "pictures", "scopes",
            "quantities", "compounds", "shared_compounds", "uncertain", "split", "repeated",
            "table_cells", "display_cells", "records", "record_values", "unknown_units",
            "specs_given", "frames", "frame_cells", "bends"]
N = {"quick": 1500, "thorough": 12000}
TEMPLATES = (ConditionTemplate, MaterialTemplate, MeasurementTemplate, ParameterTemplate,
             ProcessTemplate, PropertyTemplate)
RUNS = (IngredientRun, MaterialRun, MeasurementRun, ProcessRun)
SPECS = (IngredientSpec, MaterialSpec, MeasurementSpec, ProcessSpec)
CLOSE = 1e-9


def close(x, y):
    """Equal up to the rounding of a conversion."""
    return math.isclose(x, y, rel_tol=CLOSE, abs_tol=0)


@contextlib.contextmanager
def strict():
    """The strictest level, and no warning left unnoticed."""
    with validation_level(WarningLevel.FATAL), warnings.catch_warnings():
        warnings.simplefilter("error")
        yield


def middle(v):
    """The number in the middle of a quantity."""
    if isinstance(v, NominalReal):
        return v.nominal
    return v.mean if isinstance(v, NormalReal) else (v.lower_bound + v.upper_bound) / 2


def complete(ctx, cake, scope, template_scope):
    """Everything about one cake."""
    everything = snap.reachable(cake)
    seen = set()
    for e in everything:
        want = template_scope if isinstance(e, TEMPLATES) else scope
        ctx.check(list(e.uids) == [want],
                  lambda: f"a {type(e).__name__} has uids {dict(e.uids)}, scope is {want!r}")
        ctx.check(e.uids[want] not in seen or isinstance(e, TEMPLATES) and
                  (type(e), e.uids[want]) not in seen,
                  lambda: f"uid {e.uids[want]!r} is used twice")
        seen.update([e.uids[want], (type(e), e.uids[want])])
        if isinstance(e, RUNS):
            ctx.check(isinstance(e.spec, SPECS), lambda: f"run {e.name!r} has no spec")
        if isinstance(e, (MaterialRun, MaterialSpec)):
            ctx.check(isinstance(e.process, BaseEntity) and e.process.output_material is e,
                      lambda: f"{e.name!r} has no process")
        if isinstance(e, (IngredientRun, IngredientSpec)):
            ctx.check(isinstance(e.process, BaseEntity) and isinstance(e.material, BaseEntity),
                      lambda: f"ingredient {e.name!r} is not connected")
        if isinstance(e, MeasurementRun):
            ctx.check(isinstance(e.material, MaterialRun), "a measurement of nothing")
            ctx.check(bool(e.properties), lambda: f"{e.name!r} measured nothing")
        if isinstance(e, (ProcessSpec, MaterialSpec)):
            ctx.check(e.template is not None, lambda: f"{e.name!r} has no template")
        if isinstance(e, RUNS) and not isinstance(e, MeasurementRun):
            ctx.check(list(e.tags) == list(e.spec.tags) and e.tags is not e.spec.tags,
                      lambda: f"tags of {e.name!r} differ from its spec's")
            if e.spec.notes:
                ctx.check(e.spec.notes in e.notes, "notes do not quote the spec's")
        if isinstance(e, ProcessRun):
            ctx.check(e.source is not None, lambda: f"nobody performed {e.name!r}")
        if isinstance(e, IngredientRun):
            for f in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
                planned, used = getattr(e.spec, f), getattr(e, f)
                ctx.check((planned is None) == (used is None),
                          lambda: f"{f} of {e.name!r} is {short(used)}, planned {short(planned)}")
                if planned is not None:
                    ctx.check(planned.units == used.units and
                              abs(middle(used) - middle(planned)) <
                              max(0.06 * middle(planned), 0.01 * f.endswith("fraction")),
                              lambda: f"{f} of {e.name!r} is {short(used)}, planned "
                                      f"{short(planned)}")
                    ctx.ev("quantities")
    return everything


def cake_case(ctx):
    """Cakes of equal and different seeds."""
    rng = ctx.rng
    old = cakes.get_demo_scope(), cakes.get_template_scope()
    scope, template_scope = old
    state = random.getstate()
    try:
        if rng.random() < 0.6:
            scope = rng.choice(["demo", "My Scope", "é", "x" * 40, "id", gen.text(rng) + "z"])
            if rng.random() < 0.5:
                template_scope = scope + rng.choice(["t", "-template", " 2"])
                cakes.change_scope(scope, templates=template_scope)
            else:
                template_scope = scope + "-template"
                cakes.change_scope(scope) if rng.random() < 0.5 else \
                    cakes.change_scope(data=scope, templates=None)
            ctx.check(cakes.get_demo_scope() == scope and
                      cakes.get_template_scope() == template_scope, "change_scope did not")
            ctx.ev("scopes")
        seed = rng.choice([rng.randrange(10 ** 6), 0, rng.choice(["a", "cake"]), -1, 1.5])
        image = FileLink("a.jpg", "b") if rng.random() < 0.5 else None
        kw = {"toothpick_img": image} if image is not None else {}
        frozen = recipe = tmpl = None
        with strict():
            if rng.random() < 0.5:
                tmpl = cakes.make_cake_templates()
                kw["tmpl"] = tmpl
                if rng.random() < 0.7:
                    recipe = kw["cake_spec"] = cakes.make_cake_spec(tmpl)
                    frozen = snap.freeze([recipe])
            first = cakes.make_cake(seed=seed, **kw)
            again = cakes.make_cake(seed, **kw)
            other = cakes.make_cake(seed=f"{seed}!", **kw)
            free = [cakes.make_cake(**kw), cakes.make_cake(seed=None, **kw)]
        everything = [complete(ctx, c, scope, template_scope)
                      for c in (first, again, other, *free)]
        ctx.ev("cakes", 5)
        if recipe is not None:
            ctx.check(all(c.spec is recipe for c in (first, again, other)), "another recipe")
            bad = snap.diff_state(frozen, snap.freeze([recipe]))
            ctx.check(bad is None, lambda: f"baking changed the recipe: {bad}")
            ctx.ev("shared_recipe")
        if tmpl is not None:
            mine = {id(t) for t in tmpl.values()}
            ctx.check(all(id(e) in mine for es in everything for e in es
                          if isinstance(e, TEMPLATES)), "a cake uses templates of its own")
        bad = snap.isomorphic(first, again)
        ctx.check(bad is None, lambda: f"two cakes of seed {seed!r} differ: {bad}")
        ctx.check(first == again and first is not again, "two cakes of one seed are unequal")
        ctx.ev("same_seed")
        ids = [{e.uids[scope] for e in es if isinstance(e, RUNS)} for es in everything]
        for i, these in enumerate(ids):
            for those in ids[i + 1:] if i else ids[2:]:
                ctx.check(not these & those, "runs of two cakes share uids")
        ctx.ev("other_seed")
        ctx.ev("unseeded")
        named = [{(type(e).__name__, e.uids.get(scope) or e.uids.get(template_scope)): e
                  for e in es if not isinstance(e, RUNS)} for es in everything]
        for n in named[1:]:
            ctx.check(n.keys() == named[0].keys(), "cakes have different specs")
            for k in rng.sample(sorted(n), 5):
                ctx.check(n[k] == named[0][k], lambda: f"{k} differs between cakes")
        for es in everything:
            holders = [e for e in es if isinstance(e, MeasurementRun) and e.file_links]
            ctx.check([x for e in holders for x in e.file_links] ==
                      ([image] if image is not None else []), "the picture is misplaced")
        ctx.ev("pictures")
        ctx.sig("cake", type(seed).__name__, sorted(kw), scope)
    finally:
        cakes.change_scope(old[0], templates=old[1])
        random.setstate(state)


FORMULAS = [("Ga1As1", "GaAs", "GaAs"), ("Li1F1", "LiF", "LiF"),
            ("Mg3As2", "Mg3As2", "Mg$_{3}$As$_{2}$"), ("Zn1S1", "ZnS", "ZnS"),
            ("In11O10", "In11O10", "In$_{11}$O$_{10}$"), ("C1", "C", "C"),
            ("Al2O3", "Al2O3", "Al$_{2}$O$_{3}$"), ("Ga0.5Al0.5As1", "Ga0.5Al0.5As",
                                                    "Ga$_{0.5}$Al$_{0.5}$As"), ("Si", "Si", "Si"),
            ("Al1.5As1", "Al1.5As", "Al$_{1.5}$As"), ("B1C10.1", "BC10.1", "BC$_{10.1}$")]
GAP, SLOPE = "Band gap", "Temperature derivative of band gap"
YESNO = ["Lasing", "Cathodoluminescence", "Mechanical luminescence", "Photoluminescence",
         "Electroluminescence", "Thermoluminescence"]
CHOICES = {"Color": ["Amber", "Yellow-White", "Red"], "Crystallinity": ["Amorphous",
                                                                       "Single crystalline"],
           "Morphology": ["Thin film", "Bulk"],
           "Electric field polarization": ["Parallel to A axis", "Perpendicular to C axis"],
           "Phase": ["A", "Rutile", "Cubic", "Trigonal"],
           "Transition": ["Direct", "Indirect", "G1 to X1", "L6+ to L6-"]}
CHOICES.update({f: ["True", "False"] for f in YESNO})
SPLIT = {"Cubic": "Crystal system", "Trigonal": "Crystal system", "G1 to X1": "Bands",
         "L6+ to L6-": "Bands"}
PROPERTIES = {GAP, SLOPE, "Color", *YESNO}
TERMS = ["Band gap", "Temperature derivative of band gap", "Temperature", "Color", "Lasing",
         "Cathodoluminescence", "Mechanical luminescence", "Photoluminescence",
         "Electroluminescence", "Thermoluminescence", "Transition", "Bands",
         "Electric field polarization", "Crystallinity", "Morphology", "Phase", "Crystal system"]


def reading(ctx, name, conditions=()):
    """One entry of a row of the band-gap table."""
    rng = ctx.rng
    out = {"name": name}
    if name in CHOICES:
        out["scalars"] = [{"value": rng.choice(CHOICES[name])}]
    else:
        number = {GAP: rng.uniform(0.1, 20), SLOPE: rng.uniform(-0.001, 0.001),
                  "Temperature": rng.choice([300, 77, 4.2])}[name]
        out["units"] = {GAP: rng.choice(["eV", "eV", "eV", "meV", "aJ"]),
                        SLOPE: rng.choice(["eV/K", "meV/K"]),
                        "Temperature": rng.choice(["K", "K", "mK"])}[name]
        scalar = {"value": repr(convert_units(number, {GAP: "eV", SLOPE: "eV/K",
                                                       "Temperature": "K"}[name], out["units"]))}
        if rng.random() < 0.4:
            scalar["uncertainty"] = repr(float(scalar["value"]) * rng.choice([0.01, -0.5, 0.1, 1, 3, 0]))
            scalar["uncertainty"] = repr(abs(float(scalar["uncertainty"])))
        out["scalars"] = [scalar]
    if rng.random() < 0.5:
        out["dataType"] = rng.choice(["EXPERIMENTAL", "COMPUTATIONAL", "OTHER"])
    if rng.random() < 0.5:
        out["method"] = {"name": rng.choice(["Reflection", "x y"])}
    if conditions:
        out["conditions"] = list(conditions)
    return out


def row_of(ctx):
    """A row with a formula, properties and their conditions."""
    rng = ctx.rng
    raw = rng.choice(FORMULAS)
    names = rng.sample(sorted(PROPERTIES) + ["Crystallinity"], rng.randint(1, 5))
    free = ["Temperature", "Crystallinity", "Morphology", "Electric field polarization"]
    once = [n for n in ("Phase", "Transition") if rng.random() < 0.7]
    properties = []
    for n in names:
        some = rng.sample(free, rng.randint(0, 3))
        if once and rng.random() < 0.7:
            some.append(once.pop())
        properties.append(reading(ctx, n, [reading(ctx, c) for c in some]))
    if rng.random() < 0.2:
        properties.append(reading(ctx, names[0]))
    return raw, {"category": "system.chemical", "chemicalFormula": raw[0],
                 "properties": properties}


def expected(ctx, row):
    """{template name: (kind, number or text, uncertainty, units, origin, notes)} of a row."""
    out, seen = {}, set()
    for p in row["properties"]:
        origin = {"EXPERIMENTAL": Origin.MEASURED,
                  "COMPUTATIONAL": Origin.COMPUTED}.get(p.get("dataType"), Origin.UNKNOWN)
        notes = "Method: " + p.get("method", {}).get("name", "unreported")
        for a in [p] + p.get("conditions", []):
            if a["name"] in seen:
                ctx.ev("repeated")
                continue
            seen.add(a["name"])
            scalar = a["scalars"][0]
            name = SPLIT.get(scalar["value"], a["name"])
            if name != a["name"]:
                ctx.ev("split")
            kind = Property if name in PROPERTIES else Condition
            if a["name"] in CHOICES:
                out[name] = kind, scalar["value"], None, None, origin, notes
            else:
                out[name] = (kind, float(scalar["value"]),
                             float(scalar["uncertainty"]) if "uncertainty" in scalar else None,
                             a["units"], origin, notes)
    return out


def agrees(v, number, uncertainty, units):
    """Whether a value says what the source says."""
    if units is None:
        return type(v) is NominalCategorical and v.category == number
    if uncertainty is None:
        return type(v) is NominalReal and close(convert_units(v.nominal, v.units, units), number)
    return type(v) is NormalReal and close(convert_units(v.mean, v.units, units), number) and \
        close(convert_units(v.std, v.units, units), uncertainty)


def sac_case(ctx):
    """Band gaps, from the raw table to the display."""
    rng = ctx.rng
    rows = [row_of(ctx) for _ in range(rng.randint(1, 8))]
    table = [r for _, r in rows]
    before = repr(table)
    scope = rng.choice(["t", "My templates", sac.DEMO_TEMPLATE_SCOPE])
    given = rng.choice([list, tuple, iter])(table)
    with strict():
        things = sac.make_strehlow_objects(given, scope) if rng.random() < 0.7 else \
            sac.make_strehlow_objects(table=given, template_scope=scope)
    ctx.check(repr(table) == before, "the table was changed")
    ctx.check(len(things) == len(rows) and len({id(x) for x in things}) == len(rows),
              lambda: f"{len(things)} materials for {len(rows)} rows")
    specs = {}
    for m, ((raw, clean, latex), row) in zip(things, rows):
        ctx.check(type(m) is MaterialRun and type(m.spec) is MaterialSpec and
                  type(m.process) is ProcessRun and m.process.spec is m.spec.process,
                  "a material is not connected")
        ctx.check(specs.setdefault(clean, m.spec) is m.spec, "one compound, two specs")
        ctx.check(m.name == m.spec.name == latex, lambda: f"{raw} is called {m.name!r}")
        ctx.check(len(m.spec.properties) == 1 and
                  m.spec.properties[0].value == EmpiricalFormula(clean) and
                  m.spec.properties[0].template.name == "Formula",
                  lambda: f"{raw} has the formula {short(m.spec.properties)}")
        ctx.check(len(m.measurements) == 1, lambda: f"{len(m.measurements)} measurements")
        q = m.measurements[0]
        ctx.check(q.spec is things[0].measurements[0].spec, "measurements of several kinds")
        want = expected(ctx, row)
        got = {a.name: a for a in q.properties + q.conditions}
        ctx.check(len(got) == len(q.properties) + len(q.conditions) and not q.parameters,
                  "an attribute twice")
        ctx.check(sorted(got) == sorted(want),
                  lambda: f"{raw} has {sorted(got)}, expected {sorted(want)}")
        for name, (kind, number, std, units, origin, notes) in want.items():
            a = got[name]
            ctx.check(type(a) is kind and a.origin == origin and a.notes == notes and
                      a.template.name == name and a.template.uids == {scope: name},
                      lambda: f"{name} of {raw} is {short(a)}")
            ctx.check(agrees(a.value, number, std, units),
                      lambda: f"{name} of {raw} is {short(a.value)}, expected {number} +- {std} "
                              f"{units}")
            ctx.ev("uncertain", std is not None)
        ctx.ev("compounds")
    ctx.ev("shared_compounds", len(rows) - len(specs))
    ctx.check(len({id(s) for s in specs.values()}) == len(specs), "two compounds, one spec")

    # Structured, then displayed
    structured = sac.make_strehlow_table(things)
    heads = [h["name"] for h in structured["headers"]]
    ctx.check(heads == [["Chemical", x] for x in ["Display name", "Formula"] + TERMS],
              lambda: f"headers {heads}")
    ctx.check(len(structured["content"]) == len(rows), "rows were lost")
    display = sac.make_display_table(structured)
    ctx.check(len(display) == len(rows) + 1 and
              all(len(r) == len(TERMS) + 3 for r in display), "the display table has gaps")
    units = {i: re.search(r"\((.*)\)$", h).group(1) for i, h in enumerate(display[0])
             if h.endswith(")")}
    for line, shown, m, ((_, clean, latex), row) in zip(structured["content"], display[1:],
                                                      things, rows):
        want = expected(ctx, row)
        ctx.check(line[0] == latex == shown[0] and line[1] == EmpiricalFormula(clean)
                  and shown[1] == EmpiricalFormula(clean).formula, "a row is out of place")
        gap = TERMS.index(GAP)
        for k, term in enumerate(TERMS):
            cell = line[2 + k]
            at = 2 + k + (k > gap)
            ctx.check(display[0][at].startswith(f"Chemical~{term}~"), "a header is out of place")
            if term not in want:
                ctx.check(cell is None and shown[at] == "", lambda: f"{term} came from nowhere")
                continue
            _, number, std, unit, _, _ = want[term]
            ctx.check(agrees(cell, number, std, unit), lambda: f"{term}: {short(cell)}")
            ctx.ev("table_cells")
            ok = shown[at] == number if unit is None else \
                close(convert_units(shown[at], units[at], unit), number)
            ctx.check(ok, lambda: f"{term} is shown as {shown[at]} under {display[0][at]!r}, "
                                  f"expected {number} {unit}")
            if term == GAP:
                ok = shown[at + 1] == "" if std is None else \
                    close(convert_units(shown[at + 1], units[at + 1], unit), std)
                ctx.check(ok, lambda: f"the uncertainty of {number} is shown as {shown[at + 1]}, "
                                      f"expected {std} {unit}")
            ctx.ev("display_cells")
    small = sac.minimal_subset(structured["content"])
    kinds = [tuple(type(x) for x in r) for r in structured["content"]]
    ctx.check([tuple(type(x) for x in r) for r in small] == list(dict.fromkeys(kinds)),
              "the minimal subset is not one row of each kind")
    ctx.sig("band gaps", tuple(sorted(expected(ctx, r)) for _, r in rows))


def amount(ctx, field):
    """(what a record says, what it means)."""
    rng = ctx.rng
    if field == "knob_2_setting":
        word = rng.choice(["low", "medium", "high"])
        return word, DiscreteCategorical(word)
    units = {"density": ["g/cm^3", "kg/m^3", "g/mL"], "kinematic viscosity": ["m^2/s", "cm**2/s"],
             "temperature": ["K", "mK", "kelvin"]}[field]
    number = rng.choice([1, 0, 2.5, 300, 1e-3, 12.25])
    unit = rng.choice(units)
    how = rng.randrange(7)
    if how == 0:
        return number, NominalReal(number, "")
    if how == 1:
        return str(number), NominalReal(float(number), "")
    if how == 2:
        ctx.ev("unknown_units")
        return f"{number} +- 0.5 zork", NormalReal(float(number), 0.5, "")
    if how == 3:
        ctx.ev("unknown_units")
        return f"{number} zork", NominalReal(float(number), "")
    if how == 4:
        return f"{number} {unit}", NominalReal(float(number), parse_units(unit))
    sign = rng.choice(["+-", "+/-"])
    std = rng.choice([0, 0.25, 10])
    return f"{number}  {sign} {std} {unit}", NormalReal(float(number), float(std),
                                                       parse_units(unit))


def record(ctx, i):
    """A record of experiments, and what it says."""
    rng = ctx.rng
    fields = {"density": "properties", "kinematic viscosity": "properties",
              "temperature": "conditions", "knob_2_setting": "parameters"}
    data, means = {}, []
    if rng.random() < 0.7:
        data["sample_id"] = f"s{i}"
    if rng.random() < 0.6:
        data["tags"] = [gen.text(rng) for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.9:
        data["experiments"] = []
        for j in range(rng.randint(0, 4)):
            e, m = {}, {}
            for f in rng.sample(sorted(fields), rng.randint(0, 4)):
                e[f], m[f] = amount(ctx, f)
            if rng.random() < 0.5:
                e["scan_id"] = f"x{i}-{j}"
            if rng.random() < 0.4:
                e["tags"] = [gen.text(rng)]
            if rng.random() < 0.4:
                e["colour"] = "red"
            data["experiments"].append(e)
            means.append(m)
    return data, means, fields


def record_case(ctx):
    """Records of experiments."""
    rng = ctx.rng
    records = [record(ctx, i) for i in range(rng.randint(1, 4))]
    spec = MaterialSpec("s") if rng.random() < 0.5 else None
    process = ProcessRun("p") if rng.random() < 0.5 else None
    before = repr([r[0] for r in records])
    with contextlib.redirect_stdout(io.StringIO()), validation_level(WarningLevel.IGNORE):
        if len(records) == 1 or process is not None:
            out = [ingest_material_run(records[0][0], spec, process)]
            records = records[:1] if len(records) > 1 else records
        else:
            out = ingest_material_run([r[0] for r in records], material_spec=spec)
    ctx.check(before.startswith(repr([r[0] for r in records])[:-1]), "the record was changed")
    ctx.check(isinstance(out, list) and len(out) == len(records), "records were lost")
    for m, (data, means, fields) in zip(out, records):
        ctx.check(type(m) is MaterialRun and m.spec is spec,
                  lambda: f"the material's spec is {short(m.spec)}, given {short(spec)}")
        ctx.ev("specs_given", spec is not None)
        ctx.check(m.process is process and (process is None or process.output_material is m),
                  "the material's process is another")
        ctx.check(dict(m.uids) == ({"given_sample_id": data["sample_id"]} if "sample_id" in data
                                   else {}), lambda: f"uids {dict(m.uids)}")
        ctx.check(list(m.tags) == data.get("tags", []), "tags differ")
        ctx.check(len(m.measurements) == len(means), "one measurement per experiment")
        for q, e, want in zip(m.measurements, data.get("experiments", []), means):
            for f in ("properties", "conditions", "parameters"):
                got = {a.name: a for a in getattr(q, f)}
                ctx.check(len(got) == len(getattr(q, f)) and
                          sorted(got) == sorted(n for n in want if fields[n] == f),
                          lambda: f"{f} are {sorted(got)} for {short(e)}")
                for n, a in got.items():
                    ctx.check(a.value == want[n] and a.template.name == n,
                              lambda: f"{e[n]!r} became {short(a)}, expected {short(want[n])}")
                    ctx.ev("record_values")
            ctx.check(dict(q.uids) == ({"given_scan_id": e["scan_id"]} if "scan_id" in e else {}),
                      "uids of a measurement differ")
            ctx.check(list(q.tags) == e.get("tags", []), "tags of a measurement differ")
        ctx.ev("records")
    for bad in (5, "x", None):
        ctx.raises(ValueError, lambda: ingest_material_run(bad), f"a record {bad!r}")
    ctx.raises(ValueError, lambda: ingest_material_run(
        {"experiments": [{"density": None}]}), "a density of None")
    ctx.sig("records", tuple(tuple(tuple(sorted(w)) for w in r[1]) for r in records))


def frame_case(ctx):
    """A data frame becomes measurements; so do bending tests."""
    rng = ctx.rng
    n = rng.randint(0, 6)
    columns = rng.sample(["vapor pressure", "temperature", "note"], rng.randint(1, 3))
    frame = pandas.DataFrame({c: [rng.choice([0.0, 1.5, -3.25, 1e9]) for _ in range(n)]
                              for c in columns})
    m = MaterialRun("m", tags=["t"])
    older = [MeasurementRun("old", material=m) for _ in range(rng.randint(0, 2))]
    ctx.check(ingest_table(m, frame) is m, "another material is returned")
    ctx.check([id(x) for x in m.measurements[:len(older)]] == [id(x) for x in older]
              and len(m.measurements) == len(older) + n, "one measurement per row")
    for q, (_, row) in zip(m.measurements[len(older):], frame.iterrows()):
        for f, c in (("properties", "vapor pressure"), ("conditions", "temperature")):
            got = [(a.name, a.value) for a in getattr(q, f)]
            ctx.check(got == ([(c, NominalReal(row[c], ""))] if c in columns else []),
                      lambda: f"{f} are {short(got)} for {dict(row)}")
            ctx.ev("frame_cells")
    ctx.ev("frames")
    state = random.getstate()
    k = rng.randint(0, 5)
    tags = rng.choice([frozenset(), {"a"}, ["x", "y"], ("z",)])
    tests = measurement_example.make_demo_measurements(k, extra_tags=tags)
    ctx.check(len(tests) == k and len({x.uids["my_id"] for x in tests}) == k, "bending tests")
    d = rng.choice([0.5, 1e-3, 12.0])
    tests.append(measurement_example.make_flexural_test_measurement("id", d, tags))
    ctx.check(tests[-1].uids == {"my_id": "id"} and
              next(p for p in tests[-1].properties if p.name == "deflection").value ==
              NominalReal(d, "mm"), "a bending test has another deflection")
    random.setstate(state)
    for x in tests:
        v = {p.name: p.value for p in x.properties}
        ctx.check(sorted(v) == ["deflection", "flexural modulus", "flexural strain",
                                "flexural stress"], lambda: f"bending test with {sorted(v)}")
        stress, strain, modulus = (v["flexural " + w] for w in ("stress", "strain", "modulus"))
        ctx.check(close(stress.mean, modulus.mean * strain.mean) and
                  stress.units == modulus.units == "megapascal" and strain.units == "dimensionless",
                  "stress is not modulus times strain")
        ctx.check(close(strain.mean, 6 * v["deflection"].nominal * 4 / 64 ** 2), "strain")
        ctx.check(close(stress.mean, 3 * 100 * 64 / (2 * 4 ** 2 * 10)), "stress")
        ctx.check(all(close(y.std, 0.01 * y.mean) for y in (stress, strain, modulus)), "std")
        ctx.check([t for t in x.tags if t in tags] == list(tags), "extra tags are lost")
        ctx.ev("bends")
    ctx.sig("frame", n, tuple(columns), k, len(older))


def case(ctx):
    """One example."""
    r = ctx.rng.random()
    (cake_case if r < 0.12 else sac_case if r < 0.5 else record_case if r < 0.75
     else frame_case)(ctx)


def bundled(ctx):
    """The tables that come with the package."""
    for name in (sac.SMALL_TABLE, sac.FULL_TABLE):
        table = sac.import_table(name)
        with strict():
            things = sac.make_strehlow_objects(table)
        ctx.check(len(things) == len(table), "rows were lost")
        structured = sac.make_strehlow_table(things)
        display = sac.make_display_table(structured)
        ctx.check(len(display) == len(table) + 1, "rows were lost")
        gap = next(i for i, h in enumerate(display[0]) if GAP in h)
        for row, shown in zip(table, display[1:]):
            mine = next((p for p in row["properties"] if p["name"] == GAP), None)
            ctx.check((mine is None) == (shown[gap] == ""), "a band gap is missing")
            if mine is not None:
                ctx.check(close(convert_units(shown[gap], "eV", mine["units"]),
                                float(mine["scalars"][0]["value"])), "a band gap differs")
                std = mine["scalars"][0].get("uncertainty")
                ctx.check((std is None) == (shown[gap + 1] == "") and
                          (std is None or close(convert_units(shown[gap + 1], "eV", mine["units"]),
                                                float(std))), "an uncertainty differs")
                ctx.ev("display_cells")
    with cakes.import_toothpick_picture() as f, cakes.import_toothpick_picture() as g:
        data = f.read()
        ctx.check(data[:2] == b"\xff\xd8" and data == g.read(), "the picture is no picture")


FIXED = [("bundled", bundled)]
