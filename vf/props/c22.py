"""C22: the runs made from a spec mirror its connectivity, one run per spec."""
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.util import make_instance

from vf import gen, snap
from vf.core import short

RULE = ("Random spec graphs (trees, shared materials, cycles, look-alike specs) instantiated from "
        "every kind of spec; the runs reached from the result are paired with the specs by an "
        "independent walk; signature: shape of the specs and type of the start.")
REQUIRED = ["from_material", "from_process", "from_ingredient", "from_measurement", "paired",
            "shared", "cyclic", "ingredients", "specs_unchanged", "fresh", "refused", "look_alike",
            "deep"]
N = {"quick": 5000, "thorough": 100000}
RUN = {ProcessSpec: ProcessRun, MaterialSpec: MaterialRun, IngredientSpec: IngredientRun,
       MeasurementSpec: MeasurementRun}


def inputs(spec):
    """Specs that the instance of a spec involves directly."""
    if isinstance(spec, MaterialSpec):
        return [spec.process] if spec.process is not None else []
    if isinstance(spec, ProcessSpec):
        return list(spec.ingredients)
    if isinstance(spec, IngredientSpec):
        return [spec.material] if spec.material is not None else []
    return []


def walk(spec):
    """Everything involved, and whether there is sharing or a cycle."""
    order, seen, arrivals = [], set(), 0
    todo = [spec]
    while todo:
        s = todo.pop()
        arrivals += 1
        if id(s) in seen:
            continue
        seen.add(id(s))
        order.append(s)
        todo.extend(inputs(s))
    return order, arrivals > len(order)


def outline(spec):
    """Signature of what a spec involves."""
    order = walk(spec)[0]
    num = {id(s): i for i, s in enumerate(order)}
    return tuple((type(s).__name__, tuple(num[id(c)] for c in inputs(s))) for s in order)


def cyclic(spec):
    """Whether the spec involves itself."""
    seen, todo = set(), list(inputs(spec))
    while todo:
        s = todo.pop()
        if s is spec:
            return True
        if id(s) not in seen:
            seen.add(id(s))
            todo.extend(inputs(s))
    return False


def mirror(ctx, spec, run):
    """Check that run mirrors spec; returns {id(spec): run}."""
    specs, shared = walk(spec)
    by_id = {id(s): s for s in specs}
    runs, todo = {}, [(spec, run)]

    def pair(s, r, why):
        if s is None:
            ctx.check(r is None, lambda: f"{why}: {short(r)} where the spec has nothing")
            return
        ctx.check(type(r) is RUN[type(s)], lambda: f"{why}: a {type(r).__name__} for a "
                                                   f"{type(s).__name__}")
        ctx.check(r.spec is s, lambda: f"{why}: the run of {s.name!r} has another spec")
        if id(s) in runs:
            ctx.check(runs[id(s)] is r, lambda: f"{why}: two runs of the spec {s.name!r}")
        else:
            todo.append((s, r))

    while todo:
        s, r = todo.pop()
        if id(s) in runs:
            ctx.check(runs[id(s)] is r, "two runs of one spec")
            continue
        pair(s, r, "start")
        todo.pop()
        runs[id(s)] = r
        ctx.check(r.name == s.name, lambda: f"run {r.name!r} of spec {s.name!r}")
        ctx.check(not r.uids, "a new run already has uids")
        ctx.ev("paired")
        if isinstance(s, MaterialSpec):
            pair(s.process, r.process, "process of a material")
            if s.process is not None:
                ctx.check(r.process.output_material is r, "the process does not make the material")
            ctx.check(r.template is s.template, "template differs")
        elif isinstance(s, IngredientSpec):
            pair(s.material, r.material, "material of an ingredient")
            ctx.check(r.labels == s.labels, "labels differ")
            if s.process is not None and id(s.process) in by_id:
                pair(s.process, r.process, "process of an ingredient")
            else:
                ctx.check(r.process is None, "ingredient of a process that was not asked for")
        elif isinstance(s, ProcessSpec):
            ctx.check(len(r.ingredients) == len(s.ingredients),
                      lambda: f"{len(r.ingredients)} ingredients, spec has {len(s.ingredients)}")
            specs_of_runs = sorted(id(i.spec) for i in r.ingredients)
            ctx.check(specs_of_runs == sorted(id(i) for i in s.ingredients),
                      "ingredients of other specs")
            for i in r.ingredients:
                pair(i.spec, i, "ingredient")
                ctx.check(i.process is r, "ingredient belongs to another process")
                ctx.ev("ingredients")
            if s.output_material is not None and id(s.output_material) in by_id:
                pair(s.output_material, r.output_material, "output")
            else:
                ctx.check(r.output_material is None, "an output that was not asked for")
        else:
            ctx.check(r.material is None, "a measurement of something")
    ctx.check(set(runs) == set(by_id), "runs of other specs than those involved")
    ctx.check(len({id(r) for r in runs.values()}) == len(runs), "one run for two specs")
    if shared:
        ctx.ev("shared")
    if any(cyclic(s) for s in specs):
        ctx.ev("cyclic")
    if len({(type(s), s.name) for s in specs}) < len(specs):
        ctx.ev("look_alike")
    return runs


def web(rng):
    """Materials, most with a process, most processes with ingredients, some shared, some cyclic."""
    n = rng.randint(2, 7)
    names = ["same"] * n if rng.random() < 0.3 else [f"m{i}" for i in range(n)]
    ms = [MaterialSpec(x, process=ProcessSpec(x) if rng.random() < 0.85 else None) for x in names]
    forward = rng.random() < 0.6
    out = list(ms)
    for i, m in enumerate(ms):
        if m.process is None:
            continue
        out.append(m.process)
        for _ in range(rng.randint(0, 3)):
            pool = ms[i + 1:] if forward else ms
            material = rng.choice(pool) if pool and rng.random() < 0.9 else None
            out.append(IngredientSpec(rng.choice(["a", "b", f"i{i}"]), process=m.process,
                                      material=material, labels=["x"][:rng.randint(0, 1)]))
    for _ in range(rng.randint(0, 2)):
        out.append(IngredientSpec("loose", material=rng.choice(ms)))
    return out


def case(ctx):
    """One graph of specs."""
    rng = ctx.rng
    k = rng.random()
    if k < 0.5:
        everything = web(rng)
    elif k < 0.8:
        g = gen.Graph(rng, links=False, size=rng.choice([2, 3, 5]), cycles=rng.random() < 0.5)
        everything = g.everything
        if rng.random() < 0.4:
            for e in everything:
                if isinstance(e, (ProcessSpec, MaterialSpec, IngredientSpec)):
                    e.name = rng.choice(["same", "other"])
    else:
        everything = snap.reachable(gen.simple_history(rng, rng.randint(1, 3), rng.randint(1, 3)))
    specs = [e for e in everything if type(e) in RUN]
    spec = rng.choice(specs)
    before = snap.freeze(specs)
    run = make_instance(spec)
    after = snap.freeze(specs)
    bad = snap.diff_state(before, after)
    ctx.check(bad is None, lambda: f"make_instance changed a spec: {bad}")
    ctx.ev("specs_unchanged")
    ctx.ev({MaterialSpec: "from_material", ProcessSpec: "from_process",
            IngredientSpec: "from_ingredient", MeasurementSpec: "from_measurement"}[type(spec)])
    runs = mirror(ctx, spec, run)
    again = mirror(ctx, spec, make_instance(spec))
    ctx.check(not {id(r) for r in runs.values()} & {id(r) for r in again.values()},
              "a second instance shares runs with the first")
    ctx.ev("fresh")
    mirror(ctx, spec, run)
    odd = rng.choice([None, 5, "x", run, [spec], object()] +
                     [e for e in everything if "Template" in type(e).__name__][:1])
    ctx.raises(TypeError, lambda: make_instance(odd), f"make_instance({short(odd)})")
    ctx.ev("refused")
    ctx.sig(type(spec).__name__, outline(spec))
    ctx.sample({"start": type(spec).__name__, "runs": len(runs)})


def deep(ctx, n=1200):
    """A long chain of processes, each using the material made by the one before."""
    spec, specs = None, []
    for i in range(n):
        p = ProcessSpec(f"p{i}")
        if spec is not None:
            specs.append(IngredientSpec(f"i{i}", process=p, material=spec))
        spec = MaterialSpec(f"m{i}", process=p)
        specs += [p, spec]
    try:
        run = make_instance(spec)
    except RecursionError:
        run = None
    ctx.check(run is not None, f"make_instance cannot make the instance of {n} processes in a row")
    runs = mirror_deep(ctx, spec, run)
    ctx.check(runs == len(specs), lambda: f"{runs} runs for {len(specs)} specs")
    ctx.ev("deep")


def mirror_deep(ctx, spec, run):
    """mirror for a chain, in time proportional to its length."""
    n = 0
    while True:
        ctx.check(type(run) is MaterialRun and run.spec is spec, "another material")
        s, r = spec.process, run.process
        ctx.check(type(r) is ProcessRun and r.spec is s and r.output_material is run,
                  "another process")
        n += 2
        if not s.ingredients:
            ctx.check(len(r.ingredients) == 0, "ingredients from nowhere")
            return n
        ctx.check(len(r.ingredients) == 1 and r.ingredients[0].spec is s.ingredients[0]
                  and r.ingredients[0].process is r, "another ingredient")
        spec, run = s.ingredients[0].material, r.ingredients[0].material
        n += 1


FIXED = [("deep", deep)]
