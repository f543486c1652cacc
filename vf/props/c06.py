"""C06: both ends of every bidirectional link agree after any history."""
import gemd.json as gj
from gemd.entity.attribute import Property
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun
from gemd.entity.template import MaterialTemplate
from gemd.entity.value import NominalInteger
from gemd.util import substitute_links, substitute_objects, make_index

from vf import snap
from vf.core import short

RULE = ("Random histories of link assignments (set, reassign, steal, clear, replace by link, "
        "construct, rejected values, assignment to read-only ends, in-place substitution, reload) "
        "over pools that include equal twins, with a reference model of who points to whom "
        "checked after every step; the signature is the history.")
REQUIRED = ["steps", "invariant_checks", "rejected", "stolen_outputs", "twins", "readonly_refused",
            "inplace_substitutions", "reloads", "constructed", "same_again", "spec_situations"]
N = {"quick": 12000, "thorough": 200000}


class Family:
    """Pools of one side of the data model (spec or run) and the reference model."""

    def __init__(self, rng, run):
        self.rng, self.run = rng, run
        self.P = ProcessRun if run else ProcessSpec
        self.M = MaterialRun if run else MaterialSpec
        self.I = IngredientRun if run else IngredientSpec
        n = rng.randint(1, 3)
        self.processes = [self.P("p") for _ in range(n)]
        self.materials = [self.M("m", uids={"id": f"m{k}"} if rng.random() < 0.3 else None)
                          for k in range(rng.randint(1, 3))]
        self.ingredients = [self.new_ingredient() for _ in range(rng.randint(1, 4))]
        self.measurements = [MeasurementRun("q") for _ in range(rng.randint(1, 3))] if run else []
        self.mat_proc = {id(m): None for m in self.materials}
        self.ing_proc = {id(i): None for i in self.ingredients}
        self.meas_mat = {id(q): None for q in self.measurements}
        self.links = {}
        self.order, self.touched = {}, set()  # lists at the last check; what was assigned since

    def new_ingredient(self, **kw):
        # Equal twins among specs run into a known finding, which spec_finding looks at.
        self.count = getattr(self, "count", 0) + 1
        return self.I(**kw) if self.run else self.I(f"i{self.count}", **kw)

    def check(self, ctx, what):
        """Compare every end of every link with the model."""
        ctx.ev("invariant_checks")

        def same(x, want):
            return x is want or (isinstance(want, LinkByUID) and isinstance(x, LinkByUID)
                                 and (x.scope, x.id) == (want.scope, want.id))
        for m in self.materials:
            ctx.check(same(m.process, self.mat_proc[id(m)]),
                      lambda: f"{what}: material.process is {short(m.process)}, "
                              f"expected {short(self.mat_proc[id(m)])}")
        for i in self.ingredients:
            ctx.check(same(i.process, self.ing_proc[id(i)]),
                      lambda: f"{what}: ingredient.process is {short(i.process)}, "
                              f"expected {short(self.ing_proc[id(i)])}")
        for q in self.measurements:
            ctx.check(same(q.material, self.meas_mat[id(q)]),
                      lambda: f"{what}: measurement.material is {short(q.material)}, "
                              f"expected {short(self.meas_mat[id(q)])}")
        for p in self.processes:
            out = [m for m in self.materials if self.mat_proc[id(m)] is p]
            ctx.check(len(out) <= 1, f"{what}: model error")
            ctx.check(p.output_material is (out[0] if out else None),
                      lambda: f"{what}: output_material does not mirror material.process")
            want = sorted(id(i) for i in self.ingredients if self.ing_proc[id(i)] is p)
            got = sorted(id(i) for i in p.ingredients)
            ctx.check(got == want, lambda: f"{what}: a process lists {len(got)} ingredients "
                                           f"({len(set(got) & set(want))} of them right), but "
                                           f"{len(want)} point to it")
            self.in_order(ctx, p, p.ingredients, what)
        for m in self.materials if self.run else []:
            self.in_order(ctx, m, m.measurements, what)
            want = sorted(id(q) for q in self.measurements if self.meas_mat[id(q)] is m)
            got = sorted(id(q) for q in m.measurements)
            ctx.check(got == want, lambda: f"{what}: a material lists {len(got)} measurements "
                                           f"({len(set(got) & set(want))} of them right), but "
                                           f"{len(want)} point to it")

    def in_order(self, ctx, owner, members, what):
        """What stays in a list keeps its place among the others that stay."""
        now = [id(x) for x in members]
        then = self.order.get(id(owner))
        self.order[id(owner)] = now
        if then is not None:
            stay = (set(now) & set(then)) - self.touched
            ctx.check([x for x in now if x in stay] == [x for x in then if x in stay],
                      lambda: f"{what}: the list of a {type(owner).__name__} was rearranged")
            ctx.ev("order_kept", len(stay) > 1)

    def bad_values(self):
        """Things that none of the link fields accept."""
        wrong = [1, "p", 0.5, [], {}, object(), (), NominalInteger(1), MaterialTemplate("t"),
                 Property("x"), MeasurementSpec("x"), True, b"x"]
        wrong += [ProcessSpec("s"), MaterialSpec("s")] if self.run else \
            [ProcessRun("r"), MaterialRun("r")]
        return wrong

    def step(self, ctx):
        """One step of the history; returns its description."""
        rng = self.rng
        self.touched = set()
        op = rng.choice(["mat", "mat", "mat", "ing", "ing", "ing", "meas", "meas", "bad", "bad",
                         "readonly", "new", "inplace", "reload", "ing_mat", "same"])
        if op == "mat":
            m = rng.choice(self.materials)
            p = rng.choice(self.processes + [None, LinkByUID("id", "x")])
            if isinstance(p, self.P):
                for other in self.materials:
                    if other is not m and self.mat_proc[id(other)] is p:
                        self.release(other)
                        ctx.ev("stolen_outputs")
            m.process = p
            self.mat_proc[id(m)] = p
            return f"material {self.materials.index(m)} -> {self.name(p)}"
        if op == "ing":
            i = self.pick(self.ingredients)
            p = rng.choice(self.processes + [None, LinkByUID("id", "x")])
            i.process = p
            self.touched = {id(i)}
            self.ing_proc[id(i)] = p
            return f"ingredient -> {self.name(p)}"
        if op == "meas" and self.measurements:
            q = self.pick(self.measurements)
            m = rng.choice(self.materials + [None, LinkByUID("id", "x")])
            q.material = m
            self.touched = {id(q)}
            self.meas_mat[id(q)] = m
            return f"measurement -> {self.name(m)}"
        if op == "same":
            i = self.pick(self.ingredients)
            i.process = i.process
            self.touched = {id(i)}
            m = self.pick(self.materials)
            m.process = m.process
            if self.measurements:
                q = self.pick(self.measurements)
                q.material = q.material
                self.touched.add(id(q))
            ctx.ev("same_again")
            return "assign what is there"
        if op == "ing_mat":
            i = self.pick(self.ingredients)
            i.material = rng.choice(self.materials + [None])
            return "ingredient.material"
        if op == "bad":
            bad = rng.choice(self.bad_values())
            target, field = rng.choice(
                [(m, "process") for m in self.materials]
                + [(i, "process") for i in self.ingredients]
                + [(i, "material") for i in self.ingredients]
                + [(q, "material") for q in self.measurements])
            if field == "material" and isinstance(bad, self.M):
                return "skip"
            if field == "process" and isinstance(bad, self.P):
                return "skip"
            if field == "process" and not self.run and isinstance(target.process, self.P):
                return "skip"  # a known finding, which spec_finding looks at
            before = snap.freeze(self.processes + self.materials + self.ingredients
                                 + self.measurements)
            ctx.raises(TypeError, lambda: setattr(target, field, bad),
                       f"{type(target).__name__}.{field} = {short(bad)}")
            after = snap.freeze(self.processes + self.materials + self.ingredients
                                + self.measurements)
            ctx.check(before == after, lambda: f"a rejected {type(target).__name__}.{field} = "
                      f"{short(bad)} had effects: {snap.diff_state(before, after)}")
            ctx.ev("rejected")
            return f"rejected {type(bad).__name__}"
        if op == "readonly":
            p, m = rng.choice(self.processes), rng.choice(self.materials)
            ctx.raises(AttributeError, lambda: setattr(p, "ingredients", []), "set ingredients")
            ctx.raises(AttributeError, lambda: setattr(p, "output_material", m), "set output")
            if self.run:
                ctx.raises(AttributeError, lambda: setattr(m, "measurements", []), "set meas.")
            ctx.ev("readonly_refused")
            return "readonly"
        if op == "new":
            p = rng.choice(self.processes + [None, LinkByUID("id", "x")])
            k = rng.randrange(3)
            if k == 0 and len(self.ingredients) < 8:
                i = self.new_ingredient(process=p)
                self.ingredients.append(i)
                self.ing_proc[id(i)] = p
            elif k == 1 and len(self.materials) < 5:
                if isinstance(p, self.P):
                    for other in self.materials:
                        if self.mat_proc[id(other)] is p:
                            self.release(other)
                m = self.M("m", process=p)
                self.materials.append(m)
                self.mat_proc[id(m)] = p
            elif k == 2 and self.run and len(self.measurements) < 8:
                m = rng.choice(self.materials + [None])
                q = MeasurementRun("q", material=m)
                self.measurements.append(q)
                self.meas_mat[id(q)] = m
            else:
                return "skip"
            ctx.ev("constructed")
            return "construct"
        if op == "inplace":
            # Needs uids; give every object one
            everything = self.processes + self.materials + self.ingredients + self.measurements
            for k, e in enumerate(everything):
                e.add_uid("tmp", f"{type(e).__name__}-{k}")
            target = rng.choice(self.materials + self.ingredients + self.measurements)
            field = "process" if not isinstance(target, MeasurementRun) else "material"
            old = getattr(target, field)
            self.touched = {id(target)}
            index = make_index(everything)
            substitute_links(target, "tmp", inplace=True)
            model = {"m": self.mat_proc, "i": self.ing_proc, "q": self.meas_mat}[
                "m" if isinstance(target, self.M) else
                "i" if isinstance(target, self.I) else "q"]
            if old is not None and not isinstance(old, LinkByUID):
                model[id(target)] = old.to_link("tmp")
            self.check(ctx, "links in place")
            substitute_objects(target, index, inplace=True)
            model[id(target)] = old
            for e in everything:
                del e.uids["tmp"]
            ctx.ev("inplace_substitutions")
            return "substitute in place"
        # reload: the reloaded copy is consistent by itself, the original untouched
        everything = [self.processes, self.materials, self.ingredients, self.measurements]
        if any(isinstance(x, LinkByUID) for d in (self.mat_proc, self.ing_proc, self.meas_mat)
               for x in d.values()) and rng.random() < 0.5:
            return "skip"
        back = gj.loads(gj.dumps(everything))
        flat = [e for pool in everything for e in pool]
        new = [e for pool in back for e in pool]
        mirror = {id(a): b for a, b in zip(flat, new)}
        old_state = (self.processes, self.materials, self.ingredients, self.measurements,
                     self.mat_proc, self.ing_proc, self.meas_mat)
        move = lambda d: {id(mirror[k]): mirror.get(id(v), v) for k, v in d.items()}  # noqa: E731
        self.order = {}
        self.processes, self.materials, self.ingredients, self.measurements = back
        self.mat_proc, self.ing_proc, self.meas_mat = (move(d) for d in old_state[4:])
        self.check(ctx, "reloaded")
        if rng.random() < 0.5:  # continue on the copy
            self._keep = old_state
        else:
            (self.processes, self.materials, self.ingredients, self.measurements,
             self.mat_proc, self.ing_proc, self.meas_mat) = old_state
        self.order = {}
        ctx.ev("reloads")
        return "reload"

    def release(self, material):
        """A material is about to lose its process to another."""
        self.mat_proc[id(material)] = None
        if not self.run:
            material.process = None  # a known finding, which spec_finding looks at

    def pick(self, pool):
        return self.rng.choice(pool)

    def name(self, x):
        """Short name."""
        if x is None or isinstance(x, LinkByUID):
            return type(x).__name__
        pool = self.processes if isinstance(x, self.P) else self.materials
        return f"{type(x).__name__}{[id(y) for y in pool].index(id(x))}"


def spec_finding(ctx, which=None):
    """Situations in which the links of specs are known to come apart.

    The outcome is either right, or exactly what the list of known findings says; nothing else.
    """
    rng = ctx.rng
    which = which or rng.choice(["refused-ingredient", "refused-material", "twin", "steal"])
    p, other = ProcessSpec("p"), ProcessSpec("p")
    bad = rng.choice([1, "p", [], ProcessRun("r"), MaterialSpec("m"), object()])
    if which == "refused-ingredient":
        i = IngredientSpec("i", process=p)
        more = [IngredientSpec(f"j{k}", process=p) for k in range(rng.randint(0, 2))]
        ctx.raises(TypeError, lambda: setattr(i, "process", bad), f"process = {short(bad)}")
        ctx.check(i.process is p, "a refused process replaced the former one")
        ids = [id(x) for x in p.ingredients]
        if ids == [id(x) for x in more]:
            ctx.finding("ingredient-spec-refused-process",
                        "a refused process removed an ingredient spec from its process")
        else:
            ctx.check(ids == [id(x) for x in [i] + more], lambda: f"ingredients {p.ingredients}")
    elif which == "refused-material":
        m = MaterialSpec("m", process=p)
        ctx.raises(TypeError, lambda: setattr(m, "process", bad), f"process = {short(bad)}")
        ctx.check(m.process is p, "a refused process replaced the former one")
        if p.output_material is None:
            ctx.finding("material-spec-refused-process",
                        "a refused process took the output of the former process away")
        else:
            ctx.check(p.output_material is m, lambda: f"output {short(p.output_material)}")
    elif which == "twin":
        a, b = IngredientSpec("i", process=p), IngredientSpec("i", process=p)
        new = rng.choice([None, other, LinkByUID("a", "b")])
        b.process = new
        ctx.check(b.process is new and a.process is p, "the processes are not as assigned")
        got = [id(x) for x in p.ingredients]
        if got == [id(b)]:
            ctx.finding("ingredient-spec-equal-sibling",
                        "moving an ingredient spec removed an equal sibling from the process")
        else:
            ctx.check(got == [id(a)], lambda: f"ingredients {p.ingredients}")
        ctx.check([id(x) for x in other.ingredients] == ([id(b)] if new is other else []),
                  "the new process does not list the ingredient, once")
    else:
        m, n = MaterialSpec("m", process=p), MaterialSpec("n")
        n.process = p
        ctx.check(n.process is p and p.output_material is n, "the process was not taken over")
        if m.process is p:
            ctx.finding("material-spec-taken-over-process",
                        "a material spec still names the process another has taken over")
        else:
            ctx.check(m.process is None, lambda: f"process {short(m.process)}")
    ctx.ev("spec_situations")
    ctx.sig("spec", which)


def case(ctx):
    """One history."""
    rng = ctx.rng
    if rng.random() < 0.05:
        return spec_finding(ctx)
    fam = Family(rng, run=rng.random() < 0.6)
    if len(fam.ingredients) > 1:
        ctx.ev("twins", int(fam.ingredients[0] == fam.ingredients[1]))
    history = []
    fam.check(ctx, "initially")
    for _ in range(rng.randint(4, 14)):
        what = fam.step(ctx)
        history.append(what)
        ctx.log(what)
        ctx.ev("steps")
        fam.check(ctx, f"after {history[-3:]}")
    ctx.sig(tuple(history), fam.run)
    ctx.sample(history)


FIXED = [(k, lambda ctx, k=k: spec_finding(ctx, k))
         for k in ("refused-ingredient", "refused-material", "twin", "steal")]
