"""C25: what a run takes from its spec follows the spec, and an ingredient run remembers it."""
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.template import MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.json import GEMDJson
from gemd.util import make_index, substitute_links, substitute_objects

from vf import gen
from vf.core import short

RULE = ("Random histories over a few specs and runs: specs are renamed, relabelled (by assignment "
        "and by list methods), given other templates; runs get other specs, links, nothing or "
        "refused values, are dumped, reloaded, rebuilt from their dictionary and substituted; after "
        "every step the name, labels and template of every run are compared with a model; "
        "signature: the history.")
REQUIRED = ["steps", "live", "remembered", "never_named", "by_link", "refused_spec", "refused_name",
            "rebuilt", "reloaded", "substituted", "restored", "relabelled", "renamed", "templates",
            "detached_from_spec", "serialized"]
N = {"quick": 6000, "thorough": 120000}

KINDS = [(ProcessRun, ProcessSpec, ProcessTemplate), (MaterialRun, MaterialSpec, MaterialTemplate),
         (MeasurementRun, MeasurementSpec, MeasurementTemplate)]


class Spec:
    """What is known of an ingredient spec."""

    def __init__(self, rng, k):
        self.name = f"s{k}" + gen.safe_text(rng)
        self.labels = [gen.safe_text(rng) for _ in range(rng.randint(0, 3))]
        self.obj = IngredientSpec(self.name, labels=list(self.labels),
                                  uids={"t": f"spec{k}"} if rng.random() < 0.7 else None)


class Run:
    """What is known of an ingredient run."""

    def __init__(self, obj, spec=None, name=None, labels=None):
        self.obj, self.spec, self.name, self.labels = obj, spec, name, labels

    def attach(self, spec):
        """Change the spec (a Spec, or something that is not an object)."""
        if self.spec is not None:
            self.name, self.labels = self.spec.name, list(self.spec.labels)
        self.spec = spec


def verify(ctx, runs, specs):
    """Compare every run with the model."""
    for s in specs:
        ctx.check(s.obj.name == s.name and list(s.obj.labels) == s.labels,
                  lambda: f"a spec named {s.name!r} {s.labels} reads {s.obj.name!r} {s.obj.labels}")
    for r in runs:
        src = r.spec if r.spec is not None else r
        ctx.check(r.obj.name == src.name,
                  lambda: f"name is {r.obj.name!r}, expected {src.name!r}")
        got = r.obj.labels
        ctx.check((got is None) == (src.labels is None) and
                  (got is None or list(got) == list(src.labels)),
                  lambda: f"labels are {got!r}, expected {src.labels!r}")
        ctx.ev("live" if r.spec is not None else
               "never_named" if r.name is None else "remembered")


def ingredients(ctx):
    """One history of ingredient specs and runs."""
    rng = ctx.rng
    specs = [Spec(rng, k) for k in range(rng.randint(1, 3))]
    runs = []
    for k in range(rng.randint(1, 3)):
        s = rng.choice(specs + [None])
        runs.append(Run(IngredientRun(spec=s.obj if s else None, uids={"t": f"run{k}"}), s))
    client = GEMDJson()
    steps = []
    for _ in range(rng.randint(2, 9)):
        r, s = rng.choice(runs), rng.choice(specs)
        op = rng.choice(["rename", "relabel", "mutate", "attach", "attach", "detach", "link",
                         "refuse_spec", "refuse_name", "rebuild", "reload", "substitute",
                         "inplace", "restore"])
        ctx.log(op)
        steps.append(op)
        if op == "rename":
            s.name = gen.safe_text(rng)
            s.obj.name = s.name
            ctx.ev("renamed")
        elif op == "relabel":
            s.labels = [gen.safe_text(rng) for _ in range(rng.randint(0, 3))]
            s.obj.labels = rng.choice([list, tuple, iter])(list(s.labels))
            ctx.ev("relabelled")
        elif op == "mutate":
            how = rng.randrange(3)
            x = gen.safe_text(rng)
            if how == 0:
                s.obj.labels.append(x)
                s.labels = s.labels + [x]
            elif how == 1:
                s.obj.labels.insert(0, x)
                s.labels = [x] + s.labels
            elif s.labels:
                s.obj.labels.pop()
                s.labels = s.labels[:-1]
            ctx.ev("relabelled")
        elif op == "attach":
            r.obj.spec = s.obj
            r.attach(s)
        elif op == "detach":
            if r.spec is not None:
                ctx.ev("detached_from_spec")
            r.obj.spec = None
            r.attach(None)
        elif op == "link":
            r.obj.spec = LinkByUID("t", rng.choice(["spec0", "spec1", "elsewhere"]))
            r.attach(None)
            ctx.ev("by_link")
        elif op == "refuse_spec":
            bad = rng.choice([5, "spec", ProcessSpec("p"), IngredientRun(), MaterialSpec("m"), [], {}])
            ctx.raises(TypeError, lambda: setattr(r.obj, "spec", bad), f"spec = {short(bad)}")
            ctx.ev("refused_spec")
        elif op == "refuse_name":
            field = rng.choice(["name", "labels"])
            value = "x" if field == "name" else ["x"]
            ctx.raises(AttributeError, lambda: setattr(r.obj, field, value), f"run.{field} = ...")
            ctx.raises(TypeError, lambda: IngredientRun(**{field: value}),
                       f"IngredientRun({field}=...)")
            ctx.ev("refused_name")
        elif op == "rebuild":
            d = r.obj.as_dict()
            ctx.check(d.get("name") == r.obj.name and "labels" in d,
                      lambda: f"the dictionary of a run is {short(d)}")
            new = IngredientRun.from_dict(d)
            m = Run(new, r.spec, r.name, r.labels)
            if r.spec is not None:
                m.name, m.labels = r.spec.name, list(r.spec.labels)
            verify(ctx, [r, m], specs)
            if rng.random() < 0.5:
                runs[runs.index(r)] = m
            ctx.ev("rebuilt")
        elif op in ("reload", "substitute"):
            src = r.spec if r.spec is not None else r
            if op == "reload":
                new = client.copy(r.obj)
                ctx.check(isinstance(new.spec, IngredientSpec) == (r.spec is not None),
                          lambda: f"a run with spec {short(r.obj.spec)} was reloaded with "
                                  f"{short(new.spec)}")
            else:
                if r.spec is not None and not s.obj.uids:
                    s = r.spec
                if r.spec is not None and not r.spec.obj.uids:
                    r.spec.obj.add_uid("late", f"u{len(steps)}")
                new = substitute_links(r.obj)
                ctx.check(r.obj.spec is None or isinstance(new.spec, LinkByUID),
                          lambda: f"links were substituted, but the spec is {short(new.spec)}")
            ctx.check(new is not r.obj, "a copy is the original")
            ctx.check(new.name == src.name and (
                list(new.labels or ()) == list(src.labels or ())),
                lambda: f"{op}: {new.name!r} {new.labels!r}, expected {src.name!r} {src.labels!r}")
            ctx.ev("reloaded" if op == "reload" else "substituted")
            thin = client.thin_dumps(r.obj)
            raw = client.raw_loads(thin)
            ctx.check(raw.name == src.name and list(raw.labels or ()) == list(src.labels or ()),
                      lambda: f"thin: {raw.name!r} {raw.labels!r}, not {src.name!r} {src.labels!r}")
            ctx.ev("serialized")
        elif op == "inplace":
            if r.spec is not None and not r.spec.obj.uids:
                r.spec.obj.add_uid("late", f"u{len(steps)}")
            substitute_links(r.obj, inplace=True)
            r.attach(None)
            ctx.ev("substituted")
        elif op == "restore":
            known = [x for x in specs if x.obj.uids]
            substitute_objects(r.obj, make_index([x.obj for x in known]), inplace=True)
            if isinstance(r.obj.spec, IngredientSpec):
                found = [x for x in specs if x.obj is r.obj.spec]
                ctx.check(len(found) == 1, "restored to a spec that was not in the index")
                r.attach(found[0])
                ctx.ev("restored")
        ctx.ev("steps")
        verify(ctx, runs, specs)
    ctx.sig("ing", tuple(steps), len(runs), len(specs))
    ctx.sample({"steps": steps, "runs": [(r.obj.name, list(r.obj.labels or ())) for r in runs]})


def templates(ctx):
    """The template of a run is that of its spec, whatever becomes of either."""
    rng = ctx.rng
    run_t, spec_t, template_t = rng.choice(KINDS)
    pool = [template_t(f"t{k}") for k in range(2)] + [LinkByUID("t", "far"), None]
    specs = [spec_t(f"s{k}", template=rng.choice(pool)) for k in range(2)]
    run = run_t("r", spec=rng.choice(specs + [None]))
    steps = []
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(["spec", "template", "refuse", "refuse_template"])
        steps.append(op)
        before = run.spec
        if op == "spec":
            new = rng.choice(specs + [None, LinkByUID("t", "spec")])
            run.spec = new
            ctx.check(run.spec is new, "another spec was stored")
        elif op == "template":
            s = rng.choice(specs)
            new = rng.choice(pool)
            s.template = new
            ctx.check(s.template is new, "another template was stored")
        elif op == "refuse":
            bad = rng.choice([4, "x", template_t("t"), run_t("other"), IngredientSpec("i")])
            ctx.raises(TypeError, lambda: setattr(run, "spec", bad), f"spec = {short(bad)}")
            ctx.check(run.spec is before, "a refused spec replaced the former one")
        else:
            ctx.raises(AttributeError, lambda: setattr(run, "template", rng.choice(pool)),
                       "run.template = ...")
        expected = run.spec.template if isinstance(run.spec, spec_t) else None
        ctx.check(run.template is expected,
                  lambda: f"template of a run is {short(run.template)}, its spec's is "
                          f"{short(expected)}")
        ctx.ev("templates")
        ctx.ev("steps")
    ctx.sig("tpl", run_t.__name__, tuple(steps))


def case(ctx):
    """One history."""
    if ctx.rng.random() < 0.85:
        ingredients(ctx)
    else:
        templates(ctx)


FIXED = []
