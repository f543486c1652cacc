"""C27: a printed object shows its whole content, and printing always ends."""
import re
from enum import Enum

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.attribute import Property
from gemd.entity.bounds import CategoricalBounds
from gemd.entity.file_link import FileLink
from gemd.entity.object import ProcessRun, MaterialRun, IngredientRun, MeasurementRun, \
    ProcessSpec, MaterialSpec, IngredientSpec
from gemd.entity.template import PropertyTemplate
from gemd.entity.value import NominalInteger, NominalComposition

from vf import gen, snap
from vf.core import short
from vf.props.c01 import shape

RULE = ("The printed form of every object of random graphs (cycles, links, hostile texts, extreme "
        "numbers), and of lists and dictionaries of them, is read back as a Python literal and "
        "compared with an independent reading of the fields; signature: (type, what it holds).")
TYPES = list(snap.FIELDS)
REQUIRED = ["type:" + t for t in TYPES] + ["mirrored", "mirrored_empty", "links", "enumerations",
                                           "containers", "cycles", "deep", "str", "nested_entities",
                                           "wide"]
N = {"quick": 2500, "thorough": 40000}
ASSUMPTIONS = ["the order in which fields are shown is not judged"]
ENUM = re.compile(r"<(Origin|SampleType)\.([A-Z_]+): ('[a-z_]*')>")


def read(text):
    """What a printed object says, with members of enumerations as marked texts."""
    text = ENUM.sub(r"('enum', '\1', \3)", text)
    return eval(text, {"__builtins__": {}, "nan": float("nan"), "inf": float("inf")})


def brief(x):
    """How an object at the mirroring end of a link is shown."""
    if x is None:
        return None
    if isinstance(x, (list, tuple)):
        return [brief(y) for y in x]
    return f"<{type(x).__name__} '{x.name if hasattr(x, 'name') else '<unknown name>'}'>"


def content(ctx, x):
    """What the printed form has to say."""
    if isinstance(x, LinkByUID):
        ctx.ev("links")
        ctx.ev("type:LinkByUID")
        return {"scope": x.scope, "id": x.id}
    if isinstance(x, DictSerializable):
        ctx.ev("type:" + snap.base_name(x))
        out = {f: content(ctx, v) for f, v in snap.hard_fields(x)}
        for f, v in snap.soft_fields(x):
            out[f] = brief(v)
            ctx.ev("mirrored" if v else "mirrored_empty")
        for _, v in snap.hard_fields(x):
            if isinstance(v, BaseEntity):
                ctx.ev("nested_entities")
        out["type"] = type(x).typ
        return out
    if isinstance(x, Enum):
        ctx.ev("enumerations")
        return ("enum", type(x).__name__, x.value)
    if isinstance(x, dict):
        return {k: content(ctx, v) for k, v in x.items()}
    if isinstance(x, list):
        return [content(ctx, v) for v in x]
    if isinstance(x, tuple):
        return tuple(content(ctx, v) for v in x)
    if isinstance(x, (set, frozenset)):
        return {content(ctx, v) for v in x}
    return x


def differ(want, got, path="$"):
    """First difference, or None; sequences and sets of the same elements count as the same."""
    if isinstance(want, (set, frozenset)):
        if not isinstance(got, (list, tuple, set, frozenset)):
            return f"{path}: {short(want)} is shown as {short(got)}"
        return None if sorted(want) == sorted(got) else \
            f"{path}: {short(want)} is shown as {short(got)}"
    if isinstance(want, (list, tuple)) and want[:1] != ("enum",):
        if not isinstance(got, (list, tuple)) or len(want) != len(got):
            return f"{path}: {short(want)} is shown as {short(got)}"
        for i, (x, y) in enumerate(zip(want, got)):
            bad = differ(x, y, f"{path}[{i}]")
            if bad:
                return bad
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(want) != set(got):
            return f"{path}: keys {sorted(map(str, want))} are shown as " \
                   f"{sorted(map(str, got)) if isinstance(got, dict) else short(got)}"
        for k in want:
            bad = differ(want[k], got[k], f"{path}.{k}")
            if bad:
                return bad
        return None
    same = type(want) is type(got) and (want == got or want != want and got != got) and \
        repr(want) == repr(got)
    return None if same else f"{path}: {short(want)} is shown as {short(got)}"


def printed(ctx, x):
    """Print something and check the text."""
    text = repr(x)
    bad = differ(content(ctx, x), read(text))
    ctx.check(bad is None, lambda: f"a printed {type(x).__name__}: {bad}")
    ctx.check(str(x) == text, "str and repr differ")
    ctx.ev("str")


def case(ctx):
    """Everything in one graph, printed."""
    rng = ctx.rng
    g = gen.Graph(rng, size=rng.choice([1, 2, 3]), links=rng.random() < 0.6)
    for e in rng.sample(g.everything, min(len(g.everything), 12)):
        before = snap.freeze(e)
        printed(ctx, e)
        ctx.check(snap.freeze(e) == before, "printing changed something")
        ctx.sig(type(e).__name__, tuple(sorted(type(c).__name__ for c in snap.children(e))))
        for part in snap.parts(e)[:3]:
            printed(ctx, part)
            ctx.sig(type(part).__name__, tuple(type(v).__name__ for _, v in snap.hard_fields(part)))
        if any(e is d for c in snap.children(e) for d in snap.reachable(c)):
            ctx.ev("cycles")
    printed(ctx, gen.weird_value(rng))
    printed(ctx, rng.sample(g.everything, min(len(g.everything), 3)))
    printed(ctx, {"a": rng.choice(g.everything), "b": (gen.value(rng), gen.bounds(rng))})
    ctx.ev("containers")
    ctx.sample({"graph": str(shape(g.everything))[:200]})


def deep(ctx, n=1500):
    """A long chain, whose printing does not follow the mirroring ends."""
    last = None
    for i in range(n):
        p = ProcessRun(f"p{i}")
        if last is not None:
            IngredientRun(process=p, material=last)
        last = MaterialRun(f"m{i}", process=p)
    MeasurementRun("q", material=last)
    for x in (last, last.process, last.process.ingredients[0], last.measurements[0]):
        printed(ctx, x)
        ctx.check(len(repr(x)) < 5000, "printing one object prints its history")
    ctx.ev("deep")


def wide(ctx, n=70):
    """Many at the mirroring end of one link, and many parts in one object."""
    p, s = ProcessRun("p"), ProcessSpec("s")
    m = MaterialRun("m", process=p, tags=[f"tag {i}" for i in range(n)],
                    file_links=[FileLink(f"f{i}", f"u{i}") for i in range(n)])
    for i in range(n):
        IngredientRun(process=p, notes=str(i))
        IngredientSpec(f"i{i}", process=s)
        MeasurementRun(f"q{i}", material=m, notes="x" * i)
    q = MeasurementRun("q", properties=[Property(f"p{i}", value=NominalInteger(i))
                                        for i in range(n)], notes="n" * 5000)
    t = PropertyTemplate("t", bounds=CategoricalBounds([f"c{i}" for i in range(n)]))
    c = NominalComposition({f"c{i}": i for i in range(n)})
    for x in (p, s, m, q, t, c, [m, p], MaterialSpec("x", process=s)):
        printed(ctx, x)
    ctx.ev("wide")


FIXED = [("deep", deep), ("wide", wide)]
