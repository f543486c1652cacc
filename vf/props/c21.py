"""C21: enumerated fields accept every spelling of their values and nothing else."""
import contextlib
import io
import warnings

from gemd.entity.attribute import Property, Condition, Parameter
from gemd.entity.object import MaterialRun
from gemd.enumeration import Origin, SampleType
from gemd.enumeration.base_enumeration import BaseEnumeration, migrated_enum
from gemd.json import GEMDJson

from vf.core import short

RULE = ("The enumerations of the model and randomly declared ones (values with synonyms), looked up "
        "with every member in random case and padding, near misses, other enumerations' values and "
        "other types, directly and through the fields that hold them; an independent table says "
        "what matches; signature: (enumeration, spelling, outcome).")
REQUIRED = ["matched", "not_matched", "refused", "synonyms", "constructor", "field_set",
            "field_refused", "unchanged_after_refusal", "serialized", "duplicates_refused",
            "non_strings_refused", "renamed", "text_of_member", "none"]
N = {"quick": 60000, "thorough": 1000000}

TABLE = {
    Origin: {"MEASURED": ["measured"], "PREDICTED": ["predicted"], "SUMMARY": ["summary"],
             "SPECIFIED": ["specified"], "COMPUTED": ["computed"], "UNKNOWN": ["unknown"]},
    SampleType: {"EXPERIMENTAL": ["experimental"], "PRODUCTION": ["production"],
                 "VIRTUAL": ["virtual"], "UNKNOWN": ["unknown"]},
}
WORDS = ["Apple", "Avocado", "Alligator Pear", "kiwi", "KIWI fruit", "plum-tree", "a", "B", "0",
         "Ünï", "x y z", "None", "Measured", "unknown", "fig", "Fig Leaf", "date"]


class Text(str):
    """A string of another class."""


def vary(rng, word):
    """Another spelling of the same word."""
    out = "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in word)
    if rng.random() < 0.5:
        out = rng.choice([" ", "", "\t", "\n ", "   "]) + out + rng.choice([" ", "", "\t", "  \n"])
    out = out if out.strip().lower() == word.lower() else word
    return Text(out) if rng.random() < 0.1 else out


def strangers(rng, table):
    """Something that is no spelling of any value."""
    known = {w.lower() for ws in table.values() for w in ws}
    while True:
        base = rng.choice(sorted(known))
        out = rng.choice([base + "x", base[:-1], base[1:], "x" + base, base + " " + base, "",
                          " ", base.replace("e", "3"), base[:3], base + ".", "nonsense",
                          rng.choice(WORDS), "Origin." + base.upper(), base.replace(" ", ""),
                          base.replace(" ", "  "), base.replace("-", "_"), base.replace(" ", "_"),
                          f"'{base}'", f"({base})", base + ",", base + "\x00", base + "s",
                          base[::-1], str(rng.randrange(len(table))), base + "," + base,
                          *(f(k) for k in [rng.choice(list(table))]
                            for f in (str, str.lower, str.title, lambda t: " " + t + " "))])
        if out.strip().lower() not in known:
            return out


def declare(ctx):
    """A new enumeration, as (class, table)."""
    rng = ctx.rng
    words = rng.sample(WORDS, rng.randint(2, 9))
    table, i = {}, 0
    while words:
        n = min(len(words), rng.choice([1, 1, 2, 3]))
        table[f"MEMBER_{i}"] = words[:n]
        words, i = words[n:], i + 1
    # Spaces around a declared synonym mean nothing; its own texts may be repeated as synonyms
    said = {k: (v[0], *(rng.choice(["", "", "  ", "\t"]) + w + rng.choice(["", "", " "])
                        for w in v[1:])) for k, v in table.items()}
    if rng.random() < 0.2:
        k = rng.choice(list(said))
        said[k] += (rng.choice(said[k]).swapcase() if rng.random() < 0.5 else said[k][0],)
        if any(w.strip().lower() not in {x.lower() for x in table[k]} for w in said[k]):
            said[k] = said[k][:-1]
    cls = BaseEnumeration("Declared", said)
    return cls, table


def look_up(ctx, cls, table):
    """All the ways of naming a member."""
    rng = ctx.rng
    ctx.check([m.name for m in cls] == list(table), f"members are {[m.name for m in cls]}")
    name = rng.choice(list(table))
    words = table[name]
    member = cls[name]
    ctx.check(member.value == words[0] and str(member) == words[0] and f"{member}" == words[0]
              and isinstance(member, str) and member == words[0],
              lambda: f"{name} reads {member.value!r}, {str(member)!r}, expected {words[0]!r}")
    ctx.ev("text_of_member")
    for other in words[1:]:
        ctx.check(member != other or other == words[0], f"{name} equals its synonym {other!r}")
    word = rng.choice(words)
    if word != words[0]:
        ctx.ev("synonyms")
    spelling = vary(rng, word)
    ctx.sig(cls.__name__, name, spelling)
    for given in (spelling, member):
        got = cls.from_str(given)
        ctx.check(got is member, lambda: f"from_str({given!r}) is {got!r}, expected {member!r}")
        got = cls.from_str(given, exception=True)
        ctx.check(got is member, lambda: f"from_str({given!r}) is {got!r}, expected {member!r}")
        got = cls(given)
        ctx.check(got is member, lambda: f"{cls.__name__}({given!r}) is {got!r}")
    ctx.ev("matched")
    ctx.ev("constructor")
    odd = strangers(rng, table)
    got = cls.from_str(odd)
    ctx.check(got is None, lambda: f"from_str({odd!r}) is {got!r}")
    ctx.ev("not_matched")
    ctx.raises(ValueError, lambda: cls.from_str(odd, exception=True), f"from_str({odd!r})")
    ctx.raises(ValueError, lambda: cls(odd), f"{cls.__name__}({odd!r})")
    ctx.ev("refused")
    ctx.check(cls.from_str(None) is None, "from_str(None)")
    ctx.raises(ValueError, lambda: cls.from_str(None, exception=True), "from_str(None)")
    ctx.raises((ValueError, TypeError), lambda: cls(rng.choice([5, None, 1.5, ("a",)])),
               "a member from no string")
    ctx.ev("none")


def fields(ctx):
    """The fields of the model that hold enumerated values."""
    rng = ctx.rng
    if rng.random() < 0.5:
        cls, field = Origin, "origin"
        make = lambda **k: rng.choice([Property, Condition, Parameter])("x", **k)  # noqa: E731
    else:
        cls, field = SampleType, "sample_type"
        make = lambda **k: MaterialRun("x", **k)  # noqa: E731
    table = TABLE[cls]
    obj = make()
    state = cls["UNKNOWN"]
    ctx.check(getattr(obj, field) is state, f"{field} is not unknown by default")
    for i in range(rng.randint(1, 5)):
        if rng.random() < 0.6:
            name = rng.choice(list(table))
            given = rng.choice([cls[name], vary(rng, table[name][0])])
            if i == 0 and rng.random() < 0.5:
                obj = make(**{field: given})
            else:
                setattr(obj, field, given)
            state = cls[name]
            ctx.ev("field_set")
        else:
            given = rng.choice([strangers(rng, table), None, 5, True, ["unknown"], b"unknown"])
            ctx.raises((ValueError, TypeError), lambda: setattr(obj, field, given),
                       f"{field} = {given!r}")
            ctx.raises((ValueError, TypeError), lambda: make(**{field: given}),
                       f"{field}={given!r}")
            ctx.ev("field_refused")
            ctx.ev("unchanged_after_refusal")
        ctx.check(getattr(obj, field) is state,
                  lambda: f"{field} is {getattr(obj, field)!r} after {given!r}, expected {state!r}")
    copy = GEMDJson().copy(obj)
    ctx.check(getattr(copy, field) is state, f"{field} {state!r} is "
                                             f"{getattr(copy, field)!r} after serialization")
    ctx.ev("serialized")
    ctx.sig(field, state)


def declarations(ctx):
    """Enumerations that cannot be declared."""
    rng = ctx.rng
    words = rng.sample(WORDS, 3)
    if rng.random() < 0.5:
        # the third value repeats an earlier value or synonym
        again = vary(rng, rng.choice(words[:2]))
        last = (again,) if rng.random() < 0.5 else ("ninth", again, "tenth")
        ctx.raises((ValueError, TypeError, RuntimeError), lambda: BaseEnumeration(
            "Bad", {"A": (words[0], words[1]), "B": (words[2],), "C": last}),
            f"an enumeration repeating {again!r} in {last!r}")
        ctx.ev("duplicates_refused")
    else:
        odd = rng.choice([5, None, 1.5, b"x"])
        values = [words[0], odd] if rng.random() < 0.5 else [odd]
        ctx.raises((ValueError, TypeError, RuntimeError), lambda: BaseEnumeration(
            "Bad", {"A": (words[1],), "B": tuple(values)}), f"an enumeration with {odd!r}")
        ctx.ev("non_strings_refused")


def renamed(ctx):
    """A renamed symbol leads to the new one, with a warning."""
    rng = ctx.rng
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        base, table = declare(ctx)
        target = rng.choice(list(table))
        given = table[target][0]
        cls = migrated_enum(old_value="FORMER", new_value=given, deprecated_in="1.0.0",
                            removed_in="9.0.0")(base)
    ctx.check(not printed.getvalue(), lambda: f"declaring printed {printed.getvalue()!r}")
    for read in (lambda: cls.FORMER, lambda: cls["FORMER"]):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            got = read()
        ctx.check(got is base[target], lambda: f"the old symbol gives {got!r}")
        ctx.check(any(issubclass(w.category, DeprecationWarning) for w in caught),
                  "no deprecation warning")
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        ctx.check(cls[target] is base[target], "the new symbol is lost")
        ctx.check(not caught, "a warning for the new symbol")
    ctx.raises(KeyError, lambda: cls["NEVER"], "an unknown symbol")
    ctx.ev("renamed")


def case(ctx):
    """One of the above."""
    k = ctx.rng.random()
    if k < 0.25:
        cls = ctx.rng.choice([Origin, SampleType])
        look_up(ctx, cls, TABLE[cls])
    elif k < 0.55:
        cls, table = declare(ctx)
        for _ in range(3):
            look_up(ctx, cls, table)
    elif k < 0.85:
        fields(ctx)
    elif k < 0.95:
        declarations(ctx)
    else:
        renamed(ctx)
    ctx.sample({"words": short(ctx.rng.choice(WORDS))})


FIXED = []
