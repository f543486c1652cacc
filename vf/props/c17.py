"""C17: a validation level set for a block never outlives it, however the block ends."""
from gemd.entity.attribute import Condition
from gemd.entity.bounds import IntegerBounds
from gemd.entity.bounds_validation import WarningLevel, get_validation_level, \
    set_validation_level, validation_level
from gemd.entity.template import ConditionTemplate
from gemd.entity.value import NominalInteger

from vf.core import LOG, Violation

RULE = ("Random programs of nested validation_level blocks, set_validation_level calls, generator "
        "bodies and probes (an inconsistent attribute made on the spot), left normally, by "
        "return, break, an exception of several kinds, a refused value or GeneratorExit; a stack "
        "model says which level is in force at each step; signature: the program.")
REQUIRED = ["blocks_entered", "blocks_left", "left_by_exception", "left_by_return",
            "left_by_refusal", "set_calls", "invalid_refused", "probes_ignored", "probes_warned",
            "probes_refused", "set_inside_block", "generator_closed", "deep_nesting"]
N = {"quick": 20000, "thorough": 400000}
LEVELS = [WarningLevel.IGNORE, WarningLevel.WARNING, WarningLevel.FATAL]
T = ConditionTemplate("t", bounds=IntegerBounds(0, 1))
V = NominalInteger(7)


class Leave(Exception):
    """Ends a block."""


class LeaveBase(BaseException):
    """Ends a block, past except Exception."""


def observe(ctx, want):
    """The level in force, as reported and as acted upon."""
    got = get_validation_level()
    ctx.check(got == want and isinstance(got, WarningLevel),
              lambda: f"level is {got!r}, expected {want!r}")
    LOG.records.clear()
    try:
        Condition("c", value=V, template=T)
        outcome = WarningLevel.WARNING if LOG.records else WarningLevel.IGNORE
    except ValueError:
        outcome = WarningLevel.FATAL
    ctx.check(outcome == want, lambda: f"an inconsistent attribute is treated as at {outcome!r}, "
                                       f"expected {want!r}")
    ctx.ev({0: "probes_ignored", 1: "probes_warned", 2: "probes_refused"}[int(want)])


def block(ctx, level, depth, program):
    """
    Run a block at some level; returns the level in force inside at its end.

    Leaves normally, or by raising.
    """
    rng = ctx.rng
    here = level
    for _ in range(rng.randint(0, 4)):
        k = rng.random()
        if k < 0.35:
            observe(ctx, here)
            program.append("?")
        elif k < 0.5:
            new = rng.choice(LEVELS)
            set_validation_level(new if rng.random() < 0.7 else int(new))
            here = new
            program.append(f"={int(new)}")
            ctx.ev("set_calls")
            if depth:
                ctx.ev("set_inside_block")
        elif k < 0.6:
            invalid = rng.choice([3, -1, "WARNING", None, 1.5, "x", [], 99])
            if rng.random() < 0.5:
                ctx.raises((ValueError, TypeError), lambda: set_validation_level(invalid),
                           f"set_validation_level({invalid!r})")
            else:
                def enter():
                    with validation_level(invalid):
                        return "entered"
                ctx.raises((ValueError, TypeError), enter, f"validation_level({invalid!r})")
            program.append("!")
            ctx.ev("invalid_refused")
            observe(ctx, here)
        elif depth < 7:
            nested(ctx, here, depth, program)
            observe(ctx, here)
            if depth >= 3:
                ctx.ev("deep_nesting")
    return here


def nested(ctx, outer, depth, program):
    """One validation_level block, left in some way; afterwards the outer level is in force."""
    rng = ctx.rng
    level = rng.choice(LEVELS)
    given = level if rng.random() < 0.7 else int(level)
    way = rng.choice(["normal", "normal", "raise", "base", "return", "break", "refusal",
                      "generator", "keyerror"])
    program.append(f"({int(level)}{way[0]}")
    ctx.ev("blocks_entered")

    def body(old):
        ctx.check(old == outer, lambda: f"the block was told that the level was {old!r}, "
                                        f"expected {outer!r}")
        observe(ctx, level)
        return block(ctx, level, depth + 1, program)

    if way == "normal":
        with validation_level(given) as old:
            body(old)
    elif way in ("raise", "base", "keyerror"):
        exc = {"raise": Leave, "base": LeaveBase, "keyerror": KeyError}[way]
        try:
            with validation_level(given) as old:
                body(old)
                raise exc("out")
        except exc:
            ctx.ev("left_by_exception")
        else:
            raise Violation(f"the block swallowed {exc.__name__}")
    elif way == "return":
        def func():
            with validation_level(given) as old:
                body(old)
                return 5
        ctx.check(func() == 5, "return value lost")
        ctx.ev("left_by_return")
    elif way == "break":
        for _ in range(2):
            with validation_level(given) as old:
                body(old)
                break
    elif way == "refusal":
        # the level in force at the end of the body may be any; make sure that it refuses
        try:
            with validation_level(given) as old:
                body(old)
                set_validation_level(WarningLevel.FATAL)
                Condition("c", value=V, template=T)
        except ValueError:
            ctx.ev("left_by_refusal")
        else:
            raise Violation("an inconsistent attribute passed at FATAL")
    else:
        def steps():
            with validation_level(given) as old:
                body(old)
                yield 1
                yield 2
        it = steps()
        next(it)
        it.close()
        ctx.ev("generator_closed")
    ctx.ev("blocks_left")
    program.append(")")
    observe(ctx, outer)


def case(ctx):
    """One program."""
    start = ctx.rng.choice(LEVELS)
    program = []
    try:
        set_validation_level(start)
        for _ in range(ctx.rng.randint(1, 3)):
            here = get_validation_level()
            nested(ctx, here, 0, program)
            end = block(ctx, here, 0, program)
            observe(ctx, end)
    finally:
        set_validation_level(WarningLevel.WARNING)
    ctx.sig("".join(program))
    ctx.sample({"program": "".join(program)[:200]})


FIXED = []
