"""C20: changing the unit definitions takes effect at once and wholly, or not at all."""
import os
import shutil
import tempfile
from pathlib import Path

from gemd.entity.bounds import RealBounds
from gemd.entity.value import NominalReal
from gemd.units import change_definitions_file, convert_units, get_base_units, parse_units, \
    IncompatibleUnitsError

RULE = ("Random histories of switches between generated definition files (same names, different "
        "meanings; one file importing another by relative path; given as absolute, relative, "
        "home-relative, symbolic-link and Path arguments), the default file, missing and malformed "
        "files, interleaved with the same questions asked under each; a model knows which file is "
        "in force; everything happens in a scratch directory; signature: the history.")
REQUIRED = ["switched", "back_to_default", "missing_refused", "malformed_refused",
            "still_in_force", "stale_answers_excluded", "only_here", "imported", "relative",
            "home_relative", "symlink", "cwd_kept", "scaled", "incompatible", "containment", "edited",
            "older_objects"]
N = {"quick": 90, "thorough": 3000}

BASE = ("meter = [length] = m\nsecond = [time] = s\ngram = [mass] = g\n"
        "radian = [] = rad\ncount = []\nbit = []\nkilo- = 1e3 = k-\n")


class Scratch:
    """The directory with the definition files."""

    def __init__(self, rng):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="c20-"))
        self.files = []
        for i in range(3):
            sub = os.path.join(self.dir, f"d{i}")
            os.mkdir(sub)
            factors = {n: rng.choice([2.0, 3.5, 10.0, 0.25, 7.0, 12.0]) + i for n in ("foo", "bar")}
            imported = rng.random() < 0.5
            name = "defs.txt" if rng.random() < 0.5 else f"defs{i}.txt"
            path = os.path.join(sub, name)
            self.write(i, path, factors, imported)
            os.symlink(path, os.path.join(sub, "link.txt"))
            self.files.append((path, factors, imported))
        os.symlink(os.path.join(self.dir, "gone.txt"), os.path.join(self.dir, "broken"))
        os.symlink("loop", os.path.join(self.dir, "loop"))
        self.bad = []
        for j, text in enumerate(["meter = [length] = m\nfoo == = ) 3 *\n",
                                  BASE + "@import nowhere.txt\n",
                                  BASE + "@group\n", "@context foo bar baz\nx y z\n"]):
            path = os.path.join(self.dir, f"bad{j}.txt")
            with open(path, "w") as f:
                f.write(text)
            self.bad.append(path)

    @staticmethod
    def write(i, path, factors, imported):
        """Write one file, and the one it imports."""
        text = BASE + f"foo = {factors['foo']} * meter\n"
        if imported:
            with open(os.path.join(os.path.dirname(path), "more.txt"), "w") as f:
                f.write(f"bar = {factors['bar']} * gram\n")
            text += "@import more.txt\n"
        else:
            text += f"bar = {factors['bar']} * gram\n"
        text += f"only{i} = 5 * second\n"
        # the same name measures something else in another file
        text += f"shifty = 4 * {['meter', 'second', 'gram'][i]}\n"
        with open(path, "w") as f:
            f.write(text)


def older(ctx, kept, files, k):
    """Objects made under other definitions answer by those in force."""
    box, value, km = kept
    if k is None:
        ctx.check(box.contains(value) is True and box.contains(km) is False,
                  "0..2 meter under the default definitions")
    else:
        ctx.check(box.contains(value) is True and box.contains(km) is False,
                  f"0..2 meter under file {k}")
        u = box.union(RealBounds(0, 1, "foo"))
        ctx.check(abs(u.upper_bound - max(2.0, files[k][1]["foo"])) < 1e-9,
                  lambda: f"0..2 meter united with 0..1 foo is {u} under file {k}")
        ctx.raises((ValueError, IncompatibleUnitsError), lambda: box.union(RealBounds(0, 1, "bar")), "meter with bar")
    ctx.ev("older_objects")


def probe(ctx, files, k):
    """Ask the same questions whatever file is in force."""
    rng = ctx.rng
    if k is None:
        ctx.check(abs(convert_units(1.0, "inch", "cm") - 2.54) < 1e-12, "an inch is not 2.54 cm")
        ctx.check(parse_units("g/2.5 cm") == "gram / 2.5 centimeter", "scaling lost")
        ctx.raises(Exception, lambda: parse_units("foo"), "foo under the default definitions")
        ctx.raises(Exception, lambda: convert_units(1.0, "foo", "meter"),
                   "foo converted under the default definitions")
        ctx.raises(Exception, lambda: get_base_units("foo"), "base units of foo by default")
        for i in range(3):
            ctx.raises(Exception, lambda: parse_units(f"only{i}"), f"only{i} by default")
        return
    _, factors, imported = files[k]
    for name, target in (("foo", "meter"), ("bar", "gram")):
        for x in (1.0, 2.0):
            got = convert_units(x, name, target)
            ctx.check(abs(got - x * factors[name]) < 1e-9,
                      lambda: f"{x} {name} is {got} {target} under file {k}, expected "
                              f"{x * factors[name]}")
        back = convert_units(1.0, target, name)
        ctx.check(abs(back - 1 / factors[name]) < 1e-9, f"1 {target} is {back} {name}")
        _, ratio, offset = get_base_units(name)
        bu = get_base_units(name)[0]
        want = factors[name] * convert_units(1.0, target, str(bu))
        ctx.check(abs(ratio - want) < 1e-9 and offset == 0, f"get_base_units({name!r}): {ratio}")
        ctx.ev("stale_answers_excluded")
    if imported:
        ctx.ev("imported")
    got = convert_units(1.0, "foo / 2 bar", "meter / gram")
    ctx.check(abs(got - factors["foo"] / (2 * factors["bar"])) < 1e-9,
              f"1 foo / 2 bar is {got} meter / gram under file {k}")
    ctx.ev("scaled")
    real = ["meter", "second", "gram"]
    for i, target in enumerate(real):
        if i == k:
            ctx.check(convert_units(1.0, "shifty", target) == 4, f"shifty under file {k}")
        else:
            ctx.raises(IncompatibleUnitsError, lambda: convert_units(1.0, "shifty", target),
                       f"shifty to {target} under file {k}")
            ctx.ev("incompatible")
        if i == k:
            ctx.check(parse_units(f"only{i}") == f"only{i}", f"only{i} is unknown under its file")
            ctx.check(convert_units(1.0, f"only{i}", "second") == 5, f"only{i} under file {k}")
            ctx.ev("only_here")
        else:
            ctx.raises(Exception, lambda: parse_units(f"only{i}"), f"only{i} under file {k}")
            ctx.raises(Exception, lambda: convert_units(1.0, f"only{i}", "second"),
                       f"only{i} converted under file {k}")
    ctx.raises(Exception, lambda: parse_units("inch"), f"inch under file {k}")
    # what is built on top follows
    x = rng.choice([0.5, 1.0, 1.5]) * factors["foo"]
    ctx.check(RealBounds(0, 1, "foo").contains(NominalReal(x, "meter")) is (
        x <= factors["foo"]), f"{x} meter in 0..1 foo under file {k}")
    ctx.ev("containment")


def case(ctx):
    """One history."""
    rng = ctx.rng
    home, cwd = os.environ.get("HOME"), os.getcwd()
    s = Scratch(rng)
    history, now = [], 0
    try:
        os.environ["HOME"] = s.dir
        os.chdir(rng.choice([s.dir, os.path.join(s.dir, "d1"), "/"]))
        here = os.getcwd()
        now = None
        kept = RealBounds(0, 2, "meter"), NominalReal(1.5, "meter"), NominalReal(1, "kilometer")
        for _ in range(rng.randint(2, 7)):
            k = rng.random()
            if k < 0.62:
                new = rng.randrange(3)
                path = s.files[new][0]
                form = rng.choice(["str", "Path", "relative", "home", "link"])
                if form == "Path":
                    arg = Path(path)
                elif form == "relative":
                    arg = os.path.relpath(path)
                    ctx.ev("relative")
                elif form == "home":
                    arg = "~/" + os.path.relpath(path, s.dir)
                    ctx.ev("home_relative")
                elif form == "link":
                    arg = os.path.join(os.path.dirname(path), "link.txt")
                    ctx.ev("symlink")
                else:
                    arg = path
                history.append(f"{new}{form[0]}")
                ctx.log("switch to", new, form)
                change_definitions_file(arg)
                now = new
                ctx.ev("switched")
            elif k < 0.68:
                # The same file, with other contents since it was last read
                new = now if now is not None and rng.random() < 0.7 else rng.randrange(3)
                path, factors, imported = s.files[new]
                factors = {n: f + rng.choice([1.0, 0.5, 11.0]) for n, f in factors.items()}
                s.write(new, path, factors, imported)
                s.files[new] = (path, factors, imported)
                if rng.random() < 0.5:
                    os.utime(path, (1e9, 1e9))
                history.append(f"{new}e")
                change_definitions_file(path)
                now = new
                ctx.ev("edited")
            elif k < 0.76:
                history.append("D")
                change_definitions_file() if rng.random() < 0.5 else change_definitions_file(None)
                now = None
                ctx.ev("back_to_default")
            elif k < 0.87:
                history.append("M")
                gone = rng.choice([os.path.join(s.dir, "nothing.txt"), "nothing.txt",
                                   os.path.join(s.dir, "no", "dir", "x.txt"), "~/nothing.txt",
                                   os.path.join(s.dir, "d1"), s.dir, "", ".", Path(s.dir),
                                   os.path.join(s.dir, "broken"), os.path.join(s.dir, "loop"),
                                   os.path.join(s.dir, "d0", "defs.txt", "x")])
                ctx.raises((OSError, RuntimeError), lambda: change_definitions_file(gone),
                           f"missing definitions file {gone}")
                ctx.ev("missing_refused")
                ctx.ev("still_in_force")
            else:
                history.append("X")
                bad = rng.choice(s.bad)
                ctx.raises(Exception, lambda: change_definitions_file(bad),
                           f"malformed definitions file {os.path.basename(bad)}")
                ctx.ev("malformed_refused")
                ctx.ev("still_in_force")
            ctx.check(os.getcwd() == here, f"working directory is now {os.getcwd()}")
            ctx.ev("cwd_kept")
            if rng.random() < 0.5:
                older(ctx, kept, s.files, now)
                probe(ctx, s.files, now)
            else:
                probe(ctx, s.files, now)
                older(ctx, kept, s.files, now)
        ctx.sig("".join(history))
        ctx.sample({"history": " ".join(history)})
    finally:
        os.chdir(cwd)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        shutil.rmtree(s.dir, ignore_errors=True)
        if now is not None:
            change_definitions_file()


FIXED = []
