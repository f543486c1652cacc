"""C29: calls do not disturb one another: threads, calls within calls, calls after failures."""
import os
import random
import sys
import threading
import time

import gemd
from gemd.entity.attribute import Condition, Property
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds import CategoricalBounds, RealBounds
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, \
    MeasurementRun, ProcessRun, ProcessSpec
from gemd.entity.template import ConditionTemplate, ProcessTemplate
from gemd.entity.util import complete_material_history, make_instance
from gemd.entity.value import NominalReal
from gemd.enumeration import Origin, SampleType
from gemd.json import GEMDJson
from gemd.units import convert_units, get_base_units, parse_units
from gemd.util import flatten, make_index, recursive_flatmap, recursive_foreach, \
    substitute_links, substitute_objects

from vf import gen, snap
from vf.core import short

RULE = ("Two to six threads run random calls on graphs of their own, or read one graph together, "
        "through one client or several, while an injected scheduler gives up the interpreter at "
        "random lines of the library; other cases make calls from within the callbacks of calls, "
        "or after calls that failed half-way; each call must answer what it answers alone; "
        "signature: (scenario, calls).")
OPS = ["dumps", "loads", "copy", "thin", "raw", "build", "flatten", "links", "index", "objects",
       "foreach", "flatmap", "repr", "equal", "unequal", "units", "convert", "base_units",
       "enumerations", "bounds", "instance", "history", "construct", "relink", "document",
       "dependencies"]
ONCE = {"units", "convert", "base_units"}  # answered from a cache the next time
KEPT = ["flatten", "index", "links", "mapping", "flatmap", "history", "dump", "as_dict",
        "dependencies", "loads", "signature", "classes"]
REQUIRED = ["op:" + o for o in OPS] + ["threads", "line_events", "thread_switches", "yields",
                                       "shared_reads", "separate", "within", "after_failure",
                                       "failures", "shared_client", "preempted",
                                       "lines_seen"] + ["kept:" + k for k in KEPT]
N = {"quick": 240, "thorough": 4000}
ASSUMPTIONS = ["the schedules that occur depend on the machine; a replay repeats the calls, not "
               "the schedule",
               "the level of validation and the definitions file are settings of the process, and "
               "not changed meanwhile"]
ROOT = os.path.dirname(os.path.abspath(gemd.__file__)) + os.sep
TOOL = 4
UNITS = ["m", "kg", "s", "mol", "K", "eV", "L", "Pa"]
FRESH = iter(range(10 ** 9))


class Scheduler:
    """Gives up the interpreter at random lines of the library, and counts what came of it."""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.rng = random.Random(ctx.rng.random())
        self.lines = self.switches = self.yields = 0
        self.last = None

    def line(self, code, number):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        self.lines += 1
        if me != self.last:
            self.switches += 1
            self.last = me
        if self.rng.random() < self.p:
            self.yields += 1
            time.sleep(0 if self.rng.random() < 0.9 else 1e-5)

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        sys.monitoring.use_tool_id(TOOL, "verif")
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, self.line)
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
        return self

    def __exit__(self, *_):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, None)
        sys.monitoring.free_tool_id(TOOL)
        sys.setswitchinterval(self.interval)
        self.ctx.ev("line_events", self.lines)
        self.ctx.ev("thread_switches", self.switches)
        self.ctx.ev("yields", self.yields)


class Preempt:
    """Runs another call at a chosen line of the library, as a thread that gets its turn would."""

    def __init__(self):
        self.lines, self.at, self.call, self.busy = 0, None, None, False
        self.waiting = []

    def line(self, code, number):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        if self.busy:
            return None
        self.lines += 1
        if self.lines == self.at:
            self.busy = True
            other = threading.Thread(target=self.call, daemon=True)
            other.start()
            other.join(5)
            if other.is_alive():  # it may wait for what this one holds
                self.waiting.append(other)
            self.busy = False
        return None

    def run(self, func, at=None, call=None):
        """Run func, and call at its at-th line."""
        self.lines, self.at, self.call = 0, at, call
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
        try:
            return func()
        finally:
            sys.monitoring.set_events(TOOL, 0)
            for other in self.waiting:
                other.join(60)

    def __enter__(self):
        sys.monitoring.use_tool_id(TOOL, "verif")
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, self.line)
        return self

    def __exit__(self, *_):
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, None)
        sys.monitoring.free_tool_id(TOOL)


def names(x):
    """How to tell an entity or link, by its uids."""
    if isinstance(x, LinkByUID):
        return ("link", x.scope, x.id)
    return (type(x).__name__, *sorted(x.uids.items()))


def close(x, y):
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y))


class Calls:
    """Calls on one graph, all of whose entities have uids; what each answers alone."""

    def __init__(self, rng, client, graph=None):
        self.rng, self.client = rng, client
        self.g = graph or gen.Graph(rng, size=1, uid="all")
        self.root = self.g.root()
        self.many = rng.sample(self.g.everything, min(4, len(self.g.everything)))
        self.text = client.dumps(self.root)
        self.twin = client.loads(self.text)
        self.other = client.loads(self.text)
        rng.choice([x for x in snap.reachable(self.other)]).add_uid("other", "x")
        self.tree = gen.simple_history(rng, depth=1, width=1)
        for k, e in enumerate(snap.reachable(self.tree)):
            e.add_uid("tree", f"{next(FRESH)}")
        self.dumped = self.root.dump()
        self.index = make_index(self.g.everything)

    def make(self, op):
        """(call, what it should answer); None: the first answer, taken alone."""
        rng, client, root, many = self.rng, self.client, self.root, self.many
        if op == "dumps":
            obj = rng.choice([root, many, {"k": many}])
            return lambda: client.dumps(obj), None
        if op == "loads":
            return lambda: client.dumps(client.loads(self.text)), None
        if op == "copy":
            obj = rng.choice([root, many])
            return lambda: client.dumps(client.copy(obj)), None
        if op == "thin":
            return lambda: [client.thin_dumps(x) for x in many], None
        if op == "raw":
            return lambda: client.raw_dumps(substitute_links(root)), None
        if op == "build":
            d = self.dumped
            return lambda: client.raw_dumps(type(root).build(d)), None
        if op == "flatten":
            return lambda: [names(x) for x in flatten(many)], None
        if op == "links":
            scope = rng.choice([None, *sorted({s for x in self.g.everything for s in x.uids})])
            return lambda: client.raw_dumps([substitute_links(x, scope) for x in many]), None
        if op == "index":
            return lambda: sorted((str((k.scope, k.id)), names(v))
                                  for k, v in make_index(many).items()), None
        if op == "objects":
            flat = [x.to_link() for x in many]
            return lambda: [names(x) for x in substitute_objects(flat, self.index)], None
        if op == "foreach":
            def walk():
                seen = []
                recursive_foreach(many, lambda e: seen.append(id(e)), apply_first=True)
                return sorted(seen)
            return walk, None
        if op == "flatmap":
            return lambda: recursive_flatmap(many, lambda e: [id(e)], unidirectional=False), None
        if op == "repr":
            return lambda: repr(root), None
        if op == "equal":
            return lambda: (root == self.twin, self.twin == root), None
        if op == "unequal":
            return lambda: (root == self.other, self.other == root), None
        if op in ("units", "convert", "base_units"):
            number = next(FRESH) + 7 + rng.choice([0, 0.5, 0.25])
            a, b = rng.choice(UNITS), rng.choice(UNITS)
            u = f"{a} / {number} {b}"
            if op == "units":
                v = u.replace(str(number), str(number + 10 ** 8))
                want = parse_units(v).replace(str(number + 10 ** 8), "#")
                return lambda: (lambda p: (parse_units(p) == p, p.replace(str(number), "#")))(
                    parse_units(u)), (True, want)
            if op == "convert":
                def convert():
                    y = convert_units(3.0, u, f"{a} / {b}") if a != b else \
                        convert_units(3.0, u, "")
                    return close(y * number, 3.0)
                return convert, True
            k = rng.choice([10.0, 0.5, 2000.0])

            def base():
                unit, factor, offset = get_base_units(f"m / {number} kg")
                whole = get_base_units("m / kg")
                return unit == whole[0] and close(factor * number, whole[1]) and offset == 0
            return base, True
        if op == "enumerations":
            o, s = rng.choice(list(Origin)), rng.choice(list(SampleType))
            return lambda: (Origin.from_str(o.value.upper()) is o,
                            SampleType(f" {s.value} ") is s,
                            Origin.from_str("never") is None), (True, True, True)
        if op == "bounds":
            lo = rng.uniform(0, 5)

            def bounds():
                b = RealBounds(lo, lo + 1, "m").union(RealBounds(lo * 100, lo * 100 + 300, "cm"))
                c = CategoricalBounds(["a"])
                c.update(CategoricalBounds(["b"]))
                return (close(b.lower_bound, lo) if lo else True, close(b.upper_bound, lo + 3),
                        b.contains(NominalReal(lo + 2, "m")), b.contains(NominalReal(lo + 4, "m")),
                        sorted(c.categories))
            return bounds, (True, True, True, False, ["a", "b"])
        if op == "instance":
            spec = self.tree.spec

            def instance():
                run = make_instance(spec)
                runs = snap.reachable(run)
                return sorted(f"{type(x).__name__} {x.name}" for x in runs
                              if type(x).__name__.endswith("Run"))
            return instance, None
        if op == "history":
            return lambda: sorted(client.raw_dumps(x)
                                  for x in complete_material_history(self.tree)), None
        if op == "construct":
            n = rng.randint(1, 5)

            def construct():
                p = ProcessRun("p", spec=ProcessSpec("s"))
                m = MaterialRun("m", process=p, tags=(f"t{i}" for i in range(n)))
                ing = [IngredientRun(process=p, notes=str(i)) for i in range(n)]
                q = [MeasurementRun(str(i), material=m) for i in range(n)]
                return (p.output_material is m, [x.notes for x in p.ingredients],
                        [x.name for x in m.measurements], list(m.tags),
                        all(x.process is p for x in ing) and all(x.material is m for x in q))
            return construct, (True, [str(i) for i in range(n)], [str(i) for i in range(n)],
                               [f"t{i}" for i in range(n)], True)
        if op == "relink":
            n = rng.randint(2, 4)

            def relink():
                ms = [MaterialRun(str(i)) for i in range(n)]
                q = MeasurementRun("q")
                for m in ms:
                    q.material = m
                s = IngredientSpec("s", labels=["x"])
                i = IngredientRun(spec=s)
                i.spec = LinkByUID("a", "b")
                return [len(m.measurements) for m in ms], i.name, list(i.labels)
            return relink, ([0] * (n - 1) + [1], "s", ["x"])
        if op == "document":
            return lambda: client.dumps(client.loads(self.text)) == \
                client.dumps(GEMDJson().loads(self.text)), True
        assert op == "dependencies"
        return lambda: sorted(names(x) for e in many for x in e.all_dependencies()), None


def prepared(ctx, calls, ops):
    """[(op, call, answer)]"""
    out = []
    for op in ops:
        call, answer = calls.make(op)
        if answer is None:
            answer = call()
            ctx.check(call() == answer, lambda: f"{op} answers differently the second time")
        out.append((op, call, answer))
    return out


def run_threads(ctx, plans, p):
    """Run the plans at once; report the first wrong answer."""
    bad = []
    start = threading.Barrier(len(plans))

    def work(plan, rounds):
        start.wait()
        try:
            for k in range(rounds):
                for op, call, answer in plan:
                    got = call()
                    if got != answer:
                        bad.append(f"{op} answered {short(got)} among other threads, alone "
                                   f"{short(answer)}")
                        return
        except Exception as e:
            bad.append(f"{op} failed with {type(e).__name__}: {e} among other threads")

    rounds = ctx.rng.randint(1, 3)
    threads = [threading.Thread(target=work, args=(plan, rounds), daemon=True) for plan in plans]
    with Scheduler(ctx, p):
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    ctx.ev("threads", len(plans))
    for plan in plans:
        for op, _, _ in plan:
            ctx.ev("op:" + op, rounds)
    ctx.check(not bad, lambda: bad[0])


def threads_case(ctx, shared):
    """Threads on graphs of their own, or readers of one graph."""
    rng = ctx.rng
    client = rng.choice([GEMDJson(), GEMDJson(scope="x")])
    plans = []
    graph = gen.Graph(rng, size=1, uid="all") if shared else None
    for _ in range(rng.randint(2, 6)):
        mine = client if rng.random() < 0.7 else GEMDJson()
        ctx.ev("shared_client", mine is client)
        calls = Calls(rng, mine, graph)
        plans.append(prepared(ctx, calls, [rng.choice(OPS) for _ in range(rng.randint(2, 7))]))
    before = snap.freeze(graph.everything) if shared else None
    run_threads(ctx, plans, rng.choice([0.0, 0.003, 0.02, 0.1]))
    if shared:
        bad = snap.diff_state(before, snap.freeze(graph.everything))
        ctx.check(bad is None, lambda: f"readers changed the graph: {bad}")
    ctx.ev("shared_reads" if shared else "separate")
    ctx.sample({"shared graph": shared, "threads": [[op for op, _, _ in p] for p in plans]})
    ctx.sig(shared, tuple(tuple(op for op, _, _ in plan) for plan in plans))


def within_case(ctx):
    """Calls from within the callbacks of other calls."""
    rng = ctx.rng
    client = GEMDJson()
    outer, inner = Calls(rng, client), Calls(rng, client)
    plan = prepared(ctx, inner, [rng.choice(OPS) for _ in range(4)])
    everything = outer.many

    def interrupt(*_):
        op, call, answer = rng.choice(plan)
        got = call()
        ctx.check(got == answer, lambda: f"{op} within another call answered {short(got)}, alone "
                                         f"{short(answer)}")
        ctx.ev("op:" + op)
        ctx.ev("within")

    how = rng.choice(["foreach", "flatmap", "loads", "list", "check"])
    times = [rng.randint(0, 5)]

    def sometimes(*_):
        times[0] -= 1
        if times[0] < 0 and rng.random() < 0.3 or times[0] == 0:
            interrupt()

    if how == "foreach":
        alone, seen = [], []
        recursive_foreach(everything, lambda e: alone.append(id(e)))

        def visit(e):
            seen.append(id(e))
            sometimes()
        recursive_foreach(everything, visit)
        ctx.check(sorted(alone) == sorted(seen), "a walk was disturbed from within")
    elif how == "flatmap":
        alone = recursive_flatmap(everything, lambda e: [id(e)])

        def func(e):
            sometimes()
            yield id(e)
        ctx.check(recursive_flatmap(everything, func) == alone,
                  "a walk was disturbed from within")
    elif how == "loads":
        def number(s):
            sometimes()
            return float(s)

        def whole(s):
            sometimes()
            return int(s)
        got = client.dumps(client.loads(outer.text, parse_float=number, parse_int=whole))
        ctx.check(got == client.dumps(client.loads(outer.text)),
                  "reading a document was disturbed from within")
    elif how == "list":
        def tags():
            for t in "abc":
                interrupt()
                yield t
        m = MaterialRun("m", tags=tags())
        m.tags.extend(tags())
        ctx.check(list(m.tags) == list("abcabc"), lambda: f"tags are {list(m.tags)}")
    else:
        t = ConditionTemplate("c", bounds=RealBounds(0, 1, ""))
        p = ProcessRun("p", spec=ProcessSpec("s", template=ProcessTemplate("t", conditions=[t])))

        def conditions():
            for k in range(3):
                interrupt()
                yield Condition("c", template=t, value=NominalReal(k / 4, ""))
        p.conditions = conditions()
        ctx.check([c.value.nominal for c in p.conditions] == [0, 0.25, 0.5], "conditions differ")
    ctx.sig("within", how, tuple(op for op, _, _ in plan))


def preempt_case(ctx):
    """A call that is held up at some line while another one runs."""
    rng = ctx.rng
    client = GEMDJson()
    graph = gen.Graph(rng, size=1, uid="all") if rng.random() < 0.6 else None
    one = Calls(rng, client, graph)
    two = Calls(rng, client if rng.random() < 0.7 else GEMDJson(), graph)
    if rng.random() < 0.5:
        two.tree, two.index, two.text = one.tree, one.index, one.text
        two.root, two.twin, two.other, two.dumped = one.root, one.twin, one.other, one.dumped
    same = rng.random() < 0.4
    pairs = []
    for _ in range(3):
        a = rng.choice(OPS)
        b = a if same else rng.choice(OPS)
        pairs.append((a, b))
        for k in range(5):
            if a in ONCE or b in ONCE or k == 0:  # calls that leave nothing to do the next time
                (_, call, answer), = prepared(ctx, one, [a])
                (_, other, reply), = prepared(ctx, two, [b])
            got = []
            with Preempt() as p:
                if k == 0:
                    p.run(call)
                    most = max(p.lines, 1)
                    if a in ONCE:
                        continue
                at = rng.randint(1, most)
                def turn():
                    try:
                        got.append(other())
                    except Exception as e:
                        got.append(f"{type(e).__name__}: {e}")

                mine = p.run(call, at, turn)
            ctx.check(not any(t.is_alive() for t in p.waiting),
                      lambda: f"{b} never ends, once {a} is held up at line {at}")
            ctx.ev("lines_seen", p.lines)
            if not got:
                continue
            ctx.ev("preempted")
            ctx.ev("op:" + a)
            ctx.check(mine == answer, lambda: f"{a}, held up by {b} at line {at} of {most}, "
                                              f"answered {short(mine)}, alone {short(answer)}")
            ctx.check(got[0] == reply, lambda: f"{b}, while {a} was at line {at} of {most}, "
                                               f"answered {short(got[0])}, alone {short(reply)}")
    ctx.sig("preempt", graph is not None, tuple(pairs))


def parts(x, depth=4):
    """The lists, dictionaries and sets that an answer is made of."""
    out = {}
    if isinstance(x, (list, dict, set, tuple)) and depth:
        if not isinstance(x, tuple):
            out[id(x)] = x
        for y in (x.values() if isinstance(x, dict) else x):
            out.update(parts(y, depth - 1))
    return out


def kept_case(ctx):
    """An answer, once given, is the caller's: later calls neither change nor share it."""
    rng = ctx.rng
    client = GEMDJson()
    calls = Calls(rng, client)
    more = Calls(rng, client, calls.g if rng.random() < 0.5 else None)
    entity = rng.choice(calls.g.everything)
    given = {
        "flatten": lambda: flatten(calls.many), "index": lambda: make_index(calls.many),
        "links": lambda: substitute_links(calls.many),
        "mapping": lambda: substitute_links({"k": calls.many}),
        "flatmap": lambda: recursive_flatmap(calls.many, lambda e: [e]),
        "history": lambda: complete_material_history(calls.tree),
        "dump": entity.dump, "as_dict": lambda: {
            k: v for k, v in entity.as_dict().items() if not isinstance(v, (list, dict))},
        "dependencies": entity.all_dependencies, "loads": lambda: client.loads(calls.text),
        "signature": lambda: list(type(entity)._init_sig()),
        "classes": lambda: type(entity).class_mapping,
    }
    keys = rng.sample(sorted(given), 4)
    digest = lambda x: (len(x) if hasattr(x, "__len__") else None,  # noqa: E731
                        [(id(y), len(y), [id(z) for z in y]) for y in parts(x).values()],
                        snap.freeze(snap.reachable(x)) if isinstance(x, BaseEntity) else None)
    held = [(k, x, digest(x)) for k in keys for x in [given[k]()]]
    for op, call, _ in prepared(ctx, more, [rng.choice(OPS) for _ in range(3)]):
        call()
    for k, x, before in held:
        again = given[k]()
        ctx.check(digest(x) == before, lambda: f"the answer of an earlier {k} was changed")
        shared = parts(x).keys() & parts(again).keys()
        if k not in ("flatmap", "classes"):
            ctx.check(not shared and not (isinstance(x, BaseEntity) and again is x),
                      lambda: f"two answers of {k} share {short(parts(x)[min(shared)])}"
                      if shared else f"two answers of {k} are one object")
        ctx.ev("kept:" + k)
    ctx.sig("kept", tuple(keys))


class Stop(Exception):
    """Raised in callbacks."""


def after_case(ctx):
    """Calls after others that failed half-way."""
    rng = ctx.rng
    client = GEMDJson()
    calls = Calls(rng, client)
    plan = prepared(ctx, calls, [rng.choice(OPS) for _ in range(4)])
    left = [rng.randint(0, 4)]

    def stop(*_):
        left[0] -= 1
        if left[0] < 0:
            raise Stop()
        return []

    def fails(func):
        try:
            func()
        except Exception:
            ctx.ev("failures")

    class Odd:
        """Nothing that can be written."""

    text = calls.text
    half = text[:rng.randrange(len(text))]
    links = [x.to_link() for x in calls.g.everything]
    for _ in range(rng.randint(1, 4)):
        rng.choice([
            lambda: fails(lambda: client.loads(half)),
            lambda: fails(lambda: client.loads(text.replace('"material_run"', '"never"'))),
            lambda: fails(lambda: client.loads(text, parse_float=stop, parse_int=stop)),
            lambda: fails(lambda: client.dumps({"a": calls.root, "b": Odd()})),
            lambda: fails(lambda: recursive_foreach(calls.many, stop)),
            lambda: fails(lambda: recursive_flatmap(calls.many, stop)),
            lambda: fails(lambda: flatten([calls.root, MaterialRun("no uid")])),
            lambda: fails(lambda: substitute_links([calls.root, MaterialRun("no uid")], "zork",
                                                   allow_fallback=False)),
            lambda: fails(lambda: make_instance(calls.g)),
            lambda: fails(lambda: parse_units(f"m / {next(FRESH)} zork")),
            lambda: fails(lambda: convert_units(1.0, f"m / {next(FRESH) + 2} s", "kg")),
            lambda: fails(lambda: MaterialRun("m", tags=(stop() or "t" for _ in range(9)))),
            lambda: fails(lambda: calls.root == object() or stop() or stop() or stop()),
            lambda: fails(lambda: client.build({"type": "material_run"})),
        ])()
        left[0] = rng.randint(0, 4)
        op, call, answer = rng.choice(plan)
        got = call()
        ctx.check(got == answer, lambda: f"{op} after a failed call answered {short(got)}, "
                                         f"before {short(answer)}")
        ctx.ev("op:" + op)
        # Nothing of what a failed call has seen lingers
        link = rng.choice(links)
        got = client.loads(client.dumps([LinkByUID(link.scope, link.id)]))
        ctx.check(type(got[0]) is LinkByUID, "a link is resolved to something seen earlier")
        ctx.ev("after_failure")
    ctx.sig("after", tuple(op for op, _, _ in plan))


def case(ctx):
    """One scenario."""
    r = ctx.rng.random()
    if r < 0.15:
        threads_case(ctx, False)
    elif r < 0.3:
        threads_case(ctx, True)
    elif r < 0.6:
        preempt_case(ctx)
    elif r < 0.7:
        kept_case(ctx)
    elif r < 0.85:
        within_case(ctx)
    else:
        after_case(ctx)


FIXED = []
