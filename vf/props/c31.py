"""C31: identifiers are assigned where there is none, under the scope asked for, and never twice."""
import io
import json
import os
import random
import subprocess
import sys
import threading
import time
import uuid

import numpy

import gemd
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds import IntegerBounds
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun, ProcessSpec
from gemd.entity.template import ConditionTemplate, PropertyTemplate
from gemd.entity.util import complete_material_history
from gemd.json import GEMDJson
from gemd.util import flatten, set_uuids
import gemd.json as gemd_json

from vf import gen, snap
from vf.core import Violation, short
from vf.props.c29 import Preempt, Scheduler

RULE = ("Random histories of calls that assign identifiers, by several clients and scopes, on "
        "graphs whose objects have none, some, or lose them again, among resets of the random "
        "generators, a stopped clock, look-alikes, freed objects, threads, forked and started "
        "processes; a model says who gets an identifier and under which scope, a registry of all "
        "identifiers ever assigned finds one that comes twice; signature: (calls, who had none).")
CALLS = ["dumps", "thin_dumps", "dump", "copy", "flatten", "set_uuids", "link", "history"]
REQUIRED = ["call:" + c for c in CALLS] + \
    ["assigned", "kept", "registered", "scopes", "calls_that_assign_none", "refused_flatten",
     "generators_reset", "clock_stopped", "identifier_lost", "look_alikes", "freed", "added_later",
     "forked_processes", "started_processes", "threads", "many", "failed_calls", "other_case",
     "repeated_calls", "held_up", "line_events", "shared_among_clients"]
N = {"quick": 3000, "thorough": 60000}
ASSUMPTIONS = ["every worker process keeps the registry of what was assigned in it and in the "
               "processes and threads that it started"]
SCOPES = ["auto", "Auto", "id", "my scope", "ID", "x", "é", "a-b_c", "0", "scope " * 20, "uuid",
          "uids", "citrine"]
HOME = os.path.dirname(os.path.dirname(os.path.abspath(gemd.__file__)))
REGISTRY = {}  # identifier -> what it was assigned by


class Unserializable:
    """Cannot be written."""


def register(ctx, ident, where):
    """An identifier that was just assigned."""
    ctx.check(isinstance(ident, str), lambda: f"the identifier is {ident!r}")
    try:
        well_formed = str(uuid.UUID(ident)) == ident
    except ValueError:
        well_formed = False
    ctx.check(well_formed, lambda: f"{where} assigned {ident!r}, which is not a uuid")
    ctx.check(ident not in REGISTRY,
              lambda: f"{where} assigned {ident!r}, which {REGISTRY[ident]} had assigned before")
    REGISTRY[ident] = where
    ctx.ev("registered")


def call(kind, client, x, scope):
    """Do one call; return what it answers. All of them have a scope of their own but two."""
    if kind == "dumps":
        return client.dumps(x)
    if kind == "dump":
        class Sink:
            def write(self, text):
                self.text = text
        sink = Sink()
        client.dump(x, sink)
        return sink.text
    if kind == "thin_dumps":
        return client.thin_dumps(x)
    if kind == "copy":
        return client.copy(x)
    if kind == "flatten":
        return flatten(x, scope)
    if kind == "set_uuids":
        return set_uuids(x, scope)
    if kind == "history":
        return complete_material_history(x)
    return LinkByUID.from_entity(x, scope=scope)


def reached(kind, x):
    """Those that get an identifier."""
    return [x] if kind == "link" else snap.reachable(x)


def examine(ctx, kind, client, x, scope, everything):
    """Do one call and compare everyone's identifiers with the model."""
    if kind in ("dumps", "dump", "thin_dumps", "copy"):
        scope = client.scope
    elif kind == "history":
        scope = "auto"
    elif kind == "link" and scope is None:
        pass
    get = {id(e) for e in reached(kind, x) if not e.uids}
    had = [list(e.uids.items()) for e in everything]
    ctx.log(kind, scope, len(get))
    answer = call(kind, client, x, scope)
    under = "auto" if scope is None else scope
    news = []
    for e, old in zip(everything, had):
        now = list(e.uids.items())
        if id(e) in get:
            ctx.check(len(now) == 1 and now[0][0] == under, lambda: f"{kind} under scope "
                      f"{under!r} gave an object without identifiers {now}")
            ctx.check(type(e.uids[under]) is str and list(e.uids) == [under], "uids disagree")
            news.append(now[0][1])
            ctx.ev("assigned")
        else:
            ctx.check(now == old, lambda: f"{kind} changed the identifiers {old} to {now}")
            ctx.ev("kept", len(now))
    for n in news:
        register(ctx, n, kind)
    ctx.ev("call:" + kind)
    ctx.ev("scopes", len({s for s in [under] if get}))
    if kind == "link":
        ctx.check(type(answer) is LinkByUID and (answer.scope, answer.id) in list(x.uids.items()) or
                  under in x.uids and (answer.scope, answer.id) == (under, x.uids[under]),
                  lambda: f"the link is {answer!r}, the object has {dict(x.uids)}")
    elif kind in ("dumps", "dump"):
        # what was written is what the objects have from then on
        got = sorted(sorted(d["uids"].items()) for d in json.loads(answer)["context"])
        want = sorted(sorted(e.uids.items()) for e in snap.reachable(x))
        ctx.check(got == want, lambda: f"written {short(got)}, the objects have {short(want)}")
    elif kind == "copy":
        got = sorted(sorted(e.uids.items()) for e in snap.reachable(answer))
        want = sorted(sorted(e.uids.items()) for e in snap.reachable(x))
        ctx.check(got == want, lambda: f"the copies have {short(got)}, they {short(want)}")
    if not get:
        ctx.ev("repeated_calls")
    return answer


def none_assigned(ctx, everything, x):
    """Calls that do not assign identifiers."""
    had = [list(e.uids.items()) for e in everything]
    rng = ctx.rng
    k = rng.randrange(4)
    if k == 0:
        lost = any(not e.uids for e in snap.reachable(x))
        try:
            flatten(x)
            ctx.check(not lost, "flatten without a scope accepted objects without identifiers")
        except ValueError:
            ctx.check(lost, "flatten without a scope refused objects that have identifiers")
            ctx.ev("refused_flatten")
    elif k == 1:
        repr(x), str(x), x == x, hash(x)
        for e in everything:
            e.dump if not isinstance(e, (PropertyTemplate, ConditionTemplate)) else e.dump()
    elif k == 2:
        t = [e for e in everything if isinstance(e, (PropertyTemplate, ConditionTemplate))]
        for e in t:
            client = GEMDJson(scope="raw")
            client.raw_loads(client.raw_dumps(e))
            e.as_dict()
    else:
        list(getattr(x, "all_dependencies")())
    now = [list(e.uids.items()) for e in everything]
    ctx.check(now == had, "a call that assigns no identifiers did")
    ctx.ev("calls_that_assign_none")


def fails(ctx, everything, x, client):
    """A call that fails half-way; what it assigned meanwhile counts."""
    rng = ctx.rng
    get = {id(e) for e in snap.reachable(x) if not e.uids}
    had = [list(e.uids.items()) for e in everything]
    try:
        if rng.random() < 0.5:
            client.dumps([x, Unserializable()])
        else:
            client.thin_dumps({"a": x, "b": Unserializable()})
        raise Violation("something that cannot be written was written")
    except TypeError:
        pass
    for e, old in zip(everything, had):
        now = list(e.uids.items())
        if now != old:
            ctx.check(id(e) in get and len(now) == 1 and now[0][0] == client.scope,
                      lambda: f"a call that failed changed identifiers from {old} to {now}")
            register(ctx, now[0][1], "a call that failed")
    ctx.ev("failed_calls")


def forked(ctx, work, n=2):
    """Run work() in n forked processes; return what they answer (lists of strings)."""
    out = []
    for _ in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:  # pragma: no cover
            code = 1
            try:
                os.close(r)
                data = json.dumps(work()).encode()
                while data:
                    data = data[os.write(w, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        ctx.check(status == 0 and data, "a forked process could not assign identifiers")
        out.append(json.loads(data))
        ctx.ev("forked_processes")
    return out


def fresh(rng, n):
    """Objects without identifiers, by random kinds of calls; return what they were given."""
    out = []
    client = GEMDJson(scope="fresh")
    for i in range(n):
        e = PropertyTemplate("same", bounds=IntegerBounds(0, 1)) if rng.random() < 0.5 \
            else MaterialRun("same")
        k = rng.randrange(4)
        if k == 0:
            set_uuids(e, "fresh")
        elif k == 1:
            LinkByUID.from_entity(e)
        elif k == 2:
            client.dumps([e])
        else:
            flatten([e], "fresh")
        out.extend(e.uids.values())
    return out


def threads(ctx, n=4):
    """Several threads that assign identifiers to objects of their own, started together."""
    seeds = [ctx.rng.random() for _ in range(n)]
    answers, barrier = [None] * n, threading.Barrier(n)

    def work(i):
        barrier.wait(30)
        answers[i] = fresh(random.Random(seeds[i]), 25)

    pool = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    with Scheduler(ctx, ctx.rng.choice([0.02, 0.2, 0.5])):
        for t in pool:
            t.start()
        for t in pool:
            t.join(60)
    for a in answers:
        ctx.check(a is not None and len(a) == 25, "a thread failed")
        for ident in a:
            register(ctx, ident, "a thread")
    ctx.ev("threads", n)


class StoppedClock:
    """The clocks stand still (for those who ask the time module)."""

    NAMES = ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns")

    def __enter__(self):
        self.kept = {n: getattr(time, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(time, n, lambda v=self.kept[n](): v)

    def __exit__(self, *_):
        for n, f in self.kept.items():
            setattr(time, n, f)


def case(ctx):
    """A history of calls."""
    rng = ctx.rng
    g = gen.Graph(rng, links=rng.random() < 0.3, uid=rng.choice(["mixed", "all", "none", "none"]),
                  size=rng.choice([1, 1, 2, 3]), weird=rng.random() < 0.3)
    everything = list(g.everything)
    clients = [GEMDJson(), GEMDJson(scope=rng.choice(SCOPES)), GEMDJson(scope=rng.choice(SCOPES))]
    program = []
    repeat = rng.random() < 0.5
    seed = rng.randrange(5)
    used = {}
    for _ in range(rng.randint(2, 7)):
        if repeat:
            # the caller's own way to a repeatable program
            random.seed(seed)
            numpy.random.seed(seed)
            ctx.ev("generators_reset")
        k = rng.random()
        x = rng.choice(everything)
        if k < 0.62:
            kind = rng.choice(CALLS)
            client = rng.choice(clients)
            scope = rng.choice(SCOPES + ([None] if kind == "link" else []))
            if rng.random() < 0.12:
                ctx.ev("clock_stopped")
                with StoppedClock():
                    examine(ctx, kind, client, x, scope, everything)
            else:
                examine(ctx, kind, client, x, scope, everything)
            for e in reached(kind, x):
                if used.setdefault(id(e), client) is not client:
                    ctx.ev("shared_among_clients")
            program.append(kind)
        elif k < 0.70:
            none_assigned(ctx, everything, x)
            program.append("none")
        elif k < 0.76:
            # identifiers are taken away; the next are not the former
            how = rng.randrange(4)
            if how == 0:
                x.uids = None
            elif how == 1:
                x.uids = {}
            elif how == 2:
                x.uids.clear()
            else:
                for s in list(x.uids):
                    del x.uids[s.swapcase()]
            ctx.check(not x.uids, "uids remain")
            ctx.ev("identifier_lost")
            program.append("lost")
        elif k < 0.84:
            # look-alikes of what is there, and objects that come later
            t = PropertyTemplate("same", bounds=IntegerBounds(0, 1))
            twin = PropertyTemplate("same", bounds=IntegerBounds(0, 1))
            spec = ProcessSpec("same")
            everything.extend([t, twin, spec])
            examine(ctx, rng.choice(["dumps", "flatten", "set_uuids", "thin_dumps"]),
                    rng.choice(clients), [t, twin, spec, [t]] if rng.random() < 0.5
                    else {"a": t, "b": twin, "c": (spec, t)}, rng.choice(SCOPES), everything)
            ctx.ev("look_alikes")
            ctx.ev("added_later")
            program.append("twins")
        elif k < 0.90:
            # objects that are freed; others take their place in memory
            for _ in range(20):
                e = ConditionTemplate("freed", bounds=IntegerBounds(0, 1))
                LinkByUID.from_entity(e, scope=rng.choice(SCOPES)) if rng.random() < 0.5 \
                    else set_uuids([e], rng.choice(SCOPES))
                register(ctx, next(iter(e.uids.values())), "an object freed since")
                del e
            ctx.ev("freed")
            program.append("freed")
        elif k < 0.94:
            fails(ctx, everything, x, rng.choice(clients))
            program.append("fails")
        elif k < 0.97:
            # an identifier under the same scope in another case is one
            e = MaterialRun("cased", uids={"AUTO": "mine"})
            everything.append(e)
            examine(ctx, rng.choice(["dumps", "set_uuids", "flatten", "history"]), clients[0], e,
                    "auto", everything)
            ctx.ev("other_case")
            program.append("case")
        elif k < 0.985:
            threads(ctx)
            program.append("threads")
        else:
            seeds = rng.random()
            mine = fresh(random.Random(seeds), 5)
            for answer in forked(ctx, lambda: fresh(random.Random(seeds), 10)):
                for ident in answer:
                    register(ctx, ident, "a forked process")
            for ident in mine + fresh(random.Random(seeds), 5):
                register(ctx, ident, "the process that forked")
            program.append("fork")
    ctx.sig(program, [bool(e.uids) for e in everything], len(everything))


def many(ctx):
    """So many that identifiers with too little in them would repeat."""
    total = 0
    for scope in ("auto", "other"):
        for _ in range(60):
            pool = [PropertyTemplate("p", bounds=IntegerBounds(0, 1)) for _ in range(1000)]
            set_uuids(pool, scope)
            for e in pool:
                ident = e.uids[scope]
                if ident in REGISTRY:
                    raise Violation(f"after {total} more, {ident!r} is assigned again")
                REGISTRY[ident] = "set_uuids, among many"
                total += 1
    for _ in range(40000):
        ident = LinkByUID.from_entity(MaterialRun("m")).id
        if ident in REGISTRY:
            raise Violation(f"after {total} more, {ident!r} is assigned again")
        REGISTRY[ident] = "from_entity, among many"
        total += 1
    ctx.check(True, "")
    ctx.ev("many", total)


CHILD = """
import random, sys
random.seed(0)
import logging
logging.disable(logging.CRITICAL)
from gemd.entity.object import MaterialRun, ProcessRun
from gemd.entity.link_by_uid import LinkByUID
from gemd.json import GEMDJson
from gemd.util import flatten, set_uuids
random.seed(0)
for i in range(40):
    e = MaterialRun("m", process=ProcessRun("p"))
    [lambda: LinkByUID.from_entity(e), lambda: GEMDJson(scope="auto").dumps(e),
     lambda: flatten(e, "auto"), lambda: set_uuids(e, "auto")][i % 4]()
    print(e.uids["auto"])
"""


def started(ctx):
    """Interpreters that are started, with the same hash seed, do the same."""
    for seed in ("0", "0", "1"):
        done = subprocess.run([sys.executable, "-B", "-c", CHILD], capture_output=True, text=True,
                              env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=HOME),
                              timeout=120)
        idents = done.stdout.split()
        ctx.check(done.returncode == 0 and len(idents) == 40,
                  lambda: f"a started interpreter failed: {done.stderr[-300:]}")
        for ident in idents:
            register(ctx, ident, "a started process")
        ctx.ev("started_processes")


def module_functions(ctx):
    """The functions of gemd.json assign as a client does."""
    a, b = MaterialRun("m"), MaterialRun("m")
    gemd_json.dumps(a)
    gemd_json.dump(b, io.StringIO())
    c = gemd_json.loads(gemd_json.dumps(MaterialRun("m")))
    for e in (a, b, c):
        ctx.check(list(e.uids) == ["auto"], lambda: f"uids are {dict(e.uids)}")
        register(ctx, e.uids["auto"], "a function of gemd.json")
    ctx.check(isinstance(a, BaseEntity), "")


def fork_many(ctx):
    """Forked processes do the same as the process they come from."""
    random.seed(7)
    first = fresh(random.Random(1), 30)
    answers = forked(ctx, lambda: fresh(random.Random(1), 30), 4)
    for ident in first:
        register(ctx, ident, "the process that forked")
    for a in answers:
        for ident in a:
            register(ctx, ident, "a forked process")
    for ident in fresh(random.Random(1), 30):
        register(ctx, ident, "the process that forked, later")


def held_up(ctx):
    """One call is held up at each of its lines, while another assigns identifiers."""
    client = GEMDJson(scope="auto")
    calls = [lambda e: set_uuids(e, "auto"), lambda e: LinkByUID.from_entity(e),
             lambda e: client.dumps(e), lambda e: flatten([e], "auto")]
    for one in calls:
        for other in calls:
            with Preempt() as p:
                first = MaterialRun("same")
                p.run(lambda: one(first))
                register(ctx, first.uids["auto"], "a call")
                most = p.lines
            for at in range(1, most + 1, 1 + most // 60):
                a, b = MaterialRun("same"), MaterialRun("same")
                with Preempt() as p:
                    p.run(lambda: one(a), at, lambda: other(b))
                if p.lines < at:  # fewer lines than the first time, so other was not called
                    other(b)
                for e, where in ((a, "a call that was held up"), (b, "a call in another thread")):
                    ctx.check(list(e.uids) == ["auto"], lambda: f"{where} gave {dict(e.uids)}")
                    register(ctx, e.uids["auto"], where)
                ctx.ev("held_up")


FIXED = [("calls held up", held_up), ("among many", many), ("started interpreters", started), ("forked processes", fork_many),
         ("functions of the module", module_functions),
         ("threads", lambda ctx: [threads(ctx, 8) for _ in range(5)])]
