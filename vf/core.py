"""Runner, verdicts, evidence.

A property module (vf/props/cNN.py) offers

    RULE      how cases are made and what makes one non-trivial
    REQUIRED  names of the event counters that must be non-zero for a verdict of "held"
    N         {"quick": n, "thorough": m} number of randomly generated cases
    case(ctx) one random case, driven only by ctx.rng
    FIXED     list of (name, function(ctx)) deterministic scenarios (optional)

Every case owns a random generator derived from (VERIF_SEED, property, index), so that a single
case can be replayed.  Verdicts are three-valued: held (exit 0), violated (exit 1 and a VIOLATION
line), inconclusive (exit 2: a deciding monitor was never reached, or the harness could not run).
"""
import hashlib
import json
import logging
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# A case takes milliseconds; this only turns a hang into an answer.
WATCHDOG_S = int(os.environ.get("VERIF_WATCHDOG_S", "150"))

# A worker needs some 200 MB; this turns boundless growth into an answer.
MEMORY_MB = int(os.environ.get("VERIF_MEMORY_MB", "3000"))

# The wall-clock budget of a run; a run on the unchanged tree takes a small part of it.
BUDGET_S = {"quick": 500, "thorough": 6 * 3600}


class Violation(Exception):
    """The monitored property does not hold on this execution."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Hang(BaseException):
    """A case ran into the watchdog."""


class LogTap(logging.Handler):
    """Counts what the library logs at WARNING level or above."""

    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.records = []

    def emit(self, record):
        """Remember the record."""
        try:
            self.records.append(record.getMessage())
        except Exception:  # pragma: no cover
            self.records.append("<unformattable>")


LOG = LogTap()
KNOWN = {}  # what known_findings.txt lists for the property that is run


class Ctx:
    """What a case sees."""

    def __init__(self, prop, index, seed, tier, counters, sigs, samples):
        self.prop, self.index, self.seed, self.tier = prop, index, seed, tier
        self.rng = random.Random(f"{seed}/{prop}/{index}")
        self._counters, self._sigs, self._samples = counters, sigs, samples
        self.trace = []
        LOG.records.clear()

    def ev(self, name, n=1):
        """Count monitored events."""
        self._counters[name] = self._counters.get(name, 0) + n

    def check(self, cond, message, key=None):
        """One oracle evaluation."""
        self._counters["oracle_evaluations"] = self._counters.get("oracle_evaluations", 0) + 1
        if not cond:
            raise Violation(message() if callable(message) else message, key=key)

    def sig(self, *parts):
        """Declare this case non-trivial, with a signature that tells it from other cases."""
        raw = repr(parts).encode("utf8", "surrogatepass")
        self._sigs.add(hashlib.blake2b(raw, digest_size=8).digest())

    def sample(self, what):
        """Offer an actual case for the evidence file."""
        if len(self._samples) < 3:
            self._samples.append(what)

    def log(self, *what):
        """Record a step of the history for the replay file."""
        self.trace.append(" ".join(str(x) for x in what)[:400])

    def finding(self, key, message):
        """A violation with a known mechanism: noted if it is listed, reported otherwise."""
        self._counters["oracle_evaluations"] = self._counters.get("oracle_evaluations", 0) + 1
        if key not in KNOWN:
            raise Violation(message() if callable(message) else message, key=key)
        self.ev("known:" + key)

    def raises(self, exc, func, message):
        """Check func() raises exc (class or tuple); return the exception."""
        try:
            result = func()
        except exc as e:
            self.check(True, "")
            return e
        except Exception as e:
            raise Violation(f"{message}: expected {exc}, got {type(e).__name__}: {e}"[:600])
        raise Violation(f"{message}: expected {exc}, but it returned {short(result)}")


def short(x, n=200):
    """Shortened representation that never fails."""
    try:
        text = repr(x)
    except Exception as e:
        text = f"<unrepresentable {type(x).__name__}: {type(e).__name__}>"
    return text if len(text) <= n else text[:n] + "..."


def quiet_logging():
    """Route all logging into the tap and nowhere else."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(LOG)
    root.setLevel(logging.WARNING)


def load_known(prop):
    """Read the keys of the findings recorded for a property; 'fixed:' lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                parts = line.strip().split(None, 3)
                if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}":
                    out[parts[2].split("=", 1)[1]] = parts[3]
    return out


def _alarm(signum, frame):
    raise Hang()


def run_one(mod, prop, index, seed, tier, counters, sigs, samples):
    """Run one case; return None or a dict describing the violation."""
    ctx = Ctx(prop, index, seed, tier, counters, sigs, samples)
    name = "random"
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(WATCHDOG_S)
        try:
            if index < 0:
                name, func = mod.FIXED[-index - 1]
                func(ctx)
            else:
                mod.case(ctx)
        finally:
            signal.alarm(0)
        counters["cases"] = counters.get("cases", 0) + 1
        return None
    except Violation as v:
        what, key, hang = str(v), v.key, False
        tb = traceback.format_exc()
    except Hang:
        what, key, hang = f"no answer within {WATCHDOG_S} s where cases take milliseconds", None, True
        tb = traceback.format_exc()
    except KeyboardInterrupt:
        raise
    except MemoryError:
        what, key, hang = (f"more than {MEMORY_MB} MB of memory asked for where cases need a few",
                           None, True)
        tb = traceback.format_exc()
    except Exception as e:
        # The workload is made of calls that the property says succeed, so a failure that escapes
        # them is the library's; the harness itself is exercised on every run of the clean tree.
        what, key, hang = f"workload failed with {type(e).__name__}: {e}", None, False
        tb = traceback.format_exc()
    return {"property": prop, "index": index, "scenario": name, "seed": seed, "tier": tier,
            "what": what[:2000], "key": key, "hang": hang, "history": ctx.trace[-200:],
            "traceback": tb[-6000:]}


def worker(mod, prop, seed, tier, indices, conn):
    """Run a shard and send the outcome back."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_MB << 20, MEMORY_MB << 20))
        counters, sigs, samples, violations = {}, set(), [], []
        until = time.monotonic() + BUDGET_S[tier]
        for i in indices:
            if time.monotonic() > until:
                # Slower than ever seen here: say what was covered rather than give no answer.
                counters["cases_left_out"] = counters.get("cases_left_out", 0) + 1
                continue
            bad = run_one(mod, prop, i, seed, tier, counters, sigs, samples)
            if bad is not None:
                violations.append(bad)
                if len(violations) >= 5 or bad["hang"]:
                    break
        conn.send(("ok", counters, sigs, samples, violations))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def run_property(prop, mod, tier, seed, only=None, jobs=None):
    """Run a property's workload and decide; return the exit code."""
    start = time.time()
    quiet_logging()
    if hasattr(mod, "prepare"):
        mod.prepare()
    KNOWN.update(load_known(prop))
    n_fixed = len(getattr(mod, "FIXED", []))
    if only is not None:
        indices = [only]
    else:
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        indices = list(range(-n_fixed, 0)) + list(range(max(1, int(mod.N[tier] * scale))))
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    jobs = max(1, min(jobs, len(indices)))
    procs = []
    mp = multiprocessing.get_context("fork")
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(jobs):
        recv, send = mp.Pipe(duplex=False)
        p = mp.Process(target=worker, args=(mod, prop, seed, tier, indices[w::jobs], send))
        p.start()
        send.close()
        procs.append((p, recv))
    counters, sigs, samples, violations, errors = {}, set(), [], [], []
    for p, recv in procs:
        try:
            msg = recv.recv()
        except EOFError:
            msg = ("error", "worker ended without an answer")
        p.join()
        if msg[0] == "error" and p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE):
            violations.append({"property": prop, "index": 0, "scenario": "random", "seed": seed,
                               "tier": tier, "what": f"the interpreter died ({p.exitcode})",
                               "key": None, "hang": False, "history": [], "traceback": ""})
            continue
        if msg[0] == "error":
            errors.append(msg[1])
            continue
        for k, v in msg[1].items():
            counters[k] = counters.get(k, 0) + v
        sigs |= msg[2]
        samples.extend(msg[3][:1])
        violations.extend(msg[4])

    known = KNOWN
    fresh = [v for v in violations if v["key"] not in known]
    hit = sorted(k for k in known if counters.get("known:" + k))
    unreached = [r for r in mod.REQUIRED if not counters.get(r)] if only is None else []

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": counters.get("cases", 0) + len(violations),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4] or ["(no sample)"],
            "events": {k: counters[k] for k in sorted(counters) if k != "cases"},
            "required_monitors": list(mod.REQUIRED),
            "unreached_monitors": unreached,
            "workers": jobs,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 3),
        "violations": len(fresh),
    }
    ev_dir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    if only is None:
        with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")

    for key in hit:
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    if fresh:
        fresh.sort(key=lambda v: v["index"])
        replay = os.path.join(ev_dir, f"replay-{prop}.json")
        with open(replay, "w") as f:
            json.dump(fresh, f, indent=1, default=str)
            f.write("\n")
        print(f"{prop}: {fresh[0]['what']}"[:1500])
        print(f"replay with: python3 {VERIF}/check.py {prop} --replay {replay}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        print(f"{prop}: harness could not run:\n{errors[0]}")
        return 2
    if unreached:
        print(f"{prop}: inconclusive, monitors never reached: {unreached}")
        return 2
    print(f"{prop}: held on {evidence['coverage']['evaluations']} cases "
          f"({len(sigs)} distinct), {counters.get('oracle_evaluations', 0)} oracle evaluations, "
          f"{evidence['wall_s']} s")
    return 0
