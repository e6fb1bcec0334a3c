"""
Runner shared by all checks: Hypothesis drives the generators of one property, every case is
a JSON value, the check is a plain function of that value, and a shrunk failing case becomes
the replay file.
"""
import contextlib
import hashlib
import importlib
import inspect
import io
import json
import math
import os
import pkgutil
import signal
import sys
import time
import traceback
import warnings
from copy import deepcopy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

warnings.simplefilter("ignore")


def _find_hypothesis():
    deps = os.path.join(HERE, ".deps")
    if os.path.isdir(deps):
        sys.path.append(deps)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # numpy and friends still come from /opt/venv, which is earlier on the path
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import hypothesis  # noqa: F401


import numpy as np  # noqa: E402

_find_hypothesis()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings, strategies as st  # noqa: E402,F401

np.seterr(all="ignore")


def _independent_cases():
    """Hypothesis follows every case with near copies of it; cases here are costly, so draw each anew"""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        if hasattr(ConjectureRunner, "generate_mutations_from"):
            ConjectureRunner.generate_mutations_from = lambda self, data: None
    except ImportError:
        pass


_independent_cases()


class Violation(Exception):
    """The property is broken on this case"""


class HarnessError(Exception):
    """The check itself could not be carried out"""


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------------------- library state

_PRISTINE = []


def _remember_shared_state():
    """
    Objects that live in default arguments of the library (random draw caches, mostly) outlive a
    case.  Remember what they look like right after import so every case can start from there.
    """
    import bartpy
    if not os.path.realpath(bartpy.__file__).startswith(REPO + "/"):
        raise HarnessError("bartpy imported from {}".format(bartpy.__file__))
    seen = set()

    def remember(obj):
        if id(obj) in seen or not type(obj).__module__.startswith("bartpy"):
            return
        if not hasattr(obj, "__dict__"):
            return
        seen.add(id(obj))
        for value in list(vars(obj).values()):
            remember(value)
        _PRISTINE.append((obj, dict(vars(obj)),
                          {k: deepcopy(v) for k, v in vars(obj).items() if isinstance(v, (list, dict, set))}))

    def visit_function(f):
        for default in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
            remember(default)

    for info in pkgutil.walk_packages(bartpy.__path__, "bartpy."):
        try:
            module = importlib.import_module(info.name)
        except Exception:
            continue  # reported by the checks that need the module
        for value in list(vars(module).values()):
            if inspect.isfunction(value) and value.__module__.startswith("bartpy"):
                visit_function(value)
            elif inspect.isclass(value) and value.__module__.startswith("bartpy"):
                for member in list(vars(value).values()):
                    f = getattr(member, "__func__", member)
                    if inspect.isfunction(f):
                        visit_function(f)
                    else:
                        remember(member)
            else:
                remember(value)


def fresh(seed=0):
    """Start of a case: library state as after import, numpy's generator seeded"""
    for obj, attributes, containers in _PRISTINE:
        obj.__dict__.clear()
        obj.__dict__.update(attributes)
        for key, value in containers.items():
            obj.__dict__[key] = deepcopy(value)
    np.random.seed(int(seed) % (2 ** 32))


@contextlib.contextmanager
def quiet():
    """The library prints and draws progress bars"""
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


# --------------------------------------------------------------------------- comparing

def need(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


def short(x, limit=300):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + "..."


def as_float_array(x, what):
    try:
        a = np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation("{}: expected numbers, found {} ({})".format(what, short(x), e))
    return a


def close(actual, expected, what, rtol=1e-7, atol=1e-9):
    a, b = as_float_array(actual, what), np.asarray(expected, dtype=float)
    if a.shape != b.shape:
        raise Violation("{}: shape {} instead of {}".format(what, a.shape, b.shape))
    with np.errstate(all="ignore"):
        same = (a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= atol + rtol * np.abs(b))) | (np.isnan(a) & np.isnan(b))
    if not np.all(same):
        bad = np.argwhere(~np.atleast_1d(same))[:3].tolist()
        raise Violation("{}: {} instead of {} (first differences at {})".format(what, short(a), short(b), bad))


def same(actual, expected, what):
    try:
        ok = bool(actual == expected)
    except Exception as e:
        raise Violation("{}: cannot compare {} with {} ({})".format(what, short(actual), short(expected), e))
    if not ok:
        raise Violation("{}: {} instead of {}".format(what, short(actual), short(expected)))


# --------------------------------------------------------------------------- running

class Sub(object):
    """One generated check of a property"""

    def __init__(self, name, strategy, check, quick, thorough, rule, examples=(), timeout=150):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.examples, self.timeout = list(examples), timeout


def canonical(case):
    return json.dumps(case, sort_keys=True, default=_jsonable)


def _jsonable(x):
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    raise TypeError(type(x))


_SOFT = (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, ArithmeticError)


def execute(sub, case):
    """Run one case, turning whatever happens into: labels, Violation or HarnessError"""

    began, alarms = time.process_time(), []

    def on_alarm(signum, frame):
        alarms.append(1)
        if len(alarms) < 3 and time.process_time() - began < 0.8 * sub.timeout:  # a busy machine, or one that waits for nothing
            signal.setitimer(signal.ITIMER_REAL, sub.timeout)
            return
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.timeout)
    try:
        with quiet():
            labels = sub.check(json.loads(canonical(case)))
        return list(labels or [])
    except Violation:
        raise
    except (HarnessError, KeyboardInterrupt):
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except CaseTimeout:
        raise Violation("no result after {} s on an input that takes well under a second".format(sub.timeout))
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        where = [f for f in frames if f.filename.startswith(REPO + "/bartpy")]
        text = "".join(traceback.format_exception_only(type(e), e)).strip()
        if where:
            raise Violation("{} raised at {}:{} on valid input".format(text, os.path.relpath(where[-1].filename, REPO), where[-1].lineno))
        if isinstance(e, _SOFT) or (isinstance(e, AttributeError) and "NoneType" in str(e)):
            raise Violation("unusable result ({}, at {}:{})".format(text, frames[-1].filename, frames[-1].lineno))
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []


SHRINK_BUDGET_S = 45.


def run_sub(sub, tier, seed, stats, examples=()):
    """Returns None, or (case, message) of a shrunk violation"""
    failures = {}
    state = {"first_failure": None, "best": None}

    def one(case, counted=True):
        key = canonical(case)
        digest = hashlib.sha1(key.encode()).hexdigest()
        if digest in failures:
            raise Violation(failures[digest])
        if state["first_failure"] is not None and time.time() - state["first_failure"] > SHRINK_BUDGET_S:
            return
        try:
            labels = execute(sub, case)
        except Violation as e:
            if state["first_failure"] is None:
                state["first_failure"] = time.time()
                stats.evaluations += 1
            failures[digest] = str(e)
            if state["best"] is None or len(key) <= len(canonical(state["best"][0])):
                state["best"] = (case, str(e))
            raise
        if state["first_failure"] is None and counted:
            stats.evaluations += 1
            for label in labels:
                stats.labels[label] = stats.labels.get(label, 0) + 1
            if "nontrivial" in labels:
                if digest not in stats.nontrivial and len(stats.samples) < 2 and len(key) < 1500:
                    stats.samples.append({"check": sub.name, "case": json.loads(key)})
                stats.nontrivial.add(digest)

    for case in examples:
        try:
            one(case)
        except Violation:
            return state["best"]

    n = sub.quick if tier == "quick" else sub.thorough
    if n <= 0:
        return None

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None, print_blob=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
              report_multiple_bugs=False)
    @hypothesis.given(sub.strategy)
    def generated(case):
        one(case)

    try:
        with quiet():
            generated()
    except HarnessError:
        raise
    except Violation:
        return state["best"]
    except hypothesis.errors.HypothesisException as e:
        if state["best"] is not None:
            return state["best"]
        raise HarnessError("hypothesis: {!r}".format(e))
    except BaseException as e:  # ExceptionGroup of several violations, and the like
        if state["best"] is not None:
            return state["best"]
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__)))
    return None


def load(pid):
    return importlib.import_module("harness.props.{}".format(pid.lower()))


def write_json(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp{}".format(os.getpid())
    with open(tmp, "w") as f:
        json.dump(value, f, indent=1, sort_keys=True, default=_jsonable)
        f.write("\n")
    os.replace(tmp, path)


def shard(args):
    """Worker of a thorough run"""
    pid, index, tier, seed, first = args
    prop = load(pid)
    sub = prop.SUBS[index]
    stats = Stats()
    error = failure = None
    began = time.time()
    try:
        failure = run_sub(sub, tier, seed, stats, sub.examples if first else ())
    except HarnessError as e:
        error = str(e)
    if os.environ.get("VERIF_TIMES"):
        print("{} {}: {:.1f} s".format(pid, sub.name, time.time() - began))
    return index, stats, failure, error


def adopt_orphans():
    """Processes whose parent ends become this one's children (PR_SET_CHILD_SUBREAPER), so that none is out of reach"""
    try:
        import ctypes
        ctypes.CDLL(None, use_errno=True).prctl(36, 1, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def descendants():
    children = {}
    for entry in os.listdir("/proc"):
        if entry.isdigit():
            try:
                with open("/proc/{}/stat".format(entry)) as f:
                    state, parent = f.read().rsplit(")", 1)[1].split()[:2]
                if state != "Z":
                    children.setdefault(int(parent), []).append(int(entry))
            except (OSError, ValueError, IndexError):
                continue
    found, queue = [], [os.getpid()]
    while queue:
        below = children.get(queue.pop(), [])
        found += below
        queue += below
    return found


def end_descendants():
    """End the processes this one started, directly or not; nothing may hold on to its output once it is done"""
    for _ in range(50):
        found = descendants()
        if not found:
            return
        for pid in found:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.02)


def keep_quiet():
    """What a worker starts may outlive it: it must not hold on to the output of the check"""
    if not os.environ.get("VERIF_TIMES"):
        nowhere = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nowhere, 1)
        os.dup2(nowhere, 2)


def run_property(pid, tier, seed):
    started = time.time()
    try:
        _remember_shared_state()
        prop = load(pid)
        results = []
        import multiprocessing
        from concurrent.futures import ProcessPoolExecutor, as_completed
        shards = getattr(prop, "SHARDS", 8) if tier == "thorough" else getattr(prop, "QUICK_SHARDS", 8)
        shards = int(os.environ.get("VERIF_SHARDS") or shards)
        # the first shard of every check before the second of any
        jobs = [(pid, i, tier, seed * 7919 + i * 104729 + s * 1000003, s == 0) for s in range(shards) for i in range(len(prop.SUBS))]
        # not multiprocessing.Pool: its workers may not start processes of their own
        pool = ProcessPoolExecutor(getattr(prop, "WORKERS", 8), mp_context=multiprocessing.get_context("fork"), initializer=keep_quiet)
        adopt_orphans()
        # on a slow machine: what was explored by then
        limit = float(os.environ.get("VERIF_SECONDS") or (660. if tier == "quick" else 1e9))
        complete = True
        try:
            for done in as_completed([pool.submit(shard, job) for job in jobs], timeout=limit):
                results.append(done.result())
                if results[-1][2] is not None or results[-1][3] is not None:
                    break
            else:
                pool.shutdown(wait=True)
        except TimeoutError:
            complete = False
        finally:
            end_descendants()  # those still at work after a violation, and whatever they started
    except HarnessError as e:
        print("ERROR property={} {}".format(pid, e))
        return 2
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        broken = e.filename if isinstance(e, SyntaxError) else frames[-1].filename
        if str(broken).startswith(REPO + "/bartpy"):
            path = os.path.join(HERE, "replays", "{}-import.json".format(pid))
            write_json(path, {"property": pid, "check": "import", "case": None, "message": repr(e)})
            print("the library cannot be imported: {!r}".format(e))
            print("VIOLATION property={} replay={}".format(pid, path))
            return 1
        traceback.print_exc(file=sys.stdout)
        print("ERROR property={}".format(pid))
        return 2

    merged = {}
    violations = []
    for index, stats, failure, error in results:
        if error is not None:
            print("ERROR property={} {}".format(pid, error))
            return 2
        m = merged.setdefault(index, Stats())
        m.evaluations += stats.evaluations
        m.nontrivial |= stats.nontrivial
        for k, v in stats.labels.items():
            m.labels[k] = m.labels.get(k, 0) + v
        if len(m.samples) < 2:
            m.samples += stats.samples[:2 - len(m.samples)]
        if failure is not None:
            violations.append((prop.SUBS[index], failure))

    checks = []
    for index in sorted(merged):
        sub, m = prop.SUBS[index], merged[index]
        checks.append({"check": sub.name, "evaluations": m.evaluations, "distinct_nontrivial": len(m.nontrivial),
                       "rule": sub.rule, "labels": m.labels})
        print("{} {}: {} cases, {} distinct non-trivial".format(pid, sub.name, m.evaluations, len(m.nontrivial)))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(m.evaluations for m in merged.values()),
            "distinct_nontrivial": sum(len(m.nontrivial) for m in merged.values()),
            "rule": " | ".join("{}: {}".format(c["check"], c["rule"]) for c in checks),
            "samples": [s for index in sorted(merged) for s in merged[index].samples],
            "checks": checks,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - started, 3),
        "violations": len(violations),
    }
    if not complete:
        evidence["assumptions"] = evidence["assumptions"] + ["stopped after {:.0f} s with {} of {} parts done".format(limit, len(results), len(jobs))]
    write_json(os.path.join(HERE, "evidence", "{}.json".format(pid)), evidence)
    for sub, (case, message) in violations[:1]:
        path = os.path.join(HERE, "replays", "{}-{}.json".format(pid, sub.name))
        write_json(path, {"property": pid, "check": sub.name, "case": case, "message": message})
        print("{}".format(message))
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    return 0


def replay(pid, path):
    _remember_shared_state()
    with open(path) as f:
        recorded = json.load(f)
    if recorded["check"] == "import":
        load(pid)
        print("replay of {} passes".format(path))
        return 0
    prop = load(pid)
    sub = [s for s in prop.SUBS if s.name == recorded["check"]][0]
    try:
        execute(sub, recorded["case"])
    except Violation as e:
        print(e)
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    print("replay of {} passes".format(path))
    return 0
