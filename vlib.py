"""Core of the property-based checks: registry of sub-checks, Hypothesis driver,
violation/harness-error classification, evidence bookkeeping.

A *property* (C01, C02, ...) is a module in checks/ that registers *sub-checks*.
A sub-check is (strategy -> JSON-able case) + body(case, ev).  The body calls the
code under test and judges what it returns against an oracle; it raises Violation
when the property is broken.  Every random choice lives in the case, so a case
replays on its own without Hypothesis.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)          # last: numpy & co come from /opt/venv

import numpy as np                                        # noqa: E402
import hypothesis                                         # noqa: E402
from hypothesis import strategies as st                   # noqa: E402
from hypothesis import HealthCheck, Phase, settings       # noqa: E402

HANG_CPU_S = 150        # CPU seconds one case may burn before it counts as a hang
SHRINK_BUDGET_S = 60    # wall seconds spent on shrinking once a failure is found


class Violation(Exception):
    """The property is broken on this case."""


class Hang(Exception):
    pass


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, shards, rule,
                 examples):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.rule = rule
        self.examples = examples


class Prop:
    def __init__(self, pid):
        self.pid = pid
        self.subs = []

    def sub(self, strategy, quick=200, thorough=None, shards=1, rule="",
            examples=()):
        def deco(fn):
            self.subs.append(Sub(fn.__name__, strategy, fn, quick,
                                 thorough or quick * 15, shards, rule,
                                 list(examples)))
            return fn
        return deco

    def get(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(name)


class Ev:
    """Evidence of one run of one sub-check."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_hashes = set()
        self.labels = {}
        self.samples = []
        self._nt = False
        self._recording = True

    def start(self):
        self._nt = False
        self._lab = set()

    def label(self, name, cond=True):
        if cond:
            self._lab.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def finish(self, case):
        self.evaluations += 1
        for name in self._lab:
            self.labels[name] = self.labels.get(name, 0) + 1
        if self._nt:
            txt = json.dumps(case, sort_keys=True)
            h = hashlib.sha1(txt.encode()).hexdigest()
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                n = len(self.nontrivial_hashes)
                if n in (1, 10, 50) and len(txt) < 3000:
                    self.samples.append(case)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _on_prof(signum, frame):
    raise Hang("one case used more than %d CPU seconds" % HANG_CPU_S)


def run_case(sub, case, ev):
    """Run one case. Returns None, or the text of the violation."""
    ev.start()
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.body(case, ev)
    except Violation as e:
        return str(e)
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except Hang as e:
        return "does not terminate: %s" % e
    except OSError as e:
        if getattr(e, "errno", None) in (28, 24, 12, 122):   # no space / fds
            raise
        return "unexpected exception:\n" + traceback.format_exc(limit=-8)
    except Exception:
        # Deterministic inputs, and the body is quiet on the reference tree:
        # an exception here comes from what the code under test did or returned.
        return "unexpected exception:\n" + traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            ev.finish(case)
        except AttributeError:
            pass
    return None


def run_sub(sub, seed, n, shard=0):
    """Drive one sub-check. Returns a result dict."""
    ev = Ev()
    t0 = time.time()
    failing = {}
    order = []
    state = {"first": None, "t_fail": None}
    out = {"sub": sub.name, "shard": shard, "violation": None}

    def evaluate(case):
        h = case_hash(case)
        if h in failing:
            return failing[h]
        if (state["t_fail"] is not None
                and time.time() - state["t_fail"] > SHRINK_BUDGET_S):
            return None
        msg = run_case(sub, case, ev)
        if msg is not None:
            failing[h] = msg
            order.append(case)
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
                state["first"] = case
        return msg

    if shard < sub.shards:
        # the explicit cases are dealt out to the shards
        for case in sub.examples[shard::max(1, sub.shards)]:
            case = json.loads(json.dumps(case))
            msg = evaluate(case)
            if msg is not None:
                out["violation"] = {"case": case, "message": msg,
                                    "source": "saved example"}
                break
    if out["violation"] is None and n > 0:
        hseed = zlib.crc32(("%s/%d/%d" % (sub.name, seed, shard)).encode())
        last = {}

        @hypothesis.seed(hseed)
        @settings(max_examples=n, deadline=None, database=None,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False)
        @hypothesis.given(sub.strategy)
        def driver(case):
            case = json.loads(json.dumps(case))
            msg = evaluate(case)
            if msg is not None:
                last["case"], last["msg"] = case, msg
                raise Violation(msg)

        try:
            driver()
        except Violation:
            out["violation"] = {"case": last["case"], "message": last["msg"],
                                "source": "generated, shrunk"}
        except hypothesis.errors.Flaky:
            c = state["first"]
            out["violation"] = {
                "case": c, "message": failing[case_hash(c)],
                "source": "generated; depends on earlier calls"}
    out.update(evaluations=ev.evaluations,
               nontrivial=sorted(ev.nontrivial_hashes),
               labels=ev.labels, samples=ev.samples,
               wall_s=round(time.time() - t0, 2))
    if out["violation"]:
        # does it reproduce on its own, in a clean evaluation?
        again = run_case(sub, out["violation"]["case"], Ev())
        out["violation"]["reproduces_alone"] = again is not None
        out["violation"]["first_case"] = state["first"]
    return out


# ---------------------------------------------------------------- strategies

def q(lo, hi, step=0.01):
    """Floats on a grid: good spread, readable, shrinks well."""
    n = int(round((hi - lo) / step))
    return st.integers(0, n).map(lambda k: round(lo + k * step, 10))


def logq(lo, hi, n=400):
    a, b = np.log10(lo), np.log10(hi)
    return st.integers(0, n).map(lambda k: float(10 ** (a + (b - a) * k / n)))


seeds = st.integers(0, 2 ** 32 - 1)


def fixed(**kw):
    return st.fixed_dictionaries(kw)


# ---------------------------------------------------------------- oracles' help

def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def arr(x, shape=None, what="result", kinds="fiub", finite=True):
    """x as a numeric array of the right shape, or a Violation."""
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation("%s is not an array: %s" % (what, e))
    need(a.dtype.kind in kinds, "%s has dtype %s", what, a.dtype)
    if shape is not None:
        need(tuple(a.shape) == tuple(shape), "%s has shape %s, expected %s",
             what, a.shape, tuple(shape))
    if finite and a.dtype.kind == "f":
        need(bool(np.all(np.isfinite(a))), "%s holds non-finite values", what)
    return a


def close(got, want, atol, what="result", rtol=0.0, mask=None):
    got = arr(got, np.shape(want), what)
    d = np.abs(np.float64(got) - np.float64(want))
    lim = atol + rtol * np.abs(np.float64(want))
    bad = d > lim
    if mask is not None:
        bad = bad & mask
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(bad, d, -1)), d.shape)
        raise Violation("%s differs at %s: got %r, expected %r (tolerance %g; "
                        "%d of %d elements differ)"
                        % (what, tuple(int(k) for k in i), float(got[i]),
                           float(np.asarray(want)[i]), float(np.asarray(
                               np.broadcast_to(lim, d.shape))[i]),
                           int(np.sum(bad)), d.size))


def raises(exc, fn, *args, **kw):
    what = kw.pop("what", getattr(fn, "__name__", "call"))
    try:
        r = fn(*args, **kw)
    except exc:
        return
    except Hang:
        raise
    except Exception as e:
        raise Violation("%s raised %s (%s) instead of %s" % (
            what, type(e).__name__, e, exc))
    raise Violation("%s accepted invalid input and returned %s" % (
        what, str(type(r))))


def rng(seed):
    return np.random.Generator(np.random.PCG64(seed))
