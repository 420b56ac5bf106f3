"""Small property-based-testing framework shared by all checks.

A *check* is a function ``body(case, ctx)`` decorated with ``@check(property, strategy, ...)``.
``case`` is always plain JSON data drawn by a hypothesis strategy, so a failing case can be
written to a replay file and run again on its own.  A violation is any exception out of the
body that is not one of hypothesis' control-flow exceptions: either ``Violation`` (an oracle
said no) or an exception the code under test raised on an input on which it must not raise.
"""
from __future__ import annotations

import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

from . import deps  # noqa: F401

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import seed as hseed
from hypothesis import strategies as st  # noqa: F401
from hypothesis.errors import UnsatisfiedAssumption
from hypothesis.internal.conjecture.engine import ConjectureRunner

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(AssertionError):
    pass


class HarnessError(RuntimeError):
    """The check itself cannot run (never a verdict about the code)."""


class CaseTimeout(Exception):
    pass


class _StopShrink(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


class Check:
    def __init__(self, prop, name, strategy, body, quick, thorough, timeout, rule, shards, tshards):
        self.prop, self.name, self.strategy, self.body = prop, name, strategy, body
        self.quick, self.thorough, self.timeout = quick, thorough, timeout
        self.rule, self.shards, self.tshards = rule, shards, tshards


class Probe:
    def __init__(self, prop, key, text, fn):
        self.prop, self.key, self.text, self.fn = prop, key, text, fn


CHECKS: list[Check] = []
PROBES: list[Probe] = []


def check(prop, strategy, *, quick=100, thorough=None, timeout=120, rule=None, shards=1, tshards=6, name=None):
    def deco(fn):
        nm = name or fn.__name__
        CHECKS.append(Check(prop, nm, strategy, fn, quick, thorough or quick * 15, timeout,
                            rule or (fn.__doc__ or "").strip(), shards, tshards))
        return fn
    return deco


def probe(prop, key, text):
    """A known finding: fn() returns True while the specific failing input still fails."""
    def deco(fn):
        PROBES.append(Probe(prop, key, text, fn))
        return fn
    return deco


def canon(obj) -> str:
    return json.dumps(obj, sort_keys=True, default=repr)


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self._n = 0
        self.reset()

    def reset(self):
        self.nontriv = False
        self.labels = set()
        self._dirs = []

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def label(self, name):
        self.labels.add(str(name))

    def tmp(self):
        self._n += 1
        d = os.path.join(self.scratch, "c%d" % self._n)
        os.makedirs(d)
        self._dirs.append(d)
        return d

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


def _alarm(signum, frame):
    raise CaseTimeout("the case did not finish in time")


def run_body(chk: Check, case, ctx: Ctx):
    ctx.reset()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(chk.timeout))
    try:
        chk.body(case, ctx)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        ctx.close()


def run_shard(chk: Check, tier: str, seed: int, shard: int, n: int, soft_s: float, scratch: str) -> dict:
    """Run one shard of one check; returns a JSON-able result."""
    ctx = Ctx(scratch)
    state = {"evals": 0, "seen": set(), "nontriv": set(), "labels": {}, "samples": [], "skipped": 0,
             "discards": 0}
    failing: list[tuple[int, str, str, str]] = []
    t0 = time.time()
    first_fail = [None]
    shrink_s = 45 if tier == "quick" else 180

    @hseed((seed * 1000003 + zlib.crc32(("%s.%s" % (chk.prop, chk.name)).encode()) + 7919 * shard) % (2**63))
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
              report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck), backend="hypothesis")
    @given(chk.strategy)
    def inner(case):
        now = time.time()
        if first_fail[0] is None and now - t0 > soft_s:
            state["skipped"] += 1
            return
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            raise _StopShrink()
        try:
            run_body(chk, case, ctx)
        except UnsatisfiedAssumption:
            state["discards"] += 1
            raise
        except (HarnessError, hypothesis.errors.HypothesisException, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            if first_fail[0] is None:
                first_fail[0] = time.time()
            c = canon(case)
            failing.append((len(c), c, "%s: %s" % (type(e).__name__, str(e)[:1500]),
                            "".join(traceback.format_exception(e))[-6000:]))
            raise
        state["evals"] += 1
        h = hashlib.blake2b(canon(case).encode(), digest_size=12).digest()
        state["seen"].add(h)
        for l in ctx.labels:
            state["labels"][l] = state["labels"].get(l, 0) + 1
        if ctx.nontriv:
            if h not in state["nontriv"] and len(state["samples"]) < 3:
                state["samples"].append(json.loads(canon(case)))
            state["nontriv"].add(h)

    # hypothesis follows a fresh case with up to five variants that repeat parts of it; a small budget is
    # better spent on fresh cases only, a larger one on a mixture
    keep = ConjectureRunner.generate_mutations_from
    fresh = [0]

    def mutate(self, data):
        fresh[0] += 1
        if n > 200 and fresh[0] % 4 == 0:
            keep(self, data)

    ConjectureRunner.generate_mutations_from = mutate
    err = None
    try:
        inner()
    except _StopShrink:
        pass
    except HarnessError as e:
        err = "HarnessError: %s" % e
    except hypothesis.errors.HypothesisException as e:
        if not failing:
            err = "".join(traceback.format_exception(e))[-4000:]
    except BaseExceptionGroup as e:
        if not failing:
            err = "".join(traceback.format_exception(e))[-4000:]
    except Exception as e:  # noqa: BLE001
        if not failing:
            err = "".join(traceback.format_exception(e))[-4000:]
    finally:
        ConjectureRunner.generate_mutations_from = keep
    out = {"check": chk.name, "shard": shard, "evals": state["evals"], "distinct": len(state["seen"]),
           "nontriv": [h.hex() for h in state["nontriv"]], "labels": state["labels"],
           "samples": state["samples"], "skipped": state["skipped"], "discards": state["discards"],
           "wall": time.time() - t0, "error": err, "failure": None}
    if failing:
        best = min(failing, key=lambda f: f[0])
        out["failure"] = {"case": json.loads(best[1]), "message": best[2], "trace": best[3]}
    return out
