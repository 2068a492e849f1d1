"""Shared property-based-testing harness (Hypothesis driven).

A property module (props/pNN.py) exposes SUBS: a list of Sub objects.  Every Sub has
  strategy()  -> a Hypothesis strategy producing a *plain data* case (JSON-serialisable), and
  check(case) -> truthy if the case was non-trivial; raises Violation when the property is broken.
Because cases are plain data, the shrunk failing case *is* the replay file.
"""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'vendor'))

import numpy as np  # noqa: E402
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase  # noqa: E402

CASE_TIMEOUT = 200
FAST = bool(os.environ.get('VERIF_FAST'))  # no shrinking; only set by tools/automut.py
REPO = os.environ.get('COAX_REPO', '/repo')


class Violation(AssertionError):
    """The property is broken on this case."""
    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class HarnessError(Exception):
    """The check itself failed; never reported as a violation."""


class Reject(Exception):
    """The case is outside the stated domain (counted, not judged)."""


class _StopShrink(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=4000, budget=40, setup=None, split=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.budget = quick, thorough, budget
        self.setup = setup
        self.split = split or [{}]  # strata: fixed parts of the case, each of which gets its share of the cases


def strata(**lists):
    """one stratum per combination of the given values"""
    import itertools
    return [dict(zip(lists, v)) for v in itertools.product(*lists.values())]


# ------------------------------------------------------------------------------------------------
# comparison helpers: they raise nothing but Violation
# ------------------------------------------------------------------------------------------------

def fail(msg, tag=None):
    raise Violation(msg, tag)


def require(cond, msg, tag=None):
    if not cond:
        raise Violation(msg, tag)


def _arr(x, what):
    try:
        a = np.asarray(x)
        if a.dtype == object:
            raise ValueError('object dtype')
        return a
    except Exception as e:
        raise Violation(f'{what}: not array-like: {x!r} ({e})')


def close(actual, expected, what, rtol=1e-4, atol=1e-5, shape=True):
    a, b = _arr(actual, what), np.asarray(expected)
    if shape and a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} != expected {b.shape}; got {short(a)} expected {short(b)}')
    try:
        ok = np.allclose(a.astype('float64'), b.astype('float64'), rtol=rtol, atol=atol, equal_nan=True)
    except Exception as e:
        raise Violation(f'{what}: incomparable: {short(a)} vs {short(b)} ({e})')
    if not ok:
        raise Violation(f'{what}: got {short(a)} expected {short(b)}')


def equal(actual, expected, what, shape=True):
    a, b = _arr(actual, what), np.asarray(expected)
    if shape and a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} != expected {b.shape}; got {short(a)} expected {short(b)}')
    if not np.array_equal(a, b):
        raise Violation(f'{what}: got {short(a)} expected {short(b)}')


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f'{what}: expected {exc}, got {type(e).__name__}: {e}')
    raise Violation(f'{what}: expected {exc} to be raised, got result {short(r)}')


def short(x, n=300):
    try:
        with np.printoptions(precision=7, threshold=50):
            s = repr(x)
    except Exception:
        s = '<unprintable>'
    return s if len(s) <= n else s[:n] + '...'


def tree_equal(a, b, what):
    import jax
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
        raise Violation(f'{what}: tree structure {ta} != {tb}')
    for x, y in zip(la, lb):
        equal(x, y, what)


def tree_close(a, b, what, **kw):
    import jax
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
        raise Violation(f'{what}: tree structure {ta} != {tb}')
    for x, y in zip(la, lb):
        close(x, y, what, **kw)


def plain(t):
    """nested mappings as plain dicts"""
    from collections.abc import Mapping
    return {k: plain(v) for k, v in t.items()} if isinstance(t, Mapping) else t


def tree_snapshot(t):
    """deep numpy copy of all leaves"""
    import jax
    return jax.tree_util.tree_map(lambda x: np.array(x, copy=True), t)


def chi2_ok(counts, probs, what, z=9.0):
    """Every observed count lies within z sigma (binomial) of its expectation, zero-prob cells empty.

    z = 9 keeps the false-alarm probability per cell far below 1e-15 in the Gaussian regime; a
    Poisson-style slack covers the small-count regime.
    """
    counts = np.asarray(counts, 'float64')
    probs = np.asarray(probs, 'float64')
    n = counts.sum()
    for i, (c, p) in enumerate(zip(counts, probs)):
        if p <= 0:
            if c > 0:
                raise Violation(f'{what}: outcome {i} has probability 0 but occurred {c:.0f} times')
            continue
        sd = math.sqrt(max(n * p * (1 - p), 0))
        slack = z * sd + 25.
        if abs(c - n * p) > slack:
            raise Violation(
                f'{what}: outcome {i} occurred {c:.0f}/{n:.0f} times, expected {n * p:.1f} +- {slack:.1f}; '
                f'counts={counts.tolist()} probs={probs.tolist()}')


# ------------------------------------------------------------------------------------------------
# execution
# ------------------------------------------------------------------------------------------------

_ENVIRONMENT_ERRORS = (MemoryError, OSError, ImportError, HarnessError)


def execute(sub, case):
    """Run the oracle on one case.  Returns (judged, nontrivial)."""
    def hang(signum, frame):
        raise Violation(f'no result after {CASE_TIMEOUT} s (every case normally takes a few seconds at most)')
    signal.signal(signal.SIGALRM, hang)
    signal.alarm(CASE_TIMEOUT)
    try:
        return True, bool(sub.check(case))
    except Violation:
        raise
    except Reject:
        return False, False
    except _ENVIRONMENT_ERRORS as e:
        if isinstance(e, OSError) and _from_coax(e):
            raise Violation(f'unexpected {type(e).__name__} from coax: {e}\n{_tb(e)}')
        raise
    except Exception as e:
        # On the generated (valid) inputs the code under test must neither raise nor hand back
        # something that the oracle cannot read.
        origin = 'coax' if _from_coax(e) else 'reading the result of coax'
        raise Violation(f'unexpected {type(e).__name__} while {origin}: {str(e)[:500]}\n{_tb(e)}')
    finally:
        signal.alarm(0)


def _from_coax(e):
    prefix = os.path.join(REPO, 'coax') + os.sep
    return any(f.filename.startswith(prefix) for f in traceback.extract_tb(e.__traceback__))


def _tb(e):
    frames = traceback.extract_tb(e.__traceback__)
    keep = [f for f in frames if f.filename.startswith((REPO, VERIF))][-6:]
    return ''.join(f'    at {f.filename}:{f.lineno} in {f.name}\n' for f in keep)


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(f'case is not plain data: {type(o)}')


def run_sub(pid, sub, tier, seed, known=()):
    """Explore one Sub; returns a plain-data result dict."""
    t0 = time.time()
    budget = sub.budget if tier == 'quick' else sub.budget * float(os.environ.get('VERIF_DEEP', 8))
    target = sub.quick if tier == 'quick' else sub.thorough
    deadline = t0 + budget
    res = dict(sub=sub.name, generated=0, judged=0, rejected=0, skipped=0, nontrivial=0,
               distinct_nontrivial=0, samples=[], known=[], violation=None, wall_s=0.)
    seen = set()
    state = dict(best=None, first_fail=None)
    if sub.setup:
        sub.setup()

    def body(case):
        now = time.time()
        if state['best'] is None and now > deadline:
            res['skipped'] += 1
            return
        if state['best'] is not None and now - state['first_fail'] > 60:
            raise _StopShrink()
        text = dumps(case)
        case = json.loads(text)  # the oracle only ever sees what the replay file can hold
        counting = state['best'] is None
        if counting:
            res['generated'] += 1
        try:
            judged, nontrivial = execute(sub, case)
        except Violation as e:
            if e.tag is not None and (sub.name, e.tag) in known:
                if e.tag not in res['known']:
                    res['known'].append(e.tag)
                return
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            if state['best'] is None or len(text) <= len(state['best'][0]):
                state['best'] = (text, str(e))
            raise
        if not counting:
            return
        if not judged:
            res['rejected'] += 1
            return
        res['judged'] += 1
        if nontrivial:
            res['nontrivial'] += 1
            h = hashlib.sha1(text.encode()).digest()[:10]
            if h not in seen:
                seen.add(h)
                if len(res['samples']) < 3 or (len(res['samples']) < 5 and len(seen) % 50 == 0):
                    res['samples'].append({'sub': sub.name, 'case': case if len(text) < 1500 else text[:1500] + '...'})

    def search(part, n, key):
        strategy = sub.strategy()
        if part:
            strategy = strategy.map(lambda c: dict(c, **part))
        test = settings(
            max_examples=n, database=None, deadline=None,
            derandomize=False, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
        )(given(strategy)(body))
        test = hseed(zlib.crc32(f'{seed}/{pid}/{sub.name}/{key}'.encode()))(test)
        try:
            test()
        except _StopShrink:
            pass
        except Violation:
            pass
        except Exception as e:
            if state['best'] is None:
                raise HarnessError(f'{pid}/{sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}')

    rounds = 0
    k = len(sub.split)
    strata = [sub.split[(i + seed) % k] for i in range(k)] if k > 1 else sub.split
    while res['generated'] < target and time.time() < deadline and state['best'] is None:
        # the first pass makes sure that every stratum is visited
        left = target - res['generated']
        n = min(500, left) if k == 1 else 4 if rounds == 0 else min(max(500 // k, 4), max(4, -(-left // k)))
        before = res['generated']
        for i, part in enumerate(strata):
            if time.time() < deadline and state['best'] is None:
                search(part, n, f'{rounds}/{i}' if k > 1 else rounds)
        rounds += 1
        if res['generated'] - before < 1 or (rounds > 1 and res['generated'] - before < 5):
            break  # the space is exhausted
    if state['best'] is not None:
        text, msg = state['best']
        res['violation'] = dict(case=json.loads(text), message=msg)
    res['distinct_nontrivial'] = len(seen)
    res['wall_s'] = round(time.time() - t0, 2)
    return res
