"""Small framework around Hypothesis used by every check in /verif/checks.

A check module (checks/<id>.py) registers *parts*.  A part is a generator of
plain-JSON cases plus an oracle `fn(case, ctx)` that raises `Violation` when the
code under test breaks the property on that case.  Because a case is plain JSON
the shrunk failing case is the replay file, and replaying bypasses Hypothesis.
"""
import json
import hashlib
import os
import traceback

import numpy as np
from hypothesis import strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PKG = os.environ.get('VP_REPO', '/repo') + '/wake_t/'


class Violation(Exception):
    """The code under test broke the property."""


class Part:
    def __init__(self, name, strategy, fn, quick, thorough, rule, env=None,
                 weight=1, max_s=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.env = env or {}
        self.weight = weight
        self.max_s = max_s


class Ctx:
    """Per-part bookkeeping: what the generator actually produced."""

    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.seen = set()
        self.samples = []
        self.skipped = 0
        self._nt = False
        self._case_labels = []

    def start(self):
        self._nt = False
        self._case_labels = []

    def label(self, *names):
        for n in names:
            self._case_labels.append(str(n))

    def nontrivial(self, flag=True):
        self._nt = self._nt or bool(flag)

    def done(self, case):
        self.evaluations += 1
        for n in self._case_labels:
            self.labels[n] = self.labels.get(n, 0) + 1
        if self._nt:
            s = json.dumps(case, sort_keys=True)
            h = hashlib.sha1(s.encode()).hexdigest()
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 2 and len(s) < 3000:
                    self.samples.append(case)


class Registry:
    def __init__(self):
        self.parts = []

    def part(self, name, strategy, quick, thorough, rule, **kw):
        def deco(fn):
            self.parts.append(
                Part(name, strategy, fn, quick, thorough, rule, **kw))
            return fn
        return deco


# ---------------------------------------------------------------- oracles

def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def poison(byte=0x5A):
    """Fill the small blocks which numpy hands out next: arrays which the code
    under test does not initialise then hold `byte` (see also run.sh)."""
    for n in range(8, 1024, 8):
        k = [np.empty(n, np.uint8) for _ in range(8)]
        for a in k:
            a.fill(byte)


def close(actual, expected, rtol, atol, what, scale=None):
    """Compare arrays; tolerance is atol + rtol*max(|expected|, scale)."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f'{what}: shape {a.shape}, expected {e.shape}')
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        raise Violation(f'{what}: non-finite values {a.ravel()[:8]}')
    s = np.max(np.abs(e)) if scale is None else scale
    tol = atol + rtol * s
    err = np.abs(a - e)
    if np.any(err > tol):
        i = np.unravel_index(np.argmax(err), err.shape) if a.ndim else ()
        raise Violation(
            f'{what}: got {a[i]!r}, expected {e[i]!r} at index '
            f'{tuple(int(k) for k in i)} (max error {err.max():.3e} > '
            f'tolerance {np.max(tol):.3e})')


def same(actual, expected, what):
    """Exact equality of arrays or scalars."""
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape or not np.array_equal(a, e):
        if a.shape == e.shape and a.size > 1:
            i = np.nonzero(np.ravel(a != e))[0]
            raise Violation(
                f'{what}: {len(i)} of {a.size} values differ, first at '
                f'{int(i[0])}: got {np.ravel(a)[i[0]]!r}, expected exactly '
                f'{np.ravel(e)[i[0]]!r}')
        raise Violation(f'{what}: got {str(a)[:300]}, expected exactly '
                        f'{str(e)[:300]}')


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    raise Violation(f'{what}: no error was raised')


# ------------------------------------------------------------- generators

def fl(lo, hi, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False, **kw)


def logfl(lo, hi):
    """Log-uniform-ish floats."""
    return st.floats(np.log10(lo), np.log10(hi)).map(lambda e: float(10**e))


seeds = st.integers(0, 2**32 - 1)


def rng(seed):
    """Deterministic expansion of a generated integer into bulk data."""
    return np.random.RandomState(seed % 2**32)


def lists(el, min_size=0, max_size=8, **kw):
    """Lists of uniformly distributed length (those of Hypothesis are mostly
    short)."""
    if kw or min_size == max_size:
        return st.lists(el, min_size=min_size, max_size=max_size, **kw)
    return st.integers(min_size, max_size).flatmap(
        lambda n: st.lists(el, min_size=n, max_size=n))


def sizes(lo, hi, big, every=10):
    """Sizes from lo to hi, now and then up to `big`."""
    return st.integers(0, every).flatmap(
        lambda k: st.integers(lo, hi if k < every else big))


def d(**kw):
    return st.fixed_dictionaries(kw)


def in_repo(exc):
    """True if the traceback of `exc` passes through the code under test."""
    for f in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(f.filename).startswith(REPO_PKG):
            return True
    return False
