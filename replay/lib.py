"""Run-time contract harness: executes the real code under CPython against the same contracts.

Run with the repository's own interpreter:  python run.py C05 --seed 1 --budget 20 [--replay FILE]
It cross-checks the verifier's reading of the code, looks for a failing input when an obligation is not
discharged, and stands in (bounded) for functions outside the verified subset.
"""
import ast
import math
import os
import random
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'agg')
import warnings
warnings.filterwarnings('ignore')
import numpy as np

CASES = []


class Violation(AssertionError):
    pass


class Skip(Exception):
    pass


def case(*files, weight=1, every=1):
    """A contract case; files: repository files whose constants are used as interesting input sizes."""
    def deco(f):
        f.files, f.weight, f.every = files, weight, every
        CASES.append(f)
        return f
    return deco


def check(cond, msg, *info):
    if not cond:
        raise Violation(msg + (': ' + ', '.join(repr(x)[:400] for x in info) if info else ''))


def raises(exc, f, *a, **kw):
    try:
        f(*a, **kw)
    except exc:
        return True
    except Exception as e:
        raise Violation(f"expected {exc}, got {type(e).__name__}: {e}")
    raise Violation(f"expected {exc}, nothing was raised")


_harvest_cache = {}


def harvest(files):
    """integer and float literals in the given source files"""
    key = tuple(files)
    if key in _harvest_cache:
        return _harvest_cache[key]
    ints, floats = set(), set()
    for f in files:
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        text = open(p, encoding='utf-8').read()
        try:
            t = ast.parse(text)
        except SyntaxError:
            continue
        if 'int8' in text:                      # narrow machine integers: sizes where they run out
            ints |= {127, 128, 255, 256}
        for n in ast.walk(t):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int) and 0 <= n.value <= 100000:
                    ints.add(n.value)
                elif isinstance(n.value, float) and math.isfinite(n.value):
                    floats.add(n.value)
    _harvest_cache[key] = (sorted(ints), sorted(floats))
    return _harvest_cache[key]


class Rng(random.Random):
    """Source of inputs for one case; sizes are drawn small most of the time, else near literals of the code."""

    def __init__(self, seed, files=()):
        super().__init__(seed)
        self.ints, self.floats = harvest(files)
        self.notes = {}

    def size(self, lo, hi, cap=400):
        """an int >= lo; mostly in [lo, hi], sometimes next to a literal of the source (up to cap)"""
        r = self.random()
        if r < 0.22 and self.ints:
            v = self.choice(self.ints) + self.choice((-1, 0, 0, 1, 1))
            if lo <= v <= cap:
                return v
        if r < 0.26:
            return self.randint(lo, max(lo, min(cap, hi * 8)))
        return self.randint(lo, hi)

    def integer(self, lo, hi):
        """any int in [lo, hi], preferring the ends, zero and literals"""
        r = self.random()
        if r < 0.15:
            return self.choice((lo, hi))
        if r < 0.3 and self.ints:
            v = self.choice(self.ints) * self.choice((1, 1, -1)) + self.choice((-1, 0, 0, 1))
            if lo <= v <= hi:
                return v
        return self.randint(lo, hi)

    def real(self, lo=-10.0, hi=10.0):
        r = self.random()
        if r < 0.12:
            return float(self.choice((lo, hi, 0.0 if lo <= 0 <= hi else lo)))
        if r < 0.25:
            v = float(self.choice(list(self.floats) + [float(i) for i in self.ints] + [0.0])) * self.choice((1, 1, -1))
            if lo <= v <= hi:
                return v
        if r < 0.35:
            return float(self.randint(math.ceil(lo), math.floor(hi))) if math.floor(hi) >= math.ceil(lo) else self.uniform(lo, hi)
        return self.uniform(lo, hi)

    def prob(self):
        return self.choice((0.0, 1.0, 0.5, self.random(), self.random()))

    def flag(self, p=0.5):
        return self.random() < p

    def note(self, **kw):
        self.notes.update(kw)


def same(a, b):
    """identity-insensitive deep equality (arrays included, NaN equal to NaN)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y) for x, y in zip(a, b))
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def ids(xs):
    return [id(x) for x in xs]


def is_nan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def omit(R, kw, **defaults):
    """leave out, sometimes, the arguments that have their documented default anyway"""
    for k, v in defaults.items():
        if kw[k] is v or (type(kw[k]) is type(v) and kw[k] == v):
            if R.flag():
                del kw[k]
    return kw
