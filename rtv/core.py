"""Building blocks shared by all checks."""
import json
import math


class Violation(Exception):
    """the code under test disagrees with the oracle"""


class Skip(Exception):
    """case is outside of the stated domain (counted as trivial)"""


def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Rec:
    """collects what a single case exercised"""

    def __init__(self):
        self.tags = set()

    def tag(self, *t):
        self.tags.update(t)


class Sub:
    """One generated check.

    strategy : callable returning a hypothesis-strategy of JSON-able cases
    fn       : fn(case, rec) raising `Violation`
    nontrivial : fn(case, rec) -> bool (a stated rule)
    """

    def __init__(self, name, strategy, fn, quick, thorough, nontrivial=None, shards=1,
                 tshards=None, excluded=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.nontrivial = nontrivial or (lambda case, rec: "nontrivial" in rec.tags)
        self.shards, self.tshards = shards, tshards or max(shards, 4)
        self.excluded = excluded


def key(case):
    return json.dumps(case, sort_keys=True, default=str)


def close(a, b, rtol=1e-8, atol=1e-12):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)) and np.all(np.isfinite(a)))


def fl(x):
    """plain-JSON float"""
    x = float(x)
    return x if math.isfinite(x) else repr(x)
