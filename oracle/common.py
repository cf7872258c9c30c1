"""Executable contracts on the real code: case generation and replay."""
import random
import pandas as pd

BASE = pd.Timestamp('2013-01-01')


class Invalid(Exception):
    """The case does not satisfy the precondition; skip it."""


class G(object):
    """Seeded generator; `hints` are literals that are new in the source."""

    def __init__(self, seed, hints=None):
        self.r = random.Random(seed)
        hints = hints or {}
        self.hnum = [x for x in hints.get('num', []) if abs(x) < 1e7]
        self.hstr = list(hints.get('str', []))

    def hint(self, p=0.12):
        """a number near a new literal, or None"""
        if self.hnum and self.r.random() < p:
            h = self.r.choice(self.hnum)
            return h + self.r.choice([0, 0, 0, 1, -1, 0.5, -0.5])
        return None

    def size(self, lo, hi, big=None):
        """list length: usually small, sometimes around a new literal"""
        if self.hnum and self.r.random() < 0.15:
            h = int(abs(self.r.choice(self.hnum))) + self.r.choice([-1, 0, 1, 2])
            if lo <= h <= 400:
                return h
        if big and self.r.random() < 0.05:
            return self.r.randint(lo, big)
        return self.r.randint(lo, hi)

    def sec(self, lo=0, hi=12):
        """seconds: small integers so that ties are common, some fractions"""
        h = self.hint()
        if h is not None:
            return h
        k = self.r.random()
        if k < 0.75:
            return self.r.randint(lo, hi)
        if k < 0.9:
            return self.r.randint(lo * 4, hi * 4) / 4.0
        if k < 0.95:
            return self.r.randint(lo, hi * 3600)
        return self.r.randint(lo, hi) + 1e-9 * self.r.randint(-3, 3)

    def tz(self):
        return self.r.choice([None, None, 'UTC', 'Europe/London', 'US/Eastern'])

    def flag(self, p=0.5):
        return self.r.random() < p

    def choice(self, l):
        return self.r.choice(l)


def secs(x):
    if isinstance(x, dict):
        x = x.get('t', x.get('td'))
    if x is None:
        return None
    if abs(x) > 4e8:
        raise Invalid('instant out of range')
    return x


def ns(x):
    return int(round(x * 1e9))


def T(x, tz=None):
    if isinstance(x, dict):
        x = x.get('t')
    if x is None:
        return None
    if x == 'NaT':
        return pd.NaT
    t = BASE + pd.Timedelta(ns(secs(x)), unit='ns')
    if tz:
        t = t.tz_localize('UTC').tz_convert(tz)
    return t


def must(cond, msg):
    if not cond:
        raise Broken(msg)


class Broken(Exception):
    """The contract does not hold on this case."""


PROPS = {}


class Prop(object):
    def __init__(self, pid, gen, check, fixed=(), every=1):
        self.pid, self.gen, self.check, self.fixed, self.every = pid, gen, check, fixed, every


def prop(pid, fixed=None):
    """Decorates a class with gen(g) and check(case)."""
    def deco(cls):
        PROPS.setdefault(pid, []).append(Prop(pid, cls.gen, cls.check, fixed or getattr(cls, 'fixed', lambda: []),
                                              getattr(cls, 'every', 1)))
        return cls
    return deco
