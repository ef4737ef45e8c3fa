"""A uniform sampler for the strategies the checks are written with, and a shrinker of its choices.

Hypothesis prefers boundaries, small values and variations of what it has tried; this samples every choice
uniformly. The strategies are the same: `spec.st_()` returns this module's `st` instead of Hypothesis's.
A case is a function of the list of its choices (integers from 0), which is what is shrunk.
"""
import random


class Choices(object):
    def __init__(self, rnd=None, prefix=()):
        self.rnd = rnd
        self.prefix = prefix
        self.made = []

    def choice(self, top):
        """An integer from 0 to top."""
        i = len(self.made)
        if i < len(self.prefix):
            v = min(self.prefix[i], top)
        else:
            v = self.rnd.randint(0, top) if self.rnd else 0
        self.made.append(v)
        return v


class Strategy(object):
    def __init__(self, f):
        self.f = f                         # f(choices) -> value


class st(object):
    @staticmethod
    def integers(lo, hi):
        def f(c):
            k = c.choice(hi - lo)
            if lo <= 0 <= hi:
                return k if k <= hi else hi - k
            return lo + k if lo > 0 else hi - k
        return Strategy(f)

    @staticmethod
    def booleans():
        return Strategy(lambda c: c.choice(1) == 1)

    @staticmethod
    def sampled_from(seq):
        seq = list(seq)
        return Strategy(lambda c: seq[c.choice(len(seq) - 1)])

    @staticmethod
    def just(v):
        return Strategy(lambda c: v)

    @staticmethod
    def none():
        return Strategy(lambda c: None)

    @staticmethod
    def one_of(*ss):
        return Strategy(lambda c: ss[c.choice(len(ss) - 1)].f(c))

    @staticmethod
    def tuples(*ss):
        return Strategy(lambda c: tuple(s.f(c) for s in ss))

    @staticmethod
    def lists(s, min_size=0, max_size=10):
        return Strategy(lambda c: [s.f(c) for _ in range(min_size + c.choice(max_size - min_size))])

    @staticmethod
    def sets(s, min_size=0, max_size=4):
        def f(c):
            out = set()
            for _ in range(min_size + c.choice(max_size - min_size)):
                for _ in range(20):
                    v = s.f(c)
                    if v not in out:
                        out.add(v)
                        break
            return out
        return Strategy(f)

    @staticmethod
    def permutations(seq):
        def f(c):
            v = list(seq)
            for i in range(len(v) - 1):
                j = i + c.choice(len(v) - 1 - i)
                v[i], v[j] = v[j], v[i]
            return v
        return Strategy(f)

    @staticmethod
    def composite(fn):
        return lambda *a, **k: Strategy(lambda c: fn(lambda s: s.f(c), *a, **k))


def sample(strategy, rnd):
    c = Choices(rnd)
    return strategy.f(c), c.made


def shrink(strategy, made, fails):
    """Shorten and lower the choices while `fails(case)`; `fails` raises to end the search."""
    best = list(made)

    def attempt(p):
        nonlocal best
        c = Choices(None, p)
        case = strategy.f(c)
        if (len(c.made), c.made) < (len(best), best) and fails(case):
            best = c.made
            return True
        return False

    again = True
    while again:
        again = False
        for k in (16, 8, 4, 2, 1):
            i = len(best) - k
            while i >= 0:
                if attempt(best[:i] + best[i + k:]):
                    again = True
                elif any(best[i:i + k]) and k > 1 and attempt(best[:i] + [0] * k + best[i + k:]):
                    again = True
                i -= k if k > 1 else 1
                i = min(i, len(best) - k)
        i = 0
        while i < len(best):
            if best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i] and (attempt(best[:i] + [v] + best[i + 1:]) or
                                        any(attempt(best[:i] + [v] + best[i + 1 + k:]) for k in (1, 2, 4) if i + 1 + k <= len(best))):
                        again = True
                        break
            i += 1
    return best
