"""A check: a strategy of JSON cases (CPython side) and an oracle (PyPy side)."""


class Check(object):
    def __init__(self, strategy, check, quick, thorough, rule, assumptions=()):
        self.strategy = strategy          # strategy(tier) -> Hypothesis strategy
        self.check = check                # check(case, ctx)
        self.quick = quick                # number of generated cases, all shards together
        self.thorough = thorough
        self.rule = rule
        self.assumptions = list(assumptions)
