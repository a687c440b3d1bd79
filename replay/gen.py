"""Shared input generators for the run-time contracts."""
import math
import numpy as np
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import ScalarProblem


class Table(ScalarProblem):
    """a user problem: fitness of a phenome is a fixed function of its contents"""
    def __init__(self, maximize=True, f=None):
        super().__init__(maximize)
        self.f = f or (lambda p: float(np.sum(np.asarray(p, dtype=float))))
        self.calls = []

    def evaluate(self, phenome, *a, **kw):
        self.calls.append(phenome)
        return self.f(phenome)


def fitness_value(R, nan=False):
    r = R.random()
    if nan and r < 0.1:
        return math.nan
    if r < 0.3:
        return R.randint(-3, 3)
    if r < 0.4:
        return float(R.randint(-3, 3))
    if r < 0.45:
        return np.float64(R.real())
    if r < 0.5:
        return R.choice((math.inf, -math.inf, 0.0, -0.0, 1e300, -1e300, 1e-300))
    return R.real(-100, 100)


def population(R, n, prob, nan=False, ints=False, cls=Individual, distinct=False):
    """n evaluated individuals, with many ties unless distinct"""
    pop = []
    vals = list(range(-n, n + 1))
    R.shuffle(vals)
    for i in range(n):
        ind = cls(np.array([R.randint(0, 9) for _ in range(R.randint(1, 4))]), IdentityDecoder(), prob)
        if distinct:
            ind.fitness = float(vals[i])
        elif ints:
            ind.fitness = R.randint(-3, 3)
        else:
            ind.fitness = fitness_value(R, nan)
        pop.append(ind)
    return pop


def better(prob, a, b):
    """a strictly better than b (documented order)"""
    if math.isnan(a) and math.isnan(b):
        return False
    if math.isnan(a):
        return False
    if math.isnan(b):
        return True
    return a > b if prob.maximize else a < b


def snapshot(pop):
    """everything observable of a list of individuals, for frame checks"""
    return [(id(i), np.array(i.genome, copy=True) if isinstance(i.genome, np.ndarray) else i.genome, i.fitness, i.uuid, set(i.parents)) for i in pop]


def same_snapshot(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or x[3] != y[3] or x[4] != y[4]:
            return False
        if not np.array_equal(np.asarray(x[1]), np.asarray(y[1])):
            return False
        f, g = x[2], y[2]
        if not (f is g or f == g or (isinstance(f, float) and isinstance(g, float) and math.isnan(f) and math.isnan(g))):
            return False
    return True
