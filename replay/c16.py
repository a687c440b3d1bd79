from lib import *
from gen import *
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.multiobjective import problems as mo

FILES = ('leap_ec/multiobjective/problems.py', 'leap_ec/individual.py')


class Multi(MultiObjectiveProblem):
    def evaluate(self, phenome, *a, **k):
        return np.array(phenome, dtype=float)


def dominates(mx, b, a):
    """b dominates a"""
    up = lambda f: [x if m else -x for x, m in zip(f, mx)]
    a, b = up(a), up(b)
    return all(y >= x for x, y in zip(a, b)) and any(y > x for x, y in zip(a, b))


def fit(R, n):
    kind = R.choice(('small', 'small', 'real', 'huge', 'close'))
    if kind == 'small':
        v = [float(R.randint(0, 2)) for _ in range(n)]
    elif kind == 'real':
        v = [R.real(-100, 100) for _ in range(n)]
    elif kind == 'huge':
        v = [R.choice((1e300, -1e300, math.inf, -math.inf, 0.0)) for _ in range(n)]
    else:
        v = [R.choice((1.0, 1.0 + 1e-12, 1.0 - 1e-12)) for _ in range(n)]
    return np.array(v)


@case(*FILES, weight=3)
def dominance(R):
    n = R.randint(1, 4)
    mx = [R.flag() for _ in range(n)]
    p = Multi(R.choice((mx, tuple(mx), np.array(mx))))
    a, b = fit(R, n), fit(R, n)
    if R.random() < 0.4:
        b = a.copy()
        for i in range(n):
            if R.random() < 0.4:
                b[i] = b[i] + R.choice((-1.0, 1.0, 1e-9))
    R.note(maximize=mx, a=list(a), b=list(b))
    a0, b0 = a.copy(), b.copy()
    ab, ba = dominates(mx, b, a), dominates(mx, a, b)
    check(bool(p.worse_than(a, b)) == ab and bool(p.worse_than(b, a)) == ba, 'worse means dominated', p.worse_than(a, b), ab)
    check(bool(p.equivalent(a, b)) == (not ab and not ba), 'equivalent means neither dominates')
    check(not p.worse_than(a, a.copy()) and p.equivalent(a, a.copy()), 'nothing dominates itself')
    x, y = Individual(np.array([0]), IdentityDecoder(), p), Individual(np.array([0]), IdentityDecoder(), p)
    x.fitness, y.fitness = a, b
    check(bool(x < y) == ab and bool(y < x) == ba, '< is being dominated')
    check(bool(x > y) == ba and bool(y > x) == ab, '> is dominating')
    check(bool(x == y) == (not ab and not ba), '== is neither dominating')
    check(np.array_equal(a, a0) and np.array_equal(b, b0), 'the fitnesses are left alone')


@case(*FILES)
def strict_order(R):
    n = R.randint(1, 3)
    mx = [R.flag() for _ in range(n)]
    p = Multi(mx)
    a, b, c = [np.array([float(R.randint(0, 2)) for _ in range(n)]) for _ in range(3)]
    if p.worse_than(a, b) and p.worse_than(b, c):
        check(p.worse_than(a, c), 'transitive', a, b, c, mx)
    check(not (p.worse_than(a, b) and p.worse_than(b, a)), 'asymmetric', a, b, mx)


@case(*FILES)
def bad_directions(R):
    raises(AssertionError, Multi, None)
    raises(AssertionError, Multi, [])


@case(*FILES)
def benchmark_directions(R):
    """the benchmark problems minimise, and evaluation gives one number per objective"""
    cls = R.choice((mo.SCHProblem, mo.ZDT1Problem, mo.ZDT2Problem, mo.ZDT3Problem))
    p = cls() if cls is mo.SCHProblem else cls(R.randint(2, 5)) if 'n' in cls.__init__.__code__.co_varnames else cls()
    a, b = np.array([0.0, 0.0]), np.array([1.0, 0.0])
    check(p.worse_than(b, a) and not p.worse_than(a, b), 'smaller is better', cls.__name__)
