from lib import *
from gen import *
import itertools
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
from leap_ec.multiobjective.asynchronous import enlu_inds_rank

FILES = ('leap_ec/multiobjective/ops.py', 'leap_ec/multiobjective/asynchronous.py')


class Multi(MultiObjectiveProblem):
    def evaluate(self, phenome, *a, **k):
        return np.array(phenome, dtype=float)


def people(p, fits):
    pop = []
    for f in fits:
        x = Individual(np.array([0]), IdentityDecoder(), p)
        x.fitness = np.array(f, dtype=float)
        pop.append(x)
    return pop


def dominates(mx, b, a):
    up = lambda f: [x if m else -x for x, m in zip(f, mx)]
    a, b = up(a), up(b)
    return all(y >= x for x, y in zip(a, b)) and any(y > x for x, y in zip(a, b))


def fronts(mx, fits):
    """the rank of each: one more than the greatest rank among those that dominate it"""
    up = np.array(fits, dtype=float).reshape(len(fits), -1) * np.where(mx, 1, -1)
    above = [np.flatnonzero((up >= u).all(axis=1) & (up > u).any(axis=1)).tolist() for u in up]
    rank = {}

    def go(j):
        if j not in rank:
            rank[j] = 1 + max((go(i) for i in above[j]), default=0)
        return rank[j]
    return [go(j) for j in range(len(fits))]


def judge(mx, fits, cut, f):
    """f: the sorting operator; cut: how many of the individuals are the population (the others are parents; None: no parents)"""
    p = Multi(mx)
    pop = people(p, fits)
    want = fronts(mx, fits)
    head = pop if cut is None else pop[:cut]
    out = f(list(head)) if cut is None else f(list(head), parents=pop[cut:])
    check(sorted(map(id, out)) == sorted(map(id, pop)), 'the population and its parents come out, each once', f.__name__, mx, fits, cut)
    check([x.rank for x in pop] == want, 'the rank is the number of the Pareto front', f.__name__, mx, fits, cut, [x.rank for x in pop], want)
    check(all(np.array_equal(x.fitness, np.array(g, dtype=float)) for x, g in zip(pop, fits)), 'the fitnesses are left alone', f.__name__)


def judge_insertion(mx, fits):
    p = Multi(mx)
    pop = people(p, fits)
    layers = []
    for j, x in enumerate(pop):
        start, end = enlu_inds_rank(x, layers)
        want = fronts(mx, fits[:j + 1])
        check([y.rank for y in pop[:j + 1]] == want, 'ranks after an insertion are the numbers of the Pareto fronts', mx, fits[:j + 1], [y.rank for y in pop[:j + 1]], want)
        check(sorted(map(id, itertools.chain(*layers))) == sorted(map(id, pop[:j + 1])), 'everyone is in exactly one layer', mx, fits[:j + 1])
        check(all(layers) and all(y.rank == i + 1 for i, l in enumerate(layers) for y in l), 'a layer holds the individuals of its rank', mx, fits[:j + 1])
        check(0 <= start < len(layers) and any(y is x for y in layers[start]), 'the layer it was put in is reported', mx, fits[:j + 1], start)
        check(start < end <= len(layers), 'the range of changed layers is reported', mx, fits[:j + 1], start, end)


@case(*FILES, every=10 ** 9)
def exhaustive(R):
    """all populations of up to 3 individuals, two objectives on a 3x3 grid, all directions, all splits"""
    grid = list(itertools.product(range(3), repeat=2))
    for mx in itertools.product((True, False), repeat=2):
        for n in (1, 2, 3):
            for fits in itertools.product(grid, repeat=n):
                judge_insertion(mx, fits)
                if n == 3 and list(fits[1:]) != sorted(fits[1:]):
                    continue
                for cut in [None] + list(range(1, n + 1)):
                    if n == 3 and cut in (2, 3):
                        continue
                    judge(mx, fits, cut, fast_nondominated_sort)
                    judge(mx, fits, cut, rank_ordinal_sort)


@case(*FILES, every=10 ** 9)
def large(R):
    """more individuals, fronts and equal values than fit a byte"""
    mx = [R.flag() for _ in range(2)]
    for fits in ([(i,) * 2 for i in R.sample(range(270), 270)], [tuple(R.real(-5, 5) for _ in range(2)) for _ in range(270)]):
        judge(mx, fits, 140, rank_ordinal_sort)
        judge(mx, fits, None, fast_nondominated_sort)


def random_fits(R, n, m):
    kind = R.choice(('grid', 'grid', 'reals', 'front', 'chain'))
    if kind == 'grid':
        w = R.randint(1, 4)
        return [tuple(R.randint(0, w) for _ in range(m)) for _ in range(n)]
    if kind == 'reals':
        return [tuple(R.real(-5, 5) for _ in range(m)) for _ in range(n)]
    if kind == 'front':
        out = []
        for i in range(n):
            v = [R.random() for _ in range(m)]
            s = sum(v) + 1e-9
            out.append(tuple(round(x / s * 6) for x in v))
        return out
    out = [tuple(i // 2 + R.randint(0, 1) for _ in range(m)) for i in range(n)]
    R.shuffle(out)
    return out


@case(*FILES, weight=3)
def sorting(R):
    n, m = R.size(1, 9, cap=300), R.randint(1, 4)
    mx = [R.flag() for _ in range(m)]
    fits = random_fits(R, n, m)
    cut = R.choice((None, R.randint(1, n)))
    R.note(maximize=mx, fits=fits, cut=cut)
    judge(mx, fits, cut, fast_nondominated_sort)
    judge(mx, fits, cut, rank_ordinal_sort)


@case(*FILES, weight=3)
def insertion(R):
    n, m = R.size(1, 9, cap=30), R.randint(1, 4)
    mx = [R.flag() for _ in range(m)]
    fits = random_fits(R, n, m)
    R.note(maximize=mx, fits=fits)
    judge_insertion(mx, fits)


@case(*FILES)
def wrong_problem(R):
    """single-objective individuals are refused"""
    pop = population(R, R.randint(1, 4), Table())
    raises(AssertionError, fast_nondominated_sort, pop)
