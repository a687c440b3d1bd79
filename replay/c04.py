from lib import *
from gen import *
from leap_ec import ops
from collections import Counter
from itertools import islice

F = ('leap_ec/ops.py',)


def take(it, n):
    out = list(islice(it, n))
    check(len(out) == n, 'the selection never runs out', n, len(out))
    return out


def member(pop, x):
    return any(x is p for p in pop)


def setup(R, lo=1, hi=8, **kw):
    prob = Table(maximize=R.flag())
    return prob, population(R, R.size(lo, hi, cap=120), prob, **kw)


@case(*F)
def tournament(R):
    prob, pop = setup(R, distinct=R.flag())
    k = R.choice((1, 2, 2, 3, R.randint(1, 10)))
    worst = R.flag(0.3)
    usekey = R.flag(0.4)
    key = (lambda i: -sum(i.genome)) if usekey else None
    idx = [] if R.flag() else None
    if idx is not None and R.flag(0.3):
        idx.extend([7, 8])
    R.note(fit=[i.fitness for i in pop], k=k, worst=worst, key=usekey, maximize=prob.maximize)
    snap = snapshot(pop)
    kw = dict(k=k, select_worst=worst)
    if usekey:
        kw['key'] = key
    if idx is not None:
        kw['indices'] = idx
    it = ops.tournament_selection(pop, **kw)
    for _ in range(12):
        x = next(it)
        check(member(pop, x), 'selects a member of the population')
        if idx is not None:
            check(len(idx) == 1 and pop[idx[0]] is x, 'the index of the selected individual is reported', idx)
    check(same_snapshot(snap, snapshot(pop)), 'the population is left as it was')


@case(*F)
def tournament_extreme(R):
    """with a tournament far larger than the population, the winner is the best (worst): failure odds below 1e-60"""
    prob, pop = setup(R, 1, 6, distinct=True)
    pop = pop[:8]
    k = 160 * len(pop)
    worst = R.flag(0.4)
    usekey = R.flag(0.4)
    tab = {id(i): v for i, v in zip(pop, R.sample(range(100), len(pop)))}
    key = lambda i: tab[id(i)]
    R.note(fit=[i.fitness for i in pop], k=k, worst=worst, key=usekey, maximize=prob.maximize)
    kw = dict(k=k, select_worst=worst)
    if usekey:
        kw['key'] = key
    val = key if usekey else (lambda i: i.fitness if prob.maximize else -i.fitness)
    want = (min if worst else max)(pop, key=val)
    it = ops.tournament_selection(pop, **kw)
    for _ in range(3):
        check(next(it) is want, 'the best (worst) of the drawn individuals wins', want.fitness)


@case(*F)
def tournament_one(R):
    """a tournament of one selects uniformly: over many draws every individual turns up"""
    prob, pop = setup(R, 1, 4)
    pop = pop[:5]
    k = 1
    got = {id(x) for x in take(ops.tournament_selection(pop, k=1), 80 * len(pop))}
    check(got == set(ids(pop)), 'every individual can be selected')


@case(*F)
def naive_cyclic(R):
    prob, pop = setup(R, 1, 6)
    idx = [] if R.flag() else None
    n = len(pop)
    R.note(n=n)
    it = ops.naive_cyclic_selection(pop, indices=idx) if idx is not None else ops.naive_cyclic_selection(pop)
    for i in range(R.randint(1, 4 * n + 2)):
        x = next(it)
        check(x is pop[i % n], 'in order, again and again', i)
        if idx is not None:
            check(idx == [i % n], 'index reported', idx)


@case(*F)
def cyclic(R):
    prob, pop = setup(R, 1, 7)
    n = len(pop)
    before = ids(pop)
    R.note(n=n)
    it = ops.cyclic_selection(pop)
    tours = R.randint(1, 4)
    for t in range(tours):
        got = take(it, n)
        if t == 0:
            check(ids(got) == before, 'the first tour is in order')
        check(sorted(ids(got)) == sorted(before), 'every tour visits each individual exactly once', t)
    check(ids(pop) == before, 'the population is left as it was')
    check(list(islice(ops.cyclic_selection([]), 1)) == [], 'nothing from an empty population')


@case(*F)
def random_sel(R):
    prob, pop = setup(R, 1, 5)
    idx = [] if R.flag() else None
    it = ops.random_selection(pop, indices=idx) if idx is not None else ops.random_selection(pop)
    R.note(n=len(pop))
    seen = set()
    for _ in range(70 * min(len(pop), 8)):
        x = next(it)
        check(member(pop, x), 'selects a member of the population')
        if idx is not None:
            check(len(idx) == 1 and pop[idx[0]] is x, 'index reported')
        seen.add(id(x))
    if len(pop) <= 8:
        check(seen == set(ids(pop)), 'every individual can be selected')


def valued(R, allowneg=False):
    prob = Table(maximize=True)
    n = R.size(1, 7, cap=60)
    pop = population(R, n, prob)
    for i in pop:
        i.fitness = R.choice((0, 0.0, R.randint(0, 5), R.real(0, 10), 1e-3, 1000.0))
        if allowneg and R.flag(0.5):
            i.fitness = -i.fitness
    return prob, pop


def values_of(pop, off, ex, key):
    v = [float(key(i)) for i in pop]
    o = -min(v) if off == 'pop-min' else off
    return [(x + o) ** ex for x in v]


def knobs(R):
    off = R.choice((0, 0, 'pop-min', 1, 2.5))
    ex = R.choice((1, 1, 2, 3))
    usekey = R.flag(0.3)
    key = (lambda i: float(sum(i.genome))) if usekey else (lambda i: i.fitness)
    kw = dict(offset=off, exponent=ex)
    if usekey:
        kw['key'] = key
    return off, ex, key, kw


@case(*F)
def population_values(R):
    prob, pop = valued(R, allowneg=True)
    off, ex, key, kw = knobs(R)
    R.note(fit=[i.fitness for i in pop], off=off, ex=ex)
    got = ops.compute_population_values(pop, **kw)
    want = values_of(pop, off, ex, key)
    check(len(got) == len(pop), 'one value per individual')
    check(np.allclose(got, want), 'value is (metric+offset)^exponent', got, want)


@case(*F)
def proportional(R):
    prob, pop = valued(R, allowneg=R.flag(0.3))
    off, ex, key, kw = knobs(R)
    vals = values_of(pop, off, ex, key)
    R.note(fit=[i.fitness for i in pop], off=off, ex=ex, vals=vals)
    if any(v < 0 for v in vals):
        raises(ValueError, lambda: next(ops.proportional_selection(pop, **kw)))
        raises(ValueError, lambda: next(ops.sus_selection(pop, **kw)))
        return
    if sum(vals) <= 0:
        return
    val = {id(i): v for i, v in zip(pop, vals)}
    it = ops.proportional_selection(pop, **kw)
    c = Counter()
    for _ in range(60):
        x = next(it)
        check(member(pop, x), 'selects a member of the population')
        check(val[id(x)] > 0, 'only individuals of positive value are selected', val[id(x)])
        c[id(x)] += 1


@case(*F)
def proportional_all(R):
    """every individual with a large share turns up: odds of failing below 1e-12"""
    prob, pop = valued(R)
    off, ex, key, kw = knobs(R)
    vals = values_of(pop, off, ex, key)
    if sum(vals) <= 0:
        return
    R.note(vals=vals)
    got = {id(x) for x in take(ops.proportional_selection(pop, **kw), 300)}
    for i, v in zip(pop, vals):
        if v / sum(vals) > 0.1:
            check(id(i) in got, 'an individual with a tenth of the total is never selected')


@case(*F)
def sus(R):
    prob, pop = valued(R)
    off, ex, key, kw = knobs(R)
    vals = values_of(pop, off, ex, key)
    tot = sum(vals)
    if tot <= 0:
        return
    n = R.choice((None, R.randint(1, 12), len(pop)))
    shuffle = R.flag()
    if n is not None:
        kw['n'] = n
    R.note(vals=vals, n=n, shuffle=shuffle, off=off, ex=ex)
    npts = len(pop) if n is None else n
    it = ops.sus_selection(pop, shuffle=shuffle, **kw)
    first = None
    for tour in range(3):
        got = take(it, npts)
        check(all(member(pop, x) for x in got), 'selects members of the population')
        c = Counter(ids(got))
        for i, v in zip(pop, vals):
            e = npts * v / tot
            check(math.floor(e - 1e-6) <= c[id(i)] <= math.ceil(e + 1e-6), 'each individual is selected its expected number of times, rounded', e, c[id(i)], tour)
        pos = [ids(pop).index(id(x)) for x in got]
        check(pos == sorted(pos), 'points are visited in order', pos)
        if not shuffle:
            check(first is None or first == ids(got), 'without shuffling the same points are used again')
            first = ids(got)


@case(*F)
def sus_refuses(R):
    prob, pop = valued(R)
    raises(ValueError, lambda: next(ops.sus_selection(pop, n=R.choice((0, -1, -5)))))


@case(*F, every=100)
def reach(R):
    """everybody gets a turn (missing one in 500 draws by chance: below 1e-30)"""
    n = R.randint(2, 4)
    prob = Table(maximize=R.flag())
    pop = population(R, n, prob)
    for j, x in enumerate(pop):
        x.fitness = float(j + 1)
    got = {next(j for j, p in enumerate(pop) if p is x) for x in take(ops.random_selection(pop), 500)}
    check(got == set(range(n)), 'random selection reaches everybody', sorted(got), n)
    worst = R.flag()
    got = {next(j for j, p in enumerate(pop) if p is x) for x in take(ops.tournament_selection(pop, select_worst=worst), 500)}
    last = 0 if prob.maximize != worst else n - 1
    check(set(range(n)) - {last} <= got, 'a tournament can be won by everybody but the last', sorted(got), n)
    top = Table(maximize=True)
    for x in pop:
        x.problem = top
    for sel in (ops.proportional_selection, ops.sus_selection):
        got = {next(j for j, p in enumerate(pop) if p is x) for x in take(sel(pop), 500)}
        check(got == set(range(n)), 'everybody with a share can be selected', sel, sorted(got), n)
