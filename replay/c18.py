from lib import *
from gen import *
import itertools
import c15            # its stand-in for a cluster; before anything imports distributed
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort, crowding_distance_calc, sort_by_dominance
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.asynchronous import ENLUInserter, steady_state_nsga_2
from leap_ec.representation import Representation
from c17 import Multi, people, fronts, random_fits, dominates
CASES[:] = []
FILES = ('leap_ec/multiobjective/ops.py', 'leap_ec/multiobjective/asynchronous.py', 'leap_ec/multiobjective/nsga2.py')


def expected(fits, members):
    """crowding distances within one front, or None where ties leave the order open"""
    m = len(fits[0])
    d = {j: 0.0 for j in members}
    for o in range(m):
        vals = [fits[j][o] for j in members]
        lo, hi = min(vals), max(vals)
        if lo == hi:
            continue
        if len(set(vals)) != len(vals):
            return None
        order = sorted(members, key=lambda j: fits[j][o])
        for a, b, c in zip(order, order[1:], order[2:]):
            d[b] += (fits[c][o] - fits[a][o]) / (hi - lo)
        d[order[0]] = d[order[-1]] = math.inf
    return d


def judge_distances(pop, fits, rank, what):
    for r in set(rank):
        members = [j for j in range(len(pop)) if rank[j] == r]
        ds = [pop[j].distance for j in members]
        check(all(d >= 0 for d in ds), 'distances are at least zero', what, fits, rank, ds)
        for o in range(len(fits[0])):
            vals = [fits[j][o] for j in members]
            if min(vals) == max(vals):
                continue
            for end in (min(vals), max(vals)):
                check(any(fits[j][o] == end and pop[j].distance == math.inf for j in members), 'an extreme individual of the front is infinitely far', what, o, fits, rank, ds)
        e = expected(fits, members)
        if e is not None:
            for j in members:
                check(same(pop[j].distance, e[j]) or math.isclose(pop[j].distance, e[j], rel_tol=1e-9, abs_tol=1e-12), 'the crowding distance', what, fits, rank, ds, e)


@case(*FILES, weight=3)
def crowding(R):
    n, m = R.size(1, 9, cap=40), R.randint(1, 3)
    mx = [R.flag() for _ in range(m)]
    fits = random_fits(R, n, m)
    if R.random() < 0.2:
        fits = [fits[0]] * n
    pop = people(Multi(mx), fits)
    rank = fronts(mx, fits)
    if R.random() < 0.2:
        rank = [R.randint(1, 3) for _ in fits]        # fronts as handed in
    for x, r in zip(pop, rank):
        x.rank = r
        if R.random() < 0.3:
            x.distance = R.choice((math.inf, 3.0))
    given = list(pop)
    R.note(maximize=mx, fits=fits, rank=rank)
    out = crowding_distance_calc(given)
    check(sorted(map(id, out)) == sorted(map(id, pop)), 'crowding_distance_calc returns everyone, once', len(out), len(pop))
    check(same(list(given), pop), 'the list given is left as it was')
    judge_distances(pop, fits, rank, 'crowding_distance_calc')
    check([x.rank for x in pop] == rank, 'ranks are left alone')
    check(all(np.array_equal(x.fitness, np.array(f, dtype=float)) for x, f in zip(pop, fits)), 'fitnesses are left alone')


@case(*FILES)
def by_dominance(R):
    n = R.size(0, 8, cap=40)
    pop = people(Multi([True]), [(1,)] * n)
    for x in pop:
        x.rank, x.distance = R.randint(1, 3), R.choice((math.inf, 0.0, R.real(0, 3), float(R.randint(0, 2))))
    given = list(pop)
    out = sort_by_dominance(given)
    k = [(x.rank, -x.distance) for x in out]
    check(k == sorted(k), 'by rank, the least crowded first within a rank', k)
    check(sorted(map(id, out)) == sorted(map(id, pop)) and same(given, pop), 'the same individuals')


@case(*FILES, weight=3)
def inserter(R):
    m = R.randint(1, 3)
    mx = [R.flag() for _ in range(m)]
    cap = R.randint(1, 6)
    n = R.size(1, 10, cap=25)
    fits = random_fits(R, n, m)
    R.note(maximize=mx, fits=fits, capacity=cap)
    pop = people(Multi(mx), fits)
    ins, flat = ENLUInserter(), []
    alive = []
    for j, x in enumerate(pop):
        before = list(flat)
        ins(x, flat, cap)
        alive.append(j)
        ids = {id(y) for y in flat}
        check(len(ids) == len(flat) == min(len(alive), cap), 'the population grows by one up to its capacity', len(flat), cap)
        r0 = fronts(mx, [fits[i] for i in alive])
        if len(alive) > cap:
            gone = [i for i in alive if id(pop[i]) not in ids]
            check(len(gone) == 1, 'one individual is dropped at capacity', gone)
            check(r0[alive.index(gone[0])] == max(r0), 'the one dropped is of the last front', fits, gone)
            last = [i for i, r in zip(alive, r0) if r == max(r0)]
            e = expected(fits, last)
            if e is not None:
                check(e[gone[0]] <= min(e.values()) + 1e-9, 'the most crowded of the last front is dropped', e, gone)
            alive.remove(gone[0])
            r0 = fronts(mx, [fits[i] for i in alive])
        check([pop[i].rank for i in alive] == r0, 'ranks are kept up to date', [pop[i].rank for i in alive], r0)
        judge_distances([pop[i] for i in alive], [fits[i] for i in alive], r0, 'ENLUInserter')


class Run(Exception):
    pass


@case(*FILES, weight=2)
def nsga2(R):
    m = R.randint(1, 3)
    mx = [R.flag() for _ in range(m)]
    n = R.size(1, 6, cap=20)
    start, gens = R.randint(0, 3), R.randint(0, 3)
    limit = start + gens
    rank_func = R.choice((None, fast_nondominated_sort, rank_ordinal_sort))
    stop_after = R.choice((None, None, R.randint(0, 3)))
    few = R.choice((n, n, 1, 2 * n))
    ctx = {'leap': {}}
    R.note(maximize=mx, n=n, start=start, limit=limit, stop_after=stop_after, offspring=few)
    grid = R.choice((0, 1, 2, 4))
    p = Multi(mx)
    gen = lambda k: people(p, [tuple(R.randint(0, grid) for _ in range(m)) for _ in range(k)])
    first = gen(n)
    log = dict(created=0, evaluated=0, pops=[])

    class Rep(Representation):
        def __init__(self):
            pass

        def create_population(self, pop_size, problem):
            check(pop_size == n and problem is p, 'the initial population asked for')
            log['created'] += 1
            return list(first)

    def evaluate(pop):
        log['evaluated'] += 1
        check(sorted(map(id, pop)) == sorted(map(id, first)), 'the initial population is evaluated')
        return pop

    seen = []

    def breed(pop):
        judge_population(pop)
        kids = gen(few)
        seen.append((list(pop), kids))
        check(ctx['leap'].get('generation') == start + len(seen) - 1, 'the generation is in the context', ctx['leap'], len(seen))
        return list(kids)

    def judge_population(pop):
        check(len(pop) == n and len({id(x) for x in pop}) == n, 'the population keeps its size', len(pop), n)
        if seen:
            before, kids = seen[-1]
            pool = before + kids
            ids = {id(x) for x in pool}
            check(all(id(x) in ids for x in pop), 'survivors come from parents and offspring')
            fr = fronts(mx, [tuple(x.fitness) for x in pool])
            inn = {id(x) for x in pop}
            kept = [r for x, r in zip(pool, fr) if id(x) in inn]
            lost = [(x, r) for x, r in zip(pool, fr) if id(x) not in inn]
            if lost:
                check(min(r for _, r in lost) >= max(kept), 'nobody is dropped for one of a worse front', kept, [r for _, r in lost])
                cut = max(kept)
                dk = [x.distance for x, r in zip(pool, fr) if id(x) in inn and r == cut]
                dl = [x.distance for x, r in lost if r == cut]
                check(not dl or min(dk) >= max(dl), 'within the cut front the least crowded stay', dk, dl)

    def stop(pop):
        return stop_after is not None and len(seen) >= stop_after
    kw = {} if rank_func is None else dict(rank_func=rank_func)
    kw.update(omit(R, dict(start_generation=start), start_generation=0))
    if stop_after is not None or R.flag():
        kw['stop'] = stop
    out = generalized_nsga_2(R.choice((limit, float(limit))), n, p, Rep(), [breed], init_evaluate=evaluate, context=ctx, **kw)
    judge_population(out)
    want = gens if stop_after is None else min(gens, stop_after)
    check(log['created'] == 1 and log['evaluated'] == 1, 'one initial population')
    check(len(seen) == want, 'as many generations as asked for', len(seen), want)
    check(ctx['leap'].get('generation') == start + want, 'the final generation is in the context', ctx, want)


@case(*FILES)
def wrong_problem(R):
    pop = population(R, R.randint(1, 4), Table())
    for x in pop:
        x.rank = 1
    raises(AssertionError, crowding_distance_calc, pop)
    raises(AssertionError, generalized_nsga_2, 1, 2, Table(), None, [])


@case(*FILES, 'leap_ec/distrib/asynchronous.py', weight=2)
def steady_nsga2(R):
    """steady_state_nsga_2 with the evaluations completing in any order"""
    c = c15.start(R)
    cl = c15.Client()
    m = R.randint(1, 3)
    mx = [R.flag() for _ in range(m)]
    n0, size, limit = R.randint(1, 5), R.randint(1, 5), R.randint(0, 10)
    grid = R.choice((1, 2, 4))

    class P(MultiObjectiveProblem):
        def evaluate(self, ph, *a, **k):
            return np.array(ph, dtype=float)
    p = P(mx)
    rep = Representation(decoder=IdentityDecoder(), initialize=lambda: np.array([float(R.randint(0, grid)) for _ in range(m)]), individual_cls=c15.DistributedIndividual)
    born, probed, shown = [], [], []

    def make(pop):
        y = pop[R.randint(0, len(pop) - 1)].clone()
        y.genome = np.array([float(R.randint(0, grid)) for _ in range(m)])
        y.fitness = None
        born.append(y)
        return [y]

    def judge(pop):
        check(len({id(x) for x in pop}) == len(pop) == min(len(c15.World.order), size), 'the population grows by one up to its capacity', len(pop), size, len(c15.World.order))
        fits = [tuple(x.fitness) for x in pop]
        r = fronts(mx, fits)
        check([x.rank for x in pop] == r, 'ranks are kept up to date', fits, [x.rank for x in pop], r)
        done = {id(x) for x in c15.World.order}
        check(all(id(x) in done for x in pop), 'made of evaluated individuals')

    def show(pop):
        shown.append(len(pop))
        judge(pop)
    p1, p2 = R.flag(), R.flag()
    kw = omit(R, dict(evaluated_probe=probed.append if p1 else None, pop_probe=show if p2 else None, count_nonviable=R.flag()), evaluated_probe=None, pop_probe=None, count_nonviable=False)
    R.note(maximize=mx, n0=n0, size=size, max=limit)
    out = steady_state_nsga_2(cl, limit, n0, size, p, rep, [make], context=c, **kw)
    judge(out)
    check(len(born) == limit and len(cl.sent) == n0 + limit and c['leap']['births'] == limit, 'the birth budget is used exactly', len(born), limit)
    check(sorted(ids(c15.World.order)) == sorted(ids(cl.sent)), 'every individual sent out is evaluated once')
    check(not p1 or ids(probed) == ids(c15.World.order), 'each is shown to the probe')
    check(not p2 or len(shown) == n0 + limit, 'the population is shown after every insertion')
