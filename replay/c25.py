from lib import *
from gen import *
from leap_ec import ops
from leap_ec.parsimony import lexical_parsimony, koza_parsimony

FILES = ('leap_ec/parsimony.py',)


def some(R, mx, n):
    prob = Table(mx)
    pop = []
    for _ in range(n):
        L = R.randint(0, 6)
        i = Individual(np.zeros(L) if R.flag() else [0] * L, IdentityDecoder(), prob)
        i.fitness = R.choice((float(R.randint(-2, 2)), float(R.randint(-2, 2)), R.randint(-2, 2), R.real()))
        pop.append(i)
    return pop


def good(mx, i):
    return i.fitness if mx else -i.fitness


@case(*FILES, weight=2)
def lexical(R):
    mx = R.flag()
    pop = some(R, mx, R.randint(2, 8))
    R.note(mx=mx, pop=[(i.fitness, len(i.genome)) for i in pop])
    snap = snapshot(pop)
    for a in pop:
        for b in pop:
            ka, kb = lexical_parsimony(a), lexical_parsimony(b)
            ga, gb = good(mx, a), good(mx, b)
            want = ga < gb or (ga == gb and len(a.genome) > len(b.genome))
            check((ka < kb) == want, 'worse if less fit, or as fit and longer', ka, kb)
            check((ka == kb) == (ga == gb and len(a.genome) == len(b.genome)), 'tied if as fit and as long', ka, kb)
    size = R.randint(1, len(pop))
    got = ops.truncation_selection(pop, size=size, key=lexical_parsimony)
    rank = sorted(((good(mx, i), -len(i.genome)) for i in pop), reverse=True)[:size]
    check([(good(mx, i), -len(i.genome)) for i in got] == rank, 'truncation keeps the fittest, shortest first', rank)
    check(same_snapshot(snap, snapshot(pop)), 'nothing else changed')


@case(*FILES, weight=2)
def koza(R):
    mx = R.flag()
    pop = some(R, mx, R.randint(2, 8))
    c = R.choice((0, 0.5, 1, 2, 0.25, 0.125))
    R.note(mx=mx, c=c, pop=[(i.fitness, len(i.genome)) for i in pop])
    snap = snapshot(pop)
    key = koza_parsimony(penalty=c)
    val = lambda i: good(mx, i) - c * len(i.genome)
    for a in pop:
        check(abs(key(a) - val(a)) < 1e-9 and abs(koza_parsimony(a, penalty=c) - val(a)) < 1e-9, 'fitness in the direction of the goal less the penalty for every gene', key(a), val(a))
    size = R.randint(1, len(pop))
    got = ops.truncation_selection(pop, size=size, key=key)
    check([val(i) for i in got] == sorted((val(i) for i in pop), reverse=True)[:size], 'truncation keeps the best after the penalty')
    t = next(ops.tournament_selection(pop, k=len(pop), key=key))
    check(any(t is i for i in pop), 'a tournament under parsimony still yields members')
    check(same_snapshot(snap, snapshot(pop)), 'nothing else changed')
