from lib import *
from gen import *
from leap_ec import ops
from leap_ec.individual import WholeEvaluatedIndividual
from leap_ec.decoder import Decoder
from leap_ec.distrib.individual import DistributedIndividual
from toolz import pipe

F = ('leap_ec/individual.py', 'leap_ec/ops.py', 'leap_ec/problem.py')


class Rev(Decoder):
    def decode(self, genome, *args, **kwargs):
        return [2 * int(x) + 1 for x in genome][::-1]


class Boom(Exception):
    pass


def f(ph):
    return float(sum((i + 1) * x for i, x in enumerate(ph)))


def pop_of(R, n, prob, cls=Individual, dec=None):
    out = []
    for _ in range(n):
        i = cls(np.array([R.randint(0, 9) for _ in range(R.randint(1, 5))]), dec or Rev(), prob)
        if R.flag(0.4):
            i.fitness = R.choice((None, -7.0, float('nan')))
        if R.flag(0.3):
            i.decode()
            i.genome = np.array([R.randint(0, 9) for _ in range(R.randint(1, 5))])
        out.append(i)
    return out


def want(i):
    return f(Rev().decode(i.genome))


@case(*F)
def evaluate_one(R):
    prob = Table(R.flag(), f)
    cls = R.choice((Individual, RobustIndividual, DistributedIndividual))
    i = pop_of(R, 1, prob, cls)[0]
    R.note(cls=cls.__name__, genome=i.genome)
    g = i.genome.copy()
    r = i.evaluate()
    check(i.fitness == want(i) and r == i.fitness, "fitness is the problem's value of the decoded genome", r, want(i))
    check(same(g, i.genome), 'evaluation does not change the genome')
    check(list(i.phenome) == Rev().decode(i.genome), 'phenome is the decoded genome')
    if isinstance(i, RobustIndividual):
        check(i.is_viable is True, 'a successful evaluation is viable')
    i.genome = np.array([R.randint(0, 9) for _ in range(3)])
    i.evaluate()
    check(i.fitness == want(i), 're-evaluation uses the current genome')


@case(*F)
def robust(R):
    bad = R.flag(0.6)
    exc = R.choice((Boom, ValueError, ZeroDivisionError, KeyError, StopIteration, AssertionError, TypeError, RuntimeError, MemoryError))

    def g(ph):
        if bad:
            raise exc('no')
        return f(ph)
    prob = Table(True, g)
    cls = R.choice((RobustIndividual, DistributedIndividual))
    i = cls(np.array([R.randint(0, 9)]), Rev(), prob)
    if R.flag():
        i.fitness, i.is_viable = 3.0, R.flag()
    R.note(bad=bad, exc=exc.__name__)
    r = i.evaluate()
    if bad:
        check(is_nan(i.fitness) and is_nan(r), 'a failed evaluation gives NaN', i.fitness)
        check(i.is_viable is False and isinstance(i.exception, exc), 'failure is recorded', i.is_viable)
    else:
        check(i.fitness == want(i) and i.is_viable is True, 'success is recorded')
    # a later good evaluation clears the verdict
    bad = False
    i.evaluate()
    check(i.fitness == want(i) and i.is_viable is True, 'a later successful evaluation is viable again')
    bad = True
    i.evaluate()
    check(is_nan(i.fitness) and i.is_viable is False, 'a later failed evaluation is not viable')


@case(*F)
def whole(R):
    got = []

    class P(Table):
        def evaluate(self, phenome, individual=None):
            got.append((phenome, individual))
            return f(phenome) + 0.5
    i = WholeEvaluatedIndividual(np.array([R.randint(0, 9) for _ in range(3)]), Rev(), P())
    R.note(genome=i.genome)
    i.evaluate()
    check(i.fitness == want(i) + 0.5 and got[-1][1] is i and list(got[-1][0]) == Rev().decode(i.genome), 'the individual itself is passed along')
    i.genome = np.array([R.randint(0, 9) for _ in range(3)])
    i.evaluate()
    check(i.fitness == want(i) + 0.5 and got[-1][1] is i and list(got[-1][0]) == Rev().decode(i.genome), 're-evaluation uses the current genome')
    j = Individual(np.array([R.randint(0, 9) for _ in range(3)]), Rev(), P())
    check(list(j.phenome) == Rev().decode(j.genome), 'a phenome asked for before evaluation is the decoded genome')
    j.phenome = [1, 2]
    check(j.phenome == [1, 2], 'a phenome set by hand is kept')


@case(*F)
def population_eval(R):
    prob = Table(R.flag(), f)
    n = R.size(0, 8)
    pop = pop_of(R, n, prob)
    how = R.choice(('method', 'op', 'const', 'eval_op'))
    R.note(n=n, how=how, genomes=[i.genome.tolist() for i in pop])
    gs = [i.genome.copy() for i in pop]
    before = list(pop)
    if how == 'method':
        out = Individual.evaluate_population(pop)
        check(out is pop or ids(out) == ids(before), 'returns the population it was given')
    elif how == 'const':
        v = R.choice((0.0, -1.5, float('nan'), 7))
        out = ops.const_evaluate(pop, v) if R.flag() else ops.const_evaluate(value=v)(pop)
        check(ids(out) == ids(before), 'returns the population it was given')
        check(all(i.fitness is v for i in out), 'constant fitness')
        return
    else:
        out = pipe(iter(pop), ops.evaluate, ops.pool(size=n))
    check(ids(out) == ids(before), 'the same individuals in the same order')
    check(all(i.fitness == want(i) for i in out), 'every individual has the fitness of its own genome')
    check(all(same(g, i.genome) for g, i in zip(gs, out)), 'genomes untouched')
    check(len(prob.calls) == n, 'each individual is evaluated once', len(prob.calls), n)


@case(*F)
def grouped(R):
    sizes = []

    class P(Table):
        def evaluate_multiple(self, phenomes, *a, **kw):
            sizes.append(len(phenomes))
            if 'individuals' in kw:
                check(len(kw['individuals']) == len(phenomes), 'individuals and phenomes go together')
            return [self.f(p) for p in phenomes]
    prob = P(R.flag(), f) if R.flag() else Table(R.flag(), f)
    n = R.size(1, 9)
    pop = pop_of(R, n, prob)
    if R.flag(0.6):
        Individual.evaluate_population(pop)
        pop = [i.clone() for i in pop]
        for i in pop:
            if R.flag():
                i.genome = np.array([R.randint(0, 9) for _ in range(3)])
    c = R.choice((None, 1, 2, n, R.size(1, n + 2)))
    R.note(n=n, chunk=c, genomes=[i.genome.tolist() for i in pop])
    before = list(pop)
    out = ops.grouped_evaluate(pop, max_individuals_per_chunk=c) if R.flag() else ops.grouped_evaluate(max_individuals_per_chunk=c)(pop)
    check(ids(out) == ids(before), 'the same individuals in the same order')
    check(all(i.fitness == want(i) for i in out), 'every individual has the fitness of its own genome', [i.fitness for i in out], [want(i) for i in out])
    if sizes and c:
        check(max(sizes) <= c, 'no chunk exceeds the limit', sizes)
        check(sum(sizes) == n, 'every individual is evaluated once', sizes)
