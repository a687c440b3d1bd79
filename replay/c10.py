from lib import *
from gen import *
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.representation import Representation
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual

FILES = ('leap_ec/binary_rep/initializers.py', 'leap_ec/int_rep/initializers.py', 'leap_ec/real_rep/initializers.py', 'leap_ec/segmented_rep/initializers.py',
         'leap_ec/representation.py', 'leap_ec/individual.py')


def many(f, n):
    out = [f() for _ in range(n)]
    for i, a in enumerate(out):
        for b in out[:i]:
            check(a is not b and not (isinstance(a, np.ndarray) and a.size and np.shares_memory(a, b)), 'every call gives a genome of its own')
    return out


@case(*FILES)
def binary(R):
    n = R.size(0, 40)
    R.note(n=n)
    for g in many(create_binary_sequence(n), 3):
        check(isinstance(g, np.ndarray) and g.shape == (n,), 'the length asked for', g)
        check(all(x in (0, 1) for x in g.tolist()), 'bits only', g)


@case(*FILES)
def integers(R):
    n = R.size(1, 12)
    b = []
    for _ in range(n):
        lo = R.randint(-20, 20)
        b.append((lo, lo + R.choice((0, 1, 1, 2, R.randint(0, 30)))))
    bb = R.choice((b, tuple(b), np.array(b)))
    keep = [tuple(x) for x in b]
    f = create_int_vector(bb)
    R.note(bounds=b)
    for g in many(f, R.randint(1, 8)):
        check(isinstance(g, np.ndarray) and g.shape == (n,) and np.issubdtype(g.dtype, np.integer), 'one integer gene per pair of bounds', g)
        check(all(lo <= x <= hi for x, (lo, hi) in zip(g, keep)), 'every gene inside its own bounds', g, keep)
    check([tuple(int(v) for v in x) for x in bb] == keep, 'the bounds are left alone')


@case(*FILES, every=40)
def integers_reach_both_ends(R):
    lo = R.randint(-5, 5)
    f = create_int_vector([(lo, lo + 1)] * 3)
    seen = [set(), set(), set()]
    for _ in range(200):          # missing one end by chance: 3 * 2 * 2**-200
        for s, x in zip(seen, f()):
            s.add(int(x))
    check(all(s == {lo, lo + 1} for s in seen), 'both ends of the bounds are reached', seen)


@case(*FILES)
def reals(R):
    n = R.size(1, 12)
    b = []
    for _ in range(n):
        lo = R.uniform(-20, 20)
        b.append((lo, lo + R.choice((0.0, 1.0, R.uniform(0, 1e-3), R.uniform(0, 50)))))
    f = create_real_vector(R.choice((b, tuple(b))))
    R.note(bounds=b)
    for g in many(f, R.randint(1, 5)):
        check(isinstance(g, np.ndarray) and g.shape == (n,) and np.issubdtype(g.dtype, np.floating), 'one real gene per pair of bounds', g)
        check(all(lo <= x <= hi for x, (lo, hi) in zip(g, b)), 'every gene inside its own bounds', g, b)


@case(*FILES)
def segmented(R):
    made = []

    def seq():
        made.append([len(made)])
        return made[-1]
    lens = []

    def length():
        lens.append(R.randint(0, 6))
        return lens[-1]
    fixed = R.size(0, 8)
    drawn = R.flag()
    f = create_segmented_sequence(length if drawn else fixed, seq)
    R.note(fixed=fixed, drawn=drawn)
    prev = []
    for i in range(R.randint(1, 4)):
        before = len(made)
        g = f()
        want = lens[-1] if drawn else fixed
        check(len(lens) == (i + 1 if drawn else 0), 'the number of segments is drawn once per genome')
        check(isinstance(g, list) and len(g) == want, 'as many segments as asked for', g, want)
        check(ids(g) == ids(made[before:]) and len(made) == before + want, 'one call of the segment initializer per segment, in order')
        check(all(g is not p for p in prev), 'every call gives a genome of its own')
        prev.append(g)


@case(*FILES, weight=2)
def population_made(R):
    n = R.size(0, 12)
    cls = R.choice((Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual))
    prob, dec = Table(True), IdentityDecoder()
    made = []

    def init():
        made.append(np.array([len(made), R.randint(0, 9)]))
        return made[-1]
    how = R.choice(('class', 'representation', 'one', 'direct'))
    R.note(n=n, cls=cls.__name__, how=how)
    if how == 'class':
        pop = cls.create_population(n, initialize=init, decoder=dec, problem=prob)
    elif how == 'representation':
        r = Representation(initialize=init, decoder=dec, individual_cls=cls)
        check(r.initialize is init and r.decoder is dec and r.individual_cls is cls, 'a representation keeps what it is given')
        pop = r.create_population(n, prob)
    elif how == 'one':
        x = Representation(initialize=init, decoder=dec, individual_cls=cls).create_individual(prob)
        pop, n = [x], 1
    else:
        pop = [cls(init(), dec, prob) for _ in range(n)]
    check(isinstance(pop, list) and len(pop) == n and len(made) == n, 'exactly the number asked for, one genome made for each', len(pop), n, len(made))
    for x, g in zip(pop, made):
        check(type(x) is cls, 'of the class asked for', type(x))
        check(x.genome is g, 'with the genome made for it')
        check(x.decoder is dec and x.problem is prob, 'with the given decoder and problem')
        check(x.fitness is None, 'not evaluated')
        check(x.parents == set(), 'without parents', x.parents)
    check(len({i.uuid for i in pop}) == n and len({id(i.parents) for i in pop}) == n, 'with an id and a parent record of its own')
    if cls is DistributedIndividual:
        check([b.birth_id - a.birth_id for a, b in zip(pop, pop[1:])] == [1] * (n - 1) if n else True, 'with consecutive birth ids')


@case(*FILES, every=5)
def rejected(R):
    raises(ValueError, lambda: Individual(np.array([1]), IdentityDecoder, Table(True)))
    raises(ValueError, lambda: Individual(np.array([1]), IdentityDecoder(), Table))


@case(*FILES, every=100)
def bits_reach_both(R):
    n = R.randint(1, 4)
    f = create_binary_sequence(n)
    seen = [set() for _ in range(n)]
    for _ in range(200):          # missing one value by chance: 4 * 2 * 2**-200
        for s, x in zip(seen, f()):
            s.add(int(x))
    check(all(s == {0, 1} for s in seen), 'every bit takes both values', seen)
    w = create_real_vector([(0.0, 1.0)] * n)
    low, high = set(), set()
    for _ in range(300):
        for j, v in enumerate(w()):
            (low if v < 0.5 else high).add(j)
    check(low == high == set(range(n)), 'values from both halves of the bounds occur', sorted(low), sorted(high))
    m = R.randint(1, 3)
    lens = {len(create_segmented_sequence(lambda: random.randint(1, m), create_binary_sequence(1))()) for _ in range(200)}
    check(lens == set(range(1, m + 1)), 'as many segments as drawn', sorted(lens))
