from lib import *
from gen import *
from leap_ec import ops
from leap_ec.individual import WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.real_rep.problems import SpheroidProblem
from toolz import pipe

F = ('leap_ec/individual.py', 'leap_ec/ops.py', 'leap_ec/distrib/individual.py')


def genome(R):
    n = R.size(0, 8)
    return R.choice((
        lambda: np.array([R.randint(0, 1) for _ in range(n)]),
        lambda: np.array([R.real() for _ in range(n)]),
        lambda: [R.randint(0, 9) for _ in range(n)],
        lambda: [[R.randint(0, 9)] for _ in range(n)],
        lambda: [np.array([R.real(), 1.0]) for _ in range(n)],
        lambda: dict(a=[1, 2]),
    ))()


def deep(g):
    return [deep(x) for x in g] if isinstance(g, (list, np.ndarray)) else ({k: deep(v) for k, v in g.items()} if isinstance(g, dict) else g)


def mutable_parts(g):
    out = [g] if isinstance(g, (list, np.ndarray, dict)) else []
    if isinstance(g, list):
        for x in g:
            out += mutable_parts(x)
    if isinstance(g, dict):
        for x in g.values():
            out += mutable_parts(x)
    return out


def verify_clone(c, ind, before):
    check(c is not ind, 'the clone is a new object')
    check(type(c) is type(ind), 'the clone has the same type')
    check(deep(c.genome) == before['g'], 'the genome has the same genes', c.genome)
    own = set(map(id, mutable_parts(ind.genome)))
    check(not any(id(x) in own for x in mutable_parts(c.genome)), 'the clone shares genome storage with the original')
    for x in mutable_parts(c.genome):
        if isinstance(x, np.ndarray):
            check(not any(isinstance(y, np.ndarray) and np.shares_memory(x, y) for y in mutable_parts(ind.genome)), 'shared memory')
    check(c.fitness is None, 'the clone has no fitness', c.fitness)
    check(c.uuid != ind.uuid, 'the clone has its own id')
    check(set(c.parents) == {ind.uuid}, "the clone's parents are exactly the original", c.parents)
    check(c.parents is not ind.parents, "the clone's parent set is its own")
    check(c.problem is ind.problem and c.decoder is ind.decoder, 'same problem and decoder')
    check(deep(ind.genome) == before['g'] and ind.fitness is before['f'] and ind.uuid == before['u'] and set(ind.parents) == before['p'], 'the original is untouched')
    for k, v in before['extra'].items():
        check(getattr(c, k, None) == v, 'ancillary state is copied', k)


def before(ind):
    return dict(g=deep(ind.genome), f=ind.fitness, u=ind.uuid, p=set(ind.parents), extra={k: getattr(ind, k) for k in ('note_a', 'note_b') if hasattr(ind, k)})


def make(R):
    cls = R.choice((Individual, RobustIndividual, DistributedIndividual, WholeEvaluatedIndividual))
    ind = cls(genome(R), IdentityDecoder(), SpheroidProblem())
    check(ind.fitness is None and ind.parents == set(), 'a new individual has no fitness and no parents')
    if R.flag():
        ind.fitness = R.choice((1.5, float('nan'), 0, np.array([1.0, 2.0])))
    if R.flag(0.3):
        ind.parents = {Individual(np.array([0])).uuid for _ in range(R.randint(1, 2))}
    if R.flag(0.3):
        ind.note_a = 3
        ind.note_b = 'x'
    return ind


@case(*F)
def clone_method(R):
    ind = make(R)
    R.note(cls=type(ind).__name__, genome=ind.genome, fitness=ind.fitness)
    seen = {ind.uuid}
    births = {ind.birth_id} if isinstance(ind, DistributedIndividual) else set()
    cur = ind
    for step in range(R.randint(1, 4)):
        b = before(cur)
        c = cur.clone()
        verify_clone(c, cur, b)
        check(c.uuid not in seen, 'a new unique id')
        seen.add(c.uuid)
        if isinstance(c, DistributedIndividual):
            check(c.birth_id not in births and c.birth_id > max(births), 'a new birth id', c.birth_id)
            births.add(c.birth_id)
        if R.flag(0.4):
            cur = c


@case(*F)
def clone_op(R):
    n = R.size(1, 6)
    pop = [make(R) for _ in range(n)]
    b = [before(i) for i in pop]
    R.note(n=n)
    out = pipe(iter(pop), ops.clone, ops.pool(size=n))
    check(len(out) == n, 'one clone per incoming individual')
    for c, i, bb in zip(out, pop, b):
        verify_clone(c, i, bb)
    check(len({c.uuid for c in out} | {i.uuid for i in pop}) == 2 * n, 'all ids differ')


@case(*F)
def independence(R):
    """changing the clone's genome in place never changes the original"""
    ind = make(R)
    b = before(ind)
    c = ind.clone()
    for x in mutable_parts(c.genome):
        if isinstance(x, dict):
            x['z'] = 1
        elif isinstance(x, list):
            x.append(77)
        elif len(x):
            x[0] = 99
    c.parents.add(c.uuid)
    c.fitness = 5
    R.note(genome=ind.genome)
    check(deep(ind.genome) == b['g'] and set(ind.parents) == b['p'] and ind.fitness is b['f'], 'the original is untouched by changes to the clone')
