from lib import *
from gen import *
from leap_ec.segmented_rep import ops as sops
from leap_ec.segmented_rep.decoders import SegmentedDecoder
from leap_ec.binary_rep.ops import genome_mutate_bitflip
from leap_ec.binary_rep.decoders import BinaryToIntDecoder

FILES = ('leap_ec/segmented_rep/ops.py', 'leap_ec/segmented_rep/decoders.py', 'leap_ec/ops.py')


def people(R, lo=0):
    """individuals with segmented genomes (lists of arrays), every segment an object of its own"""
    prob = Table(True)
    out, c = [], [0]
    for _ in range(R.randint(0, 4)):
        g = []
        for _ in range(R.size(lo, 6)):
            c[0] += 1
            g.append(np.array([c[0] * 100 + i for i in range(R.randint(0, 3))]))
        x = Individual(g, IdentityDecoder(), prob)
        x.fitness = R.real()
        out.append(x)
    return out


def drive(op, inds):
    out = []
    try:
        for x in op(iter(inds)):
            out.append(x)
    except RuntimeError:
        pass
    return out


def before(inds):
    return [(list(x.genome), [s.copy() for s in x.genome], x.fitness) for x in inds]


def eq(a, b):
    return a.shape == b.shape and bool(np.all(a == b))


def stay(new, old):
    """the very segments, with their genes"""
    return len(new) == len(old[0]) and all(n is o and eq(n, c) for n, o, c in zip(new, old[0], old[1]))


def without(new, p):
    return new[:p] + new[p + 1:]


def common(out, inds):
    check(ids(out) == ids(inds), 'every incoming individual comes out once, in order')
    segs = [id(s) for x in out for s in x.genome]
    check(len(set(segs)) == len(segs), 'no segment object occurs twice')


@case(*FILES, weight=2)
def add(R):
    inds = people(R)
    p, end = R.prob(), R.flag()
    made = []

    def init():
        made.append(np.array([-len(made)]))
        return made[-1]
    olds = before(inds)
    R.note(p=p, append=end, genomes=[o[1] for o in olds])
    out = drive(sops.add_segment(seq_initializer=init, probability=p, append=end), inds)
    common(out, inds)
    used = 0
    for x, o in zip(out, olds):
        if len(x.genome) == len(o[0]):
            check(stay(x.genome, o) and x.fitness == o[2] and p < 1, 'no segment added: nothing changes', x.genome)
            continue
        check(p > 0, 'nothing is added at probability zero')
        at = [j for j, s in enumerate(x.genome) if any(s is m for m in made)]
        check(len(at) == 1 and stay(without(x.genome, at[0]), o), 'one new segment goes in, the others stay', x.genome, o[1])
        check(x.genome[at[0]] is made[used], 'it is the one just made')
        used += 1
        check(not end or at[0] == len(o[0]), 'appended at the end when asked')
        check(x.fitness is None, 'fitness is invalidated')


@case(*FILES, weight=2)
def copy_seg(R):
    inds = people(R, 1)
    p, end = R.prob(), R.flag()
    olds = before(inds)
    R.note(p=p, append=end, genomes=[o[1] for o in olds])
    out = drive(sops.copy_segment(probability=p, append=end), inds)
    common(out, inds)
    for x, o in zip(out, olds):
        if len(x.genome) == len(o[0]):
            check(stay(x.genome, o) and x.fitness == o[2] and p < 1, 'no segment copied: nothing changes', x.genome)
            continue
        check(p > 0, 'nothing is copied at probability zero')
        at = [j for j, s in enumerate(x.genome) if not any(s is m for m in o[0])]
        check(len(at) == 1 and stay(without(x.genome, at[0]), o), 'one copy goes in, the others stay', x.genome, o[1])
        check(any(eq(x.genome[at[0]], c) for c in o[1]), 'it equals one of the segments', x.genome, o[1])
        check(not end or at[0] == len(o[0]), 'appended at the end when asked')
        check(x.fitness is None, 'fitness is invalidated')


@case(*FILES)
def remove(R):
    inds = people(R)
    p = R.prob()
    olds = before(inds)
    R.note(p=p, genomes=[o[1] for o in olds])
    out = drive(sops.remove_segment(probability=p), inds)
    common(out, inds)
    for x, o in zip(out, olds):
        if len(x.genome) == len(o[0]):
            check(stay(x.genome, o) and x.fitness == o[2] and (p < 1 or len(o[0]) <= 1), 'no segment removed: nothing changes', x.genome)
            continue
        check(p > 0 and len(o[0]) > 1 and len(x.genome) == len(o[0]) - 1, 'at most one segment is removed, and never the last one')
        gone = [j for j, s in enumerate(o[0]) if not any(s is m for m in x.genome)]
        check(len(gone) == 1 and stay(x.genome, (without(o[0], gone[0]), without(o[1], gone[0]))), 'the others stay', x.genome, o[1])
        check(x.fitness is None, 'fitness is invalidated')


@case(*FILES, weight=2)
def mutators(R):
    inds = people(R, 1)
    olds = before(inds)
    which = R.choice(('apply', 'segmented', 'mismatch'))
    if which == 'apply':
        e = R.choice((1.0, R.uniform(0, 1)))
        seen = []

        def m(segment, expected_num_mutations):
            seen.append(expected_num_mutations)
            if place:
                segment += 7
                return segment
            return segment + 7
        place = R.flag()
        R.note(which=which, e=e, genomes=[o[1] for o in olds])
        out = drive(sops.apply_mutation(mutator=m, expected_num_mutations=e), inds)
        common(out, inds)
        for x, o in zip(out, olds):
            check(len(x.genome) == len(o[1]) and all(eq(a, b + 7) for a, b in zip(x.genome, o[1])), 'each segment is replaced by its mutant', x.genome, o[1])
            mine, seen = seen[:len(o[1])], seen[len(o[1]):]
            check(len(mine) == len(o[1]) and abs(sum(mine) - e) < 1e-9 and max(mine) - min(mine) < 1e-12, 'the segments share the expected number of mutations', mine, e)
            check(x.fitness is None, 'fitness is invalidated')
        return
    if not inds:
        return
    n = len(inds[0].genome)
    if which == 'mismatch':
        k = R.choice([j for j in range(0, 8) if j != n])
        ms = [lambda s: s] * k
        raises(AssertionError, lambda: next(iter(sops.segmented_mutate(mutator_functions=ms)(iter(inds)))))
        check(stay(inds[0].genome, olds[0]) and inds[0].fitness == olds[0][2], 'a refused individual is left alone')
        return
    inds = [x for x in inds if len(x.genome) == n]
    olds = before(inds)
    def in_place(s, j):
        s *= 2
        s += j
        return s
    inplace = R.choice((True, False, None))
    ms = [(lambda s, j=j: in_place(s, j)) if (R.flag() if inplace is None else inplace) else (lambda s, j=j: s * 2 + j) for j in range(n)]
    R.note(which=which, genomes=[o[1] for o in olds])
    out = drive(sops.segmented_mutate(mutator_functions=ms), inds)
    common(out, inds)
    for x, o in zip(out, olds):
        check(len(x.genome) == n and all(eq(a, b * 2 + j) for j, (a, b) in enumerate(zip(x.genome, o[1]))), 'each segment gets its own mutator', x.genome, o[1])
        check(x.fitness is None, 'fitness is invalidated')


@case(*FILES)
def chain(R):
    """copy, then change segments in place: segments do not move together"""
    x = Individual([np.array([R.randint(0, 1) for _ in range(4)]) for _ in range(R.randint(1, 4))])
    for _ in range(R.randint(1, 3)):
        x = next(iter(sops.copy_segment(iter([x]), probability=1.0, append=R.flag())))
    x = x.clone() if R.flag() else x
    old = [s.copy() for s in x.genome]
    j = R.randint(0, len(old) - 1)
    x.genome[j][:] = 5
    R.note(genome=old, changed=j)
    for i, (a, b) in enumerate(zip(x.genome, old)):
        check(i == j or eq(a, b), 'changing one segment leaves the others alone', x.genome, old)


@case(*FILES)
def decode(R):
    a, b = R.randint(1, 4), R.randint(1, 4)
    g = [np.array([R.randint(0, 1) for _ in range(a + b)]) for _ in range(R.size(0, 6))]
    d = BinaryToIntDecoder(a, b)
    vals = SegmentedDecoder(d).decode(g)
    R.note(genome=g)
    check(len(vals) == len(g) and all(list(v) == list(d.decode(s)) for v, s in zip(vals, g)), 'one decoded value per segment, in order', vals)


@case(*FILES, every=100)
def reach(R):
    """every position and every segment gets its turn (missing one in 400 draws by chance: below 1e-30)"""
    n = R.randint(2, 4)
    segs = [np.array([10 * i, 10 * i + 1]) for i in range(n)]
    where, copied, gone = set(), set(), set()
    for _ in range(400):
        mk = lambda: Individual([s.copy() for s in segs], IdentityDecoder(), Table())
        x = next(sops.add_segment(iter([mk()]), seq_initializer=lambda: np.array([-1, -1]), probability=1.0))
        where.add(next(j for j, s in enumerate(x.genome) if s[0] == -1))
        x = next(sops.copy_segment(iter([mk()]), probability=1.0))
        firsts = [int(s[0]) // 10 for s in x.genome]
        copied.update(v for v in firsts if firsts.count(v) == 2)
        x = next(sops.remove_segment(iter([mk()]), probability=1.0))
        gone |= set(range(n)) - {int(s[0]) // 10 for s in x.genome}
    check(where == set(range(n + 1)), 'a new segment can go to every position', sorted(where), n)
    check(copied == set(range(n)), 'every segment can be copied', sorted(copied), n)
    check(gone == set(range(n)), 'every segment can be removed', sorted(gone), n)
