from lib import *
from gen import *
from leap_ec.binary_rep import ops as bops
from leap_ec.real_rep import ops as rops
from leap_ec.int_rep import ops as iops
from leap_ec import ops

FILES = ('leap_ec/binary_rep/ops.py', 'leap_ec/real_rep/ops.py', 'leap_ec/int_rep/ops.py', 'leap_ec/ops.py')


def rate(R, n, kw):
    """-> (never, always)"""
    if R.flag():
        p = R.prob()
        kw['probability'] = p
        return p == 0, p == 1
    e = R.choice((0, R.uniform(0, n), 1 if n >= 1 else 0, float(n)))
    kw['expected_num_mutations'] = e
    return e == 0, False


def drive(R, op, inds):
    """run an operator on a stream; -> what came out"""
    out = []
    try:
        for x in op(iter(inds)):
            out.append(x)
    except RuntimeError:
        pass
    return out


def people(R, genomes):
    prob = Table(True)
    out = []
    for g in genomes:
        i = Individual(g, IdentityDecoder(), prob)
        i.fitness = R.real()
        out.append(i)
    return out


def common(inds, out, olds):
    check(ids(out) == ids(inds), 'every incoming individual comes out once, in order')
    for i, o in zip(out, olds):
        check(i.fitness is None, 'fitness is invalidated', i.fitness)
        check(isinstance(i.genome, np.ndarray) and i.genome.shape == o.shape, 'the genome keeps its length', i.genome, o)
    check(len({id(i.genome) for i in out}) == len(out), 'genomes are not shared')


@case(*FILES, weight=2)
def bitflip(R):
    n = R.size(1, 20)
    gs = [np.array([R.randint(0, 1) for _ in range(n)], dtype=R.choice((int, np.int8, float))) for _ in range(R.randint(0, 4))]
    kw = {}
    never, always = rate(R, n, kw)
    olds = [g.copy() for g in gs]
    inds = people(R, gs)
    R.note(n=n, **kw)
    out = drive(R, bops.mutate_bitflip(**kw), inds)
    common(inds, out, olds)
    for i, o in zip(out, olds):
        check(np.all((i.genome == 0) | (i.genome == 1)), 'every gene is a bit', i.genome)
        check(not never or np.array_equal(i.genome, o), 'no gene changes at rate zero')
        check(not always or np.array_equal(i.genome, 1 - o), 'every gene flips at rate one', i.genome, o)
    g = np.array([R.randint(0, 1) for _ in range(n)])
    r = bops.genome_mutate_bitflip(g.copy(), **kw)
    check(r.shape == g.shape and np.all((r == 0) | (r == 1)) and (not never or np.array_equal(r, g)) and (not always or np.array_equal(r, 1 - g)), 'genome-level bit flips', g, r)


@case(*FILES, weight=3)
def gaussian(R):
    n = R.size(1, 12)
    gs = [np.array([R.real(-20, 20) for _ in range(n)], dtype=float) for _ in range(R.randint(0, 3))]
    olds = [g.copy() for g in gs]
    inds = people(R, gs)
    kw = {}
    std = R.choice((0.0, R.real(0, 5), 1e3, [R.choice((0.0, R.real(0, 5))) for _ in range(n)], tuple([1.0] * n), np.array([R.choice((0.0, 2.0)) for _ in range(n)])))
    kw['std'] = std
    sv = np.broadcast_to(np.asarray(std, dtype=float), (n,))
    enm = R.choice(('isotropic', 0, 1, float(n), R.uniform(0, n)))
    kw['expected_num_mutations'] = enm
    form = R.choice(('none', 'pair', 'list', 'array', 'pairlist'))
    lo, hi = np.full(n, -math.inf), np.full(n, math.inf)
    if form in ('pair', 'pairlist'):
        a = R.real(-10, 10)
        b = a + abs(R.real(0, 10))
        kw['bounds'] = (a, b) if form == 'pair' else [a, b]
        lo[:], hi[:] = a, b
    elif form in ('list', 'array'):
        lo = np.array([R.real(-10, 10) for _ in range(n)])
        hi = lo + np.array([abs(R.real(0, 10)) for _ in range(n)])
        kw['bounds'] = [(float(x), float(y)) for x, y in zip(lo, hi)]
        if form == 'array':
            kw['bounds'] = np.array(kw['bounds'])
    slope, icept = 1.0, 0.0
    if R.flag(0.3):
        slope, icept = R.real(-2, 2), R.real(-2, 2)
        kw.update(transform_slope=slope, transform_intercept=icept)
    R.note(n=n, form=form, **{k: v for k, v in kw.items() if k != 'bounds'})
    out = drive(R, rops.mutate_gaussian(**kw), inds)
    common(inds, out, olds)
    for i, o in zip(out, olds):
        g = i.genome
        check(np.all((g >= lo) & (g <= hi)), 'every gene is inside its bounds', g, lo, hi)
        clip = np.clip(o, lo, hi)
        if enm == 0:
            check(np.array_equal(g, clip), 'no gene moves at rate zero (except into its bounds)', g, clip)
        tr = np.clip(slope * o + icept, lo, hi)
        for j in range(n):
            if sv[j] == 0:
                check(np.isclose(g[j], tr[j]) or (enm != 'isotropic' and g[j] == clip[j]), 'standard deviation zero adds no noise', j, g[j], tr[j], clip[j])
            elif enm == 'isotropic' and slope != 0 and lo[j] == -math.inf and sv[j] > 1e-3:
                check(g[j] != slope * o[j] + icept, 'isotropic mutation perturbs every gene', j)


@case(*FILES)
def hard_bounds(R):
    n = R.size(1, 10)
    x = np.array([R.real(-20, 20) for _ in range(n)])
    if R.flag(0.3):
        x = x.astype(int)
    lo = np.array([R.integer(-10, 10) for _ in range(n)])
    hi = lo + np.array([R.integer(0, 10) for _ in range(n)])
    form = R.choice(('pair', 'list', 'array'))
    b = [(int(p), int(q)) for p, q in zip(lo, hi)]
    if form == 'pair':
        lo, hi = np.full(n, lo[0]), np.full(n, hi[0])
        b = b[0]
    elif form == 'array':
        b = np.array(b)
    R.note(n=n, form=form, bounds=b)
    r = rops.apply_hard_bounds(x.copy(), b)
    check(np.array_equal(np.asarray(r), np.minimum(np.maximum(x, lo), hi)), 'the nearest value inside the bounds, gene by gene', r, x, b)


def int_genomes(R, n, lo, hi, outside=False):
    return [np.array([R.randint(int(a) - (3 if outside else 0), int(b) + (3 if outside else 0)) for a, b in zip(lo, hi)], dtype=R.choice((int, np.int32))) for _ in range(R.randint(0, 4))]


@case(*FILES, weight=2)
def randint(R):
    n = R.size(1, 14)
    lo = np.array([R.integer(-10, 10) for _ in range(n)])
    hi = lo + np.array([R.choice((0, 1, R.integer(0, 9))) for _ in range(n)])
    gs = int_genomes(R, n, lo, hi)
    olds = [g.copy() for g in gs]
    inds = people(R, gs)
    kw = {}
    never, always = rate(R, n, kw)
    b = [(int(p), int(q)) for p, q in zip(lo, hi)]
    if R.flag(0.3):
        b = np.array(b)
    R.note(n=n, bounds=b, **kw)
    out = drive(R, iops.mutate_randint(bounds=b, **kw), inds)
    common(inds, out, olds)
    for i, o in zip(out, olds):
        check(i.genome.dtype == o.dtype, 'the kind of gene is kept')
        check(np.all((i.genome >= lo) & (i.genome <= hi)), 'every gene is inside its own bounds', i.genome, lo, hi)
        check(not never or np.array_equal(i.genome, o), 'no gene changes at rate zero')


@case(*FILES, every=7)
def randint_reach(R):
    """both ends of the (inclusive) bounds are reachable: 120 genes with bounds (0,1) drawn at rate one are never all equal"""
    g = iops.individual_mutate_randint(np.zeros(120, dtype=int), bounds=[(0, 1)] * 120, probability=1.0)
    check(set(g.tolist()) == {0, 1}, 'both ends of the bounds are drawn', sorted(set(g.tolist())))


@case(*FILES, weight=2)
def binomial(R):
    n = R.size(1, 10)
    lo = np.array([R.integer(-10, 10) for _ in range(n)])
    hi = lo + np.array([R.choice((0, 1, R.integer(0, 30))) for _ in range(n)])
    gs = int_genomes(R, n, lo, hi, outside=R.flag())
    olds = [g.copy() for g in gs]
    inds = people(R, gs)
    kw = {}
    never, always = rate(R, n, kw)
    coins = R.choice((10000, 1000, 50))
    mx = math.sqrt(coins) / 2
    std = R.choice((0.0, R.uniform(0, min(3, mx)), mx * 0.999, [R.uniform(0, min(3, mx)) for _ in range(n)]))
    R.note(n=n, coins=coins, std=std, **kw)
    b = [(int(p), int(q)) for p, q in zip(lo, hi)]
    out = drive(R, iops.mutate_binomial(std=std, bounds=b, n=coins, **kw), inds)
    common(inds, out, olds)
    for i, o in zip(out, olds):
        check(i.genome.dtype == o.dtype, 'the kind of gene is kept')
        check(np.all((i.genome >= lo) & (i.genome <= hi)), 'every gene is inside its own bounds', i.genome, lo, hi)
        if never or (not isinstance(std, list) and std == 0.0):
            check(np.array_equal(i.genome, np.clip(o, lo, hi)), 'no gene moves at rate zero or with standard deviation zero', i.genome, o)


@case(*FILES)
def refused(R):
    op = R.choice(('bitflip', 'randint', 'binomial'))
    f = {'bitflip': lambda **kw: bops.mutate_bitflip(**kw), 'randint': lambda **kw: iops.mutate_randint(bounds=[(0, 1)] * 3, **kw),
         'binomial': lambda **kw: iops.mutate_binomial(std=1.0, bounds=[(0, 1)] * 3, **kw)}[op]
    what = R.choice(('both', 'neither', 'range'))
    kw = {'both': dict(expected_num_mutations=R.choice((0, 1)), probability=R.choice((0.0, 0.5, 1.0))), 'neither': {},
          'range': dict(probability=R.choice((-0.1, 1.1, 2, -1e-9, 1 + 1e-9)))}[what]
    R.note(op=op, what=what, **kw)
    log = []

    def up():
        log.append(1)
        yield people(R, [np.array([0, 1, 0])])[0]
    try:
        r = f(**kw)(up())
        next(r)
    except ValueError:
        check(not log, 'nothing is taken from upstream')
        return
    check(False, 'refused with ValueError')


@case(*FILES)
def rates(R):
    n = R.size(1, 200, cap=5000)
    e = R.choice((0, n, float(n), R.uniform(0, n)))
    p = ops.compute_expected_probability(e, [0] * n)
    R.note(n=n, expected=e)
    check(0 <= p <= 1, 'a rate between 0 and the genome length is a probability', p)
    check(math.isclose(p * n, e, rel_tol=1e-9, abs_tol=1e-12), 'probability times length is the expected number of mutations', p, n, e)


@case(*FILES)
def not_arrays(R):
    """genomes that are no arrays are refused, not silently mangled"""
    g = R.choice(([0, 1, 1], (0, 1), [0.5, 1.5]))
    f = R.choice((lambda x: bops.genome_mutate_bitflip(x, expected_num_mutations=1), lambda x: rops.genome_mutate_gaussian(x, std=1.0, expected_num_mutations=1),
                  lambda x: iops.individual_mutate_randint(x, bounds=[(0, 1)] * 3, expected_num_mutations=1),
                  lambda x: iops.genome_mutate_binomial(std=1.0, bounds=[(0, 1)] * 3, expected_num_mutations=1)(x)))
    R.note(g=g)
    raises(ValueError, f, g)


@case(*FILES)
def gaussian_defaults(R):
    """the options left out: no bounds, no transformation"""
    n = R.size(1, 12)
    g = np.array([R.real(-1e6, 1e6) for _ in range(n)], dtype=float)
    enm = R.choice(('isotropic', 0, 1, float(n)))
    R.note(genome=g, expected=enm)
    for r in (rops.genome_mutate_gaussian(g.copy(), std=0.0, expected_num_mutations=enm), drive(R, rops.mutate_gaussian(std=0.0, expected_num_mutations=enm), people(R, [g.copy()]))[0].genome):
        check(np.allclose(r, g, rtol=1e-9), 'without noise, bounds or transformation a gene keeps its value', r, g)
    raises(ValueError, lambda: next(iter(rops.mutate_gaussian(iter(people(R, [g.copy()])), std=1.0, expected_num_mutations=None))))


@case(*FILES)
def binomial_std(R):
    """a standard deviation that so many coins cannot have is refused, every other one accepted"""
    coins = R.choice((1, 4, 50, 100, 1000, 10000))
    mx = math.sqrt(coins) / 2
    q = R.choice((1.01, 1.5, 3, 0.99, 0.5, 0.1))
    vector = R.flag(0.3)
    std = [mx * q] * 3 if vector else mx * q
    R.note(coins=coins, std=std)
    f = lambda: next(iter(iops.mutate_binomial(iter(people(R, [np.array([1, 2, 3])])), std=std, bounds=[(-9, 9)] * 3, n=coins, expected_num_mutations=1)))
    if q > 1:
        raises(ValueError, f)
    else:
        check(f().genome.shape == (3,), 'a possible standard deviation is accepted')


@case(*FILES, every=5)
def randint_redraw(R):
    """at rate one every gene is drawn anew: none of 20 keeps its value among 10**15"""
    old = np.array([R.randint(0, 10 ** 15) for _ in range(20)])
    new = iops.individual_mutate_randint(old.copy(), bounds=[(0, 10 ** 15)] * 20, probability=1.0)
    check(np.all(new != old), 'every gene is redrawn at rate one', old, new)


@case(*FILES, every=100)
def every_gene(R):
    """every gene can be mutated (missing one in 500 draws by chance: below 1e-40)"""
    n = R.randint(2, 4)
    kw = R.choice((dict(expected_num_mutations=1), dict(probability=0.5)))
    b = [(-1000, 1000)] * n
    for op, g in ((bops.mutate_bitflip(**kw), np.zeros(n, dtype=int)), (iops.mutate_randint(bounds=b, **kw), np.zeros(n, dtype=int)),
                  (iops.mutate_binomial(std=20.0, bounds=b, **kw), np.zeros(n, dtype=int)), (rops.mutate_gaussian(std=1.0, bounds=(-1000, 1000), expected_num_mutations=1), np.zeros(n))):
        hit, spared = set(), set()
        for _ in range(500):
            x = next(op(iter([Individual(g.copy(), IdentityDecoder(), Table())])))
            for j, v in enumerate(x.genome):
                (hit if v != 0 else spared).add(j)
        check(hit == set(range(n)), 'every gene is sometimes mutated', op, sorted(hit), n)
        check(spared == set(range(n)), 'every gene is sometimes left alone', op, sorted(spared), n)
