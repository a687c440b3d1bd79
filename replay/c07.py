from lib import *
from gen import *
from collections import Counter
from leap_ec import ops

OPS = 'leap_ec/ops.py'


def pair(R, n, m, as_list=False, tagged=True, prob=None):
    mk = lambda vals: list(vals) if as_list else np.array(list(vals))
    if as_list and R.flag():
        a, b = mk([[i, 0] for i in range(n)]), mk([[1000 + i, 1] for i in range(m)])
    elif R.flag(0.3) and not as_list:
        a, b = np.arange(n) + 0.5, np.arange(m) + 1000.25
    else:
        a, b = mk(range(n)), mk(range(1000, 1000 + m))
    out = []
    for g in (a, b):
        i = Individual(g, IdentityDecoder(), prob)
        i.fitness = R.real()
        i.parents = {object() for _ in range(R.randint(0, 2))}
        out.append(i)
    return out


def key(g):
    return [tuple(x) if isinstance(x, list) else (x.item() if hasattr(x, 'item') else x) for x in g]


def conserved(A, B, G, H):
    check(Counter(key(G) + key(H)) == Counter(A + B), 'no gene is lost, duplicated or invented', A, B, key(G), key(H))


def pattern(A, B, G, H):
    """per locus: exchanged?  (genes are unique)"""
    p = []
    for j in range(len(A)):
        if G[j] == A[j] and H[j] == B[j]:
            p.append(False)
        else:
            check(G[j] == B[j] and H[j] == A[j], 'every locus keeps or exchanges its two genes', j, A, B, G, H)
            p.append(True)
    return p


@case(OPS, weight=2)
def uniform(R):
    n = R.size(0, 12)
    m = n if R.flag(0.6) else R.size(0, 12)
    a, b = pair(R, n, m)
    A, B = key(a.genome), key(b.genome)
    p = R.prob()
    R.note(n=n, m=m, p_swap=p)
    op = ops.UniformCrossover(p_swap=p)
    x, y = op.recombine(a, b)
    check({id(x), id(y)} == {id(a), id(b)}, 'the children are the two individuals passed in')
    G, H = key(x.genome), key(y.genome)
    conserved(A, B, G, H)
    k = min(n, m)
    check((len(G), len(H)) == (n, m), 'genome lengths stay')
    pat = pattern(A[:k], B[:k], G, H)
    check(G[k:] == A[k:] and H[k:] == B[k:], 'the tail of the longer genome stays')
    if p == 0:
        check(not any(pat), 'no swap with probability zero')
    if p == 1:
        check(all(pat), 'every locus swaps with probability one')
    check(not np.shares_memory(x.genome, y.genome), 'the children do not share a genome')


@case(OPS, weight=2)
def nary(R):
    n = R.size(1, 14)
    m = n if R.flag(0.6) else R.size(1, 14)
    aslist = R.flag(0.4)
    a, b = pair(R, n, m, aslist)
    A, B = key(a.genome), key(b.genome)
    k = R.choice((1, 2, 3, R.randint(1, max(1, min(n, m))), n, R.size(1, n + 2)))
    R.note(n=n, m=m, num_points=k, list=aslist)
    op = ops.NAryCrossover(num_points=k)
    if k > min(n, m):
        try:
            op.recombine(a, b)
        except (RuntimeError, ValueError):
            check(key(a.genome) == A and key(b.genome) == B, 'a refused recombination changes nothing')
            return
        check(False, 'more crossing points than genes are refused')
    x, y = op.recombine(a, b)
    check({id(x), id(y)} == {id(a), id(b)}, 'the children are the two individuals passed in')
    check(isinstance(x.genome, list) == aslist and isinstance(y.genome, list) == aslist, 'the kind of genome is kept')
    G, H = key(x.genome), key(y.genome)
    conserved(A, B, G, H)
    if n == m:
        pat = pattern(A, B, G, H)
        cuts = sum(1 for u, v in zip([False] + pat, pat) if u != v)
        check(cuts == k, 'the genomes are cut at exactly num_points places', cuts, k)


@case(OPS, weight=2)
def in_pipeline(R):
    n = R.size(2, 8)
    cnt = R.size(0, 8)
    prob = Table(True)
    pop = []
    for i in range(cnt):
        g = np.arange(n) + 1000 * i
        ind = Individual(g, IdentityDecoder(), prob)
        ind.fitness = R.real()
        ind.parents = {('p', i)}
        pop.append(ind)
    orig = [(key(p.genome), p.fitness, set(p.parents)) for p in pop]
    px = R.choice((0.0, 1.0, R.random()))
    per = R.flag()
    mk = R.choice((lambda: ops.UniformCrossover(p_swap=R.choice((0.5, 1.0)), p_xover=px, persist_children=per),
                   lambda: ops.NAryCrossover(num_points=R.randint(1, n), p_xover=px, persist_children=per)))
    op = mk()
    R.note(n=n, count=cnt, p_xover=px, persist=per)
    up = iter(pop)
    out = []
    try:
        for x in op(up):
            out.append(x)
    except RuntimeError:
        pass
    check(ids(out) == ids(pop[:cnt - cnt % 2]), 'the incoming individuals come out in order, pair by pair')
    for i in range(0, len(out), 2):
        a, b = out[i], out[i + 1]
        (A, fa, pa), (B, fb, pb) = orig[i], orig[i + 1]
        G, H = key(a.genome), key(b.genome)
        conserved(A, B, G, H)
        if (G, H) != (A, B) or px == 1.0:
            check(a.fitness is None and b.fitness is None, 'recombined individuals lose their fitness', a.fitness, b.fitness)
            check(a is b or a.parents is not b.parents, 'each keeps a record of its own')
            check(a.parents == b.parents == pa | pb, 'recombined individuals record both sets of parents', a.parents, b.parents)
        if px == 0.0:
            check((G, H) == (A, B) and a.fitness == fa and b.fitness == fb and a.parents == pa and b.parents == pb, 'others pass through untouched')
        check((a.fitness is None) == (b.fitness is None), 'a pair is recombined together')
        check((a.fitness is None) or (a.fitness == fa and b.fitness == fb and (G, H) == (A, B)), 'others pass through untouched')


@case(OPS)
def persistence(R):
    """an unfinished pair: the second child is delivered first on the next request, exactly once, if asked for"""
    prob = Table(True)
    pop = [Individual(np.array([i, i]), IdentityDecoder(), prob) for i in range(40)]
    per = R.flag()
    op = R.choice((ops.UniformCrossover, ops.NAryCrossover))(p_xover=R.choice((0.0, 1.0)), persist_children=per)
    up = iter(pop)
    want, i, left = [], 0, None
    got = []
    for _ in range(R.randint(1, 4)):
        take = R.randint(0, 4)
        st = op(up)
        for t in range(take):
            got.append(next(st))
        if per and left is not None and take > 0:
            want.append(left)
            left = None
            take -= 1
        elif not per and take > 0:
            left = None
        while take > 0:
            want.append(pop[i])
            left = pop[i + 1]
            i += 2
            take -= 1
            if take > 0:
                want.append(left)
                left = None
                take -= 1
    R.note(persist=per)
    check(ids(got) == ids(want), 'children left over are delivered once, in order', [int(g.genome[0]) for g in got], [int(g.genome[0]) for g in want])


@case(OPS)
def bernoulli(R):
    p = R.choice((0.0, 1.0, R.random(), -0.1, 1.1, -1e-9, 1.0 + 1e-9))
    shape = R.choice((R.size(0, 20), (R.randint(0, 4), R.randint(0, 4)), (R.randint(0, 5),)))
    R.note(p=p, shape=shape)
    if not 0 <= p <= 1:
        raises(AssertionError, ops.random_bernoulli_vector, shape, p)
        return
    v = ops.random_bernoulli_vector(shape, p)
    check(v.dtype == bool and v.shape == ((shape,) if isinstance(shape, int) else shape), 'a boolean vector of the shape asked for', v.shape, v.dtype)
    if p in (0.0, 1.0):
        check(bool(np.all(v == bool(p))), 'certain outcomes are certain')


@case(OPS, every=100)
def reach(R):
    """every locus gets its turn (missing one in 500 draws by chance: below 1e-30)"""
    n = R.randint(2, 5)
    kept, moved, cuts = set(), set(), set()
    kw = R.choice(({}, dict(p_swap=0.5), dict(p_swap=0.8)))
    uni, one = ops.UniformCrossover(**kw), ops.NAryCrossover(num_points=1)
    for _ in range(500):
        a, b = [Individual(np.arange(n) + 100 * k, IdentityDecoder(), Table()) for k in range(2)]
        x, _ = uni.recombine(a, b)
        for j in range(n):
            (kept if x.genome[j] < 100 else moved).add(j)
        a, b = [Individual(np.arange(n) + 100 * k, IdentityDecoder(), Table()) for k in range(2)]
        x, _ = one.recombine(a, b)
        cuts.add(sum(1 for v in x.genome if v < 100))
    check(kept == moved == set(range(n)), 'every locus is sometimes kept and sometimes exchanged', sorted(kept), sorted(moved))
    check(set(range(1, n)) <= cuts, 'every position is sometimes the cutting point', sorted(cuts), n)
