from lib import *
from gen import *
import itertools
from leap_ec.executable_rep import cgp

FILES = ('leap_ec/executable_rep/cgp.py',)


class Prim:
    """a primitive without a declared arity: takes every input"""
    def __init__(self, k):
        self.k = k

    def __call__(self, *a):
        return ('p%d' % self.k,) + a


def primitives(R, arity):
    out = []
    for k in range(R.randint(1, 3)):
        if R.flag():
            out.append(Prim(k))
        else:
            n = R.randint(0, arity)
            out.append(cgp.FunctionPrimitive(Prim(k), n))
    return out


def build(R, cls=cgp.CGPDecoder, **kw):
    d = dict(num_inputs=R.randint(1, 3), num_outputs=R.randint(1, 3), num_layers=R.randint(1, 4), nodes_per_layer=R.randint(1, 3), max_arity=R.randint(1, 3),
             levels_back=R.choice((None, None, 1, 2, 3, 5)))
    prims = primitives(R, d['max_arity'])
    prune = R.choice((None, True, False))
    if prune is not None:
        kw['prune'] = prune
    R.note(**d, prims=len(prims), prune=prune)
    return cls(prims, **d, **kw), d, prims


def limits(d, prims):
    """the documented bounds of every gene, from the definition"""
    lb = d['levels_back'] if d['levels_back'] is not None else d['num_layers']
    out = []
    for l in range(d['num_layers']):
        lo = 0 if l < lb else d['num_inputs'] + (l - lb) * d['nodes_per_layer']
        hi = d['num_inputs'] + l * d['nodes_per_layer'] - 1
        for n in range(d['nodes_per_layer']):
            out.append((0, len(prims) - 1))
            out += [(lo, hi)] * d['max_arity']
    out += [(0, d['num_inputs'] + d['num_layers'] * d['nodes_per_layer'] - 1)] * d['num_outputs']
    return out


def genome_for(R, d, prims):
    return [R.randint(lo, hi) for lo, hi in limits(d, prims)]


def meaning(d, prims, genome, inputs, params=None, per=0):
    """the value of the circuit, straight from the definition"""
    memo = {}
    w = d['max_arity'] + 1

    def node(i):
        if i < d['num_inputs']:
            return inputs[i]
        if i not in memo:
            c = i - d['num_inputs']
            f = prims[genome[c * w]]
            src = [int(g) for g in genome[c * w + 1:c * w + w]]
            n = getattr(f, 'arity', None)
            if n is not None:
                src = src[:n]
            a = [node(s) for s in src]
            if params is not None:
                a += list(params[c * per:c * per + per])
            memo[i] = (f(*a) if not isinstance(f, cgp.FunctionPrimitive) else f.func(*a))
        return memo[i]
    k = d['num_layers'] * d['nodes_per_layer'] * w
    return [node(int(g)) for g in genome[k:]]


@case(*FILES, weight=3)
def execution(R):
    dec, d, prims = build(R)
    genome = genome_for(R, d, prims)
    R.note(genome=genome)
    g = R.choice((list, np.array))(genome)
    ex = dec.decode(g)
    for _ in range(2):
        inp = [R.randint(0, 9) for _ in range(d['num_inputs'])]
        out = ex(inp)
        check(list(out) == meaning(d, prims, genome, inp), 'the circuit computes what its genome says', out, meaning(d, prims, genome, inp))
    check(list(map(int, g)) == genome, 'the genome is left alone')
    raises(AssertionError, dec.decode, genome[:-1])
    raises(AssertionError, ex, inp + [1])


@case(*FILES, weight=2)
def execution_with_parameters(R):
    per = R.randint(0, 2)
    dec, d, prims = build(R, cgp.CGPWithParametersDecoder, num_parameters_per_node=per)
    prims2 = []
    genome = genome_for(R, d, prims)
    params = [R.randint(100, 200) for _ in range(per * d['num_layers'] * d['nodes_per_layer'])]
    R.note(genome=genome, params=params)
    ex = dec.decode([R.choice((list, np.array))(genome), R.choice((list, np.array))(params)])
    inp = [R.randint(0, 9) for _ in range(d['num_inputs'])]
    out = ex(inp)
    want = meaning(d, prims, genome, inp, params, per)
    check(norm(out) == norm(want), 'the circuit computes what its genome and parameters say', out, want)


def norm(v):
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    return v if isinstance(v, str) else int(v)


@case(*FILES, weight=2)
def layout(R):
    dec, d, prims = build(R)
    lim = limits(d, prims)
    check(dec.num_genes() == len(lim), 'the number of genes', dec.num_genes(), len(lim))
    check(dec.num_cgp_nodes() == d['num_inputs'] + d['num_outputs'] + d['num_layers'] * d['nodes_per_layer'], 'the number of nodes')
    check([tuple(map(int, b)) for b in dec.bounds()] == lim, 'the bounds of every gene', dec.bounds(), lim)
    genome = genome_for(R, d, prims)
    w = d['max_arity'] + 1
    for l in range(d['num_layers']):
        for n in range(d['nodes_per_layer']):
            c = l * d['nodes_per_layer'] + n
            check(dec.get_primitive(genome, l, n) is prims[genome[c * w]], 'the primitive of a node')
            check(list(dec.get_input_sources(genome, l, n)) == genome[c * w + 1:c * w + w], 'the inputs of a node')
    check(list(dec.get_output_sources(genome)) == genome[len(genome) - d['num_outputs']:], 'the outputs')


@case(*FILES, every=10 ** 9)
def all_layouts(R):
    """the bounds, for all small circuits"""
    for i, o, l, n, a in itertools.product(range(1, 4), range(1, 3), range(1, 5), range(1, 4), range(1, 4)):
        for lb in (None, 1, 2, 3, 4, 5):
            d = dict(num_inputs=i, num_outputs=o, num_layers=l, nodes_per_layer=n, max_arity=a, levels_back=lb)
            prims = [Prim(0)] * (1 + (i + l) % 3)
            dec = cgp.CGPDecoder(prims, **d)
            check([tuple(map(int, b)) for b in dec.bounds()] == limits(d, prims), 'the bounds of every gene', d, dec.bounds())
            check(dec.num_genes() == len(limits(d, prims)), 'the number of genes', d)


@case(*FILES, weight=2)
def valid_genomes(R):
    """initialisation and mutation stay within the constraints; check_constraints lets exactly the valid ones pass"""
    dec, d, prims = build(R)
    lim = limits(d, prims)
    ok = lambda g: len(g) == len(lim) and all(lo <= v <= hi and float(v).is_integer() for v, (lo, hi) in zip(g, lim))
    np.random.seed(R.randint(0, 2 ** 31))
    random.seed(R.randint(0, 2 ** 31))
    g = R.choice((dec.initializer(), cgp.create_cgp_vector(dec)))()
    check(ok(g), 'initial genomes satisfy the constraints', list(g), lim)
    ind = Individual(g, dec, Table())
    how = R.choice((dict(expected_num_mutations=R.choice((1, 2, len(lim)))), dict(probability=R.choice((0.2, 1.0)))))
    m = next(cgp.cgp_mutate(dec, **how)(iter([ind])))
    check(ok(m.genome), 'mutated genomes satisfy the constraints', list(m.genome), lim)
    h = cgp.cgp_genome_mutate(dec, **how)(np.array(m.genome))
    check(ok(h), 'mutated genomes satisfy the constraints', list(h), lim)
    x = Individual(np.array([int(v) for v in h]), dec, Table())
    check(next(dec.check_constraints(iter([x]))) is x, 'a valid individual passes')
    bad = [int(v) for v in h]
    j = R.randint(0, len(bad) - 1)
    kind = R.choice(('high', 'low', 'short', 'long', 'float'))
    if kind == 'high':
        bad[j] = lim[j][1] + 1
    elif kind == 'low':
        bad[j] = lim[j][0] - 1
    elif kind == 'short':
        bad = bad[:-1]
    elif kind == 'long':
        bad = bad + [0]
    y = Individual(np.array(bad, dtype=float if kind == 'float' else int), dec, Table())
    raises(ValueError, next, dec.check_constraints(iter([y])))


@case(*FILES)
def parameters_initialised(R):
    dec, d, prims = build(R, cgp.CGPWithParametersDecoder, num_parameters_per_node=1)
    np.random.seed(R.randint(0, 2 ** 31))
    tag = [object()]
    g = dec.initialize(lambda: tag)()
    lim = limits(d, prims)
    check(len(g) == 2 and g[1] is tag and len(g[0]) == len(lim) and all(lo <= v <= hi for v, (lo, hi) in zip(g[0], lim)), 'two segments, the circuit within its constraints')


@case(*FILES)
def standard_primitives(R):
    a, b = R.flag(), R.flag()
    check(cgp.NAND()(a, b) == (not (a and b)) and cgp.NAND().arity == 2, 'NAND')
    check(cgp.NotX()(a) == (not a) and cgp.NotX().arity == 1, 'NotX')


@case(*FILES, every=100)
def reach(R):
    """initial genes and mutated genes reach both ends of their bounds (missing one in 500 draws by chance: below 1e-15 per gene)"""
    dec, d, prims = build(R)
    lim = limits(d, prims)
    if any(hi - lo > 5 for lo, hi in lim):
        return
    f = dec.initializer()
    seen = [set() for _ in lim]
    for _ in range(500):
        for s, v in zip(seen, f()):
            s.add(int(v))
    check(all({lo, hi} <= s for s, (lo, hi) in zip(seen, lim)), 'initial genes reach both ends of their bounds', [sorted(s) for s in seen], lim)
