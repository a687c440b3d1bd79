from lib import *
from gen import *
import logging
logging.disable(logging.WARNING)
from gymnasium import spaces
from leap_ec.executable_rep import rules as RU, executable as EX, neural_network as NN
from leap_ec.global_vars import context as CTX

FILES = ('leap_ec/executable_rep/rules.py',)
NETS = ('leap_ec/executable_rep/neural_network.py',)
EXES = ('leap_ec/executable_rep/executable.py',)
ORDER = RU.PittRulesExecutable.PriorityMetric.RULE_ORDER


def eighths(R, lo=0, hi=8):
    return R.randint(lo, hi) / 8.0


def box(R, n=None):
    """an input space whose dimensions differ, flat or one row; its lows and highs"""
    n = n if n is not None else R.randint(1, 4)
    lo = [4.0 * d - R.randint(0, 2) for d in range(n)]
    hi = [l + R.randint(1, 3) for l in lo]
    row = R.flag()
    R.note(lo=lo, hi=hi, row=row)
    a, b = np.array(lo, dtype=np.float32), np.array(hi, dtype=np.float32)
    s = spaces.Box(low=a.reshape(1, -1), high=b.reshape(1, -1), dtype=np.float32) if row else spaces.Box(low=a, high=b, dtype=np.float32)
    s.seed(R.randint(0, 2 ** 20))
    return s, lo, hi


@case(*FILES, weight=2)
def layout(R):
    s, lo, hi = box(R)
    n, k, m = len(lo), R.randint(1, 5), R.randint(1, 4)
    out = spaces.Discrete(k)
    out.seed(R.randint(0, 2 ** 20))
    d = RU.PittRulesDecoder(input_space=s, output_space=out)
    check(d.num_inputs == n and d.num_outputs == 1 and d.num_memory_registers == 0, 'dimensions of the spaces', d.num_inputs, d.num_outputs)
    check(d.num_genes_per_rule == 2 * n + 1, 'two genes per input and one per output', d.num_genes_per_rule)
    want = [(lo[i // 2], hi[i // 2]) for i in range(2 * n)]
    check([tuple(map(float, b)) for b in d.condition_bounds] == want, 'both genes of a condition have the bounds of their input', d.condition_bounds)
    check([tuple(b) for b in d.action_bounds] == [(0, k - 1)], 'an action is one of those there are', d.action_bounds)
    B = d.bounds(m)
    check(len(B) == m and all([tuple(map(float, b)) for b in r] == want + [(0.0, k - 1.0)] for r in B), 'bounds of every rule', B)
    g = d.initializer(m)()
    check(len(g) == m, 'as many rules as asked for', len(g))
    for seg in g:
        check(len(seg) == 2 * n + 1, 'genes per rule', seg)
        for i, v in enumerate(seg[:-1]):
            check(want[i][0] <= v <= want[i][1], 'an initial condition gene is within its bounds', i, v, want[i])
        check(seg[-1] == int(seg[-1]) and 0 <= seg[-1] < k, 'an initial action is one of those there are', seg)
    raises(AssertionError, RU.PittRulesDecoder, None, out)
    raises(AssertionError, RU.PittRulesDecoder, s, None)


def make_rules(R, n, outs, k, m):
    """segments of genes: conditions on a coarse grid (wildcards included), actions that round clearly"""
    segs = []
    for _ in range(m):
        c = []
        for _ in range(n):
            a, b = eighths(R), eighths(R)
            if a > b and R.prob() < 0.7:
                a, b = b, a
            c += [a, b]
        segs.append(c + [R.randint(0, k - 1) + R.choice((0.0, 0.0, 0.25, -0.25, 0.4375)) for _ in range(outs)])
    return segs


def oracle(n, segs, x):
    """indices of the rules that may fire"""
    scores = []
    for s in segs:
        t = 0.0
        for i in range(n):
            lo, hi = s[2 * i], s[2 * i + 1]
            d = 0.0 if lo > hi or lo <= x[i] <= hi else min(abs(lo - x[i]), abs(hi - x[i]))
            t += d * d
        scores.append(t)
    best = min(scores)
    who = [i for i, v in enumerate(scores) if v == best]
    return (who[:1] if best == 0 else who), best


@case(*FILES, weight=4)
def control(R):
    n, outs, m = R.randint(1, 3), R.choice((1, 1, 2, 3)), R.randint(1, 6)
    k = R.randint(2, 5) if outs == 1 else 2
    ins = spaces.Box(low=np.zeros(n, dtype=np.float32), high=np.ones(n, dtype=np.float32), dtype=np.float32)
    out = spaces.Discrete(k) if outs == 1 else spaces.MultiBinary(outs)
    segs = make_rules(R, n, outs, k, m)
    how = R.choice(('lists', 'arrays', 'matrix'))
    genome = segs if how == 'lists' else [np.array(s) for s in segs] if how == 'arrays' else np.array(segs)
    R.note(n=n, outs=outs, segs=segs, how=how)
    d = RU.PittRulesDecoder(ins, out, **R.choice(({}, dict(priority_metric=ORDER))))
    rules = d.genome_to_rules(genome)
    check(len(rules) == m, 'a rule for every segment', len(rules))
    for r, s in zip(rules, segs):
        check([tuple(map(float, c)) for c in r.conditions] == [(s[2 * i], s[2 * i + 1]) for i in range(n)], 'conditions are the (low, high) pairs in order', r, s)
        check([float(a) for a in r.actions] == s[2 * n:], 'actions are the genes after the conditions', r, s)
    e = d.decode(genome)
    np.random.seed(R.randint(0, 2 ** 20))
    for _ in range(6):
        x = [eighths(R, -3, 11) for _ in range(n)]
        who, best = oracle(n, segs, x)
        want = [[int(np.round(a)) for a in segs[i][2 * n:]] for i in who]
        want = [w if outs > 1 else w[0] for w in want]
        got = e(np.array(x) if R.flag() else x)
        check(got in want, 'the action is that of the first matching rule, or of one of the nearest', x, got, want)
    check(same(genome, segs if how == 'lists' else [np.array(s) for s in segs] if how == 'arrays' else np.array(segs)), 'the genome is left alone')
    bad = [list(s) for s in segs]
    i = R.randint(0, m - 1)
    bad[i] = bad[i] + [0.0] if R.flag() else bad[i][:-1]
    raises(AssertionError, d.decode, bad)
    raises(AssertionError, d.decode, [])


@case(*FILES)
def direct(R):
    n, m = R.randint(1, 3), R.randint(1, 5)
    segs = make_rules(R, n, 1, 4, m)
    ins = spaces.Box(low=np.zeros(n, dtype=np.float32), high=np.ones(n, dtype=np.float32), dtype=np.float32)
    rs = [RU.Rule(conditions=[(s[2 * i], s[2 * i + 1]) for i in range(n)], actions=s[2 * n:]) for s in segs]
    e = RU.PittRulesExecutable(ins, spaces.Discrete(4), rs, priority_metric=ORDER)
    check(e.num_inputs == n and e.num_outputs == 1, 'dimensions')
    for _ in range(6):
        x = [eighths(R, -3, 11) for _ in range(n)]
        who, _ = oracle(n, segs, x)
        check(e(x) in [int(np.round(segs[i][-1])) for i in who], 'the action is that of the first matching rule, or of one of the nearest', segs, x)
    raises(ValueError, RU.PittRulesExecutable, ins, spaces.Discrete(4), rs, None)
    raises(AssertionError, RU.PittRulesExecutable, ins, spaces.Discrete(4), [], ORDER)


@case(*FILES, weight=2)
def mutator(R):
    n, outs, m, size = R.randint(1, 3), R.choice((1, 2)), R.randint(1, 4), R.randint(1, 4)
    ins = spaces.Box(low=np.zeros(n, dtype=np.float32), high=np.ones(n, dtype=np.float32), dtype=np.float32)
    d = RU.PittRulesDecoder(ins, spaces.Discrete(4) if outs == 1 else spaces.MultiBinary(outs))
    seen = []
    cm = lambda g: (seen.append(('c', [float(v) for v in g])), np.array([v + 10 for v in g]))[1]
    am = lambda g: (seen.append(('a', [float(v) for v in g])), np.array([v + 20 for v in g]))[1]
    op = d.mutator(condition_mutator=cm, action_mutator=am)
    all_segs = [make_rules(R, n, outs, 2, m) for _ in range(size)]
    hows = [R.choice(('lists', 'matrix')) for _ in range(size)]
    inds = [Individual([np.array(s) for s in segs] if how == 'lists' else np.array(segs)) for segs, how in zip(all_segs, hows)]
    for i in inds:
        i.fitness = 5.0
    got = op(iter(inds))
    for i, segs, how in zip(inds, all_segs, hows):
        seen.clear()
        o = next(got)
        check(o is i, 'the individual itself goes on')
        check(o.fitness is None, 'its fitness is no longer known')
        check(seen == [x for s in segs for x in (('c', s[:2 * n]), ('a', s[2 * n:]))], 'each mutator sees its own genes of every rule', seen, segs)
        check(isinstance(o.genome, np.ndarray) == (how == 'matrix') and len(o.genome) == m, 'a genome of the same kind', type(o.genome))
        for a, s in zip(o.genome, segs):
            check([float(v) for v in a] == [v + 10 for v in s[:2 * n]] + [v + 20 for v in s[2 * n:]], 'mutated genes in their places', a, s)


@case(*FILES, every=60)
def plots(R):
    from matplotlib import pyplot as plt
    n, m = R.randint(2, 4), R.randint(1, 4)
    ins = spaces.Box(low=np.zeros(n, dtype=np.float32), high=np.ones(n, dtype=np.float32), dtype=np.float32)
    d = RU.PittRulesDecoder(ins, spaces.Discrete(2))
    dims = (0, 1) if R.flag() else tuple(random.Random(R.randint(0, 999)).sample(range(n), 2))
    modulo, ctx = R.randint(1, 4), {'leap': {}}
    R.note(n=n, dims=dims, modulo=modulo)
    fig, ax = plt.subplots()
    try:
        probe = RU.PlotPittRuleProbe(d, plot_dimensions=dims, ax=ax, xlim=(0, 1), ylim=(0, 2), modulo=modulo, context=ctx)
        drawn = []
        for gen in range(R.randint(1, 5)):
            ctx['leap']['generation'] = gen
            pop = population(R, R.randint(1, 3), Table(R.flag()), ints=True)
            for i in pop:
                i.genome = np.array(make_rules(R, n, 1, 2, m))
            best = max(pop)
            tied = [i for i in pop if not (i < best)]
            got = probe(pop)
            check(got is pop, 'the population goes on')
            if gen % modulo == 0:
                sets = []
                for b in tied:
                    w = []
                    for s in b.genome:
                        x, y = s[2 * dims[0]:2 * dims[0] + 2], s[2 * dims[1]:2 * dims[1] + 2]
                        x, y = ((0, 1) if x[0] > x[1] else x), ((0, 2) if y[0] > y[1] else y)
                        w.append(tuple(map(float, (x[0], y[0], x[1] - x[0], y[1] - y[0]))) + (int(np.round(s[-1])),))
                    sets.append(w)
                drawn = sets
            have = [(p.get_x(), p.get_y(), p.get_width(), p.get_height(), 0 if p.get_edgecolor()[2] == 1 else 1) for p in ax.patches]
            check(have in drawn or have == drawn, 'the boxes are the rules of the best individual of the last scheduled generation', gen, have, drawn)
    finally:
        plt.close(fig)


# ---------------------------------------------------------------- networks
def net(R):
    shape = [R.randint(1, 4) for _ in range(R.randint(2, 4))]
    given = list(shape)
    if R.flag():
        given.insert(R.randint(1, len(given)), 0) if len(given) > 1 else None
    R.note(shape=given)
    return shape, given


def layers(shape):
    return [(a + 1, b) for a, b in zip(shape[:-1], shape[1:])]


@case(*NETS, weight=3)
def network(R):
    shape, given = net(R)
    act = R.choice((NN.sigmoid, NN.relu, NN.softmax, lambda x: 2 * x + 1, lambda x: x))
    d = NN.SimpleNeuralNetworkDecoder(tuple(given) if R.flag() else given, activation=act)
    L = layers(shape)
    total = sum(a * b for a, b in L)
    check(d.length == total, 'the genome has a gene for every weight, bias included', d.length, total)
    g = [R.randint(-8, 8) / 4.0 for _ in range(total)]
    genome = np.array(g) if R.flag() else list(g)
    nn = d.decode(genome)
    check(nn.num_inputs == shape[0] and nn.num_outputs == shape[-1] and nn.num_hidden_layers == len(shape) - 2, 'the network has the shape asked for')
    for _ in range(3):
        x = [R.randint(-8, 8) / 4.0 for _ in range(shape[0])]
        sig, at = list(x), 0
        for a, b in L:
            sig = sig + [1.0]
            new = [sum(sig[r] * g[at + r * b + c] for r in range(a)) for c in range(b)]
            at += a * b
            sig = list(act(np.array(new)))
        got = nn(np.array(x) if R.flag() else x)
        check(len(got) == shape[-1] and np.allclose(got, sig), 'the output is the activated weighted sums, layer by layer', got, sig)
    check(list(genome) == g, 'the genome is left alone')
    raises(ValueError, d.decode, list(g) + [0.0])
    raises(ValueError, d.decode, list(g)[:-1])
    # its graph
    G = nn.graph
    names = [['i%d' % i for i in range(shape[0])]] + [['h%d_%d' % (l, i) for i in range(w)] for l, w in enumerate(shape[1:-1])] + [['o%d' % i for i in range(shape[-1])]]
    check(set(G.nodes) == {'bias'} | {x for l in names for x in l}, 'a node for every unit', set(G.nodes))
    want, at = [], 0
    for (a, b), src, dst in zip(L, names, names[1:]):
        for r, u in enumerate(src + ['bias']):
            want += [(u, v, g[at + r * b + c]) for c, v in enumerate(dst)]
        at += a * b
    check(sorted((u, v, float(w)) for u, v, w in G.edges(data='weight')) == sorted(want), 'an edge for every weight')


@case(*NETS)
def activations(R):
    big = R.choice((1.0, 1.0, 300.0, 1e5))
    x = np.array([R.real() * big for _ in range(R.randint(1, 5))])
    r = NN.relu(x)
    check(list(r) == [max(0, v) for v in x], 'relu', x, r)
    s = NN.sigmoid(x)
    for v, y in zip(x, s):
        w = 1 / (1 + math.exp(-v)) if v > 0 else math.exp(v) / (1 + math.exp(v)) if v > -700 else 0.0
        check(abs(y - w) < 1e-9, 'sigmoid', v, y, w)
    m = max(x)
    e = [math.exp(v - m) for v in x]
    check(np.allclose(NN.softmax(x), [v / sum(e) for v in e]), 'softmax', x, NN.softmax(x))
    raises(AssertionError, NN.SimpleNeuralNetworkDecoder, (3,))


# ---------------------------------------------------------------- executables
@case(*EXES)
def wrappers(R):
    vals = [R.randint(-3, 3) for _ in range(R.randint(1, 6))]
    seen = []

    class Inner:
        tag = R.randint(0, 9)

        def __call__(self, x):
            seen.append(x)
            return list(vals) if R.flag() else np.array(vals)
    inner, x = Inner(), object()
    e = EX.ArgmaxExecutable(inner)
    check(e(x) == vals.index(max(vals)) and len(seen) == 1 and seen[0] is x, 'the index of the highest output', vals, e(x))
    check(e.tag == inner.tag, 'other attributes are those of the wrapped executable')
    raises(AttributeError, lambda: e.no_such_thing)
    calls = []

    class Dec:
        def decode(self, genome, *a, **k):
            calls.append(genome)
            return inner
    w = EX.WrapperDecoder(Dec(), lambda v: ('wrapped', v))
    g = object()
    got = w.decode(g)
    check(got == ('wrapped', inner) and calls == [g], 'the decorator wraps what the decoder made of the genome', got)
    out = spaces.Discrete(R.randint(1, 4))
    out.seed(R.randint(0, 999))
    check(out.contains(EX.RandomExecutable(None, out)(x)), 'a random action is one of those there are')


@case(*EXES)
def keyboard(R):
    import time
    km = {k: R.randint(1, 3) for k in range(6)}
    b = EX.KeyboardExecutable(None, spaces.Discrete(4), keymap=lambda k: km[k])
    old, time.sleep = time.sleep, lambda s: None
    try:
        act = 0
        check(b(None) == 0, 'nothing pressed')
        for _ in range(R.randint(1, 8)):
            k = R.randint(0, 5)
            if R.flag():
                b.key_press(k, None)
                act = km[k]
            else:
                b.key_release(k, None)
                act = 0 if km[k] == act else act
            check(b(None) == act, 'the action of the key held', k, act)
    finally:
        time.sleep = old
    raises(ValueError, EX.KeyboardExecutable, None, spaces.Box(low=np.zeros(2, dtype=np.float32), high=np.ones(2, dtype=np.float32)))
