from lib import *
from gen import *
import csv
import io
import networkx as nx
from leap_ec import ops

FILES = ('leap_ec/ops.py',)


class Traveller(Individual):
    log = None

    def clone(self):
        y = super().clone()
        if Traveller.log is not None:
            Traveller.log.append((self, y))
        return y


def islands(R):
    n = R.randint(1, 4)
    kind = R.choice(('complete', 'ring', 'directed'))
    if n == 1:
        g = nx.DiGraph([(0, 0)])
    elif kind == 'complete':
        g = nx.complete_graph(n)
    elif kind == 'ring':
        g = nx.cycle_graph(n) if n > 2 else nx.path_graph(n)
    else:
        g = nx.DiGraph([(i, (i + 1) % n) for i in range(n)])
        if R.flag():
            g.add_edge(0, 0)
    return n, g


@case(*FILES, weight=4)
def history(R):
    """a whole run of an island model; every traveller is followed from departure to arrival"""
    n, g = islands(R)
    prob = Table(R.flag())
    log = Traveller.log = []
    size = R.randint(1, 4)
    pops = []
    for _ in range(n):
        pop = []
        for _ in range(size):
            x = Traveller(np.array([float(R.randint(-3, 3))]), IdentityDecoder(), prob)
            x.evaluate()
            pop.append(x)
        pops.append(pop)
    gap = R.randint(1, 4)
    c = {'leap': {}}
    now = {}

    def emi(population):
        now['seen'] = list(population)
        i = R.randint(0, len(population) - 1)
        now['sponsor'] = population[i]
        now['sent'] = now.get('sent', 0) + 1
        while True:
            yield population[i]

    def rep(population, indices=None):
        i = R.randint(0, len(population) - 1)
        now['match'].append((i, population[i]))
        if indices is not None:
            indices.append(i)
        yield population[i]
    restamp = R.flag()

    def stamp(x, island):
        now['arrived'].append((x, island))
        if restamp:
            y = Traveller(x.genome, IdentityDecoder(), prob)
            y.fitness = x.fitness
            x = y
        now['stamped'].append(x)
        return x
    told = []
    metric = R.flag()
    op = ops.migrate(g, emi, rep, gap, customs_stamp=stamp, metric=(lambda *a: told.append(a)) if metric else None, context=c)
    underway = {i: [] for i in range(n)}
    unknown = []            # (traveller, possible islands): where it went shows when it arrives
    hist = [(gen, i) for gen in range(R.randint(1, 2 * gap + 2)) for i in range(n)]
    R.note(n=n, edges=list(g.edges()), gap=gap, size=size, restamp=restamp)
    last = hist[-1][0]
    flush = [(gap * (last + 2) + 1, i) for i in range(n)] if gap > 1 else []
    for gen, i in hist + flush:
        pop = pops[i]
        c['leap'].update(generation=gen, current_subpopulation=i)
        now.clear()
        now.update(match=[], arrived=[], stamped=[])
        old = list(pop)
        log.clear()
        told.clear()
        res = op(pop)
        check(len(res) == len(old), 'the island keeps its size', len(res), len(old))
        check(all(isl == i for _, isl in now['arrived']), 'stamped for the island of arrival')
        exp = list(old)
        for k, x in enumerate(now['stamped']):
            slot, con = now['match'][k]
            check(con is exp[slot], 'competes with a current member')
            win = not (x < con) and x >= con
            if win:
                exp[slot] = x
            if metric:
                check(len(told) > k and told[k][0] == gen and told[k][1] is x and told[k][2] is con and bool(told[k][3]) == bool(win), 'the metric is told the outcome', told)
        check(ids(res) == ids(exp), 'each immigrant takes its contestant\'s place exactly when at least as good', [x.fitness for x in res], [x.fitness for x in exp])
        check(not metric or len(told) == len(now['stamped']), 'the metric is told once per immigrant')
        for a, b in zip(old, res):
            check(not better(prob, a.fitness, b.fitness), 'no member is replaced by a worse one')
        # arrivals: exactly those that can have been sent here, oldest first, all of those that could only come here
        for x, _ in now['arrived']:
            hit = [u for u in unknown if u[0] is x]
            check(len(hit) == 1 and i in hit[0][1], 'arrives once, at a neighbour of where it left')
            unknown.remove(hit[0])
        check(not any(u[1] == {i} for u in unknown), 'everyone under way to this island has arrived')
        for u in unknown:
            u[1].discard(i)
            check(u[1], 'no traveller is lost')
        if gen % gap == 0:
            check(now.get('sent') == 1 and len(log) == 1, 'one emigrant whenever the gap is reached')
            check(ids(now['seen']) == ids(exp), 'the emigrant is chosen after immigration')
            src, e = log[0]
            check(src is now['sponsor'] and e is not src and e.fitness == src.fitness and e.genome is not src.genome and list(e.genome) == list(src.genome), 'the emigrant is a copy with its sponsor\'s fitness')
            check(not any(e is x for x in res), 'the copy leaves')
            unknown.append((e, set(g.neighbors(i))))
        else:
            check('sent' not in now and not log, 'no emigration off schedule')
        pops[i] = res
    if flush:
        check(not unknown, 'everyone has arrived in the end', len(unknown))
    # another operator has travellers of its own
    other = ops.migrate(g, emi, rep, gap, customs_stamp=stamp, context=c)
    for i in range(n):
        c['leap'].update(generation=1, current_subpopulation=i)
        now.clear()
        now.update(match=[], arrived=[], stamped=[])
        if gap > 1:
            other(list(pops[i]))
            check(not now['arrived'], 'a new operator starts with no one under way')


@case(*FILES)
def metric(R):
    """migration_metric writes one row per event, under a header naming the columns"""
    notes = R.choice((None, None, {'run': R.randint(0, 9)}, {'run': 1, 'what': 'x'}))
    header = R.choice((True, False, None))
    out = io.StringIO()
    prob = Table(R.flag())
    kw = {} if header is None else dict(header=header)
    if notes is not None:
        kw['notes'] = notes
    m = ops.migration_metric(out, **kw)
    rows = []
    for _ in range(R.randint(0, 4)):
        a, b = population(R, 2, prob, ints=True)
        g, ok = R.randint(0, 9), R.flag()
        m(g, a, b, ok)
        rows.append([str(v) for v in (notes or {}).values()] + [str(g), str(a.fitness), str(b.fitness), str(ok)])
    names = list(notes or {}) + ['generation', 'migrant_fitness', 'contestant_fitness', 'success']
    got = list(csv.reader(io.StringIO(out.getvalue())))
    R.note(notes=notes, header=header, rows=rows)
    want = rows if header is False else [names] + rows
    check(got == want or (header is None and got == rows), 'one row per migration', got, want)
    ops.migration_metric(None)(0, *population(R, 2, prob), True)


@case(*FILES, every=100)
def neighbours(R):
    """every neighbour, and no other island, receives somebody (missing one in 400 departures by chance: below 1e-40)"""
    n = R.randint(2, 4)
    g = nx.complete_graph(n) if R.flag() else nx.DiGraph([(i, (i + 1) % n) for i in range(n)] + [(0, n - 1)])
    c = {'leap': {}}
    prob = Table(True)
    went = []

    def first(pop, indices=None):
        if indices is not None:
            indices.append(0)
        yield pop[0]
    op = ops.migrate(g, lambda pop: iter(pop), first, 2, customs_stamp=lambda x, isl: (went.append(isl), x)[1], context=c)
    src = R.randint(0, n - 1)
    R.note(n=n, edges=list(g.edges()), src=src)

    def visit(gen, i):
        c['leap'].update(generation=gen, current_subpopulation=i)
        x = Individual(np.array([1.0]), IdentityDecoder(), prob)
        x.evaluate()
        op([x])
    for _ in range(400):
        visit(0, src)
    for i in range(n):
        visit(1, i)
    check(set(went) == set(g.neighbors(src)) and len(went) == 400, 'travellers go to every neighbour and to no other island', sorted(set(went)), sorted(g.neighbors(src)), len(went))
