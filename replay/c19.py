from lib import *
from gen import *
import io
import csv
import itertools
from leap_ec import probe
import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot as plt

FILES = ('leap_ec/probe.py',)


def history(R, prob, ints=False, most=5):
    """some generations of populations, all evaluated"""
    return [population(R, R.size(1, 5, cap=12), prob, ints=ints) for _ in range(R.randint(1, most))]


def equal_fit(prob, a, b):
    return not better(prob, a, b) and not better(prob, b, a)


def rows_of(text, header=True):
    return [r for r in csv.reader(io.StringIO(text))]


def number(s):
    return float(s)


def untouched(pop, snap, attrs):
    return same_snapshot(snapshot(pop), snap) and [sorted(x.__dict__) for x in pop] == attrs


@case(*FILES, weight=2)
def best_so_far(R):
    """BestSoFarProbe over a history"""
    prob = Table(maximize=R.flag())
    ctx = {'leap': {}}
    out = io.StringIO()
    header = R.flag()
    p = probe.BestSoFarProbe(stream=out, context=ctx, **omit(R, dict(header=header), header=True))
    seen, want = [], []
    for g, pop in enumerate(history(R, prob)):
        g = ctx['leap']['generation'] = g * R.choice((1, 1, 3)) + R.randint(0, 1)
        snap, attrs = snapshot(pop), [sorted(x.__dict__) for x in pop]
        given = list(pop)
        r = p(given)
        check(r is given or same(list(r), pop), 'the population is passed on')
        check(same(list(given), pop) and untouched(pop, snap, attrs), 'nothing about it changes')
        seen += pop
        check(any(p.bsf is x for x in seen) and not any(better(prob, x.fitness, p.bsf.fitness) for x in seen), 'the best so far is the best of everything seen', p.bsf.fitness, [x.fitness for x in seen])
        want.append((g, p.bsf.fitness))
    rows = rows_of(out.getvalue())
    if header:
        check(rows[0] == ['step', 'bsf'], 'the header', rows)
        rows = rows[1:]
    check(len(rows) == len(want), 'one row per call', rows)
    for r, (g, f) in zip(rows, want):
        check(int(r[0]) == g and equal_fit(prob, number(r[1]), float(f)), 'a row holds the generation and the best fitness so far', r, g, f)


@case(*FILES, weight=2)
def best_so_far_stream(R):
    prob = Table(maximize=R.flag())
    ctx = {'leap': {'generation': 0}}
    out = io.StringIO()
    header = R.flag()
    p = probe.BestSoFarIterProbe(stream=out, context=ctx, **omit(R, dict(header=header), header=True))
    seen, want = [], []
    for pop in history(R, prob):
        taken = []

        def src():
            for x in pop:
                taken.append(x)
                yield x
        it = p(src())
        k = R.randint(0, len(pop))
        for j in range(k):
            g = ctx['leap']['generation'] = R.randint(0, 9)
            x = next(it)
            check(x is pop[j] and len(taken) == j + 1, 'individuals pass through one at a time, in order')
            seen.append(x)
            check(any(p.bsf is y for y in seen) and not any(better(prob, y.fitness, p.bsf.fitness) for y in seen), 'the best so far is the best of everything seen')
            want.append((g, p.bsf.fitness))
    rows = rows_of(out.getvalue())
    if header:
        check(rows[0] == ['step', 'bsf'], 'the header', rows)
        rows = rows[1:]
    check(len(rows) == len(want), 'one row per individual', rows)
    for r, (g, f) in zip(rows, want):
        check(int(r[0]) == g and equal_fit(prob, number(r[1]), float(f)), 'a row holds the generation and the best fitness so far', r, g, f)


@case(*FILES, weight=3)
def fitness_stats(R):
    prob = Table(maximize=R.flag())
    ctx = {'leap': {}}
    out = io.StringIO()
    modulo = R.randint(1, 4)
    notes = {k: R.randint(0, 9) for k in ('alpha', 'beta')[:R.randint(0, 2)]}
    job = R.choice((None, 7, 'x'))
    calls = []

    def metric(pop):
        calls.append(list(pop))
        return 5.5
    extra = {'m': metric} if R.flag() else {}
    comment = R.choice((None, 'one', 'one\ntwo'))
    header = R.flag()
    p = probe.FitnessStatsCSVProbe(stream=out, context=ctx, **omit(R, dict(header=header, notes=notes or None, job=job, modulo=modulo, extra_metrics=extra or None, comment=comment), header=True, notes=None, job=None, modulo=1, extra_metrics=None, comment=None))
    seen, want = [], []
    before = repr(np.array([1, 2]))
    R.note(modulo=modulo, notes=notes, job=job, header=header)
    for g, pop in enumerate(history(R, prob, most=8)):
        for x in pop:
            x.fitness = R.choice((R.randint(-5, 5), R.real(-5, 5)))
        ctx['leap']['generation'] = g
        snap, attrs = snapshot(pop), [sorted(x.__dict__) for x in pop]
        given = list(pop)
        ncalls = len(calls)
        r = p(given)
        check(r is given or same(list(r), pop), 'the population is passed on')
        check(same(list(given), pop) and untouched(pop, snap, attrs), 'nothing about it changes')
        check(repr(np.array([1, 2])) == before, 'numpy prints arrays as before')
        seen += pop
        best = seen[0].fitness
        for x in seen:
            if better(prob, x.fitness, best):
                best = x.fitness
        if g % modulo == 0:
            fs = [float(x.fitness) for x in pop]
            want.append((g, best, fs))
            check(not extra or (len(calls) == ncalls + 1 and same(calls[-1], pop)), 'extra metrics are computed on the population')
    text = out.getvalue()
    lines = text.split('\n')
    check(lines[-1] == '', 'whole lines')
    lines = lines[:-1]
    if header:
        n = 0 if comment is None else comment.count('\n') + 1
        head = lines[n].split(', ')
        check(head == (['job'] if job is not None else []) + list(notes) + ['step', 'bsf', 'mean_fitness', 'std_fitness', 'min_fitness', 'max_fitness'] + list(extra), 'the header names the columns', head)
        lines = lines[n + 1:]
    check(len(lines) == len(want), 'one line per measured generation', lines, [w[0] for w in want])
    for l, (g, best, fs) in zip(lines, want):
        c = l.split(', ')
        pre = ([str(job)] if job is not None else []) + [str(v) for v in notes.values()]
        check(c[:len(pre)] == pre, 'job and notes first', l)
        c = c[len(pre):]
        m = sum(fs) / len(fs)
        sd = math.sqrt(sum((f - m) ** 2 for f in fs) / len(fs))
        exp = [g, best, m, sd, min(fs), max(fs)] + ([5.5] if extra else [])
        check(len(c) == len(exp) and all(math.isclose(float(a), b, rel_tol=1e-9, abs_tol=1e-9) for a, b in zip(c, exp)), 'generation, best so far, mean, deviation, least and greatest fitness', l, exp)


@case(*FILES, weight=3)
def attributes(R):
    prob = Table(maximize=R.flag())
    ctx = {'leap': {}}
    out = io.StringIO() if R.random() < 0.8 else None
    frame = out is None or R.flag()
    best_only, fit, gen, header = R.flag(), R.flag(), R.flag(), R.flag()
    attrs = ('foo', 'bar')[:R.randint(0, 2)]
    notes = {'n': 3} if R.flag() else {}
    job = R.choice((None, 4))
    extra = {'twice': (lambda row: row['step'] * 2)} if R.flag() else {}
    p = probe.AttributesCSVProbe(stream=out, context=ctx, **omit(R, dict(attributes=attrs, do_dataframe=frame, best_only=best_only, do_fitness=fit, do_genome=gen, header=header, notes=notes or None, job=job, extra_metrics=extra or None), attributes=(), do_dataframe=False, best_only=False, do_fitness=False, do_genome=False, header=True, notes=None, job=None, extra_metrics=None))
    cols = (['job'] if job is not None else []) + list(notes) + ['step'] + list(attrs) + (['fitness'] if fit else []) + (['genome'] if gen else []) + list(extra)
    want = []
    for g, pop in enumerate(history(R, prob)):
        ctx['leap']['generation'] = g
        for x in pop:
            x.foo, x.bar = R.randint(0, 9), R.randint(0, 9)
            x.fitness = float(R.randint(-3, 3))
        snap, at = snapshot(pop), [sorted(x.__dict__) for x in pop]
        given = list(pop)
        r = p(given)
        check(r is given or same(list(r), pop), 'the population is passed on')
        check(same(list(given), pop) and untouched(pop, snap, at), 'nothing about it changes')
        rows = []
        for x in pop:
            d = {'step': g, **({'job': job} if job is not None else {}), **notes, **{a: getattr(x, a) for a in attrs}}
            if fit:
                d['fitness'] = x.fitness
            if gen:
                d['genome'] = str(list(map(int, x.genome)))
            if extra:
                d['twice'] = 2 * g
            rows.append((x, d))
        if best_only:
            top = [(x, d) for x, d in rows if not any(better(prob, y.fitness, x.fitness) for y in pop)]
            want.append([d for _, d in top])
        else:
            want += [[d] for _, d in rows]
    norm = lambda d: {k: (str(v) if k in ('genome',) else float(v)) for k, v in d.items()}
    if out is not None:
        rows = rows_of(out.getvalue())
        if header:
            check(rows[0] == cols, 'the header names the columns', rows[0], cols)
            rows = rows[1:]
        check(len(rows) == len(want), 'one row per individual (or per generation)', len(rows), len(want))
        for r, ds in zip(rows, want):
            check(len(r) == len(cols) and any(norm(dict(zip(cols, r))) == norm(d) for d in ds), 'a row holds the values of the individual', r, ds)
    if frame:
        df = p.dataframe
        check(list(df.columns) == cols and len(df) == len(want), 'the data frame holds the same rows', list(df.columns), cols)
        for (_, r), ds in zip(df.iterrows(), want):
            d2 = {k: (str(list(map(int, r[k]))) if k == 'genome' else r[k]) for k in cols}
            check(any(norm(d2) == norm(d) for d in ds), 'the data frame holds the same rows', d2, ds)
    else:
        raises(ValueError, lambda: p.dataframe)


@case(*FILES)
def attribute_missing(R):
    prob = Table()
    ctx = {'leap': {'generation': 0}}
    p = probe.AttributesCSVProbe(attributes=['nosuch'], stream=io.StringIO(), context=ctx)
    raises(ValueError, p, population(R, R.randint(1, 3), prob))
    raises(ValueError, probe.AttributesCSVProbe, stream=None, do_dataframe=False)
    for q in (probe.BestSoFarProbe(stream=io.StringIO(), context={'leap': {}}), probe.FitnessStatsCSVProbe(stream=io.StringIO(), context={'leap': {}})):
        raises(AssertionError, q, population(R, 2, prob))


@case(*FILES)
def printing(R):
    prob = Table()
    pop = population(R, R.size(0, 5, cap=10), prob)
    out = io.StringIO()
    snap, at = snapshot(pop), [sorted(x.__dict__) for x in pop]
    given, calls = list(pop), []

    def inner(p):
        calls.append(list(p))
        return 42
    r = probe.print_probe(given, probe=inner, stream=out, prefix='before ')
    check((r is given or same(list(r), pop)) and same(given, pop) and untouched(pop, snap, at), 'print_probe passes the population on untouched')
    check(out.getvalue() == 'before 42' and len(calls) == 1 and same(calls[0], pop), 'print_probe writes what its probe says', out.getvalue())
    out = io.StringIO()
    k = R.randint(0, len(pop))
    r = list(itertools.islice(probe.print_individual(iter(pop), prefix='> ', stream=out), k))
    check(same(r, pop[:k]) and untouched(pop, snap, at), 'print_individual passes individuals on untouched')
    check(out.getvalue() == ''.join(f'> {x!s}\n' for x in pop[:k]), 'print_individual writes each one passed', out.getvalue())


@case(*FILES)
def best(R):
    prob = Table(maximize=R.flag())
    pop = population(R, R.size(1, 8, cap=30), prob)
    b = probe.best_of_gen(pop)
    check(any(b is x for x in pop) and not any(better(prob, x.fitness, b.fitness) for x in pop), 'best_of_gen gives a best individual')
    raises(AssertionError, probe.best_of_gen, [])


@case(*FILES, weight=2)
def metrics(R):
    n, l = R.size(1, 6, cap=20), R.size(1, 5, cap=12)
    kind = R.choice(('int', 'real'))
    pop = [Individual(np.array([R.randint(0, 2) if kind == 'int' else R.real(-5, 5) for _ in range(l)]), IdentityDecoder(), Table()) for _ in range(n)]
    if n > 1 and R.flag():
        j = R.randint(0, l - 1)
        for x in pop:
            x.genome[j] = pop[0].genome[j]
    G = [[float(v) for v in x.genome] for x in pop]
    d = probe.pairwise_squared_distance_metric(pop)
    w = sum(sum((a - b) ** 2 for a, b in zip(x, y)) for x in G for y in G)
    check(math.isclose(d, w, rel_tol=1e-6, abs_tol=1e-6), 'sum of squared distances of all pairs', d, w)
    cols = list(zip(*G))
    var = [sum((v - sum(c) / n) ** 2 for v in c) / n for c in cols]
    s = probe.sum_of_variances_metric(pop)
    check(math.isclose(s, sum(var), rel_tol=1e-6, abs_tol=1e-6), 'sum of the variances of the genes', s, var)
    if all(v == 0 or v > 1e-3 for v in var) or kind == 'int':
        f = probe.num_fixated_metric(pop)
        check(f == sum(1 for c in cols if len(set(c)) == 1), 'number of genes with one value only', f)


@case(*FILES, every=60)
def plots(R):
    prob = Table(maximize=R.flag())
    ctx = {'leap': {}}
    modulo = R.randint(1, 3)
    calls = []

    def m1(pop):
        calls.append(list(pop))
        return float(len(pop))
    fig, ax = plt.subplots()
    which = R.choice(('metrics', 'fitness'))
    try:
        if which == 'metrics':
            p = probe.PopulationMetricsPlotProbe(ax=ax, metrics=[m1], modulo=modulo, context=ctx)
        else:
            p = probe.FitnessPlotProbe(ax=ax, modulo=modulo, context=ctx)
        want = []
        for g, pop in enumerate(history(R, prob, ints=True)):
            ctx['leap']['generation'] = g
            snap = snapshot(pop)
            r = p(pop)
            check(r is pop and same_snapshot(snapshot(pop), snap), 'a plot passes the population on untouched')
            if g % modulo == 0:
                best = max((x.fitness if prob.maximize else -x.fitness) for x in pop)
                want.append((g, float(len(pop)) if which == 'metrics' else float(best if prob.maximize else -best)))
        xs, ys = ax.lines[0].get_xdata(), ax.lines[0].get_ydata()
        check([(int(x), float(y)) for x, y in zip(xs, ys)] == want, 'one point per measured generation', list(zip(xs, ys)), want)
    finally:
        plt.close(fig)
