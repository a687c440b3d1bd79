from lib import *
from gen import *
from leap_ec import algorithm, ops, util
from leap_ec.representation import Representation

FILES = ('leap_ec/algorithm.py', 'leap_ec/util.py', 'leap_ec/ops.py')


def ctx():
    return {'leap': {}}


def rep(R, log):
    def init():
        return np.array([R.real(), R.real()])
    return Representation(decoder=IdentityDecoder(), initialize=init)



def problem(R):
    t = Table(R.flag())
    t.evaluate = lambda ph, *a, **k: float(np.sum(ph))
    return t


def perturb(R):
    def op(pop):
        out = []
        for x in pop:
            y = x.clone()
            y.genome = y.genome + np.array([R.real(), 0.0])
            y.fitness = None
            y.evaluate()
            out.append(y)
        return out
    return op


@case(*FILES, weight=3)
def generational(R):
    prob, c = problem(R), ctx()
    n, k = R.randint(1, 5), R.choice((0, 1, 1, 2))
    k = min(k, n)
    start = R.choice((0, 0, 0, R.randint(1, 5)))
    mx = start + R.randint(-1, 6)
    mx = R.choice((mx, float(mx)))
    halt = R.choice((None, None, R.randint(0, 6)))
    log, asked, made = [], [], []

    def first(pop):
        log.append(('pipe', pop, list(pop), c['leap']['generation']))
        return pop

    def last(pop):
        made.append(list(pop))
        return pop

    def stop(pop):
        asked.append((pop, list(pop), c['leap']['generation']))
        return halt is not None and c['leap']['generation'] - start >= halt
    evals = []

    def init(pop):
        evals.append(list(pop))
        return Individual.evaluate_population(pop)
    R.note(n=n, k=k, start=start, max=mx, halt=halt)
    kw = dict(stop=stop, init_evaluate=init, k_elites=k, start_generation=start)
    if k == 1 and R.flag():
        del kw['k_elites']
    if halt is None and R.flag():
        del kw['stop']
    if start == 0 and R.flag():
        del kw['start_generation']
    final = algorithm.generational_ea(mx, n, prob, rep(R, log), [first, perturb(R), last], context=c, **kw)
    gens = max(0, int(mx) - start)
    if halt is not None:
        gens = min(gens, halt)
    check(len(log) == gens, 'runs exactly the generations asked for', len(log), gens)
    check(c['leap']['generation'] == start + gens, 'the context counts the generations', c)
    check(len(evals) == 1 and len(evals[0]) == n, 'the initial population is made and evaluated once')
    check([g for _, _, _, g in log] == list(range(start, start + gens)), 'the context names the generation being run')
    pops = [l[2] for l in log] + [list(final)]
    check(ids(pops[0]) == ids(evals[0]) or gens == 0, 'the first generation starts from the initial population')
    for g in range(gens):
        par, off, nxt = pops[g], made[g], pops[g + 1]
        check(len(nxt) == len(off), 'the next population is as large as the offspring', len(nxt), len(off))
        old = {id(x) for x in off} | {id(x) for x in par}
        check(all(id(x) in old for x in nxt), 'the next population is made of offspring and elites')
        if k == 0:
            check(sorted(ids(nxt)) == sorted(ids(off)), 'without elites the offspring replace the parents')
        else:
            best = max(par)
            check(not (max(nxt) < best), 'with elites the best never gets worse', max(nxt).fitness, best.fitness)
            kept = sum(id(x) in {id(p) for p in par} for x in nxt)
            check(kept <= k, 'at most k elites survive', kept, k)
    check(all(ids(a[1]) == ids(pops[a[2] - start]) for a in asked), 'stop sees the current population')


@case(*FILES, weight=2)
def multi(R):
    c = ctx()
    n, size = R.randint(1, 4), R.randint(1, 4)
    lists = R.flag()
    probs = [problem(R) for _ in range(n)]
    log = []
    mx = R.randint(0, 4)
    halt = R.choice((None, None, R.randint(0, 4)))
    state = {}

    def tag(name):
        def op(pop):
            log.append((name, pop, c['leap']['current_subpopulation'], c['leap']['generation'], [id(p) for p in c['leap']['subpopulations']]))
            if name == 'last':
                pop = [x.clone() for x in pop]
                for x in pop:
                    x.evaluate()
                state['out', c['leap']['generation'], c['leap']['current_subpopulation']] = pop
            return pop
        return op

    def stop(pops):
        state.setdefault('asked', []).append((c['leap']['generation'], ids(pops)))
        return halt is not None and c['leap']['generation'] >= halt
    own = R.flag()
    subs = [[tag(f'own{i}')] for i in range(n)] if own else None
    shared = [tag('a'), tag('last')]
    births = []

    def init(pop):
        births.append(pop)
        return Individual.evaluate_population(pop)
    R.note(n=n, size=size, lists=lists, max=mx, halt=halt, own=own)
    reps = [rep(R, log) for _ in range(n)]
    kw = dict(subpop_pipelines=subs, stop=stop)
    if subs is None and R.flag():
        del kw['subpop_pipelines']
    if halt is None and R.flag():
        del kw['stop']
    final = algorithm.multi_population_ea(mx, n, size, probs if lists else probs[0], reps if lists else reps[0], shared, init_evaluate=init, context=c, **kw)
    gens = min(mx, halt) if halt is not None else mx
    check(len(births) == n and all(len(b) == size for b in births), 'one initial population per subpopulation')
    if lists:
        check(all(x.problem is p for b, p in zip(births, probs) for x in b), 'each with its own problem')
    names = ['a', 'last']
    want = [(nm, i, g) for g in range(gens) for i in range(n) for nm in names + ([f'own{i}'] if own else [])]
    check([(l[0], l[2], l[3]) for l in log] == want, 'every subpopulation runs the shared, then its own operators, once per generation', [(l[0], l[2], l[3]) for l in log])
    check(len(final) == n and c['leap']['generation'] == gens, 'the context counts the generations', c['leap'].get('generation'), gens)
    for l in log:
        if l[0] == 'a':
            g, i = l[3], l[2]
            src = births[i] if g == 0 else state['out', g - 1, i]
            check(ids(l[1]) == ids(src), 'each subpopulation goes on from its own')
            live = [id(state['out', g, j]) if j < i else (id(state['out', g - 1, j]) if g else None) for j in range(n)]
            check(all(w is None or w == h for w, h in zip(live, l[4])), 'the context shows the current subpopulations')
    for i in range(n):
        check(ids(final[i]) == ids(births[i] if gens == 0 else state['out', gens - 1, i]), 'returns the last subpopulations')


@case(*FILES)
def walk(R):
    c = ctx()
    prob = problem(R)
    m = R.randint(-1, 8)
    log = []

    def op(pop):
        log.append((list(pop), c['leap'].get('generation')))
        y = pop[0].clone()
        y.genome = y.genome + 1.0
        y.evaluate()
        return [y]
    R.note(evaluations=m)
    out = algorithm.random_search(m, prob, rep(R, []), [op], context=c)
    n = max(m, 1)
    check(len(out) == n, 'as many individuals as evaluations asked for', len(out), n)
    check(all(x.fitness is not None for x in out), 'all evaluated')
    check([l[1] for l in log] == list(range(1, n)), 'the given context counts the evaluations', log)
    check(all(len(l[0]) == 1 and l[0][0] is out[j] for j, l in enumerate(log)), 'each step starts from the newest individual')
    check(len(set(ids(out))) == n, 'every individual once')
    check(c['leap']['generation'] == n, 'the count at the end')


@case(*FILES)
def stop_at(R):
    c = ctx()
    m = R.randint(0, 5)
    f = algorithm.stop_at_generation(m, context=c)
    for _ in range(4):
        g = R.randint(0, 8)
        c['leap']['generation'] = g
        R.note(m=m, g=g)
        check(bool(f([])) == (g >= m), 'stops exactly from the given generation on', g, m)
