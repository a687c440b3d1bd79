import io
from lib import *
from gen import *
from leap_ec import ops
from leap_ec.problem import CooperativeProblem
from leap_ec.individual import WholeEvaluatedIndividual
from leap_ec import problem as problem_mod

FILES = ('leap_ec/ops.py', 'leap_ec/problem.py')


def world(R):
    """subpopulations of partial solutions (their genomes of different lengths), and a context"""
    m = R.randint(1, 4)
    prob = Table(R.flag())
    w = np.array([1.0, 3.0, 7.0, 15.0, 31.0, 63.0, 127.0, 255.0, 511.0, 1023.0, 2047.0, 4095.0, 8191.0, 16383.0, 32767.0, 65535.0])
    prob.f = lambda p: float(np.dot(np.asarray(p, dtype=float), w[:len(p)]))
    subs = []
    for _ in range(m):
        n = R.randint(1, 4)
        subs.append([Individual(np.array([float(R.randint(0, 9)) for _ in range(n)]), IdentityDecoder(), prob) for _ in range(R.randint(1, 4))])
    cur = R.randint(0, m - 1)
    c = {'leap': {'subpopulations': subs, 'current_subpopulation': cur, 'generation': R.randint(0, 9)}}
    R.note(m=m, cur=cur, genomes=[[list(x.genome) for x in s] for s in subs])
    return prob, subs, cur, c


def selector(picks):
    """a deterministic collaborator selector that records what it was asked for"""
    def sel(pop):
        i = 0
        while True:
            x = pop[i % len(pop)]
            picks.append((id(pop), x))
            yield x
            i += 1
    return sel


def rows(stream):
    import csv
    stream.seek(0)
    return list(csv.DictReader(stream))


def expect(prob, subs, cur, mine, picks, trials):
    """the fitness each trial must have had, from the picks the selectors delivered"""
    per = {}
    for pid, x in picks:
        per.setdefault(pid, []).append(x)
    out = []
    for t in range(trials):
        g = []
        for j, s in enumerate(subs):
            g.extend(list(mine) if j == cur else list(per[id(s)][t].genome))
        out.append(prob.f(g))
    return sum(out) / trials


def logged(R, log, subs, cur, n, trials, c, mine):
    if log is None:
        return
    got = rows(log)
    check(len(got) == n * trials * (len(subs) + 1), 'a log row per contribution and one per combination', len(got), n, trials, len(subs))
    for i, r in enumerate(got):
        j = i % (len(subs) + 1)
        check(r['generation'] == str(c['leap']['generation']) and r['subpopulation'] == str(cur), 'rows name the generation and subpopulation', r)
        if j < len(subs):
            check(r['individual_type'] == 'Collaborator' and r['collaborator_subpopulation'] == str(j), 'a row per contribution, in order', i, r)
        else:
            check(r['individual_type'] == 'Combined Individual', 'then one for the combination', i, r)


@case(*FILES, weight=3)
def operator(R):
    prob, subs, cur, c = world(R)
    trials = R.randint(1, 4)
    picks = []
    log = io.StringIO() if R.flag() else None
    op = ops.CooperativeEvaluate(trials, selector(picks), log_stream=log, context=c)
    n = R.randint(1, 4)
    k = len(subs[cur][0].genome)
    inds = [Individual(np.array([float(R.randint(0, 9)) for _ in range(k)]), IdentityDecoder(), prob) for _ in range(n)]
    before = [snapshot(s) for s in subs]
    genomes = [np.array(x.genome) for x in inds]
    out = op(iter(inds))
    R.note(trials=trials, incoming=[list(g) for g in genomes])
    keep = []
    moving = R.flag()
    for i, x in enumerate(inds):
        del picks[:]
        del prob.calls[:]
        if moving and i:
            # the other subpopulations move on between two evaluations
            j = R.randint(0, len(subs) - 1)
            keep.append(subs[j])
            subs[j] = [Individual(z.genome + 10.0, IdentityDecoder(), prob) for z in subs[j]]
            before[j] = snapshot(subs[j])
            R.note(**{'replaced%d' % i: j})
        y = next(out)
        check(y is x, 'yields the incoming individuals themselves, in order', i)
        check(len(prob.calls) == trials, 'evaluates as many combinations as trials', len(prob.calls), trials)
        e = expect(prob, subs, cur, genomes[i], picks, trials)
        check(abs(x.fitness - e) <= 1e-9 * max(1.0, abs(e)), 'fitness is the mean over the trials of the combined solutions', x.fitness, e)
        check(np.array_equal(x.genome, genomes[i]), 'its genome is left alone')
    for s, b in zip(subs, before):
        check(same_snapshot(snapshot(s), b), 'the subpopulations are left alone')
    logged(R, log, subs, cur, n, trials, c, genomes)


@case(*FILES, weight=3)
def wrapped(R):
    prob, subs, cur, c = world(R)
    trials = R.randint(1, 4)
    picks = []
    log = io.StringIO() if R.flag() else None
    coop = CooperativeProblem(prob, trials, selector(picks), log_stream=log, context=c)
    k = len(subs[cur][0].genome)
    n = R.randint(1, 3)
    before = [snapshot(s) for s in subs]
    fs = []
    for i in range(n):
        x = Individual(np.array([float(R.randint(0, 9)) for _ in range(k)]), IdentityDecoder(), coop)
        g = np.array(x.genome)
        del picks[:]
        del prob.calls[:]
        how = R.choice(('individual', 'grouped', 'problem', 'multiple'))
        if how == 'individual':
            x = WholeEvaluatedIndividual(x.genome, IdentityDecoder(), coop)
            got = x.evaluate()
            check(same(got, x.fitness), 'evaluate returns the fitness it sets')
        elif how == 'grouped':
            out = ops.grouped_evaluate([x])
            check(len(out) == 1 and out[0] is x, 'grouped evaluation returns the population')
            got = x.fitness
        elif how == 'problem':
            got = coop.evaluate(x.genome, individual=x)
        else:
            got, = coop.evaluate_multiple([x.genome], [x])
        R.note(how=how, genome=list(g), trials=trials)
        check(len(prob.calls) == trials, 'evaluates as many combinations as trials', len(prob.calls), trials)
        e = expect(prob, subs, cur, g, picks, trials)
        check(abs(got - e) <= 1e-9 * max(1.0, abs(e)), 'fitness is the mean over the trials of the combined solutions', got, e)
        check(np.array_equal(x.genome, g), 'its genome is left alone')
    for s, b in zip(subs, before):
        check(same_snapshot(snapshot(s), b), 'the subpopulations are left alone')
    logged(R, log, subs, cur, n, trials, c, None)
    a, b = fitness_value(R), fitness_value(R)
    check(coop.worse_than(a, b) == prob.worse_than(a, b) and coop.equivalent(a, b) == prob.equivalent(a, b), 'ordered as the wrapped problem orders', a, b)


@case(*FILES)
def combine(R):
    f = R.choice((ops.concat_combine, problem_mod.concat_combine))
    prob = Table()
    m = R.randint(1, 4)
    inds = [Individual(np.array([float(R.randint(0, 9)) for _ in range(R.randint(1, 4))]), IdentityDecoder(), prob) for _ in range(m)]
    for x in inds:
        if R.flag():
            x.evaluate()
    before = snapshot(inds)
    y = f(inds)
    check(all(y is not x for x in inds), 'a new individual')
    check(list(y.genome) == [g for b in before for g in b[1]], 'with the genes of all, in order', list(y.genome))
    check(y.problem is prob and y.decoder is inds[0].decoder, 'judged by the same problem')
    y.genome[:] = -1.0
    check(same_snapshot(snapshot(inds), before), 'the collaborators are left alone')


@case(*FILES)
def random_collaborators(R):
    """with a random selector the fitness is still within what the other subpopulations allow"""
    prob, subs, cur, c = world(R)
    if len(subs) < 2:
        return
    trials = R.randint(1, 3)
    seen = []
    prob.f = lambda p: float(len(seen.append(np.array(p)) or seen))
    op = ops.CooperativeEvaluate(trials, ops.random_selection, context=c)
    x = subs[cur][R.randint(0, len(subs[cur]) - 1)]
    g = list(x.genome)
    y = next(op(iter([x])))
    check(y is x and abs(x.fitness - (trials + 1) / 2) < 1e-9, 'the mean of the trials', x.fitness, trials)
    for s in seen:
        teams = [[]]
        for j, sub in enumerate(subs):
            opts = [g] if j == cur else [list(z.genome) for z in sub]
            teams = [t + o for t in teams for o in opts]
        check(list(s) in teams, 'each trial combines one member of every other subpopulation', list(s))
