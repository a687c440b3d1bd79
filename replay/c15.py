import distributed
from lib import *
from gen import *


class Future:
    def __init__(self, fn, x):
        self.fn, self.x, self.value, self.ran = fn, x, None, False

    def result(self):
        return self.value


class Completed:
    """stand-in for distributed.as_completed: futures complete in an arbitrary order"""
    def __init__(self, futures=(), *a, **k):
        self.R = World.R
        self.pending = list(futures)
        World.completed = self

    def add(self, f):
        self.pending.append(f)

    def update(self, fs):
        self.pending.extend(fs)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.pending:
            raise StopIteration
        f = self.pending.pop(self.R.randint(0, len(self.pending) - 1))
        f.value = f.fn(f.x)
        World.order.append(f.value)
        return f


class Log:
    def debug(self, *a):
        pass
    info = warning = error = debug


class WorkerStub:
    id = 7


class World:
    R, completed, order, worker = None, None, [], None


distributed.as_completed = Completed
distributed.get_worker = lambda: World.worker
from leap_ec.distrib import asynchronous, synchronous, evaluate as ev_mod
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import RobustIndividual
from leap_ec.representation import Representation
import logging
logging.getLogger('leap_ec.distrib.asynchronous').setLevel(logging.CRITICAL)
for h in list(logging.getLogger('leap_ec.distrib.asynchronous').handlers):
    logging.getLogger('leap_ec.distrib.asynchronous').removeHandler(h)
ev = ev_mod if hasattr(ev_mod, 'evaluate') else None
from leap_ec.distrib.evaluate import evaluate as worker_evaluate, is_viable

FILES = ('leap_ec/distrib/asynchronous.py', 'leap_ec/distrib/synchronous.py', 'leap_ec/distrib/evaluate.py', 'leap_ec/util.py')


class Client:
    def __init__(self):
        self.sent = []

    def map(self, fn, *its, pure=True, **k):
        check(pure is False, 'equal individuals are evaluated separately')
        out = []
        for x in its[0]:
            self.sent.append(x)
            out.append(Future(fn, x))
        return out

    def submit(self, fn, x, pure=True, **k):
        check(pure is False, 'equal individuals are evaluated separately')
        self.sent.append(x)
        return Future(fn, x)

    def gather(self, fs, **k):
        idx = list(range(len(fs)))
        World.R.shuffle(idx)
        for i in idx:
            fs[i].value = fs[i].fn(fs[i].x)
        return [f.value for f in fs]


class Flaky(Table):
    def __init__(self, R, p):
        super().__init__(R.flag())
        self.R, self.p = R, p

    def evaluate(self, ph, *a, **k):
        self.calls.append(ph)
        if self.R.random() < self.p:
            raise ValueError('failed')
        return float(np.sum(ph))


def start(R):
    World.R, World.order = R, []
    World.worker = WorkerStub()
    World.worker.__dict__.pop('logger', None)
    if R.flag():
        World.worker.logger = Log()
    return {'leap': {'distrib': {'non_viable': R.choice((0, 0, 3))}, 'births': 5, 'generation': 0}}


@case(*FILES, weight=3)
def steady(R):
    c = start(R)
    before = c['leap']['distrib']['non_viable']
    prob = Flaky(R, R.choice((0.0, 0.3, 0.6)))
    cl = Client()
    n0, size, mx = R.randint(0, 5), R.randint(1, 5), R.choice((0, R.randint(1, 12), R.randint(1, 12)))
    count = R.flag()
    cls = R.choice((DistributedIndividual, RobustIndividual))
    kids = R.choice((1, 1, 2))
    rep = Representation(decoder=IdentityDecoder(), initialize=lambda: np.array([float(R.randint(-3, 3)) for _ in range(2)]), individual_cls=cls)
    events, probed, shown, inserted, born = [], [], [], [], []
    exp = dict(births=0, pop=None)

    def make(pop):
        check(exp['pop'] is pop, 'offspring come from the population')
        check(exp['births'] < mx, 'no offspring beyond the birth budget', exp['births'], mx)
        check(exp.pop('due', False), 'offspring are made once per completed evaluation, after its insertion')
        out = []
        for _ in range(kids if R.random() < 0.9 else R.randint(1, 3)):
            y = R.choice(pop).clone()
            y.genome = np.array([float(R.randint(-3, 3)) for _ in range(2)])
            y.fitness = None
            out.append(y)
        born.extend(out)
        exp['births'] += len(out)
        return out

    def probe(x):
        check(x is World.order[-1], 'the probe sees the newly evaluated individual')
        probed.append(x)

    def ins(x, pop, k):
        check(x is World.order[-1], 'the newly evaluated individual is inserted')
        check(k == size, 'with the capacity given')
        check(not exp.get('due') or exp['births'] >= mx, 'offspring are made whenever the budget allows', exp)
        exp['pop'] = pop
        inserted.append(x)
        (asynchronous.greedy_insert_into_pop if greedy else asynchronous.tournament_insert_into_pop)(x, pop, k)
        check(len(pop) <= size, 'the population stays within its capacity')
        if not is_viable(x) and not count:
            exp['births'] -= 1
        exp['due'] = True

    def show(pop):
        check(pop is exp['pop'] and len(shown) == len(inserted) - 1, 'the population is shown after every insertion')
        shown.append(list(pop))
    greedy = R.flag()
    p1, p2 = R.flag(), R.flag()
    R.note(n0=n0, size=size, max=mx, count=count, kids=kids, greedy=greedy, fail=prob.p)
    out = asynchronous.steady_state(cl, mx, n0, size, rep, prob, [make], inserter=ins, count_nonviable=count, evaluated_probe=probe if p1 else None, pop_probe=show if p2 else None, context=c)
    check(len(cl.sent) == n0 + len(born) and ids(cl.sent[n0:]) == ids(born), 'the initial population and every offspring are sent out once', len(cl.sent), n0, len(born))
    check(all(x.problem is prob for x in cl.sent), 'for the problem given')
    check(sorted(ids(World.order)) == sorted(ids(cl.sent)), 'every individual sent out is evaluated once')
    check(ids(inserted) == ids(World.order), 'each evaluated individual is inserted once, in order of completion')
    check(not p1 or ids(probed) == ids(World.order), 'each is shown to the probe')
    check(not p2 or len(shown) == len(inserted), 'the population is shown after every insertion')
    check(not exp.get('due') or exp['births'] >= mx, 'the budget is used', exp, mx)
    check(n0 == 0 or exp['births'] >= mx, 'ends with the budget spent', exp, mx)
    check(out is exp['pop'] or (n0 == 0 and list(out) == []), 'returns the population')
    check(c['leap']['births'] == exp['births'], 'the context holds the births counted', c['leap'], exp)
    bad = sum(1 for x in World.order if not is_viable(x))
    check(c['leap']['distrib']['non_viable'] == before + bad, 'non-viable individuals are counted once each', c['leap']['distrib'], before, bad)
    for x in World.order:
        check(math.isnan(x.fitness) == (not is_viable(x)), 'not viable means no fitness')


@case(*FILES)
def steady_defaults(R):
    """with nothing but the required arguments: greedy insertion, failures not counted"""
    c = start(R)
    prob = Flaky(R, R.choice((0.0, 0.3)))
    cl = Client()
    n0, size, mx = R.randint(1, 5), R.randint(1, 5), R.randint(0, 8)
    rep = Representation(decoder=IdentityDecoder(), initialize=lambda: np.array([float(R.randint(-9, 9))]), individual_cls=DistributedIndividual)
    born = []

    def make(pop):
        y = pop[R.randint(0, len(pop) - 1)].clone()
        y.genome = np.array([float(R.randint(-9, 9))])
        y.fitness = None
        born.append(y)
        return [y]
    R.note(n0=n0, size=size, max=mx, fail=prob.p)
    out = asynchronous.steady_state(cl, mx, n0, size, rep, prob, [make], context=c)
    bad = sum(1 for x in World.order if not is_viable(x))
    check(len(out) == min(size, len(World.order)), 'the population is filled up to its size', len(out), size)
    check(c['leap']['births'] >= mx and len(born) == c['leap']['births'] + bad, 'failures do not count towards the budget', len(born), mx, bad, c['leap'])
    good = [x.fitness for x in World.order if is_viable(x)]
    kept = {id(x) for x in out}
    if bad == 0 and good:
        check(sorted(x.fitness for x in out) == sorted(good, reverse=prob.maximize)[:size] or sorted(x.fitness for x in out) == sorted(sorted(good, reverse=prob.maximize)[:size]), 'greedy insertion keeps the best', [x.fitness for x in out], good)


def popn(R, n):
    prob = Table(R.flag())
    out = []
    for _ in range(n):
        x = RobustIndividual(np.array([1]), IdentityDecoder(), prob) if R.flag() else Individual(np.array([1]), IdentityDecoder(), prob)
        x.fitness = R.randint(-3, 3)
        r = R.random()
        if r < 0.3:
            x.is_viable = False
        elif r < 0.6:
            x.is_viable = True
        elif hasattr(x, 'is_viable'):
            del x.is_viable
        out.append(x)
    return prob, out


def rule(prob, x, old):
    return not is_viable(old) or better(prob, x.fitness, old.fitness)


@case(*FILES, weight=2)
def insertion(R):
    start(R)
    n = R.randint(0, 5)
    prob, pop = popn(R, n + 1)
    x = pop.pop()
    check(is_viable(x) == getattr(x, 'is_viable', True), 'viable unless marked')
    size = R.randint(1, 6)
    before = list(pop)
    snap = snapshot(pop + [x])
    how = R.choice(('greedy', 'tournament', 'replace'))
    R.note(how=how, size=size, fits=[(y.fitness, getattr(y, 'is_viable', None)) for y in pop], new=x.fitness, maximize=prob.maximize)
    if how == 'replace':
        if not pop:
            return
        i = R.randint(0, len(pop) - 1)
        asynchronous.replace_if(x, pop, i)
        opts = [i]
    else:
        f = asynchronous.greedy_insert_into_pop if how == 'greedy' else asynchronous.tournament_insert_into_pop
        if n < size:
            f(x, pop, size)
            check(ids(pop) == ids(before) + [id(x)], 'added while there is room', len(pop), size)
            return
        f(x, pop, size)
        opts = list(range(n))
        if how == 'greedy':
            opts = [i for i in opts if not any(better(prob, before[i].fitness, y.fitness) for y in before)]
    check(len(pop) == len(before), 'the size stays')
    ok = False
    for i in opts:
        want = list(before)
        if rule(prob, x, before[i]):
            want[i] = x
        ok = ok or ids(want) == ids(pop)
    check(ok, 'the newcomer replaces a non-viable or worse individual, or nothing changes', [y.fitness for y in pop])
    check(same_snapshot(snapshot(before + [x]), snap), 'no individual changes')


@case(*FILES)
def synchronous_evaluation(R):
    c = start(R)
    before = c['leap']['distrib']['non_viable']
    prob = Flaky(R, R.choice((0.0, 0.4)))
    cl = Client()
    n = R.randint(1, 5)
    inds = [RobustIndividual(np.array([float(R.randint(-3, 3)), 1.0]), IdentityDecoder(), prob) for _ in range(n)]
    how = R.choice(('population', 'pool', 'worker', 'async'))
    R.note(how=how, n=n)
    if how == 'population':
        out = synchronous.eval_population(list(inds), client=cl, context=c)
        check(ids(out) == ids(inds), 'the population, in order')
    elif how == 'pool':
        size = R.randint(0, n)
        it = iter(inds)
        out = synchronous.eval_pool(it, client=cl, size=size, context=c)
        check(ids(out) == ids(inds[:size]), 'the next individuals of the stream, in order', size)
        check(len(list(it)) == n - size, 'and none beyond')
    elif how == 'async':
        out = [f.result() for f in asynchronous.eval_population(list(inds), client=cl, context=c)]
        check(sorted(ids(out)) == sorted(ids(inds)), 'every individual once')
    else:
        out = [worker_evaluate(x, context=c) for x in inds]
        check(ids(out) == ids(inds), 'the individual itself')
    check(len(prob.calls) == len(out), 'evaluated once each')
    for x in out:
        if is_viable(x):
            check(x.fitness == float(np.sum(x.genome)), 'its fitness', x.fitness)
        else:
            check(math.isnan(x.fitness) and isinstance(x.exception, ValueError), 'the failure is recorded')
        check(x.start_eval_time <= x.stop_eval_time and hasattr(x, 'hostname') and hasattr(x, 'pid'), 'bookkeeping')
    check(c['leap']['distrib']['non_viable'] == before + sum(1 for x in out if not is_viable(x)), 'non-viable individuals are counted once each')


@case(*FILES)
def birth_ids(R):
    """every distributed individual, made or cloned, has a birth id of its own"""
    start(R)
    prob = Table()
    xs = [DistributedIndividual(np.array([1.0]), IdentityDecoder(), prob) for _ in range(R.randint(1, 4))]
    for _ in range(R.randint(0, 4)):
        xs.append(R.choice(xs).clone())
    check(len({x.birth_id for x in xs}) == len(xs), 'birth ids are unique', [x.birth_id for x in xs])
    check(all(a.birth_id < b.birth_id for a, b in zip(xs, xs[1:])), 'and grow in order of birth')
