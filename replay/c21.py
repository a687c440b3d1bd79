from lib import *
from gen import *
import copy
from leap_ec import problem as P
from leap_ec.real_rep import problems as RP
from leap_ec.executable_rep.problems import EnvironmentProblem, TruthTableProblem

FILES = ('leap_ec/problem.py', 'leap_ec/real_rep/problems.py')
EXE = ('leap_ec/executable_rep/problems.py',)
W = np.array([1.0, 3.0, 7.0, 15.0, 31.0, 63.0])


class Noisy(P.ScalarProblem):
    """a problem whose every evaluation is different, so that it shows which evaluation went where"""
    bounds = (-2.0, 6.0)

    def __init__(self, maximize, R):
        super().__init__(maximize)
        self.log, self.r = [], random.Random(R.randint(0, 2 ** 30))

    def evaluate(self, phenome, *a, **kw):
        v = float(self.r.randint(-64, 64))
        self.log.append((phenome, copy.deepcopy(phenome), v))
        return v


class Sum(P.ScalarProblem):
    def __init__(self, maximize, c=0.0):
        super().__init__(maximize)
        self.c, self.seen = c, []

    def evaluate(self, phenome, *a, **kw):
        self.seen.append(np.array(phenome, dtype=float))
        return float(np.dot(W[:len(phenome)], np.asarray(phenome, dtype=float))) + self.c


class Bounded(Sum):
    def __init__(self, maximize, bounds):
        super().__init__(maximize)
        self.bounds = bounds


def vec(R, n=None):
    return np.array([float(R.randint(-8, 8)) for _ in range(n if n is not None else R.randint(1, 5))])


def direction(R, inner, make):
    """the goal of the wrapped problem unless another is given"""
    how = R.choice((None, True, False))
    w = make(**({} if how is None and R.flag() else dict(maximize=how)))
    want = inner.maximize if how is None else how
    check(bool(w.maximize) == bool(want), 'the goal is that of the wrapped problem unless another was asked for', how)
    a, b = float(R.randint(-3, 3)), float(R.randint(-3, 3))
    check(bool(w.worse_than(a, b)) == (a < b if want else a > b), 'fitnesses compare in the direction of the goal')
    return w


@case(*FILES, weight=2)
def offset(R):
    inner = Sum(R.flag())
    c = float(R.randint(-9, 9))
    R.note(c=c)
    w = direction(R, inner, lambda **k: P.FitnessOffsetProblem(inner, c, **k))
    x = vec(R)
    x0 = x.copy()
    check(w.evaluate(x) == inner.evaluate(x0) + c, 'the fitness is the wrapped one plus the offset', w.evaluate(x))
    check(np.array_equal(x, x0), 'the phenome is left alone')


@case(*FILES)
def plain(R):
    seen = []
    f = lambda x, *a, **k: (seen.append((x, a, k)), 7.5)[1]
    mx = R.flag()
    p = P.FunctionProblem(f, mx)
    x = object()
    check(p.evaluate(x) == 7.5 and seen[-1][0] is x and bool(p.maximize) == mx, 'FunctionProblem passes the phenome to its function')
    p.evaluate(x, 3, k=4)
    check(seen[-1][1:] == ((3,), {'k': 4}), 'further arguments are passed on', seen[-1])
    c = R.real()
    q = P.ConstantProblem(mx, c) if R.flag() else P.ConstantProblem(maximize=mx, c=c)
    check(q.evaluate(x) == c and bool(q.maximize) == mx, 'ConstantProblem gives its constant')
    xs = [object() for _ in range(R.randint(0, 4))]
    seen.clear()
    out = p.evaluate_multiple(xs)
    check(list(out) == [7.5] * len(xs) and [id(s[0]) for s in seen] == [id(v) for v in xs], 'evaluate_multiple evaluates each phenome once, in order')


@case(*FILES, weight=2)
def average(R):
    n = R.randint(1, 5)
    inner = Noisy(R.flag(), R)
    w = P.AverageFitnessProblem(wrapped_problem=inner, n=n)
    x = [R.randint(0, 9)]
    v = w.evaluate(x)
    got = [l[2] for l in inner.log]
    check(len(got) == n and all(l[1] == x for l in inner.log), 'the phenome is evaluated n times', len(got), n)
    check(abs(v - sum(got) / n) < 1e-9, 'the fitness is the mean of the n evaluations', v, got)
    inner.log.clear()
    xs = [[i, R.randint(0, 9)] for i in range(R.randint(0, 5))]
    out = w.evaluate_multiple(list(xs))
    check(len(out) == len(xs), 'one fitness per phenome', len(out), len(xs))
    for x, v in zip(xs, out):
        mine = [l[2] for l in inner.log if l[1] == x]
        check(len(mine) == n, 'each phenome is evaluated n times', len(mine), n)
        check(abs(v - sum(mine) / n) < 1e-9, 'each fitness is the mean of that phenome\'s own evaluations', v, mine)
    check(len(inner.log) == n * len(xs), 'nothing else is evaluated')
    a, b = float(R.randint(-3, 3)), float(R.randint(-3, 3))
    check(bool(w.worse_than(a, b)) == (a < b if inner.maximize else a > b) and bool(w.equivalent(a, b)) == (a == b), 'fitnesses compare as in the wrapped problem')
    raises(AssertionError, P.AverageFitnessProblem, inner, R.choice((0, -1)))


@case(*FILES, weight=2)
def alternating(R):
    m = R.randint(1, 4)
    probs = [Sum(R.flag(), 1000.0 * i) for i in range(m)]
    mod = R.randint(1, 5)
    ctx = {'leap': {'generation': 0}}
    w = P.AlternatingProblem(probs, mod, context=ctx)
    R.note(m=m, modulo=mod)
    for _ in range(4):
        g = R.randint(0, 40)
        ctx['leap']['generation'] = g
        cur = probs[(g // mod) % m]
        check(w.get_current_problem() is cur, 'each problem is current for modulo generations, in turn', g)
        x = vec(R)
        check(w.evaluate(x) == cur.evaluate(x), 'the current problem evaluates', g)
        a, b = float(R.randint(-2, 2)), float(R.randint(-2, 2))
        check(bool(w.worse_than(a, b)) == (a < b if cur.maximize else a > b) and bool(w.equivalent(a, b)) == (a == b), 'the current problem compares', g)
    raises(AssertionError, P.AlternatingProblem, [], 1)
    raises(AssertionError, P.AlternatingProblem, probs, 0)


@case(*FILES, weight=2)
def translated(R):
    n = R.randint(1, 5)
    inner = Sum(R.flag()) if R.flag() else Bounded(R.flag(), (-3.0, 4.0))
    off = vec(R, n)
    o = R.choice((list, tuple, np.array))(off)
    w = direction(R, inner, lambda **k: RP.TranslatedProblem(inner, o, **k))
    x = vec(R, n)
    x0 = x.copy()
    v = w.evaluate(x)
    check(np.array_equal(inner.seen[-1], x0 - off), 'the wrapped problem sees the phenome minus the offset', inner.seen[-1], x0, off)
    check(v == float(np.dot(W[:n], x0 - off)), 'and its fitness is returned')
    check(np.array_equal(x, x0), 'the phenome is left alone')
    check(not hasattr(inner, 'bounds') or w.bounds == inner.bounds, 'the bounds are those of the wrapped problem')
    raises(AssertionError, w.evaluate, np.append(x, 1.0))
    np.random.seed(R.randint(0, 2 ** 30))
    lo = R.randint(-5, 5)
    hi = lo + R.randint(0, 5)
    r = RP.TranslatedProblem.random(inner, (lo, hi), n)
    check(len(r.offset) == n and all(lo <= c <= hi for c in r.offset), 'a random translation is within its bounds', r.offset)


@case(*FILES, weight=2)
def scaled(R):
    old = (float(R.randint(-8, 0)), float(R.randint(1, 8)))
    new = (float(R.randint(-8, 0)), float(R.choice((1, 2, 4, 8)))) if R.flag() else (0.0, 1.0)
    inner = Bounded(R.flag(), old)
    w = direction(R, inner, lambda **k: RP.ScaledProblem(inner, new, **k))
    x = vec(R)
    x0 = x.copy()
    v = w.evaluate(x)
    want = np.array([old[0] + (c - new[0]) * (old[1] - old[0]) / (new[1] - new[0]) for c in x0])
    check(np.allclose(inner.seen[-1], want), 'the wrapped problem sees the phenome mapped from the new bounds to the old', inner.seen[-1], want)
    check(abs(v - float(np.dot(W[:len(x0)], want))) < 1e-6, 'and its fitness is returned')
    check(np.array_equal(x, x0) and tuple(w.bounds) == new and tuple(inner.bounds) == old, 'the new bounds are reported, the wrapped problem keeps its own')
    raises(ValueError, RP.ScaledProblem, Sum(True), new)


@case(*FILES, weight=2)
def transformed(R):
    n = R.randint(1, 4)
    inner = Sum(R.flag()) if R.flag() else Bounded(R.flag(), (-3.0, 4.0))
    M = [[float(R.randint(-3, 3)) for _ in range(n)] for _ in range(n)]
    w = direction(R, inner, lambda **k: RP.MatrixTransformedProblem(inner, R.choice((M, np.array(M))), **k))
    x = vec(R, n)
    v = w.evaluate(x)
    want = np.array([sum(M[i][j] * x[j] for j in range(n)) for i in range(n)])
    check(np.allclose(inner.seen[-1], want), 'the wrapped problem sees the matrix times the phenome', inner.seen[-1], want)
    check(abs(v - float(np.dot(W[:n], want))) < 1e-6, 'and its fitness is returned')
    raises(AssertionError, w.evaluate, np.append(x, 1.0))
    np.random.seed(R.randint(0, 2 ** 30))
    n = max(n, 2)
    Q = np.asarray(RP.random_orthonormal_matrix(n))
    check(Q.shape == (n, n) and np.allclose(Q @ Q.T, np.eye(n)), 'a random orthonormal matrix is orthonormal')


@case(*FILES, every=40)
def external(R):
    """a deterministic external program: the weighted sum of each line"""
    prog = '{s=0; for(i=1;i<=NF;i++) s+=i*$i; print s}'
    args = ['-F,', prog]
    p = P.ExternalProcessProblem('awk', R.flag(), args)
    args.append('garbage')
    xs = [[R.randint(-9, 9) for _ in range(R.randint(1, 4))] for _ in range(R.randint(1, 5))]
    want = [float(sum((i + 1) * v for i, v in enumerate(x))) for x in xs]
    check(list(p.evaluate_multiple(xs)) == want, 'the fitnesses the program prints, in order')
    check(p.evaluate(xs[0]) == want[0], 'one phenome')
    raises(RuntimeError, P.ExternalProcessProblem('false', True).evaluate_multiple, xs)
    raises(RuntimeError, P.ExternalProcessProblem('awk', True, ['{print 1; print 2}']).evaluate_multiple, xs)
    raises(RuntimeError, P.ExternalProcessProblem('awk', True, ['BEGIN{exit 3}']).evaluate_multiple, xs)
    raises(RuntimeError, P.ExternalProcessProblem('awk', True, ['{print 1} END{exit 3}']).evaluate_multiple, xs)
    mx = R.flag()
    q = P.ExternalProcessProblem('awk', mx)
    check(q.worse_than(1.0, 2.0) == mx and q.worse_than(2.0, 1.0) == (not mx), 'the goal is the one given')


class World:
    """an environment of scripted episodes"""
    class space:
        shape = (2, 3)

    class act:
        shape = ()
    observation_space, action_space = space, act

    def __init__(self, R):
        self.R, self.episodes, self.steps = R, [], []

    def reset(self):
        self.n, self.t = self.R.randint(1, 6), 0
        self.episodes.append([])
        self.obs = ('o', len(self.episodes), 0)
        return self.obs, {}

    def step(self, action):
        self.t += 1
        r = self.R.randint(-9, 9)
        self.episodes[-1].append((self.obs, action, r))
        self.obs = ('o', len(self.episodes), self.t)
        over = self.t >= self.n
        kind = self.R.flag()
        return self.obs, r, over and kind, over and not kind, {}


@case(*EXE, weight=2)
def environment(R):
    env = World(R)
    runs, steps = R.randint(1, 4), R.randint(1, 6)
    kind = R.choice(('reward', 'survival'))
    stop = R.flag()
    mx = R.flag()
    p = EnvironmentProblem(runs, steps, env, kind, False, stop_on_done=stop, maximize=mx)
    R.note(runs=runs, steps=steps, kind=kind, stop=stop)
    lens, seen = [], []
    agent = lambda o: (seen.append(o), ('a', o))[1]
    v = p.evaluate(agent)
    check(len(env.episodes) == runs, 'one episode per run', len(env.episodes))
    i = 0
    for e in env.episodes:
        check(1 <= len(e) <= steps, 'no more steps than asked for', len(e))
        for o, a, r in e:
            check(seen[i] == o and a == ('a', o), 'the agent acts on the current observation', seen[i], o, a)
            i += 1
    check(i == len(seen), 'and on nothing else')
    want = sum(sum(r for _, _, r in e) for e in env.episodes) / runs if kind == 'reward' else sum(len(e) + 1 for e in env.episodes) / runs
    check(abs(v - want) < 1e-9, 'the fitness is the mean over the runs', v, want)
    check(bool(p.maximize) == mx and p.num_inputs == 6 and p.num_outputs == 1, 'the dimensions of the spaces', p.num_inputs, p.num_outputs)
    if stop:
        env.n = 2
        ends = EnvironmentProblem(1, 50, One(R.randint(1, 9)), 'survival', False)
        check(ends.evaluate(agent) == ends.environment.n + 1, 'the episode ends when the environment says so')
    raises(ValueError, EnvironmentProblem, 1, 1, env, 'nonsense', False)


class One(World):
    def __init__(self, n):
        self.len, self.episodes = n, []

    def reset(self):
        self.n, self.t = self.len, 0
        self.episodes.append([])
        return 0, {}

    def step(self, action):
        self.t += 1
        return 0, 0, self.t >= self.n, False, {}


@case(*EXE, weight=2)
def truth_table(R):
    n, m = R.randint(1, 4), R.randint(1, 2)
    tf = {k: [R.randint(0, 1) for _ in range(m)] for k in range(2 ** n)}
    tg = {k: v if R.prob() < 0.6 else [R.randint(0, 1) for _ in range(m)] for k, v in tf.items()}
    num = lambda x: int(''.join(str(int(b)) for b in x[:n]), 2)
    seen = []

    class Agent:
        num_inputs = n + R.randint(0, 2)

        def __call__(self, x):
            seen.append(list(x))
            return list(tg[num(x)])
    pad = R.flag()
    p = TruthTableProblem(lambda x: list(tf[num(x)]), n, m, pad_inputs=pad)
    a = Agent()
    v = p.evaluate(a)
    check(sorted(num(x) for x in seen) == list(range(2 ** n)), 'every row of the table is tried exactly once', len(seen))
    check(all(len(x) == (a.num_inputs if pad else n) and not any(x[n:]) for x in seen), 'rows are padded with zeros exactly if asked for')
    want = sum(tf[k] == tg[k] for k in tf) / 2 ** n
    check(v == want, 'the fitness is the share of rows on which all outputs agree', v, want)
