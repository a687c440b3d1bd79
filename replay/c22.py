from lib import *
from gen import *
import io
from math import cos, sin, exp, sqrt, pi, floor, e
from leap_ec.real_rep import problems as RP
from leap_ec.binary_rep import problems as BP
from leap_ec.multiobjective import problems as MP

BIN, REAL, MULTI = ('leap_ec/binary_rep/problems.py',), ('leap_ec/real_rep/problems.py',), ('leap_ec/multiobjective/problems.py',)


def close(a, b, tol=1e-7):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def goal(R, cls, default, *a, **kw):
    """the problem, with its default goal or the one asked for"""
    m = R.choice((None, True, False))
    p = cls(*a, **kw) if m is None else cls(*a, maximize=m, **kw)
    want = default if m is None else m
    check(bool(p.maximize) == want, 'the goal is the documented default or the one asked for', cls.__name__, m)
    x, y = float(R.randint(-3, 3)), float(R.randint(-3, 3))
    check(bool(p.worse_than(x, y)) == (x < y if want else x > y), 'fitnesses compare in the direction of the goal', cls.__name__, x, y)
    check(bool(p.equivalent(x, y)) == (x == y), 'equal fitnesses are equivalent', cls.__name__)
    return p


def bits(R, lo=1, hi=12):
    bias = R.choice((0.1, 0.5, 0.9, 1.0, 0.0))
    return np.array([1 if R.prob() < bias else 0 for _ in range(R.randint(lo, hi))])


@case(*BIN, weight=2)
def max_ones(R):
    x = bits(R)
    x0 = x.copy()
    R.note(x=list(x))
    p = goal(R, BP.MaxOnes, True)
    check(p.evaluate(x) == sum(int(b) for b in x0), 'the number of ones', p.evaluate(x))
    t = bits(R, len(x), len(x))
    q = goal(R, BP.MaxOnes, True, target_string=t)
    check(q.evaluate(x) == sum(int(a == b) for a, b in zip(x0, t)), 'the number of matches with the target', q.evaluate(x))
    check(np.array_equal(x, x0), 'the phenome is left alone')
    raises(AssertionError, q.evaluate, np.append(x, 1))
    raises(ValueError, p.evaluate, list(x))


@case(*BIN, weight=2)
def leading_ones(R):
    x = bits(R)
    if R.flag():
        x[:R.randint(0, len(x))] = 1
    x0 = x.copy()
    R.note(x=list(x))

    def lead(m):
        n = 0
        for b in m:
            if not b:
                break
            n += 1
        return n
    p = goal(R, BP.LeadingOnes, True)
    check(p.evaluate(x) == lead([b == 1 for b in x0]), 'the number of leading ones', p.evaluate(x))
    t = x.copy()
    for _ in range(R.randint(0, 2)):
        t[R.randint(0, len(t) - 1)] = R.randint(0, 1)
    q = goal(R, BP.LeadingOnes, True, target_string=t)
    check(q.evaluate(x) == lead([a == b for a, b in zip(x0, t)]), 'the number of leading matches with the target', q.evaluate(x), list(t))
    check(np.array_equal(x, x0), 'the phenome is left alone')
    raises(AssertionError, q.evaluate, np.append(x, 1))
    raises(ValueError, p.evaluate, list(x))


@case(*BIN, weight=2)
def bimodal(R):
    x = bits(R)
    n, ones = len(x), int(sum(x))
    R.note(x=list(x))
    v = goal(R, BP.DeceptiveTrap, True).evaluate(x)
    check(v == (n if ones == n else n - ones - 1), 'the trap', v)
    v = goal(R, BP.TwoMax, True).evaluate(x)
    check(v == max(ones, n - ones), 'the larger number of equal bits', v)


@case(*BIN, every=20)
def image(R):
    from PIL import Image
    w, h = R.randint(1, 5), R.randint(1, 5)
    a = np.array([[R.randint(0, 1) for _ in range(w)] for _ in range(h)], dtype=np.uint8)
    f = io.BytesIO()
    Image.fromarray(a * 255).save(f, 'PNG')
    f.seek(0)
    mx = R.choice((None, True, False))
    p = BP.ImageProblem(f, size=(w, h), **({} if mx is None else dict(maximize=mx)))
    check(p.worse_than(1, 2) == (mx is not False) and p.worse_than(2, 1) == (mx is False), 'more matching pixels are better unless asked otherwise', mx)
    f.seek(0)
    Image.fromarray(np.kron(a, np.ones((7, 9), dtype=np.uint8)) * 255).save(f, 'PNG')
    f.seek(0)
    q = BP.ImageProblem(f, size=(3, 2))
    check(0 <= q.evaluate(np.zeros(6, dtype=bool)) <= 6, 'the image is fitted to the size asked for')
    f.seek(0)
    check(0 <= BP.ImageProblem(f).evaluate(np.zeros(10000, dtype=bool)) <= 10000, 'fitted to 100 by 100 pixels by default')
    f.seek(0)
    x = np.array([R.randint(0, 1) for _ in range(w * h)], dtype=bool)
    check(p.evaluate(x) == int(np.sum(x == a.flatten().astype(bool))), 'the number of pixels that match', p.evaluate(x))
    raises(AssertionError, p.evaluate, np.append(x, True))


def point(R, n=None, lo=-5.0, hi=5.0):
    n = n or R.randint(1, 5)
    k = R.choice(('int', 'real', 'edge'))
    if k == 'int':
        return np.array([float(R.randint(int(lo), int(hi))) for _ in range(n)])
    if k == 'edge':
        return np.array([R.choice((lo, hi, 0.0, 1.0, -0.5)) for _ in range(n)])
    return np.array([R.uniform(lo, hi) for _ in range(n)])


def agree(p, x, want, msg, tol=1e-7):
    x0 = x.copy()
    v = p.evaluate(x)
    check(close(v, want, tol), msg, type(p).__name__, list(x0), float(v), float(want))
    check(np.array_equal(x, x0), 'the phenome is left alone', type(p).__name__)


@case(*REAL, weight=3)
def polynomial(R):
    x = point(R)
    xs = [float(v) for v in x]
    p = goal(R, RP.SpheroidProblem, False)
    agree(p, x, sum(v * v for v in xs), 'sphere')
    check(close(p.evaluate(list(xs)), sum(v * v for v in xs)), 'sphere of a list')
    a = R.choice((None, 0.5, 10.0))
    p = goal(R, RP.RastriginProblem, False, **({} if a is None else dict(a=a)))
    a = 1.0 if a is None else a
    w = a * len(xs) + sum(v * v - a * cos(2 * pi * v) for v in xs)
    agree(p, x, w, 'Rastrigin')
    check(close(p.evaluate(list(xs)), w), 'Rastrigin of a list')
    p = goal(R, RP.RosenbrockProblem, False)
    w = sum(100 * (xs[i + 1] - xs[i] ** 2) ** 2 + (xs[i] - 1) ** 2 for i in range(len(xs) - 1))
    agree(p, x, w, 'Rosenbrock')
    check(close(p.evaluate(list(xs)), w), 'Rosenbrock of a list')
    agree(goal(R, RP.StepProblem, True), x, sum(floor(v) for v in xs), 'step')
    p = goal(R, RP.NoisyQuarticProblem, False)
    s = R.randint(0, 2 ** 30)
    base = p2 = None
    np.random.seed(s)
    zero = float(p.evaluate(np.zeros(len(xs))))
    np.random.seed(s)
    v = float(p.evaluate(x))
    w = sum((i + 1) * c ** 4 for i, c in enumerate(xs))
    check(close(v - zero, w, 1e-6), 'the quartic apart from the noise', v - zero, w)


@case(*REAL, weight=3)
def waves(R):
    x = point(R)
    xs = [float(v) for v in x]
    d = len(xs)
    w = sum(v * v / 4000 for v in xs) - np.prod([cos(v / sqrt(i + 1)) for i, v in enumerate(xs)]) + 1
    agree(goal(R, RP.GriewankProblem, False), x, w, 'Griewank')
    a, b, c = R.choice(((20, 0.2, 2 * pi), (5.0, 0.5, 3.0)))
    kw = {} if a == 20 else dict(a=a, b=b, c=c)
    w = -a * exp(-b * sqrt(sum(v * v for v in xs) / d)) - exp(sum(cos(c * v) for v in xs) / d) + a + e
    agree(goal(R, RP.AckleyProblem, False, **kw), x, w, 'Ackley')
    km, a, b = R.randint(1, 6), R.choice((0.5, 0.3)), R.choice((3, 2))
    w = sum(sum(a ** k * cos(2 * pi * b ** k * (v + 0.5)) for k in range(km)) for v in xs) - d * sum(a ** k * cos(pi * b ** k) for k in range(km))
    agree(goal(R, RP.WeierstrassProblem, False, kmax=km, a=a, b=b), x, w, 'Weierstrass', 1e-6)
    al = R.choice((None, 10.0))
    w = sum(-v * sin(sqrt(abs(v))) for v in xs) + (418.982887 if al is None else al) * d
    agree(goal(R, RP.SchwefelProblem, False, **({} if al is None else dict(alpha=al))), x, w, 'Schwefel')
    width, height = R.choice(((1, 1), (2.0, 1.0), (1.0, 3.0), (0.5, 4.0)))
    w = height * exp(-sum((v / width) ** 2 for v in xs))
    agree(goal(R, RP.GaussianProblem, True, **({} if (width, height) == (1, 1) else dict(width=width, height=height))), x, w, 'Gaussian')
    al, G, L = R.choice((0.5, 2.0)), [R.randint(1, 4) for _ in xs], [R.randint(1, 4) for _ in xs]
    w = sum(-cos((g - 1) * 2 * pi * v) - al * cos((g - 1) * 2 * pi * l * v) for g, l, v in zip(G, L, xs)) / (2 * d)
    agree(goal(R, RP.CosineFamilyProblem, False, al, G, L), x, w, 'cosine family', 1e-6)
    for q in (RP.GriewankProblem(), RP.AckleyProblem(), RP.SchwefelProblem(), RP.GaussianProblem()):
        raises(ValueError, q.evaluate, xs)


@case(*REAL, weight=3)
def foxholes(R):
    x = point(R, 2, -40.0, 40.0)
    A = [[-32, -16, 0, 16, 32] * 5, sum(([v] * 5 for v in (-32, -16, 0, 16, 32)), [])]
    k, c = R.choice(((500, None), (50, [R.randint(1, 9) for _ in range(25)])))
    p = goal(R, RP.ShekelProblem, False, **({} if c is None else dict(k=k, c=c)))
    c = c or list(range(1, 26))
    w = 1 / (1 / k + sum(1 / (c[j] + (x[0] - A[0][j]) ** 6 + (x[1] - A[1][j]) ** 6) for j in range(25)))
    agree(p, x, w, 'Shekel')
    raises(AssertionError, p.evaluate, np.append(x, 1.0))
    if R.flag():
        m, a, cc = 5, [[3, 5], [5, 2], [2, 1], [1, 4], [7, 9]], (1, 2, 5, 2, 3)
        p, x = goal(R, RP.LangermannProblem, False), point(R, 2, 0.0, 10.0)
    else:
        m, d = R.randint(1, 4), R.randint(1, 3)
        a, cc = [[R.randint(0, 9) for _ in range(d)] for _ in range(m)], [R.randint(1, 5) for _ in range(m)]
        p, x = goal(R, RP.LangermannProblem, False, m=m, c=cc, a=a), point(R, d, 0.0, 10.0)
    w = 0.0
    for ci, ai in zip(cc, a):
        q = sum((v - u) ** 2 for v, u in zip(x, ai))
        w -= ci * exp(-q / pi) * cos(pi * q)
    agree(p, x, w, 'Langermann', 1e-6)
    raises(ValueError, p.evaluate, np.append(x, 1.0))
    n = R.randint(2, 5)
    x = point(R, n)
    dd, mu1 = R.choice(((1.0, 2.5), (2.0, 3.0)))
    p = goal(R, RP.LunacekProblem, False, n, **({} if dd == 1.0 else dict(d=dd, mu_1=mu1)))
    s = 1 - 1 / (2 * sqrt(n + 20) - 8.2)
    mu2 = -sqrt((mu1 ** 2 - dd) / s)
    w = min(sum((v - mu1) ** 2 for v in x), dd * n + s * sum((v - mu2) ** 2 for v in x)) + 10 * sum(1 - cos(2 * pi * (v - mu1)) for v in x)
    agree(p, x, w, 'Lunacek', 1e-6)


@case(*REAL, weight=2)
def quadratic(R):
    n, q = R.randint(2, 4), R.randint(1, 4)
    np.random.seed(R.randint(0, 2 ** 30))
    D = [np.diag([float(R.randint(1, 5)) for _ in range(n)]) for _ in range(q)]
    Q = [RP.random_orthonormal_matrix(n) for _ in range(q)]
    o = [point(R, n) for _ in range(q)]
    v = [float(R.randint(0, 9)) for _ in range(q)]
    x = point(R, n)
    p = goal(R, RP.ParabaloidProblem, False, D[0], Q[0])
    form = lambda y, i: sum(D[i][k][k] * float(np.dot(Q[i][k], y)) ** 2 for k in range(n))
    agree(p, x, form(x, 0), 'paraboloid', 1e-6)
    p = goal(R, RP.QuadraticFamilyProblem, False, D, Q, o, v)
    agree(p, x, min(form(x - o[i], i) + v[i] for i in range(q)), 'the lowest of the basins', 1e-6)
    check(p.num_basins == q and p.dimensions == n, 'basins and dimensions')
    g = R.randint(0, q)
    r = RP.QuadraticFamilyProblem.generate(n, q, num_global_optima=g) if not isinstance(RP.QuadraticFamilyProblem.__dict__['generate'], property) else None
    check(r.num_basins == q and r.dimensions == n and all((f == 0) == (i < g) for i, f in enumerate(r.fitness_offsets)), 'as many global optima as asked for', list(r.fitness_offsets), g)
    for i in range(q):
        check(r.evaluate(np.array(r.offset_vectors[i])) <= r.fitness_offsets[i] + 1e-6, 'every basin reaches its depth')


@case(*MULTI, weight=3)
def pareto(R):
    x = R.choice((float(R.randint(-5, 5)), R.uniform(-5, 5)))
    f = MP.SCHProblem().evaluate(np.array(x))
    check(len(f) == 2 and close(f[0], x * x) and close(f[1], (x - 2) ** 2), 'SCH', x, list(f))
    better, worse = np.array([1.0, 1.0]), np.array([1.0, 2.0])
    q = R.choice((MP.SCHProblem, MP.ZDT1Problem, MP.ZDT2Problem, MP.ZDT3Problem, MP.ZDT4Problem, MP.ZDT5Problem, MP.ZDT6Problem))()
    check(q.worse_than(worse, better) and not q.worse_than(better, worse), 'both objectives are minimised', type(q).__name__)
    n = R.randint(2, 6)
    y = np.array([R.choice((0.0, 1.0, R.uniform(0, 1))) for _ in range(n)])
    ys = [float(v) for v in y]
    g = 1 + 9 * sum(ys[1:]) / (n - 1)
    u = ys[0] / g
    six = 1 - exp(-4 * ys[0]) * sin(6 * pi * ys[0]) ** 6
    g6 = 1 + 9 * (sum(ys[1:]) / (n - 1)) ** 0.25
    for cls, f1, f2 in ((MP.ZDT1Problem, ys[0], g * (1 - sqrt(u))), (MP.ZDT2Problem, ys[0], g * (1 - u * u)), (MP.ZDT3Problem, ys[0], g * (1 - sqrt(u) - u * sin(10 * pi * ys[0]))),
                        (MP.ZDT6Problem, six, g6 * (1 - (six / g6) ** 2))):
        p = cls(n)
        f = p.evaluate(y)
        check(len(f) == 2 and close(f[0], f1) and close(f[1], f2), cls.__name__, ys, list(f), f1, f2)
        check(list(p.bounds) == [(0, 1)] * n, 'bounds of ' + cls.__name__)
        bad = y.copy()
        bad[R.randint(0, n - 1)] = R.choice((-0.25, 1.25))
        raises(AssertionError, p.evaluate, bad)
        check(list(p.maximize) == [-1, -1] or not any(m > 0 for m in p.maximize), 'both objectives are minimised')
    z = np.array([ys[0]] + [R.uniform(-5, 5) for _ in range(n - 1)])
    g4 = 1 + 10 * (n - 1) + sum(v * v - 10 * cos(4 * pi * v) for v in z[1:])
    p = MP.ZDT4Problem(n)
    f = p.evaluate(z)
    check(len(f) == 2 and close(f[0], z[0]) and close(f[1], g4 * (1 - sqrt(z[0] / g4))), 'ZDT4', list(z), list(f))
    check(list(p.bounds) == [(0, 1)] + [(-5, 5)] * (n - 1), 'bounds of ZDT4')
    bad = z.copy()
    j = R.randint(0, n - 1)
    bad[j] = R.choice((-0.5, 1.5)) if j == 0 else R.choice((-5.5, 5.5))
    raises(AssertionError, p.evaluate, bad)


@case(*MULTI)
def zdt5(R):
    n = R.randint(2, 6)
    p = MP.ZDT5Problem(n)
    L = 30 + 5 * (n - 1)
    b = R.choice((0.2, 0.5, 0.9, 1.0))
    x = np.array([1 if R.prob() < b else 0 for _ in range(L)])
    check(p.phenome_length == L and list(p.bounds) == [(0, 1)] * L, 'the length of the phenome')
    f1 = 1 + int(sum(x[:30]))
    g = 0
    for i in range(n - 1):
        u = int(sum(x[30 + 5 * i:35 + 5 * i]))
        g += 1 if u == 5 else 2 + u
    f = p.evaluate(x)
    check(len(f) == 2 and close(f[0], f1) and close(f[1], g / f1), 'ZDT5', list(f), f1, g / f1)
    raises(AssertionError, p.evaluate, np.append(x, 1))
    bad = x.copy()
    bad[R.randint(0, L - 1)] = 2
    raises(AssertionError, p.evaluate, bad)
