"""C22: the benchmark problems compute their documented functions."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *
from pydv.models import PI, EULER

B = 'leap_ec.binary_rep.problems'
R = 'leap_ec.real_rep.problems'
MP = 'leap_ec.multiobjective.problems'
NDI, NDR = PList(KInt, True), PList(KReal, True)

BOUNDED = ["leap_ec.binary_rep.problems:LeadingOnes.evaluate (itertools.groupby) and ImageProblem, leap_ec.real_rep.problems: NoisyQuartic, Shekel, Weierstrass, Langermann and the quadratic family "
           "(matrices, nested sums of powers), leap_ec.multiobjective.problems: ZDT5 and the domain checks of ZDT1 to ZDT6: outside the verified subset; stand-in: random points (integers, edges of "
           "the domain, reals; up to 6 dimensions) against the documented formulas, to a relative error of 1e-6; the same points cross-check the functions proved with uninterpreted cosines, "
           "exponentials and roots"]


class _Count(Contract):
    """counting problems: the number of positions that agree, C(n) with C(0) = 0, C(j+1) = C(j) + [agrees at j]"""
    prop = 'C22'
    cls = None
    minlen = 0

    def world(self, E, st):
        self.p = new_input(E, st, PObj(self.cls))
        self.x = in_list(E, st, KInt, self.minlen, nd=True)
        self.n = E.lens(st, self.x.t)
        self.st0 = st.fork()
        self.C = z3.Function('agreeing', IntS, IntS)

    def counts(self, E, st):
        st.assume(self.C(0) == 0)
        if E.mode == 'bmc':
            for j in range(E.N + 1):
                st.assume(self.C(j + 1) == self.C(j) + z3.If(self.hit(E, z3.IntVal(j)), 1, 0))
        st.assume(z3.And(self.C(self.n) >= 0, self.C(self.n) <= self.n))

    def lemma(self, E, st):
        """a count or a sum the code took equals C, by induction on the position"""
        if E.mode != 'proof':
            return
        step = lambda j: self.C(j + 1) == self.C(j) + z3.If(self.hit(E, j), z3.IntVal(1), z3.IntVal(0))
        for S, A in E.counts[-1:]:
            j = fresh('j', IntS)
            s = st.fork()
            s.assume(z3.And(j >= 0, j < self.n, S(j) == self.C(j), step(j), S(j + 1) == S(j) + z3.If(z3.Select(A, j), z3.IntVal(1), z3.IntVal(0))))
            E.prove(s, S(j + 1) == self.C(j + 1), "the number counted, by induction", keep=False)
            st.assume(S(self.n) == self.C(self.n))
        for S in E.psums[-1:]:
            j = fresh('j', IntS)
            s = st.fork()
            s.assume(z3.And(j >= 0, j < self.n, S(j) == self.C(j), step(j)))
            E.prove(s, S(j + 1) == self.C(j + 1), "the sum taken, by induction", keep=False)
            st.assume(S(self.n) == self.C(self.n))

    def hit(self, E, j):
        return elem(E, self.st0, self.x, j).t == 1

    def setup(self, E, st):
        self.world(E, st)
        self.counts(E, st)
        return [self.p, self.x], {}

    def value(self):
        return self.C(self.n)

    def post(self, E, st0, st, ret):
        if not isinstance(ret, (VInt, VReal)):
            return [("a number", FALSE)]
        self.lemma(E, st)
        return [("as documented", E.asreal(ret).t == z3.ToReal(self.value())), ("the phenome is left alone", unchanged_list(E, st0, st, self.x))]


class Ones(_Count):
    """MaxOnes.evaluate without a target: the number of ones"""
    cls = B + '.MaxOnes'
    target = B + ':MaxOnes.evaluate'
    schema = {(cls, 'target_string'): KMaybe(KRef(NDI))}

    def setup(self, E, st):
        r = super().setup(E, st)
        T = KMaybe(KRef(NDI))
        st.assume(T.pack(get(E, st, self.p.t, 'target_string', T))[0])
        return r


class Target(_Count):
    """MaxOnes.evaluate with a target: the number of matches"""
    cls = B + '.MaxOnes'
    target = B + ':MaxOnes.evaluate'
    schema = {(cls, 'target_string'): KRef(NDI)}

    def setup(self, E, st):
        self.world(E, st)
        self.t = get(E, st, self.p.t, 'target_string', KRef(NDI))
        E.wf(st, self.t)
        st.assume(self.t.t != self.x.t)
        if E.mode == 'bmc':
            E.side.append(E.lens(st, self.t.t) <= E.N)
        self.st0 = st.fork()
        self.counts(E, st)
        return [self.p, self.x], {}

    def hit(self, E, j):
        return elem(E, self.st0, self.x, j).t == elem(E, self.st0, self.t, j).t

    def on_exc(self, E, st0, st, exc):
        return [("refused only if the lengths differ", self.n != E.lens(self.st0, self.t.t) if exc.name == 'AssertionError' else FALSE)]


class Trap(_Count):
    """DeceptiveTrap.evaluate"""
    cls = B + '.DeceptiveTrap'
    target = B + ':DeceptiveTrap.evaluate'
    schema = {}

    def value(self):
        return z3.If(self.C(self.n) == self.n, self.n, self.n - self.C(self.n) - 1)


class Two(_Count):
    """TwoMax.evaluate: the larger number of equal bits"""
    cls = B + '.TwoMax'
    target = B + ':TwoMax.evaluate'
    schema = {}

    def value(self):
        c = self.C(self.n)
        return z3.If(c >= self.n - c, c, self.n - c)


class _Sum(Contract):
    """sums over the phenome: G(0) = 0, G(j+1) = G(j) + term(j)"""
    prop = 'C22'
    cls = None
    nd = True
    schema = {}

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(self.cls))
        self.x = in_list(E, st, KReal, self.minlen, nd=self.nd)
        self.n = E.lens(st, self.x.t)
        self.st0 = st.fork()
        self.G = z3.Function('total', IntS, RealS)
        st.assume(self.G(0) == 0)
        if E.mode == 'bmc':
            for j in range(E.N + 1):
                st.assume(self.G(j + 1) == self.G(j) + self.term(E, z3.IntVal(j)))
        else:
            s0 = self.st0
            st.assume(E.forall(0, self.m(), lambda j: self.G(j + 1) == self.G(j) + self.term(E, j), pats=[lambda j: self.G(j + 1), lambda j: elem(E, s0, self.x, j).t]))
        return [self.p, self.x], {}

    minlen = 0

    def m(self):
        return self.n

    def el(self, E, j):
        return elem(E, self.st0, self.x, j).t

    def cands(self, E, L):
        for g, nm, v in L.reals():
            yield f"{nm}: the total so far", lambda s, g=g: g(s) == self.G(L.k(s))
        for nm, v in L.mod_lists():
            yield f"{nm}: so many", lambda s, v=v: E.lens(s, v.t) == L.k(s)
            yield f"{nm}: the terms in order", lambda s, v=v: E.forall(0, L.k(s), lambda j: elem(E, s, VRef(v.t, PList(KReal)), j).t == self.term(E, j))

    def post(self, E, st0, st, ret):
        if not isinstance(ret, (VInt, VReal)):
            return [("a number", FALSE)]
        if E.mode == 'proof':
            for S in E.psums[-1:]:
                j = fresh('j', IntS)
                s = st.fork()
                s.assume(z3.And(j >= 0, j < self.m(), S(j) == self.G(j), self.G(j + 1) == self.G(j) + self.term(E, j)))
                E.prove(s, S(j + 1) == self.G(j + 1), "the sum of the terms, by induction", keep=False)
                st.assume(z3.Implies(self.m() >= 0, S(self.m()) == self.G(self.m())))
        return [("the documented sum", E.asreal(ret).t == self.G(self.m())), ("the phenome is left alone", unchanged_list(E, st0, st, self.x))]


class Sphere(_Sum):
    """SpheroidProblem.evaluate: the sum of squares (numpy arrays)"""
    cls = R + '.SpheroidProblem'
    target = R + ':SpheroidProblem.evaluate'

    def term(self, E, j):
        return self.el(E, j) * self.el(E, j)


class SphereList(Sphere):
    """... of lists"""
    nd = False


class Step(_Sum):
    """StepProblem.evaluate: the sum of the floors"""
    cls = R + '.StepProblem'
    target = R + ':StepProblem.evaluate'

    def term(self, E, j):
        return z3.ToReal(z3.ToInt(self.el(E, j)))


class Rosenbrock(_Sum):
    """RosenbrockProblem.evaluate"""
    cls = R + '.RosenbrockProblem'
    opaque_mul = True
    target = R + ':RosenbrockProblem.evaluate'
    minlen = 1

    def m(self):
        return self.n - 1

    def term(self, E, j):
        a, b = self.el(E, j), self.el(E, j + 1)
        d, e = b - E.mul(a, a), a - 1
        return 100 * E.mul(d, d) + E.mul(e, e)


class RosenbrockList(Rosenbrock):
    """RosenbrockProblem.evaluate of lists"""
    nd = False


_x, _y = z3.Reals('x!m y!m')
_P = z3.Function('product', RealS, RealS, RealS)
COMMUTES = z3.ForAll([_x, _y], _P(_x, _y) == _P(_y, _x), patterns=[_P(_x, _y)])


class _Formula(Contract):
    """a closed formula over sums (and products) of terms of the phenome: totals()[name] = term, and the value documented in terms of them"""
    prop = 'C22'
    cls = None
    nd = True
    opaque_mul = True
    minlen = 1
    schema = {}
    products = ()
    reals = ()
    axioms = [COMMUTES]

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(self.cls))
        self.x = in_list(E, st, KReal, self.minlen, nd=self.nd)
        self.n = E.lens(st, self.x.t)
        self.prepare(E, st)
        self.st0 = st.fork()
        self.a = {a: get(E, st, self.p.t, a, KReal).t for a in self.reals}
        self.G = {}
        for nm, (m, t) in self.totals(E).items():
            g = z3.Function('total.' + nm, IntS, RealS)
            self.G[nm] = g
            prod = nm in self.products
            step = (lambda j, g=g, t=t: g(j + 1) == E.mul(g(j), t(j))) if prod else (lambda j, g=g, t=t: g(j + 1) == g(j) + t(j))
            st.assume(g(0) == (1 if prod else 0))
            if E.mode == 'bmc':
                for j in range(E.N + 1):
                    st.assume(step(z3.IntVal(j)))
        return [self.p, self.x], {}

    def prepare(self, E, st):
        pass

    def el(self, E, j):
        return elem(E, self.st0, self.x, j).t

    def cands(self, E, L):
        for g, nm, v in L.reals():
            for t in self.G:
                yield f"{nm}: total {t} so far", lambda s, g=g, t=t: g(s) == self.G[t](L.k(s))

    def lemmas(self, E, st):
        """every sum and product the code took that has the terms of a documented total is that total, by induction"""
        if E.mode != 'proof':
            return
        got = [(S, None) for S in E.psums] + [(P, n) for P, n in E.pprods]
        for nm, (m, t) in self.totals(E).items():
            g, prod = self.G[nm], nm in self.products
            for S, pn in got:
                if (pn is not None) != prod:
                    continue
                j = fresh('j', IntS)
                s = st.fork()
                nxt = E.mul(g(j), t(j)) if prod else g(j) + t(j)
                s.assume(z3.And(j >= 0, j < m, S(j) == g(j), g(j + 1) == nxt))
                goal = S(j + 1) == g(j + 1)
                if E.check(s.pc + [z3.Not(goal)], timeout=4000)[0] == 'unsat':
                    E.prove(s, goal, f"{nm}: by induction on the terms", keep=False)
                    st.assume(z3.Implies(m >= 0, S(m) == g(m)))

    def T(self, nm, m=None):
        return self.G[nm](self.n if m is None else m)

    def post(self, E, st0, st, ret):
        if not isinstance(ret, (VInt, VReal)):
            return [("a number", FALSE)]
        self.lemmas(E, st)
        return [("the documented formula", E.asreal(ret).t == self.value(E)), ("the phenome is left alone", unchanged_list(E, st0, st, self.x))]


class Rastrigin(_Formula):
    """RastriginProblem.evaluate"""
    cls = R + '.RastriginProblem'
    target = R + ':RastriginProblem.evaluate'
    schema = {(cls, 'a'): KReal}
    reals = ('a',)

    def totals(self, E):
        return {'terms': (self.n, lambda j: E.mul(self.el(E, j), self.el(E, j)) - E.mul(self.a['a'], E.math('cos', 2 * PI * self.el(E, j))))}

    def value(self, E):
        return E.mul(self.a['a'], z3.ToReal(self.n)) + self.T('terms')


class RastriginList(Rastrigin):
    """... of lists"""
    nd = False


class Griewank(_Formula):
    """GriewankProblem.evaluate"""
    cls = R + '.GriewankProblem'
    target = R + ':GriewankProblem.evaluate'
    products = ('waves',)

    def totals(self, E):
        return {'squares': (self.n, lambda j: E.mul(self.el(E, j), self.el(E, j)) / 4000),
                'waves': (self.n, lambda j: E.math('cos', E.quo(self.el(E, j), E.math('sqrt', z3.ToReal(j + 1)))))}

    def value(self, E):
        return 1 + self.T('squares') - self.T('waves')


class Ackley(_Formula):
    """AckleyProblem.evaluate"""
    cls = R + '.AckleyProblem'
    target = R + ':AckleyProblem.evaluate'
    schema = {(cls, 'a'): KReal, (cls, 'b'): KReal, (cls, 'c'): KReal}
    reals = ('a', 'b', 'c')

    def totals(self, E):
        return {'squares': (self.n, lambda j: E.mul(self.el(E, j), self.el(E, j))), 'waves': (self.n, lambda j: E.math('cos', E.mul(self.a['c'], self.el(E, j))))}

    def value(self, E):
        a, b = self.a['a'], self.a['b']
        per = E.quo(z3.RealVal(1), z3.ToReal(self.n))
        return E.mul(-a, E.math('exp', E.mul(-b, E.math('sqrt', E.mul(per, self.T('squares')))))) - E.math('exp', E.mul(per, self.T('waves'))) + a + EULER


class Schwefel(_Formula):
    """SchwefelProblem.evaluate"""
    cls = R + '.SchwefelProblem'
    target = R + ':SchwefelProblem.evaluate'
    schema = {(cls, 'alpha'): KReal}
    reals = ('alpha',)

    def totals(self, E):
        def t(j):
            x = self.el(E, j)
            return E.mul(-x, E.math('sin', E.math('sqrt', z3.If(x < 0, -x, x))))
        return {'terms': (self.n, t)}

    def value(self, E):
        return self.T('terms') + E.mul(self.a['alpha'], z3.ToReal(self.n))


class Gaussian(_Formula):
    """GaussianProblem.evaluate"""
    cls = R + '.GaussianProblem'
    target = R + ':GaussianProblem.evaluate'
    schema = {(cls, 'width'): KReal, (cls, 'height'): KReal}
    reals = ('width', 'height')

    def totals(self, E):
        def t(j):
            q = E.quo(self.el(E, j), self.a['width'])
            return E.mul(q, q)
        return {'squares': (self.n, t)}

    def value(self, E):
        return E.mul(self.a['height'], E.math('exp', -self.T('squares')))


class Lunacek(_Formula):
    """LunacekProblem.evaluate"""
    cls = R + '.LunacekProblem'
    target = R + ':LunacekProblem.evaluate'
    schema = {(cls, 'N'): KInt, (cls, 'd'): KReal, (cls, 's'): KReal, (cls, 'mu_1'): KReal, (cls, 'mu_2'): KReal}
    reals = ('d', 's', 'mu_1', 'mu_2')

    def totals(self, E):
        sq = lambda m: lambda j: E.mul(self.el(E, j) - self.a[m], self.el(E, j) - self.a[m])
        return {'first': (self.n, sq('mu_1')), 'second': (self.n, sq('mu_2')), 'waves': (self.n, lambda j: 1 - E.math('cos', 2 * PI * (self.el(E, j) - self.a['mu_1'])))}

    def value(self, E):
        one = self.T('first')
        two = E.mul(self.a['d'], z3.ToReal(self.n)) + E.mul(self.a['s'], self.T('second'))
        return z3.If(one <= two, one, two) + 10 * self.T('waves')


class Cosine(_Formula):
    """CosineFamilyProblem.evaluate"""
    cls = R + '.CosineFamilyProblem'
    target = R + ':CosineFamilyProblem.evaluate'
    schema = {(cls, 'alpha'): KReal, (cls, 'dimensions'): KInt, (cls, 'global_optima_counts'): KRef(NDI), (cls, 'local_optima_counts'): KRef(NDI)}
    reals = ('alpha',)

    def prepare(self, E, st):
        self.g = get(E, st, self.p.t, 'global_optima_counts', KRef(NDI))
        self.l = get(E, st, self.p.t, 'local_optima_counts', KRef(NDI))
        self.d = get(E, st, self.p.t, 'dimensions', KInt).t
        for v in (self.g, self.l):
            E.wf(st, v)
            st.assume(z3.And(E.lens(st, v.t) == self.d, v.t != self.x.t))
        st.assume(z3.And(self.d >= 1, self.n == self.d))

    def totals(self, E):
        def t(j):
            x = self.el(E, j)
            g, l = z3.ToReal(elem(E, self.st0, self.g, j).t), z3.ToReal(elem(E, self.st0, self.l, j).t)
            w = (g - 1) * 2 * PI
            return -E.math('cos', E.mul(w, x)) + E.mul(-self.a['alpha'], E.math('cos', E.mul(E.mul(w, l), x)))
        return {'terms': (self.n, t)}

    def value(self, E):
        return E.quo(self.T('terms'), z3.ToReal(2 * self.d))


class _Refuse(Contract):
    """a phenome that is not an array is refused"""
    prop = 'C22'
    schema = {}

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(self.cls))
        self.x = in_list(E, st, KReal, 1)
        return [self.p, self.x], {}

    def post(self, E, st0, st, ret):
        return [("a list is refused", FALSE)]

    def on_exc(self, E, st0, st, exc):
        return [("by a ValueError", TRUE if exc.name == 'ValueError' else FALSE)]


REFUSE = [type('Refuse' + n, (_Refuse,), dict(cls=R + f'.{n}Problem', target=R + f':{n}Problem.evaluate', __doc__=f'{n}Problem.evaluate refuses lists'))()
          for n in ('Griewank', 'Ackley', 'Weierstrass', 'Schwefel', 'Gaussian', 'CosineFamily')]


class _Zdt(_Formula):
    """the ZDT problems: f1, and f2 = g * h(f1, g)"""
    minlen = 2
    check = False

    def prepare(self, E, st):
        st.assume(z3.Not(get(E, st, self.p.t, 'check_phenome', KBool).t))
        self.nn = get(E, st, self.p.t, 'n', KInt).t
        st.assume(self.nn >= 2)
        st.assume(self.n == self.nn)

    def sum(self, E):
        return self.T('rest', self.n - 1)

    def totals(self, E):
        return {'rest': (self.n - 1, lambda j: self.el(E, j + 1))}

    def f1(self, E):
        return self.el(E, z3.IntVal(0))

    def g(self, E):
        return 1 + E.quo(9 * self.sum(E), z3.ToReal(self.nn - 1))

    def on_exc(self, E, st0, st, exc):
        self.lemmas(E, st)
        return [("divides by zero only where the formula does", self.g(E) == 0 if exc.name == 'ZeroDivisionError' else FALSE)]

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("an array", FALSE)]
        self.lemmas(E, st)
        v = lambda j: E.asreal(elem(E, st, ret, z3.IntVal(j))).t
        return [("two objectives", E.lens(st, ret.t) == 2), ("the first objective", v(0) == self.f1(E)), ("the second objective", v(1) == E.mul(self.g(E), self.h(E))),
                ("the phenome is left alone", unchanged_list(E, st0, st, self.x))]


def _zdt(n):
    c = MP + f'.ZDT{n}Problem'
    return dict(cls=c, target=MP + f':ZDT{n}Problem.evaluate', schema={(c, 'check_phenome'): KBool, (c, 'n'): KInt})


class Zdt1(_Zdt):
    """ZDT1Problem.evaluate"""
    locals().update(_zdt(1))

    def h(self, E):
        return 1 - E.math('sqrt', E.quo(self.f1(E), self.g(E)))


class Zdt2(_Zdt):
    """ZDT2Problem.evaluate"""
    locals().update(_zdt(2))

    def h(self, E):
        q = E.quo(self.f1(E), self.g(E))
        return 1 - E.mul(q, q)


class Zdt3(_Zdt):
    """ZDT3Problem.evaluate"""
    locals().update(_zdt(3))

    def h(self, E):
        q = E.quo(self.f1(E), self.g(E))
        return 1 - E.math('sqrt', q) - E.mul(q, E.math('sin', 10 * PI * self.f1(E)))


class Zdt4(_Zdt):
    """ZDT4Problem.evaluate"""
    locals().update(_zdt(4))

    def totals(self, E):
        return {'rest': (self.n - 1, lambda j: E.mul(self.el(E, j + 1), self.el(E, j + 1)) - 10 * E.math('cos', 4 * PI * self.el(E, j + 1)))}

    def g(self, E):
        return 1 + 10 * z3.ToReal(self.nn - 1) + self.sum(E)

    def h(self, E):
        return 1 - E.math('sqrt', E.quo(self.f1(E), self.g(E)))


class Zdt6(_Zdt):
    """ZDT6Problem.evaluate"""
    locals().update(_zdt(6))

    def f1(self, E):
        x = self.el(E, z3.IntVal(0))
        s, w = z3.RealVal(1), E.math('sin', 6 * PI * x)
        for _ in range(6):
            s = E.mul(s, w)
        return 1 - E.mul(E.math('exp', -4 * x), s)

    def g(self, E):
        return 1 + 9 * E.fn('pow', RealS, RealS, RealS)(E.quo(self.sum(E), z3.ToReal(self.nn - 1)), z3.RealVal('1/4'))

    def h(self, E):
        q = E.quo(self.f1(E), self.g(E))
        return 1 - E.mul(q, q)


class Sch(Contract):
    """SCHProblem.evaluate"""
    prop = 'C22'
    target = MP + ':SCHProblem.evaluate'
    schema = {}

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(MP + '.SCHProblem'))
        self.v = fresh('x', RealS)
        return [self.p, VReal(self.v)], {}

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("an array", FALSE)]
        g = lambda j: E.asreal(elem(E, st, ret, z3.IntVal(j))).t
        return [("two objectives", E.lens(st, ret.t) == 2), ("the square", g(0) == self.v * self.v), ("the square around two", g(1) == (self.v - 2) * (self.v - 2))]


CONTRACTS = [Ones(), Target(), Trap(), Two(), Sphere(), SphereList(), Step(), Rosenbrock(), RosenbrockList(), Sch(), Rastrigin(), RastriginList(), Griewank(), Ackley(), Schwefel(), Gaussian(),
             Lunacek(), Cosine(), Zdt1(), Zdt2(), Zdt3(), Zdt4(), Zdt6()] + REFUSE
