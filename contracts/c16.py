"""C16: multiobjective problems compare individuals by Pareto dominance, in the direction of each objective."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

MOP = 'leap_ec.multiobjective.problems.MultiObjectiveProblem'
NDI = KRef(PList(KInt, True))
NDR = PList(KReal, True)
SCHEMA = {(MOP, 'maximize'): NDI, (IND, 'problem'): KRef(PObj(MOP)), (IND, 'fitness'): KRef(NDR)}
MOD = 'leap_ec.multiobjective.problems:MultiObjectiveProblem.'


class _Pareto(Contract):
    prop = 'C16'
    schema = SCHEMA
    m = 2

    def world(self, E, st):
        self.p = new_input(E, st, PObj(MOP))
        self.mx = get(E, st, self.p.t, 'maximize', NDI)
        E.wf(st, self.mx)
        self.n = E.lens(st, self.mx.t)
        st.assume(self.n >= 1)
        s0 = st.fork()
        el = lambda j: elem(E, s0, self.mx, j).t
        st.assume(E.forall(0, self.n, lambda j: z3.Or(el(j) == 1, el(j) == -1), pats=[el]))
        self.f = [in_list(E, st, KReal, 1, nd=True) for _ in range(self.m)]
        for f in self.f:
            st.assume(E.lens(st, f.t) == self.n)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        self.st0 = st.fork()

    def up(self, E, f, j):
        """objective j of fitness f, as one to maximise"""
        v = elem(E, self.st0, f, j).t
        return z3.If(elem(E, self.st0, self.mx, j).t == 1, v, -v)

    def dominated(self, E, a, b):
        """b is at least as good everywhere and better somewhere"""
        return z3.And(E.forall(0, self.n, lambda j: self.up(E, b, j) >= self.up(E, a, j)), E.exists(0, self.n, lambda j: self.up(E, b, j) > self.up(E, a, j)))

    def same(self, E, st):
        return [("the fitnesses are left alone", z3.And(unchanged_list(E, self.st0, st, self.mx), *[unchanged_list(E, self.st0, st, f) for f in self.f]))]


class WorseThan(_Pareto):
    """worse_than is Pareto dominance"""
    target = MOD + 'worse_than'

    def setup(self, E, st):
        self.world(E, st)
        return [self.p] + self.f, {}

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VBool):
            return [("returns a truth value", FALSE)]
        d = self.dominated(E, *self.f)
        return [("worse only if dominated", z3.Implies(ret.t, d)), ("dominated means worse", z3.Implies(d, ret.t))] + self.same(E, st)


class Equivalent(_Pareto):
    """equivalent: neither dominates the other"""
    target = MOD + 'equivalent'

    def __init__(self):
        self.specs = {(MOP, 'worse_than'): self.worse}

    def worse(self, E, st, cx, args, kw, k):
        """contract of worse_than (proved by WorseThan)"""
        a, b = args[1:3]
        r = fresh('worse', BoolS)
        st.assume(r == self.DOM(a.t, b.t))
        k(st, VBool(r))

    def setup(self, E, st):
        self.world(E, st)
        self.DOM = z3.Function('dominated', IntS, IntS, BoolS)
        return [self.p] + self.f, {}

    def post(self, E, st0, st, ret):
        a, b = self.f
        return [("equivalent exactly when neither dominates the other", ret.t == z3.And(z3.Not(self.DOM(a.t, b.t)), z3.Not(self.DOM(b.t, a.t))) if isinstance(ret, VBool) else FALSE)]


class Order(_Pareto):
    """dominance is a strict partial order"""
    target = MOD + 'worse_than'
    m = 3
    drive = None

    def setup(self, E, st):
        self.world(E, st)
        return [], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        f = self.callee(E, st, src)
        pairs = [(0, 0), (0, 1), (1, 0), (1, 2), (0, 2)]

        def go(i, s, res):
            if i == len(pairs):
                return k(s, VTuple(res))
            a, b = pairs[i]
            E.call(f, [self.p, self.f[a], self.f[b]], {}, s, cx, lambda s2, v: go(i + 1, s2, res + [v]))
        go(0, st, [])

    def post(self, E, st0, st, ret):
        aa, ab, ba, bc, ac = [v.t for v in ret.items]
        return [("irreflexive", z3.Not(aa)), ("asymmetric", z3.Not(z3.And(ab, ba))), ("transitive", z3.Implies(z3.And(ab, bc), ac))]


class Init(Contract):
    """the constructor turns the directions into signs, objective by objective"""
    prop = 'C16'
    target = MOD + '__init__'
    schema = SCHEMA

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(MOP))
        self.l = in_list(E, st, KBool, 1)
        self.st0 = st.fork()
        return [self.p, self.l], {}

    def post(self, E, st0, st, ret):
        mx = get(E, st, self.p.t, 'maximize', NDI)
        n = E.lens(st0, self.l.t)
        return [("one sign per objective", E.lens(st, mx.t) == n),
                ("+1 for maximisation, -1 for minimisation", E.forall(0, n, lambda j: elem(E, st, mx, j).t == z3.If(elem(E, st0, self.l, j).t, z3.IntVal(1), z3.IntVal(-1)))),
                ("the directions given are left alone", unchanged_list(E, st0, st, self.l))]


class Lt(_Pareto):
    """individuals of one problem: a < b exactly when b dominates a"""
    target = 'leap_ec.individual:Individual.__lt__'

    def __init__(self):
        self.specs = {(MOP, 'worse_than'): Equivalent.worse.__get__(self)}

    def setup(self, E, st):
        self.world(E, st)
        self.DOM = z3.Function('dominated', IntS, IntS, BoolS)
        self.x = [new_input(E, st, PObj(IND)) for _ in range(2)]
        for x, f in zip(self.x, self.f):
            E.hset(st, x.t, 'problem', KRef(PObj(MOP)), self.p)
            E.hset(st, x.t, 'fitness', KRef(NDR), f)
        self.g = [get(E, st, x.t, 'fitness', KRef(NDR)).t for x in self.x]
        return list(self.x), {}

    def post(self, E, st0, st, ret):
        return [("less exactly when dominated", ret.t == self.DOM(*self.g) if isinstance(ret, VBool) else FALSE)]


CONTRACTS = [WorseThan(), Equivalent(), Order(), Init(), Lt()]
