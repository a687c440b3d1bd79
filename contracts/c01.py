"""C01: fitness comparison of individuals follows the problem's direction; NaN is worst; None is never better."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

PROB = 'leap_ec.problem.ScalarProblem'
SCHEMA = {(PROB, 'maximize'): KBool, (IND, 'problem'): KRef(PObj(PROB)), (IND, 'fitness'): KFloat}


def worse(mx, a, an, b, bn):
    """the documented order, for operands that are not both NaN"""
    return z3.If(an, TRUE, z3.If(bn, FALSE, z3.If(mx, a < b, a > b)))


class WorseThan(Contract):
    """ScalarProblem.worse_than is the strict order of the problem's direction, NaN below everything"""
    prop = 'C01'
    target = 'leap_ec.problem:ScalarProblem.worse_than'
    schema = SCHEMA

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(PROB))
        self.a, self.b = KFloat.fresh('a'), KFloat.fresh('b')
        return [self.p, self.a, self.b], {}

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VBool):
            return [("returns a truth value", FALSE)]
        mx = get(E, st0, self.p.t, 'maximize', KBool).t
        a, b = self.a, self.b
        return [("the direction of the problem decides; NaN is worse than any number", z3.Implies(z3.Not(z3.And(a.nan, b.nan)), ret.t == worse(mx, a.t, a.nan, b.t, b.nan)))]


class Order(Contract):
    """worse_than is irreflexive, asymmetric and transitive (on any three fitnesses, at most one NaN)"""
    prop = 'C01'
    target = 'leap_ec.problem:ScalarProblem.worse_than'
    schema = SCHEMA

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(PROB))
        self.x = [KFloat.fresh('x') for _ in range(3)]
        for i in range(3):
            for j in range(i):
                st.assume(z3.Not(z3.And(self.x[i].nan, self.x[j].nan)))
        return [], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        f = self.callee(E, st, src)
        pairs = [(0, 1), (1, 0), (1, 2), (0, 2)]

        def go(i, s, res):
            if i == len(pairs):
                return k(s, VTuple(res))
            a, b = pairs[i]
            E.call(f, [self.p, self.x[a], self.x[b]], {}, s, cx, lambda s2, v: go(i + 1, s2, res + [v]))
        go(0, st, [])

    def post(self, E, st0, st, ret):
        ab, ba, bc, ac = [v.t for v in ret.items]
        x = self.x
        return [("asymmetric", z3.Not(z3.And(ab, ba))),
                ("transitive", z3.Implies(z3.And(ab, bc), ac)),
                ("no incomparable pair of different numbers", z3.Implies(z3.And(z3.Not(x[0].nan), z3.Not(x[1].nan), x[0].t != x[1].t), z3.Xor(ab, ba)))]


class Equivalent(Contract):
    """ScalarProblem.equivalent: equal fitnesses are equivalent; NaN and different-by-far numbers are not"""
    prop = 'C01'
    target = 'leap_ec.problem:ScalarProblem.equivalent'
    schema = SCHEMA

    def setup(self, E, st):
        self.p = new_input(E, st, PObj(PROB))
        self.a, self.b = KFloat.fresh('a'), KFloat.fresh('b')
        return [self.p, self.a, self.b], {}

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VBool):
            return [("returns a truth value", FALSE)]
        a, b = self.a, self.b
        num = z3.And(z3.Not(a.nan), z3.Not(b.nan))
        ab = lambda x: z3.If(x >= 0, x, -x)
        big = z3.If(ab(a.t) >= ab(b.t), ab(a.t), ab(b.t))
        return [("equal numbers are equivalent", z3.Implies(z3.And(num, a.t == b.t), ret.t)),
                ("NaN is equivalent to nothing", z3.Implies(z3.Or(a.nan, b.nan), z3.Not(ret.t))),
                ("numbers further apart than the floating tolerance are not equivalent", z3.Implies(z3.And(num, ab(a.t - b.t) * 1000000 > big, a.t != b.t), z3.Not(ret.t)))]


class _Cmp(Contract):
    prop = 'C01'
    schema = SCHEMA

    def setup(self, E, st):
        self.a, self.b = new_input(E, st, PObj(IND)), new_input(E, st, PObj(IND))
        return [self.a, self.b], {}

    def vals(self, E, st0):
        fa, fb = get(E, st0, self.a.t, 'fitness', KFloat), get(E, st0, self.b.t, 'fitness', KFloat)
        p = get(E, st0, self.a.t, 'problem', KRef(PObj(PROB)))
        return get(E, st0, p.t, 'maximize', KBool).t, fa, fb


class Lt(_Cmp):
    """a < b on individuals is 'a is worse than b' for a's problem"""
    target = 'leap_ec.individual:Individual.__lt__'

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VBool):
            return [("returns a truth value", FALSE)]
        mx, a, b = self.vals(E, st0)
        return [("less means worse under the individual's problem", z3.Implies(z3.Not(z3.And(a.nan, b.nan)), ret.t == worse(mx, a.t, a.nan, b.t, b.nan)))]


class LtNone(_Cmp):
    """no individual is worse than None"""
    target = 'leap_ec.individual:Individual.__lt__'

    def setup(self, E, st):
        self.a = new_input(E, st, PObj(IND))
        return [self.a, NONE], {}

    def post(self, E, st0, st, ret):
        return [("never worse than None", z3.Not(ret.t) if isinstance(ret, VBool) else FALSE)]


class EqNone(LtNone):
    """no individual equals None"""
    target = 'leap_ec.individual:Individual.__eq__'

    def post(self, E, st0, st, ret):
        return [("never equal to None", z3.Not(ret.t) if isinstance(ret, VBool) else FALSE)]


class Eq(_Cmp):
    """equal fitness means equal individuals; clearly different fitness means different"""
    target = 'leap_ec.individual:Individual.__eq__'

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VBool):
            return [("returns a truth value", FALSE)]
        mx, a, b = self.vals(E, st0)
        num = z3.And(z3.Not(a.nan), z3.Not(b.nan))
        ab = lambda x: z3.If(x >= 0, x, -x)
        big = z3.If(ab(a.t) >= ab(b.t), ab(a.t), ab(b.t))
        return [("same fitness compares equal", z3.Implies(z3.And(num, a.t == b.t), ret.t)),
                ("clearly different fitness compares unequal", z3.Implies(z3.And(num, ab(a.t - b.t) * 1000000 > big, a.t != b.t), z3.Not(ret.t)))]


CONTRACTS = [WorseThan(), Order(), Equivalent(), Lt(), LtNone(), Eq(), EqNone()]
TRUSTED = ["functools.total_ordering derives >, >=, <= from < and == (also executed by the run-time contracts)"]
