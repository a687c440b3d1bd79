"""C25: parsimony keys order individuals by fitness in the direction of the goal, and shorter genomes first."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

M = 'leap_ec.parsimony:'
PROB = 'leap_ec.problem.ScalarProblem'
GENOME = KRef(PList(KReal, True))


class _Key(Contract):
    prop = 'C25'
    schema = {(PROB, 'maximize'): KBool, (IND, 'problem'): KRef(PObj(PROB)), (IND, 'fitness'): KReal, (IND, 'genome'): GENOME}

    def setup(self, E, st):
        self.i = new_input(E, st, PObj(IND))
        self.g = get(E, st, self.i.t, 'genome', GENOME)
        E.wf(st, self.g)
        p = get(E, st, self.i.t, 'problem', KRef(PObj(PROB)))
        E.wf(st, p)
        self.f = get(E, st, self.i.t, 'fitness', KReal).t
        self.mx = get(E, st, p.t, 'maximize', KBool).t
        self.n = E.lens(st, self.g.t)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        self.good = z3.If(self.mx, self.f, -self.f)
        return [self.i], {}

    def frame(self, E, st0, st):
        return [("the individual is left alone", z3.And(get(E, st, self.i.t, 'fitness', KReal).t == self.f, get(E, st, self.i.t, 'genome', GENOME).t == self.g.t, unchanged_list(E, st0, st, self.g)))]


class Koza(_Key):
    """koza_parsimony: fitness in the direction of the goal, less the penalty for every gene"""
    target = M + 'koza_parsimony'

    def setup(self, E, st):
        a, kw = super().setup(E, st)
        self.c = fresh('penalty', RealS)
        return a, {'penalty': VReal(self.c)}

    def post(self, E, st0, st, ret):
        ok = isinstance(ret, (VReal, VInt))
        return [("the penalised fitness", E.asreal(ret).t == self.good - self.c * z3.ToReal(self.n) if ok else FALSE)] + self.frame(E, st0, st)


class Lexical(_Key):
    """lexical_parsimony: fitness first, then the shorter genome"""
    target = M + 'lexical_parsimony'

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VTuple) and len(ret.items) == 2 and all(isinstance(v, (VInt, VReal)) for v in ret.items)):
            return [("a pair of numbers", FALSE)]
        a, b = [E.asreal(v).t for v in ret.items]
        return [("fitness first", a == self.good), ("then the length, shorter is better", b == -z3.ToReal(self.n))] + self.frame(E, st0, st)


class LexicalOrder(_Key):
    """two individuals: the keys are ordered by fitness, ties by length (whatever form the key has)"""
    target = M + 'lexical_parsimony'

    def setup(self, E, st):
        super().setup(E, st)
        a = (self.i, self.good, self.n)
        super().setup(E, st)
        self.pair = [a, (self.i, self.good, self.n)]
        return [], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        f = self.callee(E, st, src)
        E.call(f, [self.pair[0][0]], {}, st, cx, lambda s, v: E.call(f, [self.pair[1][0]], {}, s, cx, lambda s2, w: k(s2, VTuple([v, w]))))

    def post(self, E, st0, st, ret):
        v, w = ret.items
        flat = lambda x: x.items if isinstance(x, VTuple) else [x]
        a, b = [E.asreal(x).t for x in flat(v)], [E.asreal(x).t for x in flat(w)]
        if len(a) != len(b):
            return [("keys of one form", FALSE)]
        less, eq = FALSE, TRUE
        for x, y in zip(a, b):
            less, eq = z3.Or(less, z3.And(eq, x < y)), z3.And(eq, x == y)
        (_, g, n), (_, h, m) = self.pair
        return [("worse if less fit, or as fit and longer", less == z3.Or(g < h, z3.And(g == h, n > m))), ("tied only if as fit and as long", eq == z3.And(g == h, n == m))]


CONTRACTS = [Koza(), Lexical(), LexicalOrder()]
