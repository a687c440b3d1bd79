"""C21: a wrapping problem's fitness is its documented function of the wrapped problem's, and it compares as the wrapped problem does."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

M = 'leap_ec.problem'
R = 'leap_ec.real_rep.problems'
PH = KRef(PObj('Phenome'))
LEAP = 'dict:leap'
NDR = PList(KReal, True)

BOUNDED = ["leap_ec.problem:ExternalProcessProblem.evaluate_multiple (text sent to and read from another process), leap_ec.problem:AverageFitnessProblem.evaluate_multiple (blocks of n, non-linear), "
           "leap_ec.real_rep.problems:MatrixTransformedProblem.evaluate and random_orthonormal_matrix (matrix products), leap_ec.executable_rep.problems:EnvironmentProblem.evaluate and "
           "TruthTableProblem.evaluate (recursive tables, scripted environments): stand-in: random wrapped problems, phenomes and environments against the definitions"]


class _Wrap(Contract):
    """the wrapped problem is known only by its interface: evaluate gives VAL(problem, call), worse_than and equivalent answers of its own"""
    prop = 'C21'
    cls = None

    def __init__(self):
        self.specs = {('Inner', 'evaluate'): self.inner, ('Inner', 'worse_than'): self.cmp('worse'), ('Inner', 'equivalent'): self.cmp('same')}
        self.bmc_specs = self.specs

    def begin(self, E, st):
        self.VAL = z3.Function('inner', IntS, IntS, RealS)
        self.CMP = {n: z3.Function('inner_' + n, IntS, RealS, RealS, BoolS) for n in ('worse', 'same')}
        st.ghost['%calls'] = z3.IntVal(0)
        self.w = new_input(E, st, PObj(self.cls))

    def seen(self, E, st, who, args, kw):
        """what the wrapped problem is given: the phenome itself, nothing else"""
        a = list(args)
        return a[0].t == self.x.t if len(a) == 1 and not kw and isinstance(a[0], VRef) and a[0].p == self.x.p else FALSE

    def inner(self, E, st, cx, args, kw, k):
        E.prove(st, self.seen(E, st, args[0], args[1:], kw), "the wrapped problem evaluates the right phenome")
        c = st.ghost['%calls']
        st.ghost['%calls'] = z3.simplify(c + 1)
        k(st, VReal(self.VAL(args[0].t, c)))

    def cmp(self, which):
        def spec(E, st, cx, args, kw, k):
            a, b = [E.asreal(v).t for v in args[1:3]]
            k(st, VBool(self.CMP[which](args[0].t, a, b)))
        return spec

    def once(self, E, st, p, f, ret):
        ok = isinstance(ret, (VReal, VInt))
        return [("evaluated once", st.ghost['%calls'] == 1), ("the fitness is the documented function of the wrapped one", E.asreal(ret).t == f(self.VAL(p, z3.IntVal(0))) if ok else FALSE)]


class Offset(_Wrap):
    """FitnessOffsetProblem.evaluate"""
    cls = M + '.FitnessOffsetProblem'
    target = M + ':FitnessOffsetProblem.evaluate'
    schema = {(cls, 'problem'): KRef(PObj('Inner')), (cls, 'fitness_offset'): KReal}

    def setup(self, E, st):
        self.begin(E, st)
        self.p = get(E, st, self.w.t, 'problem', KRef(PObj('Inner')))
        E.wf(st, self.p)
        self.c = get(E, st, self.w.t, 'fitness_offset', KReal).t
        self.x = new_input(E, st, PObj('Phenome'))
        return [self.w, self.x], {}

    def post(self, E, st0, st, ret):
        return self.once(E, st, self.p.t, lambda v: v + self.c, ret)


class Constant(_Wrap):
    """ConstantProblem.evaluate"""
    cls = M + '.ConstantProblem'
    target = M + ':ConstantProblem.evaluate'
    schema = {(cls, 'c'): KReal}

    def setup(self, E, st):
        self.begin(E, st)
        self.x = new_input(E, st, PObj('Phenome'))
        return [self.w, self.x], {}

    def post(self, E, st0, st, ret):
        return [("its constant", E.asreal(ret).t == get(E, st0, self.w.t, 'c', KReal).t if isinstance(ret, (VReal, VInt)) else FALSE)]


class Function(_Wrap):
    """FunctionProblem.evaluate"""
    cls = M + '.FunctionProblem'
    target = M + ':FunctionProblem.evaluate'
    schema = {(cls, 'fitness_function'): KRef(PObj('Inner'))}

    def __init__(self):
        super().__init__()
        self.specs = self.bmc_specs = {('Inner', '__call__'): self.inner}

    def setup(self, E, st):
        self.begin(E, st)
        self.p = get(E, st, self.w.t, 'fitness_function', KRef(PObj('Inner')))
        E.wf(st, self.p)
        self.x = new_input(E, st, PObj('Phenome'))
        return [self.w, self.x], {}

    def post(self, E, st0, st, ret):
        return self.once(E, st, self.p.t, lambda v: v, ret)


class Multiple(_Wrap):
    """Problem.evaluate_multiple: each phenome evaluated once, fitnesses in order"""
    cls = M + '.ConstantProblem'
    target = M + ':Problem.evaluate_multiple'
    schema = {}

    def __init__(self):
        super().__init__()
        self.specs = self.bmc_specs = {(self.cls, 'evaluate'): self.inner}

    def setup(self, E, st):
        self.begin(E, st)
        self.xs = in_list(E, st, PH)
        self.st0 = st.fork()
        return [self.w, self.xs], {}

    def seen(self, E, st, who, args, kw):
        c = st.ghost['%calls']
        return z3.And(c < E.lens(self.st0, self.xs.t), args[0].t == elem(E, self.st0, self.xs, c).t) if args and isinstance(args[0], VRef) else FALSE

    def cands(self, E, L):
        yield "calls so far", lambda s: s.ghost['%calls'] == L.k(s)
        for nm, v in L.mod_lists():
            yield f"{nm}: so many", lambda s, v=v: E.lens(s, v.t) == L.k(s)
            yield f"{nm}: the fitnesses in order", lambda s, v=v: E.forall(0, L.k(s), lambda j: elem(E, s, VRef(v.t, PList(KReal)), j).t == self.VAL(self.w.t, j))

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        n = E.lens(st0, self.xs.t)
        return [("one fitness per phenome", E.lens(st, ret.t) == n), ("each evaluated once", st.ghost['%calls'] == n),
                ("in order", E.forall(0, n, lambda j: E.asreal(elem(E, st, ret, j)).t == self.VAL(self.w.t, j))), ("the phenomes are left alone", unchanged_list(E, st0, st, self.xs))]


class Average(_Wrap):
    """AverageFitnessProblem.evaluate: the mean of n evaluations"""
    cls = M + '.AverageFitnessProblem'
    target = M + ':AverageFitnessProblem.evaluate'
    schema = {(cls, 'wrapped_problem'): KRef(PObj('Inner')), (cls, 'n'): KInt}

    def setup(self, E, st):
        self.begin(E, st)
        self.p = get(E, st, self.w.t, 'wrapped_problem', KRef(PObj('Inner')))
        E.wf(st, self.p)
        self.n = get(E, st, self.w.t, 'n', KInt).t
        st.assume(self.n >= 1)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        self.x = new_input(E, st, PObj('Phenome'))
        self.G = z3.Function('total', IntS, RealS)      # the total of the first t evaluations
        if E.mode == 'bmc':
            st.assume(self.G(0) == 0)
            for t in range(E.N + 1):
                st.assume(self.G(t + 1) == self.G(t) + self.VAL(self.p.t, z3.IntVal(t)))
        else:
            t = z3.Int('t!g')
            st.assume(self.G(0) == 0)
            st.assume(z3.ForAll([t], z3.Implies(t >= 0, self.G(t + 1) == self.G(t) + self.VAL(self.p.t, t)), patterns=[self.VAL(self.p.t, t)]))
        return [self.w, self.x], {}

    def cands(self, E, L):
        yield "calls so far", lambda s: s.ghost['%calls'] == L.k(s)
        for nm, v in L.mod_lists():
            yield f"{nm}: so many", lambda s, v=v: E.lens(s, v.t) == L.k(s)
            yield f"{nm}: the evaluations in order", lambda s, v=v: E.forall(0, L.k(s), lambda j: elem(E, s, VRef(v.t, PList(KReal)), j).t == self.VAL(self.p.t, j))
        for g, nm, v in L.reals():
            yield f"{nm}: the total so far", lambda s, g=g: g(s) == self.G(L.k(s))

    def post(self, E, st0, st, ret):
        if not isinstance(ret, (VReal, VInt)):
            return [("a number", FALSE)]
        if E.mode == 'proof':
            for S in E.psums[-1:]:
                t = fresh('t', IntS)
                s = st.fork()
                s.assume(z3.And(t >= 0, t < self.n, S(t) == self.G(t), self.G(t + 1) == self.G(t) + self.VAL(self.p.t, t)))
                E.prove(s, S(t + 1) == self.G(t + 1), "the sum of the evaluations, by induction", keep=False)
                st.assume(S(self.n) == self.G(self.n))
        return [("n evaluations", st.ghost['%calls'] == self.n), ("their mean", E.asreal(ret).t * z3.ToReal(self.n) == self.G(self.n))]


class AverageWorse(_Wrap):
    """AverageFitnessProblem.worse_than / equivalent"""
    cls = M + '.AverageFitnessProblem'
    target = M + ':AverageFitnessProblem.worse_than'
    schema = {(cls, 'wrapped_problem'): KRef(PObj('Inner')), (cls, 'n'): KInt}
    which = 'worse'

    def setup(self, E, st):
        self.begin(E, st)
        self.p = get(E, st, self.w.t, 'wrapped_problem', KRef(PObj('Inner')))
        E.wf(st, self.p)
        self.a, self.b = fresh('a', RealS), fresh('b', RealS)
        return [self.w, VReal(self.a), VReal(self.b)], {}

    def post(self, E, st0, st, ret):
        return [("as the wrapped problem compares", ret.t == self.CMP[self.which](self.p.t, self.a, self.b) if isinstance(ret, VBool) else FALSE)]


class AverageSame(AverageWorse):
    target = M + ':AverageFitnessProblem.equivalent'
    which = 'same'


class Current(_Wrap):
    """AlternatingProblem.get_current_problem: each problem for modulo generations, in turn"""
    cls = M + '.AlternatingProblem'
    target = M + ':AlternatingProblem.get_current_problem'
    schema = {('dict:ctx', '[leap]'): KRef(PObj(LEAP)), ('dict:ctx', 'has[leap]'): KBool, (LEAP, '[generation]'): KInt, (LEAP, 'has[generation]'): KBool,
              (cls, 'context'): KRef(PObj('dict:ctx')), (cls, 'modulo'): KInt, (cls, 'problems'): KRef(PList(KRef(PObj('Inner')))), (cls, 'current_problem_idx'): KInt}

    def world(self, E, st):
        self.begin(E, st)
        c = get(E, st, self.w.t, 'context', KRef(PObj('dict:ctx')))
        E.wf(st, c)
        leap = get(E, st, c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, leap)
        st.assume(z3.And(get(E, st, c.t, 'has[leap]', KBool).t, get(E, st, leap.t, 'has[generation]', KBool).t))
        self.gen = get(E, st, leap.t, '[generation]', KInt).t
        self.mod = get(E, st, self.w.t, 'modulo', KInt).t
        self.ps = get(E, st, self.w.t, 'problems', KRef(PList(KRef(PObj('Inner')))))
        E.wf(st, self.ps)
        self.m = E.lens(st, self.ps.t)
        # how many whole periods have passed (division with remainder), and whose turn that makes it
        self.d, self.r = fresh('d', IntS), fresh('r', IntS)
        st.assume(z3.And(self.gen >= 0, self.mod >= 1, self.m >= 1, self.d >= 0, self.r >= 0, self.r < self.mod, self.gen == self.d * self.mod + self.r))
        self.i = self.d % self.m
        if E.mode == 'proof':
            # lemma: rounding the quotient down gives the number of whole periods
            A, B, D, r, x = z3.Reals('A!l B!l D!l r!l x!l')
            s = st.fork()
            s.pc = []
            s.assume(z3.And(B >= 1, r >= 0, r < B, A == D * B + r, x * B == A))
            E.prove(s, z3.And(x >= D, x < D + 1), "division with remainder", keep=False)
            x = z3.ToReal(self.gen) / z3.ToReal(self.mod)
            st.assume(z3.And(x * z3.ToReal(self.mod) == z3.ToReal(self.gen), x >= z3.ToReal(self.d), x < z3.ToReal(self.d) + 1, z3.ToInt(x) == self.d))
            A, B, D, r, q = z3.Ints('A!i B!i D!i r!i q!i')
            s = st.fork()
            s.pc = []
            s.assume(z3.And(B >= 1, r >= 0, r < B, q * B <= D * B + r, D * B + r < (q + 1) * B))
            E.prove(s, z3.And(q <= D, q >= D), "whole quotients are unique", keep=False)
            st.assume(self.gen / self.mod == self.d)
        if E.mode == 'bmc':
            E.side.append(z3.And(self.m <= E.N, self.mod <= 3, self.gen <= 7))
        self.st0 = st.fork()
        self.cur = elem(E, self.st0, self.ps, self.i).t

    def setup(self, E, st):
        self.world(E, st)
        return [self.w], {}

    def post(self, E, st0, st, ret):
        return [("the problem whose turn it is", ret.t == self.cur if isinstance(ret, VRef) else FALSE), ("the problems are left alone", unchanged_list(E, st0, st, self.ps))]


class _Alt(Current):
    """evaluate and the comparisons go to the current problem"""
    def __init__(self):
        super().__init__()
        self.specs = {**self.specs, (self.cls, 'get_current_problem'): self.current}

    def current(self, E, st, cx, args, kw, k):
        """contract of get_current_problem (proved by Current)"""
        k(st, VRef(self.cur, PObj('Inner')))


class AltEvaluate(_Alt):
    target = M + ':AlternatingProblem.evaluate'

    def setup(self, E, st):
        self.world(E, st)
        self.x = new_input(E, st, PObj('Phenome'))
        return [self.w, self.x], {}

    def post(self, E, st0, st, ret):
        return self.once(E, st, self.cur, lambda v: v, ret)


class AltWorse(_Alt):
    target = M + ':AlternatingProblem.worse_than'
    which = 'worse'

    def setup(self, E, st):
        self.world(E, st)
        self.a, self.b = fresh('a', RealS), fresh('b', RealS)
        return [self.w, VReal(self.a), VReal(self.b)], {}

    def post(self, E, st0, st, ret):
        return [("as the current problem compares", ret.t == self.CMP[self.which](self.cur, self.a, self.b) if isinstance(ret, VBool) else FALSE)]


class AltSame(AltWorse):
    target = M + ':AlternatingProblem.equivalent'
    which = 'same'


class Translated(_Wrap):
    """TranslatedProblem.evaluate: the wrapped problem at the phenome minus the offset"""
    cls = R + '.TranslatedProblem'
    target = R + ':TranslatedProblem.evaluate'
    schema = {(cls, 'problem'): KRef(PObj('Inner')), (cls, 'offset'): KRef(NDR)}

    def setup(self, E, st):
        self.begin(E, st)
        self.p = get(E, st, self.w.t, 'problem', KRef(PObj('Inner')))
        E.wf(st, self.p)
        self.o = get(E, st, self.w.t, 'offset', KRef(NDR))
        E.wf(st, self.o)
        self.x = in_list(E, st, KReal, nd=True)
        self.n = E.lens(st, self.x.t)
        st.assume(self.x.t != self.o.t)
        if E.mode == 'bmc':
            E.side.append(E.lens(st, self.o.t) <= E.N)
        self.st0 = st.fork()
        return [self.w, self.x], {}

    def at(self, E, j):
        return elem(E, self.st0, self.x, j).t - elem(E, self.st0, self.o, j).t

    def seen(self, E, st, who, args, kw):
        a = args[0] if len(args) == 1 and not kw else None
        if not (isinstance(a, VRef) and isinstance(a.p, PList) and a.p.nd):
            return FALSE
        return z3.And(E.lens(st, a.t) == self.n, E.forall(0, self.n, lambda j: E.asreal(elem(E, st, a, j)).t == self.at(E, j)))

    def post(self, E, st0, st, ret):
        return self.once(E, st, self.p.t, lambda v: v, ret) + [("the phenome is left alone", unchanged_list(E, st0, st, self.x)), ("the offset is left alone", unchanged_list(E, st0, st, self.o))]

    def on_exc(self, E, st0, st, exc):
        return [("refused only if the lengths differ", self.n != E.lens(self.st0, self.o.t) if exc.name == 'AssertionError' else FALSE)]


class Scaled(Translated):
    """ScaledProblem.evaluate: the wrapped problem at the phenome mapped from the new bounds to the old"""
    cls = R + '.ScaledProblem'
    target = R + ':ScaledProblem.evaluate'
    schema = {(cls, 'problem'): KRef(PObj('Inner'))}

    def setup(self, E, st):
        self.begin(E, st)
        self.p = get(E, st, self.w.t, 'problem', KRef(PObj('Inner')))
        E.wf(st, self.p)
        self.b = [fresh(n, RealS) for n in ('olo', 'ohi', 'nlo', 'nhi')]
        st.assume(self.b[3] > self.b[2])
        E.schema[(self.cls, 'old_bounds')] = KConst(VTuple([VReal(self.b[0]), VReal(self.b[1])]))
        E.schema[(self.cls, 'bounds')] = KConst(VTuple([VReal(self.b[2]), VReal(self.b[3])]))
        self.x = in_list(E, st, KReal, nd=True)
        self.n = E.lens(st, self.x.t)
        self.st0 = st.fork()
        return [self.w, self.x], {}

    def at(self, E, j):
        ol, oh, nl, nh = self.b
        return ol + (elem(E, self.st0, self.x, j).t - nl) / (nh - nl) * (oh - ol)

    def post(self, E, st0, st, ret):
        return self.once(E, st, self.p.t, lambda v: v, ret) + [("the phenome is left alone", unchanged_list(E, st0, st, self.x))]

    def on_exc(self, E, st0, st, exc):
        return [("no exception", FALSE)]


CONTRACTS = [Offset(), Constant(), Function(), Multiple(), Average(), AverageWorse(), AverageSame(), Current(), AltEvaluate(), AltWorse(), AltSame(), Translated(), Scaled()]
