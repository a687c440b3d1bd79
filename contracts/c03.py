"""C03: evaluation assigns to every individual the fitness its problem gives to its decoded genome."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

ROB = 'leap_ec.individual.RobustIndividual'
WHO = 'leap_ec.individual.WholeEvaluatedIndividual'
G, PH = KRef(PObj('Genome')), KRef(PObj('Phenome'))
PROBK, DECK = KRef(PObj('Prob')), KRef(PObj('Dec'))
DEC = z3.Function('dec', IntS, IntS, IntS)          # decoder, genome -> phenome
EV = z3.Function('ev', IntS, IntS, RealS)           # problem, phenome -> fitness
EVW = z3.Function('evw', IntS, IntS, IntS, RealS)   # problem, phenome, whole individual -> fitness
FIT = KMaybe(KFloat)


def schema(*cls):
    d = {}
    for c in cls:
        d.update({(c, 'genome'): G, (c, 'fitness'): FIT, (c, 'problem'): PROBK, (c, 'decoder'): DECK, (c, '_phenome'): KMaybe(PH),
                  (c, 'is_viable'): KBool, (c, 'exception'): KExc})
    return d


def s_decode(E, st, cx, args, kwargs, k):
    k(st, VRef(DEC(args[0].t, args[1].t), PObj('Phenome')))


def s_evaluate(E, st, cx, args, kwargs, k):
    if 'individual' in kwargs:
        return k(st, VReal(EVW(args[0].t, args[1].t, kwargs['individual'].t)))
    if kwargs or len(args) != 2:
        raise Unsupported("evaluate called with other arguments")
    k(st, VReal(EV(args[0].t, args[1].t)))


SPECS = {('Dec', 'decode'): s_decode, ('Prob', 'evaluate'): s_evaluate}


def expected(E, st0, r):
    g, d, p = get(E, st0, r, 'genome', G).t, get(E, st0, r, 'decoder', DECK).t, get(E, st0, r, 'problem', PROBK).t
    return EV(p, DEC(d, g))


def fit_is(E, st, r, val):
    none, t, nan = FIT.pack(get(E, st, r, 'fitness', FIT))
    return z3.And(z3.Not(none), z3.Not(nan), t == val)


FRAME = (('genome', G), ('problem', PROBK), ('decoder', DECK))


class Evaluate(Contract):
    """Individual.evaluate: fitness := problem(decoder(genome)), also returned"""
    prop = 'C03'
    target = 'leap_ec.individual:Individual.evaluate'
    schema = schema(IND)
    specs = SPECS
    cls = IND

    def setup(self, E, st):
        self.a = new_input(E, st, PObj(self.cls))
        return [self.a], {}

    def want(self, E, st0):
        return expected(E, st0, self.a.t)

    def post(self, E, st0, st, ret):
        w = self.want(E, st0)
        out = [("fitness is the problem's value of the decoded current genome", fit_is(E, st, self.a.t, w)),
               ("the fitness is returned", z3.And(E.asreal(ret).t == w, z3.Not(E.asreal(ret).nan)) if isinstance(ret, (VReal, VInt)) else FALSE)]
        for at, k in FRAME:
            out.append((f"{at} unchanged", attr_unchanged(E, st0, st, at, k)))
        return out


class EvaluateWhole(Evaluate):
    """WholeEvaluatedIndividual.evaluate passes the decoded genome and the individual itself to the problem"""
    target = 'leap_ec.individual:WholeEvaluatedIndividual.evaluate'
    schema = schema(WHO)
    cls = WHO

    def want(self, E, st0):
        r = self.a.t
        return EVW(get(E, st0, r, 'problem', PROBK).t, DEC(get(E, st0, r, 'decoder', DECK).t, get(E, st0, r, 'genome', G).t), r)


BAD = z3.Function('fails', IntS, IntS, BoolS)       # the problem raises on this phenome
BADD = z3.Function('decfails', IntS, IntS, BoolS)   # the decoder raises on this genome


class EvaluateRobust(Contract):
    """RobustIndividual.evaluate never raises: on any exception fitness is NaN, the exception is kept, viable is False"""
    prop = 'C03'
    target = 'leap_ec.individual:RobustIndividual.evaluate'
    schema = schema(ROB)

    def __init__(self):
        def ev(E, st, cx, args, kwargs, k):
            E.branch(st, BAD(args[0].t, args[1].t), lambda s: cx.exc(s, VExc('UserError', self.why)), lambda s: s_evaluate(E, s, cx, args, kwargs, k))

        def de(E, st, cx, args, kwargs, k):
            E.branch(st, BADD(args[0].t, args[1].t), lambda s: cx.exc(s, VExc('UserError', self.why)), lambda s: s_decode(E, s, cx, args, kwargs, k))
        self.specs = {('Dec', 'decode'): de, ('Prob', 'evaluate'): ev}

    def setup(self, E, st):
        self.a = new_input(E, st, PObj(ROB))
        self.why = fresh('why', IntS)
        return [self.a], {}

    def post(self, E, st0, st, ret):
        r = self.a.t
        g, d, p = get(E, st0, r, 'genome', G).t, get(E, st0, r, 'decoder', DECK).t, get(E, st0, r, 'problem', PROBK).t
        bad = z3.Or(BADD(d, g), BAD(p, DEC(d, g)))
        none, t, nan = FIT.pack(get(E, st, r, 'fitness', FIT))
        via = get(E, st, r, 'is_viable', KBool).t
        return [("a successful evaluation gives the problem's value", z3.Implies(z3.Not(bad), z3.And(z3.Not(none), z3.Not(nan), t == expected(E, st0, r)))),
                ("success marks the individual viable", z3.Implies(z3.Not(bad), via)),
                ("a failed evaluation gives NaN", z3.Implies(bad, z3.And(z3.Not(none), nan))),
                ("the exception is kept", z3.Implies(bad, KExc.pack(get(E, st, r, 'exception', KExc))[0] == self.why)),
                ("failure marks the individual non-viable", z3.Implies(bad, z3.Not(via)))]


class Phenome(Contract):
    """phenome decodes the genome on first use"""
    prop = 'C03'
    target = 'leap_ec.individual:Individual.phenome'
    schema = schema(IND)
    specs = SPECS

    def setup(self, E, st):
        self.a = new_input(E, st, PObj(IND))
        return [self.a], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.getattr(self.a, 'phenome', st, cx, k)

    def post(self, E, st0, st, ret):
        r = self.a.t
        g, d = get(E, st0, r, 'genome', G).t, get(E, st0, r, 'decoder', DECK).t
        none, t = KMaybe(PH).pack(get(E, st0, r, '_phenome', KMaybe(PH)))
        rn, rt = KMaybe(PH).pack(ret)
        return [("the decoded genome, or the phenome already set", z3.And(z3.Not(rn), rt == z3.If(none, DEC(d, g), t)))]


def spec_eval(E, st, cx, args, kwargs, k):
    """contract of Individual.evaluate for its callers"""
    r = args[0].t
    E.hset(st, r, 'fitness', FIT, VReal(expected(E, st, r)))
    k(st, VReal(expected(E, st, r)))


class EvaluatePop(Contract):
    """evaluate_population evaluates every individual and returns the same list"""
    prop = 'C03'
    target = 'leap_ec.individual:Individual.evaluate_population'
    schema = schema(IND)
    specs = {(IND, 'evaluate'): spec_eval}

    def setup(self, E, st):
        self.pop = in_pop(E, st)
        E.decode_fixed = True
        return [self.pop], {}

    def callee(self, E, st, src):
        f = super().callee(E, st, src)
        return f

    def drive(self, E, st, cx, src, args, kwargs, k):
        f = self.callee(E, st, src)
        ci = src.module('leap_ec.individual').lookup('Individual')[1]
        E.call(f, [VClass(ci)] + args, kwargs, st, cx, k)

    def post(self, E, st0, st, ret):
        n = E.lens(st0, self.pop.t)
        el = lambda j: elem(E, st0, self.pop, j).t
        same = ret.t == self.pop.t if isinstance(ret, VRef) else FALSE
        out = [("returns the population it was given", z3.And(same, unchanged_list(E, st0, st, self.pop))),
               ("every individual has the fitness of its own decoded genome", E.forall(0, n, lambda j: fit_is(E, st, el(j), expected(E, st0, el(j)))))]
        for at, k in FRAME:
            out.append((f"{at} unchanged", attr_unchanged(E, st0, st, at, k)))
        return out


class EvaluateOp(Contract):
    """ops.evaluate yields every incoming individual, evaluated, in order"""
    prop = 'C03'
    target = 'leap_ec.ops:evaluate'
    schema = schema(IND)
    specs = {(IND, 'evaluate'): spec_eval}
    may_raise = ('RuntimeError',)

    def setup(self, E, st):
        self.it = in_iter(E, st, KRef(PObj(IND)))
        return [self.it], {}

    def on_yield(self, E, st0, st, v, i):
        r = nth(E, self.it, i).t
        return [("yields the next incoming individual itself", v.t == r), ("it has been evaluated", fit_is(E, st, r, expected(E, st, r)))]


class ConstEvaluate(EvaluatePop):
    """const_evaluate gives every individual the constant and returns the same list"""
    target = 'leap_ec.ops:const_evaluate'

    def setup(self, E, st):
        self.pop = in_pop(E, st)
        self.v = KReal.fresh('c')
        return [self.pop, self.v], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, k)

    def post(self, E, st0, st, ret):
        n = E.lens(st0, self.pop.t)
        el = lambda j: elem(E, st0, self.pop, j).t
        same = ret.t == self.pop.t if isinstance(ret, VRef) else FALSE
        return [("returns the population it was given", z3.And(same, unchanged_list(E, st0, st, self.pop))),
                ("every individual has the constant fitness", E.forall(0, n, lambda j: fit_is(E, st, el(j), self.v.t)))]


class Grouped(Contract):
    """grouped_evaluate: whatever the chunk size, each individual gets the problem's value of its own decoded genome"""
    prop = 'C03'
    target = 'leap_ec.ops:grouped_evaluate'
    schema = schema(IND)
    chunk = True

    def __init__(self):
        self.bmc_specs = {('Dec', 'decode'): s_decode, ('Prob', 'evaluate'): s_evaluate, ('Prob', 'evaluate_multiple'): self.multi}
        # Individual.decode by contract (proved inline in Evaluate): the decoded current genome
        self.specs = {(IND, 'decode'): lambda E, st, cx, args, kwargs, k: k(st, VRef(DEC(
            get(E, st, args[0].t, 'decoder', DECK).t, get(E, st, args[0].t, 'genome', G).t), PObj('Phenome'))), **self.bmc_specs}

    def multi(self, E, st, cx, args, kwargs, k):
        p, lst = args[0], args[1]
        n = E.llen(st, lst)
        s0 = st.fork()
        k(st, E.mk_list(st, n, lambda j: VReal(EV(p.t, elem(E, s0, lst, j).t)), KReal))

    def setup(self, E, st):
        self.pop = in_pop(E, st, minlen=1)
        n = E.lens(st, self.pop.t)
        el = lambda j: elem(E, st, self.pop, j).t
        pr = lambda j: get(E, st, el(j), 'problem', PROBK).t
        st.assume(E.forall(0, n, lambda j: pr(j) == pr(z3.IntVal(0)), pats=[el]))
        kw = {}
        if self.chunk:
            self.c = fresh('chunk', IntS)
            st.assume(self.c >= 1)
            if E.mode == 'bmc':
                E.side.append(self.c <= E.N + 1)
            kw['max_individuals_per_chunk'] = VInt(self.c)
        return [self.pop], kw

    def post(self, E, st0, st, ret):
        n = E.lens(st0, self.pop.t)
        el = lambda j: elem(E, st0, self.pop, j).t
        same = ret.t == self.pop.t if isinstance(ret, VRef) else FALSE
        return [("returns the population it was given", z3.And(same, unchanged_list(E, st0, st, self.pop))),
                ("every individual has the fitness of its own decoded genome", E.forall(0, n, lambda j: fit_is(E, st, el(j), expected(E, st0, el(j)))))]

    def cands(self, E, L):
        out = []
        n = E.lens(L.entry, self.pop.t)
        st0 = L.entry
        el = lambda j: elem(E, st0, self.pop, j).t
        for nm, v in L.mod_lists():
            if v.p.k is None or v.p.k.key not in ('real', 'float'):
                continue
            c = self.c if self.chunk else n
            ln = lambda s, v=v: E.lens(s, v.t)
            out.append(("fitnesses so far", lambda s, v=v, ln=ln: E.forall(0, ln(s), lambda j: E.asreal(elem(E, s, v, j)).t == expected(E, st0, el(j)))))
            for gk in [g for g in L.entry.ghost if isinstance(g, tuple) and g[0] == 'rng']:
                out.append(("number of fitnesses", lambda s, v=v, ln=ln, gk=gk: ln(s) == z3.If(s.ghost[gk] < n, s.ghost[gk], n)))
        return out


class GroupedAll(Grouped):
    """grouped_evaluate without a chunk size"""
    chunk = False


CONTRACTS = [Evaluate(), EvaluateWhole(), EvaluateRobust(), Phenome(), EvaluatePop(), EvaluateOp(), ConstEvaluate(), Grouped(), GroupedAll()]
TRUSTED = ["decoders and problems are functions of their inputs in the proofs (side-effect free)"]
