"""C10: initialisation creates exactly the population asked for, inside the bounds."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *
from contracts.c02 import DIST, PROBK, DECK, OPH

GK = KRef(PObj('Genome'))
ROB = 'leap_ec.individual.RobustIndividual'
REP = 'leap_ec.representation.Representation'


class Maker(Contract):
    """an initializer is built once and called: each call gives a new genome"""
    prop = 'C10'

    def drive(self, E, st, cx, src, args, kwargs, k):
        f = self.callee(E, st, src)
        # two genomes from the same initializer: the second is judged too, and must be another object
        def made(s, c):
            def first(s2, g1):
                self.first = g1
                for nm, fml in self.genome_ok(E, s2, g1):
                    E.prove(s2, fml, f"first genome: {nm}")
                E.call(c, [], {}, s2, cx, k)
            E.call(c, [], {}, s, cx, first)
        E.call(f, args, kwargs, st, cx, made)

    def post(self, E, st0, st, ret):
        out = self.genome_ok(E, st, ret)
        if isinstance(ret, VRef) and isinstance(self.first, VRef):
            out = out + [("every call gives a new genome", z3.And(isfresh(st0, ret.t), isfresh(st0, self.first.t), ret.t != self.first.t))]
        return out

    def arr(self, ret, kinds):
        return isinstance(ret, VRef) and isinstance(ret.p, PList) and ret.p.nd and ret.p.k in kinds


class Binary(Maker):
    """binary genomes: the length asked for, bits only"""
    target = 'leap_ec.binary_rep.initializers:create_binary_sequence'

    def setup(self, E, st):
        self.n = fresh('n', IntS)
        st.assume(self.n >= 0)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        return [VInt(self.n)], {}

    def genome_ok(self, E, st, g):
        if not self.arr(g, (KInt, KBool)):
            return [("an array of bits", FALSE)]
        out = [("the length asked for", E.lens(st, g.t) == self.n)]
        if g.p.k == KInt:
            out.append(("bits only", E.forall(0, self.n, lambda j: z3.Or(elem(E, st, g, j).t == 0, elem(E, st, g, j).t == 1))))
        return out


class IntVec(Maker):
    """integer genomes: one gene per pair of bounds, inside them (ends included)"""
    target = 'leap_ec.int_rep.initializers:create_int_vector'
    kk = KInt

    def setup(self, E, st):
        self.b = in_list(E, st, KTuple([self.kk, self.kk]))
        self.n = E.lens(st, self.b.t)
        s0 = self.s0 = st.fork()
        st.assume(E.forall(0, self.n, lambda j: self.bound(E, j)[0] <= self.bound(E, j)[1]))
        return [self.b], {}

    def bound(self, E, j):
        return [v.t for v in elem(E, self.s0, self.b, j).items]

    def genome_ok(self, E, st, g):
        if not self.arr(g, (self.kk,)):
            return [("an array of numbers", FALSE)]
        return [("one gene per pair of bounds", E.lens(st, g.t) == self.n),
                ("every gene inside its own bounds", E.forall(0, self.n, lambda j: z3.And(self.bound(E, j)[0] <= elem(E, st, g, j).t, elem(E, st, g, j).t <= self.bound(E, j)[1]))),
                ("the bounds are left alone", unchanged_list(E, self.s0, st, self.b))]


class RealVec(IntVec):
    """real genomes: one gene per pair of bounds, inside them"""
    target = 'leap_ec.real_rep.initializers:create_real_vector'
    kk = KReal


class Segmented(Maker):
    """segmented genomes: the number of segments asked for (or drawn), each from one call of the segment initializer"""
    target = 'leap_ec.segmented_rep.initializers:create_segmented_sequence'
    drawn = False

    def setup(self, E, st):
        self.SEGM = z3.Function('made', IntS, IntS)
        st.ghost['%made'] = z3.IntVal(0)
        st.ghost['%len'] = fresh('n', IntS)
        st.assume(st.ghost['%len'] >= 0)
        self.seen = []

        def init(E, s, cx, args, kw, k):
            i = s.ghost['%made']
            s.ghost['%made'] = z3.simplify(i + 1)
            k(s, VRef(self.SEGM(i), PObj('Genome')))

        def length(E, s, cx, args, kw, k):
            n = fresh('drawn', IntS)
            s.assume(n >= 0)
            if E.mode == 'bmc':
                E.side.append(n <= E.N)
            s.ghost['%len'] = n
            k(s, VInt(n))
        if E.mode == 'bmc':
            E.side.append(st.ghost['%len'] <= E.N)
        self.base = z3.IntVal(0)
        return [VSpec(length, 'length') if self.drawn else VInt(st.ghost['%len']), VSpec(init, 'init')], {}

    def genome_ok(self, E, st, g):
        if not (isinstance(g, VRef) and isinstance(g.p, PList) and not g.p.nd):
            return [("a list of segments", FALSE)]
        n = st.ghost['%len']
        b = st.ghost['%made'] - n
        prev = self.base
        self.base = st.ghost['%made']
        if g.p.k is None:
            return [("as many segments as asked for", n == 0)]
        return [("as many segments as asked for", E.lens(st, g.t) == n), ("one call of the segment initializer per segment", b == prev),
                ("the segments in the order made", E.forall(0, n, lambda j: elem(E, st, g, j).t == self.SEGM(b + j)))]


class SegmentedDrawn(Segmented):
    drawn = True


def schema(cls):
    return {(cls, 'genome'): GK, (cls, 'fitness'): KMaybe(KReal), (cls, 'uuid'): KOpq, (cls, 'parents'): KRef(PSet()),
            (cls, 'problem'): PROBK, (cls, 'decoder'): DECK, (cls, '_phenome'): OPH}


class Init(Contract):
    """a new individual has the given genome, problem and decoder, no fitness, no parents and a new id"""
    prop = 'C10'
    target = 'leap_ec.individual:Individual.__init__'
    cls = IND
    schema = schema(IND)

    def inputs(self, E, st):
        self.g, self.d, self.p = new_input(E, st, PObj('Genome')), new_input(E, st, PObj('Decoder')), new_input(E, st, PObj('Problem'))
        uuids(st)

    def setup(self, E, st):
        self.inputs(E, st)
        self.x = new_input(E, st, PObj(self.cls))
        return [self.x, self.g], dict(decoder=self.d, problem=self.p)

    def ind_ok(self, E, st0, st, r, us0):
        G = lambda at, k: get(E, st, r, at, k)
        ps = G('parents', KRef(PSet())).t
        u = z3.Const('anyu', U)
        return [("the given problem and decoder", z3.And(G('problem', PROBK).t == self.p.t, G('decoder', DECK).t == self.d.t)),
                ("no fitness yet", KMaybe(KReal).pack(G('fitness', KMaybe(KReal)))[0]),
                ("nothing decoded yet", OPH.pack(G('_phenome', OPH))[0]),
                ("no parents, in a set of its own", z3.And(isfresh(st0, ps), z3.ForAll([u], z3.Not(z3.Select(set_of(E, st, ps), u))))),
                ("a new unique id", z3.Not(z3.Select(us0, G('uuid', KOpq).t)))]

    def post(self, E, st0, st, ret):
        return [("the given genome", get(E, st, self.x.t, 'genome', GK).t == self.g.t)] + self.ind_ok(E, st0, st, self.x.t, uuids(st0))


class InitRobust(Init):
    target = 'leap_ec.individual:RobustIndividual.__init__'
    cls = ROB
    schema = schema(ROB)


class CreatePopulation(Init):
    """create_population: exactly n individuals, each from one call of the initializer, unevaluated, with unique ids"""
    target = 'leap_ec.individual:Individual.create_population'

    def __init__(self):
        self.specs = {IND: self.ctor}

    def ctor(self, E, st, cx, args, kwargs, k):
        # contract of Individual.__init__ (proved above)
        vals = dict(zip(('genome', 'decoder', 'problem'), args))
        vals.update(kwargs)
        r = VRef(E.new_ref(st), PObj(IND))
        for at, kk in (('genome', GK), ('decoder', DECK), ('problem', PROBK)):
            E.hset(st, r.t, at, kk, vals[at])
        E.hset(st, r.t, 'fitness', KMaybe(KReal), VMaybe(TRUE, VReal(0)))
        k(st, r)

    def callee(self, E, st, src):
        m = src.module('leap_ec.individual')
        ci = m.lookup('Individual')[1]
        c, node = ci.find('create_population')
        if node is None:
            raise Unsupported("create_population not found")
        f = E.method_func(c, node)
        return VBound(f, VClass(ci)) if 'classmethod' in c.decos['create_population'] else f

    def setup(self, E, st):
        self.inputs(E, st)
        self.MADE = z3.Function('made', IntS, IntS)
        st.ghost['%made'] = z3.IntVal(0)
        self.n = fresh('n', IntS)
        st.assume(self.n >= 0)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)

        def init(E, s, cx, args, kw, k):
            i = s.ghost['%made']
            s.ghost['%made'] = z3.simplify(i + 1)
            k(s, VRef(self.MADE(i), PObj('Genome')))
        self.st0 = st.fork()
        return [VInt(self.n)], dict(initialize=VSpec(init, 'initialize'), decoder=self.d, problem=self.p)

    def cands(self, E, L):
        at = lambda s, r, a, k: get(E, s, r, a, k)
        yield from made_cands(E, L, IND, self.st0, [
            ('genome', lambda s, r, j: at(s, r, 'genome', GK).t == self.MADE(j)),
            ('problem', lambda s, r, j: at(s, r, 'problem', PROBK).t == self.p.t),
            ('decoder', lambda s, r, j: at(s, r, 'decoder', DECK).t == self.d.t),
            ('no fitness', lambda s, r, j: KMaybe(KReal).pack(at(s, r, 'fitness', KMaybe(KReal)))[0])])

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        if ret.p.k is None:
            return [("exactly n individuals", self.n == 0)]
        el = lambda j: elem(E, st, ret, j).t
        at = lambda j, a, k: get(E, st, el(j), a, k)
        return [("exactly n individuals", E.lens(st, ret.t) == self.n),
                ("the initializer is called once per individual", st.ghost['%made'] == self.n),
                ("every individual is a new object", E.forall(0, self.n, lambda j: isfresh(st0, el(j)))),
                ("no individual twice", E.forall2(self.n, lambda i, j: z3.Implies(i != j, el(i) != el(j)), lambda i, j: (el(i), el(j)))),
                ("each has the genome made for it", E.forall(0, self.n, lambda j: at(j, 'genome', GK).t == self.MADE(j))),
                ("the given problem and decoder", E.forall(0, self.n, lambda j: z3.And(at(j, 'problem', PROBK).t == self.p.t, at(j, 'decoder', DECK).t == self.d.t))),
                ("no fitness yet", E.forall(0, self.n, lambda j: KMaybe(KReal).pack(at(j, 'fitness', KMaybe(KReal)))[0]))]


class RepPopulation(Contract):
    """a representation hands exactly its own initializer, decoder and individual class on"""
    prop = 'C10'
    target = 'leap_ec.representation:Representation.create_population'
    schema = {(REP, 'initialize'): KRef(PObj('Initializer')), (REP, 'decoder'): DECK, (REP, 'individual_cls'): KRef(PObj('IndCls'))}
    one = False

    def __init__(self):
        self.specs = {('IndCls', 'create_population'): self.make}

    def make(self, E, st, cx, args, kwargs, k):
        vals = dict(zip(('n', 'initialize', 'decoder', 'problem'), [a for a in args if not (isinstance(a, VRef) and isinstance(a.p, PObj) and a.p.cls == 'IndCls')]))
        vals.update(kwargs)
        E.prove(st, z3.And(vals['n'].t == self.n, vals['initialize'].t == get(E, st, self.x.t, 'initialize', KRef(PObj('Initializer'))).t,
                           vals['decoder'].t == get(E, st, self.x.t, 'decoder', DECK).t, vals['problem'].t == self.p.t), "asks for the right number, initializer, decoder and problem")
        self.res = E.mk_list(st, self.n, lambda j: VRef(self.MADE(j), PObj(IND)), KRef(PObj(IND)))
        k(st, self.res)

    def setup(self, E, st):
        self.MADE = z3.Function('made', IntS, IntS)
        self.x = new_input(E, st, PObj(REP))
        self.p = new_input(E, st, PObj('Problem'))
        self.n = z3.IntVal(1) if self.one else fresh('n', IntS)
        st.assume(self.n >= 0)
        if self.one:
            return [self.x, self.p], {}
        return [self.x, VInt(self.n), self.p], {}

    def post(self, E, st0, st, ret):
        if self.one:
            return [("the one individual made", ret.t == self.MADE(0) if isinstance(ret, VRef) else FALSE)]
        return [("the population made", ret.t == self.res.t if isinstance(ret, VRef) else FALSE)]


class RepIndividual(RepPopulation):
    target = 'leap_ec.representation:Representation.create_individual'
    one = True


class RepInit(Contract):
    prop = 'C10'
    target = 'leap_ec.representation:Representation.__init__'
    schema = RepPopulation.schema

    def setup(self, E, st):
        self.x = new_input(E, st, PObj(REP))
        self.v = {a: new_input(E, st, PObj(c)) for a, c in (('initialize', 'Initializer'), ('decoder', 'Decoder'), ('individual_cls', 'IndCls'))}
        return [self.x], dict(self.v)

    def post(self, E, st0, st, ret):
        return [(f"keeps the {a}", get(E, st, self.x.t, a, self.schema[(REP, a)]).t == v.t) for a, v in self.v.items()]


CONTRACTS = [Binary(), IntVec(), RealVec(), Segmented(), SegmentedDrawn(), Init(), InitRobust(), CreatePopulation(), RepPopulation(), RepIndividual(), RepInit()]
