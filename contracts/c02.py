"""C02: cloning an individual."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

DIST = 'leap_ec.distrib.individual.DistributedIndividual'
GEN = KRef(PList(KOpq, True))
PROBK, DECK = KRef(PObj('Problem')), KRef(PObj('Decoder'))
OPH = KMaybe(KRef(PObj('Phenome')))


def schema(cls):
    return {(cls, 'genome'): GEN, (cls, 'fitness'): KMaybe(KReal), (cls, 'uuid'): KOpq, (cls, 'parents'): KRef(PSet()),
            (cls, 'problem'): PROBK, (cls, 'decoder'): DECK, (cls, '_phenome'): OPH}


class Clone(Contract):
    """clone(): own identity, own genome with the same genes, no fitness, parent recorded, original untouched"""
    prop = 'C02'
    target = 'leap_ec.individual:Individual.clone'
    cls = IND
    schema = schema(IND)

    def setup(self, E, st):
        self.a = new_input(E, st, PObj(self.cls))
        g = get(E, st, self.a.t, 'genome', GEN)
        E.wf(st, g)
        n = E.lens(st, g.t)
        st.assume(n >= 0)
        if E.mode == 'bmc':
            E.side.append(n <= E.N)
        u = get(E, st, self.a.t, 'uuid', KOpq)
        us = uuids(st)
        st.assume(z3.Select(us, u.t))
        return [self.a], {}

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef):
            return [("returns an individual", FALSE)]
        a, c = self.a.t, ret.t
        G = lambda s, r, at, k: get(E, s, r, at, k)
        g0, g1 = G(st0, a, 'genome', GEN), G(st, c, 'genome', GEN)
        us0 = uuids(st0)
        out = [("the clone is a new object", isfresh(st0, c)),
               ("the clone has its own genome", z3.And(isfresh(st0, g1.t), g1.t != G(st, a, 'genome', GEN).t)),
               ("the genome has the same genes", z3.And(E.lens(st, g1.t) == E.lens(st0, g0.t), E.forall(0, E.lens(st0, g0.t), lambda j: elem(E, st, g1, j).t == elem(E, st0, g0, j).t))),
               ("the clone has no fitness", KMaybe(KReal).pack(G(st, c, 'fitness', KMaybe(KReal)))[0]),
               ("the clone has a new unique id", z3.Not(z3.Select(us0, G(st, c, 'uuid', KOpq).t))),
               ("same problem", G(st, c, 'problem', PROBK).t == G(st0, a, 'problem', PROBK).t),
               ("same decoder", G(st, c, 'decoder', DECK).t == G(st0, a, 'decoder', DECK).t)]
        ps = G(st, c, 'parents', KRef(PSet())).t
        S = set_of(E, st, ps)
        u = z3.Const('anyu', U)
        par = z3.And(z3.Select(S, G(st0, a, 'uuid', KOpq).t), z3.ForAll([u], z3.Implies(z3.Select(S, u), u == G(st0, a, 'uuid', KOpq).t)))
        out.append(("the clone's parents are exactly the original", par))
        out.append(("the clone's parent set is its own", isfresh(st0, ps)))
        for at, k in (('genome', GEN), ('fitness', KMaybe(KReal)), ('uuid', KOpq), ('parents', KRef(PSet())), ('problem', PROBK)):
            x, y = k.pack(G(st0, a, at, k)), k.pack(G(st, a, at, k))
            out.append((f"the original's {at} is untouched", z3.And(*[p == q for p, q in zip(x, y)])))
        out.append(("the original's genes are untouched", unchanged_list(E, st0, st, g0)))
        return out


class CloneOp(Contract):
    """ops.clone yields, one for one, a clone of each individual that arrives"""
    prop = 'C02'
    target = 'leap_ec.ops:clone'
    may_raise = ('RuntimeError',)        # the incoming iterator is exhausted
    schema = schema(IND)

    def __init__(self):
        self.specs = {(IND, 'clone'): self.spec}

    def spec(self, E, st, cx, args, kwargs, k):
        # contract of Individual.clone, as far as this operator needs it
        r = VRef(E.new_ref(st), PObj(IND))
        st.assume(self.C(r.t) == args[0].t)
        k(st, r)

    def setup(self, E, st):
        self.C = z3.Function('cloneof', IntS, IntS)
        self.it = in_iter(E, st, KRef(PObj(IND)))
        return [self.it], {}

    def on_yield(self, E, st0, st, v, i):
        src = E.stream(KRef(PObj(IND)), self.it.t, i)
        return [("yields a new individual", isfresh(st0, v.t)), ("yields a clone of the next incoming individual", self.C(v.t) == src.t)]


class New(Contract):
    """a new individual has a fresh id, no parents, no fitness"""
    prop = 'C02'
    target = 'leap_ec.individual:Individual.__init__'
    schema = schema(IND)

    def setup(self, E, st):
        self.g = new_input(E, st, PList(KOpq, True))
        self.d, self.p = new_input(E, st, PObj('Decoder')), new_input(E, st, PObj('Problem'))
        self.o = VRef(E.new_ref(st), PObj(IND))
        uuids(st)
        return [self.o, self.g], dict(decoder=self.d, problem=self.p)

    def post(self, E, st0, st, ret):
        o = self.o.t
        us0 = uuids(st0)
        S = set_of(E, st, get(E, st, o, 'parents', KRef(PSet())).t)
        u = z3.Const('anyu', U)
        return [("keeps the given genome", get(E, st, o, 'genome', GEN).t == self.g.t),
                ("keeps the given problem", get(E, st, o, 'problem', PROBK).t == self.p.t),
                ("keeps the given decoder", get(E, st, o, 'decoder', DECK).t == self.d.t),
                ("no fitness yet", KMaybe(KReal).pack(get(E, st, o, 'fitness', KMaybe(KReal)))[0]),
                ("a new unique id", z3.Not(z3.Select(us0, get(E, st, o, 'uuid', KOpq).t))),
                ("no parents", z3.ForAll([u], z3.Not(z3.Select(S, u))))]


class CloneDist(Clone):
    """clone() of a distributed individual: all of the above and a birth id never used before"""
    target = 'leap_ec.distrib.individual:DistributedIndividual.clone'
    cls = DIST
    schema = {**schema(DIST), (DIST, 'birth_id'): KInt}

    def setup(self, E, st):
        r = super().setup(E, st)
        # the class-wide counter: delivers 0, 1, 2, ...; every id handed out so far is below its position
        self.ctr = in_iter(E, st, KInt, endless=True)
        self.p0 = fresh('p', IntS)
        st.assume(self.p0 >= 0)
        E.hset(st, self.ctr.t, '%pos', KInt, VInt(self.p0))
        f = E.stream_fn(KInt)[0]
        j = fresh('q', IntS)
        E.axioms.append(z3.ForAll([j], f(self.ctr.t, j) == j, patterns=[f(self.ctr.t, j)]))
        E.schema[('class:DistributedIndividual', 'birth_id')] = KConst(self.ctr)
        st.assume(get(E, st, self.a.t, 'birth_id', KInt).t < self.p0)
        return r

    def post(self, E, st0, st, ret):
        out = super().post(E, st0, st, ret)
        out.append(("the birth id is above every id handed out before, and below the counter afterwards",
                    z3.And(get(E, st, ret.t, 'birth_id', KInt).t >= self.p0, get(E, st, ret.t, 'birth_id', KInt).t < pos(E, st, self.ctr))))
        out.append(("a birth id of its own", get(E, st, ret.t, 'birth_id', KInt).t != get(E, st0, self.a.t, 'birth_id', KInt).t))
        return out


CONTRACTS = [Clone(), New(), CloneOp(), CloneDist()]
TRUSTED = ["uuid.uuid4 never repeats an id"]
