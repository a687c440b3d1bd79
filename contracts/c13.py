"""C13: migration moves copies along the topology, exactly on schedule, and never makes an island worse."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

LEAP = 'dict:leap'
INDK = KRef(PObj(IND))
FIT = KMaybe(KReal)
INNER = PList(INDK)
QP = PList(KRef(INNER))
SCH = {('dict:ctx', '[leap]'): KRef(PObj(LEAP)), (LEAP, '[current_subpopulation]'): KInt, (LEAP, '[generation]'): KInt,
       (LEAP, 'has[generation]'): KBool, (LEAP, 'has[current_subpopulation]'): KBool, (IND, 'fitness'): FIT}


class Migrate(Contract):
    """one call of the operator, from any state of the travellers under way (data-structure invariant: one queue per island, none shared)"""
    prop = 'C13'
    target = 'leap_ec.ops:migrate'
    schema = SCH
    budget = 150
    bmc_budget = 90
    metric = False

    def __init__(self):
        self.specs = {**order_specs(), ('Graph', 'number_of_nodes'): self.nodes, ('Graph', 'neighbors'): self.neigh, (IND, 'clone'): self.clone}

    def nodes(self, E, st, cx, args, kw, k):
        k(st, VInt(self.n))

    def neigh(self, E, st, cx, args, kw, k):
        E.prove(st, args[1].t == self.cur, "neighbours of the current island")
        k(st, E.mk_list(st, self.deg, lambda j: VInt(self.NEIGH(j)), KInt))

    def clone(self, E, st, cx, args, kw, k):
        # contract of Individual.clone (C02): a new object, without fitness
        r = VRef(E.new_ref(st), PObj(IND))
        st.ghost['%cloned'] = st.ghost['%cloned'] + 1
        st.ghost['%clone'], st.ghost['%cloneof'] = r.t, args[0].t
        E.hset(st, r.t, 'fitness', FIT, VMaybe(TRUE, VReal(0)))
        k(st, r)

    def stamp(self, E, st, cx, args, kw, k):
        E.prove(st, args[1].t == self.cur, "stamped for the current island")
        k(st, VRef(self.STAMP(args[0].t), PObj(IND)))

    def imm(self, E, i):
        return self.STAMP(elem(E, self.s1, self.mine, i).t)

    def as_expected(self, E, st, lst):
        A = st.ghost['%A']
        return z3.And(lst.t == self.pop.t, E.lens(st, lst.t) == self.size, E.forall(0, self.size, lambda j: elem(E, st, lst, j).t == z3.Select(A, j)))

    def choose(self, E, st, cx, args, kw, k):
        """replacement selector: names one slot of the population and its holder"""
        v = dict(zip(('population',), args))
        v.update(kw)
        g = st.ghost
        i = g['%i']
        E.prove(st, self.as_expected(E, st, v['population']), "each immigrant competes in the population its predecessors left")
        E.prove(st, i < self.waiting, "only waiting immigrants compete")
        c = fresh('slot', IntS)
        st.assume(z3.And(c >= 0, c < self.size))
        A = g['%A']
        if 'indices' in v and not isinstance(v['indices'], VNone):
            E.append(st, v['indices'], VInt(c))
        it = E.new_ref(st)
        E.hset(st, it, '%pos', KInt, VInt(0))
        r = VRef(it, PIter(INDK))
        st.assume(z3.And(z3.Function('itlen', IntS, IntS)(it) < 0, E.stream(INDK, it, z3.IntVal(0)).t == z3.Select(A, c)))
        new = self.imm(E, i)
        win = SCORE(new) >= SCORE(z3.Select(A, c))
        g['%con'], g['%win'] = z3.Select(A, c), win
        g['%A'] = z3.If(win, z3.Store(A, c, new), A)
        g['%i'] = z3.simplify(i + 1)
        k(st, r)

    def sponsor(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(self.as_expected(E, st, args[0]), g['%i'] == self.waiting), "emigrants are chosen after all immigrants have been dealt with")
        it = E.new_ref(st)
        E.hset(st, it, '%pos', KInt, VInt(0))
        c = fresh('sp', IntS)
        st.assume(z3.And(c >= 0, c < self.size, z3.Function('itlen', IntS, IntS)(it) < 0, E.stream(INDK, it, z3.IntVal(0)).t == z3.Select(g['%A'], c)))
        g['%sponsor'] = z3.Select(g['%A'], c)
        g['%sent'] = g['%sent'] + 1
        k(st, VRef(it, PIter(INDK)))

    def told(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(args[0].t == self.gen, args[1].t == self.imm(E, g['%i'] - 1), args[2].t == g['%con'], E.truth(st, args[3]) == g['%win'], g['%told'] == g['%i'] - 1),
                "the metric is told of every migration once, with its outcome")
        g['%told'] = g['%i']
        k(st, NONE)

    def setup(self, E, st):
        self.__dict__.pop('s1', None)
        self.n, self.deg, self.size, self.gap = fresh('islands', IntS), fresh('deg', IntS), fresh('size', IntS), fresh('gap', IntS)
        self.NEIGH, self.STAMP = z3.Function('neighbour', IntS, IntS), z3.Function('stamped', IntS, IntS)
        st.assume(z3.And(self.n >= 1, self.deg >= 1, self.gap >= 1))
        if E.mode == 'bmc':
            E.side.extend([self.n <= E.N, self.deg <= E.N])
        st.assume(E.forall(0, self.deg, lambda j: z3.And(self.NEIGH(j) >= 0, self.NEIGH(j) < self.n), pats=[self.NEIGH]))
        self.c = new_input(E, st, PObj('dict:ctx'))
        self.leap = get(E, st, self.c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, self.leap)
        self.graph = new_input(E, st, PObj('Graph'))
        self.given = dict(topology=self.graph, emigrant_selector=VSpec(self.sponsor, 'emigrant_selector'), replacement_selector=VSpec(self.choose, 'replacement_selector'),
                          migration_gap=VInt(self.gap), customs_stamp=VSpec(self.stamp, 'customs_stamp'), metric=VSpec(self.told, 'metric') if self.metric else NONE, context=self.c)
        return [], self.given

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, lambda s, f: self.later(E, s, cx, f, k))

    def later(self, E, st, cx, f, k):
        if not isinstance(f, VFunc):
            raise Unsupported("migrate does not return a function")
        qs = [(fid, nm, v) for fid in f.fids for nm, v in st.frames.get(fid, {}).items() if isinstance(v, VRef) and isinstance(v.p, PList) and isinstance(v.p.k, KRef) and isinstance(v.p.k.p, PList)]
        if len(qs) != 1:
            raise Unsupported("no single list of queues in the closure")
        fid, nm, q = qs[0]
        el = lambda j: elem(E, st, q, j).t
        E.prove(st, z3.And(E.lens(st, q.t) == self.n, E.forall(0, self.n, lambda j: E.lens(st, el(j)) == 0)), "at first no one is under way, on any island")
        E.prove(st, E.forall2(self.n, lambda i, j: el(i) != el(j), lambda i, j: (el(i), el(j))), "at first no two islands share a queue")
        # any later moment: queues of any content, one per island, none shared
        s = st
        self.q = in_list(E, s, KRef(INNER))
        s0 = s.fork()
        self.own = z3.Function('island', IntS, IntS)
        qel = lambda j: elem(E, s0, self.q, j).t
        s.assume(z3.And(E.lens(s, self.q.t) == self.n, self.own(self.q.t) == -1))
        s.assume(E.forall(0, self.n, lambda j: z3.And(qel(j) >= 0, qel(j) < s0.alloc, self.own(qel(j)) == j, E.lens(s0, qel(j)) >= 0), pats=[qel]))
        if E.mode == 'bmc':
            for j in range(E.N):
                E.side.append(E.lens(s0, qel(z3.IntVal(j))) <= E.N)
        s.frames[fid][nm] = self.q
        self.pop = in_pop(E, s, 1, distinct=False)
        self.size = E.lens(s, self.pop.t)
        s.assume(self.own(self.pop.t) == -1)
        s.assume(self.pop.t != self.q.t)
        self.cur, self.gen = fresh('cur', IntS), fresh('gen', IntS)
        s.assume(z3.And(self.cur >= 0, self.cur < self.n, self.gen >= 0))
        E.hset(s, self.leap.t, '[current_subpopulation]', KInt, VInt(self.cur))
        E.hset(s, self.leap.t, '[generation]', KInt, VInt(self.gen))
        for h in ('generation', 'current_subpopulation'):
            E.hset(s, self.leap.t, f'has[{h}]', KBool, VBool(True))
        self.mine = VRef(qel(self.cur), INNER)
        self.waiting = E.lens(s, self.mine.t)
        g = s.ghost
        g['%A'] = E.elarr(s, INDK, '', IntS, self.pop.t)
        self.A0 = g['%A']
        for x in ('%i', '%sent', '%told', '%cloned'):
            g[x] = z3.IntVal(0)
        for x in ('%con', '%sponsor', '%clone', '%cloneof'):
            g[x] = z3.IntVal(-1)
        g['%win'] = FALSE
        self.s1 = s.fork()
        E.call(f, [self.pop], {}, s, cx, k)

    def cands(self, E, L):
        if not hasattr(self, 's1'):
            for nm, v in L.mod_lists():
                if isinstance(v.p.k, KRef) and isinstance(v.p.k.p, PList):
                    el = lambda s, j, v=v: elem(E, s, v, j).t
                    n = lambda s, v=v: E.lens(s, v.t)
                    yield f"{nm}: new lists", lambda s, el=el, n=n, v=v: E.forall(0, n(s), lambda j: z3.And(el(s, j) > v.t, el(s, j) < s.alloc), pats=[lambda j: el(s, j)])
                    yield f"{nm}: empty", lambda s, el=el, n=n, v=v: E.forall(0, n(s), lambda j: E.lens(s, el(s, j)) == 0, pats=[lambda j: el(s, j)])
                    yield f"{nm}: in the order made", lambda s, el=el, n=n: E.forall2(n(s), lambda i, j: z3.Implies(i < j, el(s, i) < el(s, j)), lambda i, j: (el(s, i), el(s, j)))
            return
        yield "immigrants dealt with", lambda s: s.ghost['%i'] == L.k(s)
        yield "population as expected", lambda s: E.forall(0, self.size, lambda j: elem(E, s, self.pop, j).t == z3.Select(s.ghost['%A'], j))
        yield "population size", lambda s: E.lens(s, self.pop.t) == self.size
        yield "no slot worse", lambda s: E.forall(0, self.size, lambda j: SCORE(z3.Select(s.ghost['%A'], j)) >= SCORE(z3.Select(self.A0, j)))
        yield "told so far", lambda s: s.ghost['%told'] == s.ghost['%i']
        yield "old holders or immigrants", lambda s: E.forall(0, self.size, lambda j: z3.Or(z3.Select(s.ghost['%A'], j) == z3.Select(self.A0, j), self.from_here(E, s, z3.Select(s.ghost['%A'], j))))

    def from_here(self, E, s, x):
        return E.exists(0, s.ghost['%i'], lambda m: x == self.imm(E, m))

    def post(self, E, st0, st, ret):
        g = st.ghost
        el0, el1 = (lambda j: elem(E, self.s1, self.q, j).t), (lambda j: elem(E, st, self.q, j).t)
        due = self.gen % self.gap == 0
        ok = isinstance(ret, VRef) and isinstance(ret.p, PList)
        at0, at1 = (lambda j, m: elem(E, self.s1, VRef(el0(j), INNER), m).t), (lambda j, m: elem(E, st, VRef(el1(j), INNER), m).t)
        n0 = lambda j: z3.If(j == self.cur, 0, E.lens(self.s1, el0(j)))
        n1 = lambda j: E.lens(st, el1(j))
        emi = g['%clone']
        f0 = FIT.pack(get(E, self.s1, g['%sponsor'], 'fitness', FIT))
        f1 = FIT.pack(get(E, st, emi, 'fitness', FIT))
        d = fresh('anyisland', IntS)
        m = fresh('anyplace', IntS)
        inr = z3.And(d >= 0, d < self.n)
        kept = z3.Implies(z3.And(inr, m >= 0, m < n0(d)), at1(d, m) == at0(d, m))
        got = lambda j: n1(j) == n0(j) + 1
        out = [("returns the same population", ret.t == self.pop.t if ok else FALSE),
               ("every waiting immigrant has competed once, at the place it was matched with", z3.And(g['%i'] == self.waiting, self.as_expected(E, st, self.pop))),
               ("no member of the island is replaced by a worse one", E.forall(0, self.size, lambda j: SCORE(elem(E, st, self.pop, j).t) >= SCORE(z3.Select(self.A0, j)))),
               ("every member was here before or was under way to this island", E.forall(0, self.size, lambda j: z3.Or(
                   elem(E, st, self.pop, j).t == z3.Select(self.A0, j), self.from_here(E, st, elem(E, st, self.pop, j).t)))),
               ("emigration exactly when the generation is a multiple of the gap", g['%sent'] == z3.If(due, 1, 0)),
               ("one queue per island", E.lens(st, self.q.t) == self.n),
               ("no two islands share a queue", E.forall2(self.n, lambda i, j: el1(i) != el1(j), lambda i, j: (el1(i), el1(j)))),
               ("those under way to other islands stay under way, in order; this island's queue is emptied", kept),
               ("without emigration no one joins", z3.Implies(z3.And(z3.Not(due), inr), n1(d) == n0(d))),
               ("with emigration at most one joins any queue", z3.Implies(z3.And(due, inr), z3.Or(n1(d) == n0(d), z3.And(got(d), at1(d, n0(d)) == emi)))),
               ("the emigrant goes to a neighbour, and only there", z3.Implies(due, E.exists(0, self.deg, lambda x: z3.And(got(self.NEIGH(x)), z3.Implies(z3.And(inr, d != self.NEIGH(x)), n1(d) == n0(d)))))),
               ("the emigrant is a new copy of a member of the island", z3.Implies(due, z3.And(g['%cloned'] == 1, g['%cloneof'] == g['%sponsor'], emi >= self.s1.alloc))),
               ("the emigrant keeps its sponsor's fitness", z3.Implies(due, z3.And(*[a == b for a, b in zip(f0, f1)])))]
        if self.metric:
            out.append(("the metric is told of every immigrant", g['%told'] == self.waiting))
        return out


class MigrateMetric(Migrate):
    metric = True


CONTRACTS = [Migrate(), MigrateMetric()]
