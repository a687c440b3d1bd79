"""C07: crossover conserves genes and keeps its bookkeeping."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

UX, NX = 'leap_ec.ops.UniformCrossover', 'leap_ec.ops.NAryCrossover'
INDK = KRef(PObj(IND))
FIT = KMaybe(KReal)


def genes(nd):
    return KRef(PList(KOpq, nd))


def schema(cls, nd=True):
    return {(IND, 'genome'): genes(nd), (IND, 'fitness'): FIT, (IND, 'parents'): KRef(PSet()), (cls, 'p_swap'): KReal, (cls, 'p_xover'): KReal,
            (cls, 'num_points'): KInt, (cls, 'persist_children'): KBool, (cls, 'second_child'): KMaybe(INDK)}


class _Recombine(Contract):
    prop = 'C07'
    nd = True
    equal = True

    def setup(self, E, st):
        self.x = new_input(E, st, PObj(self.cls))
        self.a, self.b = new_input(E, st, PObj(IND)), new_input(E, st, PObj(IND))
        st.assume(self.a.t != self.b.t)
        self.ga, self.gb = get(E, st, self.a.t, 'genome', genes(self.nd)), get(E, st, self.b.t, 'genome', genes(self.nd))
        E.wf(st, self.ga), E.wf(st, self.gb)
        st.assume(self.ga.t != self.gb.t)
        self.n, self.m = E.lens(st, self.ga.t), E.lens(st, self.gb.t)
        st.assume(z3.And(self.n >= 0, self.m >= 0))
        if E.mode == 'bmc':
            E.side.append(z3.And(self.n <= E.N + 1, self.m <= E.N + 1))
        if self.equal:
            st.assume(self.n == self.m)
        self.params(E, st)
        return [self.x, self.a, self.b], {}

    def children(self, E, st0, st, ret):
        if not isinstance(ret, VTuple) or len(ret.items) != 2 or not all(isinstance(x, VRef) for x in ret.items):
            return None, [("returns two individuals", FALSE)]
        c, d = ret.items
        g, h = get(E, st, c.t, 'genome', genes(self.nd)), get(E, st, d.t, 'genome', genes(self.nd))
        return (c, d, g, h), [("the two children are the two individuals passed in", z3.And(c.t == self.a.t, d.t == self.b.t)),
                              ("the children do not share a genome", g.t != h.t)]

    def swapped_or_not(self, E, st0, st, g, h, n):
        A, B = (lambda j: elem(E, st0, self.ga, j).t), (lambda j: elem(E, st0, self.gb, j).t)
        G, H = (lambda j: elem(E, st, g, j).t), (lambda j: elem(E, st, h, j).t)
        return E.forall(0, n, lambda j: z3.Or(z3.And(G(j) == A(j), H(j) == B(j)), z3.And(G(j) == B(j), H(j) == A(j))))


class Uniform(_Recombine):
    """uniform crossover: at every shared locus the two genes are kept or exchanged; the tail of a longer genome stays put"""
    target = 'leap_ec.ops:UniformCrossover.recombine'
    cls = UX
    schema = schema(UX)
    equal = False

    def params(self, E, st):
        p = get(E, st, self.x.t, 'p_swap', KReal).t
        st.assume(z3.And(p >= 0, p <= 1))
        self.p = p

    def post(self, E, st0, st, ret):
        cs, obs = self.children(E, st0, st, ret)
        if cs is None:
            return obs
        c, d, g, h = cs
        mn = z3.If(self.n < self.m, self.n, self.m)
        A, B = (lambda j: elem(E, st0, self.ga, j).t), (lambda j: elem(E, st0, self.gb, j).t)
        G, H = (lambda j: elem(E, st, g, j).t), (lambda j: elem(E, st, h, j).t)
        return obs + [("genome lengths stay", z3.And(E.lens(st, g.t) == self.n, E.lens(st, h.t) == self.m)),
                      ("every shared locus keeps or exchanges its two genes", self.swapped_or_not(E, st0, st, g, h, mn)),
                      ("the tail of the longer genome stays", z3.And(E.forall(mn, self.n, lambda j: G(j) == A(j)), E.forall(mn, self.m, lambda j: H(j) == B(j)))),
                      ("no swap with probability zero", z3.Implies(self.p == 0, E.forall(0, mn, lambda j: z3.And(G(j) == A(j), H(j) == B(j))))),
                      ("every locus swaps with probability one", z3.Implies(self.p == 1, E.forall(0, mn, lambda j: z3.And(G(j) == B(j), H(j) == A(j)))))]


class UniformBadP(Uniform):
    """a swap probability outside [0,1] is refused"""
    def params(self, E, st):
        p = get(E, st, self.x.t, 'p_swap', KReal).t
        st.assume(z3.Or(p < 0, p > 1))

    def post(self, E, st0, st, ret):
        return [("refused", FALSE)]

    def on_exc(self, E, st0, st, exc):
        return [("refused with AssertionError", z3.BoolVal(exc.name in ('AssertionError', 'ValueError')))]


class NAry(_Recombine):
    """n-point crossover: between consecutive crossing points the two parents' genes are exchanged, alternately"""
    target = 'leap_ec.ops:NAryCrossover.recombine'
    cls = NX
    schema = schema(NX)
    k = 2
    budget = 90

    def params(self, E, st):
        E.hset(st, self.x.t, 'num_points', KInt, VInt(self.k))
        for i in range(self.k):
            st.ghost[f'%p{i}'] = z3.IntVal(-1)
        st.ghost['%draws'] = z3.IntVal(0)

        def on_draw(E, s, L, f):
            s.ghost['%draws'] = s.ghost['%draws'] + L
            for i in range(self.k):
                s.ghost[f'%p{i}'] = f(z3.IntVal(i))
        E.on_draw = on_draw

    def post(self, E, st0, st, ret):
        cs, obs = self.children(E, st0, st, ret)
        if cs is None:
            return obs
        c, d, g, h = cs
        A, B = (lambda j: elem(E, st0, self.ga, j).t), (lambda j: elem(E, st0, self.gb, j).t)
        G, H = (lambda j: elem(E, st, g, j).t), (lambda j: elem(E, st, h, j).t)

        def odd(j):
            r = FALSE
            for i in range(self.k):
                r = z3.Xor(r, st.ghost[f'%p{i}'] <= j)
            return r
        return obs + [("accepted only with enough genes", self.n >= self.k),
                      ("genome lengths stay", z3.And(E.lens(st, g.t) == self.n, E.lens(st, h.t) == self.n)),
                      ("every locus keeps or exchanges its two genes", self.swapped_or_not(E, st0, st, g, h, self.n)),
                      ("genes are exchanged alternately between the crossing points drawn", z3.Implies(st.ghost['%draws'] == self.k, E.forall(0, self.n, lambda j: z3.If(
                          odd(j), z3.And(G(j) == B(j), H(j) == A(j)), z3.And(G(j) == A(j), H(j) == B(j))))))]

    def on_exc(self, E, st0, st, exc):
        if exc.name == 'RuntimeError':
            return [("refused only for lack of genes", self.n < self.k)]
        return super().on_exc(E, st0, st, exc)


class NAry1(NAry):
    k = 1


class NAry3(NAry):
    k = 3


class NAryList(NAry):
    nd = False
    schema = schema(NX, False)


class NAryUnequal(NAry):
    """unequal lengths: no gene is lost: total length and every gene of either parent is still there"""
    equal = False
    k = 1

    def post(self, E, st0, st, ret):
        cs, obs = self.children(E, st0, st, ret)
        if cs is None:
            return obs
        c, d, g, h = cs
        A, B = (lambda j: elem(E, st0, self.ga, j).t), (lambda j: elem(E, st0, self.gb, j).t)
        G, H = (lambda j: elem(E, st, g, j).t), (lambda j: elem(E, st, h, j).t)
        p = st.ghost['%p0']
        L, M = E.lens(st, g.t), E.lens(st, h.t)
        q = z3.If(p < self.m, p, self.m)
        return obs + [("no gene is lost or duplicated (total length)", L + M == self.n + self.m),
                      ("the first child is the first parent's head and the second parent's tail", z3.And(
                          E.forall(0, p, lambda j: G(j) == A(j)), E.forall(q, self.m, lambda j: G(j - q + p) == B(j)), L == p + self.m - q)),
                      ("the second child is the second parent's head and the first parent's tail", z3.And(
                          E.forall(0, q, lambda j: H(j) == B(j)), E.forall(p, self.n, lambda j: H(j - p + q) == A(j)), M == q + self.n - p))]

    def on_exc(self, E, st0, st, exc):
        if exc.name == 'RuntimeError':
            return [("refused only for lack of genes", z3.Or(self.n < self.k, self.m < self.k))]
        return super().on_exc(E, st0, st, exc)


class Call(Contract):
    """crossover in a pipeline: pairs in, the same pairs out in order; recombined ones lose their fitness and record both
    parents' ancestors; the rest pass through untouched; the second child of an unfinished pair is kept for later"""
    prop = 'C07'
    target = 'leap_ec.ops:Crossover.__call__'
    schema = {**schema(UX), ('leap_ec.ops.Crossover', 'p_xover'): KReal}
    may_raise = ('RuntimeError',)
    persist, leftover = False, False

    def __init__(self):
        self.specs = {(UX, 'recombine'): self.spec}

    def spec(self, E, st, cx, args, kwargs, k):
        # contract of recombine as far as the pipeline needs it: the two individuals, with new genomes
        a, b = args[-2:]
        i = st.ghost['%seen']
        E.prove(st, z3.And(a.t == self.el(E, self.base(st)), b.t == self.el(E, self.base(st) + 1)), "the next two individuals are recombined")
        st.ghost['%rec'] = TRUE
        for x in (a, b):
            E.hset(st, x.t, 'genome', genes(True), VRef(fresh('g', IntS), PList(KOpq, True)))
        k(st, VTuple([a, b]))

    def off(self):
        return 1 if self.persist and self.leftover else 0

    def base(self, st):
        return st.ghost['%y'] - self.off()

    def el(self, E, i):
        return nth(E, self.it, i).t

    def setup(self, E, st):
        self.x = new_input(E, st, PObj(UX))
        E.hset(st, self.x.t, 'persist_children', KBool, VBool(self.persist))
        sc = new_input(E, st, PObj(IND))
        self.sc = sc
        E.hset(st, self.x.t, 'second_child', KMaybe(INDK), VMaybe(FALSE if self.leftover else TRUE, sc))
        self.p = get(E, st, self.x.t, 'p_xover', KReal).t
        st.assume(z3.And(self.p >= 0, self.p <= 1))
        self.it = in_iter(E, st, INDK)
        st.ghost['%u'] = z3.RealVal(2)
        st.ghost['%rec'] = FALSE
        st.ghost['%seen'] = z3.IntVal(0)
        self.slot = z3.Function('slot', IntS, IntS)
        j = z3.Int('j!s')
        inv = self.slot(self.el(E, j)) == j
        if E.mode == 'bmc':
            for i in range(E.N + 5):
                st.assume(self.slot(self.el(E, z3.IntVal(i))) == i)
        else:
            st.assume(z3.ForAll([j], z3.Implies(j >= 0, inv), patterns=[self.el(E, j)]))
        # a leftover child is not in the stream, and parent sets are not shared
        st.assume(self.slot(sc.t) == -1)
        ps = z3.Function('pset', IntS, IntS)
        P = E.arr(st, ('a', 'parents', KRef(PSet()).key, ''), IntS)
        if E.mode == 'bmc':
            for i in range(E.N + 5):
                r = self.el(E, z3.IntVal(i))
                st.assume(z3.And(ps(z3.Select(P, r)) == r, z3.Select(P, r) >= 0, z3.Select(P, r) < st.alloc))
        else:
            r = z3.Int('r!p')
            st.assume(z3.ForAll([r], z3.And(ps(z3.Select(P, r)) == r, z3.Select(P, r) >= 0, z3.Select(P, r) < st.alloc), patterns=[z3.Select(P, r)]))

        def on_real(E, s, x):
            s.ghost['%u'] = x
            s.ghost['%rec'] = FALSE
        E.on_real = on_real
        self.st0 = st.fork()
        return [self.x, self.it], {}

    def fit(self, E, s, r):
        return FIT.pack(get(E, s, r, 'fitness', FIT))

    def pset(self, E, s, r):
        return set_of(E, s, get(E, s, r, 'parents', KRef(PSet())).t)

    def pref(self, E, s, r):
        return get(E, s, r, 'parents', KRef(PSet())).t

    def untouched_from(self, E, s, lo):
        """individuals of the stream from position lo on have their fitness and parents"""
        ok = lambda r: z3.And(*[x == y for x, y in zip(self.fit(E, s, r), self.fit(E, self.st0, r))], self.pset(E, s, r) == self.pset(E, self.st0, r))
        if E.mode == 'bmc':
            return z3.And(*[z3.Implies(lo <= i, ok(self.el(E, z3.IntVal(i)))) for i in range(E.N + 5)])
        return E.forall_ref(0, self.st0.alloc, lambda r: z3.Implies(self.slot(r) >= lo, ok(r)), pats=[self.slot])

    def cands(self, E, L):
        yield "later individuals untouched", lambda s: self.untouched_from(E, s, pos(E, s, self.it))
        yield "two out, two in", lambda s: self.base(s) == pos(E, s, self.it)
        P = E.arr(self.st0, ('a', 'parents', KRef(PSet()).key, ''), IntS)
        yield "parent sets stay in place", lambda s: E.forall_ref(0, self.st0.alloc, lambda r: z3.Select(E.arr(s, ('a', 'parents', KRef(PSet()).key, ''), IntS), r) == z3.Select(P, r))

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields individuals", FALSE)]
        none, keep = KMaybe(INDK).pack(get(E, st, self.x.t, 'second_child', KMaybe(INDK)))[:2]
        f = i - self.off()
        first = f >= 0
        rec = st.ghost['%u'] <= self.p
        a = self.el(E, f - f % 2)
        b = self.el(E, f - f % 2 + 1)
        r = v.t
        un, S0, S = self.fit(E, self.st0, r), self.pset(E, self.st0, r), self.pset(E, st, r)
        fr = self.fit(E, st, r)
        u = fresh('u', U)
        uni = z3.ForAll([u], z3.Select(S, u) == z3.Or(z3.Select(self.pset(E, self.st0, a), u), z3.Select(self.pset(E, self.st0, b), u)))
        out = [("yields the incoming individuals in order", z3.If(first, r == self.el(E, f), r == self.sc.t)),
               ("a pair is recombined exactly when the draw says so", z3.Implies(first, st.ghost['%rec'] == rec)),
               ("recombined individuals lose their fitness", z3.Implies(z3.And(first, rec), fr[0])),
               ("recombined individuals record both sets of parents", z3.Implies(z3.And(first, rec), uni)),
               ("recombined individuals keep records of their own", z3.Implies(z3.And(first, rec, a != b), self.pref(E, st, a) != self.pref(E, st, b))),
               ("others pass through untouched", z3.Implies(z3.And(first, z3.Not(rec)), z3.And(*[x == y for x, y in zip(fr, un)], S == S0))),
               ("the second child waits for the next request", z3.If(z3.And(first, f % 2 == 0), z3.And(z3.Not(none), keep == b), none))]
        return out


class CallLeftover(Call):
    persist = leftover = True


class CallPersist(Call):
    persist = True


class CallDrop(Call):
    leftover = True


CONTRACTS = [Uniform(), UniformBadP(), NAry1(), NAry(), NAry3(), NAryList(), NAryUnequal(), Call(), CallPersist(), CallLeftover(), CallDrop()]
