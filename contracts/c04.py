"""C04: parent selection."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

INDK = KRef(PObj(IND))
FIT = KReal


class Sel(Contract):
    prop = 'C04'
    specs = order_specs()
    distinct = False
    indices = False
    minlen = 1

    def setup(self, E, st):
        self.pop = in_pop(E, st, minlen=self.minlen, distinct=self.distinct)
        kw = self.extra(E, st)
        if self.indices:
            self.idx = in_list(E, st, KInt, distinct_from=[self.pop])
            kw['indices'] = self.idx
        return [self.pop], kw

    def extra(self, E, st):
        return {}

    def el(self, E, st0):
        return lambda j: elem(E, st0, self.pop, j).t

    def frame(self, E, st0, st):
        return [("the population is left as it was", unchanged_list(E, st0, st, self.pop))]

    def cands(self, E, L):
        return [("population unchanged", lambda s: unchanged_list(E, L.entry, s, self.pop))]

    def index_obs(self, E, st0, st, v):
        i = elem(E, st, self.idx, z3.IntVal(0)).t
        return [("the index of the selected individual is reported", z3.And(E.lens(st, self.idx.t) == 1, i >= 0, i < E.lens(st0, self.pop.t), self.el(E, st0)(i) == v.t))]


class Tournament(Sel):
    """tournament_selection yields the best (or worst) of k individuals drawn from the population"""
    target = 'leap_ec.ops:tournament_selection'
    key = False
    worst = False
    # ghost: the indices drawn since the last individual was yielded
    nodraw = staticmethod(lambda st: (st.ghost.__setitem__('%drawn', z3.K(IntS, FALSE)), st.ghost.__setitem__('%ndraw', z3.IntVal(0))))

    def extra(self, E, st):
        self.k = fresh('k', IntS)
        st.assume(self.k >= 1)
        if E.mode == 'bmc':
            E.side.append(self.k <= E.N + 1)
        self.nodraw(st)

        def on_draw(E, s, L, f):
            old = s.ghost['%drawn']
            new = fresh('drawn', z3.ArraySort(IntS, BoolS))
            w = z3.Function(fresh_name('when'), IntS, IntS)
            i = fresh('i', IntS)
            s.assume(z3.ForAll([i], z3.Implies(z3.Select(new, i), z3.Or(z3.Select(old, i), z3.And(w(i) >= 0, w(i) < L, f(w(i)) == i))), patterns=[z3.Select(new, i)]))
            s.assume(E.forall(0, L, lambda j: z3.Select(new, f(j))))
            s.ghost['%drawn'] = new
            s.ghost['%ndraw'] = z3.simplify(s.ghost['%ndraw'] + L)
        E.on_draw = on_draw
        kw = dict(k=VInt(self.k))
        self.val = SCORE
        if self.key:
            K = z3.Function('userkey', IntS, RealS)
            kw['key'] = VSpec(lambda E, s, cx, args, kw, k: k(s, VReal(K(args[0].t))), 'key')
            self.val = K
        if self.worst:
            kw['select_worst'] = VBool(True)
        return kw

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields an individual", FALSE)]
        el = self.el(E, st0)
        n = E.lens(st0, self.pop.t)
        D, val = st.ghost['%drawn'], self.val
        cmp = (lambda a, b: a <= b) if self.worst else (lambda a, b: a >= b)
        obs = [("yields a member of the population itself", E.exists(0, n, lambda j: el(j) == v.t)),
               ("the winner beats every contestant drawn", E.forall(0, n, lambda j: z3.Implies(z3.Select(D, j), cmp(val(v.t), val(el(j)))))),
               ("k contestants are drawn", st.ghost['%ndraw'] == self.k)]
        if self.indices:
            obs += self.index_obs(E, st0, st, v)
        return obs + self.frame(E, st0, st)

    def between(self, E, st0, st):
        self.nodraw(st)


class TournamentKey(Tournament):
    key = True


class TournamentWorst(Tournament):
    worst = True


class TournamentIdx(Tournament):
    indices = True


class TournamentKeyWorstIdx(Tournament):
    key = worst = indices = True


class Cyclic0(Sel):
    """naive_cyclic_selection: the i-th individual yielded is individual i modulo the population size"""
    target = 'leap_ec.ops:naive_cyclic_selection'

    def on_yield(self, E, st0, st, v, i):
        n = E.lens(st0, self.pop.t)
        obs = [("yields the population in order, again and again", v.t == self.el(E, st0)(i % n) if isinstance(v, VRef) else FALSE)]
        if self.indices:
            obs += self.index_obs(E, st0, st, v)
        return obs + self.frame(E, st0, st)

    def post(self, E, st0, st, ret):
        return [("a non-empty population never runs out", FALSE)]


class Cyclic0Idx(Cyclic0):
    indices = True


class CyclicEmpty(Sel):
    """an empty population yields nothing"""
    target = 'leap_ec.ops:naive_cyclic_selection'

    def setup(self, E, st):
        self.pop = in_pop(E, st)
        st.assume(E.lens(st, self.pop.t) == 0)
        return [self.pop], {}

    def on_yield(self, E, st0, st, v, i):
        return [("an empty population yields nothing", FALSE)]

    def post(self, E, st0, st, ret):
        return [("ends", TRUE)]


class CyclicEmpty2(CyclicEmpty):
    target = 'leap_ec.ops:cyclic_selection'


class Random(Sel):
    """random_selection yields members of the population"""
    target = 'leap_ec.ops:random_selection'

    def on_yield(self, E, st0, st, v, i):
        el, n = self.el(E, st0), E.lens(st0, self.pop.t)
        obs = [("yields a member of the population itself", E.exists(0, n, lambda j: el(j) == v.t) if isinstance(v, VRef) else FALSE)]
        if self.indices:
            obs += self.index_obs(E, st0, st, v)
        return obs + self.frame(E, st0, st)

    def post(self, E, st0, st, ret):
        return [("never runs out", FALSE)]


class RandomIdx(Random):
    indices = True


class Cyclic(Sel):
    """cyclic_selection: first tour in order; every tour visits every individual exactly once"""
    target = 'leap_ec.ops:cyclic_selection'
    distinct = True
    budget = 120

    def setup(self, E, st):
        r = super().setup(E, st)
        n = E.lens(st, self.pop.t)
        # ghost: individuals already selected in the current tour
        self.update(st, lambda x: FALSE)
        st.ghost['%tour'] = z3.IntVal(0)
        return r

    def update(self, st, f):
        new, r = fresh('seen', z3.ArraySort(IntS, BoolS)), fresh('r', IntS)
        st.assume(z3.ForAll([r], z3.Select(new, r) == f(r), patterns=[z3.Select(new, r)]))
        st.ghost['%seen'] = new

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields an individual", FALSE)]
        el, n = self.el(E, st0), E.lens(st0, self.pop.t)
        self._v, self._n = v, n
        return [("yields a member of the population itself", E.exists(0, n, lambda j: el(j) == v.t)),
                ("the first tour is in order", z3.Implies(i < n, v.t == el(i))),
                ("no individual is selected twice in one tour", z3.Not(z3.Select(st.ghost['%seen'], v.t)))] + self.frame(E, st0, st)

    def between(self, E, st0, st):
        t = st.ghost['%tour'] + 1
        full = t == self._n         # the tour is complete: a new one begins
        old, v = st.ghost['%seen'], self._v.t
        self.update(st, lambda r: z3.And(z3.Not(full), z3.Or(z3.Select(old, r), r == v)))
        st.ghost['%tour'] = z3.If(full, z3.IntVal(0), t)

    def post(self, E, st0, st, ret):
        return [("a non-empty population never runs out", FALSE)]

    def cands(self, E, L):
        st0 = L.entry
        out = super().cands(E, L)
        el, n = self.el(E, st0), E.lens(st0, self.pop.t)
        seen, tour = (lambda s: s.ghost['%seen']), (lambda s: s.ghost['%tour'])
        r = fresh('r', IntS)
        empty = lambda s: z3.ForAll([r], z3.Not(z3.Select(seen(s), r)), patterns=[z3.Select(seen(s), r)])
        inpop = lambda x: z3.And(self.pop.inv(x) >= 0, self.pop.inv(x) < n, el(self.pop.inv(x)) == x)
        first = z3.is_int_value(st0.ghost['%y'])
        if not first:
            out.append(("after the first tour", lambda s: s.ghost['%y'] >= n))
        if L.ix is None:
            out.append(("between tours", lambda s: z3.And(tour(s) == 0, empty(s))))
        else:
            out.append(("tour position", lambda s: tour(s) == z3.If(L.k(s) == n, z3.IntVal(0), L.k(s))))
            out.append(("complete tours forget", lambda s: z3.Implies(L.k(s) == n, empty(s))))
            if first:
                out.append(("yields (first tour)", lambda s: s.ghost['%y'] == L.k(s)))
                out.append(("prefix of the population seen", lambda s: z3.ForAll([r], z3.Implies(
                z3.Select(seen(s), r), z3.And(self.pop.inv(r) >= 0, self.pop.inv(r) < L.k(s), el(self.pop.inv(r)) == r)), patterns=[z3.Select(seen(s), r)])))
        for nm, v in L.lists():
            if v.p.k != INDK or v.t.eq(self.pop.t):
                continue
            R = lambda s, j, v=v: elem(E, s, v, j).t
            if L.ix is not None and first:
                out.append((f"{nm}: the population so far", lambda s, v=v, R=R: z3.And(E.lens(s, v.t) == L.k(s), E.forall(0, L.k(s), lambda j: R(s, j) == el(j), pats=[lambda j: R(s, j)]))))
            if L.ix is not None and not first:
                out.append((f"{nm}: prefix seen", lambda s, v=v, R=R: z3.ForAll([r], z3.Implies(
                    z3.Select(seen(s), r), E.exists(0, L.k(s), lambda j: R(s, j) == r)), patterns=[z3.Select(seen(s), r)])))
            if first:
                continue
            out.append((f"{nm}: holds the population", lambda s, v=v, R=R: z3.And(E.lens(s, v.t) == n, E.forall(0, n, lambda j: inpop(R(s, j)), pats=[lambda j: R(s, j)]))))
            out.append((f"{nm}: pairwise different", lambda s, v=v, R=R: E.forall(0, n, lambda j: E.forall(0, j, lambda i: self.pop.inv(R(s, i)) != self.pop.inv(R(s, j))))))
        return out


FITV = z3.Function('fit', IntS, RealS)


def keyspec(E, s, cx, args, kw, k):
    k(s, VReal(FITV(args[0].t)))


class Values(Contract):
    """compute_population_values: (metric + offset)^exponent of each individual, in order"""
    prop = 'C04'
    target = 'leap_ec.ops:compute_population_values'
    popmin = False
    exponent = None

    def setup(self, E, st):
        self.pop = in_pop(E, st, minlen=1, distinct=False)
        kw = dict(key=VSpec(keyspec, 'key'))
        self.off = None
        if self.popmin:
            kw['offset'] = VStr('pop-min')
        else:
            self.off = KReal.fresh('off')
            kw['offset'] = self.off
        if self.exponent:
            kw['exponent'] = VInt(self.exponent)
        return [self.pop], kw

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList):
            return [("returns an array", FALSE)]
        n = E.lens(st0, self.pop.t)
        f = lambda j: FITV(elem(E, st0, self.pop, j).t)
        R = lambda j: E.asreal(elem(E, st, ret, j)).t
        out = [("one value per individual", E.lens(st, ret.t) == n), ("the population is left as it was", unchanged_list(E, st0, st, self.pop))]
        pw = lambda x: x * x if self.exponent == 2 else (x * x * x if self.exponent == 3 else x)
        if self.popmin:
            out += [("no value is negative", E.forall(0, n, lambda j: R(j) >= 0)),
                    ("the worst individual has value zero", E.exists(0, n, lambda j: R(j) == 0)),
                    ("differences are those of the metric", E.forall(0, n, lambda j: E.forall(0, n, lambda i: R(i) - R(j) == f(i) - f(j))))]
        else:
            out.append(("each value is (metric + offset) ^ exponent", E.forall(0, n, lambda j: R(j) == pw(f(j) + self.off.t))))
        return out


class Values2(Values):
    exponent = 2


class Values3(Values):
    exponent = 3


class ValuesMin(Values):
    popmin = True


class Proportional(Sel):
    """proportional_selection only ever yields individuals of positive value; negative values are refused"""
    target = 'leap_ec.ops:proportional_selection'
    VAL = z3.Function('val', IntS, RealS)     # the individual's (metric + offset)^exponent
    name = 'compute_population_values'

    def __init__(self):
        self.specs = {**order_specs()}
        self.globals_over = {('leap_ec.ops', self.name): VSpec(self.values, self.name)}

    def values(self, E, st, cx, args, kw, k):
        n, s0 = E.lens(st, args[0].t), st.fork()
        k(st, E.mk_list(st, n, lambda j: VReal(self.VAL(elem(E, s0, args[0], j).t)), KReal, True))

    def extra(self, E, st):
        el, n = (lambda j: elem(E, st, self.pop, j).t), E.lens(st, self.pop.t)
        self.some = E.exists(0, n, lambda j: self.VAL(el(j)) > 0)
        self.neg = E.exists(0, n, lambda j: self.VAL(el(j)) < 0)
        st.assume(z3.Or(self.some, self.neg))
        return {}

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields an individual", FALSE)]
        el, n = self.el(E, st0), E.lens(st0, self.pop.t)
        return [("yields a member of the population itself", E.exists(0, n, lambda j: el(j) == v.t)),
                ("only individuals of positive value are selected", self.VAL(v.t) > 0),
                ("negative values are refused", z3.Not(self.neg))] + self.frame(E, st0, st)

    def on_exc(self, E, st0, st, exc):
        if exc.name == 'ValueError':
            return [("refuses only populations with a negative value", self.neg)]
        return super().on_exc(E, st0, st, exc)

    def post(self, E, st0, st, ret):
        return [("never runs out", FALSE)]


class Sus(Proportional):
    """sus_selection yields, for evenly spaced points, the individual whose share of the total covers the point"""
    target = 'leap_ec.ops:sus_selection'
    shuffle = True
    cover = False
    bounded = True

    def extra(self, E, st):
        super().extra(E, st)
        self.n = fresh('n', IntS)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        # ghost: the random start of the current tour of points, and how many points of it have been used
        st.ghost['%start'], st.ghost['%m'], st.ghost['%started'] = z3.RealVal(0), z3.IntVal(0), z3.BoolVal(False)

        def on_real(E, s, x):
            s.ghost['%start'], s.ghost['%started'] = x, TRUE
        E.on_real = on_real
        return dict(n=VInt(self.n), shuffle=VBool(self.shuffle))

    def on_exc(self, E, st0, st, exc):
        if exc.name == 'ValueError':
            return [("refuses only a negative value or no points", z3.Or(self.neg, self.n <= 0))]
        return Contract.on_exc(self, E, st0, st, exc)

    def point(self, S, n, st, j):
        return st.ghost['%start'] + z3.ToReal(j) * (S(n) / z3.ToReal(self.n))

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields an individual", FALSE)]
        el, n = self.el(E, st0), E.lens(st0, self.pop.t)
        obs = [("yields a member of the population itself", E.exists(0, n, lambda j: el(j) == v.t)),
               ("negative values are refused", z3.Not(self.neg))]
        if E.psums and E.mode == 'proof' and self.cover:
            S = E.psums[-1]
            p = self.point(S, n, st, st.ghost['%m'])
            obs.append(("the individual selected covers the next of the evenly spaced points", z3.Implies(
                z3.And(st.ghost['%started'], p > 0), E.exists(0, n, lambda j: z3.And(el(j) == v.t, S(j) <= p, p <= S(j + 1))))))
        return obs + self.frame(E, st0, st)

    def are_points(self, E, st, w, S, n):
        g = z3.And(E.lens(st, w.t) == self.n, E.forall(0, self.n, lambda j: E.asreal(elem(E, st, w, j)).t == self.point(S, n, st, j), pats=[lambda j: E.asreal(elem(E, st, w, j)).t]))
        return E.valid(st, g, timeout=2000, quick=True)[0] == 'proved'

    def between(self, E, st0, st):
        m = st.ghost['%m'] + 1
        st.ghost['%m'] = z3.If(m == self.n, z3.IntVal(0), m)

    def cands(self, E, L):
        out = super().cands(E, L)
        n = E.lens(L.entry, self.pop.t)
        if not E.psums:
            return out
        S = E.psums[-1]
        mod = [(f, nm) for f, nm, v in L.locals() if ('v', f, nm) in L.mods]
        val = lambda s, f, nm: s.frames[f][nm]
        reals = [x for x in mod if isinstance(val(L.entry, *x), (VReal, VInt))]
        ints = [x for x in mod if isinstance(val(L.entry, *x), VInt)]
        reals = [x for x in mod if isinstance(val(L.entry, *x), VReal)]
        m = lambda s: s.ghost['%m']
        pts = [(f, nm) for f, nm, w in L.locals() if isinstance(w, VRef) and isinstance(w.p, PList) and w.p.k is not None and w.p.k.key in ('real', 'float')]
        pts = [(f, nm) for f, nm in pts if self.are_points(E, L.entry, L.entry.frames[f][nm], S, n)]
        out.append(("spacing", lambda s: z3.And(S(n) >= 0, S(n) / z3.ToReal(self.n) >= 0)))
        out.append(("points used", lambda s: z3.And(m(s) >= 0, m(s) < self.n)))
        out.append(("start", lambda s: z3.And(s.ghost['%started'], s.ghost['%start'] >= 0, s.ghost['%start'] <= S(n) / z3.ToReal(self.n))))
        for f, nm in pts:
            lst = lambda s, f=f, nm=nm: s.frames[f][nm]
            pt = lambda s, j, lst=lst: E.asreal(elem(E, s, lst(s), j)).t
            out.append((f"{nm}: evenly spaced points", lambda s, lst=lst, pt=pt: z3.And(E.lens(s, lst(s).t) == self.n, E.forall(
                0, self.n, lambda j: pt(s, j) == self.point(S, n, s, j), pats=[lambda j: pt(s, j)]))))
            out.append((f"{nm}: points never decrease", lambda s, lst=lst, pt=pt: E.forall(1, self.n, lambda j: pt(s, j - 1) <= pt(s, j), pats=[lambda j: pt(s, j)])))
            out.append((f"{nm}: no point beyond the total", lambda s, lst=lst, pt=pt: E.forall(0, self.n, lambda j: pt(s, j) <= S(n), pats=[lambda j: pt(s, j)])))
        for b in ints:
            t = lambda s, b=b: val(s, *b).t
            out.append((f"{b[1]} within the population", lambda s, t=t: z3.And(t(s) >= 0, t(s) <= n)))
            out.append((f"{b[1]} counts points", lambda s, t=t: z3.Or(t(s) == m(s), z3.And(t(s) == self.n, m(s) == 0))))
            for a in reals:
                x = lambda s, a=a: val(s, *a).t
                out.append((f"{a[1]} is the sum of the first {b[1]} values", lambda s, x=x, t=t: x(s) == S(t(s))))
            for b2 in ints:
                if b2 != b:
                    out.append((f"{b[1]} starts with {b2[1]}", lambda s, t=t, b2=b2: z3.Implies(t(s) == 0, val(s, *b2).t == 0)))
            for f, nm in pts:
                pt = lambda s, j, f=f, nm=nm: E.asreal(elem(E, s, s.frames[f][nm], j)).t
                if self.cover:
                    out.append((f"{b[1]}: the sum before does not cover the last point", lambda s, t=t, pt=pt: z3.Implies(
                        z3.And(t(s) >= 1, m(s) >= 1), S(t(s) - 1) <= pt(s, m(s) - 1))))
                    out.append((f"{b[1]}: the sum before does not cover the point", lambda s, t=t, pt=pt: z3.Implies(t(s) >= 1, S(t(s) - 1) <= pt(s, m(s)))))
        return out


class SusFixed(Sus):
    shuffle = False
    bounded = False
    budget = 90


class SusFixedCover(Sus):
    cover = True
    shuffle = False
    bounded = False
    budget = 300


CONTRACTS = [Tournament(), TournamentKey(), TournamentWorst(), TournamentIdx(), TournamentKeyWorstIdx(), Cyclic0(), Cyclic0Idx(),
             CyclicEmpty(), CyclicEmpty2(), Random(), RandomIdx(), Cyclic(), Values(), Values2(), Values3(), ValuesMin(), Proportional(), Sus(), SusFixed()]
THOROUGH = [SusFixedCover()]
