"""C19: probes pass what they see through untouched, and report the best so far, on schedule."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

INDK = KRef(PObj(IND))
LEAP = 'dict:leap'
P = 'leap_ec.probe'
BEST = KMaybe(INDK)
FIT = KMaybe(KReal)
ROWS = KRef(PList(KRef(PObj('Row'))))


def schema(cls, best):
    return {('dict:ctx', '[leap]'): KRef(PObj(LEAP)), ('dict:ctx', 'has[leap]'): KBool, (LEAP, '[generation]'): KInt, (LEAP, 'has[generation]'): KBool,
            (cls, 'context'): KRef(PObj('dict:ctx')), (cls, best): BEST, (cls, 'writer'): KMaybe(KRef(PObj('Writer'))), (IND, 'fitness'): FIT,
            (cls, 'modulo'): KInt, (cls, 'numpy_as_list'): KBool, (cls, 'stream'): KRef(PObj('Stream')), (cls, 'best_only'): KBool, (cls, 'do_dataframe'): KBool, (cls, 'data'): ROWS}


BOUNDED = ["leap_ec.probe:FitnessStatsCSVProbe (text of the lines), AttributesCSVProbe.get_row_dict, print_probe, print_individual, the diversity metrics and the plots: formatting and numpy "
           "reductions are outside the verified subset; stand-in: random histories of up to 8 generations with populations of up to 20, every combination of the options, against the definitions"]


class _Probe(Contract):
    prop = 'C19'
    cls = None
    best = 'bsf'

    def ctx(self, E, st):
        self.p = new_input(E, st, PObj(self.cls))
        self.c = get(E, st, self.p.t, 'context', KRef(PObj('dict:ctx')))
        E.wf(st, self.c)
        self.leap = get(E, st, self.c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, self.leap)
        st.assume(z3.And(get(E, st, self.c.t, 'has[leap]', KBool).t, get(E, st, self.leap.t, 'has[generation]', KBool).t))
        if (self.cls, 'writer') in self.schema:
            W = KMaybe(KRef(PObj('Writer')))
            st.assume(z3.Not(W.pack(get(E, st, self.p.t, 'writer', W))[0]))

    def bsf(self, E, st):
        """(nobody yet, who)"""
        n, t = BEST.pack(get(E, st, self.p.t, self.best, BEST))[:2]
        return n, t

    def row(self, E, st, cx, args, kw, k):
        d = args[1]
        ok = isinstance(d, VDictC) and set(d.d) == {'step', 'bsf'}
        n, b = self.bsf(E, st)
        f = get(E, st, b, 'fitness', FIT)
        fn, ft = FIT.pack(f)[:2]
        E.prove(st, z3.And(d.d['step'].t == get(E, st, self.leap.t, '[generation]', KInt).t, z3.Not(n)) if ok and isinstance(d.d['step'], VInt) else FALSE, "a row gives the generation")
        v = d.d['bsf'] if ok else NONE
        if isinstance(v, VMaybe):
            v = v.val
        E.prove(st, v.t == ft if isinstance(v, VReal) else FALSE, "a row gives the best fitness so far")
        st.ghost['%rows'] = z3.simplify(st.ghost['%rows'] + 1)
        k(st, NONE)

    def fits(self, E, st, el, n):
        st.assume(E.forall(0, n, lambda j: z3.Not(FIT.pack(get(E, st, el(j), 'fitness', FIT))[0]), pats=[el]))

    def frame(self, E, st0, st):
        return [("no fitness changes", attr_unchanged(E, st0, st, 'fitness', FIT)), ("the generation is left alone", attr_unchanged(E, st0, st, '[generation]', KInt))]


class BsfPop(_Probe):
    """BestSoFarProbe: the best so far is the best of everything seen"""
    target = P + ':BestSoFarProbe.__call__'
    cls = P + '.BestSoFarProbe'
    schema = schema(P + '.BestSoFarProbe', 'bsf')

    def __init__(self):
        self.specs = {**order_specs(), ('Writer', 'writerow'): self.row}

    def setup(self, E, st):
        self.pop = in_pop(E, st, 1, distinct=False)
        self.ctx(E, st)
        s0 = st.fork()
        self.fits(E, st, lambda j: elem(E, s0, self.pop, j).t, E.lens(st, self.pop.t))
        st.ghost['%rows'] = z3.IntVal(0)
        return [self.p, self.pop], {}

    def post(self, E, st0, st, ret):
        n0, b0 = self.bsf(E, st0)
        n, b = self.bsf(E, st)
        X = lambda j: elem(E, st0, self.pop, j).t
        N = E.lens(st0, self.pop.t)
        return [("passes the population on", ret.t == self.pop.t if isinstance(ret, VRef) else FALSE), ("as it was", unchanged_list(E, st0, st, self.pop)),
                ("someone is the best so far", z3.Not(n)),
                ("at least as good as the best before", z3.Or(n0, SCORE(b) >= SCORE(b0))),
                ("at least as good as anyone in the population", E.forall(0, N, lambda j: SCORE(b) >= SCORE(X(j)))),
                ("the best before, or one of the population", z3.Or(z3.And(z3.Not(n0), b == b0), E.exists(0, N, lambda j: X(j) == b))),
                ("one row is written", st.ghost['%rows'] == 1)] + self.frame(E, st0, st)


class BsfIter(_Probe):
    """BestSoFarIterProbe: the same, one individual at a time"""
    target = P + ':BestSoFarIterProbe.__call__'
    cls = P + '.BestSoFarIterProbe'
    schema = schema(P + '.BestSoFarIterProbe', 'bsf')
    may_raise = ('RuntimeError',)

    def __init__(self):
        self.specs = {**order_specs(), ('Writer', 'writerow'): self.row}

    def setup(self, E, st):
        self.it = in_iter(E, st, INDK)
        self.ctx(E, st)
        j = fresh('q', IntS)
        if E.mode == 'bmc':
            for i in range(E.N + 2):
                st.assume(z3.Not(FIT.pack(get(E, st, nth(E, self.it, z3.IntVal(i)).t, 'fitness', FIT))[0]))
        else:
            x = nth(E, self.it, j).t
            st.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.Not(FIT.pack(get(E, st, x, 'fitness', FIT))[0])), patterns=[x]))
        st.ghost['%rows'] = z3.IntVal(0)
        self.n0, self.b0 = self.bsf(E, st)
        return [self.p, self.it], {}

    def cands(self, E, L):
        X = lambda j: nth(E, self.it, j).t
        k = lambda s: pos(E, s, self.it)
        B = lambda s: self.bsf(E, s)
        yield "one row each", lambda s: s.ghost['%rows'] == k(s)
        yield "taken so far", lambda s: k(s) >= 0
        yield "someone once something was seen", lambda s: z3.Or(k(s) == 0, z3.Not(B(s)[0]))
        yield "best of those seen", lambda s: E.forall(0, k(s), lambda j: SCORE(B(s)[1]) >= SCORE(X(j)), pats=[X])
        yield "no worse than before", lambda s: z3.Or(self.n0, z3.And(z3.Not(B(s)[0]), SCORE(B(s)[1]) >= SCORE(self.b0)))
        yield "one of those seen", lambda s: z3.Or(z3.And(B(s)[0] == self.n0, B(s)[1] == self.b0), E.exists(0, k(s), lambda j: X(j) == B(s)[1]))

    def on_yield(self, E, st0, st, v, i):
        X = lambda j: nth(E, self.it, j).t
        n, b = self.bsf(E, st)
        return [("passes the next individual on", v.t == X(i) if isinstance(v, VRef) else FALSE),
                ("no reading ahead", pos(E, st, self.it) == i + 1),
                ("someone is the best so far", z3.Not(n)),
                ("at least as good as the best before", z3.Or(self.n0, SCORE(b) >= SCORE(self.b0))),
                ("at least as good as anyone seen", E.forall(0, i + 1, lambda j: SCORE(b) >= SCORE(X(j)))),
                ("the best before, or one of those seen", z3.Or(z3.And(z3.Not(self.n0), b == self.b0), E.exists(0, i + 1, lambda j: X(j) == b))),
                ("one row per individual", st.ghost['%rows'] == i + 1)] + self.frame(E, st0, st)


class BestOfGen(Contract):
    """best_of_gen: a best individual of the population"""
    prop = 'C19'
    target = P + ':best_of_gen'
    specs = order_specs()

    def setup(self, E, st):
        self.pop = in_pop(E, st, 1, distinct=False)
        return [self.pop], {}

    def post(self, E, st0, st, ret):
        X = lambda j: elem(E, st0, self.pop, j).t
        N = E.lens(st0, self.pop.t)
        if not isinstance(ret, VRef):
            return [("an individual", FALSE)]
        return [("of the population", E.exists(0, N, lambda j: X(j) == ret.t)), ("none better", E.forall(0, N, lambda j: SCORE(ret.t) >= SCORE(X(j)))),
                ("the population is left alone", unchanged_list(E, st0, st, self.pop))]


class Stats(_Probe):
    """FitnessStatsCSVProbe: the best so far is kept in every generation; lines are written in the measured ones only"""
    target = P + ':FitnessStatsCSVProbe.__call__'
    cls = P + '.FitnessStatsCSVProbe'
    best = 'bsf_ind'
    schema = {**schema(P + '.FitnessStatsCSVProbe', 'bsf_ind'), (P + '.FitnessStatsCSVProbe', 'job'): KMaybe(KInt)}

    def __init__(self):
        self.specs = {**order_specs(), ('Stream', 'write'): self.write, P + '._maybe_list': lambda E, st, cx, args, kw, k: k(st, NONE),
                      P + '.best_of_gen': self.best_of}
        for f in ('mean', 'std', 'min', 'max', 'sum', 'var'):
            self.specs['numpy.' + f] = lambda E, st, cx, args, kw, k: k(st, VReal(fresh('stat', RealS)))

    def best_of(self, E, st, cx, args, kw, k):
        """contract of best_of_gen (proved by BestOfGen)"""
        v = args[0]
        n = E.lens(st, v.t)
        m = fresh('best', IntS)
        s0 = st.fork()
        X = lambda j: elem(E, s0, VRef(v.t, PList(INDK)), j).t
        E.prove(st, n > 0, "someone to choose from")
        st.assume(z3.And(m >= 0, m < n))
        st.assume(E.forall(0, n, lambda j: SCORE(X(m)) >= SCORE(X(j)), pats=[X]))
        k(st, VRef(X(m), PObj(IND)))

    def write(self, E, st, cx, args, kw, k):
        g = get(E, st, self.leap.t, '[generation]', KInt).t
        E.prove(st, g % get(E, st, self.p.t, 'modulo', KInt).t == 0, "written only in measured generations")
        st.ghost['%rows'] = z3.simplify(st.ghost['%rows'] + 1)
        k(st, NONE)

    def setup(self, E, st):
        self.pop = in_pop(E, st, 1, distinct=False)
        self.ctx(E, st)
        s0 = st.fork()
        self.fits(E, st, lambda j: elem(E, s0, self.pop, j).t, E.lens(st, self.pop.t))
        st.assume(get(E, st, self.p.t, 'modulo', KInt).t >= 1)
        E.schema[(self.cls, 'notes')] = KConst(VDictC({}))
        E.schema[(self.cls, 'extra_metrics')] = KConst(VDictC({}))
        st.ghost['%rows'] = z3.IntVal(0)
        if E.mode == 'bmc':
            g, m = get(E, st, self.leap.t, '[generation]', KInt).t, get(E, st, self.p.t, 'modulo', KInt).t
            E.side.append(z3.And(g >= 0, g <= 8, m <= 4))
        return [self.p, self.pop], {}

    def post(self, E, st0, st, ret):
        n0, b0 = self.bsf(E, st0)
        n, b = self.bsf(E, st)
        X = lambda j: elem(E, st0, self.pop, j).t
        N = E.lens(st0, self.pop.t)
        g, m = get(E, st0, self.leap.t, '[generation]', KInt).t, get(E, st0, self.p.t, 'modulo', KInt).t
        return [("passes the population on", ret.t == self.pop.t if isinstance(ret, VRef) else FALSE), ("as it was", unchanged_list(E, st0, st, self.pop)),
                ("someone is the best so far", z3.Not(n)),
                ("at least as good as the best before", z3.Or(n0, SCORE(b) >= SCORE(b0))),
                ("at least as good as anyone in the population", E.forall(0, N, lambda j: SCORE(b) >= SCORE(X(j)))),
                ("the best before, or one of the population", z3.Or(z3.And(z3.Not(n0), b == b0), E.exists(0, N, lambda j: X(j) == b))),
                ("something is written in measured generations", z3.Implies(g % m == 0, st.ghost['%rows'] > 0))] + self.frame(E, st0, st)


class Attrs(_Probe):
    """AttributesCSVProbe: one row per individual, in order (or one for a best one)"""
    target = P + ':AttributesCSVProbe.__call__'
    cls = P + '.AttributesCSVProbe'
    schema = schema(P + '.AttributesCSVProbe', 'bsf')
    only = False

    def __init__(self):
        self.specs = {**order_specs(), (self.cls, 'get_row_dict'): self.get_row, ('Writer', 'writerow'): self.write, P + '._maybe_list': lambda E, st, cx, args, kw, k: k(st, NONE)}

    def get_row(self, E, st, cx, args, kw, k):
        r = VRef(E.new_ref(st), PObj('Row'))
        st.assume(self.OF(r.t) == args[1].t)
        k(st, r)

    def write(self, E, st, cx, args, kw, k):
        g = st.ghost
        x = self.OF(args[1].t)
        if self.only:
            E.prove(st, z3.And(g['%rows'] == 0, E.exists(0, self.N, lambda j: self.X(E, j) == x), E.forall(0, self.N, lambda j: SCORE(x) >= SCORE(self.X(E, j)))), "one row, of a best individual")
        else:
            E.prove(st, z3.And(g['%rows'] < self.N, x == self.X(E, g['%rows'])), "rows in the order of the population")
        g['%rows'] = z3.simplify(g['%rows'] + 1)
        k(st, NONE)

    def X(self, E, j):
        return elem(E, self.st0, self.pop, j).t

    def setup(self, E, st):
        self.OF = z3.Function('rowof', IntS, IntS)
        self.pop = in_pop(E, st, 1, distinct=False)
        self.ctx(E, st)
        st.assume(get(E, st, self.p.t, 'best_only', KBool).t == z3.BoolVal(self.only))
        self.data = get(E, st, self.p.t, 'data', ROWS)
        E.wf(st, self.data)
        st.assume(self.data.t != self.pop.t)
        self.st0 = st.fork()
        self.N = E.lens(st, self.pop.t)
        self.D = E.lens(st, self.data.t)
        if E.mode == 'bmc':
            E.side.append(self.D <= 1)
        st.ghost['%rows'] = z3.IntVal(0)
        return [self.p, self.pop], {}

    def cands(self, E, L):
        if self.only:
            return
        df = get(E, self.st0, self.p.t, 'do_dataframe', KBool).t
        yield "rows so far", lambda s: s.ghost['%rows'] == L.k(s)
        yield "data so far", lambda s: E.lens(s, self.data.t) == z3.If(df, self.D + L.k(s), self.D)
        yield "data: the individuals in order", lambda s: z3.Implies(df, E.forall(0, L.k(s), lambda j: self.OF(elem(E, s, self.data, self.D + j).t) == self.X(E, j)))
        yield "data before kept", lambda s: E.forall(0, self.D, lambda j: elem(E, s, self.data, j).t == elem(E, self.st0, self.data, j).t)

    def post(self, E, st0, st, ret):
        df = get(E, st0, self.p.t, 'do_dataframe', KBool).t
        d = get(E, st, self.p.t, 'data', ROWS)
        want = z3.IntVal(1) if self.only else self.N
        obs = [("passes the population on", ret.t == self.pop.t if isinstance(ret, VRef) else FALSE), ("as it was", unchanged_list(E, st0, st, self.pop)),
               ("a row each", st.ghost['%rows'] == want),
               ("as much data", z3.Implies(df, E.lens(st, d.t) == self.D + want))] + self.frame(E, st0, st)
        if not self.only:
            obs.append(("data in the order of the population", z3.Implies(df, E.forall(0, self.N, lambda j: self.OF(elem(E, st, d, self.D + j).t) == self.X(E, j)))))
        return obs


class AttrsBest(Attrs):
    only = True


CONTRACTS = [BsfPop(), BsfIter(), BestOfGen(), Stats(), Attrs(), AttrsBest()]
