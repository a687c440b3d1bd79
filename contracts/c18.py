"""C18: crowding distances lose nobody, and NSGA-II keeps the population size and the better fronts."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *
from contracts.c12 import _Alg, named, POP, SCH as ALGSCH

MOP = 'leap_ec.multiobjective.problems.MultiObjectiveProblem'
NDI, NDR = KRef(PList(KInt, True)), KRef(PList(KReal, True))
INDK = KRef(PObj(IND))
SCHEMA = {(MOP, 'maximize'): NDI, (IND, 'problem'): KRef(PObj(MOP)), (IND, 'fitness'): NDR, (IND, 'rank'): KInt, (IND, 'distance'): KReal}
OPS = 'leap_ec.multiobjective.ops:'
INF = z3.Real('infinity')

BOUNDED = ["leap_ec.multiobjective.ops:per_rank_crowding_calc: the distances themselves (only that nobody is lost and nothing else changes is proved); stand-in: executed on random "
           "fronts (up to 40 individuals, 1-3 objectives, ties, duplicates) against the definition",
           "leap_ec.multiobjective.asynchronous:ENLUInserter: executed on random histories of up to 25 insertions"]


def permutation(E, st, ret, st0, lst):
    """ret holds exactly the elements of lst (pairwise different), each once"""
    if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
        return [("a list", FALSE)]
    if ret.p.k is None:
        ret.p.k = INDK
    n = E.lens(st0, lst.t)
    R = lambda j: elem(E, st, ret, j).t
    X = lambda j: elem(E, st0, lst, j).t
    inv = lst.inv
    # n different elements of a set of n: that is all of them
    return [("as many as went in", E.lens(st, ret.t) == n),
            ("only those that went in", E.forall(0, n, lambda j: z3.And(inv(R(j)) >= 0, inv(R(j)) < n, X(inv(R(j))) == R(j)))),
            ("nobody twice", E.forall2(n, lambda i, j: R(i) != R(j), lambda i, j: [R(i), R(j)]))]


class SortDom(Contract):
    """sort_by_dominance"""
    prop = 'C18'
    target = OPS + 'sort_by_dominance'
    schema = SCHEMA

    def setup(self, E, st):
        self.pop = in_pop(E, st)
        return [self.pop], {}

    def post(self, E, st0, st, ret):
        obs = permutation(E, st, ret, st0, self.pop)
        if len(obs) == 1:
            return obs
        rank = lambda j: get(E, st0, elem(E, st, ret, j).t, 'rank', KInt).t
        dist = lambda j: get(E, st0, elem(E, st, ret, j).t, 'distance', KReal).t
        n = E.lens(st0, self.pop.t)
        return obs + [("better fronts first, the less crowded first within a front",
                       E.forall(0, n, lambda j: E.forall(0, j, lambda i: z3.Or(rank(i) < rank(j), z3.And(rank(i) == rank(j), dist(i) >= dist(j)))))),
                      ("ranks and distances are left alone", z3.And(attr_unchanged(E, st0, st, 'rank', KInt), attr_unchanged(E, st0, st, 'distance', KReal))),
                      ("the list given is left alone", unchanged_list(E, st0, st, self.pop))]


class Crowd(Contract):
    """per_rank_crowding_calc: everyone comes back, once"""
    prop = 'C18'
    target = OPS + 'per_rank_crowding_calc'
    budget = 150
    skip_guesses = ('earlier elements', "frame ('a', 'distance')", 'attribute distance')
    schema = SCHEMA
    consts = {'math.inf': VReal(INF), 'numpy.inf': VReal(INF), 'numpy.NINF': VReal(-INF)}
    ASSUMES = ["infinity is an arbitrary number (nothing proved here depends on its size)"]

    def setup(self, E, st):
        self.pop = in_pop(E, st, 1)
        self.mx = in_list(E, st, KInt, 1, nd=True)
        self.m = E.lens(st, self.mx.t)
        s0 = self.st0 = st.fork()
        el = lambda j: elem(E, s0, self.mx, j).t
        st.assume(E.forall(0, self.m, lambda j: z3.Or(el(j) == 1, el(j) == -1), pats=[el]))
        x = lambda j: elem(E, s0, self.pop, j).t
        fit = lambda j: get(E, s0, x(j), 'fitness', NDR).t
        st.assume(E.forall(0, E.lens(st, self.pop.t), lambda j: z3.And(fit(j) >= 0, fit(j) < s0.alloc, E.lens(s0, fit(j)) == self.m), pats=[x]))
        return [self.pop, self.mx], {}

    def cands(self, E, L):
        n = E.lens(self.st0, self.pop.t)
        inv = self.pop.inv
        X = lambda j: elem(E, self.st0, self.pop, j).t
        for fid, nm, v in L.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList) and (v.p.k is None or v.p.k.key == INDK.key)):
            if ('v', fid, nm) not in L.mods:
                continue

            def cur(s, fid=fid, nm=nm):
                w = s.frames[fid][nm]
                return VRef(w.t, PList(INDK))
            R = lambda s, j, cur=cur: elem(E, s, cur(s), j).t
            yield f"{nm}: as many", lambda s, cur=cur: E.lens(s, cur(s).t) == n
            yield f"{nm}: only those given", lambda s, R=R: E.forall(0, n, lambda j: z3.And(inv(R(s, j)) >= 0, inv(R(s, j)) < n, X(inv(R(s, j))) == R(s, j)), pats=[lambda j: R(s, j)])
            yield f"{nm}: nobody twice", lambda s, R=R: E.forall2(n, lambda i, j: R(s, i) != R(s, j), lambda i, j: [R(s, i), R(s, j)])

    def post(self, E, st0, st, ret):
        obs = permutation(E, st, ret, st0, self.pop)
        return obs + [("ranks and fitnesses are left alone", z3.And(attr_unchanged(E, st0, st, 'rank', KInt), attr_unchanged(E, st0, st, 'fitness', NDR))),
                      ("the list given is left alone", unchanged_list(E, st0, st, self.pop))]


class CrowdAll(Contract):
    """crowding_distance_calc: front by front, nobody is lost"""
    prop = 'C18'
    target = OPS + 'crowding_distance_calc'
    schema = SCHEMA

    def __init__(self):
        self.specs = {'toolz.groupby': self.groupby, 'toolz.itertoolz.groupby': self.groupby, ('Groups', 'keys'): self.keys, ('Groups', 'values'): self.values,
                      ('Groups', '__getitem__'): self.getitem, 'leap_ec.multiobjective.ops.per_rank_crowding_calc': self.per_rank}

    def groupby(self, E, st, cx, args, kw, k):
        """contract of toolz.groupby: the elements, each in the group of its key, groups in some order"""
        f, seq = args
        n = E.lens(self.st0, self.pop.t)
        E.prove(st, z3.And(seq.t == self.pop.t, unchanged_list(E, self.st0, st, self.pop)) if isinstance(seq, VRef) else FALSE, "everyone is grouped")
        j = fresh('j', IntS)
        s = st.fork()
        s.assume(z3.And(j >= 0, j < n))
        x = elem(E, self.st0, self.pop, j)

        def got(s2, v):
            E.prove(s2, v.t == get(E, self.st0, x.t, 'rank', KInt).t if isinstance(v, VInt) else FALSE, "by rank")
        E.call(f, [x], {}, s, cx, got)
        k(st, VRef(z3.IntVal(0), PObj('Groups')))

    def keys(self, E, st, cx, args, kw, k):
        k(st, E.mk_list(st, self.G, lambda g: VInt(self.KEY(g)), KInt))

    def values(self, E, st, cx, args, kw, k):
        k(st, E.mk_list(st, self.G, lambda g: VRef(self.GRP(g), PList(INDK)), KRef(PList(INDK))))

    def getitem(self, E, st, cx, args, kw, k):
        g = self.WHICH(args[1].t)
        E.prove(st, z3.And(g >= 0, g < self.G, self.KEY(g) == args[1].t), "a rank that occurs")
        k(st, VRef(self.GRP(g), PList(INDK)))

    def per_rank(self, E, st, cx, args, kw, k):
        """contract of per_rank_crowding_calc (proved by Crowd): the group, in some order"""
        v = named(('ranked_population', 'is_maximizing'), args, kw)
        t = v['ranked_population'].t
        g = self.GOF(t)
        E.prove(st, z3.And(g >= 0, g < self.G, self.GRP(g) == t), "one whole front at a time")
        E.prove(st, v['is_maximizing'].t == self.mx.t if isinstance(v['is_maximizing'], VRef) else FALSE, "with the directions of the problem")
        s0 = self.st0
        k(st, E.mk_list(st, self.LEN(g), lambda i: elem(E, s0, self.pop, self.MEM(g, self.PI(g, i))), INDK))

    def setup(self, E, st):
        self.pop = in_pop(E, st, 1)
        self.n = n = E.lens(st, self.pop.t)
        s0 = self.st0 = st.fork()
        self.prob = get(E, s0, elem(E, s0, self.pop, z3.IntVal(0)).t, 'problem', KRef(PObj(MOP)))
        E.wf(st, self.prob)
        self.mx = get(E, s0, self.prob.t, 'maximize', NDI)
        E.wf(st, self.mx)
        F = lambda nm, *s: z3.Function(nm, *([IntS] * (len(s) or 2)))
        self.G = fresh('groups', IntS)
        F1, F2 = (lambda nm: z3.Function(nm, IntS, IntS)), (lambda nm: z3.Function(nm, IntS, IntS, IntS))
        self.KEY, self.WHICH, self.GRP, self.GOF, self.LEN, self.OFF = [F1(x) for x in ('key', 'which', 'grp', 'gof', 'glen', 'goff')]
        self.MEM, self.PI, self.PINV = [F2(x) for x in ('mem', 'pi', 'pinv')]
        self.GI, self.SLOT = F1('group_of'), F1('slot_in')
        G = self.G
        A = st.assume
        A(z3.And(G >= 1, G <= n, self.OFF(z3.IntVal(0)) == 0, self.OFF(G) == n))
        A(E.forall(0, G, lambda g: z3.And(self.WHICH(self.KEY(g)) == g, self.GOF(self.GRP(g)) == g, self.LEN(g) >= 1, self.OFF(g + 1) == self.OFF(g) + self.LEN(g), self.OFF(g) >= 0,
                                          self.GRP(g) >= 0, self.GRP(g) < s0.alloc, self.GRP(g) != self.pop.t, E.lens(s0, self.GRP(g)) == self.LEN(g)),
                   pats=[lambda g: self.KEY(g), lambda g: self.GRP(g), lambda g: self.LEN(g)]))
        A(E.forall(0, n, lambda j: z3.And(self.GI(j) >= 0, self.GI(j) < G, self.SLOT(j) >= 0, self.SLOT(j) < self.LEN(self.GI(j)), self.MEM(self.GI(j), self.SLOT(j)) == j,
                                          self.PINV(self.GI(j), self.SLOT(j)) >= 0, self.PINV(self.GI(j), self.SLOT(j)) < self.LEN(self.GI(j)),
                                          self.PI(self.GI(j), self.PINV(self.GI(j), self.SLOT(j))) == self.SLOT(j)), pats=[lambda j: self.GI(j), lambda j: elem(E, s0, self.pop, j).t]))
        if E.mode == 'bmc':
            for g in range(E.N):
                for i in range(E.N):
                    gg, ii = z3.IntVal(g), z3.IntVal(i)
                    A(z3.Implies(z3.And(gg < G, ii < self.LEN(gg)), z3.And(self.MEM(gg, ii) >= 0, self.MEM(gg, ii) < n, self.PI(gg, ii) >= 0, self.PI(gg, ii) < self.LEN(gg),
                                                                           self.GI(self.MEM(gg, ii)) == gg, self.SLOT(self.MEM(gg, ii)) == ii, self.PINV(gg, self.PI(gg, ii)) == ii)))
        return [self.pop], {}

    def where(self, j):
        return self.OFF(self.GI(j)) + self.PINV(self.GI(j), self.SLOT(j))

    def cands(self, E, L):
        k = L.k if hasattr(L, 'k') else None
        s0 = self.st0
        if k is None:
            return
        for fid, nm, v in L.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList) and (v.p.k is None or v.p.k.key == INDK.key)):
            if v.t.eq(self.pop.t):
                continue
            def cur(s, fid=fid, nm=nm):
                return VRef(s.frames[fid][nm].t, PList(INDK))
            yield f"{nm}: so many", lambda s, cur=cur: z3.And(E.lens(s, cur(s).t) == self.OFF(k(s)), k(s) <= self.G)
            yield f"{nm}: the fronts so far", lambda s, cur=cur: E.forall(0, self.n, lambda j: z3.Implies(self.GI(j) < k(s), z3.And(
                self.where(j) >= 0, self.where(j) < E.lens(s, cur(s).t), elem(E, s, cur(s), self.where(j)).t == elem(E, s0, self.pop, j).t)), pats=[lambda j: self.GI(j)])

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        if ret.p.k is None:
            ret.p.k = INDK
        return [("as many as went in", E.lens(st, ret.t) == self.n),
                ("everyone that went in", E.forall(0, self.n, lambda j: E.exists(0, self.n, lambda i: elem(E, st, ret, i).t == elem(E, st0, self.pop, j).t))),
                ("the list given is left alone", unchanged_list(E, st0, st, self.pop))]


class Nsga2(_Alg):
    """generalized_nsga_2"""
    prop = 'C18'
    target = 'leap_ec.multiobjective.nsga2:generalized_nsga_2'
    schema = {**ALGSCH, **SCHEMA}

    def __init__(self):
        super().__init__()
        self.specs.update({'leap_ec.multiobjective.ops.crowding_distance_calc': self.crowd, 'leap_ec.ops.truncation_selection': self.trunc,
                           'leap_ec.multiobjective.ops.sort_by_dominance': self.sorted})

    def ready(self, E, st):
        return z3.IntVal(4)

    def create(self, E, st, cx, args, kw, k):
        v = named(('self', 'pop_size', 'problem'), args, kw)
        E.prove(st, z3.And(v['pop_size'].t == self.n, v['problem'].t == self.prob.t, st.ghost['%phase'] == -2), "one initial population of the size and problem asked for")
        st.ghost['%phase'] = z3.IntVal(-1)
        k(st, VRef(self.born, POP))

    def fold(self, E, st, cx, args, kw, k):
        x, ops = args
        g = st.ghost
        E.prove(st, z3.And(ops.t == self.pipeline.t, unchanged_list(E, self.st0, st, self.pipeline)), "the operators given, in order")
        E.prove(st, x.t == g['%cur'] if isinstance(x, VRef) else FALSE, "the pipeline starts from the current population")
        E.prove(st, z3.And(g['%phase'] == 0, g['%gen'] < self.max, z3.Not(self.STOP(g['%cur'], g['%gen']))), "a generation runs only before the limit and only if stop says no")
        g['%phase'] = z3.IntVal(1)
        k(st, VRef(self.OFF(g['%gen']), POP))

    def rank(self, E, st, cx, args, kw, k):
        """the ranking operator (C17): ranks offspring and parents together"""
        v = named(('population', 'parents'), args, kw)

        def run(E, s, cx2, a, kw2, k2):
            g = s.ghost
            v2 = {**v, **named(('population', 'parents'), a, kw2)}
            E.prove(s, z3.And(g['%phase'] == 1, v2['population'].t == self.OFF(g['%gen']), v2['parents'].t == g['%cur']) if isinstance(v2.get('parents'), VRef) else FALSE,
                    "offspring and parents are ranked together")
            g['%phase'] = z3.IntVal(2)
            g['%pool'] = fresh('ranked', IntS)
            k2(s, VRef(g['%pool'], POP))
        if 'population' in v:
            return run(E, st, cx, [], {}, k)
        k(st, VSpec(run, 'rank_func'))

    def crowd(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(g['%phase'] == 2, args[0].t == g['%pool']), "distances within the ranked pool")
        g['%phase'] = z3.IntVal(3)
        g['%pool'] = fresh('crowded', IntS)
        k(st, VRef(g['%pool'], POP))

    def sorted(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(g['%phase'] == 3, args[0].t == g['%pool']), "the pool is sorted")
        g['%pool'] = fresh('sorted', IntS)
        k(st, VRef(g['%pool'], POP))

    def trunc(self, E, st, cx, args, kw, k):
        """truncation_selection (C05): the best by the key"""
        from pydv.models import gt
        v = named(('offspring', 'size', 'parents', 'key'), args, kw)

        def run(E, s, cx2, a, kw2, k2):
            g = s.ghost
            v2 = {**v, **named(('offspring', 'size', 'parents', 'key'), a, kw2)}
            E.prove(s, z3.And(g['%phase'] == 3, v2['offspring'].t == g['%pool']), "survivors are chosen from the whole pool")
            E.prove(s, v2['size'].t == E.lens(s, g['%cur']), "as many survive as there were parents")
            par, key = v2.get('parents', NONE), v2.get('key', NONE)
            E.prove(s, z3.BoolVal(isinstance(par, VNone) and not isinstance(key, VNone)), "with a key, and without adding the parents again")
            x, y = new_input(E, s, PObj(IND)), new_input(E, s, PObj(IND))
            at = lambda r, nm, kd: get(E, s, r.t, nm, kd).t
            t = s.fork()

            def both(s2, kx):
                def go(s3, ky):
                    better = z3.Or(at(x, 'rank', KInt) < at(y, 'rank', KInt), z3.And(at(x, 'rank', KInt) == at(y, 'rank', KInt), at(x, 'distance', KReal) > at(y, 'distance', KReal)))
                    for d in (x, y):
                        s3.assume(z3.Not(get(E, s, d.t, 'distance', KReal).nan))
                    E.prove(s3, gt(E, s3, kx, ky) == better, "a better front first, then the less crowded")
                E.call(key, [y], {}, s2, cx2, go)
            E.call(key, [x], {}, t, cx2, both)
            g['%phase'] = z3.IntVal(4)
            r = self.NEXT(g['%gen'])
            s.assume(z3.And(r >= 0, r < self.st0.alloc, E.lens(s, r) == v2['size'].t))
            g['%cur'] = r
            k2(s, VRef(r, POP))
        if 'offspring' in v:
            return run(E, st, cx, [], {}, k)
        k(st, VSpec(run, 'truncation_selection'))

    def setup(self, E, st):
        self.max, self.n = fresh('max', RealS), fresh('n', IntS)
        st.assume(self.n >= 0)
        self.base(E, st, fresh('start', IntS))
        self.steps(E)
        self.OFF, self.NEXT = z3.Function('offspring', IntS, IntS), z3.Function('nextpop', IntS, IntS)
        self.born, self.evald = fresh('born', IntS), fresh('evald', IntS)
        st.assume(E.lens(st, self.evald) == self.n)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        self.rep, self.prob = new_input(E, st, PObj('Rep')), new_input(E, st, PObj(MOP))
        st.ghost['%phase'] = z3.IntVal(-2)
        st.ghost['%cur'] = self.evald
        st.ghost['%pool'] = z3.IntVal(-1)

        def stop(E, s, cx, args, kw, k):
            E.prove(s, args[0].t == s.ghost['%cur'], "stop is asked about the current population")
            k(s, VBool(self.STOP(args[0].t, s.ghost['%gen'])))

        def ev(E, s, cx, args, kw, k):
            E.prove(s, z3.And(args[0].t == self.born, s.ghost['%phase'] == -1), "the initial population is evaluated, once")
            s.ghost['%phase'] = z3.IntVal(0)
            k(s, VRef(self.evald, POP))
        self.st0 = st.fork()
        return [VReal(self.max), VInt(self.n), self.prob, self.rep, self.pipeline], dict(
            rank_func=VSpec(self.rank, 'rank_func'), stop=VSpec(stop, 'stop'), init_evaluate=VSpec(ev, 'init_evaluate'), start_generation=VInt(self.first), context=self.c)

    def cands(self, E, L):
        yield from super().cands(E, L)
        yield "not past the last generation", lambda s: z3.Or(s.ghost['%gen'] == self.first, s.ghost['%gen'] - 1 < self.max)
        yield "the population keeps its size", lambda s: E.lens(s, s.ghost['%cur']) == self.n
        for fid, nm, v in L.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList)):
            yield f"{nm} is the current population", lambda s, fid=fid, nm=nm: s.frames[fid][nm].t == s.ghost['%cur']

    def post(self, E, st0, st, ret):
        g = st.ghost
        return [("returns the last population", ret.t == g['%cur'] if isinstance(ret, VRef) else FALSE),
                ("of the size asked for", E.lens(st, g['%cur']) == self.n),
                ("ends only at the limit or when stop says so", z3.Or(z3.ToReal(g['%gen']) >= self.max, self.STOP(g['%cur'], g['%gen']))),
                ("the operators are left alone", unchanged_list(E, st0, st, self.pipeline)),
                ("nothing half done", g['%phase'] == 0)]


ENLU = 'leap_ec.multiobjective.asynchronous.ENLUInserter'


class SteadyNsga2(Contract):
    """steady_state_nsga_2: one run of steady_state (C15) with everything it was given and an inserter of its own"""
    prop = 'C18'
    target = 'leap_ec.multiobjective.asynchronous:steady_state_nsga_2'
    schema = SCHEMA

    def __init__(self):
        self.specs = {'leap_ec.distrib.asynchronous.steady_state': self.run}

    def run(self, E, st, cx, args, kw, k):
        v = named(('client', 'max_births', 'init_pop_size', 'pop_size', 'representation', 'problem', 'offspring_pipeline', 'inserter', 'count_nonviable',
                   'evaluated_probe', 'pop_probe', 'context'), args, kw)
        E.prove(st, st.ghost['%runs'] == 0, "one run")
        for nm, w in self.given.items():
            x = v.get(nm)
            E.prove(st, x.t == w.t if type(x) is type(w) else FALSE, f"steady_state gets the {nm} given")
        x = v.get('inserter')
        E.prove(st, x.t >= self.st0.alloc if isinstance(x, VRef) and isinstance(x.p, PObj) and x.p.cls == ENLU else FALSE, "and a fresh ENLUInserter")
        st.ghost['%runs'] = z3.IntVal(1)
        k(st, VRef(self.res, POP))

    def setup(self, E, st):
        self.res = fresh('final', IntS)
        o = lambda c: new_input(E, st, PObj(c))
        i = lambda n: VInt(fresh(n, IntS))
        self.given = dict(client=o('Client'), max_births=i('births'), init_pop_size=i('first'), pop_size=i('size'), representation=o('Rep'), problem=o(MOP),
                          offspring_pipeline=o('Pipeline'), count_nonviable=VBool(fresh('count', BoolS)), evaluated_probe=o('Probe'), pop_probe=o('PopProbe'), context=o('dict:ctx'))
        st.ghost['%runs'] = z3.IntVal(0)
        self.st0 = st.fork()
        return [], dict(self.given)

    def post(self, E, st0, st, ret):
        return [("returns the final population of that run", z3.And(ret.t == self.res, st.ghost['%runs'] == 1) if isinstance(ret, VRef) else FALSE)]


CONTRACTS = [SortDom(), Crowd(), CrowdAll(), Nsga2(), SteadyNsga2()]
