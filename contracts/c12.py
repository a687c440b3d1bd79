"""C12: the monolithic algorithms run the generations asked for, hand each population on intact, and stop when told."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

LEAP = 'dict:leap'
POP = PList(KRef(PObj(IND)))
POPK = KRef(POP)
OPL = PList(KRef(PObj('Op')))
POPS = KRef(PList(POPK))
SCH = {('dict:ctx', '[leap]'): KRef(PObj(LEAP)), (LEAP, '[subpopulations]'): POPS, (LEAP, '[current_subpopulation]'): KInt,
       (LEAP, '[generation]'): KInt, (LEAP, 'has[generation]'): KBool, (LEAP, 'has[subpopulations]'): KBool, (LEAP, 'has[current_subpopulation]'): KBool}
ALG = 'leap_ec.algorithm:'


def named(names, args, kwargs):
    d = dict(zip(names, args))
    d.update(kwargs)
    return d


class _Alg(Contract):
    """shared by the algorithms: the counter (its contract is C24's), the context, and running operators"""
    prop = 'C12'
    schema = SCH
    start = None

    def __init__(self):
        self.specs = {'leap_ec.util.inc_generation': self.counter, ('Counter', '__call__'): self.tick, ('Counter', 'generation'): self.gen,
                      ('pipe', 'fold'): self.fold, ('Rep', 'create_population'): self.create}

    def counter(self, E, st, cx, args, kw, k):
        v = named(('start_generation', 'context', 'callbacks'), args, kw)
        c, s = v.get('context'), v.get('start_generation', VInt(0))
        E.prove(st, c.t == self.c.t if isinstance(c, VRef) else FALSE, "the generation is recorded in the given context")
        E.prove(st, s.t == self.first if isinstance(s, VInt) else FALSE, "counting begins where asked")
        E.prove(st, st.ghost['%counters'] == 0, "one generation counter")
        st.ghost['%counters'] = z3.IntVal(1)
        k(st, self.cnt)

    def gen(self, E, st, cx, args, kw, k):
        k(st, VInt(st.ghost['%gen']))

    def tick(self, E, st, cx, args, kw, k):
        E.prove(st, st.ghost['%phase'] == self.ready(E, st), "a generation is counted once its work is done")
        st.ghost['%gen'] = z3.simplify(st.ghost['%gen'] + 1)
        st.ghost['%phase'] = z3.IntVal(0)
        k(st, VInt(st.ghost['%gen']))

    def ready(self, E, st):
        return z3.IntVal(2)

    def base(self, E, st, first):
        self.first = first
        self.c = new_input(E, st, PObj('dict:ctx'))
        self.leap = get(E, st, self.c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, self.leap)
        self.cnt = new_input(E, st, PObj('Counter'))
        self.pipeline = in_list(E, st, KRef(PObj('Op')))
        st.ghost['%gen'] = first
        st.ghost['%phase'] = z3.IntVal(0)
        st.ghost['%counters'] = z3.IntVal(0)
        self.STOP = z3.Function('stop', IntS, IntS, BoolS)

    def steps(self, E):
        """bounded run: few generations"""
        if E.mode == 'bmc':
            E.side.append(self.max - self.first <= z3.ToReal(z3.IntVal(E.N)) if self.max.sort() == RealS else self.max - self.first <= E.N)

    def cands(self, E, L):
        yield "no generation half done", lambda s: s.ghost['%phase'] == 0
        yield "not past the last generation", lambda s: z3.Or(s.ghost['%gen'] <= self.first, s.ghost['%gen'] <= self.max)
        yield "counted from the start", lambda s: s.ghost['%gen'] >= self.first
        yield "one counter", lambda s: s.ghost['%counters'] == 1


class Generational(_Alg):
    """generational_ea"""
    target = ALG + 'generational_ea'

    def __init__(self):
        super().__init__()
        self.specs['leap_ec.ops.elitist_survival'] = self.elite

    def create(self, E, st, cx, args, kw, k):
        v = named(('self', 'pop_size', 'problem'), args, kw)
        E.prove(st, z3.And(v['pop_size'].t == self.n, v['problem'].t == self.prob.t, st.ghost['%phase'] == -2), "one initial population of the size and problem asked for")
        st.ghost['%phase'] = z3.IntVal(-1)
        k(st, VRef(self.born, POP))

    def fold(self, E, st, cx, args, kw, k):
        x, ops = args
        g = st.ghost
        E.prove(st, z3.And(ops.t == self.pipeline.t, unchanged_list(E, self.st0, st, self.pipeline)), "the operators given, in order")
        E.prove(st, x.t == g['%cur'] if isinstance(x, VRef) else FALSE, "the pipeline starts from the current population")
        E.prove(st, z3.And(g['%phase'] == 0, g['%gen'] < self.max, z3.Not(self.STOP(g['%cur'], g['%gen']))), "a generation runs only before the limit and only if stop says no")
        g['%phase'] = z3.IntVal(1)
        k(st, VRef(self.OFF(g['%gen']), POP))

    def elite(self, E, st, cx, args, kw, k):
        v = named(('offspring', 'parents', 'k'), args, kw)
        kk = v.get('k', VInt(1))

        def run(E, s, cx2, a, kw2, k2):
            g = s.ghost
            v2 = {**v, **named(('offspring',), a, kw2)}
            E.prove(s, z3.And(v2['parents'].t == g['%cur'], kk.t == self.k), "elites are taken from the generation's own parents, as many as asked for")
            E.prove(s, z3.And(g['%phase'] == 1, v2['offspring'].t == self.OFF(g['%gen'])), "elites join the offspring the pipeline made")
            g['%phase'] = z3.IntVal(2)
            g['%cur'] = self.NEXT(g['%gen'])
            k2(s, VRef(g['%cur'], POP))
        if 'offspring' in v:
            return run(E, st, cx, [], {}, k)
        k(st, VSpec(run, 'elitist_survival'))

    def ready(self, E, st):
        # without elites the offspring are the next population
        return z3.If(z3.And(self.k == 0, st.ghost['%phase'] == 1), z3.IntVal(1), z3.IntVal(2))

    def tick(self, E, st, cx, args, kw, k):
        g = st.ghost
        g['%cur'] = z3.simplify(z3.If(g['%phase'] == 1, self.OFF(g['%gen']), g['%cur']))
        super().tick(E, st, cx, args, kw, k)

    def setup(self, E, st):
        self.max, self.k, self.n = fresh('max', RealS), fresh('k', IntS), fresh('n', IntS)
        st.assume(z3.And(self.k >= 0, self.n >= 0))
        self.base(E, st, fresh('start', IntS))
        self.steps(E)
        self.OFF, self.NEXT = z3.Function('offspring', IntS, IntS), z3.Function('nextpop', IntS, IntS)
        self.born, self.evald = fresh('born', IntS), fresh('evald', IntS)
        self.rep, self.prob = new_input(E, st, PObj('Rep')), new_input(E, st, PObj('Problem'))
        st.ghost['%phase'] = z3.IntVal(-2)
        st.ghost['%cur'] = self.evald

        def stop(E, s, cx, args, kw, k):
            E.prove(s, args[0].t == s.ghost['%cur'], "stop is asked about the current population")
            k(s, VBool(self.STOP(args[0].t, s.ghost['%gen'])))

        def ev(E, s, cx, args, kw, k):
            E.prove(s, z3.And(args[0].t == self.born, s.ghost['%phase'] == -1), "the initial population is evaluated, once")
            s.ghost['%phase'] = z3.IntVal(0)
            k(s, VRef(self.evald, POP))
        self.st0 = st.fork()
        return [VReal(self.max), VInt(self.n), self.prob, self.rep, self.pipeline], dict(
            stop=VSpec(stop, 'stop'), init_evaluate=VSpec(ev, 'init_evaluate'), k_elites=VInt(self.k), start_generation=VInt(self.first), context=self.c)

    def cands(self, E, L):
        yield from super().cands(E, L)
        yield "not past the last generation", lambda s: z3.Or(s.ghost['%gen'] == self.first, s.ghost['%gen'] - 1 < self.max)
        for fid, nm, v in L.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList)):
            yield f"{nm} is the current population", lambda s, fid=fid, nm=nm: s.frames[fid][nm].t == s.ghost['%cur']

    def post(self, E, st0, st, ret):
        g = st.ghost
        return [("returns the last population", ret.t == g['%cur'] if isinstance(ret, VRef) else FALSE),
                ("ends only at the limit or when stop says so", z3.Or(z3.ToReal(g['%gen']) >= self.max, self.STOP(g['%cur'], g['%gen']))),
                ("the operators are left alone", unchanged_list(E, st0, st, self.pipeline)),
                ("nothing half done", g['%phase'] == 0)]


class RandomSearch(_Alg):
    """random_search"""
    target = ALG + 'random_search'

    def __init__(self):
        super().__init__()
        self.specs.update({('Rep', 'create_individual'): self.one, (IND, 'evaluate'): self.evaluate})

    def create(self, E, st, cx, args, kw, k):
        raise Unsupported("create_population")

    def one(self, E, st, cx, args, kw, k):
        v = named(('self', 'problem'), args, kw)
        E.prove(st, z3.And(v['problem'].t == self.prob.t, st.ghost['%phase'] == -2), "one first individual, for the problem asked for")
        st.ghost['%phase'] = z3.IntVal(-1)
        k(st, VRef(self.T(0), PObj(IND)))

    def evaluate(self, E, st, cx, args, kw, k):
        E.prove(st, z3.And(args[0].t == self.T(0), st.ghost['%phase'] == -1), "the first individual is evaluated, once")
        st.ghost['%phase'] = z3.IntVal(0)
        k(st, VReal(fresh('fit', RealS)))

    def fold(self, E, st, cx, args, kw, k):
        x, ops = args
        g = st.ghost
        E.prove(st, z3.And(ops.t == self.pipeline.t, unchanged_list(E, self.st0, st, self.pipeline)), "the operators given, in order")
        ok = isinstance(x, VRef) and isinstance(x.p, PList)
        E.prove(st, z3.And(E.lens(st, x.t) == 1, elem(E, st, x, z3.IntVal(0)).t == self.T(g['%gen'] - 1)) if ok else FALSE, "the pipeline starts from the newest individual alone")
        E.prove(st, z3.And(g['%phase'] == 0, g['%gen'] < self.max), "no more evaluations than asked for")
        g['%phase'] = z3.IntVal(2)
        t = self.T(g['%gen'])
        k(st, E.mk_list(st, z3.IntVal(1), lambda j: VRef(t, PObj(IND)), KRef(PObj(IND))))

    def setup(self, E, st):
        self.max = fresh('evaluations', IntS)
        self.base(E, st, z3.IntVal(1))
        self.steps(E)
        self.T = z3.Function('walk', IntS, IntS)
        self.rep, self.prob = new_input(E, st, PObj('Rep')), new_input(E, st, PObj('Problem'))
        st.ghost['%phase'] = z3.IntVal(-2)
        self.st0 = st.fork()
        return [VInt(self.max), self.prob, self.rep, self.pipeline], dict(context=self.c)

    def cands(self, E, L):
        yield from super().cands(E, L)
        for nm, v in L.mod_lists():
            yield f"{nm}: one entry per evaluation", lambda s, v=v: E.lens(s, v.t) == s.ghost['%gen']
            yield f"{nm}: the walk so far", lambda s, v=v: E.forall(0, E.lens(s, v.t), lambda j: elem(E, s, v, j).t == self.T(j))
        for fid, nm, v in L.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PObj) and v.p.cls == IND):
            yield f"{nm} is the newest", lambda s, fid=fid, nm=nm: s.frames[fid][nm].t == self.T(s.ghost['%gen'] - 1)

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("returns the walk", FALSE)]
        n = z3.If(self.max > 1, self.max, 1)
        return [("as many individuals as evaluations asked for", E.lens(st, ret.t) == n),
                ("every individual of the walk, in order", E.forall(0, n, lambda j: elem(E, st, ret, j).t == self.T(j))),
                ("the generation counts the evaluations", st.ghost['%gen'] == n)]


class MultiPop(_Alg):
    """multi_population_ea"""
    target = ALG + 'multi_population_ea'
    single = True
    own = True
    budget = 120

    def fold(self, E, st, cx, args, kw, k):
        x, ops = args
        g = st.ghost
        i = g['%phase']
        n0 = E.lens(self.st0, self.pipeline.t)
        sub = elem(E, self.st0, self.subs, i) if self.own else None
        n1 = E.lens(self.st0, sub.t) if self.own else z3.IntVal(0)
        E.prove(st, z3.And(i >= 0, i < self.n, g['%gen'] < self.max, z3.Not(self.STOP(g['%gen'], 0))), "a generation runs only before the limit and only if stop says no, once per subpopulation")
        E.prove(st, get(E, st, self.leap.t, '[current_subpopulation]', KInt).t == i, "the context names the subpopulation being run")
        E.prove(st, x.t == self.P(g['%gen'], i), "each pipeline starts from its own subpopulation")
        E.prove(st, E.lens(st, ops.t) == n0 + n1, "the shared operators, then the subpopulation's own (number)")
        E.prove(st, E.forall(0, n0, lambda j: elem(E, st, ops, j).t == elem(E, self.st0, self.pipeline, j).t), "the shared operators, in order")
        if self.own:
            E.prove(st, E.forall(0, n1, lambda j: elem(E, st, ops, n0 + j).t == elem(E, self.st0, sub, j).t), "then the subpopulation's own operators, in order")
        live = get(E, st, self.leap.t, '[subpopulations]', POPS)
        E.prove(st, z3.And(E.lens(st, live.t) == self.n, E.forall(0, self.n, lambda j: elem(E, st, live, j).t == self.now(g, j))), "the context shows the current subpopulations")
        g['%phase'] = z3.simplify(i + 1)
        k(st, VRef(self.P(g['%gen'] + 1, i), POP))

    def now(self, g, j):
        return z3.If(j < g['%phase'], self.P(g['%gen'] + 1, j), self.P(g['%gen'], j))

    def ready(self, E, st):
        return self.n

    def create(self, E, st, cx, args, kw, k):
        v = named(('self', 'pop_size', 'problem'), args, kw)
        j = st.ghost['%made']
        rep, prob = (self.rep.t, self.prob.t) if self.single else (elem(E, self.st0, self.rep, j).t, elem(E, self.st0, self.prob, j).t)
        E.prove(st, z3.And(v['self'].t == rep, v['pop_size'].t == self.size, v['problem'].t == prob), "each subpopulation from its own representation and problem")
        st.ghost['%made'] = z3.simplify(j + 1)
        k(st, VRef(self.B(j), POP))

    def setup(self, E, st):
        self.max, self.n, self.size = fresh('max', IntS), fresh('n', IntS), fresh('size', IntS)
        st.assume(z3.And(self.n >= 0, self.size >= 0))
        self.base(E, st, z3.IntVal(0))
        self.steps(E)
        self.P, self.B = z3.Function('subpop', IntS, IntS, IntS), z3.Function('born', IntS, IntS)
        st.ghost['%made'] = z3.IntVal(0)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        if self.single:
            self.rep, self.prob = new_input(E, st, PObj('Rep')), new_input(E, st, PObj('Problem'))
        else:
            self.rep, self.prob = in_list(E, st, KRef(PObj('Rep'))), in_list(E, st, KRef(PObj('Problem')))
            st.assume(z3.And(E.lens(st, self.rep.t) == self.n, E.lens(st, self.prob.t) == self.n))
        self.subs = NONE
        if self.own:
            self.subs = in_list(E, st, KRef(OPL), minlen=1)
            st.assume(E.lens(st, self.subs.t) == self.n)
            s0 = st.fork()
            st.assume(E.forall(0, self.n, lambda j: z3.And(elem(E, s0, self.subs, j).t >= 0, elem(E, s0, self.subs, j).t < s0.alloc), pats=[lambda j: elem(E, s0, self.subs, j).t]))

        def stop(E, s, cx, args, kw, k):
            a, g = args[0], s.ghost
            E.prove(s, z3.And(E.lens(s, a.t) == self.n, E.forall(0, self.n, lambda j: elem(E, s, a, j).t == self.P(g['%gen'], j))), "stop is asked about the current subpopulations")
            k(s, VBool(self.STOP(g['%gen'], 0)))

        def ev(E, s, cx, args, kw, k):
            j = s.ghost['%evd']
            E.prove(s, args[0].t == self.B(j), "every initial subpopulation is evaluated, once")
            s.ghost['%evd'] = z3.simplify(j + 1)
            k(s, VRef(self.P(0, j), POP))
        st.ghost['%evd'] = z3.IntVal(0)
        self.st0 = st.fork()
        return [VInt(self.max), VInt(self.n), VInt(self.size), self.prob, self.rep, self.pipeline], dict(
            subpop_pipelines=self.subs, stop=VSpec(stop, 'stop'), init_evaluate=VSpec(ev, 'init_evaluate'), context=self.c)

    def cands(self, E, L):
        yield "counted from the start", lambda s: s.ghost['%gen'] >= self.first
        yield "not past the last generation", lambda s: z3.Or(s.ghost['%gen'] <= 0, s.ghost['%gen'] <= self.max)
        yield "one counter", lambda s: s.ghost['%counters'] == 1
        yield "no generation half done", lambda s: s.ghost['%phase'] == 0
        for f, nm, v in list(L.ints()):
            yield f"{nm} is the subpopulation being run", lambda s, f=f: f(s) == s.ghost['%phase']
        yield "populations so far", lambda s: s.ghost['%phase'] == L.k(s)
        for nm, v in L.mod_lists():
            if v.p.k == POPK:
                n = lambda s, v=v: E.lens(s, v.t)
                yield f"{nm}: one per subpopulation", lambda s, n=n: n(s) == self.n
                yield f"{nm}: the current subpopulations", lambda s, v=v: E.forall(0, self.n, lambda j: elem(E, s, v, j).t == self.now(s.ghost, j))
                yield f"{nm}: made in order", lambda s, v=v, n=n: E.forall(0, n(s), lambda j: elem(E, s, v, j).t == self.B(j))
                yield f"{nm}: evaluated in order", lambda s, v=v, n=n: E.forall(0, n(s), lambda j: elem(E, s, v, j).t == self.P(0, j))

    def post(self, E, st0, st, ret):
        g = st.ghost
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("returns the subpopulations", FALSE)]
        if ret.p.k is None:
            return [("one per subpopulation", self.n == 0)]
        return [("one population per subpopulation", z3.And(E.lens(st, ret.t) == self.n, g['%made'] == self.n, g['%evd'] == self.n)),
                ("returns the last subpopulations", E.forall(0, self.n, lambda j: elem(E, st, ret, j).t == self.P(g['%gen'], j))),
                ("ends only at the limit or when stop says so", z3.Or(g['%gen'] >= self.max, self.STOP(g['%gen'], 0))),
                ("nothing half done", g['%phase'] == 0)]


class MultiPopPlain(MultiPop):
    own = False


class MultiPopLists(MultiPop):
    single = False


class StopAt(Contract):
    """stop_at_generation says stop exactly from the given generation on, reading the given context"""
    prop = 'C12'
    target = ALG + 'stop_at_generation'
    schema = SCH

    def setup(self, E, st):
        self.m = fresh('m', IntS)
        st.assume(self.m >= 0)
        self.c = new_input(E, st, PObj('dict:ctx'))
        self.leap = get(E, st, self.c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, self.leap)
        return [VInt(self.m)], dict(context=self.c)

    def drive(self, E, st, cx, src, args, kwargs, k):
        def made(s, f):
            # whatever the generation is by then
            E.hset(s, self.leap.t, '[generation]', KInt, VInt(fresh('gen', IntS)))
            E.hset(s, self.leap.t, 'has[generation]', KBool, VBool(True))
            p = in_list(E, s, KRef(PObj(IND)))
            E.call(f, [p], {}, s, cx, k)
        E.call(self.callee(E, st, src), args, kwargs, st, cx, made)

    def post(self, E, st0, st, ret):
        g = get(E, st, self.leap.t, '[generation]', KInt).t
        return [("stop exactly from that generation on", ret.t == (g >= self.m) if isinstance(ret, VBool) else FALSE)]


CONTRACTS = [Generational(), RandomSearch(), MultiPop(), MultiPopPlain(), MultiPopLists(), StopAt()]
