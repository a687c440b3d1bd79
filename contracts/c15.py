"""C15: asynchronous and distributed evaluation: each individual is evaluated and inserted exactly once, within the birth budget."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

LEAP, DIST = 'dict:leap', 'dict:distrib'
INDK = KRef(PObj(IND))
CTX = KRef(PObj('dict:ctx'))
SCH = {(IND, 'genome'): KRef(PObj('Genome')), (IND, 'fitness'): KMaybe(KReal), (IND, 'is_viable'): KBool, (IND, 'has.is_viable'): KBool, ('dict:ctx', '[leap]'): KRef(PObj(LEAP)), (LEAP, '[distrib]'): KRef(PObj(DIST)),
       (DIST, '[non_viable]'): KInt, (DIST, 'has[non_viable]'): KBool, (LEAP, 'has[distrib]'): KBool}
ASY, SYN, EVA = 'leap_ec.distrib.asynchronous:', 'leap_ec.distrib.synchronous:', 'leap_ec.distrib.evaluate:'


def viable(E, st, r):
    """viable unless marked otherwise"""
    return z3.Or(z3.Not(get(E, st, r, 'has.is_viable', KBool).t), get(E, st, r, 'is_viable', KBool).t)


def named(names, args, kwargs):
    d = dict(zip(names, args))
    d.update(kwargs)
    return d


class Viable(Contract):
    """is_viable: what the mark says; viable if there is none"""
    prop = 'C15'
    target = EVA + 'is_viable'
    schema = SCH

    def setup(self, E, st):
        self.x = new_input(E, st, PObj(IND))
        return [self.x], {}

    def post(self, E, st0, st, ret):
        return [("the mark, or viable", ret.t == viable(E, st0, self.x.t) if isinstance(ret, VBool) else FALSE),
                ("nothing changes", z3.And(attr_unchanged(E, st0, st, 'is_viable', KBool), attr_unchanged(E, st0, st, 'has.is_viable', KBool)))]


class _Insert(Contract):
    prop = 'C15'
    schema = SCH

    def __init__(self):
        self.specs = order_specs()

    def world(self, E, st, minlen=0):
        self.pop = in_list(E, st, INDK, minlen)
        self.x = new_input(E, st, PObj(IND))
        self.n = E.lens(st, self.pop.t)
        s0 = st.fork()
        st.assume(E.forall(0, self.n, lambda j: z3.And(elem(E, s0, self.pop, j).t >= 0, elem(E, s0, self.pop, j).t < s0.alloc), pats=[lambda j: elem(E, s0, self.pop, j).t]))

    def at(self, E, st, j):
        return elem(E, st, self.pop, j).t

    def slot(self, E, st0, st, i):
        """the rule for the one slot concerned; all others stay"""
        old = self.at(E, st0, i)
        win = z3.Or(z3.Not(viable(E, st0, old)), SCORE(self.x.t) > SCORE(old))
        return z3.And(E.lens(st, self.pop.t) == self.n,
                      self.at(E, st, i) == z3.If(win, self.x.t, old),
                      E.forall(0, self.n, lambda j: z3.Or(j == i, self.at(E, st, j) == self.at(E, st0, j))))

    def room(self, E, st0, st, size):
        """below capacity: simply added"""
        return z3.Implies(self.n < size, z3.And(E.lens(st, self.pop.t) == self.n + 1, self.at(E, st, self.n) == self.x.t,
                                                E.forall(0, self.n, lambda j: self.at(E, st, j) == self.at(E, st0, j))))

    def marks(self, E, st0, st):
        return [("no individual changes", z3.And(attr_unchanged(E, st0, st, 'is_viable', KBool), attr_unchanged(E, st0, st, 'has.is_viable', KBool)))]


class ReplaceIf(_Insert):
    target = ASY + 'replace_if'

    def setup(self, E, st):
        self.world(E, st, 1)
        self.i = fresh('i', IntS)
        st.assume(z3.And(self.i >= 0, self.i < self.n))
        return [self.x, self.pop, VInt(self.i)], {}

    def post(self, E, st0, st, ret):
        return [("the newcomer takes the slot exactly when its holder is not viable or worse; nothing else changes", self.slot(E, st0, st, self.i))] + self.marks(E, st0, st)


class Tournament(_Insert):
    target = ASY + 'tournament_insert_into_pop'

    def setup(self, E, st):
        self.world(E, st)
        self.size = fresh('size', IntS)
        st.assume(self.size >= 1)
        self.drawn = []
        st.ghost['%draws'] = z3.IntVal(0)
        st.ghost['%slot'] = z3.IntVal(-1)

        def draw(E, s, n, f):
            s.ghost['%draws'] = s.ghost['%draws'] + 1
            s.ghost['%slot'] = f(z3.IntVal(0))
        E.on_draw = draw
        return [self.x, self.pop, VInt(self.size)], {}

    def post(self, E, st0, st, ret):
        i = st.ghost['%slot']
        return [("added while there is room", self.room(E, st0, st, self.size)),
                ("otherwise it competes for the one slot drawn", z3.Implies(self.n >= self.size, z3.And(st.ghost['%draws'] == 1, i >= 0, i < self.n, self.slot(E, st0, st, i)))),
                ] + self.marks(E, st0, st)


class Greedy(_Insert):
    target = ASY + 'greedy_insert_into_pop'

    def setup(self, E, st):
        self.world(E, st)
        self.size = fresh('size', IntS)
        st.assume(self.size >= 1)
        return [self.x, self.pop, VInt(self.size)], {}

    def post(self, E, st0, st, ret):
        worst = lambda i: E.forall(0, self.n, lambda j: SCORE(self.at(E, st0, j)) >= SCORE(self.at(E, st0, i)))
        return [("added while there is room", self.room(E, st0, st, self.size)),
                ("otherwise it competes with the weakest", z3.Implies(self.n >= self.size, E.exists(0, self.n, lambda i: z3.And(worst(i), self.slot(E, st0, st, i))))),
                ] + self.marks(E, st0, st)



class Steady(Contract):
    """steady_state, for every order in which evaluations complete"""
    prop = 'C15'
    target = ASY + 'steady_state'
    schema = SCH
    budget = 150
    probes = False

    def __init__(self):
        self.specs = {('Rep', 'create_population'): self.create, ('Client', 'map'): self.map, ('Client', 'submit'): self.submit, 'distributed.as_completed': self.completed,
                      ('Done', '__next__'): self.next, ('Done', 'add'): self.add, ('Future', 'result'): self.result, 'leap_ec.distrib.evaluate.evaluate': self.task,
                      'leap_ec.util.inc_births': self.counter, ('Births', 'births'): self.births, ('Births', 'do_increment'): self.inc, ('Births', 'do_decrement'): self.dec,
                      ('pipe', 'fold'): self.fold}

    # ---- creation and evaluation of the first population
    def create(self, E, st, cx, args, kw, k):
        v = named(('self', 'pop_size', 'problem'), args, kw)
        g = st.ghost
        E.prove(st, z3.And(v['pop_size'].t == self.n0, v['problem'].t == self.prob.t, g['%phase'] == -3), "one initial population of the size and problem asked for")
        g['%phase'] = z3.IntVal(-2)
        k(st, VRef(self.first.t, self.first.p))

    def task(self, E, st, cx, args, kw, k):
        v = named(('individual', 'context'), args, kw)
        if 'individual' in v:
            raise Unsupported("evaluation in the caller")
        c = v.get('context')
        E.prove(st, c.t == self.c.t if isinstance(c, VRef) else FALSE, "evaluations report to the given context")
        k(st, VRef(self.fn, PObj('Task')))

    def map(self, E, st, cx, args, kw, k):
        v = named(('self', 'fn', 'items'), args, kw)
        g = st.ghost
        E.prove(st, z3.And(v['fn'].t == self.fn, v['items'].t == self.first.t, g['%phase'] == -2, unchanged_list(E, self.st0, st, self.first)), "the whole initial population is sent out, once")
        self.unpure(E, st, v)
        g['%phase'] = z3.IntVal(-1)
        k(st, VRef(self.futs, PObj('Futures')))

    def unpure(self, E, st, v):
        p = v.get('pure')
        E.prove(st, z3.Not(p.t) if isinstance(p, VBool) else FALSE, "equal individuals are still evaluated separately")

    def completed(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(args[0].t == self.futs, g['%phase'] == -1), "results of exactly those evaluations are awaited")
        g['%phase'] = z3.IntVal(0)
        g['%sub'] = self.n0
        k(st, VRef(self.q, PObj('Done')))

    # ---- one completed evaluation
    def next(self, E, st, cx, args, kw, k):
        g = st.ghost
        self.settled(E, st)

        def more(s):
            s.ghost['%phase'] = z3.IntVal(1)
            k(s, VRef(self.FUT(s.ghost['%done']), PObj('Future')))
        E.branch(st, g['%done'] < g['%sub'], more, lambda s: E.fail(s, cx, 'StopIteration'))

    def settled(self, E, st):
        """nothing left to do for the last completed evaluation"""
        g = st.ghost
        E.prove(st, z3.Or(g['%phase'] == 0, z3.And(g['%phase'] == self.INS, g['%births'] >= self.max), g['%phase'] == 9),
                "each completed individual is inserted, and offspring are made whenever the budget allows")

    def result(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(args[0].t == self.FUT(g['%done']), g['%phase'] == 1), "the result of the completed evaluation")
        r = self.IND(g['%done'])
        g['%cur'] = r
        g['%phase'] = z3.IntVal(2)
        g['%dec'] = z3.IntVal(0)
        g['%done'] = z3.simplify(g['%done'] + 1)
        st.assume(z3.And(r >= 0, r < st.alloc))
        k(st, VRef(r, PObj(IND)))

    INS = 5

    def base_calls(self, E):
        def probe(E, s, cx, args, kw, k):
            g = s.ghost
            E.prove(s, z3.And(args[0].t == g['%cur'], g['%phase'] == 2), "every evaluated individual is shown to the probe once, before insertion")
            g['%phase'] = z3.IntVal(3)
            k(s, NONE)

        def insert(E, s, cx, args, kw, k):
            g = s.ghost
            v = named(('a', 'b', 'c'), args, kw)
            E.prove(s, z3.And(v['a'].t == g['%cur'], v['c'].t == self.size, g['%phase'] == (3 if self.probes else 2)), "every evaluated individual is inserted once, with the capacity given")
            pop = v['b']
            E.prove(s, z3.Or(g['%done'] == 1, pop.t == g['%pop']), "always into the same population")
            E.prove(s, z3.Implies(g['%done'] == 1, E.lens(s, pop.t) == 0), "which starts empty")
            E.prove(s, g['%dec'] == self.dues(E, s), "a non-viable individual gives its birth back exactly when it should not count")
            g['%pop'] = pop.t
            g['%phase'] = z3.IntVal(4 if self.probes else self.INS)
            E.note_append(pop, INDK) if hasattr(E, 'note_append') else None
            k(s, NONE)

        def look(E, s, cx, args, kw, k):
            g = s.ghost
            E.prove(s, z3.And(args[0].t == g['%pop'], g['%phase'] == 4), "the population is shown to its probe after every insertion")
            g['%phase'] = z3.IntVal(self.INS)
            k(s, NONE)
        return probe, insert, look

    def dues(self, E, st):
        return z3.If(z3.And(z3.Not(viable(E, st, st.ghost['%cur'])), z3.Not(self.count)), z3.IntVal(1), z3.IntVal(0))

    # ---- budget
    def counter(self, E, st, cx, args, kw, k):
        v = named(('context', 'start', 'callbacks'), args, kw)
        c, s = v.get('context'), v.get('start', VInt(0))
        E.prove(st, z3.And(c.t == self.c.t, s.t == 0, st.ghost['%counters'] == 0) if isinstance(c, VRef) else FALSE, "one birth counter, from zero, in the given context")
        st.ghost['%counters'] = z3.IntVal(1)
        k(st, VRef(self.cnt, PObj('Births')))

    def births(self, E, st, cx, args, kw, k):
        k(st, VInt(st.ghost['%births']))

    def dec(self, E, st, cx, args, kw, k):
        g = st.ghost
        v = named(('self', 'amount'), args, kw)
        a = v.get('amount', VInt(1))
        g['%dec'] = z3.simplify(g['%dec'] + a.t)
        g['%births'] = z3.simplify(g['%births'] - a.t)
        E.prove(st, z3.And(g['%phase'] >= 2, g['%phase'] < 6), "births are given back for the individual at hand")
        k(st, VInt(g['%births']))

    def inc(self, E, st, cx, args, kw, k):
        g = st.ghost
        v = named(('self', 'amount'), args, kw)
        a = v.get('amount', VInt(1))
        E.prove(st, z3.And(g['%phase'] == 6, g['%put'] == g['%kids'], g['%got'] == g['%kids'], a.t == g['%kids']), "all new offspring are sent out and counted, once each")
        g['%phase'] = z3.IntVal(9)
        g['%births'] = z3.simplify(g['%births'] + a.t)
        k(st, VInt(g['%births']))

    # ---- offspring
    def fold(self, E, st, cx, args, kw, k):
        x, ops = args
        g = st.ghost
        E.prove(st, z3.And(ops.t == self.pipeline.t, unchanged_list(E, self.st0, st, self.pipeline)), "the operators given, in order")
        E.prove(st, z3.And(x.t == g['%pop'], g['%phase'] == self.INS) if isinstance(x, VRef) else FALSE, "offspring come from the current population, after insertion")
        E.prove(st, g['%births'] < self.max, "no offspring beyond the birth budget")
        g['%phase'] = z3.IntVal(6)
        n = self.NOFF(g['%done'])
        st.assume(n >= 0)
        if E.mode == 'bmc':
            st.assume(n <= 2)
        g['%kids'], g['%put'], g['%got'] = n, z3.IntVal(0), z3.IntVal(0)
        d = g['%done']
        r = E.mk_list(st, n, lambda j: VRef(self.KID(d, j), PObj(IND)), INDK)
        g['%off'] = r.t
        k(st, r)

    def submit(self, E, st, cx, args, kw, k):
        g = st.ghost
        v = named(('self', 'fn', 'item'), args, kw)
        E.prove(st, z3.And(v['fn'].t == self.fn, g['%phase'] == 6, g['%put'] == g['%got'], v['item'].t == self.KID(g['%done'], g['%put'])), "each offspring is sent out for evaluation, in order")
        E.prove(st, g['%put'] < g['%kids'], "no offspring is sent out twice")
        self.unpure(E, st, v)
        g['%put'] = z3.simplify(g['%put'] + 1)
        k(st, VRef(self.KFUT(g['%done'], g['%put']), PObj('Future')))

    def add(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(args[0].t == self.q, g['%put'] == g['%got'] + 1, args[1].t == self.KFUT(g['%done'], g['%put'])), "its result is awaited")
        g['%got'] = z3.simplify(g['%got'] + 1)
        g['%sub'] = z3.simplify(g['%sub'] + 1)
        k(st, NONE)

    def setup(self, E, st):
        self.max, self.size, self.n0 = fresh('max', IntS), fresh('size', IntS), fresh('n0', IntS)
        self.count = fresh('count', BoolS)
        self.c = new_input(E, st, PObj('dict:ctx'))
        self.pipeline = in_list(E, st, KRef(PObj('Op')))
        self.first = in_list(E, st, INDK)
        st.assume(E.lens(st, self.first.t) == self.n0)
        self.rep, self.prob, self.client = (new_input(E, st, PObj(c)) for c in ('Rep', 'Problem', 'Client'))
        self.fn, self.futs, self.q, self.cnt = (fresh(x, IntS) for x in ('task', 'futures', 'completed', 'births'))
        f1 = lambda nm: z3.Function(nm, IntS, IntS)
        self.FUT, self.IND, self.NOFF = f1('future'), f1('evaluated'), f1('noff')
        self.KID, self.KFUT = z3.Function('kid', IntS, IntS, IntS), z3.Function('kidfuture', IntS, IntS, IntS)
        for g, v in dict(phase=-3, sub=0, done=0, cur=-1, pop=-1, births=0, counters=0, kids=0, put=0, got=0, dec=0, off=-1).items():
            st.ghost['%' + g] = z3.IntVal(v)
        if E.mode == 'bmc':
            E.side.extend([self.n0 <= E.N, self.max <= E.N])
        probe, insert, look = self.base_calls(E)
        self.st0 = st.fork()
        kw = dict(inserter=VSpec(insert, 'inserter'), count_nonviable=VBool(self.count), context=self.c)
        if self.probes:
            kw.update(evaluated_probe=VSpec(probe, 'evaluated_probe'), pop_probe=VSpec(look, 'pop_probe'))
        return [self.client, VInt(self.max), VInt(self.n0), VInt(self.size), self.rep, self.prob, self.pipeline], kw

    def cands(self, E, L):
        g0 = L.entry.ghost
        yield "nothing half done", lambda s: z3.Or(s.ghost['%phase'] == 0, z3.And(s.ghost['%phase'] == self.INS, s.ghost['%births'] >= self.max), s.ghost['%phase'] == 9)
        yield "at work after the first", lambda s: z3.And(s.ghost['%done'] >= 0, (s.ghost['%phase'] == 0) == (s.ghost['%done'] == 0))
        yield "one counter", lambda s: s.ghost['%counters'] == 1
        yield "offspring so far", lambda s: z3.And(s.ghost['%put'] == L.k(s), s.ghost['%got'] == L.k(s))
        for g in ('%phase', '%births', '%done', '%pop', '%kids'):
            yield f"{g} as before", lambda s, g=g: s.ghost[g] == g0[g]
        for fid, nm, v in L.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList)):
            yield f"{nm} is the population", lambda s, fid=fid, nm=nm: z3.Or(s.ghost['%done'] == 0, s.frames[fid][nm].t == s.ghost['%pop'])
            yield f"{nm} starts empty", lambda s, fid=fid, nm=nm: z3.Implies(s.ghost['%done'] == 0, E.lens(s, s.frames[fid][nm].t) == 0)

    def post(self, E, st0, st, ret):
        g = st.ghost
        ok = isinstance(ret, VRef) and isinstance(ret.p, PList)
        return [("ends only when every evaluation asked for has completed", g['%done'] >= g['%sub']),
                ("everything completed has been dealt with", z3.Or(g['%phase'] == 0, z3.And(g['%phase'] == self.INS, g['%births'] >= self.max), g['%phase'] == 9)),
                ("the population is returned", z3.If(g['%done'] == 0, E.lens(st, ret.t) == 0, ret.t == g['%pop']) if ok else FALSE),
                ("the operators are left alone", unchanged_list(E, st0, st, self.pipeline))]


class SteadyProbes(Steady):
    probes = True



class SyncPop(Contract):
    """eval_population (synchronous): the results of evaluating the whole population, once each"""
    prop = 'C15'
    target = SYN + 'eval_population'
    schema = SCH
    gathers = True

    def __init__(self):
        self.specs = {('Client', 'map'): self.map, ('Client', 'gather'): self.gather, 'leap_ec.distrib.evaluate.evaluate': self.task, 'distributed.as_completed': self.gather}

    task, unpure = Steady.task, Steady.unpure

    def sent(self, E, st, lst):
        return z3.And(lst.t == self.pop.t, unchanged_list(E, self.st0, st, self.pop))

    def map(self, E, st, cx, args, kw, k):
        v = named(('self', 'fn', 'items'), args, kw)
        g = st.ghost
        E.prove(st, z3.And(v['fn'].t == self.fn, g['%phase'] == 0, self.sent(E, st, v['items'])), "the whole population is sent out, once")
        self.unpure(E, st, v)
        g['%phase'] = z3.IntVal(1)
        k(st, VRef(self.futs, PObj('Futures')))

    def gather(self, E, st, cx, args, kw, k):
        g = st.ghost
        fut = args[-1]
        E.prove(st, z3.And(fut.t == self.futs, g['%phase'] == 1), "results of exactly those evaluations are awaited")
        g['%phase'] = z3.IntVal(2)
        k(st, VRef(self.res, PList(INDK)) if self.gathers else VRef(self.res, PObj('Done')))

    def base(self, E, st):
        self.c = new_input(E, st, PObj('dict:ctx'))
        self.client = new_input(E, st, PObj('Client'))
        self.fn, self.futs, self.res = (fresh(x, IntS) for x in ('task', 'futures', 'results'))
        st.ghost['%phase'] = z3.IntVal(0)

    def setup(self, E, st):
        self.base(E, st)
        self.pop = in_list(E, st, INDK)
        self.st0 = st.fork()
        return [self.pop, self.client], dict(context=self.c)

    def post(self, E, st0, st, ret):
        return [("returns the results awaited", z3.And(ret.t == self.res, st.ghost['%phase'] == 2) if isinstance(ret, VRef) else FALSE),
                ("the population is left alone", unchanged_list(E, st0, st, self.pop))]


class AsyncPop(SyncPop):
    """eval_population (asynchronous)"""
    target = ASY + 'eval_population'
    gathers = False


class Pool(SyncPop):
    """eval_pool: exactly `size` individuals are taken from the stream, in order, and evaluated together"""
    target = SYN + 'eval_pool'
    may_raise = ('RuntimeError', 'StopIteration')

    def __init__(self):
        super().__init__()
        self.bmc_specs = dict(self.specs)

    def sent(self, E, st, lst):
        return z3.And(E.lens(st, lst.t) == self.size, pos(E, st, self.it) == self.size, E.forall(0, self.size, lambda j: elem(E, st, lst, j).t == nth(E, self.it, j).t))

    def setup(self, E, st):
        self.base(E, st)
        self.it = in_iter(E, st, INDK)
        self.size = fresh('size', IntS)
        st.assume(self.size >= 0)
        if E.mode == 'bmc':
            E.side.append(self.size <= E.N)
        self.st0 = st.fork()
        return [self.it, self.client, VInt(self.size)], dict(context=self.c)

    def cands(self, E, L):
        yield "one per step", lambda s: pos(E, s, self.it) == L.k(s)
        for nm, v in L.mod_lists():
            if v.p.k == INDK:
                yield f"{nm}: in order", lambda s, v=v: z3.And(E.lens(s, v.t) == L.k(s), E.forall(0, E.lens(s, v.t), lambda j: elem(E, s, v, j).t == nth(E, self.it, j).t))

    def post(self, E, st0, st, ret):
        return [("returns the results awaited", z3.And(ret.t == self.res, st.ghost['%phase'] == 2) if isinstance(ret, VRef) else FALSE),
                ("no individual beyond those is taken", pos(E, st, self.it) == self.size)]


class Worker(Contract):
    """evaluate, as run by a worker: evaluates the individual once, counts it when it turns out not viable, returns it"""
    prop = 'C15'
    target = EVA + 'evaluate'
    schema = {**SCH, ('Worker', 'logger'): KRef(PObj('Logger')), ('Worker', 'has.logger'): KBool, ('Worker', 'id'): KInt, (IND, 'start_eval_time'): KReal, (IND, 'stop_eval_time'): KReal,
              (IND, 'exception'): KRef(PObj('Exc')), (IND, 'hostname'): KInt, (IND, 'pid'): KInt}

    def __init__(self):
        nop = lambda E, st, cx, args, kw, k: k(st, NONE)
        num = lambda E, st, cx, args, kw, k: k(st, VInt(fresh('sys', IntS)))
        self.specs = {'distributed.get_worker': self.worker, 'platform.node': num, 'os.getpid': num, (IND, 'evaluate'): self.evaluate, 'time.time': self.clock,
                      ('Logger', 'debug'): nop, ('Logger', 'warning'): nop, ('Logger', 'info'): nop}

    def clock(self, E, st, cx, args, kw, k):
        t = fresh('now', RealS)
        st.assume(t >= st.ghost['%now'])
        st.ghost['%now'] = t
        k(st, VReal(t))

    def worker(self, E, st, cx, args, kw, k):
        k(st, self.w)

    def evaluate(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(args[0].t == self.x.t, g['%evals'] == 0), "the individual is evaluated once")
        g['%evals'] = z3.IntVal(1)
        g['%start'] = g['%now']
        g['%now'] = fresh('now', RealS)
        st.assume(g['%now'] >= g['%start'])
        g['%stop'] = g['%now']
        # it may mark the individual, or not
        for a in ('is_viable', 'has.is_viable'):
            E.hset(st, self.x.t, a, KBool, VBool(fresh(a, BoolS)))
        k(st, VReal(fresh('fit', RealS)))

    def setup(self, E, st):
        self.x = new_input(E, st, PObj(IND))
        self.w = new_input(E, st, PObj('Worker'))
        self.c = new_input(E, st, PObj('dict:ctx'))
        self.leap = get(E, st, self.c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, self.leap)
        self.d = get(E, st, self.leap.t, '[distrib]', KRef(PObj(DIST)))
        E.wf(st, self.d)
        E.hset(st, self.leap.t, 'has[distrib]', KBool, VBool(True))
        E.hset(st, self.d.t, 'has[non_viable]', KBool, VBool(True))
        self.n = get(E, st, self.d.t, '[non_viable]', KInt).t
        for g in ('%evals', '%start', '%stop'):
            st.ghost[g] = z3.IntVal(0) if g == '%evals' else z3.RealVal(0)
        st.ghost['%now'] = fresh('now', RealS)
        self.st0 = st.fork()
        return [self.x], dict(context=self.c)

    def post(self, E, st0, st, ret):
        g = st.ghost
        bad = z3.Not(viable(E, st, self.x.t))
        return [("returns the individual itself", ret.t == self.x.t if isinstance(ret, VRef) else FALSE),
                ("evaluated once", g['%evals'] == 1),
                ("non-viable individuals are counted once in the given context", get(E, st, self.d.t, '[non_viable]', KInt).t == self.n + z3.If(bad, z3.IntVal(1), z3.IntVal(0))),
                ("the times recorded enclose the evaluation", z3.And(get(E, st, self.x.t, 'start_eval_time', KReal).t <= g['%start'], get(E, st, self.x.t, 'stop_eval_time', KReal).t >= g['%stop']))]


CONTRACTS = [Viable(), ReplaceIf(), Tournament(), Greedy(), Steady(), SteadyProbes(), SyncPop(), AsyncPop(), Pool(), Worker()]
