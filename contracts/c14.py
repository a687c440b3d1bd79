"""C14: cooperative evaluation: a partial solution's fitness is the mean over its trials, each with one collaborator per other subpopulation."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

LEAP = 'dict:leap'
INDK = KRef(PObj(IND))
FIT = KMaybe(KReal)
POP = PList(INDK)
GEN = KRef(PObj('Genome'))
OPC = 'leap_ec.ops.CooperativeEvaluate'
PRC = 'leap_ec.problem.CooperativeProblem'
BASE = {('dict:ctx', '[leap]'): KRef(PObj(LEAP)), (LEAP, '[current_subpopulation]'): KInt, (LEAP, '[generation]'): KInt, (LEAP, '[subpopulations]'): KRef(PList(KRef(POP))),
        (LEAP, 'has[generation]'): KBool, (LEAP, 'has[current_subpopulation]'): KBool, (LEAP, 'has[subpopulations]'): KBool, (IND, 'fitness'): FIT, (IND, 'genome'): GEN}


def sch(cls, **kw):
    return {**BASE, (cls, 'context'): KRef(PObj('dict:ctx')), (cls, 'num_trials'): KInt, (cls, 'collaborator_selector'): KRef(PObj('Sel')),
            (cls, 'log_writer'): KMaybe(KRef(PObj('Writer'))), **{(cls, a): k for a, k in kw.items()}}


class _Coop(Contract):
    prop = 'C14'
    cls = ''
    log = False
    budget = 300
    bmc_budget = 90

    def __init__(self):
        self.bmc_specs = {('Sel', '__call__'): self.select, ('Comb', '__call__'): self.combine, (IND, 'evaluate'): self.evaluate, ('Writer', 'writerow'): self.row, IND: self.ctor}
        self.specs = {**self.bmc_specs, (self.cls, '_choose_collaborators'): self.chosen, (self.cls, '_log_trial'): self.logged}

    def sort(self, args):
        """the arguments of _choose_collaborators, by what they are"""
        d = {}
        for a in args:
            if isinstance(a, VInt):
                d['cur'] = a
            elif isinstance(a, VRef) and isinstance(a.p, PList) and a.p.k == KRef(POP):
                d['subs'] = a
            elif isinstance(a, VRef) and isinstance(a.p, PList) and isinstance(a.p.k, KRef) and isinstance(a.p.k.p, PIter):
                d['sels'] = a
            elif isinstance(a, VRef) and isinstance(a.p, PObj) and a.p.cls in (IND, 'Genome'):
                d['me'] = a
        if not {'cur', 'subs', 'me'} <= set(d):
            raise Unsupported("arguments of _choose_collaborators")
        return d

    def chosen(self, E, st, cx, args, kw, k):
        """contract of _choose_collaborators (proved by Choose*)"""
        d = self.sort(list(args) + list(kw.values()))
        n = E.lens(self.st0, self.subs.t)
        E.prove(st, z3.And(d['subs'].t == self.subs.t, d['cur'].t == self.cur), "collaborators come from the subpopulations in the context")
        if 'sels' in d:
            E.prove(st, z3.And(E.lens(st, d['sels'].t) == n, E.forall(0, n, lambda j: self.OF(elem(E, st, d['sels'], j).t) == self.sub(E, j))), "one selector per subpopulation, in order")
        self.note(E, st)
        kk = KRef(d['me'].p)
        c = fresh('team', z3.ArraySort(IntS, IntS))
        E.prove(st, d['me'].t == self.me(), "the evaluated individual itself is passed on")
        st.assume(E.forall(0, n, lambda j: self.right(E, j, z3.Select(c, j))))
        k(st, E.mk_list(st, n, lambda j: VRef(z3.Select(c, j), d['me'].p), kk))

    def logged(self, E, st, cx, args, kw, k):
        """contract of _log_trial (proved by Log*): a row per contribution and one for the combination, nothing else changes"""
        lst = [a for a in list(args) + list(kw.values()) if isinstance(a, VRef) and isinstance(a.p, PList)]
        comb = [a for a in list(args) + list(kw.values()) if isinstance(a, VRef) and isinstance(a.p, PObj) and a.p.cls == IND]
        if len(lst) != 1 or len(comb) != 1:
            raise Unsupported("arguments of _log_trial")
        E.prove(st, comb[0].t == st.ghost['%comb'], "the combination logged is the one evaluated")
        st.ghost['%rows'] = st.ghost['%rows'] + E.lens(st, lst[0].t) + 1
        k(st, NONE)

    def note(self, E, st):
        pass

    def ctor(self, E, st, cx, args, kw, k):
        raise Unsupported("new individual")

    def select(self, E, st, cx, args, kw, k):
        pop = args[1]
        it = E.new_ref(st)
        st.assume(z3.And(self.OF(it) == pop.t, z3.Function('itlen', IntS, IntS)(it) < 0))
        E.hset(st, it, '%pos', KInt, VInt(0))
        if E.mode == 'bmc':
            for b in range(E.N + 3):
                x = E.stream(INDK, it, z3.IntVal(b)).t
                st.assume(z3.And(self.MEM(x, pop.t), x >= 0, x < self.top, self.MEMG(get(E, self.st0, x, 'genome', GEN).t, pop.t)))
        k(st, VRef(it, PIter(INDK)))

    def members(self, E, st):
        """whatever a selector over a subpopulation delivers is a member of it"""
        if E.mode == 'bmc':
            return
        a, b = z3.Ints('a!m b!m')
        x = E.stream(INDK, a, b).t
        st.assume(z3.ForAll([a, b], z3.And(self.MEM(x, self.OF(a)), x >= 0, x < self.top), patterns=[x]))

    def evaluate(self, E, st, cx, args, kw, k):
        g = st.ghost
        E.prove(st, z3.And(args[0].t == g['%comb'], g['%fresh'] == 1), "what is evaluated is the new combined solution")
        g['%fresh'] = z3.IntVal(0)
        f = self.TF(self.who(E, st), g['%t'])
        g['%t'] = z3.simplify(g['%t'] + 1)
        E.hset(st, args[0].t, 'fitness', FIT, VReal(f))
        k(st, VReal(f))

    def row(self, E, st, cx, args, kw, k):
        st.ghost['%rows'] = st.ghost['%rows'] + 1
        k(st, VInt(fresh('w', IntS)))

    def team(self, E, st, lst, right):
        """one contribution per subpopulation, each in its place"""
        n = E.lens(self.st0, self.subs.t)
        ok = isinstance(lst, VRef) and isinstance(lst.p, PList)
        E.prove(st, E.lens(st, lst.t) == n if ok else FALSE, "one contribution per subpopulation")
        E.prove(st, E.forall(0, n, lambda j: right(j, elem(E, st, lst, j).t)), "each subpopulation contributes in its own place; the evaluated individual contributes itself")
        E.prove(st, st.ghost['%t'] < self.trials, "no more trials than asked for")

    def sub(self, E, j):
        return elem(E, self.st0, self.subs, j).t

    def base(self, E, st):
        self.OF = z3.Function('of', IntS, IntS)
        self.MEM = z3.Function('member', IntS, IntS, BoolS)
        self.MEMG = z3.Function('memberg', IntS, IntS, BoolS)
        self.TF = z3.Function('trial', IntS, IntS, RealS)
        self.G = z3.Function('total', IntS, IntS, RealS)
        self.x = new_input(E, st, PObj(self.cls))
        self.c = get(E, st, self.x.t, 'context', KRef(PObj('dict:ctx')))
        E.wf(st, self.c)
        self.leap = get(E, st, self.c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, self.leap)
        for h in ('generation', 'current_subpopulation', 'subpopulations'):
            E.hset(st, self.leap.t, f'has[{h}]', KBool, VBool(True))
        self.subs = get(E, st, self.leap.t, '[subpopulations]', KRef(PList(KRef(POP))))
        E.wf(st, self.subs)
        n = E.lens(st, self.subs.t)
        self.cur = get(E, st, self.leap.t, '[current_subpopulation]', KInt).t
        self.trials = get(E, st, self.x.t, 'num_trials', KInt).t
        s0 = st.fork()
        st.assume(z3.And(n >= 1, self.cur >= 0, self.cur < n, self.trials >= 1))
        st.assume(E.forall(0, n, lambda j: z3.And(elem(E, s0, self.subs, j).t >= 0, elem(E, s0, self.subs, j).t < s0.alloc), pats=[lambda j: elem(E, s0, self.subs, j).t]))
        w = get(E, st, self.x.t, 'log_writer', KMaybe(KRef(PObj('Writer'))))
        E.hset(st, self.x.t, 'log_writer', KMaybe(KRef(PObj('Writer'))), VRef(KMaybe(KRef(PObj('Writer'))).pack(w)[1], PObj('Writer')) if self.log else NONE)
        self.top = st.alloc
        if E.mode == 'bmc':
            E.side.extend([self.trials <= E.N, n <= E.N])
            for i in range(E.N + 3):
                st.assume(self.G(i, 0) == 0)
                for t in range(E.N + 2):
                    st.assume(self.G(i, t + 1) == self.G(i, t) + self.TF(i, t))
        else:
            i, t = z3.Ints('i!g t!g')
            st.assume(z3.ForAll([i], self.G(i, 0) == 0, patterns=[self.G(i, 0)]))
            st.assume(z3.ForAll([i], z3.Implies(self.OF(i) >= 0, z3.Function('itlen', IntS, IntS)(i) < 0), patterns=[self.OF(i)]))
            st.assume(z3.ForAll([i, t], z3.Implies(t >= 0, self.G(i, t + 1) == self.G(i, t) + self.TF(i, t)), patterns=[z3.MultiPattern(self.TF(i, t))]))
        for g in ('%t', '%fresh', '%rows'):
            st.ghost[g] = z3.IntVal(0)
        st.ghost['%comb'] = z3.IntVal(-1)
        self.members(E, st)

    def mean_ok(self, E, st, got, i):
        """got is the mean of the trials; a prefix sum the code took equals the total, by induction on the number of trials"""
        if E.mode == 'proof':
            for S in E.psums[-1:]:
                t = fresh('t', IntS)
                s = st.fork()
                s.assume(z3.And(t >= 0, t < self.trials, S(t) == self.G(i, t)))
                s.assume(self.G(i, t + 1) == self.G(i, t) + self.TF(i, t))
                E.prove(s, S(t + 1) == self.G(i, t + 1), "the sum of the trial fitnesses, by induction", keep=False)
                st.assume(S(self.trials) == self.G(i, self.trials))
        return got * z3.ToReal(self.trials) == self.G(i, self.trials)

    def loops(self, E, L):
        i = self.who(E, L.entry)
        yield "trials so far", lambda s: s.ghost['%t'] == L.k(s)
        yield "nothing half done", lambda s: s.ghost['%fresh'] == 0
        yield "trials within the number asked for", lambda s: s.ghost['%t'] <= self.trials
        t0 = L.entry.ghost['%t']
        yield "no trial here", lambda s: s.ghost['%t'] == t0
        for nm, v in L.mod_lists():
            if z3.is_int_value(t0):
                yield f"{nm}: one per trial", lambda s, v=v: E.lens(s, v.t) == s.ghost['%t']
            if v.p.k == KReal:
                yield f"{nm}: trial fitnesses", lambda s, v=v: E.forall(0, E.lens(s, v.t), lambda j: elem(E, s, v, j).t == self.TF(i, j))
            if v.p.k in (INDK, GEN):
                yield f"{nm}: team so far", lambda s, v=v: E.forall(0, E.lens(s, v.t), lambda j: self.right(E, j, elem(E, s, v, j).t))
            yield f"{nm}: one per step", lambda s, v=v: E.lens(s, v.t) == L.k(s)
        for nm, v in L.lists():
            if v.p.k is not None and isinstance(v.p.k, KRef) and isinstance(v.p.k.p, PIter):
                yield f"{nm}: selectors still in order", lambda s, v=v: E.forall(0, E.lens(s, v.t), lambda j: self.OF(elem(E, s, v, j).t) == self.sub(E, j))
        for f, nm, v in L.reals():
            if not isinstance(v, VReal):
                continue
            yield f"{nm}: total so far", lambda s, f=f: f(s) == self.G(i, s.ghost['%t'])
        if self.log:
            n = E.lens(self.st0, self.subs.t)
            r0 = L.entry.ghost['%rows']
            yield "rows logged per trial", lambda s: s.ghost['%rows'] == r0 + L.k(s) * (n + 1)
            yield "rows logged per collaborator", lambda s: s.ghost['%rows'] == r0 + L.k(s)


class Operator_(_Coop):
    """CooperativeEvaluate: every incoming individual in order, its fitness the mean of its trials"""
    target = 'leap_ec.ops:CooperativeEvaluate.__call__'
    cls = OPC
    schema = sch(OPC, combine=KRef(PObj('Comb')))
    may_raise = ('RuntimeError',)

    def who(self, E, st):
        return z3.simplify(st.ghost['%y'])

    def me(self):
        return self.now

    def note(self, E, st):
        self.now = nth(E, self.it, self.who(E, st)).t

    def right(self, E, j, x, i=None):
        return z3.If(j == self.cur, x == self.now, self.MEM(x, self.sub(E, j)))

    def combine(self, E, st, cx, args, kw, k):
        i = self.who(E, st)
        self.now = nth(E, self.it, i).t
        self.team(E, st, args[1], lambda j, x: self.right(E, j, x))
        E.prove(st, st.ghost['%fresh'] == 0, "one evaluation per combination")
        r = VRef(E.new_ref(st), PObj(IND))
        st.ghost['%comb'], st.ghost['%fresh'] = r.t, z3.IntVal(1)
        k(st, r)

    def setup(self, E, st):
        self.base(E, st)
        self.it = in_iter(E, st, INDK)
        st.assume(self.OF(self.it.t) == -1)
        self.now = z3.IntVal(-1)
        self.st0 = st.fork()
        self.slot = z3.Function('slot', IntS, IntS)
        el = lambda j: nth(E, self.it, j).t
        if E.mode == 'bmc':
            for i in range(E.N + 4):
                st.assume(self.slot(el(z3.IntVal(i))) == i)
        else:
            j = z3.Int('j!s')
            st.assume(z3.ForAll([j], z3.Implies(j >= 0, self.slot(el(j)) == j), patterns=[el(j)]))
        return [self.x, self.it], {}

    def cands(self, E, L):
        self.now = nth(E, self.it, self.who(E, L.entry)).t
        yield from self.loops(E, L)
        same = lambda s, s0, r: z3.And(*[a == b for a, b in zip(FIT.pack(get(E, s, r, 'fitness', FIT)), FIT.pack(get(E, s0, r, 'fitness', FIT)))])
        yield "others keep their fitness", lambda s: E.forall_ref(0, self.st0.alloc, lambda r: z3.Or(same(s, self.st0, r), z3.And(self.slot(r) >= 0, self.slot(r) < s.ghost['%y'], nth(E, self.it, self.slot(r)).t == r)), pats=[self.slot])

    def between(self, E, st0, st):
        st.ghost['%t'] = z3.IntVal(0)

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields individuals", FALSE)]
        r = nth(E, self.it, i).t
        f = FIT.pack(get(E, st, r, 'fitness', FIT))
        out = [("yields the next incoming individual itself", v.t == r),
               ("as many trials as asked for", st.ghost['%t'] == self.trials),
               ("its fitness is the mean of the trials", z3.And(z3.Not(f[0]), self.mean_ok(E, st, f[1], i)))]
        if self.log:
            n = E.lens(self.st0, self.subs.t)
            if E.mode == 'bmc':
                out.append(("every contribution and combination is logged", st.ghost['%rows'] == (i + 1) * self.trials * (n + 1)))
        return out


class OperatorLog(Operator_):
    log = True


class Problem_(_Coop):
    """CooperativeProblem: the fitness of an individual is the mean of its trials"""
    target = 'leap_ec.problem:CooperativeProblem.evaluate'
    cls = PRC
    schema = sch(PRC, combine_genomes=KRef(PObj('Comb')), combined_decoder=KRef(PObj('Decoder')), wrapped_problem=KRef(PObj('Problem')))

    def who(self, E, st):
        return z3.IntVal(0)

    def me(self):
        return self.mine

    def right(self, E, j, x):
        return z3.If(j == self.cur, x == self.mine, self.MEMG(x, self.sub(E, j)))

    def combine(self, E, st, cx, args, kw, k):
        self.team(E, st, args[1], lambda j, x: self.right(E, j, x))
        E.prove(st, st.ghost['%fresh'] == 0, "one evaluation per combination")
        r = VRef(E.new_ref(st), PObj('Genome'))
        st.ghost['%cg'], st.ghost['%fresh'] = r.t, z3.IntVal(2)
        k(st, r)

    def ctor(self, E, st, cx, args, kw, k):
        v = dict(zip(('genome', 'decoder', 'problem'), args))
        v.update(kw)
        g = st.ghost
        E.prove(st, z3.And(v['genome'].t == g['%cg'], g['%fresh'] == 2), "the combined solution has the combined genome")
        E.prove(st, z3.And(v['decoder'].t == get(E, self.st0, self.x.t, 'combined_decoder', KRef(PObj('Decoder'))).t,
                           v['problem'].t == get(E, self.st0, self.x.t, 'wrapped_problem', KRef(PObj('Problem'))).t), "it is judged by the wrapped problem")
        r = VRef(E.new_ref(st), PObj(IND))
        E.hset(st, r.t, 'genome', GEN, v['genome'])
        g['%comb'], g['%fresh'] = r.t, z3.IntVal(1)
        k(st, r)

    def setup(self, E, st):
        self.base(E, st)
        self.ind = new_input(E, st, PObj(IND))
        self.mine = get(E, st, self.ind.t, 'genome', GEN).t
        st.ghost['%cg'] = z3.IntVal(-1)
        s0 = self.st0 = st.fork()
        # genomes of members are genomes of members
        g = lambda x: get(E, s0, x, 'genome', GEN).t
        if E.mode != 'bmc':
            a, b = z3.Ints('a!m b!m')
            x = E.stream(INDK, a, b).t
            st.assume(z3.ForAll([a, b], self.MEMG(g(x), self.OF(a)), patterns=[x]))
        return [self.x, VOpq(fresh('phenome', U))], dict(individual=self.ind)

    def cands(self, E, L):
        yield from self.loops(E, L)
        yield "genomes unchanged", lambda s: E.forall_ref(0, self.top, lambda r: get(E, s, r, 'genome', GEN).t == get(E, self.st0, r, 'genome', GEN).t)

    def post(self, E, st0, st, ret):
        if not isinstance(ret, (VReal, VInt)):
            return [("returns a fitness", FALSE)]
        out = [("as many trials as asked for", st.ghost['%t'] == self.trials), ("the mean of the trials", self.mean_ok(E, st, E.asreal(ret).t, z3.IntVal(0)))]
        if self.log:
            n = E.lens(self.st0, self.subs.t)
            if E.mode == 'bmc':
                out.append(("every contribution and combination is logged", st.ghost['%rows'] == self.trials * (n + 1)))
        return out


class ProblemLog(Problem_):
    log = True


class ChooseO(Operator_):
    """_choose_collaborators: one individual per subpopulation, each in its place"""
    target = 'leap_ec.ops:CooperativeEvaluate._choose_collaborators'
    may_raise = ()

    def __init__(self):
        super().__init__()
        self.specs = self.bmc_specs

    def sels(self, E, st):
        l = in_list(E, st, KRef(PIter(INDK)))
        n = E.lens(st, self.subs.t)
        s0 = st.fork()
        st.assume(E.lens(st, l.t) == n)
        x = lambda j: elem(E, s0, l, j).t
        st.assume(E.forall(0, n, lambda j: z3.And(self.OF(x(j)) == elem(E, s0, self.subs, j).t, x(j) >= 0, x(j) < s0.alloc, E.hget(s0, x(j), '%pos', KInt).t >= 0), pats=[x]))
        if E.mode == 'bmc':
            for j in range(E.N):
                jj = z3.IntVal(j)
                st.assume(z3.Function('itlen', IntS, IntS)(x(jj)) < 0)
                E.side.append(E.hget(s0, x(jj), '%pos', KInt).t <= 1)
                for b in range(E.N + 4):
                    y = E.stream(INDK, x(jj), z3.IntVal(b)).t
                    st.assume(z3.And(self.MEM(y, self.OF(x(jj))), y >= 0, y < self.top))
        return l

    def setup(self, E, st):
        super().setup(E, st)
        me = new_input(E, st, PObj(IND))
        self.now = me.t
        sels = self.sels(E, st)
        self.st0 = st.fork()
        return self.order(E, dict(cur=VInt(self.cur), subs=self.subs, me=me, sels=sels))

    def order(self, E, v):
        names = {'current_ind': 'me', 'current_genome': 'me', 'subpopulations': 'subs', 'current_subpop': 'cur', 'current_subpop_index': 'cur', 'selectors': 'sels', 'selection_iterators': 'sels', 'self': 'self'}
        f = self.callee(E, None, E.src)
        out = []
        for a in f.node.args.posonlyargs + f.node.args.args:
            if names.get(a.arg) not in v:
                raise Unsupported(f"parameter {a.arg} of _choose_collaborators")
            out.append(v[names[a.arg]])
        return out, {}

    def cands(self, E, L):
        for nm, v in L.mod_lists():
            if v.p.k in (INDK, GEN):
                yield f"{nm}: team so far", lambda s, v=v: E.forall(0, E.lens(s, v.t), lambda j: self.right(E, j, elem(E, s, v, j).t))
            yield f"{nm}: one per step", lambda s, v=v: E.lens(s, v.t) == L.k(s)
        for nm, v in L.lists():
            if v.p.k is not None and isinstance(v.p.k, KRef) and isinstance(v.p.k.p, PIter):
                yield f"{nm}: selectors in order", lambda s, v=v: E.forall(0, E.lens(s, v.t), lambda j: self.OF(elem(E, s, v, j).t) == self.sub(E, j))

    def post(self, E, st0, st, ret):
        n = E.lens(st0, self.subs.t)
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        return [("one contribution per subpopulation", E.lens(st, ret.t) == n),
                ("each subpopulation contributes in its own place; the evaluated individual contributes itself", E.forall(0, n, lambda j: self.right(E, j, elem(E, st, ret, j).t)))]


class ChooseP(Problem_):
    """_choose_collaborators: one genome per subpopulation, each in its place"""
    target = 'leap_ec.problem:CooperativeProblem._choose_collaborators'

    def __init__(self):
        super().__init__()
        self.specs = self.bmc_specs

    def setup(self, E, st):
        super().setup(E, st)
        me = VRef(self.mine, PObj('Genome'))
        E.wf(st, me)
        self.st0 = st.fork()
        return self.order(E, dict(cur=VInt(self.cur), subs=self.subs, me=me, self=self.x))

    order, cands, post = ChooseO.order, ChooseO.cands, ChooseO.post


class LogO(Operator_):
    """_log_trial: one row per contribution, one for the combination; nothing else changes"""
    target = 'leap_ec.ops:CooperativeEvaluate._log_trial'
    may_raise = ()
    kind = INDK

    def __init__(self):
        super().__init__()
        self.specs = self.bmc_specs

    def setup(self, E, st):
        super().setup(E, st)
        self.l = in_list(E, st, self.kind)
        comb = new_input(E, st, PObj(IND))
        w = new_input(E, st, PObj('Writer'))
        self.st0 = st.fork()
        return [w, self.l, comb, VInt(fresh('trial', IntS))], dict(context=self.c)

    def cands(self, E, L):
        r0 = L.entry.ghost['%rows']
        yield "one row per collaborator", lambda s: s.ghost['%rows'] == r0 + L.k(s)

    def post(self, E, st0, st, ret):
        return [("one row per contribution and one for the combination", st.ghost['%rows'] == E.lens(self.st0, self.l.t) + 1),
                ("the contributions are left alone", unchanged_list(E, self.st0, st, self.l))] + [
                (f"no {a} changes", E.forall_ref(0, self.st0.alloc, lambda r, a=a, q=q: z3.And(*[x == y for x, y in zip(q.pack(get(E, st, r, a, q)), q.pack(get(E, self.st0, r, a, q)))])))
                for a, q in (('fitness', FIT), ('genome', GEN))]


class LogP(LogO):
    target = 'leap_ec.problem:CooperativeProblem._log_trial'
    kind = GEN


class Combine(Contract):
    """concat_combine: a new individual with the genes of all, in order; the collaborators are left alone"""
    prop = 'C14'
    target = 'leap_ec.ops:concat_combine'
    GK = KRef(PList(KReal, True))
    schema = {(IND, 'genome'): GK}

    def __init__(self):
        self.specs = {(IND, 'clone'): self.clone}

    def clone(self, E, st, cx, args, kw, k):
        r = VRef(E.new_ref(st), PObj(IND))
        g = get(E, st, args[0].t, 'genome', self.GK)
        E.hset(st, r.t, 'genome', self.GK, E.mk_list(st, E.lens(st, g.t), lambda j: elem(E, st, g, j), KReal, nd=True))
        st.ghost['%cloneof'] = args[0].t
        k(st, r)

    def setup(self, E, st):
        self.inds = [new_input(E, st, PObj(IND)) for _ in range(self.m)]
        for a in self.inds:
            g = get(E, st, a.t, 'genome', self.GK)
            E.wf(st, g)
            if E.mode == 'bmc':
                E.side.append(E.lens(st, g.t) <= E.N)
        lst = E.new_list(st, self.inds)
        self.lst = lst
        return [lst], {}
    m = 3

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef):
            return [("an individual", FALSE)]
        r = get(E, st, ret.t, 'genome', self.GK)
        gs = [get(E, st0, a.t, 'genome', self.GK) for a in self.inds]
        ns = [E.lens(st0, g.t) for g in gs]
        out = [("a new individual with the first one's problem and decoder", z3.And(isfresh(st0, ret.t), st.ghost.get('%cloneof', z3.IntVal(-1)) == self.inds[0].t)),
               ("as long as all together", E.lens(st, r.t) == z3.Sum(*ns))]
        off = z3.IntVal(0)
        for i, g in enumerate(gs):
            out.append((f"genes of collaborator {i} in their place", E.forall(0, ns[i], lambda j: elem(E, st, r, off + j).t == elem(E, st0, g, j).t)))
            out.append((f"collaborator {i} left alone", z3.And(get(E, st, self.inds[i].t, 'genome', self.GK).t == g.t, unchanged_list(E, st0, st, g))))
            off = off + ns[i]
        return out


class CombineP(Combine):
    target = 'leap_ec.problem:concat_combine'


CONTRACTS = [ChooseO(), ChooseP(), Operator_(), OperatorLog(), Problem_(), ProblemLog(), LogO(), LogP(), Combine(), CombineP()]
