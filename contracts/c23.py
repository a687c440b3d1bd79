"""C23: executables do what their genome says: Pitt rules, neural networks, wrappers."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

RU = 'leap_ec.executable_rep.rules'
EX = 'leap_ec.executable_rep.executable'

BOUNDED = ["leap_ec.executable_rep.rules:PittRulesDecoder (initializer, condition_bounds, action_bounds, genome_to_rules, mutator), PittRulesExecutable.__call__ and PlotPittRuleProbe, leap_ec.executable_rep.neural_network "
           "(matrix products and graphs): outside the verified subset; stand-in: random rule sets (conditions on a grid of eighths, wildcards, ties, up to 6 rules and 4 inputs) and random networks (up to 4 layers of 4) "
           "against an interpreter written from the documentation"]


class ArgMax(Contract):
    """ArgmaxExecutable.__call__: the first index of the highest output of the wrapped executable"""
    prop = 'C23'
    cls = EX + '.ArgmaxExecutable'
    target = EX + ':ArgmaxExecutable.__call__'
    schema = {(cls, 'wrapped_executable'): KRef(PObj('Exe'))}
    nd = False

    def __init__(self):
        self.specs = {('Exe', '__call__'): self.run}
        self.bmc_specs = self.specs

    def run(self, E, st, cx, args, kw, k):
        E.prove(st, args[1].t == self.x.t if len(args) == 2 and isinstance(args[1], VRef) else FALSE, "the wrapped executable sees the input")
        st.ghost['%calls'] = z3.simplify(st.ghost['%calls'] + 1)
        k(st, self.v)

    def setup(self, E, st):
        self.e = new_input(E, st, PObj(self.cls))
        w = get(E, st, self.e.t, 'wrapped_executable', KRef(PObj('Exe')))
        E.wf(st, w)
        self.x = new_input(E, st, PObj('Input'))
        self.v = in_list(E, st, KReal, 1, nd=self.nd)
        st.ghost['%calls'] = z3.IntVal(0)
        self.st0 = st.fork()
        return [self.e, self.x], {}

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VInt):
            return [("an index", FALSE)]
        n = E.lens(self.st0, self.v.t)
        at = lambda j: elem(E, self.st0, self.v, j).t
        return [("run once", st.ghost['%calls'] == 1), ("an output", z3.And(ret.t >= 0, ret.t < n)), ("none is higher", E.forall(0, n, lambda j: at(j) <= at(ret.t))),
                ("the first of the highest", E.forall(0, ret.t, lambda j: at(j) < at(ret.t)))]


class ArgMaxArray(ArgMax):
    """... of an array"""
    nd = True


class _Key(Contract):
    prop = 'C23'
    cls = EX + '.KeyboardExecutable'
    schema = {(cls, 'action'): KInt}

    def __init__(self):
        self.specs = {(self.cls, 'keymap'): lambda E, st, cx, args, kw, k: k(st, VInt(self.K(args[-1].t)))}
        self.bmc_specs = self.specs

    def setup(self, E, st):
        self.K = z3.Function('keymap', IntS, IntS)
        self.e = new_input(E, st, PObj(self.cls))
        self.key = fresh('key', IntS)
        self.a = get(E, st, self.e.t, 'action', KInt).t
        return [self.e, VInt(self.key), VInt(fresh('mod', IntS))], {}

    def post(self, E, st0, st, ret):
        return [("the action afterwards", get(E, st, self.e.t, 'action', KInt).t == self.want())]


class Press(_Key):
    """KeyboardExecutable.key_press: the action of the key pressed"""
    target = EX + ':KeyboardExecutable.key_press'

    def want(self):
        return self.K(self.key)


class Release(_Key):
    """KeyboardExecutable.key_release: releasing the key held ends its action, any other changes nothing"""
    target = EX + ':KeyboardExecutable.key_release'

    def want(self):
        return z3.If(self.K(self.key) == self.a, z3.IntVal(0), self.a)


PITT = 'leap_ec.executable_rep.rules.PittRulesDecoder'
SPACE = KRef(PObj('Space'))


class _Pitt(Contract):
    """a rule is two genes per input, then one per output (rule sets without memory); the dimensions of a space are those the space declares"""
    prop = 'C23'
    schema = {(PITT, 'input_space'): SPACE, (PITT, 'output_space'): SPACE, (PITT, 'memory_space'): KMaybe(SPACE)}

    def __init__(self):
        self.specs = {('leap_ec.executable_rep.problems.EnvironmentProblem', 'space_dimensions'): self.dims, 'leap_ec.executable_rep.problems.EnvironmentProblem.space_dimensions': self.dims}
        self.bmc_specs = self.specs

    def dims(self, E, st, cx, args, kw, k):
        k(st, VInt(self.D(args[-1].t)))

    def decoder(self, E, st):
        self.D = z3.Function('dimensions', IntS, IntS)
        self.d = new_input(E, st, PObj(PITT))
        self.ni, self.no = [self.D(get(E, st, self.d.t, a, SPACE).t) for a in ('input_space', 'output_space')]
        st.assume(z3.And(self.ni >= 0, self.no >= 1, KMaybe(SPACE).pack(get(E, st, self.d.t, 'memory_space', KMaybe(SPACE)))[0]))
        return self.d


class PerRule(_Pitt):
    """num_genes_per_rule: two per input, one per output"""
    target = 'leap_ec.executable_rep.rules:PittRulesDecoder.num_genes_per_rule'

    def setup(self, E, st):
        return [self.decoder(E, st)], {}

    def post(self, E, st0, st, ret):
        return [("two genes per input and one per output", ret.t == 2 * self.ni + self.no if isinstance(ret, VInt) else FALSE)]


class Split(_Pitt):
    """_split_rule: the conditions are the genes before the actions, and every gene is one or the other"""
    target = 'leap_ec.executable_rep.rules:PittRulesDecoder._split_rule'

    def setup(self, E, st):
        d = self.decoder(E, st)
        self.g = in_list(E, st, KReal, nd=True)
        return [d, self.g], {}

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VTuple) and len(ret.items) == 3 and all(isinstance(v, VRef) and isinstance(v.p, PList) for v in ret.items)):
            return [("conditions, actions and memory", FALSE)]
        c, a, m = ret.items
        g = lambda j: elem(E, st0, self.g, j).t
        return [("two conditions per input", E.lens(st, c.t) == 2 * self.ni), ("one action per output", E.lens(st, a.t) == self.no), ("no memory", E.lens(st, m.t) == 0),
                ("the conditions come first", E.forall(0, 2 * self.ni, lambda j: elem(E, st, c, j).t == g(j))),
                ("the actions follow", E.forall(0, self.no, lambda j: elem(E, st, a, j).t == g(2 * self.ni + j))),
                ("the genome is left alone", unchanged_list(E, st0, st, self.g))]

    def on_exc(self, E, st0, st, exc):
        return [("refused only if its length is wrong", E.lens(st0, self.g.t) != 2 * self.ni + self.no if exc.name == 'AssertionError' else FALSE)]


class Bounds(_Pitt):
    """bounds: for each rule, those of the conditions and then those of the actions"""
    target = 'leap_ec.executable_rep.rules:PittRulesDecoder.bounds'
    BK = KTuple([KReal, KReal])

    schema = {**_Pitt.schema, (PITT, 'condition_bounds'): KRef(PList(BK)), (PITT, 'action_bounds'): KRef(PList(BK))}      # properties without effects (their values: executed)

    def setup(self, E, st):
        d = self.decoder(E, st)
        self.c, self.a = [get(E, st, d.t, a, KRef(PList(self.BK))) for a in ('condition_bounds', 'action_bounds')]
        for v in (self.c, self.a):
            E.wf(st, v)
            if E.mode == 'bmc':
                E.side.append(E.lens(st, v.t) <= E.N)
        self.n = fresh('rules', IntS)
        st.assume(self.n >= 0)
        if E.mode == 'bmc':
            E.side.append(self.n <= E.N)
        return [d, VInt(self.n)], {}

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList) and isinstance(ret.p.k, KRef) and isinstance(ret.p.k.p, PList)):
            return [("a list of lists", FALSE)]
        nc, na = E.lens(st0, self.c.t), E.lens(st0, self.a.t)
        seg = lambda i: elem(E, st, ret, i)
        same = lambda u, v: z3.And(*[x.t == y.t for x, y in zip(u.items, v.items)])
        return [("one per rule", E.lens(st, ret.t) == self.n),
                ("one pair per gene", E.forall(0, self.n, lambda i: E.lens(st, seg(i).t) == nc + na)),
                ("the conditions' bounds first", E.forall(0, self.n, lambda i: E.forall(0, nc, lambda j: same(elem(E, st, seg(i), j), elem(E, st0, self.c, j))))),
                ("then the actions'", E.forall(0, self.n, lambda i: E.forall(0, na, lambda j: same(elem(E, st, seg(i), nc + j), elem(E, st0, self.a, j)))))]


CONTRACTS = [ArgMax(), ArgMaxArray(), Press(), Release(), PerRule(), Split(), Bounds()]
