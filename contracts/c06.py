"""C06: pipeline plumbing: pool takes exactly what it needs; mis-wired operators are refused."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

INDK = KRef(PObj(IND))


class Pool(Contract):
    """pool(size) takes exactly `size` individuals from upstream, in order, as a new list"""
    prop = 'C06'
    target = 'leap_ec.ops:pool'

    def setup(self, E, st):
        self.it = in_iter(E, st, INDK)
        self.size = fresh('size', IntS)
        if E.mode == 'bmc':
            E.side.append(self.size <= E.N + 1)
        return [self.it], dict(size=VInt(self.size))

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList):
            return [("returns a list", FALSE)]
        want = z3.If(self.size > 0, self.size, z3.IntVal(0))
        n = E.lens(st, ret.t)
        out = [("exactly the requested number", n == want), ("upstream is advanced by exactly that number", pos(E, st, self.it) == want), ("a new list", isfresh(st0, ret.t))]
        if ret.p.k is not None:
            out.append(("the next individuals from upstream, in order", E.forall(0, n, lambda j: elem(E, st, ret, j).t == nth(E, self.it, j).t)))
        return out

    def on_exc(self, E, st0, st, exc):
        ln = z3.Function('itlen', IntS, IntS)(self.it.t)
        if exc.name in ('StopIteration', 'RuntimeError'):
            return [("fails only if upstream runs dry", z3.And(ln >= 0, ln < self.size))]
        return super().on_exc(E, st0, st, exc)


class Deco(Contract):
    """an operator decorator passes well-typed calls through unchanged and refuses everything else with ValueError"""
    prop = 'C06'
    gives, takes = 'iter', 'iter'       # what the operator must return / receive
    arg, res = 'iter', 'iter'           # what it actually receives / returns

    def mk(self, E, st, what):
        if what == 'iter':
            return in_iter(E, st, INDK)
        if what == 'list':
            return in_list(E, st, INDK)
        if what == 'none':
            return NONE
        if what == 'tuple':
            return VTuple([])
        if what == 'curry':
            return VPartial(VSpec(lambda *a: None, 'op'), [], {})
        if what == 'int':
            return VInt(fresh('i', IntS))

    def setup(self, E, st):
        self.a, self.r, self.x, self.y = self.mk(E, st, self.arg), self.mk(E, st, self.res), VInt(fresh('x', IntS)), VInt(fresh('y', IntS))
        self.calls = []
        self.E = E
        st.ghost['%calls'] = z3.IntVal(0)

        def f(E, s, cx, args, kw, k):
            s.ghost['%calls'] = s.ghost['%calls'] + 1
            ok = len(args) == 2 and args[0] is self.a and args[1] is self.x and list(kw) == ['opt'] and kw['opt'] is self.y
            E.prove(s, z3.BoolVal(ok), "the operator receives the caller's arguments")
            k(s, self.r)
        return [VSpec(f, 'operator')], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, lambda s, w: E.call(w, [self.a, self.x], dict(opt=self.y), s, cx, k))

    def good(self):
        return self.arg == self.takes and self.res == self.gives

    def post(self, E, st0, st, ret):
        if not self.good():
            return [("a mis-typed call is refused", FALSE)]
        return [("the operator's result is passed on unchanged", z3.BoolVal(ret is self.r or (isinstance(ret, VRef) and isinstance(self.r, VRef) and ret.t.eq(self.r.t)))),
                ("the operator runs once", st.ghost['%calls'] == 1)]

    def on_exc(self, E, st0, st, exc):
        if self.good():
            return [("a well-typed call is accepted", FALSE)]
        return [("refused with ValueError", z3.BoolVal(exc.name == 'ValueError')),
                ("a wrong input never reaches the operator", z3.BoolVal(self.arg == self.takes) if self.arg == self.takes else st.ghost['%calls'] == 0)]


CONTRACTS = [Pool()]
for nm, t, g in (('iteriter_op', 'iter', 'iter'), ('listlist_op', 'list', 'list'), ('listiter_op', 'list', 'iter'), ('iterlist_op', 'iter', 'list')):
    other = lambda w: 'list' if w == 'iter' else 'iter'
    for a, r in [(t, g), (other(t), g), (t, other(g)), ('none', g), (t, 'none'), ('curry', g), ('tuple', g), (t, 'tuple'), (t, 'int')]:
        CONTRACTS.append(type(f"{nm}_{a}_{r}", (Deco,), dict(target=f"leap_ec.ops:{nm}", takes=t, gives=g, arg=a, res=r, __doc__=Deco.__doc__))())


class Miswired(Contract):
    """an operator handed a list where it needs a stream (or the reverse) is refused, before anything else happens"""
    prop = 'C06'
    wrong = 'list'

    def setup(self, E, st):
        E.real_decorators = True
        return [in_iter(E, st, INDK) if self.wrong == 'iter' else in_list(E, st, INDK) if self.wrong == 'list' else NONE], {}

    def post(self, E, st0, st, ret):
        return [("a mis-wired stage is refused", FALSE)]

    def on_exc(self, E, st0, st, exc):
        return [("refused with ValueError", z3.BoolVal(exc.name == 'ValueError'))]


for t, wrong, names in (
        ('ops', 'list', ('evaluate', 'clone', 'pool')),
        ('ops', 'iter', ('grouped_evaluate', 'const_evaluate', 'proportional_selection', 'sus_selection', 'truncation_selection', 'elitist_survival',
                         'tournament_selection', 'insertion_selection', 'naive_cyclic_selection', 'cyclic_selection', 'random_selection')),
        ('binary_rep.ops', 'list', ('mutate_bitflip',)), ('real_rep.ops', 'list', ('mutate_gaussian',)),
        ('int_rep.ops', 'list', ('mutate_randint', 'mutate_binomial')),
        ('segmented_rep.ops', 'list', ('apply_mutation', 'segmented_mutate', 'add_segment', 'remove_segment', 'copy_segment')),
        ('multiobjective.ops', 'iter', ('sort_by_dominance', 'fast_nondominated_sort', 'rank_ordinal_sort', 'crowding_distance_calc')),
        ('probe', 'iter', ('print_probe',)), ('probe', 'list', ('print_individual',))):
    for nm in names:
        for w in (wrong, 'none'):
            CONTRACTS.append(type(f"Miswired_{nm}_{w}", (Miswired,), dict(target=f"leap_ec.{t}:{nm}", wrong=w, __doc__=Miswired.__doc__))())
