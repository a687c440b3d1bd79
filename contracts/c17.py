"""C17: nondominated sorting gives every individual the index of its Pareto front."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

INDK = KRef(PObj(IND))
LAY = KRef(PList(INDK))
ASY = 'leap_ec.multiobjective.asynchronous:'
DOM = z3.Function('dominates', IntS, IntS, BoolS)      # the first dominates the second (C16)

BOUNDED = ["leap_ec.multiobjective.ops:fast_nondominated_sort, leap_ec.multiobjective.ops:rank_ordinal_sort and leap_ec.multiobjective.asynchronous:enlu_inds_rank: "
           "the numbering of the fronts is not proved (counting dominators over a permuted order is out of the generator's reach); stand-in: executed on ALL populations of up to 3 "
           "individuals with two objectives on a 3x3 grid, in all four direction mixes and for every split into population and parents / order of insertion, plus random larger ones"]


def dom_specs():
    def mk(f):
        def spec(E, st, cx, args, kw, k):
            k(st, VBool(f(args[0].t, args[1].t)))
        return spec
    return {(IND, '__gt__'): mk(lambda a, b: DOM(a, b)), (IND, '__lt__'): mk(lambda a, b: DOM(b, a))}


class StartLayer(Contract):
    """_find_start_layer: the first layer in which nothing dominates the individual (layers as a valid ranking has them: whatever is
    dominated in one layer is dominated in every layer before it)"""
    prop = 'C17'
    target = ASY + '_find_start_layer'

    def __init__(self):
        self.specs = dom_specs()

    def beaten(self, E, l):
        """someone in layer l dominates the individual"""
        return self.B(l)

    def setup(self, E, st):
        self.x = new_input(E, st, PObj(IND))
        self.L = in_list(E, st, LAY)
        self.n = E.lens(st, self.L.t)
        self.B = z3.Function('beaten', IntS, BoolS)
        s0 = self.st0 = st.fork()
        lay = lambda j: elem(E, s0, self.L, j)
        st.assume(E.forall(0, self.n, lambda j: z3.And(lay(j).t >= 0, lay(j).t < s0.alloc), pats=[lambda j: lay(j).t]))
        if E.mode == 'bmc':
            for j in range(E.N):
                jj = z3.IntVal(j)
                E.side.append(z3.And(E.lens(s0, lay(jj).t) <= E.N))
                st.assume(z3.Implies(jj < self.n, self.B(jj) == E.exists(0, E.lens(s0, lay(jj).t), lambda i: DOM(elem(E, s0, lay(jj), i).t, self.x.t))))
                if j:
                    st.assume(z3.Implies(z3.And(jj < self.n, self.B(jj)), self.B(jj - 1)))
        else:
            j, i = z3.Ints('j!b i!b')
            W = z3.Function('dominator', IntS, IntS)
            y = elem(E, s0, lay(j), i).t
            inl = lambda i: z3.And(i >= 0, i < E.lens(s0, lay(j).t))
            st.assume(z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < self.n, inl(i), DOM(y, self.x.t)), self.B(j)), patterns=[z3.MultiPattern(DOM(y, self.x.t), lay(j).t)]))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n, self.B(j)), z3.And(inl(W(j)), DOM(elem(E, s0, lay(j), W(j)).t, self.x.t))), patterns=[self.B(j)]))
            st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n, self.B(j)), self.B(i)), patterns=[z3.MultiPattern(self.B(i), self.B(j))]))
        return [self.x, self.L], {}

    def cands(self, E, L):
        ints = [(f, nm) for f, nm, v in L.ints()] if hasattr(L, 'ints') else []
        for f, nm in ints:
            yield f"{nm}: layers before are dominated", lambda s, f=f: z3.And(f(s) >= 0, f(s) <= self.n, z3.Implies(f(s) > 0, self.B(f(s) - 1)))
            yield f"{nm}: layers after are not", lambda s, f=f: z3.And(f(s) >= -1, f(s) < self.n, z3.Implies(f(s) + 1 < self.n, z3.Not(self.B(f(s) + 1))))
        for f, nm in ints:
            for g, nm2 in ints:
                if nm != nm2:
                    yield f"{nm} <= {nm2}+1", lambda s, f=f, g=g: f(s) <= g(s) + 1

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VInt):
            return [("a layer number", FALSE)]
        r = ret.t
        return [("within the layers, or just past the last", z3.And(r >= 0, r <= self.n)),
                ("dominated in the layer before", z3.Implies(r > 0, self.B(r - 1))),
                ("not dominated there", z3.Implies(r < self.n, z3.Not(self.B(r)))),
                ("the layers are left alone", unchanged_list(E, st0, st, self.L))]


class SetDom(Contract):
    """_set_domination: for each of the second group, whether someone of the first dominates it"""
    prop = 'C17'
    target = ASY + '_set_domination'

    def __init__(self):
        self.specs = dom_specs()

    def setup(self, E, st):
        self.a, self.b = in_pop(E, st, distinct=False), in_pop(E, st, distinct=False)
        self.B = z3.Function('beaten', IntS, BoolS)
        s0 = self.st0 = st.fork()
        self.na, self.nb = E.lens(st, self.a.t), E.lens(st, self.b.t)
        y, x = lambda i: elem(E, s0, self.a, i).t, lambda j: elem(E, s0, self.b, j).t
        if E.mode == 'bmc':
            for j in range(E.N):
                jj = z3.IntVal(j)
                st.assume(self.B(jj) == E.exists(0, self.na, lambda i: DOM(y(i), x(jj))))
        else:
            j, i = z3.Ints('j!b i!b')
            W = z3.Function('dominator', IntS, IntS)
            st.assume(z3.ForAll([j, i], z3.Implies(z3.And(i >= 0, i < self.na, DOM(y(i), x(j))), self.B(j)), patterns=[DOM(y(i), x(j))]))
            st.assume(z3.ForAll([j], z3.Implies(self.B(j), z3.And(W(j) >= 0, W(j) < self.na, DOM(y(W(j)), x(j)))), patterns=[self.B(j)]))
        return [self.a, self.b], {}

    def cands(self, E, L):
        for nm, v in L.mod_lists():
            if v.p.k == KBool:
                yield f"{nm}: verdicts so far", lambda s, v=v: z3.And(E.lens(s, v.t) == L.k(s), E.forall(0, E.lens(s, v.t), lambda j: elem(E, s, v, j).t == self.B(j)))

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        return [("one verdict per individual", E.lens(st, ret.t) == self.nb),
                ("true exactly if dominated", E.forall(0, self.nb, lambda j: elem(E, st, ret, j).t == self.B(j)))]


CONTRACTS = [StartLayer(), SetDom()]
