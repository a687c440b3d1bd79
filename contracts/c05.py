"""C05: survival selection."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

POOLK = KRef(PObj(IND))


def no_key(E, st):
    return NONE, (lambda r: SCORE(r))


def with_key(E, st):
    K = z3.Function('userkey', IntS, RealS)
    f = VSpec(lambda E, s, cx, args, kw, k: k(s, VReal(K(args[0].t))), 'key')
    return f, (lambda r: K(r))


def pool_elems(E, st0, lists):
    """(n, el(j)) of the concatenation of lists in the initial state"""
    return [(E.lens(st0, l.t), (lambda l: lambda j: elem(E, st0, l, j).t)(l)) for l in lists]


def best_k(E, st0, st, ret, pools, size, val):
    """ret holds the `size` best individuals of the pools (all pairwise distinct objects)."""
    if not isinstance(ret, VRef) or not isinstance(ret.p, PList):
        return [("returns a list", FALSE)]
    if ret.p.k is None:
        ret.p.k = POOLK
    n = sum([p[0] for p in pools], z3.IntVal(0))
    L = E.lens(st, ret.t)
    R = lambda j: elem(E, st, ret, j).t
    inpool = lambda x: z3.Or(*[E.exists(0, pn, lambda j: el(j) == x) for pn, el in pools])
    obs = [("result has min(size, pool) individuals", L == z3.If(size < 0, z3.IntVal(0), z3.If(size < n, size, n))),
           ("every survivor comes from the pool", E.forall(0, L, lambda j: inpool(R(j)))),
           ("no individual survives twice", E.forall(0, L, lambda j: E.forall(0, j, lambda i: R(i) != R(j)))),
           ("survivors are ordered best first", E.forall(0, L, lambda j: E.forall(0, j, lambda i: val(R(i)) >= val(R(j)))))]
    for i, (pn, el) in enumerate(pools):
        obs.append((f"no eliminated individual of pool {i} is better than a survivor",
                    E.forall(0, pn, lambda p: z3.Or(E.exists(0, L, lambda j: R(j) == el(p)),
                                                    E.forall(0, L, lambda j: val(R(j)) >= val(el(p)))))))
    return obs


class Base(Contract):
    prop = 'C05'
    specs = order_specs()


class _Trunc(Base):
    """truncation_selection returns the best `size` of the offspring (and parents)"""
    target = 'leap_ec.ops:truncation_selection'
    parents, key = False, False

    def setup(self, E, st):
        self.off = in_pop(E, st)
        self.size = fresh('size', IntS)
        kw = dict(size=VInt(self.size))
        self.lists = [self.off]
        if E.mode == 'bmc':
            E.side.append(self.size <= E.N + 1)
        if self.parents:
            self.par = in_pop(E, st)
            st.assume(self.par.t != self.off.t)
            o, p = self.off, self.par
            st.assume(E.forall(0, E.lens(st, o.t), lambda i: E.forall(0, E.lens(st, p.t), lambda j: elem(E, st, o, i).t != elem(E, st, p, j).t)))
            kw['parents'] = self.par
            self.lists.append(self.par)
        kv, self.val = (with_key if self.key else no_key)(E, st)
        if self.key:
            kw['key'] = kv
        return [self.off], kw

    def post(self, E, st0, st, ret):
        obs = best_k(E, st0, st, ret, pool_elems(E, st0, self.lists), self.size, self.val)
        for l in self.lists:
            obs.append(("the caller's lists are left as they were", unchanged_list(E, st0, st, l)))
        return obs


class Trunc(_Trunc):
    pass


class TruncKey(_Trunc):
    key = True


class TruncParents(_Trunc):
    parents = True


class TruncParentsKey(_Trunc):
    parents = key = True



def disjoint(E, st, a, b):
    st.assume(a.t != b.t)
    st.assume(E.forall(0, E.lens(st, a.t), lambda i: E.forall(0, E.lens(st, b.t), lambda j: elem(E, st, a, i).t != elem(E, st, b, j).t)))


class _Elitist(Base):
    """elitist_survival keeps the population size, prefers better individuals and never loses the best parent"""
    target = 'leap_ec.ops:elitist_survival'
    key = False

    def setup(self, E, st):
        self.off, self.par = in_pop(E, st), in_pop(E, st)
        disjoint(E, st, self.off, self.par)
        self.k = fresh('k', IntS)
        st.assume(self.k >= 0)
        if E.mode == 'bmc':
            E.side.append(self.k <= E.N + 1)
        kv, self.val = (with_key if self.key else no_key)(E, st)
        kw = dict(parents=self.par, k=VInt(self.k))
        if self.key:
            kw['key'] = kv
        return [self.off], kw

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList) or ret.p.k is None:
            return [("returns a list", FALSE)]
        (n, el), (m, pl) = pool_elems(E, st0, [self.off, self.par])
        L = E.lens(st, ret.t)
        R = lambda j: elem(E, st, ret, j).t
        val = self.val
        return [("population size is that of the offspring", L == n),
                ("every survivor is an offspring or a parent", E.forall(0, L, lambda j: z3.Or(
                    E.exists(0, n, lambda i: el(i) == R(j)), E.exists(0, m, lambda i: pl(i) == R(j))))),
                ("no individual survives twice", E.forall(0, L, lambda j: E.forall(0, j, lambda i: R(i) != R(j)))),
                ("no eliminated offspring is better than a survivor", E.forall(0, n, lambda p: z3.Or(
                    E.exists(0, L, lambda j: R(j) == el(p)), E.forall(0, L, lambda j: val(R(j)) >= val(el(p)))))),
                ("the best parent is not lost", z3.Implies(z3.And(self.k >= 1, n >= 1), E.forall(0, m, lambda p: val(R(z3.IntVal(0))) >= val(pl(p))))),
                ("with k=0 no parent survives", z3.Implies(self.k == 0, E.forall(0, L, lambda j: E.exists(0, n, lambda i: el(i) == R(j))))),
                ("the parents' list is left as it was", unchanged_list(E, st0, st, self.par))]


class Elitist(_Elitist):
    pass


class ElitistKey(_Elitist):
    key = True


class _Insertion(Base):
    """insertion_selection: every offspring challenges one parent slot; slots never get worse"""
    target = 'leap_ec.ops:insertion_selection'
    key = False

    def setup(self, E, st):
        self.off, self.par = in_pop(E, st), in_pop(E, st, minlen=1)
        disjoint(E, st, self.off, self.par)
        kv, self.val = (with_key if self.key else no_key)(E, st)
        kw = dict(parents=self.par)
        if self.key:
            kw['key'] = kv
        return [self.off], kw

    def members(self, E, st0, s, lst, upto):
        (n, el), (m, pl) = pool_elems(E, st0, [self.off, self.par])
        R = lambda j: elem(E, s, lst, j).t
        return E.forall(0, m, lambda j: z3.Or(R(j) == pl(j), E.exists(0, upto, lambda i: el(i) == R(j))))

    def cands(self, E, L):
        st0 = L.entry
        out = []
        (n, el), (m, pl) = pool_elems(E, st0, [self.off, self.par])
        val = self.val
        for nm, v in L.mod_lists():
            if v.p.k != POOLK:
                continue
            R = lambda s, j, v=v: elem(E, s, v, j).t
            out.append(("slots hold their parent or an earlier offspring", lambda s, v=v: self.members(E, st0, s, v, L.k(s))))
            out.append(("slots never get worse", lambda s, v=v, R=R: E.forall(0, m, lambda j: val(R(s, j)) >= val(pl(j)))))
            out.append(("every earlier offspring challenged a slot", lambda s, v=v, R=R: E.forall(0, L.k(s), lambda i: E.exists(
                0, m, lambda j: val(R(s, j)) >= val(el(i))))))
        return out

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList) or ret.p.k is None:
            return [("returns a list", FALSE)]
        (n, el), (m, pl) = pool_elems(E, st0, [self.off, self.par])
        R = lambda j: elem(E, st, ret, j).t
        val = self.val
        return [("as many survivors as parents", E.lens(st, ret.t) == m),
                ("each slot holds its parent or an offspring", self.members(E, st0, st, ret, n)),
                ("no slot gets worse", E.forall(0, m, lambda j: val(R(j)) >= val(pl(j)))),
                ("every offspring competes: some slot ends at least as good", E.forall(0, n, lambda i: E.exists(0, m, lambda j: val(R(j)) >= val(el(i))))),
                ("the parents' list is left as it was", unchanged_list(E, st0, st, self.par)),
                ("the offspring list is left as it was", unchanged_list(E, st0, st, self.off))]


class Insertion(_Insertion):
    pass


class InsertionKey(_Insertion):
    key = True


CONTRACTS = [Trunc(), TruncKey(), TruncParents(), TruncParentsKey(), Elitist(), ElitistKey(), Insertion(), InsertionKey()]
