"""Shared vocabulary of the contracts: schemas and specifications used by several properties."""
import z3
from .vals import *
from . import vals

IND = 'leap_ec.individual.Individual'
SCORE = z3.Function('score', IntS, RealS)      # the total preorder on individuals (higher is better); see C01


def order_specs(cls=IND):
    """Comparison of individuals: a total preorder given by an uninterpreted score (proved in C01 for
    scalar problems without NaN)."""
    def mk(f):
        def spec(E, st, cx, args, kwargs, k):
            a, b = args[:2]
            if isinstance(b, VNone):
                raise Unsupported("comparison with None")
            k(st, VBool(f(SCORE(a.t), SCORE(b.t))))
        return spec
    return {(cls, '__lt__'): mk(lambda x, y: x < y), (cls, '__le__'): mk(lambda x, y: x <= y),
            (cls, '__gt__'): mk(lambda x, y: x > y), (cls, '__ge__'): mk(lambda x, y: x >= y),
            (cls, '__eq__'): mk(lambda x, y: x == y), (cls, '__ne__'): mk(lambda x, y: x != y)}


def new_input(E, st, p):
    """A reference to a pre-existing object (part of the caller's state)."""
    r = fresh('in', IntS)
    st.assume(z3.And(r >= 0, r < st.alloc))
    return VRef(r, p)


def in_list(E, st, kind, minlen=0, nd=False, distinct_from=()):
    r = new_input(E, st, PList(kind, nd))
    n = E.lens(st, r.t)
    st.assume(n >= minlen)
    if E.mode == 'bmc':
        E.side.append(n <= E.N)
    for d in distinct_from:
        st.assume(r.t != d.t)
    return r


def in_pop(E, st, minlen=0, distinct=True, cls=IND):
    """A list of individuals; `distinct`: pairwise different objects."""
    p = in_list(E, st, KRef(PObj(cls)), minlen)
    n = E.lens(st, p.t)
    s0 = st.fork()
    el = lambda j: E.lget(s0, p, j, wf=False).t
    st.assume(E.forall(0, n, lambda j: z3.And(el(j) >= 0, el(j) < st.alloc), pats=[el]))
    if distinct:
        # injectivity via an inverse function: inv(el(j)) == j
        inv = z3.Function(fresh_name('slot'), IntS, IntS)
        st.assume(E.forall(0, n, lambda j: inv(el(j)) == j, pats=[el]))
        p.inv = inv
    return p


def elem(E, st, lst, j):
    return E.lget(st, lst, j, wf=False)


def member(E, st, x_t, lst, s_of=None):
    """x is (identical to) an element of lst"""
    s = s_of or st
    return E.exists(0, E.lens(s, lst.t), lambda j: elem(E, s, lst, j).t == x_t)


def unchanged_list(E, st0, st, lst):
    """same length and same elements as before"""
    n = E.lens(st0, lst.t)
    k = lst.p.k
    return z3.And(E.lens(st, lst.t) == n,
                  E.forall(0, n, lambda j: z3.And(*[a == b for a, b in zip(k.pack(elem(E, st, lst, j)), k.pack(elem(E, st0, lst, j)))])))


def attr_unchanged(E, st0, st, attr, kind):
    """attribute of every pre-existing object unchanged"""
    fs = []
    for c, s in kind.comps:
        key = ('a', attr, kind.key, c)
        a, b = E.arr(st0, key, s), E.arr(st, key, s)
        if not z3.eq(a, b):
            fs.append(E.forall_ref(0, st0.alloc, lambda r: z3.Select(a, r) == z3.Select(b, r)))
    return z3.And(*fs) if fs else TRUE


def get(E, st, ref_t, attr, kind):
    return kind.unpack([z3.Select(E.arr(st, ('a', attr, kind.key, c), s), ref_t) for c, s in kind.comps])


def isfresh(st0, t):
    """allocated by the function under contract"""
    return t >= st0.alloc


def uuids(st):
    """ghost: the set of all ids handed out so far"""
    g = st.ghost.get('uuids')
    if g is None:
        g = st.ghost['uuids'] = fresh('uuids', z3.ArraySort(U, BoolS))
    return g


def set_of(E, st, ref_t):
    return z3.Select(E.arr(st, ('set',), z3.ArraySort(U, BoolS)), ref_t)


def in_iter(E, st, kind, endless=None):
    """An iterator handed in by the caller, not started; finite or endless."""
    it = new_input(E, st, PIter(kind))
    E.hset(st, it.t, '%pos', KInt, VInt(0))
    ln = z3.Function('itlen', IntS, IntS)(it.t)
    if endless is True:
        st.assume(ln < 0)
    elif endless is False:
        st.assume(ln >= 0)
    if E.mode == 'bmc':
        E.side.append(ln <= E.N + 1)
    return it


def nth(E, it, j):
    return E.stream(it.p.k, it.t, j)


def pos(E, st, it):
    return E.hget(st, it.t, '%pos', KInt).t


def made_cands(E, L, cls, st0, props=()):
    """Candidate invariants for loops that build a list of new objects of one class: all are new, none occurs twice,
    and props: [(name, f(s, ref, j))] hold for the j-th."""
    for nm, v in L.mod_lists():
        if v.p.k is None or not (isinstance(v.p.k, KRef) and isinstance(v.p.k.p, PObj) and v.p.k.p.cls == cls):
            continue
        el = lambda s, j, v=v: elem(E, s, v, j).t
        n = lambda s, v=v: E.lens(s, v.t)
        yield f"{nm}: new objects", lambda s, el=el, n=n: E.forall(0, n(s), lambda j: z3.And(el(s, j) >= st0.alloc, el(s, j) < s.alloc), pats=[lambda j: el(s, j)])
        yield f"{nm}: in the order made", lambda s, el=el, n=n: E.forall2(n(s), lambda i, j: z3.Implies(i < j, el(s, i) < el(s, j)), lambda i, j: (el(s, i), el(s, j)))
        for pn, f in props:
            yield f"{nm}: {pn}", lambda s, el=el, n=n, f=f: E.forall(0, n(s), lambda j: f(s, el(s, j), j), pats=[lambda j: el(s, j)])
