"""Models (assumed contracts) of the Python built-ins and library functions the verified code calls.

Every one of these is part of the trusted base; the ones used by a contract are listed in its evidence.
Each has the form  model(E, st, cx, args, kwargs, k).
"""
import ast
import z3
from .vals import *

MODELS, METHODS, CONSTS = {}, {}, {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def method(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


class _Nan:
    pass


CONSTS['numpy.nan'] = VReal(z3.RealVal(0), TRUE)
CONSTS['math.nan'] = VReal(z3.RealVal(0), TRUE)
CONSTS['numpy.newaxis'] = NONE
# infinities: opaque reals larger / smaller than every number is not expressible in the reals, so an
# expression using them is outside the subset unless a contract says otherwise
def _exact(x):
    n, d = x.as_integer_ratio()
    return z3.simplify(z3.RealVal(n) / z3.RealVal(d))


PI = _exact(__import__('math').pi)      # the floating-point constants, exactly
EULER = _exact(__import__('math').e)
CONSTS['numpy.pi'] = CONSTS['math.pi'] = VReal(PI)
CONSTS['numpy.e'] = CONSTS['math.e'] = VReal(EULER)


def uns(m):
    raise Unsupported(m)


def arg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def subst_v(v, pairs):
    if isinstance(v, VInt):
        return VInt(z3.substitute(v.t, *pairs))
    if isinstance(v, VBool):
        return VBool(z3.substitute(v.t, *pairs))
    if isinstance(v, VReal):
        return VReal(z3.substitute(v.t, *pairs), z3.substitute(v.nan, *pairs))
    if isinstance(v, VOpq):
        return VOpq(z3.substitute(v.t, *pairs))
    if isinstance(v, VRef):
        return VRef(z3.substitute(v.t, *pairs), v.p)
    if isinstance(v, VTuple):
        return VTuple([subst_v(x, pairs) for x in v.items])
    if isinstance(v, VMaybe):
        return VMaybe(z3.substitute(v.none, *pairs), subst_v(v.val, pairs))
    if isinstance(v, (VNone, VStr)):
        return v
    raise Unsupported("value depends on a bound index in an unsupported way")


def pure(E, st, run, pre=None):
    """Value of a pure computation run(s, cx, k), as one value (an if-then-else over its paths)."""
    from .engine import Cx, consts_in, idnum
    from . import vals
    s = st.fork()
    if pre is not None:
        s.assume(pre)
    n0 = len(s.pc)
    outs, excs = [], []
    lo = vals._ctr[0]
    cx = Cx(fid=None, depth=1, exc=lambda s2, e: excs.append((s2, e)))
    E.silent += 1
    try:
        run(s, cx, lambda s2, v: outs.append((s2, v)))
    finally:
        E.silent -= 1
    if excs:
        raise Unsupported("key function may raise")
    if not outs:
        raise Unsupported("key function never returns")
    for s2, v in outs:
        for key, a in s2.heap.items():
            b = st.heap.get(key)
            if b is None:
                b = E.init_arrays.get(key)
            if b is None or not z3.eq(a, b):
                raise Unsupported("key function with side effects")
    res = outs[-1][1]
    for s2, v in reversed(outs[:-1]):
        cond = z3.And(*s2.pc[n0:]) if len(s2.pc) > n0 else TRUE
        for c in consts_in(cond):
            if idnum(c) > lo:
                raise Unsupported("key function creates unknowns")
        res = vite(E, cond, v, res)
    from .engine import consts_of
    for c in consts_of(res):
        if idnum(c) > lo:
            raise Unsupported("key function creates unknowns")
    return res


def vite(E, c, a, b):
    if isinstance(a, VRef) and isinstance(b, VRef) and a.p.key == b.p.key:
        return VRef(z3.If(c, a.t, b.t), a.p)
    k = join_kind(kind_of(a), kind_of(b))
    return k.unpack([x if z3.eq(x, y) else z3.If(c, x, y) for x, y in zip(k.pack(a), k.pack(b))])


def idx_of(E, st, v):
    """v as an indexable sequence (VIdx) with a known finite length."""
    if isinstance(v, VTuple):
        items = v.items

        def get(s, j):
            if z3.is_int_value(j):
                return items[j.as_long()]
            r = items[-1]
            for i in range(len(items) - 2, -1, -1):
                r = vite(E, j == i, items[i], r)
            return r
        if not items:
            return VIdx(lambda s: z3.IntVal(0), lambda s, j: uns("empty"), 'tuple')
        return VIdx(lambda s: z3.IntVal(len(items)), get, 'tuple')
    ix = E.to_idx(st, v)
    if ix is None:
        if isinstance(v, VMasked):
            raise Unsupported("masked array as a sequence")
        raise Unsupported(f"sequence expected, got {type(v).__name__}")
    return ix


def materialize(E, st, cx, v, k):
    """Run an iterable to a list (generators, comprehensions) or return it if it is already indexable."""
    if isinstance(v, VMaybe):
        return E.force(st, v, lambda s, w: materialize(E, s, cx, w, k))
    if isinstance(v, (VMapIter, VGen)) or (isinstance(v, VRef) and isinstance(v.p, PIter)):
        node = v.node if isinstance(v, VMapIter) else None
        hint = ('mat', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)) if node is not None else None

        def loop(st):
            acc = E.new_list(st, [], hint=hint)
            E.fcount += 1
            fid = ('m', E.fcount)
            st.frames[fid] = {'%acc': acc}

            def body(s, item, cxb, knext):
                E.append(s, acc, item)
                knext(s)
            return E.iterate(st, cx, v, body, lambda s: k(s, acc), (node, 0))
        if isinstance(v, VMapIter) and E.mode == 'proof' and len(v.node.generators) == 1 and not v.node.generators[0].ifs:
            def got(s, it):
                pm = E.pure_map(v.node, s, v.cx.but(exc=cx.exc), it)
                if pm is not None:
                    return k(s, E.mk_list(s, pm[0], pm[1], pm[2]))
                loop(s)
            return E.ev(v.node.generators[0].iter, st, v.cx.but(exc=cx.exc), lambda s, w: E.force(s, w, got))
        return loop(st)
    k(st, v)


def at(E, st, ix, j):
    s = st.fork()
    return ix.get(s, j)


def keyed(E, st, cx, ix, key):
    """-> f(j): key value of element j (an uninterpreted copy of the pure key function)."""
    x = fresh('kx', IntS)
    n = ix.n(st)
    s = st.fork()
    s.assume(z3.And(x >= 0, x < n))
    el = ix.get(s, x)
    if key is None or isinstance(key, VNone):
        v = el
    else:
        v = pure(E, s, lambda s2, cx2, k2: E.call(key, [el], {}, s2, cx2, k2))
    return lambda j: subst_v(v, [(x, j if not isinstance(j, int) else z3.IntVal(j))])


def gt(E, st, a, b):
    """a > b as a formula."""
    if isinstance(a, (VInt, VReal, VBool)) and isinstance(b, (VInt, VReal, VBool)):
        return E.cmp_num(ast.Gt(), a, b)
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        return E.tuple_lt(ast.Gt(), a.items, b.items)
    if isinstance(a, VRef) and isinstance(a.p, PObj):
        return pure(E, st, lambda s, cx, k: E.compare(ast.Gt(), a, b, s, cx, k)).t
    raise Unsupported(f"ordering of {type(a).__name__}")


def extremum(E, st, cx, args, kwargs, k, sign):
    key = kwargs.get('key')
    default = kwargs.get('default')
    if len(args) == 1:
        def go(s, seq):
            ix = idx_of(E, s, seq)
            n = ix.n(s)

            def some(s2):
                kf = keyed(E, s2, cx, ix, key)
                m = fresh('best', IntS)
                s2.assume(z3.And(m >= 0, m < n))
                better = (lambda a, b: gt(E, s2, a, b)) if sign > 0 else (lambda a, b: gt(E, s2, b, a))
                km = kf(m)
                s2.assume(E.forall(0, n, lambda j: z3.Not(better(kf(j), km))))
                s2.assume(E.forall(0, m, lambda j: better(km, kf(j))))
                k(s2, ix.get(s2, m))

            def none(s2):
                if default is not None:
                    return k(s2, default)
                E.fail(s2, cx, 'ValueError')
            E.branch(s, n > 0, some, none)
        return materialize(E, st, cx, args[0], go)
    # several arguments: first extremal one
    def val(s, v, k2):
        if key is None or isinstance(key, VNone):
            return k2(s, v)
        E.call(key, [v], {}, s, cx, k2)

    def rec(i, s, best, bk):
        if i == len(args):
            return k(s, best)

        def got(s2, kv):
            def cmpd(s3, c):
                E.branch(s3, E.truth(s3, c), lambda a: rec(i + 1, a, args[i], kv), lambda b: rec(i + 1, b, best, bk))
            if all(isinstance(z, (VInt, VReal)) for z in (kv, bk)) and all(isinstance(z, (VInt, VReal)) for z in args):
                c = E.cmp_num(ast.Gt() if sign > 0 else ast.Lt(), kv, bk)
                if key is None and isinstance(best, VInt) and isinstance(args[i], VInt):
                    # keep one path for plain numbers
                    v = VInt(z3.simplify(z3.If(c, args[i].t, best.t)))
                    return rec(i + 1, s2, v, v)
                if (key is None or isinstance(key, VNone)) and isinstance(best, VReal) and isinstance(args[i], VReal):
                    v = VReal(z3.simplify(z3.If(c, args[i].t, best.t)), z3.simplify(z3.If(c, args[i].nan, best.nan)))
                    return rec(i + 1, s2, v, v)
            E.compare(ast.Gt() if sign > 0 else ast.Lt(), kv, bk, s2, cx, cmpd)
        val(s, args[i], got)
    val(st, args[0], lambda s, bk: rec(1, s, args[0], bk))


@model('max', 'builtins.max')
def m_max(E, st, cx, args, kwargs, k):
    extremum(E, st, cx, args, kwargs, k, 1)


@model('min', 'builtins.min')
def m_min(E, st, cx, args, kwargs, k):
    extremum(E, st, cx, args, kwargs, k, -1)


def selection_result(E, st, cx, ix, n, L, kf, desc, elem_kind, stable=True):
    """Fresh list of the L extremal elements of ix in order (sorted()[:L], heapq.nlargest, toolz.topk)."""
    # a permutation f of the indices that sorts the sequence; the result is its first L entries
    f = z3.Function(fresh_name('sel'), IntS, IntS)
    inv = z3.Function(fresh_name('pos'), IntS, IntS)
    s0 = st.fork()
    r = E.mk_list(st, L, lambda j: ix.get(s0, f(j)), elem_kind)
    if E.mode == 'proof':
        st.assume(z3.And(L >= 0, L <= n))
    st.assume(E.forall(0, n, lambda j: z3.And(f(j) >= 0, f(j) < n, inv(f(j)) == j), pats=[lambda j: f(j)]))
    if E.mode == 'proof':
        z = z3.IntVal(0)
        st.assume(z3.Implies(n > 0, z3.And(f(z) >= 0, f(z) < n, inv(f(z)) == 0)))
    back = lambda p: z3.And(inv(p) >= 0, inv(p) < n, f(inv(p)) == p)
    st.assume(E.forall(0, n, back, pats=[lambda p: elem_term(ix.get(s0.fork(), p)), lambda p: inv(p)]))
    if E.mode == 'proof' and getattr(ix, 'parts', None):
        # the same fact re-indexed per part of a chained sequence (helps instantiation)
        for off, x in ix.parts(s0):
            pn = x.n(s0)
            st.assume(E.forall(0, pn, lambda q: back(z3.simplify(off + q)), pats=[lambda q: elem_term(x.get(s0.fork(), q))]))
    bt = (lambda a, b: gt(E, s0, a, b)) if desc else (lambda a, b: gt(E, s0, b, a))
    # sorted, ties in original order
    st.assume(E.forall2(n, lambda i, j: z3.And(z3.Not(bt(kf(f(j)), kf(f(i)))), z3.Or(bt(kf(f(i)), kf(f(j))), f(i) < f(j))),
                        lambda i, j: [f(i), f(j)]))
    return r


def elem_term(v):
    """a term usable as an instantiation pattern for an element"""
    for a in ('t',):
        t = getattr(v, a, None)
        if t is not None:
            return t
    raise z3.Z3Exception('no pattern')


def elem_kind_of(E, st, ix):
    x = fresh('ek', IntS)
    s = st.fork()
    return kind_of(ix.get(s, x))


@model('toolz.topk', 'toolz.itertoolz.topk', 'heapq.nlargest', 'heapq.nsmallest')
def m_topk(E, st, cx, args, kwargs, k, desc=True):
    size = args[0]
    seq = args[1]
    key = arg(args, kwargs, 2, 'key')
    if not isinstance(size, VInt):
        raise Unsupported("topk size")

    def go(s, seq):
        ix = idx_of(E, s, seq)
        n = ix.n(s)
        kf = keyed(E, s, cx, ix, key)
        L = fresh('topn', IntS)
        s.assume(L == z3.If(size.t < 0, z3.IntVal(0), z3.If(size.t < n, size.t, n)))
        k(s, selection_result(E, s, cx, ix, n, L, kf, desc, elem_kind_of(E, s, ix)))
    materialize(E, st, cx, seq, go)


MODELS['heapq.nsmallest'] = lambda E, st, cx, args, kwargs, k: m_topk(E, st, cx, args, kwargs, k, desc=False)


@model('sorted')
def m_sorted(E, st, cx, args, kwargs, k):
    key = kwargs.get('key')
    rev = kwargs.get('reverse')
    if rev is not None and not (isinstance(rev, VBool) and (z3.is_true(z3.simplify(rev.t)) or z3.is_false(z3.simplify(rev.t)))):
        raise Unsupported("symbolic reverse flag")
    desc = rev is not None and z3.is_true(z3.simplify(rev.t))

    def go(s, seq):
        ix = idx_of(E, s, seq)
        n = ix.n(s)
        if z3.is_int_value(n) and n.as_long() == 0:
            return k(s, E.new_list(s, []))
        kf = keyed(E, s, cx, ix, key)
        k(s, selection_result(E, s, cx, ix, n, n, kf, desc, elem_kind_of(E, s, ix)))
    materialize(E, st, cx, args[0], go)


@method('sort')
def mm_sort(E, st, cx, o, args, kwargs, k):
    def go(s, r):
        if isinstance(r.p, PList) and r.p.k is None:
            return k(s, NONE)
        E.copy_contents(s, o, r)
        k(s, NONE)
    if isinstance(o, VRef) and isinstance(o.p, PList):
        if args:
            raise Unsupported("sort arguments")
        return m_sorted(E, st, cx, [o], kwargs, go)
    raise Unsupported("sort of this value")


# ------------------------------------------------------------------ sequences
@model('len')
def m_len(E, st, cx, args, kwargs, k):
    v = args[0]
    if isinstance(v, VRef) and isinstance(v.p, PList):
        return k(st, VInt(E.llen(st, v)))
    if isinstance(v, VTuple):
        return k(st, VInt(len(v.items)))
    if isinstance(v, VStr) and v.s is not None:
        return k(st, VInt(len(v.s)))
    if isinstance(v, VMasked):
        return k(st, VInt(v.n))
    if isinstance(v, VDictC):
        return k(st, VInt(len(v.d)))
    if isinstance(v, VRange):
        return k(st, VInt(E.to_idx(st, v).n(st)))
    if isinstance(v, VIdx) and v.n is not None:
        return k(st, VInt(v.n(st)))
    if isinstance(v, VNone):
        return E.fail(st, cx, 'TypeError')
    if isinstance(v, VMaybe):
        return E.force(st, v, lambda s, w: m_len(E, s, cx, [w], {}, k))
    if isinstance(v, VRef) and isinstance(v.p, PObj):
        sp = E.specs.get((v.p.cls, '__len__'))
        if sp is not None:
            return sp(E, st, cx, [v], {}, k)
    raise Unsupported(f"len of {type(v).__name__}")


@model('range')
def m_range(E, st, cx, args, kwargs, k):
    def ints(i, s, acc):
        if i == len(args):
            if len(acc) == 1:
                return k(s, VRange(z3.IntVal(0), acc[0], z3.IntVal(1)))
            if len(acc) == 2:
                return k(s, VRange(acc[0], acc[1], z3.IntVal(1)))
            st_ = acc[2]
            if z3.is_int_value(st_):
                return k(s, VRange(*acc))

            def neg(s2):
                raise Unsupported("range with a possibly negative step")
            return E.branch(s, st_ == 0, lambda a: E.fail(a, cx, 'ValueError'),
                            lambda b: E.branch(b, st_ > 0, lambda c: k(c, VRange(*acc)), neg))

        def got(s2, v):
            if isinstance(v, VBool):
                v = E.num(v)
            if isinstance(v, (VReal, VNone)):
                return E.fail(s2, cx, 'TypeError')
            if not isinstance(v, VInt):
                raise Unsupported("range argument")
            ints(i + 1, s2, acc + [z3.simplify(v.t)])
        E.force(s, args[i], got)
    ints(0, st, [])


def mklist_like(E, st, ix, kind=None, nd=False):
    n = ix.n(st)
    if z3.is_int_value(n) and n.as_long() <= 8:
        items = [ix.get(st, z3.IntVal(j)) for j in range(n.as_long())]
        if items or kind is not None:
            return E.new_list(st, items, nd=nd, kind=kind)
        return E.new_list(st, [], nd=nd)
    kk = kind or elem_kind_of(E, st, ix)
    s0 = st.fork()
    return E.mk_list(st, n, lambda j: ix.get(s0, j), kk, nd)


@model('list')
def m_list(E, st, cx, args, kwargs, k):
    if not args:
        return k(st, E.new_list(st, []))
    if isinstance(args[0], VMaybe):
        return E.force(st, args[0], lambda s, w: m_list(E, s, cx, [w], {}, k))
    if isinstance(args[0], VNone):
        return E.fail(st, cx, 'TypeError')

    def go(s, seq):
        if seq is not args[0]:
            return k(s, seq)
        if isinstance(seq, VTuple):
            if any(isinstance(kind_of(v), KConst) for v in seq.items):
                return k(s, seq)
            return k(s, E.new_list(s, seq.items))
        if isinstance(seq, VRef) and isinstance(seq.p, PList) and seq.p.k is None:
            return k(s, E.new_list(s, []))
        if isinstance(seq, VDictC):
            return k(s, VTuple([VStr(x) for x in seq.d]))
        k(s, mklist_like(E, s, idx_of(E, s, seq)))
    materialize(E, st, cx, args[0], go)


@model('tuple')
def m_tuple(E, st, cx, args, kwargs, k):
    if not args:
        return k(st, VTuple([]))

    def go(s, seq):
        if isinstance(seq, VTuple):
            return k(s, seq)
        if isinstance(seq, VRef) and isinstance(seq.p, PList):
            n = E.llen(s, seq)
            if z3.is_int_value(n):
                return k(s, VTuple([E.lget(s, seq, j) for j in range(n.as_long())]))
            return k(s, mklist_like(E, s, idx_of(E, s, seq)))
        k(s, mklist_like(E, s, idx_of(E, s, seq)))
    materialize(E, st, cx, args[0], go)


@model('zip')
def m_zip(E, st, cx, args, kwargs, k):
    def go(i, s, acc):
        if i == len(args):
            return k(s, VZip(acc))
        if isinstance(args[i], VMapIter):
            return materialize(E, s, cx, args[i], lambda s2, v: go(i + 1, s2, acc + [v]))
        E.force(s, args[i], lambda s2, v: opened(E, s2, cx, v, lambda s3, w: go(i + 1, s3, acc + [w])))
    go(0, st, [])


def opened(E, st, cx, v, k):
    """what an object of the library hands out when it is iterated over: the result of its own __iter__"""
    if isinstance(v, VRef) and isinstance(v.p, PObj):
        ci = E.class_info(v.p.cls)
        if ci is not None and ci.find('__iter__')[1] is not None:
            return E.getattr(v, '__iter__', st, cx, lambda s, f: E.call(f, [], {}, s, cx, k))
    k(st, v)


@model('enumerate')
def m_enumerate(E, st, cx, args, kwargs, k):
    start = arg(args, kwargs, 1, 'start', VInt(0))
    E.force(st, args[0], lambda s, v: k(s, VEnum(v, start.t)))


@model('reversed')
def m_reversed(E, st, cx, args, kwargs, k):
    if isinstance(args[0], VTuple):
        return k(st, VTuple(args[0].items[::-1]))
    ix = idx_of(E, st, args[0])
    n = ix.n(st)
    k(st, VIdx(lambda s: n, lambda s, j: ix.get(s, z3.simplify(n - 1 - j)), 'rev'))


@model('itertools.chain')
def m_chain(E, st, cx, args, kwargs, k):
    def go(i, s, acc):
        if i == len(args):
            ixs = acc

            def n(s2):
                r = z3.IntVal(0)
                for x in ixs:
                    r = r + x.n(s2)
                return z3.simplify(r)

            def get(s2, j):
                off = z3.IntVal(0)
                parts = []
                for x in ixs:
                    parts.append((off, x))
                    off = z3.simplify(off + x.n(s2))
                s3 = s2.fork()
                v = parts[-1][1].get(s3, z3.simplify(j - parts[-1][0]))
                for (o, x), (o2, _) in reversed(list(zip(parts[:-1], parts[1:]))):
                    v = vite(E, j < o2, x.get(s3, z3.simplify(j - o)), v)
                E.wf(s2, v)
                return v
            r = VIdx(n, get, 'chain')

            def parts(s2):
                off, out = z3.IntVal(0), []
                for x in ixs:
                    out.append((off, x))
                    off = z3.simplify(off + x.n(s2))
                return out
            r.parts = parts
            return k(s, r)

        def got(s2, v):
            if isinstance(v, VNone):
                return E.fail(s2, cx, 'TypeError')
            if isinstance(v, VRef) and isinstance(v.p, PList) and v.p.k is None:
                return go(i + 1, s2, acc)

            def g2(s3, w):
                ix = idx_of(E, s3, w)
                if ix.n is None:
                    raise Unsupported("chain of an endless iterator")
                go(i + 1, s3, acc + [ix])
            materialize(E, s2, cx, v, g2)
        E.force(s, args[i], got)
    go(0, st, [])


@model('itertools.chain.from_iterable')
def m_chain_fi(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, VTuple):
            return m_chain(E, s, cx, v.items, {}, k)
        if isinstance(v, VRef) and isinstance(v.p, PList):
            n = E.llen(s, v)
            if z3.is_int_value(n):
                return m_chain(E, s, cx, [E.lget(s, v, j) for j in range(n.as_long())], {}, k)
            return flatten(E, s, v, k)
        raise Unsupported("chain.from_iterable")
    materialize(E, st, cx, args[0], go)


def flatten(E, st, v, k, nd=False):
    """Concatenation of the lists in v (symbolic count).  off(i) = start of part i in the result."""
    kk = v.p.k
    if not (isinstance(kk, KRef) and isinstance(kk.p, PList) and kk.p.k is not None):
        raise Unsupported("concatenation of these values")
    n = E.llen(st, v)
    ek = kk.p.k
    s0 = st.fork()
    off = z3.Function(fresh_name('off'), IntS, IntS)
    part = lambda i: E.lget(s0, v, i, wf=False)
    ln = lambda i: E.lens(s0, part(i).t)
    st.assume(off(z3.IntVal(0)) == 0)
    st.assume(E.forall(0, n, lambda i: z3.And(ln(i) >= 0, off(i + 1) == off(i) + ln(i)), pats=[lambda i: off(i + 1), lambda i: off(i)]))
    r = E.mk_list(st, off(n), None, ek, nd)
    st.assume(off(n) >= 0)
    if E.mode == 'proof':
        own = z3.Function(fresh_name('own'), IntS, IntS)
        for c, (cn, so) in enumerate(ek.comps):
            A = E.elarr(st, ek, cn, so, r.t)
            st.assume(E.forall(0, off(n), lambda p: z3.And(
                own(p) >= 0, own(p) < n, off(own(p)) <= p, p < off(own(p)) + ln(own(p)),
                z3.Select(A, p) == ek.pack(E.lget(s0, part(own(p)), p - off(own(p)), wf=False))[c]), pats=[lambda p: z3.Select(A, p)]))
    else:
        for c, (cn, so) in enumerate(ek.comps):
            A = E.elarr(st, ek, cn, so, r.t)
            st.assume(E.forall(0, n, lambda i: E.forall(0, ln(i), lambda q: z3.Select(A, off(i) + q) ==
                               ek.pack(E.lget(s0, part(i), q, wf=False))[c])))
    r.flat = (off, v)
    k(st, r)


@model('itertools.cycle')
def m_cycle(E, st, cx, args, kwargs, k):
    ix = idx_of(E, st, args[0])
    n = ix.n(st)

    def some(s):
        r = VIdx(None, lambda s2, j: ix.get(s2, j % n), 'cycle')
        k(s, r)

    def none(s):
        k(s, E.new_list(s, []))
    E.branch(st, n > 0, some, none)


@model('itertools.islice')
def m_islice(E, st, cx, args, kwargs, k):
    if len(args) == 2 and isinstance(args[1], VInt):
        v, n = args[0], args[1].t
        if isinstance(v, VGen):
            acc = E.new_list(st, [], hint=('islice', id(v.f.node)))
            E.fcount += 1
            fid = ('m', E.fcount)
            st.frames[fid] = {'%acc': acc}

            def body(s, item, cxb, knext):
                E.append(s, acc, item)
                E.branch(s, E.llen(s, acc) < n, knext, lambda s2: cxb.brk(s2))
            return E.branch(st, n > 0, lambda s: E.iterate(s, cx, v, body, lambda s2: k(s2, acc), (None, 0), lambda s2: k(s2, acc)),
                            lambda s: k(s, acc))
        ix = idx_of(E, st, v)
        m = ix.n(st) if ix.n is not None else None
        ln = n if m is None else z3.If(n < m, n, m)
        ln = z3.simplify(z3.If(ln < 0, z3.IntVal(0), ln))
        return k(st, VIdx(lambda s: ln, ix.get, 'islice'))
    raise Unsupported("islice form")


@model('itertools.count')
def m_count(E, st, cx, args, kwargs, k):
    a = args[0] if args else VInt(0)
    if not isinstance(a, VInt) or len(args) > 1 or kwargs:
        raise Unsupported("itertools.count with a step")
    it = VRef(E.new_ref(st), PIter(KInt))
    it.p.affine = a.t
    E.hset(st, it.t, '%pos', KInt, VInt(0))
    st.assume(itlen(it.t) < 0)
    k(st, it)


@model('itertools.repeat')
def m_repeat(E, st, cx, args, kwargs, k):
    v = args[0]
    n = arg(args, kwargs, 1, 'times')
    k(st, VIdx((lambda s: z3.If(n.t > 0, n.t, z3.IntVal(0))) if n is not None else None, lambda s, j: v, 'repeat'))


@model('toolz.sliding_window', 'toolz.itertoolz.sliding_window')
def m_sliding(E, st, cx, args, kwargs, k):
    w = args[0].t.as_long()
    ix = idx_of(E, st, args[1])
    n = ix.n(st)
    k(st, VIdx(lambda s: z3.simplify(z3.If(n >= w, n - (w - 1), z3.IntVal(0))),
               lambda s, j: VTuple([ix.get(s, z3.simplify(j + i)) for i in range(w)]), 'win'))


@model('toolz.pipe', 'toolz.functoolz.pipe')
def m_pipe(E, st, cx, args, kwargs, k):
    def go(i, s, v):
        if i == len(args):
            return k(s, v)
        if isinstance(args[i], VStar):
            # a list of operators of unknown length: what running them does is the contract's to say
            sp = E.specs.get(('pipe', 'fold'))
            if sp is None:
                raise Unsupported("pipe through a list of operators")
            E.trusted.add('toolz.pipe runs the operators it is given in order')
            return sp(E, s, cx, [v, args[i].v], {}, lambda s2, w: go(i + 1, s2, w))
        E.call(args[i], [v], {}, s, cx, lambda s2, w: go(i + 1, s2, w))
    go(1, st, args[0])


@model('map')
def m_map(E, st, cx, args, kwargs, k):
    """map(f, xs), as (f(x) for x in xs)"""
    if len(args) != 2:
        raise Unsupported("map of several iterables")
    nm = lambda i, c=ast.Load: ast.Name(id=i, ctx=c())
    n = ast.GeneratorExp(elt=ast.Call(func=nm('%mapf'), args=[nm('%mapx')], keywords=[]),
                         generators=[ast.comprehension(target=nm('%mapx', ast.Store), iter=nm('%mapit'), ifs=[], is_async=0)])
    line, col = E.site
    for x in ast.walk(n):
        x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = line, col, line, col
    E.fcount += 1
    fid = ('m', E.fcount)
    st.frames[fid] = {'%mapf': args[0], '%mapit': args[1]}
    f = VFunc(n, cx.mod, (cx.fid,) + tuple(E.frame_parents(cx)), cx.cls, '<map>')
    k(st, VMapIter(n, fid, cx.but(fid=fid, fn=f)))


def count_fn(E):
    return z3.Function('countTrue', z3.ArraySort(IntS, BoolS), IntS, IntS)


@model('sum', 'numpy.sum', 'statistics.fsum', 'math.fsum')
def m_sum(E, st, cx, args, kwargs, k):
    def go(s, seq):
        if isinstance(seq, VMasked):
            raise Unsupported("sum of masked array")
        if isinstance(seq, VTuple):
            acc = VInt(0)
            for x in seq.items:
                acc = E.arith(ast.Add(), acc, x)
            return k(s, acc)
        if isinstance(seq, VRef) and isinstance(seq.p, PList) and seq.p.nd and seq.p.k == KBool:
            # number of true entries; remembered so that arrays of that size can be aligned with the mask
            c = E.count_true(s, seq)
            E.maskcounts.append((z3.simplify(c), seq))
            return k(s, VInt(c))
        ix = idx_of(E, s, seq)
        n = ix.n(s)
        if z3.is_int_value(n):
            acc = VInt(0)
            for j in range(n.as_long()):
                acc = E.arith(ast.Add(), acc, ix.get(s, z3.IntVal(j)))
            return k(s, acc)
        kk = elem_kind_of(E, s, ix)
        if E.mode == 'bmc':
            s0 = s
            acc = VInt(0) if kk in (KInt, KBool) else VReal(0)
            b = E.N + 1
            E.side.append(n <= b)
            for j in range(b):
                x = at(E, s, ix, z3.IntVal(j))
                z = VInt(0) if kk in (KInt, KBool) else VReal(0)
                acc = E.arith(ast.Add(), acc, vite(E, z3.IntVal(j) < n, E.num(x), z))
            return k(s, acc)
        # the sum is a prefix-sum function of the sequence: S(0)=0, S(j+1)=S(j)+x(j)
        isint = kk in (KInt, KBool)
        S = z3.Function(fresh_name('psum'), IntS, IntS if isint else RealS)
        s.assume(S(0) == 0)
        s1 = s.fork()
        val = lambda j: (E.num(ix.get(s1, j)).t if isint else E.asreal(ix.get(s1, j)).t)
        s.assume(E.forall(0, n, lambda j: S(j + 1) == S(j) + val(j), pats=[lambda j: S(j + 1), lambda j: S(j)]))
        r = S(n)
        # consequences (by induction on the length, stated here as part of the model)
        s.assume(z3.Implies(E.forall(0, n, lambda j: val(j) >= 0), z3.And(r >= 0, E.forall(0, n, lambda j: val(j) <= r),
                                                                            E.forall(0, n, lambda j: z3.And(S(j) >= 0, S(j + 1) <= r)))))
        out = VInt(r) if isint else VReal(r)
        out.psum = S
        E.psums.append(S)
        k(s, out)
    if kwargs.get('axis') is not None and not isinstance(kwargs['axis'], VNone):
        if not (isinstance(kwargs['axis'], VInt)):
            raise Unsupported("axis")
    materialize(E, st, cx, args[0], go)


@model('numpy.count_nonzero')
def m_count_nonzero(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, VRef) and isinstance(v.p, PList) and v.p.nd:
            if v.p.k != KBool:
                return elementwise(E, s, v, lambda x: VBool(E.truth(s, x)), lambda s2, b: go(s2, b))
            c = E.count_true(s, v)
            E.maskcounts.append((z3.simplify(c), v))
            return k(s, VInt(c))
        raise Unsupported("count_nonzero")
    if kwargs:
        raise Unsupported("count_nonzero options")
    E.force(st, args[0], go)


@method('sum')
def mm_sum(E, st, cx, o, args, kwargs, k):
    m_sum(E, st, cx, [o], kwargs, k)


@model('statistics.mean', 'numpy.mean')
def m_mean(E, st, cx, args, kwargs, k):
    def go(s, seq):
        ix = idx_of(E, s, seq)
        n = ix.n(s)

        def some(s2):
            m_sum(E, s2, cx, [seq], {}, lambda s3, v: k(s3, VReal(E.quo(E.asreal(v).t, to_real(n)))))
        E.branch(s, n > 0, some, lambda s2: E.fail(s2, cx, 'ValueError'))
    materialize(E, st, cx, args[0], go)


def quant(E, st, cx, args, kwargs, k, isall):
    def go(s, seq):
        if isinstance(seq, VTuple):
            ts = [E.truth(s, x) for x in seq.items]
            return k(s, VBool(z3.simplify(z3.And(*ts) if isall else z3.Or(*ts)) if ts else isall))
        if isinstance(seq, VMasked):
            raise Unsupported("all/any of masked")
        ix = idx_of(E, s, seq)
        n = ix.n(s)
        s1 = s.fork()
        f = lambda j: E.truth(s1, ix.get(s1, j))
        b = fresh('all' if isall else 'any', BoolS)
        if isall:
            s.assume(b == E.forall(0, n, f))
        else:
            s.assume(b == E.exists(0, n, f))
        k(s, VBool(b))
    if isinstance(args[0], VMapIter) and E.mode == 'proof' and len(args[0].node.generators) == 1:
        # all(P(x) for x in xs): evaluate P once for an arbitrary element
        mi = args[0]
        g = mi.node.generators[0]

        def gi(s, itv):
            try:
                ix = idx_of(E, s, itv)
                n = ix.n(s)
                x = fresh('qx', IntS)
                s1 = s.fork()
                s1.assume(z3.And(x >= 0, x < n))
                el = ix.get(s1, x)

                def run(s2, cx2, k2):
                    E.fcount += 1
                    fid = ('c', E.fcount)
                    s2.frames[fid] = {}
                    f = VFunc(mi.node, mi.cx.mod, (mi.cx.fid,) + tuple(E.frame_parents(mi.cx)), mi.cx.cls, '<genexp>')
                    cx3 = mi.cx.but(fid=fid, fn=f, exc=cx2.exc)

                    def ifs(j, s3):
                        if j == len(g.ifs):
                            return E.ev(mi.node.elt, s3, cx3, lambda s4, v: k2(s4, VBool(E.truth(s4, v))))
                        E.ev(g.ifs[j], s3, cx3, lambda s4, v: E.branch(s4, E.truth(s4, v), lambda a: ifs(j + 1, a),
                                                                        lambda b: k2(b, VBool(isall))))
                    E.assign(g.target, el, s2, cx3, lambda s3: ifs(0, s3))
                v = pure(E, s1, run)
            except Unsupported:
                return materialize(E, s, cx, mi, go)
            f = lambda j: subst_v(v, [(x, j)]).t
            b = fresh('all' if isall else 'any', BoolS)
            s.assume(b == (E.forall(0, n, f) if isall else E.exists(0, n, f)))
            k(s, VBool(b))
        return E.ev(g.iter, st, mi.cx.but(exc=cx.exc), lambda s, itv: E.force(s, itv, gi))
    materialize(E, st, cx, args[0], go)


@model('all', 'numpy.all')
def m_all(E, st, cx, args, kwargs, k):
    quant(E, st, cx, args, kwargs, k, True)


@model('any', 'numpy.any')
def m_any(E, st, cx, args, kwargs, k):
    quant(E, st, cx, args, kwargs, k, False)


@method('all')
def mm_all(E, st, cx, o, args, kwargs, k):
    quant(E, st, cx, [o], kwargs, k, True)


@method('any')
def mm_any(E, st, cx, o, args, kwargs, k):
    quant(E, st, cx, [o], kwargs, k, False)


@method('min')
def mm_min(E, st, cx, o, args, kwargs, k):
    m_min(E, st, cx, [o], {}, k)


@method('max')
def mm_max(E, st, cx, o, args, kwargs, k):
    m_max(E, st, cx, [o], {}, k)


# ------------------------------------------------------------------ iterators
def itlen(it_t):
    """number of values an external iterator will deliver; negative: endless"""
    return z3.Function('itlen', IntS, IntS)(it_t)


@model('next')
def m_next(E, st, cx, args, kwargs, k):
    it = args[0]
    if isinstance(it, VMaybe):
        return E.force(st, it, lambda s, v: m_next(E, s, cx, [v] + args[1:], kwargs, k))
    if isinstance(it, VRef) and isinstance(it.p, PIter):
        pos = E.hget(st, it.t, '%pos', KInt)
        ln = itlen(it.t)

        def have(s):
            E.hset(s, it.t, '%pos', KInt, VInt(z3.simplify(pos.t + 1)))
            v = E.stream(it.p.k, it.t, pos.t) if it.p.affine is None else VInt(z3.simplify(it.p.affine + pos.t))
            E.wf(s, v)
            k(s, v)

        def end(s):
            if len(args) > 1:
                return k(s, args[1])
            E.fail(s, cx, 'StopIteration')
        return E.branch(st, z3.Or(ln < 0, pos.t < ln), have, end)
    if isinstance(it, VGen):
        if getattr(it, 'used', False) and E.mode != 'bmc':
            raise Unsupported("second next() on a generator")
        it.used = True
        gcx = it.cx

        def gexc(s, e):
            cx.exc(s, VExc('RuntimeError') if e.name == 'StopIteration' else e)

        def end(s, v=None):
            if len(args) > 1:
                return k(s, args[1])
            E.fail(s, cx, 'StopIteration')
        return E.ex(it.f.node.body, 0, st, gcx.but(yld=lambda s, v, resume: k(s, v), ret=end, exc=gexc), end)
    raise Unsupported(f"next of {type(it).__name__}")


@model('iter')
def m_iter(E, st, cx, args, kwargs, k):
    v = args[0]
    if isinstance(v, VRef) and isinstance(v.p, PList) and v.p.k is not None:
        # a list iterator: an external iterator whose stream is the list's current contents
        # (the verified code never changes a list while an iterator over it is live)
        it = VRef(E.new_ref(st), PIter(v.p.k))
        n = E.llen(st, v)
        st.assume(itlen(it.t) == n)
        E.hset(st, it.t, '%pos', KInt, VInt(0))
        s0 = st.fork()
        for c, f in enumerate(E.stream_fn(v.p.k)):
            st.assume(E.forall(0, n, lambda j: f(it.t, j) == v.p.k.pack(E.lget(s0, v, j, wf=False))[c]))
        return k(st, it)
    if isinstance(v, (VGen, VMapIter)) or (isinstance(v, VRef) and isinstance(v.p, PIter)):
        return k(st, v)
    raise Unsupported("iter")


# -------------------------------------------------------------- type predicates
def type_name(v):
    if isinstance(v, VBuiltin):
        return v.d
    if isinstance(v, VClass):
        return v.info.qual()
    return None


def inst(E, v, t):
    """isinstance(v, t): True/False or Unsupported."""
    if isinstance(t, VTuple):
        rs = [inst(E, v, x) for x in t.items]
        return any(rs)
    d = type_name(t)
    if d is None:
        raise Unsupported("isinstance type")
    short = d.split('.')[-1]
    if isinstance(v, VNone):
        return short == 'NoneType' or short == 'object'
    if isinstance(v, VRef) and isinstance(v.p, PList):
        if v.p.nd:
            return short in ('ndarray', 'Iterable', 'Sized', 'Container', 'object')
        return short in ('list', 'Sequence', 'Iterable', 'Collection', 'MutableSequence', 'Sized', 'object', 'List', 'Container')
    if isinstance(v, VTuple):
        return short in ('tuple', 'Sequence', 'Iterable', 'Collection', 'Sized', 'object')
    if isinstance(v, VBool):
        return short in ('bool', 'int', 'Number', 'Integral', 'Real', 'object')
    if isinstance(v, VInt):
        return short in ('int', 'Number', 'Integral', 'Real', 'object')
    if isinstance(v, VReal):
        return short in ('float', 'Number', 'Real', 'object')
    if isinstance(v, VStr):
        return short in ('str', 'Sequence', 'Iterable', 'Collection', 'Sized', 'object')
    if isinstance(v, (VGen, VMapIter)) or (isinstance(v, VRef) and isinstance(v.p, PIter)):
        return short in ('Iterator', 'Iterable', 'Generator', 'object')
    if isinstance(v, VRef) and isinstance(v.p, PSet):
        return short in ('set', 'Set', 'Iterable', 'Collection', 'Sized', 'object')
    if isinstance(v, VRef) and isinstance(v.p, PObj):
        if short in ('list', 'tuple', 'ndarray', 'str', 'int', 'float', 'type', 'Sequence', 'Iterable', 'Iterator', 'curry', 'bool'):
            return False
        ci = E.class_info(v.p.cls)
        if ci is not None and isinstance(t, VClass):
            return any(c.qual() == t.info.qual() for c in ci.mro())
        if v.p.cls == d or v.p.cls.split('.')[-1] == short:
            return True
        raise Unsupported(f"isinstance of {v.p.cls} and {d}")
    if isinstance(v, (VFunc, VBound, VBuiltin, VSpec)):
        if short in ('Callable', 'object'):
            return True
        if short in ('type',):
            return False
        if short in ('list', 'Iterator', 'curry', 'Sequence', 'int', 'float'):
            return False
    if isinstance(v, VPartial):
        return short in ('curry', 'Callable', 'object')
    if isinstance(v, VClass):
        return short in ('type', 'Callable', 'object')
    if isinstance(v, VDictC):
        return short in ('dict', 'Mapping', 'Iterable', 'object')
    raise Unsupported(f"isinstance({type(v).__name__}, {d})")


@model('isinstance')
def m_isinstance(E, st, cx, args, kwargs, k):
    E.force(st, args[0], lambda s, v: k(s, VBool(inst(E, v, args[1]))))


@model('hasattr')
def m_hasattr(E, st, cx, args, kwargs, k):
    def go(s, v):
        nm = args[1].s
        if isinstance(v, VRef) and isinstance(v.p, PObj):
            h = E.attr_kind(v.p.cls, 'has.' + nm)
            if h is not None:
                return k(s, E.hget(s, v.t, 'has.' + nm, KBool))
            if E.attr_kind(v.p.cls, nm) is not None or (v.p.cls, nm) in E.specs:
                return k(s, VBool(True))
            ci = E.class_info(v.p.cls)
            if ci is not None and (ci.find(nm)[1] is not None):
                return k(s, VBool(True))
            return k(s, VBool(False))
        if isinstance(v, VNone):
            return k(s, VBool(False))
        if isinstance(v, VRef) and isinstance(v.p, PList):
            return k(s, VBool(nm in ('__len__', '__iter__', '__getitem__')))
        raise Unsupported("hasattr")
    E.force(st, args[0], go)


@model('getattr')
def m_getattr(E, st, cx, args, kwargs, k):
    if not isinstance(args[1], VStr) or not isinstance(args[1].s, str):
        raise Unsupported("getattr with a computed name")
    nm = args[1].s
    if len(args) == 2:
        return E.force(st, args[0], lambda s, v: E.getattr(v, nm, s, cx, k))

    def has(s, h):
        E.branch(s, E.truth(s, h), lambda a: E.force(a, args[0], lambda s2, v: E.getattr(v, nm, s2, cx, k)),
                 lambda b: k(b, args[2]))
    m_hasattr(E, st, cx, args[:2], {}, has)


@model('callable')
def m_callable(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, (VFunc, VBound, VPartial, VBuiltin, VSpec, VClass, VMeth)):
            return k(s, VBool(True))
        if isinstance(v, VRef) and isinstance(v.p, PObj):
            ci = E.class_info(v.p.cls)
            return k(s, VBool((v.p.cls, '__call__') in E.specs or (ci is not None and ci.find('__call__')[1] is not None)))
        k(s, VBool(False))
    E.force(st, args[0], go)


@model('type')
def m_type(E, st, cx, args, kwargs, k):
    v = args[0]
    ci = E.class_of_value(v)
    if ci is not None and not isinstance(v, VClass):
        return k(st, VClass(ci))
    if isinstance(v, VInt):
        return k(st, VBuiltin('int'))
    if isinstance(v, VRef) and isinstance(v.p, PList):
        return k(st, VBuiltin('numpy.ndarray' if v.p.nd else 'list'))
    if isinstance(v, VReal):
        # a Python float or some other real type (numpy.float64, ...)
        return E.branch(st, fresh('isfloat', BoolS), lambda s: k(s, VBuiltin('float')), lambda s: k(s, VBuiltin('numpy.float64')))
    if isinstance(v, VBool):
        return k(st, VBuiltin('bool'))
    raise Unsupported("type()")


@model('id')
def m_id(E, st, cx, args, kwargs, k):
    if isinstance(args[0], VRef):
        return k(st, VInt(args[0].t))
    raise Unsupported("id")


# ------------------------------------------------------------------- numbers
@model('abs', 'numpy.abs', 'numpy.absolute', 'math.fabs')
def m_abs(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, VInt):
            return k(s, VInt(z3.If(v.t < 0, -v.t, v.t)))
        if isinstance(v, VReal):
            return k(s, VReal(z3.If(v.t < 0, -v.t, v.t), v.nan))
        if isinstance(v, VRef) and isinstance(v.p, PList) and v.p.nd:
            return elementwise(E, s, v, lambda x: VInt(z3.If(x.t < 0, -x.t, x.t)) if isinstance(x, VInt)
                               else VReal(z3.If(x.t < 0, -x.t, x.t), x.nan), k)
        raise Unsupported("abs")
    E.force(st, args[0], go)


def elementwise(E, st, v, f, k, extra=None):
    if isinstance(v, VMasked):
        g = v.f
        kk = kind_of(f(g(z3.IntVal(0))))
        return k(st, VMasked(lambda j: f(g(j)), v.mask, v.n, kk))
    n = E.llen(st, v)
    s0 = st.fork()
    x0 = E.lget(s0, v, z3.IntVal(0), wf=False)
    kk = kind_of(f(x0))
    k(st, E.mk_list(st, n, lambda j: f(E.lget(s0, v, j, wf=False)), kk, True))


def transcendental(name):
    def m(E, st, cx, args, kwargs, k):
        if kwargs or len(args) != 1:
            raise Unsupported("options of " + name)

        def f(x):
            x = E.asreal(x)
            return VReal(E.math(name, x.t), x.nan)

        def go(s, v):
            if isinstance(v, VBool):
                v = E.num(v)
            if isinstance(v, (VInt, VReal)):
                return k(s, f(v))
            if isinstance(v, VMasked) or (isinstance(v, VRef) and isinstance(v.p, PList) and v.p.nd):
                return elementwise(E, s, v, f, k)
            raise Unsupported(name)
        E.trusted.add(f"{name} is some function of its argument (uninterpreted)")
        E.force(st, args[0], go)
    return m


for _n in ('cos', 'sin', 'tan', 'exp', 'log', 'sqrt', 'tanh', 'arctan', 'log2', 'log10'):
    for _m in ('numpy.', 'math.'):
        MODELS[_m + _n] = transcendental(_n)


@model('numpy.prod', 'math.prod')
def m_prod(E, st, cx, args, kwargs, k):
    def go(s, seq):
        ix = idx_of(E, s, seq)
        n = ix.n(s)
        if E.mode == 'bmc':
            E.side.append(n <= E.N + 1)
            acc = VReal(1)
            for j in range(E.N + 1):
                acc = E.arith(ast.Mult(), acc, vite(E, z3.IntVal(j) < n, E.asreal(at(E, s, ix, z3.IntVal(j))), VReal(1)))
            return k(s, acc)
        P = z3.Function(fresh_name('pprod'), IntS, RealS)
        s.assume(P(0) == 1)
        s1 = s.fork()
        val = lambda j: E.asreal(ix.get(s1, j)).t
        s.assume(E.forall(0, n, lambda j: P(j + 1) == E.mul(P(j), val(j)), pats=[lambda j: P(j + 1), lambda j: P(j)]))
        E.pprods.append((P, n))
        k(s, VReal(P(n)))
    if kwargs:
        raise Unsupported("prod options")
    materialize(E, st, cx, args[0], go)


@model('warnings.warn')
def m_warn(E, st, cx, args, kwargs, k):
    k(st, NONE)


@model('int')
def m_int(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, VInt):
            return k(s, v)
        if isinstance(v, VBool):
            return k(s, E.num(v))
        if isinstance(v, VReal):
            return E.branch(s, v.nan, lambda a: E.fail(a, cx, 'ValueError'), lambda b: k(b, VInt(E.trunc(v.t))))
        if isinstance(v, VNone):
            return E.fail(s, cx, 'TypeError')
        raise Unsupported("int()")
    E.force(st, args[0], go)


@model('float', 'numpy.float64')
def m_float(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, (VInt, VReal, VBool)):
            return k(s, E.asreal(v))
        if isinstance(v, VStr) and v.s in ('nan', 'NaN'):
            return k(s, VReal(z3.RealVal(0), TRUE))
        if isinstance(v, VNone):
            return E.fail(s, cx, 'TypeError')
        raise Unsupported("float()")
    E.force(st, args[0], go)


@model('bool')
def m_bool(E, st, cx, args, kwargs, k):
    k(st, VBool(E.truth(st, args[0])))


@model('str', 'repr')
def m_str(E, st, cx, args, kwargs, k):
    k(st, VStr(None))


@model('print')
def m_print(E, st, cx, args, kwargs, k):
    k(st, NONE)


@model('math.isnan', 'numpy.isnan')
def m_isnan(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, (VInt, VBool)):
            return k(s, VBool(False))
        if isinstance(v, VReal):
            return k(s, VBool(v.nan))
        if isinstance(v, VNone):
            return E.fail(s, cx, 'TypeError')
        if isinstance(v, VRef) and isinstance(v.p, PList) and v.p.nd:
            return elementwise(E, s, v, lambda x: VBool(x.nan if isinstance(x, VReal) else FALSE), k)
        raise Unsupported("isnan")
    E.force(st, args[0], go)


@model('math.isclose')
def m_isclose(E, st, cx, args, kwargs, k):
    rel, absl = kwargs.get('rel_tol', VReal(z3.RealVal('1/1000000000'))), kwargs.get('abs_tol', VReal(z3.RealVal(0)))
    if not all(isinstance(t, (VReal, VInt)) for t in (rel, absl)) or len(args) > 2:
        raise Unsupported("isclose tolerances")
    rel, absl = E.asreal(rel).t, E.asreal(absl).t

    def go(s, a, b):
        a, b = E.asreal(a), E.asreal(b)
        ab = lambda t: z3.If(t < 0, -t, t)
        big = z3.If(ab(a.t) > ab(b.t), ab(a.t), ab(b.t))
        k(s, VBool(z3.simplify(z3.And(z3.Not(a.nan), z3.Not(b.nan), z3.Or(ab(a.t - b.t) <= rel * big, ab(a.t - b.t) <= absl)))))

    def num(s, v, k2):
        if isinstance(v, VNone):
            return E.fail(s, cx, 'TypeError')
        k2(s, v)
    E.force(st, args[0], lambda s, a: num(s, a, lambda s, a: E.force(s, args[1], lambda s2, b: num(s2, b, lambda s2, b: go(s2, a, b)))))


@model('math.floor', 'numpy.floor')
def m_floor(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, VInt):
            return k(s, v)
        if isinstance(v, VReal):
            return k(s, VInt(z3.ToInt(v.t)))
        if isinstance(v, (VRef, VMasked)):
            return elementwise(E, s, v, lambda x: VReal(to_real(z3.ToInt(E.asreal(x).t))), k)
        raise Unsupported("floor")
    E.force(st, args[0], go)


@model('math.ceil', 'numpy.ceil')
def m_ceil(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, VInt):
            return k(s, v)
        if isinstance(v, VReal):
            return k(s, VInt(-z3.ToInt(-v.t)))
        raise Unsupported("ceil")
    E.force(st, args[0], go)


def rnd(t):
    """round half to even"""
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    return z3.If(d < z3.RealVal('1/2'), f, z3.If(d > z3.RealVal('1/2'), f + 1, z3.If(f % 2 == 0, f, f + 1)))


@model('round', 'numpy.round', 'numpy.rint')
def m_round(E, st, cx, args, kwargs, k):
    if len(args) > 1 or kwargs:
        raise Unsupported("round digits")

    def go(s, v):
        if isinstance(v, VInt):
            return k(s, v)
        if isinstance(v, VReal):
            return k(s, VInt(rnd(v.t)))
        if isinstance(v, (VRef, VMasked)):
            return elementwise(E, s, v, lambda x: VReal(to_real(rnd(E.asreal(x).t))), k)
        raise Unsupported("round")
    E.force(st, args[0], go)


# ------------------------------------------------------------------- copying
def copy_list(E, st, v):
    if v.p.k is None:
        return E.new_list(st, [], nd=v.p.nd)
    s0 = st.fork()
    return E.mk_list(st, E.llen(st, v), lambda j: E.lget(s0, v, j, wf=False), v.p.k, v.p.nd)


def obj_attrs(E, cls):
    out = {}
    for key, kd in E.schema.items():
        if isinstance(key, str):
            out.setdefault(key, kd)
    for key, kd in E.schema.items():
        if isinstance(key, tuple) and key[0] == cls:
            out[key[1]] = kd
    # attributes of other classes share a name only if the schema says so
    return out


@model('copy.copy')
def m_copy(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, (VNone, VInt, VReal, VBool, VStr, VTuple, VOpq, VFunc, VBuiltin, VSpec)):
            return k(s, v)
        if isinstance(v, VRef) and isinstance(v.p, PList):
            return k(s, copy_list(E, s, v))
        if isinstance(v, VRef) and isinstance(v.p, PObj):
            o = E.new_obj(s, v.p.cls)
            for a, kd in obj_attrs(E, v.p.cls).items():
                E.hset(s, o.t, a, kd, E.hget(s, v.t, a, kd))
            return k(s, o)
        if isinstance(v, VRef) and isinstance(v.p, PSet):
            r = VRef(E.new_ref(s), PSet())
            A = E.arr(s, ('set',), z3.ArraySort(U, BoolS))
            s.heap[('set',)] = z3.Store(A, r.t, z3.Select(A, v.t))
            return k(s, r)
        raise Unsupported("copy")
    E.force(st, args[0], go)


@model('copy.deepcopy')
def m_deepcopy(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, (VNone, VInt, VReal, VBool, VStr, VOpq, VFunc, VBuiltin, VSpec)):
            return k(s, v)
        if isinstance(v, VRef) and isinstance(v.p, PList):
            kk = v.p.k
            if kk is None or kk in (KInt, KBool, KReal, KFloat, KOpq) or isinstance(kk, KTuple):
                return k(s, copy_list(E, s, v))
            if isinstance(kk, KRef) and isinstance(kk.p, PList) and kk.p.k in (KInt, KBool, KReal, KFloat, KOpq):
                # a list of flat lists: n fresh lists at consecutive addresses
                n = E.llen(s, v)
                s0 = s.fork()
                base = s.alloc
                s.alloc = z3.simplify(s.alloc + n)
                in_ = kk.p.k
                keys = [(('len',), IntS, lambda r: E.lens(s0, r))]
                for c, so in in_.comps:
                    keys.append((('el', in_.key, c), z3.ArraySort(IntS, so),
                                 (lambda key, so: lambda r: z3.Select(E.arr(s0, key, z3.ArraySort(IntS, so)), r))(('el', in_.key, c), so)))
                for key, so, get in keys:
                    old = E.arr(s0, key, so)
                    A = fresh('dc', z3.ArraySort(IntS, so))
                    s.assume(E.forall_ref(0, base, lambda r: z3.Select(A, r) == z3.Select(old, r), pats=[lambda r: z3.Select(A, r)]))
                    s.assume(E.forall(0, n, lambda j: z3.Select(A, base + j) == get(E.lget(s0, v, j, wf=False).t)))
                    s.heap[key] = A
                return k(s, E.mk_list(s, n, lambda j: VRef(base + j, kk.p), kk))
            raise Unsupported("deepcopy of a list of objects")
        if isinstance(v, VRef) and isinstance(v.p, PObj):
            o = E.new_obj(s, v.p.cls)

            attrs = list(obj_attrs(E, v.p.cls).items())

            def rec(i, s2):
                if i == len(attrs):
                    return k(s2, o)
                a, kd = attrs[i]
                go2(s2, E.hget(s2, v.t, a, kd), lambda s3, w: (E.hset(s3, o.t, a, kd, w), rec(i + 1, s3))[1])
            return rec(0, s)
        if isinstance(v, VTuple):
            raise Unsupported("deepcopy of a tuple")
        raise Unsupported("deepcopy")

    def go2(s, v, k2):
        E.force(s, v, lambda s2, w: m_deepcopy(E, s2, cx, [w], {}, k2))
    E.force(st, args[0], go)


@method('copy', 'tolist')
def mm_copy(E, st, cx, o, args, kwargs, k):
    m_copy(E, st, cx, [o], {}, k)


@model('uuid.uuid4')
def m_uuid(E, st, cx, args, kwargs, k):
    """a value different from every uuid drawn before (collision-freeness is assumed)"""
    g = st.ghost.get('uuids')
    u = fresh('uuid', U)
    if g is not None:
        st.assume(z3.Not(z3.Select(g, u)))
        st.ghost['uuids'] = z3.Store(g, u, TRUE)
    k(st, VOpq(u))


@model('set')
def m_set(E, st, cx, args, kwargs, k):
    C = z3.K(U, FALSE)
    A = E.arr(st, ('set',), z3.ArraySort(U, BoolS))
    if args:
        v = args[0]
        if isinstance(v, VRef) and isinstance(v.p, PSet):
            C = z3.Select(A, v.t)
        else:
            ix = E.to_idx(st, v) if not isinstance(v, VTuple) else None
            n = ix.n(st) if ix is not None and ix.n is not None else None
            if isinstance(v, VTuple):
                xs = v.items
            elif n is not None and z3.is_int_value(z3.simplify(n)):
                xs = [ix.get(st, z3.IntVal(j)) for j in range(z3.simplify(n).as_long())]
            else:
                raise Unsupported("set(iterable)")
            for x in xs:
                if not isinstance(x, VOpq):
                    raise Unsupported("set of non-opaque values")
                C = z3.Store(C, x.t, TRUE)
    r = VRef(E.new_ref(st), PSet())
    A = E.arr(st, ('set',), z3.ArraySort(U, BoolS))
    st.heap[('set',)] = z3.Store(A, r.t, C)
    k(st, r)


@model('numpy.power', 'pow', 'math.pow', 'operator.pow')
def m_power(E, st, cx, args, kwargs, k):
    if kwargs or len(args) != 2:
        raise Unsupported("power options")
    E.force(st, args[0], lambda s, a: E.force(s, args[1], lambda s2, b: E.binop(ast.Pow(), a, b, s2, cx, k)))


@method('update')
def mm_update(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VRef) and isinstance(o.p, PSet) and isinstance(args[0], VRef) and isinstance(args[0].p, PSet):
        A = E.arr(st, ('set',), z3.ArraySort(U, BoolS))
        a, b = z3.Select(A, o.t), z3.Select(A, args[0].t)
        st.heap[('set',)] = z3.Store(A, o.t, z3.SetUnion(a, b))
        return k(st, NONE)
    raise Unsupported("update")


@method('__iter__')
def lm_iter(E, st, cx, o, args, kwargs, k):
    if not (isinstance(o, VRef) and isinstance(o.p, PList)):
        raise Unsupported('__iter__')
    k(st, o)          # only ever iterated over (next() of a list is not supported)


@method('append')
def mm_append(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VRef) and isinstance(o.p, PList) and not o.p.nd:
        if isinstance(kind_of(args[0]), KConst):
            raise Unsupported("list of non-data values")
        v = args[0]
        if isinstance(v, VMaybe) and o.p.k is not None and not isinstance(o.p.k, KMaybe):
            return E.force(st, v, lambda s, w: (E.append(s, o, w), k(s, NONE))[1])
        E.append(st, o, v)
        return k(st, NONE)
    raise Unsupported("append")


@method('extend')
def mm_extend(E, st, cx, o, args, kwargs, k):
    if not (isinstance(o, VRef) and isinstance(o.p, PList) and not o.p.nd):
        raise Unsupported("extend")

    def got(s, v):
        if isinstance(v, VNone):
            return E.fail(s, cx, 'TypeError')

        def go(s, v):
            if isinstance(v, VRef) and isinstance(v.p, PList) and v.p.k is None:
                return k(s, NONE)
            ix = idx_of(E, s, v)
            n2 = ix.n(s)
            n1 = E.llen(s, o)
            if z3.is_int_value(n2) and n2.as_long() <= 4:
                for j in range(n2.as_long()):
                    E.append(s, o, ix.get(s, z3.IntVal(j)))
                return k(s, NONE)
            kk = elem_kind_of(E, s, ix)
            if o.p.k is None:
                o.p.k = kk
            kk = o.p.k
            s0 = s.fork()
            for c, (cn, so) in enumerate(kk.comps):
                A = fresh('ext', z3.ArraySort(IntS, so))
                old = E.elarr(s0, kk, cn, so, o.t)
                s.assume(E.forall(0, n1, lambda j: z3.Select(A, j) == z3.Select(old, j), pats=[lambda j: z3.Select(A, j)]))
                s.assume(E.forall(0, n2, lambda j: z3.Select(A, z3.simplify(n1 + j)) == kk.pack(ix.get(s0, j))[c],
                                  pats=[lambda j: elem_term(ix.get(s0.fork(), j))]))
                if E.mode == 'proof':
                    s.assume(E.forall(n1, n1 + n2, lambda j: z3.Select(A, j) == kk.pack(ix.get(s0, j - n1))[c], pats=[lambda j: z3.Select(A, j)]))
                key = ('el', kk.key, cn)
                s.heap[key] = z3.Store(E.arr(s, key, z3.ArraySort(IntS, so)), o.t, A)
            E.setlen(s, o, z3.simplify(n1 + n2))
            k(s, NONE)
        materialize(E, s, cx, v, go)
    E.force(st, args[0], got)


@method('clear')
def mm_clear(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VRef) and isinstance(o.p, PList):
        E.setlen(st, o, 0)
        return k(st, NONE)
    raise Unsupported("clear")


@method('insert')
def mm_insert(E, st, cx, o, args, kwargs, k):
    if not (isinstance(o, VRef) and isinstance(o.p, PList) and not o.p.nd):
        raise Unsupported("insert")
    n = E.llen(st, o)
    i = args[0].t
    j = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))
    E.list_insert(st, o, n, z3.simplify(j), args[1], lambda s: k(s, NONE))


@method('pop')
def mm_pop(E, st, cx, o, args, kwargs, k):
    if not (isinstance(o, VRef) and isinstance(o.p, PList) and not o.p.nd):
        raise Unsupported("pop")
    n = E.llen(st, o)
    i = args[0] if args else VInt(-1)

    def go(s, j):
        v = E.lget(s, o, j)
        if not args:
            E.setlen(s, o, z3.simplify(n - 1))
            return k(s, v)
        E.list_delete(s, o, n, j, lambda s2: k(s2, v))
    E.norm_index(st, cx, n, i, go)


@method('keys')
def mm_keys(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VDictC):
        return k(st, VTuple([VStr(x) for x in o.d]))
    raise Unsupported("keys")


@method('items')
def mm_items(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VDictC):
        return k(st, VTuple([VTuple([VStr(x), y]) for x, y in o.d.items()]))
    raise Unsupported("items")


@method('get')
def mm_get(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VDictC) and isinstance(args[0], VStr):
        return k(st, o.d.get(args[0].s, args[1] if len(args) > 1 else NONE))
    raise Unsupported("get")


@method('format', 'join', 'debug', 'info', 'warning', 'write', 'flush', 'error')
def mm_str(E, st, cx, o, args, kwargs, k):
    k(st, VStr(None))


# ----------------------------------------------------------------- randomness
def drew(E, st, L, f):
    """tell the contract (ghost state) about L random integers f(0..L-1)"""
    if E.on_draw is not None:
        E.on_draw(E, st, L, f)


def rand_idx(E, st, n, p='ri'):
    i = fresh(p, IntS)
    st.assume(z3.And(i >= 0, i < n))
    drew(E, st, z3.IntVal(1), lambda j: i)
    return i


@model('random.random')
def m_random(E, st, cx, args, kwargs, k):
    x = fresh('rnd', RealS)
    st.assume(z3.And(x >= 0, x < 1))
    k(st, VReal(x))


@model('random.uniform')
def m_runiform(E, st, cx, args, kwargs, k):
    a, b = E.asreal(args[0]), E.asreal(args[1])
    x = fresh('rnd', RealS)
    st.assume(z3.Implies(a.t <= b.t, z3.And(x >= a.t, x <= b.t)))
    st.assume(z3.Implies(a.t > b.t, z3.And(x >= b.t, x <= a.t)))
    if E.on_real is not None:
        E.on_real(E, st, x)
    k(st, VReal(x))


@model('random.gauss', 'random.normalvariate')
def m_gauss(E, st, cx, args, kwargs, k):
    k(st, VReal(fresh('rnd', RealS)))


@model('random.randrange')
def m_randrange(E, st, cx, args, kwargs, k):
    lo = args[0].t if len(args) > 1 else z3.IntVal(0)
    hi = args[1].t if len(args) > 1 else args[0].t
    if len(args) > 2:
        raise Unsupported("randrange step")

    def ok(s):
        i = fresh('ri', IntS)
        s.assume(z3.And(i >= lo, i < hi))
        drew(E, s, z3.IntVal(1), lambda j: i)
        k(s, VInt(i))
    E.branch(st, hi > lo, ok, lambda s: E.fail(s, cx, 'ValueError'))


@model('random.randint')
def m_randint(E, st, cx, args, kwargs, k):
    m_randrange(E, st, cx, [args[0], VInt(args[1].t + 1)], {}, k)


@model('random.choice')
def m_choice(E, st, cx, args, kwargs, k):
    def go(s, seq):
        ix = idx_of(E, s, seq)
        n = ix.n(s)

        def ok(s2):
            if isinstance(seq, VTuple):
                i = rand_idx(E, s2, n)
                return k(s2, ix.get(s2, i))
            k(s2, ix.get(s2, rand_idx(E, s2, n)))
        E.branch(s, n > 0, ok, lambda s2: E.fail(s2, cx, 'IndexError'))
    E.force(st, args[0], go)


@model('random.choices')
def m_choices(E, st, cx, args, kwargs, k):
    w = arg(args, kwargs, 1, 'weights')
    kk = kwargs.get('k', VInt(1))

    def go(s, seq):
        ix = idx_of(E, s, seq)
        n = ix.n(s)

        def ok(s2):
            f = z3.Function(fresh_name('chs'), IntS, IntS)
            L = z3.simplify(z3.If(kk.t > 0, kk.t, z3.IntVal(0)))
            s0 = s2.fork()
            s2.assume(E.forall(0, L, lambda j: z3.And(f(j) >= 0, f(j) < n), pats=[lambda j: f(j)]))
            drew(E, s2, L, f)
            if w is not None and not isinstance(w, VNone):
                wi = idx_of(E, s2, w)
                s2.assume(E.forall(0, L, lambda j: E.asreal(wi.get(s0, f(j))).t > 0, pats=[lambda j: f(j)]))
            if z3.is_int_value(L) and L.as_long() <= 4:
                return k(s2, E.new_list(s2, [ix.get(s2, f(z3.IntVal(j))) for j in range(L.as_long())]))
            r = E.mk_list(s2, L, lambda j: ix.get(s0, f(j)), elem_kind_of(E, s2, ix))
            k(s2, r)
        E.branch(s, n > 0, ok, lambda s2: E.fail(s2, cx, 'IndexError'))
    materialize(E, st, cx, args[0], go)


@model('random.sample')
def m_sample(E, st, cx, args, kwargs, k):
    kk = arg(args, kwargs, 1, 'k')
    ix = idx_of(E, st, args[0])
    n = ix.n(st)

    def ok(s):
        f = z3.Function(fresh_name('smp'), IntS, IntS)
        inv = z3.Function(fresh_name('smpinv'), IntS, IntS)
        s0 = s.fork()
        s.assume(E.forall(0, kk.t, lambda j: z3.And(f(j) >= 0, f(j) < n, inv(f(j)) == j), pats=[lambda j: f(j)]))
        drew(E, s, kk.t, f)
        k(s, E.mk_list(s, kk.t, lambda j: ix.get(s0, f(j)), elem_kind_of(E, s, ix)))
    E.branch(st, z3.And(kk.t >= 0, kk.t <= n), ok, lambda s: E.fail(s, cx, 'ValueError'))


def permuted(E, st, o):
    """contents of list o become a permutation of themselves"""
    n = E.llen(st, o)
    f = z3.Function(fresh_name('prm'), IntS, IntS)
    inv = z3.Function(fresh_name('prminv'), IntS, IntS)
    s0 = st.fork()
    st.assume(E.forall(0, n, lambda j: z3.And(f(j) >= 0, f(j) < n, inv(f(j)) == j), pats=[lambda j: f(j)]))
    st.assume(E.forall(0, n, lambda j: z3.And(inv(j) >= 0, inv(j) < n, f(inv(j)) == j), pats=[lambda j: inv(j)]))
    kk = o.p.k
    for c, (cn, so) in enumerate(kk.comps):
        A = fresh('shf', z3.ArraySort(IntS, so))
        st.assume(E.forall(0, n, lambda j: z3.Select(A, j) == kk.pack(E.lget(s0, o, f(j), wf=False))[c], pats=[lambda j: z3.Select(A, j)]))
        key = ('el', kk.key, cn)
        st.heap[key] = z3.Store(E.arr(st, key, z3.ArraySort(IntS, so)), o.t, A)


@model('random.shuffle', 'numpy.random.shuffle')
def m_shuffle(E, st, cx, args, kwargs, k):
    if args[0].p.k is not None:
        permuted(E, st, args[0])
    k(st, NONE)


def size_of(E, st, v):
    """numpy size argument -> Int term, or None for a scalar"""
    if v is None or isinstance(v, VNone):
        return None
    if isinstance(v, VInt):
        return v.t
    if isinstance(v, VTuple):
        if len(v.items) == 1 and isinstance(v.items[0], VInt):
            return v.items[0].t
        if len(v.items) == 0:
            return None
    raise Unsupported("array shape")


def broadcast(E, st, vals):
    """-> (n or None, [f(j)], masked template or None)"""
    n, fs, tmpl = None, [], None
    s0 = st.fork()
    for v in vals:
        if isinstance(v, VRef) and isinstance(v.p, PList):
            n = E.llen(st, v) if n is None else n
            fs.append((lambda v: lambda j: E.lget(s0, v, j, wf=False))(v))
        elif isinstance(v, VMasked):
            tmpl = v
            fs.append(v.f)
        elif isinstance(v, (VInt, VReal, VBool)):
            fs.append((lambda v: lambda j: v)(v))
        elif isinstance(v, VTuple):
            ix = idx_of(E, st, v)
            n = ix.n(st) if n is None else n
            fs.append((lambda ix: lambda j: ix.get(s0, j))(ix))
        else:
            raise Unsupported("array argument")
    return n, fs, tmpl


def draw(E, st, cx, params, size, mk, kind, k):
    """Array (or scalar) of independent draws; mk(term, [param values at j]) -> constraint."""
    n, fs, tmpl = broadcast(E, st, params)
    if tmpl is None and n is None and size is not None:
        for c, mref in E.maskcounts:
            if z3.eq(c, z3.simplify(size)):
                tmpl = VMasked(None, mref, c, kind)
    if tmpl is not None:
        if size is not None and not z3.eq(z3.simplify(size), z3.simplify(tmpl.n)):
            raise Unsupported("masked draw of another size")
        so = kind.comps[0][1]
        f = z3.Function(fresh_name('drw'), IntS, so)
        m = tmpl
        st.assume(E.forall(0, E.llen(st, m.mask), lambda j: z3.Implies(E.lget(st, m.mask, j, wf=False).t, mk(f(j), [g(j) for g in fs])),
                           pats=[lambda j: f(j)]))
        return k(st, VMasked(lambda j: kind.unpack([f(j)]), m.mask, m.n, kind))
    if n is None and size is None:
        x = fresh('drw', kind.comps[0][1])
        st.assume(mk(x, [g(z3.IntVal(0)) for g in fs]))
        if kind is KInt:
            drew(E, st, z3.IntVal(1), lambda j: x)
        elif E.on_real is not None and kind is KReal:
            E.on_real(E, st, x)
        return k(st, kind.unpack([x]))
    ln = size if size is not None else n

    def go(s):
        r = E.mk_list(s, ln, None, kind, True)
        A = E.elarr(s, kind, '', kind.comps[0][1], r.t)
        s.assume(E.forall(0, ln, lambda j: mk(z3.Select(A, j), [g(j) for g in fs]), pats=[lambda j: z3.Select(A, j)]))
        if kind is KInt:
            drew(E, s, ln, lambda j: z3.Select(A, j))
        k(s, r)

    def ok(s):
        if n is not None and size is not None and not z3.is_true(z3.simplify(n == size)):
            return E.branch(s, n == size, go, lambda s2: E.fail(s2, cx, 'ValueError'))
        go(s)
    E.branch(st, ln >= 0, ok, lambda s: E.fail(s, cx, 'ValueError'))


@model('numpy.random.uniform')
def m_npuniform(E, st, cx, args, kwargs, k):
    lo = arg(args, kwargs, 0, 'low', VReal(0))
    hi = arg(args, kwargs, 1, 'high', VReal(1))
    size = size_of(E, st, arg(args, kwargs, 2, 'size'))

    def mk(x, ps):
        a, b = E.asreal(ps[0]).t, E.asreal(ps[1]).t
        return z3.If(a < b, z3.And(x >= a, x < b), z3.If(a == b, x == a, z3.And(x <= a, x > b)))
    draw(E, st, cx, [lo, hi], size, mk, KReal, k)


@model('numpy.random.rand', 'numpy.random.random_sample', 'numpy.random.random')
def m_nprand(E, st, cx, args, kwargs, k):
    a = args[0] if args else kwargs.get('size')
    if len(args) > 1:
        raise Unsupported("2-D random array")
    draw(E, st, cx, [], size_of(E, st, a), lambda x, ps: z3.And(x >= 0, x < 1), KReal, k)


@model('numpy.random.normal')
def m_npnormal(E, st, cx, args, kwargs, k):
    loc = arg(args, kwargs, 0, 'loc', VReal(0))
    scale = arg(args, kwargs, 1, 'scale', VReal(1))
    size = size_of(E, st, arg(args, kwargs, 2, 'size'))

    def mk(x, ps):
        return z3.Implies(E.asreal(ps[1]).t == 0, x == E.asreal(ps[0]).t)

    def go(s):
        draw(E, s, cx, [loc, scale], size, mk, KReal, k)
    n, fs, tmpl = broadcast(E, st, [scale])
    if n is None and tmpl is None:
        return E.branch(st, E.asreal(scale).t < 0, lambda s: E.fail(s, cx, 'ValueError'), go)
    go(st)


@model('numpy.random.randint')
def m_nprandint(E, st, cx, args, kwargs, k):
    lo = arg(args, kwargs, 0, 'low')
    hi = arg(args, kwargs, 1, 'high')
    size = size_of(E, st, arg(args, kwargs, 2, 'size'))
    if hi is None or isinstance(hi, VNone):
        lo, hi = VInt(0), lo

    def mk(x, ps):
        return z3.And(x >= E.num(ps[0]).t, x < E.num(ps[1]).t)
    n, fs, tmpl = broadcast(E, st, [lo, hi])
    if tmpl is not None:
        return draw(E, st, cx, [lo, hi], size, mk, KInt, k)
    m = n if n is not None else z3.IntVal(1)
    okc = E.forall(0, m, lambda j: E.num(fs[0](j)).t < E.num(fs[1](j)).t)
    E.branch(st, okc, lambda s: draw(E, s, cx, [lo, hi], size, mk, KInt, k), lambda s: E.fail(s, cx, 'ValueError'))


@model('numpy.random.binomial')
def m_npbinom(E, st, cx, args, kwargs, k):
    n_ = arg(args, kwargs, 0, 'n')
    p = arg(args, kwargs, 1, 'p')
    size = size_of(E, st, arg(args, kwargs, 2, 'size'))

    def mk(x, ps):
        pp = E.asreal(ps[1]).t
        return z3.And(x >= 0, x <= E.num(ps[0]).t, z3.Implies(pp == 0, x == 0), z3.Implies(pp == 1, x == E.num(ps[0]).t))
    draw(E, st, cx, [n_, p], size, mk, KInt, k)


@model('numpy.random.choice')
def m_npchoice(E, st, cx, args, kwargs, k):
    a = args[0]
    size = size_of(E, st, arg(args, kwargs, 1, 'size'))
    rep = arg(args, kwargs, 2, 'replace', VBool(True))
    if arg(args, kwargs, 3, 'p') is not None:
        raise Unsupported("weighted choice")
    if isinstance(a, VInt):
        ix = VIdx(lambda s: a.t, lambda s, j: VInt(j))
    else:
        ix = idx_of(E, st, a)
    n = ix.n(st)
    if size is None:
        return E.branch(st, n > 0, lambda s: k(s, ix.get(s, rand_idx(E, s, n))), lambda s: E.fail(s, cx, 'ValueError'))
    norep = isinstance(rep, VBool) and z3.is_false(z3.simplify(rep.t))

    def ok(s):
        f = z3.Function(fresh_name('chc'), IntS, IntS)
        s0 = s.fork()
        if norep:
            inv = z3.Function(fresh_name('chcinv'), IntS, IntS)
            s.assume(E.forall(0, size, lambda j: z3.And(f(j) >= 0, f(j) < n, inv(f(j)) == j), pats=[lambda j: f(j)]))
        else:
            s.assume(E.forall(0, size, lambda j: z3.And(f(j) >= 0, f(j) < n), pats=[lambda j: f(j)]))
        drew(E, s, size, f)
        k(s, E.mk_list(s, size, lambda j: ix.get(s0, f(j)), elem_kind_of(E, s, ix), True))
    cond = z3.And(size >= 0, size <= n) if norep else z3.And(size >= 0, z3.Or(n > 0, size == 0))
    E.branch(st, cond, ok, lambda s: E.fail(s, cx, 'ValueError'))


# ----------------------------------------------------------------------- numpy
def np_kind_name(dtype):
    d = dtype.d if isinstance(dtype, VBuiltin) else (dtype.s if isinstance(dtype, VStr) else '')
    return {'int': KInt, 'int64': KInt, 'int32': KInt, 'int_': KInt, 'float': KReal, 'float64': KReal, 'bool': KBool, 'bool_': KBool}.get(d.split('.')[-1])


def np_kind(E, st, ix, dtype):
    kk = elem_kind_of(E, st, ix)
    if isinstance(kk, KTuple) and dtype is not None and not isinstance(dtype, VNone):
        one = np_kind_name(dtype)
        return KTuple([one for _ in kk.ks]) if one is not None else kk
    if dtype is not None and not isinstance(dtype, VNone):
        d = dtype.d if isinstance(dtype, VBuiltin) else (dtype.s if isinstance(dtype, VStr) else '')
        s = d.split('.')[-1]
        if s in ('int', 'int64', 'int32', 'int_'):
            return KInt
        if s in ('float', 'float64', 'float_'):
            return KReal
        if s in ('bool', 'bool_'):
            return KBool
        if d.startswith('dtype:'):
            return {'int': KInt, 'real': KReal, 'bool': KBool}.get(d[6:], kk)
        raise Unsupported(f"dtype {d}")
    return kk


def cast(E, v, kind):
    if isinstance(kind, KTuple) and isinstance(v, VTuple):
        return VTuple([cast(E, x, kk) for x, kk in zip(v.items, kind.ks)])
    if kind == KInt:
        if isinstance(v, VReal):
            return VInt(E.trunc(v.t))
        return E.num(v)
    if kind == KReal:
        return E.asreal(v)
    if kind == KBool:
        if isinstance(v, VBool):
            return v
        if isinstance(v, (VInt, VReal)):
            return VBool(v.t != 0)
    return v


@model('numpy.array', 'numpy.asarray', 'numpy.fromiter')
def m_nparray(E, st, cx, args, kwargs, k):
    dtype = arg(args, kwargs, 1, 'dtype')

    def go(s, seq):
        if isinstance(seq, VRef) and isinstance(seq.p, PList) and seq.p.k is None:
            return k(s, E.new_list(s, [], nd=True))
        if isinstance(seq, (VInt, VReal, VBool)):
            return k(s, seq)
        if isinstance(seq, VMasked):
            return k(s, seq)
        ix = idx_of(E, s, seq)
        n = ix.n(s)
        if z3.is_int_value(n) and n.as_long() == 0:
            return k(s, E.new_list(s, [], nd=True))
        kk = np_kind(E, s, ix, dtype)
        if isinstance(kk, KRef):
            raise Unsupported("array of objects")
        s0 = s.fork()
        k(s, E.mk_list(s, n, lambda j: cast(E, ix.get(s0, j), kk), kk, True))

    def pre(s, v):
        if isinstance(v, VNone):
            raise Unsupported("array(None)")
        materialize(E, s, cx, v, go)
    E.force(st, args[0], pre)


@model('toolz.pluck', 'toolz.itertoolz.pluck')
def m_pluck(E, st, cx, args, kwargs, k):
    i, seq = args[:2]
    if not (isinstance(i, VInt) and z3.is_int_value(i.t)):
        raise Unsupported("pluck")
    c = i.t.as_long()

    def go(s, sq):
        if isinstance(sq, VTuple):
            return k(s, VTuple([x.items[c] for x in sq.items]))
        ix = idx_of(E, s, sq)
        k(s, VIdx(ix.n, lambda s2, j: ix.get(s2, j).items[c]))
    materialize(E, st, cx, seq, go)


@model('numpy.arange')
def m_arange(E, st, cx, args, kwargs, k):
    if len(args) == 1 and isinstance(args[0], VInt):
        n = z3.simplify(z3.If(args[0].t > 0, args[0].t, z3.IntVal(0)))
        return k(st, E.mk_list(st, n, lambda j: VInt(j), KInt, True))
    if len(args) in (2, 3) and all(isinstance(a, VInt) for a in args):
        return m_range(E, st, cx, args, {}, lambda s, r: k(s, mklist_like(E, s, E.to_idx(s, r), KInt, True)))
    raise Unsupported("arange")


def np_fill(v0):
    def m(E, st, cx, args, kwargs, k):
        n = size_of(E, st, args[0])
        dt = arg(args, kwargs, 1, 'dtype')
        kk = KReal
        v = VReal(v0)
        if dt is not None:
            kk = np_kind(E, st, VIdx(None, lambda s, j: v), dt)
            v = cast(E, v, kk)
        k(st, E.mk_list(st, n, lambda j: v, kk, True))
    return m


MODELS['numpy.zeros'] = np_fill(0)
MODELS['numpy.ones'] = np_fill(1)


@model('numpy.full')
def m_full(E, st, cx, args, kwargs, k):
    if len(args) != 2 or kwargs or not isinstance(args[1], (VInt, VReal)):
        raise Unsupported("numpy.full")
    n = size_of(E, st, args[0])
    v = args[1]
    k(st, E.mk_list(st, n, lambda j: v, kind_of(v), True))


@model('numpy.concatenate', 'numpy.hstack')
def m_concat(E, st, cx, args, kwargs, k):
    def go(s, v):
        if isinstance(v, VTuple) or (isinstance(v, VRef) and isinstance(v.p, PList) and z3.is_int_value(E.llen(s, v))):
            items = v.items if isinstance(v, VTuple) else [E.lget(s, v, j) for j in range(E.llen(s, v).as_long())]
            if not items:
                return E.fail(s, cx, 'ValueError')
            return m_chain(E, s, cx, items, {}, lambda s2, ix: k(s2, mklist_like(E, s2, ix, None, True)))
        if isinstance(v, VRef) and isinstance(v.p, PList):
            return E.branch(s, E.llen(s, v) > 0, lambda s2: flatten(E, s2, v, k, True), lambda s2: E.fail(s2, cx, 'ValueError'))
        raise Unsupported("concatenate")
    materialize(E, st, cx, args[0], go)


@model('numpy.append')
def m_npappend(E, st, cx, args, kwargs, k):
    if kwargs or len(args) != 2:
        raise Unsupported("numpy.append options")

    def seq(s, v, kk):
        if isinstance(v, (VInt, VReal)):
            return kk(s, VTuple([v]))
        materialize(E, s, cx, v, kk)

    def both(s, a, b):
        one = lambda v: isinstance(v, VTuple) or (isinstance(v, VRef) and isinstance(v.p, PList) and isinstance(v.p.k, (type(KInt), type(KReal))))
        if not (one(a) and one(b)):
            raise Unsupported("numpy.append of something not flat")
        m_chain(E, s, cx, [a, b], {}, lambda s2, ix: k(s2, mklist_like(E, s2, ix, None, True)))
    seq(st, args[0], lambda s, a: seq(s, args[1], lambda s2, b: both(s2, a, b)))


@model('numpy.argmax', 'numpy.argmin')
def m_argbest(E, st, cx, args, kwargs, k, sign=1):
    if kwargs or len(args) != 1:
        raise Unsupported("argmax options")

    def go(s, v):
        if not (isinstance(v, VRef) and isinstance(v.p, PList) and isinstance(v.p.k, (type(KInt), type(KReal)))):
            raise Unsupported("argmax")

        def some(s2):
            n = E.llen(s2, v)
            r = fresh('arg', IntS)
            at = lambda j: sign * E.asreal(E.lget(s2, v, j, wf=False)).t
            s2.assume(z3.And(r >= 0, r < n))
            s2.assume(E.forall(0, n, lambda j: z3.And(at(j) <= at(r), z3.Implies(j < r, at(j) < at(r)))))
            k(s2, VInt(r))
        E.branch(s, E.llen(s, v) > 0, some, lambda s2: E.fail(s2, cx, 'ValueError'))
    materialize(E, st, cx, args[0], go)


MODELS['numpy.argmin'] = lambda E, st, cx, args, kwargs, k: m_argbest(E, st, cx, args, kwargs, k, -1)


@model('numpy.clip')
def m_clip(E, st, cx, args, kwargs, k):
    x = args[0]
    lo, hi = arg(args, kwargs, 1, 'a_min'), arg(args, kwargs, 2, 'a_max')
    nolo = lo is None or isinstance(lo, VNone)
    nohi = hi is None or isinstance(hi, VNone)
    if kwargs.get('out') is not None:
        raise Unsupported("clip(out=)")

    def clip1(v, a, b):
        isint = isinstance(v, VInt) and (nolo or isinstance(a, VInt)) and (nohi or isinstance(b, VInt))
        g = (lambda z: z.t) if isint else (lambda z: E.asreal(z).t)
        t = g(v)
        if not nolo:
            t = z3.If(t < g(a), g(a), t)
        if not nohi:
            t = z3.If(t > g(b), g(b), t)
        return VInt(t) if isint else VReal(t)
    ps = [x] + ([] if nolo else [lo]) + ([] if nohi else [hi])
    n, fs, tmpl = broadcast(E, st, ps)

    def val(j):
        vs = [f(j) for f in fs]
        a = vs[1] if not nolo else None
        b = vs[-1] if not nohi else None
        return clip1(vs[0], a, b)
    if tmpl is not None:
        return k(st, VMasked(val, tmpl.mask, tmpl.n, kind_of(val(z3.IntVal(0)))))
    if n is None:
        return k(st, val(z3.IntVal(0)))
    lens = [E.llen(st, p) for p in ps if isinstance(p, VRef)]
    eqs = [lens[0] == l for l in lens[1:] if not z3.is_true(z3.simplify(lens[0] == l))]

    def go(s):
        k(s, E.mk_list(s, n, val, kind_of(val(z3.IntVal(0))), True))
    if eqs:
        return E.branch(st, z3.And(*eqs), go, lambda s: E.fail(s, cx, 'ValueError'))
    go(st)


@model('numpy.where')
def m_where(E, st, cx, args, kwargs, k):
    if len(args) == 1:
        return E.force(st, args[0], lambda s, v: k(s, VTuple([true_positions(E, s, v)])))
    if len(args) != 3:
        raise Unsupported("where form")
    n, fs, tmpl = broadcast(E, st, args)
    if tmpl is not None or n is None:
        raise Unsupported("where")
    val = lambda j: vite(E, fs[0](j).t, fs[1](j), fs[2](j))
    k(st, E.mk_list(st, n, val, kind_of(val(z3.IntVal(0))), True))


def true_positions(E, st, v):
    if not (isinstance(v, VRef) and isinstance(v.p, PList) and v.p.nd and v.p.k == KBool):
        raise Unsupported("flatnonzero of this value")
    r = VMasked(lambda j: VInt(j), v, E.count_true(st, v), KInt)
    r.ident = True
    return r


@model('numpy.flatnonzero')
def m_flatnonzero(E, st, cx, args, kwargs, k):
    E.force(st, args[0], lambda s, v: k(s, true_positions(E, s, v)))


@model('numpy.nonzero')
def m_nonzero(E, st, cx, args, kwargs, k):
    E.force(st, args[0], lambda s, v: k(s, VTuple([true_positions(E, s, v)])))


def ew2(op):
    def m(E, st, cx, args, kwargs, k):
        if any(isinstance(a, VMasked) for a in args):
            raise Unsupported("masked ufunc")
        a, b = args
        if all(isinstance(x, (VInt, VReal)) for x in args):
            return k(st, op(E, a, b))
        n, fs, tmpl = broadcast(E, st, args)
        val = lambda j: op(E, fs[0](j), fs[1](j))
        k(st, E.mk_list(st, n, val, kind_of(val(z3.IntVal(0))), True))
    return m


def _pick(cmp):
    def op(E, a, b):
        if isinstance(a, VInt) and isinstance(b, VInt):
            return VInt(z3.If(cmp(a.t, b.t), a.t, b.t))
        x, y = E.asreal(a).t, E.asreal(b).t
        return VReal(z3.If(cmp(x, y), x, y))
    return op


MODELS['numpy.minimum'] = ew2(_pick(lambda a, b: a <= b))
MODELS['numpy.maximum'] = ew2(_pick(lambda a, b: a >= b))
MODELS['numpy.logical_not'] = lambda E, st, cx, args, kwargs, k: elementwise(E, st, args[0], lambda x: VBool(z3.Not(E.truth(st, x))), k)
MODELS['numpy.logical_and'] = ew2(lambda E, a, b: VBool(z3.And(E.truth(None, a), E.truth(None, b))))
MODELS['numpy.logical_or'] = ew2(lambda E, a, b: VBool(z3.Or(E.truth(None, a), E.truth(None, b))))


@model('numpy.isscalar')
def m_isscalar(E, st, cx, args, kwargs, k):
    k(st, VBool(isinstance(args[0], (VInt, VReal, VBool, VStr))))


@method('astype')
def mm_astype(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VRef) and isinstance(o.p, PList):
        ix = E.to_idx(st, o)
        kk = np_kind(E, st, ix, args[0])
        s0 = st.fork()
        return k(st, E.mk_list(st, E.llen(st, o), lambda j: cast(E, E.lget(s0, o, j, wf=False), kk), kk, True))
    if isinstance(o, VMasked):
        kk = np_kind(E, st, VIdx(None, lambda s, j: o.f(j)), args[0])
        return k(st, VMasked(lambda j: cast(E, o.f(j), kk), o.mask, o.n, kk))
    if isinstance(o, (VInt, VReal)):
        kk = np_kind(E, st, VIdx(None, lambda s, j: o), args[0])
        return k(st, cast(E, o, kk))
    raise Unsupported("astype")


@method('flatten', 'ravel')
def mm_flatten(E, st, cx, o, args, kwargs, k):
    if isinstance(o, VRef) and isinstance(o.p, PList):
        return k(st, copy_list(E, st, o))
    raise Unsupported("flatten")


@method('dot')
def mm_dot(E, st, cx, o, args, kwargs, k):
    m_dot(E, st, cx, [o] + args, {}, k)


@model('numpy.dot', 'numpy.inner')
def m_dot(E, st, cx, args, kwargs, k):
    E.nd_op(ast.Mult(), args[0], args[1], st, cx, lambda s, r: m_sum(E, s, cx, [r], {}, k))


# --------------------------------------------------------------------- logging
@model('logging.getLogger')
def m_getlogger(E, st, cx, args, kwargs, k):
    k(st, VStr('logger'))


@model('time.time', 'time.perf_counter')
def m_time(E, st, cx, args, kwargs, k):
    k(st, VReal(fresh('time', RealS)))


@model('functools.partial')
def m_partial(E, st, cx, args, kwargs, k):
    k(st, VPartial(args[0], args[1:], kwargs))


@method('__getitem__')
def mm_getitem(E, st, cx, o, args, kwargs, k):
    E.getitem(o, args[0], st, cx, k)
