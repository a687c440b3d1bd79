"""Symbolic values, kinds (storage types) and pointees used by the verifier."""
import z3
z3.set_param('warning', False)

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
U = z3.DeclareSort('U')            # opaque Python values (genes, uuids, ...)


class Unsupported(Exception):
    """The construct lies outside the verified subset."""


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return f"{p}!{_ctr[0]}"


def fresh(p, sort):
    return z3.Const(fresh_name(p), sort)


# --------------------------------------------------------------------- values
class V:
    def __repr__(self):
        return type(self).__name__ + str({k: str(v) for k, v in self.__dict__.items()})


class VNone(V):
    pass


NONE = VNone()


class VInt(V):
    def __init__(self, t):
        self.t = z3.IntVal(t) if isinstance(t, int) else t


class VBool(V):
    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t


FALSE = z3.BoolVal(False)
TRUE = z3.BoolVal(True)


class VReal(V):
    """A float, as a mathematical real, with a separate 'is NaN' bit."""

    def __init__(self, t, nan=FALSE):
        if isinstance(t, (int, float)):
            t = z3.RealVal(repr(t) if isinstance(t, float) else t)
        self.t = t
        self.nan = nan


class VStr(V):
    def __init__(self, s):
        self.s = s              # None: unknown text


class VOpq(V):
    def __init__(self, t):
        self.t = t


class VRef(V):
    def __init__(self, t, p):
        self.t = z3.IntVal(t) if isinstance(t, int) else t
        self.p = p


class VTuple(V):
    def __init__(self, items):
        self.items = list(items)


class VStar(V):
    """*sequence of unknown length at the end of an argument list"""

    def __init__(self, v):
        self.v = v


class VMaybe(V):
    """None, or a value of one kind."""

    def __init__(self, none, val):
        self.none = none
        self.val = val


class VFunc(V):
    def __init__(self, node, mod, fids=(), cls=None, qual='', defaults=None, kwdefaults=None, fid=None):
        self.node, self.mod, self.fids, self.cls, self.qual = node, mod, tuple(fids), cls, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs_key = None


class VBound(V):
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class VPartial(V):
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class VBuiltin(V):
    def __init__(self, dotted):
        self.d = dotted


class VMeth(V):
    """A builtin method of a list/array/set/... value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class VSpec(V):
    """A callable whose behaviour is given by a contract: fn(E, st, cx, args, kwargs, k)."""

    def __init__(self, fn, name='spec'):
        self.fn, self.name = fn, name


class VClass(V):
    def __init__(self, info):
        self.info = info


class VExc(V):
    def __init__(self, name, t=None):
        self.name = name
        self.t = t


class VGen(V):
    """A lazily started generator (function + bound frame)."""

    def __init__(self, f, fid):
        self.f, self.fid = f, fid


class VRange(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class VEnum(V):            # enumerate(x)
    def __init__(self, it, start):
        self.it, self.start = it, start


class VZip(V):
    def __init__(self, its):
        self.its = its


class VMapIter(V):        # comprehension used as an iterable (generator expression)
    def __init__(self, node, st_fid, cx):
        self.node, self.fid, self.cx = node, st_fid, cx


class VMasked(V):
    """arr[mask] for a boolean mask array: values arr[j] for the j with mask[j]."""

    def __init__(self, f, mask, n, kind):
        self.f = f            # f(j) -> V
        self.mask = mask      # VRef of bool array  (or callable j->Bool)
        self.n = n
        self.kind = kind


class VDictC(V):
    """A dict literal with constant string keys, engine-level (not heap)."""

    def __init__(self, d):
        self.d = d


class VSuper(V):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


# ---------------------------------------------------------------------- kinds
class Kind:
    comps = ()
    key = '?'

    def pack(self, v):
        raise NotImplementedError

    def unpack(self, ts):
        raise NotImplementedError

    def fresh(self, p='x'):
        return self.unpack([fresh(p + s, so) for s, so in self.comps])

    def __eq__(self, o):
        return isinstance(o, Kind) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class _KInt(Kind):
    comps = (('', IntS),)
    key = 'int'

    def pack(self, v):
        if isinstance(v, VInt):
            return [v.t]
        if isinstance(v, VBool):
            return [z3.If(v.t, z3.IntVal(1), z3.IntVal(0))]
        raise Unsupported(f"int expected, got {v!r}")

    def unpack(self, ts):
        return VInt(ts[0])


class _KBool(Kind):
    comps = (('', BoolS),)
    key = 'bool'

    def pack(self, v):
        if isinstance(v, VBool):
            return [v.t]
        raise Unsupported(f"bool expected, got {v!r}")

    def unpack(self, ts):
        return VBool(ts[0])


def to_real(t):
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


class _KReal(Kind):
    comps = (('', RealS),)
    key = 'real'

    def pack(self, v):
        if isinstance(v, VReal):
            if not z3.is_false(v.nan):
                raise Unsupported("possibly-NaN stored where a number is expected")
            return [v.t]
        if isinstance(v, VInt):
            return [to_real(v.t)]
        if isinstance(v, VBool):
            return [z3.If(v.t, z3.RealVal(1), z3.RealVal(0))]
        raise Unsupported(f"real expected, got {v!r}")

    def unpack(self, ts):
        return VReal(ts[0])


class _KFloat(Kind):
    comps = (('', RealS), ('.nan', BoolS))
    key = 'float'

    def pack(self, v):
        if isinstance(v, VReal):
            return [v.t, v.nan]
        if isinstance(v, VInt):
            return [to_real(v.t), FALSE]
        raise Unsupported(f"float expected, got {v!r}")

    def unpack(self, ts):
        return VReal(ts[0], ts[1])


class _KOpq(Kind):
    comps = (('', U),)
    key = 'opq'

    def pack(self, v):
        if isinstance(v, VOpq):
            return [v.t]
        raise Unsupported(f"opaque expected, got {v!r}")

    def unpack(self, ts):
        return VOpq(ts[0])


KInt, KBool, KReal, KFloat, KOpq = _KInt(), _KBool(), _KReal(), _KFloat(), _KOpq()


class KRef(Kind):
    comps = (('', IntS),)

    def __init__(self, p):
        self.p = p

    @property
    def key(self):
        return f"ref<{self.p.key}>"

    def pack(self, v):
        if isinstance(v, VRef):
            if v.p.key != self.p.key and not self.p.accepts(v.p):
                raise Unsupported(f"storing {v.p.key} where {self.p.key} is expected")
            return [v.t]
        raise Unsupported(f"{self.key} expected, got {v!r}")

    def unpack(self, ts):
        return VRef(ts[0], self.p)


class _KExc(Kind):
    """an exception object"""
    comps = (('', IntS),)
    key = 'exc'

    def pack(self, v):
        if isinstance(v, VExc):
            if v.t is None:
                v.t = fresh('exc', IntS)
            return [v.t]
        raise Unsupported("exception expected")

    def unpack(self, ts):
        return VExc('Exception', ts[0])


KExc = _KExc()


class KMaybe(Kind):
    def __init__(self, k):
        self.k = k
        self.comps = (('.none', BoolS),) + tuple(k.comps)

    @property
    def key(self):
        return f"maybe<{self.k.key}>"

    def pack(self, v):
        if isinstance(v, VNone):
            return [TRUE] + [fresh('dc', s) if s == U else _dflt(s) for _, s in self.k.comps]
        if isinstance(v, VMaybe):
            return [v.none] + self.k.pack(v.val)
        return [FALSE] + self.k.pack(v)

    def unpack(self, ts):
        if z3.is_true(ts[0]):
            return NONE
        if z3.is_false(ts[0]):
            return self.k.unpack(ts[1:])
        return VMaybe(ts[0], self.k.unpack(ts[1:]))


def _dflt(s):
    if s == IntS:
        return z3.IntVal(0)
    if s == RealS:
        return z3.RealVal(0)
    if s == BoolS:
        return FALSE
    raise Unsupported("no default for sort")


class KTuple(Kind):
    def __init__(self, ks):
        self.ks = tuple(ks)
        self.comps = tuple((f".{i}{s}", so) for i, k in enumerate(ks) for s, so in k.comps)

    @property
    def key(self):
        return 'tup<' + ','.join(k.key for k in self.ks) + '>'

    def pack(self, v):
        if not isinstance(v, VTuple) or len(v.items) != len(self.ks):
            raise Unsupported(f"{self.key} expected, got {v!r}")
        out = []
        for k, x in zip(self.ks, v.items):
            out += k.pack(x)
        return out

    def unpack(self, ts):
        out, i = [], 0
        for k in self.ks:
            n = len(k.comps)
            out.append(k.unpack(ts[i:i + n]))
            i += n
        return VTuple(out)


class KConst(Kind):
    """A value that never changes (functions, modules, strings): stored nowhere."""
    comps = ()

    def __init__(self, v):
        self.v = v
        self.key = f"const<{id(v)}>"

    def pack(self, v):
        if v is not self.v and not (isinstance(v, VStr) and isinstance(self.v, VStr) and v.s == self.v.s):
            raise Unsupported("constant slot overwritten")
        return []

    def unpack(self, ts):
        return self.v


# ------------------------------------------------------------------- pointees
class P:
    key = '?'

    def accepts(self, other):
        return False


class PList(P):
    """A Python list (nd=False) or a one-dimensional numpy array (nd=True)."""

    def __init__(self, k, nd=False, hint=None):
        self.k, self.nd, self.hint = k, nd, hint      # k None: element kind not known yet (empty literal)

    @property
    def key(self):
        return f"{'nd' if self.nd else 'list'}<{self.k.key if self.k else '?'}>"

    def accepts(self, other):
        # an empty literal adopts the element kind of the slot it is stored in
        if isinstance(other, PList) and other.k is None and self.k is not None and self.nd == other.nd:
            other.k = self.k
            return True
        if isinstance(other, PList) and self.k is None and other.k is not None and self.nd == other.nd:
            self.k = other.k
            return True
        return False


class PObj(P):
    def __init__(self, cls, methods=None):
        self.cls = cls
        self.key = f"obj<{cls}>"
        self.methods = methods

    def accepts(self, other):
        return isinstance(other, PObj) and (self.cls == 'object')


class PSet(P):
    key = 'set'


class PIter(P):
    """An external iterator; the j-th value it delivers is stream(ref, j)."""
    affine = None          # itertools.count: the j-th value is affine + j

    def __init__(self, k):
        self.k = k
        self.key = f"iter<{k.key}>"


def kind_of(v):
    if isinstance(v, VInt):
        return KInt
    if isinstance(v, VBool):
        return KBool
    if isinstance(v, VReal):
        return KReal if z3.is_false(v.nan) else KFloat
    if isinstance(v, VOpq):
        return KOpq
    if isinstance(v, VRef):
        return KRef(v.p)
    if isinstance(v, VMaybe):
        return KMaybe(kind_of(v.val))
    if isinstance(v, VNone):
        return KMaybe(KOpq)
    if isinstance(v, VTuple):
        return KTuple([kind_of(x) for x in v.items])
    return KConst(v)


def join_kind(a, b):
    """Least kind holding values of both."""
    if a == b:
        return a
    if isinstance(a, KMaybe) and a.k == KOpq and not isinstance(b, KConst):
        return b if isinstance(b, KMaybe) else KMaybe(b)
    if isinstance(b, KMaybe) and b.k == KOpq and not isinstance(a, KConst):
        return a if isinstance(a, KMaybe) else KMaybe(a)
    if isinstance(a, KMaybe) or isinstance(b, KMaybe):
        ka = a.k if isinstance(a, KMaybe) else a
        kb = b.k if isinstance(b, KMaybe) else b
        return KMaybe(join_kind(ka, kb))
    num = {'int': 0, 'real': 1, 'float': 2}
    if a.key in num and b.key in num:
        return [KInt, KReal, KFloat][max(num[a.key], num[b.key])]
    if isinstance(a, KTuple) and isinstance(b, KTuple) and len(a.ks) == len(b.ks):
        return KTuple([join_kind(x, y) for x, y in zip(a.ks, b.ks)])
    if isinstance(a, KRef) and isinstance(b, KRef) and a.p.accepts(b.p):
        return a
    raise Unsupported(f"cannot join {a.key} and {b.key}")


class VIdx(V):
    """A finite (or endless) indexable iterable: n(st) -> Int term or None, get(st, j) -> V."""

    def __init__(self, n, get, tag=''):
        self.n, self.get, self.tag = n, get, tag
