"""C09: binary genomes decode to the numbers their segments stand for."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

M = 'leap_ec.binary_rep.decoders.'
DEC, GREY, RCOM, RDEC, RGREY = M + 'BinaryToIntDecoder', M + 'BinaryToIntGreyDecoder', M + 'BinaryToRealDecoderCommon', M + 'BinaryToRealDecoder', M + 'BinaryToRealGreyDecoder'
BITS = PList(KInt, True)
PW = KMaybe(KRef(BITS))
SEG = KTuple([KInt, KReal, KReal])
POW2 = z3.Function('pow2', IntS, IntS)


def pow2_facts(E, st, extra=()):
    st.assume(POW2(0) == 1)
    if E.mode == 'bmc':
        for i in range(7):
            st.assume(POW2(i) == 2 ** i)
    else:
        e = z3.Int('e!p')
        st.assume(z3.ForAll([e], z3.Implies(e >= 1, POW2(e) >= 2), patterns=[POW2(e)]))


def double(e):
    """the defining equation of the powers of two, at e >= 0"""
    return z3.Implies(e >= 0, POW2(e + 1) == 2 * POW2(e))


def is_powers(E, st, pw):
    n = E.lens(st, pw.t)
    return E.forall(0, n, lambda j: elem(E, st, pw, j).t == E.pow2(n - 1 - j) if E.mode != 'bmc' else elem(E, st, pw, j).t == POW2(n - 1 - j))


def is_bits(E, st, b):
    return E.forall(0, E.lens(st, b.t), lambda j: z3.Or(elem(E, st, b, j).t == 0, elem(E, st, b, j).t == 1))


class ToInt(Contract):
    """a string of m bits is read as a binary number, most significant bit first"""
    prop = 'C09'
    target = 'leap_ec.binary_rep.decoders:BinaryToIntDecoder.__binary_to_int'
    cached = True

    def setup(self, E, st):
        pow2_facts(E, st)
        self.b = in_list(E, st, KInt, minlen=1, nd=True)
        st.assume(is_bits(E, st, self.b))
        # Horner's rule, the meaning of a binary numeral: H(0) = 0, H(j+1) = 2 H(j) + b[j]
        self.H = z3.Function('numeral', IntS, IntS)
        n = E.lens(st, self.b.t)
        s0 = st.fork()
        st.assume(self.H(0) == 0)
        st.assume(E.forall(0, n, lambda j: self.H(j + 1) == 2 * self.H(j) + elem(E, s0, self.b, j).t, pats=[lambda j: self.H(j + 1), lambda j: self.H(j)]))
        kw = {}
        if self.cached:
            pw = in_list(E, st, KInt, nd=True, distinct_from=[self.b])
            st.assume(is_powers(E, st, pw))
            kw['powers_2'] = pw
        return [self.b], kw

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VInt):
            return [("an integer", FALSE)]
        n = E.lens(st0, self.b.t)
        H = self.H
        if E.mode == 'proof' and E.psums:
            # lemma, by induction on j: the sum of the first j weighted bits is H(j) * 2^(n-j)
            S = E.psums[-1]
            claim = lambda j: S(j) == H(j) * POW2(n - j)
            E.prove(st, z3.And(S(0) == 0, H(0) == 0), "binary_to_int: lemma, base case")
            s2 = st.fork()
            j = fresh('j', IntS)
            s2.assume(z3.And(0 <= j, j < n, double(n - 1 - j)))
            bj = elem(E, st0, self.b, j).t
            E.prove(s2, z3.And(S(j + 1) == S(j) + bj * POW2(n - 1 - j), H(j + 1) == 2 * H(j) + bj, POW2(n - j) == 2 * POW2(n - 1 - j)), "binary_to_int: lemma, one more bit")
            s3 = st.fork()
            sj, sj1, hj, hj1, pj, pj1, bb = [z3.Int(x) for x in ('sj', 'sj1', 'hj', 'hj1', 'pj', 'pj1', 'bb')]
            s3.pc = [sj == hj * pj, pj == 2 * pj1, sj1 == sj + bb * pj1, hj1 == 2 * hj + bb]
            E.prove(s3, sj1 == hj1 * pj1, "binary_to_int: lemma, step")
            st.assume(S(n) == H(n))          # the claim at j = n, as 2^0 = 1
        # bounds, by the same induction
        b = lambda j: z3.And(0 <= H(j), H(j) < POW2(j))
        s3 = st.fork()
        j = fresh('j', IntS)
        s3.assume(z3.And(0 <= j, j < n, b(j), H(j + 1) == 2 * H(j) + elem(E, st0, self.b, j).t, POW2(j + 1) == 2 * POW2(j)))
        out = [("the bits are read as a binary number, most significant first", ret.t == H(n)), ("the bits are left alone", unchanged_list(E, st0, st, self.b))]
        if E.mode == 'proof':
            E.prove(s3, b(j + 1), "binary_to_int: every value fits its number of bits (step)")
        return out


class ToIntUncached(ToInt):
    cached = False


class Decode(Contract):
    """every segment is decoded from its own stretch of the genome, whatever was decoded before"""
    prop = 'C09'
    budget = 110
    target = 'leap_ec.binary_rep.decoders:BinaryToIntDecoder.decode'
    schema = {(DEC, 'descriptors'): KRef(PList(KInt)), (DEC, 'powers_2'): PW}

    def __init__(self):
        self.specs = {(DEC, '__binary_to_int'): self.spec}
        self.VAL = z3.Function('segment_value', IntS, IntS)
        self.OFF = z3.Function('segment_start', IntS, IntS)

    def spec(self, E, st, cx, args, kwargs, k):
        b = args[0]
        pw = kwargs.get('powers_2', args[1] if len(args) > 1 else NONE)
        i = st.ghost['%seg']

        def go(s, w):
            if isinstance(w, VRef):
                E.prove(s, is_powers(E, s, w), "the table holds the powers of two")
            n = E.lens(s, b.t)
            E.prove(s, z3.And(n == self.d(E, i), E.forall(0, n, lambda j: elem(E, s, b, j).t == elem(E, self.st0, self.g, self.OFF(i) + j).t)),
                    "the next segment's own bits are read")
            s.ghost['%seg'] = z3.simplify(i + 1)
            k(s, VInt(self.VAL(i)))
        E.force(st, pw, go)

    def d(self, E, i):
        return elem(E, self.st0, self.ds, i).t

    def setup(self, E, st):
        pow2_facts(E, st)
        self.x = new_input(E, st, PObj(DEC))
        self.g = in_list(E, st, KInt, nd=True)
        st.assume(is_bits(E, st, self.g))
        self.ds = get(E, st, self.x.t, 'descriptors', KRef(PList(KInt)))
        st.assume(z3.And(self.ds.t >= 0, self.ds.t < st.alloc, self.ds.t != self.g.t))
        K = E.lens(st, self.ds.t)
        st.assume(K >= 0)
        if E.mode == 'bmc':
            E.side.append(K <= 2)
        self.K = K
        n = E.lens(st, self.g.t)
        self.st0 = st.fork()
        st.assume(self.OFF(0) == 0)
        st.assume(E.forall(0, K, lambda i: z3.And(self.d(E, i) >= 1, self.OFF(i) >= 0, self.OFF(i + 1) == self.OFF(i) + self.d(E, i), self.OFF(i + 1) <= n),
                           pats=[lambda i: self.OFF(i), lambda i: self.d(E, i)]))
        none, pt = PW.pack(get(E, st, self.x.t, 'powers_2', PW))[:2]
        st.assume(z3.Implies(z3.Not(none), z3.And(pt >= 0, pt < st.alloc, E.lens(st, pt) >= 0, pt != self.g.t, pt != self.ds.t, is_powers(E, st, VRef(pt, BITS)))))
        st.ghost['%seg'] = z3.IntVal(0)
        return [self.x, self.g], {}

    def cache_ok(self, E, s):
        none, pt = PW.pack(get(E, s, self.x.t, 'powers_2', PW))[:2]
        return z3.Or(none, z3.And(pt >= 0, pt < s.alloc, E.lens(s, pt) >= 0, is_powers(E, s, VRef(pt, BITS))))

    def cands(self, E, L):
        yield "the table holds the powers of two", lambda s: self.cache_ok(E, s)
        yield "one segment per round", lambda s: s.ghost['%seg'] == L.k(s)
        for f, nm, v in L.ints():
            yield f"{nm} is where the next segment starts", lambda s, f=f: f(s) == self.OFF(L.k(s))
        for fid, nm, v in L.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList)):
            yield f"the table is not {nm}", lambda s, fid=fid, nm=nm: z3.Or(PW.pack(get(E, s, self.x.t, 'powers_2', PW))[0], PW.pack(get(E, s, self.x.t, 'powers_2', PW))[1] != s.frames[fid][nm].t)
        yield "the table is not the genome", lambda s: z3.Or(PW.pack(get(E, s, self.x.t, 'powers_2', PW))[0], z3.And(
            PW.pack(get(E, s, self.x.t, 'powers_2', PW))[1] != self.g.t, PW.pack(get(E, s, self.x.t, 'powers_2', PW))[1] != self.ds.t))

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList) or not ret.p.nd or ret.p.k != KInt:
            return [("an array of integers", FALSE)]
        return [("one value per segment", E.lens(st, ret.t) == self.K),
                ("each value is that of its own segment", E.forall(0, self.K, lambda i: elem(E, st, ret, i).t == self.VAL(i))),
                ("the genome is left alone", unchanged_list(E, st0, st, self.g)),
                ("the result is a new array", isfresh(st0, ret.t)),
                ("the table still holds powers of two", self.cache_ok(E, st))]


class GrayEncode(Contract):
    """Gray to binary: the number whose Gray code r ^ (r >> 1) is the given one"""
    prop = 'C09'
    target = 'leap_ec.binary_rep.decoders:BinaryToIntGreyDecoder.__gray_encode'
    bmc_N = 5

    def setup(self, E, st):
        E.bitlogic = True
        self.n = fresh('n', IntS)
        st.assume(self.n >= 0)
        return [VInt(self.n)], {}

    def cands(self, E, L):
        names = list(L.ints())
        B = E.BIT
        for f, a, _ in names:
            for g, b, _ in names:
                if a != b:
                    yield f"{a} is a Gray prefix with rest {b}", lambda s, f=f, g=g: self.bits(
                        E, lambda j: z3.Xor(B(f(s), j), B(f(s), j + 1)) == z3.Xor(B(self.n, j), B(g(s), j)), [f(s), g(s)])

    def bits(self, E, f, xs):
        if E.mode == 'bmc':
            return z3.And(*[f(z3.IntVal(j)) for j in range(5)])
        j = z3.Int('j!g')
        return z3.ForAll([j], z3.Implies(j >= 0, f(j)), patterns=[E.BIT(x, j) for x in xs])

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VInt):
            return [("an integer", FALSE)]
        B = E.BIT
        if E.mode == 'bmc':
            E.side.append(z3.And(ret.t >= 0, ret.t < 16))
            for x in (ret.t, self.n):
                st.assume(z3.And(*[B(x, z3.IntVal(j)) == ((x / (2 ** j)) % 2 == 1) for j in range(7)]))
            return [("the Gray code of the result is the given number", z3.And(*[z3.Xor(B(ret.t, z3.IntVal(j)), B(ret.t, z3.IntVal(j + 1))) == B(self.n, z3.IntVal(j)) for j in range(5)]))]
        j = fresh('j', IntS)
        st2 = st
        st2.assume(j >= 0)
        return [("the Gray code of the result is the given number", z3.Xor(B(ret.t, j), B(ret.t, j + 1)) == B(self.n, j))]


class GrayDecode(Contract):
    """Gray decoding: the integers of plain decoding, each turned from Gray code"""
    prop = 'C09'
    target = 'leap_ec.binary_rep.decoders:BinaryToIntGreyDecoder.decode'
    schema = {}
    GRAY = z3.Function('from_gray', IntS, IntS)

    def __init__(self):
        self.specs = {M[:-1] + ':BinaryToIntDecoder.decode': self.dec, 'leap_ec.binary_rep.decoders.BinaryToIntDecoder.decode': self.dec,
                      (GREY, '__gray_encode'): self.gray}

    def dec(self, E, st, cx, args, kwargs, k):
        E.prove(st, args[1].t == self.g.t, "the genome itself is decoded")
        n = fresh('n', IntS)
        st.assume(n >= 0)
        if E.mode == 'bmc':
            E.side.append(n <= E.N)
        self.n = n
        self.V = z3.Function('plain', IntS, IntS)
        k(st, E.mk_list(st, n, lambda j: VInt(self.V(j)), KInt, True))

    def gray(self, E, st, cx, args, kwargs, k):
        k(st, VInt(self.GRAY(args[0].t)))

    def setup(self, E, st):
        self.x = new_input(E, st, PObj(GREY))
        self.g = in_list(E, st, KInt, nd=True)
        return [self.x, self.g], {}

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList) or not ret.p.nd:
            return [("an array", FALSE)]
        if ret.p.k != KInt:
            return [("an array of integers", FALSE)]
        return [("one value per segment", E.lens(st, ret.t) == self.n),
                ("each value is turned from Gray code", E.forall(0, self.n, lambda i: elem(E, st, ret, i).t == self.GRAY(self.V(i)))),
                ("the genome is left alone", unchanged_list(E, st0, st, self.g))]


class RealInit(Contract):
    """the constructor of the real-valued decoders: one increment per segment, so that the largest integer meets the upper bound"""
    prop = 'C09'
    cls, inner = RDEC, DEC
    target = 'leap_ec.binary_rep.decoders:BinaryToRealDecoder.__init__'
    schema = {}

    def setup(self, E, st):
        pow2_facts(E, st)
        self.x = new_input(E, st, PObj(self.cls))
        self.segs = in_list(E, st, SEG)
        self.K = E.lens(st, self.segs.t)
        s0 = self.st0 = st.fork()
        st.assume(E.forall(0, self.K, lambda i: self.seg(E, i)[0] >= 1))
        return [self.x, VStar(self.segs)], {}

    def seg(self, E, i):
        return [v.t for v in elem(E, self.st0, self.segs, i).items]

    def post(self, E, st0, st, ret):
        def arr(name, k):
            kk = E.attr_kind(self.cls, name) if (self.cls, name) in E.schema else None
            return kk
        out = []
        kinds = {a: E.schema.get((self.cls, a)) or E.attr_kind(self.cls, a) for a in ('lower_bounds', 'increments', 'binary_to_int_decoder')}
        if any(v is None for v in kinds.values()):
            return [("sets lower bounds, increments and integer decoder", FALSE)]
        lo, inc, dec = [get(E, st, self.x.t, a, kinds[a]) for a in ('lower_bounds', 'increments', 'binary_to_int_decoder')]
        if isinstance(dec, VMaybe):
            out.append(("an integer decoder", z3.Not(dec.none)))
            dec = dec.val
        out += [("an integer decoder of the right kind", z3.BoolVal(isinstance(dec, VRef) and isinstance(dec.p, PObj) and dec.p.cls == self.inner))]
        if not (isinstance(dec, VRef) and isinstance(dec.p, PObj)):
            return out
        kd = E.schema.get((dec.p.cls, 'descriptors')) or E.attr_kind(dec.p.cls, 'descriptors')
        ds = get(E, st, dec.t, 'descriptors', kd)
        rng = lambda i: [v.t for v in elem(E, self.st0, self.segs, i).items]
        p = lambda i: to_real(POW2(rng(i)[0])) - 1
        out += [("one integer segment per real segment", E.lens(st, ds.t) == self.K),
                ("the integer segments have the bits asked for", E.forall(0, self.K, lambda i: elem(E, st, ds, i).t == rng(i)[0])),
                ("lower bounds are kept", z3.And(E.lens(st, lo.t) == self.K, E.forall(0, self.K, lambda i: self.R(elem(E, st, lo, i)) == rng(i)[1]))),
                ("the increments span the bounds", z3.And(E.lens(st, inc.t) == self.K, E.forall(
                    0, self.K, lambda i: self.R(elem(E, st, inc, i)) == (rng(i)[2] - rng(i)[1]) / p(i))))]
        return out

    def R(self, v):
        return to_real(v.t) if isinstance(v, VInt) else v.t


class GreyInit(RealInit):
    cls, inner = RGREY, GREY
    target = 'leap_ec.binary_rep.decoders:BinaryToRealGreyDecoder.__init__'


class RealDecode(Contract):
    """a real value is its lower bound plus its integer times its increment: zero is the lower bound, all ones the upper"""
    prop = 'C09'
    target = 'leap_ec.binary_rep.decoders:BinaryToRealDecoderCommon.decode'
    ARR = KRef(PList(KReal, True))
    schema = {(RCOM, 'lower_bounds'): ARR, (RCOM, 'increments'): ARR, (RCOM, 'upper_bounds'): ARR, (RCOM, 'binary_to_int_decoder'): KRef(PObj(DEC))}

    def __init__(self):
        self.specs = {(DEC, 'decode'): self.dec}

    def dec(self, E, st, cx, args, kwargs, k):
        E.prove(st, args[1].t == self.g.t, "the genome itself is decoded")
        k(st, E.mk_list(st, self.K, lambda j: VInt(self.V(j)), KInt, True))

    def setup(self, E, st):
        self.V = z3.Function('intvalue', IntS, IntS)
        self.P = z3.Function('largest', IntS, IntS)          # 2^bits - 1 of each segment
        self.x = new_input(E, st, PObj(RCOM))
        self.g = in_list(E, st, KInt, nd=True)
        self.lo, self.inc, self.hi = [get(E, st, self.x.t, a, self.ARR) for a in ('lower_bounds', 'increments', 'upper_bounds')]
        self.K = fresh('K', IntS)
        st.assume(self.K >= 0)
        if E.mode == 'bmc':
            E.side.append(self.K <= 2)
        for a in (self.lo, self.inc, self.hi):
            st.assume(z3.And(a.t >= 0, a.t < st.alloc, E.lens(st, a.t) == self.K, a.t != self.g.t))
        self.st0 = st.fork()
        L, H, I = self.cols(E)
        st.assume(E.forall(0, self.K, lambda i: z3.And(self.P(i) >= 1, 0 <= self.V(i), self.V(i) <= self.P(i), I(i) * to_real(self.P(i)) == H(i) - L(i), L(i) <= H(i))))
        return [self.x, self.g], {}

    def cols(self, E):
        return [lambda i, a=a: elem(E, self.st0, a, i).t for a in (self.lo, self.hi, self.inc)]

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList) or not ret.p.nd or ret.p.k != KReal:
            return [("an array of reals", FALSE)]
        L, H, I = self.cols(E)
        r = lambda i: elem(E, st, ret, i).t
        out = [("one value per segment", E.lens(st, ret.t) == self.K),
               ("each value lies at its integer's place between the bounds", E.forall(0, self.K, lambda i: r(i) == L(i) + to_real(self.V(i)) * I(i))),
               ("the genome is left alone", unchanged_list(E, st0, st, self.g))]
        # pure arithmetic: the place lies inside the bounds and the ends are met
        l, h, inc, v, p = [z3.Real(x) for x in ('l', 'h', 'inc', 'v', 'p')]
        s2 = st.fork()
        s2.pc = [p >= 1, v >= 0, v <= p, inc * p == h - l, l <= h]
        E.prove(s2, z3.And(l <= l + v * inc, l + v * inc <= h, z3.Implies(v == 0, l + v * inc == l), z3.Implies(v == p, l + v * inc == h)), "decode: the place lies inside the bounds and the ends are met")
        return out


CONTRACTS = [ToInt(), ToIntUncached(), Decode(), GrayEncode(), GrayDecode(), RealInit(), GreyInit(), RealDecode()]
ASSUMPTIONS = ["segments have at least one and at most 62 bits (machine integers treated as mathematical)", "floating-point rounding ignored in the real decoder"]
