"""C08: mutation keeps genomes well-formed and in bounds, and invalidates fitness."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

INDK = KRef(PObj(IND))
FIT = KMaybe(KReal)
BND = KTuple([KReal, KReal])
IBND = KTuple([KInt, KInt])


class Mutator(Contract):
    """common to the genome-level mutators: an array genome goes in, an array of the same length comes out"""
    prop = 'C08'
    gk = KReal
    by = 'probability'

    def rate(self, E, st, kw):
        self.p = fresh('p', RealS)
        n = E.lens(st, self.g.t)
        if self.by == 'probability':
            kw['probability'] = VReal(self.p)
            st.assume(z3.And(self.p >= 0, self.p <= 1))
        elif self.by == 'expected':
            kw['expected_num_mutations'] = VReal(self.p)
            st.assume(z3.And(self.p >= 0, self.p <= n, n >= 1))

    def genome(self, E, st):
        self.g = in_list(E, st, self.gk, nd=True)
        return self.g

    def old(self, E, j):
        return elem(E, self.st0, self.g, j).t

    def certain(self, E):
        n = E.lens(self.st0, self.g.t)
        return (self.p == 0, self.p == 1) if self.by == 'probability' else (self.p == 0, self.p == n) if self.by == 'expected' else (FALSE, TRUE)

    def post(self, E, st0, st, ret):
        self.st0 = st0
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList) or not ret.p.nd:
            return [("returns an array genome", FALSE)]
        n = E.lens(st0, self.g.t)
        out = [("the genome keeps its length", E.lens(st, ret.t) == n), ("the kind of gene is kept", z3.BoolVal(ret.p.k == self.gk))]
        if ret.p.k != self.gk:
            return out
        new = lambda j: elem(E, st, ret, j).t
        return out + self.genes(E, st0, st, n, lambda j: self.old(E, j), new)


class Bitflip(Mutator):
    """bit-flip: every gene is kept or flipped"""
    target = 'leap_ec.binary_rep.ops:genome_mutate_bitflip'
    gk = KInt

    def setup(self, E, st):
        kw = {}
        g = self.genome(E, st)
        st.assume(E.forall(0, E.lens(st, g.t), lambda j: z3.Or(elem(E, st, g, j).t == 0, elem(E, st, g, j).t == 1)))
        self.rate(E, st, kw)
        return [g], kw

    def genes(self, E, st0, st, n, old, new):
        never, always = self.certain(E)
        return [("every gene is a bit", E.forall(0, n, lambda j: z3.Or(new(j) == 0, new(j) == 1))),
                ("no gene changes at rate zero", z3.Implies(never, E.forall(0, n, lambda j: new(j) == old(j)))),
                ("every gene flips at rate one", z3.Implies(always, E.forall(0, n, lambda j: new(j) == 1 - old(j))))]


class BitflipExpected(Bitflip):
    by = 'expected'


class Gaussian(Mutator):
    """Gaussian: genes stay inside the bounds; untouched genes are only clipped"""
    target = 'leap_ec.real_rep.ops:genome_mutate_gaussian'
    by = 'expected'
    stds, bounds = 'scalar', 'pair'
    transform = False

    def setup(self, E, st):
        g = self.genome(E, st)
        kw = {}
        n = E.lens(st, g.t)
        if self.stds == 'scalar':
            s = fresh('std', RealS)
            st.assume(s >= 0)
            kw['std'] = VReal(s)
            self.std = lambda j: s
        else:
            v = in_list(E, st, KReal, distinct_from=[g])
            st.assume(E.lens(st, v.t) == n)
            st.assume(E.forall(0, n, lambda j: elem(E, st, v, j).t >= 0))
            kw['std'] = v
            s0 = st.fork()
            self.std = lambda j: elem(E, s0, v, j).t
        if self.by == 'isotropic':
            kw['expected_num_mutations'] = VStr('isotropic')
        else:
            self.rate(E, st, kw)
        if self.bounds == 'pair':
            lo, hi = fresh('lo', RealS), fresh('hi', RealS)
            st.assume(lo <= hi)
            kw['bounds'] = VTuple([VReal(lo), VReal(hi)])
            self.lo, self.hi = (lambda j: lo), (lambda j: hi)
        elif self.bounds == 'list':
            b = in_list(E, st, BND, distinct_from=[g])
            st.assume(z3.And(E.lens(st, b.t) == n, n >= 1))
            s0 = st.fork()
            self.lo, self.hi = (lambda j: elem(E, s0, b, j).items[0].t), (lambda j: elem(E, s0, b, j).items[1].t)
            st.assume(E.forall(0, n, lambda j: self.lo(j) <= self.hi(j)))
            kw['bounds'] = b
        if self.transform:
            self.a, self.b = fresh('slope', RealS), fresh('icept', RealS)
            kw.update(transform_slope=VReal(self.a), transform_intercept=VReal(self.b))
        return [g], kw

    def clip(self, j, x):
        lo, hi = self.lo(j), self.hi(j)
        return z3.If(x < lo, lo, z3.If(x > hi, hi, x))

    def genes(self, E, st0, st, n, old, new):
        never, always = self.certain(E) if self.by != 'isotropic' else (FALSE, TRUE)
        out = [("every gene is inside its bounds", E.forall(0, n, lambda j: z3.And(self.lo(j) <= new(j), new(j) <= self.hi(j)))),
               ("no gene moves at rate zero (except into its bounds)", z3.Implies(never, E.forall(0, n, lambda j: new(j) == self.clip(j, old(j)))))]
        if not self.transform:
            out.append(("no gene moves with standard deviation zero (except into its bounds)", E.forall(0, n, lambda j: z3.Implies(
                self.std(j) == 0, new(j) == self.clip(j, old(j))))))
        else:
            out.append(("with standard deviation zero every mutated gene is transformed, others stay", E.forall(0, n, lambda j: z3.Implies(
                self.std(j) == 0, z3.Or(new(j) == self.clip(j, self.a * old(j) + self.b), new(j) == self.clip(j, old(j)))))))
        return out


class GaussianIso(Gaussian):
    by = 'isotropic'


class GaussianVec(Gaussian):
    stds = 'vec'


class GaussianBounds(Gaussian):
    stds, bounds = 'vec', 'list'


class GaussianTransform(Gaussian):
    transform = True


class HardBounds(Contract):
    """apply_hard_bounds: every gene inside its bounds, genes already inside unchanged"""
    prop = 'C08'
    target = 'leap_ec.real_rep.ops:apply_hard_bounds'
    form = 'pair'
    gk = KReal
    nd = True

    def setup(self, E, st):
        self.g = in_list(E, st, self.gk, nd=self.nd)
        n = E.lens(st, self.g.t)
        so = self.gk.comps[0][1]
        wrap = VReal if self.gk == KReal else VInt
        if self.form == 'pair':
            lo, hi = fresh('lo', so), fresh('hi', so)
            st.assume(lo <= hi)
            self.lo, self.hi = (lambda j: lo), (lambda j: hi)
            return [self.g, VTuple([wrap(lo), wrap(hi)])], {}
        b = in_list(E, st, KTuple([self.gk, self.gk]), nd=self.form == 'array', distinct_from=[self.g])
        st.assume(z3.And(E.lens(st, b.t) == n, n >= 1))
        s0 = st.fork()
        self.lo, self.hi = (lambda j: elem(E, s0, b, j).items[0].t), (lambda j: elem(E, s0, b, j).items[1].t)
        st.assume(E.forall(0, n, lambda j: self.lo(j) <= self.hi(j)))
        return [self.g, b], {}

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList):
            return [("returns an array", FALSE)]
        n = E.lens(st0, self.g.t)
        x, y = (lambda j: elem(E, st0, self.g, j).t), (lambda j: elem(E, st, ret, j).t)
        return [("same length", E.lens(st, ret.t) == n),
                ("the nearest value inside the bounds, gene by gene", E.forall(0, n, lambda j: y(j) == z3.If(x(j) < self.lo(j), self.lo(j), z3.If(x(j) > self.hi(j), self.hi(j), x(j)))))]


class HardBoundsList(HardBounds):
    form = 'list'


class HardBoundsArray(HardBounds):
    form = 'array'


class HardBoundsInt(HardBounds):
    gk = KInt


class Randint(Mutator):
    """random-integer: mutated genes are drawn from their own bounds, inclusive; the rest stay"""
    target = 'leap_ec.int_rep.ops:individual_mutate_randint'
    gk = KInt

    def setup(self, E, st):
        kw = {}
        g = self.genome(E, st)
        n = E.lens(st, g.t)
        b = in_list(E, st, IBND, distinct_from=[g])
        st.assume(E.lens(st, b.t) == n)
        s0 = st.fork()
        self.lo, self.hi = (lambda j: elem(E, s0, b, j).items[0].t), (lambda j: elem(E, s0, b, j).items[1].t)
        st.assume(E.forall(0, n, lambda j: self.lo(j) <= self.hi(j)))
        self.rate(E, st, kw)
        return [g, b], kw

    def genes(self, E, st0, st, n, old, new):
        never, always = self.certain(E)
        inb = lambda j: z3.And(self.lo(j) <= new(j), new(j) <= self.hi(j))
        return [("every gene is its old value or inside its own bounds", E.forall(0, n, lambda j: z3.Or(new(j) == old(j), inb(j)))),
                ("no gene changes at rate zero", z3.Implies(never, E.forall(0, n, lambda j: new(j) == old(j)))),
                ("every gene is redrawn at rate one", z3.Implies(always, E.forall(0, n, inb)))]


class RandintExpected(Randint):
    by = 'expected'


class Binomial(Mutator):
    """binomial: genes stay integers inside their bounds; untouched genes are only clipped"""
    target = 'leap_ec.int_rep.ops:genome_mutate_binomial'
    gk = KInt
    stds = 'scalar'

    def setup(self, E, st):
        kw = {}
        g = self.genome(E, st)
        n = E.lens(st, g.t)
        b = in_list(E, st, IBND, distinct_from=[g])
        st.assume(z3.And(E.lens(st, b.t) == n, n >= 1))
        s0 = st.fork()
        self.lo, self.hi = (lambda j: elem(E, s0, b, j).items[0].t), (lambda j: elem(E, s0, b, j).items[1].t)
        st.assume(E.forall(0, n, lambda j: self.lo(j) <= self.hi(j)))
        self.rate(E, st, kw)
        self.coins = fresh('coins', IntS)
        st.assume(self.coins >= 1)
        s = fresh('std', RealS)
        st.assume(z3.And(s >= 0, 4 * s * s <= self.coins))
        kw['n'] = VInt(self.coins)
        return [VReal(s), b], kw

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, lambda s, m: E.call(m, [self.g], {}, s, cx, k))

    def genes(self, E, st0, st, n, old, new):
        never, always = self.certain(E)
        clip = lambda j, x: z3.If(x < self.lo(j), self.lo(j), z3.If(x > self.hi(j), self.hi(j), x))
        return [("every gene is inside its own bounds", E.forall(0, n, lambda j: z3.And(self.lo(j) <= new(j), new(j) <= self.hi(j)))),
                ("no gene moves at rate zero (except into its bounds)", z3.Implies(never, E.forall(0, n, lambda j: new(j) == clip(j, old(j)))))]


class BinomialExpected(Binomial):
    by = 'expected'


class _Op(Contract):
    """a mutation operator in a pipeline: each incoming individual, in order, with the mutator's genome and no fitness"""
    prop = 'C08'
    may_raise = ('RuntimeError',)
    GK = KRef(PList(KOpq, True))
    schema = {(IND, 'genome'): GK, (IND, 'fitness'): FIT}
    inner = ''
    kw = {}
    closure = False

    def __init__(self):
        self.specs = {self.inner: self.spec}

    def spec(self, E, st, cx, args, kwargs, k):
        def mut(E, s, cx2, a, kw2, kk):
            r = VRef(self.M(a[0].t, z3.simplify(s.ghost['%y'])), PList(KOpq, True))
            s.ghost['%muts'] = s.ghost['%muts'] + 1
            self.params(E, s, args[1:] if not self.closure else args, {**kwargs, **kw2})
            kk(s, r)
        if self.closure or not (args and isinstance(args[0], VRef) and isinstance(args[0].p, PList) and args[0].p.nd):
            return k(st, VSpec(mut, 'genome mutator'))
        mut(E, st, cx, args, {}, k)

    def params(self, E, s, args, kwargs):
        """the operator hands its own parameters on"""
        pos_ = dict(zip(self.pos, args))
        got = {**pos_, **kwargs}
        for nm, v in self.given.items():
            g = got.get(nm)
            ok = FALSE if g is None else z3.BoolVal(g is v) if not isinstance(v, (VReal, VInt)) else (E.asreal(g).t == E.asreal(v).t if isinstance(g, (VReal, VInt)) else FALSE)
            E.prove(s, ok, f"the mutator gets the operator's {nm}")

    def setup(self, E, st):
        self.M = z3.Function('mutated', IntS, IntS, IntS)
        st.ghost['%muts'] = z3.IntVal(0)
        self.it = in_iter(E, st, INDK)
        self.given = self.mk(E, st)
        self.st0 = st.fork()
        self.slot = z3.Function('slot', IntS, IntS)
        el = lambda j: nth(E, self.it, j).t
        if E.mode == 'bmc':
            for i in range(E.N + 4):
                st.assume(self.slot(el(z3.IntVal(i))) == i)
        else:
            j = z3.Int('j!s')
            st.assume(z3.ForAll([j], z3.Implies(j >= 0, self.slot(el(j)) == j), patterns=[el(j)]))
        return [self.it], dict(self.given)

    def genome(self, E, s, r):
        return get(E, s, r, 'genome', self.GK).t

    def cands(self, E, L):
        yield "later genomes untouched", lambda s: E.forall_ref(0, self.st0.alloc, lambda r: z3.Implies(
            self.slot(r) >= pos(E, s, self.it), self.genome(E, s, r) == self.genome(E, self.st0, r)), pats=[self.slot])

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields individuals", FALSE)]
        r = nth(E, self.it, i).t
        f = FIT.pack(get(E, st, r, 'fitness', FIT))
        return [("yields the next incoming individual itself", v.t == r),
                ("it is mutated once", st.ghost['%muts'] == i + 1),
                ("its genome is the mutated genome", self.genome(E, st, r) == self.M(self.genome(E, self.st0, r), i)),
                ("its fitness is invalidated", f[0])]


def bounds_of(E, st, kind):
    return in_list(E, st, KTuple([kind, kind]))


class OpBitflip(_Op):
    target = 'leap_ec.binary_rep.ops:mutate_bitflip'
    inner = 'leap_ec.binary_rep.ops.genome_mutate_bitflip'
    pos = ('expected_num_mutations', 'probability')

    def mk(self, E, st):
        p = fresh('p', RealS)
        st.assume(z3.And(p >= 0, p <= 1))
        return dict(probability=VReal(p))


class OpBitflipE(OpBitflip):
    def mk(self, E, st):
        return dict(expected_num_mutations=VReal(fresh('e', RealS)))


class OpGaussian(_Op):
    target = 'leap_ec.real_rep.ops:mutate_gaussian'
    inner = 'leap_ec.real_rep.ops.genome_mutate_gaussian'
    pos = ('std', 'expected_num_mutations', 'bounds', 'transform_slope', 'transform_intercept')

    def mk(self, E, st):
        return dict(std=VReal(fresh('std', RealS)), expected_num_mutations=VReal(fresh('e', RealS)), bounds=VTuple([VReal(fresh('lo', RealS)), VReal(fresh('hi', RealS))]),
                    transform_slope=VReal(fresh('a', RealS)), transform_intercept=VReal(fresh('b', RealS)))


class OpRandint(_Op):
    target = 'leap_ec.int_rep.ops:mutate_randint'
    inner = 'leap_ec.int_rep.ops.individual_mutate_randint'
    pos = ('bounds', 'expected_num_mutations', 'probability')

    def mk(self, E, st):
        p = fresh('p', RealS)
        st.assume(z3.And(p >= 0, p <= 1))
        return dict(bounds=bounds_of(E, st, KInt), probability=VReal(p))


class OpRandintE(OpRandint):
    def mk(self, E, st):
        return dict(bounds=bounds_of(E, st, KInt), expected_num_mutations=VReal(fresh('e', RealS)))


class OpBinomial(_Op):
    target = 'leap_ec.int_rep.ops:mutate_binomial'
    inner = 'leap_ec.int_rep.ops.genome_mutate_binomial'
    closure = True
    pos = ('std', 'bounds', 'expected_num_mutations', 'probability', 'n')

    def mk(self, E, st):
        p = fresh('p', RealS)
        st.assume(z3.And(p >= 0, p <= 1))
        return dict(std=VReal(fresh('std', RealS)), bounds=bounds_of(E, st, KInt), probability=VReal(p), n=VInt(fresh('n', IntS)))


class OpBinomialE(OpBinomial):
    def mk(self, E, st):
        return dict(std=VReal(fresh('std', RealS)), bounds=bounds_of(E, st, KInt), expected_num_mutations=VReal(fresh('e', RealS)))


class _BadParams(Contract):
    """a mutation operator refuses both, neither, or an impossible rate before it touches an individual"""
    prop = 'C08'
    schema = _Op.schema
    case = 'both'

    def setup(self, E, st):
        self.it = in_iter(E, st, INDK)
        kw = {}
        if 'bitflip' not in self.target:
            kw['bounds'] = bounds_of(E, st, KInt)
        if 'binomial' in self.target:
            kw['std'] = VReal(fresh('std', RealS))
        p, e = fresh('p', RealS), fresh('e', RealS)
        if self.case == 'both':
            kw.update(expected_num_mutations=VReal(e), probability=VReal(p))
        elif self.case == 'range':
            st.assume(z3.Or(p < 0, p > 1))
            kw.update(probability=VReal(p))
        return [self.it], kw

    def on_yield(self, E, st0, st, v, i):
        return [("refused", FALSE)]

    def post(self, E, st0, st, ret):
        return [("refused", FALSE)]

    def on_exc(self, E, st0, st, exc):
        return [("refused with ValueError", z3.BoolVal(exc.name == 'ValueError')), ("nothing is taken from upstream", pos(E, st, self.it) == 0)]


CONTRACTS = [Bitflip(), BitflipExpected(), Gaussian(), GaussianIso(), GaussianVec(), GaussianBounds(), GaussianTransform(),
             HardBounds(), HardBoundsList(), HardBoundsArray(), HardBoundsInt(), Randint(), RandintExpected(), Binomial(), BinomialExpected(),
             OpBitflip(), OpBitflipE(), OpGaussian(), OpRandint(), OpRandintE(), OpBinomial(), OpBinomialE()]
for t in ('binary_rep.ops:mutate_bitflip', 'int_rep.ops:mutate_randint', 'int_rep.ops:mutate_binomial'):
    for cs in ('both', 'neither', 'range'):
        CONTRACTS.append(type(f"Bad_{t.split(':')[1]}_{cs}", (_BadParams,), dict(target='leap_ec.' + t, case=cs, __doc__=_BadParams.__doc__))())
