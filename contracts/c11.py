"""C11: segmented genomes: operators act on whole segments and never lose, tie together or empty them."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

INDK = KRef(PObj(IND))
FIT = KMaybe(KReal)
SEG = PList(KOpq, True)
GK = KRef(PList(KRef(SEG)))
OPS = 'leap_ec.segmented_rep.ops:'
DEC = 'leap_ec.segmented_rep.decoders.SegmentedDecoder'


class _Op(Contract):
    """an operator on a stream of individuals with segmented genomes, each individual owning its genome"""
    prop = 'C11'
    may_raise = ('RuntimeError',)
    schema = {(IND, 'genome'): GK, (IND, 'fitness'): FIT}
    minsegs = 0
    bmc_budget = 60

    def setup(self, E, st):
        self.it = in_iter(E, st, INDK)
        for d in ('%d0', '%d1'):
            st.ghost[d] = z3.IntVal(-1)

        def draw(E, s, L, f):
            s.ghost['%d0'], s.ghost['%d1'] = s.ghost['%d1'], f(z3.IntVal(0))
        E.on_draw = draw
        kw = self.mk(E, st)
        self.st0 = s0 = st.fork()
        self.slot = z3.Function('slot', IntS, IntS)
        self.own = z3.Function('own', IntS, IntS)
        el = lambda j: nth(E, self.it, j).t
        g = lambda r: get(E, s0, r, 'genome', GK).t
        sane = lambda j: z3.And(self.slot(el(j)) == j, self.own(g(el(j))) == el(j), g(el(j)) >= 0, g(el(j)) < s0.alloc, el(j) >= 0, el(j) < s0.alloc,
                                E.lens(s0, g(el(j))) >= self.minsegs)
        # segments (and other lists the caller hands in) are no one's genome
        seg = lambda j, i: elem(E, s0, VRef(g(el(j)), GK.p), i).t
        segok = lambda j, i: z3.And(seg(j, i) >= 0, seg(j, i) < s0.alloc, self.own(seg(j, i)) == -1)
        st.assume(self.slot(-1) == -1)
        for x in kw.values():
            if isinstance(x, VRef):
                st.assume(self.own(x.t) == -1)
        if E.mode == 'bmc':
            for i in range(E.N + 4):
                st.assume(sane(z3.IntVal(i)))
                E.side.append(E.lens(s0, g(el(z3.IntVal(i)))) <= E.N)
                for m in range(E.N + 1):
                    st.assume(segok(z3.IntVal(i), z3.IntVal(m)))
                    E.side.append(E.lens(s0, seg(z3.IntVal(i), z3.IntVal(m))) <= E.N)
        else:
            j = z3.Int('j!s')
            st.assume(z3.ForAll([j], z3.Implies(j >= 0, sane(j)), patterns=[el(j)]))
            i = z3.Int('i!s')
            st.assume(z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, i >= 0, i < E.lens(s0, g(el(j)))), segok(j, i)), patterns=[seg(j, i)]))
        return [self.it], kw

    def cands(self, E, L):
        def later(f):
            return lambda s: E.forall_ref(0, self.st0.alloc, lambda r: z3.Implies(self.slot(r) >= pos(E, s, self.it), f(s, r)), pats=[self.slot])

        def laterl(f):
            return lambda s: E.forall_ref(0, self.st0.alloc, lambda g: z3.Implies(self.slot(self.own(g)) >= pos(E, s, self.it), f(s, g)), pats=[self.own])
        yield "later genomes untouched", later(lambda s, r: get(E, s, r, 'genome', GK).t == get(E, self.st0, r, 'genome', GK).t)
        yield "later fitness untouched", later(lambda s, r: z3.And(*[a == b for a, b in zip(FIT.pack(get(E, s, r, 'fitness', FIT)), FIT.pack(get(E, self.st0, r, 'fitness', FIT)))]))
        others = lambda f: lambda s: E.forall_ref(0, self.st0.alloc, lambda g: z3.Implies(self.own(g) == -1, f(s, g)), pats=[self.own])
        yield "segments keep their lengths", others(lambda s, g: E.lens(s, g) == E.lens(self.st0, g))
        yield "segments keep their genes", others(lambda s, g: E.elarr(s, KOpq, '', U, g) == E.elarr(self.st0, KOpq, '', U, g))
        yield "later lengths untouched", laterl(lambda s, g: E.lens(s, g) == E.lens(self.st0, g))
        yield "later segments untouched", laterl(lambda s, g: E.elarr(s, KRef(SEG), '', IntS, g) == E.elarr(self.st0, KRef(SEG), '', IntS, g))

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields individuals", FALSE)]
        r = nth(E, self.it, i).t
        s0 = self.st0
        g0, g1 = get(E, s0, r, 'genome', GK), get(E, st, r, 'genome', GK)
        n0, n1 = E.lens(s0, g0.t), E.lens(st, g1.t)
        f0, f1 = FIT.pack(get(E, s0, r, 'fitness', FIT)), FIT.pack(get(E, st, r, 'fitness', FIT))
        old, new = (lambda j: elem(E, s0, g0, j).t), (lambda j: elem(E, st, g1, j).t)
        same = z3.And(n1 == n0, E.forall(0, n0, lambda j: new(j) == old(j)), *[a == b for a, b in zip(f0, f1)])
        return [("yields the next incoming individual itself", v.t == r)] + self.effect(E, st, i, n0, n1, old, new, same, f1[0])

    def some(self, E, st, lo, hi, f, extra=()):
        """lo <= p < hi with f(p): in proof mode shown by one of the numbers drawn (which implies existence)"""
        if E.mode == 'bmc':
            return E.exists(lo, hi, f)
        return z3.Or(*[z3.And(lo <= p, p < hi, f(p)) for p in [st.ghost['%d0'], st.ghost['%d1']] + list(extra)])

    def inserted(self, E, n0, n1, old, new, p, isnew):
        return z3.And(n1 == n0 + 1, isnew(new(p)), E.forall(0, n0, lambda j: z3.If(j < p, new(j) == old(j), new(j + 1) == old(j))))

    def prob(self, E, st):
        self.p = fresh('p', RealS)
        return VReal(self.p)

    def chance(self, hit, same, f):
        return [("either nothing changes or one whole-segment change is made and fitness invalidated", z3.Or(same, z3.And(hit, f))),
                ("no change at probability zero", z3.Implies(self.p <= 0, same)),
                ("always a change at probability one", z3.Implies(self.p >= 1, z3.And(hit, f)))]


class Add(_Op):
    """add_segment: a new segment from the initializer goes in at one place (at the end if asked), the others stay"""
    target = OPS + 'add_segment'
    end = False

    def mk(self, E, st):
        self.NEW = z3.Function('newseg', IntS, IntS)
        st.ghost['%made'] = z3.IntVal(0)

        def init(E, s, cx, args, kw, k):
            # a new segment at each call
            r = VRef(E.new_ref(s), SEG)
            s.ghost['%last'] = r.t
            s.ghost['%made'] = s.ghost['%made'] + 1
            k(s, r)
        st.ghost['%last'] = z3.IntVal(-1)
        return dict(seq_initializer=VSpec(init, 'init'), probability=self.prob(E, st), append=VBool(self.end))

    def effect(self, E, st, i, n0, n1, old, new, same, nofit):
        isnew = lambda x: z3.And(x == st.ghost['%last'], x >= self.st0.alloc)
        hit = lambda p: self.inserted(E, n0, n1, old, new, p, isnew)
        return self.chance(hit(n0) if self.end else self.some(E, st, z3.IntVal(0), n0 + 1, hit), same, nofit)


class AddAppend(Add):
    end = True


class Copy(_Op):
    """copy_segment: an equal copy of one segment, sharing nothing with it, goes in at one place; the others stay"""
    target = OPS + 'copy_segment'
    end = False
    minsegs = 1

    def mk(self, E, st):
        return dict(probability=self.prob(E, st), append=VBool(self.end))

    def effect(self, E, st, i, n0, n1, old, new, same, nofit):
        s0 = self.st0

        def equal(a, b):
            return z3.And(E.lens(st, a) == E.lens(s0, b), E.forall(0, E.lens(s0, b), lambda j: elem(E, st, VRef(a, SEG), j).t == elem(E, s0, VRef(b, SEG), j).t))
        copied = lambda x: z3.And(x >= s0.alloc, self.some(E, st, z3.IntVal(0), n0, lambda q: equal(x, old(q))))
        hit = lambda p: self.inserted(E, n0, n1, old, new, p, copied)
        return self.chance(hit(n0) if self.end else self.some(E, st, z3.IntVal(0), n0 + 1, hit), same, nofit)


class CopyAppend(Copy):
    end = True


class Remove(_Op):
    """remove_segment: one segment goes, the others stay in order; a genome is never emptied"""
    target = OPS + 'remove_segment'

    def mk(self, E, st):
        return dict(probability=self.prob(E, st))

    def effect(self, E, st, i, n0, n1, old, new, same, nofit):
        gone = lambda p: z3.And(n1 == n0 - 1, E.forall(0, n0 - 1, lambda j: new(j) == z3.If(j < p, old(j), old(j + 1))))
        hit = z3.And(self.some(E, st, z3.IntVal(0), n0, gone), n0 > 1)
        return [("either nothing changes or one segment is removed and fitness invalidated", z3.Or(same, z3.And(hit, nofit))),
                ("no change at probability zero", z3.Implies(self.p <= 0, same)),
                ("always a removal at probability one when there is more than one segment", z3.Implies(z3.And(self.p >= 1, n0 > 1), z3.And(hit, nofit))),
                ("a genome is never emptied", z3.Implies(n0 >= 1, n1 >= 1))]


class Apply(_Op):
    """apply_mutation: each segment is replaced by its mutant, with an equal share of the expected number of mutations"""
    target = OPS + 'apply_mutation'
    minsegs = 1

    def mk(self, E, st):
        self.M = z3.Function('mutant', IntS, IntS)
        self.e = fresh('expected', RealS)
        st.assume(z3.And(self.e >= 0, self.e <= 1))

        def mut(E, s, cx, args, kw, k):
            vals = dict(zip(('genome', 'expected_num_mutations'), args))
            vals.update(kw)
            r = nth(E, self.it, z3.simplify(s.ghost['%y'])).t
            n = E.lens(self.st0, get(E, self.st0, r, 'genome', GK).t)
            x = vals.get('expected_num_mutations')
            E.prove(s, E.asreal(x).t * z3.ToReal(n) == self.e if isinstance(x, (VReal, VInt)) else FALSE, "each segment gets its share of the expected number of mutations")
            k(s, VRef(self.M(vals['genome'].t), SEG))
        return dict(mutator=VSpec(mut, 'mutator'), expected_num_mutations=VReal(self.e))

    def effect(self, E, st, i, n0, n1, old, new, same, nofit):
        return [("as many segments as before", n1 == n0), ("every segment is replaced by its mutant, in order", E.forall(0, n0, lambda j: new(j) == self.M(old(j)))),
                ("its fitness is invalidated", nofit)]


class Mutate(_Op):
    """segmented_mutate: the j-th segment is replaced by what the j-th mutator makes of it"""
    target = OPS + 'segmented_mutate'
    budget = 180

    def __init__(self):
        self.specs = {('Mut', '__call__'): self.mut}

    def mut(self, E, st, cx, args, kw, k):
        a = args[0:2]
        if len(args) != 2 or kw:
            raise Unsupported("mutator call")
        k(st, VRef(self.M(a[0].t, a[1].t), SEG))

    def mk(self, E, st):
        self.M = z3.Function('mutant', IntS, IntS, IntS)
        self.ms = in_list(E, st, KRef(PObj('Mut')))
        return dict(mutator_functions=self.ms)

    def cands(self, E, L):
        yield from super().cands(E, L)
        g0 = get(E, self.st0, nth(E, self.it, L.entry.ghost['%y']).t, 'genome', GK)
        for nm, v in L.mod_lists():
            yield f"{nm}: one mutant per segment so far", lambda s, v=v: E.lens(s, v.t) == L.k(s)
            if v.p.k == KRef(SEG):
                yield f"{nm}: mutants in order", lambda s, v=v: E.forall(0, E.lens(s, v.t), lambda j: elem(E, s, v, j).t == self.M(elem(E, self.st0, self.ms, j).t, elem(E, self.st0, g0, j).t))

    def effect(self, E, st, i, n0, n1, old, new, same, nofit):
        m = lambda j: elem(E, self.st0, self.ms, j).t
        return [("as many segments as mutators", z3.And(n1 == n0, n0 == E.lens(self.st0, self.ms.t))),
                ("each segment is replaced by the mutant its own mutator makes", E.forall(0, n0, lambda j: new(j) == self.M(m(j), old(j)))),
                ("its fitness is invalidated", nofit)]

    def on_exc(self, E, st0, st, exc):
        r = nth(E, self.it, st.ghost['%y']).t
        n = E.lens(self.st0, get(E, self.st0, r, 'genome', GK).t)
        if exc.name == 'AssertionError':
            return [("refused only when the number of segments and mutators differ", n != E.lens(self.st0, self.ms.t))]
        return [(f"raises no {exc.name}", z3.BoolVal(exc.name == 'RuntimeError'))]


class Decode(Contract):
    """SegmentedDecoder: one decoded value per segment, in order"""
    prop = 'C11'
    target = 'leap_ec.segmented_rep.decoders:SegmentedDecoder.decode'
    schema = {(DEC, 'segment_decoder'): KRef(PObj('Decoder'))}

    def __init__(self):
        self.specs = {('Decoder', 'decode'): self.dec}

    def dec(self, E, st, cx, args, kw, k):
        args = [a for a in args if not (isinstance(a, VRef) and isinstance(a.p, PObj))]
        k(st, VOpq(self.D(args[0].t)))

    def setup(self, E, st):
        self.D = z3.Function('decoded', IntS, U)
        self.x = new_input(E, st, PObj(DEC))
        self.g = in_list(E, st, KRef(SEG))
        return [self.x, self.g], {}

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        n = E.lens(st0, self.g.t)
        if ret.p.k is None:
            return [("one value per segment", n == 0)]
        return [("one value per segment", E.lens(st, ret.t) == n),
                ("each segment decoded, in order", E.forall(0, n, lambda j: elem(E, st, ret, j).t == self.D(elem(E, st0, self.g, j).t)))]


class DecInit(Contract):
    prop = 'C11'
    target = 'leap_ec.segmented_rep.decoders:SegmentedDecoder.__init__'
    schema = Decode.schema

    def setup(self, E, st):
        self.x, self.d = new_input(E, st, PObj(DEC)), new_input(E, st, PObj('Decoder'))
        return [self.x, self.d], {}

    def post(self, E, st0, st, ret):
        return [("keeps the segment decoder", get(E, st, self.x.t, 'segment_decoder', KRef(PObj('Decoder'))).t == self.d.t)]


CONTRACTS = [Add(), AddAppend(), Copy(), CopyAppend(), Remove(), Apply(), Mutate(), Decode(), DecInit()]
