"""C24: generation and birth counters, birth branding."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *

LEAP = 'dict:leap'
SCH = {('dict:ctx', '[leap]'): KRef(PObj(LEAP)), (LEAP, '[generation]'): KInt, (LEAP, '[births]'): KInt,
       (LEAP, 'has[generation]'): KBool, (LEAP, 'has[births]'): KBool}


class Counter(Contract):
    prop = 'C24'
    schema = SCH

    def ctx(self, E, st):
        self.c = new_input(E, st, PObj('dict:ctx'))
        self.leap = get(E, st, self.c.t, '[leap]', KRef(PObj(LEAP)))
        E.wf(st, self.leap)
        return self.c

    def val(self, E, st, key):
        return get(E, st, self.leap.t, f'[{key}]', KInt).t

    def hook(self, E, st):
        """ghost: number of callback calls and the last value reported"""
        st.ghost['%cb'], st.ghost['%cbv'] = z3.IntVal(0), z3.IntVal(0)

        def cb(E, s, cx, args, kw, k):
            s.ghost['%cb'] = s.ghost['%cb'] + 1
            s.ghost['%cbv'] = args[0].t
            k(s, NONE)
        return VTuple([VSpec(cb, 'callback')])


class IncGeneration(Counter):
    """each call advances the generation by one, in the counter, the context, the result and the callbacks alike"""
    target = 'leap_ec.util:inc_generation'
    steps = 3

    def setup(self, E, st):
        self.start = fresh('start', IntS)
        return [], dict(start_generation=VInt(self.start), context=self.ctx(E, st), callbacks=self.hook(E, st))

    def drive(self, E, st, cx, src, args, kwargs, k):
        def made(s, inc):
            def go(i, s2):
                def read(s3):
                    E.getattr(inc, 'generation', s3, cx, lambda s4, g: E.call(g, [], {}, s4, cx, lambda s5, v: seen(s5, v)))

                def seen(s3, v):
                    want = self.start + i
                    E.prove(s3, v.t == want if isinstance(v, VInt) else FALSE, "the counter reports start + calls")
                    E.prove(s3, self.val(E, s3, 'generation') == want, "the context holds the same generation")
                    E.prove(s3, z3.And(s3.ghost['%cb'] == i, z3.Implies(z3.IntVal(i) > 0, s3.ghost['%cbv'] == want)), "callbacks are told once per call")
                    if i == self.steps:
                        return k(s3, NONE)
                    E.call(inc, [], {}, s3, cx, lambda s4, v2: (E.prove(s4, v2.t == want + 1 if isinstance(v2, VInt) else FALSE, "the call returns the new generation"), go(i + 1, s4)))
                read(s2)
            go(0, s)
        E.call(self.callee(E, st, src), args, kwargs, st, cx, made)


class IncBirths(Counter):
    """births: +size per increment, -1 per decrement, context and counter always agree"""
    target = 'leap_ec.util:inc_births'

    def setup(self, E, st):
        self.start = fresh('start', IntS)
        self.sizes = [fresh('sz', IntS) for _ in range(2)]
        return [], dict(start=VInt(self.start), context=self.ctx(E, st), callbacks=self.hook(E, st))

    def drive(self, E, st, cx, src, args, kwargs, k):
        def made(s, inc):
            ops = [(None, z3.IntVal(1), []), (None, self.sizes[0], [VInt(self.sizes[0])]), ('do_decrement', z3.IntVal(-1), []),
                   ('do_increment', self.sizes[1], [VInt(self.sizes[1])]), ('do_decrement', z3.IntVal(-1), []), (None, z3.IntVal(1), [])]

            def agree(s2, want, then):
                E.prove(s2, self.val(E, s2, 'births') == want, "the context holds the same number of births")
                E.getattr(inc, 'births', s2, cx, lambda s3, g: E.call(g, [], {}, s3, cx, lambda s4, v: (
                    E.prove(s4, v.t == want if isinstance(v, VInt) else FALSE, "the counter reports the births so far"), then(s4))))

            def go(i, s2, want):
                if i == len(ops):
                    return k(s2, NONE)
                at, d, a = ops[i]
                w = z3.simplify(want + d)
                f = lambda s3, fn: E.call(fn, a, {}, s3, cx, lambda s4, v: (
                    E.prove(s4, v.t == w if isinstance(v, VInt) else FALSE, "the call returns the new count"), agree(s4, w, lambda s5: go(i + 1, s5, w))))
                if at is None:
                    return f(s2, inc)
                E.getattr(inc, at, s2, cx, f)
            agree(s, self.start, lambda s2: go(0, s2, self.start))
        E.call(self.callee(E, st, src), args, kwargs, st, cx, made)


class GetStep(Counter):
    """get_step returns the one counter that is present (or asked for); ambiguity is refused"""
    target = 'leap_ec.util:get_step'
    kw = {}

    def setup(self, E, st):
        c = self.ctx(E, st)
        self.hg, self.hb = (get(E, st, self.leap.t, f'has[{x}]', KBool).t for x in ('generation', 'births'))
        return [], dict(context=c, **{k: (NONE if v is None else VBool(v)) for k, v in self.kw.items()})

    def which(self):
        g, b = self.kw.get('use_generation'), self.kw.get('use_births')
        if g is None and b is None:
            return z3.And(self.hg, z3.Not(self.hb)), z3.And(self.hb, z3.Not(self.hg))
        if bool(g) == bool(b) or g is None and b is False or b is None and g is False:
            return FALSE, FALSE
        return z3.And(z3.BoolVal(bool(g)), self.hg), z3.And(z3.BoolVal(bool(b)), self.hb)

    def post(self, E, st0, st, ret):
        g, b = self.which()
        if isinstance(ret, VNone):
            return [("only an ambiguous request has no answer", z3.Not(z3.Or(g, b)))]
        if not isinstance(ret, VInt):
            return [("returns a count", FALSE)]
        return [("returns the generation or the births asked for", z3.And(z3.Or(g, b), ret.t == z3.If(g, self.val(E, st0, 'generation'), self.val(E, st0, 'births'))))]

    def on_exc(self, E, st0, st, exc):
        g, b = self.which()
        return [("refuses only ambiguous or unavailable requests", z3.And(z3.BoolVal(exc.name == 'AssertionError'), z3.Not(z3.Or(g, b))))]


class GetStepG(GetStep):
    kw = dict(use_generation=True)


class GetStepB(GetStep):
    kw = dict(use_births=True)


class GetStepBoth(GetStep):
    kw = dict(use_births=True, use_generation=True)


class _Brand(Contract):
    """birth_brander: every individual gets a birth id unless it has one; ids start at 0, stay below the number of
    individuals seen and are never reused"""
    prop = 'C24'
    target = 'leap_ec.util:birth_brander'
    schema = {(IND, 'birth'): KInt, (IND, 'has.birth'): KBool}

    def has(self, E, st, r):
        return get(E, st, r, 'has.birth', KBool).t

    def birth(self, E, st, r):
        return get(E, st, r, 'birth', KInt).t

    def given(self, E, st, r):
        """branded since the start"""
        return z3.And(self.has(E, st, r), z3.Not(self.has(E, self.st0, r)))

    def kept(self, E, st):
        return E.forall_ref(0, self.st0.alloc, lambda r: z3.Implies(self.has(E, self.st0, r), z3.And(
            self.has(E, st, r), self.birth(E, st, r) == self.birth(E, self.st0, r))))

    def below(self, E, st, n):
        return E.forall_ref(0, self.st0.alloc, lambda r: z3.Implies(self.given(E, st, r), z3.And(
            self.birth(E, st, r) >= 0, self.birth(E, st, r) < n)))

    def unique(self, E, st):
        return E.forall_ref(0, self.st0.alloc, lambda r: E.forall_ref(0, self.st0.alloc, lambda q: z3.Implies(
            z3.And(self.given(E, st, r), self.given(E, st, q), r != q), self.birth(E, st, r) != self.birth(E, st, q))))

    def cands(self, E, L):
        yield "births already assigned are kept", lambda s: self.kept(E, s)
        yield "new births are unique", lambda s: self.unique(E, s)
        for fr in L.entry.frames.values():
            for v in fr.values():
                if isinstance(v, VRef) and isinstance(v.p, PIter) and v.p.affine is not None:
                    yield "new births are below the counter", lambda s, v=v: self.below(E, s, v.p.affine + pos(E, s, v))
                    yield "the counter stays below the individuals seen", lambda s, v=v: z3.And(pos(E, s, v) >= 0, pos(E, s, v) <= L.k(s))

        for g, nm, v in L.ints():
            yield f"new births are below {nm}", lambda s, g=g: self.below(E, s, g(s))
            yield f"{nm} stays below the individuals seen", lambda s, g=g: z3.And(g(s) >= 0, g(s) <= L.k(s))

    def common(self, E, st, n):
        return [("births already assigned are kept", self.kept(E, st)), ("ids handed out are unique", self.unique(E, st)),
                ("ids are consecutive from zero: below the number of individuals seen", self.below(E, st, n))]


class BrandPipe(_Brand):
    def setup(self, E, st):
        self.it = in_iter(E, st, KRef(PObj(IND)))
        self.st0 = st.fork()
        return [], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, lambda s, br: E.call(br, [self.it], {}, s, cx, k))

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields individuals", FALSE)]
        r = nth(E, self.it, i).t
        return [("yields the next incoming individual itself", v.t == r), ("it has a birth id", self.has(E, st, r))] + self.common(E, st, i + 1)

    def post(self, E, st0, st, ret):
        ln = z3.Function('itlen', IntS, IntS)(self.it.t)
        return [("every incoming individual was passed on", st.ghost['%y'] == ln)]


class BrandList(BrandPipe):
    def setup(self, E, st):
        self.it = in_pop(E, st, distinct=False)
        self.st0 = st.fork()
        return [], {}

    def on_yield(self, E, st0, st, v, i):
        if not isinstance(v, VRef):
            return [("yields individuals", FALSE)]
        r = elem(E, st0, self.it, i).t
        return [("yields the next incoming individual itself", v.t == r), ("it has a birth id", self.has(E, st, r))] + self.common(E, st, i + 1)

    def post(self, E, st0, st, ret):
        return [("every incoming individual was passed on", st.ghost['%y'] == E.lens(st0, self.it.t))]


class BrandPopulation(_Brand):
    def setup(self, E, st):
        self.it = in_pop(E, st, distinct=False)
        self.st0 = st.fork()
        return [], {}

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, lambda s, br: E.getattr(
            br, 'brand_population', s, cx, lambda s2, f: E.call(f, [self.it], {}, s2, cx, k)))

    def cands(self, E, L):
        yield from super().cands(E, L)
        yield "visited individuals have a birth", lambda s: E.forall(0, L.k(s), lambda j: self.has(E, s, elem(E, self.st0, self.it, j).t))

    def post(self, E, st0, st, ret):
        if not isinstance(ret, VRef) or not isinstance(ret.p, PList):
            return [("returns a list", FALSE)]
        n = E.lens(st0, self.it.t)
        out = [("returns as many individuals", E.lens(st, ret.t) == n)] + self.common(E, st, n)
        out.append(("every individual has a birth id", E.forall(0, n, lambda j: self.has(E, st, elem(E, st0, self.it, j).t))))
        if ret.p.k is not None:
            out.append(("the same individuals in order", E.forall(0, n, lambda j: elem(E, st, ret, j).t == elem(E, st0, self.it, j).t)))
        return out


CONTRACTS = [IncGeneration(), IncBirths(), GetStep(), GetStepG(), GetStepB(), GetStepBoth(), BrandPipe(), BrandList(), BrandPopulation()]
