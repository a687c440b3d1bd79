"""C20: Cartesian genetic programming: genomes are laid out, bounded, decoded and executed as documented."""
import z3
from pydv.vals import *
from pydv.verify import Contract
from pydv.common import *
from contracts.c08 import OpRandint, Randint, bounds_of
from contracts.c10 import IntVec

DEC = 'leap_ec.executable_rep.cgp.CGPDecoder'
MOD = 'leap_ec.executable_rep.cgp:CGPDecoder.'
PRIMS = KRef(PList(KRef(PObj('Prim'))))
SCHEMA = {(DEC, a): KInt for a in ('num_inputs', 'num_outputs', 'num_layers', 'nodes_per_layer', 'max_arity', 'levels_back')}
SCHEMA[(DEC, 'primitives')] = PRIMS
INDK = KRef(PObj(IND))

BOUNDED = ["leap_ec.executable_rep.cgp:CGPDecoder.decode, CGPDecoder.prune_graph, CGPExecutable.__call__ and CGPWithParametersDecoder.decode: networkx graphs are outside the verified subset; stand-in: "
           "random circuits (up to 3 inputs and outputs, 4 layers of 3 nodes, arity up to 3, with and without pruning, declared arities and parameters) against a direct interpreter of the genome"]


class _Dec(Contract):
    prop = 'C20'
    schema = SCHEMA

    def base(self, E, st):
        self.d = new_input(E, st, PObj(DEC))
        g = lambda a: get(E, st, self.d.t, a, KInt).t
        self.ni, self.no, self.nl, self.npl, self.ar, self.lb = [g(a) for a in ('num_inputs', 'num_outputs', 'num_layers', 'nodes_per_layer', 'max_arity', 'levels_back')]
        st.assume(z3.And(*[x >= 1 for x in (self.ni, self.no, self.nl, self.npl, self.ar, self.lb)]))
        self.prims = get(E, st, self.d.t, 'primitives', PRIMS)
        E.wf(st, self.prims)
        self.np = E.lens(st, self.prims.t)
        st.assume(self.np >= 1)
        if E.mode == 'bmc':
            for x in (self.ni, self.no, self.nl, self.npl, self.ar, self.lb):
                E.side.append(x <= 2)
            E.side.append(self.np <= E.N)
        self.genes = self.nl * self.npl * (self.ar + 1) + self.no

    def genome(self, E, st):
        self.g = in_list(E, st, KInt, nd=True)
        E.side[:] = [s for s in E.side] if E.mode != 'bmc' else [s for s in E.side if not z3.eq(s, E.lens(st, self.g.t) <= E.N)]
        st.assume(E.lens(st, self.g.t) == self.genes)

    def at(self, layer, node):
        return (layer * self.npl + node) * (self.ar + 1)

    def where(self, E, st):
        self.l, self.n = fresh('layer', IntS), fresh('node', IntS)
        st.assume(z3.And(self.l >= 0, self.l < self.nl, self.n >= 0, self.n < self.npl))
        # the node's genes lie within the genome (the products are bounded by monotonicity, which the solver is told)
        a = self.ar + 1
        st.assume(z3.And(self.at(self.l, self.n) >= 0, self.at(self.l, self.n) + a <= self.nl * self.npl * a)) if E.mode != 'bmc' else None


class Genes(_Dec):
    """num_genes"""
    target = MOD + 'num_genes'

    def setup(self, E, st):
        self.base(E, st)
        return [self.d], {}

    def post(self, E, st0, st, ret):
        return [("as many genes as nodes and outputs need", ret.t == self.genes if isinstance(ret, VInt) else FALSE)]


class Nodes(_Dec):
    """num_cgp_nodes"""
    target = MOD + 'num_cgp_nodes'

    def setup(self, E, st):
        self.base(E, st)
        return [self.d], {}

    def post(self, E, st0, st, ret):
        return [("inputs, computing nodes and outputs", ret.t == self.ni + self.nl * self.npl + self.no if isinstance(ret, VInt) else FALSE)]


class Primitive(_Dec):
    """get_primitive: the primitive a node's first gene names; an unknown one is refused"""
    target = MOD + 'get_primitive'

    def setup(self, E, st):
        self.base(E, st)
        self.genome(E, st)
        self.where(E, st)
        s0 = self.st0 = st.fork()
        el = lambda j: elem(E, s0, self.g, j).t
        st.assume(E.forall(0, self.genes, lambda j: el(j) >= 0, pats=[el])) if E.mode != 'bmc' else [st.assume(el(z3.IntVal(j)) >= 0) for j in range(14)]
        return [self.d, self.g, VInt(self.l), VInt(self.n)], {}

    def gene(self, E):
        return elem(E, self.st0, self.g, self.at(self.l, self.n)).t

    def post(self, E, st0, st, ret):
        i = self.gene(E)
        return [("the primitive the gene names", z3.And(i < self.np, ret.t == elem(E, st0, self.prims, i).t) if isinstance(ret, VRef) else FALSE)]

    def on_exc(self, E, st0, st, exc):
        return [("refused only if there is no such primitive", self.gene(E) >= self.np if exc.name == 'AssertionError' else FALSE)]


class Inputs(_Dec):
    """get_input_sources: the node's input genes, in order"""
    target = MOD + 'get_input_sources'

    def setup(self, E, st):
        self.base(E, st)
        self.genome(E, st)
        self.where(E, st)
        self.st0 = st.fork()
        return [self.d, self.g, VInt(self.l), VInt(self.n)], {}

    def src(self, E, i):
        return elem(E, self.st0, self.g, self.at(self.l, self.n) + 1 + i).t

    def cands(self, E, L):
        for nm, v in L.mod_lists():
            yield f"{nm}: so many", lambda s, v=v: E.lens(s, v.t) == L.k(s)
            yield f"{nm}: the genes in order", lambda s, v=v: E.forall(0, L.k(s), lambda i: elem(E, s, VRef(v.t, PList(KInt)), i).t == self.src(E, i))

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        return [("max_arity inputs", E.lens(st, ret.t) == self.ar), ("the genes after the primitive, in order", E.forall(0, self.ar, lambda i: elem(E, st, ret, i).t == self.src(E, i))),
                ("the genome is left alone", unchanged_list(E, st0, st, self.g))]


class Outputs(_Dec):
    """get_output_sources: the last genes"""
    target = MOD + 'get_output_sources'

    def setup(self, E, st):
        self.base(E, st)
        self.genome(E, st)
        if E.mode != 'bmc':
            st.assume(self.genes - self.no >= 0)
        self.st0 = st.fork()
        return [self.d, self.g], {}

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        first = self.genes - self.no
        return [("one per output", E.lens(st, ret.t) == self.no), ("the last genes", E.forall(0, self.no, lambda i: elem(E, st, ret, i).t == elem(E, self.st0, self.g, first + i).t)),
                ("the genome is left alone", unchanged_list(E, st0, st, self.g))]


class _Bounds(_Dec):
    """the bounds of the genes, position by position"""

    def setup(self, E, st):
        self.base(E, st)
        self.B = z3.Function('bound', IntS, IntS)          # what the definition says of each position
        if E.mode == 'bmc':
            E.side.append(self.genes <= 14)
            for l in range(2):
                for n in range(2):
                    for i in range(-1, 2):
                        lz, nz = z3.IntVal(l), z3.IntVal(n)
                        w = self.prim() if i < 0 else self.source(lz)
                        st.assume(z3.Implies(z3.And(lz < self.nl, nz < self.npl, z3.IntVal(i) < self.ar), self.B(self.at(lz, nz) + 1 + i) == w))
            for o in range(2):
                st.assume(self.B(self.genes - self.no + o) == self.outs())
        self.st0 = st.fork()
        return [self.d], {}

    def post(self, E, st0, st, ret):
        if not (isinstance(ret, VRef) and isinstance(ret.p, PList)):
            return [("a list", FALSE)]
        return [("one per gene", E.lens(st, ret.t) == self.genes), ("as the definition says", E.forall(0, self.genes, lambda q: elem(E, st, ret, q).t == self.B(q)))]


class Check(_Dec):
    """check_constraints passes exactly the individuals with the right number of genes, all integers within their bounds"""
    target = MOD + 'check_constraints'
    gene = KInt
    may_raise = ('RuntimeError',)
    PAIR = PList(KTuple([KInt, KInt]))

    def __init__(self):
        self.schema = {**SCHEMA, (IND, 'genome'): KRef(PList(self.gene, True))}
        self.specs = {(DEC, 'bounds'): self.bounds}

    def bounds(self, E, st, cx, args, kw, k):
        k(st, self.b)

    def setup(self, E, st):
        self.d = new_input(E, st, PObj(DEC))
        self.it = in_iter(E, st, INDK)
        self.b = in_list(E, st, KTuple([KInt, KInt]))
        self.st0 = st.fork()
        return [self.d, self.it], {}

    def genes_of(self, E, i):
        return get(E, self.st0, nth(E, self.it, i).t, 'genome', KRef(PList(self.gene, True)))

    def fits(self, E, i):
        """the genome of the i-th incoming individual satisfies the constraints"""
        g, n = self.genes_of(E, i), E.lens(self.st0, self.b.t)
        if self.gene is not KInt:
            return z3.And(E.lens(self.st0, g.t) == n, n == 0)

        return z3.And(E.lens(self.st0, g.t) == n, E.forall(0, n, lambda j: self.within(E, i, j)))

    def within(self, E, i, j):
        lo, hi = [v.t for v in elem(E, self.st0, self.b, j).items]
        x = elem(E, self.st0, self.genes_of(E, i), j).t
        return z3.And(lo <= x, x <= hi)

    def cands(self, E, L):
        if self.gene is KInt and L.ix is not None:
            cur = lambda s: pos(E, s, self.it) - 1
            yield "the genes so far are within their bounds", lambda s: E.forall(0, L.k(s), lambda j: self.within(E, cur(s), j))

    def on_yield(self, E, st0, st, v, i):
        r = nth(E, self.it, i)
        same = v.t == r.t if isinstance(v, VRef) else FALSE
        g = self.genes_of(E, i)
        return [("yields the next incoming individual itself", same), ("only if its genes satisfy the constraints", self.fits(E, i)),
                ("its genome is left alone", z3.And(get(E, st, r.t, 'genome', KRef(g.p)).t == g.t, unchanged_list(E, st0, st, g)))]

    def on_exc(self, E, st0, st, exc):
        if exc.name == 'ValueError':
            return [("refuses only a genome that violates the constraints", z3.Not(self.fits(E, pos(E, st, self.it) - 1)))]
        return Contract.on_exc(self, E, st0, st, exc)


class CheckReals(Check):
    gene = KReal


class Vector(IntVec):
    """create_cgp_vector: random genomes have one gene per pair of the decoder's bounds, inside them"""
    prop = 'C20'
    target = 'leap_ec.executable_rep.cgp:create_cgp_vector'

    def __init__(self):
        self.schema = SCHEMA
        self.specs = {(DEC, 'bounds'): self.bounds}

    def bounds(self, E, st, cx, args, kw, k):
        k(st, self.b)

    def setup(self, E, st):
        IntVec.setup(self, E, st)
        return [new_input(E, st, PObj(DEC))], {}


class Initializer(Vector):
    """CGPDecoder.initializer: the same, as a method"""
    target = MOD + 'initializer'


class GenomeMutate(Randint):
    """cgp_genome_mutate: every gene is kept or redrawn inside the decoder's bounds"""
    prop = 'C20'
    target = 'leap_ec.executable_rep.cgp:cgp_genome_mutate'

    def __init__(self):
        self.schema = SCHEMA
        self.specs = {(DEC, 'bounds'): lambda E, st, cx, args, kw, k: k(st, self.b)}

    def setup(self, E, st):
        (_, self.b), kw = Randint.setup(self, E, st)
        return [new_input(E, st, PObj(DEC))], kw

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, lambda s, m: E.call(m, [self.g], {}, s, cx, k))


class GenomeMutateExpected(GenomeMutate):
    by = 'expected'


class Mutate(OpRandint):
    """cgp_mutate: every incoming individual is mutated once, within the decoder's bounds, and must be evaluated again"""
    prop = 'C20'
    target = 'leap_ec.executable_rep.cgp:cgp_mutate'

    def __init__(self):
        OpRandint.__init__(self)
        self.specs[(DEC, 'bounds')] = lambda E, st, cx, args, kw, k: k(st, self.given['bounds'])

    def setup(self, E, st):
        _, kw = OpRandint.setup(self, E, st)
        kw.pop('bounds')
        return [new_input(E, st, PObj(DEC))], kw

    def drive(self, E, st, cx, src, args, kwargs, k):
        E.call(self.callee(E, st, src), args, kwargs, st, cx, lambda s, m: E.call(m, [self.it], {}, s, cx, k))


class MutateExpected(Mutate):
    def mk(self, E, st):
        return dict(bounds=bounds_of(E, st, KInt), expected_num_mutations=VReal(fresh('e', RealS)))


CONTRACTS = [Genes(), Nodes(), Primitive(), Inputs(), Outputs(), Check(), CheckReals(),
             Vector(), Initializer(), GenomeMutate(), GenomeMutateExpected(), Mutate(), MutateExpected()]
