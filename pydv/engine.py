"""Verification-condition generator for Python functions.

Symbolic execution in continuation-passing style over the real source's ast.  Two modes:
 proof : loops are cut by invariants (candidate invariants, Houdini-filtered, each surviving one is
         proved on entry and preserved); every list/array has unbounded symbolic length.
 bmc   : loops are unrolled and lengths bounded by N; used only to decide whether an obligation that
         was not discharged is really refuted (a model here is a genuine counterexample of the VC).
"""
import ast
import sys
import time
import z3
from .vals import *
from . import vals
from .source import Source

sys.setrecursionlimit(200000)


class Restart(Exception):
    pass


class Budget(Exception):
    pass


class St:
    __slots__ = ('pc', 'heap', 'frames', 'alloc', 'ghost', 'trail')

    def __init__(self):
        self.pc, self.heap, self.frames, self.ghost = [], {}, {}, {}
        self.alloc = None
        self.trail = ()

    def fork(self):
        s = St.__new__(St)
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.alloc = self.alloc
        s.ghost = dict(self.ghost)
        s.trail = self.trail
        return s

    def assume(self, f):
        if f is True or z3.is_true(f):
            return
        self.pc.append(f)


class Cx:
    """Execution context of one activation."""
    __slots__ = ('fid', 'mod', 'cls', 'ret', 'brk', 'cont', 'exc', 'yld', 'depth', 'fn', 'selfname')

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    def but(self, **kw):
        c = Cx()
        for s in self.__slots__:
            setattr(c, s, getattr(self, s))
        for k, v in kw.items():
            setattr(c, k, v)
        return c


EXC_PARENTS = {
    'StopIteration': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'RuntimeError': 'Exception',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OverflowError': 'ArithmeticError',
}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name, None if name == 'BaseException' else 'Exception')
    return False


class Engine:
    def __init__(self, src=None, mode='proof', N=3, hints=None, deadline=None, timeout=8000):
        self.src = src or Source()
        self.mode, self.N = mode, N
        self.obligations = []          # dicts
        self.silent = 0
        self.schema = {}               # attr or (cls, attr) -> Kind
        self.site, self.sites = None, {}
        self.skip_guesses = ()         # guessed invariants (by prefix) a contract knows to be useless
        self.consts = {}               # external constants a contract gives a meaning to (e.g. infinity)
        self.specs = {}                # dotted function / 'Class.method' -> spec callable
        self.globals_over = {}         # (module, name) or name -> V
        self.init_arrays = {}
        self.hints = hints if hints is not None else {}
        self.cands = None              # contract's candidate-invariant supplier
        self.trusted = set()           # names of library models / assumed contracts used
        self.inlined = set()           # repository functions executed inline
        self.fcount = 0
        self.solver_s = 0.0
        self.queries = 0
        self.deadline = deadline
        self.timeout = timeout
        self.side = []                 # bmc: range restrictions of expanded quantifiers
        self.paths = 0
        self.loops = 0
        self.unroll = N + 1
        self.max_paths = 4000
        self.fn_attrs = {}
        self.imprecise = []            # reasons why a bmc model might be spurious
        self.stop_on_refute = True
        from . import models
        self.models = models.MODELS
        self.viewed = []
        self.maskcounts = []
        self.on_draw = self.on_real = None
        self.psums = []
        self.counts = []
        self.opaque_mul = False
        self.pprods = []
        self.methods = models.METHODS
        self.axioms = []               # global facts
        self.D = z3.Function('D', IntS, BoolS)      # always true; its terms mark useful witnesses (triggers)
        dj = z3.Int('dj')
        self.d_axiom = z3.ForAll([dj], self.D(dj), patterns=[self.D(dj)])
        self.inv_ids = {}              # formula id -> (loop invariant it states, formula)
        self.not_alone = set()         # loop invariants whose preservation needed the others too
        self.apart = {}                # cache: (ref term, ref term) -> known to be different

    # ------------------------------------------------------------ quantifiers
    def forall(self, lo, hi, f, pats=None):
        lo = z3.IntVal(lo) if isinstance(lo, int) else lo
        hi = z3.IntVal(hi) if isinstance(hi, int) else hi
        if self.mode == 'bmc':
            out = []
            lo_s, hi_s = z3.simplify(lo), z3.simplify(hi)
            a = lo_s.as_long() if z3.is_int_value(lo_s) else 0
            b = hi_s.as_long() if z3.is_int_value(hi_s) else self.N + 1
            if not z3.is_int_value(hi_s):
                self.side.append(hi_s <= b)
            if not z3.is_int_value(lo_s):
                self.side.append(lo_s >= 0)
            for j in range(a, b):
                jj = z3.IntVal(j)
                out.append(z3.Implies(z3.And(lo_s <= jj, jj < hi_s), f(jj)))
            return z3.And(*out) if out else TRUE
        j = fresh('q', IntS)
        body = z3.Implies(z3.And(lo <= j, j < hi), f(j))
        if pats is not None:
            try:
                ps = [p(j) for p in pats]
                for x in find_pats(body, j, 6):
                    if (x.decl().kind() == z3.Z3_OP_SELECT or x.decl().name().startswith(('sel!', 'pos!', 'slot!'))) and not any(z3.eq(x, y) for y in ps):
                        ps.append(x)
                return z3.ForAll([j], body, patterns=ps)
            except z3.Z3Exception:
                pass
        return z3.ForAll([j], body)

    def forall2(self, n, f, pat):
        """for all 0 <= i < j < n (one quantifier, triggered by the pair of terms pat(i, j))"""
        if self.mode == 'bmc':
            return self.forall(0, n, lambda j: self.forall(0, j, lambda i: f(i, j)))
        i, j = fresh('q', IntS), fresh('q', IntS)
        body = z3.Implies(z3.And(0 <= i, i < j, j < n), f(i, j))
        return z3.ForAll([i, j], body, patterns=[z3.MultiPattern(*pat(i, j))])

    def exists(self, lo, hi, f):
        lo = z3.IntVal(lo) if isinstance(lo, int) else lo
        hi = z3.IntVal(hi) if isinstance(hi, int) else hi
        if self.mode == 'bmc':
            lo_s, hi_s = z3.simplify(lo), z3.simplify(hi)
            a = lo_s.as_long() if z3.is_int_value(lo_s) else 0
            b = hi_s.as_long() if z3.is_int_value(hi_s) else self.N + 1
            if not z3.is_int_value(hi_s):
                self.side.append(hi_s <= b)
            if not z3.is_int_value(lo_s):
                self.side.append(lo_s >= 0)
            out = []
            for j in range(a, b):
                jj = z3.IntVal(j)
                out.append(z3.And(lo_s <= jj, jj < hi_s, f(jj)))
            return z3.Or(*out) if out else FALSE
        j = fresh('q', IntS)
        body = f(j)
        pats = [self.D(j)] + find_pats(body, j)
        full = z3.And(lo <= j, j < hi, self.D(j), body)
        try:
            return z3.Exists([j], full, patterns=pats)
        except z3.Z3Exception:
            return z3.Exists([j], full, patterns=[self.D(j)])

    def forall_ref(self, lo, hi, f, pats=None):
        """Quantify over heap references lo <= r < hi."""
        if self.mode == 'bmc':
            out = []
            hi_s = z3.simplify(hi if not isinstance(hi, int) else z3.IntVal(hi))
            top = 24
            self.side.append(hi_s <= top)
            for j in range(0, top):
                jj = z3.IntVal(j)
                out.append(z3.Implies(z3.And(lo <= jj, jj < hi_s), f(jj)))
            return z3.And(*out)
        return self.forall(lo, hi, f, pats)

    # ----------------------------------------------------------------- solver
    def check(self, fs, timeout=None, mbqi=True, seed=0, bare=False):
        """-> ('unsat'|'sat'|'unknown', model)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of this contract exhausted")
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        if not mbqi:
            s.set('smt.mbqi', False)
        if seed:
            s.set('smt.random_seed', seed)
            if seed % 2:
                s.set('smt.phase_selection', 0)
        s.add(*fs)
        if not bare:
            s.add(*self.axioms)
        if self.mode == 'proof' and not bare:
            s.add(self.d_axiom)
        if self.mode == 'bmc':
            s.add(*self.side)
        r = s.check()
        self.solver_s += time.time() - t0
        self.queries += 1
        return str(r), (s.model() if str(r) == 'sat' else None), s

    def feasible(self, st, site=None):
        """site: where in the code the question arises; where the quantified facts have never helped, they are no longer asked"""
        if self.mode == 'bmc':
            r, _, _ = self.check(st.pc, timeout=3000)
            return r != 'unsat'
        ground = [f for f in st.pc if is_ground(f)]
        r, _, _ = self.check(ground, timeout=800, mbqi=False)
        if r == 'unsat' or len(ground) == len(st.pc):
            return r != 'unsat'
        tried, helped = self.sites.get(site, (0, 0))
        if site is not None and tried >= 6 and not helped:
            return True
        pc = [f for f in st.pc if f.get_id() not in self.inv_ids]
        r, _, _ = self.check(pc, timeout=400, mbqi=False)
        if r != 'unsat' and len(pc) != len(st.pc):
            r, _, _ = self.check(st.pc, timeout=300, mbqi=False)
        self.sites[site] = (tried + (r == 'unknown'), helped + (r == 'unsat'))
        return r != 'unsat'

    def valid(self, st, goal, timeout=None, quick=False, own=None, guess=False):
        """-> ('proved'|'refuted'|'unknown', model, reason)"""
        if z3.is_true(goal):
            return 'proved', None, ''
        ng = z3.Not(goal)
        if quick and is_ground(goal) and (guess or only_constants(goal)):
            # a guessed invariant refuted by the quantifier-free facts alone is not worth a longer look
            r, m, s = self.check([f for f in st.pc if is_ground(f)] + [ng], timeout=500, mbqi=False, bare=True)
            if r == 'sat':
                return 'unknown', None, ''
            if r == 'unsat':
                return 'proved', None, ''
        if quick:
            groups = {self.inv_ids[f.get_id()][0] for f in st.pc if f.get_id() in self.inv_ids}
            # an invariant is usually preserved on its own: try that first (fewer quantifiers to loop on)
            if own is not None and own in groups and len(groups) > 1 and own.split(' #')[0] not in self.not_alone:
                pc = [f for f in st.pc if f.get_id() not in self.inv_ids or self.inv_ids[f.get_id()][0] == own]
                r, m, s = self.check(pc + [ng], timeout=1500, mbqi=False)
                if r == 'unsat':
                    return 'proved', None, ''
                self.not_alone.add(own.split(' #')[0])
            r, m, s = self.check(st.pc + [ng], timeout=timeout or 2500, mbqi=False)
            if r != 'unsat' and own in groups and own.split(' #')[0] in self.not_alone and len(groups) > 1:
                pc = [f for f in st.pc if f.get_id() not in self.inv_ids or self.inv_ids[f.get_id()][0] == own]
                r, m, s = self.check(pc + [ng], timeout=1000, mbqi=False)
            return ('proved' if r == 'unsat' else 'unknown'), None, ''
        if self.mode == 'proof':
            for seed in range(8):
                r, m, s = self.check(st.pc + [ng], timeout=800, mbqi=False, seed=seed)
                if r == 'unsat':
                    return 'proved', None, ''
                if 'incomplete' in s.reason_unknown():
                    break
            groups = sorted({self.inv_ids[f.get_id()][0] for f in st.pc if f.get_id() in self.inv_ids})
            if len(groups) > 1:
                for g in [None] + groups[:8]:
                    pc = [f for f in st.pc if f.get_id() not in self.inv_ids or self.inv_ids[f.get_id()][0] == g]
                    r, m, s = self.check(pc + [ng], timeout=1500, mbqi=False)
                    if r == 'unsat':
                        return 'proved', None, ''
            r, m, s = self.check(st.pc + [ng], timeout=timeout)
            if r == 'unsat':
                return 'proved', None, ''
            if r == 'sat':
                return 'refuted', m, ''
            return 'unknown', None, s.reason_unknown()
        r, m, s = self.check(st.pc + [ng], timeout=timeout)
        if r == 'unsat':
            return 'proved', None, ''
        if r == 'sat':
            return 'refuted', m, ''
        return 'unknown', None, s.reason_unknown()

    def prove(self, st, goal, name, where=None, keep=True):
        """Record and discharge one obligation; afterwards it may be assumed on this path."""
        if self.silent:
            st.assume(goal)
            return
        gs = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        t0 = time.time()
        if z3.is_true(gs):
            res, m, why = 'proved', None, 'simplifier'
        else:
            res, m, why = self.valid(st, goal)
        self.obligations.append(dict(name=name, where=where, result=res, reason=why, secs=round(time.time() - t0, 3),
                                     model=m, goal=goal, trail=list(st.trail), backend='z3'))
        if keep:
            st.assume(goal)

    # ------------------------------------------------------------------- heap
    def differ(self, st, a, b):
        """are the references a and b certainly different objects (on this path)?"""
        d = z3.simplify(a - b)
        if z3.is_int_value(d):
            return d.as_long() != 0
        if z3.is_var(a) or z3.is_var(b) or has_q(a) or has_q(b):
            return False
        key = (a.get_id(), b.get_id())
        if key in self.apart:
            return True
        neg = (a.get_id(), b.get_id(), len(st.pc))
        if neg in self.apart:
            return False
        ground = [f for f in st.pc if is_ground(f)]
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*ground)
        s.add(a == b)
        t0 = time.time()
        r = str(s.check())
        self.solver_s += time.time() - t0
        if r == 'unsat':
            self.apart[key] = (a, b)
            return True
        self.apart[neg] = (a, b)
        return False

    def rd(self, st, A, r):
        """Select(A, r), looking through stores to other objects"""
        while z3.is_store(A):
            w = A.arg(1)
            if z3.eq(w, r):
                return A.arg(2)
            if z3.eq(z3.simplify(w), z3.simplify(r)):
                return A.arg(2)
            if self.mode == 'proof' and self.differ(st, w, r):
                A = A.arg(0)
                continue
            break
        return z3.Select(A, r)

    def arr(self, st, key, sort):
        if key in st.heap:
            return st.heap[key]
        if key not in self.init_arrays:
            self.init_arrays[key] = z3.Const('H0' + str(key).replace(' ', ''), z3.ArraySort(IntS, sort))
        return self.init_arrays[key]

    def attr_kind(self, cls, attr):
        if (cls, attr) in self.schema:
            return self.schema[(cls, attr)]
        return self.schema.get(attr)

    def hget(self, st, ref, attr, kind):
        ts = [self.rd(st, self.arr(st, ('a', attr, kind.key, c), s), ref) for c, s in kind.comps]
        ts = [z3.simplify(t) for t in ts]
        v = kind.unpack(ts)
        self.wf(st, v)
        return v

    def hset(self, st, ref, attr, kind, v):
        ts = kind.pack(v)
        for (c, s), t in zip(kind.comps, ts):
            key = ('a', attr, kind.key, c)
            st.heap[key] = z3.Store(self.arr(st, key, s), ref, t)

    def wf(self, st, v, quiet=False):
        """Well-formedness facts of a value just read from the heap: references are allocated."""
        if isinstance(v, VRef) and not z3.is_int_value(v.t):
            st.assume(z3.And(v.t >= 0, v.t < st.alloc))
        elif isinstance(v, VMaybe) and isinstance(v.val, VRef):
            st.assume(z3.Implies(z3.Not(v.none), z3.And(v.val.t >= 0, v.val.t < st.alloc)))
        elif isinstance(v, VTuple):
            for x in v.items:
                self.wf(st, x)

    def llen(self, st, r):
        t = z3.simplify(self.rd(st, self.arr(st, ('len',), IntS), r.t))
        if not z3.is_int_value(t):
            st.assume(t >= 0)
        return t

    def lens(self, st, ref_t):
        return self.rd(st, self.arr(st, ('len',), IntS), ref_t)

    def elarr(self, st, k, c, s, ref_t):
        return self.rd(st, self.arr(st, ('el', k.key, c), z3.ArraySort(IntS, s)), ref_t)

    def lget(self, st, r, j, wf=True):
        """Element j of list r (no bounds check)."""
        k = r.p.k
        if k is None:
            raise Unsupported("element of a list of unknown kind")
        j = z3.IntVal(j) if isinstance(j, int) else j
        ts = [z3.Select(self.elarr(st, k, c, s, r.t), j) for c, s in k.comps]
        ts = [z3.simplify(t) for t in ts]
        v = k.unpack(ts)
        if wf:
            self.wf(st, v)
        return v

    def lset(self, st, r, j, v):
        k = r.p.k
        j = z3.IntVal(j) if isinstance(j, int) else j
        ts = k.pack(v)
        for (c, s), t in zip(k.comps, ts):
            key = ('el', k.key, c)
            A = self.arr(st, key, z3.ArraySort(IntS, s))
            st.heap[key] = z3.Store(A, r.t, z3.Store(z3.Select(A, r.t), j, t))

    def setlen(self, st, r, n):
        n = z3.IntVal(n) if isinstance(n, int) else n
        st.heap[('len',)] = z3.Store(self.arr(st, ('len',), IntS), r.t, n)

    def new_ref(self, st):
        r = st.alloc
        st.alloc = z3.simplify(st.alloc + 1)
        return r

    def new_obj(self, st, cls):
        return VRef(self.new_ref(st), PObj(cls))

    def adopt(self, r, v):
        """Make the element kind of list r able to hold v."""
        p = r.p
        kv = kind_of(v)
        if p.k is None:
            p.k = kv
            if p.hint is not None and p.hint in self.hints:
                p.k = self.hints[p.hint]
            return
        try:
            p.k.pack(v)
        except Unsupported:
            kj = join_kind(p.k, kv)
            if p.hint is not None and self.hints.get(p.hint) != kj:
                self.hints[p.hint] = kj
                raise Restart()
            raise

    def new_list(self, st, items, nd=False, hint=None, kind=None):
        k = kind
        if k is None and hint is not None and hint in self.hints:
            k = self.hints[hint]
        if k is None and items:
            k = kind_of(items[0])
            for x in items[1:]:
                k = join_kind(k, kind_of(x))
        r = VRef(self.new_ref(st), PList(k, nd, hint))
        self.setlen(st, r, len(items))
        if k is not None and items:
            for c in range(len(k.comps)):
                cname, s = k.comps[c]
                A = fresh('lit', z3.ArraySort(IntS, s))
                for j, x in enumerate(items):
                    A = z3.Store(A, z3.IntVal(j), k.pack(x)[c])
                key = ('el', k.key, cname)
                st.heap[key] = z3.Store(self.arr(st, key, z3.ArraySort(IntS, s)), r.t, A)
        return r

    def mk_list(self, st, n, f, kind, nd=False):
        """Fresh list of length n with element j equal to f(j) (f pure)."""
        n = z3.IntVal(n) if isinstance(n, int) else n
        r = VRef(self.new_ref(st), PList(kind, nd))
        self.setlen(st, r, n)
        for c, (cname, s) in enumerate(kind.comps):
            A = fresh('mk', z3.ArraySort(IntS, s))
            key = ('el', kind.key, cname)
            st.heap[key] = z3.Store(self.arr(st, key, z3.ArraySort(IntS, s)), r.t, A)
            if f is not None:
                st.assume(self.forall(0, n, lambda j: z3.Select(A, j) == kind.pack(f(j))[c],
                                      pats=[lambda j: z3.Select(A, j)]))
        return r

    def stream_fn(self, kind):
        return [z3.Function(f"stream<{kind.key}>{c}", IntS, IntS, s) for c, s in kind.comps]

    def stream(self, kind, it_t, j):
        return kind.unpack([f(it_t, j) for f in self.stream_fn(kind)])

    # ------------------------------------------------------------------ truth
    def truth(self, st, v):
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VInt):
            return v.t != 0
        if isinstance(v, VReal):
            return z3.Or(v.nan, v.t != 0)
        if isinstance(v, VNone):
            return FALSE
        if isinstance(v, VMaybe):
            return z3.And(z3.Not(v.none), self.truth(st, v.val))
        if isinstance(v, VStr):
            if v.s is None:
                raise Unsupported("truth of unknown string")
            return z3.BoolVal(bool(v.s))
        if isinstance(v, VTuple):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, VRef):
            if isinstance(v.p, PList):
                if v.p.nd:
                    raise Unsupported("truth of an array")
                return self.llen(st, v) > 0
            if isinstance(v.p, PObj):
                ci = self.class_info(v.p.cls)
                if ci and (ci.find('__len__')[1] or ci.find('__bool__')[1]):
                    raise Unsupported("truth via __len__")
                return TRUE
        if isinstance(v, VDictC):
            return z3.BoolVal(bool(v.d))
        if isinstance(v, (VFunc, VBuiltin, VBound, VPartial, VSpec, VClass, VGen, VExc)):
            return TRUE
        raise Unsupported(f"truth of {type(v).__name__}")

    def branch(self, st, cond, kT, kF, likely=False):
        """likely: the condition is expected to hold always (its negation is checked first; if that is impossible, the condition needs no check)"""
        c = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(c):
            return kT(st)
        if z3.is_false(c):
            return kF(st)
        self.paths += 1
        if self.paths > self.max_paths:
            raise Budget("too many paths")
        a = st.fork()
        a.assume(c)
        b = st.fork()
        b.assume(z3.Not(c))
        site = (self.site, True), (self.site, False)
        if likely and self.mode != 'bmc' and not self.feasible(b):
            return kT(a)
        fa = self.feasible(a, site[0])
        fb = True if likely and self.mode != 'bmc' else self.feasible(b, site[1]) if fa else True
        if fa:
            kT(a)
        if fb:
            kF(b)

    def force(self, st, v, k):
        if isinstance(v, VMaybe):
            self.branch(st, v.none, lambda s: k(s, NONE), lambda s: k(s, v.val))
        else:
            k(st, v)

    def fail(self, st, cx, name, t=None):
        cx.exc(st, VExc(name, t))

    # ---------------------------------------------------------------- classes
    def class_info(self, cls):
        if '.' in cls:
            m, c = cls.rsplit('.', 1)
            if self.src.has(m):
                r = self.src.module(m).lookup(c)
                if r and r[0] == 'class':
                    return r[1]
        return None

    # ------------------------------------------------------------------ names
    def lookup(self, st, cx, name):
        fid = cx.fid
        for f in (cx.fid,) + tuple(self.frame_parents(cx)):
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                return fr[name]
        return self.lookup_global(st, cx.mod, name)

    def frame_parents(self, cx):
        return cx.fn.fids if cx.fn is not None else ()

    def lookup_global(self, st, mod, name):
        if (mod.name, name) in self.globals_over:
            return self.globals_over[(mod.name, name)]
        if name in self.globals_over:
            return self.globals_over[name]
        r = mod.lookup(name)
        if r is None:
            if name in self.models or name in BUILTIN_NAMES:
                return VBuiltin(name)
            if name in EXC_PARENTS or name == 'BaseException':
                return VBuiltin(name)
            if name == '__name__':
                return VStr(mod.name)
            raise Unsupported(f"unknown name {name}")
        return self.from_lookup(st, r)

    def from_lookup(self, st, r):
        if r[0] == 'func':
            return VFunc(r[1], r[2], (), None, f"{r[2].name}.{r[1].name}")
        if r[0] == 'class':
            return VClass(r[1])
        if r[0] == 'ext':
            return self.ext(r[1])
        if r[0] == 'repomod':
            return VBuiltin('repo:' + r[1])
        if r[0] == 'expr':
            out = []
            node, mod = r[1], r[2]
            cx = Cx(fid=-1, mod=mod, depth=0, exc=lambda s, e: None)
            s = st.fork()
            self.ev(node, s, cx, lambda s2, v: out.append((s2, v)))
            if len(out) == 1 and isinstance(out[0][1], (VInt, VReal, VStr, VNone, VBool, VFunc, VBuiltin, VTuple)):
                return out[0][1]
            raise Unsupported("module-level value")
        raise Unsupported(str(r))

    def ext(self, dotted):
        from .models import CONSTS
        if dotted in self.consts:
            return self.consts[dotted]
        if dotted in CONSTS:
            return CONSTS[dotted]
        return VBuiltin(dotted)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, cx, k):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at line {getattr(n, 'lineno', '?')}")
        m(n, st, cx, k)

    def evs(self, ns, st, cx, k, acc=()):
        if not ns:
            return k(st, list(acc))
        h = ns[0]
        if isinstance(h, ast.Starred):
            def got(s, v):
                if isinstance(v, VRef) and isinstance(v.p, PList) and not z3.is_int_value(self.llen(s, v)):
                    return self.evs(ns[1:], s, cx, k, tuple(acc) + (VStar(v),))
                self.as_items(s, v, lambda s2, items: self.evs(ns[1:], s2, cx, k, tuple(acc) + tuple(items)))
            return self.ev(h.value, st, cx, got)
        self.ev(h, st, cx, lambda s, v: self.evs(ns[1:], s, cx, k, tuple(acc) + (v,)))

    def as_items(self, st, v, k):
        """Concrete item list of a tuple or of a list of literal length."""
        if isinstance(v, VTuple):
            return k(st, v.items)
        if isinstance(v, VRef) and isinstance(v.p, PList):
            n = self.llen(st, v)
            if z3.is_int_value(n):
                return k(st, [self.lget(st, v, j) for j in range(n.as_long())])
        raise Unsupported("star-argument of symbolic length")

    def e_Constant(self, n, st, cx, k):
        c = n.value
        if c is None:
            return k(st, NONE)
        if isinstance(c, bool):
            return k(st, VBool(c))
        if isinstance(c, int):
            return k(st, VInt(c))
        if isinstance(c, float):
            if c != c or c in (float('inf'), float('-inf')):
                raise Unsupported("infinite literal")
            return k(st, VReal(c))
        if isinstance(c, str):
            return k(st, VStr(c))
        if c is Ellipsis:
            return k(st, NONE)
        raise Unsupported(f"constant {c!r}")

    def e_Name(self, n, st, cx, k):
        v = self.lookup(st, cx, n.id)
        k(st, v)

    def e_JoinedStr(self, n, st, cx, k):
        k(st, VStr(None))       # messages: the embedded expressions are not evaluated

    def e_Tuple(self, n, st, cx, k):
        self.evs(n.elts, st, cx, lambda s, vs: k(s, VTuple(vs)))

    def e_List(self, n, st, cx, k):
        def got(s, vs):
            if any(isinstance(kind_of(v), KConst) for v in vs):
                return k(s, VTuple(vs))        # e.g. a list of functions: kept as an immutable sequence
            k(s, self.new_list(s, vs, hint=(cx.mod.name if cx.mod else '', n.lineno, n.col_offset)))
        self.evs(n.elts, st, cx, got)

    def e_Set(self, n, st, cx, k):
        def got(s, vs):
            r = VRef(self.new_ref(s), PSet())
            key = ('set',)
            A = z3.K(U, FALSE)
            for v in vs:
                if not isinstance(v, VOpq):
                    raise Unsupported("set of non-opaque values")
                A = z3.Store(A, v.t, TRUE)
            s.heap[key] = z3.Store(self.arr(s, key, z3.ArraySort(U, BoolS)), r.t, A)
            k(s, r)
        self.evs(n.elts, st, cx, got)

    def e_Dict(self, n, st, cx, k):
        if any(kk is None for kk in n.keys):
            raise Unsupported("dict unpacking")

        def got(s, vs):
            d = {}
            m = len(n.keys)
            for kk, vv in zip(vs[:m], vs[m:]):
                if isinstance(kk, VStr) and kk.s is not None:
                    d[kk.s] = vv
                elif isinstance(kk, VInt) and z3.is_int_value(kk.t):
                    d[kk.t.as_long()] = vv
                else:
                    raise Unsupported("dict with symbolic keys")
            k(s, VDictC(d))
        self.evs(list(n.keys) + list(n.values), st, cx, got)

    def e_Lambda(self, n, st, cx, k):
        f = VFunc(n, cx.mod, (cx.fid,) + tuple(self.frame_parents(cx)), cx.cls, '<lambda>')
        self.with_defaults(f, n.args, st, cx, k)

    def with_defaults(self, f, a, st, cx, k):
        ds = list(a.defaults)
        kd = [d for d in a.kw_defaults if d is not None]

        def got(s, vs):
            f.defaults = vs[:len(ds)]
            f.kwdefaults = vs[len(ds):]
            k(s, f)
        self.evs(ds + kd, st, cx, got)

    def e_IfExp(self, n, st, cx, k):
        def got(s, v):
            self.branch(s, self.truth(s, v), lambda a: self.ev(n.body, a, cx, k), lambda b: self.ev(n.orelse, b, cx, k))
        self.ev(n.test, st, cx, got)

    def e_NamedExpr(self, n, st, cx, k):
        def got(s, v):
            self.assign(n.target, v, s, cx, lambda s2: k(s2, v))
        self.ev(n.value, st, cx, got)

    def e_BoolOp(self, n, st, cx, k):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            def got(s2, v):
                if i == len(n.values) - 1:
                    return k(s2, v)
                t = self.truth(s2, v)
                if isand:
                    self.branch(s2, t, lambda a: go(i + 1, a), lambda b: k(b, self.known(v, False)))
                else:
                    self.branch(s2, t, lambda a: k(a, self.known(v, True)), lambda b: go(i + 1, b))
            self.ev(n.values[i], s, cx, got)
        go(0, st)

    def known(self, v, b):
        return VBool(b) if isinstance(v, VBool) else v

    def e_UnaryOp(self, n, st, cx, k):
        def got(s, v):
            if isinstance(n.op, ast.Not):
                return k(s, VBool(z3.Not(self.truth(s, v))))

            def g2(s, v):
                if isinstance(n.op, ast.USub):
                    if isinstance(v, VInt):
                        return k(s, VInt(z3.simplify(-v.t)))
                    if isinstance(v, VReal):
                        return k(s, VReal(z3.simplify(-v.t), v.nan))
                    if isinstance(v, VRef) and isinstance(v.p, PList) and v.p.nd:
                        return self.binop(ast.Sub(), VInt(0), v, s, cx, k)
                    if isinstance(v, VBool):
                        return k(s, VInt(z3.If(v.t, z3.IntVal(-1), z3.IntVal(0))))
                if isinstance(n.op, ast.UAdd) and isinstance(v, (VInt, VReal)):
                    return k(s, v)
                if isinstance(n.op, ast.Invert) and isinstance(v, VRef) and isinstance(v.p, PList) and v.p.nd \
                        and v.p.k == KBool:
                    ln = self.llen(s, v)
                    return k(s, self.mk_list(s, ln, lambda j: VBool(z3.Not(self.lget(s, v, j, wf=False).t)), KBool, True))
                raise Unsupported("unary operator")
            self.force(s, v, g2)
        self.ev(n.operand, st, cx, got)

    def e_BinOp(self, n, st, cx, k):
        self.ev(n.left, st, cx, lambda s, a: self.ev(n.right, s, cx, lambda s2, b: self.binop(n.op, a, b, s2, cx, k)))

    # -- arithmetic
    def num(self, v):
        if isinstance(v, VBool):
            return VInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return v

    def binop(self, op, a, b, st, cx, k):
        if isinstance(a, VMaybe) or isinstance(b, VMaybe):
            return self.force(st, a, lambda s, x: self.force(s, b, lambda s2, y: self.binop(op, x, y, s2, cx, k)))
        if isinstance(a, VNone) or isinstance(b, VNone):
            return self.fail(st, cx, 'TypeError')
        if isinstance(a, VStr) or isinstance(b, VStr):
            if isinstance(op, (ast.Add, ast.Mod)):
                if isinstance(a, VStr) and isinstance(b, VStr) and a.s is not None and b.s is not None and isinstance(op, ast.Add):
                    return k(st, VStr(a.s + b.s))
                return k(st, VStr(None))
            raise Unsupported("string operator")
        if isinstance(a, VTuple) and isinstance(b, VTuple) and isinstance(op, ast.Add):
            return k(st, VTuple(a.items + b.items))
        al = isinstance(a, VRef) and isinstance(a.p, PList)
        bl = isinstance(b, VRef) and isinstance(b.p, PList)
        if isinstance(a, VTuple) and bl and isinstance(op, ast.Add) and not b.p.nd:
            a2 = self.new_list(st, a.items)
            return self.concat(st, a2, b, k)
        if isinstance(b, VTuple) and al and isinstance(op, ast.Add) and not a.p.nd:
            b2 = self.new_list(st, b.items)
            return self.concat(st, a, b2, k)
        if al and bl and not a.p.nd and not b.p.nd and isinstance(op, ast.Add):
            return self.concat(st, a, b, k)
        if isinstance(op, ast.Mult) and al and not a.p.nd and isinstance(b, VInt):
            return self.repeat(st, a, b, k)
        if isinstance(op, ast.Mult) and bl and not b.p.nd and isinstance(a, VInt):
            return self.repeat(st, b, a, k)
        if isinstance(a, VMasked) or isinstance(b, VMasked):
            return self.masked_op(op, a, b, st, cx, k)
        if (al and a.p.nd) or (bl and b.p.nd):
            return self.nd_op(op, a, b, st, cx, k)
        if isinstance(a, VRef) and isinstance(a.p, PSet) and isinstance(b, VRef) and isinstance(b.p, PSet):
            if not isinstance(op, (ast.BitOr, ast.BitAnd)):
                raise Unsupported("set operator")
            A = self.arr(st, ('set',), z3.ArraySort(U, BoolS))
            r = VRef(self.new_ref(st), PSet())
            x, y = z3.Select(A, a.t), z3.Select(A, b.t)
            st.heap[('set',)] = z3.Store(A, r.t, z3.SetUnion(x, y) if isinstance(op, ast.BitOr) else z3.SetIntersect(x, y))
            return k(st, r)
        if isinstance(a, VRef) and isinstance(a.p, PObj):
            raise Unsupported("operator on objects")
        if isinstance(a, VBool) and isinstance(b, VBool) and isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
            return k(st, self.arith(op, a, b))
        a, b = self.num(a), self.num(b)
        if not isinstance(a, (VInt, VReal)) or not isinstance(b, (VInt, VReal)):
            raise Unsupported(f"operator on {type(a).__name__},{type(b).__name__}")
        if self.bitlogic and isinstance(a, VInt) and isinstance(b, VInt) and isinstance(op, (ast.BitXor, ast.RShift, ast.BitAnd, ast.BitOr)):
            r = self.bit_op(op, a, b, st)
            if r is not None:
                return k(st, r)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            zero = b.t == 0

            def ok(s):
                self.divmod(op, a, b, s, cx, k)
            return self.branch(st, zero, lambda s: self.fail(s, cx, 'ZeroDivisionError'), ok)
        k(st, self.arith(op, a, b))

    bitlogic = False

    def BIT(self, x, j):
        """the j-th binary digit of the non-negative integer x"""
        return self.fn('BIT', IntS, IntS, BoolS)(x, j)

    def bit_op(self, op, a, b, st):
        """bitwise operators on non-negative integers, defined digit by digit"""
        r = fresh('bits', IntS)
        if isinstance(op, ast.RShift):
            if not z3.is_int_value(b.t) or b.t.as_long() < 0:
                return None
            d = b.t.as_long()
            f = lambda j: self.BIT(a.t, j + d)
            lo = lambda x: x == 0
        else:
            o = {ast.BitXor: z3.Xor, ast.BitAnd: z3.And, ast.BitOr: z3.Or}[type(op)]
            f = lambda j: o(self.BIT(a.t, j), self.BIT(b.t, j))
        if self.mode == 'bmc':
            w = 4
            for x in (a.t, b.t, r):
                self.side.append(z3.And(x >= 0, x < 2 ** w))
            for x in (a.t, r) + (() if isinstance(op, ast.RShift) else (b.t,)):
                st.assume(z3.And(*[self.BIT(x, z3.IntVal(j)) == ((x / (2 ** j)) % 2 == 1) for j in range(w + 3)]))
            st.assume(z3.And(*[self.BIT(r, z3.IntVal(j)) == f(z3.IntVal(j)) for j in range(w + 1)]))
            return VInt(r)
        j = z3.Int('j!b')
        st.assume(z3.And(z3.Implies(a.t >= 0, r >= 0), z3.ForAll([j], z3.Implies(j >= 0, self.BIT(r, j) == f(j)), patterns=[self.BIT(r, j)])))
        for x in (a.t, b.t):
            st.assume(z3.ForAll([j], z3.Implies(j >= 0, self.BIT(r, j) == f(j)), patterns=[self.BIT(x, j)])) if not isinstance(op, ast.RShift) else None
        st.assume(z3.ForAll([j], z3.Not(self.BIT(z3.IntVal(0), j)), patterns=[self.BIT(z3.IntVal(0), j)]))
        return VInt(r)

    def divmod(self, op, a, b, st, cx, k):
        if isinstance(op, ast.Div):
            x, y = self.asreal(a), self.asreal(b)
            return k(st, VReal(self.quo(x.t, y.t), z3.simplify(z3.Or(x.nan, y.nan))))
        if isinstance(a, VInt) and isinstance(b, VInt):
            def pos(s):
                q = a.t / b.t      # z3 Int division: floor for positive divisors
                r = a.t % b.t
                k(s, VInt(z3.simplify(q if isinstance(op, ast.FloorDiv) else r)))

            def neg(s):
                raise Unsupported("division by a negative integer")
            return self.branch(st, b.t > 0, pos, neg)
        raise Unsupported("floor division of reals")

    def asreal(self, v):
        if isinstance(v, VReal):
            return v
        if isinstance(v, VBool):
            v = self.num(v)
        if isinstance(v, VInt):
            return VReal(to_real(v.t))
        raise Unsupported(f"number expected, got {type(v).__name__}")

    def arith(self, op, a, b):
        """Total arithmetic (no division)."""
        if isinstance(a, VBool) and isinstance(b, VBool) and isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
            f = {ast.BitXor: z3.Xor, ast.BitAnd: z3.And, ast.BitOr: z3.Or}[type(op)]
            return VBool(z3.simplify(f(a.t, b.t)))
        a, b = self.num(a), self.num(b)
        if isinstance(a, VInt) and isinstance(b, VInt):
            if isinstance(op, ast.Add):
                return VInt(z3.simplify(a.t + b.t))
            if isinstance(op, ast.Sub):
                return VInt(z3.simplify(a.t - b.t))
            if isinstance(op, ast.Mult):
                return VInt(z3.simplify(a.t * b.t))
            if isinstance(op, ast.Pow):
                return self.power(a, b)
            if isinstance(op, ast.LShift) and z3.is_int_value(a.t) and a.t.as_long() == 1:
                return VInt(self.pow2(b.t))
            if isinstance(op, ast.RShift) and z3.is_int_value(b.t) and b.t.as_long() >= 0:
                return VInt(z3.simplify(a.t / z3.IntVal(2 ** b.t.as_long())))
            if isinstance(op, ast.BitXor):
                return VInt(self.fn('bitxor', IntS, IntS, IntS)(a.t, b.t))
        if isinstance(a, (VInt, VReal)) and isinstance(b, (VInt, VReal)):
            x, y = self.asreal(a), self.asreal(b)
            nan = z3.simplify(z3.Or(x.nan, y.nan))
            if isinstance(op, ast.Add):
                return VReal(z3.simplify(x.t + y.t), nan)
            if isinstance(op, ast.Sub):
                return VReal(z3.simplify(x.t - y.t), nan)
            if isinstance(op, ast.Mult):
                return VReal(self.mul(x.t, y.t), nan)
            if isinstance(op, ast.Pow):
                return self.power(a, b)
        raise Unsupported(f"operator {type(op).__name__}")

    def mul(self, x, y):
        """product of reals; a contract may ask for products of variables to be left uninterpreted (proved for any product, so for this one)"""
        x, y = z3.simplify(x), z3.simplify(y)
        if self.opaque_mul and self.mode == 'proof' and not z3.is_rational_value(x) and not z3.is_rational_value(y):
            return self.fn('product', RealS, RealS, RealS)(x, y)
        return z3.simplify(x * y)

    def quo(self, x, y):
        """quotient of reals, uninterpreted where mul is"""
        x, y = z3.simplify(x), z3.simplify(y)
        if self.opaque_mul and self.mode == 'proof' and not z3.is_rational_value(y):
            return self.fn('quotient', RealS, RealS, RealS)(x, y)
        return z3.simplify(x / y)

    def math(self, name, x):
        """a transcendental function, uninterpreted"""
        if self.mode == 'bmc' and self.opaque_mul and not self.imprecise:
            self.imprecise.append('transcendental functions are uninterpreted')
        return self.fn('math.' + name, RealS, RealS)(z3.simplify(x))

    def fn(self, name, *sorts):
        return z3.Function(name, *sorts)

    def pow2(self, e):
        """2**e as an uninterpreted function with its defining facts supplied by contracts."""
        e = z3.simplify(e)
        if z3.is_int_value(e) and 0 <= e.as_long() < 64:
            return z3.IntVal(2 ** e.as_long())
        return self.fn('pow2', IntS, IntS)(e)

    def power(self, a, b):
        if isinstance(b, VInt) and z3.is_int_value(b.t):
            e = b.t.as_long()
            if 0 <= e <= 6:
                r = VInt(1) if isinstance(a, VInt) else VReal(1)
                for _ in range(e):
                    r = self.arith(ast.Mult(), r, a)
                return r
        if isinstance(a, VInt) and z3.is_int_value(a.t) and a.t.as_long() == 2 and isinstance(b, VInt):
            return VInt(self.pow2(b.t))
        x, y = self.asreal(a), self.asreal(b)
        return VReal(self.fn('pow', RealS, RealS, RealS)(x.t, y.t), z3.Or(x.nan, y.nan))

    def repeat(self, st, a, b, k):
        n = self.llen(st, a)
        if z3.is_int_value(n) and n.as_long() == 1:
            v = self.lget(st, a, 0)
            m = z3.If(b.t > 0, b.t, z3.IntVal(0))
            return k(st, self.mk_list(st, z3.simplify(m), lambda j: v, a.p.k))
        raise Unsupported("list repetition")

    def concat(self, st, a, b, k):
        ka, kb = a.p.k, b.p.k
        kk = ka or kb
        if ka is not None and kb is not None and not (ka == kb):
            kk = join_kind(ka, kb)
        n1, n2 = self.llen(st, a), self.llen(st, b)
        if kk is None:
            return k(st, self.new_list(st, []))
        if ka is None:
            return k(st, self.mk_list(st, n2, lambda j: self.lget(st, b, j, wf=False), kk))
        if kb is None:
            return k(st, self.mk_list(st, n1, lambda j: self.lget(st, a, j, wf=False), kk))
        r = self.mk_list(st, z3.simplify(n1 + n2), None, kk)
        self.fill_concat(st, r, [(a, n1), (b, n2)], kk)
        k(st, r)

    def fill_concat(self, st, r, parts, kk):
        """Assume the contents of r are those of the parts one after another."""
        off = z3.IntVal(0)
        for p, n in parts:
            for c, (cn, s) in enumerate(kk.comps):
                A = self.elarr(st, kk, cn, s, r.t)
                o = off
                st.assume(self.forall(0, n, lambda j: z3.Select(A, z3.simplify(o + j)) == kk.pack(self.lget(st, p, j, wf=False))[c],
                                      pats=[lambda j: kk.pack(self.lget(st, p, j, wf=False))[c]]))
                if self.mode == 'proof' and not (z3.is_int_value(o) and o.as_long() == 0):
                    st.assume(self.forall(o, o + n, lambda j: z3.Select(A, j) == kk.pack(self.lget(st, p, j - o, wf=False))[c],
                                          pats=[lambda j: z3.Select(A, j)]))
            off = z3.simplify(off + n)

    def nd_elem(self, st, v):
        """v as a function of the element index (arrays elementwise, scalars constant) -> (f, n or None)."""
        if isinstance(v, VRef) and isinstance(v.p, PList):
            return (lambda j: self.lget(st, v, j, wf=False)), self.llen(st, v)
        return (lambda j: v), None

    def nd_op(self, op, a, b, st, cx, k):
        fa, na = self.nd_elem(st, a)
        fb, nb = self.nd_elem(st, b)
        n = na if na is not None else nb

        def go(s):
            if isinstance(op, ast.Div):
                # numpy division by zero does not raise; result there is unspecified
                def f(j):
                    x, y = self.asreal(fa(j)), self.asreal(fb(j))
                    return VReal(self.quo(x.t, y.t))
            elif isinstance(op, ast.Mod):
                y0 = fb(z3.IntVal(0)) if nb is None else None
                if y0 is None or not (isinstance(y0, VInt) and z3.is_int_value(y0.t) and y0.t.as_long() > 0):
                    raise Unsupported("array modulus")

                def f(j):
                    x = self.num(fa(j))
                    if not isinstance(x, VInt):
                        raise Unsupported("array modulus of reals")
                    return VInt(x.t % y0.t)
            elif isinstance(op, ast.LShift):
                def f(j):
                    return self.arith(op, self.num(fa(j)), self.num(fb(j)))
            else:
                def f(j):
                    return self.arith(op, fa(j), fb(j))
            kk = kind_of(f(z3.IntVal(0)))
            k(s, self.mk_list(s, n, f, kk, True))
        if na is not None and nb is not None and not z3.is_true(z3.simplify(na == nb)):
            return self.branch(st, na == nb, go, lambda s: self.fail(s, cx, 'ValueError'))
        go(st)

    def masked_op(self, op, a, b, st, cx, k):
        ref = a if isinstance(a, VMasked) else b

        def el(v):
            if isinstance(v, VMasked):
                if v.mask is not ref.mask and not z3.eq(v.mask.t, ref.mask.t):
                    raise Unsupported("operation on differently masked arrays")
                return v.f
            if isinstance(v, (VInt, VReal, VBool)):
                return lambda j: v
            if isinstance(v, VRef) and isinstance(v.p, PList) and getattr(v, 'maskof', None) is not None:
                pass
            raise Unsupported("masked operation")
        fa, fb = el(a), el(b)
        if isinstance(op, ast.Mod):
            if not (isinstance(b, VInt) and z3.is_int_value(b.t) and b.t.as_long() > 0):
                raise Unsupported("masked modulus")
            f = lambda j: VInt(self.num(fa(j)).t % b.t)
        elif isinstance(op, ast.Div):
            raise Unsupported("masked division")
        else:
            f = lambda j: self.arith(op, fa(j), fb(j))
        k(st, VMasked(f, ref.mask, ref.n, kind_of(f(z3.IntVal(0)))))

    # -- comparison
    def e_Compare(self, n, st, cx, k):
        def go(i, s, left):
            def got(s2, right):
                def done(s3, v):
                    if i == len(n.ops) - 1:
                        return k(s3, v)
                    self.branch(s3, self.truth(s3, v), lambda a: go(i + 1, a, right), lambda b: k(b, VBool(False)))
                self.compare(n.ops[i], left, right, s2, cx, done)
            self.ev(n.comparators[i], s, cx, got)
        self.ev(n.left, st, cx, lambda s, v: go(0, s, v))

    def compare(self, op, a, b, st, cx, k):
        if isinstance(op, (ast.Is, ast.IsNot)):
            t = self.identical(a, b)
            return k(st, VBool(z3.simplify(z3.Not(t) if isinstance(op, ast.IsNot) else t)))
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(st, a, b)
            return k(st, VBool(z3.simplify(z3.Not(t) if isinstance(op, ast.NotIn) else t)))
        if isinstance(a, VMaybe) or isinstance(b, VMaybe):
            return self.force(st, a, lambda s, x: self.force(s, b, lambda s2, y: self.compare(op, x, y, s2, cx, k)))
        eq = isinstance(op, (ast.Eq, ast.NotEq))
        neg = isinstance(op, ast.NotEq)
        if isinstance(a, VRef) and isinstance(a.p, PObj):
            return self.obj_compare(op, a, b, st, cx, k)
        if isinstance(b, VRef) and isinstance(b.p, PObj):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            return self.obj_compare(flip.get(type(op), type(op))(), b, a, st, cx, k)
        if isinstance(a, VNone) or isinstance(b, VNone):
            if eq:
                r = isinstance(a, VNone) and isinstance(b, VNone)
                return k(st, VBool(r != neg))
            return self.fail(st, cx, 'TypeError')
        if isinstance(a, VStr) or isinstance(b, VStr):
            if eq:
                if isinstance(a, VStr) and isinstance(b, VStr):
                    if a.s is None or b.s is None:
                        raise Unsupported("comparison of unknown strings")
                    return k(st, VBool((a.s == b.s) != neg))
                return k(st, VBool(neg))
            raise Unsupported("string ordering")
        al = isinstance(a, VRef) and isinstance(a.p, PList)
        bl = isinstance(b, VRef) and isinstance(b.p, PList)
        if (al and a.p.nd) or (bl and b.p.nd):
            fa, na = self.nd_elem(st, a)
            fb, nb = self.nd_elem(st, b)
            nn = na if na is not None else nb

            def go(s):
                k(s, self.mk_list(s, nn, lambda j: VBool(self.cmp_num(op, fa(j), fb(j))), KBool, True))
            if na is not None and nb is not None and not z3.is_true(z3.simplify(na == nb)):
                return self.branch(st, na == nb, go, lambda s: self.fail(s, cx, 'ValueError'))
            return go(st)
        if al or bl:
            if eq and al and bl:
                n1, n2 = self.llen(st, a), self.llen(st, b)
                for x, y in ((n1, n2), (n2, n1)):
                    if z3.is_int_value(x) and x.as_long() == 0:
                        t = y == 0
                        return k(st, VBool(z3.simplify(z3.Not(t) if neg else t)))
            raise Unsupported("list comparison")
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            return self.tuple_cmp(op, a, b, st, cx, k)
        if isinstance(a, VOpq) and isinstance(b, VOpq) and eq:
            t = a.t == b.t
            return k(st, VBool(z3.Not(t) if neg else t))
        if isinstance(a, (VInt, VReal, VBool)) and isinstance(b, (VInt, VReal, VBool)):
            return k(st, VBool(z3.simplify(self.cmp_num(op, a, b))))
        if eq and isinstance(a, (VBuiltin, VClass)) and isinstance(b, (VBuiltin, VClass)):
            t = (a.d == b.d if isinstance(a, VBuiltin) else a.info.qual() == b.info.qual()) if type(a) is type(b) else False
            return k(st, VBool(not t if neg else t))
        if eq and (isinstance(a, (VTuple, VFunc, VBuiltin, VDictC)) or isinstance(b, (VTuple, VFunc, VBuiltin, VDictC))):
            raise Unsupported("equality of compound values")
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def tuple_cmp(self, op, a, b, st, cx, k):
        def num_eq(x, y):
            return self.cmp_num(ast.Eq(), x, y)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if len(a.items) != len(b.items):
                return k(st, VBool(isinstance(op, ast.NotEq)))
            t = z3.And(*[num_eq(x, y) for x, y in zip(a.items, b.items)])
            return k(st, VBool(z3.Not(t) if isinstance(op, ast.NotEq) else t))
        t = self.tuple_lt(op, a.items, b.items)
        k(st, VBool(t))

    def tuple_lt(self, op, xs, ys):
        strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        if not xs or not ys:
            r = {ast.Lt: len(xs) < len(ys), ast.LtE: len(xs) <= len(ys), ast.Gt: len(xs) > len(ys),
                 ast.GtE: len(xs) >= len(ys)}[type(op)]
            return z3.BoolVal(r)
        return z3.If(self.cmp_num(ast.Eq(), xs[0], ys[0]), self.tuple_lt(op, xs[1:], ys[1:]),
                     self.cmp_num(strict, xs[0], ys[0]))

    def cmp_num(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, VInt) and isinstance(b, VInt):
            x, y, nan = a.t, b.t, FALSE
        else:
            a, b = self.asreal(a), self.asreal(b)
            x, y, nan = a.t, b.t, z3.simplify(z3.Or(a.nan, b.nan))
        f = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
             ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y}[type(op)]()
        if z3.is_false(nan):
            return f
        if isinstance(op, ast.NotEq):
            return z3.Or(nan, f)
        return z3.And(z3.Not(nan), f)

    def identical(self, a, b):
        if isinstance(a, VMaybe):
            if isinstance(b, VNone):
                return a.none
            if isinstance(b, VMaybe):
                return z3.Or(z3.And(a.none, b.none), z3.And(z3.Not(a.none), z3.Not(b.none), self.identical(a.val, b.val)))
            return z3.And(z3.Not(a.none), self.identical(a.val, b))
        if isinstance(b, VMaybe):
            return self.identical(b, a)
        if isinstance(a, VNone) or isinstance(b, VNone):
            return z3.BoolVal(isinstance(a, VNone) and isinstance(b, VNone))
        if isinstance(a, VRef) and isinstance(b, VRef):
            return a.t == b.t
        if isinstance(a, VBool) and isinstance(b, VBool):
            return a.t == b.t
        if isinstance(a, VClass) and isinstance(b, VClass):
            return z3.BoolVal(a.info.qual() == b.info.qual())
        if isinstance(a, VBuiltin) and isinstance(b, VBuiltin):
            return z3.BoolVal(a.d == b.d)
        if type(a) is not type(b):
            return FALSE
        raise Unsupported("identity of these values")

    def contains(self, st, x, c):
        if isinstance(c, VStr) and isinstance(x, VStr) and c.s is not None and x.s is not None:
            return z3.BoolVal(x.s in c.s)
        if isinstance(c, VDictC) and isinstance(x, VStr):
            return z3.BoolVal(x.s in c.d)
        if isinstance(c, VRef) and isinstance(c.p, PObj) and isinstance(x, VStr):
            kk = self.attr_kind(c.p.cls, f"[{x.s}]")
            has = self.attr_kind(c.p.cls, f"has[{x.s}]")
            if has is not None:
                return self.hget(st, c.t, f"has[{x.s}]", KBool).t
            if kk is not None:
                return TRUE
            return FALSE
        if isinstance(c, VRef) and isinstance(c.p, PSet) and isinstance(x, VOpq):
            return z3.Select(z3.Select(self.arr(st, ('set',), z3.ArraySort(U, BoolS)), c.t), x.t)
        if isinstance(c, VTuple):
            return z3.Or(*[self.cmp_num(ast.Eq(), x, y) for y in c.items])
        raise Unsupported("membership test")

    CMPNAME = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__', ast.Eq: '__eq__', ast.NotEq: '__ne__'}

    def obj_compare(self, op, a, b, st, cx, k):
        name = self.CMPNAME[type(op)]
        cls = a.p.cls
        sp = self.specs.get((cls, name))
        if sp is not None:
            self.trusted_spec(cls, name)
            return sp(self, st, cx, [a, b], {}, k)
        ci = self.class_info(cls)
        if ci is None:
            if name in ('__eq__', '__ne__') and isinstance(b, VRef):
                t = a.t == b.t
                return k(st, VBool(z3.Not(t) if name == '__ne__' else t))
            raise Unsupported(f"{name} on {cls}")
        c, node = ci.find(name)
        if node is not None:
            return self.call(VBound(self.method_func(c, node), a), [b], {}, st, cx, k)
        if name == '__ne__':
            return self.obj_compare(ast.Eq(), a, b, st, cx, lambda s, v: k(s, VBool(z3.Not(self.truth(s, v)))))
        if ci.total_ordering() and ci.find('__lt__')[1] is not None:
            # functools.total_ordering, deriving from __lt__ and __eq__
            def lt(s, k2):
                self.obj_compare(ast.Lt(), a, b, s, cx, k2)

            def eqq(s, k2):
                self.obj_compare(ast.Eq(), a, b, s, cx, k2)
            if name == '__gt__':      # not (a < b) and a != b
                return lt(st, lambda s, v: self.branch(s, self.truth(s, v), lambda x: k(x, VBool(False)),
                          lambda y: eqq(y, lambda s2, e: k(s2, VBool(z3.Not(self.truth(s2, e)))))))
            if name == '__le__':      # a < b or a == b
                return lt(st, lambda s, v: self.branch(s, self.truth(s, v), lambda x: k(x, VBool(True)),
                          lambda y: eqq(y, lambda s2, e: k(s2, VBool(self.truth(s2, e))))))
            if name == '__ge__':      # not (a < b)
                return lt(st, lambda s, v: k(s, VBool(z3.Not(self.truth(s, v)))))
        if name == '__gt__' and isinstance(b, VRef) and isinstance(b.p, PObj):
            return self.obj_compare(ast.Lt(), b, a, st, cx, k)      # reflected
        if name == '__eq__':
            if isinstance(b, VRef):
                return k(st, VBool(a.t == b.t))
            return k(st, VBool(False))
        raise Unsupported(f"{name} on {cls}")

    # -- attribute access
    def e_Attribute(self, n, st, cx, k):
        self.ev(n.value, st, cx, lambda s, v: self.force(s, v, lambda s2, o: self.getattr(o, n.attr, s2, cx, k)))

    def mangle(self, attr, cx):
        if attr.startswith('__') and not attr.endswith('__') and cx.cls is not None:
            return attr
        return attr

    def getattr(self, o, attr, st, cx, k):
        if isinstance(o, VBuiltin):
            if o.d.startswith('repo:'):
                mn = o.d[5:]
                m = self.src.module(mn)
                if (mn, attr) in self.globals_over:
                    return k(st, self.globals_over[(mn, attr)])
                r = m.lookup(attr)
                if r is None and self.src.has(mn + '.' + attr):
                    return k(st, VBuiltin('repo:' + mn + '.' + attr))
                if r is None:
                    raise Unsupported(f"attribute {attr} of module {mn}")
                return k(st, self.from_lookup(st, r))
            return k(st, self.ext(o.d + '.' + attr))
        if isinstance(o, VNone):
            return self.fail(st, cx, 'AttributeError')
        if isinstance(o, VClass):
            sp = self.specs.get((o.info.qual(), attr))
            if sp is not None:
                self.trusted_spec(o.info.qual(), attr)
                return k(st, VSpec(sp, f"{o.info.name}.{attr}"))
            c, node = o.info.find(attr)
            if node is not None:
                decs = c.decos[attr]
                f = self.method_func(c, node)
                if 'classmethod' in decs:
                    return k(st, VBound(f, o))
                return k(st, f)
            kk = self.schema.get(('class:' + o.info.name, attr)) or self.schema.get((o.info.qual(), attr))
            if kk is not None:
                return k(st, self.hget(st, self.class_ref(o.info), attr, kk))
            c, node = o.info.find_const(attr)
            if node is not None:
                return self.ev(node, st, Cx(fid=-1, mod=c.mod, depth=cx.depth, exc=cx.exc), k)
            if attr == '__name__':
                return k(st, VStr(o.info.name))
            raise Unsupported(f"class attribute {attr}")
        if isinstance(o, VSuper):
            mro = o.self_cls.mro() if hasattr(o, 'self_cls') else None
            ci = o.cls
            start = self.class_of_value(o.self_)
            chain = start.mro() if start else ci.mro()
            idx = [i for i, c in enumerate(chain) if c.qual() == ci.qual()]
            rest = chain[idx[0] + 1:] if idx else ci.mro()[1:]
            for c in rest:
                if attr in c.methods:
                    return k(st, VBound(self.method_func(c, c.methods[attr]), o.self_))
            if attr == '__init__':
                return k(st, VSpec(lambda E, s, cx2, a, kw, kk: kk(s, NONE), 'object.__init__'))
            sp = self.specs.get(('super', attr))
            if sp is not None:
                return k(st, VBound(VSpec(sp, attr), o.self_))
            raise Unsupported(f"super().{attr}")
        if isinstance(o, VRef) and isinstance(o.p, PObj):
            return self.obj_getattr(o, attr, st, cx, k)
        if isinstance(o, VRef) and isinstance(o.p, PList):
            if o.p.nd and attr == 'shape':
                return k(st, VTuple([VInt(self.llen(st, o))]))
            if o.p.nd and attr == 'size':
                return k(st, VInt(self.llen(st, o)))
            if o.p.nd and attr == 'dtype':
                return k(st, VBuiltin('dtype:' + (o.p.k.key if o.p.k else '?')))
            if o.p.nd and attr == 'T':
                raise Unsupported("transpose")
            return k(st, VMeth(o, attr))
        if isinstance(o, VMasked):
            if attr == 'shape':
                return k(st, VTuple([VInt(o.n)]))
            if attr == 'size':
                return k(st, VInt(o.n))
            return k(st, VMeth(o, attr))
        if isinstance(o, VFunc):
            key = (id(o.node), o.fids, attr)
            if key in self.fn_attrs:
                return k(st, self.fn_attrs[key])
            if attr == '__name__':
                return k(st, VStr(getattr(o.node, 'name', '<lambda>')))
            raise Unsupported(f"function attribute {attr}")
        if isinstance(o, (VRef, VTuple, VStr, VDictC, VInt, VReal, VBool, VSpec, VOpq)):
            return k(st, VMeth(o, attr))
        if isinstance(o, VExc):
            raise Unsupported("exception attribute")
        raise Unsupported(f"attribute {attr} of {type(o).__name__}")

    def class_ref(self, info):
        """heap address of a class object's own attributes"""
        return z3.Const('classref_' + info.name, IntS)

    def class_of_value(self, v):
        if isinstance(v, VRef) and isinstance(v.p, PObj):
            return self.class_info(v.p.cls)
        if isinstance(v, VClass):
            return v.info
        return None

    def method_func(self, c, node):
        return VFunc(node, c.mod, (), c, f"{c.mod.name}.{c.name}.{node.name}")

    def obj_getattr(self, o, attr, st, cx, k):
        cls = o.p.cls
        sp = self.specs.get((cls, attr))
        if sp is not None:
            self.trusted_spec(cls, attr)
            return k(st, VBound(VSpec(sp, f"{cls}.{attr}"), o))
        kk = self.attr_kind(cls, attr)
        ci = self.class_info(cls)
        if kk is None and ci is not None:
            c, node = ci.find(attr)
            if node is not None:
                decs = c.decos[attr]
                f = self.method_func(c, node)
                if 'property' in decs:
                    return self.call(VBound(f, o), [], {}, st, cx, k)
                if 'staticmethod' in decs:
                    return k(st, f)
                if 'classmethod' in decs:
                    return k(st, VBound(f, VClass(ci)))
                return k(st, VBound(f, o))
            c, node = ci.find_const(attr)
            if node is not None:
                return self.ev(node, st, Cx(fid=-1, mod=c.mod, depth=cx.depth, exc=cx.exc), k)
        if attr == '__class__' and ci is not None:
            return k(st, VClass(ci))
        if kk is None:
            raise Unsupported(f"attribute {attr} of {cls}")
        has = self.attr_kind(cls, 'has.' + attr)
        if has is not None:
            h = self.hget(st, o.t, 'has.' + attr, KBool)
            return self.branch(st, h.t, lambda s: k(s, self.hget(s, o.t, attr, kk)),
                               lambda s: self.fail(s, cx, 'AttributeError'))
        k(st, self.hget(st, o.t, attr, kk))

    def trusted_spec(self, cls, name):
        self.trusted.add(f"assumed contract: {cls}.{name}")

    def obj_setattr(self, o, attr, v, st, cx, k):
        cls = o.p.cls
        kk = self.attr_kind(cls, attr)
        ci = self.class_info(cls)
        if kk is None and ci is not None:
            for c in ci.mro():
                for s in c.node.body:
                    if isinstance(s, ast.FunctionDef) and s.name == attr and \
                            any(ast.unparse(d) == attr + '.setter' for d in s.decorator_list):
                        f = VFunc(s, c.mod, (), c, f"{c.mod.name}.{c.name}.{attr}.setter")
                        return self.call(VBound(f, o), [v], {}, st, cx, lambda s2, _: k(s2))
        if kk is None:
            kk = kind_of(v)
            if isinstance(kk, KConst):
                kk = KConst(v)
            self.schema[(cls, attr)] = kk
        try:
            self.hset(st, o.t, attr, kk, v)
        except Unsupported:
            if (cls, attr) in self.schema and not (cls, attr) in getattr(self, 'schema_fixed', ()):
                kj = join_kind(kk, kind_of(v))
                hk = ('attr', cls, attr)
                if self.hints.get(hk) != kj:
                    self.hints[hk] = kj
                    raise Restart()
            raise
        if self.attr_kind(cls, 'has.' + attr) is not None:
            self.hset(st, o.t, 'has.' + attr, KBool, VBool(True))
        k(st)

    # -- subscripts
    def e_Subscript(self, n, st, cx, k):
        def got(s, o):
            if isinstance(n.slice, ast.Slice):
                return self.slice(o, n.slice, s, cx, k)
            self.ev(n.slice, s, cx, lambda s2, i: self.force(s2, i, lambda s3, ii: self.getitem(o, ii, s3, cx, k)))
        self.ev(n.value, st, cx, lambda s, v: self.force(s, v, got))

    def e_Slice(self, n, st, cx, k):
        # a slice inside a tuple index (a[:, 0])
        k(st, VBuiltin('slice:'))

    def norm_index(self, st, cx, n, i, k):
        """k(st, j) with 0 <= j < n, IndexError otherwise."""
        if isinstance(i, VBool):
            i = self.num(i)
        if not isinstance(i, VInt):
            raise Unsupported("non-integer index")
        t = i.t
        j = z3.simplify(z3.If(t < 0, t + n, t))
        if z3.is_int_value(t):
            j = z3.simplify(t + n) if t.as_long() < 0 else t
        self.branch(st, z3.And(j >= 0, j < n), lambda s: self.pos_index(s, t, j, k), lambda s: self.fail(s, cx, 'IndexError'), likely=True)

    def pos_index(self, st, t, j, k):
        if z3.is_int_value(t):
            return k(st, j)
        # split on the sign only if both are possible
        r, _, _ = self.check(st.pc + [t < 0], timeout=1500, mbqi=False)
        if r == 'unsat':
            return k(st, t)
        k(st, j)

    def getitem(self, o, i, st, cx, k):
        if isinstance(o, VTuple):
            if isinstance(i, VInt):
                if z3.is_int_value(i.t):
                    x = i.t.as_long()
                    if -len(o.items) <= x < len(o.items):
                        return k(st, o.items[x])
                    return self.fail(st, cx, 'IndexError')
                raise Unsupported("symbolic index into a tuple")
        if isinstance(o, VDictC):
            key = i.s if isinstance(i, VStr) else (i.t.as_long() if isinstance(i, VInt) and z3.is_int_value(i.t) else None)
            if key in o.d:
                return k(st, o.d[key])
            if key is None:
                raise Unsupported("symbolic dict key")
            return self.fail(st, cx, 'KeyError')
        if isinstance(o, VRef) and isinstance(o.p, PObj):
            if isinstance(i, VStr) and i.s is not None:
                kk = self.attr_kind(o.p.cls, f"[{i.s}]")
                if kk is None:
                    raise Unsupported(f"key {i.s} of {o.p.cls}")
                if self.attr_kind(o.p.cls, f"has[{i.s}]") is not None:
                    h = self.hget(st, o.t, f"has[{i.s}]", KBool)
                    return self.branch(st, h.t, lambda s: k(s, self.hget(s, o.t, f"[{i.s}]", kk)),
                                       lambda s: self.fail(s, cx, 'KeyError'))
                return k(st, self.hget(st, o.t, f"[{i.s}]", kk))
            sp = self.specs.get((o.p.cls, '__getitem__'))
            if sp is not None:
                return sp(self, st, cx, [o, i], {}, k)
            ci = self.class_info(o.p.cls)
            if ci is not None:
                c, node = ci.find('__getitem__')
                if node is not None:
                    return self.call(VBound(self.method_func(c, node), o), [i], {}, st, cx, k)
            raise Unsupported(f"subscript of {o.p.cls}")
        if isinstance(o, VRef) and isinstance(o.p, PList):
            if isinstance(i, VMasked) and getattr(i, 'ident', False) and o.p.nd:
                return self.mask_get(o, i.mask, st, cx, k, prefix=True)
            if isinstance(i, VRef) and isinstance(i.p, PList) and o.p.nd:
                if i.p.k == KBool:
                    return self.mask_get(o, i, st, cx, k)
                if i.p.k == KInt:
                    n = self.llen(st, i)
                    L = self.llen(st, o)
                    return k(st, self.mk_list(st, n, lambda j: self.lget(st, o, self.lget(st, i, j, wf=False).t, wf=False), o.p.k, True))
                raise Unsupported("array index kind")
            if isinstance(i, VTuple):
                # 2-D access on an array of rows (tuples): a[:, c]
                if len(i.items) == 2 and isinstance(i.items[0], VBuiltin) and i.items[0].d == 'slice:' \
                        and isinstance(i.items[1], VInt) and z3.is_int_value(i.items[1].t) and isinstance(o.p.k, KTuple):
                    c = i.items[1].t.as_long()
                    n = self.llen(st, o)
                    return k(st, self.mk_list(st, n, lambda j: self.lget(st, o, j, wf=False).items[c], o.p.k.ks[c], True))
                if len(i.items) == 2 and isinstance(i.items[0], VRef) and isinstance(i.items[0].p, PList) and i.items[0].p.k == KBool and isinstance(o.p.k, KTuple):
                    return self.getitem(o, i.items[0], st, cx, lambda s, rows: self.getitem(rows, VTuple([VBuiltin('slice:'), i.items[1]]), s, cx, k))
                raise Unsupported("multi-dimensional index")
            n = self.llen(st, o)
            return self.norm_index(st, cx, n, i, lambda s, j: k(s, self.lget(s, o, j)))
        if isinstance(o, VMasked):
            if isinstance(i, VTuple) and len(i.items) == 2 and isinstance(i.items[0], VBuiltin) and i.items[0].d == 'slice:' \
                    and isinstance(i.items[1], VInt) and z3.is_int_value(i.items[1].t) and isinstance(o.kind, KTuple):
                c = i.items[1].t.as_long()
                return k(st, VMasked(lambda j: o.f(j).items[c], o.mask, o.n, o.kind.ks[c]))
            raise Unsupported("index into masked array")
        if isinstance(o, VIdx):
            if o.n is None:
                raise Unsupported("index")
            n = o.n(st)
            return self.norm_index(st, cx, n, i, lambda s, j: k(s, o.get(s, j)))
        if isinstance(o, VRange):
            ix = self.to_idx(st, o)
            return self.getitem(ix, i, st, cx, k)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def mask_get(self, o, m, st, cx, k, prefix=False):
        """o[m] for a boolean mask m, or (prefix) o[flatnonzero(m)], where m may be shorter than o"""
        n = self.llen(st, o)
        nm = self.llen(st, m)

        def go(s):
            cnt = self.count_true(s, m)
            s0 = s.fork()
            k(s, VMasked(lambda j: self.lget(s0, o, j, wf=False), m, cnt, o.p.k))
        if z3.is_true(z3.simplify(n == nm)):
            return go(st)
        if prefix:
            return self.branch(st, nm <= n, go, lambda s: self._uns("index array reaching beyond the array"))
        self.branch(st, n == nm, go, lambda s: self.fail(s, cx, 'IndexError'))

    def count_true(self, st, m):
        """number of true entries of a boolean array (0 <= c <= len); same array contents, same count"""
        A = z3.simplify(self.elarr(st, KBool, '', BoolS, m.t))
        f = self.fn('countTrue', z3.ArraySort(IntS, BoolS), IntS, IntS)
        n = self.llen(st, m)
        c = f(A, n)
        st.assume(z3.And(c >= 0, c <= n))
        if self.mode == 'bmc':
            self.side.append(n <= self.N + 1)
            st.assume(c == z3.Sum([z3.If(z3.And(j < n, z3.Select(A, j)), z3.IntVal(1), z3.IntVal(0)) for j in range(self.N + 1)]))
        self.counts.append((lambda j: f(A, j), A))
        return c

    def slice(self, o, sl, st, cx, k):
        def opt(e, s, kk):
            if e is None:
                return kk(s, None)
            self.ev(e, s, cx, lambda s2, v: self.force(s2, v, lambda s3, w: kk(s3, None if isinstance(w, VNone) else w)))

        def got(s, lo, hi, step):
            if isinstance(o, VTuple):
                if all(x is None or (isinstance(x, VInt) and z3.is_int_value(x.t)) for x in (lo, hi, step)):
                    f = lambda x: None if x is None else x.t.as_long()
                    return k(s, VTuple(o.items[f(lo):f(hi):f(step)]))
                raise Unsupported("symbolic tuple slice")
            if not (isinstance(o, VRef) and isinstance(o.p, PList)):
                raise Unsupported("slice of this value")
            n = self.llen(s, o)
            if step is not None:
                if isinstance(step, VInt) and z3.is_int_value(step.t) and step.t.as_long() == -1 and lo is None and hi is None:
                    return k(s, self.mk_list(s, n, lambda j: self.lget(s, o, n - 1 - j, wf=False), o.p.k, o.p.nd))
                if not (isinstance(step, VInt) and z3.is_int_value(step.t) and step.t.as_long() == 1):
                    raise Unsupported("slice step")
            if o.p.k is None:
                return k(s, self.new_list(s, []))

            def clamp(x, d):
                if x is None:
                    return d
                if not isinstance(x, VInt):
                    raise Unsupported("slice bound")
                t = x.t
                t = z3.If(t < 0, t + n, t)
                return z3.simplify(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
            a, b = clamp(lo, z3.IntVal(0)), clamp(hi, n)
            ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            s0 = s.fork()
            r = self.mk_list(s, ln, lambda j: self.lget(s0, o, z3.simplify(a + j), wf=False), o.p.k, o.p.nd)
            if o.p.nd:
                r.view = True
                self.viewed.append(z3.simplify(o.t))
            k(s, r)
        opt(sl.lower, st, lambda s, lo: opt(sl.upper, s, lambda s2, hi: opt(sl.step, s2, lambda s3, step: got(s3, lo, hi, step))))

    # -- comprehensions
    def pure_map(self, n, st, cx, it):
        """[elt for target in it] with a side-effect-free element: (length, element function, kind), or None."""
        g = n.generators[0]
        if self.mode != 'proof' or len(n.generators) != 1 or g.ifs or getattr(g, 'is_async', 0):
            return None
        try:
            ix = self.to_idx(st, it)
        except Unsupported:
            return None
        if ix is None or ix.n is None:
            return None
        nn = z3.simplify(ix.n(st))
        if z3.is_int_value(nn) and nn.as_long() <= 8:
            return None
        lo = vals._ctr[0]
        q = fresh('pm', IntS)
        s = st.fork()
        s.assume(z3.And(0 <= q, q < nn))
        n0 = len(s.pc)
        outs, bad = [], []
        self.fcount += 1
        fid = ('c', self.fcount)
        s.frames[fid] = {}
        f = VFunc(n, cx.mod, (cx.fid,) + tuple(self.frame_parents(cx)), cx.cls, '<comp>')
        cx2 = cx.but(fid=fid, fn=f, exc=lambda s2, e: bad.append(e), ret=lambda s2, v: bad.append(v), yld=lambda *a: bad.append(a))
        self.silent += 1
        try:
            self.assign(g.target, ix.get(s, q), s, cx2, lambda s2: self.ev(n.elt, s2, cx2, lambda s3, v: outs.append((s3, v))))
        except (Unsupported, Restart):
            return None
        finally:
            self.silent -= 1
        if bad or not outs:
            return None
        okc = {str(q)}
        for s2, v in outs:
            if not z3.eq(s2.alloc, st.alloc):
                return None
            for key in set(s2.heap) | set(st.heap):
                a, b = s2.heap.get(key, self.init_arrays.get(key)), st.heap.get(key, self.init_arrays.get(key))
                if a is None or b is None or not z3.eq(a, b):
                    return None
            for gk in set(s2.ghost) | set(st.ghost):
                a, b = s2.ghost.get(gk), st.ghost.get(gk)
                if a is None or b is None or not (a is b or z3.eq(a, b)):
                    return None
            for fd in st.frames:
                for nm, val in st.frames[fd].items():
                    if s2.frames.get(fd, {}).get(nm) is not val:
                        return None
        from .models import vite
        try:
            res = outs[-1][1]
            for s2, v in reversed(outs[:-1]):
                cond = z3.And(*s2.pc[n0:]) if len(s2.pc) > n0 else TRUE
                if any(idnum(c) > lo and c not in okc for c in consts_in(cond)):
                    return None
                res = vite(self, cond, v, res)
        except Unsupported:
            return None
        if any(idnum(c) > lo and c not in okc for c in consts_of(res)):
            return None
        kd = kind_of(res)
        if isinstance(kd, KConst) or isinstance(res, VNone) or 'const<' in kd.key:
            return None
        try:
            comps = kd.pack(res)
        except Unsupported:
            return None
        # what evaluating the element adds about it (e.g. that it is a valid reference) is added by later reads
        return nn, (lambda j: kd.unpack([z3.substitute(c, (q, j)) for c in comps])), kd

    def e_ListComp(self, n, st, cx, k):
        if self.mode == 'proof' and len(n.generators) == 1 and not n.generators[0].ifs:
            def got(s, it):
                pm = self.pure_map(n, s, cx, it)
                if pm is not None:
                    return k(s, self.mk_list(s, pm[0], pm[1], pm[2]))
                self.comp_loop(n, s, cx, k, it)
            return self.ev(n.generators[0].iter, st, cx, lambda s, v: self.force(s, v, got))
        return self.comp_loop(n, st, cx, k)

    def comp_loop(self, n, st, cx, k, first=None):
        hint = (cx.mod.name if cx.mod else '', n.lineno, n.col_offset)
        acc = self.new_list(st, [], hint=hint)
        consts = []

        def emit(s, v, kk):
            if isinstance(kind_of(v), KConst) and acc.p.k is None:
                raise Unsupported("comprehension over functions")
            self.append(s, acc, v)
            kk(s)
        # comprehension scope
        self.fcount += 1
        fid = ('c', self.fcount)
        st.frames[fid] = {'%acc': acc}
        f = VFunc(n, cx.mod, (cx.fid,) + tuple(self.frame_parents(cx)), cx.cls, '<comp>')
        cx2 = cx.but(fid=fid, fn=f)

        def done(s):
            k(s, acc)
        # concrete unrolling for tuples is handled by the generic loop
        self.comp(n.generators, 0, n.elt, st, cx2, emit, done, first)

    def e_GeneratorExp(self, n, st, cx, k):
        k(st, VMapIter(n, cx.fid, cx))

    def comp(self, gens, i, elt, st, cx, emit, done, first=None):
        if i == len(gens):
            return self.ev(elt, st, cx, lambda s, v: emit(s, v, done))
        g = gens[i]

        def body(s, item, cxb, knext):
            def ifs(j, s2):
                if j == len(g.ifs):
                    return self.comp(gens, i + 1, elt, s2, cxb, emit, knext)
                self.ev(g.ifs[j], s2, cxb, lambda s3, v: self.branch(s3, self.truth(s3, v), lambda a: ifs(j + 1, a), knext))
            self.assign(g.target, item, s, cxb, lambda s2: ifs(0, s2))
        if first is not None:
            return self.iterate(st, cx, first, body, done, (g.iter, i))
        self.ev(g.iter, st, cx, lambda s, itv: self.force(s, itv, lambda s1, it: self.iterate(s1, cx, it, body, done, (g.iter, i))))

    def append(self, st, r, v):
        self.adopt(r, v)
        n = self.llen(st, r)
        self.lset(st, r, n, v)
        self.setlen(st, r, z3.simplify(n + 1))

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st, cx, k):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            selfv = None
            fr = st.frames[cx.fid]
            return k(st, VSuper(cx.cls, fr[cx.selfname]))

        def gotf(s, f):
            pos = n.args

            def gota(s2, args):
                names = [kw.arg for kw in n.keywords]
                def gotk(s3, kvs):
                    kwargs = {}
                    for nm, v in zip(names, kvs):
                        if nm is None:
                            if isinstance(v, VDictC):
                                kwargs.update(v.d)
                            else:
                                raise Unsupported("** argument")
                        else:
                            kwargs[nm] = v
                    self.call(f, args, kwargs, s3, cx, k, n)
                self.evs([kw.value for kw in n.keywords], s2, cx, gotk)
            self.evs(pos, s, cx, gota)
        self.ev(n.func, st, cx, lambda s, f: self.force(s, f, gotf))

    def call(self, f, args, kwargs, st, cx, k, node=None):
        if isinstance(f, VBound):
            return self.call(f.f, [f.self_] + list(args), kwargs, st, cx, k, node)
        if isinstance(f, VPartial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw, st, cx, k, node)
        if isinstance(f, VSpec):
            return f.fn(self, st, cx, list(args), dict(kwargs), k)
        if isinstance(f, VFunc):
            return self.call_func(f, list(args), dict(kwargs), st, cx, k)
        if isinstance(f, VClass):
            return self.instantiate(f.info, list(args), dict(kwargs), st, cx, k)
        if isinstance(f, VBuiltin):
            m = self.specs.get(f.d) or self.models.get(f.d)
            if f.d in EXC_PARENTS or f.d.split('.')[-1] in EXC_PARENTS:
                return k(st, VExc(f.d.split('.')[-1]))
            if m is None:
                raise Unsupported(f"no model for {f.d}")
            self.trusted.add(f"library model: {f.d}")
            return m(self, st, cx, list(args), dict(kwargs), k)
        if isinstance(f, VMeth):
            m = self.methods.get(f.name)
            if m is None:
                raise Unsupported(f"no model for method {f.name} of {type(f.obj).__name__}")
            return m(self, st, cx, f.obj, list(args), dict(kwargs), k)
        if isinstance(f, VRef) and isinstance(f.p, PObj):
            sp = self.specs.get((f.p.cls, '__call__'))
            if sp is not None:
                return sp(self, st, cx, [f] + list(args), dict(kwargs), k)
            ci = self.class_info(f.p.cls)
            if ci is not None:
                c, nd = ci.find('__call__')
                if nd is not None:
                    return self.call(VBound(self.method_func(c, nd), f), args, kwargs, st, cx, k)
        if isinstance(f, VNone):
            return self.fail(st, cx, 'TypeError')
        raise Unsupported(f"call of {type(f).__name__}")

    real_decorators = False
    TRANSPARENT = ('staticmethod', 'classmethod', 'property', 'wrap_curry', 'curry', 'toolz.curry', 'iteriter_op', 'listlist_op',
                   'listiter_op', 'iterlist_op', 'abstractmethod', 'abc.abstractmethod', 'util.wrap_curry', 'ops.iteriter_op',
                   'ops.listlist_op', 'ops.listiter_op', 'ops.iterlist_op')

    def call_func(self, f, args, kwargs, st, cx, k):
        node = f.node
        sp = self.specs.get(f.qual)
        if sp is not None:
            return sp(self, st, cx, args, kwargs, k)
        if (cx.depth or 0) > 30:
            raise Unsupported("call depth (recursion)")
        curried = False
        if self.real_decorators and isinstance(node, ast.FunctionDef) and not getattr(f, 'bare', False):
            ds = [d for d in node.decorator_list if ast.unparse(d).endswith('_op')]
            if ds:
                # execute the type-checking decorator itself instead of looking through it
                b = VFunc(f.node, f.mod, f.fids, f.cls, f.qual, f.defaults, f.kwdefaults)
                b.bare = True
                dcx = Cx(fid=-1, mod=f.mod, depth=cx.depth, exc=cx.exc)
                return self.ev(ds[0], st, dcx, lambda s, deco: self.call(deco, [b], {}, s, cx, lambda s2, w: self.call(w, args, kwargs, s2, cx, k)))
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                nm = ast.unparse(d)
                if nm not in self.TRANSPARENT and not nm.startswith('wraps('):
                    raise Unsupported(f"decorator {nm}")
                if 'curry' in nm:
                    curried = True
                if nm.endswith('_op'):
                    self.trusted.add(f"decorator {nm} only type-checks and forwards (its own contract is in C06)")
        if f.qual and not f.qual.startswith('<'):
            self.inlined.add(f.qual)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        star = None
        if args and isinstance(args[-1], VStar):
            # f(*sequence of unknown length): only into a *parameter
            if a.vararg is None or len(args) - 1 != len(names):
                raise Unsupported("star-argument of symbolic length")
            star, args = args[-1].v, args[:-1]
        if any(isinstance(x, VStar) for x in args):
            raise Unsupported("star-argument of symbolic length")
        if len(args) > len(names) and a.vararg is None:
            return self.fail(st, cx, 'TypeError')
        for nm, v in zip(names, args):
            bound[nm] = v
        extra = args[len(names):]
        if a.vararg is not None:
            bound[a.vararg.arg] = VTuple(extra) if star is None else star
        kwonly = [x.arg for x in a.kwonlyargs]
        kwextra = {}
        for nm, v in kwargs.items():
            if nm in names or nm in kwonly:
                if nm in bound:
                    return self.fail(st, cx, 'TypeError')
                bound[nm] = v
            elif a.kwarg is not None:
                kwextra[nm] = v
            else:
                return self.fail(st, cx, 'TypeError')
        if a.kwarg is not None:
            bound[a.kwarg.arg] = VDictC(kwextra)
        missing = [nm for nm in names if nm not in bound]
        dnames = names[len(names) - len(a.defaults):] if a.defaults else []
        req_missing = [nm for nm in missing if nm not in dnames]
        if req_missing:
            if curried:
                return k(st, VPartial(f, args, kwargs))
            return self.fail(st, cx, 'TypeError')

        def fill(s):
            dn = []
            de = []
            for nm in missing:
                i = dnames.index(nm)
                if f.defaults is not None:
                    bound[nm] = f.defaults[i]
                else:
                    dn.append(nm)
                    de.append(a.defaults[i])
            for i, nm in enumerate(kwonly):
                if nm not in bound:
                    if a.kw_defaults[i] is None:
                        return self.fail(s, cx, 'TypeError')
                    dn.append(nm)
                    de.append(a.kw_defaults[i])
            dcx = Cx(fid=-1, mod=f.mod, depth=(cx.depth or 0) + 1, exc=cx.exc, cls=f.cls)

            def go(s2, vs):
                for nm, v in zip(dn, vs):
                    bound[nm] = v
                self.enter(f, dict(bound), s2, cx, k)
            self.evs(de, s, dcx, go)
        fill(st)

    def is_generator(self, node):
        if not isinstance(node, ast.FunctionDef):
            return False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        return False

    def enter(self, f, bound, st, cx, k):
        self.fcount += 1
        fid = self.fcount
        st.frames[fid] = bound
        node = f.node
        selfname = None
        if f.cls is not None and isinstance(node, ast.FunctionDef) and node.args.args:
            selfname = node.args.args[0].arg
        ncx = Cx(fid=fid, mod=f.mod, cls=f.cls, depth=(cx.depth or 0) + 1, fn=f, selfname=selfname,
                 ret=lambda s, v: k(s, v), exc=cx.exc, yld=None)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, st, ncx, k)
        if self.is_generator(node):
            g = VGen(f, fid)
            g.cx = ncx
            return k(st, g)
        self.ex(node.body, 0, st, ncx, lambda s: k(s, NONE))

    def instantiate(self, ci, args, kwargs, st, cx, k):
        sp = self.specs.get(ci.qual())
        if sp is not None:
            self.trusted.add(f"assumed contract: constructor {ci.qual()}")
            return sp(self, st, cx, args, kwargs, k)
        o = self.new_obj(st, ci.qual())
        for b in ci.base_names():
            if b not in ('ABC', 'abc.ABC', 'object'):
                raise Unsupported(f"constructor of a class with external base {b}")
        c, node = ci.find('__init__')
        if node is None:
            return k(st, o)
        self.call_func(self.method_func(c, node), [o] + args, kwargs, st, cx, lambda s, _: k(s, o))

    def e_Yield(self, n, st, cx, k):
        if cx.yld is None:
            raise Unsupported("yield here")
        def got(s, v):
            cx.yld(s, v, lambda s2: k(s2, NONE))
        if n.value is None:
            return got(st, NONE)
        self.ev(n.value, st, cx, got)

    def e_YieldFrom(self, n, st, cx, k):
        """yield from xs, as `for x in xs: yield x` (the value of the expression is not modelled)"""
        f = getattr(n, '_as_for', None)
        if f is None:
            nm = f"%from{n.lineno}_{n.col_offset}"
            f = ast.For(target=ast.Name(id=nm, ctx=ast.Store()), iter=n.value, body=[ast.Expr(value=ast.Yield(value=ast.Name(id=nm, ctx=ast.Load())))], orelse=[])
            ast.copy_location(f, n)
            for x in ast.walk(f):
                if x is not n.value and not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            n._as_for = f
        self.s_For(f, st, cx, lambda s: k(s, NONE))

    # ------------------------------------------------------------- statements
    def ex(self, stmts, i, st, cx, k):
        if i >= len(stmts):
            return k(st)
        s = stmts[i]
        self.site = (s.lineno, s.col_offset)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, st, cx, lambda st2: self.ex(stmts, i + 1, st2, cx, k))

    def s_Pass(self, n, st, cx, k):
        k(st)

    s_Global = s_Pass

    def s_Nonlocal(self, n, st, cx, k):
        k(st)

    def s_Expr(self, n, st, cx, k):
        if isinstance(n.value, ast.Constant):
            return k(st)
        if isinstance(n.value, ast.ListComp):
            # the list itself is thrown away: only what making its elements does matters
            self.fcount += 1
            fid = ('c', self.fcount)
            st.frames[fid] = {}
            f = VFunc(n.value, cx.mod, (cx.fid,) + tuple(self.frame_parents(cx)), cx.cls, '<comp>')
            return self.comp(n.value.generators, 0, n.value.elt, st, cx.but(fid=fid, fn=f), lambda s, v, kk: kk(s), k)
        self.ev(n.value, st, cx, lambda s, v: k(s))

    def s_Assert(self, n, st, cx, k):
        self.ev(n.test, st, cx, lambda s, v: self.branch(s, self.truth(s, v), k, lambda b: self.fail(b, cx, 'AssertionError')))

    def s_Return(self, n, st, cx, k):
        if n.value is None:
            return cx.ret(st, NONE)
        self.ev(n.value, st, cx, lambda s, v: cx.ret(s, v))

    def s_If(self, n, st, cx, k):
        def got(s, v):
            self.branch(s, self.truth(s, v), lambda a: self.ex(n.body, 0, a, cx, k), lambda b: self.ex(n.orelse, 0, b, cx, k))
        self.ev(n.test, st, cx, got)

    def s_Raise(self, n, st, cx, k):
        if n.exc is None:
            e = st.frames[cx.fid].get('%exc')
            return cx.exc(st, e or VExc('RuntimeError'))

        def got(s, v):
            if isinstance(v, VExc):
                return cx.exc(s, v)
            if isinstance(v, VBuiltin):
                return cx.exc(s, VExc(v.d.split('.')[-1]))
            if isinstance(v, VClass):
                return cx.exc(s, VExc(v.info.name))
            raise Unsupported("raise of this value")
        # the message is not evaluated
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        self.ev(e, st, cx, got)

    def s_Try(self, n, st, cx, k):
        if n.finalbody:
            fin = n.finalbody
            outer = cx
            inner = cx.but(
                ret=lambda s, v: self.ex(fin, 0, s, outer, lambda s2: outer.ret(s2, v)),
                brk=(lambda s: self.ex(fin, 0, s, outer, lambda s2: outer.brk(s2))) if cx.brk else None,
                cont=(lambda s: self.ex(fin, 0, s, outer, lambda s2: outer.cont(s2))) if cx.cont else None,
                exc=lambda s, e: self.ex(fin, 0, s, outer, lambda s2: outer.exc(s2, e)))
            k0 = k
            k = lambda s: self.ex(fin, 0, s, outer, k0)
            cx = inner

        def handler(s, e):
            for h in n.handlers:
                names = []
                if h.type is None:
                    names = ['BaseException']
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(x).split('.')[-1] for x in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split('.')[-1]]
                if any(exc_matches(e.name, nm) for nm in names):
                    if h.name:
                        s.frames[cx.fid][h.name] = e
                    s.frames[cx.fid]['%exc'] = e
                    return self.ex(h.body, 0, s, cx, k)
            cx.exc(s, e)
        bcx = cx.but(exc=handler)
        self.ex(n.body, 0, st, bcx, lambda s: self.ex(n.orelse, 0, s, cx, k))

    def s_With(self, n, st, cx, k):
        def go(i, s):
            if i == len(n.items):
                return self.ex(n.body, 0, s, cx, k)
            it = n.items[i]

            def got(s2, v):
                if it.optional_vars is not None:
                    return self.assign(it.optional_vars, v, s2, cx, lambda s3: go(i + 1, s3))
                go(i + 1, s2)
            self.ev(it.context_expr, s, cx, got)
        go(0, st)

    def s_FunctionDef(self, n, st, cx, k):
        f = VFunc(n, cx.mod, (cx.fid,) + tuple(self.frame_parents(cx)), cx.cls, f"<local>.{n.name}")

        def got(s, f):
            s.frames[cx.fid][n.name] = f
            k(s)
        self.with_defaults(f, n.args, st, cx, got)

    def s_Import(self, n, st, cx, k):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            dn = a.name if a.asname else a.name.split('.')[0]
            st.frames[cx.fid][nm] = VBuiltin(('repo:' + dn) if self.src.has(dn) else dn)
        k(st)

    def s_ImportFrom(self, n, st, cx, k):
        from .source import Module
        tmp = Module.__new__(Module)
        tmp.name, tmp.src, tmp.top, tmp.is_pkg = cx.mod.name, self.src, {}, cx.mod.is_pkg
        tmp._add(n)
        for nm in tmp.top:
            r = tmp.lookup(nm)
            st.frames[cx.fid][nm] = self.from_lookup(st, r)
        k(st)

    def s_Break(self, n, st, cx, k):
        cx.brk(st)

    def s_Continue(self, n, st, cx, k):
        cx.cont(st)

    def s_Delete(self, n, st, cx, k):
        if len(n.targets) != 1:
            raise Unsupported("del of several targets")
        t = n.targets[0]
        if isinstance(t, ast.Name):
            st.frames[cx.fid].pop(t.id, None)
            return k(st)
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            def got(s, vs):
                o, i = vs
                if isinstance(o, VRef) and isinstance(o.p, PList) and not o.p.nd:
                    n_ = self.llen(s, o)
                    return self.norm_index(s, cx, n_, i, lambda s2, j: self.list_delete(s2, o, n_, j, k))
                raise Unsupported("del item")
            return self.evs([t.value, t.slice], st, cx, got)
        if isinstance(t, ast.Attribute):
            def got(s, o):
                if isinstance(o, VRef) and isinstance(o.p, PObj) and self.attr_kind(o.p.cls, 'has.' + t.attr) is not None:
                    self.hset(s, o.t, 'has.' + t.attr, KBool, VBool(False))
                    return k(s)
                raise Unsupported("del attribute")
            return self.ev(t.value, st, cx, got)
        raise Unsupported("del")

    def list_delete(self, st, o, n, j, k):
        s0 = st.fork()
        kk = o.p.k
        for c, (cn, so) in enumerate(kk.comps):
            A = fresh('del', z3.ArraySort(IntS, so))
            st.assume(self.forall(0, z3.simplify(n - 1), lambda q: z3.Select(A, q) == kk.pack(
                self.ite(q < j, self.lget(s0, o, q, wf=False), self.lget(s0, o, q + 1, wf=False), kk))[c], pats=[lambda q: z3.Select(A, q)]))
            key = ('el', kk.key, cn)
            st.heap[key] = z3.Store(self.arr(st, key, z3.ArraySort(IntS, so)), o.t, A)
        self.setlen(st, o, z3.simplify(n - 1))
        k(st)

    def list_insert(self, st, o, n, j, v, k):
        self.adopt(o, v)
        s0 = st.fork()
        kk = o.p.k
        for c, (cn, so) in enumerate(kk.comps):
            A = fresh('ins', z3.ArraySort(IntS, so))
            st.assume(self.forall(0, z3.simplify(n + 1), lambda q: z3.Select(A, q) == z3.If(
                q == j, kk.pack(v)[c], kk.pack(self.ite(q < j, self.lget(s0, o, q, wf=False), self.lget(s0, o, q - 1, wf=False), kk))[c]),
                pats=[lambda q: z3.Select(A, q)]))
            key = ('el', kk.key, cn)
            st.heap[key] = z3.Store(self.arr(st, key, z3.ArraySort(IntS, so)), o.t, A)
        self.setlen(st, o, z3.simplify(n + 1))
        k(st)

    def ite(self, c, a, b, kind):
        return kind.unpack([x if z3.eq(x, y) else z3.If(c, x, y) for x, y in zip(kind.pack(a), kind.pack(b))])

    # -- assignment
    def s_Assign(self, n, st, cx, k):
        def got(s, v):
            def go(i, s2):
                if i == len(n.targets):
                    return k(s2)
                self.assign(n.targets[i], v, s2, cx, lambda s3: go(i + 1, s3))
            go(0, s)
        self.ev(n.value, st, cx, got)

    def s_AnnAssign(self, n, st, cx, k):
        if n.value is None:
            return k(st)
        self.ev(n.value, st, cx, lambda s, v: self.assign(n.target, v, s, cx, k))

    def owner_frame(self, st, cx, name):
        """frame that holds local variable `name` (honouring nonlocal)"""
        f = cx.fn
        if f is not None and isinstance(f.node, ast.FunctionDef):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Nonlocal) and name in x.names:
                    for p in f.fids:
                        if name in st.frames.get(p, {}):
                            return p
        return cx.fid

    def assign(self, t, v, st, cx, k):
        if isinstance(t, ast.Name):
            st.frames[self.owner_frame(st, cx, t.id)][t.id] = v
            return k(st)
        if isinstance(t, (ast.Tuple, ast.List)):
            def items(s, vs):
                if any(isinstance(x, ast.Starred) for x in t.elts):
                    raise Unsupported("starred assignment")
                if len(vs) != len(t.elts):
                    return self.fail(s, cx, 'ValueError')

                def go(i, s2):
                    if i == len(vs):
                        return k(s2)
                    self.assign(t.elts[i], vs[i], s2, cx, lambda s3: go(i + 1, s3))
                go(0, s)
            if isinstance(v, VMaybe):
                return self.force(st, v, lambda s, x: self.assign(t, x, s, cx, k))
            if isinstance(v, VNone):
                return self.fail(st, cx, 'TypeError')
            if isinstance(v, VRef) and isinstance(v.p, PList):
                n = self.llen(st, v)
                m = len(t.elts)
                return self.branch(st, n == m, lambda s: items(s, [self.lget(s, v, j) for j in range(m)]),
                                   lambda s: self.fail(s, cx, 'ValueError'))
            return self.as_items(st, v, items)
        if isinstance(t, ast.Attribute):
            def got(s, o):
                if isinstance(o, VRef) and isinstance(o.p, PObj):
                    return self.obj_setattr(o, t.attr, v, s, cx, k)
                if isinstance(o, VFunc):
                    self.fn_attrs[(id(o.node), o.fids, t.attr)] = v
                    return k(s)
                if isinstance(o, VClass):
                    kk = self.schema.get((o.info.qual(), t.attr))
                    if kk is not None:
                        self.hset(s, self.class_ref(o.info), t.attr, kk, v)
                        return k(s)
                raise Unsupported("attribute store")
            return self.ev(t.value, st, cx, lambda s, o: self.force(s, o, got))
        if isinstance(t, ast.Subscript):
            def got(s, o):
                if isinstance(t.slice, ast.Slice):
                    z = t.slice
                    if z.lower is None and z.upper is None and z.step is None and isinstance(o, VRef) and isinstance(o.p, PList) and not o.p.nd:
                        # x[:] = ...: the same list with new contents
                        return self.models['list'](self, s, cx, [v], {}, lambda s2, w: self.methods['clear'](
                            self, s2, cx, o, [], {}, lambda s3, _: self.methods['extend'](self, s3, cx, o, [w], {}, lambda s4, _: k(s4))))
                    raise Unsupported("slice assignment")
                self.ev(t.slice, s, cx, lambda s2, i: self.force(s2, i, lambda s3, ii: self.setitem(o, ii, v, s3, cx, k)))
            return self.ev(t.value, st, cx, lambda s, o: self.force(s, o, got))
        raise Unsupported("assignment target")

    def setitem(self, o, i, v, st, cx, k):
        if isinstance(o, VRef) and isinstance(o.p, PObj) and isinstance(i, VStr):
            kk = self.attr_kind(o.p.cls, f"[{i.s}]")
            if kk is None:
                raise Unsupported(f"key {i.s} of {o.p.cls}")
            self.hset(st, o.t, f"[{i.s}]", kk, v)
            if self.attr_kind(o.p.cls, f"has[{i.s}]") is not None:
                self.hset(st, o.t, f"has[{i.s}]", KBool, VBool(True))
            return k(st)
        if isinstance(o, VRef) and isinstance(o.p, PList):
            if getattr(o, 'view', False):
                raise Unsupported("store through a numpy view")
            if o.p.nd and any(z3.eq(b, z3.simplify(o.t)) for b in self.viewed):
                raise Unsupported("store into an array of which a view was taken")
            if isinstance(i, VMasked) and getattr(i, 'ident', False) and o.p.nd:
                return self.mask_set(o, i.mask, v, st, cx, k, prefix=True)
            if isinstance(i, VRef) and isinstance(i.p, PList) and o.p.nd and i.p.k == KBool:
                return self.mask_set(o, i, v, st, cx, k)
            if not isinstance(i, (VInt, VBool)):
                raise Unsupported("index kind in store")
            n = self.llen(st, o)

            def go(s, j):
                if o.p.k is None:
                    raise Unsupported("store into unknown list")
                if isinstance(v, VMaybe) and not isinstance(o.p.k, KMaybe):
                    return self.force(s, v, lambda s2, w: (self.lset(s2, o, j, w), k(s2))[1])
                self.adopt(o, v)
                self.lset(s, o, j, v)
                k(s)
            return self.norm_index(st, cx, n, i, go)
        raise Unsupported(f"item store on {type(o).__name__}")

    def mask_set(self, o, m, v, st, cx, k, prefix=False):
        n, nm = self.llen(st, o), self.llen(st, m)
        kk = o.p.k

        def go(s):
            s0 = s.fork()
            if isinstance(v, VMasked):
                if v.mask is not m and not z3.eq(v.mask.t, m.t):
                    raise Unsupported("assignment with a different mask")
                new = v.f
            elif isinstance(v, (VInt, VReal, VBool, VOpq)):
                new = lambda j: v
            else:
                raise Unsupported("masked assignment of this value")
            newk = kind_of(new(z3.IntVal(0)))
            if kk == KInt and newk != KInt and newk != KBool:
                # numpy truncates towards zero on assignment into an integer array
                old = new
                new = lambda j: VInt(self.trunc(self.asreal(old(j)).t))
            for c, (cn, so) in enumerate(kk.comps):
                A = fresh('msk', z3.ArraySort(IntS, so))
                s.assume(self.forall(0, n, lambda j: z3.Select(A, j) == z3.If(
                    z3.And(j < nm, self.lget(s0, m, j, wf=False).t) if prefix else self.lget(s0, m, j, wf=False).t, kk.pack(new(j))[c], kk.pack(self.lget(s0, o, j, wf=False))[c]),
                    pats=[lambda j: z3.Select(A, j)]))
                key = ('el', kk.key, cn)
                s.heap[key] = z3.Store(self.arr(s, key, z3.ArraySort(IntS, so)), o.t, A)
            k(s)
        if z3.is_true(z3.simplify(n == nm)):
            return go(st)
        if prefix:
            return self.branch(st, nm <= n, go, lambda s: self._uns("index array reaching beyond the array"))
        self.branch(st, n == nm, go, lambda s: self.fail(s, cx, 'IndexError'))

    def trunc(self, r):
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

    def s_AugAssign(self, n, st, cx, k):
        t = n.target

        def apply(s, old, rhs, store):
            if isinstance(old, VRef) and isinstance(old.p, PList) and not old.p.nd and isinstance(n.op, ast.Add):
                return self.methods['extend'](self, s, cx, old, [rhs], {}, lambda s2, _: store(s2, old))
            if isinstance(old, VRef) and isinstance(old.p, PSet) and isinstance(n.op, ast.BitOr):
                return self.methods['update'](self, s, cx, old, [rhs], {}, lambda s2, _: store(s2, old))
            if isinstance(old, VRef) and isinstance(old.p, PList) and old.p.nd:
                # in-place array arithmetic: same object, new contents
                def done(s2, res):
                    self.copy_contents(s2, old, res)
                    store(s2, old)
                return self.nd_op(n.op, old, rhs, s, cx, done)
            self.binop(n.op, old, rhs, s, cx, store)
        if isinstance(t, ast.Name):
            return self.ev(t, st, cx, lambda s, old: self.ev(n.value, s, cx, lambda s2, rhs: apply(
                s2, old, rhs, lambda s3, v: self.assign(t, v, s3, cx, k))))
        if isinstance(t, ast.Attribute):
            def got(s, o):
                self.getattr(o, t.attr, s, cx, lambda s2, old: self.ev(n.value, s2, cx, lambda s3, rhs: apply(
                    s3, old, rhs, lambda s4, v: self.obj_setattr(o, t.attr, v, s4, cx, k)
                    if isinstance(o, VRef) and isinstance(o.p, PObj) else self._uns("augmented attribute"))))
            return self.ev(t.value, st, cx, lambda s, o: self.force(s, o, got))
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            def got(s, vs):
                o, i = vs
                self.getitem(o, i, s, cx, lambda s2, old: self.ev(n.value, s2, cx, lambda s3, rhs: apply(
                    s3, old, rhs, lambda s4, v: self.setitem(o, i, v, s4, cx, k))))
            return self.evs([t.value, t.slice], st, cx, got)
        raise Unsupported("augmented assignment")

    def _uns(self, m):
        raise Unsupported(m)

    def copy_contents(self, st, dst, src):
        """dst[:] = src for arrays of equal length"""
        kk = dst.p.k
        s0 = st.fork()
        n = self.llen(st, dst)
        for c, (cn, so) in enumerate(kk.comps):
            A = fresh('cpy', z3.ArraySort(IntS, so))
            st.assume(self.forall(0, n, lambda j: z3.Select(A, j) == kk.pack(self.lget(s0, src, j, wf=False))[c],
                                  pats=[lambda j: z3.Select(A, j)]))
            key = ('el', kk.key, cn)
            st.heap[key] = z3.Store(self.arr(st, key, z3.ArraySort(IntS, so)), dst.t, A)

    # ------------------------------------------------------------------ loops
    def to_idx(self, st, v):
        """Iterable -> VIdx, or None if it is not indexable."""
        if isinstance(v, VIdx):
            return v
        if isinstance(v, VRef) and isinstance(v.p, PList):
            if v.p.k is None:
                return VIdx(lambda s: self.llen(s, v), lambda s, j: self.lget(s, v, j), 'list')
            ix = VIdx(lambda s: self.llen(s, v), lambda s, j: self.lget(s, v, j), 'list')
            ix.src = v
            return ix
        if isinstance(v, VRange):
            step = v.step
            if not z3.is_int_value(step):
                # symbolic step: assume checked positive by the model
                n = lambda s: z3.If(v.hi > v.lo, (v.hi - v.lo + step - 1) / step, z3.IntVal(0))
            else:
                c = step.as_long()
                if c == 1:
                    n = lambda s: z3.simplify(z3.If(v.hi > v.lo, v.hi - v.lo, z3.IntVal(0)))
                elif c > 1:
                    n = lambda s: z3.simplify(z3.If(v.hi > v.lo, (v.hi - v.lo + (c - 1)) / c, z3.IntVal(0)))
                elif c == -1:
                    n = lambda s: z3.simplify(z3.If(v.lo > v.hi, v.lo - v.hi, z3.IntVal(0)))
                else:
                    raise Unsupported("range step")
            return VIdx(n, lambda s, j: VInt(z3.simplify(v.lo + j * step)), 'range')
        if isinstance(v, VEnum):
            ix = self.to_idx(st, v.it)
            if ix is None:
                return None
            r = VIdx(ix.n, lambda s, j: VTuple([VInt(z3.simplify(v.start + j)), ix.get(s, j)]), 'enum')
            return r
        if isinstance(v, VZip):
            ixs = [self.to_idx(st, x) for x in v.its]
            if any(x is None for x in ixs):
                return None

            def n(s):
                ns = [x.n(s) for x in ixs if x.n is not None]
                r = ns[0]
                for y in ns[1:]:
                    if not z3.eq(r, y):
                        r = z3.If(y < r, y, r)
                return z3.simplify(r)
            return VIdx(n, lambda s, j: VTuple([x.get(s, j) for x in ixs]), 'zip')
        if isinstance(v, VTuple):
            return None
        return None

    def s_For(self, n, st, cx, k):
        def body(s, item, cxb, knext):
            self.assign(n.target, item, s, cxb, lambda s2: self.ex(n.body, 0, s2, cxb, knext))

        def done(s):
            self.ex(n.orelse, 0, s, cx, k)
        self.ev(n.iter, st, cx, lambda s, itv: self.force(s, itv, lambda s1, it: self.iterate(s1, cx, it, body, done, (n, 0), k)))

    def iterate(self, st, cx, it, body, done, label, kbreak=None):
        """Run body(st, item, cx', knext) for each item; done(st) after normal exhaustion; kbreak(st) after break."""
        kb = kbreak or done
        if isinstance(it, VDictC):
            it = VTuple([VStr(x) if isinstance(x, str) else VInt(x) for x in it.d])
        if isinstance(it, VEnum) and isinstance(it.it, VTuple):
            it = VTuple([VTuple([VInt(z3.simplify(it.start + i)), x]) for i, x in enumerate(it.it.items)])
        if isinstance(it, VZip) and any(isinstance(x, VTuple) for x in it.its):
            its = []
            m = min(len(x.items) for x in it.its if isinstance(x, VTuple))
            ok = True
            for x in it.its:
                if isinstance(x, VTuple):
                    its.append(x.items)
                else:
                    ix = self.to_idx(st, x)
                    nn = ix.n(st) if ix is not None and ix.n is not None else None
                    if nn is not None and z3.is_int_value(nn):
                        its.append([ix.get(st, z3.IntVal(j)) for j in range(nn.as_long())])
                    else:
                        ok = False
            if not ok:
                raise Unsupported("zip of a symbolic list with a tuple")
            it = VTuple([VTuple(list(t)) for t in zip(*its)])
        if isinstance(it, VTuple):
            items = it.items

            def go(i, s):
                if i == len(items):
                    return done(s)
                cxb = cx.but(brk=kb, cont=lambda s2: go(i + 1, s2))
                body(s, items[i], cxb, lambda s2: go(i + 1, s2))
            return go(0, st)
        if isinstance(it, VGen):
            return self.fuse(st, cx, it, body, done, kb)
        if isinstance(it, VMapIter):
            def emit(s, v, kk):
                cxb = cx.but(brk=kb, cont=kk)
                body(s, v, cxb, kk)
            self.fcount += 1
            fid = ('c', self.fcount)
            st.frames[fid] = {}
            f = VFunc(it.node, it.cx.mod, (it.cx.fid,) + tuple(self.frame_parents(it.cx)), it.cx.cls, '<genexp>')
            return self.comp(it.node.generators, 0, it.node.elt, st, it.cx.but(fid=fid, fn=f, exc=cx.exc), emit, done)
        if isinstance(it, VRange) and self.mode == 'proof' and not z3.is_int_value(z3.simplify(it.step)):
            # symbolic step (known positive): keep the current value as loop state, no multiplication
            self.loops += 1
            gid = ('rng', self.loops)
            st = st.fork()
            st.ghost[gid] = it.lo

            def rguard(s, kT, kF):
                self.branch(s, s.ghost[gid] < it.hi, kT, kF)

            def rbody(s, cxb, knext):
                v = s.ghost[gid]
                s.ghost[gid] = z3.simplify(v + it.step)
                body(s, VInt(v), cxb, knext)
            return self.loop(st, cx, rguard, rbody, done, kb, label)
        src, start = (it.it, it.start) if isinstance(it, VEnum) else (it, None)
        if isinstance(src, VRef) and isinstance(src.p, PObj) and (src.p.cls, '__next__') in self.specs:
            # an iterator known by the contract of its __next__
            nxt = VBound(VSpec(self.specs[(src.p.cls, '__next__')], '__next__'), src)
            self.trusted_spec(src.p.cls, '__next__')
            self.loops += 1
            gid = ('enum', self.loops)
            st = st.fork()
            if start is not None:
                st.ghost[gid] = start

            def nguard(s, kT, kF):
                kT(s)

            def nbody(s, cxb, knext):
                def got(s2, v):
                    if start is not None:
                        v = VTuple([VInt(s2.ghost[gid]), v])
                        s2.ghost[gid] = z3.simplify(s2.ghost[gid] + 1)
                    body(s2, v, cxb, knext)
                self.call(nxt, [], {}, s, cxb.but(exc=lambda s2, e: done(s2) if e.name == 'StopIteration' else cxb.exc(s2, e)), got)
            return self.loop(st, cx, nguard, nbody, done, kb, label)
        if isinstance(it, VRef) and isinstance(it.p, PIter):
            ref = it

            def guard(s, kT, kF):
                kT(s)

            def b(s, cxb, knext):
                self.models['next'](self, s, cxb.but(exc=lambda s2, e: done(s2) if e.name == 'StopIteration' else cxb.exc(s2, e)),
                                    [ref], {}, lambda s2, v: body(s2, v, cxb, knext))
            return self.loop(st, cx, guard, b, done, kb, label)
        ix = self.to_idx(st, it)
        if ix is None:
            raise Unsupported(f"iteration over {type(it).__name__}")
        n0 = ix.n(st) if ix.n is not None else None
        if n0 is not None and z3.is_int_value(n0) and n0.as_long() <= 8 and not self.hints.get(('noun', id(label[0]))):
            # literal length: unroll (the length is re-read, as Python does)
            def go(i, s):
                nn = ix.n(s)
                def step(s2):
                    cxb = cx.but(brk=kb, cont=lambda s3: go(i + 1, s3))
                    body(s2, ix.get(s2, z3.IntVal(i)), cxb, lambda s3: go(i + 1, s3))
                if i > 40:
                    raise Unsupported("runaway unrolling")
                self.branch(s, z3.IntVal(i) < nn, step, done)
            return go(0, st)
        self.loops += 1
        kid = ('k', self.loops)

        def guard(s, kT, kF):
            if ix.n is None:
                return kT(s)
            self.branch(s, s.ghost[kid] < ix.n(s), kT, kF)

        def b(s, cxb, knext):
            kk = s.ghost[kid]
            item = ix.get(s, kk)
            s.ghost[kid] = z3.simplify(kk + 1)
            body(s, item, cxb, knext)
        self.loop(st, cx, guard, b, done, kb, label, kid=kid, ix=ix)

    def fuse(self, st, cx, g, body, done, kb):
        """for x in generator(): body   --  run the generator's code with yield replaced by the loop body"""
        gcx = g.cx

        def yld(s, v, resume):
            cxb = cx.but(brk=kb, cont=resume)
            body(s, v, cxb, resume)

        def gexc(s, e):
            if e.name == 'StopIteration':
                e = VExc('RuntimeError')
            cx.exc(s, e)
        self.ex(g.f.node.body, 0, st, gcx.but(yld=yld, ret=lambda s, v: done(s), exc=gexc), done)

    def s_While(self, n, st, cx, k):
        def guard(s, kT, kF):
            self.ev(n.test, s, cx, lambda s2, v: self.branch(s2, self.truth(s2, v), kT, kF))

        def b(s, cxb, knext):
            self.ex(n.body, 0, s, cxb, knext)

        def done(s):
            self.ex(n.orelse, 0, s, cx, k)
        self.loop(st, cx, guard, b, done, k, (n, 0))

    # The loop rule -----------------------------------------------------------
    def loop(self, st, cx, guard, body, done, kbreak, label, kid=None, ix=None):
        if kid is None:
            self.loops += 1
            kid = ('k', self.loops)
            own_k = True
        else:
            own_k = False
        st = st.fork()
        st.ghost[kid] = z3.IntVal(0)

        def run_body(s, cxb, knext):
            if own_k:
                s.ghost[kid] = z3.simplify(s.ghost[kid] + 1)
            body(s, cxb, knext)

        if self.mode == 'bmc':
            def go(i, s):
                if i > self.unroll:
                    return            # beyond the bound
                def step(s2):
                    cxb = cx.but(brk=kbreak, cont=lambda s3: go(i + 1, s3))
                    run_body(s2, cxb, lambda s3: go(i + 1, s3))
                guard(s, step, done)
            return go(0, st)

        # 1. what does the loop modify?
        mods = set()
        kinds = {}
        cells = {}          # heap key -> references written (loop-invariant terms), or None: anywhere
        ctr0 = vals._ctr[0]
        ends = []
        for rnd in range(12):
            sh = self.havoc(st, mods, kinds, kid, cells)
            if sh is None:
                raise Unsupported("loop state")
            ends = []
            self.silent += 1
            try:
                cxb = cx.but(brk=lambda s: None, cont=lambda s: ends.append(s), exc=lambda s, e: None,
                             ret=lambda s, v: None, yld=self.silent_yld(cx))
                guard(sh.fork(), lambda s: run_body(s, cxb, lambda s2: ends.append(s2)), lambda s: None)
            finally:
                self.silent -= 1
            new = set()
            for e in ends:
                new |= self.diff(sh, e, kinds, st)
            grown = self.note_cells(cells, new, sh, ends, ctr0)
            if new <= mods and not grown:
                break
            mods |= new
        else:
            raise Unsupported("loop modification set did not stabilise")

        # 2. candidate invariants
        info = LoopInfo(self, st, sh, ends, kid, ix, mods, label, cx)
        info.cells = cells
        cands = [c for c in self.auto_cands(info) if not any(c[0].startswith(p) for p in self.skip_guesses)]
        nauto = len(cands)
        if self.cands is not None:
            cands += list(self.cands(self, info) or [])
        # names become unique; those proposed by a contract are grouped (see valid)
        cands = [(f"{nm}", f) for nm, f in cands[:nauto]] + [(f"{nm} #{kid[1]}.{i}" if isinstance(kid, tuple) else f"{nm} #{i}", f)
                                                              for i, (nm, f) in enumerate(cands[nauto:])]
        usernames = {nm for nm, f in cands[nauto:]}

        def take(sx, nm, f):
            g = f(sx)
            sx.assume(g)
            if nm in usernames:
                self.inv_ids[g.get_id()] = (nm, g)
        good = []
        for nm, f in cands:
            try:
                g = f(st)
            except (Unsupported, KeyError, z3.Z3Exception):
                continue
            r, _, _ = self.valid(st, g, timeout=2000 if nm in usernames else 800, quick=True, guess=nm not in usernames)
            if r == 'proved':
                good.append((nm, f))
        self.silent += 1
        try:
            for rnd in range(12):
                sh = self.havoc(st, mods, kinds, kid, cells)
                keep = []
                for nm, f in good:
                    try:
                        take(sh, nm, f)
                        keep.append((nm, f))
                    except (Unsupported, KeyError, z3.Z3Exception):
                        pass
                good = keep
                ends = []
                cxb = cx.but(brk=lambda s: None, cont=lambda s: ends.append(s), exc=lambda s, e: None,
                             ret=lambda s, v: None, yld=self.silent_yld(cx))
                guard(sh.fork(), lambda s: run_body(s, cxb, lambda s2: ends.append(s2)), lambda s: None)
                ok = []
                for nm, f in good:
                    fine = True
                    for e in ends:
                        try:
                            g = f(e)
                        except (Unsupported, KeyError, z3.Z3Exception):
                            fine = False
                            break
                        r, _, _ = self.valid(e, g, timeout=3000 if nm in usernames else 1000, quick=True, own=nm, guess=nm not in usernames)
                        if r != 'proved':
                            fine = False
                            break
                    if fine:
                        ok.append((nm, f))
                if len(ok) == len(good):
                    good = ok
                    break
                good = ok
            else:
                raise Unsupported("invariant inference did not converge")
        finally:
            self.silent -= 1
        # 3. the surviving invariants are inductive: record them as discharged obligations, then continue
        sh = self.havoc(st, mods, kinds, kid, cells)
        for nm, f in good:
            take(sh, nm, f)
            if not self.silent:
                for ph in ('entry', 'preserved'):
                    self.obligations.append(dict(name=f"loop invariant [{nm}] {ph}", where=self.loc(label), result='proved', reason='',
                                                 secs=0, model=None, goal=None, trail=[], backend='z3'))
        cxb = cx.but(brk=kbreak, cont=lambda s: None)
        guard(sh, lambda s: run_body(s, cxb, lambda s2: None), done)

    def loc(self, label):
        n = label[0]
        return f"line {getattr(n, 'lineno', '?')}"

    def silent_yld(self, cx):
        return cx.yld

    def note_cells(self, cells, new, sh, ends, ctr0):
        """Which cells of each modified heap array does one iteration write?  Cells of objects allocated by the iteration
        itself need no havoc: nothing constrains a heap array at unallocated references."""
        grown = False
        for m in new:
            if m[0] != 'heap':
                continue
            key = m[1]
            if key in cells and cells[key] is None:
                continue
            cur = cells.setdefault(key, [])
            head = sh.heap.get(key)
            if head is None:
                head = self.init_arrays.get(key)
            for e in ends:
                a = e.heap.get(key)
                if a is None:
                    a = self.init_arrays.get(key)
                while not z3.eq(a, head):
                    if not z3.is_store(a):
                        cells[key] = None
                        grown = True
                        break
                    w = z3.simplify(a.arg(1))
                    d = z3.simplify(w - sh.alloc)
                    if z3.is_int_value(d) and d.as_long() >= 0:
                        pass
                    elif all(idnum(n) <= ctr0 for n in consts_in(w)):
                        if not any(z3.eq(w, x) for x in cur):
                            cur.append(w)
                            grown = True
                    else:
                        cells[key] = None
                        grown = True
                        break
                    a = a.arg(0)
                if cells[key] is None:
                    break
        return grown

    def havoc(self, st, mods, kinds, kid, cells=None):
        s = st.fork()
        for m in sorted(mods, key=str):
            if m[0] == 'v':
                _, fid, name = m
                if name not in st.frames.get(fid, {}):
                    if fid in s.frames:
                        s.frames[fid].pop(name, None)
                    continue
                kd = kinds.get(m) or kind_of(st.frames[fid][name])
                if isinstance(kd, KConst):
                    raise Unsupported(f"loop changes {name}, a non-data value")
                v = kd.fresh('h_' + str(name))
                s.frames[fid][name] = v
                self.wf_late = getattr(self, 'wf_late', None)
            elif m[0] == 'heap':
                cur = st.heap.get(m[1])
                if cur is None:
                    cur = self.init_arrays[m[1]]
                cl = (cells or {}).get(m[1])
                if cl is None:
                    s.heap[m[1]] = fresh('hv', cur.sort())
                else:
                    a = cur
                    for w in cl:
                        a = z3.Store(a, w, fresh('hv', cur.sort().range()))
                    s.heap[m[1]] = a
            elif m[0] == 'alloc':
                s.alloc = fresh('alloc', IntS)
                s.assume(s.alloc >= st.alloc)
            elif m[0] == 'ghost':
                g = st.ghost.get(m[1])
                if g is None:
                    s.ghost.pop(m[1], None)
                else:
                    s.ghost[m[1]] = fresh('g_', g.sort())
        for m in mods:
            if m[0] == 'v':
                _, fid, name = m
                v = s.frames.get(fid, {}).get(name)
                if v is not None:
                    self.wf(s, v)
        kk = s.ghost.get(kid)
        if kk is not None and not z3.is_int_value(kk):
            s.assume(kk >= 0)
        return s

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, VTuple):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, VMaybe):
            return z3.eq(a.none, b.none) and self.same(a.val, b.val)
        if isinstance(a, VReal):
            return z3.eq(a.t, b.t) and z3.eq(a.nan, b.nan)
        if isinstance(a, (VInt, VBool, VOpq)):
            return z3.eq(a.t, b.t)
        if isinstance(a, VRef):
            return z3.eq(a.t, b.t)
        if isinstance(a, VStr):
            return a.s == b.s and a.s is not None
        if isinstance(a, VNone):
            return True
        if isinstance(a, VBuiltin):
            return a.d == b.d
        if isinstance(a, VFunc):
            return a.node is b.node and a.fids == b.fids
        return False

    def diff(self, s0, s1, kinds, st):
        out = set()
        for fid, fr in s0.frames.items():
            fr1 = s1.frames.get(fid, {})
            for name in set(fr) | set(fr1):
                a, b = fr.get(name), fr1.get(name)
                if a is None or b is None:
                    if a is not b:
                        out.add(('v', fid, name))
                    continue
                if not self.same(a, b):
                    key = ('v', fid, name)
                    out.add(key)
                    entry = st.frames.get(fid, {}).get(name)
                    if entry is not None:
                        kd = join_kind(kinds.get(key) or kind_of(entry), kind_of(b))
                        if key in kinds and kinds[key] != kd or key not in kinds:
                            if key in kinds and kinds[key] != kd:
                                out.add(('rekind', key, kd.key))
                            kinds[key] = kd
        for key in set(s0.heap) | set(s1.heap):
            a = s0.heap.get(key)
            b = s1.heap.get(key)
            if a is None:
                a = self.init_arrays.get(key)
            if b is None:
                b = self.init_arrays.get(key)
            if a is None or b is None or not z3.eq(a, b):
                out.add(('heap', key))
        if not z3.eq(s0.alloc, s1.alloc):
            out.add(('alloc',))
        for g in set(s0.ghost) | set(s1.ghost):
            a, b = s0.ghost.get(g), s1.ghost.get(g)
            if a is None or b is None or not z3.eq(a, b):
                if g in st.ghost:
                    out.add(('ghost', g))
        return out

    # -- automatic candidate invariants
    def auto_cands(self, L):
        E = self
        out = []
        st0, kid = L.entry, L.kid
        k = lambda s: s.ghost[kid]
        if L.ix is not None and L.ix.n is not None:
            ix = L.ix
            out.append(('index within the sequence', lambda s: k(s) <= ix.n(s)))
            n0 = ix.n(st0)
            out.append(('sequence length unchanged', lambda s: ix.n(s) == n0))
        # integer variables
        for m in L.mods:
            if m[0] == 'v' and m[2] in st0.frames.get(m[1], {}):
                v0 = st0.frames[m[1]][m[2]]
                if isinstance(v0, VInt):
                    def g(s, m=m):
                        v = s.frames[m[1]][m[2]]
                        if not isinstance(v, VInt):
                            raise Unsupported('')
                        return v.t
                    out.append((f"{m[2]} counts iterations", lambda s, g=g, v0=v0: g(s) == v0.t + k(s)))
                    out.append((f"{m[2]} grows", lambda s, g=g, v0=v0: g(s) >= v0.t))
                    for cdelta in L.steps(g):
                        out.append((f"{m[2]} advances {cdelta} per iteration", lambda s, g=g, v0=v0, cdelta=cdelta: g(s) == v0.t + cdelta * k(s)))
            if m[0] == 'ghost' and m[1] != kid and st0.ghost.get(m[1]) is not None and st0.ghost[m[1]].sort() == IntS:
                g0 = st0.ghost[m[1]]
                out.append((f"ghost {m[1]} counts iterations", lambda s, m=m, g0=g0: s.ghost[m[1]] == g0 + k(s)))
                out.append((f"ghost {m[1]} grows", lambda s, m=m, g0=g0: s.ghost[m[1]] >= g0))
        # heap frames
        a0 = st0.alloc
        bound_syms = L.havoc_syms()
        for m in sorted([m for m in L.mods if m[0] == 'heap'], key=str):
            key = m[1]
            old = st0.heap.get(key)
            if old is None:
                old = self.init_arrays[key]
            sort = old.sort().range()
            wr = L.written(key)
            inv = [w for w in wr if not mentions(w, bound_syms)]
            var = [w for w in wr if mentions(w, bound_syms)]
            cur = lambda s, key=key, sort=sort: E.arr(s, key, sort)
            framed = (getattr(L, 'cells', None) or {}).get(key) is not None
            if not framed:
              out.append((f"frame {key[0:2]}: objects existing before the loop unchanged",
                        lambda s, cur=cur, old=old: E.forall_ref(0, a0, lambda r: z3.Select(cur(s), r) == z3.Select(old, r),
                                                                pats=[lambda r: z3.Select(cur(s), r)])))
            if inv and not framed:
                out.append((f"frame {key[0:2]}: only the loop's own targets change",
                            lambda s, cur=cur, old=old, inv=inv: E.forall_ref(0, a0, lambda r: z3.Or(
                                z3.Select(cur(s), r) == z3.Select(old, r), *[r == w for w in inv]),
                                pats=[lambda r: z3.Select(cur(s), r)])))
            if var and L.ix is not None and getattr(L.ix, 'src', None) is not None and L.ix.src.p.k is not None \
                    and isinstance(L.ix.src.p.k, KRef):
                src = L.ix.src
                A0 = E.elarr(st0, src.p.k, '', IntS, src.t)
                out.append((f"frame {key[0:2]}: only visited elements change",
                            lambda s, cur=cur, old=old, inv=inv, A0=A0: E.forall_ref(0, a0, lambda r: z3.Or(
                                z3.Select(cur(s), r) == z3.Select(old, r), E.exists(0, k(s), lambda j: z3.Select(A0, j) == r), *[r == w for w in inv]),
                                pats=[lambda r: z3.Select(cur(s), r)])))
            # lengths of lists written by the loop
            if key == ('len',):
                for w in inv:
                    l0 = z3.Select(old, w)
                    out.append(("length = initial + iterations", lambda s, cur=cur, w=w, l0=l0: z3.Select(cur(s), w) == l0 + k(s)))
                    out.append(("length unchanged", lambda s, cur=cur, w=w, l0=l0: z3.Select(cur(s), w) == l0))
                    out.append(("length grows at most one per iteration", lambda s, cur=cur, w=w, l0=l0: z3.And(
                        z3.Select(cur(s), w) >= l0, z3.Select(cur(s), w) <= l0 + k(s))))
            if key[0] == 'el':
                for w in inv:
                    l0 = z3.Select(E.arr(st0, ('len',), IntS), w)
                    e0 = z3.Select(old, w)
                    out.append(("earlier elements unchanged", lambda s, cur=cur, w=w, l0=l0, e0=e0: E.forall(
                        0, l0, lambda j: z3.Select(z3.Select(cur(s), w), j) == z3.Select(e0, j),
                        pats=[lambda j: z3.Select(z3.Select(cur(s), w), j)])))
                    # append-loops: the element appended by iteration j
                    v = L.appended(key, w)
                    if v is not None:
                        def mapinv(s, cur=cur, w=w, l0=l0, v=v):
                            return E.forall(0, k(s), lambda j: z3.Select(z3.Select(cur(s), w), l0 + j) == v(j))
                        out.append(("element appended by each iteration", mapinv))
                        if z3.is_int_value(z3.simplify(l0)) and z3.simplify(l0).as_long() == 0 and E.mode == 'proof':
                            out[-1] = ("element appended by each iteration", lambda s, cur=cur, w=w, v=v: E.forall(
                                0, k(s), lambda j: z3.Select(z3.Select(cur(s), w), j) == v(j),
                                pats=[lambda j: z3.Select(z3.Select(cur(s), w), j)]))
                    v = L.stored_at_k(key, w)
                    if v is not None:
                        out.append(("element stored by each iteration", lambda s, cur=cur, w=w, v=v: E.forall(
                            0, k(s), lambda j: z3.Select(z3.Select(cur(s), w), j) == v(j),
                            pats=[lambda j: z3.Select(z3.Select(cur(s), w), j)])))
                        out.append(("later elements untouched", lambda s, cur=cur, w=w, l0=l0, e0=e0: E.forall(
                            k(s), l0, lambda j: z3.Select(z3.Select(cur(s), w), j) == z3.Select(e0, j),
                            pats=[lambda j: z3.Select(z3.Select(cur(s), w), j)])))
            if key[0] == 'a' and sort == IntS:
                for w in inv:
                    at = lambda s, cur=cur, w=w: E.rd(s, cur(s), w)
                    v0 = at(st0)
                    out.append((f"{key[1]} counts iterations", lambda s, at=at, v0=v0: at(s) == v0 + k(s)))
                    out.append((f"{key[1]} grows", lambda s, at=at, v0=v0: at(s) >= v0))
                    if key[1] == '%pos':
                        ln = z3.Function('itlen', IntS, IntS)(w)
                        out.append(("iterator position within its stream", lambda s, at=at, ln=ln: z3.Or(ln < 0, at(s) <= ln)))
                    for cdelta in L.steps(lambda s, at=at: at(s)):
                        out.append((f"{key[1]} advances {cdelta} per iteration", lambda s, at=at, v0=v0, cdelta=cdelta: at(s) == v0 + cdelta * k(s)))
                    if '%y' in st0.ghost:
                        y0 = st0.ghost['%y']
                        out.append((f"{key[1]} advances with the yields", lambda s, at=at, v0=v0, y0=y0: at(s) - v0 == s.ghost['%y'] - y0))
            if key[0] == 'a' and var:
                v = L.attr_on_element(key)
                if v is not None:
                    idx, val = v
                    out.append((f"attribute {key[1]} set by each iteration", lambda s, cur=cur, idx=idx, val=val: E.forall(
                        0, k(s), lambda j: z3.Select(cur(s), idx(j)) == val(j))))
        return out


_ground_cache = {}


def only_constants(f):
    """an arithmetic relation between constants (no array, no function)"""
    stack = [f]
    while stack:
        x = stack.pop()
        if x.num_args() == 0:
            continue
        if x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
            return False
        stack.extend(x.children())
    return True


def is_ground(f):
    """no quantifier inside"""
    i = f.get_id()
    if i in _ground_cache and z3.eq(_ground_cache[i][0], f):
        return _ground_cache[i][1]
    seen, stack, g = set(), [f], True
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            g = False
            break
        stack.extend(x.children())
    _ground_cache[i] = (f, g)
    return g


def has_q(t):
    """mentions a bound-variable placeholder"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(('q!', 'kx!')):
            return True
        stack.extend(x.children())
    return False


def find_pats(body, j, limit=4):
    """terms f(.., j, ..) usable as instantiation patterns for j"""
    out, seen, stack = [], set(), [body]
    while stack and len(out) < limit:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        kd = x.decl().kind() if z3.is_app(x) else None
        ch = x.children()
        if kd in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and ch and any(z3.eq(c, j) for c in ch) and x.decl().name() != 'D':
            if kd != z3.Z3_OP_SELECT or not z3.is_store(x.arg(0)):
                if not any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in ch):
                    if not other_q(x, j):
                        out.append(x)
        stack.extend(ch)
    return out


def other_q(t, j):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.eq(x, j):
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('q!'):
            return True
        stack.extend(x.children())
    return False


def mentions(t, names):
    """does term t mention a constant in names?"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


class LoopInfo:
    """What a contract may look at when proposing invariants for a loop."""

    def __init__(self, E, entry, head, ends, kid, ix, mods, label, cx):
        self.E, self.entry, self.head, self.ends, self.kid, self.ix, self.mods, self.label, self.cx = \
            E, entry, head, ends, kid, ix, mods, label, cx

    def k(self, s):
        return s.ghost[self.kid]

    def steps(self, g):
        """constant change (other than 0 and 1) of an integer over one iteration, if all paths agree"""
        ds = set()
        try:
            for e in self.ends:
                d = z3.simplify(g(e) - g(self.head))
                ds.add(d.as_long() if z3.is_int_value(d) else None)
        except (Unsupported, KeyError, AttributeError):
            return []
        return [d for d in ds if d is not None and d not in (0, 1)] if len(ds) == 1 else []

    def locals(self, pred=None):
        """(frame, name, value at entry) of every variable visible in the loop's function."""
        for fid in (self.cx.fid,) + tuple(self.E.frame_parents(self.cx)):
            for nm, v in self.entry.frames.get(fid, {}).items():
                if pred is None or pred(v):
                    yield fid, nm, v

    def lists(self):
        """list-valued variables (entry value)"""
        for fid, nm, v in self.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList)):
            yield nm, v

    def mod_lists(self):
        """list-valued variables whose list the loop writes to, or that the loop rebinds"""
        for fid, nm, v in self.locals(lambda v: isinstance(v, VRef) and isinstance(v.p, PList)):
            if v.p.k is None:
                yield nm, v
                continue
            hit = ('v', fid, nm) in self.mods
            for key, refs in self.cells.items():
                if (key == ('len',) or key[:2] == ('el', v.p.k.key)) and (refs is None or any(z3.eq(z3.simplify(w), z3.simplify(v.t)) for w in refs)):
                    hit = True
            if hit:
                yield nm, v

    def ints(self):
        for fid, nm, v in self.locals(lambda v: isinstance(v, VInt)):
            yield (lambda s, fid=fid, nm=nm: s.frames[fid][nm].t), nm, v

    def reals(self):
        for fid, nm, v in self.locals(lambda v: isinstance(v, (VReal, VInt))):
            yield (lambda s, fid=fid, nm=nm: self.E.asreal(s.frames[fid][nm]).t), nm, v

    def havoc_syms(self):
        out = set()
        for m in self.mods:
            if m[0] == 'v':
                v = self.head.frames.get(m[1], {}).get(m[2])
                out |= consts_of(v)
            elif m[0] == 'heap':
                a = self.head.heap.get(m[1])
                if a is not None:
                    out |= consts_in(a)
            elif m[0] == 'alloc':
                out |= consts_in(self.head.alloc)
            elif m[0] == 'ghost':
                g = self.head.ghost.get(m[1])
                if g is not None:
                    out |= consts_in(g)
        return {n for n in out if n.startswith(('h_', 'hv', 'alloc!', 'g_'))} | self.fresh_in_body()

    def fresh_in_body(self):
        """constants created while executing the body are iteration-local"""
        lo = 0
        for nm in [x for m in self.mods for x in ()]:
            pass
        hs = []
        for s in [self.head]:
            hs.append(self.max_id(s))
        lo = max(hs) if hs else 0
        out = set()
        for e in self.ends:
            for a in e.heap.values():
                out |= {n for n in consts_in(a) if idnum(n) > lo}
        return out

    def max_id(self, s):
        mx = 0
        for a in s.heap.values():
            for n in consts_in(a):
                mx = max(mx, idnum(n))
        for g in s.ghost.values():
            for n in consts_in(g):
                mx = max(mx, idnum(n))
        for fr in s.frames.values():
            for v in fr.values():
                for n in consts_of(v):
                    mx = max(mx, idnum(n))
        for f in s.pc:
            pass
        return mx

    def written(self, key):
        """reference terms stored to in array `key` by one iteration (over all paths)"""
        head = self.head.heap.get(key)
        out = []
        for e in self.ends:
            a = e.heap.get(key)
            while a is not None and z3.is_store(a) and not (head is not None and z3.eq(a, head)):
                ix = a.arg(1)
                if not any(z3.eq(ix, w) for w in out):
                    out.append(ix)
                a = a.arg(0)
        return out

    def subst_k(self, t, extra=()):
        """t (a term of the head state) as a function of the iteration number, or None if it depends on other loop state"""
        hk = self.head.ghost.get(self.kid)
        if hk is None or z3.is_int_value(hk):
            return None
        syms = self.havoc_syms() - {str(hk)}
        # integer variables that count iterations
        subs = []
        for m in self.mods:
            if m[0] == 'v' and m[2] in self.entry.frames.get(m[1], {}):
                v0, v1 = self.entry.frames[m[1]][m[2]], self.head.frames[m[1]][m[2]]
                if isinstance(v0, VInt) and isinstance(v1, VInt):
                    if all(isinstance(e.frames[m[1]].get(m[2]), VInt) and
                           z3.is_true(z3.simplify(e.frames[m[1]][m[2]].t == v1.t + 1)) for e in self.ends):
                        subs.append((v1.t, v0.t + hk))
            if m[0] == 'ghost' and m[1] != self.kid:
                g0, g1 = self.entry.ghost.get(m[1]), self.head.ghost.get(m[1])
                if g0 is not None and g1 is not None and g0.sort() == IntS:
                    if all(e.ghost.get(m[1]) is not None and z3.is_true(z3.simplify(e.ghost[m[1]] == g1 + 1)) for e in self.ends):
                        subs.append((g1, g0 + hk))
        # integer attributes (iterator positions) that advance by one per iteration
        pre = []
        for m in self.mods:
            if m[0] == 'heap' and m[1][0] == 'a' and self.head.heap[m[1]].sort().range() == IntS:
                H = self.head.heap[m[1]]
                old = self.entry.heap.get(m[1])
                if old is None:
                    old = self.E.init_arrays[m[1]]
                for w in self.written(m[1]):
                    if mentions(w, syms):
                        continue
                    if all(e.heap.get(m[1]) is not None and z3.is_true(z3.simplify(z3.Select(e.heap[m[1]], w) == z3.Select(H, w) + 1)) for e in self.ends):
                        now = z3.simplify(z3.Select(old, w)) + hk
                        pre += [(z3.Select(H, w), now), (z3.simplify(z3.Select(H, w)), now)]
        if pre:
            t = z3.substitute(t, *pre)
        # heap arrays whose frame is unchanged for pre-existing objects: read through to the entry state
        for m in self.mods:
            if m[0] == 'heap':
                old = self.entry.heap.get(m[1])
                if old is None:
                    old = self.E.init_arrays[m[1]]
                subs.append((self.head.heap[m[1]], old))
        t2 = z3.substitute(t, *subs) if subs else t
        # positions of external iterators advance by one per iteration
        if mentions(t2, syms):
            return None
        return lambda j: z3.substitute(t2, (hk, j if not isinstance(j, int) else z3.IntVal(j)))

    def appended(self, key, w):
        """value appended to list w per iteration, as function of iteration number"""
        vals = []
        for e in self.ends:
            a = e.heap.get(key)
            inner = z3.simplify(z3.Select(a, w)) if a is not None else None
            if inner is None or not z3.is_store(inner):
                return None
            if z3.is_store(inner.arg(0)) and not mentions(inner.arg(0).arg(1), set()):
                # more than one append
                base = z3.simplify(z3.Select(self.head.heap[key], w))
                if not z3.eq(inner.arg(0), base):
                    return None
            vals.append(inner.arg(2))
        if not vals:
            return None
        t = vals[0]
        if any(not z3.eq(t, v) for v in vals[1:]):
            return None
        return self.subst_k(t)

    def stored_at_k(self, key, w):
        hk = self.head.ghost.get(self.kid)
        vals = []
        for e in self.ends:
            a = e.heap.get(key)
            inner = z3.simplify(z3.Select(a, w)) if a is not None else None
            if inner is None or not z3.is_store(inner):
                return None
            vals.append(inner.arg(2))
        if not vals or any(not z3.eq(vals[0], v) for v in vals[1:]):
            return None
        return self.subst_k(vals[0])

    def attr_on_element(self, key):
        idx = val = None
        for e in self.ends:
            a = e.heap.get(key)
            if a is None or not z3.is_store(a):
                return None
            if idx is None:
                idx, val = a.arg(1), a.arg(2)
            elif not z3.eq(idx, a.arg(1)) or not z3.eq(val, a.arg(2)):
                return None
        if idx is None:
            return None
        fi, fv = self.subst_k(idx), self.subst_k(val)
        if fi is None or fv is None:
            return None
        return fi, fv


def idnum(n):
    i = n.rfind('!')
    try:
        return int(n[i + 1:]) if i >= 0 else 0
    except ValueError:
        return 0


def consts_in(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return out


def consts_of(v):
    if v is None:
        return set()
    out = set()
    if isinstance(v, VTuple):
        for x in v.items:
            out |= consts_of(x)
        return out
    if isinstance(v, VMaybe):
        return consts_in(v.none) | consts_of(v.val)
    for a in ('t', 'nan'):
        x = getattr(v, a, None)
        if isinstance(x, z3.ExprRef):
            out |= consts_in(x)
    return out


BUILTIN_NAMES = {'len', 'range', 'min', 'max', 'sum', 'list', 'tuple', 'set', 'dict', 'zip', 'enumerate', 'isinstance', 'hasattr', 'getattr',
                 'abs', 'int', 'float', 'bool', 'str', 'sorted', 'reversed', 'all', 'any', 'next', 'iter', 'print', 'callable', 'type', 'round',
                 'map', 'filter', 'id', 'repr', 'object', 'super', 'Exception', 'slice', 'open', 'setattr'}
