"""Contracts and the runner that discharges their obligations."""
import ast
import multiprocessing as mp
import os
import time
import traceback
import z3
from .vals import *
from . import vals
from .engine import Engine, St, Cx, Restart, Budget
from .source import Source


class Contract:
    """One function of the repository under contract."""
    prop = ''
    target = ''            # 'module:qualname'  (qualname may be Class.method or function)
    title = ''
    schema = {}
    specs = {}
    bmc_specs = None       # specs used by the bounded run (callees executed instead of assumed), default: specs
    globals_over = {}
    ind = None
    budget = 60            # seconds, proof mode
    bmc_budget = 40
    bmc_N = 2
    may_raise = ()         # exceptions the contract permits unconditionally
    axioms = ()
    bounded = False        # no proof attempted: the bounded run stands in (never counted as proved)

    # -- to be overridden
    def setup(self, E, st):
        """-> (args, kwargs); preconditions via st.assume"""
        raise NotImplementedError

    def post(self, E, st0, st, ret):
        return []

    def on_yield(self, E, st0, st, v, i):
        return []

    def on_exc(self, E, st0, st, exc):
        if exc.name in self.may_raise:
            return []
        return [(f"raises no {exc.name}", FALSE)]

    def cands(self, E, L):
        return []

    def callee(self, E, st, src):
        """the function value to execute"""
        mod, q = self.target.split(':')
        m = src.module(mod)
        parts = q.split('.')
        if len(parts) == 2:
            ci = m.lookup(parts[0])
            if ci is None or ci[0] != 'class':
                raise Unsupported(f"{self.target} not found")
            c, node = ci[1].find(parts[1])
            if node is None:
                raise Unsupported(f"{self.target} not found")
            return E.method_func(c, node)
        r = m.lookup(q)
        if r is None:
            raise Unsupported(f"{self.target} not found")
        return E.from_lookup(st, r)

    def drive(self, E, st, cx, src, args, kwargs, k):
        """how the function under contract is exercised (default: one call)"""
        f = self.callee(E, st, src)
        E.call(f, args, kwargs, st, cx, k)


def run_once(c, src, mode, N, hints, deadline, want_cover=False):
    vals._ctr[0] = 0
    E = Engine(src, mode=mode, N=N, hints=hints, deadline=deadline)
    E.schema = dict(c.schema)
    E.schema_fixed = set(k for k in c.schema if isinstance(k, tuple))
    for k, v in hints.items():
        if isinstance(k, tuple) and k[0] == 'attr':
            E.schema[(k[1], k[2])] = v
    E.skip_guesses = tuple(getattr(c, 'skip_guesses', ()))
    E.opaque_mul = getattr(c, 'opaque_mul', False)
    E.consts = dict(getattr(c, 'consts', None) or {})
    E.specs = dict(c.bmc_specs if mode == 'bmc' and c.bmc_specs is not None else c.specs)
    E.globals_over = dict(c.globals_over)
    E.cands = lambda E_, L: c.cands(E_, L)
    E.axioms = list(c.axioms)
    st = St()
    st.alloc = fresh('alloc0', IntS)
    st.assume(st.alloc >= 0)
    st.ghost['%y'] = z3.IntVal(0)
    E.cover = None
    args, kwargs = c.setup(E, st)
    r, _, _ = E.check(st.pc, timeout=5000)
    if r == 'unsat':
        raise RuntimeError(f"contract {c.__class__.__name__}: precondition unsatisfiable")
    st0 = st.fork()
    ends = []
    qn = c.target.split(':')[1]

    def cover(s, what):
        if want_cover and E.cover is None and not E.silent:
            rr, _, _ = E.check(s.pc, timeout=3000)
            if rr == 'sat':
                E.cover = what

    def settle(s, obs, what):
        for nm, f in obs:
            E.prove(s, f, f"{qn}: {nm}", where=what, keep=False)

    def on_ret(s, v):
        if isinstance(v, VGen):
            def yld(s2, item, resume):
                i = s2.ghost['%y']
                s3 = s2
                cover(s3, 'yield')
                settle(s3, c.on_yield(E, st0, s3, item, i), 'yield')
                s3.ghost['%y'] = z3.simplify(i + 1)
                if E.mode == 'bmc' and z3.is_int_value(s3.ghost['%y']) and s3.ghost['%y'].as_long() > N + 1:
                    return
                if hasattr(c, 'between'):
                    c.between(E, st0, s3)
                resume(s3)

            def gend(s2, vv=None):
                ends.append('end')
                settle(s2, c.post(E, st0, s2, NONE), 'end of generator')
            gcx = v.cx.but(yld=yld, ret=gend, exc=lambda s2, e: on_exc(s2, VExc('RuntimeError') if e.name == 'StopIteration' else e))
            return E.ex(v.f.node.body, 0, s, gcx, gend)
        ends.append('ret')
        cover(s, 'return')
        settle(s, c.post(E, st0, s, v), 'return')

    def on_exc(s, e):
        ends.append('exc')
        settle(s, c.on_exc(E, st0, s, e), f"exception {e.name}")

    cx = Cx(fid=None, depth=0, exc=on_exc, ret=on_ret)
    c.drive(E, st, cx, src, args, kwargs, on_ret)
    return E


def run_mode(c, src, mode, N, budget, want_cover=False):
    hints = {}
    deadline = time.time() + budget
    for i in range(30):
        try:
            return run_once(c, src, mode, N, hints, deadline, want_cover)
        except Restart:
            continue
    raise Unsupported("kind inference did not converge")


def summarise(E):
    obs = []
    for o in E.obligations:
        d = {k: o[k] for k in ('name', 'where', 'result', 'reason', 'secs')}
        if o['model'] is not None and o['result'] == 'refuted':
            d['model'] = str(o['model'])[:4000]
        obs.append(d)
    return dict(obligations=obs, solver_s=round(E.solver_s, 2), queries=E.queries, trusted=sorted(E.trusted),
                inlined=sorted(E.inlined), paths=E.paths, imprecise=E.imprecise, cover=E.cover)


def verify_contract(c, tier='quick', log=None):
    """-> dict with status: proved | refuted | undecided | unsupported"""
    out = dict(contract=c.__class__.__name__, target=c.target, title=c.title or (c.__doc__ or '').strip())
    t0 = time.time()
    src = Source()
    res = None
    try:
        if c.bounded and tier == 'quick':
            raise Unsupported('bounded stand-in only')
        E = run_mode(c, src, 'proof', 3, c.budget * (1 if tier == 'quick' else 4))
        res = summarise(E)
        bad = [o for o in res['obligations'] if o['result'] != 'proved']
        if not res['obligations']:
            out['status'] = 'unsupported'
            out['why'] = 'no obligation was generated'
        elif not bad:
            out['status'] = 'proved'
        else:
            out['status'] = 'undecided'
            out['failed'] = [dict(o, model=None) for o in bad]
        out['proof'] = res
    except Unsupported as e:
        out['status'], out['why'] = 'unsupported', str(e)
    except Budget as e:
        out['status'], out['why'] = 'undecided', str(e)
    except RecursionError:
        out['status'], out['why'] = 'unsupported', 'recursion limit'
    except Exception as e:       # an engine error is never a verdict
        out['status'], out['why'] = 'unsupported', 'engine: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' ' + \
            (traceback.extract_tb(e.__traceback__)[-1].name if e.__traceback__ else '')
        out['trace'] = traceback.format_exc()[-6000:]
    out['proof_s'] = round(time.time() - t0, 2)
    # bounded run: decides whether an undischarged obligation is really refuted, and that the contract is not vacuous
    t1 = time.time()
    try:
        if out['status'] != 'proved' or tier != 'quick' or os.environ.get('PYDV_COVER'):
            N = c.bmc_N + (1 if tier != 'quick' else 0)
            E = run_mode(c, src, 'bmc', N, c.bmc_budget * (1 if tier == 'quick' else 3), want_cover=True)
            b = summarise(E)
            ref = [o for o in b['obligations'] if o['result'] == 'refuted']
            out['bmc'] = dict(N=N, obligations=len(b['obligations']), refuted=ref[:3], cover=b['cover'], solver_s=b['solver_s'],
                              proved=len([o for o in b['obligations'] if o['result'] == 'proved']))
            if ref and not b['imprecise'] and out['status'] != 'proved':
                out['status'] = 'refuted'
                out['failed'] = ref
            elif ref and out['status'] == 'proved' and not b['imprecise']:
                out['inconsistent'] = ref[:1]       # engine self-check: proof and bounded run disagree
    except (Unsupported, Budget) as e:
        out['bmc'] = dict(why=str(e))
    except Exception as e:
        out['bmc'] = dict(why='engine: ' + repr(e)[:300], trace=traceback.format_exc()[-1500:])
    out['bmc_s'] = round(time.time() - t1, 2)
    return out


def _child(conn, c, tier):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import threading
        threading.stack_size(512 * 1024 * 1024)
        box = []

        def go():
            box.append(verify_contract(c, tier))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        conn.send(box[0] if box else dict(contract=c.__class__.__name__, target=c.target, status='unsupported', why='worker died'))
    except BaseException as e:
        try:
            conn.send(dict(contract=c.__class__.__name__, target=c.target, status='unsupported', why='worker: ' + repr(e)[:200]))
        except Exception:
            pass
    conn.close()


def verify_all(contracts, tier='quick', jobs=8, overall=600):
    """Run every contract in its own process (fork), with hard limits."""
    ctx = mp.get_context('fork')
    pending = list(contracts)
    running = []
    results = {}
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs and time.time() - t0 < overall:
            c = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, c, tier))
            p.start()
            b.close()
            lim = (c.budget + c.bmc_budget) * (1 if tier == 'quick' else 4) + 60
            running.append((c, p, a, time.time() + lim))
        nxt = []
        for c, p, a, dl in running:
            if a.poll(0):
                try:
                    results[c] = a.recv()
                except EOFError:
                    results[c] = dict(contract=c.__class__.__name__, target=c.target, status='unsupported', why='worker ended without a result')
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                results[c] = dict(contract=c.__class__.__name__, target=c.target, status='unsupported', why='worker died')
            elif time.time() > dl or time.time() - t0 > overall:
                p.kill()
                p.join()
                results[c] = dict(contract=c.__class__.__name__, target=c.target, status='undecided', why='time limit')
            else:
                nxt.append((c, p, a, dl))
        running = nxt
        if time.time() - t0 > overall and pending:
            for c in pending:
                results[c] = dict(contract=c.__class__.__name__, target=c.target, status='undecided', why='overall time limit')
            pending = []
        time.sleep(0.02)
    return [results[c] for c in contracts]
