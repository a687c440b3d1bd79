from lib import *
from gen import *
from leap_ec import util

U = 'leap_ec/util.py'


@case(U)
def generation(R):
    ctx = {'leap': {}}
    start = R.integer(-5, 50)
    told = []
    cbs = tuple(R.choice((told.append, lambda g: told.append(g))) for _ in range(R.size(0, 2, 3)))
    inc = util.inc_generation(start_generation=start, context=ctx, callbacks=cbs)
    n = R.size(0, 12)
    R.note(start=start, calls=n)
    check(inc.generation() == start and ctx['leap']['generation'] == start, 'starts where asked')
    for i in range(1, n + 1):
        r = inc()
        check(r == start + i and inc.generation() == start + i and ctx['leap']['generation'] == start + i, 'each call advances by one, everywhere', r, inc.generation(), ctx, start + i)
        check(told == [start + j for j in range(1, i + 1) for _ in cbs], 'each callback is told once per call', told)
    check(set(ctx['leap']) == {'generation'}, 'nothing else in the context changes')


@case(U)
def births(R):
    ctx = {'leap': {}}
    start = R.integer(-3, 30)
    told, heard = [], []
    cbs = [told.append for _ in range(R.size(0, 2, 3))]
    inc = util.inc_births(start=start, context=ctx, callbacks=cbs) if cbs or R.flag() else util.inc_births(start=start, context=ctx)
    want = start
    check(inc.births() == want and ctx['leap']['births'] == want, 'starts where asked')
    for _ in range(R.size(0, 12)):
        op = R.choice(('call', 'size', 'dec'))
        if op == 'call':
            r = inc()
            want += 1
        elif op == 'size':
            k = R.integer(0, 20)
            r = inc.do_increment(k) if R.flag() else inc(k)
            want += k
        else:
            r = inc.do_decrement()
            want -= 1
        if op != 'dec':
            heard += [want] * len(cbs)
            check(told == heard, 'each callback is told of every increment', told, heard)
        R.note(op=op)
        check(r == want and inc.births() == want and ctx['leap']['births'] == want, 'counter, context and result agree', r, inc.births(), ctx, want)


@case(U)
def two_counters(R):
    """counters on different contexts do not interfere"""
    c1, c2 = {'leap': {}}, {'leap': {}}
    a, b = util.inc_generation(context=c1), util.inc_generation(context=c2)
    x, y = util.inc_births(context=c1), util.inc_births(context=c2)
    w = [0, 0, 0, 0]
    for _ in range(R.size(0, 15)):
        i = R.randint(0, 3)
        (a, b, x, y)[i]()
        w[i] += 1
        check([c1['leap']['generation'], c2['leap']['generation'], c1['leap']['births'], c2['leap']['births']] == w, 'counters are independent', w)


@case(U)
def step(R):
    leap = {}
    g, b = R.choice((None, 0, R.integer(1, 99))), R.choice((None, 0, R.integer(1, 99)))
    if g is not None:
        leap['generation'] = g
    if b is not None:
        leap['births'] = b
    ug, ub = R.choice((None, None, True, False)), R.choice((None, None, True, False))
    R.note(context=leap, use_generation=ug, use_births=ub)
    if ug is None and ub is None:
        want = (g if b is None else None) if g is not None else b
    elif bool(ug) and not ub:
        want = g
    elif bool(ub) and not ug:
        want = b
    else:
        want = None
    try:
        r = util.get_step({'leap': leap}, use_generation=ug, use_births=ub)
    except AssertionError:
        check(want is None, 'a clear request is answered')
        return
    check(r == want if want is not None else r is None, 'the step asked for is returned', r, want)


@case(U, weight=2)
def branding(R):
    br = util.birth_brander()
    prob = Table(True)
    given, seen = {}, {}
    for _ in range(R.size(1, 4)):
        pop = population(R, R.size(0, 6), prob)
        for p in pop:
            if R.flag(0.2):
                p.birth = R.integer(-4, 40)
        pop = pop + R.sample(list(seen.values()), min(len(seen), 2))
        how = R.choice(('pop', 'list', 'iter'))
        before = {id(p): p.birth for p in pop if hasattr(p, 'birth')}
        R.note(how=how)
        res = br.brand_population(pop) if how == 'pop' else list(br(iter(pop) if how == 'iter' else pop))
        check(ids(res) == ids(pop), 'the same individuals are passed on, in order')
        for p in pop:
            seen[id(p)] = p
            if id(p) in before:
                check(p.birth == before[id(p)], 'a birth id is never overwritten')
            else:
                given.setdefault(id(p), p.birth)
                check(p.birth == given[id(p)], 'a birth id is never overwritten')
        check(sorted(given.values()) == list(range(len(given))), 'ids handed out are consecutive from zero and unique', sorted(given.values()))
