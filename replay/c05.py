from lib import *
from gen import *
from leap_ec import ops

OPS = 'leap_ec/ops.py'


def best_of(prob, pool, size, res, key=None):
    val = (lambda i: key(i)) if key else (lambda i: i.fitness)
    bt = (lambda a, b: a > b) if key else (lambda a, b: better(prob, a, b))
    check(len(res) == min(size, len(pool)), 'result has min(size, pool) individuals', len(res), size, len(pool))
    pid = ids(pool)
    check(all(id(r) in pid for r in res), 'every survivor comes from the pool')
    check(len(set(ids(res))) == len(res), 'no individual survives twice')
    for p in pool:
        if id(p) not in ids(res):
            for r in res:
                check(not bt(val(p), val(r)), 'an eliminated individual is better than a survivor', val(p), val(r))


@case(OPS)
def truncation(R):
    prob = Table(R.flag())
    n, m = R.size(0, 9), R.size(0, 7)
    nan = R.flag(0.3)
    off = population(R, n, prob, nan=nan, ints=R.flag(0.4))
    par = population(R, m, prob, nan=nan, ints=R.flag(0.4)) if R.flag() else None
    size = R.choice((n, 0, 1, R.size(0, n + m + 2)))
    key = R.choice((None, None, lambda i: len(i.genome), lambda i: -len(i.genome)))
    R.note(off=[i.fitness for i in off], par=None if par is None else [i.fitness for i in par], size=size, maximize=prob.maximize, key=key is not None)
    s0, s1 = snapshot(off), snapshot(par or [])
    kw = dict(size=size)
    if par is not None:
        kw['parents'] = par
    if key:
        kw['key'] = key
    res = ops.truncation_selection(off, **kw) if R.flag() else ops.truncation_selection(**kw)(off)
    check(same_snapshot(snapshot(off), s0) and same_snapshot(snapshot(par or []), s1), "the caller's populations are left as they were")
    best_of(prob, off + (par or []), size, res, key)
    val, bt = (key, lambda a, b: a > b) if key else (lambda i: i.fitness, lambda a, b: better(prob, a, b))
    check(not any(bt(val(b), val(a)) for a, b in zip(res, res[1:])), 'the survivors come out best first', [val(i) for i in res])


@case(OPS)
def elitist(R):
    prob = Table(R.flag())
    n, m = R.size(0, 9), R.size(0, 9)
    off = population(R, n, prob, ints=R.flag(0.4))
    par = population(R, m, prob, ints=R.flag(0.4))
    k = R.choice((1, 0, 2, m, R.size(0, m + 2)))
    key = R.choice((None, None, lambda i: float(np.sum(i.genome))))
    val = key or (lambda i: i.fitness)
    bt = (lambda a, b: a > b) if key else (lambda a, b: better(prob, a, b))
    R.note(off=[val(i) for i in off], par=[val(i) for i in par], k=k, maximize=prob.maximize, key=key is not None)
    o0, p0 = list(off), snapshot(par)
    kw = dict(parents=par, k=k)
    if key:
        kw['key'] = key
    elif R.flag(0.3):
        kw['key'] = None
    res = ops.elitist_survival(off, **kw) if R.flag() else ops.elitist_survival(**kw)(off)
    check(same_snapshot(snapshot(par), p0), "the parents' list is left as it was")
    check(len(res) == n, 'population size is that of the offspring', len(res), n)
    check(all(id(r) in ids(o0) + ids(par) for r in res), 'every survivor is an offspring or a parent')
    check(len(set(ids(res))) == len(res), 'no individual survives twice')
    for p in o0:
        if id(p) not in ids(res):
            check(not any(bt(val(p), val(r)) for r in res), 'no eliminated offspring is better than a survivor', val(p), [val(r) for r in res])
    if k >= 1 and n >= 1:
        for p in par:
            check(any(not bt(val(p), val(r)) for r in res), 'the best parent is not lost', val(p), [val(r) for r in res])
    np_ = sum(1 for r in res if id(r) in ids(par))
    check(np_ <= k, 'at most k parents survive', np_, k)
    # the k best parents compete: a better parent among the k best is not eliminated for something worse
    for p in par:
        if sum(1 for q in par if not bt(val(p), val(q)) and q is not p) < k and id(p) not in ids(res):
            check(not any(bt(val(p), val(r)) for r in res), 'an elite parent is eliminated although better than a survivor', val(p))


@case(OPS)
def insertion(R):
    prob = Table(R.flag())
    n, m = R.size(0, 8), R.size(1, 8)
    off = population(R, n, prob, ints=R.flag(0.4))
    par = population(R, m, prob, ints=R.flag(0.4))
    key = R.choice((None, None, lambda i: float(np.sum(i.genome))))
    val = key or (lambda i: i.fitness)
    bt = (lambda a, b: a > b) if key else (lambda a, b: better(prob, a, b))
    R.note(off=[val(i) for i in off], par=[val(i) for i in par], maximize=prob.maximize, key=key is not None)
    o0, p0 = snapshot(off), snapshot(par)
    kw = dict(parents=par)
    if key:
        kw['key'] = key
    res = ops.insertion_selection(off, **kw) if R.flag() else ops.insertion_selection(**kw)(off)
    check(same_snapshot(snapshot(par), p0) and same_snapshot(snapshot(off), o0), 'the populations given are left as they were')
    check(len(res) == m, 'as many survivors as parents')
    for r, p in zip(res, par):
        check(r is p or id(r) in ids(off), 'each slot holds its parent or an offspring')
        check(not bt(val(p), val(r)), 'no slot gets worse', val(p), val(r))
    for o in off:
        check(any(not bt(val(o), val(r)) for r in res), 'every offspring competes', val(o), [val(r) for r in res])
