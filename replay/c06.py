from lib import *
from gen import *
import io
import collections.abc
from toolz import curry
from leap_ec import ops, probe
from leap_ec.binary_rep import ops as bops
from leap_ec.real_rep import ops as rops
from leap_ec.int_rep import ops as iops
from leap_ec.segmented_rep import ops as sops
from leap_ec.multiobjective import ops as mops

OPS = 'leap_ec/ops.py'


def counting(items, log):
    for x in items:
        log.append(x)
        yield x


@case(OPS, weight=3)
def pooled(R):
    prob = Table(True)
    n = R.size(0, 12)
    pop = population(R, n, prob)
    size = R.choice((0, n, R.size(0, n + 2), 1))
    endless = R.flag(0.3) and n > 0
    log = []
    import itertools
    up = counting(itertools.cycle(pop) if endless else pop, log)
    R.note(n=n, size=size, endless=endless)
    if not endless and size > n:
        try:
            ops.pool(up, size)
        except (StopIteration, RuntimeError):
            return
        check(False, 'a pool larger than its source is not filled silently')
    res = ops.pool(up, size) if R.flag() else ops.pool(size=size)(up)
    check(isinstance(res, list), 'returns a list')
    check(len(res) == size and len(log) == size, 'takes exactly the requested number from upstream', len(res), len(log), size)
    check(all(a is b for a, b in zip(res, log)), 'the next individuals from upstream, in order')
    if endless:
        check(next(up) is pop[size % n], 'nothing is taken in advance')


@case(OPS, weight=2)
def whole_pipeline(R):
    """a full offspring pipeline: as many offspring as asked for, only individuals that passed every stage"""
    prob = Table(True)
    n = R.size(2, 8)
    pop = population(R, n, prob)
    size = R.size(0, 12)
    from toolz import pipe
    sel = R.choice((ops.tournament_selection, ops.random_selection, ops.cyclic_selection, ops.naive_cyclic_selection))
    seen = []

    def tap(nxt):
        for i in nxt:
            seen.append(i)
            yield i
    R.note(n=n, size=size)
    s0 = snapshot(pop)
    res = pipe(pop, sel, ops.clone, rops.mutate_gaussian(std=R.real(0, 2), expected_num_mutations='isotropic'), tap, ops.evaluate, ops.pool(size=size))
    check(len(res) == size and len(seen) == size, 'exactly the requested number of offspring is made', len(res), len(seen), size)
    check(all(a is b for a, b in zip(res, seen)), 'each stage hands on what it received, in order')
    check(not set(ids(res)) & set(ids(pop)) and len(set(ids(res))) == size, 'offspring are new individuals')
    check(same_snapshot(snapshot(pop), s0), 'the population the offspring come from is left as it was')
    check(all(r.fitness is not None for r in res), 'offspring are evaluated')


KINDS = {
    'iter': [('evaluate', ops.evaluate, {}), ('clone', ops.clone, {}), ('pool', ops.pool, dict(size=1)),
             ('mutate_bitflip', bops.mutate_bitflip, dict(expected_num_mutations=1)), ('mutate_gaussian', rops.mutate_gaussian, dict(std=1.0, expected_num_mutations=1)),
             ('mutate_randint', iops.mutate_randint, dict(bounds=[(0, 9)] * 8, expected_num_mutations=1)),
             ('mutate_binomial', iops.mutate_binomial, dict(std=1.0, bounds=[(0, 9)] * 8, expected_num_mutations=1)),
             ('apply_mutation', sops.apply_mutation, dict(mutator=lambda g, **kw: g, expected_num_mutations=1)),
             ('segmented_mutate', sops.segmented_mutate, dict(mutator_functions=[lambda g: g])),
             ('add_segment', sops.add_segment, dict(seq_initializer=lambda: [1], probability=1.0)),
             ('remove_segment', sops.remove_segment, dict(probability=1.0)), ('copy_segment', sops.copy_segment, dict(probability=1.0)),
             ('UniformCrossover', ops.UniformCrossover(), {}), ('NAryCrossover', ops.NAryCrossover(), {}),
             ('print_individual', probe.print_individual, dict(stream=io.StringIO()))],
    'list': [('grouped_evaluate', ops.grouped_evaluate, {}), ('const_evaluate', ops.const_evaluate, dict(value=1)),
             ('proportional_selection', ops.proportional_selection, {}), ('sus_selection', ops.sus_selection, {}),
             ('truncation_selection', ops.truncation_selection, dict(size=1)), ('elitist_survival', ops.elitist_survival, dict(parents=[])),
             ('tournament_selection', ops.tournament_selection, {}), ('insertion_selection', ops.insertion_selection, dict(parents=[])),
             ('naive_cyclic_selection', ops.naive_cyclic_selection, {}), ('cyclic_selection', ops.cyclic_selection, {}),
             ('random_selection', ops.random_selection, {}), ('sort_by_dominance', mops.sort_by_dominance, {}),
             ('fast_nondominated_sort', mops.fast_nondominated_sort, {}), ('rank_ordinal_sort', mops.rank_ordinal_sort, {}),
             ('crowding_distance_calc', mops.crowding_distance_calc, {}),
             ('print_probe', probe.print_probe, dict(probe=lambda population: '', stream=io.StringIO()))],
}


@case(OPS, weight=2)
def miswired(R):
    takes = R.choice(('iter', 'list'))
    nm, op, kw = R.choice(KINDS[takes])
    prob = Table(True)
    pop = population(R, R.size(1, 4), prob)
    bad = R.choice(('other', 'curry', 'none', 'tuple', 'number'))
    log = []
    x = {'other': counting(pop, log) if takes == 'list' else pop, 'curry': ops.pool(size=3), 'none': None, 'tuple': tuple(pop), 'number': 3}[bad]
    R.note(op=nm, given=bad)
    try:
        op(x, **kw)
    except ValueError:
        check(not log, 'a wrongly wired stage pulls nothing from upstream')
        return
    except Exception as e:
        check(False, f'{nm} given {bad} is refused with ValueError', repr(e))
    check(False, f'{nm} given {bad} is refused with ValueError')


@case(OPS, weight=2)
def decorators(R):
    """the four operator decorators: forward well-typed calls unchanged, refuse everything else with ValueError"""
    nm = R.choice(('iteriter_op', 'listlist_op', 'listiter_op', 'iterlist_op'))
    takes, gives = nm[:4], nm[4:8]
    mk = lambda w: {'iter': iter([1, 2]), 'list': [1, 2], 'none': None, 'tuple': (1, 2), 'number': 3, 'curry': ops.pool(size=1), 'gen': (i for i in range(2)), 'range': range(3)}[w]
    a, r = R.choice((takes, takes, 'iter', 'list', 'none', 'tuple', 'number', 'curry', 'gen', 'range')), R.choice((gives, gives, 'iter', 'list', 'none', 'tuple', 'number', 'gen'))
    A, X, Res = mk(a), object(), mk(r)
    ok = lambda w, kind: (kind == 'list' and w == 'list') or (kind == 'iter' and w in ('iter', 'gen'))
    calls = []

    def f(first, *args, **kw):
        """doc"""
        calls.append((first, args, kw))
        return Res
    g = getattr(ops, nm)(f)
    R.note(deco=nm, given=a, returns=r)
    try:
        res = g(A, X, opt=X)
    except ValueError:
        check(not (ok(a, takes) and ok(r, gives)), 'a well-typed call is accepted')
        check(ok(a, takes) or not calls, 'a wrong input never reaches the operator')
        return
    check(ok(a, takes) and ok(r, gives), 'a mis-typed call is refused')
    check(res is Res and len(calls) == 1 and calls[0][0] is A and calls[0][1] == (X,) and calls[0][2] == {'opt': X}, 'arguments and result are passed on unchanged')
    check(g.__name__ == 'f', 'the operator keeps its name')
