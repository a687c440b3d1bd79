from lib import *
from gen import *
from leap_ec.problem import (ScalarProblem, FunctionProblem, ConstantProblem, AverageFitnessProblem, FitnessOffsetProblem, CooperativeProblem)
from leap_ec.real_rep.problems import SpheroidProblem, RastriginProblem
from leap_ec.binary_rep.problems import MaxOnes
from leap_ec.distrib.individual import DistributedIndividual
import leap_ec.real_rep.problems as rp

F = ('leap_ec/problem.py', 'leap_ec/individual.py')


def problem(R):
    mx = R.flag()
    return R.choice((
        lambda: Table(mx), lambda: FunctionProblem(lambda x: 0, mx), lambda: ConstantProblem(mx), lambda: SpheroidProblem(maximize=mx),
        lambda: MaxOnes(maximize=mx), lambda: RastriginProblem(maximize=mx), lambda: FitnessOffsetProblem(Table(mx), 3.0),
        lambda: AverageFitnessProblem(Table(mx), 2)))(), mx


def value(R):
    return fitness_value(R, nan=True)


def far(a, b):
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return True
    return a == b or abs(a - b) > 1e-6 * max(abs(a), abs(b))


def worse(mx, a, b):
    if math.isnan(a):
        return True
    if math.isnan(b):
        return False
    return a < b if mx else a > b


@case(*F)
def problem_order(R):
    p, mx = problem(R)
    a, b = value(R), value(R)
    if R.flag(0.15):
        b = a
    R.note(problem=type(p).__name__, maximize=mx, a=a, b=b)
    if not (math.isnan(a) and math.isnan(b)):
        w = p.worse_than(a, b)
        check(bool(w) == worse(mx, a, b), 'worse_than follows the direction of the problem, NaN worst', w)
    if far(a, b):
        e = p.equivalent(a, b)
        check(bool(e) == (a == b), 'equivalent means equal', e)
    # a rounding error apart
    c = R.real(-1e6, 1e6)
    d = c * (1 + R.choice((1, -1)) * R.real(0, 4e-16))
    check(p.equivalent(c, d), 'equal up to floating-point tolerance', c, d)
    check(p.equivalent(0.1 + 0.2, 0.3), 'equal up to floating-point tolerance')


@case(*F)
def individual_order(R):
    p, mx = problem(R)
    cls = R.choice((Individual, RobustIndividual, DistributedIndividual))
    x, y = [cls(np.array([1]), IdentityDecoder(), p) for _ in range(2)]
    a, b = value(R), value(R)
    if R.flag(0.2):
        b = a
    x.fitness, y.fitness = a, b
    R.note(cls=cls.__name__, maximize=mx, a=a, b=b)
    check(not (x == None) and not (x < None) and (x != None), 'never equal to or worse than None')
    check(x > None, 'better than None')
    if not far(a, b) or (math.isnan(a) and math.isnan(b)):
        return
    w, v = worse(mx, a, b), worse(mx, b, a)
    if math.isnan(a) != math.isnan(b):
        check((x < y) == w and (y < x) == v, 'a NaN individual is worse than any other', a, b)
        check((x > y) == v and (y > x) == w, 'greater means better', a, b)
        return
    check((x < y) == w, 'less means worse', a, b)
    check((x > y) == v, 'greater means better', a, b)
    check((x == y) == (a == b), 'equal means equal fitness')
    check((x <= y) == (not v) and (x >= y) == (not w), 'the order is total')
    check((x != y) == (a != b), '!= is the negation of ==')


@case(*F)
def best_worst(R):
    p, mx = problem(R)
    pop = population(R, R.size(1, 7), p, ints=R.flag())
    R.note(maximize=mx, f=[i.fitness for i in pop])
    if any(not far(i.fitness, j.fitness) for i in pop for j in pop):
        return
    b, w = max(pop), min(pop)
    fs = [i.fitness for i in pop]
    check(b.fitness == (max(fs) if mx else min(fs)), 'max() is the best individual')
    check(w.fitness == (min(fs) if mx else max(fs)), 'min() is the worst individual')
    s = sorted(pop)
    check([i.fitness for i in s] == sorted(fs, reverse=not mx), 'sorting orders worst to best')
