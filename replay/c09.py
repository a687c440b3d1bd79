from lib import *
from gen import *
from leap_ec.binary_rep.decoders import BinaryToIntDecoder, BinaryToIntGreyDecoder, BinaryToRealDecoder, BinaryToRealGreyDecoder

F = ('leap_ec/binary_rep/decoders.py',)


def number(bits):
    r = 0
    for b in bits:
        r = 2 * r + int(b)
    return r


def from_gray(bits):
    out, acc = [], 0
    for b in bits:
        acc ^= int(b)
        out.append(acc)
    return number(out)


def widths(R):
    w = [R.choice((1, 2, 3, R.randint(1, 8), R.randint(1, 30))) for _ in range(R.size(1, 6))]
    if R.flag(0.1):
        w[R.randint(0, len(w) - 1)] = R.choice((31, 32, 33, 48, 52))
    return w


def genome(R, n):
    mode = R.choice(('random', 'random', 'random', 'zeros', 'ones', 'one'))
    g = np.array([R.randint(0, 1) for _ in range(n)] if mode == 'random' else [int(mode == 'ones')] * n, dtype=R.choice((int, np.int64, bool, np.uint8)) if mode != 'one' else int)
    if mode == 'one' and n:
        g[R.randint(0, n - 1)] = 1
    if g.dtype == bool or g.dtype == np.uint8:
        g = g.astype(int)
    return g


def cut(g, w):
    out, o = [], 0
    for d in w:
        out.append(g[o:o + d])
        o += d
    return out


@case(*F, weight=2)
def integers(R):
    w = widths(R)
    gray = R.flag()
    dec = (BinaryToIntGreyDecoder if gray else BinaryToIntDecoder)(*w)
    R.note(widths=w, gray=gray)
    for _ in range(R.randint(1, 4)):
        g = genome(R, sum(w))
        old = g.copy()
        v = dec.decode(g)
        check(isinstance(v, np.ndarray) and v.shape == (len(w),), 'one value per segment', v)
        want = [(from_gray if gray else number)(s) for s in cut(old, w)]
        check([int(x) for x in v] == want, 'each value is that of its own segment', old.tolist(), v, want)
        check(all(float(x) == int(x) for x in v), 'values are integers')
        check(np.array_equal(g, old), 'the genome is left alone')
        check(not np.shares_memory(v, g), 'the result shares nothing with the genome')
        keep = v.copy()
        w2 = dec.decode(g)
        check(np.array_equal(w2, keep) and np.array_equal(v, keep), 'decoding again gives the same')
        w2[:] = 0
        check(np.array_equal(v, keep), 'results are independent of each other')


@case(*F)
def gray_steps(R):
    """all codes of one width: a bijection, and neighbours differ in one bit"""
    d = R.randint(1, 6)
    dec = BinaryToIntGreyDecoder(d)
    plain = BinaryToIntDecoder(d)
    val = {}
    for i in range(2 ** d):
        bits = [(i >> (d - 1 - j)) & 1 for j in range(d)]
        check(int(plain.decode(np.array(bits))[0]) == i, 'plain decoding reads binary numbers', bits)
        val[int(dec.decode(np.array(bits))[0])] = bits
    check(sorted(val) == list(range(2 ** d)), 'Gray decoding reaches every value once', d)
    for i in range(2 ** d - 1):
        check(sum(a != b for a, b in zip(val[i], val[i + 1])) == 1, 'neighbouring values differ in one bit', i, val[i], val[i + 1])


@case(*F, weight=2)
def reals(R):
    w = widths(R)
    segs = []
    for d in w:
        lo = R.choice((R.uniform(-10, 10), float(R.randint(-5, 5)), 0.0))
        segs.append((d, lo, lo + R.choice((0.0, 1.0, R.uniform(0, 20), 1e-3, 1e6))) if R.flag(0.8) else (d, int(lo), int(lo) + R.randint(0, 9)))
    gray = R.flag()
    dec = (BinaryToRealGreyDecoder if gray else BinaryToRealDecoder)(*segs)
    R.note(segments=segs, gray=gray)
    for _ in range(R.randint(1, 3)):
        g = genome(R, sum(w))
        old = g.copy()
        v = dec.decode(g)
        check(isinstance(v, np.ndarray) and v.shape == (len(w),), 'one value per segment', v)
        for x, (d, lo, hi), s in zip(v, segs, cut(old, w)):
            k = (from_gray if gray else number)(s)
            tol = 1e-9 * max(1.0, abs(lo), abs(hi))
            check(lo - tol <= x <= hi + tol, 'values lie within their bounds', x, (d, lo, hi))
            check(abs(x - (lo + k * (hi - lo) / (2 ** d - 1))) <= tol, 'a value lies at its integer\'s place between the bounds', x, (d, lo, hi), k)
        check(np.array_equal(g, old), 'the genome is left alone')
        check(np.array_equal(dec.decode(g), v), 'decoding again gives the same')


@case(*F, every=3)
def rejected(R):
    n = R.randint(0, 3)
    segs = [(R.randint(1, 4), 0.0, 1.0) for _ in range(n)]
    segs.insert(R.randint(0, n), R.choice(((3, 0.0), (3,), (3, 0.0, 1.0, 2.0))))
    for C in (BinaryToRealDecoder, BinaryToRealGreyDecoder):
        raises(ValueError, lambda C=C: C(*segs))
    for C in (BinaryToIntDecoder, BinaryToIntGreyDecoder):
        raises(ValueError, lambda: C(2).decode([0, 1]))
