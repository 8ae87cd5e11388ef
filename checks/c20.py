"""C20 self dot-products with the softmax of each row, plain and scaled"""
from symx.harness import Case

MODS = ['sidetopics.util.sigmoid_utils', 'sidetopics.util.sig_fast', 'sidetopics.util.sparse_elementwise']
BOUNDS = ("matrices of 1..3 rows and 1..3 columns with every entry symbolic in [-30,30], moved by a symbolic amount of up to 10000, or up to 5000 in size; "
          "scales symbolic (any sign; 8 and 4 byte reals, 8 and 4 byte whole numbers); double, single and whole-number matrices; "
          "contiguous, strided and column-major")


def matrix(h, D, K, dtype, layout):
    dt = getattr(h.np, dtype)
    gen = h.ints if dtype.startswith('int') else h.reals
    if layout == 'F':
        return gen('x', (D, K), -30, 30, dtype=dt, order='F')
    if layout == 'strided':
        return gen('x', (2 * D, 2 * K), -30, 30, dtype=dt)[::2, 1::2]
    return gen('x', (D, K), -30, 30, dtype=dt)


def oracle(h, X, D, K, scale=None):
    t = 0
    for d in range(D):
        es = [h.exp(X[d, k]) for k in range(K)]
        t = t + (1 if scale is None else scale[d]) * h.sum([e * X[d, k] for k, e in enumerate(es)]) / h.sum(es)
    return t


def plain(h, D, K, dtype, layout='C', where='sigmoid_utils'):
    m = h.mod('sidetopics.util.' + where)
    m.WarnIfSlow = False
    X = matrix(h, D, K, dtype, layout)
    before = h.snap(X)
    got = m.selfSoftDot(X)
    h.same("the matrix is unchanged", X, before)
    h.eq("sum of each row's dot product with its softmax", got, oracle(h, X, D, K))


def scaled(h, D, K, dtype, sdtype, layout='C'):
    m = h.mod('sidetopics.util.sigmoid_utils')
    m.WarnIfSlow = False
    X = matrix(h, D, K, dtype, layout)
    dt = getattr(h.np, sdtype)
    s = (h.ints if sdtype.startswith('int') else h.reals)('s', D, -9, 9, dtype=dt)
    before, sb = h.snap(X), h.snap(s)
    got = m.scaledSelfSoftDot(X, s)
    h.same("the matrix is unchanged", X, before)
    h.same("the scale is unchanged", s, sb)
    h.eq("weighted sum of each row's dot product with its softmax", got, oracle(h, X, D, K, s))


def shifted(h, D, K, dtype, sdtype):
    """large entries: no overflow, and moving a row by c moves its term by c"""
    m = h.mod('sidetopics.util.sigmoid_utils')
    m.WarnIfSlow = False
    dt = getattr(h.np, dtype)
    X = h.reals('x', (D, K), -20, 20, dtype=dt)
    big = 1e4 if dtype == 'float64' else 500
    c = h.reals('c', D, -big, big, dtype=dt)
    Y = X + c[:, h.np.newaxis]
    if sdtype is None:
        got = h.no_overflow(lambda: m.selfSoftDot(Y))
        want = oracle(h, X, D, K) + h.sum([c[d] for d in range(D)])
    else:
        s = (h.ints if sdtype.startswith('int') else h.reals)('s', D, 0, 9, dtype=getattr(h.np, sdtype))
        got = h.no_overflow(lambda: m.scaledSelfSoftDot(Y, s))
        want = oracle(h, X, D, K, s) + h.sum([s[d] * c[d] for d in range(D)])
    h.finite("result of large entries", got)
    h.eq("large entries", got, want)


def wide(h, D, K, sdtype):
    """rows, and entries of a row, of very different size"""
    m = h.mod('sidetopics.util.sigmoid_utils')
    m.WarnIfSlow = False
    X = h.reals('x', (D, K), -5000, 5000)
    if sdtype is None:
        got = h.no_overflow(lambda: m.selfSoftDot(X))
    else:
        s = h.reals('s', D, 0, 9)
        got = h.no_overflow(lambda: m.scaledSelfSoftDot(X, s))
    h.finite("result of entries of very different size", got)
    # between the largest and the smallest entry of each row, and nothing smaller weighs in
    tops = [h.max(*[X[d, k] for k in range(K)]) for d in range(D)]
    if sdtype is None:
        h.le("at most the sum of the largest entries", got, h.sum(tops) + 1e-6)


def cases(tier):
    out = []
    big = tier == 'thorough'
    for dt in ('float64', 'float32', 'int64', 'int32'):
        for D, K in ((1, 1), (2, 2), (1, 3), (3, 1)) + (((3, 2), (2, 3)) if big else ()):
            out.append(Case('plain:%s:%dx%d' % (dt, D, K), plain, dict(D=D, K=K, dtype=dt)))
            for sd in ('float64', 'float32', 'int64', 'int32'):
                out.append(Case('scaled:%s:%s:%dx%d' % (dt, sd, D, K), scaled, dict(D=D, K=K, dtype=dt, sdtype=sd)))
        for lay in ('F', 'strided'):
            out.append(Case('plain:%s:%s' % (dt, lay), plain, dict(D=2, K=2, dtype=dt, layout=lay)))
            out.append(Case('scaled:%s:%s' % (dt, lay), scaled, dict(D=2, K=2, dtype=dt, sdtype='float64', layout=lay)))
        out.append(Case('plain:%s:se' % dt, plain, dict(D=2, K=2, dtype=dt, where='sparse_elementwise')))
    for sd in (None, 'float64'):
        for D, K in ((1, 2), (2, 2)) + (((1, 3), (3, 2)) if big else ((2, 1),)):
            out.append(Case('wide:%s:%dx%d' % (sd, D, K), wide, dict(D=D, K=K, sdtype=sd)))
    for dt in ('float64', 'float32'):
        for sd in (None, 'float64', 'int64'):
            out.append(Case('shifted:%s:%s' % (dt, sd), shifted, dict(D=2, K=2, dtype=dt, sdtype=sd)))
    return out
