"""C18 overflow-safe helpers equal the plain formula"""
from symx.harness import Case

MODELS = {'lda_vb_python': '_inplace_softmax_', 'rtm': '_inplace_softmax_', 'self_lda_vb_python': '_inplace_softmax_', 'mtm': '_inplace_softmax_'}
VECTORS = {'rtm': '_vec_softmax', 'mtm': 'softmax', 'mtm2': 'softmax', 'mtm3': 'softmax'}
MODS = ['sidetopics.model.' + x for x in sorted(set(MODELS) | set(VECTORS))] + ['sidetopics.util.overflow_safe', 'sidetopics.util.sigmoid_utils', 'sidetopics.util.array_utils', 'sidetopics.util.sparse_elementwise',
        'sidetopics.util.se_fast']
BOUNDS = ("arrays of up to 3x3 with every entry symbolic, each in any of the helper's segments (the solver chooses); softmax entries in [-30,30] moved "
          "by a symbolic amount of up to 10000, or up to 3000 apart (the shared helpers and those of four topic models); logarithms of reals from zero up, double, single and whole-number; determinants of 1x1 to 3x3 matrices; "
          "approximations compared with Taylor bounds of ln(1+u)")
ASSUMPTIONS = ["positive arguments of safe_log are at least the threshold below which it clips (the clipped branch is checked at zero)",
               "the exponential and the logarithm are real functions; u-u^2/2 <= ln(1+u) <= u and the series of ln((1+t)/(1-t)) bound them where the code approximates"]


def mod(h, n='overflow_safe'):
    m = h.mod('sidetopics.util.' + n)
    return m


def softmax(h, axis, D, K, dtype, out=None, shift=False, layout='C', wide=False):
    m = mod(h, 'sigmoid_utils')
    np = h.np
    dt = getattr(np, dtype)
    gen = h.ints if dtype.startswith('int') else h.reals
    X = gen('x', (D, K), *((-3000, 3000) if wide else (-20, 20)), dtype=dt, order='F' if layout == 'F' else 'C')
    base = X
    if shift:
        big = 1e4 if dtype == 'float64' else 500
        c = h.reals('c', D if axis == 1 else K, -big, big, dtype=dt)
        X = X + (c[:, np.newaxis] if axis == 1 else c[np.newaxis, :])
    fn = m.rowwise_softmax if axis == 1 else m.colwise_softmax
    before = h.snap(X)
    O = {None: None, 'new': h.zeros((D, K), dtype=dt), 'self': X}[out]
    R = h.no_overflow(lambda: fn(X, O) if O is not None else fn(X))
    if out is not None:
        h.check("the supplied output is the result", R is O)
    if out != 'self':
        h.same("the matrix is unchanged", X, before)
    h.check("shape", tuple(R.shape) == (D, K))
    src = base if shift else before
    for d in range(D):
        for k in range(K):
            line = [(d, j) for j in range(K)] if axis == 1 else [(j, k) for j in range(D)]
            if not wide:
                h.eq("softmax", R[d, k], h.exp(src[d, k]) / h.sum([h.exp(src[i, j]) for i, j in line]))
            h.le("probabilities are non-negative", 0, R[d, k])
    for a in range(D if axis == 1 else K):
        h.eq("probabilities sum to one", h.sum([R[a, j] for j in range(K)] if axis == 1 else [R[j, a] for j in range(D)]), 1)


def own(h, where, axis, D, K, wide, dtype='float64'):
    """the softmaxes that topic models bring along, in place; axis None: that of a vector"""
    m = h.mod('sidetopics.model.' + where)
    dt = getattr(h.np, dtype)
    if axis is None:
        D = 1
    X = h.reals('x', (D, K), *((-3000, 3000) if wide else (-20, 20)), dtype=dt)
    before = h.snap(X)
    if axis is None:
        R = [h.no_overflow(lambda: getattr(m, VECTORS[where])(X[0]))]
        h.same("the vector is unchanged", X, before)
        get, axis = (lambda d, k: R[0][k]), 1
    else:
        f = getattr(m, MODELS[where] + ('rowwise' if axis == 1 else 'colwise'))
        h.no_overflow(lambda: f(X))
        get = lambda d, k: X[d, k]
    for d in range(D):
        for k in range(K):
            line = [(d, j) for j in range(K)] if axis == 1 else [(j, k) for j in range(D)]
            if not wide:
                h.eq("softmax", get(d, k), h.exp(before[d, k]) / h.sum([h.exp(before[i, j]) for i, j in line]))
            h.le("probabilities are non-negative", 0, get(d, k))
    for a in range(D if axis == 1 else K):
        h.eq("probabilities sum to one", h.sum([get(a, j) for j in range(K)] if axis == 1 else [get(j, a) for j in range(D)]), 1)


def lse(h, where, D, K, dtype):
    m = mod(h, where)
    X = h.reals('x', (D, K), -30, 30, dtype=getattr(h.np, dtype))
    R = m.lse(X)
    h.check("one value per row", tuple(R.shape) == (D,))
    for d in range(D):
        h.eq("log-sum-exp of each row", R[d], h.log(h.sum([h.exp(X[d, k]) for k in range(K)])))


SEG = {'bouchard': [(-700, -17, 'u'), (-17, 0, 'in'), (0, 33, 'in'), (33, 1e6, 'x')],
       'very': [(-700, -36.8, 'u'), (-1.3862, 36.04, 'in'), (36.05, 1e6, 'x')],
       'f8': [(-700, -17, 'u'), (-17, 17, 'in'), (17, 33, 'hi'), (33, 1e6, 'x')],
       'f4': [(-80, -11, 'u'), (-11, 11, 'in'), (11, 13.79, 'hi'), (13.81, 1e5, 'x')]}


def ln1exp(h, which, shape, dtype='float64'):
    """ln(1+e^x), every entry in a segment of its own"""
    np = h.np
    dt = getattr(np, dtype)
    n = 1
    for s in shape:
        n *= s
    segs = [h.choose('seg%d' % i, list(range(len(SEG[which])))) for i in range(n)]
    vals = []
    eps = 1e-3
    for i in range(n):
        lo, hi, _ = SEG[which][segs[i]]
        v = h.real('x%d' % i, lo, hi, dtype=dt)
        h.assume(h.lt(lo, v) if not h.symbolic else h.lt(lo + eps, v))
        vals.append(v)
    X = h.array(vals, dtype=dt).reshape(shape)
    if which in ('f8', 'f4'):
        m = mod(h, 'se_fast')
        f = getattr(m, 'safe_log_one_plus_exp_' + which)
        R = [f(x) for x in h.flat(X)]
    else:
        before = h.snap(X)
        m = mod(h)
        f = m.safe_log_one_plus_exp_of if which == 'bouchard' else m._very_safe_log_one_plus_exp_of
        R = h.no_overflow(lambda: f(X), 710) if which == 'bouchard' else f(X)
        h.same("the argument is unchanged", X, before)
        h.check("shape", tuple(R.shape) == tuple(shape))
        R = h.flat(R)
    h.finite("finite", h.array(R))
    tol = 1e-6 if dtype == 'float64' else 1e-4
    for i in range(n):
        x, r = vals[i], R[i]
        kind = SEG[which][segs[i]][2]
        if kind == 'in':
            h.eq("ln(1+e^x)", r, h.log(1 + h.exp(x)))
            continue
        s, u = (0, h.exp(x)) if kind == 'u' else (x, h.exp(-x))
        hi = {'u': SEG[which][0][1], 'x': -SEG[which][-1][0], 'hi': -SEG[which][2][0]}[kind]
        from math import exp
        h.assume(h.le_(u, exp(hi) * 1.001))
        L = h.log(1 + u)
        slack = 0 if h.symbolic else 1e-6
        h.assume(h.le_(L, u + slack))
        h.assume(h.le_(u - u * u / 2, L + slack))
        h.eq("ln(1+e^x)", r, s + L, atol=tol)


def verymid(h):
    """below ln(1/4) the very safe helper approximates ln(1+u), u = e^x"""
    m = mod(h)
    u = h.real('u', 1e-6, 0.2499)
    X = h.array([h.log(u)])
    R = m._very_safe_log_one_plus_exp_of(X)
    S = m.safe_log_one_plus(h.array([u]))
    h.eq("ln(1+e^x) is the helper's ln(1+u) at u = e^x", R[0], S[0])


def ln1p(h, seg):
    m = mod(h)
    if seg == 'series':
        x = h.real('x', -0.3748, 0.3748)
        t = x / (x + 2)
        h.assume(h.and_(h.le_(-0.2307, t), h.le_(t, 0.1579)))
    elif seg == 'big':
        x = h.real('x', 0.376, 1e6)
    else:
        x = h.real('x', -0.999, -0.376)
    y = h.real('y', 0.5, 10)
    X = h.array([x, y])
    before = h.snap(X)
    R = m.safe_log_one_plus(X)
    h.same("the argument is unchanged", X, before)
    h.eq("ln(1+x)", R[1], h.log(1 + y))
    if seg != 'series':
        h.eq("ln(1+x)", R[0], h.log(1 + x))
        return
    # ln(1+x) = ln((1+t)/(1-t)) = 2(t + t^3/3 + ... + t^11/11) + r, |r| <= 1e-9 for these t
    s, p = 0, 1
    for k in range(6):
        s = s + p / (2 * k + 1)
        p = p * t * t
    h.eq("ln(1+x)", R[0], 2 * t * s, atol=1e-8 if h.symbolic else 2e-8)


def xlogx(h, n, dtype, zero):
    m = mod(h)
    gen = h.ints if dtype.startswith('int') else h.reals
    X = gen('x', n, 0 if zero else 1, 9, dtype=getattr(h.np, dtype))
    before = h.snap(X)
    R = h.flat(m.safe_x_log_x(X))
    h.same("the argument is unchanged", X, before)
    for x, r in zip(h.flat(X), R):
        if zero and h.is_zero(x):
            h.eq("0 ln 0 is zero", r, 0)
        else:
            h.eq("x ln x", r, x * h.log(x))


def safelog(h, shape, dtype, out=None, zero=True):
    m = mod(h)
    np = h.np
    dt = getattr(np, dtype)
    gen = h.ints if dtype.startswith('int') else h.reals
    X = gen('x', shape, 0 if zero else 1, 9, dtype=dt)
    if zero and not dtype.startswith('int'):
        for x in h.flat(X):
            h.assume(h.or_(h.is_eq(x, 0), h.le_(0.01, x)))
    before = h.snap(X)
    O = {None: None, 'new': h.zeros(shape, dtype=dt), 'self': X}[out]
    R = m.safe_log(X, O) if O is not None else m.safe_log(X)
    if out is not None:
        h.check("the supplied output is the result", R is O)
    if out != 'self':
        h.same("the argument is unchanged", X, before)
    h.check("shape", tuple(R.shape) == tuple(shape))
    h.finite("finite", R)
    tiny = 1E-35 if dtype == 'float32' else 1E-300
    for x, r in zip(h.flat(before), h.flat(R)):
        if zero and h.is_zero(x):
            h.eq("the logarithm of zero is that of a tiny number", r, h.log(tiny), atol=1e-3)
        else:
            h.eq("ln x", r, h.log(x))


def dets(h, n, what, sym):
    m = mod(h)
    np = h.np
    X = h.poss('x', (n, n), 0.01, 4) if what == 'diag' else h.reals('x', (n, n), -4, 4)
    if what == 'diag':
        h.eq("log-determinant of a diagonal matrix", m.lnDetOfDiagMat(X), h.sum([h.log(X[i, i]) for i in range(n)]))
        return
    if n == 1:
        d = X[0, 0]
    elif n == 2:
        d = X[0, 0] * X[1, 1] - X[0, 1] * X[1, 0]
    else:
        d = (X[0, 0] * (X[1, 1] * X[2, 2] - X[1, 2] * X[2, 1]) - X[0, 1] * (X[1, 0] * X[2, 2] - X[1, 2] * X[2, 0])
             + X[0, 2] * (X[1, 0] * X[2, 1] - X[1, 1] * X[2, 0]))
    if sym == 'pos':
        h.assume(h.le_(0.01, d))
    elif sym == 'neg':
        h.assume(h.le_(d, -0.01))
    before = h.snap(X)
    if what == 'safe':
        r = m.safeDet(X)
        if sym == 'pos':
            h.eq("determinant", r, d)
        else:
            h.eq("a negative determinant is replaced by a tiny positive number", r, 1e-300)
        h.check("the result is positive", h.lt(0, r))
    else:
        h.eq("log-determinant", m.safe_log_det(X), h.log(d))
    h.same("the argument is unchanged", X, before)


def singular(h, n):
    """a matrix with two equal rows"""
    m = mod(h)
    x = h.ints('x', n, 1, 4)
    row = h.flat(x)
    X = h.array([row, row] + ([[1] * n] if n == 3 else []), dtype=h.np.float64)
    r = m.safe_log_det(X) if n == 2 else None
    if r is not None:
        h.finite("the log-determinant of a singular matrix is finite", r)
        h.check("and that of a tiny number", h.le_(r, -20))
    s = m.safeDet(X)
    h.check("the determinant is positive", h.lt(0, s))
    h.check("the determinant is tiny", h.le_(s, 1e-9))


def normalize(h, D, K, dtype):
    m = mod(h, 'array_utils')
    X = h.reals('x', (D, K), 0, 9, dtype=getattr(h.np, dtype))
    for d in range(D):
        h.assume(h.le_(0.01, h.sum([X[d, k] for k in range(K)])))
    before = h.snap(X)
    R = m.normalizerows_ip(X)
    h.check("normalised in place", R is X)
    for d in range(D):
        n = h.sum([before[d, k] for k in range(K)])
        for k in range(K):
            h.eq("each entry divided by its row's sum", X[d, k], before[d, k] / n)
            h.le("non-negative", 0, X[d, k])
        h.eq("rows sum to one", h.sum([X[d, k] for k in range(K)]), 1)


def cases(tier):
    out = []

    def add(name, f, **kw):
        opt = {k: kw.pop(k) for k in ('budget', 'timeout') if k in kw}
        out.append(Case(name, f, kw, **opt))
    big = tier == 'thorough'
    for ax in (0, 1):
        for dt in ('float64', 'float32', 'int64'):
            for D, K in ((2, 2), (1, 3), (3, 1)) + (((2, 3), (3, 2)) if big else ()):
                add('softmax%d:%s:%dx%d' % (ax, dt, D, K), softmax, axis=ax, D=D, K=K, dtype=dt)
        for dt in ('float64', 'float32'):
            for o in ('new', 'self'):
                add('softmax%d:%s:out-%s' % (ax, dt, o), softmax, axis=ax, D=2, K=2, dtype=dt, out=o)
            add('softmax%d:%s:shift' % (ax, dt), softmax, axis=ax, D=2, K=2, dtype=dt, shift=True)
        add('softmax%d:wide' % ax, softmax, axis=ax, D=2 if ax else 3, K=3 if ax else 2, dtype='float64', wide=True)
        add('softmax%d:wide:int64' % ax, softmax, axis=ax, D=1 if ax else 2, K=2 if ax else 1, dtype='int64', wide=True)
        add('softmax%d:F' % ax, softmax, axis=ax, D=2, K=2, dtype='float64', layout='F')
    for name in MODELS:
        for ax in (0, 1):
            add('own%d:%s' % (ax, name), own, where=name, axis=ax, D=2, K=2, wide=False)
            add('own%d:%s:wide' % (ax, name), own, where=name, axis=ax, D=2 if ax else 3, K=3 if ax else 2, wide=True)
    for name in VECTORS:
        for wide in (False, True):
            add('vector:%s:%s' % (name, wide), own, where=name, axis=None, D=1, K=3, wide=wide)
    for w in ('sigmoid_utils', 'sparse_elementwise'):
        for dt in ('float64', 'float32'):
            add('lse:%s:%s' % (w, dt), lse, where=w, D=2, K=3, dtype=dt)
    add('ln1exp:bouchard', ln1exp, which='bouchard', shape=(2,))
    add('ln1exp:bouchard:2d', ln1exp, which='bouchard', shape=(1, 2))
    add('ln1exp:very', ln1exp, which='very', shape=(2,))
    add('ln1exp:f8', ln1exp, which='f8', shape=(1,))
    add('ln1exp:f4', ln1exp, which='f4', shape=(1,), dtype='float32')
    if big:
        add('ln1exp:bouchard:22', ln1exp, which='bouchard', shape=(3, 1))
        add('ln1exp:very:22', ln1exp, which='very', shape=(1, 3))
    add('verymid', verymid)
    for s in ('series', 'big', 'neg'):
        add('ln1p:' + s, ln1p, seg=s)
    for dt in ('float64', 'float32', 'int64'):
        for z in (False, True):
            add('xlogx:%s:%s' % (dt, z), xlogx, n=3, dtype=dt, zero=z)
            add('log:%s:%s' % (dt, z), safelog, shape=(3,), dtype=dt, zero=z)
        add('log:%s:2d' % dt, safelog, shape=(2, 2), dtype=dt)
        if dt != 'int64':
            for o in ('new', 'self'):
                add('log:%s:out-%s' % (dt, o), safelog, shape=(3,), dtype=dt, out=o)
    for n in (1, 2, 3):
        for sym in ('pos', 'neg'):
            add('det:%d:%s' % (n, sym), dets, n=n, what='safe', sym=sym)
        add('logdet:%d' % n, dets, n=n, what='log', sym='pos')
        add('diag:%d' % n, dets, n=n, what='diag', sym='pos')
    add('singular:2', singular, n=2)
    add('singular:3', singular, n=3)
    for dt in ('float64', 'float32'):
        add('normalize:' + dt, normalize, D=2, K=3, dtype=dt)
    return out
