"""C17 functions of a low-rank product at the non-zeros of a sparse matrix equal the dense formula"""
from symx.harness import Case

MODS = ['sidetopics.util.sparse_elementwise', 'sidetopics.util.se_fast', 'sidetopics.util.overflow_safe', 'sidetopics.util.sigmoid_utils']
BOUNDS = ("sparse patterns of up to 4x4 (every pattern of 2x2; empty rows, unsorted columns, empty matrices), stored values symbolic reals or integers, "
          "factors symbolic with inner dimension 1..4; every row range start<=end of the matrix; single and double precision and the numpy fallbacks; "
          "C-ordered, strided and single-row/column factors; outputs absent, supplied for all rows, supplied for the range")
ASSUMPTIONS = ["products that are divided by are positive", "products below the smallest normal number are zero (the clip is checked for zero and positive products)"]

PATS = {
    'a': [[1, 0, 1], [0, 0, 0], [1, 1, 1]],
    'b': [[0, 1], [1, 1], [1, 0], [0, 0]],
    'c': [[1, 1, 1, 1]],
    'd': [[1], [0], [1]],
    'e': [[0, 0], [0, 0]],
}
TINY = {'float64': 2.2250738585072014e-308, 'float32': 1.1754943508222875e-38}


def sparse(h, pat, dtype, lo=-9, hi=9):
    """the matrix and its stored entries as (row, column, value)"""
    np = h.np
    if pat == 'all2':
        P = [[h.choose('p%d%d' % (i, j), [0, 1]) for j in range(2)] for i in range(2)]
    elif pat == 'unsorted':
        v = h.reals('a', 5, lo, hi)
        ind, ptr = [2, 0, 1, 2, 0], [0, 2, 3, 3, 5]
        A = h.csr(v, ind, ptr, (4, 3), dtype=getattr(np, dtype))
        fv = h.flat(A.data)
        return A, [(r, ind[i], fv[i]) for r in range(4) for i in range(ptr[r], ptr[r + 1])], ind, ptr
    else:
        P = PATS[pat]
    n = sum(map(sum, P))
    gen = h.ints if dtype.startswith('int') else h.reals
    A = h.from_dense(P, gen('a', max(n, 1), lo, hi), dtype=getattr(np, dtype))
    v = h.flat(A.data)
    ent, i, ptr, ind = [], 0, [0], []
    for r in range(len(P)):
        for c in range(len(P[0])):
            if P[r][c]:
                ent.append((r, c, v[i]))
                ind.append(c)
                i += 1
        ptr.append(i)
    return A, ent, ind, ptr


def factor(h, name, r, c, dtype, layout, lo, hi):
    np = h.np
    dt = getattr(np, dtype)
    gen = h.ints if dtype.startswith('int') else h.reals
    if layout == 'strided':
        big = gen(name, (r, 2 * c), lo, hi, dtype=dt)
        return big[:, ::2]
    if layout == 'rows':
        big = gen(name, (2 * r, c), lo, hi, dtype=dt)
        return big[1::2, :]
    return gen(name, (r, c), lo, hi, dtype=dt)


def dot(h, B, C, r, c, K, d=None):
    t = 0
    for k in range(K):
        t = t + B[r, k] * C[k, c] / (1 if d is None else d[k])
    return t


FN = {'prod': 'sparseScalarProductOfDot', 'quot': 'sparseScalarQuotientOfDot', 'norm': 'sparseScalarQuotientOfNormedDot',
      'ln': 'sparseScalarProductOfSafeLnDot'}


def kernel(h, fn, pat, K, dtype, layout='C', out=None, rng=None, zero=False, whole=True):
    """fn(A, B, C) at the stored entries; with a row range, B holds the rows of the range"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    se.WarnIfSlow = False
    np = h.np
    A, ent, ind, ptr = sparse(h, pat, dtype)
    D, T = A.shape
    start, end = 0, D
    kw = {}
    if rng == 'any':
        start = h.choose('start', list(range(D + 1)))
        end = h.choose('end', list(range(start, D + 1)))
        kw = dict(start=start, end=end)
    elif rng is not None:
        start, end = rng
        kw = dict(start=start, end=end)
    isint = dtype.startswith('int')
    lo, hi = (-5, 5) if fn == 'prod' else (1, 5) if isint else (0 if zero else 0.01, 5)
    B = factor(h, 'b', end - start, K, dtype, layout, lo, hi)
    C = factor(h, 'c', K, T, dtype, layout if layout != 'rows' else 'C', lo, hi)
    args = [B, C]
    d = None
    if fn == 'norm':
        d = h.reals('d', K, 0.1, 5, dtype=getattr(np, dtype))
        args.append(d)
    before = [h.snap(A), h.snap(B), h.snap(C)]
    if zero:       # products are zero or normal numbers
        for (r, c, v) in ent:
            if start <= r < end:
                for k in range(K):
                    for x in (B[r - start, k], C[k, c]):
                        h.assume(h.or_(h.is_eq(x, 0), h.le_(0.01, x)))
    O = None
    if out == 'full':
        O = h.csr(h.reals('o', max(len(ent), 1), -9, 9)[:len(ent)], ind, ptr, (D, T), dtype=getattr(np, dtype))
    elif out == 'slice':
        n = ptr[end] - ptr[start]
        O = h.csr(h.reals('o', max(n, 1), -9, 9)[:n], ind[ptr[start]:ptr[end]], [p - ptr[start] for p in ptr[start:end + 1]],
                  (end - start, T), dtype=getattr(np, dtype))
    elif out == 'self':
        O = A
    if O is not None:
        old = h.flat(h.snap(O.data))
        kw['out'] = O
    R = getattr(se, FN[fn])(A, *args, **kw)
    if O is not None:
        h.check("the supplied output is the result", R is O)
    if out != 'self':
        h.same("the sparse matrix is unchanged", A, before[0])
    h.same("the factors are unchanged", B, before[1])
    h.same("the factors are unchanged", C, before[2])
    full = out in ('full', 'self')
    h.check("shape of the result", tuple(R.shape) == ((D, T) if full else (end - start, T)))
    rp, base = [int(x) for x in h.flat(R.indptr)], 0 if full else ptr[start]
    h.check("the sparsity pattern is kept",
            rp == ([p for p in ptr] if full else [p - base for p in ptr[start:end + 1]])
            and [int(x) for x in h.flat(R.indices)] == ([c for c in ind] if full else ind[ptr[start]:ptr[end]]))
    h.check("element type of the result", np.dtype(R.dtype) == np.dtype(getattr(np, dtype)))
    got = h.flat(R.data)
    want = []
    for i, (r, c, v) in enumerate(ent):
        if not start <= r < end:
            if full:
                want.append(old[i])
            continue
        t = dot(h, B, C, r - start, c, K, d)
        if fn == 'prod':
            want.append(v * t)
        elif fn == 'ln':
            want.append(v * h.log(TINY[dtype]) if zero and h.is_zero(t) else v * h.log(t))
        else:
            want.append(v / t)
    h.check("number of stored entries", len(got) == len(want))
    for g, w in zip(got, want):
        h.eq("each stored entry has the dense formula's value", g, w, **(dict(atol=1e-3) if zero else {}))


def rejects(h, what):
    """column-major factors and sparse matrices of other formats are refused"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    fn = h.choose('fn', ['prod', 'quot', 'norm', 'ln'])
    A, _, _, _ = sparse(h, 'a', 'float64')
    B = h.reals('b', (3, 2), 1, 5, order='F' if what == 'B' else 'C')
    C = h.reals('c', (2, 3), 1, 5, order='F' if what == 'C' else 'C')
    if what == 'csc':
        A = A.tocsc()
    extra = [h.reals('d', 2, 1, 5)] if fn == 'norm' else []
    e = h.raises(lambda: getattr(se, FN[fn])(A, B, C, *extra), AssertionError)
    h.check("a layout the kernel cannot serve is refused", e is not None)


def mixed(h, which):
    """factors of another precision are refused, not misread"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    np = h.np
    fn = h.choose('fn', ['prod', 'quot', 'norm', 'ln'])
    A, _, _, _ = sparse(h, 'a', 'float64' if which != 'A' else 'float32')
    B = h.reals('b', (3, 2), 1, 5, dtype=np.float32 if which == 'B' else np.float64)
    C = h.reals('c', (2, 3), 1, 5, dtype=np.float32 if which == 'C' else np.float64)
    extra = [h.reals('d', 2, 1, 5)] if fn == 'norm' else []
    e = h.raises(lambda: getattr(se, FN[fn])(A, B, C, *extra), ValueError)
    h.check("mixed precisions are refused", e is not None)


def entropy(h, D, K, T, dtype, zero):
    se = h.mod('sidetopics.util.sparse_elementwise')
    se.WarnIfSlow = False
    dt = getattr(h.np, dtype)
    gen = h.ints if dtype.startswith('int') else h.reals
    Z = gen('z', (D, K), 0 if zero else 1, 5, dtype=dt)
    V = gen('v', (K, T), 0 if zero else 1, 5, dtype=dt)
    for d in range(D):
        h.assume(h.lt(0, h.sum([Z[d, k] for k in range(K)])))
    want = 0
    got = se.entropyOfDot(Z, V)
    for d in range(D):
        n = h.sum([Z[d, k] for k in range(K)])
        for k in range(K):
            for t in range(T):
                p = (Z[d, k] / n) * V[k, t]
                if zero and (h.is_zero(Z[d, k]) or h.is_zero(V[k, t])):
                    continue
                want = want - p * h.log(p)
    h.eq("entropy of the topics' word probabilities", got, want)


def entropy_py(h, D, K, T, zero):
    """the numpy fallback, used for other element types"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    se.WarnIfSlow = False
    Z = h.reals('z', (D, K), 0 if zero else 0.1, 5)
    V = h.reals('v', (K, T), 0 if zero else 0.1, 5)
    for d in range(D):
        h.assume(h.lt(0, h.sum([Z[d, k] for k in range(K)])))
    h.eq("the numpy and compiled entropies agree", se.entropyOfDot_py(Z, V), se.entropyOfDot(Z, V))


def sumln(h, D, T, dtype, seg):
    """sum of weighted ln(1+e^x): each x in one of the segments the kernel treats separately"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    dt = getattr(h.np, dtype)
    w = h.reals('w', D, -9, 9, dtype=dt)
    cut = {'float64': (-17, 17, 33), 'float32': (-11, 11, 13.79)}[dtype]
    lo, hi = {'mid': (cut[0] + 0.01, cut[1]), 'low': (-700 if dtype == 'float64' else -80, cut[0]),
              'high': (cut[1] + 0.01, cut[2]), 'top': (cut[2] + 0.02, 1e6)}[seg]
    X = h.reals('x', (D, T), lo, hi, dtype=dt)
    got = se.scaledSumOfLnOnePlusExp(w, X)
    if seg == 'mid':
        want = h.sum([w[d] * h.log(1 + h.exp(X[d, t])) for d in range(D) for t in range(T)])
        h.eq("weighted sum of ln(1+e^x)", got, want)
        return
    # elsewhere the kernel uses e^x, x + e^-x or x: bounds of ln(1+u): u - u*u/2 <= ln(1+u) <= u for u >= 0
    def want(row):
        return h.sum([row[d] * (u(X[d, t]) if seg == 'low' else X[d, t] + (u(X[d, t]) if seg == 'high' else 0))
                      for d in range(D) for t in range(T)])

    def u(x):
        return h.exp(x) if seg == 'low' else h.exp(-x)
    h.eq("weighted sum of the segment's approximation of ln(1+e^x)", got, want(w))


def lnexp(h, dtype, seg):
    """the segments' approximations are within float accuracy of ln(1+e^x)"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    dt = getattr(h.np, dtype)
    w = h.reals('w', 1, 0, 9, dtype=dt)
    cut = {'float64': (-17, 17, 33), 'float32': (-11, 11, 13.8)}[dtype]
    e = 0 if dtype == 'float64' else 0.01
    big = 700 if dtype == 'float64' else 80
    lo, hi = {'low': (-big, cut[0]), 'high': (cut[1] + 0.001, cut[2] - e), 'top': (cut[2] + e, big), 'mid': (cut[0] + 0.001, cut[1])}[seg]
    X = h.reals('x', (1, 1), lo, hi, dtype=dt)
    x = X[0, 0]
    got = se.scaledSumOfLnOnePlusExp(w, X)
    # ln(1+e^x) = s + ln(1+u) with (s,u) = (0,e^x) for x<=0, (x,e^-x) otherwise; u - u*u/2 <= ln(1+u) <= u for u>=0
    s, u = (0, h.exp(x)) if seg == 'low' else (x, h.exp(-x))
    if seg == 'mid':
        h.eq("ln(1+e^x)", got, w[0] * h.log(1 + h.exp(x)))
        return
    L = h.log(1 + u)
    slack = 0 if h.symbolic else 1e-9
    h.assume(h.le_(L, u + slack))
    h.assume(h.le_(u - u * u / 2, L + slack))
    top = {'float64': {'low': 4.14e-8, 'high': 4.14e-8, 'top': 4.66e-15}, 'float32': {'low': 1.671e-5, 'high': 1.671e-5, 'top': 1.0157e-6}}[dtype][seg]
    h.assume(h.le_(u, top * (1 + (0 if h.symbolic else 1e-3))))
    h.eq("ln(1+e^x)", got, w[0] * (s + L), atol={'float64': 1e-13, 'float32': 1e-5}[dtype] * (1 if h.symbolic else 20))


def other(h, pat, K, dtype, give):
    """A * B for a dense B of A's shape"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    se.WarnIfSlow = False
    A, ent, ind, ptr = sparse(h, pat, dtype)
    D, T = A.shape
    gen = h.ints if dtype.startswith('int') else h.reals
    B = gen('b', (D, T), -5, 5, dtype=getattr(h.np, dtype))
    O = None
    if give:
        O = h.csr(h.reals('o', max(len(ent), 1), -9, 9)[:len(ent)], ind, ptr, (D, T), dtype=getattr(h.np, dtype))
    before = h.snap(A)
    R = se.sparseScalarProductOf(A, B, O)
    h.same("the sparse matrix is unchanged", A, before)
    if give:
        h.check("the supplied output is the result", R is O)
    h.same("the sparsity pattern is kept", R.indices, A.indices)
    h.same("the sparsity pattern is kept", R.indptr, A.indptr)
    for g, (r, c, v) in zip(h.flat(R.data), ent):
        h.eq("each stored entry has the dense formula's value", g, v * B[r, c])
    rows, cols = se.csr_indices(A.indptr, A.indices)
    h.check("coordinates of the stored entries", [int(x) for x in rows] == [e[0] for e in ent] and [int(x) for x in cols] == [e[1] for e in ent])


def quot_py(h, pat, K, fn, give):
    """the numpy fallbacks agree with the compiled kernels"""
    se = h.mod('sidetopics.util.sparse_elementwise')
    se.WarnIfSlow = False
    A, ent, ind, ptr = sparse(h, pat, 'float64')
    D, T = A.shape
    B = h.reals('b', (D, K), 0.01, 5)
    C = h.reals('c', (K, T), 0.01, 5)
    O = h.csr(h.reals('o', max(len(ent), 1), -9, 9)[:len(ent)], ind, ptr, (D, T)) if give else None
    before = h.snap(A)
    R = getattr(se, '_' + FN[fn] + '_py')(A, B, C, O)
    h.same("the sparse matrix is unchanged", A, before)
    if give:
        h.check("the supplied output is the result", R is O)
    S = getattr(se, FN[fn])(A, B, C)
    h.same("the sparsity pattern is kept", R.indices, A.indices)
    h.same("the sparsity pattern is kept", R.indptr, A.indptr)
    h.eq("the numpy fallback agrees with the compiled code", R.data, S.data)


def cases(tier):
    out = []

    def add(name, f, **kw):
        opt = {k: kw.pop(k) for k in ('budget', 'timeout') if k in kw}
        out.append(Case(name, f, kw, **opt))
    for fn in ('prod', 'quot', 'norm', 'ln'):
        add('%s:all2:f8' % fn, kernel, fn=fn, pat='all2', K=2, dtype='float64')
        for pat, K in (('a', 2), ('b', 3), ('c', 1), ('d', 2), ('e', 2), ('unsorted', 2)):
            add('%s:%s:f8' % (fn, pat), kernel, fn=fn, pat=pat, K=K, dtype='float64')
            add('%s:%s:f4' % (fn, pat), kernel, fn=fn, pat=pat, K=K, dtype='float32')
        for layout in ('strided', 'rows'):
            for dt in ('float64', 'float32'):
                add('%s:%s:%s' % (fn, layout, dt), kernel, fn=fn, pat='a', K=2, dtype=dt, layout=layout)
        for o in ('full', 'self'):
            for dt in ('float64', 'float32'):
                add('%s:out-%s:%s' % (fn, o, dt), kernel, fn=fn, pat='a', K=2, dtype=dt, out=o)
        if tier == 'thorough':
            add('%s:all2:f4' % fn, kernel, fn=fn, pat='all2', K=3, dtype='float32')
            add('%s:a:K4' % fn, kernel, fn=fn, pat='a', K=4, dtype='float64')
    add('prod:int', kernel, fn='prod', pat='a', K=2, dtype='int64')
    add('prod:int:out', kernel, fn='prod', pat='b', K=2, dtype='int32', out='full')
    for fn in ('quot', 'ln'):
        for pat in ('a', 'b', 'unsorted'):
            for dt in ('float64', 'float32'):
                for o in (None, 'full', 'slice'):
                    add('%s:range:%s:%s:%s' % (fn, pat, dt, o), kernel, fn=fn, pat=pat, K=2, dtype=dt, rng='any', out=o)
    for dt in ('float64', 'float32'):
        add('ln:zero:%s' % dt, kernel, fn='ln', pat='b', K=1, dtype=dt, zero=True)
        add('ln:zero2:%s' % dt, kernel, fn='ln', pat='d', K=2, dtype=dt, zero=True)
        add('ln:zero:range:%s' % dt, kernel, fn='ln', pat='b', K=1, dtype=dt, zero=True, rng=(1, 3))
    for w in ('B', 'C', 'csc'):
        add('refused:' + w, rejects, what=w)
    for w in ('A', 'B', 'C'):
        add('mixed:' + w, mixed, which=w)
    for dt in ('float64', 'float32', 'int64'):
        add('entropy:%s' % dt, entropy, D=2, K=2, T=2, dtype=dt, zero=False)
        add('entropy:zero:%s' % dt, entropy, D=1, K=2, T=2, dtype=dt, zero=True)
        add('entropy:3:%s' % dt, entropy, D=1, K=3, T=2, dtype=dt, zero=False)
    add('entropy:py', entropy_py, D=2, K=2, T=3, zero=False)
    add('entropy:py:zero', entropy_py, D=1, K=2, T=2, zero=True)
    for dt in ('float64', 'float32'):
        for seg in ('mid', 'low', 'high', 'top'):
            add('sumln:%s:%s' % (dt, seg), sumln, D=2, T=2, dtype=dt, seg=seg)
            add('lnexp:%s:%s' % (dt, seg), lnexp, dtype=dt, seg=seg)
    for pat in ('a', 'b', 'e', 'unsorted'):
        for give in (False, True):
            add('other:%s:%s' % (pat, give), other, pat=pat, K=2, dtype='float64', give=give)
            if pat != 'e':
                for fn in ('quot', 'prod', 'ln'):
                    add('py:%s:%s:%s' % (fn, pat, give), quot_py, pat=pat, K=2, fn=fn, give=give)
    add('other:int', other, pat='a', K=2, dtype='int64', give=False)
    return out
