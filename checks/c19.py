"""C19 vec-transpose operators are reshapes that undo each other"""
from symx.harness import Case

MODS = ['sidetopics.util.vectrans', 'sidetopics.util.vt_fast']
BOUNDS = ("dense matrices of 1..3 blocks of 1..3 rows and 1..3 columns with every entry symbolic, C- and column-major and strided, double, single and whole "
          "numbers; sparse ones of every pattern of up to 6 positions and some larger; permutation matrices of shapes up to 4x3")


def entries(h, D, T, dtype, layout='C'):
    dt = getattr(h.np, dtype)
    gen = h.ints if dtype.startswith('int') or dtype.startswith('uint') else h.reals
    lo = 0 if dtype.startswith('uint') else -50
    if layout == 'strided':
        return gen('a', (2 * D, 2 * T), lo, 50, dtype=dt)[1::2, ::2]
    return gen('a', (D, T), lo, 50, dtype=dt, order=layout)


def dense(h, m, p, T, dtype, layout='C'):
    v = h.mod('sidetopics.util.vectrans')
    D = m * p
    A = entries(h, D, T, dtype, layout)
    before = h.snap(A)
    B = v.vec_transpose(A, p)
    h.same("the matrix is unchanged", A, before)
    h.check("shape", tuple(int(x) for x in B.shape) == (T * p, m))
    h.check("element type", h.np.dtype(B.dtype) == h.np.dtype(getattr(h.np, dtype)))
    for t in range(T):
        for r in range(p):
            for b in range(m):
                h.eq("column t reshaped to p rows, stacked", B[t * p + r, b], A[b * p + r, t])
    C = v.vec_transpose(B, p)
    h.same("applying it twice gives the matrix back", C, before)


def sparse(h, m, p, T, dtype, pat):
    v = h.mod('sidetopics.util.vectrans')
    D = m * p
    dt = getattr(h.np, dtype)
    gen = h.ints if dtype.startswith('int') or dtype.startswith('uint') else h.reals
    P = [[(h.choose('p%d%d' % (i, j), [0, 1]) if pat == 'any' else pat[i][j]) for j in range(T)] for i in range(D)]
    n = sum(map(sum, P))
    A = h.from_dense(P, gen('a', max(n, 1), 1, 50, dtype=dt), dtype=dt)
    before = h.snap(A)
    B = v.vec_transpose_csr(A, p)
    h.same("the matrix is unchanged", A, before)
    h.check("sparse in, sparse out", h.mod('sidetopics.util.vectrans').ssp.isspmatrix_csr(B) or B.format == 'csr')
    h.check("shape", tuple(int(x) for x in B.shape) == (T * p, m))
    h.check("element type", h.np.dtype(B.dtype) == h.np.dtype(dt))
    h.check("number of stored entries", int(B.nnz) == n)
    a, d = h.dense(A), h.dense(B)
    for t in range(T):
        for r in range(p):
            for b in range(m):
                h.eq("column t reshaped to p rows, stacked", d[t * p + r, b], a[b * p + r, t])
    C = v.vec_transpose_csr(B, p)
    h.same("applying it twice gives the matrix back", h.dense(C), a)


def vecop(h, D, T, layout, sp=False):
    v = h.mod('sidetopics.util.vectrans')
    A = entries(h, D, T, 'float64', layout)
    x = v.vec(A)
    h.check("one column", tuple(x.shape) == (D * T, 1))
    for t in range(T):
        for d in range(D):
            h.eq("columns stacked", x[t * D + d, 0], A[d, t])
    M = v.sp_vec_trans_matrix((D, T))
    h.check("shape of the permutation", tuple(M.shape) == (D * T, D * T))
    h.same("T vec(A) = vec(A')", M.dot(x), v.vec(A.T))
    N = v.sp_vec_trans_matrix((T, D))
    h.same("it undoes its counterpart", N.dot(M.dot(x)), x)
    for p in range(1, D + 1):
        if D % p == 0:
            B = v.vec_transpose(A, p)
            if p == D:
                h.same("one block: the vec-transpose is the vec", B, x)
            if p == 1:
                h.same("blocks of one row: the vec-transpose is the transpose", B, A.T)


def kron(h, m, n, r, s):
    """T (A x B) T' exchanges the operands of a Kronecker product"""
    v = h.mod('sidetopics.util.vectrans')
    A = h.reals('a', (m, n), -5, 5)
    B = h.reals('b', (r, s), -5, 5)

    def k(X, Y):
        a, b, c, d = X.shape[0], X.shape[1], Y.shape[0], Y.shape[1]
        return h.array([[X[i // c, j // d] * Y[i % c, j % d] for j in range(b * d)] for i in range(a * c)])
    L = h.dense(v.sp_vec_trans_matrix((r, m)))
    R = h.dense(v.sp_vec_trans_matrix((n, s)))
    h.eq("operands exchanged", L.dot(k(A, B)).dot(R), k(B, A))


def cases(tier):
    out = []
    big = tier == 'thorough'
    for dt in ('float64', 'float32', 'int64', 'int32', 'uint16'):
        for m, p, T in ((1, 1, 1), (2, 2, 2), (1, 3, 2), (3, 1, 2), (2, 3, 1), (3, 2, 3)) + (((4, 2, 3), (2, 4, 4), (5, 3, 2)) if big else ()):
            out.append(Case('dense:%s:%d:%d:%d' % (dt, m, p, T), dense, dict(m=m, p=p, T=T, dtype=dt)))
        for lay in ('F', 'strided') if dt.startswith('float') else ('strided',):
            out.append(Case('dense:%s:%s' % (dt, lay), dense, dict(m=2, p=3, T=2, dtype=dt, layout=lay)))
        for m, p, T in ((2, 1, 2), (1, 2, 2), (2, 2, 1)) + (((3, 2, 1), (1, 3, 2), (3, 1, 2)) if big else ()):
            out.append(Case('sparse:%s:%d:%d:%d' % (dt, m, p, T), sparse, dict(m=m, p=p, T=T, dtype=dt, pat='any')))
        for i, (m, p, T, pat) in enumerate((
                (2, 2, 3, [[1, 0, 1], [0, 0, 0], [0, 0, 0], [1, 1, 1]]),
                (3, 2, 2, [[0, 0], [1, 1], [0, 1], [0, 0], [1, 0], [0, 0]]),
                (2, 3, 2, [[0, 0], [0, 0], [1, 1], [0, 1], [1, 1], [0, 1]]))):
            out.append(Case('sparse:%s:%s' % (dt, 'abc'[i]), sparse, dict(m=m, p=p, T=T, dtype=dt, pat=pat)))
    for D, T in ((1, 1), (2, 2), (2, 3), (3, 2), (4, 3), (1, 3), (3, 1)) + (((6, 4), (5, 5), (12, 3)) if big else ()):
        for lay in ('C', 'F', 'strided'):
            out.append(Case('vec:%dx%d:%s' % (D, T, lay), vecop, dict(D=D, T=T, layout=lay)))
    for t in ((2, 2, 2, 2), (1, 2, 3, 2), (2, 3, 2, 1), (3, 2, 2, 2)):
        out.append(Case('kron:%d%d%d%d' % t, kron, dict(zip('mnrs', t))))
    return out
