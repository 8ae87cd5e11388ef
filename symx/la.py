"""determinants, inverses and linear systems of small symbolic matrices (exact, by cofactors)"""
import itertools
import math
import numpy as np
from . import core, arr


class LinAlgError(np.linalg.LinAlgError):
    pass


def _mat(x):
    a = arr.SArr.of(x)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return a


def _det(o):
    n = o.shape[0]
    if n == 0:
        return core.lift(1)
    if n > 4:
        raise core.Unsupported("determinant of a %dx%d matrix" % (n, n))
    t = core.lift(0)
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        m = core.lift(s)
        for i in range(n):
            m = core.mul(m, core.lift(o[i, p[i]]))
        t = core.add(t, m)
    return t


def det(a, *_, **k):
    return _det(_mat(a).a)


def _known(b):
    return core.ctx().branch(core.as_bool(b))


def slogdet(a):
    d = det(a)
    if _known(core.cmp_(d, core.lift(0), '==')):
        return core.lift(0), core.Sym(-math.inf, None, 'r', np.dtype(float))
    if _known(core.cmp_(d, core.lift(0), '>')):
        return core.lift(1), core.log_(d)
    return core.lift(-1), core.log_(core.sub(core.lift(0), d))


def _cof(o, i, j):
    n = o.shape[0]
    r = [x for x in range(n) if x != i]
    c = [x for x in range(n) if x != j]
    m = _det(o[np.ix_(r, c)])
    return m if (i + j) % 2 == 0 else core.sub(core.lift(0), m)


def inv(a, *_, **k):
    x = _mat(a)
    n = x.shape[0]
    d = _det(x.a)
    if _known(core.cmp_(d, core.lift(0), '==')):
        raise np.linalg.LinAlgError("Singular matrix")
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            o[i, j] = core.div(_cof(x.a, j, i), d)
    return arr.SArr.wrap(o, x.dtype if x.dtype.kind == 'f' else np.float64)


def solve(a, b, *_, **k):
    return inv(a).dot(arr.SArr.of(b))


def cholesky(a, lower=None, **k):
    """numpy returns the lower factor; scipy the upper one unless told otherwise (see env.LaProxy)"""
    x = _mat(a)
    n = x.shape[0]
    L = [[core.lift(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            t = core.lift(x.a[i, j])
            for m in range(j):
                t = core.sub(t, core.mul(L[i][m], L[j][m]))
            if i == j:
                if not _known(core.cmp_(t, core.lift(0), '>')):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i][j] = core.sqrt_(t)
            else:
                L[i][j] = core.div(t, L[j][j])
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            o[i, j] = L[i][j] if j <= i else core.lift(0)
    r = arr.SArr.wrap(arr.objarr(o, 'f'), x.dtype if x.dtype.kind == 'f' else np.float64)
    return r if lower or lower is None else r.T


def cho_factor(a, lower=False, **k):
    return (cholesky(a, lower), lower, arr.SArr.of(a))      # the matrix itself travels along: solving is exact


def cho_solve(cl, b, **k):
    if len(cl) == 3:
        return solve(cl[2], b)
    c = cl[0]
    return solve(c.dot(c.T) if cl[1] else c.T.dot(c), b)


def block_diag(*xs):
    xs = [arr.SArr.of(x) for x in xs]
    xs = [x.reshape(1, -1) if x.ndim < 2 else x for x in xs]
    r, c = sum(x.shape[0] for x in xs), sum(x.shape[1] for x in xs)
    out = arr.NP.zeros((r, c))
    i = j = 0
    for x in xs:
        out[i:i + x.shape[0], j:j + x.shape[1]] = x
        i, j = i + x.shape[0], j + x.shape[1]
    return out


def multi_dot(xs, **k):
    r = xs[0]
    for x in xs[1:]:
        r = arr.f_dot(r, x)
    return r


def pinv(a, **k):
    x = arr.SArr.of(a)
    if x.ndim == 2 and x.shape[0] == x.shape[1]:
        try:
            return inv(a)
        except np.linalg.LinAlgError:
            pass
    raise core.Unsupported("pseudo-inverse of a singular matrix")


def matrix_power(a, n):
    r = arr.SArr.of(_mat(a))
    if n < 0:
        return matrix_power(inv(r), -n)
    if n == 0:
        return arr.NP.eye(r.shape[0])
    b = r
    for _ in range(int(n) - 1):
        r = r.dot(b)
    return r
