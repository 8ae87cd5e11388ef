"""Stand-in for scipy.sparse: matrices whose sparsity pattern is concrete and whose stored values are symbolic."""
import numpy as np

from . import core, arr
from .core import Sym, Bool, Unsupported, lift, as_bool, cmp_
from .arr import SArr, NP


class SMat(SArr):
    """numpy.matrix over symbolic elements"""

    @staticmethod
    def wrap2(x):
        r = SMat.__new__(SMat)
        r.a, r._dt = np.atleast_2d(x.a), x._dt
        return r

    A = property(lambda s: SArr.wrap(s.a, s._dt))
    A1 = property(lambda s: SArr.wrap(s.a.reshape(-1), s._dt))
    T = property(lambda s: SMat.wrap2(SArr.wrap(s.a.T, s._dt)))

    def __getitem__(self, ix):
        r = SArr.__getitem__(self.A, ix)
        if not isinstance(r, SArr):
            return r
        if r.ndim == 1:
            if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[1], (int, np.integer)) and not isinstance(ix[0], (int, np.integer)):
                r = r.reshape(-1, 1)
            else:
                r = r.reshape(1, -1)
        return SMat.wrap2(r)

    def __mul__(self, o):
        if isinstance(o, (SArr, np.ndarray)) and o.ndim:
            return SMat.wrap2(arr.f_dot(self.A, o))
        return SMat.wrap2(self.A * o)

    def __rmul__(self, o):
        if isinstance(o, (SArr, np.ndarray)) and o.ndim:
            return SMat.wrap2(arr.f_dot(o, self.A))
        return SMat.wrap2(self.A * o)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = tuple(x.A if isinstance(x, SMat) else x for x in inputs)
        r = arr.dispatch_ufunc(ufunc, method, ins, kw)
        return SMat.wrap2(r) if isinstance(r, SArr) and method == '__call__' else r

    def dot(self, o, out=None):
        return SMat.wrap2(arr.f_dot(self.A, o))

    def ravel(self, order='C'):
        return SMat.wrap2(self.A.reshape(1, -1))

    flatten = ravel

    def reshape(self, *s, order='C'):
        return SMat.wrap2(self.A.reshape(*s))

    def squeeze(self, axis=None):
        return self

    def copy(self, order='C'):
        return SMat.wrap2(self.A.copy())

    def sum(self, axis=None, **k):
        if axis is None:
            return self.A.sum()
        r = self.A.sum(axis=axis)
        return SMat.wrap2(r.reshape(-1, 1) if axis in (1, -1) else r.reshape(1, -1))

    def mean(self, axis=None, **k):
        if axis is None:
            return self.A.mean()
        return self.sum(axis) / self.shape[axis]

    def tolist(self):
        return self.A.tolist()


def _plain(x):
    return x.A if isinstance(x, SMat) else x


def _ints(x):
    """concrete int array from anything index-like"""
    if isinstance(x, np.ndarray) and x.dtype.kind in 'iu':
        return x.astype(np.int64)
    return np.array([int(v) for v in np.asarray(arr.to_obj(x)).reshape(-1)], dtype=np.int64)


def _ix(i, n):
    """normalise one axis of a sparse index -> ('int', k) | ('all',) | ('arr', array)"""
    if isinstance(i, SArr) and i.ndim == 0:
        i = i.item()
    if isinstance(i, Sym):
        i = i.__index__()
    if isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)):
        k = int(i)
        if k < -n or k >= n:
            core.ctx().events.append('IndexError')
            raise IndexError("row index (%d) out of range" % k)
        return ('int', k % n if n else k)
    if isinstance(i, slice):
        i = arr._slice_ix(i)
        if i == slice(None):
            return ('all',)
        return ('arr', np.arange(n)[i], True)
    o = i
    if hasattr(i, '__symx_sparse__'):
        i = i.toarray()
    if isinstance(i, (list, tuple, range)):
        o = np.array([v if not isinstance(v, (Sym, Bool)) else v for v in i], dtype=object) if arr.has_sym(list(i)) else np.asarray(list(i))
    if isinstance(i, SArr):
        o = i.__array__() if i._dt.kind in 'iub' else None
        if o is None:
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    o = np.asarray(o)
    if o.dtype == object:
        o = np.array([bool(v) if isinstance(v, (Bool, bool)) else int(v) for v in o.reshape(-1)])
    if o.dtype.kind == 'b':
        o = o.reshape(-1)
        if len(o) != n:
            raise IndexError("boolean index did not match shape")
        o = np.nonzero(o)[0]
    if o.size == 0:
        o = o.astype(np.int64)
    if o.dtype.kind not in 'iu':
        raise IndexError("invalid index")
    if o.size and (o.max() >= n or o.min() < -n):
        core.ctx().events.append('IndexError')
        raise IndexError("index (%d) out of range" % o.max())
    return ('arr', np.where(o < 0, o + n, o), False)


class _Base:
    __symx_sparse__ = True
    __array_priority__ = 3000
    __array_ufunc__ = None
    ndim = 2
    format = None

    # subclasses give: _coo() -> (data SArr, row, col) in storage order
    dtype = property(lambda s: s.data.dtype)
    nnz = property(lambda s: len(s.data))
    size = nnz
    T = property(lambda s: s.transpose())
    A = property(lambda s: s.toarray())
    _hash = None

    @property
    def _shape(self):
        return self.shape

    @_shape.setter
    def _shape(self, v):
        self.shape = (int(v[0]), int(v[1]))

    def __symx_dense__(self):
        return self.toarray()

    def __symx_sparse_ufunc__(self, name, method, inputs, kw):
        if method != '__call__':
            return NotImplemented
        if name in ('sqrt', 'sin', 'tan', 'floor', 'ceil', 'rint', 'trunc', 'sign', 'log1p', 'expm1', 'absolute', 'negative') and len(inputs) == 1:
            r = self.tocsr().copy()
            r.data = arr.dispatch_ufunc(getattr(np, name), '__call__', (r.data,), {})
            return r
        a, b = (list(inputs) + [None, None])[:2]
        ops = {'add': '__add__', 'subtract': '__sub__', 'multiply': '__mul__', 'true_divide': '__truediv__', 'divide': '__truediv__', 'matmul': '__matmul__'}
        if name in ops:
            if a is self:
                return getattr(self, ops[name])(b)
            return getattr(self, ops[name].replace('__', '__r', 1))(a)
        raise Unsupported("numpy %s of a sparse matrix" % name)

    def __array__(self, *a, **k):
        raise Unsupported("sparse matrix handed to native numpy code")

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz() or shape[0]")

    def __bool__(self):
        if self.shape == (1, 1):
            return self.nnz != 0
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __repr__(self):
        return "<sparse %s %s>" % (self.format, self.shape)

    def __iter__(self):
        for r in range(self.shape[0]):
            yield self[r, :]

    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        _, r, c = self._coo()
        if axis in (0, -2):
            return np.bincount(c, minlength=self.shape[1])
        return np.bincount(r, minlength=self.shape[0])

    def getformat(self):
        return self.format

    def get_shape(self):
        return self.shape

    def count_nonzero(self):
        return sum(1 for v in self.data if bool(cmp_(v, 0, '!=')))

    def asformat(self, f, copy=False):
        if f is None or f == self.format:
            return self.copy() if copy else self
        return {'csr': self.tocsr, 'coo': self.tocoo, 'csc': self.tocsc}[f]()

    def toarray(self, *a, **k):
        d, r, c = self._coo()
        out = NP.zeros(self.shape, dtype=d.dtype)
        kd = d.dtype.kind
        for i in range(len(d)):
            out.a[r[i], c[i]] = arr.el(core.add(out.a[r[i], c[i]], d.a[i]), kd) if kd != 'b' else \
                arr.el(as_bool(out.a[r[i], c[i]]) | as_bool(d.a[i]), 'b')
        return out

    def todense(self, *a, **k):
        return SMat.wrap2(self.toarray())

    def transpose(self, *a, **k):
        d, r, c = self._coo()
        return coo_matrix((d, (c, r)), shape=(self.shape[1], self.shape[0]))

    def tocoo(self, copy=True):
        d, r, c = self._coo()
        return coo_matrix((d.copy() if copy else d, (r.copy() if copy else r, c.copy() if copy else c)), shape=self.shape)

    def tocsr(self, copy=False):
        d, r, c = self._coo()
        return csr_matrix((d, (r, c)), shape=self.shape)

    def tocsc(self, copy=False):
        return csc_matrix._from_t(self.transpose().tocsr())

    def tolil(self, *a):
        return lil_matrix(self)

    def todok(self, *a):
        return dok_matrix(self)

    def _map(self, f):
        r = self.tocsr().copy()
        r.data = f(r.data)
        return r

    def sign(self):
        return self._map(NP.sign)

    def sqrt(self):
        return self._map(NP.sqrt)

    def log1p(self):
        return self._map(NP.log1p)

    def expm1(self):
        return self._map(NP.expm1)

    def floor(self):
        return self._map(NP.floor)

    def ceil(self):
        return self._map(NP.ceil)

    def rint(self):
        return self._map(NP.rint)

    def conj(self, copy=True):
        return self.copy()

    def argmax(self, axis=None, out=None):
        r = self.toarray().argmax(axis)
        return r if axis is None else r.reshape((1, -1) if axis in (0, -2) else (-1, 1)).view(np.matrix)

    def argmin(self, axis=None, out=None):
        r = self.toarray().argmin(axis)
        return r if axis is None else r.reshape((1, -1) if axis in (0, -2) else (-1, 1)).view(np.matrix)

    def reshape(self, *sh, order='C', copy=False):
        sh = sh[0] if len(sh) == 1 and not isinstance(sh[0], (int, np.integer)) else sh
        d, r, c = self._coo()
        k = np.asarray(r, int) * self.shape[1] + np.asarray(c, int)
        sh = np.empty(self.shape).reshape(sh).shape
        if len(sh) != 2:
            raise ValueError("shape must be a 2-tuple of positive integers")
        return coo_matrix((d.copy(), (k // sh[1], k % sh[1])), shape=sh).asformat(self.format)

    def setdiag(self, v, k=0):
        if k != 0 or not isinstance(self, csr_matrix):
            raise Unsupported("setdiag")
        v = np.broadcast_to(arr.to_obj(_plain(v)), (min(self.shape),))
        for i in range(min(self.shape)):
            self[i, i] = v[i]

    def astype(self, dt, casting='unsafe', copy=True):
        if np.dtype(dt) == self.dtype and not copy:
            return self
        r = self.copy()
        r.data = r.data.astype(dt)
        return r

    def nonzero(self):
        d, r, c = self.tocoo()._coo()
        keep = [i for i in range(len(d)) if bool(cmp_(d.a[i], 0, '!='))] if d.dtype.kind != 'b' else [i for i in range(len(d)) if bool(as_bool(d.a[i]))]
        return r[keep], c[keep]

    def sum(self, axis=None, dtype=None, out=None):
        d, r, c = self._coo()
        dt = arr._acc_dtype(d.dtype, dtype)
        if axis is None:
            return d.sum(dtype=dtype)
        axis = axis % 2
        n = self.shape[1 - axis]
        res = [0] * n
        idx = c if axis == 0 else r
        for i in range(len(d)):
            res[idx[i]] = core.add(lift(res[idx[i]]), lift(d.a[i])) if not isinstance(d.a[i], Bool) else core.add(lift(res[idx[i]]), d.a[i].as_int())
        s = SArr.wrap(arr.objarr(res + [None], None)[:-1], dt)
        s.a = arr.objarr(s.a, dt.kind)
        return SMat.wrap2(s.reshape(1, -1) if axis == 0 else s.reshape(-1, 1))

    def mean(self, axis=None, dtype=None, out=None):
        if axis is None:
            return self.sum() / (self.shape[0] * self.shape[1])
        return self.sum(axis) / self.shape[axis % 2]

    def _minmax(self, axis, f):
        d = self.toarray()
        if axis is None:
            return getattr(d, f)()
        r = getattr(d, f)(axis=axis)
        return coo_matrix(r.reshape(1, -1) if axis % 2 == 0 else r.reshape(-1, 1))

    def max(self, axis=None, out=None):
        return self._minmax(axis, 'max')

    def min(self, axis=None, out=None):
        return self._minmax(axis, 'min')

    def diagonal(self, k=0):
        return self.toarray().diagonal(k)

    def trace(self, offset=0):
        return self.diagonal(offset).sum()

    # arithmetic
    def dot(self, o):
        if not hasattr(o, '__symx_sparse__') and (np.isscalar(o) or isinstance(o, (Sym, Bool))):
            return self._scale(o)
        return self._matmul(o)

    def __matmul__(self, o):
        return self._matmul(o)

    def __rmatmul__(self, o):
        return (self.T._matmul(NP.asarray(_plain(o)).T)).T

    def _is_scalar(self, o):
        return isinstance(o, (Sym, Bool)) or np.isscalar(o) or (isinstance(o, (SArr, np.ndarray)) and o.ndim == 0)

    def __mul__(self, o):
        return self._scale(o) if self._is_scalar(o) else self._matmul(o)

    def __rmul__(self, o):
        return self._scale(o) if self._is_scalar(o) else self.__rmatmul__(o)

    def _scale(self, o):
        r = self.tocsr().copy()
        r.data = r.data * o
        return r.asformat(self.format if self.format != 'dia' else 'csr')

    def __truediv__(self, o):
        if self._is_scalar(o):
            r = self.tocsr().copy()
            r.data = r.data / o
            return r
        if hasattr(o, '__symx_sparse__'):
            return SMat.wrap2(self.toarray() / o.toarray())
        return coo_matrix(self.toarray() / _plain(o))

    def __neg__(self):
        r = self.copy()
        r.data = -r.data
        return r

    def __abs__(self):
        r = self.copy()
        r.data = abs(r.data)
        return r

    def power(self, n, dtype=None):
        r = self.tocsr().copy()
        r.data = r.data ** n
        return r

    def __pow__(self, n):
        r = self
        for _ in range(int(n) - 1):
            r = r._matmul(self)
        return r

    def _matmul(self, o):
        A = self.tocsr()
        if hasattr(o, '__symx_sparse__'):
            B = o.tocsr()
            if A.shape[1] != B.shape[0]:
                raise ValueError("dimension mismatch")
            dt = np.promote_types(A.dtype, B.dtype)
            data, row, col = [], [], []
            for i in range(A.shape[0]):
                acc = {}
                for p in range(A.indptr[i], A.indptr[i + 1]):
                    j = A.indices[p]
                    for q in range(B.indptr[j], B.indptr[j + 1]):
                        k = int(B.indices[q])
                        v = core.mul(lift(A.data.a[p]), lift(B.data.a[q]))
                        acc[k] = core.add(acc[k], v) if k in acc else v
                for k, v in acc.items():
                    data.append(v), row.append(i), col.append(k)
            return csr_matrix((_mkarr(data, dt), (np.array(row, int), np.array(col, int))), shape=(A.shape[0], B.shape[1]))
        ismat = isinstance(o, SMat)
        o = NP.asarray(_plain(o))
        od = o if isinstance(o, SArr) else SArr.of(o)
        vec = od.ndim == 1
        if od.shape[0] != A.shape[1]:
            raise ValueError("dimension mismatch")
        O = od.a.reshape(od.shape[0], -1)
        dt = np.promote_types(A.dtype, od.dtype)
        out = np.empty((A.shape[0], O.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for k in range(O.shape[1]):
                acc = lift(0)
                for p in range(A.indptr[i], A.indptr[i + 1]):
                    acc = core.add(acc, core.mul(lift(A.data.a[p]), lift(O[A.indices[p], k])))
                out[i, k] = arr.el(acc, dt.kind)
        r = SArr.wrap(out.reshape(-1) if vec else out, dt)
        return SMat.wrap2(r) if ismat else r

    def _binop(self, o, f, union):
        if self.shape != o.shape:
            raise ValueError("inconsistent shapes")
        a, b = self.tocsr()._rows(), o.tocsr()._rows()
        data, row, col = [], [], []
        dt = None
        for i in range(self.shape[0]):
            ks = sorted(set(a[i]) | set(b[i])) if union else sorted(set(a[i]) & set(b[i]))
            for k in ks:
                v = f(a[i].get(k, 0), b[i].get(k, 0))
                z = as_bool(cmp_(v, 0, '!=')) if not isinstance(v, Bool) else v
                if z.c is True or (z.c is None and bool(z)):
                    data.append(v), row.append(i), col.append(k)
        return data, row, col

    def _bin(self, o, f, union=True, dt=None):
        data, row, col = self._binop(o, f, union)
        dt = dt or np.promote_types(self.dtype, o.dtype)
        return csr_matrix((_mkarr(data, dt), (np.array(row, int), np.array(col, int))), shape=self.shape)

    def __add__(self, o):
        if hasattr(o, '__symx_sparse__'):
            return self._bin(o, lambda x, y: core.add(lift(x), lift(y)))
        if self._is_scalar(o):
            if isinstance(o, (int, float)) and o == 0:
                return self.copy()
            raise NotImplementedError("adding a nonzero scalar to a sparse matrix is not supported")
        return SMat.wrap2(self.toarray() + _plain(o))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if hasattr(o, '__symx_sparse__'):
            return self._bin(o, lambda x, y: core.sub(lift(x), lift(y)))
        return SMat.wrap2(self.toarray() - _plain(o))

    def __rsub__(self, o):
        return SMat.wrap2(_plain(o) - self.toarray())

    def multiply(self, o):
        if hasattr(o, '__symx_sparse__'):
            if o.shape == self.shape:
                return self._bin(o, lambda x, y: core.mul(lift(x), lift(y)), union=False)
            o = o.toarray()
        if self._is_scalar(o):
            return self._scale(o)
        o = NP.asarray(_plain(o))
        o = o if isinstance(o, SArr) else SArr.of(o)
        d, r, c = self._coo()
        sh = np.broadcast_shapes(o.shape, self.shape)
        if sh != self.shape:
            return coo_matrix(self.toarray() * o)
        ob = np.broadcast_to(o.a, self.shape)
        dt = np.promote_types(d.dtype, o.dtype)
        return coo_matrix((_mkarr([core.mul(lift(d.a[i]), lift(ob[r[i], c[i]])) for i in range(len(d))], dt), (r, c)), shape=self.shape)

    def maximum(self, o):
        return self._bin(o, lambda x, y: core.maximum(lift(x), lift(y)))

    def minimum(self, o):
        return self._bin(o, lambda x, y: core.minimum(lift(x), lift(y)))

    def _cmp(self, o, op):
        if hasattr(o, '__symx_sparse__'):
            if self.shape != o.shape:
                return op == '!='
            return self._bin(o, lambda x, y: cmp_(lift(x), lift(y), op), dt=np.dtype(bool)) if op in ('!=', '<', '>') else \
                csr_matrix(arr.dispatch_ufunc(getattr(np, core._UF[op]), '__call__', (self.toarray(), o.toarray()), {}))
        if self._is_scalar(o):
            return csr_matrix(arr.dispatch_ufunc(getattr(np, core._UF[op]), '__call__', (self.toarray(), o), {}))
        return arr.dispatch_ufunc(getattr(np, core._UF[op]), '__call__', (self.toarray(), _plain(o)), {})

    def __ne__(self, o):
        return self._cmp(o, '!=') if o is not None and not isinstance(o, str) else True

    def __eq__(self, o):
        return self._cmp(o, '==') if o is not None and not isinstance(o, str) else False

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __le__(self, o):
        return self._cmp(o, '<=')

    __hash__ = object.__hash__

    def getrow(self, i):
        return self[i, :]

    def getcol(self, i):
        return self[:, i]

    def __getitem__(self, ix):
        return self.tocsr()[ix].asformat(self.format if self.format in ('csr', 'csc') else 'csr')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()


def _mkarr(xs, dt):
    dt = np.dtype(dt)
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = arr.el(x, dt.kind)
    return SArr.wrap(o, dt)


def _data(x, dtype=None):
    x = _plain(x)
    if isinstance(x, SArr):
        return x if dtype is None else x.astype(dtype)
    return SArr.of(np.asarray(x) if not arr.has_sym(x) else x, None) if dtype is None else SArr.of(x).astype(dtype)


class csr_matrix(_Base):
    format = 'csr'

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, csc_matrix) or isinstance(arg, _Base) and not isinstance(arg, csr_matrix):
            arg = arg.tocsr()
        if isinstance(arg, csr_matrix):
            a = arg.copy() if copy else arg
            self.data, self.indices, self.indptr, self.shape = a.data, a.indices, a.indptr, a.shape
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(v, (int, np.integer)) for v in arg):
            self.shape = (int(arg[0]), int(arg[1]))
            self.data = NP.zeros(0, dtype=dtype or float)
            self.indices = np.zeros(0, np.int32)
            self.indptr = np.zeros(self.shape[0] + 1, np.int32)
        elif isinstance(arg, tuple) and len(arg) == 2:
            d, (r, c) = arg
            d = _data(d)
            r, c = _ints(r), _ints(c)
            if shape is None:
                if not len(r):
                    raise ValueError("cannot infer dimensions from zero sized index arrays")
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            shape = (int(shape[0]), int(shape[1]))
            if len(r) != len(c) or len(r) != len(d):
                raise ValueError("row, column, and data array must all be the same length")
            if len(r) and (r.max() >= shape[0] or c.max() >= shape[1]):
                raise ValueError("row index exceeds matrix dimensions")
            if len(r) and (r.min() < 0 or c.min() < 0):
                raise ValueError("negative row index found")
            # stable order by (row, col), duplicates summed: coo -> csr + sum_duplicates
            order = sorted(range(len(r)), key=lambda i: (r[i], c[i]))
            data, ind, ptr = [], [], [0] * (shape[0] + 1)
            last = None
            for i in order:
                k = (r[i], c[i])
                if k == last:
                    data[-1] = core.add(lift(data[-1]), lift(d.a[i])) if d.dtype.kind != 'b' else as_bool(data[-1]) | as_bool(d.a[i])
                else:
                    data.append(d.a[i])
                    ind.append(c[i])
                    ptr[r[i] + 1] += 1
                last = k
            self.data = _mkarr(data, d.dtype)
            self.indices = np.array(ind, dtype=np.int32)
            self.indptr = np.cumsum(ptr).astype(np.int32)
            self.shape = shape
        elif isinstance(arg, tuple) and len(arg) == 3:
            d, i, p = arg
            self.data = _data(d)
            self.indices = _ints(i).astype(np.int32) if not (isinstance(i, np.ndarray) and i.dtype == np.int32) else i
            self.indptr = _ints(p).astype(np.int32) if not (isinstance(p, np.ndarray) and p.dtype == np.int32) else p
            if copy:
                self.data, self.indices, self.indptr = self.data.copy(), self.indices.copy(), self.indptr.copy()
            if shape is None:
                shape = (len(self.indptr) - 1, int(self.indices.max()) + 1)
            self.shape = (int(shape[0]), int(shape[1]))
            if len(self.indptr) != self.shape[0] + 1:
                raise ValueError("index pointer size (%d) should be (%d)" % (len(self.indptr), self.shape[0] + 1))
            if len(self.indices) != len(self.data) or self.indptr[-1] > len(self.indices):
                raise ValueError("indices and data should have the same size")
            if len(self.indices) and (self.indices.max() >= self.shape[1] or self.indices.min() < 0):
                raise ValueError("column index values must be < %d" % self.shape[1])
        else:
            x = SArr.of(_plain(arg)) if not isinstance(arg, SArr) else SArr.wrap(arg.a, arg._dt)
            if x.ndim == 1:
                x = x.reshape(1, -1)
            if x.ndim != 2:
                raise TypeError("expected dimension <= 2 array or matrix")
            data, ind, ptr = [], [], [0]
            for i in range(x.shape[0]):
                for j in range(x.shape[1]):
                    v = x.a[i, j]
                    nz = as_bool(v) if isinstance(v, (Bool, bool)) else cmp_(v, 0, '!=')
                    if bool(nz):
                        data.append(v), ind.append(j)
                ptr.append(len(ind))
            self.data = _mkarr(data, x.dtype)
            self.indices, self.indptr, self.shape = np.array(ind, np.int32), np.array(ptr, np.int32), x.shape
        if dtype is not None and np.dtype(dtype) != self.data.dtype:
            self.data = self.data.astype(dtype)

    has_sorted_indices = property(lambda s: all(
        s.indices[p] < s.indices[p + 1] for i in range(s.shape[0]) for p in range(s.indptr[i], s.indptr[i + 1] - 1)))
    has_canonical_format = has_sorted_indices

    def _coo(self):
        row = np.repeat(np.arange(self.shape[0]), np.diff(self.indptr)).astype(np.int32)
        return SArr.wrap(self.data.a[:len(row)], self.data.dtype), row, self.indices

    def _rows(self):
        out = []
        for i in range(self.shape[0]):
            d = {}
            for p in range(self.indptr[i], self.indptr[i + 1]):
                k = int(self.indices[p])
                d[k] = core.add(lift(d[k]), lift(self.data.a[p])) if k in d else self.data.a[p]
            out.append(d)
        return out

    def copy(self):
        return csr_matrix((self.data.copy(), self.indices.copy(), self.indptr.copy()), shape=self.shape)

    def tocsr(self, copy=False):
        return self.copy() if copy else self

    def transpose(self, *a, **k):
        return csc_matrix._from_t(self)

    def sort_indices(self):
        for i in range(self.shape[0]):
            a, b = self.indptr[i], self.indptr[i + 1]
            o = np.argsort(self.indices[a:b], kind='stable')
            self.data.a[a:b] = self.data.a[a:b][o]
            self.indices[a:b] = self.indices[a:b][o]

    def sorted_indices(self):
        r = self.copy()
        r.sort_indices()
        return r

    def sum_duplicates(self):
        d, r, c = self._coo()
        n = csr_matrix((d, (r, c)), shape=self.shape)
        self.data, self.indices, self.indptr = n.data, n.indices, n.indptr

    def eliminate_zeros(self):
        d, r, c = self._coo()
        keep = [i for i in range(len(d)) if bool(cmp_(d.a[i], 0, '!='))]
        ptr = np.zeros(self.shape[0] + 1, np.int32)
        for i in keep:
            ptr[r[i] + 1] += 1
        self.data, self.indices, self.indptr = SArr.wrap(d.a[keep], d.dtype), self.indices[keep], np.cumsum(ptr).astype(np.int32)

    def check_format(self, full_check=True):
        pass

    def _major(self, rows):
        data, ind, ptr = [], [], [0]
        for r in rows:
            a, b = self.indptr[r], self.indptr[r + 1]
            data += list(self.data.a[a:b])
            ind += list(self.indices[a:b])
            ptr.append(len(ind))
        return csr_matrix((_mkarr(data, self.dtype), np.array(ind, np.int32), np.array(ptr, np.int32)), shape=(len(rows), self.shape[1]))

    def _minor(self, cols):
        data, ind, ptr = [], [], [0]
        pos = {}
        for k in np.argsort(cols, kind='stable'):
            pos.setdefault(int(cols[k]), []).append(int(k))
        for r in range(self.shape[0]):
            for p in range(self.indptr[r], self.indptr[r + 1]):
                for k in pos.get(int(self.indices[p]), ()):
                    data.append(self.data.a[p]), ind.append(k)
            ptr.append(len(ind))
        return csr_matrix((_mkarr(data, self.dtype), np.array(ind, np.int32), np.array(ptr, np.int32)), shape=(self.shape[0], len(cols)))

    def _scalar_at(self, i, j):
        acc = 0
        for p in range(self.indptr[i], self.indptr[i + 1]):
            if self.indices[p] == j:
                acc = self.data.a[p] if isinstance(acc, int) and acc == 0 else core.add(lift(acc), lift(self.data.a[p]))
        return arr.out_scalar(arr.el(acc, self.dtype.kind), self.dtype)

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            if hasattr(ix, '__symx_sparse__') or (isinstance(ix, (SArr, np.ndarray)) and ix.ndim == 2):
                r, c = (ix.nonzero() if not isinstance(ix, SArr) else np.nonzero(ix.__array__()))
                return SMat.wrap2(_mkarr([self._scalar_at(i, j) for i, j in zip(r, c)], self.dtype))
            ix = (ix, slice(None))
        if len(ix) != 2:
            raise IndexError("invalid number of indices")
        ri, ci = ix
        if ri is Ellipsis:
            ri = slice(None)
        if ci is Ellipsis:
            ci = slice(None)
        # np.ix_ style
        r2 = getattr(ri, 'ndim', 1) == 2 and getattr(ci, 'ndim', 1) == 2
        if r2:
            ri, ci = _plain(ri).reshape(-1), _plain(ci).reshape(-1)
        r, c = _ix(ri, self.shape[0]), _ix(ci, self.shape[1])
        if r[0] == 'int' and c[0] == 'int':
            return self._scalar_at(r[1], c[1])
        if r[0] == 'arr' and c[0] == 'arr' and not r2 and not r[2] and not c[2]:
            R, Cc = np.broadcast_arrays(r[1], c[1])
            vals = [self._scalar_at(i, j) for i, j in zip(R.reshape(-1), Cc.reshape(-1))]
            m = _mkarr(vals, self.dtype)
            return SMat.wrap2(m.reshape(R.shape if R.ndim == 2 else (1, -1)))
        m = self
        if r[0] == 'int':
            m = m._major([r[1]])
        elif r[0] == 'arr':
            m = m._major(r[1].reshape(-1))
        if c[0] == 'int':
            m = m._minor(np.array([c[1]]))
        elif c[0] == 'arr':
            m = m._minor(c[1].reshape(-1))
        return m if m is not self else self.copy()

    def __setitem__(self, ix, v):
        """value update of existing entries and insertion of new ones (scalar or broadcast)"""
        ri, ci = ix if isinstance(ix, tuple) else (ix, slice(None))
        r, c = _ix(ri, self.shape[0]), _ix(ci, self.shape[1])
        R = np.array([r[1]]) if r[0] == 'int' else (np.arange(self.shape[0]) if r[0] == 'all' else r[1])
        Cc = np.array([c[1]]) if c[0] == 'int' else (np.arange(self.shape[1]) if c[0] == 'all' else c[1])
        paired = r[0] == 'arr' and c[0] == 'arr' and not r[2] and not c[2]
        pts = list(zip(R, Cc)) if paired else [(i, j) for i in R for j in Cc]
        vo = np.broadcast_to(arr.to_obj(_plain(v)), (len(pts),) if paired else (len(R), len(Cc))).reshape(-1)
        rows = [dict(x) for x in self._rows()]
        for (i, j), x in zip(pts, vo):
            rows[i][int(j)] = x
        data, ind, ptr = [], [], [0]
        for x in rows:
            for k in sorted(x):
                data.append(x[k]), ind.append(k)
            ptr.append(len(ind))
        self.data, self.indices, self.indptr = _mkarr(data, self.dtype), np.array(ind, np.int32), np.array(ptr, np.int32)

    def __imul__(self, o):
        if self._is_scalar(o):
            self.data *= o
            return self
        return NotImplemented

    def __itruediv__(self, o):
        if self._is_scalar(o):
            self.data /= o
            return self
        return NotImplemented


class csc_matrix(_Base):
    format = 'csc'

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 3:
            t = csr_matrix(arg, shape=(shape[1], shape[0]) if shape else None, dtype=dtype, copy=copy)
        else:
            c = csr_matrix(arg, shape=shape, dtype=dtype, copy=copy)
            d, r, cc = c._coo()
            t = csr_matrix((d, (cc, r)), shape=(c.shape[1], c.shape[0]))
        self._t = t

    @staticmethod
    def _from_t(t):
        r = csc_matrix.__new__(csc_matrix)
        r._t = t
        return r

    shape = property(lambda s: (s._t.shape[1], s._t.shape[0]))
    indices = property(lambda s: s._t.indices)
    indptr = property(lambda s: s._t.indptr)

    @property
    def data(self):
        return self._t.data

    @data.setter
    def data(self, v):
        self._t.data = v

    def _coo(self):
        d, r, c = self._t._coo()
        return d, c, r

    def copy(self):
        return csc_matrix._from_t(self._t.copy())

    def tocsc(self, copy=False):
        return self.copy() if copy else self

    def transpose(self, *a, **k):
        return self._t

    def __getitem__(self, ix):
        r = self.tocsr()[ix]
        return r.tocsc() if isinstance(r, csr_matrix) else r


class coo_matrix(_Base):
    format = 'coo'

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 2 and not all(isinstance(v, (int, np.integer)) for v in arg):
            d, (r, c) = arg
            self.data = _data(d)
            self.row = r if isinstance(r, np.ndarray) and r.dtype == np.int32 and not copy else _ints(r).astype(np.int32)
            self.col = c if isinstance(c, np.ndarray) and c.dtype == np.int32 and not copy else _ints(c).astype(np.int32)
            if copy:
                self.data = self.data.copy()
            if shape is None:
                if not len(self.row):
                    raise ValueError("cannot infer dimensions from zero sized index arrays")
                shape = (int(self.row.max()) + 1, int(self.col.max()) + 1)
            self.shape = (int(shape[0]), int(shape[1]))
            if len(self.row) != len(self.col) or len(self.row) != len(self.data):
                raise ValueError("row, column, and data array must all be the same length")
            if len(self.row) and (self.row.max() >= self.shape[0] or self.col.max() >= self.shape[1]):
                raise ValueError("row index exceeds matrix dimensions")
            if len(self.row) and (self.row.min() < 0 or self.col.min() < 0):
                raise ValueError("negative row index found")
        else:
            c = csr_matrix(arg, shape=shape)
            self.data, self.row, self.col = c._coo()
            self.shape = c.shape
        if dtype is not None and np.dtype(dtype) != self.data.dtype:
            self.data = self.data.astype(dtype)

    def _coo(self):
        return self.data, self.row, self.col

    def copy(self):
        return coo_matrix((self.data.copy(), (self.row.copy(), self.col.copy())), shape=self.shape)

    def tocoo(self, copy=False):
        return self.copy() if copy else self

    def sum_duplicates(self):
        c = self.tocsr()
        self.data, self.row, self.col = c._coo()

    def __getitem__(self, ix):
        raise TypeError("'coo_matrix' object is not subscriptable")


class dia_matrix(coo_matrix):
    format = 'dia'


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    d = NP.asarray(_plain(diagonals))
    d = d if isinstance(d, SArr) else SArr.of(d)
    if not isinstance(offsets, (int, np.integer)):
        if len(offsets) != 1:
            raise Unsupported("several diagonals")
        offsets = list(offsets)[0]
    if d.ndim == 2:
        if d.shape[0] != 1:
            raise ValueError("Different number of diagonals and offsets.")
        d = d[0]
    if offsets != 0:
        raise Unsupported("off-diagonal diags")
    n = len(d)
    m = dia_matrix((d, (np.arange(n), np.arange(n))), shape=shape or (n, n), dtype=dtype)
    return m.asformat(format) if format else m


def eye(m, n=None, k=0, dtype=float, format=None):
    return diags(NP.ones(m, dtype=dtype)).asformat(format or 'csr')


def identity(n, dtype='d', format=None):
    return eye(n, dtype=dtype, format=format)


def _stack(blocks, axis, format, dtype):
    bs = [b if hasattr(b, '__symx_sparse__') else coo_matrix(b) for b in blocks]
    data, row, col = [], [], []
    dt = bs[0].dtype
    for b in bs[1:]:
        dt = np.promote_types(dt, b.dtype)
    off = 0
    other = bs[0].shape[1 - axis]
    for b in bs:
        if b.shape[1 - axis] != other:
            raise ValueError("blocks have incompatible dimensions")
        d, r, c = b._coo()
        data += [x for x in d.a]
        row += list(r + (off if axis == 0 else 0))
        col += list(c + (off if axis == 1 else 0))
        off += b.shape[axis]
    shape = (off, other) if axis == 0 else (other, off)
    m = coo_matrix((_mkarr(data, dtype or dt), (np.array(row, int), np.array(col, int))), shape=shape)
    return m.asformat(format) if format else m


def hstack(blocks, format=None, dtype=None):
    return _stack(blocks, 1, format, dtype)


def vstack(blocks, format=None, dtype=None):
    r = _stack(blocks, 0, format, dtype)
    if format is None and all(isinstance(b, csr_matrix) for b in blocks):
        return r.tocsr()
    return r


def issparse(x):
    return isinstance(x, _Base)


isspmatrix = issparse


def isspmatrix_csr(x):
    return isinstance(x, csr_matrix)


def isspmatrix_csc(x):
    return isinstance(x, csc_matrix)


def isspmatrix_coo(x):
    return isinstance(x, coo_matrix) and x.format == 'coo'


def find(A):
    c = A.tocoo()
    c.sum_duplicates()
    return c.row, c.col, c.data


def triu(A, k=0, format=None):
    d, r, c = A._coo()
    keep = [i for i in range(len(d)) if c[i] - r[i] >= k]
    return coo_matrix((SArr.wrap(d.a[keep], d.dtype), (r[keep], c[keep])), shape=A.shape).asformat(format)


def tril(A, k=0, format=None):
    d, r, c = A._coo()
    keep = [i for i in range(len(d)) if c[i] - r[i] <= k]
    return coo_matrix((SArr.wrap(d.a[keep], d.dtype), (r[keep], c[keep])), shape=A.shape).asformat(format)


spmatrix = _Base
csr_array, coo_array, csc_array = csr_matrix, coo_matrix, csc_matrix


class lil_matrix(csr_matrix):
    """a matrix that is built entry by entry: kept as rows of sorted entries, like csr"""
    format = 'lil'

    def tocsr(self, copy=False):
        return csr_matrix((self.data.copy(), self.indices.copy(), self.indptr.copy()), shape=self.shape)

    def tolil(self, *a):
        return self

    def copy(self):
        return lil_matrix(self.tocsr())

    def __setitem__(self, ix, v):
        csr_matrix.__setitem__(self, ix, v)
        keep = [bool(cmp_(lift(x), 0, '!=')) for x in self.data.a] if self.dtype.kind != 'b' else [True] * len(self.data)
        if not all(keep):        # lil stores no zeros
            ptr = [0] + [sum(keep[:int(e)]) for e in self.indptr[1:]]
            k = np.array([i for i, x in enumerate(keep) if x], int)
            self.data, self.indices, self.indptr = self.data[k], self.indices[k], np.array(ptr, np.int32)

    def __getitem__(self, ix):
        r = csr_matrix.__getitem__(self.tocsr(), ix)
        return r.tolil() if isinstance(r, csr_matrix) else r

    @property
    def rows(self):
        r = np.empty(self.shape[0], dtype=object)
        for i, x in enumerate(self._rows()):
            r[i] = [int(k) for k in sorted(k for k, _ in x)] if x and isinstance(x[0], tuple) else sorted(int(k) for k in x)
        return r


class dok_matrix(lil_matrix):
    format = 'dok'

    def todok(self, *a):
        return self

    def copy(self):
        return dok_matrix(self.tocsr())


def bsr_matrix(*a, **k):
    raise Unsupported("bsr matrix")


def kron(A, B, format=None):
    A, B = [m if issparse(m) else csr_matrix(m) for m in (A, B)]
    return csr_matrix(arr.NP.kron(A.toarray(), B.toarray())).asformat(format or 'csr')


def block_diag(mats, format=None, dtype=None):
    ms = [m if issparse(m) else csr_matrix(m) for m in mats]
    n = sum(m.shape[1] for m in ms)
    rows, off = [], 0
    for m in ms:
        d, r, c = m._coo()
        rows.append(coo_matrix((d, (r, np.asarray(c, int) + off)), shape=(m.shape[0], n)))
        off += m.shape[1]
    return vstack(rows, format=format or 'coo', dtype=dtype)


def spdiags(data, d, m=None, n=None, format=None):
    return diags(data, d, shape=None if m is None else (m, n), format=format)
