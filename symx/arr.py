"""Duck-typed numpy arrays of symbolic numbers, and a stand-in for the numpy module."""
import builtins
import itertools
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import (Sym, Bool, TRUE, FALSE, Unsupported, PathEnd, lift, as_bool, all_, any_, ite, cmp_, ctx)

_OBJ = np.dtype(object)


# --------------------------------------------------------------------------
# elements
# --------------------------------------------------------------------------
def el(x, kind):
    """normalise a value to the element representation of an array of this dtype kind"""
    if kind == 'f':
        if isinstance(x, Sym):
            if x.k == 'r' and x.dt is None:
                return x
            if x.k == 'i' and x.p is not None:
                return Sym(None, x.p, 'r')
            return Sym(x.c, x.p, 'r')
        if isinstance(x, Bool):
            s = x.as_int()
            return Sym(s.c, s.p, 'r')
        s = lift(x)
        return Sym(s.c, s.p, 'r')
    if kind in 'iu':
        if isinstance(x, Sym):
            if x.k == 'r':
                x = core.trunc(x)
            return int(x.c) if x.c is not None else (x if x.dt is None else Sym(None, x.p, 'i'))
        if isinstance(x, Bool):
            x = x.as_int()
            return int(x.c) if x.c is not None else x
        if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
            return -9223372036854775808
        return int(x)
    if kind == 'b':
        if isinstance(x, Bool):
            return x.c if x.c is not None else x
        if isinstance(x, Sym):
            b = as_bool(x)
            return b.c if b.c is not None else b
        return builtins.bool(x)
    return x


def objarr(x, kind=None):
    """object ndarray with elements of this kind"""
    x = np.asarray(x, dtype=object)
    if kind is None or x.size == 0:
        return x
    out = np.empty(x.shape, dtype=object)
    fo, fx = out.reshape(-1), x.reshape(-1)
    for i in range(x.size):
        fo[i] = el(fx[i], kind)
    return out


def out_scalar(x, dt):
    dt = np.dtype(dt)
    if isinstance(x, Sym):
        if dt.kind == 'f':
            return Sym(x.c, x.p, 'r', dt)
        if x.c is not None and dt.kind in 'iu':
            return dt.type(x.c)
        return Sym(x.c, x.p, x.k, dt)
    if isinstance(x, Bool):
        return np.bool_(x.c) if x.c is not None else x
    if dt.kind == 'O':
        return x
    return dt.type(x)


def kind_of(dt):
    return np.dtype(dt).kind


def infer_dtype(x):
    """dtype numpy would give to np.array(x)"""
    if isinstance(x, SArr):
        return x.dtype
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, Sym):
        return x.dtype
    if isinstance(x, Bool):
        return np.dtype(bool)
    if isinstance(x, (list, tuple)):
        ds = [infer_dtype(e) for e in x]
        if not ds:
            return np.dtype(float)
        d = ds[0]
        for e in ds[1:]:
            d = np.promote_types(d, e)
        return d
    if hasattr(x, '__symx_dense__'):
        return x.dtype
    return np.asarray(x).dtype


def has_sym(x):
    if isinstance(x, (Sym, Bool, SArr)) or hasattr(x, '__symx_dense__'):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return isinstance(x, np.ndarray) and x.dtype == _OBJ and any(has_sym(e) for e in x.reshape(-1)[:1])


def to_obj(x):
    """object ndarray (any shape) of the elements of x, without dtype normalisation"""
    if isinstance(x, SArr):
        return x.a
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != _OBJ else x
    if hasattr(x, '__symx_dense__'):
        return x.__symx_dense__().a
    if isinstance(x, (Sym, Bool)) or np.isscalar(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple)):
        parts = [to_obj(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        if len({p.shape for p in parts}) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    return np.asarray(x, dtype=object)


def is_float(dt):
    return np.dtype(dt).kind == 'f'


def fresh(name, kind):
    """an arbitrary value: uninitialised memory"""
    C = ctx()
    a = C.new_atom(name, 'r' if kind == 'f' else 'i')
    return Sym(None, {((a.id, 1),): 1}, a.kind)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, np.ndarray))


class NdArray(metaclass=_Meta):
    """numpy.ndarray as the code under test sees it"""

    def __new__(cls, *a, **k):
        return SArr(*a, **k)


class _Flags:
    def __init__(self, f):
        self._f = f
        self.c_contiguous, self.f_contiguous = f.c_contiguous, f.f_contiguous
        self.fnc, self.forc, self.contiguous = f.fnc, f.forc, f.c_contiguous
        self.writeable, self.owndata = f.writeable, f.owndata

    def __getitem__(self, k):
        return self._f[k]


class Flat:
    """numpy.flatiter"""

    def __init__(self, base):
        self.base, self._at = base, 0

    def __len__(self):
        return self.base.a.size

    def __iter__(self):
        return self

    def __next__(self):
        if self._at >= len(self):
            raise StopIteration
        self._at += 1
        return self[self._at - 1]

    def copy(self):
        return SArr.wrap(self.base.a.flatten(), self.base._dt)

    def __array__(self, *a, **k):
        return np.asarray(self.copy(), *a, **k)

    def __getitem__(self, ix):
        return self.copy()[ix]

    def __setitem__(self, ix, v):
        c = self.copy()
        if isinstance(ix, slice) and isinstance(v, (SArr, np.ndarray, list, tuple)):
            n = len(range(*ix.indices(len(self))))
            o = to_obj(v).reshape(-1)
            if o.size and o.size != n:
                v = SArr.of(np.resize(o, n), self.base._dt)       # numpy repeats or truncates
        c[ix] = v
        self.base[...] = c.reshape(*self.base.shape) if self.base.ndim else c[0]


class SArr(np.lib.mixins.NDArrayOperatorsMixin):
    """numpy.ndarray over symbolic elements; the constructor has ndarray's signature"""
    __array_priority__ = 2000

    def __init__(self, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        dtype = np.dtype(dtype)
        if buffer is not None:
            b = buffer.a if isinstance(buffer, SArr) else to_obj(buffer)
            self.a = b.reshape(-1)[:int(np.prod(shape))].reshape(shape)
            self._dt = dtype
            return
        shape = _shape(shape)
        self.a = np.empty(shape, dtype=object, order=order or 'C')
        self._dt = dtype
        self._fill_fresh()

    def _fill_fresh(self):
        k = self._dt.kind
        for ix in np.ndindex(self.a.shape):
            self.a[ix] = fresh('uninit', k) if k in 'fiu' else (False if k == 'b' else None)

    @staticmethod
    def wrap(a, dt):
        r = SArr.__new__(SArr)
        r.a = a
        r._dt = np.dtype(dt)
        return r

    @staticmethod
    def of(x, dt=None):
        """from anything"""
        dt = np.dtype(dt) if dt is not None else infer_dtype(x)
        return SArr.wrap(objarr(to_obj(x), dt.kind), dt)

    # -- attributes
    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    flags = property(lambda s: _Flags(s.a.flags))
    strides = property(lambda s: tuple(x // 8 * s._dt.itemsize for x in s.a.strides))
    itemsize = property(lambda s: s._dt.itemsize)
    nbytes = property(lambda s: s._dt.itemsize * s.a.size)
    base = property(lambda s: s.a.base)
    T = property(lambda s: SArr.wrap(s.a.T, s._dt))
    real = property(lambda s: s)

    @property
    def flat(self):
        return Flat(self)

    @flat.setter
    def flat(self, v):
        Flat(self)[:] = v

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    def __contains__(self, v):
        return bool(any_(as_bool(cmp_(x, v, '==')) for x in self.a.reshape(-1)))

    def __repr__(self):
        return "SArr(%s, %s)" % (self.a.tolist(), self._dt)

    def __format__(self, spec):
        return "<sarr>"

    __hash__ = None

    def __bool__(self):
        if self.size == 1:
            return bool(as_bool(self.a.reshape(-1)[0]))
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(lift(self.a.reshape(-1)[0]))

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(lift(self.a.reshape(-1)[0]))

    def __index__(self):
        if self.ndim == 0 and self._dt.kind in 'iu':
            return int(lift(self.a[()]))
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __array__(self, dtype=None, copy=None):
        """a concrete ndarray; integers are concretised, symbolic reals are refused"""
        k = self._dt.kind
        out = np.empty(self.a.shape, dtype=dtype or self._dt)
        if out.dtype == _OBJ:
            out[...] = self.a
            return out
        for ix in np.ndindex(self.a.shape):
            v = self.a[ix]
            if isinstance(v, Sym):
                if v.c is None and v.k == 'r':
                    raise Unsupported("a symbolic array was handed to native numpy code")
                v = v.c if v.c is not None else ctx().concretize(v)
                if isinstance(v, Fraction):
                    v = float(v)
            elif isinstance(v, Bool):
                v = bool(v)
            out[ix] = v
        return out

    # -- indexing
    def _index(self, ix):
        """index usable on the object array; symbolic integers/booleans are concretised"""
        if not isinstance(ix, tuple):
            ix = (ix,)
        return tuple(_ix1(i) for i in ix)

    def __getitem__(self, ix):
        r = _sym_gather(self, ix)
        if r is not None:
            return r
        ix = self._index(ix)
        try:
            r = self.a[ix if len(ix) != 1 else ix[0]]
        except IndexError:
            ctx().events.append('IndexError')
            raise
        if isinstance(r, np.ndarray):
            return SArr.wrap(r, self._dt)
        return out_scalar(r, self._dt)

    def __setitem__(self, ix, v):
        if _sym_scatter(self, ix, v):
            return
        ix = self._index(ix)
        ix = ix if len(ix) != 1 else ix[0]
        k = self._dt.kind
        if isinstance(v, (SArr, np.ndarray, list, tuple)) or hasattr(v, '__symx_dense__'):
            o = objarr(to_obj(v), k)
            if o.ndim == 0:
                o = o[()]
            elif np.shares_memory(o, self.a):
                o = o.copy()
            self.a[ix] = o
        else:
            if _is_scalar_ix(self.a, ix):
                self.a[ix] = el(v, k)
            else:
                o = np.empty((), dtype=object)
                o[()] = el(v, k)
                self.a[ix] = o

    # -- ufuncs and functions
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    # -- methods
    def copy(self, order='C'):
        return SArr.wrap(self.a.copy(order=order), self._dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dt)
        if not copy and dt == self._dt:
            return self
        return SArr.wrap(_cast_obj(self.a, self._dt, dt).copy(order=order), dt)

    def reshape(self, *s, order='C'):
        s = s[0] if len(s) == 1 else s
        return SArr.wrap(self.a.reshape(_shape(s), order=order), self._dt)

    def ravel(self, order='C'):
        return SArr.wrap(self.a.ravel(order), self._dt)

    def flatten(self, order='C'):
        return SArr.wrap(self.a.flatten(order), self._dt)

    def squeeze(self, axis=None):
        return SArr.wrap(self.a.squeeze(axis=axis), self._dt)

    def transpose(self, *ax):
        return SArr.wrap(self.a.transpose(*ax), self._dt)

    def swapaxes(self, a, b):
        return SArr.wrap(self.a.swapaxes(a, b), self._dt)

    def diagonal(self, *a, **k):
        return SArr.wrap(self.a.diagonal(*a, **k), self._dt)

    def trace(self):
        return self.diagonal().sum()

    def repeat(self, n, axis=None):
        return SArr.wrap(self.a.repeat(np.asarray(n), axis=axis), self._dt)

    def take(self, ix, axis=None, **k):
        return SArr.wrap(self.a.take(np.asarray(ix), axis=axis), self._dt)

    def view(self, *a):
        if a and isinstance(a[0], (type(np.dtype(float)), type)) and a[0] not in (SArr, np.ndarray):
            if np.dtype(a[0]) != self._dt:
                raise Unsupported("reinterpreting view")
        return SArr.wrap(self.a.view(), self._dt)

    def fill(self, v):
        v = el(v, self._dt.kind)
        for ix in np.ndindex(self.a.shape):
            self.a[ix] = v

    def item(self, *ix):
        if ix:
            return lift(self.a.item(*ix)) if self._dt.kind == 'f' else self.a.item(*ix)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        v = self.a.reshape(-1)[0]
        return v

    def tolist(self):
        return self.a.tolist()

    def dot(self, o, out=None):
        return f_dot(self, o, out)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_sum(self, axis, dtype, out, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return _reduce(core.mul, self, axis, _acc_dtype(self._dt, dtype), out, keepdims, initial=1)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_mean(self, axis, dtype, out, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = f_mean(self, axis, None, None, True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return f_sum(d * d, axis, dtype, out, keepdims) / (n - ddof)

    def std(self, *a, **k):
        return np.sqrt(self.var(*a, **k))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(core.maximum, self, axis, self._dt, out, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(core.minimum, self, axis, self._dt, out, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return _reduce_bool(any_, self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return _reduce_bool(all_, self, axis, keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis, dtype)

    def argmax(self, axis=None, **k):
        return f_argext(self, axis, '>')

    def argmin(self, axis=None, **k):
        return f_argext(self, axis, '<')

    def argsort(self, axis=-1, kind=None, order=None):
        return f_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self.a[...] = f_sort(self, axis).a

    def nonzero(self):
        return f_nonzero(self)

    def searchsorted(self, v, side='left', sorter=None):
        return f_searchsorted(self, v, side)

    def clip(self, min=None, max=None, out=None):
        lo, hi, r = min, max, self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r

    def round(self, decimals=0, out=None):
        return np.around(self, decimals)

    def conj(self):
        return self

    def tobytes(self):
        return np.asarray(self).tobytes()


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    if isinstance(s, (SArr, np.ndarray)) and s.ndim:
        return tuple(int(x) for x in s)
    if isinstance(s, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(s, Sym) and s.k == 'r':
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (int(s),)


def _is_scalar_ix(a, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    return len(ix) == a.ndim and all(isinstance(i, (int, np.integer)) and not isinstance(i, bool) for i in ix)


def _ix1(i):
    if isinstance(i, Sym):
        if i.k == 'r':
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        return int(i)
    if isinstance(i, Bool):
        return bool(i)
    if isinstance(i, SArr):
        if i._dt.kind == 'f':
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.asarray(i)
    if isinstance(i, slice):
        return slice(*[None if x is None else _slice_ix(x) for x in (i.start, i.stop, i.step)])
    if isinstance(i, (list, tuple)) and has_sym(i):
        return np.asarray(SArr.of(i))
    return i


def _slice_ix(x):
    if isinstance(x, (Sym, SArr)):
        return x.__index__()
    return x


def _sym_int(i):
    return isinstance(i, Sym) and i.k == 'i' and i.c is None


def _in_bounds(i, n, what="index within bounds", wrap=True):
    """python-style index check: raises IndexError on the failing path"""
    ok = cmp_(i, lift(-n if wrap else 0), '>=') & cmp_(i, lift(n), '<')
    if not bool(ok):
        ctx().events.append('IndexError')
        raise IndexError("index out of bounds for axis with size %d" % n)
    if wrap and bool(cmp_(i, lift(0), '<')):
        i = i + n
    return i


def _sym_gather(A, ix):
    """read with symbolic scalar indices as an if-then-else chain (no forking)"""
    if not isinstance(ix, tuple):
        ix = (ix,)
    if isinstance(ix, tuple) and any(_sym_int(i) for i in ix) and len(ix) <= A.ndim and \
            all(_sym_int(i) or isinstance(i, (int, np.integer)) for i in ix):
        fixed = []
        for d, i in enumerate(ix):
            fixed.append(_in_bounds(i, A.shape[d]) if _sym_int(i) else int(i))
        if len(ix) < A.ndim:
            rest = A.shape[len(ix):]
            out = np.empty(rest, dtype=object)
            for r in np.ndindex(rest):
                out[r] = el(_chain(A.a, tuple(fixed) + r), A._dt.kind)
            return SArr.wrap(out, A._dt)
        return out_scalar(_chain(A.a, fixed), A._dt)
    # a vector of symbolic integers indexing the first axis
    if len(ix) == 1 and isinstance(ix[0], SArr) and ix[0]._dt.kind in 'iu' and A.ndim == 1 and \
            any(isinstance(v, Sym) for v in ix[0].a.reshape(-1)):
        src = ix[0].a
        out = np.empty(src.shape, dtype=object)
        for p in np.ndindex(src.shape):
            v = src[p]
            out[p] = el(_chain(A.a, [_in_bounds(v, A.shape[0])]) if isinstance(v, Sym) else A.a[v], A._dt.kind)
        return SArr.wrap(out, A._dt)
    return None


def _chain(a, ix):
    """a[ix] with symbolic components of ix expanded into ite chains"""
    for d, i in enumerate(ix):
        if _sym_int(i):
            n = a.shape[d]
            lo, hi = bounds_of(i)
            cands = [j for j in range(n) if (lo is None or j >= lo) and (hi is None or j <= hi)]
            if not cands:
                cands = [n - 1]
            pre = tuple(ix[:d])
            post = tuple(ix[d + 1:])
            r = _chain(a, pre + (cands[-1],) + post)
            for j in reversed(cands[:-1]):
                r = ite(cmp_(i, lift(j), '=='), _chain(a, pre + (j,) + post), r)
            return r
    return a[tuple(int(i) for i in ix)]


def bounds_of(s):
    """interval of a symbolic integer from the declared bounds of its atoms (or None)"""
    C = ctx()
    lo = hi = 0
    for m, c in s.poly().items():
        l = h = 1
        for i, pw in m:
            at = C.atoms[i]
            al, ah = at.lo, at.hi
            if al is None and at.sign > 0:
                al = 1 if at.sign == core.POS and at.kind == 'i' else 0
            for _ in range(abs(pw)):
                vs = [None if x is None or y is None else x * y for x in (l, h) for y in (al, ah)]
                if None in vs:
                    if l is not None and l >= 0 and al is not None and al >= 0:
                        l, h = l * al, (None if h is None or ah is None else h * ah)
                    else:
                        l = h = None
                        break
                else:
                    l, h = min(vs), max(vs)
            if l is None and h is None:
                break
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


def _sym_scatter(A, ix, v):
    """write at symbolic scalar indices / under a symbolic mask, merging with the old contents"""
    t = ix if isinstance(ix, tuple) else (ix,)
    k = A._dt.kind
    if any(_sym_int(i) for i in t) and len(t) == A.ndim and \
            all(_sym_int(i) or isinstance(i, (int, np.integer)) for i in t):
        fixed = [_in_bounds(i, A.shape[d]) if _sym_int(i) else
                 (int(i) if i >= 0 else int(i) + A.shape[d]) for d, i in enumerate(t)]
        scatter_obj(A.a, fixed, el(v, k), k)
        return True
    if len(t) == 1 and isinstance(ix, SArr) and ix._dt.kind == 'b' and \
            any(isinstance(b, Bool) for b in ix.a.reshape(-1)):
        if isinstance(v, (SArr, np.ndarray)) and getattr(v, 'ndim', 0):
            return False
        m = ix.a
        if m.ndim < A.a.ndim:
            m = m.reshape(m.shape + (1,) * (A.a.ndim - m.ndim))
        m = np.broadcast_to(m, A.a.shape)
        nv = el(v, k)
        for p in np.ndindex(A.a.shape):
            A.a[p] = el(ite(as_bool(m[p]), nv, A.a[p]), k)
        return True
    return False


def scatter_obj(a, ix, v, k):
    sym = [d for d, i in enumerate(ix) if _sym_int(i)]
    rng = []
    for d in sym:
        lo, hi = bounds_of(ix[d])
        rng.append([j for j in range(a.shape[d]) if (lo is None or j >= lo) and (hi is None or j <= hi)])
    for combo in itertools.product(*rng):
        c = TRUE
        pos = list(ix)
        for d, j in zip(sym, combo):
            c = c & cmp_(ix[d], lift(j), '==')
            pos[d] = j
        p = tuple(int(x) for x in pos)
        a[p] = el(ite(c, v, a[p]), k)


# --------------------------------------------------------------------------
# casting
# --------------------------------------------------------------------------
def cast_el(x, src, dst):
    ks, kd = src.kind, dst.kind
    if kd == 'b':
        if isinstance(x, Sym):
            b = cmp_(x, lift(0), '!=')
            return b.c if b.c is not None else b
        return el(x, 'b')
    if kd in 'iu':
        r = el(x, kd)
        if isinstance(r, int):
            info = np.iinfo(dst)
            if not info.min <= r <= info.max:
                r = (r - info.min) % (1 << info.bits) + info.min
            return r
        return wrap_int(r, dst)
    return el(x, kd)


def wrap_int(r, dst):
    """C conversion of a symbolic integer to a fixed-width type"""
    info = np.iinfo(dst)
    lo, hi = bounds_of(r)
    if lo is not None and lo >= info.min and hi is not None and hi <= info.max:
        return r
    if info.bits >= 32:
        C = ctx()
        C.assume_notes.add("no overflow of %d-bit integers (values are bounded well below)" % info.bits)
        return r
    m = core.mod(core.sub(r, lift(int(info.min))), lift(1 << info.bits))
    m = core.add(m, lift(int(info.min)))
    return int(m.c) if m.c is not None else m


def _cast_obj(a, src, dst):
    out = np.empty_like(a)
    for ix in np.ndindex(a.shape):
        out[ix] = cast_el(a[ix], src, dst)
    return out


def cast(s, dt):
    """scalar astype"""
    dt = np.dtype(dt)
    return out_scalar(cast_el(s, np.dtype(s.dtype), dt), dt)


# --------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------
def _signf(x):
    x = lift(x)
    return ite(cmp_(x, lift(0), '>'), lift(1.0), ite(cmp_(x, lift(0), '<'), lift(-1.0), lift(0.0)))


def _isnan(x):
    x = lift(x)
    return Bool(x.c is not None and x.c != x.c)


def _isinf(x):
    x = lift(x)
    return Bool(x.c is not None and isinstance(x.c, float) and x.c in (math.inf, -math.inf))


def _isfinite(x):
    x = lift(x)
    return Bool(not (x.c is not None and isinstance(x.c, float)))


def _logaddexp(a, b):
    return core.log_(core.add(core.exp_(a), core.exp_(b)))


def _xlogy(a, b):
    a = lift(a)
    if a.c is not None and a.c == 0:
        return lift(0.0)
    if ctx().p_sign(a.poly()) in (core.POS, -core.POS):
        return core.mul(a, core.log_(b))
    if bool(cmp_(a, lift(0), '==')):
        return lift(0.0)
    return core.mul(a, core.log_(b))


def _bitop(f, g):
    def h(a, b):
        if isinstance(a, (Bool, bool, np.bool_)) and isinstance(b, (Bool, bool, np.bool_)):
            return g(as_bool(a), as_bool(b))
        a, b = lift(a), lift(b)
        if a.c is None or b.c is None:
            raise Unsupported("bit operation on symbolic integers")
        return f(int(a.c), int(b.c))
    return h


def _invert(a):
    if isinstance(a, (Bool, bool, np.bool_)):
        return as_bool(a).neg()
    return core.sub(core.neg(a), lift(1))


UF = {
    'add': core.add, 'subtract': core.sub, 'multiply': core.mul, 'true_divide': core.div, 'divide': core.div,
    'floor_divide': core.floordiv, 'remainder': core.mod, 'mod': core.mod, 'power': core.power,
    'float_power': core.power, 'negative': core.neg, 'positive': lambda x: x,
    'absolute': core.abs_, 'abs': core.abs_, 'fabs': core.abs_,
    'less': lambda a, b: cmp_(a, b, '<'), 'less_equal': lambda a, b: cmp_(a, b, '<='),
    'greater': lambda a, b: cmp_(a, b, '>'), 'greater_equal': lambda a, b: cmp_(a, b, '>='),
    'equal': lambda a, b: _eq(a, b), 'not_equal': lambda a, b: _eq(a, b).neg(),
    'exp': core.exp_, 'log': core.log_, 'sqrt': core.sqrt_,
    'square': lambda x: core.mul(x, x), 'reciprocal': lambda x: _recip(x),
    'exp2': lambda x: core.power(lift(2.0), x), 'expm1': lambda x: core.sub(core.exp_(x), lift(1)),
    'log1p': lambda x: core.log_(core.add(lift(1.0), x)), 'log2': lambda x: core.div(core.log_(x), core.log_(lift(2))),
    'log10': lambda x: core.div(core.log_(x), core.log_(lift(10))),
    'floor': lambda x: core.floor_(x, False), 'ceil': lambda x: core.neg(core.floor_(core.neg(x), False)),
    'rint': core.rint, 'trunc': lambda x: _truncf(x),
    'maximum': core.maximum, 'minimum': core.minimum, 'fmax': core.maximum, 'fmin': core.minimum,
    'sign': _signf, 'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
    'logical_and': lambda a, b: as_bool(a) & as_bool(b), 'logical_or': lambda a, b: as_bool(a) | as_bool(b),
    'logical_not': lambda a: as_bool(a).neg(), 'logical_xor': lambda a, b: as_bool(a) ^ as_bool(b),
    'bitwise_and': _bitop(lambda a, b: a & b, lambda a, b: a & b),
    'bitwise_or': _bitop(lambda a, b: a | b, lambda a, b: a | b),
    'bitwise_xor': _bitop(lambda a, b: a ^ b, lambda a, b: a ^ b), 'invert': _invert,
    'psi': core.digamma_, 'digamma': core.digamma_, 'gammaln': core.gammaln_, 'loggamma': core.gammaln_,
    'erf': core.erf_, 'erfc': core.erfc_, 'arctan': core.arctan_f, 'logaddexp': _logaddexp, 'xlogy': _xlogy,
    'expit': lambda x: core.div(lift(1.0), core.add(lift(1.0), core.exp_(core.neg(x)))),
    'tanh': lambda x: core.sub(core.div(lift(2.0), core.add(lift(1.0), core.exp_(core.mul(lift(-2), x)))), lift(1.0)),
    'sinh': lambda x: core.div(core.sub(core.exp_(x), core.exp_(core.neg(x))), lift(2.0)),
    'cosh': lambda x: core.div(core.add(core.exp_(x), core.exp_(core.neg(x))), lift(2.0)),
    'hypot': lambda a, b: core.sqrt_(core.add(core.mul(a, a), core.mul(b, b))),
    'heaviside': lambda x, h: ite(cmp_(x, lift(0), '<'), lift(0.0), ite(cmp_(x, lift(0), '=='), lift(h), lift(1.0))),
    'entr': lambda x: core.neg(_xlogy(x, x)), 'radians': lambda x: core.mul(x, lift(math.pi / 180)),
    'rel_entr': lambda x, y: _xlogy(x, core.div(x, y)), 'deg2rad': lambda x: core.mul(x, lift(math.pi / 180)),
    'rad2deg': lambda x: core.mul(x, lift(180 / math.pi)),
    'degrees': lambda x: core.mul(x, lift(180 / math.pi)),
    'logit': lambda x: core.sub(core.log_(x), core.log_(core.sub(lift(1.0), x))),
    'conjugate': lambda x: x, 'copysign': lambda a, b: core.mul(core.abs_(a), _signf(b)),
}


def _recip(x):
    x = lift(x)
    if x.k == 'i':          # integer reciprocal truncates
        if x.c is not None:
            return Sym(0 if abs(x.c) > 1 else x.c, None, 'i')
        return ite(cmp_(x, lift(1), '=='), lift(1), ite(cmp_(x, lift(-1), '=='), lift(-1), lift(0)))
    return core.div(lift(1.0), x)


def _truncf(x):
    s = core.trunc(x)
    return Sym(s.c, s.p, 'r')


def _eq(a, b):
    if isinstance(a, (Bool, bool, np.bool_)) and isinstance(b, (Bool, bool, np.bool_)):
        return (as_bool(a) ^ as_bool(b)).neg()
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return Bool(a is b or (isinstance(a, str) and a == b))
    return as_bool(cmp_(a, b, '=='))


def _dummy(x):
    """a concrete stand-in with the same dtype behaviour"""
    if isinstance(x, SArr) and x.ndim:
        return np.ones((1,), dtype=x.dtype)
    if isinstance(x, SArr):
        return x.dtype.type(1)
    if isinstance(x, np.ndarray) and x.ndim:
        return np.ones((1,), dtype=x.dtype) if x.dtype != _OBJ else np.ones((1,))
    if isinstance(x, Sym):
        if x.dt is not None:
            return np.dtype(x.dt).type(1)
        return 1.0 if x.k == 'r' else 1
    if isinstance(x, Bool):
        return np.bool_(True)
    if isinstance(x, (list, tuple)):
        return np.ones((1,), dtype=infer_dtype(x))
    if hasattr(x, '__symx_dense__'):
        return np.ones((1,), dtype=x.dtype)
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return x if x else 1
    if isinstance(x, float):
        return 1.0
    if isinstance(x, np.generic):
        return x if x.dtype.kind != 'f' else x.dtype.type(1)
    return x


def _in_obj(x):
    """operand as something frompyfunc accepts"""
    if isinstance(x, SArr):
        return x.a
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != _OBJ else x
    if isinstance(x, (list, tuple)):
        return to_obj(x)
    if hasattr(x, '__symx_dense__'):
        return x.__symx_dense__().a
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    for x in inputs:
        if hasattr(x, '__symx_sparse_ufunc__'):
            r = x.__symx_sparse_ufunc__(name, method, inputs, kw)
            if r is not NotImplemented:
                return r
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    if method == 'reduce':
        return _uf_reduce(name, inputs[0], out=out, **kw)
    if method == 'outer':
        a, b = (to_obj(v) for v in inputs)
        a2 = SArr.wrap(a.reshape(a.shape + (1,) * b.ndim), infer_dtype(inputs[0]))
        return dispatch_ufunc(ufunc, '__call__', (a2, SArr.wrap(b, infer_dtype(inputs[1]))), kw)
    if method == 'accumulate' and name == 'add':
        return f_cumsum(inputs[0], kw.get('axis', 0), None)
    if method == 'accumulate' and name == 'multiply':
        return _cumprod(inputs[0], kw.get('axis', 0))
    if method == 'reduceat':
        x, ix = _as_sarr(inputs[0]), [int(i) for i in inputs[1]]
        ax = kw.get('axis', 0)
        if ax not in (0, -x.ndim):
            raise Unsupported("reduceat along another axis")
        if any(not 0 <= i < x.shape[0] for i in ix):
            raise IndexError("index out-of-bounds in %s.reduceat" % name)
        rs = []
        for j, i in enumerate(ix):
            e = ix[j + 1] if j + 1 < len(ix) else x.shape[0]
            rs.append(_uf_reduce(name, x[i:e]) if e > i else x[i])
        return NP.array(rs)
    if method == 'at' and name in ('add', 'subtract') and (isinstance(inputs[1], tuple) or (np.ndim(inputs[1]) == 1 and inputs[0].ndim > 1)):
        A, ix, v = inputs
        ix = ix if isinstance(ix, tuple) else (ix,)
        ix = np.broadcast_arrays(*[np.asarray(i) for i in ix])
        rest = A.shape[len(ix):]
        v = np.broadcast_to(to_obj(v), ix[0].shape + rest)
        for j in np.ndindex(ix[0].shape):
            p = tuple(int(i[j]) for i in ix)
            for q in np.ndindex(rest):
                A[p + q] = A[p + q] + v[j + q] if name == 'add' else A[p + q] - v[j + q]
        return None
    if method == 'at' and name in ('add', 'subtract'):
        A, ix, v = inputs
        ix = np.atleast_1d(np.asarray(ix))
        v = np.broadcast_to(to_obj(v), ix.shape)
        for i, x in zip(ix, v):
            A[i] = A[i] + x if name == 'add' else A[i] - x
        return None
    if method != '__call__':
        raise Unsupported("ufunc method %s.%s" % (name, method))
    if name == 'matmul':
        r = f_dot(inputs[0], inputs[1], None, matmul=True)
        if out is not None:
            out[...] = r
            return out
        return r
    f = UF.get(name)
    if f is None:
        raise Unsupported("ufunc %s" % name)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    casting = kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    # result dtype (and casting errors) from the real ufunc
    dargs = [_dummy(x) for x in inputs]
    dk = {}
    if dtype is not None:
        dk['dtype'] = dtype
    if casting is not None:
        dk['casting'] = casting
    with np.errstate(all='ignore'):
        if out is not None and not hasattr(out, '__symx_dense__'):
            dout = np.ones((1,), dtype=out.dtype)
            if name == 'power' and all(np.asarray(d).dtype.kind in 'iu' for d in dargs):
                dargs[1] = abs(dargs[1])
            ufunc(*dargs, out=dout, **dk)
            rdt = out.dtype
        else:
            if name == 'power' and np.asarray(dargs[1]).dtype.kind in 'iu' and np.asarray(dargs[0]).dtype.kind in 'iu':
                dargs[1] = np.abs(dargs[1])
            rdt = np.asarray(ufunc(*dargs, **dk)).dtype
            if dtype is not None and rdt.kind != 'b':
                rdt = np.dtype(dtype)
    if name in ('true_divide', 'divide'):
        pass
    objs = [_in_obj(x) for x in inputs]
    try:
        shape = np.broadcast_shapes(*[o.shape for o in objs])
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes " + " ".join(str(o.shape) for o in objs))
    k = rdt.kind
    res = np.empty(shape, dtype=object)
    bs = [np.broadcast_to(o, shape) for o in objs]
    kinds = [np.asarray(d).dtype.kind for d in dargs]
    wm = None if where is True else np.broadcast_to(to_obj(where), shape)
    for ix in np.ndindex(shape):
        if wm is not None:
            w = as_bool(wm[ix])
            if w.c is False or (w.c is None and not bool(w)):
                res[ix] = (out[ix] if out is not None else el(fresh('uninit', k), k))
                if isinstance(res[ix], np.generic):
                    res[ix] = el(res[ix], k)
                continue
        args = [b[ix] for b in bs]
        if k == 'f' or 'f' in kinds:
            args = [x if isinstance(x, (Bool, str)) else _fl(x) for x in args]
        elif name in ('add', 'multiply') and k == 'b':
            a, b = (as_bool(x) for x in args)
            res[ix] = el((a | b) if name == 'add' else (a & b), 'b')
            continue
        elif name in ('maximum', 'minimum', 'fmax', 'fmin') and k == 'b':
            a, b = (as_bool(x) for x in args)
            res[ix] = el((a | b) if 'max' in name else (a & b), 'b')
            continue
        res[ix] = el(f(*args), k)
    if out is not None:
        if isinstance(out, SArr):
            if out.a.shape != res.shape:
                if np.broadcast_shapes(out.a.shape, res.shape) != out.a.shape:
                    raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (out.a.shape, res.shape))
            out.a[...] = res
            return out
        if isinstance(out, np.ndarray):
            for ix in np.ndindex(out.shape):
                v = res[ix]
                if isinstance(v, (Sym, Bool)):
                    if isinstance(v, Bool) or v.c is None:
                        raise Unsupported("symbolic result stored in a concrete array")
                    v = v.c
                out[ix] = v
            return out
        raise Unsupported("out= of type %s" % type(out))
    if shape == ():
        if all(not (isinstance(x, (SArr, np.ndarray)) and x.ndim) for x in inputs):
            return out_scalar(res[()], rdt)
    return SArr.wrap(res, rdt)


def _fl(x):
    """promote an element to a real"""
    if isinstance(x, Sym):
        return x if x.k == 'r' else Sym(x.c, x.p, 'r')
    if isinstance(x, (bool, np.bool_)):
        return Sym(int(x), None, 'r')
    if isinstance(x, (int, np.integer)):
        return Sym(int(x), None, 'r')
    return lift(x)


def _uf_reduce(name, x, axis=0, dtype=None, out=None, keepdims=False, **kw):
    x = x if isinstance(x, SArr) else SArr.of(x)
    if name == 'add':
        return f_sum(x, axis, dtype, out, keepdims)
    if name == 'multiply':
        return _reduce(core.mul, x, axis, _acc_dtype(x.dtype, dtype), out, keepdims, initial=1)
    if name in ('maximum', 'fmax'):
        return _reduce(core.maximum, x, axis, x.dtype, out, keepdims)
    if name in ('minimum', 'fmin'):
        return _reduce(core.minimum, x, axis, x.dtype, out, keepdims)
    if name == 'logical_or':
        return _reduce_bool(any_, x, axis, keepdims)
    if name == 'logical_and':
        return _reduce_bool(all_, x, axis, keepdims)
    if name == 'logaddexp':
        r = NP.log(f_sum(NP.exp(x), axis, None, None, keepdims))
        if out is not None:
            out[...] = r
            return out
        return r
    raise Unsupported("reduce of %s" % name)


# --------------------------------------------------------------------------
# reductions and linear algebra
# --------------------------------------------------------------------------
def _acc_dtype(dt, dtype):
    if dtype is not None:
        return np.dtype(dtype)
    dt = np.dtype(dt)
    if dt.kind == 'b' or (dt.kind == 'i' and dt.itemsize < 8):
        return np.dtype(int)
    if dt.kind == 'u' and dt.itemsize < 8:
        return np.dtype(np.uint64)
    return dt


def _as_sarr(x):
    if isinstance(x, SArr):
        return x
    if hasattr(x, '__symx_dense__'):
        return x.__symx_dense__()
    return SArr.of(x)


def _reduce(f, x, axis, dt, out, keepdims, initial=None):
    x = _as_sarr(x)
    a = x.a
    k = np.dtype(dt).kind
    if isinstance(axis, tuple):
        ax = sorted((t % a.ndim for t in axis), reverse=True)
        r = x
        for t in ax:
            r = _reduce(f, r, t, dt, None, keepdims, initial)
        return r
    if axis is None:
        vals = list(a.reshape(-1))
        if not vals and initial is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        v = el(initial, k) if initial is not None and not vals else None
        for e in vals:
            e = el(e, k)
            v = e if v is None else f(v, e)
        v = el(v, k)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[(0,) * a.ndim] = v
            r = SArr.wrap(o, dt)
        else:
            r = out_scalar(v, dt)
        if out is not None:
            out[...] = r
            return out
        return r
    if a.ndim == 0:
        return out_scalar(el(a[()], k), dt)
    if not -a.ndim <= axis < a.ndim:
        raise np.AxisError(axis, a.ndim)
    axis = axis % a.ndim
    m = np.moveaxis(a, axis, 0)
    res = np.empty(m.shape[1:], dtype=object)
    for ix in np.ndindex(res.shape):
        v = None
        for j in range(m.shape[0]):
            e = el(m[(j,) + ix], k)
            v = e if v is None else f(v, e)
        if v is None:
            if initial is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            v = initial
        res[ix] = el(v, k)
    if keepdims:
        res = np.expand_dims(res, axis)
    if out is not None:
        out[...] = SArr.wrap(res, dt)
        return out
    if res.ndim == 0:
        return out_scalar(res[()], dt)
    return SArr.wrap(res, dt)


def _reduce_bool(f, x, axis, keepdims):
    x = _as_sarr(x)
    if axis is None:
        r = f(as_bool(v) for v in x.a.reshape(-1))
        return np.bool_(r.c) if r.c is not None else r
    m = np.moveaxis(x.a, axis, 0)
    res = np.empty(m.shape[1:], dtype=object)
    for ix in np.ndindex(res.shape):
        res[ix] = el(f(as_bool(m[(j,) + ix]) for j in range(m.shape[0])), 'b')
    if keepdims:
        res = np.expand_dims(res, axis)
    if res.ndim == 0:
        return out_scalar(res[()], bool)
    return SArr.wrap(res, bool)


def _addf(a, b):
    """sum of many terms: build the polynomial once"""
    return core.add(a, b)


def f_sum(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if hasattr(x, '__symx_sparse__'):
        return x.sum(axis)
    if isinstance(x, (list, tuple)):
        x = SArr.of(x)
    if isinstance(x, (Sym, Bool)):
        return x
    return _reduce(core.add, x, axis, _acc_dtype(infer_dtype(x), dtype), out, keepdims, initial=0)


def f_mean(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if hasattr(x, '__symx_sparse__'):
        return x.mean(axis)
    x = _as_sarr(x)
    dt = np.dtype(dtype) if dtype else (x.dtype if x.dtype.kind == 'f' else np.dtype(float))
    n = x.size if axis is None else (x.shape[axis] if not isinstance(axis, tuple) else int(np.prod([x.shape[t] for t in axis])))
    s = _reduce(core.add, x, axis, dt, None, keepdims, initial=0)
    r = s / lift(float(n)) if n else lift(math.nan)
    if isinstance(r, SArr):
        r = SArr.wrap(r.a, dt)
    elif isinstance(r, Sym):
        r = Sym(r.c, r.p, 'r', dt)
    if out is not None:
        out[...] = r
        return out
    return r


def f_cumsum(x, axis=None, dtype=None, out=None):
    x = _as_sarr(x)
    dt = _acc_dtype(x.dtype, dtype)
    if axis is None:
        src = x.a.reshape(-1)
        axis = 0
    else:
        src = x.a
    res = np.empty(src.shape, dtype=object)
    m, r = np.moveaxis(src, axis, 0), np.moveaxis(res, axis, 0)
    for ix in np.ndindex(m.shape[1:]):
        acc = None
        for j in range(m.shape[0]):
            e = el(m[(j,) + ix], dt.kind)
            acc = e if acc is None else core.add(acc, e)
            r[(j,) + ix] = el(acc, dt.kind)
    return SArr.wrap(res, dt)


def _mul_sum(xs, ys, kind):
    """sum of products with int/real elements"""
    if kind == 'f':
        acc = {}
        tot = None
        for a, b in zip(xs, ys):
            p = core.mul(_fl(a), _fl(b))
            tot = p if tot is None else core.add(tot, p)
        return tot if tot is not None else lift(0.0)
    if kind == 'b':
        return any_(as_bool(a) & as_bool(b) for a, b in zip(xs, ys))
    tot = lift(0)
    for a, b in zip(xs, ys):
        tot = core.add(tot, core.mul(a, b))
    return tot


def f_dot(a, b, out=None, matmul=False):
    if hasattr(a, '__symx_sparse__') or hasattr(b, '__symx_sparse__'):
        if hasattr(a, '__symx_sparse__'):
            return a.dot(b)
        return b.__rmatmul__(a)
    da, db = infer_dtype(a), infer_dtype(b)
    dt = np.promote_types(da, db)
    oa, ob = to_obj(a), to_obj(b)
    if oa.ndim == 0 or ob.ndim == 0:
        r = dispatch_ufunc(np.multiply, '__call__', (a, b), {})
    else:
        if matmul and (oa.ndim > 2 or ob.ndim > 2):
            raise Unsupported("batched matmul")
        if oa.ndim > 2 or ob.ndim > 2:
            raise Unsupported("dot of more than two dimensions")
        A = oa.reshape(1, -1) if oa.ndim == 1 else oa
        B = ob.reshape(-1, 1) if ob.ndim == 1 else ob
        if A.shape[1] != B.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (oa.shape, ob.shape))
        res = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                res[i, j] = el(_mul_sum(A[i, :], B[:, j], dt.kind), dt.kind)
        if oa.ndim == 1 and ob.ndim == 1:
            r = out_scalar(res[0, 0], dt)
        elif oa.ndim == 1:
            r = SArr.wrap(res[0], dt)
        elif ob.ndim == 1:
            r = SArr.wrap(res[:, 0], dt)
        else:
            r = SArr.wrap(res, dt)
    if out is not None:
        if out.dtype != dt or out.shape != r.shape:
            raise ValueError("output array is not acceptable (must have the right datatype, number of dimensions, and be a C-Array)")
        out[...] = r
        return out
    return r


def f_outer(a, b, out=None):
    oa, ob = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
    dt = np.promote_types(infer_dtype(a), infer_dtype(b))
    r = dispatch_ufunc(np.multiply, '__call__', (SArr.wrap(oa[:, None], infer_dtype(a)), SArr.wrap(ob[None, :], infer_dtype(b))), {})
    if out is not None:
        out[...] = r
        return out
    return r


def f_einsum(sub, *ops, **kw):
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, outp = sub.split('->')
    else:
        ins = sub
        letters = sorted(set(ins.replace(',', '')))
        outp = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    objs = [to_obj(o) for o in ops]
    dt = infer_dtype(ops[0])
    for o in ops[1:]:
        dt = np.promote_types(dt, infer_dtype(o))
    size = {}
    for s, o in zip(ins, objs):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains wrong number of dimensions")
        for c, n in zip(s, o.shape):
            if size.setdefault(c, n) != n:
                raise ValueError("operands could not be broadcast together in einsum")
    summed = [c for c in size if c not in outp]
    res = np.empty(tuple(size[c] for c in outp), dtype=object)
    for ox in np.ndindex(res.shape):
        env = dict(zip(outp, ox))
        tot = el(0, dt.kind)
        for sx in np.ndindex(tuple(size[c] for c in summed)):
            env.update(zip(summed, sx))
            t = None
            for s, o in zip(ins, objs):
                v = o[tuple(env[c] for c in s)]
                v = _fl(v) if dt.kind == 'f' else v
                t = v if t is None else core.mul(t, v)
            tot = core.add(tot, t)
        res[ox] = el(tot, dt.kind)
    if res.ndim == 0:
        return out_scalar(res[()], dt)
    return SArr.wrap(res, dt)


# --------------------------------------------------------------------------
# searching, sorting
# --------------------------------------------------------------------------
def _lt(a, b):
    return as_bool(cmp_(a, b, '<'))


def f_argsort(x, axis=-1, *a, **k):
    """a concrete permutation; forks on comparisons (insertion sort, stable)"""
    x = _as_sarr(x)
    if x.ndim == 0:
        return np.zeros((1,), dtype=np.intp)
    if axis is None:
        x = x.reshape(-1)
        axis = -1
    m = np.moveaxis(x.a, axis, -1)
    res = np.empty(m.shape, dtype=np.intp)
    for ix in np.ndindex(m.shape[:-1]):
        row = m[ix]
        order = []
        for i in range(len(row)):
            j = len(order)
            while j > 0 and bool(_lt(row[i], row[order[j - 1]])):
                j -= 1
            order.insert(j, i)
        res[ix] = order
    return np.moveaxis(res, -1, axis)


def f_sort(x, axis=-1, *a, **k):
    x = _as_sarr(x)
    if axis is None:
        x = x.reshape(-1)
        axis = -1
    ind = f_argsort(x, axis)
    m, n = np.moveaxis(x.a, axis, -1), np.moveaxis(ind, axis, -1)
    res = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(m.shape[:-1]):
        res[ix] = m[ix][n[ix]]
    return SArr.wrap(np.moveaxis(res, -1, axis), x.dtype)


def f_argext(x, axis, op):
    x = _as_sarr(x)
    if axis is None:
        row = x.a.reshape(-1)
        if not len(row):
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        for i in range(1, len(row)):
            if bool(as_bool(cmp_(row[i], row[best], op))):
                best = i
        return np.int64(best)
    m = np.moveaxis(x.a, axis, -1)
    res = np.empty(m.shape[:-1], dtype=np.intp)
    for ix in np.ndindex(res.shape):
        res[ix] = f_argext(SArr.wrap(m[ix], x.dtype), None, op)
    return res if res.ndim else np.int64(res)


def f_nonzero(x):
    x = _as_sarr(x)
    if x.ndim == 0:
        x = x.reshape(1)
    hits = [ix for ix in np.ndindex(x.a.shape) if bool(as_bool(x.a[ix]))]
    return tuple(np.array([h[d] for h in hits], dtype=np.int64) for d in range(x.ndim))


def f_where(c, a=None, b=None):
    if a is None:
        return f_nonzero(c)
    dt = np.promote_types(infer_dtype(a), infer_dtype(b))
    for s, o in ((a, b), (b, a)):          # value-based: python scalars do not promote
        if isinstance(s, (int, float)) and not isinstance(s, bool) and isinstance(o, SArr) and o.dtype.kind == 'f':
            dt = o.dtype
    oc, oa, ob = to_obj(c), to_obj(a), to_obj(b)
    sh = np.broadcast_shapes(oc.shape, oa.shape, ob.shape)
    oc, oa, ob = (np.broadcast_to(o, sh) for o in (oc, oa, ob))
    res = np.empty(sh, dtype=object)
    for ix in np.ndindex(sh):
        res[ix] = el(ite(as_bool(oc[ix]), el(oa[ix], dt.kind), el(ob[ix], dt.kind)), dt.kind)
    return SArr.wrap(res, dt)


def f_searchsorted(a, v, side='left', sorter=None):
    a = _as_sarr(a)

    def one(t):
        i = 0
        n = len(a.a)
        while i < n and bool(as_bool(cmp_(a.a[i], t, '<' if side == 'left' else '<='))):
            i += 1
        return i
    ov = to_obj(v)
    if ov.ndim == 0:
        return np.int64(one(ov[()]))
    return np.array([one(t) for t in ov.reshape(-1)], dtype=np.int64).reshape(ov.shape)


def f_unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    x = _as_sarr(x)
    if x.dtype.kind in 'iub':
        return np.unique(np.asarray(x), return_index, return_inverse, return_counts)
    if axis is not None:
        raise Unsupported("unique along an axis")
    order = f_argsort(x.reshape(-1))
    flat = x.reshape(-1).a
    out, first, inv, count = [], [], np.empty(len(order), dtype=np.intp), []
    for i in order:
        if not out or not bool(_eq(flat[i], out[-1])):
            out.append(flat[i])
            first.append(i)
            count.append(0)
        inv[i] = len(out) - 1
        count[-1] += 1
    r = [SArr.of(out, x.dtype)]
    for want, v in ((return_index, np.array(first, dtype=np.intp)), (return_inverse, inv), (return_counts, np.array(count, dtype=np.intp))):
        if want:
            r.append(v)
    return r[0] if len(r) == 1 else tuple(r)


def f_bincount(x, weights=None, minlength=0):
    xs = [lift(v) for v in to_obj(x).reshape(-1)]
    xs = [int(v) for v in xs]
    n = max([minlength] + [v + 1 for v in xs])
    ws = to_obj(weights).reshape(-1) if weights is not None else [1] * len(xs)
    dt = np.dtype(float) if weights is not None else np.dtype(int)
    out = [el(0, dt.kind) for _ in range(n)]
    for v, w in zip(xs, ws):
        out[v] = el(core.add(out[v], _fl(w) if dt.kind == 'f' else w), dt.kind)
    return SArr.of(out, dt)


def f_around(x, decimals=0, out=None):
    if decimals:
        raise Unsupported("around with decimals")
    r = dispatch_ufunc(np.rint, '__call__', (x,), {}) if infer_dtype(x).kind == 'f' else x
    if out is not None:
        out[...] = r
        return out
    return r


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = abs(_as_sarr(a) - b)
    return d <= atol + rtol * abs(_as_sarr(b))


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(as_bool(f_isclose(a, b, rtol, atol).all()))


def f_diag(x, k=0):
    x = _as_sarr(x)
    if x.ndim == 1:
        n = x.shape[0] + abs(k)
        o = objarr(np.zeros((n, n)), x.dtype.kind)
        for i in range(x.shape[0]):
            o[(i, i + k) if k >= 0 else (i - k, i)] = x.a[i]
        return SArr.wrap(o, x.dtype)
    return SArr.wrap(np.diag(x.a, k), x.dtype)


def f_copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        dst[...] = f_where(where, src, dst)
    else:
        dst[...] = src


def f_allnan(*a, **k):
    raise Unsupported("nan function")


def _concat(fn):
    def g(arrs, *a, **k):
        arrs = list(arrs)
        dt = infer_dtype(arrs[0])
        for x in arrs[1:]:
            dt = np.promote_types(dt, infer_dtype(x))
        out = k.pop('out', None)
        r = SArr.wrap(objarr(fn([to_obj(x) for x in arrs], *a, **k), dt.kind), dt)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _shapefn(fn):
    def g(x, *a, **k):
        if hasattr(x, '__symx_sparse__') and fn in (np.squeeze, np.ravel):
            return x
        a = [np.asarray(v) if isinstance(v, SArr) else v for v in a]
        r = fn(to_obj(x), *a, **k)
        dt = infer_dtype(x)
        if isinstance(r, list):
            return [SArr.wrap(v, dt) for v in r]
        if isinstance(r, np.ndarray):
            return SArr.wrap(r, dt)
        return out_scalar(r, dt)
    return g


FN = {}


def _reg(name, f):
    o = np
    for p in name.split('.'):
        o = getattr(o, p, None)
        if o is None:
            return
    FN[o] = f


def _average(x, axis=None, weights=None, returned=False, **k):
    if returned:
        _unsup('average with returned weights')
    x = _as_sarr(x)
    if weights is None:
        return f_mean(x, axis)
    w = _as_sarr(weights)
    if w.shape != x.shape:
        if axis is None or w.ndim != 1 or w.shape[0] != x.shape[axis]:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        w = w.reshape(*[-1 if i == axis % x.ndim else 1 for i in range(x.ndim)])
    return f_sum(x * w, axis) / f_sum(w * np.ones(x.shape), axis)


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or k:
        _unsup('cov of two sets')
    x = _as_sarr(m)
    if x.ndim < 2:
        x = x.reshape(1, -1)
    elif not rowvar:
        x = x.T
    n = x.shape[1]
    x = x - f_mean(x, 1)[:, np.newaxis]
    fact = n - ((0 if bias else 1) if ddof is None else ddof)
    if fact <= 0:
        _unsup('cov without degrees of freedom')
    r = f_dot(x, x.T) / fact
    return r[0, 0] if r.shape == (1, 1) else r


for _n in ('vstack', 'hstack', 'concatenate', 'stack', 'dstack', 'column_stack', 'row_stack'):
    _reg(_n, _concat(getattr(np, _n)))
for _n in ('reshape', 'squeeze', 'transpose', 'repeat', 'tile', 'expand_dims', 'roll', 'ravel', 'flip', 'fliplr',
           'flipud', 'rot90', 'swapaxes', 'moveaxis', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'diagonal', 'split',
           'array_split', 'take', 'delete', 'triu', 'tril', 'rollaxis', 'resize', 'compress', 'hsplit', 'vsplit'):
    _reg(_n, _shapefn(getattr(np, _n)))
for _n, _f in (('sum', f_sum), ('mean', f_mean), ('dot', f_dot), ('outer', f_outer), ('einsum', f_einsum),
               ('argsort', f_argsort), ('sort', f_sort), ('nonzero', f_nonzero), ('where', f_where),
               ('searchsorted', f_searchsorted), ('unique', f_unique), ('bincount', f_bincount),
               ('around', f_around), ('round_', f_around), ('round', f_around), ('isclose', f_isclose),
               ('allclose', f_allclose), ('diag', f_diag), ('copyto', f_copyto), ('cumsum', f_cumsum)):
    _reg(_n, _f)
_reg('prod', lambda x, axis=None, **k: _as_sarr(x).prod(axis))
for _n in ('max', 'amax'):
    _reg(_n, lambda x, axis=None, out=None, keepdims=False, **k: _as_sarr(x).max(axis, out, keepdims))
for _n in ('min', 'amin'):
    _reg(_n, lambda x, axis=None, out=None, keepdims=False, **k: _as_sarr(x).min(axis, out, keepdims))
_reg('any', lambda x, axis=None, out=None, keepdims=False, **k: _as_sarr(x).any(axis, None, keepdims))
_reg('all', lambda x, axis=None, out=None, keepdims=False, **k: _as_sarr(x).all(axis, None, keepdims))
_reg('argmax', lambda x, axis=None, **k: _as_sarr(x).argmax(axis))
_reg('argmin', lambda x, axis=None, **k: _as_sarr(x).argmin(axis))
_reg('clip', lambda x, lo=None, hi=None, out=None, **k: _as_sarr(x).clip(lo, hi, out))
_reg('var', lambda x, axis=None, **k: _as_sarr(x).var(axis, **k))
_reg('std', lambda x, axis=None, **k: _as_sarr(x).std(axis, **k))
_reg('trace', lambda x, **k: _as_sarr(x).trace())
_reg('inner', lambda a, b: f_dot(a, _as_sarr(b).T))
_reg('vdot', lambda a, b: f_dot(_as_sarr(a).reshape(-1), _as_sarr(b).reshape(-1)))
_reg('copy', lambda x, order='K', subok=False: _as_sarr(x).copy(order))
_reg('shape', lambda x: _as_sarr(x).shape)
_reg('ndim', lambda x: _as_sarr(x).ndim)
_reg('size', lambda x, axis=None: _as_sarr(x).size if axis is None else _as_sarr(x).shape[axis])
_reg('array_equal', lambda a, b, **k: _as_sarr(a).shape == _as_sarr(b).shape and bool(as_bool((_as_sarr(a) == b).all())))
_reg('zeros_like', lambda x, dtype=None, **k: SArr.of(np.zeros(x.shape, dtype=dtype or x.dtype)))
_reg('ones_like', lambda x, dtype=None, **k: SArr.of(np.ones(x.shape, dtype=dtype or x.dtype)))
_reg('empty_like', lambda x, dtype=None, order='K', **k: SArr(x.shape, dtype or x.dtype, order='F' if order == 'F' or (order == 'K' and x.flags.fnc) else 'C'))
_reg('full_like', lambda x, v, dtype=None, **k: NP.full(x.shape, v, dtype or x.dtype))
_reg('isfortran', lambda x: x.flags.fnc)
_reg('count_nonzero', lambda x, axis=None, **k: f_sum(_as_sarr(x) != 0, axis))
_reg('append', lambda a, b, axis=None: _concat(np.concatenate)([_as_sarr(a).reshape(-1), _as_sarr(b).reshape(-1)]) if axis is None else _concat(np.concatenate)([a, b], axis=axis))
_reg('result_type', lambda *a: np.result_type(*[_dummy(x) for x in a]))
_reg('can_cast', lambda a, b, casting='safe': np.can_cast(_dummy(a), b, casting))
_reg('may_share_memory', lambda a, b, **k: np.may_share_memory(to_obj(a), to_obj(b)))
_reg('shares_memory', lambda a, b, **k: np.shares_memory(to_obj(a), to_obj(b)))
_reg('iscomplexobj', lambda x: False)
_reg('isrealobj', lambda x: True)
_reg('in1d', lambda a, b, assume_unique=False, invert=False, **k: _isin(a, b, invert))
_reg('isin', lambda a, b, assume_unique=False, invert=False, **k: _isin(a, b, invert))
_reg('nan_to_num', lambda x, copy=True, nan=0.0, **k: _as_sarr(x).copy() if copy else x)
_reg('average', _average)
_reg('cov', _cov)


def _diff(x, n=1, axis=-1, **k):
    if k:
        _unsup('diff with borders')
    x = _as_sarr(x)
    for _ in range(n):
        a = np.moveaxis(x.a, axis, 0)
        x = SArr.wrap(np.moveaxis(a[1:], 0, axis), x.dtype) - SArr.wrap(np.moveaxis(a[:-1], 0, axis), x.dtype)
    return x


def _cumprod(x, axis=None, dtype=None, out=None):
    x = _as_sarr(x)
    if axis is None:
        x, axis = x.reshape(-1), 0
    o = np.moveaxis(x.a, axis, 0).copy()
    for i in range(1, o.shape[0]):
        for ix in np.ndindex(o.shape[1:]):
            o[(i,) + ix] = el(core.mul(o[(i - 1,) + ix], o[(i,) + ix]), x.dtype.kind)
    r = SArr.wrap(np.moveaxis(o, 0, axis), _acc_dtype(x.dtype, dtype))
    if out is not None:
        out[...] = r
        return out
    return r


def _norm(x, ord=None, axis=None, keepdims=False):
    x = _as_sarr(x)
    if isinstance(axis, tuple) and len(axis) == 1:
        axis = axis[0]
    vec = x.ndim == 1 or isinstance(axis, (int, np.integer))
    if ord is None or (ord == 2 and vec) or ord == 'fro':
        return NP.sqrt(f_sum(x * x, axis, keepdims=keepdims))
    if not vec:
        _unsup('matrix norm')
    a = NP.abs(x)
    if ord == 1:
        return f_sum(a, axis, keepdims=keepdims)
    if ord == np.inf:
        return a.max(axis, keepdims=keepdims)
    if ord == -np.inf:
        return a.min(axis, keepdims=keepdims)
    if ord == 0:
        return f_sum((x != 0).astype(float), axis, keepdims=keepdims)
    _unsup('norm ord')


def _kron(a, b):
    a, b = _as_sarr(a), _as_sarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return f_outer(a, b).reshape(-1)
    if a.ndim != 2 or b.ndim != 2:
        _unsup('kron of these shapes')
    r = a[:, None, :, None] * b[None, :, None, :]
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def _tensordot(a, b, axes=2):
    a, b = _as_sarr(a), _as_sarr(b)
    if isinstance(axes, (int, np.integer)):
        ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ia, ib = ([v] if isinstance(v, (int, np.integer)) else list(v) for v in axes)
    ia, ib = [i % a.ndim for i in ia], [i % b.ndim for i in ib]
    fa, fb = [i for i in range(a.ndim) if i not in ia], [i for i in range(b.ndim) if i not in ib]
    n = int(np.prod([a.shape[i] for i in ia])) if ia else 1
    x = a.transpose(*(fa + ia)).reshape(-1, n)
    y = b.transpose(*(ib + fb)).reshape(n, -1)
    r = f_dot(x, y).reshape(tuple([a.shape[i] for i in fa] + [b.shape[i] for i in fb]))
    return r if r.ndim else r[()]


def _apply_along(f, axis, x, *a, **k):
    x = _as_sarr(x)
    o = np.moveaxis(x.a, axis, -1)
    rs = {ix: f(SArr.wrap(o[ix], x.dtype), *a, **k) for ix in np.ndindex(o.shape[:-1])}
    first = next(iter(rs.values()))
    shp = np.shape(to_obj(first))
    r = np.empty(o.shape[:-1] + shp, dtype=object)
    dt = infer_dtype(first)
    for ix, v in rs.items():
        r[ix] = objarr(to_obj(v), dt.kind) if shp else el(v, dt.kind)
    return SArr.wrap(np.moveaxis(r, -1, axis) if shp else r, dt)


def _extract(c, x):
    return _as_sarr(x).reshape(-1)[_as_sarr(c).reshape(-1)]


def _compress(c, x, axis=None, out=None):
    c = np.asarray([bool(v) for v in (c if not isinstance(c, SArr) else [out_scalar(e, bool) for e in c.a])])
    x = _as_sarr(x)
    if axis is None:
        x, axis = x.reshape(-1), 0
    return x.take(np.flatnonzero(c), axis=axis)


def _fill_diagonal(x, v, wrap=False):
    n = min(x.shape)
    w = to_obj(v)
    for i in range(n):
        x[(i,) * x.ndim] = out_scalar(w.reshape(-1)[i % w.size], infer_dtype(v)) if w.ndim else v


def _put(x, ix, v, mode='raise'):
    ix = np.atleast_1d(np.asarray(ix))
    w = to_obj(v).reshape(-1)
    c = np.unravel_index(np.arange(x.size), x.shape)
    for n, i in enumerate(ix.reshape(-1)):
        x[tuple(int(q[int(i)]) for q in c)] = w[n % w.size]


def _putmask(x, m, v):
    w = to_obj(v).reshape(-1)
    mo = np.broadcast_to(to_obj(m), x.shape)
    for n, ix in enumerate(np.ndindex(x.shape)):
        if bool(as_bool(mo[ix])):
            x[ix] = w[n % w.size]


def _nz_cols(x):
    ix = f_nonzero(_as_sarr(x))
    return np.stack([np.asarray(i) for i in ix], axis=1)


def _block(rows):
    if not isinstance(rows, list):
        return _as_sarr(rows)
    if not isinstance(rows[0], list):
        return _concat(np.hstack)(rows)
    return _concat(np.vstack)([_concat(np.hstack)(r) for r in rows])


def _diagflat(v, k=0):
    return f_diag(_as_sarr(v).reshape(-1), k)


def _median(x, axis=None, **k):
    s = f_sort(_as_sarr(x), -1) if axis is None and _as_sarr(x).ndim == 1 else _unsup('median along an axis')
    n = s.shape[0]
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def _meshgrid(*xs, indexing='xy', **k):
    xs = [_as_sarr(x).reshape(-1) for x in xs]
    if len(xs) != 2 or k:
        _unsup('meshgrid')
    a, b = xs
    if indexing == 'ij':
        return [SArr.wrap(np.repeat(a.a[:, None], len(b), 1), a.dtype), SArr.wrap(np.repeat(b.a[None, :], len(a), 0), b.dtype)]
    return [SArr.wrap(np.repeat(a.a[None, :], len(b), 0), a.dtype), SArr.wrap(np.repeat(b.a[:, None], len(a), 1), b.dtype)]


def _convolve(a, v, mode='full'):
    if mode != 'full':
        _unsup('convolve')
    a, v = _as_sarr(a), _as_sarr(v)
    r = [0] * (len(a) + len(v) - 1)
    for i in range(len(a)):
        for j in range(len(v)):
            r[i + j] = r[i + j] + a[i] * v[j]
    return NP.array(r)


def _lexsort(keys, axis=-1):
    ks = [_as_sarr(k) for k in keys]
    n = len(ks[0])
    order = list(range(n))
    for k in ks:                        # the last key is the primary one; every pass is stable
        sub = k[np.array(order, dtype=np.int64)]
        order = [order[int(i)] for i in f_argsort(sub, kind='stable')]
    return np.array(order, dtype=np.int64)


_reg('diff', _diff)
_reg('cumprod', _cumprod)
_reg('linalg.norm', _norm)
_reg('kron', _kron)
_reg('tensordot', _tensordot)
_reg('apply_along_axis', _apply_along)
_reg('extract', _extract)
_reg('compress', _compress)
_reg('fill_diagonal', _fill_diagonal)
_reg('put', _put)
_reg('putmask', _putmask)
_reg('flatnonzero', lambda x: f_nonzero(_as_sarr(x).reshape(-1))[0])
_reg('argwhere', _nz_cols)
_reg('block', _block)
_reg('diagflat', _diagflat)
_reg('median', _median)
_reg('meshgrid', _meshgrid)
_reg('convolve', _convolve)
_reg('lexsort', _lexsort)
_reg('ptp', lambda x, axis=None, **k: _as_sarr(x).max(axis) - _as_sarr(x).min(axis))
for _n in ('sum', 'mean', 'var', 'std', 'prod', 'cumsum'):        # reals here are never NaN
    _reg('nan' + _n, FN[getattr(np, _n)])
_reg('nanmax', FN[np.max])
_reg('nanmin', FN[np.min])
_reg('partition', lambda x, kth, axis=-1, **k: f_sort(_as_sarr(x), axis))
_reg('argpartition', lambda x, kth, axis=-1, **k: f_argsort(_as_sarr(x), axis))
_reg('trapz', lambda y, **k: f_sum(_as_sarr(y)[1:] + _as_sarr(y)[:-1]) / 2 if not k else _unsup('trapz'))
_reg('add.reduce', f_sum)


def _unsup(m):
    raise Unsupported(m)


def _isin(a, b, invert):
    oa, ob = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
    r = [any_(_eq(x, y) for y in ob) for x in oa]
    return SArr.of([el(v.neg() if invert else v, 'b') for v in r], bool).reshape(to_obj(a).shape)


def dispatch_function(func, args, kwargs):
    f = FN.get(func)
    if f is None:
        raise Unsupported("numpy function %s" % getattr(func, '__name__', func))
    return f(*args, **kwargs)


# --------------------------------------------------------------------------
# the numpy module seen by the code under test
# --------------------------------------------------------------------------
def _wrap_if_float(r):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
        return SArr.of(r)
    return r


class _Linalg:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    return FN[f](*a, **k) if f in FN else _la(n, *a, **k)
                return _wrap_if_float(f(*a, **k))
            return g
        return f


def _la(n, *a, **k):
    from . import la
    return getattr(la, n)(*a, **k)


class NpProxy:
    """numpy as the code under test sees it: float results become symbolic arrays"""
    ndarray = NdArray

    def __init__(self):
        self.linalg = _Linalg()
        self._cache = {}

    def __getattr__(self, n):
        if n == 'random':
            from . import env
            return env.current_random()
        v = getattr(np, n)          # AttributeError for np.bool etc., as in numpy itself
        if isinstance(v, np.ufunc):
            w = self._ufunc(v)
        elif callable(v) and not isinstance(v, type):
            w = self._func(v)
        else:
            return v
        self.__dict__[n] = w
        return w

    def _ufunc(self, u):
        class W:
            __name__ = u.__name__
            nin = u.nin

            def __call__(self, *a, **k):
                if any(has_sym(x) for x in a) or has_sym(k.get('out')) or any(_floaty(x) for x in a):
                    return dispatch_ufunc(u, '__call__', a, dict(k))
                return u(*a, **k)

            def __getattr__(self, m):
                if m in ('reduce', 'outer', 'accumulate', 'at', 'reduceat'):
                    def g(*a, **k):
                        if any(has_sym(x) for x in a):
                            return dispatch_ufunc(u, m, a, dict(k))
                        return getattr(u, m)(*a, **k)
                    return g
                return getattr(u, m)
        return W()

    def _func(self, f):
        def g(*a, **k):
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                if f in FN:
                    return FN[f](*a, **k)
            return _wrap_if_float(f(*a, **k))
        g.__name__ = getattr(f, '__name__', 'f')
        return g

    # creation
    def zeros(self, shape, dtype=float, order='C', **k):
        return SArr.wrap(objarr(np.zeros(_shape(shape), dtype=object), kind_of(dtype)), dtype)._order(order)

    def ones(self, shape, dtype=None, order='C', **k):
        dtype = dtype if dtype is not None else float
        return SArr.wrap(objarr(np.ones(_shape(shape), dtype=object), kind_of(dtype)), dtype)._order(order)

    def empty(self, shape, dtype=float, order='C', **k):
        return SArr(shape, dtype, order=order)

    def full(self, shape, fill_value, dtype=None, order='C', **k):
        dt = np.dtype(dtype) if dtype is not None else infer_dtype(fill_value)
        o = np.empty(_shape(shape), dtype=object)
        v = np.broadcast_to(to_obj(fill_value), o.shape)
        for ix in np.ndindex(o.shape):
            o[ix] = el(v[ix], dt.kind)
        return SArr.wrap(o, dt)._order(order)

    def zeros_like(self, x, dtype=None, order='K', **k):
        return self.zeros(x.shape, dtype or x.dtype, 'F' if _fort(x) and order in 'KA' else 'C')

    def ones_like(self, x, dtype=None, order='K', **k):
        return self.ones(x.shape, dtype or x.dtype, 'F' if _fort(x) and order in 'KA' else 'C')

    def empty_like(self, x, dtype=None, order='K', **k):
        return self.empty(x.shape, dtype or x.dtype, 'F' if _fort(x) and order in 'KA' else 'C')

    def full_like(self, x, v, dtype=None, **k):
        return self.full(x.shape, v, dtype or x.dtype)

    def array(self, x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
        if type(x).__name__ == 'SMat' and not subok:
            x = x.A
        if isinstance(x, SArr):
            r = x.astype(dtype, order=order) if dtype is not None else x.copy(order)
        elif isinstance(x, np.ndarray) and x.dtype.kind in 'iub' and (dtype is None or np.dtype(dtype).kind in 'iub'):
            r = np.array(x, dtype=dtype, order=order)
        elif hasattr(x, '__symx_sparse__'):
            o = np.empty((), dtype=object)
            o[()] = x
            return o
        elif not has_sym(x) and not _floaty(x) and (dtype is None or np.dtype(dtype).kind not in 'f'):
            r = np.array(x, dtype=dtype, order=order)
            if r.dtype.kind == 'f':
                r = SArr.of(r)
        else:
            if hasattr(x, '__iter__') and not isinstance(x, (list, tuple, np.ndarray, SArr, str)) and not hasattr(x, '__symx_dense__'):
                x = list(x) if hasattr(x, '__len__') else x
            dt = np.dtype(dtype) if dtype is not None else infer_dtype(x)
            src = infer_dtype(x)
            o = to_obj(x)
            r = SArr.wrap(_cast_obj(objarr(o, src.kind), src, dt) if dtype is not None else objarr(o, dt.kind), dt)
            if order == 'F':
                r = SArr.wrap(np.asfortranarray(r.a), dt)
        while r.ndim < ndmin:
            r = r.reshape((1,) + r.shape)
        return r

    def asarray(self, x, dtype=None, order=None, **k):
        if type(x).__name__ == 'SMat':
            x = x.A
        if isinstance(x, SArr) and (dtype is None or np.dtype(dtype) == x.dtype):
            return x if order is None else SArr.wrap(np.asarray(x.a, order=order), x.dtype)
        if isinstance(x, np.ndarray) and x.dtype.kind in 'iub' and (dtype is None or np.dtype(dtype) == x.dtype):
            return x
        return self.array(x, dtype=dtype, order=order or 'K')

    def asanyarray(self, x, dtype=None, **k):
        return x if type(x).__name__ == 'SMat' and dtype is None else self.asarray(x, dtype, **k)

    def ascontiguousarray(self, x, dtype=None):
        r = self.asarray(x, dtype)
        return SArr.wrap(np.ascontiguousarray(r.a), r.dtype) if isinstance(r, SArr) else np.ascontiguousarray(r)

    def asfortranarray(self, x, dtype=None):
        r = self.asarray(x, dtype)
        return SArr.wrap(np.asfortranarray(r.a), r.dtype) if isinstance(r, SArr) else np.asfortranarray(r)

    def isscalar(self, x):
        return isinstance(x, (Sym, Bool)) or np.isscalar(x)

    def iterable(self, x):
        return np.iterable(x) and not isinstance(x, (Sym, Bool))

    def arange(self, *a, dtype=None):
        if len(a) == 2 and isinstance(a[0], Sym) and a[0].k == 'i' and a[0].c is None and (
                isinstance(a[1], (int, np.integer)) or (isinstance(a[1], Sym) and a[1].k == 'i')):
            # symbolic start: the length is made concrete, the entries stay symbolic
            n = max(0, int(core.sub(lift(a[1]), a[0])))
            o = np.empty(n, dtype=object)
            for i in range(n):
                o[i] = el(core.add(a[0], lift(i)), "i")
            return SArr.wrap(o, dtype or np.int64)
        if any(isinstance(x, Sym) and x.k == 'i' for x in a):
            a = [int(x) if isinstance(x, Sym) else x for x in a]
        if any(isinstance(x, Sym) for x in a):
            raise Unsupported("arange over symbolic reals")
        return _wrap_if_float(np.arange(*a, dtype=dtype))

    def einsum(self, *a, **k):
        return f_einsum(*a, **k)

    @property
    def r_(self):
        return _RC(0)

    @property
    def c_(self):
        return _RC(1)

    def ndenumerate(self, x):
        return ((ix, x[ix]) for ix in np.ndindex(x.shape)) if isinstance(x, SArr) else np.ndenumerate(x)

    def nditer(self, x, **k):
        if isinstance(x, SArr):
            if k:
                raise Unsupported("nditer with options")
            return iter([out_scalar(v, x.dtype) for v in x.a.reshape(-1)])
        return np.nditer(x, **k)

    def require(self, x, dtype=None, requirements=None, **k):
        f = requirements is not None and 'F' in str(requirements).upper()
        return self.asarray(x, dtype, 'F' if f else 'C' if requirements is not None and 'C' in str(requirements).upper() else None)

    def fromiter(self, it, dtype=float, count=-1, **k):
        xs = list(it)
        if count >= 0:
            if len(xs) < count:
                raise ValueError("iterator too short: Expected %d but iterator had only %d items." % (count, len(xs)))
            xs = xs[:count]
        return self.array(xs, dtype=dtype)

    def insert(self, a, i, v, axis=None):
        a = _as_sarr(a)
        if axis is None:
            a = a.reshape(-1)
        if not isinstance(i, (int, np.integer)) or a.ndim != 1:
            raise Unsupported("np.insert")
        if not -len(a) <= i <= len(a):
            raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, len(a)))
        return self.concatenate((a[:i], _as_sarr(v).reshape(-1), a[i:])).astype(a.dtype)

    def vectorize(self, f, **k):
        def g(x, *a):
            o = to_obj(x)
            r = np.empty(o.shape, dtype=object)
            for ix in np.ndindex(o.shape):
                r[ix] = f(out_scalar(o[ix], infer_dtype(x)), *a)
            return SArr.of(r)
        return g

    def float64(self, *a):
        raise Unsupported("np.float64()")


class _RC:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(isinstance(v, (slice, str)) for v in k):
            if any(has_sym(v) for v in k):
                raise Unsupported("np.r_ with a range")
            return _wrap_if_float((np.r_ if self.axis == 0 else np.c_)[k])
        vs = [_as_sarr(v) for v in k]
        if self.axis == 0:
            vs = [v.reshape(1) if v.ndim == 0 else v for v in vs]
            return _concat(np.concatenate)(vs)
        vs = [v.reshape(-1, 1) if v.ndim < 2 else v for v in vs]
        return _concat(np.concatenate)(vs, axis=1)


def _fort(x):
    return isinstance(x, (SArr, np.ndarray)) and x.flags.fnc


def _floaty(x):
    if isinstance(x, (float, np.floating)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind == 'f'
    if isinstance(x, (list, tuple)):
        return any(_floaty(e) for e in x)
    return False


def _order(self, order):
    if order == 'F' and self.ndim > 1:
        return SArr.wrap(np.asfortranarray(self.a), self._dt)
    return self


SArr._order = _order
del NpProxy.float64


class _ScalarType(type):
    """np.float32 & co.: usable as dtypes, as isinstance targets and as conversion functions on symbolic values"""
    pass


NP = NpProxy()
