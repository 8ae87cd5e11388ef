"""Importing the modules under test so that they run on symbolic values.

The Python modules are the real files of the repository, executed by CPython; only the
library objects in their globals (numpy, scipy.sparse, scipy.special, math, numpy.random ...)
are replaced by symbolic counterparts.  Their compiled companions (*_fast) are replaced by
the interpreter of the .pyx source in symx.cy.
"""
import ast
import builtins
import importlib
import importlib.machinery
import math
import os
import sys
import types

import numpy as np
import numpy.random
import scipy.linalg
import scipy.sparse
import scipy.special
import scipy.optimize

from . import core, arr, sparse
from .core import Sym, Bool, Unsupported, lift
from .arr import SArr, NP

REPO = os.environ.get('SYMX_REPO', '/repo')

FAST = {
    'sidetopics.util.se_fast': 'sidetopics/util/se_fast.pyx',
    'sidetopics.util.sig_fast': 'sidetopics/util/sig_fast.pyx',
    'sidetopics.util.vt_fast': 'sidetopics/util/vt_fast.pyx',
    'sidetopics.model.lda_cvb0_fast': 'sidetopics/model/lda_cvb0_fast.pyx',
    'sidetopics.model.lda_cvb_fast': 'sidetopics/model/lda_cvb_fast.pyx',
    'sidetopics.model.lda_gibbs_fast': 'sidetopics/model/lda_gibbs_fast.pyx',
    'sidetopics.model.lda_vb_fast': 'sidetopics/model/lda_vb_fast.pyx',
    'sidetopics.model.dmr_fast': 'sidetopics/model/dmr_fast.pyx',
}


class CyProxy(types.ModuleType):
    """a compiled module, interpreted from its source; its body is executed once per symbolic context"""

    def __init__(self, name, fn):
        super().__init__(name)
        self.__file__ = fn
        d = self.__dict__
        d['_fn'], d['_mod'], d['_ctx'] = fn, None, None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        from . import cy
        d = self.__dict__
        if d['_mod'] is None:
            d['_mod'] = cy.Module(d['_fn'], self.__name__)
        m = d['_mod']
        if d['_ctx'] is not core.ctx():
            m.globals.clear()
            m.gtypes.clear()
            m.top.vars, m.top.types = m.globals, m.gtypes
            d['_ctx'] = core.ctx()
            m.load()
        try:
            v = m.globals[n]
        except KeyError:
            raise AttributeError("module '%s' has no attribute '%s'" % (self.__name__, n))
        if isinstance(v, cy.CyFunc) and v.is_c and not v.cp:
            raise AttributeError("module '%s' has no attribute '%s'" % (self.__name__, n))
        return v

    def cfunc(self, n):
        """C-level functions, for the harnesses that address them directly"""
        try:
            getattr(self, 'zz__')
        except AttributeError:
            pass
        return self.__dict__['_mod'].globals[n]


# --------------------------------------------------------------------------
# random numbers
# --------------------------------------------------------------------------
class RNG:
    """numpy.random returning arbitrary values; every draw becomes an input of the run"""

    def _n(self, what):
        C = core.ctx()
        k = C.cache.get('rng_n', 0)
        C.cache['rng_n'] = k + 1
        return "rng%d_%s" % (k, what)

    def _arr(self, what, size, mk, dt=float):
        name = self._n(what)
        if size is None or size == ():
            return arr.out_scalar(mk(name + "_0"), dt)
        shape = arr._shape(size)
        o = np.empty(shape, dtype=object)
        for i, ix in enumerate(np.ndindex(shape)):
            o[ix] = arr.el(mk("%s_%d" % (name, i)), np.dtype(dt).kind)
        return SArr.wrap(o, dt)

    def _unit(self, n):
        s = core.real_input(n, lo=0, hi=1, strict_lo=True)      # an exact zero (probability 2^-53) is left out
        core.ctx().assume(core.cmp_(s, 1, '<'))
        return s

    def rand(self, *shape):
        return self._arr('rand', shape, self._unit)

    def random(self, size=None):
        return self._arr('rand', size, self._unit)

    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._arr('rand', size, self._unit)
        return low + u * (high - low)

    def _norm(self, n):
        return core.real_input(n, lo=-6, hi=6)

    def randn(self, *shape):
        return self._arr('randn', shape, self._norm)

    def standard_normal(self, size=None):
        return self._arr('randn', size, self._norm)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast_shapes(np.shape(arr.to_obj(loc)), np.shape(arr.to_obj(scale)))
        return loc + self._arr('randn', size, self._norm) * scale

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        lo, hi = int(lo), int(hi)
        if hi <= lo:
            raise ValueError("low >= high")
        return self._arr('randint', size, lambda n: core.int_input(n, lo, hi - 1), dtype)

    def _pos(self, n):
        return core.real_input(n, lo=0, strict_lo=True)

    def gamma(self, shape, scale=1.0, size=None):
        if size is None:
            size = np.shape(arr.to_obj(shape))
        return self._arr('gamma', size, self._pos)

    standard_gamma = exponential = gamma

    def beta(self, a, b, size=None):
        return self._arr('beta', size, self._unit)

    def dirichlet(self, alpha, size=None):
        K = len(alpha)
        shape = () if size is None else arr._shape(size)
        name = self._n('dir')
        o = np.empty(shape + (K,), dtype=object)
        for r, ix in enumerate(np.ndindex(shape)):
            tot = lift(0)
            for k in range(K - 1):
                v = core.real_input("%s_%d_%d" % (name, r, k), lo=0, strict_lo=True)
                tot = core.add(tot, v)
                o[ix + (k,)] = v
            if K > 1:
                # the last share is positive: name it so that its sign is known
                last = core.real_input("%s_%d_%d" % (name, r, K - 1), lo=0, strict_lo=True)
                core.ctx().assume(core.cmp_(core.add(tot, last), 1, '=='))
                o[ix + (K - 1,)] = core.sub(lift(1), tot)
                core.ctx().cache.setdefault('dir_last', []).append((last, tot))
                core.ctx().ingroups.append(["%s_%d_%d" % (name, r, k) for k in range(K)])
            else:
                o[ix + (0,)] = lift(1)
        return SArr.wrap(arr.objarr(o, 'f'), float)

    def multinomial(self, n, pvals, size=None):
        if int(n) != 1:
            raise Unsupported("multinomial with n != 1")
        K = len(pvals)
        shape = () if size is None else arr._shape(size)
        name = self._n('multi')
        o = np.empty(shape + (K,), dtype=object)
        pv = arr.to_obj(pvals)
        for r, ix in enumerate(np.ndindex(shape)):
            k = self._choice("%s_%d" % (name, r), list(range(K)))
            core.ctx().assume(core.cmp_(pv[k], 0, '>'))
            for j in range(K):
                o[ix + (j,)] = int(j == k)
        return SArr.wrap(o, int)

    def _choice(self, name, options):
        C = core.ctx()
        v = C.choose(options)
        C.choices[name] = v
        return v

    def _perm(self, what, n):
        import itertools
        name = self._n(what)
        if n > 6:
            raise Unsupported("permutation of %d items" % n)
        lim = core.ctx().cache.get('perm_filter')
        opts = list(itertools.permutations(range(n)))
        if lim is not None:
            opts = [p for p in opts if lim(p)]
        return list(self._choice(name, opts))

    def shuffle(self, x, axis=0):
        n = len(x)
        p = self._perm('perm', n)
        if isinstance(x, SArr):
            x.a[...] = x.a[p].copy()
        elif isinstance(x, np.ndarray):
            x[...] = x[p].copy()
        else:
            x[:] = [x[i] for i in p]

    def permutation(self, x):
        if isinstance(x, (int, np.integer, Sym)):
            return np.array(self._perm('perm', int(x)), dtype=np.int64)
        p = self._perm('perm', len(x))
        x = NP.array(x)
        return x[np.array(p, dtype=np.int64)]

    def choice(self, a, size=None, replace=True, p=None):
        raise Unsupported("numpy.random.choice")

    def seed(self, *a):
        pass

    def get_state(self):
        return ('sym',)

    def set_state(self, s):
        pass

    def RandomState(self, seed=None):
        return self

    default_rng = Generator = RandomState
    mtrand = property(lambda s: s)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(np.random, n):
            raise AttributeError("module 'numpy.random' has no attribute '%s'" % n)
        raise Unsupported("numpy.random.%s" % n)


_rng = RNG()


def current_random():
    return _rng


# --------------------------------------------------------------------------
# scalar libraries
# --------------------------------------------------------------------------
def _elementwise(f, x, out=None):
    if isinstance(x, (list, tuple, SArr, np.ndarray)) or hasattr(x, '__symx_dense__'):
        o = arr.to_obj(x)
        r = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(o.shape):
            r[ix] = arr.el(f(arr._fl(o[ix])), 'f')
        dt = arr.infer_dtype(x)
        dt = dt if dt.kind == 'f' else np.dtype(float)
        res = SArr.wrap(r, dt)
        if out is not None:
            out[...] = res
            return out
        return res if res.ndim else res[()]
    return f(arr._fl(x) if not isinstance(x, Sym) else x)


def NP_special(n):
    return getattr(_special, n)


class SpecialProxy(types.ModuleType):
    _F = None

    def __getattr__(self, n):
        fns = {
            'digamma': core.digamma_, 'psi': core.digamma_, 'gammaln': core.gammaln_, 'loggamma': core.gammaln_,
            'exp': core.exp_, 'erf': core.erf_, 'erfc': core.erfc_, 'log': core.log_,
            'expit': lambda x: core.div(lift(1.0), core.add(lift(1.0), core.exp_(core.neg(x)))),
            'log1p': lambda x: core.log_(core.add(lift(1.0), x)),
            'expm1': lambda x: core.sub(core.exp_(x), lift(1)), 'exp2': lambda x: core.power(lift(2.0), x),
            'gamma': core.unary_uf('gamma', core.POS),
        }
        if n in fns:
            f = fns[n]
            return lambda x, out=None, **k: _elementwise(f, x, out)
        if n == 'polygamma':
            def pg(k, x):
                if k == 0:
                    return _elementwise(core.digamma_, x)
                if k == 1:
                    return _elementwise(core.trigamma_, x)
                return _elementwise(core.unary_uf('polygamma%d' % k), x)
            return pg
        if n == 'logsumexp':
            def lse(a, axis=None, b=None, keepdims=False, return_sign=False):
                e = NP.exp(a)
                if return_sign:
                    raise Unsupported("logsumexp with signs")
                if b is not None:
                    e = e * b
                return NP.log(e.sum(axis=axis, keepdims=keepdims))
            return lse
        if n in ('softmax', 'log_softmax'):
            def sm(x, axis=None):
                e = NP.exp(x)
                r = e / e.sum(axis=axis, keepdims=True)
                return r if n == 'softmax' else x - NP.log(e.sum(axis=axis, keepdims=True))
            return sm
        if n in ('betaln', 'beta'):
            def bl(a, b):
                r = NP_special('gammaln')(a) + NP_special('gammaln')(b) - NP_special('gammaln')(a + b)
                return r if n == 'betaln' else NP.exp(r)
            return bl
        if n in ('entr', 'rel_entr'):
            return lambda *a: arr.dispatch_ufunc(getattr(scipy.special, n), '__call__', a, {})
        if n == 'xlogy':
            return lambda a, b: arr.dispatch_ufunc(scipy.special.xlogy, '__call__', (a, b), {})
        if n.startswith('__'):
            raise AttributeError(n)
        getattr(scipy.special, n)
        raise Unsupported("scipy.special.%s" % n)


class LaProxy(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(scipy.linalg, n)
        if not callable(v):
            return v

        def g(*a, **k):
            if n == 'norm' and arr.has_sym(a[0]):
                return arr.FN[np.linalg.norm](*a, **k)
            if any(arr.has_sym(x) for x in a):
                from . import la
                if n not in ('inv', 'det', 'solve', 'cholesky', 'cho_factor', 'cho_solve', 'block_diag', 'pinv', 'slogdet'):
                    raise Unsupported("scipy.linalg.%s" % n)
                if n == 'cholesky':
                    k.setdefault('lower', bool(a[1]) if len(a) > 1 else False)
                    a = a[:1]
                return getattr(la, n)(*a, **k)
            return arr._wrap_if_float(v(*a, **k))
        return g


class OptProxy(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        getattr(scipy.optimize, n)
        hook = core.ctx().cache.get(('optimize', n))
        if hook is not None:
            return hook
        raise Unsupported("scipy.optimize.%s" % n)


_special = SpecialProxy('scipy.special')
_la = LaProxy('scipy.linalg')
_opt = OptProxy('scipy.optimize')


def _m(name, f):
    real = getattr(math, name)

    def g(x, *a):
        if isinstance(x, (SArr, np.ndarray)) and x.ndim == 0 or isinstance(x, SArr) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Bool):
            x = x.as_int()
        if isinstance(x, Sym):
            if a:
                return core.div(f(x), f(lift(a[0])))
            return f(x)
        if isinstance(x, (float, np.floating)) and name in ('log', 'exp', 'sqrt') and core._ctx is not None and not a:
            if name == 'log' and x <= 0:
                raise ValueError("math domain error")
            if x == x and abs(x) != math.inf:
                return f(lift(float(x)))
        return real(x, *a)
    g.__name__ = name
    return g


def _mlog(x):
    if x.c is not None and not core.is_special(x.c) and x.c <= 0:
        raise ValueError("math domain error")
    if x.c is None and not bool(core.cmp_(x, 0, '>')):
        raise ValueError("math domain error")
    return core.log_(x)


MATH = {
    'log': _mlog, 'exp': core.exp_, 'sqrt': core.sqrt_, 'floor': core.floor_,
    'ceil': lambda x: core.neg(core.floor_(core.neg(x))), 'fabs': core.abs_, 'isnan': arr._isnan,
    'isinf': arr._isinf, 'trunc': core.trunc, 'lgamma': core.gammaln_,
    'log2': lambda x: core.div(core.log_(x), core.log_(lift(2))),
    'log10': lambda x: core.div(core.log_(x), core.log_(lift(10))),
    'isfinite': arr._isfinite, 'log1p': lambda x: _mlog(core.add(lift(1.0), x)),
    'expm1': lambda x: core.sub(core.exp_(x), lift(1.0)),
}
MATH = {k: _m(k, f) for k, f in MATH.items()}


def _fsum(xs):
    xs = list(xs)
    if not any(isinstance(x, Sym) for x in xs):
        return math.fsum(xs)
    t = lift(0.0)
    for x in xs:
        t = core.add(t, x)
    return t


def _prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


def _mpow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return math.pow(a, b)
    return core.power(lift(a), lift(b))


MATH.update({'fsum': _fsum, 'prod': _prod, 'pow': _mpow})


class MathProxy(types.ModuleType):
    def __getattr__(self, n):
        if n in MATH:
            return MATH[n]
        return getattr(math, n)


_math = MathProxy('math')


def _pow(a, b):
    return core.power(a, b)


def _sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _min(*a, **k):
    return _ext(a, k, core.minimum, builtins.min)


def _max(*a, **k):
    return _ext(a, k, core.maximum, builtins.max)


def _ext(a, k, f, real):
    if 'key' in k:
        return real(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        return real(*a, **k)
    if any(isinstance(x, (Sym, Bool)) for x in xs) and not any(isinstance(x, (tuple, list, SArr)) and getattr(x, 'ndim', 1) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return real(xs)


def _round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def _print(*a, **k):
    pass


def _isinstance(x, t):
    """isinstance that knows the symbolic stand-ins of the builtin number types"""
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if u is builtins.int and x.k == 'i' and x.dt is None:
                return True
            if u is builtins.float and x.k == 'r':
                return True
            if u in (np.integer,) and x.k == 'i' and x.dt is not None:
                return True
            if u in (np.floating, np.inexact) and x.k == 'r' and x.dt is not None:
                return True
            if u is np.number and x.dt is not None:
                return True
            try:
                import numbers
                if u in (numbers.Number, numbers.Real) or (u is numbers.Integral and x.k == 'i'):
                    return True
            except Exception:
                pass
    if isinstance(x, Bool):
        ts = t if isinstance(t, tuple) else (t,)
        if builtins.bool in ts or np.bool_ in ts:
            return True
    return isinstance(x, t)


_stub_pyx = types.ModuleType('pyximport')
_stub_pyx.install = lambda *a, **k: (None, None)

_PATCH_BUILTINS = {'print': _print, 'min': _min, 'max': _max, 'sum': _sum, 'round': _round,
                   'isinstance': _isinstance}

def _float(*a):
    """float() of the code under test: a symbolic value stays symbolic"""
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (SArr, np.ndarray)) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Bool):
            x = x.as_int()
        if isinstance(x, Sym):
            return core.mul(x, lift(1.0)) if x.k == 'i' else x
        t = core.untoken(x) if isinstance(x, str) and core._ctx is not None else None
        if t is not None:
            return core.mul(t, lift(1.0)) if t.k == 'i' else t
    return builtins.float(*a)


def _int(*a):
    """int() of the code under test: where text is followed symbolically, so are the numbers in it"""
    if len(a) == 1 and core._ctx is not None and core.ctx().cache.get('tokens') is not None:
        x = a[0]
        t = core.untoken(x) if isinstance(x, str) else x
        if isinstance(t, Sym) and t.c is None:
            return t if t.k == 'i' else core.trunc(t)
    return builtins.int(*a)


class _Calls(ast.NodeTransformer):
    """float(e) -> __symx_float__(e), int(e) -> __symx_int__(e); nothing else of the source is changed"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('float', 'int'):
            n.func = ast.copy_location(ast.Name('__symx_%s__' % n.func.id, ast.Load()), n.func)
        return n


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        t = _Calls().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(t), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__symx_float__'] = _float
        module.__dict__['__symx_int__'] = _int
        super().exec_module(module)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'sidetopics' and not name.startswith('sidetopics.'):
            return None
        s = importlib.machinery.PathFinder.find_spec(name, path, target)
        if s is not None and type(s.loader) is importlib.machinery.SourceFileLoader:
            s.loader = _Loader(s.loader.name, s.loader.path)
        return s


_ready = False
_patched = set()


def _by_id():
    m = {
        id(np): NP, id(np.random): _rng, id(scipy.sparse): sparse, id(scipy.special): _special,
        id(scipy.linalg): _la, id(scipy.optimize): _opt, id(math): _math, id(np.linalg): NP.linalg,
        id(np.random.RandomState): _rng.RandomState,
    }
    for k in MATH:
        m[id(getattr(math, k))] = MATH[k]
    for k in ('csr_matrix', 'coo_matrix', 'csc_matrix', 'diags', 'hstack', 'vstack', 'issparse', 'isspmatrix_csr', 'spmatrix'):
        m[id(getattr(scipy.sparse, k))] = getattr(sparse, k)
    m[id(np.ndarray)] = arr.NdArray
    for k in ('digamma', 'psi', 'gammaln', 'polygamma', 'exp2', 'erf', 'logsumexp'):
        f = getattr(scipy.special, k, None)
        if f is not None:
            m[id(f)] = _Lazy(k)
    return m


class _Lazy:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        return getattr(_special, self.n)(*a, **k)


_MAP = None


def _patch_module(m):
    global _MAP
    if m.__name__ in _patched:
        return
    _patched.add(m.__name__)
    if _MAP is None:
        _MAP = _by_id()
    d = m.__dict__
    for n, v in list(d.items()):
        if n.startswith('__'):
            continue
        r = _MAP.get(id(v))
        if r is not None:
            d[n] = r
        elif isinstance(v, np.ufunc) or (callable(v) and getattr(v, '__module__', '') == 'numpy' and getattr(np, n, None) is v and not isinstance(v, type)):
            d[n] = getattr(NP, n)
        elif isinstance(v, np.ndarray) and v.dtype.kind == 'f':
            pass
    for n, v in _PATCH_BUILTINS.items():
        d.setdefault(n, v)


def setup():
    global _ready
    if _ready:
        return
    _ready = True
    sys.modules['pyximport'] = _stub_pyx
    for k in [k for k in sys.modules if k == 'sidetopics' or k.startswith('sidetopics.')]:
        del sys.modules[k]
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder)
    for n, f in FAST.items():
        sys.modules[n] = CyProxy(n, os.path.join(REPO, f))
    sys.dont_write_bytecode = True


def load(name):
    """import a module of the repository for symbolic execution"""
    setup()
    if name in FAST:
        return sys.modules[name]
    saved = core._ctx
    core._ctx = None
    try:
        m = importlib.import_module(name)
    finally:
        core._ctx = saved
    f = getattr(m, '__file__', '') or ''
    if not os.path.realpath(f).startswith(os.path.realpath(REPO)):
        raise RuntimeError("%s was imported from %s" % (name, f))
    for k, v in list(sys.modules.items()):
        if (k == 'sidetopics' or k.startswith('sidetopics.')) and not isinstance(v, CyProxy) and v is not None:
            _patch_module(v)
    return m


def proxy_import(name):
    """import statement inside interpreted Cython code"""
    top = {'numpy': NP, 'numpy.random': _rng, 'scipy.sparse': sparse, 'scipy.special': _special,
           'scipy.linalg': _la, 'math': _math, 'scipy.optimize': _opt}
    if name in top:
        return top[name]
    if name.startswith('sidetopics'):
        return load(name)
    return importlib.import_module(name)


def trace_functions():
    """record which functions of the repository are executed (evidence)"""
    root = os.path.realpath(REPO)

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(root) and core._ctx is not None:
                core._ctx.stats.funcs.add("%s:%s" % (co.co_filename[len(root) + 1:].replace('sidetopics/', ''), co.co_name))
    sys.setprofile(prof)
