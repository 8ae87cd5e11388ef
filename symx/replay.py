"""Concrete side of the harness: the same case functions on the real code, built from the current sources.

Run as a subprocess:  python -m symx.replay SCRATCH VARIANT  with jobs (JSON lines) on stdin.
"""
import importlib
import json
import math
import os
import sys
import traceback
import types

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    pass


class ConH:
    symbolic = False

    def __init__(self, values, seed=0, garbage=True):
        import scipy.sparse as ssp
        self.values = values
        self.seed = seed
        self.rs = np.random.RandomState(seed)
        self.fails = []
        self.observed = []
        self.np = np
        self.ssp = ssp
        self.rng_n = 0
        self.crand_n = 0
        self.notes = set()
        self.filter = None
        self.memo = {}
        self.f32 = False
        self._crand = None

    def mod(self, name):
        return importlib.import_module(name)

    # -- inputs
    def _v(self, name, gen):
        if self.values is not None and name in self.values:
            return self.values[name]
        if name not in self.memo:
            self.memo[name] = gen()
        return self.memo[name]

    def _real(self, name, lo, hi, strict):
        def gen():
            a, b = lo, hi
            r = self.rs.rand()
            if a is not None and not strict and r < 0.15:
                return float(a)
            if a is None:
                a = -2.0 if b is None else b - 3.0
            if b is None:
                b = a + 3.0
            a, b = float(a), float(b)
            u = self.rs.rand()
            if strict:
                u = 0.05 + 0.95 * u
            return a + (b - a) * u
        return float(self._v(name, gen))

    def real(self, name, lo=None, hi=None, strict=False, dtype=None):
        return (np.dtype(dtype).type if dtype is not None else np.float64)(self._real(name, lo, hi, strict))

    def pos(self, name, lo=0, hi=None, dtype=None):
        return self.real(name, lo, hi, strict=(lo == 0), dtype=dtype)

    def int(self, name, lo, hi):
        return int(self._v(name, lambda: int(self.rs.randint(lo, hi + 1))))

    def bool(self, name):
        return bool(self._v(name, lambda: int(self.rs.randint(0, 2))))

    def choose(self, name, options):
        return options[int(self._v(name, lambda: int(self.rs.randint(0, len(options)))))]

    def reals(self, name, shape, lo=None, hi=None, strict=False, dtype=np.float64, order='C'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=dtype, order=order)
        for ix in np.ndindex(shape):
            o[ix] = self._real(name + ''.join('_%d' % i for i in ix), lo, hi, strict)
        return o

    def poss(self, name, shape, lo=0, hi=None, dtype=np.float64, order='C'):
        return self.reals(name, shape, lo, hi, strict=(lo == 0), dtype=dtype, order=order)

    def ints(self, name, shape, lo, hi, dtype=np.int32, order='C'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=dtype, order=order)
        for ix in np.ndindex(shape):
            o[ix] = self.int(name + ''.join('_%d' % i for i in ix), lo, hi)
        return o

    def simplex(self, name, shape, strict=True, dtype=np.float64, free=True):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        K = shape[-1]
        o = np.empty(shape, dtype=np.float64)
        for ix in np.ndindex(shape[:-1]):
            nm = [name + ''.join('_%d' % i for i in ix + (k,)) for k in range(K)]
            d = self.rs.dirichlet(np.ones(K) * 1.5)
            if self.values is not None and all(n in self.values for n in nm):
                o[ix] = [self.values[n] for n in nm]
            else:
                o[ix] = d
        return o.astype(dtype)

    def array(self, x, dtype=None, order='C'):
        return np.array(x, dtype=dtype, order=order)

    def zeros(self, shape, dtype=np.float64, order='C'):
        return np.zeros(shape, dtype=dtype, order=order)

    def csr(self, data, indices, indptr, shape, dtype=None):
        return self.ssp.csr_matrix((np.array(data, dtype=dtype), np.array(indices, np.int32), np.array(indptr, np.int32)), shape=shape)

    def from_dense(self, pattern, data, dtype=None):
        ind, ptr = [], [0]
        for row in pattern:
            ind += [j for j, v in enumerate(row) if v]
            ptr.append(len(ind))
        return self.csr(data[:len(ind)], ind, ptr, (len(pattern), len(pattern[0])), dtype)

    def dense(self, x):
        return np.asarray(x.toarray()) if self.ssp.issparse(x) else np.asarray(x)

    def issym(self, x):
        return False

    def snap(self, x):
        if isinstance(x, np.ndarray) or self.ssp.issparse(x):
            return x.copy()
        if isinstance(x, tuple) and hasattr(x, '_fields'):
            return type(x)(*[self.snap(v) for v in x])
        if isinstance(x, (list, tuple)):
            return type(x)(self.snap(v) for v in x)
        return x

    def log(self, x):
        return math.log(x) if x > 0 else -math.inf

    def exp(self, x):
        return math.exp(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def fast_exp(self, x):
        return math.exp(x)

    def ite(self, c, a, b):
        return a if c else b

    def floor(self, x):
        return math.floor(x)

    def rewind_random(self):
        self.rng_n = 0
        if self._crand:
            self._crand()

    def crand(self, i):
        return self.values.get('crand_%d' % i) if self.values is not None else None

    def and_(self, *bs):
        return all(bool(b) for b in bs)

    def or_(self, *bs):
        return any(bool(b) for b in bs)

    def not_(self, b):
        return not b

    def max(self, *xs):
        return max(xs)

    def min(self, *xs):
        return min(xs)

    def sum(self, xs):
        return sum(float(x) if isinstance(x, np.floating) else x for x in xs)

    def lt(self, a, b):
        return a < b

    def truth(self, b):
        return bool(b)

    def is_zero(self, x):
        return bool(x == 0)

    def le_(self, a, b):
        return a <= b

    def is_eq(self, a, b):
        return a == b

    def flat(self, x):
        if self.ssp.issparse(x):
            x = x.toarray()
        return list(np.asarray(x).reshape(-1))

    # -- claims
    def assume(self, b):
        if not bool(b):
            raise Skip()

    def _fail(self, msg, detail=''):
        self.fails.append((msg, detail))

    def check(self, msg, b):
        if not bool(b):
            self._fail(msg)

    def ok(self, msg):
        pass

    def fail(self, msg):
        self._fail(msg)

    def eq(self, msg, a, b, tol=None, atol=None):
        a, b = self.dense(a), self.dense(b)
        if a.shape != b.shape:
            return self._fail("%s: shape %s instead of %s" % (msg, a.shape, b.shape))
        if a.size == 0:
            return
        if a.dtype.kind in 'iub' and b.dtype.kind in 'iub':
            if not np.array_equal(a, b):
                self._fail(msg, "%s instead of %s" % (a.tolist(), b.tolist()))
            return
        f32 = self.f32 or np.float32 in (a.dtype, b.dtype)
        rt = tol or (3e-3 if f32 else 1e-6)
        at = atol if atol is not None else (1e-4 if f32 else 1e-8)
        a2, b2 = a.astype(float), b.astype(float)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(a2 - b2) <= at + rt * np.maximum(np.abs(a2), np.abs(b2))) | (a2 == b2) | (np.isnan(a2) & np.isnan(b2)))
        if bad.any():
            self._fail(msg, "%s instead of %s" % (a2.tolist(), b2.tolist()))

    def same(self, msg, a, b):
        if isinstance(a, tuple) and hasattr(a, '_fields'):
            for f, x, y in zip(a._fields, a, b):
                self.same("%s.%s" % (msg, f), x, y)
            return
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return self.fail("%s: length" % msg)
            for i, (x, y) in enumerate(zip(a, b)):
                self.same("%s[%d]" % (msg, i), x, y)
            return
        if a is None or isinstance(a, (str, type, np.dtype, bool)):
            return self.check(msg, a is b or a == b)
        if self.ssp.issparse(a):
            self.check(msg + ": pattern", list(a.indices) == list(b.indices) and list(a.indptr) == list(b.indptr))
            return self.eq(msg, a.data, b.data)
        if isinstance(a, (np.ndarray, int, float, np.generic)):
            return self.eq(msg, a, b)
        self.check(msg, a is b or a == b)

    def le(self, msg, a, b, slack=None):
        a, b = np.broadcast_arrays(self.dense(a), self.dense(b))
        f32 = self.f32 or np.float32 in (a.dtype, b.dtype)
        sl = slack if slack is not None else (1e-4 if f32 else 1e-7)
        a2, b2 = a.astype(float), b.astype(float)
        with np.errstate(all='ignore'):
            good = a2 <= b2 + sl * (1 + np.abs(np.where(np.isfinite(b2), b2, 0)))
        if not good.all():
            self._fail(msg, "%s exceeds %s" % (a2.tolist(), b2.tolist()))

    def ge(self, msg, a, b, slack=None):
        self.le(msg, b, a, slack)

    def finite(self, msg, a):
        if not np.isfinite(np.asarray(a, dtype=float)).all():
            self._fail(msg, str(np.asarray(a).tolist()))

    def observe(self, name, v):
        self.observed.append((name, [float(x) for x in np.asarray(self.dense(v)).reshape(-1)]))

    def tokens(self):
        pass

    def number(self, text):
        return float(text)

    def text(self, x):
        return repr(x.item() if isinstance(x, np.generic) else x)

    def eq_text(self, msg, text, want, digits):
        got, want = float(text), float(want)
        ok = abs(got - want) <= 0.51 * 10 ** -digits + (3e-3 if self.f32 else 1e-6) * abs(want) or got == want or (got != got and want != want)
        if not ok:
            self._fail(msg, "%s printed instead of %s" % (text, want))

    def raises(self, fn, *exc):
        try:
            fn()
        except exc or (Exception,) as e:
            return e
        return None

    def no_overflow(self, fn, limit=709):
        with np.errstate(over='raise'):
            return fn()

    def is_gradient(self, msg, f, x, g):
        x, g = np.array(x, dtype=float), np.asarray(g, dtype=float).reshape(-1)
        self.check("%s: one derivative per variable" % msg, x.size == g.size)
        scale = max(1.0, float(np.max(np.abs(g), initial=0)))
        for i in range(x.size):
            h = 1e-4 * max(1.0, abs(x.reshape(-1)[i]))
            d = []
            for s in (h, -h, h / 2, -h / 2):
                y = x.copy()
                y.reshape(-1)[i] += s
                d.append(float(np.asarray(f(y)).reshape(-1)[0]))
            v = (4 * (d[2] - d[3]) / h - (d[0] - d[1]) / (2 * h)) / 3
            self.eq(msg, np.float64(v), np.float64(g[i]), tol=1e-4, atol=1e-5 * scale)

    def perm_filter(self, f):
        self.filter = f

    # -- scripted numpy.random
    def _n(self, what):
        k = self.rng_n
        self.rng_n += 1
        return "rng%d_%s" % (k, what)

    def install(self):
        h = self

        def arr(what, size, gen, dt=float):
            name = h._n(what)
            if size is None or size == ():
                return np.dtype(dt).type(h._v(name + "_0", gen))
            shape = (size,) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)
            o = np.empty(shape, dtype=dt)
            for i, ix in enumerate(np.ndindex(shape)):
                o[ix] = h._v("%s_%d" % (name, i), gen)
            return o
        rs = h.rs

        def shuffle(x, axis=0):
            p = perm(len(x))
            if isinstance(x, np.ndarray):
                x[...] = x[p].copy()
            else:
                x[:] = [x[i] for i in p]

        def perm(n):
            def gen():
                while True:
                    q = list(rs.permutation(n))
                    if h.filter is None or h.filter(tuple(int(v) for v in q)):
                        return q
            return [int(v) for v in h._v(h._n('perm'), gen)]

        def permutation(x):
            if isinstance(x, (int, np.integer)):
                return np.array(perm(int(x)), dtype=np.int64)
            x = np.array(x)
            return x[np.array(perm(len(x)), dtype=np.int64)]

        def dirichlet(alpha, size=None):
            K = len(alpha)
            shape = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
            name = h._n('dir')
            o = np.empty(shape + (K,))
            for r, ix in enumerate(np.ndindex(shape)):
                nm = ["%s_%d_%d" % (name, r, k) for k in range(K)]
                d = rs.dirichlet(np.ones(K) * 1.5)
                o[ix] = [h.values[n] for n in nm] if h.values is not None and all(n in h.values for n in nm) else d
            return o

        def multinomial(n, pvals, size=None):
            K = len(pvals)
            shape = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
            name = h._n('multi')
            o = np.zeros(shape + (K,), dtype=int)
            for r, ix in enumerate(np.ndindex(shape)):
                k = int(h._v("%s_%d" % (name, r), lambda: int(np.argmax(rs.rand(K) * (np.asarray(pvals) > 0)))))
                o[ix + (k,)] = 1
            return o

        def randint(low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            return arr('randint', size, lambda: int(rs.randint(lo, hi)), dtype)
        unit = lambda: float(rs.rand())
        g = {
            'rand': lambda *s: arr('rand', s, unit), 'random': lambda size=None: arr('rand', size, unit),
            'uniform': lambda low=0.0, high=1.0, size=None: low + arr('rand', size, unit) * (high - low),
            'randn': lambda *s: arr('randn', s, lambda: float(rs.randn())),
            'standard_normal': lambda size=None: arr('randn', size, lambda: float(rs.randn())),
            'normal': lambda loc=0.0, scale=1.0, size=None: loc + arr(
                'randn', size if size is not None else np.broadcast_shapes(np.shape(loc), np.shape(scale)),
                lambda: float(rs.randn())) * scale,
            'gamma': lambda shape, scale=1.0, size=None: arr('gamma', size if size is not None else np.shape(shape), lambda: float(rs.gamma(2.0)) + 0.01),
            'beta': lambda a, b, size=None: arr('beta', size, unit),
            'randint': randint, 'shuffle': shuffle, 'permutation': permutation, 'dirichlet': dirichlet,
            'multinomial': multinomial, 'seed': lambda *a: None,
        }
        g['random_sample'] = g['ranf'] = g['sample'] = g['random']
        for n, f in g.items():
            setattr(np.random, n, f)

        class RS:
            def __init__(self, seed=None):
                pass

            def __getattr__(self, n):
                return g[n]
        np.random.RandomState = RS
        np.random.default_rng = RS
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').startswith('sidetopics') and getattr(m, 'RandomState', None) is not None:
                m.RandomState = RS
        # memory that the code does not initialise holds rubbish
        real_empty, real_empty_like = np.empty, np.empty_like

        def rubbish(a):
            if a.dtype.kind == 'f':
                a.fill(7.25e3)
            elif a.dtype.kind in 'iu':
                a.fill(77)
            return a
        np.empty = lambda *a, **k: rubbish(real_empty(*a, **k))
        np.empty_like = lambda *a, **k: rubbish(real_empty_like(*a, **k))
        # C rand()
        lib = os.environ.get('SYMX_RAND_LIB')
        if lib:
            import ctypes
            L = ctypes.CDLL(lib)
            vals = []
            i = 0
            while self.values is not None and ('crand_%d' % i) in self.values:
                vals.append(int(self.values['crand_%d' % i]))
                i += 1
            buf = (ctypes.c_int * max(1, len(vals)))(*vals)
            self._buf = buf
            self._crand = lambda: L.symx_set_rand(buf, len(vals), ctypes.c_uint(self.seed * 7919 + 12345))
            self._crand()


def run_job(job, out):
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    from symx import harness
    mod = harness.load_check(job['pid'])
    case = [c for c in mod.cases(job.get('tier', 'thorough')) if c.name == job['case']][0]
    best = {'fails': [], 'ran': 0, 'skipped': 0}
    seeds = job.get('seeds') or [0]
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(u)
    import copy
    for s in seeds:
        h = ConH(job.get('values'), s)
        h.install()
        h.f32 = any('float32' in str(v) or str(v) == 'f4' for v in case.params.values())
        try:
            with np.errstate(all='ignore'):
                case.fn(h, **case.params)
            best['ran'] += 1
        except Skip:
            best['skipped'] += 1
            continue
        except Exception as e:
            best['ran'] += 1
            tb = traceback.extract_tb(e.__traceback__)
            w = [f for f in tb if '/sidetopics/' in f.filename]
            inner = w[-1] if w else tb[-1]
            h._fail("unexpected %s: %s" % (type(e).__name__, str(e)[:160]),
                    "at %s:%d" % (inner.filename.split('/sidetopics/')[-1], inner.lineno))
        if unraisable:
            u = unraisable[0]
            h._fail("unexpected %s: %s" % (u.exc_type.__name__, u.exc_value), "raised inside compiled code")
        best['obs'] = h.observed
        if h.fails:
            best['fails'] = h.fails
            best['seed'] = s
            break
    out.write(json.dumps(best, default=str))


def main():
    scratch, variant = sys.argv[1], sys.argv[2]
    sys.path.insert(0, os.path.join(scratch, variant))
    st = types.ModuleType('pyximport')
    st.install = lambda *a, **k: (None, None)
    sys.modules['pyximport'] = st
    sys.dont_write_bytecode = True
    import logging, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    real_out = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2) if not os.environ.get('SYMX_TRACE') else None
    pre = json.loads(sys.stdin.readline())
    for m in pre['mods']:
        try:
            importlib.import_module(m)
        except Exception as e:
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            import signal
            signal.alarm(int(job.get('timeout', 20)))
            try:
                with os.fdopen(w, 'w') as f:
                    run_job(job, f)
            except BaseException:
                if os.environ.get('SYMX_TRACE'):
                    traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        data = os.fdopen(r).read()
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            res = {'fails': [["process killed by signal %d" % os.WTERMSIG(status), ""]] if os.WTERMSIG(status) != 14 else [],
                   'signal': os.WTERMSIG(status), 'ran': 1}
        elif data:
            res = json.loads(data)
        else:
            res = {'fails': [], 'error': 'replay driver failed', 'ran': 0}
        res['id'] = job['id']
        real_out.write(json.dumps(res) + "\n")
        real_out.flush()


if __name__ == '__main__':
    main()
