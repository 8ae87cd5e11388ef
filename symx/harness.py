"""Running a property's cases: symbolic exploration, then concrete confirmation on the real code.

A case is a function fn(h, **params) written once against the harness object h.  With SymH the
code under test runs on symbolic values and every check becomes a solver query over all values
of the declared inputs; with ConH (symx/replay.py) the same function runs on the real, freshly
compiled code with numbers taken from a solver model.
"""
import importlib
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case:
    def __init__(self, name, fn, params=None, fast=(), budget=None, tiers=('quick', 'thorough'), max_paths=None,
                 uf=False, mods=(), note='', div0='probe', timeout=None, branch_timeout=None, validate=True):
        self.name, self.fn, self.params = name, fn, params or {}
        self.fast = fast            # compiled modules a replay needs
        self.budget = budget        # seconds
        self.tiers, self.max_paths = tiers, max_paths
        self.uf = uf
        self.mods = mods            # modules preloaded before forking
        self.note = note
        self.div0 = div0
        self.timeout = timeout
        self.branch_timeout = branch_timeout
        self.validate = validate


class Refuted(Exception):
    pass


# ---------------------------------------------------------------------------------------------
class SymH:
    symbolic = True

    def __init__(self, C, run):
        from . import env, arr, core, sparse
        self.C, self.run = C, run
        self.env, self.arr, self.core, self.sparse = env, arr, core, sparse
        self.np = arr.NP
        self.ssp = sparse
        self.observed = []
        self.notes = C.assume_notes

    # -- modules
    def mod(self, name):
        return self.env.load(name)

    # -- inputs
    def real(self, name, lo=None, hi=None, strict=False, dtype=None):
        s = self.core.real_input(name, lo, hi, strict_lo=strict)
        if hi is not None and strict:
            pass
        return self.arr.out_scalar(s, dtype or np.float64)

    def pos(self, name, lo=0, hi=None, dtype=None):
        return self.real(name, lo, hi, strict=(lo == 0), dtype=dtype)

    def int(self, name, lo, hi):
        s = self.core.int_input(name, lo, hi)
        return s.c if s.c is not None else s

    def bool(self, name):
        return self.core.bool_input(name)

    def choose(self, name, options):
        v = self.C.choose(list(range(len(options))))
        self.C.choices[name] = v
        return options[v]

    def reals(self, name, shape, lo=None, hi=None, strict=False, dtype=np.float64, order='C'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object, order=order)
        for ix in np.ndindex(shape):
            o[ix] = self.core.real_input(name + ''.join('_%d' % i for i in ix), lo, hi, strict_lo=strict)
        return self.arr.SArr.wrap(o, dtype)

    def poss(self, name, shape, lo=0, hi=None, dtype=np.float64, order='C'):
        return self.reals(name, shape, lo, hi, strict=(lo == 0), dtype=dtype, order=order)

    def ints(self, name, shape, lo, hi, dtype=np.int32, order='C'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object, order=order)
        for ix in np.ndindex(shape):
            o[ix] = self.arr.el(self.core.int_input(name + ''.join('_%d' % i for i in ix), lo, hi), np.dtype(dtype).kind)
        return self.arr.SArr.wrap(o, dtype)

    def simplex(self, name, shape, strict=True, dtype=np.float64, free=True):
        """rows (last axis) are distributions"""
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        K = shape[-1]
        for ix in np.ndindex(shape[:-1]):
            tot = self.core.lift(0)
            for k in range(K):
                nm = name + ''.join('_%d' % i for i in ix + (k,))
                v = self.core.real_input(nm, 0, 1, strict_lo=strict)
                if k == K - 1 and free:
                    self.C.ingroups.append([name + ''.join('_%d' % i for i in ix + (j,)) for j in range(K)])
                    self.C.assume(self.core.cmp_(self.core.add(tot, v), 1, '=='))
                elif k == K - 1:
                    self.C.assume(self.core.cmp_(self.core.add(tot, v), 1, '=='))
                    v = self.core.sub(self.core.lift(1), tot)
                    self.C.simplex_last[self.core.p_key(v.poly())] = nm
                else:
                    tot = self.core.add(tot, v)
                o[ix + (k,)] = v
        return self.arr.SArr.wrap(self.arr.objarr(o, 'f'), dtype)

    def array(self, x, dtype=None, order='C'):
        a = self.arr.SArr.of(x, None)
        if dtype is not None:
            a = self.arr.SArr.wrap(self.arr.objarr(a.a, np.dtype(dtype).kind), dtype)
        if order == 'F':
            a = self.arr.SArr.wrap(np.asfortranarray(a.a), a.dtype)
        return a

    def zeros(self, shape, dtype=np.float64, order='C'):
        return self.np.zeros(shape, dtype=dtype, order=order)

    def csr(self, data, indices, indptr, shape, dtype=None):
        d = self.array(data, dtype)
        return self.sparse.csr_matrix((d, np.array(indices, np.int32), np.array(indptr, np.int32)), shape=shape)

    def from_dense(self, pattern, data, dtype=None):
        """csr with the given 0/1 pattern, values taken from `data` in row-major order of the pattern"""
        ind, ptr = [], [0]
        for row in pattern:
            ind += [j for j, v in enumerate(row) if v]
            ptr.append(len(ind))
        return self.csr(data[:len(ind)] if not isinstance(data, list) else data[:len(ind)], ind, ptr,
                        (len(pattern), len(pattern[0])), dtype)

    # -- views
    def dense(self, x):
        return x.toarray() if hasattr(x, '__symx_sparse__') else self.arr.SArr.of(x)

    def issym(self, x):
        return isinstance(x, (self.core.Sym, self.core.Bool))

    def snap(self, x):
        if isinstance(x, self.arr.SArr):
            return self.arr.SArr.wrap(x.a.copy(), x.dtype)
        if isinstance(x, np.ndarray):
            return x.copy()
        if hasattr(x, '__symx_sparse__'):
            return x.copy()
        if isinstance(x, tuple) and hasattr(x, '_fields'):
            return type(x)(*[self.snap(v) for v in x])
        if isinstance(x, (list, tuple)):
            return type(x)(self.snap(v) for v in x)
        return x

    # -- arithmetic helpers usable in both modes
    def log(self, x):
        return self.core.log_(self.arr._fl(x))

    def exp(self, x):
        return self.core.exp_(self.arr._fl(x))

    def sqrt(self, x):
        return self.core.sqrt_(self.arr._fl(x))

    def fast_exp(self, x):
        """the C approximation of exp (an arbitrary positive function here)"""
        return self.core.app('exp_approx', (x,), sign=self.core.POS)

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def floor(self, x):
        return self.core.floor_(self.core.lift(x))

    def rewind_random(self):
        """the next draws repeat the draws made since the start"""
        self.C.cache['rng_n'] = 0
        self.C.cache['crand_n'] = 0

    def crand(self, i):
        """the i-th value of C's rand(), None when it is not known"""
        return self.C.inputs.get('crand_%d' % i)

    def and_(self, *bs):
        return self.core.all_(bs)

    def or_(self, *bs):
        return self.core.any_(bs)

    def not_(self, b):
        return self.core.as_bool(b).neg()

    def max(self, *xs):
        r = self.core.lift(xs[0])
        for x in xs[1:]:
            r = self.core.maximum(r, x)
        return r

    def min(self, *xs):
        r = self.core.lift(xs[0])
        for x in xs[1:]:
            r = self.core.minimum(r, x)
        return r

    def sum(self, xs):
        r = self.core.lift(0)
        for x in xs:
            r = self.core.add(r, x if not isinstance(x, self.core.Bool) else x.as_int())
        return r

    def lt(self, a, b):
        return self.core.cmp_(a, b, '<')

    def truth(self, b):
        """decided on the spot (forks when it can be either)"""
        return bool(self.core.as_bool(b))

    def is_zero(self, x):
        """decided on the spot (forks when it can be either)"""
        return bool(self.core.cmp_(x, 0, '=='))

    def le_(self, a, b):
        return self.core.cmp_(a, b, '<=')

    def is_eq(self, a, b):
        return self.core.cmp_(a, b, '==')

    def flat(self, x):
        """python list of elements"""
        if hasattr(x, '__symx_sparse__'):
            x = x.toarray()
        if isinstance(x, self.arr.SArr):
            return list(x.a.reshape(-1))
        if isinstance(x, np.ndarray):
            return list(x.reshape(-1))
        if isinstance(x, self.core.Sym) or np.isscalar(x):
            return [x]
        return list(x)

    # -- claims
    def assume(self, b):
        self.C.assume(self.core.as_bool(b))

    def check(self, msg, b):
        self.C.oblige(msg, self.core.as_bool(b))

    def ok(self, msg):
        self.C.stats.obligations += 1
        self.C.stats.discharged += 1

    def fail(self, msg):
        self.C.oblige(msg, self.core.FALSE)

    def _pairs(self, msg, a, b):
        oa, ob = self.arr.to_obj(a), self.arr.to_obj(b)
        if oa.shape != ob.shape:
            self.fail("%s: shape %s instead of %s" % (msg, oa.shape, ob.shape))
            return []
        return list(zip(oa.reshape(-1), ob.reshape(-1)))

    def eq(self, msg, a, b, tol=None, atol=None):
        """elementwise equality (numbers, arrays or sparse matrices)"""
        bs, margin = [], []
        for x, y in self._pairs(msg, a, b):
            if isinstance(x, self.core.Bool) or isinstance(y, self.core.Bool):
                bs.append(self.core.as_bool(self.core.as_bool(x) == self.core.as_bool(y)))
                continue
            x, y = self.core.lift(x), self.core.lift(y)
            if (x.c is not None and self.core.is_special(x.c)) or (y.c is not None and self.core.is_special(y.c)):
                same = x.c is not None and y.c is not None and (x.c == y.c or (x.c != x.c and y.c != y.c))
                bs.append(self.core.TRUE if same else self.core.FALSE)
                continue
            if atol is not None:
                d = self.core.sub(x, y)
                e = self.core.cmp_(d, Fraction(atol), '<=') & self.core.cmp_(d, Fraction(-atol), '>=')
            else:
                e = self.core.cmp_(x, y, '==')
                if e.c is None and self.core.identically_zero(self.core.sub(x, y).poly()):
                    e = self.core.TRUE
            bs.append(e)
            if e.c is None:
                d = self.core.sub(x, y)
                margin.append(self.core.cmp_(d, Fraction(1, 50), '>') | self.core.cmp_(d, Fraction(-1, 50), '<'))
        self._all(msg, bs, margin)

    def same(self, msg, a, b):
        """structural, exact equality of (nested) state"""
        if isinstance(a, tuple) and hasattr(a, '_fields'):
            for f, x, y in zip(a._fields, a, b):
                self.same("%s.%s" % (msg, f), x, y)
            return
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return self.fail("%s: length" % msg)
            for i, (x, y) in enumerate(zip(a, b)):
                self.same("%s[%d]" % (msg, i), x, y)
            return
        if a is None or isinstance(a, (str, type, np.dtype, bool)):
            return self.check(msg, a is b or a == b)
        if hasattr(a, '__symx_sparse__'):
            self.check(msg + ": pattern", list(a.indices) == list(b.indices) and list(a.indptr) == list(b.indptr))
            return self.eq(msg, a.data, b.data)
        if isinstance(a, (self.arr.SArr, np.ndarray, self.core.Sym, self.core.Bool, int, float, np.generic)):
            return self.eq(msg, a, b)
        self.check(msg, a is b or a == b)

    def le(self, msg, a, b, slack=None):
        bs = []
        oa, ob = np.broadcast_arrays(self.arr.to_obj(a), self.arr.to_obj(b))
        for x, y in zip(oa.reshape(-1), ob.reshape(-1)):
            bs.append(self.core.as_bool(self.core.cmp_(x, y, '<=')))
        self._all(msg, bs, [])

    def ge(self, msg, a, b, slack=None):
        self.le(msg, b, a)

    def finite(self, msg, a):
        bs = []
        for x in self.arr.to_obj(a).reshape(-1):
            s = self.core.lift(x)
            bs.append(self.core.FALSE if s.c is not None and self.core.is_special(s.c) else self.core.TRUE)
        self._all(msg, bs, [])

    def _all(self, msg, bs, margin):
        st = self.C.stats
        if any(b.c is False for b in bs):
            st.obligations += 1
            self.C.on_fail(msg, self.core.FALSE)
            return
        rest = [b for b in bs if b.c is None]
        st.obligations += len(bs)
        st.discharged += len(bs) - len(rest)
        if not rest:
            return
        if len(rest) <= 12:
            chunks = [rest]
        else:
            chunks = [rest[i:i + 12] for i in range(0, len(rest), 12)]
        for ch in chunks:
            self.run.on_fail(msg, self.core.all_(ch), self.core.any_(margin) if margin else None, n=len(ch), parts=ch)

    def observe(self, name, v):
        self.observed.append((name, v))

    def tokens(self):
        """from here on a symbolic value that is formatted as text can be recognised in the text"""
        self.C.cache['tokens'] = []

    def number(self, text):
        """the value that was formatted"""
        x = self.core.untoken(text)
        return float(text) if x is None else x

    def text(self, x):
        """the text of a value (see tokens)"""
        return str(x)

    def eq_text(self, msg, text, want, digits):
        """text is the value `want` with this many decimals"""
        got, want = self.number(text), self.core.lift(want)
        if not isinstance(got, self.core.Sym):
            if want.c is not None and not self.core.is_special(want.c):
                self.check(msg, abs(got - float(want.c)) <= 0.51 * 10 ** -digits + 1e-9 * abs(got))
                return
            if want.c is not None:
                self.check(msg, got == want.c or (got != got and want.c != want.c))
                return
        self.eq(msg, got, want)

    def raises(self, fn, *exc):
        """run fn; returns the exception of one of these classes it raised, else None"""
        try:
            fn()
        except exc or (Exception,) as e:
            return e
        return None

    def no_overflow(self, fn, limit=709):
        """run fn, obliging every exp it evaluates to have an argument of at most `limit`"""
        self.C.cache['exp_limit'] = limit
        try:
            return fn()
        finally:
            self.C.cache['exp_limit'] = None

    def is_gradient(self, msg, f, x, g):
        """g is the gradient of f at x, an array of inputs"""
        xs, gs = self.flat(x), self.flat(g)
        self.check("%s: one derivative per variable" % msg, len(xs) == len(gs))
        t = self.flat(f(x))
        for i in range(len(xs)):
            self.eq(msg, self.core.derive(self.core.lift(t[0]), self.core.lift(xs[i])), gs[i])

    def perm_filter(self, f):
        self.C.cache['perm_filter'] = f


def _num(v):
    """z3 value -> Fraction"""
    import z3
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return _num(v.approx(30))
    return None


def _ser(f):
    return int(f) if f.denominator == 1 and abs(f) < 2 ** 62 else float(f)


class CaseRun:
    """symbolic exploration of one case"""

    def __init__(self, case, budget, timeout, branch_timeout):
        from . import core
        self.case = case
        self.stats = core.Stats()
        self.cands = []                # dicts
        self.probes, self.probed, self.probe_time = [], {}, 0.0
        self.inconclusive = []
        self.notes = set()
        self.msgs = {}
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.timeout, self.branch_timeout = timeout, branch_timeout
        self.witness = None
        self.inputs = set()
        self.samples = []

    def values(self, C, m):
        """input values of a model"""
        out = {}
        for n, s in C.inputs.items():
            if s.c is not None:
                out[n] = _ser(Fraction(s.c))
                continue
            v = Fraction(C.p_eval(s.p, m)) if isinstance(m, dict) else _num(m.eval(s.z(), model_completion=True))
            if v is None:
                continue
            out[n] = _ser(v)
        out.update(C.choices)
        return out

    def on_fail(self, msg, b, margin=None, n=1, parts=None):
        C = self.C
        if b.c is True:
            self.stats.discharged += n
            return
        if len(self.msgs.get(msg, ())) >= 2:
            return
        if C.cheap([b.neg()]) or C.check([b.neg()], min(self.timeout, 6000), slice_=True) == 'unsat':
            r, m = 'unsat', None
        else:
            r, m = C.find(None if b.c is False else b.neg())
            if r != 'sat':
                r, m = C.check([b.neg()], self.timeout, want_model=True)
        if r == 'unknown' and parts and len(parts) > 1:
            rs = []
            for p in parts:
                r, m = C.check([p.neg()], self.timeout, want_model=True)
                rs.append(r)
                if r == 'sat':
                    break
            r = 'sat' if 'sat' in rs else ('unknown' if 'unknown' in rs else 'unsat')
        if r == 'unsat':
            self.stats.discharged += n
            self.stats.proved = getattr(self.stats, 'proved', 0) + 1
            return
        if r == 'unknown':
            self.inconclusive.append("solver gave no answer: %s" % msg)
            self._cand(msg, None)
            return
        vals = self.values(C, m)
        alt = None
        if margin is not None and margin.c is None:
            r2, m2 = C.check([b.neg(), margin], min(self.timeout, 8000), want_model=True)
            if r2 == 'sat':
                alt = vals
                vals = self.values(C, m2)
        self._cand(msg, vals, alt)
        # carry on along executions that satisfy the claim
        if b.c is False:
            from .core import PathEnd
            raise PathEnd("refuted")

    def on_probe(self, msg, b):
        C = self.C
        n = self.probed.get(msg, 0)
        if n >= 3 or len(self.probed) >= 12 or self.probe_time > 0.15 * (self.deadline - self.t0):
            return
        self.probed[msg] = n + 1
        t0 = time.time()
        neg = b.neg()
        r, m = 'unknown', None
        if not C.cheap([neg]):
            if C.check([neg], 700, slice_=True) == 'unsat':
                r = 'unsat'
            else:
                r, m = C.check([neg], 1500, want_model=True)
        else:
            r = 'unsat'
        self.probe_time += time.time() - t0
        if r == 'sat':
            self.probed[msg] = 3
            self.probes.append({'case': self.case.name, 'msg': msg, 'values': self.values(C, m), 'alt': None, 'probe': True})

    def _cand(self, msg, vals, alt=None):
        self.msgs.setdefault(msg, []).append(1)
        self.cands.append({'case': self.case.name, 'msg': msg, 'values': vals, 'alt': alt})

    def explore(self):
        from . import core, env
        pending = [[]]
        completed = 0
        maxp = self.case.max_paths or 5000
        while pending:
            if time.time() > self.deadline:
                self.inconclusive.append("time budget: %d path prefixes unexplored" % len(pending))
                break
            if self.stats.paths >= maxp:
                self.inconclusive.append("path budget: %d path prefixes unexplored" % len(pending))
                break
            prefix = pending.pop()
            C = core.Ctx(prefix, self.stats, self.branch_timeout, self.timeout, self.deadline)
            C.simplex_last = {}
            C.div0 = self.case.div0
            C.on_fail = self.on_fail
            C.on_probe = self.on_probe if self.case.div0 == 'probe' else None
            self.C = C
            core._ctx = C
            self.stats.paths += 1
            h = SymH(C, self)
            done = False
            try:
                self.case.fn(h, **self.case.params)
                done = True
            except core.PathEnd:
                self.stats.infeasible += 1
            except core.Unsupported as e:
                self.inconclusive.append("unsupported: %s%s" % (e, _where()))
                self._cand("(not decided: %s)" % e, None)
            except core.Budget as e:
                self.inconclusive.append("budget: %s" % e)
                pending = []
            except RecursionError:
                self.inconclusive.append("recursion limit")
            except MemoryError:
                self.inconclusive.append("memory")
                pending = []
            except Exception as e:
                if os.environ.get('SYMX_TRACE'):
                    traceback.print_exc()
                msg = "unexpected %s: %s" % (type(e).__name__, str(e)[:160])
                if len(self.msgs.get(msg, ())) < 2:
                    try:
                        r, m = C.check([], self.timeout, want_model=True)
                    except core.Budget:
                        r = 'unknown'
                    if r == 'sat':
                        self.msgs.setdefault(msg, []).append(1)
                        self._cand(msg + _where(), self.values(C, m))
                    elif r != 'unsat':
                        self.inconclusive.append("exception on a path of unknown feasibility: " + msg)
                        self._cand(msg, None)
            self.notes |= C.assume_notes
            self.stats.decisions = getattr(self.stats, 'decisions', 0) + len(C.taken) - len(prefix) + 1
            pending += C.pending
            if done:
                completed += 1
                if completed <= 2 or self.witness is None:
                    try:
                        ids = self._obs_atoms(h, C)
                        r, m = C.find(None, 30)
                        if ids and r != 'sat':
                            r, m = C.check([], min(self.timeout, 6000), want_model=True, more=ids)
                        obs = r == 'sat'
                        if r == 'unknown':
                            r, m = C.check([], min(self.timeout, 10000), want_model=True)
                    except core.Budget:
                        r = 'unknown'
                    if r == 'sat':
                        self.stats.reach += 1
                        w = {'case': self.case.name, 'values': self.values(C, m), 'obs': self._obs(h, C, m) if obs or not ids else []}
                        self.witness = self.witness or w
                        self.samples.append(w)
            core._ctx = None
        if completed and self.witness is None and not self.inconclusive:
            self.inconclusive.append("no satisfiable path found (vacuous)")
        if not completed and not self.inconclusive and not self.cands:
            self.inconclusive.append("no path of the case completes (vacuous)")
        return self.result()

    def _obs_atoms(self, h, C):
        ids = set()
        for name, v in h.observed:
            for x in h.arr.to_obj(v).reshape(-1):
                s = h.core.lift(x)
                if s.p is not None:
                    ids |= C.p_atoms(s.p)
        return ids

    def _obs(self, h, C, m):
        out = []
        for name, v in h.observed:
            try:
                xs = []
                ok = True
                for x in h.arr.to_obj(v).reshape(-1):
                    s = h.core.lift(x)
                    if s.c is not None:
                        xs.append(_ser(Fraction(s.c)) if not h.core.is_special(s.c) else str(s.c))
                        continue
                    _, seen = C.cone(s.ats)
                    if not isinstance(m, dict) and any(C.atoms[i].fn for i in seen):
                        ok = False
                        break
                    q = Fraction(C.p_eval(s.p, m)) if isinstance(m, dict) else _num(m.eval(s.z(), model_completion=True))
                    xs.append(_ser(q))
                if ok:
                    out.append((name, xs))
            except Exception:
                pass
        return out

    def result(self):
        st = self.stats
        return {'case': self.case.name, 'cands': self.cands, 'inconclusive': self.inconclusive,
                'probes': self.probes, 'notes': sorted(self.notes), 'samples': self.samples[:2],
                'stats': {k: getattr(st, k, 0) for k in ('queries', 'time', 'unknown', 'paths', 'infeasible', 'obligations',
                                                       'discharged', 'branch_queries', 'reach', 'max_query', 'decisions', 'proved')},
                'funcs': sorted(st.funcs), 'wall': time.time() - self.t0}


def _where():
    tb = sys.exc_info()[2]
    best = ''
    root = os.environ.get('SYMX_REPO', '/repo')
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(root):
            best = " (%s:%d)" % (f.filename[len(root) + 1:], f.lineno)
    return best


# ---------------------------------------------------------------------------------------------
def load_check(pid):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return importlib.import_module('checks.' + pid.lower())


def run_one(args):
    pid, name, tier, budget = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(20000)
    mod = load_check(pid)
    case = [c for c in mod.cases(tier) if c.name == name][0]
    from . import env
    env.setup()
    env.trace_functions()
    t = case.timeout or (20000 if tier == 'quick' else 60000)
    bt = case.branch_timeout or (2500 if tier == 'quick' else 6000)
    run = CaseRun(case, min(budget, case.budget or budget), t, bt)
    devnull = open(os.devnull, 'w')
    old = sys.stdout, sys.stderr
    if not os.environ.get('SYMX_TRACE'):
        sys.stdout = sys.stderr = devnull
    try:
        import logging, warnings
        logging.disable(logging.CRITICAL)
        warnings.simplefilter('ignore')
        return run.explore()
    finally:
        sys.stdout, sys.stderr = old
        sys.setprofile(None)
