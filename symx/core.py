"""Symbolic scalars, path exploration and the solver interface.

Reals are polynomials (with exact rational coefficients) over *atoms*.  An atom
is an input variable, the quotient of two polynomials, an application of an
uninterpreted transcendental function, or the result of a merged conditional;
each atom carries the constraints that define it.  A query hands z3 the path
condition, the goal and the definitions of every atom they (transitively) use.
"""
import itertools
import math
import sys
import time
from fractions import Fraction

import z3

z3.set_param('model.completion', True)


class Unsupported(BaseException):
    """The engine met something it has no semantics for: the run is inconclusive."""


class SpecFail(BaseException):
    """a speculative evaluation would have to decide something"""


class PathEnd(BaseException):
    """The current path is infeasible or has been abandoned by an assumption."""


class Budget(BaseException):
    """Path or time budget exhausted: inconclusive."""


_ctx = None


def ctx():
    if _ctx is None:
        raise Unsupported("no symbolic context")
    return _ctx


# --------------------------------------------------------------------------
# polynomials: {monomial: coefficient};  monomial = sorted tuple of (atom id, power)
# --------------------------------------------------------------------------
def _num(c):
    """normalise a rational constant: ints stay ints"""
    if type(c) is int:
        return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, int):
        return int(c)
    if isinstance(c, float):
        if c != c or c in (math.inf, -math.inf):
            return c
        return _snap(c)
    raise Unsupported("constant %r" % (c,))


_snaps = {}


def _snap(c):
    """the rational a float constant stands for: the short decimal or simple fraction it prints as
    (rounding of constants is outside every claim), otherwise its exact value"""
    r = _snaps.get(c)
    if r is None:
        if c == int(c):
            r = int(c)
        else:
            import numpy as np
            s = repr(c)
            s32 = repr(float(str(np.float32(c))))
            if len(s.split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 12:
                r = Fraction(s)
            elif float(np.float32(c)) == c and \
                    len(s32.split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 7:
                r = Fraction(s32)
            else:
                f = Fraction(c).limit_denominator(2000)
                r = f if float(f) == c or float(np.float32(float(f))) == c else Fraction(c)
            r = r.numerator if r.denominator == 1 else r
        _snaps[c] = r
    return r


def is_special(c):
    return isinstance(c, float)


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _num(v) if isinstance(v, Fraction) else v
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, p in b:
        v = d.get(i, 0) + p
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m, c in p.items():
        for n, e in q.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * e
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > 4000:
        raise Unsupported("polynomial too large")
    return r


def p_scale(p, c):
    if c == 0:
        return {}
    return {m: _num(v * c) if isinstance(v * c, Fraction) else v * c for m, v in p.items()}


def p_key(p):
    return tuple(sorted(p.items()))


def p_const(p):
    """the constant value of p, or None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


POS, NONNEG = 2, 1


class Atom:
    __slots__ = ('id', 'name', 'kind', 'sign', 'z', 'defs', 'nonzero', 'fn', 'arg', 'inv', 'num', 'den', 'lo', 'hi', 'nl', 'ev')

    def __init__(self, id, name, kind, sign=0):
        self.id, self.name, self.kind, self.sign = id, name, kind, sign
        self.z = z3.Real(name) if kind == 'r' else z3.Int(name)
        self.defs = []          # (z3 constraint, frozenset of atom ids)
        self.nl = []            # the same, non-linear
        self.nonzero = sign == POS
        self.fn = self.arg = self.inv = self.num = self.den = None
        self.lo = self.hi = None
        self.ev = None          # how to compute it: ('ite', condition, p, q) or ('inv', atom)


_consts = {}


def zconst(c, real=True):
    k = (c, real)
    r = _consts.get(k)
    if r is None:
        if real:
            f = Fraction(c)
            r = z3.RealVal(str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator))
        else:
            r = z3.IntVal(int(c))
        _consts[k] = r
    return r


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0
        self.discharged = 0
        self.branch_queries = 0
        self.funcs = set()
        self.max_query = 0.0
        self.reach = 0

    def merge(self, o):
        for k in ('queries', 'time', 'unknown', 'paths', 'infeasible', 'obligations', 'discharged',
                  'branch_queries', 'reach'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.max_query = max(self.max_query, o.max_query)
        self.funcs |= o.funcs


class Ctx:
    """State of one symbolic execution path."""

    def __init__(self, prefix=(), stats=None, branch_timeout=2000, prove_timeout=20000, deadline=None):
        self.prefix = list(prefix)      # decisions to replay
        self.taken = []                 # decisions made so far
        self.pending = []               # alternative prefixes found on this path
        self.atoms = []
        self.pc = []                    # (z3 bool, atom ids)
        self.cache = {}
        self.groups = {}                # denominators: key -> [quotient atoms]
        self.stats = stats or Stats()
        self.branch_timeout = branch_timeout
        self.prove_timeout = prove_timeout
        self.deadline = deadline
        self.inputs = {}                # name -> Sym (inputs to be realised in a replay)
        self.choices = {}               # name -> python value picked by choose()
        self.counter = itertools.count()
        self.events = []
        self.obligs = []                # deferred checks
        self.div0 = 'assume'            # 'assume' | 'oblige'
        self.on_fail = None             # callback (msg, goal Sym)
        self.on_probe = None
        self.assume_notes = set()
        self.max_decisions = 4000
        self.lin_branch = False
        self.speculative = False
        self.inmeta = {}                # input name -> (lo, hi, kind, strict)
        self.ingroups = []              # names of inputs that sum to one

    # ---- atoms -----------------------------------------------------------
    def new_atom(self, name, kind='r', sign=0):
        a = Atom(len(self.atoms), "%s!%d" % (name, len(self.atoms)), kind, sign)
        self.atoms.append(a)
        if sign == POS:
            a.defs.append((a.z > 0, frozenset([a.id])))
        elif sign == NONNEG:
            a.defs.append((a.z >= 0, frozenset([a.id])))
        return a

    def zpoly(self, p, real):
        key = (p_key(p), real)
        r = self.cache.get(('z', key))
        if r is not None:
            return r
        terms = []
        for m, c in sorted(p.items()):
            fs = []
            for i, pw in m:
                a = self.atoms[i]
                z = a.z
                if pw < 0:
                    z = self._inverse(a).z
                    pw = -pw
                elif real and a.kind == 'i':
                    z = z3.ToReal(z)
                fs += [z] * pw
            if c != 1 or not fs:
                fs.insert(0, zconst(c, real))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else zconst(0, real))
        self.cache[('z', key)] = r
        return r

    def _inverse(self, a):
        if a.inv is None:
            inv = self.new_atom("inv_" + a.name, 'r', POS if a.sign == POS else 0)
            inv.nonzero = True
            src = a.z if a.kind == 'r' else z3.ToReal(a.z)
            inv.nl.append((inv.z * src == 1, frozenset([a.id, inv.id])))
            a.inv = inv
            inv.ev = ('inv', a)
        return a.inv

    def p_atoms(self, p):
        s = set()
        for m in p:
            for i, pw in m:
                s.add(i)
                if pw < 0:
                    s.add(self._inverse(self.atoms[i]).id)
        return frozenset(s)

    # ---- sign analysis -----------------------------------------------------
    def p_sign(self, p):
        """POS / NONNEG / -NONNEG / -POS / 0(unknown), syntactically sound"""
        if not p:
            return NONNEG
        best = None
        strict = False
        for m, c in p.items():
            s = POS
            for i, pw in m:
                a = self.atoms[i]
                if a.sign == POS:
                    continue
                if a.sign == NONNEG:
                    s = min(s, NONNEG)
                elif pw % 2 == 0:
                    s = min(s, NONNEG)
                else:
                    return 0
            if c < 0:
                s = -s
            if best is None:
                best = 1 if s > 0 else -1
            elif (best > 0) != (s > 0):
                return 0
            if abs(s) == POS:
                strict = True
        return best * (POS if strict else NONNEG)

    # ---- queries -----------------------------------------------------------
    def cone(self, ids, cheap=False):
        """constraints defining the given atoms, transitively, plus pairwise axioms"""
        seen, todo, out = set(), list(ids), []
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            a = self.atoms[i]
            for z, deps in (a.defs if cheap else a.defs + a.nl):
                out.append(z)
                todo.extend(d for d in deps if d not in seen)
        by_fn = {}
        for i in (seen if not cheap else ()):
            a = self.atoms[i]
            if a.fn:
                by_fn.setdefault(a.fn, []).append(a)
        for fn, ats in by_fn.items():
            if len(ats) > 14:
                ats = sorted(ats, key=lambda a: a.id)[:14]
            for a, b in itertools.combinations(sorted(ats, key=lambda a: a.id), 2):
                if len(a.arg) != len(b.arg):
                    continue
                za = [self.zpoly(x, True) for x in a.arg]
                zb = [self.zpoly(x, True) for x in b.arg]
                if fn in ('exp', 'log', 'sqrt', 'arctan'):
                    out.append((za[0] < zb[0]) == (a.z < b.z))
                    out.append((za[0] == zb[0]) == (a.z == b.z))
                else:
                    out.append(z3.Implies(z3.And([x == y for x, y in zip(za, zb)]), a.z == b.z))
        # sum-to-one lemmas: quotients sharing a denominator that is the sum of their numerators
        for key, (den, qs) in self.groups.items():
            qs = [q for q in qs if q.id in seen]
            if len(qs) < 2:
                continue
            for lem in self._group_lemmas(den, qs):
                out.append(lem)
        return out, seen

    def _group_lemmas(self, den, qs):
        ck = ('grp', p_key(den), tuple(q.id for q in qs))
        if ck in self.cache:
            return self.cache[ck]
        lems = []
        # greedy cover: consecutive runs of quotients whose numerators add up to the denominator
        n = len(qs)
        for i in range(n):
            acc = {}
            for j in range(i, min(n, i + 8)):
                acc = p_add(acc, qs[j].num)
                if j > i and p_add(acc, den, -1) == {}:
                    lems.append(z3.Sum([q.z for q in qs[i:j + 1]]) == 1)
                    break
        if not lems and n <= 8:
            for r in range(2, n + 1):
                for sub in itertools.combinations(qs, r):
                    acc = {}
                    for q in sub:
                        acc = p_add(acc, q.num)
                    if p_add(acc, den, -1) == {}:
                        lems.append(z3.Sum([q.z for q in sub]) == 1)
        self.cache[ck] = lems
        return lems

    def _closure(self, ids):
        key = ('clos', ids)
        r = self.cache.get(key)
        if r is None:
            seen, todo = set(), list(ids)
            while todo:
                i = todo.pop()
                if i not in seen:
                    seen.add(i)
                    for _, deps in self.atoms[i].defs + self.atoms[i].nl:
                        todo.extend(d for d in deps if d not in seen)
            r = self.cache[key] = frozenset(seen)
        return r

    def _slice(self, extra):
        """the part of the path condition connected to these formulas through shared atoms"""
        ids = set()
        for e in extra:
            ids |= self._closure(frozenset(e.ats))
        rest = [(p, self._closure(frozenset(p[1]))) for p in self.pc]
        out = []
        while True:
            hit = [r for r in rest if not r[1] or not ids.isdisjoint(r[1])]
            if not hit:
                return out
            rest = [r for r in rest if r[1] and ids.isdisjoint(r[1])]
            for p, c in hit:
                out.append(p)
                ids |= c

    def assertions(self, extra, inputs=False, more=(), slice_=False, cheap=False):
        ids = set(more)
        if inputs:
            for s in self.inputs.values():
                if s.p is not None:
                    ids |= self.p_atoms(s.p)
        zs = []
        for z, a in (self._slice(extra) if slice_ else self.pc):
            zs.append(z)
            ids |= a
        for e in extra:
            zs.append(e.z())
            ids |= e.ats
        cone, _ = self.cone(ids, cheap)
        return zs + cone

    def check(self, extra=(), timeout=None, want_model=False, more=(), slice_=False):
        """sat / unsat / unknown of pc & extra"""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        timeout = timeout or self.prove_timeout
        if not want_model and extra and len(self.atoms) > 12:
            if self.cheap(extra):
                return 'unsat'
        zs = self.assertions(extra, want_model and not slice_, more, slice_)
        r, m = self._timed(zs, timeout, want_model)
        if r == 'unknown':
            self.stats.unknown += 1
        return (r, m) if want_model else r

    def _pick(self, t):
        """admissible numbers for the inputs"""
        import random
        rs = random.Random(1000 + t)
        val = {}
        for names in self.ingroups:
            w = [rs.randint(1, 9) for _ in names]
            for n, x in zip(names, w):
                val[n] = Fraction(x, sum(w))
        for n, (lo, hi, kind, strict) in self.inmeta.items():
            if n in val:
                continue
            if kind == 'i':
                val[n] = rs.randint(lo, hi)
                continue
            a, b = lo, hi
            if a is None:
                a = -2 if b is None else b - 3
            if b is None:
                b = a + 3
            a, b = Fraction(a), Fraction(b)
            val[n] = a + (b - a) * Fraction(rs.randint(1, 15), 16)
        return val

    def p_eval(self, p, vals):
        r = 0
        for m, c in p.items():
            for i, pw in m:
                c = c * (vals[i] ** pw if pw > 0 or vals[i] else math.nan)
            r = r + c
        return r

    def simulate(self, t):
        """all atoms evaluated at one admissible input, when that input follows this path; else None"""
        pick = self._pick(t)
        vals = {}
        for n, s in self.inputs.items():
            if s.p is not None:
                (m, c), = s.p.items()
                vals[m[0][0]] = pick[n]
        subs = []
        try:
            for a in self.atoms:
                if a.id not in vals:
                    vals[a.id] = self._eval_atom(a, vals, subs)
                v = vals[a.id]
                if isinstance(v, float):
                    v = vals[a.id] = Fraction(v)
                if a.kind == 'r' and v.denominator.bit_length() > 200:
                    f = 1 << 160
                    s = 0 if v == 0 else max(0, v.denominator.bit_length() - abs(v.numerator).bit_length())
                    v = vals[a.id] = Fraction(round(v * (f << s)), f << s)
                subs.append((a.z, zconst(v, a.kind == 'r')))
            for z, _ in self.pc:
                if not z3.is_true(z3.simplify(z3.substitute(z, subs))):
                    return None
        except (ZeroDivisionError, ValueError, OverflowError, TypeError, KeyError):
            return None
        return vals

    def _eval_atom(self, a, vals, subs):
        if a.den is not None:
            return Fraction(self.p_eval(a.num, vals)) / Fraction(self.p_eval(a.den, vals))
        if a.ev is not None:
            if a.ev[0] == 'inv':
                return 1 / Fraction(vals[a.ev[1].id])
            c = z3.simplify(z3.substitute(a.ev[1].e, subs))
            return self.p_eval(a.ev[2] if z3.is_true(c) else a.ev[3], vals)
        if a.fn:
            import mpmath
            f = {'exp': mpmath.exp, 'log': mpmath.log, 'sqrt': mpmath.sqrt, 'arctan': mpmath.atan, 'digamma': mpmath.digamma,
                 'gammaln': mpmath.loggamma, 'erf': mpmath.erf, 'erfc': mpmath.erfc, 'gamma': mpmath.gamma, 'pow': mpmath.power,
                 'exp_approx': mpmath.exp}.get(a.fn.replace('_c', '') if a.fn.endswith('_c') else a.fn)
            if f is None:
                return Fraction(1)
            with mpmath.workdps(40):
                xs = [Fraction(self.p_eval(p, vals)) for p in a.arg]
                r = f(*[mpmath.mpf(x.numerator) / x.denominator for x in xs])
                if not isinstance(r, mpmath.mpf) or not mpmath.isfinite(r):
                    raise ValueError
                sg, man, e, _ = r._mpf_
                v = Fraction(int(man)) * (Fraction(2) ** int(e))
                return -v if sg else v
        if not a.defs and not a.nl and a.kind == 'r':
            return Fraction(1)
        # anything else: from its defining constraints
        s = z3.Solver()
        s.set('timeout', 500)
        for z, _ in a.defs + a.nl:
            s.add(z3.simplify(z3.substitute(z, subs)))
        if s.check() != z3.sat:
            raise ValueError
        v = s.model().eval(a.z, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return Fraction(v.numerator_as_long(), v.denominator_as_long())

    def find(self, b=None, tries=4):
        """an input that follows this path (and makes b true)"""
        for t in range(tries):
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget exhausted")
            vals = self.simulate(t)
            if vals is None:
                continue
            if b is not None:
                subs = [(self.atoms[i].z, zconst(vals[i], self.atoms[i].kind == 'r')) for i in b.ats]
                if not z3.is_true(z3.simplify(z3.substitute(b.e, subs))):
                    continue
            return 'sat', vals
        return 'unknown', None

    def cheap(self, extra, timeout=500):
        """refuted by linear facts alone (signs, shares of a total, assumptions)?"""
        return self._timed(self.assertions(extra, False, (), True, True), timeout, False, 1)[0] == 'unsat'

    def _timed(self, zs, timeout, want_model, stages=4):
        t0 = time.time()
        try:
            return _solve(zs, timeout, want_model, stages)
        finally:
            dt = time.time() - t0
            self.stats.queries += 1
            self.stats.time += dt
            self.stats.max_query = max(self.stats.max_query, dt)

    # ---- path control ------------------------------------------------------
    def add_pc(self, b):
        if b.c is True:
            return
        if self.speculative:
            raise SpecFail()
        if b.c is False:
            raise PathEnd("false assumption")
        self.pc.append((b.e, b.ats))

    def assume(self, b):
        b = as_bool(b)
        if b.c is True:
            return
        if self.speculative:
            raise SpecFail()
        if b.c is False:
            raise PathEnd("assumption is false")
        self.add_pc(b)
        self.dirty = True

    def branch(self, b):
        """decide a symbolic boolean, exploring both outcomes over successive runs"""
        if b.c is not None:
            return b.c
        if self.speculative:
            raise SpecFail()
        if len(self.taken) >= self.max_decisions:
            raise Budget("too many decisions on one path")
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v is not True and v is not False:
                raise Unsupported("decision trace diverged (non-deterministic code under test?)")
            self.taken.append(v)
            self.add_pc(b if v else b.neg())
            return v
        self.stats.branch_queries += 2
        # constraints sharing nothing with the condition cannot change the answer on a feasible path
        rt = self.check([b], self.branch_timeout, slice_=True)
        rf = 'sat' if rt == 'unsat' else self.check([b.neg()], self.branch_timeout, slice_=True)
        if rt == 'unsat' and rf == 'sat':
            # do not trust: path could itself be infeasible, but then nothing is lost
            self.taken.append(False)
            self.add_pc(b.neg())
            return False
        if rf == 'unsat':
            self.taken.append(True)
            self.add_pc(b)
            return True
        self.pending.append(self.taken + [False])
        self.taken.append(True)
        self.add_pc(b)
        return True

    def choose(self, options):
        """non-deterministic choice among python values (explored exhaustively)"""
        if self.speculative:
            raise SpecFail()
        i = len(self.taken)
        n = len(options)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            return options[v[1]]
        for j in range(n - 1, 0, -1):
            self.pending.append(self.taken + [('c', j)])
        self.taken.append(('c', 0))
        return options[0]

    def concretize(self, s):
        """make a symbolic integer concrete by forking over its feasible values"""
        if s.c is not None:
            return s.c
        ck = ('conc', p_key(s.p))
        if ck not in self.cache:
            self.cache[ck] = self._concretize(s)
        return self.cache[ck]

    def _concretize(self, s):
        if self.speculative:
            raise SpecFail()
        tries = 0
        zs = self.zpoly(s.p, False)
        about = Bool(None, zs == zs + 0, frozenset(self.p_atoms(s.p)))    # brings in the definitions of the atoms
        while True:
            tries += 1
            if tries > 70:
                raise Unsupported("too many values for a concretised integer")
            # the value to try must be a deterministic function of the decisions so far
            i = len(self.taken)
            if i < len(self.prefix):
                v = self.prefix[i]
                if not (isinstance(v, tuple) and v[0] == 'v'):
                    raise Unsupported("decision trace diverged")
                self.taken.append(v)
                val, yes = v[1], v[2]
                eq = cmp_(s, lift(val), '==')
                if yes:
                    if eq.c is not True:
                        self.add_pc(eq)
                    return val
                if eq.c is not False:
                    self.add_pc(eq.neg())
                continue
            r, m = self.check([about], self.prove_timeout * 3, want_model=True, slice_=True)
            if r == 'unsat':
                raise PathEnd("no value")
            if r != 'sat':
                raise Unsupported("cannot concretise an integer")
            zv = m.eval(self.zpoly(s.p, False), model_completion=True)
            val = zv.as_long()
            eq = cmp_(s, lift(val), '==')
            if eq.c is True:
                return val
            if self.check([eq.neg()], self.branch_timeout, slice_=True) != 'unsat':
                self.pending.append(self.taken + [('v', val, False)])
            self.taken.append(('v', val, True))
            self.add_pc(eq)
            return val

    # ---- obligations ---------------------------------------------------------
    def oblige(self, msg, b):
        """b must hold here for every value"""
        b = as_bool(b)
        if self.speculative and b.c is not True:
            raise SpecFail()
        self.stats.obligations += 1
        if b.c is True:
            self.stats.discharged += 1
            # still the solver's verdict: a syntactic tautology is submitted once per message class
            return
        if self.on_fail is None:
            raise Unsupported("no failure handler")
        self.on_fail(msg, b)

    def probe(self, msg, b):
        """the encoding assumes b (no NaN or infinity arises here).  An input of this path for which b does not hold is
        handed to the real code, whose outcome the claims then judge"""
        if self.on_probe is None or b.c is True:
            return
        f = sys._getframe(1)
        here = __file__.rsplit('/', 1)[0]
        while f is not None:
            n = f.f_code.co_filename
            if not n.startswith(here) and '/site-packages/' not in n and '/numpy/' not in n:
                break
            f = f.f_back
        n = f.f_code.co_filename if f else ''
        if not n or '/checks/' in n:
            return
        self.on_probe("%s at %s:%d" % (msg, '/'.join(n.split('/')[-2:]), f.f_lineno), b)


def _solve(zs, timeout, want_model, stages=4):
    """portfolio: default core briefly, nlsat, default core again, cvc5 for refutation"""
    has_int = False
    s = z3.Solver()
    t1 = min(timeout, 1500)
    s.set('timeout', int(t1))
    s.add(zs)
    r = s.check()
    if r == z3.sat:
        return 'sat', (s.model() if want_model else None)
    if r == z3.unsat:
        return 'unsat', None
    rest = timeout - t1
    if rest <= 0 or stages < 2:
        return 'unknown', None
    try:
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'purify-arith', 'qfnra-nlsat')
        s2 = t.solver()
        s2.set('timeout', int(rest * 0.5))
        s2.add(zs)
        r = s2.check()
        if r == z3.sat:
            return 'sat', (s2.model() if want_model else None)
        if r == z3.unsat:
            return 'unsat', None
    except z3.Z3Exception:
        pass
    s.set('timeout', int(rest * 0.3))
    r = s.check()
    if r == z3.sat:
        return 'sat', (s.model() if want_model else None)
    if r == z3.unsat:
        return 'unsat', None
    r = _cvc5(s, max(2000, int(rest * 0.4)))
    if r == 'unsat':
        return 'unsat', None
    return 'unknown', None


def _cvc5(solver, timeout):
    import subprocess
    txt = "(set-logic ALL)\n" + solver.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--lang=smt2', '-'], input=txt,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=timeout / 1000.0 + 5)
    except Exception:
        return 'unknown'
    if '(error' in p.stdout:
        return 'unknown'
    out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
    return out if out in ('sat', 'unsat') else 'unknown'


# --------------------------------------------------------------------------
# identities between quotients
# --------------------------------------------------------------------------
_PRIME = (1 << 61) - 1


def _mod(c):
    if isinstance(c, int):
        return c % _PRIME
    c = Fraction(c)
    return c.numerator * pow(c.denominator, -1, _PRIME) % _PRIME


def _modval(C, i, vals):
    """value of an atom modulo a prime when every atom that is not a quotient is an unrelated number"""
    v = vals.get(i)
    if v is None:
        a = C.atoms[i]
        if a.den is None:
            v = (0x9E3779B97F4A7C15 * (i + 1) + 0xD1B54A32D192ED03) ** 3 % _PRIME or 1
        else:
            v = _modpoly(C, a.num, vals) * pow(_modpoly(C, a.den, vals), -1, _PRIME) % _PRIME
        vals[i] = v
    return v


def _modpoly(C, p, vals):
    r = 0
    for m, c in p.items():
        t = _mod(c)
        for i, pw in m:
            t = t * pow(_modval(C, i, vals), pw, _PRIME) % _PRIME
        r += t
    return r % _PRIME


def _pmul(p, q, limit):
    if len(p) * len(q) > limit:
        raise Unsupported("polynomial too large")
    r = {}
    for m, c in p.items():
        for n, e in q.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * e
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


def identically_zero(d, limit=2000000):
    """True when clearing denominators turns the polynomial d into 0, whatever the values of its atoms"""
    C = ctx()
    if not d or not any(C.atoms[i].den is not None for m in d for i, _ in m):
        return not d
    vals = C.cache.setdefault('modvals', {})
    try:
        if _modpoly(C, d, vals) != 0:
            return False
    except (ValueError, RecursionError):
        return False
    try:
        while d:
            low = {}
            for m in d:
                for i, pw in m:
                    if pw < low.get(i, 0):
                        low[i] = pw
            if low:
                d = {m_mul(m, tuple(sorted((i, -pw) for i, pw in low.items()))): c for m, c in d.items()}
            q = max((i for m in d for i, _ in m if C.atoms[i].den is not None), default=None)
            if q is None:
                return False
            den, key = C.atoms[q].den, p_key(C.atoms[q].den)
            group = {i for m in d for i, _ in m if C.atoms[i].den is not None and p_key(C.atoms[i].den) == key}
            terms = {}                  # product of group atoms -> polynomial in the others
            for m, c in d.items():
                g = tuple((i, pw) for i, pw in m if i in group)
                terms.setdefault(g, {})[tuple((i, pw) for i, pw in m if i not in group)] = c
            top = max(sum(pw for _, pw in g) for g in terms)
            out = {}
            for g, p in terms.items():
                for i, pw in g:
                    for _ in range(pw):
                        p = _pmul(p, C.atoms[i].num, limit)
                for _ in range(top - sum(pw for _, pw in g)):
                    p = _pmul(p, den, limit)
                out = p_add(out, p)
                if len(out) > 60000:
                    return False
            d = out
    except Unsupported:
        return False
    return True


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class Bool:
    __slots__ = ('c', 'e', 'ats')
    __array_priority__ = 1000

    def __init__(self, c=None, e=None, ats=frozenset()):
        self.c, self.e, self.ats = c, e, ats

    def z(self):
        return z3.BoolVal(self.c) if self.c is not None else self.e

    def neg(self):
        if self.c is not None:
            return TRUE if not self.c else FALSE
        return Bool(None, z3.Not(self.e), self.ats)

    def __bool__(self):
        return ctx().branch(self)

    def __and__(self, o):
        o = as_bool(o)
        if self.c is False or o.c is False:
            return FALSE
        if self.c is True:
            return o
        if o.c is True:
            return self
        return Bool(None, z3.And(self.e, o.e), self.ats | o.ats)

    def __or__(self, o):
        o = as_bool(o)
        if self.c is True or o.c is True:
            return TRUE
        if self.c is False:
            return o
        if o.c is False:
            return self
        return Bool(None, z3.Or(self.e, o.e), self.ats | o.ats)

    def __xor__(self, o):
        o = as_bool(o)
        return (self & o.neg()) | (self.neg() & o)

    def __eq__(self, o):
        if isinstance(o, (Bool, bool)) or type(o).__name__ in ('bool_',):
            return (self ^ as_bool(o)).neg()
        return self.as_int() == o

    def __ne__(self, o):
        return as_bool(self == o).neg()

    def __invert__(self):
        return self.neg()

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    __hash__ = None

    def as_int(self):
        if self.c is not None:
            return lift(int(self.c))
        return ite(self, lift(1), lift(0))

    # arithmetic on booleans promotes to int
    def __add__(self, o):
        return self.as_int() + (o.as_int() if isinstance(o, Bool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * (o.as_int() if isinstance(o, Bool) else o)

    __rmul__ = __mul__

    def __repr__(self):
        return "Bool(%s)" % (self.c if self.c is not None else str(self.e)[:80])

    def all(self, *a, **k):
        return self

    any = all

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(bool)

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)


TRUE, FALSE = Bool(True), Bool(False)


def as_bool(b):
    if isinstance(b, Bool):
        return b
    if isinstance(b, Sym):
        return cmp_(b, lift(0), '==').neg()
    if hasattr(b, 'item') and not isinstance(b, (bool, int)):
        b = b.item()
        if isinstance(b, (Bool, Sym)):
            return as_bool(b)
    return TRUE if b else FALSE


def all_(bs):
    r = TRUE
    for b in bs:
        r = r & as_bool(b)
    return r


def any_(bs):
    r = FALSE
    for b in bs:
        r = r | as_bool(b)
    return r


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
class Sym:
    """A number: constant (c is not None) or polynomial p; kind 'r' or 'i'; dt is the virtual numpy dtype."""
    __slots__ = ('c', 'p', 'k', 'dt')
    __array_priority__ = 1000

    def __init__(self, c=None, p=None, k='r', dt=None):
        self.c, self.p, self.k, self.dt = c, p, k, dt

    # -- representation
    def poly(self):
        if self.p is None:
            if is_special(self.c):
                raise Unsupported("arithmetic on inf/nan")
            self.p = {(): self.c} if self.c != 0 else {}
        return self.p

    def z(self, real=None):
        real = (self.k == 'r') if real is None else real
        if self.c is not None:
            return zconst(self.c, real)
        return ctx().zpoly(self.p, real)

    @property
    def ats(self):
        return frozenset() if self.c is not None else ctx().p_atoms(self.p)

    def const(self):
        return self.c

    # -- arithmetic
    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __lt__(self, o):
        return cmp_(self, o, '<')

    def __le__(self, o):
        return cmp_(self, o, '<=')

    def __gt__(self, o):
        return cmp_(self, o, '>')

    def __ge__(self, o):
        return cmp_(self, o, '>=')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, type)):
            return False
        return cmp_(self, o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, type)):
            return True
        return cmp_(self, o, '!=')

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        if self.k == 'i':
            return hash(ctx().concretize(self))
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return ctx().branch(as_bool(self))

    def __index__(self):
        if self.k != 'i':
            if self.c is not None and not is_special(self.c):
                raise TypeError("'float' object cannot be interpreted as an integer")
            raise TypeError("symbolic real used as an index")
        return ctx().concretize(self) if self.c is None else int(self.c)

    def __int__(self):
        s = trunc(self)
        if s.c is None:
            f = sys._getframe(1)
            op, arg = f.f_code.co_code[f.f_lasti], f.f_code.co_code[f.f_lasti + 1]
            import dis
            if dis.opname[op] == 'BINARY_OP' and arg in (6, 19):   # "%d" % value: only a message
                t = token(s)
                return 0 if t is None else int(t)
        return int(s.c) if s.c is not None else ctx().concretize(s)

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        f = sys._getframe(1)
        try:
            op, arg = f.f_code.co_code[f.f_lasti], f.f_code.co_code[f.f_lasti + 1]
            import dis
            if dis.opname[op] in ('BINARY_OP',) and arg in (6, 19):   # "..." % value
                t = token(self)
                return math.nan if t is None else float(t)
        except Unsupported:
            raise
        except Exception:
            pass
        raise Unsupported("float() of a symbolic value in %s:%d" % (f.f_code.co_filename, f.f_lineno))

    def __format__(self, spec):
        t = None if self.c is not None else token(self)
        if t is None:
            return "<sym>"
        return format(t, spec)

    def __str__(self):
        t = None if self.c is not None else token(self)
        return repr(self) if t is None else str(t)

    def __repr__(self):
        if self.c is not None:
            return "Sym(%s)" % (self.c,)
        return "Sym(%s)" % str(self.z())[:120]


    def __round__(self, n=None):
        if n:
            raise Unsupported("round(n)")
        return rint(self, as_int=True)

    def __ceil__(self):
        return neg(floor_(neg(self)))

    def __floor__(self):
        return floor_(self)

    def __trunc__(self):
        return trunc(self)

    # -- the numpy scalar interface
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(self.dt) if self.dt is not None else np.dtype(float if self.k == 'r' else int)

    shape = ()
    ndim = 0
    size = 1

    def _self(self, *a, **k):
        return self

    sum = mean = max = min = copy = item = squeeze = _self

    def astype(self, dt, **k):
        from . import arr
        return arr.cast(self, dt)

    def any(self):
        return as_bool(self)

    all = any

    def dot(self, o):
        return self * o

    def __getitem__(self, ix):
        from . import arr
        import numpy as np
        return arr.SArr.wrap(arr.to_obj(self), self.dtype)[ix]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.dispatch_function(func, args, kwargs)

    def is_integer(self):
        if self.c is not None:
            return self.k == 'i' or float(self.c).is_integer()
        return self.k == 'i'


def lift(x, k=None, dt=None):
    if isinstance(x, Sym):
        return x
    if isinstance(x, Bool):
        return x.as_int()
    t = type(x)
    if t is int or t is bool:
        return Sym(int(x), None, k or 'i', dt)
    if t is float:
        return Sym(_num(x), None, 'r', dt)
    if t is Fraction:
        return Sym(_num(x), None, 'r', dt)
    import numpy as np
    if isinstance(x, np.generic):
        if isinstance(x, np.bool_):
            return Sym(int(x), None, 'i')
        if isinstance(x, np.integer):
            return Sym(int(x), None, 'i', x.dtype)
        if isinstance(x, np.floating):
            return Sym(_num(float(x)), None, 'r', x.dtype)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    from . import arr
    if isinstance(x, arr.SArr) and x.ndim == 0:
        return lift(x.a.item())
    raise TypeError("unsupported operand type(s): %s" % type(x).__name__)


def _arr_operand(a, b):
    """numpy arrays and SArr on the other side take over"""
    import numpy as np
    from . import arr
    for v in (a, b):
        if isinstance(v, arr.SArr) and v.ndim > 0:
            return True
        if isinstance(v, np.ndarray) and v.ndim > 0:
            return True
        if isinstance(v, list):
            return True
    return False


def _mk(p, k, dt=None):
    c = p_const(p)
    if c is not None:
        return Sym(c, None, k, dt)
    return Sym(None, p, k, dt)


def _dt2(a, b):
    if a.dt is None and b.dt is None:
        return None
    if a.dt is None or b.dt is None:
        d = a.dt if a.dt is not None else b.dt
        o = b if a.dt is not None else a
        import numpy as np
        if np.dtype(d).kind in 'iub' and o.k == 'r':
            return np.dtype(float)
        return d
    if a.dt == b.dt:
        return a.dt
    import numpy as np
    return np.promote_types(a.dt, b.dt)


def _special2(op, a, b):
    """both constant, at least one is inf/nan"""
    try:
        return op(float(a), float(b))
    except ZeroDivisionError:
        return math.nan
    except OverflowError:
        return math.inf


def _wrapop(name):
    def deco(f):
        def g(a, b):
            if _arr_operand(a, b):
                import numpy as np
                from . import arr
                return arr.dispatch_ufunc(getattr(np, name), '__call__', (a, b), {})
            return f(lift(a), lift(b))
        g.__name__ = f.__name__
        return g
    return deco


def _k2(a, b):
    return 'i' if a.k == 'i' and b.k == 'i' else 'r'


@_wrapop('add')
def add(a, b):
    k = _k2(a, b)
    dt = _dt2(a, b)
    if a.c is not None and b.c is not None:
        if is_special(a.c) or is_special(b.c):
            return lift(_special2(lambda x, y: x + y, a.c, b.c))
        return Sym(_num(a.c + b.c), None, k, dt)
    if (a.c is not None and is_special(a.c)) or (b.c is not None and is_special(b.c)):
        s = a if a.c is not None else b
        return Sym(s.c, None, 'r', dt)          # inf/nan + finite
    return _mk(p_add(a.poly(), b.poly()), k, dt)


@_wrapop('subtract')
def sub(a, b):
    k = _k2(a, b)
    dt = _dt2(a, b)
    if a.c is not None and b.c is not None:
        if is_special(a.c) or is_special(b.c):
            return lift(_special2(lambda x, y: x - y, a.c, b.c))
        return Sym(_num(a.c - b.c), None, k, dt)
    if a.c is not None and is_special(a.c):
        return Sym(a.c, None, 'r', dt)
    if b.c is not None and is_special(b.c):
        return Sym(-b.c, None, 'r', dt)
    return _mk(p_add(a.poly(), b.poly(), -1), k, dt)


@_wrapop('multiply')
def mul(a, b):
    k = _k2(a, b)
    dt = _dt2(a, b)
    if a.c is not None and b.c is not None:
        if is_special(a.c) or is_special(b.c):
            return lift(_special2(lambda x, y: x * y, a.c, b.c))
        return Sym(_num(a.c * b.c), None, k, dt)
    for x, y in ((a, b), (b, a)):
        if x.c is not None:
            if is_special(x.c):
                if x.c != x.c:
                    return Sym(x.c, None, 'r', dt)
                s = ctx().p_sign(y.poly())
                if abs(s) == POS:
                    return Sym(x.c * (1 if s > 0 else -1), None, 'r', dt)
                raise Unsupported("inf times a symbolic value")
            return _mk(p_scale(y.poly(), x.c), k, dt)
    for x, y in ((a.p, b.p), (b.p, a.p)):
        if len(x) == 1 and len(y) > 1:
            r = _cancel(x, y)
            if r is not None:
                return _mk(r, k, dt)
    return _mk(p_mul(a.poly(), b.poly()), k, dt)


def _cancel(x, p):
    """x*p when the single term x has a quotient whose denominator divides p (a multiple of it by a term)"""
    C = ctx()
    (m, c), = x.items()
    for i, pw in m:
        q = C.atoms[i]
        if pw < 1 or q.den is None or len(q.den) > len(p):
            continue
        n0, d0, fac = _reduce_quotient(p, q.den)
        if len(n0) != len(d0):
            continue
        t = next(iter(d0))
        if t not in n0:
            continue
        f = Fraction(n0[t]) / Fraction(d0[t])
        if p_add(n0, p_scale(d0, f), -1) == {}:
            rest = tuple((j, w - (1 if j == i else 0)) for j, w in m if j != i or w > 1)
            return p_mul({m_mul(rest, fac): c * f}, q.num)
    return None


def neg(a):
    a = lift(a)
    if a.c is not None:
        return Sym(-a.c, None, a.k, a.dt)
    return _mk(p_scale(a.p, -1), a.k, a.dt)


def _reduce_quotient(n, d):
    """cancel common monomial content made of nonzero atoms; returns (n, d)"""
    C = ctx()
    # monomial content over nonzero atoms (powers may be negative)
    def content(p):
        it = iter(p)
        m0 = dict(next(it))
        ids = {i for i in m0 if C.atoms[i].nonzero}
        # also atoms appearing elsewhere with negative powers
        for m in p:
            for i, pw in m:
                if C.atoms[i].nonzero:
                    ids.add(i)
        res = {}
        for i in ids:
            res[i] = min(dict(m).get(i, 0) for m in p)
        return {i: v for i, v in res.items() if v}

    cn, cd = content(n), content(d)
    sh = {}
    for i in set(cn) | set(cd):
        # remove all content of d, and move the content of n out as a factor
        sh[i] = (cn.get(i, 0), cd.get(i, 0))

    def strip(p, c):
        if not c:
            return p
        inv = tuple(sorted((i, -v) for i, v in c.items()))
        return {m_mul(m, inv): v for m, v in p.items()}

    factor = {}
    for i, (a, b) in sh.items():
        if a - b:
            factor[i] = a - b
    return strip(n, cn), strip(d, cd), tuple(sorted(factor.items()))


def _no_underflow(x):
    """obliges a sum of exponentials that is divided by, or whose log is taken, to have a term that is not rounded to zero"""
    C = ctx()
    if C.cache.get('exp_limit') is None or x.c is not None:
        return
    import numpy as np
    lim = lift(-104 if x.dt is not None and np.dtype(x.dt) == np.float32 else -746)
    big = []
    for m in x.p:
        s, n = lift(0), 0
        for i, p in m:
            t = C.atoms[i]
            if t.fn == 'exp':
                s, n = add(s, mul(lift(p), _mk(t.arg[0], 'r', None))), n + 1
        if not n or s.c is not None and s.c >= lim.c:
            return
        big.append(cmp_(s, lim, '>='))
    b = any_(big)
    C.oblige("a sum of exponentials that is divided by (or whose log is taken) is not rounded to zero", b)


@_wrapop('true_divide')
def div(a, b):
    _no_underflow(b)
    dt = _dt2(a, b)
    import numpy as np
    if dt is not None and np.dtype(dt).kind in 'iub':
        dt = np.dtype(float)
    C = ctx()
    if b.c is not None:
        if is_special(b.c):
            if b.c != b.c or (a.c is not None and is_special(a.c)):
                return Sym(math.nan, None, 'r', dt)
            return Sym(0, None, 'r', dt)
        if b.c == 0:
            C.events.append('div0')
            if a.c is not None:
                if is_special(a.c):
                    return Sym(a.c, None, 'r', dt)
                return Sym(math.nan if a.c == 0 else (math.inf if a.c > 0 else -math.inf), None, 'r', dt)
            s = C.p_sign(a.poly())
            if s == POS:
                return Sym(math.inf, None, 'r', dt)
            if s == -POS:
                return Sym(-math.inf, None, 'r', dt)
            return Sym(math.nan, None, 'r', dt)
        if a.c is not None:
            if is_special(a.c):
                return Sym(a.c * (1 if b.c > 0 else -1), None, 'r', dt)
            return Sym(_num(Fraction(a.c) / Fraction(b.c)), None, 'r', dt)
        return _mk(p_scale(a.p, Fraction(1) / Fraction(b.c)), 'r', dt)
    if a.c is not None and is_special(a.c):
        raise Unsupported("inf / symbolic")
    return _mk(quotient(a.poly(), b.poly()), 'r', dt)


def quotient(n, d):
    """polynomial (usually one atom) equal to n/d; d is a non-constant polynomial"""
    C = ctx()
    sd = C.p_sign(d)
    if abs(sd) != POS:
        _require_nonzero(d)
    if not n:
        return {}
    n0, d0, fac = _reduce_quotient(n, d)
    dc = p_const(d0)
    if dc is not None:
        r = p_scale(n0, Fraction(1) / Fraction(dc))
        return {m_mul(m, fac): c for m, c in r.items()} if fac else r
    lead = max(d0)
    ld = d0[lead]
    d1 = p_scale(d0, Fraction(1) / Fraction(ld))
    n1 = p_scale(n0, Fraction(1) / Fraction(ld))
    # n1 == c * d1 ?
    if len(n1) == len(d1) and lead in n1:
        c = n1[lead]
        if p_add(n1, p_scale(d1, c), -1) == {}:
            r = {(): _num(c) if isinstance(c, Fraction) else c}
            return {m_mul(m, fac): v for m, v in r.items()} if fac else r
    ln = n1[max(n1)]
    n2 = p_scale(n1, Fraction(1) / Fraction(ln)) if len(n1) == 1 else n1
    scale = ln if len(n1) == 1 else 1
    key = ('q', p_key(n2), p_key(d1))
    q = C.cache.get(key)
    if q is None:
        sn, sdd = C.p_sign(n2), C.p_sign(d1)
        if abs(sdd) == NONNEG:
            sdd = POS if sdd > 0 else -POS      # the denominator is not zero on this path
        sign = 0
        if sn and abs(sdd) == POS:
            s = (1 if sn > 0 else -1) * (1 if sdd > 0 else -1)
            sign = s * (POS if abs(sn) == POS else NONNEG)
        q = C.new_atom('q', 'r', max(sign, 0))
        q.num, q.den = n2, d1
        ats = C.p_atoms(n2) | C.p_atoms(d1) | {q.id}
        q.nl.append((q.z * C.zpoly(d1, True) == C.zpoly(n2, True), ats))
        if sign < 0:
            q.defs.append((q.z < 0 if sign == -POS else q.z <= 0, ats))
        if abs(sn) == POS:
            q.nonzero = True
        # each numerator is a non-negative share of the denominator
        if sn > 0 and sdd > 0:
            diff = p_add(d1, n2, -1)
            if C.p_sign(diff) > 0 or not diff:
                q.defs.append((q.z <= 1, frozenset([q.id])))
        C.cache[key] = q
        C.groups.setdefault(p_key(d1), (d1, []))[1].append(q)
        if p_const(n2) is not None and len(d1) <= 6:
            q.defs.append((C.zpoly(p_mul(d1, {((q.id, 1),): 1}), True) == C.zpoly(n2, True), ats))
    m = m_mul(((q.id, 1),), fac)
    r = {m: scale}
    if fac and sd == POS and ('share', p_key(r)) not in C.cache:
        C.cache[('share', p_key(r))] = True
        diff = p_add(d, n, -1)
        if C.p_sign(n) > 0 and (not diff or C.p_sign(diff) > 0):
            q.defs.append((C.zpoly(r, True) <= 1, C.p_atoms(r)))
    return r


def _require_nonzero(d):
    C = ctx()
    key = ('nz', p_key(d))
    if C.cache.get(key):
        return
    b = cmp_(Sym(None, d, 'r'), lift(0), '==').neg()
    if b.c is True:
        C.cache[key] = True
        return
    if C.speculative:
        raise SpecFail()
    C.cache[key] = True
    if C.div0 == 'oblige':
        C.oblige("division by zero", b)
    else:
        C.probe("division by zero", b)
        C.assume_notes.add("no division by zero (NaN-free executions)")
    C.add_pc(b)


def _intdiv_atoms(a, b):
    """python/floor quotient and remainder of integers, b > 0 const or symbolic"""
    C = ctx()
    key = ('fd', p_key(a.poly()), p_key(b.poly()))
    r = C.cache.get(key)
    if r is None:
        q = C.new_atom('fdq', 'i')
        m = C.new_atom('fdr', 'i')
        za, zb = C.zpoly(a.poly(), False), C.zpoly(b.poly(), False)
        ats = frozenset(C.p_atoms(a.poly()) | C.p_atoms(b.poly()) | {q.id, m.id})
        if b.c is not None:
            d = za == q.z * zb + m.z
            rng = z3.And(m.z >= 0, m.z < zb) if b.c > 0 else z3.And(m.z <= 0, m.z > zb)
        else:
            if C.p_sign(b.poly()) != POS:
                C.oblige("symbolic divisor positive", cmp_(b, lift(0), '>'))
                C.add_pc(cmp_(b, lift(0), '>'))
            d = za == q.z * zb + m.z
            rng = z3.And(m.z >= 0, m.z < zb)
        for at in (q, m):
            at.defs.append((d, ats))
            at.defs.append((rng, ats))
        if C.p_sign(a.poly()) > 0 and (b.c is None or b.c > 0):
            q.sign = NONNEG
            q.defs.append((q.z >= 0, frozenset([q.id])))
        if b.c is None or b.c > 0:
            m.sign = NONNEG
            if b.c is not None:
                m.lo, m.hi = 0, int(b.c) - 1
        r = (q, m)
        C.cache[key] = r
    return r


@_wrapop('floor_divide')
def floordiv(a, b):
    if a.k == 'i' and b.k == 'i':
        if b.c is not None and b.c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.c is not None and b.c is not None:
            return Sym(a.c // b.c, None, 'i', _dt2(a, b))
        if b.c == 1:
            return Sym(None, a.poly(), 'i', _dt2(a, b))
        q, _ = _intdiv_atoms(a, b)
        return Sym(None, {((q.id, 1),): 1}, 'i', _dt2(a, b))
    return floor_(div(a, b), as_int=False)


@_wrapop('remainder')
def mod(a, b):
    if a.k == 'i' and b.k == 'i':
        if b.c is not None and b.c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.c is not None and b.c is not None:
            return Sym(a.c % b.c, None, 'i', _dt2(a, b))
        if b.c == 1:
            return Sym(0, None, 'i', _dt2(a, b))
        _, m = _intdiv_atoms(a, b)
        return Sym(None, {((m.id, 1),): 1}, 'i', _dt2(a, b))
    return sub(a, mul(floor_(div(a, b), as_int=False), b))


@_wrapop('power')
def power(a, b):
    if b.c is not None and not is_special(b.c):
        e = b.c
        if isinstance(e, int) and 0 <= e <= 8:
            r = lift(1)
            for _ in range(e):
                r = mul(r, a)
            if b.k == 'r':
                r = Sym(r.c, r.p, 'r', r.dt)
            return r
        if isinstance(e, int) and -8 <= e < 0:
            return div(lift(1.0), power(a, lift(-e)))
        if e == Fraction(1, 2):
            return sqrt_(a)
        if e == Fraction(-1, 2):
            return div(lift(1.0), sqrt_(a))
        if a.c is not None:
            try:
                return lift(float(a.c) ** float(e))
            except OverflowError:
                return lift(math.inf)
    if a.c is not None and a.c == 1:
        return Sym(1, None, 'r', a.dt)
    return app('pow', (a, b), sign=POS if ctx().p_sign(a.poly()) == POS else 0)


def abs_(a):
    a = lift(a)
    if a.c is not None:
        return Sym(abs(a.c), None, a.k, a.dt)
    s = ctx().p_sign(a.p)
    if s > 0:
        return a
    if s < 0:
        return neg(a)
    r = ite(cmp_(a, lift(0), '>='), a, neg(a))
    for m in (r.p or {}):
        for i, _ in m:
            at = ctx().atoms[i]
            if at.sign == 0 and len(r.p) == 1:
                at.sign = NONNEG
                at.defs.append((at.z >= 0, frozenset([at.id])))
    return r


def floor_(a, as_int=True):
    a = lift(a)
    k = 'i' if as_int else 'r'
    if a.c is not None:
        if is_special(a.c):
            return a
        return Sym(math.floor(a.c), None, k, None if as_int else a.dt)
    if a.k == 'i':
        return Sym(None, a.p, k, a.dt)
    C = ctx()
    key = ('floor', p_key(a.p))
    f = C.cache.get(key)
    if f is None:
        s = C.p_sign(a.p)
        f = C.new_atom('floor', 'i', NONNEG if s > 0 else 0)
        za = C.zpoly(a.p, True)
        ats = C.p_atoms(a.p) | {f.id}
        f.defs.append((z3.ToReal(f.z) <= za, ats))
        f.defs.append((za < z3.ToReal(f.z) + 1, ats))
        C.cache[key] = f
    return Sym(None, {((f.id, 1),): 1}, k, None if as_int else a.dt)


def trunc(a):
    a = lift(a)
    if a.c is not None:
        if is_special(a.c):
            raise ValueError("cannot convert float NaN/inf to integer")
        return Sym(int(a.c), None, 'i')
    if a.k == 'i':
        return a
    s = ctx().p_sign(a.p)
    if s > 0:
        return floor_(a)
    if s < 0:
        return neg(floor_(neg(a)))
    return ite(cmp_(a, lift(0), '>='), floor_(a), neg(floor_(neg(a))))


def rint(a, as_int=False):
    """round half to even"""
    a = lift(a)
    k = 'i' if as_int else 'r'
    if a.c is not None:
        return a if is_special(a.c) else Sym(round(Fraction(a.c)), None, k, a.dt)
    if a.k == 'i':
        return a
    C = ctx()
    key = ('rint', p_key(a.p))
    f = C.cache.get(key)
    if f is None:
        s = C.p_sign(a.p)
        f = C.new_atom('rint', 'i', NONNEG if s > 0 else 0)
        za = C.zpoly(a.p, True)
        ats = C.p_atoms(a.p) | {f.id}
        zf = z3.ToReal(f.z)
        half = zconst(Fraction(1, 2))
        f.defs.append((zf - half <= za, ats))
        f.defs.append((za <= zf + half, ats))
        f.defs.append((z3.Implies(z3.Or(za == zf + half, za == zf - half), f.z % 2 == 0), ats))
        C.cache[key] = f
    return Sym(None, {((f.id, 1),): 1}, k, a.dt)


_OPS = {
    '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
    '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y,
}
_UF = {'<': 'less', '<=': 'less_equal', '>': 'greater', '>=': 'greater_equal', '==': 'equal', '!=': 'not_equal'}


def cmp_(a, b, op):
    if _arr_operand(a, b):
        import numpy as np
        from . import arr
        return arr.dispatch_ufunc(getattr(np, _UF[op]), '__call__', (a, b), {})
    try:
        a, b = lift(a), lift(b)
    except TypeError:
        if op == '==':
            return FALSE
        if op == '!=':
            return TRUE
        raise
    if a.c is not None and b.c is not None:
        return TRUE if _OPS[op](a.c, b.c) else FALSE
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op))):
        if y.c is not None and is_special(y.c):      # finite x  op  inf/nan
            if y.c != y.c:
                return TRUE if op == '!=' else FALSE
            return TRUE if _OPS[o](0.0, y.c) else FALSE
    C = ctx()
    d = p_add(a.poly(), b.poly(), -1)
    c = p_const(d)
    if c is not None:
        return TRUE if _OPS[op](c, 0) else FALSE
    s = C.p_sign(d)
    if s:
        if op in ('>=', '<') and s > 0:
            return TRUE if op == '>=' else FALSE
        if op in ('<=', '>') and s < 0:
            return TRUE if op == '<=' else FALSE
        if s == POS and op in ('>', '<=', '==', '!='):
            return TRUE if op in ('>', '!=') else FALSE
        if s == -POS and op in ('<', '>=', '==', '!='):
            return TRUE if op in ('<', '!=') else FALSE
    # normalise the difference so that equal comparisons share one z3 term
    lead = d[max(d)]
    real = a.k == 'r' or b.k == 'r'
    if not real:
        g = 0
        for v in d.values():
            g = math.gcd(g, int(v))
        d = {m: v // g for m, v in d.items()}
        if lead < 0:
            d = p_scale(d, -1)
    else:
        d = p_scale(d, Fraction(1) / abs(Fraction(lead)))
        if lead < 0:
            d = p_scale(d, -1)
    if lead < 0:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    pos = {m: v for m, v in d.items() if v > 0}
    ng = {m: -v for m, v in d.items() if v < 0}
    key = ('cmp', p_key(d), op, real)
    r = C.cache.get(key)
    if r is None:
        r = _by_bounds(C, d, op)
        if r is None:
            e = _OPS[op](C.zpoly(pos, real), C.zpoly(ng, real))
            r = Bool(None, e, C.p_atoms(d))
        C.cache[key] = r
    return r


def _lin_bounds(C, d):
    lo = hi = 0
    for m, c in d.items():
        if not m:
            lo, hi = lo + c, hi + c
            continue
        if len(m) > 1 or m[0][1] != 1:
            return None, None
        a = C.atoms[m[0][0]]
        if a.lo is None or a.hi is None:
            return None, None
        l, h = (c * a.lo, c * a.hi) if c > 0 else (c * a.hi, c * a.lo)
        lo, hi = lo + l, hi + h
    return lo, hi


def _extreme(a, b, pick, op):
    """max or min of two numbers; a constant where the declared bounds of the inputs leave one value only"""
    r = ite(cmp_(a, b, op), a, b)
    if r.c is None and not any(x.c is not None and is_special(x.c) for x in (a, b)):
        C = ctx()
        (la, ha), (lb, hb) = _lin_bounds(C, a.poly()), _lin_bounds(C, b.poly())
        if la is not None and lb is not None:
            lo, hi = pick(la, lb), pick(ha, hb)
            if lo == hi:
                return Sym(lo, None, r.k, r.dt)
            p = r.poly()
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    v = C.atoms[m[0][0]]
                    if v.name.startswith('ite!') and (v.lo is None or v.lo < lo or v.hi > hi):
                        v.lo, v.hi = lo, hi
    return r


def _by_bounds(C, d, op):
    """decide d op 0 from the declared bounds of the inputs in it, where d is linear"""
    lo, hi = _lin_bounds(C, d)
    if lo is None:
        return None
    if lo > 0:
        return TRUE if op in ('>', '>=', '!=') else FALSE
    if hi < 0:
        return TRUE if op in ('<', '<=', '!=') else FALSE
    if lo >= 0 and op in ('>=', '<'):
        return TRUE if op == '>=' else FALSE
    if hi <= 0 and op in ('<=', '>'):
        return TRUE if op == '<=' else FALSE
    return None


def ite(c, a, b):
    """merged conditional; a, b numbers"""
    c = as_bool(c)
    if c.c is not None:
        return a if c.c else b
    if isinstance(a, Bool) or isinstance(b, Bool):
        a, b = as_bool(a), as_bool(b)
        if a.c is not None and a.c == b.c:
            return a
        return (c & a) | (c.neg() & b)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if (a.c is not None and is_special(a.c)) or (b.c is not None and is_special(b.c)):
        if a.c is not None and b.c is not None and (a.c == b.c or (a.c != a.c and b.c != b.c)):
            return a
        return a if ctx().branch(c) else b
    k = _k2(a, b)
    if p_key(a.poly()) == p_key(b.poly()):
        return a if a.k == k else b
    C = ctx()
    key = ('ite', c.e.get_id(), p_key(a.poly()), p_key(b.poly()), k)
    hit = C.cache.get(key)
    if hit is None:
        sa, sb = C.p_sign(a.poly()), C.p_sign(b.poly())
        sign = min(sa, sb) if sa > 0 and sb > 0 else 0
        v = C.new_atom('ite', k, sign)
        real = k == 'r'
        ats = c.ats | C.p_atoms(a.poly()) | C.p_atoms(b.poly()) | {v.id}
        v.defs.append((z3.If(c.e, v.z == C.zpoly(a.poly(), real), v.z == C.zpoly(b.poly(), real)), ats))
        if k == 'i':
            from . import arr
            (la, ha), (lb, hb) = arr.bounds_of(a), arr.bounds_of(b)
            if None not in (la, ha, lb, hb):
                v.lo, v.hi = min(la, lb), max(ha, hb)
        v.ev = ('ite', c, a.poly(), b.poly())
        C.cache[key] = (v, c)       # keep c alive: its z3 id is part of the key
    else:
        v = hit[0]
    return Sym(None, {((v.id, 1),): 1}, k, _dt2(a, b))


def token(x):
    """a number standing for a symbolic value in text, while the harness asks for that; else None"""
    t = ctx().cache.get('tokens')
    if t is None:
        return None
    t.append(x)
    n = 900000000 + len(t) - 1
    return n if x.k == 'i' else float(n)


def untoken(text):
    """the symbolic value this text stands for, or None"""
    t = ctx().cache.get('tokens') if isinstance(text, str) and '9' in text else None
    if t is None:
        return None
    try:
        i = float(text) - 900000000
    except ValueError:
        return None
    return t[int(i)] if i >= 0 and i == int(i) and i < len(t) else None


def maximum(a, b):
    a, b = lift(a), lift(b)
    for x in (a, b):
        if x.c is not None and is_special(x.c) and x.c != x.c:
            return x
    return _extreme(a, b, max, '>=')


def minimum(a, b):
    a, b = lift(a), lift(b)
    for x in (a, b):
        if x.c is not None and is_special(x.c) and x.c != x.c:
            return x
    return _extreme(a, b, min, '<=')


# --------------------------------------------------------------------------
# uninterpreted / axiomatised functions
# --------------------------------------------------------------------------
def _atom_sym(a, dt=None):
    return Sym(None, {((a.id, 1),): 1}, a.kind, dt)


def app(fn, args, sign=0, dt=None):
    """application of an uninterpreted real function"""
    C = ctx()
    args = [lift(x) for x in args]
    polys = tuple(x.poly() for x in args)
    key = ('app', fn, tuple(p_key(p) for p in polys))
    a = C.cache.get(key)
    if a is None:
        a = C.new_atom(fn, 'r', sign)
        a.fn, a.arg = fn, polys
        deps = frozenset([a.id]).union(*[C.p_atoms(p) for p in polys])
        a.defs.append((z3.BoolVal(True), deps))
        C.cache[key] = a
    return _atom_sym(a, dt)


def _iv(fn, c, digits=40):
    """rational enclosure of fn(c) computed with mpmath interval arithmetic"""
    import mpmath
    iv = mpmath.iv
    iv.dps = digits
    f = Fraction(c)
    x = iv.mpf(f.numerator) / iv.mpf(f.denominator)
    r = getattr(iv, fn)(x)

    def fr(m):
        m = mpmath.mpf(m)
        s, man, e, _ = m._mpf_
        v = Fraction(int(man)) * (Fraction(2) ** int(e))
        return -v if s else v
    return fr(r.a), fr(r.b)


def _const_fn(fn, c):
    """atom standing for the real number fn(c), with a rational enclosure"""
    C = ctx()
    key = ('cfn', fn, c)
    a = C.cache.get(key)
    if a is None:
        lo, hi = _iv(fn, c)
        a = C.new_atom(fn + '_c', 'r', POS if lo > 0 else 0)
        a.fn, a.arg = fn, ({(): c} if c != 0 else {},)
        a.lo, a.hi = lo, hi
        # coarse enclosure keeps z3's rationals small
        def rnd(x, up):
            d = 10 ** 18
            import math as _m
            if x == 0:
                return x
            mag = abs(x)
            s = 1
            while mag * s < 1:
                s *= 10
            n = x * d * s
            return Fraction(_m.ceil(n) if up else _m.floor(n), d * s)
        a.defs.append((z3.And(a.z >= zconst(rnd(lo, False)), a.z <= zconst(rnd(hi, True))), frozenset([a.id])))
        if hi < 0 or lo > 0:
            a.nonzero = True
        C.cache[key] = a
    return a


def exp_(x):
    x = lift(x)
    dt = _fdt(x)
    if x.c is not None:
        if is_special(x.c):
            return Sym(_num(math.exp(x.c)) if x.c < 0 else x.c, None, 'r', dt)
        if x.c == 0:
            return Sym(1, None, 'r', dt)
        return _atom_sym(_const_fn('exp', x.c), dt)
    C = ctx()
    lim = C.cache.get('exp_limit')
    if lim is not None:
        C.oblige("the argument of exp stays below its overflow limit", cmp_(x, lift(lim), '<='))
    mono = {}
    fac = ()
    rest = {}
    sums = []
    coef = 1
    for m, c in x.p.items():
        if m == ():
            fac = m_mul(fac, ((_const_fn('exp', c).id, 1),))
            continue
        # exp(log(y)) = y
        if len(m) == 1 and m[0][1] == 1 and C.atoms[m[0][0]].fn == 'log' and isinstance(c, int) and abs(c) <= 4:
            arg = C.atoms[m[0][0]].arg[0]
            if len(arg) > 1 and C.p_sign(arg) == POS:
                sums.append((arg, c))
                continue
            if len(arg) == 1:
                (am, ac), = arg.items()
                if c > 0 or all(C.atoms[i].nonzero for i, _ in am):
                    for _ in range(abs(c)):
                        fac = m_mul(fac, tuple((i, p * (1 if c > 0 else -1)) for i, p in am))
                        coef = coef * ac if c > 0 else Fraction(coef) / Fraction(ac)
                    continue
        if isinstance(c, int) and abs(c) <= 6:
            a = _exp_atom({m: 1})
            fac = m_mul(fac, ((a.id, c),))
        else:
            rest[m] = c
    if rest:
        a = _exp_atom(rest)
        fac = m_mul(fac, ((a.id, 1),))
    r = _mk({fac: _num(Fraction(coef)) if isinstance(coef, Fraction) else coef}, 'r', dt)
    for arg, c in sums:
        y = _mk(arg, 'r', dt)
        for _ in range(abs(c)):
            r = mul(r, y) if c > 0 else div(r, y)
    return r


def _exp_atom(p):
    C = ctx()
    key = ('exp', p_key(p))
    a = C.cache.get(key)
    if a is None:
        a = C.new_atom('exp', 'r', POS)
        a.fn, a.arg = 'exp', (p,)
        zp = C.zpoly(p, True)
        ats = C.p_atoms(p) | {a.id}
        a.defs.append((a.z >= 1 + zp, ats))
        a.defs.append(((zp <= 0) == (a.z <= 1), ats))
        a.defs.append(((zp == 0) == (a.z == 1), ats))
        C.cache[key] = a
    return a


def _fdt(x):
    import numpy as np
    if x.dt is None:
        return None
    d = np.dtype(x.dt)
    return d if d.kind == 'f' else np.dtype(float)


def log_(x):
    x = lift(x)
    _no_underflow(x)
    dt = _fdt(x)
    C = ctx()
    if x.c is not None:
        if is_special(x.c):
            return Sym(math.inf if x.c > 0 else math.nan, None, 'r', dt)
        if x.c == 0:
            C.events.append('log0')
            return Sym(-math.inf, None, 'r', dt)
        if x.c < 0:
            C.events.append('lognan')
            return Sym(math.nan, None, 'r', dt)
        if x.c == 1:
            return Sym(0, None, 'r', dt)
        return _atom_sym(_const_fn('log', x.c), dt)
    s = C.p_sign(x.p)
    if s != POS:
        b = cmp_(x, lift(0), '>')
        if b.c is not True:
            if C.div0 == 'oblige':
                C.oblige("log of a non-positive value", b)
            else:
                C.probe("log of a non-positive value", b)
                C.assume_notes.add("arguments of log are positive (NaN/-inf free executions)")
            C.assume(b)
    # common monomial content and coefficient: log(c * m * rest)
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c > 0 and all(C.atoms[i].sign == POS for i, _ in m):
            r = log_(lift(Fraction(c))) if c != 1 else lift(0)
            for i, pw in m:
                a = C.atoms[i]
                if a.fn == 'exp':
                    t = _mk(a.arg[0], 'r')
                elif a.num is not None and C.p_sign(a.num) == POS and C.p_sign(a.den) == POS:
                    t = sub(log_(_mk(a.num, 'r')), log_(_mk(a.den, 'r')))
                else:
                    t = _log_atom({((i, 1),): 1})
                r = add(r, mul(lift(pw), t))
            return Sym(r.c, r.p, 'r', dt)
    else:
        n0, d0, fac = _reduce_quotient(x.p, {(): 1})
        lead = n0[max(n0)]
        extra = lift(0)
        if fac and all(C.atoms[i].sign == POS for i, _ in fac):
            extra = log_(_mk({fac: 1}, 'r'))
            body = n0
        else:
            body = x.p
        r = add(_log_atom(body), extra)
        return Sym(r.c, r.p, 'r', dt)
    r = _log_atom(x.p)
    return Sym(r.c, r.p, 'r', dt)


def _log_atom(p):
    C = ctx()
    key = ('log', p_key(p))
    a = C.cache.get(key)
    if a is None:
        a = C.new_atom('log', 'r')
        a.fn, a.arg = 'log', (p,)
        zp = C.zpoly(p, True)
        ats = C.p_atoms(p) | {a.id}
        a.defs.append((a.z <= zp - 1, ats))
        a.defs.append(((zp >= 1) == (a.z >= 0), ats))
        a.defs.append(((zp == 1) == (a.z == 0), ats))
        C.cache[key] = a
    return _atom_sym(a)


def sqrt_(x):
    x = lift(x)
    dt = _fdt(x)
    if x.c is not None:
        if is_special(x.c) or x.c < 0:
            return Sym(math.nan if not (is_special(x.c) and x.c > 0) else x.c, None, 'r', dt)
        f = Fraction(x.c)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Sym(_num(Fraction(n, d)), None, 'r', dt)
        p = {(): x.c}
    else:
        p = x.p
    C = ctx()
    if C.p_sign(p) <= 0:
        b = cmp_(_mk(p, 'r'), lift(0), '>=')
        if b.c is not True:
            if C.div0 == 'oblige':
                C.oblige("sqrt of a negative value", b)
            else:
                C.probe("sqrt of a negative value", b)
            C.assume(b)
    # sqrt of a perfect-square monomial over positive atoms
    if len(p) == 1:
        (m, c), = p.items()
        f = Fraction(c)
        if f > 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator and \
                    all(pw % 2 == 0 and C.atoms[i].sign > 0 for i, pw in m):
                return _mk({tuple((i, pw // 2) for i, pw in m): _num(Fraction(n, d))}, 'r', dt)
    key = ('sqrt', p_key(p))
    a = C.cache.get(key)
    if a is None:
        a = C.new_atom('sqrt', 'r', POS if C.p_sign(p) == POS else NONNEG)
        a.fn, a.arg = 'sqrt', (p,)
        a.nl.append((a.z * a.z == C.zpoly(p, True), C.p_atoms(p) | {a.id}))
        C.cache[key] = a
    return _atom_sym(a, dt)


def derive(t, x):
    """formal derivative of t by the input x (a Sym that is a single atom)"""
    C = ctx()
    (m, _), = x.p.items()
    (target, _), = m
    memo = {}

    def atom(i):
        if i == target:
            return lift(1)
        if i in memo:
            return memo[i]
        a = C.atoms[i]
        me = _mk({((i, 1),): 1}, 'r')
        if a.den is not None:
            n, d = poly(a.num), poly(a.den)
            r = sub(n, mul(me, d))
            r = r if r.c == 0 else div(r, _mk(a.den, 'r'))
        elif a.ev is not None and a.ev[0] == 'inv':
            d = atom(a.ev[1].id)
            r = d if d.c == 0 else neg(mul(mul(me, me), d))
        elif a.ev is not None:
            r1, r2 = poly(a.ev[2]), poly(a.ev[3])
            r = ite(a.ev[1], r1, r2)
        elif a.fn:
            ds = [poly(p) for p in a.arg]
            if all(d.c == 0 for d in ds):
                r = lift(0)
            else:
                arg = _mk(a.arg[0], 'r')
                f = a.fn[:-2] if a.fn.endswith('_c') else a.fn
                if f == 'exp':
                    r = mul(me, ds[0])
                elif f == 'log':
                    r = div(ds[0], arg)
                elif f == 'sqrt':
                    r = div(ds[0], mul(lift(2), me))
                elif f == 'gammaln':
                    r = mul(digamma_(arg), ds[0])
                elif f == 'digamma':
                    r = mul(trigamma_(arg), ds[0])
                else:
                    raise Unsupported("derivative of " + f)
        elif a.num is None and not a.arg and a.name.split('!')[0] in ('floor', 'rint', 'fdq', 'fdr'):
            raise Unsupported("derivative of a rounding")
        else:
            r = lift(0)
        memo[i] = r
        return r

    def poly(p):
        acc = lift(0)
        for m, c in p.items():
            for j, (i, e) in enumerate(m):
                d = atom(i)
                if d.c == 0:
                    continue
                rest = tuple(f for f in m[:j] + m[j + 1:])
                k = ((i, e - 1),) if e != 1 else ()
                acc = add(acc, mul(_mk({m_mul(rest, k): c * e}, 'r'), d))
        return acc

    return poly(t.poly())


def unary_uf(name, sign=0):
    def f(x):
        x = lift(x)
        if x.c is not None and is_special(x.c):
            raise Unsupported("%s(inf/nan)" % name)
        return app(name, (x,), sign=sign, dt=_fdt(x))
    f.__name__ = name
    return f


digamma_ = unary_uf('digamma')
gammaln_ = unary_uf('gammaln')
trigamma_ = unary_uf('trigamma')
erf_ = unary_uf('erf')


def erfc_(x):
    return app('erfc', (x,), sign=POS, dt=_fdt(lift(x)))


def arctan_f(x):
    """increasing, odd, |arctan(x)| < pi/2 and |arctan x| <= |x|"""
    x = lift(x)
    if x.c is not None:
        if is_special(x.c):
            return lift(math.atan(x.c))
        if x.c == 0:
            return Sym(0, None, 'r', _fdt(x))
    C = ctx()
    p = x.poly()
    key = ('arctan', p_key(p))
    a = C.cache.get(key)
    if a is None:
        a = C.new_atom('arctan', 'r')
        a.fn, a.arg = 'arctan', (p,)      # strictly increasing (pairwise axiom)
        zp = C.zpoly(p, True)
        ats = C.p_atoms(p) | {a.id}
        a.defs.append(((zp > 0) == (a.z > 0), ats))
        a.defs.append(((zp == 0) == (a.z == 0), ats))
        C.cache[key] = a
    return _atom_sym(a, _fdt(x))


# --------------------------------------------------------------------------
# inputs
# --------------------------------------------------------------------------
def real_input(name, lo=None, hi=None, strict_lo=False, dt=None):
    C = ctx()
    if name in C.inputs:
        if name.startswith(('rng', 'crand')):          # draws repeated on purpose (rewind_random)
            return C.inputs[name]
        raise Unsupported("duplicate input %s" % name)
    sign = 0
    if lo is not None and (lo > 0 or (lo == 0 and strict_lo)):
        sign = POS
    elif lo is not None and lo == 0:
        sign = NONNEG
    a = C.new_atom(name, 'r', sign)
    fs = frozenset([a.id])
    if lo is not None and lo != 0:
        a.defs.append((a.z > zconst(lo) if strict_lo else a.z >= zconst(lo), fs))
    if hi is not None:
        a.defs.append((a.z <= zconst(hi), fs))
    s = Sym(None, {((a.id, 1),): 1}, 'r', dt)
    C.inputs[name] = s
    C.inmeta[name] = (lo, hi, 'r', strict_lo)
    return s


def int_input(name, lo, hi, dt=None):
    C = ctx()
    if name in C.inputs:
        if name.startswith(('rng', 'crand')):          # draws repeated on purpose (rewind_random)
            return C.inputs[name]
        raise Unsupported("duplicate input %s" % name)
    sign = POS if lo > 0 else (NONNEG if lo == 0 else 0)
    if lo == hi:
        s = Sym(lo, None, 'i', dt)
        C.inputs[name] = s
        return s
    a = C.new_atom(name, 'i', sign)
    a.lo, a.hi = lo, hi
    fs = frozenset([a.id])
    a.defs.append((a.z >= lo, fs))
    a.defs.append((a.z <= hi, fs))
    s = Sym(None, {((a.id, 1),): 1}, 'i', dt)
    C.inputs[name] = s
    C.inmeta[name] = (lo, hi, 'i', False)
    return s


def bool_input(name):
    s = int_input(name, 0, 1)
    return cmp_(s, lift(1), '==')
