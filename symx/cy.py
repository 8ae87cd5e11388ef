"""Symbolic execution of Cython modules: an interpreter over Cython's own parse tree with C semantics."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import core, arr
from .core import Sym, Bool, Unsupported, lift, as_bool, cmp_, ctx, ite
from .arr import SArr, el, NP

INT = {'int': np.int32, 'long': np.int64, 'longlong': np.int64, 'short': np.int16, 'char': np.int8,
       'uint': np.uint32, 'ulong': np.uint64, 'ushort': np.uint16, 'uchar': np.uint8,
       'uint8_t': np.uint8, 'uint16_t': np.uint16, 'uint32_t': np.uint32, 'uint64_t': np.uint64,
       'int8_t': np.int8, 'int16_t': np.int16, 'int32_t': np.int32, 'int64_t': np.int64,
       'Py_ssize_t': np.int64, 'size_t': np.uint64, 'ssize_t': np.int64,
       'np.int32_t': np.int32, 'np.int64_t': np.int64, 'np.uint8_t': np.uint8, 'np.uint16_t': np.uint16,
       'np.int_t': np.int64, 'np.intp_t': np.int64, 'np.uint32_t': np.uint32}
FLT = {'float': np.float32, 'double': np.float64, 'np.float64_t': np.float64, 'np.float32_t': np.float32,
       'np.float_t': np.float64, 'np.double_t': np.float64}
C_NUM = set(INT) | set(FLT) | {'bint'}


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


def parse(fn, name):
    from Cython.Compiler import Errors, Main, Options
    from Cython.Compiler.Scanning import FileSourceDescriptor
    Errors.init_thread()
    Errors.LEVEL = 2
    o = Options.CompilationOptions(Options.default_options, language_level=2)
    c = Main.Context.from_options(o)
    sd = FileSourceDescriptor(fn)
    scope = c.find_module(name, pos=(sd, 1, 0), need_pxd=0)
    return c.parse(sd, scope, pxd=0, full_module_name=name)


def dtype_of(t):
    return np.dtype(INT.get(t) or FLT.get(t) or (np.bool_ if t == 'bint' else object))


class Ptr:
    """a malloc'd block"""

    def __init__(self, elem, n, name):
        self.elem, self.n = elem, n
        k = dtype_of(elem).kind
        self.data = np.empty((n,), dtype=object)
        for i in range(n):
            self.data[i] = el(arr.fresh('malloc', k), k)
        self.freed = False


class RawMem:
    def __init__(self, n):
        self.n = n


def crand():
    C = ctx()
    n = C.cache.setdefault('crand_n', 0)
    C.cache['crand_n'] = n + 1
    return core.int_input('crand_%d' % n, 0, 2147483647)


def _libc(name):
    u = {'exp': core.exp_, 'log': core.log_, 'sqrt': core.sqrt_, 'fabs': core.abs_,
         'floor': lambda x: core.floor_(x, False), 'ceil': lambda x: core.neg(core.floor_(core.neg(x), False)),
         'gsl_sf_psi': core.digamma_, 'gsl_sf_psi_1': core.trigamma_, 'gsl_sf_lngamma': core.gammaln_,
         'lgamma': core.gammaln_, 'log1p': lambda x: core.log_(core.add(lift(1.0), x)),
         'expf': core.exp_, 'logf': core.log_, 'sqrtf': core.sqrt_, 'fabsf': core.abs_,
         'exp_approx': lambda x: core.app('exp_approx', (x,), sign=core.POS)}
    if name in u:
        f = u[name]
        return lambda *a: f(*[arr._fl(x) for x in a])
    if name == 'rand':
        return crand
    if name == 'srand':
        return lambda s: None
    if name == 'pow':
        return lambda a, b: core.power(arr._fl(a), arr._fl(b))
    if name == 'malloc':
        return lambda n: RawMem(int(lift(n)))
    if name == 'calloc':
        raise Unsupported("calloc")
    if name == 'free':
        def free(p):
            if isinstance(p, Ptr):
                p.freed = True
        return free
    if name == 'abs':
        return core.abs_
    return None


LIBC_CONST = {'RAND_MAX': (2147483647, 'int'), 'DBL_MAX': (1.7976931348623157e308, 'double'),
              'DBL_MIN': (2.2250738585072014e-308, 'double'), 'FLT_MAX': (3.4028234663852886e38, 'float'),
              'FLT_MIN': (1.1754943508222875e-38, 'float'), 'DBL_EPSILON': (2.220446049250313e-16, 'double'),
              'FLT_EPSILON': (1.1920928955078125e-07, 'float'), 'M_PI': (math.pi, 'double'),
              'INT_MAX': (2147483647, 'int')}
LIBC_RET_INT = {'rand': 'int', 'abs': 'int'}


class CyFunc:
    def __init__(self, mod, name, args, ret, body, node, is_c, directives):
        self.mod, self.name, self.args, self.ret, self.body = mod, name, args, ret, body
        self.is_c, self.dir = is_c, directives
        self.__name__ = name

    def __call__(self, *a, **kw):
        return self.call(a, kw)[0]

    def call(self, a, kw):
        C = ctx()
        C.stats.funcs.add("%s.%s" % (self.mod.short, self.name))
        fr = Frame(self.mod, self)
        if len(a) > len(self.args):
            raise TypeError("%s() takes %d positional arguments but %d were given" % (self.name, len(self.args), len(a)))
        for i, (n, t, d) in enumerate(self.args):
            if i < len(a):
                v = a[i]
                if n in kw:
                    raise TypeError("%s() got multiple values for argument '%s'" % (self.name, n))
            elif n in kw:
                v = kw.pop(n)
            elif d is not None:
                v = d[0]
            else:
                raise TypeError("%s() missing a required argument: '%s'" % (self.name, n))
            fr.types[n] = t
            fr.vars[n] = coerce(v, t, fr, from_py=not self.is_c)
        if kw:
            raise TypeError("%s() got an unexpected keyword argument" % self.name)
        try:
            fr.exec(self.body)
            v = (None, 'object')
        except _Return as r:
            v = r.v
        if self.ret is not None and self.ret != 'void' and self.ret != 'object':
            if v[0] is None and self.ret in C_NUM:
                v = (0, self.ret)
            return coerce(v[0], self.ret, fr), self.ret
        return (to_py(v[0], v[1]), 'object') if not self.is_c else (v[0], v[1])


def to_py(v, t):
    if isinstance(v, Sym) and v.c is not None and v.k == 'i':
        return int(v.c)
    return v


def coerce(v, t, fr=None, from_py=True):
    """C assignment conversion"""
    if t == 'object' or t is None:
        return v
    if isinstance(t, tuple):
        if t[0] in ('mv', 'buf'):
            return as_view(v, t)
        if t[0] == 'ptr':
            if isinstance(v, RawMem):
                return Ptr(t[1], v.n // dtype_of(t[1]).itemsize, '')
            return v
        raise Unsupported("type %r" % (t,))
    if t in INT:
        if isinstance(v, (SArr, np.ndarray)) and v.ndim == 0:
            v = v.item()
        if isinstance(v, (float, np.floating)) or (isinstance(v, Sym) and v.k == 'r'):
            # a C double needs an explicit cast; a Python float is refused
            raise TypeError("expected an integer, got a float")
        if isinstance(v, (SArr, np.ndarray)):
            if v.size != 1:
                raise TypeError("only size-1 arrays can be converted to Python scalars")
            v = lift(v.reshape(-1)[0])
            if v.k == 'r':
                raise TypeError("expected an integer, got a float")
        if isinstance(v, Bool):
            v = v.as_int()
        if isinstance(v, Sym) and v.c is None:
            return arr.cast_el(Sym(None, v.p, 'i'), np.dtype(object), np.dtype(INT[t]))
        if isinstance(v, Sym):
            v = v.c
        if v is None or isinstance(v, str):
            raise TypeError("an integer is required")
        v = v.__index__()
        r = arr.cast_el(int(v), np.dtype(object), np.dtype(INT[t]))
        if r != v and from_py and fr is None:
            raise OverflowError("value too large to convert to %s" % t)
        return r
    if t in FLT:
        if isinstance(v, (SArr, np.ndarray)):
            if v.size != 1:
                raise TypeError("only size-1 arrays can be converted to Python scalars")
            v = v.reshape(-1)[0]
        if isinstance(v, Bool):
            v = v.as_int()
        if v is None or isinstance(v, str):
            raise TypeError("must be real number, not %s" % type(v).__name__)
        s = lift(v)
        return Sym(s.c, s.p, 'r')
    if t == 'bint':
        b = as_bool(v) if not isinstance(v, (SArr,)) else as_bool(bool(v))
        return b.c if b.c is not None else b
    if t in ('str', 'list', 'tuple', 'dict', 'set', 'unicode', 'bytes'):
        return v
    if t == 'void':
        return None
    raise Unsupported("C type %s" % t)


def as_view(v, t):
    if v is None:
        return None
    if hasattr(v, '__symx_dense__'):
        v = v.__symx_dense__()
    if isinstance(v, list) or not isinstance(v, (SArr, np.ndarray)):
        raise TypeError("a bytes-like object is required, not '%s'" % type(v).__name__)
    want = dtype_of(t[1])
    have = v.dtype
    if isinstance(v, np.ndarray) and have.kind == 'f':
        v = SArr.of(v)
    if want != have and not (want.kind == have.kind and want.kind in 'iu' and want.itemsize == have.itemsize):
        raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (t[1], have))
    if v.ndim != t[2]:
        raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (t[2], v.ndim))
    if len(t) > 3 and t[3] is not None:
        fl = v.flags
        if t[3] == 'c' and not fl.c_contiguous or t[3] == 'f' and not fl.f_contiguous:
            raise ValueError("ndarray is not contiguous")
    return v


class Module:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.short = name.split('.')[-1]
        self.py = types.ModuleType(name)
        self.py.__file__ = fn
        self.py.__symx_cy__ = self
        self.globals = {}
        self.gtypes = {}
        self.tree = parse(fn, name)
        self.top = Frame(self, None)
        self.top.vars = self.globals
        self.top.types = self.gtypes
        self.loaded = False

    def load(self):
        """execute the module body (must run inside a symbolic context)"""
        self.top.exec(self.tree.body)
        for n, v in self.globals.items():
            if isinstance(v, CyFunc) and v.is_c and not v.cp:
                continue
            setattr(self.py, n, v)
        self.loaded = True


def short_type(b):
    """name of a simple base type node"""
    cls = type(b).__name__
    if cls == 'CSimpleBaseTypeNode':
        n = b.name
        if b.module_path:
            n = '.'.join(list(b.module_path) + [n])
        if n == 'int' and b.longness == 1:
            n = 'long'
        elif n == 'int' and b.longness == 2:
            n = 'longlong'
        elif n == 'int' and b.longness == -1:
            n = 'short'
        if b.signed == 0:
            n = 'u' + n
        if n == 'double' or n in C_NUM or n in ('void', 'object', 'str', 'list', 'tuple', 'dict', 'set', 'bint', 'bytes', 'unicode'):
            return n
        if n is None:
            return 'object'
        if n == 'slong':
            return 'long'
        return ('name', n)
    if cls == 'MemoryViewSliceTypeNode':
        contig = None
        for i, ax in enumerate(b.axes):
            st = ax.step
            if type(st).__name__ == 'IntNode':
                contig = 'c' if i == len(b.axes) - 1 else 'f'
        return ('mv', short_type(b.base_type_node), len(b.axes), contig)
    if cls == 'TemplatedTypeNode':
        base = short_type(b.base_type_node)
        nd = 1
        kw = b.keyword_args
        mode = None
        if kw is not None:
            for it in kw.key_value_pairs:
                if it.key.value == 'ndim':
                    nd = int(it.value.value)
        pa = b.positional_args[0]
        return ('buf', expr_type_name(pa), nd)
    if cls == 'CConstOrVolatileTypeNode' or cls == 'CConstTypeNode':
        return short_type(b.base_type)
    raise Unsupported("type node %s" % cls)


def expr_type_name(e):
    cls = type(e).__name__
    if cls == 'NameNode':
        return e.name
    if cls == 'AttributeNode':
        return expr_type_name(e.obj) + '.' + e.attribute
    return short_type(e)


def decl(base, d):
    """(name, type, default node, func declarator or None)"""
    t = base
    fd = None
    while True:
        cls = type(d).__name__
        if cls == 'CNameDeclaratorNode':
            return d.name, t, getattr(d, 'default', None), fd
        if cls == 'CPtrDeclaratorNode':
            t = ('ptr', t)
            d = d.base
        elif cls == 'CFuncDeclaratorNode':
            fd = d
            d = d.base
        elif cls == 'CArrayDeclaratorNode':
            t = ('arr', t, d.dimension)
            d = d.base
        else:
            raise Unsupported("declarator %s" % cls)


class Frame:
    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.vars, self.types = {}, {}
        self.globs = set()

    # ------------------------------------------------------------- statements
    def exec(self, n):
        if n is None:
            return
        getattr(self, 'x_' + type(n).__name__, self._unk)(n)

    def _unk(self, n):
        raise Unsupported("Cython statement %s at %s:%s" % (type(n).__name__, self.mod.short, n.pos[1]))

    def x_StatListNode(self, n):
        for s in n.stats:
            self.exec(s)

    def x_PassStatNode(self, n):
        pass

    x_CImportStatNode = x_FromCImportStatNode = x_CDefExternNode = x_CTypeDefNode = x_PassStatNode
    x_CStructOrUnionDefNode = x_PrintStatNode = x_CppClassNode = x_PassStatNode

    def x_GlobalNode(self, n):
        self.globs |= set(n.names)

    def x_ExprStatNode(self, n):
        if type(n.expr).__name__ in ('SimpleCallNode', 'GeneralCallNode') and \
                type(n.expr.function).__name__ == 'NameNode' and n.expr.function.name == 'print':
            return
        self.eval(n.expr)

    def x_FromImportStatNode(self, n):
        m = self._import(n.module.module_name.value)
        for name, target in n.items:
            self.assign(target, getattr(m, name), 'object')

    def _import(self, name):
        from . import env
        return env.proxy_import(name)

    def x_CVarDefNode(self, n):
        base = short_type(n.base_type)
        for d in n.declarators:
            name, t, default, fd = decl(base, d)
            if fd is not None:
                continue
            if isinstance(t, tuple) and t[0] == 'name':
                t = self._named(t[1])
            if isinstance(t, tuple) and t[0] == 'arr':
                raise Unsupported("C array")
            self.types[name] = t
            if default is not None:
                v, vt = self.eval(default)
                self.vars[name] = self._assign_conv(v, vt, t)

    def _named(self, n):
        if n in C_NUM:
            return n
        if n in ('np.ndarray', 'ndarray'):
            return 'object'
        return 'object'

    def _assign_conv(self, v, vt, t):
        if t in INT and vt in FLT:
            raise Unsupported("implicit double to int conversion")
        return coerce(v, t, self, from_py=(vt == 'object'))

    def x_DefNode(self, n):
        args = []
        for a in n.args:
            args.append(self._arg(a))
        f = CyFunc(self.mod, n.name, args, None, n.body, n, False, self._dirs(n.decorators))
        f.cp = True
        self.vars[n.name] = f
        self.types[n.name] = 'object'

    def x_CFuncDefNode(self, n):
        base = short_type(n.base_type)
        name, t, _, fd = decl(base, n.declarator)
        if isinstance(t, tuple) and t[0] == 'name':
            t = self._named(t[1])
        args = [self._arg(a) for a in fd.args]
        f = CyFunc(self.mod, name, args, t, n.body, n, True, self._dirs(n.decorators))
        f.cp = bool(n.overridable)
        self.vars[name] = f
        self.types[name] = ('cfunc',)

    def _arg(self, a):
        d = a.declarator
        if type(d).__name__ == 'CNameDeclaratorNode' and d.name == '':
            name, t = a.base_type.name, 'object'
        else:
            name, t, _, _ = decl(short_type(a.base_type), d)
            if isinstance(t, tuple) and t[0] == 'name':
                t = self._named(t[1])
        dflt = self.eval(a.default) if a.default is not None else None
        return name, t, dflt

    def _dirs(self, decs):
        r = {'boundscheck': True, 'wraparound': True, 'cdivision': False}
        for d in decs or ():
            e = d.decorator
            if type(e).__name__ == 'SimpleCallNode' and type(e.function).__name__ == 'AttributeNode':
                r[e.function.attribute] = getattr(e.args[0], 'value', None) in (True, 'True')
        return r

    def x_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            name = n.rhs.module_name.value
            m = self._import(name)
            if type(n.lhs).__name__ == 'NameNode':
                self.vars[n.lhs.name] = m
                self.types[n.lhs.name] = 'object'
            return
        v, t = self.eval(n.rhs)
        self.assign(n.lhs, v, t)

    def x_CascadedAssignmentNode(self, n):
        v, t = self.eval(n.rhs)
        for l in n.lhs_list:
            self.assign(l, v, t)

    def x_ParallelAssignmentNode(self, n):
        vals = []
        for s in n.stats:
            vals.append(self.eval(s.rhs))
        for s, (v, t) in zip(n.stats, vals):
            self.assign(s.lhs, v, t)

    def x_InPlaceAssignmentNode(self, n):
        op = n.operator
        cls = type(n.lhs).__name__
        if cls == 'IndexNode':
            b, bt = self.eval(n.lhs.base)
            ix, it = self.eval_index(n.lhs.index)
            old = self.load_index(b, bt, ix, it, n)
            rhs = self.eval(n.rhs)
            if isinstance(old[0], SArr) and not self._is_view_type(bt):
                v = _pybin(op, old[0], rhs[0], inplace=True)
                self.store_index(b, bt, ix, it, v, 'object', n)
                return
            v, t = self.binop(op, old, rhs)
            self.store_index(b, bt, ix, it, v, t, n)
            return
        old = self.eval(n.lhs)
        rhs = self.eval(n.rhs)
        if isinstance(old[0], SArr):
            v = _pybin(op, old[0], rhs[0], inplace=True)
            self.assign(n.lhs, v, 'object')
            return
        v, t = self.binop(op, old, rhs)
        self.assign(n.lhs, v, t)

    def assign(self, lhs, v, t):
        cls = type(lhs).__name__
        if cls == 'NameNode':
            name = lhs.name
            scope = self
            if name in self.globs or (name not in self.types and self.fn is not None and False):
                scope = self.mod.top
            vt = scope.types.get(name)
            if vt is None:
                scope.types[name] = t if (t in C_NUM and False) else 'object'
                vt = 'object'
                if t in C_NUM or isinstance(t, tuple):
                    # Cython's type inference: keep the C type of the first assignment
                    scope.types[name] = ('inferred',)
                    scope.vars[name] = v
                    scope.__dict__.setdefault('inf', {})[name] = t
                    return
            if vt == ('inferred',):
                scope.__dict__.setdefault('inf', {})[name] = t
                scope.vars[name] = v
                return
            scope.vars[name] = self._assign_conv(v, t, vt) if vt != 'object' else to_py(v, t)
            return
        if cls in ('TupleNode', 'ListNode'):
            vals = list(v)
            if len(vals) != len(lhs.args):
                raise ValueError("wrong number of values to unpack")
            for l, x in zip(lhs.args, vals):
                self.assign(l, x, 'object')
            return
        if cls == 'IndexNode':
            b, bt = self.eval(lhs.base)
            ix, it = self.eval_index(lhs.index)
            self.store_index(b, bt, ix, it, v, t, lhs)
            return
        if cls == 'SliceIndexNode':
            b, bt = self.eval(lhs.base)
            s = self._slice(lhs)
            if isinstance(v, (SArr, np.ndarray)) and isinstance(b, (SArr, np.ndarray)):
                if len(v) != len(b[s]) and len(v) != 1:
                    raise ValueError("got differing extents in dimension 0")
            b[s] = v
            return
        if cls == 'AttributeNode':
            o, _ = self.eval(lhs.obj)
            setattr(o, lhs.attribute, v)
            return
        raise Unsupported("assignment to %s" % cls)

    def x_IfStatNode(self, n):
        for c in n.if_clauses:
            if self.truth(c.condition):
                self.exec(c.body)
                return
        self.exec(n.else_clause)

    def truth(self, e):
        v, t = self.eval(e)
        if isinstance(v, (Sym, Bool)):
            return bool(as_bool(v))
        return bool(v)

    def x_WhileStatNode(self, n):
        limit = 0
        while self.truth(n.condition):
            limit += 1
            if limit > 2000:
                raise Unsupported("loop bound exceeded at %s:%d" % (self.mod.short, n.pos[1]))
            try:
                self.exec(n.body)
            except _Break:
                return
            except _Continue:
                pass
        self.exec(n.else_clause)

    def x_ForInStatNode(self, n):
        seq = n.iterator.sequence
        it = None
        if type(seq).__name__ == 'SimpleCallNode':
            fname = seq.function.name if type(seq.function).__name__ == 'NameNode' else getattr(seq.function, 'attribute', None)
            if fname in ('range', 'xrange', 'prange') and not (fname in self.types):
                a = [self._int(self.eval(x)[0]) for x in seq.args]
                it = ((i, 'int') for i in range(*a))
        elif type(seq).__name__ == 'GeneralCallNode' and getattr(seq.function, 'name', '') == 'prange':
            a = [self._int(self.eval(x)[0]) for x in seq.positional_args.args]
            it = ((i, 'int') for i in range(*a))
        if it is None:
            v, _ = self.eval(seq)
            it = ((x, 'object') for x in v)
        for v, t in it:
            self.assign(n.target, v, t)
            try:
                self.exec(n.body)
            except _Break:
                return
            except _Continue:
                continue
        self.exec(n.else_clause)

    def x_ForFromStatNode(self, n):
        lo = self._int(self.eval(n.bound1)[0])
        hi = self._int(self.eval(n.bound2)[0])
        step = self._int(self.eval(n.step)[0]) if n.step is not None else 1
        if n.relation1 == '<':
            lo += 1
        if n.relation2 == '<=':
            hi += 1
        if n.relation1 not in ('<', '<='):
            raise Unsupported("descending for-from")
        for i in range(lo, hi, step):
            self.assign(n.target, i, 'int')
            try:
                self.exec(n.body)
            except _Break:
                return
            except _Continue:
                continue

    def _int(self, v):
        if isinstance(v, Sym):
            if v.k == 'r':
                raise TypeError("'float' object cannot be interpreted as an integer")
            return int(v)
        return v.__index__()

    def x_BreakStatNode(self, n):
        raise _Break()

    def x_ContinueStatNode(self, n):
        raise _Continue()

    def x_ReturnStatNode(self, n):
        if n.value is None:
            raise _Return((None, 'object'))
        raise _Return(self.eval(n.value))

    def x_RaiseStatNode(self, n):
        if n.exc_type is None:
            raise Unsupported("re-raise")
        e, _ = self.eval(n.exc_type)
        raise e

    def x_AssertStatNode(self, n):
        c = getattr(n, 'condition', None) or getattr(n, 'cond', None)
        if not self.truth(c):
            raise AssertionError("assertion in %s:%d" % (self.mod.short, n.pos[1]))

    def x_GILStatNode(self, n):
        self.exec(n.body)

    def x_TryFinallyStatNode(self, n):
        try:
            self.exec(n.body)
        finally:
            self.exec(n.finally_clause)

    def x_TryExceptStatNode(self, n):
        raise Unsupported("try/except in Cython")

    def x_ParallelWithBlockNode(self, n):
        self.exec(n.body)

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        return getattr(self, 'e_' + type(n).__name__, self._unke)(n)

    def _unke(self, n):
        raise Unsupported("Cython expression %s at %s:%s" % (type(n).__name__, self.mod.short, n.pos[1]))

    def e_IntNode(self, n):
        return int(str(n.value).rstrip('uUlL'), 0), 'lit'

    def e_FloatNode(self, n):
        return Sym(core._num(float(n.value)), None, 'r'), 'double'

    def e_BoolNode(self, n):
        return bool(n.value), 'bint'

    def e_NoneNode(self, n):
        return None, 'object'

    def e_StringNode(self, n):
        return str(n.value), 'object'

    e_UnicodeNode = e_IdentifierStringNode = e_BytesNode = e_StringNode

    def e_JoinedStrNode(self, n):
        return "<f-string>", 'object'

    def e_NameNode(self, n):
        name = n.name
        if name in self.types or name in self.vars:
            t = self.types.get(name, 'object')
            if t == ('inferred',):
                t = self.inf[name]
            if name not in self.vars:
                if t in C_NUM:
                    # uninitialised C variable: an arbitrary value
                    v = el(arr.fresh('uninit_' + name, dtype_of(t).kind), dtype_of(t).kind)
                    self.vars[name] = v
                    return v, t
                raise UnboundLocalError("local variable '%s' referenced before assignment" % name)
            return self.vars[name], t
        top = self.mod.top
        if self is not top and (name in top.vars):
            t = top.types.get(name, 'object')
            if t == ('inferred',):
                t = 'object'
            return top.vars[name], t
        if name in LIBC_CONST:
            v, t = LIBC_CONST[name]
            return (lift(v) if t != 'int' else v), t
        f = _libc(name)
        if f is not None and not (name in ('abs', 'pow')):
            return _CBuiltin(name, f), 'object'
        if name in _BUILTINS:
            return _BUILTINS[name], 'object'
        if hasattr(builtins, name):
            return getattr(builtins, name), 'object'
        if name == 'cython':
            return None, 'object'
        raise NameError(name)

    def e_AttributeNode(self, n):
        o, t = self.eval(n.obj)
        a = n.attribute
        if isinstance(t, tuple) and t[0] in ('mv', 'buf'):
            if o is None:
                raise AttributeError("'NoneType' object has no attribute '%s'" % a)
            if a == 'shape':
                return o.shape, ('shape',)
            if a == 'size':
                return o.size, 'Py_ssize_t'
        return getattr(o, a), 'object'

    def e_TupleNode(self, n):
        return tuple(to_py(*self.eval(a)) for a in n.args), 'object'

    def e_ListNode(self, n):
        return [to_py(*self.eval(a)) for a in n.args], 'object'

    def e_DictNode(self, n):
        return {self.eval(i.key)[0]: self.eval(i.value)[0] for i in n.key_value_pairs}, 'object'

    def e_SliceNode(self, n):
        def g(x):
            if x is None or type(x).__name__ == 'NoneNode':
                return None
            v = self.eval(x)[0]
            return int(v) if isinstance(v, Sym) else v
        return slice(g(n.start), g(n.stop), g(n.step)), 'object'

    def e_EllipsisNode(self, n):
        return Ellipsis, 'object'

    def eval_index(self, ix):
        if type(ix).__name__ == 'TupleNode':
            vs = [self.eval(a) for a in ix.args]
            return tuple(v for v, _ in vs), tuple(t for _, t in vs)
        v, t = self.eval(ix)
        return v, t

    def _is_view_type(self, t):
        return isinstance(t, tuple) and t[0] in ('mv', 'buf')

    def e_IndexNode(self, n):
        b, bt = self.eval(n.base)
        ix, it = self.eval_index(n.index)
        return self.load_index(b, bt, ix, it, n)

    def _slice(self, n):
        def g(x):
            if x is None or type(x).__name__ == 'NoneNode':
                return None
            v = self.eval(x)[0]
            return int(v) if isinstance(v, Sym) else v
        return slice(g(n.start), g(n.stop))

    def e_SliceIndexNode(self, n):
        b, bt = self.eval(n.base)
        return b[self._slice(n)], bt

    def _norm(self, shape, ix, n):
        """bounds-check scalar indices of a typed buffer"""
        d = self.fn.dir if self.fn else {'boundscheck': True, 'wraparound': True}
        out = []
        for k, (i, sz) in enumerate(zip(ix, shape)):
            if isinstance(i, (slice, type(Ellipsis), type(None))):
                out.append(i)
                continue
            i = i if isinstance(i, Sym) and i.c is None else int(lift(i).c)
            lo = -sz if d['wraparound'] else 0
            ok = cmp_(i, lift(lo), '>=') & cmp_(i, lift(sz), '<')
            if d['boundscheck']:
                if not bool(ok):
                    raise IndexError("Out of bounds on buffer access (axis %d)" % k)
            elif ok.c is not True:
                ctx().oblige("memory access inside the array (%s:%d)" % (self.mod.short, n.pos[1]), ok)
                if ok.c is False:
                    raise core.PathEnd("out of bounds")
                ctx().add_pc(ok)
            else:
                ctx().stats.obligations += 1
                ctx().stats.discharged += 1
            if d['wraparound'] and bool(cmp_(i, lift(0), '<')):
                i = i + sz
            out.append(i)
        return out

    def load_index(self, b, bt, ix, it, n):
        if isinstance(bt, tuple) and bt[0] == 'ptr':
            return self._ptr(b, ix, n)
        if bt == ('shape',):
            return b[int(ix)], 'Py_ssize_t'
        if self._is_view_type(bt):
            if b is None:
                raise TypeError("Cannot index None memoryview slice")
            t = ix if isinstance(ix, tuple) else (ix,)
            scalar = len(t) == b.ndim and all(not isinstance(i, (slice, type(Ellipsis), type(None), SArr, np.ndarray, list)) for i in t)
            if not scalar and any(isinstance(i, (SArr, np.ndarray, list)) for i in t):
                return b[ix], 'object'
            t = self._norm(b.shape, t, n)
            if scalar:
                if isinstance(b, np.ndarray):
                    if any(isinstance(i, Sym) for i in t):
                        return arr._chain(b.astype(object), t), bt[1]
                    return int(b[tuple(t)]), bt[1]
                k = b.dtype.kind
                t = self._fix_index(b, t)
                v = arr._chain(b.a, t)
                return el(v, k), bt[1]
            r = b[tuple(t)]
            return r, (bt[0], bt[1], r.ndim) + (None,)
        if isinstance(ix, Sym) or (isinstance(ix, tuple) and any(isinstance(i, Sym) for i in ix)):
            if isinstance(b, (list, tuple)):
                return b[int(ix)], 'object'
            return b[ix], 'object'
        return b[ix], 'object'

    def _fix_index(self, b, t, store=False):
        """one path per value of a symbolic index into an array of symbolic reals (merging would hide their algebra)"""
        if not any(isinstance(i, Sym) and i.c is None for i in t):
            return t
        C = ctx()
        fork = b.dtype.kind == 'f' and (store or any(isinstance(x, Sym) and x.c is None for x in b.a.flat))
        return [(C.concretize(i) if fork or ('conc', core.p_key(i.p)) in C.cache else i)
                if isinstance(i, Sym) and i.c is None else i for i in t]

    def _ptr(self, p, i, n):
        i = i if isinstance(i, Sym) and i.c is None else int(lift(i).c)
        ok = cmp_(i, lift(0), '>=') & cmp_(i, lift(p.n), '<')
        if ok.c is not True:
            ctx().oblige("memory access inside the allocated block (%s:%d)" % (self.mod.short, n.pos[1]), ok)
            if ok.c is False:
                raise core.PathEnd("out of bounds")
            ctx().add_pc(ok)
        return arr._chain(p.data, [i]), p.elem

    def store_index(self, b, bt, ix, it, v, t, n):
        if isinstance(bt, tuple) and bt[0] == 'ptr':
            self._ptr(b, ix, n)
            k = dtype_of(b.elem).kind
            v = coerce(v, b.elem, self)
            i = ix if isinstance(ix, Sym) and ix.c is None else int(lift(ix).c)
            if isinstance(i, int):
                b.data[i] = v
            else:
                arr.scatter_obj(b.data, [i], v, k)
            return
        if self._is_view_type(bt):
            tt = ix if isinstance(ix, tuple) else (ix,)
            scalar = len(tt) == b.ndim and all(not isinstance(i, (slice, type(Ellipsis), type(None))) for i in tt)
            tt = self._norm(b.shape, tt, n)
            if scalar:
                if bt[1] in INT and t in FLT:
                    raise Unsupported("implicit double to int store")
                v = coerce(v, bt[1], self)
                if isinstance(b, np.ndarray):
                    if any(isinstance(i, Sym) for i in tt) or isinstance(v, (Sym, Bool)):
                        tt = [int(i) for i in tt]
                        v = int(lift(v)) if not isinstance(v, int) else v
                    b[tuple(tt)] = v
                    return
                tt = self._fix_index(b, tt, True)
                if any(isinstance(i, Sym) for i in tt):
                    arr.scatter_obj(b.a, tt, v, b.dtype.kind)
                else:
                    b.a[tuple(tt)] = v
                return
            if isinstance(v, (SArr, np.ndarray)):
                dst = b[tuple(tt)]
                if dst.shape != v.shape and v.ndim == dst.ndim:
                    raise ValueError("got differing extents in dimension (got %s and %s)" % (dst.shape, v.shape))
            b[tuple(tt)] = v
            return
        b[ix] = v

    # -- calls
    def e_SimpleCallNode(self, n):
        return self._call(n.function, [self.eval(a) for a in n.args], {})

    def e_GeneralCallNode(self, n):
        pa = n.positional_args
        if type(pa).__name__ != 'TupleNode':
            raise Unsupported("star-args call")
        kw = {}
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kw[it.key.value] = to_py(*self.eval(it.value))
        return self._call(n.function, [self.eval(a) for a in pa.args], {str(k): v for k, v in kw.items()})

    def _call(self, fn, args, kw):
        if type(fn).__name__ == 'NameNode' and fn.name == 'print':
            return None, 'object'
        if type(fn).__name__ == 'NameNode' and fn.name in ('min', 'max') and fn.name not in self.vars and len(args) > 1:
            f = core.maximum if fn.name == 'max' else core.minimum
            r = args[0][0]
            for v, _ in args[1:]:
                r = f(r, v)
            ts = [t for _, t in args]
            t = _num_type(ts[0], ts[1])
            r = lift(r)
            return (int(r.c) if r.c is not None and r.k == 'i' else r), t
        f, _ = self.eval(fn)
        if isinstance(f, CyFunc):
            return f.call([v for v, _ in args], kw)
        if isinstance(f, _CBuiltin):
            r = f.f(*[v for v, _ in args])
            return r, LIBC_RET_INT.get(f.name, 'double' if isinstance(r, Sym) else 'object')
        if f is builtins.len:
            x = args[0][0]
            return len(x), 'Py_ssize_t'
        if f is builtins.abs:
            r = core.abs_(args[0][0])
            return (int(r.c) if r.c is not None and r.k == 'i' else r), args[0][1]
        if f is builtins.float:
            from . import env
            f = env._float
        return f(*[to_py(v, t) for v, t in args], **kw), 'object'

    def e_TypecastNode(self, n):
        base = short_type(n.base_type) if getattr(n, 'base_type', None) is not None else None
        _, t, _, _ = decl(base, n.declarator)
        v, vt = self.eval(n.operand)
        if isinstance(t, tuple) and t[0] == 'name':
            t = self._named(t[1])
        if t in INT:
            s = lift(v)
            if s.k == 'r':
                s = core.trunc(s)
            if s.c is not None:
                return coerce(int(s.c), t, self), t
            return coerce(s, t, self), t
        return coerce(v, t, self), t

    def e_SizeofTypeNode(self, n):
        base = short_type(n.base_type)
        return dtype_of(base).itemsize, 'size_t'

    # -- operators
    def e_AddNode(self, n):
        return self.binop(n.operator, self.eval(n.operand1), self.eval(n.operand2))

    e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_NumBinopNode = e_IntBinopNode = e_AddNode

    def binop(self, op, a, b):
        (x, tx), (y, ty) = a, b
        if isinstance(x, (str, list, tuple)) or isinstance(y, (str,)):
            if op == '%' and isinstance(x, str):
                return "<fmt>", 'object'
            return _pybin(op, x, y), 'object'
        if isinstance(x, (SArr, np.ndarray)) or isinstance(y, (SArr, np.ndarray)):
            return _pybin(op, x, y), 'object'
        t = _num_type(tx, ty)
        if t == 'object':
            return _pybin(op, x, y), 'object'
        if op == '/':
            if t in FLT:
                X, Y = arr._fl(x) if not isinstance(x, Bool) else arr._fl(x.as_int()), arr._fl(y)
                return core.div(X, Y), t
            return self._cdiv(x, y, t), t
        if op == '%':
            if t in FLT:
                return core.mod(arr._fl(x), arr._fl(y)), t
            q = self._cdiv(x, y, t)
            return _ci(core.sub(x, core.mul(q, y))) if self._cdir() else _ci(core.mod(lift(x), lift(y))), t
        if op == '//':
            if t in FLT:
                return core.floordiv(arr._fl(x), arr._fl(y)), t
            return self._cdiv(x, y, t), t
        if op == '**':
            return _ci(core.power(lift(x), lift(y))), t
        if t in FLT:
            x, y = (arr._fl(v) if not isinstance(v, Bool) else arr._fl(v.as_int()) for v in (x, y))
        f = {'+': core.add, '-': core.sub, '*': core.mul}.get(op)
        if f is None:
            sx, sy = lift(x), lift(y)
            if sx.c is None or sy.c is None:
                raise Unsupported("bit operation %s" % op)
            r = {'&': lambda p, q: p & q, '|': lambda p, q: p | q, '^': lambda p, q: p ^ q,
                 '<<': lambda p, q: p << q, '>>': lambda p, q: p >> q}[op](sx.c, sy.c)
            return r, t
        r = f(lift(x), lift(y))
        return (_ci(r), t) if t not in FLT else (r, t)

    def _cdir(self):
        return bool(self.fn and self.fn.dir.get('cdivision'))

    def _cdiv(self, x, y, t):
        x, y = lift(x), lift(y)
        if y.c is not None and y.c == 0:
            if self._cdir():
                ctx().oblige("integer division by zero", core.FALSE)
                raise core.PathEnd("division by zero")
            raise ZeroDivisionError("integer division or modulo by zero")
        if y.c is None:
            nz = cmp_(y, lift(0), '!=')
            if not bool(nz):
                raise ZeroDivisionError("integer division or modulo by zero")
        if not self._cdir():
            return _ci(core.floordiv(x, y))
        if x.c is not None and y.c is not None:
            q = abs(x.c) // abs(y.c)
            return q if (x.c >= 0) == (y.c >= 0) else -q
        C = ctx()
        xs = C.p_sign(x.poly())
        ys = C.p_sign(y.poly()) if y.c is None else (1 if y.c > 0 else -1)
        if xs > 0 and ys > 0:
            return _ci(core.floordiv(x, y))
        if ys > 0:
            return _ci(ite(cmp_(x, lift(0), '>='), core.floordiv(x, y), core.neg(core.floordiv(core.neg(x), y))))
        raise Unsupported("C division with a negative divisor")

    def e_UnaryMinusNode(self, n):
        v, t = self.eval(n.operand)
        if isinstance(v, (SArr, np.ndarray)):
            return -v, t
        return (_ci(core.neg(lift(v))), t)

    def e_UnaryPlusNode(self, n):
        return self.eval(n.operand)

    def e_NotNode(self, n):
        v, t = self.eval(n.operand)
        if isinstance(v, (Sym, Bool)):
            b = as_bool(v).neg()
            return (b.c if b.c is not None else b), 'bint'
        return (not v), 'bint'

    def e_BoolBinopNode(self, n):
        v, t = self.eval(n.operand1)
        if isinstance(v, (Bool, bool, np.bool_)):
            b = as_bool(v)
            if n.operator == 'and':
                if b.c is False:
                    return False, 'bint'
            elif b.c is True:
                return True, 'bint'
            if b.c is None and self._pure(n.operand2):
                w, _ = self.eval(n.operand2)
                r = b & as_bool(w) if n.operator == 'and' else b | as_bool(w)
                return (r.c if r.c is not None else r), 'bint'
        tv = bool(as_bool(v)) if isinstance(v, (Sym, Bool)) else bool(v)
        if n.operator == 'and':
            return self.eval(n.operand2) if tv else (v, t)
        return (v, t) if tv else self.eval(n.operand2)

    def _pure(self, e, guarded=False):
        """safe to evaluate even when the guard is false: comparisons of plain names and constants"""
        c = type(e).__name__
        if c in ('NameNode', 'IntNode', 'FloatNode', 'BoolNode'):
            return True
        if c in ('UnaryMinusNode', 'UnaryPlusNode', 'NotNode'):
            return self._pure(e.operand, guarded)
        if c == 'PrimaryCmpNode':
            return self._pure(e.operand1, guarded) and self._pure(e.operand2, guarded) and e.cascade is None
        if c in ('AddNode', 'SubNode', 'MulNode', 'BoolBinopNode'):
            return self._pure(e.operand1, guarded) and self._pure(e.operand2, guarded)
        if guarded and c == 'DivNode':
            return self._pure(e.operand1, True) and self._pure(e.operand2, True)
        if guarded and c == 'SimpleCallNode' and type(e.function).__name__ == 'NameNode' and \
                e.function.name in ('log', 'exp', 'exp_approx', 'sqrt', 'fabs'):
            return all(self._pure(x, True) for x in e.args)
        return False

    def e_CondExprNode(self, n):
        c = self.eval(getattr(n, 'test', None) or n.condition)[0]
        if isinstance(c, (Sym, Bool)) and as_bool(c).c is None and ctx().speculative is False:
            # both sides without a decision of their own: one merged value instead of two paths
            C = ctx()
            known = None
            if C.cheap([as_bool(c)]):
                known = n.false_val
            elif C.cheap([as_bool(c).neg()]):
                known = n.true_val
            if known is not None:
                C.branch(as_bool(c))
                return self.eval(known)
            if self._pure(n.true_val, True) and self._pure(n.false_val, True):
                ne, nn = len(C.events), len(C.pc)
                C.speculative = True
                try:
                    (a, ta), (b, tb_) = self.eval(n.true_val), self.eval(n.false_val)
                    ok = len(C.events) == ne and isinstance(a, (Sym, int, float, np.number)) and isinstance(b, (Sym, int, float, np.number))
                except core.SpecFail:
                    ok = False
                finally:
                    C.speculative = False
                    del C.events[ne:]
                if ok:
                    return ite(as_bool(c), a, b), ta
        tb = bool(as_bool(c)) if isinstance(c, (Sym, Bool)) else bool(c)
        return self.eval(n.true_val) if tb else self.eval(n.false_val)

    def e_PrimaryCmpNode(self, n):
        a = self.eval(n.operand1)
        b = self.eval(n.operand2)
        r = self._cmp(n.operator, a, b)
        c = n.cascade
        while c is not None:
            if isinstance(r, (bool, np.bool_)) and not r:
                return False, 'bint'
            d = self.eval(c.operand2)
            r2 = self._cmp(c.operator, b, d)
            r = as_bool(r) & as_bool(r2)
            r = r.c if r.c is not None else r
            b = d
            c = c.cascade
        return r, 'bint'

    def _cmp(self, op, a, b):
        x, y = a[0], b[0]
        if op in ('is', 'is_not', 'in', 'not_in', 'is not', 'not in'):
            if op == 'is':
                return x is y
            if op in ('is_not', 'is not'):
                return x is not y
            return (x in y) if op == 'in' else (x not in y)
        if isinstance(x, (Sym, Bool, int, float, np.number, bool)) and isinstance(y, (Sym, Bool, int, float, np.number, bool)):
            r = as_bool(cmp_(x if not isinstance(x, Bool) else x.as_int(), y if not isinstance(y, Bool) else y.as_int(), op))
            return r.c if r.c is not None else r
        return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                '>': lambda: x > y, '>=': lambda: x >= y}[op]()


class _CBuiltin:
    def __init__(self, name, f):
        self.name, self.f = name, f


def _ci(r):
    if isinstance(r, Sym) and r.c is not None and r.k == 'i':
        return int(r.c)
    return r


def _num_type(a, b):
    if a == 'lit' and b == 'lit':
        return 'lit' if False else 'long'
    if a == 'lit':
        a = 'int' if b in INT or b == 'bint' else b
    if b == 'lit':
        b = 'int' if a in INT or a == 'bint' else a
    if a in FLT or b in FLT:
        if a not in C_NUM or b not in C_NUM:
            return 'object' if False else 'double'
        return 'double' if 'double' in (a, b) or FLT.get(a) is np.float64 or FLT.get(b) is np.float64 else 'float'
    if a in C_NUM and b in C_NUM:
        d = np.promote_types(dtype_of(a) if a != 'bint' else np.int32, dtype_of(b) if b != 'bint' else np.int32)
        if d.itemsize < 4:
            return 'int'
        return {'i4': 'int', 'i8': 'long', 'u4': 'uint', 'u8': 'ulong'}.get(d.kind + str(d.itemsize), 'long')
    return 'object'


def _pybin(op, x, y, inplace=False):
    import operator as o
    f = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow,
         '&': o.and_, '|': o.or_, '@': o.matmul}[op]
    if inplace:
        f = {'+': o.iadd, '-': o.isub, '*': o.imul, '/': o.itruediv, '//': o.ifloordiv}.get(op, f)
    if isinstance(x, float):
        x = lift(x)
    return f(x, y)


_BUILTINS = {'xrange': range, 'range': range, 'int': int, 'float': float}
