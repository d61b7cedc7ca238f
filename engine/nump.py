"""Model of the part of NumPy 1.8 / bottleneck 0.8 that la uses.

An array is a buffer (a closure from a multi-index to a cell term) seen through an
invertible index map, so views alias their base and stores go through views.
Axis lengths are terms: nothing is bounded.  These are the assumed contracts of the
library; they are listed as trusted in the evidence.
"""
import z3
from .core import *
from .interp import *
from .interp import Sc, Prod, PyIter, PyClass, Module, Builtin, LoopCtx, size_of, subst_b, floordiv

SORT = {'f': V, 'i': Int, 'b': Bool, 's': V, 'o': V, 'c': V}
DEFNAME = {'f': 'float64', 'i': 'int64', 'b': 'bool', 's': 'S', 'o': 'object', 'c': 'complex128'}


def intvalued(t):
    "the integer that the float cell t certainly holds, or None"
    if not z3.is_app(t):
        return None
    n = t.decl().name()
    if n == 'V_of_int':
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = intvalued(t.arg(1)), intvalued(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    if n in ('v_mul', 'v_add', 'v_sub'):
        a, b = intvalued(t.arg(0)), intvalued(t.arg(1))
        return None if a is None or b is None else a * b if n == 'v_mul' else a + b if n == 'v_add' else a - b
    return None


class NpType(object):
    def __init__(self, name, parent=None, kind=None):
        self.name, self.parent, self.kind = name, parent, kind

    def __repr__(self):
        return '<np.%s>' % self.name


CHARS = {'f': 'd', 'i': 'l', 'b': '?', 's': 'S', 'o': 'O'}


class DType(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class Buf(object):
    def __init__(self, E, shape, fn, kind):
        self.E, self.shape, self.fn, self.kind = E, shape, fn, kind
        self.stamp = E.new_stamp()

    def read(self):
        for lc in self.E.loops:
            if self.stamp < lc.stamp:
                lc.reads.add(id(self))


class Stride(object):
    def __init__(self, ax, mult):
        self.ax, self.mult = ax, mult


class Unique(object):
    "what np.unique gives: a function of the cells, in order, and of the flags"
    def __init__(self, arr, index, inverse):
        self.arr, self.index, self.inverse = arr, index, inverse


class Arr(object):
    __slots__ = ('kind', 'shape', 'buf', 'vmap', 'imap', 'name', 'ro', 'ixsrc')

    def __init__(self, kind, shape, buf, vmap=None, imap=None, name=None, ro=False):
        self.kind, self.shape, self.buf = kind, tuple(shape), buf
        self.vmap, self.imap, self.name, self.ro = vmap, imap, name or DEFNAME[kind], ro

    def subst(self, c, t):
        raise Unsupported('array depending on a generic index')


class ndarray_type(object):
    pass


UF2 = 'add subtract multiply divide true_divide floor_divide power minimum maximum logical_and logical_or less greater equal not_equal less_equal greater_equal fmod mod'.split()
UFN = {'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'true_divide': 'truediv', 'floor_divide': 'floordiv', 'less': 'lt', 'greater': 'gt',
       'equal': 'eq', 'not_equal': 'ne', 'less_equal': 'le', 'greater_equal': 'ge'}
UF1 = 'log exp sqrt sign absolute isnan isfinite isinf negative invert logical_not'.split()
UF1N = {'negative': 'neg'}
CMP = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')


def cellsort(v):
    s = vsort(v)
    return s


class NumPy(object):
    SORT = SORT
    Arr, DType, NpType = Arr, DType, NpType
    ndarray = ndarray_type

    def __init__(self, I):
        self.I = I
        T = {}
        self.sortedby = {}

        def t(name, parent=None, kind=None):
            T[name] = NpType(name, T.get(parent), kind)
        t('generic')
        t('number', 'generic')
        t('inexact', 'number')
        t('floating', 'inexact')
        t('complexfloating', 'inexact')
        t('integer', 'number')
        t('signedinteger', 'integer')
        t('flexible', 'generic')
        t('character', 'flexible')
        t('float64', 'floating', 'f')
        t('int64', 'signedinteger', 'i')
        t('int32', 'signedinteger', 'i')
        t('float32', 'floating', 'f')
        t('complex128', 'complexfloating', 'c')
        t('bool_', 'generic', 'b')
        t('string_', 'character', 's')
        t('unicode_', 'character', 'u')
        t('object_', 'generic', 'o')
        t('unsignedinteger', 'integer')
        T['str_'] = T['string_']
        T['int_'] = T['int64']
        T['float_'] = T['float64']
        self.T = T
        self.dts = dict((k, DType(k, DEFNAME[k])) for k in DEFNAME)
        self.dts['S3'] = DType('s', 'S3')
        self.ufuncs = {}

    @property
    def E(self):
        return self.I.E

    # ------------------------------------------------------------------ types
    def sctype(self, kind):
        return self.T[{'f': 'float64', 'i': 'int64', 'b': 'bool_', 's': 'string_', 'o': 'object_', 'c': 'complex128'}[kind]]

    def type_of_scalar(self, v):
        if isinstance(v, Sc):
            return self.sctype(v.kind) if v.kind != 'o' else None
        if sym(v) and v.sort() == Int:
            return self.T['int64']
        if sym(v) and v.sort() == Bool:
            return self.T['bool_']
        if isinstance(v, float):
            return self.T['float64'] if getattr(v, 'np', False) else None
        return None

    def subtype(self, a, b):
        while a is not None:
            if a is b:
                return True
            a = a.parent
        return False

    def kind_of_dtype(self, d):
        if d is None:
            return 'f'
        if isinstance(d, DType):
            return d.kind
        if isinstance(d, NpType):
            if d.kind is None or d.kind == 'u':
                raise Unsupported('dtype %s' % d.name)
            return d.kind
        if d is float:
            return 'f'
        if d is int:
            return 'i'
        if d is bool:
            return 'b'
        if d is str:
            return 's'
        if d is object:
            return 'o'
        if d is complex:
            return 'c'
        if isinstance(d, str):
            if d in ('float', 'f8', 'float64', 'd', '<f8'):
                return 'f'
            if d in ('int', 'i8', 'int64', 'l', '<i8'):
                return 'i'
            if d in ('bool', '?', 'b1'):
                return 'b'
            if d in ('object', 'O'):
                return 'o'
            raise Unsupported('dtype %r' % d)
        if isinstance(d, Arr):
            return d.kind
        raise PyRaise(TypeError, 'data type not understood')

    def dtype_eq(self, a, b):
        def k(x):
            if isinstance(x, DType):
                return ('d', x.kind)
            if isinstance(x, NpType):
                return ('d', x.kind, x.name)
            return x
        if isinstance(a, DType) or isinstance(b, DType):
            if a is None or b is None:
                # dtype == None compares with the default dtype in NumPy 1.8
                d = a if isinstance(a, DType) else b
                return d.kind == 'f'
            try:
                ka, kb = self.kind_of_dtype(a), self.kind_of_dtype(b)
            except (PyRaise, Unsupported):
                return False
            return ka == kb
        return a is b

    def issubdtype(self, a, b):
        def totype(x):
            if isinstance(x, DType):
                return self.sctype(x.kind)
            if isinstance(x, NpType):
                return x
            if x is float:
                return self.T['floating']
            if x is int:
                return self.T['signedinteger']
            if x is str:
                return self.T['character'] if False else self.T['string_']
            if x is bool:
                return self.T['bool_']
            if x is object:
                return self.T['object_']
            if isinstance(x, PyClass) or isinstance(x, type) and x in (list, tuple, dict, set, slice, type(None), ndarray_type):
                return self.T['object_']        # numpy.dtype(any other class) is object
            raise Unsupported('issubdtype of %r' % (x,))
        if b is int:
            b = self.T['signedinteger']
        return self.subtype(totype(a), totype(b))

    # ------------------------------------------------------------------ cells
    def cast(self, v, k, to):
        "convert a cell term"
        E = self.E
        if k == to:
            return v
        if to == 'f':
            if k == 'i':
                return E.VI(E.coerce(v, Int))
            if k == 'b':
                return E.VI(E.coerce(v, Int))
            if k == 'o':
                raise Unsupported('object to float')
            if k == 's':
                if not E.numeric_text:
                    raise Unsupported('string to float')
                return z3.Function('v_float_of_str', V, V)(v)
        if to == 'i':
            if k == 'b':
                return E.coerce(v, Int)
            if k == 'f':
                return z3.Function('v_toint', V, Int)(v)
        if to == 'b':
            return self.truthcell(v)
        if to == 'o':
            if k in 'fs':
                return v
            if k == 'i':
                return E.VI(E.coerce(v, Int))
            if k == 'b':
                return E.VB(E.coerce(v, Bool))
        if to == 'c' and k in 'fib':
            return self.cast(v, k, 'f')
        raise Unsupported('cast %s to %s' % (k, to))

    def truthcell(self, v):
        E = self.E
        if isinstance(v, bool):
            return v
        s = vsort(v)
        if s == Bool:
            return v
        if s == Int:
            return v != 0
        if s == V:
            if 'vtruth' not in E.memo:
                f = z3.Function('v_truth', V, Bool)
                E.memo['vtruth'] = f
                i = z3.Int('i')
                E.vaxioms()
                E.axiom_raw(f(E.NAN))
                E.axiom_raw(z3.Not(f(E.NONEV)))
                E.axiom_raw(z3.Not(f(E.EMPTY)))
                E.axiom_raw(z3.ForAll([i], f(E.VI(i)) == (i != 0), patterns=[E.VI(i)]))
            return E.memo['vtruth'](v)
        raise Unsupported('truth of cell %r' % (v,))

    def kindcell(self, v):
        "(kind, cell term) of a scalar operand"
        E = self.E
        if isinstance(v, Sc):
            return v.kind, v.v
        if isinstance(v, bool):
            return 'b', v
        if isinstance(v, int):
            return 'i', v
        if isinstance(v, float):
            return 'f', E.toV(v)
        if isinstance(v, str):
            return 's', E.toV(v)
        if v is None:
            return 'o', E.NONEV
        if sym(v):
            if v.sort() == Int:
                return 'i', v
            if v.sort() == Bool:
                return 'b', v
            if v.sort() == V:
                return 'f', v
            if v.sort() == Real:
                return 'f', z3.Function('V_of_real', Real, V)(v)
        if isinstance(v, Prod):
            return 'i', v.term()
        raise Unsupported('scalar operand %r' % (v,))

    def cellop(self, op, a, b):
        "one cell of a binary ufunc, on raw terms"
        E = self.E
        a, b = [x.v if isinstance(x, Sc) else x for x in (a, b)]
        a, b = [E.toV(x) if isinstance(x, (float, str, type(None))) else x for x in (a, b)]
        op = UFN.get(op, op)
        if op == 'truediv':
            a, b, op = self.tofloatcell(a), self.tofloatcell(b), 'div'
        sa, sb = vsort(a), vsort(b)
        if op in ('logical_and', 'logical_or'):
            return (And if op == 'logical_and' else Or)(self.truthcell(a), self.truthcell(b))
        if sa == Bool and sb == Bool:
            if op == 'add' or op == 'maximum':
                return Or(a, b)
            if op == 'mul' or op == 'minimum':
                return And(a, b)
            if op == 'sub':
                return a != b if sym(a) or sym(b) else a != b
            if op == 'eq':
                return to_bool(a) == to_bool(b)
            if op == 'ne':
                return to_bool(a) != to_bool(b)
        if sa in (Int, Bool) and sb in (Int, Bool):
            a, b = E.coerce(a, Int), E.coerce(b, Int)
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op in CMP:
                return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
            if op == 'minimum':
                return z3.If(a <= b, a, b)
            if op == 'maximum':
                return z3.If(a >= b, a, b)
            return z3.Function('i_' + op, Int, Int, Int)(a, b)
        a, b = self.tofloatcell(a), self.tofloatcell(b)
        if op == 'eq':
            return to_bool(E.veq(a, b))
        if op == 'ne':
            return Not(to_bool(E.veq(a, b)))
        if op == 'gt':
            self.intfacts('lt', E.vpred('lt'))
            return E.vpred('lt')(b, a)
        if op == 'ge':
            self.intfacts('le', E.vpred('le'))
            return E.vpred('le')(b, a)
        if op in ('lt', 'le'):
            self.intfacts(op, E.vpred(op))
            return E.vpred(op)(a, b)
        if op == 'mul':
            one = E.VI(z3.IntVal(1))
            if b.eq(one):
                return a
            if a.eq(one):
                return b
        f = z3.Function('v_' + op, V, V, V)
        if op in ('add', 'sub', 'mul'):
            self.intfacts(op, f)
        if op in ('add', 'mul', 'maximum', 'minimum') and ('comm', op) not in E.memo:
            E.memo['comm', op] = True
            p, q = z3.Consts('v w', V)
            E.axiom_raw(z3.ForAll([p, q], f(p, q) == f(q, p), patterns=[f(p, q)]))
        return f(a, b)

    def intfacts(self, op, f):
        "arithmetic and order of cells that hold integers or NaN (integers are exact)"
        E = self.E
        if ('intfacts', op) in E.memo:
            return
        E.memo['intfacts', op] = True
        E.vaxioms()
        i, j = z3.Ints('i j')
        p = z3.Const('v', V)
        a, b = E.VI(i), E.VI(j)
        if op in ('lt', 'le'):
            E.axiom_raw(z3.ForAll([i, j], f(a, b) == (i < j if op == 'lt' else i <= j), patterns=[f(a, b)]))
            E.axiom_raw(z3.ForAll([p], z3.And(z3.Not(f(p, E.NAN)), z3.Not(f(E.NAN, p))), patterns=[f(p, E.NAN), f(E.NAN, p)]))
        else:
            r = {'add': i + j, 'sub': i - j, 'mul': i * j}[op]
            if op == 'mul':
                E.axiom_raw(z3.ForAll([p], f(p, E.VI(z3.IntVal(1))) == p, patterns=[f(p, E.VI(z3.IntVal(1)))]))
            E.axiom_raw(z3.ForAll([i, j], f(a, b) == E.VI(r), patterns=[f(a, b)]))
            E.axiom_raw(z3.ForAll([p], z3.And(f(p, E.NAN) == E.NAN, f(E.NAN, p) == E.NAN), patterns=[f(p, E.NAN), f(E.NAN, p)]))

    def quotientfacts(self):
        "the order of integers and quotients of integers, in real arithmetic"
        E = self.E
        if 'quotientfacts' in E.memo:
            return
        E.memo['quotientfacts'] = True
        i, a, c = z3.Ints('i a c')
        d = z3.Function('v_div', V, V, V)(E.VI(a), E.VI(c))
        p, f = z3.Const('v', V), z3.Function('v_div', V, V, V)
        E.axiom_raw(z3.ForAll([p], z3.And(f(p, E.NAN) == E.NAN, f(E.NAN, p) == E.NAN), patterns=[f(p, E.NAN), f(E.NAN, p)]))
        R, x = z3.Function('V_of_real', z3.RealSort(), V), z3.Real('x')
        for op in ('lt', 'le'):
            f = E.vpred(op)
            self.intfacts(op, f)
            r = lambda u, v: u < v if op == 'lt' else u <= v
            E.axiom_raw(z3.ForAll([i, x], f(E.VI(i), R(x)) == r(z3.ToReal(i), x), patterns=[f(E.VI(i), R(x))]))
            E.axiom_raw(z3.ForAll([i, x], f(R(x), E.VI(i)) == r(x, z3.ToReal(i)), patterns=[f(R(x), E.VI(i))]))
            E.axiom_raw(z3.ForAll([i, a, c], z3.Implies(c > 0, f(E.VI(i), d) == r(i * c, a)), patterns=[f(E.VI(i), d)]))
            E.axiom_raw(z3.ForAll([i, a, c], z3.Implies(c > 0, f(d, E.VI(i)) == r(a, i * c)), patterns=[f(d, E.VI(i))]))

    def tofloatcell(self, a):
        E = self.E
        if vsort(a) == V:
            E.vaxioms()
            return a
        return E.toV(E.coerce(a, Int))

    def cellun(self, op, a):
        E = self.E
        a = a.v if isinstance(a, Sc) else a
        a = E.toV(a) if isinstance(a, (float, str, type(None))) else a
        s = vsort(a)
        op = UF1N.get(op, op)
        if op in ('isnan', 'isfinite', 'isinf'):
            E.vaxioms()
            if s != V:
                return op == 'isfinite'
            if op == 'isnan':
                return E.isnan(a)
            if op == 'isfinite':
                return E.isfinite(a)
            return And(Not(E.isnan(a)), Not(E.isfinite(a)))
        if op == 'logical_not':
            return Not(self.truthcell(a))
        if s == Bool:
            if op == 'invert':
                return Not(a)
            if op == 'absolute':
                return a
            if op == 'neg':
                return Not(a)
            a, s = E.coerce(a, Int), Int
        if s == Int:
            if op == 'neg':
                return -a
            if op == 'absolute':
                return z3.If(a < 0, -a, a) if sym(a) else abs(a)
            if op == 'sign':
                return z3.If(a < 0, z3.IntVal(-1), z3.If(a > 0, z3.IntVal(1), z3.IntVal(0)))
            if op == 'invert':
                return -a - 1
            a = E.toV(a)
        E.vaxioms()
        f = z3.Function('v_' + op, V, V)
        if op == 'neg' and 'negsub' not in E.memo:
            E.memo['negsub'] = True
            p, q = z3.Consts('v w', V)
            sub = z3.Function('v_sub', V, V, V)
            E.axiom_raw(z3.ForAll([p, q], f(sub(p, q)) == sub(q, p), patterns=[f(sub(p, q))]))
        return f(a)

    # ----------------------------------------------------------------- arrays
    def normal(self, shape, fn, kind, name=None):
        "a new array whose cells are fn(idx), evaluated once at generic indices"
        E = self.E
        shape = tuple(simp_int(z) for z in shape)
        cs = []
        mgr = []
        for k in range(len(shape)):
            c = E.canon('i', Int)
            cs.append(c)
            g = E.generic(c)
            g.__enter__()
            mgr.append(g)
        try:
            def body():
                E.assume(And(*[inrange(c, n) for c, n in zip(cs, shape)]))
                return E.coerce(fn(list(cs)), SORT[kind])
            outs = E.sub(body, pruning=True)
            bad = [o for o in outs if o[1] != 'ok']
            if bad:
                raise Unsupported('cell evaluation raised %s' % bad[0][2])
            if not outs:            # an empty array
                t = E.coerce(default_cell(E, kind), SORT[kind])
            else:
                t = E.ite_chain([(c, v) for c, _, v in outs])
            t = z3.simplify(t)
        finally:
            for g in reversed(mgr):
                g.__exit__()

        def cell(idx):
            if not cs:
                return t
            return z3.substitute(t, *[(c, E.coerce(i, Int)) for c, i in zip(cs, idx)])
        return Arr(kind, shape, Buf(E, shape, cell, kind), name=name)

    def raw(self, shape, fn, kind, name=None):
        return Arr(kind, shape, Buf(self.E, tuple(shape), fn, kind), name=name)

    def cellfn(self, a):
        "closure reading the current content of a"
        a.buf.read()
        f, m = a.buf.fn, a.vmap
        if m is None:
            return f
        return lambda idx: f(m(idx))

    def cell(self, a, idx):
        return self.cellfn(a)(list(idx))

    def value(self, kind, t):
        "Python-level scalar for a cell term"
        if kind in ('i', 'b'):
            return simp_int(t) if kind == 'i' else t
        return Sc(kind, t)

    def cellvalue(self, a, idx):
        return self.value(a.kind, self.cell(a, idx))

    def copy(self, a):
        f = self.cellfn(a)
        if a.vmap is None:
            return self.raw(a.shape, f, a.kind, a.name)
        return self.normal(a.shape, f, a.kind, a.name)

    def asarray(self, v, kind=None):
        E, I = self.E, self.I
        if isinstance(v, Arr):
            return v
        if isinstance(v, (PList, tuple)):
            L = I.seq(v)
            n = L.length()
            if isinstance(n, int) and n == 0:
                return self.raw((0,), lambda i: default_cell(E, kind or 'f'), kind or 'f')
            if L.items is not None:
                its = [x for x in L.items]
                if all(isinstance(x, (PList, tuple)) for x in its):
                    subs = [self.asarray(x) for x in its]
                    k = self.promote([s.kind for s in subs])
                    sh = subs[0].shape
                    for s in subs[1:]:
                        if len(s.shape) != len(sh) or any(eqint(p, q) is not True for p, q in zip(s.shape, sh)):
                            raise Unsupported('ragged array')
                    fs = [self.cellfn(s) for s in subs]

                    def fn(idx):
                        r = self.cast(fs[-1](idx[1:]), subs[-1].kind, k)
                        for q in reversed(range(len(fs) - 1)):
                            r = E.ite(eqint(idx[0], q), self.cast(fs[q](idx[1:]), subs[q].kind, k), r)
                        return r
                    return self.normal((len(its),) + sh, fn, k)
                if any(isinstance(x, Inst) or x is NotImplemented for x in its):
                    raise Unsupported('array of objects')
                if any(is_u(x) for x in its):
                    raise Unsupported('array of labels')
                kc = [self.kindcell(x) for x in its]
                k = self.promote([z[0] for z in kc])
                items = [E.coerce(self.cast(t, q, k), SORT[k]) for q, t in kc]
                def get(idx):
                    i = simp_int(idx[0])
                    if isinstance(i, int):
                        return items[i] if 0 <= i < len(items) else items[0]
                    r = items[-1]
                    for q in reversed(range(len(items) - 1)):
                        r = E.ite(i == q, items[q], r)
                    return r
                return self.raw((len(items),), get, k)
            f = L.frozen()
            c = E.canon('i', Int)
            with E.generic(c):
                e = f.get(c)
            if isinstance(e, Sc):
                k = e.kind
                return self.normal((n,), lambda idx: f.get(idx[0]).v, k)
            if is_int(e):
                return self.normal((n,), lambda idx: f.get(idx[0]), 'i')
            if is_bool(e):
                return self.normal((n,), lambda idx: f.get(idx[0]), 'b')
            if isinstance(e, float):
                return self.normal((n,), lambda idx: E.toV(e), 'f')
            if isinstance(e, (PList, tuple)):
                # nested lists: all of one length
                if E.branch(eqint(n, 0)):
                    return self.raw((0,), lambda i: default_cell(E, kind or 'f'), kind or 'f')
                with E.generic(c):
                    sub = self.asarray(e)
                if any(sym(m) and c.get_id() in consts_in(m) for m in sub.shape):
                    raise Unsupported('ragged array')

                def cell(idx):
                    return self.cellfn(self.asarray(f.get(idx[0])))(list(idx[1:]))
                return self.normal((n,) + tuple(sub.shape), cell, sub.kind)
            raise Unsupported('array of %r' % (e,))
        if isinstance(v, PyIter):
            raise Unsupported('array from an iterator')
        if isinstance(v, Inst):
            raise Unsupported('array from an object')
        if is_u(v):
            raise Unsupported('array of a label')
        k, t = self.kindcell(v)
        return self.raw((), lambda idx: E.coerce(t, SORT[k]), k)

    def promote(self, ks):
        ks = set(ks)
        if len(ks) == 1:
            return ks.pop()
        if 'o' in ks:
            return 'o'
        if 's' in ks:
            raise Unsupported('mixture with strings')
        if 'c' in ks:
            return 'c'
        if 'f' in ks:
            return 'f'
        return 'i'

    def dim_eq(self, a, b):
        e = eqint(simp_int(a), simp_int(b))
        return e

    def broadcast(self, shapes):
        E = self.E
        nd = max(len(s) for s in shapes)
        out = []
        for k in range(nd):
            cur = 1
            for s in shapes:
                j = k - (nd - len(s))
                if j < 0:
                    continue
                d = s[j]
                if isinstance(d, int) and d == 1:
                    continue
                if isinstance(cur, int) and cur == 1:
                    cur = d
                    continue
                if E.branch(self.dim_eq(cur, d)):
                    continue
                if E.branch(eqint(d, 1)):
                    continue
                if E.branch(eqint(cur, 1)):
                    cur = d
                    continue
                raise PyRaise(ValueError, 'operands could not be broadcast')
            out.append(cur)
        return tuple(out)

    def bcell(self, a, shape):
        "cell function of a broadcast to shape"
        f = self.cellfn(a)
        off = len(shape) - len(a.shape)
        sh = a.shape
        pick = []
        for j, d in enumerate(sh):
            t = shape[off + j]
            if isinstance(d, int) and d == 1:
                pick.append(None if not (isinstance(t, int) and t == 1) else j)
            elif eqint(d, t) is True:
                pick.append(j)
            else:
                # decided while broadcasting
                pick.append(j if self.E.branch(eqint(d, t)) else None)

        def cell(idx):
            return f([idx[off + j] if pick[j] is not None else 0 for j in range(len(sh))])
        return cell

    def binary(self, op, a, b):
        E = self.E
        arr = isinstance(a, Arr) or isinstance(b, Arr)
        if op in ('logical_and_bits', 'logical_or_bits', 'xor'):
            ka = a.kind if isinstance(a, Arr) else self.kindcell(a)[0]
            kb = b.kind if isinstance(b, Arr) else self.kindcell(b)[0]
            if ka == 'b' and kb == 'b':
                op = {'logical_and_bits': 'logical_and', 'logical_or_bits': 'logical_or', 'xor': 'ne'}[op]
            elif 'f' in (ka, kb):
                raise PyRaise(TypeError, 'ufunc not supported')
            else:
                raise Unsupported('bitwise operation')
        if not arr:
            if isinstance(a, (PList, tuple)) or isinstance(b, (PList, tuple)):
                raise Unsupported('scalar with list')
            ka, ta = self.kindcell(a)
            kb, tb = self.kindcell(b)
            self.check_kinds(op, ka, kb)
            return self.value(self.result_kind(op, ka, kb), self.cellop(op, ta, tb))
        for z in (a, b):
            if isinstance(z, (PDict, PSet)) or z is NotImplemented:
                if op in ('eq', 'ne'):
                    return op == 'ne'
                raise PyRaise(TypeError, 'ufunc operand')
            if z is None:
                raise PyRaise(TypeError, 'ufunc operand None')
        a, b = self.asarray(a), self.asarray(b)
        sh = self.broadcast([a.shape, b.shape])
        self.check_kinds(op, a.kind, b.kind)
        fa, fb = self.bcell(a, sh), self.bcell(b, sh)
        k = self.result_kind(op, a.kind, b.kind)
        r = self.normal(sh, lambda i: self.cellop(op, fa(i), fb(i)), k)
        if not sh:
            return self.cellvalue(r, [])
        return r

    def check_kinds(self, op, ka, kb):
        op = UFN.get(op, op)
        num = 'fibc'
        if op in ('eq', 'ne') or op in CMP:
            if (ka == 's') != (kb == 's') and 'o' not in (ka, kb):
                raise Unsupported('comparison of strings and numbers')
            return
        if ka in num and kb in num:
            return
        if 's' in (ka, kb):
            raise PyRaise(TypeError, 'ufunc on strings')
        raise Unsupported('arithmetic on objects')

    def result_kind(self, op, ka, kb):
        op = UFN.get(op, op)
        if op in CMP or op in ('logical_and', 'logical_or'):
            return 'b'
        k = self.promote([ka, kb])
        if op == 'truediv' and k in 'bi':
            return 'f'
        if k == 'b' and op in ('div', 'floordiv', 'power'):
            return 'i'
        return k

    def unary(self, op, a, out=None):
        E, I = self.E, self.I
        op = UF1N.get(op, op)
        if isinstance(a, Inst):
            raise Unsupported('ufunc of an object')
        if not isinstance(a, Arr):
            if isinstance(a, (PList, tuple)):
                a = self.asarray(a)
            else:
                k, t = self.kindcell(a)
                self.check_un(op, k)
                return self.value(self.un_kind(op, k), self.cellun(op, t))
        self.check_un(op, a.kind)
        f = self.cellfn(a)
        k = self.un_kind(op, a.kind)
        r = self.normal(a.shape, lambda i: self.cellun(op, f(i)), k)
        if out is not None:
            self.assign_whole(out, r)
            return out
        if not a.shape:
            return self.cellvalue(r, [])
        return r

    def check_un(self, op, k):
        if k in 'so':
            if op in ('isnan', 'isfinite', 'isinf') or k == 's':
                raise PyRaise(TypeError, 'ufunc %s not supported' % op)
            raise Unsupported('ufunc %s on objects' % op)
        if op == 'invert' and k == 'f':
            raise PyRaise(TypeError, 'invert of float')

    def un_kind(self, op, k):
        if op in ('isnan', 'isfinite', 'isinf', 'logical_not'):
            return 'b'
        if op in ('log', 'exp', 'sqrt'):
            return 'f' if k != 'c' else 'c'
        if op == 'sign' and k == 'b':
            raise PyRaise(TypeError, 'sign of bool')
        return k

    def truth(self, a):
        n = size_of(a.shape)
        if isinstance(n, int) and n == 1:
            return self.truthcell(self.cell(a, [0] * len(a.shape)))
        if isinstance(n, int) and n == 0:
            return False
        one = And(*[eqint(z, 1) for z in a.shape])
        if self.E.branch(one):
            return self.truthcell(self.cell(a, [0] * len(a.shape)))
        if isinstance(n, int) or not self.E.branch(Or(*[eqint(z, 0) for z in a.shape])):
            raise PyRaise(ValueError, 'truth value of an array')
        return False

    def sctruth(self, s):
        return self.truthcell(s.v)

    # ------------------------------------------------------------------ stores
    def store(self, a, cond, val):
        """a's buffer: cells whose view index satisfies cond get val.
        cond(idx) -> Bool, val(idx) -> cell of the buffer's sort."""
        E = self.E
        if a.ro:
            raise Unsupported('store through a strided window')
        buf = a.buf
        nd = len(buf.shape)

        def new(old):
            def cell(b):
                if a.imap is None:
                    c, idx = True, b
                else:
                    c, idx = a.imap(b)
                c = And(c, cond(idx))
                if c is False:
                    return old(b)
                return E.ite(c, val(idx), old(b))
            return cell
        for lc in reversed(E.loops):
            if buf.stamp < lc.stamp:
                bs = [z3.Int('#b%d' % k) for k in range(nd)]
                if a.imap is None:
                    c, idx = True, bs
                else:
                    c, idx = a.imap(bs)
                c = And(c, cond(idx))
                lc.record(buf, 'arrstore', (to_bool(c), E.coerce(val(idx), SORT[buf.kind])))
                return
        buf.read()
        E.may_change(buf)
        r = self.normal(buf.shape, new(buf.fn), buf.kind)
        buf.fn = r.buf.fn

    def apply_store(self, buf, does, always, cond, n, c):
        E = self.E
        nd = len(buf.shape)
        bs = [z3.Int('#b%d' % k) for k in range(nd)]
        W = Or(*[And(cd, a[0]) for cd, a in does])
        with E.generic(c):
            val = E.ite_chain([(And(cd, a[0]), a[1]) for cd, a in does])
        # the iteration that wrote cell b, as a term over b: W must imply c == h(b)
        cands = [bs[k] for k in range(nd)]
        for atom in eq_atoms(W):
            d = atom.arg(0) - atom.arg(1)
            at0 = z3.simplify(z3.substitute(d, (c, z3.IntVal(0))))
            coef = z3.simplify(z3.substitute(d, (c, z3.IntVal(1))) - at0)
            if not z3.is_int_value(coef) or abs(coef.as_long()) != 1:
                continue
            h = simp_int(-at0 if coef.as_long() == 1 else at0)
            if sym(h) and c.get_id() not in consts_in(h) and any(q.get_id() in consts_in(h) for q in bs):
                cands.append(h)
        # ... or, where the loop runs over the members of a set, the position of a member named by b
        for e, t in enum_atoms(W, c):
            for k, hit in E.memo.items():
                if isinstance(k, tuple) and k[0] == 'enum' and getattr(hit[1], 'decl', None) is not None and hit[1].decl.eq(e.decl()):
                    cands.append(hit[2](t))
        for h in cands:
            E.solver.push()
            try:
                r = E.check(W, c != h)
            finally:
                E.solver.pop()
            if r == z3.unsat:
                old = buf.fn

                def fn(b):
                    hb = z3.substitute(h, *[(bs[j], E.coerce(b[j], Int)) for j in range(nd)])
                    m = [(c, hb)] + [(bs[j], E.coerce(b[j], Int)) for j in range(nd)]
                    w = And(inrange(hb, n), z3.substitute(to_bool(W), *m))
                    return E.ite(w, z3.substitute(val, *m), old(b))
                buf.fn = self.normal(buf.shape, fn, buf.kind).buf.fn
                return
        raise Unsupported('array store in a loop not indexed by the loop variable')

    def havoc(self, buf):
        if isinstance(buf, Buf):
            f = self.E.fn('havoc', [Int] * len(buf.shape), SORT[buf.kind])
            buf.fn = lambda b: f(*b)
            return
        raise Unsupported('havoc')

    def conv(self, v, kind, shape):
        "cell function of v assigned to an array of the given kind and shape"
        E, I = self.E, self.I
        if isinstance(v, Inst):
            raise Unsupported('assignment of an object')
        if isinstance(v, (PList, tuple, Arr)):
            if kind == 'o' and not isinstance(v, Arr):
                raise Unsupported('list into object array')
            v = self.asarray(v)
            while len(v.shape) > len(shape) and isinstance(v.shape[0], int) and v.shape[0] == 1:
                w, f = v, self.cellfn(v)
                v = self.raw(w.shape[1:], lambda i, f=f: f([0] + i), w.kind)
            if len(v.shape) > len(shape):
                raise PyRaise(ValueError, 'could not broadcast')
            off = len(shape) - len(v.shape)
            for j, d in enumerate(v.shape):
                if isinstance(d, int) and d == 1:
                    continue
                if E.branch(self.dim_eq(d, shape[off + j])):
                    continue
                if E.branch(eqint(d, 1)):
                    continue
                raise PyRaise(ValueError, 'could not broadcast')
            f = self.bcell(v, shape)
            k = v.kind
        else:
            k, t = self.kindcell(v)
            f = lambda idx: t
        if k == kind:
            return lambda idx: E.coerce(f(idx), SORT[kind])
        if kind in 'fic' and k in 's' and not (kind == 'f' and E.numeric_text):
            raise PyRaise(ValueError, 'could not convert string')
        if kind == 'i' and k == 'f' and not isinstance(v, Arr):
            # int(nan) raises, other floats truncate
            if E.branch(Not(E.isfinite(t))):
                raise PyRaise(ValueError, 'cannot convert float NaN to integer')
        if kind in 'fi' and k == 'o' and not isinstance(v, Arr):
            if v is None:
                if kind == 'f':
                    return lambda idx: E.NAN          # float(None) -> nan in NumPy 1.8
                raise PyRaise(TypeError, 'int of None')
        if kind == 's' and k in 'fib':
            return lambda idx: z3.Function('v_tostr', V, V)(E.toV(f(idx)))
        return lambda idx: E.coerce(self.cast(f(idx), k, kind), SORT[kind])

    def assign_whole(self, a, v):
        f = self.conv(v, a.kind, a.shape)
        self.store(a, lambda idx: True, f)

    def putmask(self, a, mask, values):
        E = self.E
        mask = self.asarray(mask)
        if len(mask.shape) != len(a.shape) or not all(E.branch(self.dim_eq(p, q)) for p, q in zip(a.shape, mask.shape)):
            if E.branch(eqint(size_of_term(a.shape), size_of_term(mask.shape))):
                raise Unsupported('putmask with another shape')
            raise PyRaise(ValueError, 'putmask: mask and data must be the same size')
        m = self.cellfn(mask)
        if isinstance(values, (PList, tuple, Arr)):
            v = self.asarray(values)
            if len(v.shape) == len(a.shape) and all(eqint(p, q) is True or E.branch(self.dim_eq(p, q)) for p, q in zip(v.shape, a.shape)):
                pass
            elif len(v.shape) == 0:
                pass
            else:
                raise Unsupported('putmask with repeated values')
            f = self.conv(v, a.kind, a.shape)
        else:
            f = self.conv(values, a.kind, a.shape)
        self.store(a, lambda idx: self.truthcell(m(idx)), f)

    # ---------------------------------------------------------------- indexing
    def basic(self, a, items):
        "view selected by ints, slices and newaxis"
        E, I = self.E, self.I
        shape, parts = [], []       # parts: per source axis ('int', j) or ('sl', viewaxis, start, step)
        ax = 0
        for it in items:
            if it is None:
                shape.append(1)
                continue
            n = a.shape[ax]
            if isinstance(it, slice):
                s, st, ln = I.slice_indices(it, n)
                parts.append(('sl', len(shape), s, st, ln))
                shape.append(ln)
            else:
                j, ok = I.norm_index(it, n)
                if not E.branch(ok):
                    raise PyRaise(IndexError, 'index out of bounds')
                parts.append(('int', simp_int(j)))
            ax += 1
        nv = len(shape)

        def fwd(idx):
            out = []
            for p in parts:
                if p[0] == 'int':
                    out.append(p[1])
                else:
                    i = idx[p[1]]
                    s, st = p[2], p[3]
                    out.append(i if (isinstance(s, int) and s == 0 and st == 1) else simp_int(s + i * st))
            return out

        def inv(src):
            idx = [0] * nv
            cond = True
            for p, b in zip(parts, src):
                if p[0] == 'int':
                    cond = And(cond, eqint(b, p[1]))
                else:
                    s, st, ln = p[2:]
                    d = b if (isinstance(s, int) and s == 0) else b - s
                    if st == 1:
                        i = d
                    elif st == -1:
                        i = -d
                    else:
                        i = floordiv(d, st)
                        cond = And(cond, eqint(simp_int(i * st), d))
                    if not (isinstance(s, int) and s == 0 and st == 1 and ln is a.shape[parts.index(p)]):
                        cond = And(cond, inrange(i, ln))
                    idx[p[1]] = i
            return cond, idx
        return self.compose(a, shape, fwd, inv)

    def compose(self, a, shape, fwd, inv):
        v0, i0 = a.vmap, a.imap
        vmap = fwd if v0 is None else (lambda idx: v0(fwd(idx)))
        if i0 is None:
            imap = inv
        else:
            def imap(b):
                c, idx = i0(b)
                d, idx2 = inv(idx)
                return And(c, d), idx2
        return Arr(a.kind, shape, a.buf, vmap, imap, a.name, a.ro)

    def split_key(self, a, key):
        I = self.I
        if isinstance(key, PList) and key.items is not None and not key.tup and any(
                isinstance(z, (slice, PList, tuple, Arr)) or z is None or z is Ellipsis for z in key.items):
            key = tuple(key.items)
        if isinstance(key, PList) and key.tup:
            if key.items is None:
                raise Unsupported('tuple index of unknown length')
            key = tuple(key.items)
        items = list(key) if isinstance(key, tuple) else [key]
        for z in items:
            if isinstance(z, (str, PDict, PSet, Inst)):
                if isinstance(z, Inst):
                    raise Unsupported('index by an object')
                raise PyRaise(IndexError, 'invalid index')
            if isinstance(z, Poison):
                raise Unsupported(z.why)
        # expand a full-dimensional mask later
        cnt = 0
        for z in items:
            if z is None or z is Ellipsis:
                continue
            cnt += len(z.shape) if isinstance(z, Arr) and z.kind == 'b' and z.shape else 1
        if any(z is Ellipsis for z in items):
            k = [q for q, z in enumerate(items) if z is Ellipsis][0]
            items[k:k + 1] = [slice(None)] * (len(a.shape) - cnt)
        else:
            items += [slice(None)] * (len(a.shape) - cnt)
        if cnt > len(a.shape):
            raise PyRaise(IndexError, 'too many indices')
        return items

    def is_adv(self, z):
        return isinstance(z, (PList, tuple)) or (isinstance(z, Arr) and (len(z.shape) > 0))

    def getitem(self, a, key, trusted=False):
        E, I = self.E, self.I
        if trusted and len(a.shape) == 1:
            return self.cellvalue(a, [key])
        items = self.split_key(a, key)
        if not any(self.is_adv(z) for z in items):
            v = self.basic(a, [I.as_int(z) if not (z is None or isinstance(z, slice)) else z for z in items])
            if not v.shape:
                return self.cellvalue(v, [])
            return v
        mk = self.one_mask(a, items)
        f = self.cellfn(a)
        if mk and len(mk[0].shape) > 1:
            # selection under an N-d mask: how many cells and in which order is left open
            n = E.const('masked', Int)
            E.assume(n >= 0)
            g = E.fn('masked', [Int], SORT[a.kind])
            r = self.raw((n,), lambda idx: g(idx[0]), a.kind)
        else:
            shape, src = self.advanced(a, items)
            r = self.normal(shape, lambda idx: f(src(idx)), a.kind, a.name)
        if mk and isinstance(r, Arr):
            # remember what was selected, so that a store under the same mask is cell by cell
            m, full = mk[:2]
            r.buf.masked = (m.shape, self.cellfn(m), lambda mi: f(full(mi)), r.buf.fn)
        return r

    def one_mask(self, a, items):
        """a[mask, i, ...] with one boolean mask of the matching shape and otherwise only
        integers: (mask, mask index -> index into a)"""
        E, I = self.E, self.I
        ms = [z for z in items if isinstance(z, Arr) and z.kind == 'b' and z.shape]
        if len(ms) != 1 or any(z is None or isinstance(z, slice) or (self.is_adv(z) and z is not ms[0]) for z in items):
            return None
        m = ms[0]
        ax, plan = 0, []
        for z in items:
            if z is m:
                if not all(self.dim_eq(p, q) is True or E.known(self.dim_eq(p, q)) for p, q in zip(m.shape, a.shape[ax:])):
                    return None
                plan.append(None)
                ax += len(m.shape)
                continue
            t, n = I.as_int(z), a.shape[ax]
            if not E.branch(And(le(-n, t), lt(t, n))):
                raise PyRaise(IndexError, 'index out of bounds')
            plan.append(self.wrap(t, n, E.known(le(0, t))))
            ax += 1

        def full(mi):
            out = []
            for t in plan:
                if t is None:
                    out += list(mi)
                else:
                    out.append(t)
            return out
        return m, full, plan

    def index_array(self, z, n):
        """An advanced index as (array of ints, known in range) for an axis of length n."""
        E, I = self.E, self.I
        if not isinstance(z, Arr):
            L = I.seq(z)
            if L.items is not None and any(isinstance(q, bool) or is_bool(q) for q in L.items):
                raise Unsupported('list of bools as an index')
            if L.items == []:
                return self.raw((0,), lambda i: z3.IntVal(0), 'i')
            z = self.asarray(z)
            if L.items is None and L.posf is not None and L.uniqf:
                z.buf.src, z.buf.srcfn = L.frozen(), z.buf.fn
        if z.kind == 'b':
            return self.nonzero1(z)
        if z.kind == 'f' and len(z.shape) == 1 and isinstance(z.shape[0], int) and z.shape[0] == 0:
            return self.raw((0,), lambda i: z3.IntVal(0), 'i')
        if z.kind != 'i':
            raise PyRaise(IndexError, 'arrays used as indices must be of integer type')
        return z

    def nonzero1(self, m):
        E = self.E
        f = self.cellfn(m)
        L = E.filter_list(m.shape[0], lambda i: self.truthcell(f([i])))
        r = self.raw((L.length(),), lambda idx: E.coerce(L.get(idx[0]), Int), 'i')
        if L.posf is not None:
            r.buf.src, r.buf.srcfn = L, r.buf.fn
        return r

    def inbounds(self, z, n):
        "Bool: every entry of the index array is a valid index"
        f = self.cellfn(z)

        def rec(k, idx):
            if k == len(z.shape):
                v = f(idx)
                return And(-n <= v if sym(n) or sym(v) else -n <= v, lt(v, n))
            return self.E.forall_range(z.shape[k], lambda i: rec(k + 1, idx + [i]))
        return rec(0, [])

    def all_nonneg(self, m):
        "is every entry of the index array known to be non-negative?"
        E = self.E
        f = self.cellfn(m)
        sk = [E.const('nn', Int) for _ in m.shape]
        r = []

        def run():
            v = simp_int(f(list(sk)))
            if isinstance(v, int):
                r.append(v >= 0)
                return
            r.append(E.check(And(*[inrange(k, d) for k, d in zip(sk, m.shape)]), v < 0) == z3.unsat)
        E.sub(run)
        return bool(r) and all(r)

    def listed(self, m, n, nonneg):
        "(member?, last position) of a 1-d index array known to be a duplicate-free list"
        L = getattr(m.buf, 'src', None)
        if L is None or m.vmap is not None or m.buf.fn is not m.buf.srcfn or not nonneg or not L.uniqf or L.posf is None:
            return None
        return L.memf, L.posf

    def listed_ix(self, m, nonneg):
        "the same for one argument of np.ix_"
        L = getattr(m, 'ixsrc', None)
        if L is None or not nonneg or not L.uniqf or L.posf is None:
            return None
        return L.memf, L.posf

    def wrap(self, v, n, nonneg=False):
        v = simp_int(v)
        if nonneg:
            return v
        if isinstance(v, int):
            return v if v >= 0 else simp_int(v + n)
        return z3.If(v < 0, v + n, v)

    def advanced(self, a, items):
        E, I = self.E, self.I
        # a mask over all axes
        adv, plan, ax = [], [], 0
        for z in items:
            if z is None:
                plan.append(('new',))
                continue
            n = a.shape[ax]
            if isinstance(z, slice):
                plan.append(('sl',) + tuple(I.slice_indices(z, n)))
                ax += 1
                continue
            if isinstance(z, Arr) and z.kind == 'b' and len(z.shape) > 1:
                raise Unsupported('multi-dimensional mask')
            if self.is_adv(z):
                m = self.index_array(z, n)
            else:
                t = I.as_int(z)
                m = self.raw((), lambda idx, t=t: E.coerce(t, Int), 'i')
            if not (isinstance(z, Arr) and z.kind == 'b' and eqint(z.shape[0], n) is True):
                if not E.branch(self.inbounds(m, n)):
                    raise PyRaise(IndexError, 'index out of bounds')
            plan.append(('adv', len(adv), n, self.all_nonneg(m)))
            adv.append(m)
            ax += 1
        bsh = self.broadcast([m.shape for m in adv])
        fs = [self.bcell(m, bsh) for m in adv]
        pos = [k for k, p in enumerate(plan) if p[0] == 'adv']
        together = pos[-1] - pos[0] == len(pos) - 1
        shape, where = [], {}
        nb = len(bsh)
        if not together:
            boff = 0
            shape += list(bsh)
        for k, p in enumerate(plan):
            if p[0] == 'adv':
                if together and k == pos[0]:
                    boff = len(shape)
                    shape += list(bsh)
                continue
            where[k] = len(shape)
            shape.append(1 if p[0] == 'new' else p[3])

        def src(idx):
            out = []
            b = [idx[boff + q] for q in range(nb)]
            for k, p in enumerate(plan):
                if p[0] == 'sl':
                    i = idx[where[k]]
                    out.append(i if (isinstance(p[1], int) and p[1] == 0 and p[2] == 1) else simp_int(p[1] + i * p[2]))
                elif p[0] == 'adv':
                    out.append(self.wrap(fs[p[1]](b), p[2], p[3]))
            return out
        self.last_plan = (plan, adv, fs, bsh, boff, where)
        return shape, src

    def setitem(self, a, key, v):
        E, I = self.E, self.I
        if isinstance(key, Arr) and key.kind == 'b' and len(key.shape) == len(a.shape) and (len(a.shape) > 1 or not isinstance(v, (PList, tuple, Arr))) and not (isinstance(v, Arr) and getattr(v.buf, 'masked', None)):
            if not all(E.branch(self.dim_eq(p, q)) for p, q in zip(a.shape, key.shape)):
                raise Unsupported('mask of another shape')
            if isinstance(v, (PList, tuple, Arr)) and not (isinstance(v, Arr) and not v.shape):
                raise Unsupported('mask assignment of an array')
            m = self.cellfn(key)
            f = self.conv(v, a.kind, ())
            self.store(a, lambda idx: self.truthcell(m(idx)), lambda idx: f([]))
            return
        items = self.split_key(a, key)
        if not any(self.is_adv(z) for z in items):
            w = self.basic(a, [I.as_int(z) if not (z is None or isinstance(z, slice)) else z for z in items])
            self.assign_whole(w, v)
            return
        mk = self.one_mask(a, items)
        if mk:
            m, full, mplan = mk
            mf = self.cellfn(m)
            val = None
            if not isinstance(v, (PList, tuple, Arr)) or isinstance(v, Arr) and not v.shape:
                g = self.conv(v, a.kind, ())
                val = lambda mi: g([])
            elif isinstance(v, Arr) and getattr(v.buf, 'masked', None) and v.vmap is None and v.buf.masked[3] is v.buf.fn and v.kind == a.kind:
                ks = [z3.Int('#mk%d' % q) for q in range(len(m.shape))]
                if len(v.buf.masked[0]) == len(m.shape) and z3.simplify(to_bool(self.truthcell(v.buf.masked[1](ks)))).eq(z3.simplify(to_bool(self.truthcell(mf(ks))))):
                    val = v.buf.masked[2]
            if val is not None:
                def split(idx):
                    cond, mi, ax = True, [], 0
                    for t in mplan:
                        if t is None:
                            mi = list(idx[ax:ax + len(m.shape)])
                            ax += len(m.shape)
                        else:
                            cond = And(cond, eqint(idx[ax], t))
                            ax += 1
                    return cond, mi
                self.store(a, lambda idx: And(split(idx)[0], self.truthcell(mf(split(idx)[1]))), lambda idx: val(split(idx)[1]))
                return
        shape, src = self.advanced(a, items)
        plan, adv, fs, bsh, boff, where = self.last_plan
        val = self.conv(v, a.kind, tuple(shape))
        # inverse: the last broadcast index that hits the cell
        if len(adv) == 1 and len(bsh) == 1:
            n, nn = [p for p in plan if p[0] == 'adv'][0][2:4]
            L = PList(E, n=bsh[0], fn=lambda i: self.wrap(fs[0]([i]), n, nn)) if not isinstance(bsh[0], int) or bsh[0] > 16 else \
                PList(E, items=[self.wrap(fs[0]([z3.IntVal(i)]), n, nn) for i in range(bsh[0])])
            known = self.listed(adv[0], n, nn)
            if known:
                hit1 = lambda b: (known[0](b), [known[1](b)])
            elif L.items is not None:
                its = L.items
                hit1 = lambda b: (Or(*[eqint(z, b) for z in its]), [last_pos(E, its, b)])
            else:
                mem, last = E.skolem_index(L, first=False)
                hit1 = lambda b: (mem(b), [last(b)])
            hits = lambda bs: hit1(bs[0])
        elif all(len(m.shape) <= len(bsh) for m in adv) and self.is_ix(adv, bsh):
            parts = []
            k = 0
            for p in [p for p in plan if p[0] == 'adv']:
                m, n, nn = adv[p[1]], p[2], p[3]
                ln = m.shape[p[1]] if len(m.shape) == len(bsh) else m.shape[0]
                f = self.cellfn(m)
                q = p[1]
                L = PList(E, n=ln, fn=lambda i, f=f, q=q, n=n, m=m, nn=nn: self.wrap(f([i if j == q else 0 for j in range(len(m.shape))]), n, nn))
                known = self.listed_ix(m, nn)
                if known:
                    parts.append(known)
                elif L.items is not None:
                    parts.append((lambda b, its=L.items: Or(*[eqint(z, b) for z in its]), lambda b, its=L.items: last_pos(E, its, b)))
                else:
                    mem, last = E.skolem_index(L, first=False)
                    parts.append((mem, last))
            hits = lambda bs: (And(*[pm(b) for (pm, pl), b in zip(parts, bs)]), [pl(b) for (pm, pl), b in zip(parts, bs)])
        elif len(bsh) == 1 and all(len(m.shape) == 1 for m in adv):
            # several index arrays in parallel: the last position that names the cell
            ps = [p for p in plan if p[0] == 'adv']
            L = PList(E, n=bsh[0], fn=lambda i: tuple(self.wrap(fs[p[1]]([i]), p[2], p[3]) for p in ps))
            if L.items is not None:
                its = L.items
                same = lambda t, bs: And(*[eqint(z, b) for z, b in zip(t, bs)])
                def hits(bs):
                    r = 0
                    for q, t in enumerate(its):
                        r = E.ite(same(t, bs), q, r)
                    return Or(*[same(t, bs) for t in its]), [r]
            else:
                mem, last = E.skolem_index(L, first=False)
                hits = lambda bs: (mem(tuple(bs)), [last(tuple(bs))])
        else:
            raise Unsupported('scattered store')

        def inv(b):
            cond, ax, bs = True, 0, []
            idx = [0] * len(shape)
            for k, p in enumerate(plan):
                if p[0] == 'new':
                    continue
                if p[0] == 'sl':
                    s, st, ln = p[1:]
                    d = b[ax] - s if not (isinstance(s, int) and s == 0) else b[ax]
                    i = d if st == 1 else (-d if st == -1 else floordiv(d, st))
                    if st not in (1, -1):
                        cond = And(cond, eqint(simp_int(i * st), d))
                    cond = And(cond, inrange(i, ln))
                    idx[where[k]] = i
                else:
                    bs.append(b[ax])
                ax += 1
            c, bi = hits(bs)
            for q, z in enumerate(bi):
                idx[boff + q] = z
            return And(cond, c), idx
        w = self.compose(a, shape, None, inv)
        self.store(w, lambda idx: True, val)

    def is_ix(self, adv, bsh):
        for q, m in enumerate(adv):
            if len(m.shape) != len(bsh):
                return False
            for j, d in enumerate(m.shape):
                if j != q and not (isinstance(d, int) and d == 1):
                    return False
        return len(adv) == len(bsh)

    def inplace(self, op, a, b):
        r = self.binary(op, a, b)
        if isinstance(r, Arr):
            if len(r.shape) != len(a.shape):
                raise PyRaise(ValueError, 'non-broadcastable output')
            for p, q in zip(a.shape, r.shape):
                if not self.E.branch(self.dim_eq(p, q)):
                    raise PyRaise(ValueError, 'non-broadcastable output')
        self.assign_whole(a, r)
        return a

    def setshape(self, a, v):
        raise Unsupported('assignment to shape')

    # -------------------------------------------------------------- reductions
    def red_sort(self, name, s):
        if name in ('nanmean', 'nanmedian', 'nanstd', 'nanvar', 'mean', 'std', 'var', 'median', 'nanrank_at', 'nanprod', 'weighted'):
            return V
        if name in ('argmax', 'argmin', 'rank_at', 'argsort_at'):
            return Int
        return Int if s == Bool else s

    def red(self, name, dims, f, kw=()):
        """Term for the library statistic `name` of the cells f(k) for k within dims.
        The only thing assumed: it is a function of the sequence of cells."""
        E = self.E
        kw = dict(kw)
        if name in ('nanstd', 'nanvar', 'std', 'var'):
            kw.setdefault('ddof', 0)
        kw = tuple(sorted(kw.items()))
        dims = tuple(simp_int(d) for d in dims)
        wrap = False
        cs, mgr = [], []
        outer = list(E.generics)
        for k in range(len(dims)):
            c = E.canon('i', Int)
            cs.append(c)
            g = E.generic(c)
            g.__enter__()
            mgr.append(g)
        try:
            t = f(list(cs))
            t = t.v if isinstance(t, Sc) else t
            s = vsort(t)
            t = E.coerce(t, s)
            t = z3.simplify(t)
            if s == Bool and name == 'sum':
                t, s = z3.simplify(E.coerce(t, Int)), Int
            if s in (Int, Bool) and self.red_sort(name, s) == V:
                t, s = E.toV(E.coerce(t, Int)), V
            elif s == V and name in ('sum', 'nansum', 'nanmin', 'nanmax') and intvalued(t) is not None:
                # integers held as floats: the exact statistic of the integers, as a float
                wrap, t, s = True, z3.simplify(intvalued(t)), Int
            if name == 'sum' and not any(c.get_id() in consts_in(t) for c in cs):
                # the sum of equal integers, counted exactly
                if s == Int:
                    k = t
                    for d in dims:
                        k = k * d
                    k = z3.simplify(k)
                    return E.VI(k) if wrap else simp_int(k)
        finally:
            for g in reversed(mgr):
                g.__exit__()
        kkey = tuple((a, E.key(b)) for a, b in kw)
        key = ('red', name, kkey, tuple(E.key(d) for d in dims), E.key(t), len(outer))
        if key in E.memo:
            return E.VI(E.memo[key]) if wrap else E.memo[key]
        r = E.const('red_' + name, self.red_sort(name, s))
        E.memo[key] = r
        if name == 'sum' and s == Int and len(dims) == 1 and z3.is_app_of(t, z3.Z3_OP_ITE) and t.arg(1).eq(z3.IntVal(1)) and t.arg(2).eq(z3.IntVal(0)):
            self.count_axioms(r, dims[0], cs[0], t.arg(0))
        table = E.memo.setdefault(('reds', name, len(dims), str(s)), [])
        kwv = [b for a, b in kw]
        kwn = [a for a, b in kw]
        for (r2, dims2, cs2, t2, outer2, kw2) in table:
            if [a for a, b in kw2] != kwn:
                continue
            self.congruence(r, dims, cs, t, outer, kwv, r2, dims2, cs2, t2, outer2, [b for a, b in kw2])
        if outer:
            # two instances of the same term with different generic indices
            self.congruence(r, dims, cs, t, outer, kwv, *rename(r, dims, cs, t, outer, kwv))
        table.append((r, dims, cs, t, outer, kw))
        return E.VI(r) if wrap else r

    def count_axioms(self, r, n, c, p):
        "a count is positive if and only if something is counted"
        E = self.E
        k = z3.Int('#cn')
        E.add_axiom(r >= 0)
        w = E.const('cw', Int)
        E.add_axiom(z3.Implies(r > 0, z3.And(0 <= w, lt(w, n), z3.substitute(p, (c, w)))))
        q = z3.substitute(p, (c, k))
        pat = [z for z in subterms(q) if z.num_args() and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(k) for a in z.children()) and pattern_ok(z)][:2]
        E.add_axiom(mk_forall(E, [k], z3.Implies(z3.And(0 <= k, lt(k, n), q), r > 0), pat=pat or None))

    def congruence(self, r, dims, cs, t, outer, kwv, r2, dims2, cs2, t2, outer2, kwv2):
        E = self.E
        saved = E.generics
        # rename the second set of generics apart
        ren = [(g, z3.Const(str(g) + "'", g.sort())) for g in outer2]
        S = lambda e: z3.substitute(e, *ren) if ren and sym(e) else e
        if any(str(g).endswith("'") for g in outer2):
            ren = []
            S = lambda e: e
            g2 = list(outer2)
        else:
            g2 = [b for a, b in ren]
        r2, t2 = S(r2), S(t2)
        dims2 = [S(d) for d in dims2]
        kwv2 = [S(b) if sym(b) else b for b in kwv2]
        allg = list(outer) + g2
        E.generics = allg
        try:
            sk = [E.const('rsk', Int) for _ in cs]
            # bodies use canonical index names that may clash with generics: they are bound constants
            ta = z3.substitute(t, *[(c, k) for c, k in zip(cs, sk)]) if cs else t
            tb = z3.substitute(t2, *[(c, k) for c, k in zip(cs2, sk)]) if cs else t2
            same = []
            for x, y in zip(kwv, kwv2):
                if sym(x) or sym(y):
                    same.append(E.eq(x, y))
                elif x != y:
                    return
            hyp = And(*([eqint(a, b) for a, b in zip(dims, dims2)] + same +
                        [Or(Not(And(*[inrange(k, d) for k, d in zip(sk, dims)])), ta == tb)]))
            ax = z3.Implies(to_bool(hyp), r == r2)
            used = consts_in(ax)
            gs = [g for g in allg if g.get_id() in used]
            E.generics = []
            if gs:
                pats = [p for p in (r, r2) if z3.is_app(p) and p.num_args() > 0]
                kwp = {}
                if pats:
                    ids = set()
                    for p in pats:
                        ids |= consts_in(p)
                    if all(g.get_id() in ids for g in gs):
                        kwp['patterns'] = [z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]]
                E.axiom_raw(z3.ForAll(gs, ax, **kwp))
            else:
                E.axiom_raw(ax)
        finally:
            E.generics = saved

    def axis_norm(self, axis, nd):
        axis = self.I.as_int(axis)
        if not isinstance(axis, int):
            raise Unsupported('symbolic axis')
        ax = axis + nd if axis < 0 else axis
        if not 0 <= ax < nd:
            raise PyRaise(ValueError, 'axis out of range')
        return ax

    def reduce_(self, name, a, axis, kind=None, kw=(), cellf=None):
        "apply the statistic along an axis (or to all cells)"
        E = self.E
        f = self.cellfn(a)
        if cellf:
            g = f
            f = lambda idx: cellf(g(idx))
        if axis is None:
            if name in ('any', 'all'):
                q = E.exists_multi if name == 'any' else E.forall_multi
                return q(a.shape, lambda idx: self.truthcell(f(idx))) if a.shape else self.truthcell(f([]))
            t = self.red(name, a.shape, f, kw)
            return self.value(self.kind_of(t, a.kind), t)
        ax = self.axis_norm(axis, len(a.shape))
        n = a.shape[ax]
        shape = a.shape[:ax] + a.shape[ax + 1:]

        def cell(idx):
            g = lambda k: f(idx[:ax] + [k] + idx[ax:])
            if name == 'any':
                return E.exists_range(n, lambda k: self.truthcell(g(k)))
            if name == 'all':
                return E.forall_range(n, lambda k: self.truthcell(g(k)))
            return self.red(name, (n,), lambda k: g(k[0]), kw)
        s = self.red_sort(name, SORT[a.kind]) if name not in ('any', 'all') else Bool
        k = {V: a.kind if a.kind in 'fc' else 'f', Int: 'i', Bool: 'b'}[s]
        if kind:
            k = kind
        r = self.normal(shape, cell, k)
        if not shape:
            return self.cellvalue(r, [])
        return r

    def kind_of(self, t, k):
        s = vsort(t)
        return {V: k if k in 'fc' else 'f', Int: 'i', Bool: 'b'}[s]

    def prefix(self, name, a, axis):
        "cumsum / cumprod"
        E = self.E
        if axis is None and len(a.shape) == 1:
            axis = 0
        if axis is None:
            raise Unsupported('cumulative over all axes')
        ax = self.axis_norm(axis, len(a.shape))
        f = self.cellfn(a)
        s = Int if a.kind in 'ib' else V
        if name == 'cumsum' and len(a.shape) == 1 and a.kind == 'f' and not E.generics:
            one = E.toV(1.0)
            probe = z3.Int('#cum')
            with E.generic(probe):
                same = f([probe])
            if z3.is_expr(same) and z3.simplify(same).eq(z3.simplify(one)):
                # 1, 2, 3, ...: exact (machine arithmetic of counts is mathematical)
                return self.normal(a.shape, lambda idx: E.toV(idx[0] + 1), 'f')
        if name == 'cumsum' and a.kind == 'f':
            # multiples of one quotient of integers (real arithmetic)
            probes = [z3.Int('#cum%d' % k) for k in range(len(a.shape))]
            gens = [E.generic(c) for c in probes]
            for g in gens:
                g.__enter__()
            try:
                same = f(list(probes))
            finally:
                for g in reversed(gens):
                    g.__exit__()
            same = z3.simplify(same) if z3.is_expr(same) else same
            while z3.is_app_of(same, z3.Z3_OP_UNINTERPRETED) and same.decl().name() == 'v_mul' and any(c.eq(E.VI(z3.IntVal(1))) for c in same.children()):
                same = [c for c in same.children() if not c.eq(E.VI(z3.IntVal(1)))][0] if not all(c.eq(E.VI(z3.IntVal(1))) for c in same.children()) else E.VI(z3.IntVal(1))
            if z3.is_app_of(same, z3.Z3_OP_UNINTERPRETED) and same.decl().name() == 'V_of_real' and not any(c.get_id() in consts_in(same) for c in probes):
                self.quotientfacts()
                return self.normal(a.shape, lambda idx: same.decl()(z3.simplify(same.arg(0) * E.coerce(idx[ax] + 1, Int))), 'f')
            if z3.is_app_of(same, z3.Z3_OP_UNINTERPRETED) and same.decl().name() == 'v_div' and not any(c.get_id() in consts_in(same) for c in probes):
                u, v = same.arg(0), same.arg(1)
                if intvalued(u) is not None and intvalued(v) is not None and z3.is_int_value(z3.simplify(intvalued(v))):
                    num, den = intvalued(u), z3.simplify(intvalued(v)).as_long()
                    if den > 0:
                        self.quotientfacts()
                        return self.normal(a.shape, lambda idx: self.cellop('div', E.VI(num * (idx[ax] + 1)), E.VI(z3.IntVal(den))), 'f')
        return self.normal(a.shape, lambda idx: self.red(name, (idx[ax] + 1,), lambda k: f(idx[:ax] + [k[0]] + idx[ax + 1:])), 'i' if s == Int else a.kind)

    # ----------------------------------------------------------------- methods
    def getattr_(self, o, name):
        E, I = self.E, self.I
        if isinstance(o, DType):
            if name == 'type':
                return self.sctype(o.kind)
            if name == 'kind':
                return {'f': 'f', 'i': 'i', 'b': 'b', 's': 'S', 'o': 'O', 'c': 'c'}[o.kind]
            if name == 'char' and o.name == DEFNAME.get(o.kind) and o.kind in CHARS:
                return CHARS[o.kind]
            if name in ('char', 'str', 'name', 'itemsize', 'num'):
                raise Unsupported('dtype.' + name)
            raise PyRaise(AttributeError, name)
        if isinstance(o, NpType):
            if name == '__name__':
                return o.name
            raise Unsupported('attribute %s of a type' % name)
        if isinstance(o, Builtin):
            if name == '__name__':
                return o.name
            if name == 'reduce':
                raise Unsupported('ufunc.reduce')
            raise PyRaise(AttributeError, name)
        if not isinstance(o, Arr):
            k, t = self.kindcell(o)
            if k == 'o':
                raise Unsupported('attribute of an object cell')
            o = self.raw((), lambda idx: E.coerce(t, SORT[k]), k)
        if name == 'shape':
            return o.shape
        if name == 'ndim':
            return len(o.shape)
        if name == 'size':
            return size_of(o.shape)
        if name == 'dtype':
            return self.dts[o.kind]
        if name == 'T':
            return self.transpose(o, None)
        if name == 'x' or name == 'label':
            raise PyRaise(AttributeError, name)
        if name == 'flat' and len(o.shape) == 1:
            return o
        if name == 'flat' and sum(not (isinstance(n, int) and n == 1) for n in o.shape) == 1:
            return self.m_reshape(o, [n for n in o.shape if not (isinstance(n, int) and n == 1)][0])
        if name == 'flat':      # read only
            r = self.m_flatten(o)
            r.ro = True
            return r
        if name == 'data' or name == 'base' or name == 'flags' or name == 'itemsize' or name == 'nbytes':
            raise Unsupported('ndarray.' + name)
        if name == 'strides':
            if o.ro:
                raise Unsupported('strides of a window')
            return tuple(Stride(k, 1) for k in range(len(o.shape)))
        if name in ('__neg__', '__abs__', '__invert__'):
            return Builtin(name, lambda: self.unary({'__neg__': 'neg', '__abs__': 'absolute', '__invert__': 'invert'}[name], o))
        sp = {'__add__': 'add', '__sub__': 'sub', '__mul__': 'mul', '__div__': 'div', '__eq__': 'eq', '__ne__': 'ne', '__lt__': 'lt',
              '__le__': 'le', '__gt__': 'gt', '__ge__': 'ge', '__floordiv__': 'floordiv', '__truediv__': 'truediv'}
        if name in sp:
            return Builtin(name, lambda b: self.binary(sp[name], o, b))
        m = getattr(self, 'm_' + name, None)
        if m is None:
            if name in NDATTRS:
                raise Unsupported('ndarray.' + name)
            raise PyRaise(AttributeError, name)
        return Builtin(name, lambda *a, **k: m(o, *a, **k))

    def m_copy(self, a, order='C'):
        return self.copy(a)

    def m_astype(self, a, dt, order='K'):
        k = self.kind_of_dtype(dt)
        if k == a.kind:
            return self.copy(a)
        E = self.E
        f = self.cellfn(a)
        if a.kind == 'o' and k in 'fi' or a.kind == 's' and k in 'fi' or k == 's':
            g = z3.Function('v_conv_%s%s' % (a.kind, k), SORT[a.kind], SORT[k])
            E.memo['may_raise_conv'] = True
            return self.normal(a.shape, lambda i: g(f(i)), k)
        return self.normal(a.shape, lambda i: self.cast(f(i), a.kind, k), k)

    def m_take(self, a, indices, axis=None, out=None, mode='raise'):
        E, I = self.E, self.I
        if mode != 'raise' or out is not None:
            raise Unsupported('take with a mode')
        if axis is None:
            if len(a.shape) != 1:
                raise Unsupported('take from the flattened array')
            axis = 0
        ax = self.axis_norm(axis, len(a.shape))
        if isinstance(indices, (PList, tuple)):
            L = I.seq(indices)
            if L.items == []:
                idx = self.raw((0,), lambda i: z3.IntVal(0), 'i')
            else:
                idx = self.asarray(indices)
        else:
            idx = self.asarray(indices)
        if idx.kind == 'b':
            g = self.cellfn(idx)
            idx = self.raw(idx.shape, lambda i, g=g: E.coerce(g(i), Int), 'i')
        if idx.kind != 'i':
            raise PyRaise(TypeError, 'take needs integers')
        n = a.shape[ax]
        if not E.branch(self.inbounds(idx, n)):
            raise PyRaise(IndexError, 'index out of bounds')
        f, g = self.cellfn(a), self.cellfn(idx)
        k = len(idx.shape)
        shape = a.shape[:ax] + idx.shape + a.shape[ax + 1:]
        return self.normal(shape, lambda i: f(i[:ax] + [self.wrap(g(i[ax:ax + k]), n)] + i[ax + k:]), a.kind, a.name)

    def m_fill(self, a, v):
        f = self.conv(v, a.kind, ())
        self.store(a, lambda idx: True, lambda idx: f([]))

    def m_any(self, a, axis=None, out=None):
        return self.reduce_('any', a, axis)

    def m_all(self, a, axis=None, out=None):
        return self.reduce_('all', a, axis)

    def m_sum(self, a, axis=None, dtype=None):
        return self.reduce_('sum', a, axis)

    def m_prod(self, a, axis=None, dtype=None):
        return self.reduce_('prod', a, axis)

    def need_nonempty(self, a, axis):
        ax = range(len(a.shape)) if axis is None else [self.axis_norm(axis, len(a.shape))]
        if self.E.branch(Or(*[eqint(a.shape[k], 0) for k in ax])):
            raise PyRaise(ValueError, 'reduction of an empty array')

    def m_max(self, a, axis=None):
        self.need_nonempty(a, axis)
        return self.reduce_('max', a, axis)

    def m_min(self, a, axis=None):
        self.need_nonempty(a, axis)
        return self.reduce_('min', a, axis)

    def m_mean(self, a, axis=None):
        return self.reduce_('mean', a, axis)

    def m_std(self, a, axis=None, ddof=0):
        return self.reduce_('std', a, axis, kw=[('ddof', ddof)])

    def m_cumsum(self, a, axis=None):
        return self.prefix('cumsum', a, axis)

    def m_cumprod(self, a, axis=None):
        return self.prefix('cumprod', a, axis)

    def m_clip(self, a, lo, hi, out=None):
        E = self.E
        if not isinstance(lo, (int, float, Sc)) and not is_int(lo) or isinstance(lo, bool):
            raise Unsupported('clip limits')
        kl, tl = self.kindcell(lo)
        kh, th = self.kindcell(hi)
        f = self.cellfn(a)
        if a.kind == 'i' and kl == 'i' and kh == 'i':
            r = self.normal(a.shape, lambda i: z3.If(f(i) < tl, E.coerce(tl, Int), z3.If(f(i) > th, E.coerce(th, Int), f(i))), 'i')
        elif a.kind == 'f':
            g = lambda v: self.cellop('minimum', self.cellop('maximum', v, tl), th)
            r = self.normal(a.shape, lambda i: g(f(i)), 'f')
        else:
            raise Unsupported('clip of mixed kinds')
        if out is None:
            return r
        self.assign_whole(out, r)
        return out

    def clipcell(self, v, lo, hi):
        return z3.Function('v_clip', V, V, V, V)(v, self.tofloatcell(lo), self.tofloatcell(hi))

    def m_tolist(self, a):
        E = self.E
        f = self.cellfn(a)

        def build(k, idx):
            if k == len(a.shape):
                return self.value(a.kind, f(idx))
            n = a.shape[k]
            if isinstance(n, int):
                return PList(E, items=[build(k + 1, idx + [i]) for i in range(n)])
            return PList(E, n=n, fn=lambda i: build(k + 1, idx + [i]))
        return build(0, [])

    def m_item(self, a, *args):
        if args:
            raise Unsupported('item with an index')
        return self.cellvalue(a, [0] * len(a.shape))

    def perm(self, a, p):
        shape = [a.shape[k] for k in p]
        inv = [p.index(k) for k in range(len(p))]
        return self.compose(a, shape, lambda idx: [idx[inv[k]] for k in range(len(p))], lambda b: (True, [b[k] for k in p]))

    def transpose(self, a, axes):
        nd = len(a.shape)
        p = list(range(nd))[::-1] if axes is None else [self.axis_norm(z, nd) for z in axes]
        if sorted(p) != list(range(nd)):
            raise PyRaise(ValueError, 'axes')
        return self.perm(a, p)

    def m_transpose(self, a, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, PList))):
            axes = axes[0] if axes[0] is None else self.I.seq(axes[0]).items
        elif not axes:
            axes = None
        return self.transpose(a, axes)

    def m_swapaxes(self, a, p, q):
        nd = len(a.shape)
        p, q = self.axis_norm(p, nd), self.axis_norm(q, nd)
        r = list(range(nd))
        r[p], r[q] = r[q], r[p]
        return self.perm(a, r)

    def rollaxis(self, a, axis, start=0):
        nd = len(a.shape)
        axis = self.axis_norm(axis, nd)
        start = self.I.as_int(start)
        if start < 0:
            start += nd
        if not 0 <= start <= nd:
            raise PyRaise(ValueError, 'rollaxis')
        if axis < start:
            start -= 1
        p = list(range(nd))
        p.remove(axis)
        p.insert(start, axis)
        return self.perm(a, p)

    def m_squeeze(self, a, axis=None):
        if axis is not None:
            raise Unsupported('squeeze with an axis')
        E = self.E
        keep = [k for k, n in enumerate(a.shape) if not E.branch(eqint(n, 1))]
        shape = [a.shape[k] for k in keep]

        def fwd(idx):
            out = [0] * len(a.shape)
            for i, k in zip(idx, keep):
                out[k] = i
            return out
        return self.compose(a, shape, fwd, lambda b: (True, [b[k] for k in keep]))

    def expand(self, a, axis):
        nd = len(a.shape) + 1
        axis = self.I.as_int(axis)
        if axis < 0:
            axis += nd
        if not 0 <= axis <= nd - 1:
            raise Unsupported('expand_dims axis')
        items = [slice(None)] * len(a.shape)
        items.insert(axis, None)
        return self.basic(a, items)

    def m_reshape(self, a, *shape, **kw):
        order = kw.pop('order', 'C')
        if kw or order not in ('C', 'F'):
            raise Unsupported('reshape order %r' % (order,))
        if len(shape) == 1 and isinstance(shape[0], (tuple, PList)):
            shape = self.I.seq(shape[0]).items
        shape = [self.I.as_int(z) for z in shape]
        E = self.E
        if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1 and len(a.shape) > 1:
            shape = [E.flat_size(a.shape if order == 'C' else a.shape[::-1])]
        if len(a.shape) == 1 and len(shape) == 1:
            if isinstance(shape[0], int) and shape[0] == -1 or eqint(shape[0], a.shape[0]) is True:
                return a
        # only insertion / removal of axes of length one
        if order == 'F' and (len(a.shape) > 1 or len(shape) > 1):
            r = self.m_reshape(self.m_transpose(a), *shape[::-1])
            return self.m_transpose(r)
        old = [(k, n) for k, n in enumerate(a.shape) if not (isinstance(n, int) and n == 1)]
        new = [(k, n) for k, n in enumerate(shape) if not (isinstance(n, int) and n == 1)]
        if len(old) == len(new):
            ok = True
            for (_, p), (_, q) in zip(old, new):
                if isinstance(q, int) and q == -1:
                    continue
                if eqint(simp_int(p), simp_int(q)) is not True:
                    ok = False
            if ok:
                shape = list(shape)
                for (_, p), (k, q) in zip(old, new):
                    shape[k] = p

                def fwd(idx):
                    out = [0] * len(a.shape)
                    for (i, _), (j, _) in zip(old, new):
                        out[i] = idx[j]
                    return out

                def inv(b):
                    out = [0] * len(shape)
                    for (i, _), (j, _) in zip(old, new):
                        out[j] = b[i]
                    return True, out
                return self.compose(a, shape, fwd, inv)
        if any(isinstance(n, int) and n < 0 for n in shape):
            raise Unsupported('reshape to -1')
        shape = tuple(simp_int(n) for n in shape)
        if not E.branch(eqint(E.flat_size(a.shape), E.flat_size(shape))):
            raise PyRaise(ValueError, 'total size of new array must be unchanged')
        # NumPy may return a view or a copy: a view that must not be stored through
        r = self.compose(a, shape, lambda idx: E.digits(a.shape, E.number(shape, idx)),
                         lambda b: (True, E.digits(shape, E.number(a.shape, b))))
        r.ro = True
        return r

    def m_ravel(self, a):
        if len(a.shape) == 1:
            return a
        raise Unsupported('ravel')

    def m_flatten(self, a, order='C'):
        E = self.E
        if order not in ('C', 'F'):
            raise Unsupported('flatten order %r' % (order,))
        if len(a.shape) == 1:
            return self.copy(a)
        f = self.cellfn(a)
        if order == 'F':
            s = a.shape[::-1]
            return self.normal((E.flat_size(s),), lambda i: f(E.digits(s, i[0])[::-1]), a.kind)
        return self.normal((E.flat_size(a.shape),), lambda i: f(E.digits(a.shape, i[0])), a.kind)

    def m_argsort(self, a, axis=-1, kind='quicksort', order=None):
        "a permutation of the positions; the cells in this order are ascending, NaNs last"
        E = self.E
        if len(a.shape) != 1 or axis not in (-1, 0) or order is not None or a.kind not in 'fib':
            raise Unsupported('argsort')
        n, g = a.shape[0], self.cellfn(a)
        of = self.sortedby.get(id(a.buf))
        if of is not None and of[0] is a.buf and a.vmap is None and a.buf.fn is of[1]:
            # the order of the order: the ranks, a function of the sorted cells
            rank = of[2]
            return self.raw((n,), lambda idx: self.rank_at(n, rank, idx[0]), 'i')
        if E.generics:
            r = self.raw((n,), lambda idx: self.red('argsort_at', (n,), g, (('at', idx[0]),)), 'i')
        else:
            p, q = E.perm(n)
            E.perms.pop()
            i, j = z3.Ints('#s1 #s2')
            with E.generic(i):
                with E.generic(j):
                    u, v = g([p(i)]), g([p(j)])
                    if a.kind == 'b':
                        c = Not(And(u, Not(v)))
                    elif a.kind == 'i':
                        c = u <= v
                    else:
                        c = And(Not(self.cellop('lt', v, u)), Or(Not(self.cellun('isnan', u)), self.cellun('isnan', v)))
            E.axiom_raw(z3.ForAll([i, j], z3.Implies(And(0 <= i, i < j, lt(j, n)), to_bool(c)), patterns=[z3.MultiPattern(p(i), p(j))]))
            r = self.normal((n,), lambda idx: p(idx[0]), 'i')
        self.sortedby[id(r.buf)] = (r.buf, r.buf.fn, g)
        return r

    def rank_at(self, n, f, at):
        "how many of the n cells an ascending order puts before the one at `at`"
        r = self.red('rank_at', (n,), f, (('at', at),))
        k = ('rankbounds', r.get_id())
        if k not in self.E.memo:
            self.E.memo[k] = r
            self.E.add_axiom(z3.Implies(to_bool(inrange(at, n)), to_bool(inrange(r, n))))
        return r

    def m_nonzero(self, a):
        if len(a.shape) != 1:
            raise Unsupported('nonzero in several dimensions')
        return (self.nonzero1(a),)

    def m_repeat(self, a, repeats, axis=None):
        E = self.E
        if axis is None:
            if len(a.shape) != 1:
                raise Unsupported('repeat of a flattened array')
            axis = 0
        ax = self.axis_norm(axis, len(a.shape))
        r = self.I.as_int(repeats)
        f = self.cellfn(a)
        n = a.shape[ax]
        if isinstance(n, int) and n == 1:
            shape = a.shape[:ax] + (r,) + a.shape[ax + 1:]
            return self.normal(shape, lambda i: f(i[:ax] + [0] + i[ax + 1:]), a.kind)
        raise Unsupported('repeat')

    # ------------------------------------------------------------------ modules
    def module(self):
        m = Module('numpy')
        d = m.d
        I = self.I
        d.update(self.T)
        d.update({'nan': float('nan'), 'inf': float('inf'), 'newaxis': None, 'ndarray': self.ndarray, 'float': float, 'int': int,
                  'bool': bool, 'object': object, 'str': str, 'False_': False, 'True_': True, 'e': 2.718281828459045, 'pi': 3.141592653589793,
                  '__version__': '1.8.2', 'NaN': float('nan')})
        for n in UF2:
            d[n] = Builtin(n, self.uf2(n))
            self.ufuncs[n] = True
        for n in UF1:
            d[n] = Builtin(n, self.uf1(n))
            self.ufuncs[n] = True
        d['abs'] = d['absolute']
        for n in dir(self):
            if n.startswith('np_'):
                d.setdefault(n[3:], Builtin(n[3:], getattr(self, n)))
        lib = Module('numpy.lib')
        st = Module('numpy.lib.stride_tricks')
        st.d['as_strided'] = Builtin('as_strided', self.as_strided)
        lib.d['stride_tricks'] = st
        d['lib'] = lib
        from .interp import Stub
        ts = Module('numpy.testing')
        for n in ('assert_equal', 'assert_almost_equal'):
            ts.d[n] = Builtin('testing.' + n, getattr(self, 'tst_' + n))
        d['testing'] = ts
        for n in ('linalg', 'core'):
            d[n] = Stub('numpy.' + n)
        rnd = Module('numpy.random')
        for n in dir(self):
            if n.startswith('rnd_'):
                rnd.d[n[4:]] = Builtin('random.' + n[4:], getattr(self, n))
        d['random'] = rnd
        self.mod = _NpModule(m)
        return self.mod

    # numpy.testing: labels, types and dtypes by ==, cells by == or closeness (an uninterpreted relation)
    def close(self, u, v, decimal):
        E = self.E
        u, v = self.tofloatcell(u), self.tofloatcell(v)
        f = z3.Function('close_%d' % decimal, V, V, Bool)
        if ('close', decimal) not in E.memo:
            E.memo['close', decimal] = True
            p, q = z3.Consts('v w', V)
            E.axiom_raw(z3.ForAll([p, q], z3.Implies(to_bool(E.veq(p, q)), f(p, q)), patterns=[f(p, q)]))
        return And(E.isnan(u) == E.isnan(v), Or(E.isnan(u), f(u, v)))

    def samecells(self, a, b, rel):
        E = self.E
        if len(a.shape) != len(b.shape):
            if not a.shape or not b.shape:
                raise Unsupported('comparison with a 0d array')
            return False
        f, g = self.cellfn(a), self.cellfn(b)
        shape = And(*[eqint(m, n) for m, n in zip(a.shape, b.shape)])
        if not self.I.truth(shape):
            return False
        return E.forall_multi(a.shape, lambda idx: rel(f(idx), g(idx)))

    def tst_assert_equal(self, a, b, err_msg='', verbose=True):
        I = self.I
        if isinstance(a, Arr) and isinstance(b, Arr):
            if (a.kind in 'so' or b.kind in 'so') and a.kind != b.kind:
                raise Unsupported('assert_equal of %s and %s' % (a.kind, b.kind))

            def rel(u, v):
                same = self.cellop('eq', u, v)
                return Or(same, And(self.cellun('isnan', u), self.cellun('isnan', v))) if 'f' in a.kind + b.kind else same
            c = self.samecells(a, b, rel)
        elif isinstance(a, Arr) or isinstance(b, Arr) or isinstance(a, Inst) or isinstance(b, Inst):
            raise Unsupported('assert_equal')
        else:
            c = I.compare('eq', a, b)
            if isinstance(a, Sc) and isinstance(b, Sc) and a.kind == b.kind == 'f':
                c = Or(c, And(self.cellun('isnan', a), self.cellun('isnan', b)))
        if not I.truth(c):
            raise PyRaise(AssertionError, 'text')

    def tst_assert_almost_equal(self, a, b, decimal=7, err_msg='', verbose=True):
        I = self.I
        decimal = I.as_int(decimal)
        if not isinstance(decimal, int):
            raise Unsupported('decimal')
        rel = lambda u, v: self.close(u, v, decimal)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.kind not in 'fib' or b.kind not in 'fib':
                raise Unsupported('assert_almost_equal of %s and %s' % (a.kind, b.kind))
            c = self.samecells(a, b, rel)
        elif isinstance(a, Arr) or isinstance(b, Arr) or isinstance(a, Inst) or isinstance(b, Inst):
            raise Unsupported('assert_almost_equal')
        else:
            (k, u), (l, v) = self.kindcell(a), self.kindcell(b)
            if k not in 'fib' or l not in 'fib':
                raise Unsupported('assert_almost_equal of %s and %s' % (k, l))
            c = rel(u, v)
        if not I.truth(c):
            raise PyRaise(AssertionError, 'text')

    def uf2(self, n):
        def f(a, b, out=None):
            if isinstance(a, Inst) or isinstance(b, Inst):
                raise Unsupported('ufunc of objects')
            r = self.binary(UFN.get(n, n), a, b)
            if out is not None:
                self.assign_whole(out, r)
                return out
            return r
        return f

    def uf1(self, n):
        return lambda a, out=None: self.unary(n, a, out)

    # ---------------------------------------------------------------- random numbers
    def rnd_shuffle(self, x):
        "permutes x in place along its first axis by an arbitrary permutation"
        E = self.E
        if E.loops:
            raise Unsupported('shuffle in a summarised loop')
        if isinstance(x, PList) and not x.tup:
            p, q = E.perm(x.length())
            old = x.frozen()
            E.may_change(x)
            r = PList(E, n=old.length(), fn=lambda i: old.get(p(i)))
            if old.items is not None:
                r = PList(E, items=[old.get(p(z3.IntVal(i))) for i in range(len(old.items))])
            else:
                r.memf = lambda v: old.mem(v)
                r.posf = lambda v: q(old.pos(v)) if old.uniqf else None
                if not old.uniqf:
                    r.memf = r.posf = None
            r.uniqf = old.uniqf
            x.set_to(r)
            return None
        if isinstance(x, Arr):
            if not x.shape:
                raise PyRaise(TypeError, 'len() of unsized object')
            p, q = E.perm(x.shape[0])
            f = self.cellfn(self.copy(x))
            self.assign_whole(x, self.raw(x.shape, lambda idx: f([p(idx[0])] + list(idx[1:])), x.kind, x.name))
            return None
        raise Unsupported('shuffle of %r' % (x,))

    def rnd_permutation(self, x):
        E = self.E
        if isinstance(x, (PList, tuple)):
            x = self.asarray(x)
        if isinstance(x, Arr):
            r = self.copy(x)
            self.rnd_shuffle(r)
            return r
        n = self.I.as_int(x)
        p, q = E.perm(n)
        return self.normal((n,), lambda idx: p(idx[0]), 'i')

    def opaque(self, name, shape, kind='f'):
        "an array of unknown cells, remembered as the next draw"
        E = self.E
        f = E.fn('draw_' + name, [Int] * len(shape), SORT[kind])
        if kind == 'f':
            E.vaxioms()
        a = self.normal(tuple(shape), lambda idx: f(*[E.coerce(i, Int) for i in idx]), kind)
        E.drawn.append((name, tuple(shape), f))
        return a

    def rnd_source(self, name, args):
        E = self.E
        if E.loops:
            raise Unsupported('random numbers in a summarised loop')
        for n in args:
            if E.branch(lt(n, 0)):
                raise PyRaise(ValueError, 'negative dimensions are not allowed')
        if not args:
            v = E.const('draw_' + name, V)
            E.vaxioms()
            E.drawn.append((name, (), v))
            return Sc('f', v)
        return self.opaque(name, args)

    def rnd_randint(self, lo, hi=None, size=None):
        E, I = self.E, self.I
        lo = I.as_int(lo)
        if hi is None:
            lo, hi = 0, lo
        hi = I.as_int(hi)
        if E.loops:
            raise Unsupported('random numbers in a summarised loop')
        if E.branch(le(hi, lo)):
            raise PyRaise(ValueError, 'low >= high')
        if size is None:
            v = E.const('draw_randint', Int)
            E.assume(And(le(lo, v), lt(v, hi)))
            E.drawn.append(('randint', (), v))
            return v
        shape = tuple(I.as_int(z) for z in (size.items if isinstance(size, PList) else size)) if isinstance(size, (tuple, PList)) else (I.as_int(size),)
        for n in shape:
            if E.branch(lt(n, 0)):
                raise PyRaise(ValueError, 'negative dimensions are not allowed')
        a = self.opaque('randint', shape, 'i')
        f = E.drawn[-1][2]
        E.drawrange[f] = (lo, hi)
        cs = [z3.Int('#c%d' % k) for k in range(len(shape))]
        E.add_axiom(mk_forall(E, cs, z3.And(E.coerce(lo, Int) <= f(*cs), f(*cs) < E.coerce(hi, Int)), pat=f(*cs)))
        return a

    def rnd_rand(self, *shape):
        return self.rnd_source('rand', shape)

    def rnd_randn(self, *shape):
        return self.rnd_source('randn', shape)

    def np_isscalar(self, v):
        if isinstance(v, (bool, int, float, str)) or sym(v):
            if is_u(v):
                raise Unsupported('isscalar of a label')
            return True
        if isinstance(v, Sc):
            if v.kind == 'o':
                raise Unsupported('isscalar of an object cell')
            return True
        if isinstance(v, Prod):
            return True
        from .interp import OStr
        return isinstance(v, OStr)

    def np_asarray(self, v, dtype=None, order=None):
        if self.E.typed and isinstance(v, PList):
            r = self.I.h5.label_array(self.I, v, dtype)
            if r is not None:
                return r
        if dtype is None:
            a = self.asarray(v)
            return a
        k = self.kind_of_dtype(dtype)
        if isinstance(v, Arr) and v.kind == k:
            return v
        if isinstance(v, (PList, tuple)) and k == 'o':
            a = self.asarray(v)
            if a.kind not in 'fib' or a.kind == 'f' and not len(a.shape):
                raise Unsupported('object array from a list')
            return self.m_astype(a, dtype)
        return self.m_astype(self.asarray(v, kind=k), dtype)

    def np_array(self, v, dtype=None, copy=True, ndmin=0):
        if ndmin:
            raise Unsupported('ndmin')
        r = self.np_asarray(v, dtype)
        if r is v and copy is not False:
            return self.copy(r)
        return r

    def shapearg(self, shape):
        if isinstance(shape, (PList, tuple)):
            L = self.I.seq(shape)
            if L.items is None:
                raise Unsupported('shape of unknown length')
            dims = [self.I.as_int(z) for z in L.items]
        else:
            dims = [self.I.as_int(shape)]
        for d in dims:
            if not self.I.known_nonneg(d):
                if not self.E.branch(d >= 0):
                    raise PyRaise(ValueError, 'negative dimensions are not allowed')
        return tuple(dims)

    def const_array(self, shape, dtype, v):
        E = self.E
        if isinstance(shape, Arr) and False:
            pass
        sh = self.shapearg(shape)
        k = self.kind_of_dtype(dtype)
        t = {'f': lambda: E.toV(v), 'i': lambda: z3.IntVal(v), 'b': lambda: z3.BoolVal(bool(v)), 'o': lambda: E.toV(v),
             's': lambda: E.EMPTY if not v else E.toV(str(v)), 'c': lambda: E.toV(v)}[k]()
        return self.raw(sh, lambda idx: t, k)

    def np_zeros(self, shape, dtype=float, order='C'):
        return self.const_array(shape, dtype, 0)

    def np_ones(self, shape, dtype=float, order='C'):
        return self.const_array(shape, dtype, 1)

    def np_empty(self, shape, dtype=float, order='C'):
        if dtype is None:
            dtype = float
        if not isinstance(dtype, (DType, NpType, str)) and dtype not in (float, int, bool, str, object, complex):
            raise Unsupported('dtype %r' % (dtype,))
        k = self.kind_of_dtype(dtype)
        sh = self.shapearg(shape)
        f = self.E.fn('uninit', [Int] * len(sh), SORT[k])
        return self.raw(sh, lambda idx: f(*idx), k)

    def np_zeros_like(self, a):
        a = self.asarray(a)
        return self.const_array(a.shape, self.dts[a.kind], 0)

    def np_ones_like(self, a):
        a = self.asarray(a)
        return self.const_array(a.shape, self.dts[a.kind], 1)

    def np_empty_like(self, a):
        a = self.asarray(a)
        return self.np_empty(a.shape, self.dts[a.kind])

    def np_arange(self, *a, **kw):
        dt = kw.pop('dtype', None)
        if not a and 'stop' in kw:
            a = (kw.pop('start', 0), kw.pop('stop'), kw.pop('step', 1))
        if kw:
            raise Unsupported('arange keywords')
        if any(isinstance(z, float) or is_real(z) for z in a):
            raise Unsupported('float arange')
        L = self.I.bi_range(*a)
        r = self.raw((L.length(),), lambda idx: self.E.coerce(L.get(idx[0]), Int), 'i')
        return r if dt is None else self.m_astype(r, dt)

    def np_putmask(self, a, mask, values):
        self.putmask(a, mask, values)

    def np_rollaxis(self, a, axis, start=0):
        return self.rollaxis(a, axis, start)

    def np_swapaxes(self, a, p, q):
        return self.m_swapaxes(self.asarray(a), p, q)

    def np_expand_dims(self, a, axis):
        return self.expand(self.asarray(a), axis)

    def np_squeeze(self, a):
        return self.m_squeeze(self.asarray(a))

    def np_transpose(self, a, axes=None):
        return self.transpose(a, axes)

    def np_any(self, a, axis=None):
        return self.reduce_('any', self.asarray(a), axis)

    def np_all(self, a, axis=None):
        return self.reduce_('all', self.asarray(a), axis)

    def np_sum(self, a, axis=None):
        return self.reduce_('sum', self.asarray(a), axis)

    def np_prod(self, a, axis=None, dtype=None):
        if dtype not in (None, int):
            raise Unsupported('dtype of a product')
        if isinstance(a, int) and not isinstance(a, bool) or is_int(a):
            return a
        if isinstance(a, (PList, tuple)) and axis is None:
            L = self.I.seq(a)
            if L.items is not None and all(isinstance(z, int) or is_int(z) for z in L.items) and \
                    not any(self.E.branch(lt(z, 0)) for z in L.items):
                return self.E.flat_size(L.items)     # the product of lengths
        if dtype is not None:
            raise Unsupported('dtype of a product')
        return self.reduce_('prod', self.asarray(a), axis)
    np_product = np_prod

    def np_max(self, a, axis=None):
        return self.m_max(self.asarray(a), axis)

    def np_min(self, a, axis=None):
        return self.m_min(self.asarray(a), axis)

    def np_mean(self, a, axis=None):
        return self.m_mean(self.asarray(a), axis)

    def np_cumsum(self, a, axis=None):
        return self.prefix('cumsum', self.asarray(a), axis)

    def np_nonzero(self, a):
        return self.m_nonzero(self.asarray(a))

    def np_where(self, c, *r):
        if r:
            c = self.asarray(c)
            x, y = [self.asarray(z) for z in r]
            sh = self.broadcast([c.shape, x.shape, y.shape])
            k = self.promote([x.kind, y.kind])
            fc, fx, fy = [self.bcell(z, sh) for z in (c, x, y)]
            return self.normal(sh, lambda i: self.E.ite(self.truthcell(fc(i)), self.cast(fx(i), x.kind, k), self.cast(fy(i), y.kind, k)), k)
        return self.np_nonzero(c)

    def np_issubdtype(self, a, b):
        return self.issubdtype(a, b)

    def np_ndim(self, a):
        return len(self.asarray(a).shape)

    def np_shape(self, a):
        return self.asarray(a).shape

    def np_rank(self, a):
        return len(self.asarray(a).shape)

    def np_dtype(self, d):
        return self.dts[self.kind_of_dtype(d)]

    def np_copy(self, a):
        return self.copy(self.asarray(a))

    def np_ix_(self, *args):
        E = self.E
        nd = len(args)
        out = []
        for k, a in enumerate(args):
            if isinstance(a, (PList, tuple)):
                a = self.index_array(a, None)
            a = self.asarray(a)
            if len(a.shape) != 1:
                raise PyRaise(ValueError, 'ix_')
            if a.kind == 'b':
                a = self.nonzero1(a)
            v = self.basic(a, [None] * k + [slice(None)] + [None] * (nd - k - 1))
            if getattr(a.buf, 'src', None) is not None and a.vmap is None and a.buf.fn is a.buf.srcfn:
                v.ixsrc = a.buf.src
            out.append(v)
        return tuple(out)

    def np_concatenate(self, arrs, axis=0):
        E = self.E
        L = self.I.seq(arrs)
        if L.items is None:
            raise Unsupported('concatenate of a symbolic list')
        arrs = [self.asarray(z) for z in L.items]
        if not arrs:
            raise PyRaise(ValueError, 'need at least one array')
        ax = self.axis_norm(axis, len(arrs[0].shape))
        for a in arrs[1:]:
            if len(a.shape) != len(arrs[0].shape):
                raise PyRaise(ValueError, 'dimensions')
            for k in range(len(a.shape)):
                if k != ax and not E.branch(self.dim_eq(a.shape[k], arrs[0].shape[k])):
                    raise PyRaise(ValueError, 'dimensions')
        k = self.promote([a.kind for a in arrs])
        offs, tot = [], 0
        for a in arrs:
            offs.append(tot)
            tot = simp_int(tot + a.shape[ax])
        fs = [self.cellfn(a) for a in arrs]

        def cell(idx):
            r = None
            for a, o, f in reversed(list(zip(arrs, offs, fs))):
                v = self.cast(f(idx[:ax] + [simp_int(idx[ax] - o)] + idx[ax + 1:]), a.kind, k)
                r = v if r is None else E.ite(idx[ax] >= o, r, r)
                if r is not v:
                    r = E.ite(lt(idx[ax], nexto), v, r)
                nexto = o
            return r
        return self.normal(arrs[0].shape[:ax] + (tot,) + arrs[0].shape[ax + 1:], cell, k)

    def np_dot(self, a, b):
        "sums of products over the last axis of a and the last but one of b"
        a, b = self.asarray(a), self.asarray(b)
        if not 1 <= len(a.shape) <= 2 or not 1 <= len(b.shape) <= 2 or a.kind not in 'ibf' or b.kind not in 'ibf':
            raise Unsupported('dot')
        m = a.shape[-1]
        if not self.E.branch(self.dim_eq(m, b.shape[0])):
            raise PyRaise(ValueError, 'objects are not aligned')
        f, g = self.cellfn(a), self.cellfn(b)
        k = 'f' if 'f' in (a.kind, b.kind) else 'i'
        if a.kind == 'b' and b.kind == 'b':
            raise Unsupported('dot of bools')
        p = len(a.shape) - 1

        def cell(idx):
            return self.red('sum', (m,), lambda j: self.cellop('mul', f(idx[:p] + [j[0]]), g([j[0]] + idx[p:])))
        r = self.normal(a.shape[:-1] + b.shape[1:], cell, k)
        return r if r.shape else self.cellvalue(r, [])

    def np_unique(self, ar, return_index=False, return_inverse=False):
        a = self.asarray(ar)
        return Unique(self.normal(a.shape, self.cellfn(a), a.kind), self.I.truth(return_index), self.I.truth(return_inverse))

    def np_median(self, a, axis=None):
        return self.reduce_('median', self.asarray(a), axis)

    def np_apply_along_axis(self, func1d, axis, arr, *args):
        """func1d of every line; each line of the result is what one call gives (evaluated at the indices at
        which the result is read, after one call for an arbitrary line has shown that none raises)"""
        E, I = self.E, self.I
        a = self.asarray(arr)
        nd = len(a.shape)
        ax = self.axis_norm(I.as_int(axis), nd)
        for n in a.shape:
            if E.check(n <= 0 if sym(n) else z3.BoolVal(n <= 0)) != z3.unsat:
                raise Unsupported('apply_along_axis of an array that may be empty')
        f, n = self.cellfn(a), a.shape[ax]
        self.quotientfacts()

        def line(idx):
            x = self.raw((n,), lambda k: f(idx[:ax] + [k[0]] + idx[ax + 1:]), a.kind)
            r = I.call(func1d, [x] + list(args), {})
            if not isinstance(r, Arr) or len(r.shape) != 1:
                raise Unsupported('apply_along_axis with a scalar result')
            return r
        if nd == 1:
            return self.copy(line([0]))
        sk = [E.const('line', Int) for _ in a.shape]
        shapes = []

        def one():
            E.assume(And(*[inrange(k, d) for k, d in zip(sk, a.shape)]))
            r = line(list(sk))
            shapes.append((r.shape[0], r.kind))
        if any(k != 'ok' for c, k, r in E.sub(one)):
            raise Unsupported('apply_along_axis: a line may raise')
        if not shapes or any(k != shapes[0][1] or not z3.is_true(z3.simplify(to_bool(eqint(m, n)))) for m, k in shapes):
            raise Unsupported('apply_along_axis: lines of other lengths')
        kind = shapes[0][1]
        return self.normal(a.shape, lambda idx: self.cell(line(list(idx)), [idx[ax]]), kind)

    def np_promote_types(self, a, b):
        return self.dts[self.promote([self.kind_of_dtype(a), self.kind_of_dtype(b)])]

    def np_may_share_memory(self, a, b):
        return a.buf is b.buf

    def np_seterr(self, **k):
        return PDict(self.E, pairs=[])

    def as_strided(self, a, shape=None, strides=None):
        E, I = self.E, self.I
        sh = tuple(I.as_int(z) for z in I.seq(shape).items)
        st = I.seq(strides).items
        if a.ro or len(st) != len(sh):
            raise Unsupported('as_strided')
        for z in st:
            if not isinstance(z, Stride):
                raise Unsupported('as_strided with computed strides')
        # memory safety: every address must lie in the array
        for ax in range(len(a.shape)):
            ks = [k for k, z in enumerate(st) if z.ax == ax]
            if not ks:
                continue
            top = 0
            for k in ks:
                top = top + (sh[k] - 1)
            nonempty = And(*[le(1, d) for d in sh])
            E.prove('as_strided stays inside the array (axis %d)' % ax, Implies(nonempty, lt(top, a.shape[ax])))
        for d in sh:
            if not E.branch(le(0, d)):
                raise PyRaise(ValueError, 'negative dimensions')

        def fwd(idx):
            out = []
            for ax in range(len(a.shape)):
                t = 0
                for k, z in enumerate(st):
                    if z.ax == ax:
                        t = idx[k] if isinstance(t, int) and t == 0 else t + idx[k]
                out.append(t)
            return out
        v0 = a.vmap
        return Arr(a.kind, sh, a.buf, fwd if v0 is None else (lambda i: v0(fwd(i))), None, a.name, ro=True)

    def make_scalar(self, t, args):
        if t.kind in ('f',):
            return self.I.construct(float, args, {})
        if t.kind == 'i':
            return self.I.construct(int, args, {})
        if t.kind == 'b':
            return self.I.construct(bool, args, {})
        raise Unsupported('np.%s()' % t.name)

    # ---------------------------------------------------------------- bottleneck
    def bn_module(self):
        m = Module('bottleneck')
        for n in ('nansum', 'nanmean', 'nanmedian', 'nanmax', 'nanmin'):
            m.d[n] = Builtin(n, self.bnred(n))
        for n in ('nanstd', 'nanvar'):
            m.d[n] = Builtin(n, self.bnred(n, True))
        m.d['nanrankdata'] = Builtin('nanrankdata', self.bnrank)
        m.d['replace'] = Builtin('replace', self.bnreplace)
        for n in ('move_nansum', 'move_nanmean', 'move_nanstd', 'move_nanmax', 'move_nanmin'):
            m.d[n] = Builtin(n, self.bnmove(n))
        m.d['__version__'] = '0.8.0'
        return m

    def numeric(self, a):
        if not isinstance(a, Arr):
            if isinstance(a, Inst):
                raise Unsupported('bottleneck on an object')
            a = self.asarray(a)
        if a.kind not in 'fi':
            raise Unsupported('bottleneck on kind %s' % a.kind)
        return a

    def bnred(self, n, ddof=False):
        def f(arr, axis=None, **kw):
            a = self.numeric(arr)
            k = []
            if ddof:
                k = [('ddof', kw.pop('ddof', 0))]
            if kw:
                raise PyRaise(TypeError, 'unexpected keyword')
            if axis is not None:
                self.axis_norm(axis, len(a.shape))
            if n in ('nanmax', 'nanmin'):
                self.need_nonempty(a, axis)
            if a.kind == 'i':
                # on integers bottleneck does not guard against an empty axis
                ax = range(len(a.shape)) if axis is None else [self.axis_norm(axis, len(a.shape))]
                if n in ('nanmean', 'nanstd', 'nanvar') and self.E.branch(Or(*[eqint(a.shape[q], 0) for q in ax])):
                    raise Unsupported('integer mean of nothing')
                if ddof:
                    d = self.I.as_int(k[0][1])
                    tot = size_of([a.shape[q] for q in ax])
                    tot = tot.term() if isinstance(tot, Prod) else tot
                    if self.E.branch(le(tot, d)):
                        raise Unsupported('ddof beyond the number of integers')
            return self.reduce_(n, a, axis, kw=k)
        return f

    def bnrank(self, arr, axis=None):
        a = self.numeric(arr)
        if axis is None:
            raise Unsupported('nanrankdata of all cells')
        ax = self.axis_norm(axis, len(a.shape))
        f = self.cellfn(a)
        return self.normal(a.shape, lambda idx: self.red('nanrank_at', (a.shape[ax],),
                           lambda k: f(idx[:ax] + [k[0]] + idx[ax + 1:]), [('at', idx[ax])]), 'f')

    def bnreplace(self, a, old, new):
        E = self.E
        ko, to = self.kindcell(old)
        f = self.cellfn(a)
        if isinstance(old, float) and old != old:
            if a.kind == 'f':
                g = self.conv(new, 'f', ())
                self.store(a, lambda idx: E.isnan(f(idx)), lambda idx: g([]))
            return
        raise Unsupported('bn.replace')

    def bnmove(self, n):
        def f(arr, window, axis=-1, method=None):
            E = self.E
            a = self.numeric(arr)
            ax = self.axis_norm(axis, len(a.shape))
            w = self.I.as_int(window)
            if E.branch(Or(lt(w, 1), lt(a.shape[ax], w))):
                raise PyRaise(ValueError, 'window')
            g = self.cellfn(a)
            cast = (lambda v: self.cast(v, 'i', 'f')) if a.kind == 'i' else (lambda v: v)

            def cell(idx):
                t = idx[ax]
                return E.ite(lt(t, w - 1), E.NAN, self.red(n.replace('move_', ''), (w,),
                             lambda k: cast(g(idx[:ax] + [t - w + 1 + k[0]] + idx[ax + 1:]))))
            return self.normal(a.shape, cell, 'f')
        return f


NDATTRS = set('''argmax argmin argpartition base byteswap choose compress conj conjugate ctypes data diagonal dot dump dumps
flags flat imag itemset itemsize nbytes newbyteorder partition ptp put real resize round searchsorted setfield setflags sort
tofile tostring trace var view getfield'''.split())


class _NpModule(Module):
    def __init__(self, m):
        self.name, self.d = m.name, _NpDict(m.d)


class _NpDict(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        from .interp import Stub
        return Stub('numpy.' + k)


def rename(r, dims, cs, t, outer, kwv):
    ren = [(g, z3.Const(str(g) + "'", g.sort())) for g in outer]
    S = lambda e: z3.substitute(e, *ren) if sym(e) else e
    return S(r), [S(d) for d in dims], cs, S(t), [b for a, b in ren], [S(b) for b in kwv]


def default_cell(E, kind):
    return {'f': lambda: E.NAN, 'i': lambda: z3.IntVal(0), 'b': lambda: z3.BoolVal(False), 's': lambda: E.EMPTY,
            'o': lambda: E.NONEV, 'c': lambda: E.NAN}[kind]()


def last_pos(E, its, b):
    r = 0
    for k, z in enumerate(its):
        c = eqint(z, b)
        r = E.ite(c, k, r)
    return r


def size_of_term(shape):
    s = size_of(shape)
    return s.term() if isinstance(s, Prod) else s


def enum_atoms(t, c):
    "pairs f(c), t(b) that an equality inside a Boolean term relates"
    seen, todo, out = set(), [t], []
    while todo:
        z = todo.pop()
        if not z3.is_app(z) or z.get_id() in seen:
            continue
        seen.add(z.get_id())
        if z.num_args() == 2 and (z3.is_eq(z) or z.decl().name() == 'v_eq') and z.arg(0).sort() != Bool:
            for p, q in ((z.arg(0), z.arg(1)), (z.arg(1), z.arg(0))):
                if z3.is_app(p) and p.num_args() and p.arg(p.num_args() - 1).eq(c) and c.get_id() not in consts_in(q):
                    out.append((p, q))
        todo.extend(z.children())
    return out


def eq_atoms(t):
    "the integer equalities inside a Boolean term"
    seen, todo, out = set(), [t], []
    while todo:
        z = todo.pop()
        if not z3.is_app(z) or z.get_id() in seen:
            continue
        seen.add(z.get_id())
        if z3.is_eq(z) and z.arg(0).sort() == Int:
            out.append(z)
        todo.extend(z.children())
    return out
