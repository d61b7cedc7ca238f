"""HDF5 archives (h5py), datetimes and the types of labels.

Assumed of h5py: a file is a tree of groups and datasets; opening a name twice gives the same
tree; a dataset holds a copy of the array it was made from and gives it back, or the part of it
that NumPy would give for integers and slices; names are found by their path; visititems calls
the function once for every group and dataset below, with its path; copy copies a subtree with
its attributes; an array of ints, floats or strings of one type gives the same values back, a
record array gives back tuples of integers that fit its fields; object arrays are refused with
TypeError.  Assumed of datetime: date.fromordinal undoes date.toordinal, and a date, time or
datetime is made anew from its fields.
"""
import z3
from .core import *
from .interp import OStr, Builtin, Module, Poison, Sc, Inst, PyClass, Node, Env, PyIter, UNICODE, subst_b
from .nump import Arr, DType
from . import iomodel
from .iomodel import Text, Of

CODES = {'int': 1, 'str': 2, 'float': 3, 'date': 4, 'time': 5, 'datetime': 6, 'other': 0}
HOST = {int: 1, str: 2, float: 3}
TY = z3.Function('v_type', U, Int)


def typed(E):
    "labels have types"
    if not E.typed:
        E.typed = True
        i = z3.Int('i')
        E.axiom_raw(z3.ForAll([i], TY(U.UI(i)) == 1, patterns=[U.UI(i)]))


def has_type(E, u, *names):
    return E.known(Or(*[TY(u) == CODES[n] for n in names]))


class SType(object):
    "the type of a label"
    def __init__(self, code):
        self.code = code

    def subst(self, c, t):
        return SType(z3.substitute(self.code, (c, t)))


def type_eq(a, b):
    def code(z):
        if isinstance(z, SType):
            return z.code
        if isinstance(z, HType):
            return z.code
        return HOST.get(z) if isinstance(z, type) else None
    x, y = code(a), code(b)
    if x is None or y is None:
        return False
    return x == y


# ------------------------------------------------------------------ datetime

FIELDS = {4: ['year', 'month', 'day'], 5: ['hour', 'minute', 'second', 'microsecond'],
          6: ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']}
ORD = z3.Function('v_toordinal', U, Int)
FROMORD = z3.Function('v_fromordinal', Int, U)


def field(name):
    return z3.Function('v_' + name, U, Int)


def maker(code):
    return z3.Function('v_make%d' % code, *([Int] * len(FIELDS[code]) + [U]))


class HType(object):
    "datetime.date, datetime.time, datetime.datetime"
    def __init__(self, I, code, name):
        self.I, self.code, self.name = I, code, name

    def axioms(self):
        E = self.I.E
        if ('dt', self.code) in E.memo:
            return
        E.memo['dt', self.code] = True
        u = z3.Const('u', U)
        fs = [field(n)(u) for n in FIELDS[self.code]]
        E.axiom_raw(z3.ForAll([u], z3.Implies(TY(u) == self.code, maker(self.code)(*fs) == u), patterns=[fs[0]]))
        if self.code in (4, 6):
            E.axiom_raw(z3.ForAll([u], z3.Implies(TY(u) == 4, FROMORD(ORD(u)) == u), patterns=[ORD(u)]))

    def attr(self, name):
        if name == 'toordinal' and self.code in (4, 6):
            return Builtin(name, lambda u: method(self.I, u, 'toordinal')())
        if name == 'fromordinal' and self.code in (4, 6):
            def f(i):
                self.axioms()
                i = E.coerce(self.I.as_int(i), Int)
                if i.decl().eq(ORD) and has_type(E, i.arg(0), 'date'):
                    return i.arg(0)
                r = FROMORD(i)
                if self.code == 6:
                    raise Unsupported('datetime.fromordinal')
                return r
            E = self.I.E
            return Builtin(name, f)
        if name in FIELDS[self.code]:
            return Builtin(name, lambda u: attribute(self.I, u, name))
        if name == '__name__':
            return self.name
        raise Unsupported('datetime attribute ' + name)

    def __call__(self, *a, **k):
        E = self.I.E
        n = len(FIELDS[self.code])
        a = list(a)
        for f in FIELDS[self.code][len(a):]:
            if f in k:
                a.append(k.pop(f))
            elif f in ('year', 'month', 'day'):
                raise PyRaise(TypeError, 'Required argument')
            else:
                a.append(0)
        if k or len(a) > n:
            raise Unsupported('datetime arguments')
        self.axioms()
        a = [E.coerce(self.I.as_int(z), Int) for z in a]
        u = a[0].arg(0) if a[0].num_args() == 1 else None
        if u is not None and all(z.eq(field(f)(u)) for z, f in zip(a, FIELDS[self.code])) and E.known(TY(u) == self.code):
            return u
        return maker(self.code)(*a)


def attribute(I, u, name):
    "u.name of a label"
    E = I.E
    for code, fs in FIELDS.items():
        if name in fs and E.known(TY(u) == code):
            I.load('datetime').d[{4: 'date', 5: 'time', 6: 'datetime'}[code]].axioms()
            return field(name)(u)
    if name in ('toordinal',):
        return Builtin(name, method(I, u, name))
    if iomodel.is_str(E, u) and hasattr(I, 'ostrm_' + name):
        return Builtin(name, lambda *a: getattr(I, 'ostrm_' + name)(iomodel.as_text(E, u), *a))
    raise Unsupported('attribute %s of a label' % name)


def method(I, u, name):
    E = I.E

    def f():
        if not is_u(u) or not has_type(E, u, 'date', 'datetime'):
            raise Unsupported('toordinal of a label')
        I.load('datetime').d['date'].axioms()
        return ORD(u)
    return f


def datetime_module(I):
    m = Module('datetime')
    for n, c in (('date', 4), ('time', 5), ('datetime', 6)):
        m.d[n] = HType(I, c, n)
    return m


# ------------------------------------------------------------------ arrays of labels

class LArr(object):
    "the array made of a list of labels, numbers or tuples of integers"
    def __init__(self, I, L, obj=False):
        self.I, self.L, self.obj = I, L, obj

    def attr(self, name):
        if name == 'tolist':
            return Builtin(name, lambda: self.L.copy())
        if name == 'size':
            return self.L.length()
        if name == 'shape':
            return (self.L.length(),)
        if name == 'ndim':
            return 1
        if name == 'dtype':
            return LDtype(self.obj)
        if name == 'copy':
            return Builtin(name, lambda: self)
        raise Unsupported('array of labels: ' + name)

    def h_len(self):
        return self.L.length()

    def h_getitem(self, i):
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, None) or i is Ellipsis:
            return self
        raise Unsupported('part of an array of labels')

    def subst(self, c, t):
        return LArr(self.I, subst(self.I.E, self.L, c, t), self.obj)


class LDtype(object):
    def __init__(self, obj):
        self.obj = obj


def label_array(I, L, dtype):
    "numpy.asarray of a list of labels (None: not one)"
    E = I.E
    n = L.length()
    if isinstance(n, int) and n == 0:
        return None
    c = E.canon('i', Int)
    with E.generic(c):
        e = L.get(c)
    f = L.frozen()
    if isinstance(e, tuple):
        if not isinstance(dtype, str) or not all(is_int(z) or isinstance(z, int) for z in e):
            raise Unsupported('array of tuples')
        fmt = dtype.split(',')
        if len(fmt) != len(e) or any(z not in ('i2', 'i4', 'i8') for z in fmt):
            raise Unsupported('record array ' + dtype)
        fit = [(lambda z: z) if k != 'i2' else (lambda z: z3.Function('v_int16', Int, Int)(E.coerce(z, Int))) for k in fmt]
        return LArr(I, PList(E, n=n, fn=lambda i: tuple(g(z) for g, z in zip(fit, f.get(i)))))
    if dtype is not None:
        return None
    if not (is_u(e) or is_int(e)):
        return None
    if is_int(e):
        return LArr(I, f)
    first = f.get(z3.IntVal(0))
    same = E.forall_range(n, lambda i: TY(f.get(i)) == TY(first))
    if E.known(same):
        if has_type(E, first, 'int', 'str', 'float'):
            return LArr(I, f)
        if has_type(E, first, 'other'):
            return LArr(I, f, obj=True)
        if has_type(E, first, 'date', 'time', 'datetime'):
            return LArr(I, f, obj=True)
        raise Unsupported('array of labels')
    g = E.fn('mixed', [Int], U)
    return LArr(I, PList(E, n=n, fn=lambda i: g(i)))


# ------------------------------------------------------------------ the tree

def comps(I, key):
    "the names on a path"
    E = I.E
    if isinstance(key, UniName):
        return list(key.comps)
    if isinstance(key, str):
        return [z for z in key.split('/') if z]
    if is_u(key):
        if not atom(E, key):
            raise Unsupported('a key that may not be a name')
        return [key]
    if isinstance(key, Text):
        out, cur = [], []
        for p in key.parts:
            if isinstance(p, str):
                for k, z in enumerate(p.split('/')):
                    if k:
                        out.append(cur)
                        cur = []
                    if z:
                        cur.append(z)
            elif isinstance(p, Of) and p.kind == 'u' and p.how == 'str' and atom(E, p.term):
                cur.append(p.term)
            else:
                raise Unsupported('key %r' % key)
        out = [z for z in out + [cur] if z]
        if any(len(z) != 1 for z in out):
            raise Unsupported('key %r' % key)
        return [z[0] for z in out]
    if key is None or isinstance(key, (int, float, PList, tuple)):
        raise PyRaise(TypeError, 'Accessing a group is done with bytes or str')
    raise Unsupported('key %r' % (key,))


def path_text(E, cs):
    "the path as a str"
    if len(cs) == 1 and is_u(cs[0]):
        return cs[0]
    ps = []
    for k, c in enumerate(cs):
        if k:
            ps.append('/')
        ps.append(c if isinstance(c, str) else Of('str', 'u', c))
    return iomodel.lower(Text(E, ps))


def split(I, s, sep=None):
    "key.split('/')"
    cs = None
    if sep == '/':
        t = iomodel.as_text(I.E, s)
        out = [[]]
        for p in t.parts:
            if isinstance(p, str):
                for k, z in enumerate(p.split('/')):
                    if k:
                        out.append([])
                    out[-1].append(z)
            elif isinstance(p, Of) and p.kind == 'u' and p.how == 'str' and atom(I.E, p.term):
                out[-1].append(p)
            else:
                raise Unsupported('split of %r' % (s,))
        return I.mklist([iomodel.lower(Text(I.E, z)) for z in out])
    raise Unsupported('split of %r' % (s,))


def paths_eq(E, x, y):
    "equality of two strings of names separated by slashes (None: not such)"
    def names(t):
        out = [[]]
        for p in t.parts:
            if isinstance(p, str):
                for k, z in enumerate(p.split('/')):
                    if k:
                        out.append([])
                    if z:
                        out[-1].append(z)
            elif isinstance(p, Of) and p.kind == 'u' and p.how == 'str' and atom(E, p.term):
                out[-1].append(p.term)
            else:
                return None
        return out
    a, b = names(x), names(y)
    if a is None or b is None or any(len(z) > 1 for z in a + b):
        return None
    if len(a) != len(b):
        return False
    r = True
    for p, q in zip(a, b):
        if not p and not q:
            continue
        if not p or not q:
            return False            # a name is not empty
        r = And(r, name_eq(E, p[0], q[0]))
    return r


def list_has(I, L, v):
    "the string v in the list"
    E = I.E
    r = False
    for s in L.segments():
        if s[0] == 'one':
            r = Or(r, I.truth_term(I.equal(s[1], v)))
        else:
            c = E.canon('i', Int)

            def body(s=s):
                E.assume(And(0 <= c, lt(c, s[1])))
                return I.truth_term(I.equal(s[2](c), v))
            with E.generic(c):
                for cond, k, b in E.sub(body, pruning=True):
                    if k != 'ok' or b is not False:
                        raise Unsupported('a path in a list')
    return r


def atom(E, u):
    "a label that is a name: a string, not empty, without a slash"
    return E.known(z3.Function('v_isname', U, z3.BoolSort())(u))


def names_eq(I, a, b):
    E = I.E
    f = lambda z: path_text(E, z.comps) if isinstance(z, UniName) else z
    return I.equal(f(a), f(b))


class UniName(object):
    "a unicode name"
    def __init__(self, I, cs):
        self.I, self.comps = I, cs

    def attr(self, name):
        if name == 'encode':
            return Builtin(name, lambda *a: path_text(self.I.E, self.comps))
        raise Unsupported('unicode ' + name)

    def subst(self, c, t):
        return UniName(self.I, [subst(self.I.E, z, c, t) for z in self.comps])


class Rest(object):
    "n further members: name(i), node(i)"
    def __init__(self, n, name, node):
        self.n, self.name, self.node = n, name, node


class HNode(object):
    def __init__(self, I, kind, val=None):
        self.I, self.kind, self.val = I, kind, val
        self.attrs = []
        self.members = []
        self.rests = []
        self.stamp = I.E.new_stamp()
        self.virtual = False        # a member of a family: made anew at every access

    def subst(self, c, t):
        E = self.I.E
        r = HNode(self.I, self.kind, val_subst(E, self.val, c, t))
        r.attrs = [(a, subst(E, v, c, t)) for a, v in self.attrs]
        r.members = [(subst(E, nm, c, t), m.subst(c, t)) for nm, m in self.members]
        if self.rests:
            raise Unsupported('family of groups of unknown content')
        return r

    def copy(self):
        r = HNode(self.I, self.kind, val_copy(self.I, self.val))
        r.attrs = list(self.attrs)
        r.members = [(nm, m.copy()) for nm, m in self.members]
        r.rests = list(self.rests)
        return r

    def older(self):
        return [lc for lc in self.I.E.loops if self.stamp < lc.stamp]

    def changing(self):
        self.I.E.may_change(self)
        if self.virtual:
            raise Unsupported('a member of a family changed')
        if self.older():
            raise Unsupported('archive changed in a summarised loop')

    def read(self, what=None):
        for lc in self.older():
            lc.reads.add(id(self))
            lc.h5reads.append((self, what))

    def find(self, c):
        "the member of this name: (node or None, remove)"
        E = self.I.E
        self.read(c)
        for k, (nm, m) in enumerate(self.members):
            if E.branch(name_eq(E, nm, c)):
                m.virtual = m.virtual or self.virtual
                return m, k
        for k, r in enumerate(self.rests):
            if isinstance(c, str):
                raise Unsupported('a literal name among unknown ones')
            mem, pos = E.list_index(PList(E, n=r.n, fn=r.name))
            if E.branch(mem(c)):
                p = simp_int(pos(c))
                g = E.generics[-1] if E.generics else None
                if c.num_args() == 1 and sym(r.name(c.arg(0))) and r.name(c.arg(0)).eq(c):
                    g = c.arg(0)
                if g is not None and E.known(p == g):
                    p = g
                m = r.node(p)
                m.virtual = True
                return m, ('rest', k, p)
        return None, None


def val_subst(E, v, c, t):
    return subst(E, v, c, t) if not isinstance(v, Arr) else arr_subst(E, v, c, t)


def arr_subst(E, v, c, t):
    I = v.buf.E.interp
    f = I.np.cellfn(v)

    def fn(idx):
        hs = [iomodel.hole() for _ in idx]
        r = f(hs)
        r = subst(E, r, c, t)
        for h, i in zip(hs, idx):
            r = subst(E, r, h, i)
        return r
    return I.np.raw(tuple(subst(E, s, c, t) for s in v.shape), fn, v.kind, v.name)


def val_copy(I, v):
    if isinstance(v, Arr):
        return snapshot(I, v)
    return v


def snapshot(I, a):
    return I.np.raw(a.shape, I.np.cellfn(a), a.kind, a.name)


def name_eq(E, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return E.eq(a, b)


class HClass(object):
    def __init__(self, name):
        self.name = name

    def has(self, v):
        return isinstance(v, {'File': HFile, 'Group': HGroup, 'Dataset': HData}[self.name])


class HObj(object):
    def node_of(self, cs, missing=True):
        n = self.node
        self.alive()
        for c in cs:
            if n.kind != 'group':
                n = None
            else:
                n = n.find(c)[0]
            if n is None:
                if missing:
                    raise PyRaise(KeyError, 'unable to open object')
                return None
        return n

    def alive(self):
        if self.file.closed:
            raise PyRaise(ValueError, 'Not a location')

    def attr_common(self, name):
        if name == 'attrs':
            return HAttrs(self)
        if name == 'file':
            return self.file
        raise Unsupported('h5py attribute ' + name)


def wrap(I, file, node):
    if node.kind == 'group':
        return HGroup(I, file, node)
    return HData(I, file, node)


class HGroup(HObj):
    def __init__(self, I, file, node):
        self.I, self.file, self.node = I, file, node

    def subst(self, c, t):
        return HGroup(self.I, self.file, self.node.subst(c, t))

    def attr(self, name):
        f = getattr(self, 'm_' + name, None)
        if f is not None:
            return Builtin(name, f)
        return self.attr_common(name)

    def h_getitem(self, key):
        return wrap(self.I, self.file, self.node_of(comps(self.I, key)))

    def h_contains(self, key):
        return self.node_of(comps(self.I, key), missing=False) is not None

    m___contains__ = h_contains

    def h_setitem(self, key, v):
        self.file.writable()
        cs = comps(self.I, key)
        parent = self.node_of(cs[:-1], missing=False) if len(cs) > 1 else self.node
        self.alive()
        if parent is None:
            parent = self.make(cs[:-1])
        val = dataset_value(self.I, v)
        if parent.find(cs[-1])[0] is not None:
            raise PyRaise(RuntimeError, 'name already exists')
        parent.changing()
        parent.members.append((cs[-1], HNode(self.I, 'data', val)))

    def h_delitem(self, key):
        self.file.writable()
        cs = comps(self.I, key)
        parent = self.node_of(cs[:-1])
        n, at = parent.find(cs[-1])
        if n is None:
            raise PyRaise(KeyError, "couldn't delete link")
        lcs = parent.older()
        if lcs:
            self.I.E.may_change(parent)
            lcs[-1].record(parent, 'h5del', (cs[-1],))
            return
        parent.changing()
        if isinstance(at, int):
            parent.members.pop(at)
        else:
            _, k, p = at
            parent.rests[k] = without(self.I.E, parent.rests[k], p)

    def make(self, cs):
        n = self.node
        for c in cs:
            m = n.find(c)[0]
            if m is None:
                n.changing()
                m = HNode(self.I, 'group')
                n.members.append((c, m))
            n = m
            if n.kind != 'group':
                raise PyRaise(ValueError, 'unable to create group')
        return n

    def m_create_group(self, key):
        self.file.writable()
        self.alive()
        cs = comps(self.I, key)
        if not cs or self.node_of(cs, missing=False) is not None:
            raise PyRaise(ValueError, 'unable to create group')
        self.make(cs)
        return self.h_getitem(key)

    def m_require_group(self, key):
        cs = comps(self.I, key)
        n = self.node_of(cs, missing=False)
        if n is None:
            return self.m_create_group(key)
        if n.kind != 'group':
            raise PyRaise(TypeError, 'incompatible object')
        return wrap(self.I, self.file, n)

    def names(self):
        I, E = self.I, self.I.E
        self.alive()
        n = self.node
        n.read(None)
        L = PList(E, items=[UniName(I, [nm]) for nm, _ in n.members])
        for r in n.rests:
            L = L.concat(PList(E, n=r.n, fn=lambda i, r=r: UniName(I, [r.name(i)])))
        return L

    def m_keys(self):
        return self.names()

    def m_iterkeys(self):
        return PyIter(self.names())

    def h_seq(self):
        return self.names()

    def h_len(self):
        return self.names().length()

    def m_visititems(self, func):
        I, E = self.I, self.I.E
        self.alive()

        def visit(node, prefix):
            node.read(None)
            for nm, m in list(node.members):
                one(prefix + [nm], m)
                if m.kind == 'group':
                    visit(m, prefix + [nm])
            for r in list(node.rests):
                L = PList(E, n=r.n, fn=lambda i, r=r: (r.name(i), HolderOf(member(r, i))))
                loop(I, L, lambda nm, h: sub(prefix + [nm], h.node))

        def sub(prefix, m):
            one(prefix, m)
            if m.kind == 'group':
                visit(m, prefix)

        def one(path, m):
            r = I.call(func, (UniName(I, path), wrap(I, self.file, m)), {})
            if r is not None:
                raise Unsupported('visititems stopped')
        visit(self.node, [])
        return None

    def m_copy(self, key, dest, name=None):
        I = self.I
        if name is not None or not isinstance(dest, HGroup):
            raise Unsupported('h5py copy')
        cs = comps(I, key)
        n = self.node_of(cs)
        dest.file.writable()
        dest.alive()
        d = dest.node
        lcs = d.older()
        if lcs:
            I.E.may_change(d)
            lcs[-1].record(d, 'h5copy', (cs[-1], HolderOf(n.copy())))
            return
        if d.find(cs[-1])[0] is not None:
            raise PyRaise(RuntimeError, 'name already exists')
        d.changing()
        d.members.append((cs[-1], n.copy()))

    def h_same(self, o):
        return isinstance(o, HGroup) and o.node is self.node


class HolderOf(object):
    "a node as an element of a list"
    def __init__(self, node):
        self.node = node

    def subst(self, c, t):
        return HolderOf(self.node.subst(c, t))


def member(r, i):
    m = r.node(i)
    m.virtual = True
    return m


def without(E, r, p):
    "the members but the one at p"
    at = lambda i: z3.If(i < p, i, i + 1)
    return Rest(r.n - 1, lambda i: r.name(at(i)), lambda i: r.node(at(i)))


def loop(I, L, f):
    "for a, b in L: f(a, b)"
    def node(t, **k):
        n = Node()
        n.t, n.line = t, 0
        for a, b in k.items():
            setattr(n, a, b)
        return n
    name = lambda s: node('Name', id=s)
    call = node('Expr', value=node('Call', func=name('#f'), args=[name('#a'), name('#b')], keywords=[], starargs=None, kwargs=None))
    s = node('For', target=node('Tuple', elts=[name('#a'), name('#b')]), iter=None, body=[call], orelse=[])
    env = Env({'#f': Builtin('visit', lambda a, b: f(a, b))}, None, I.mods['la.io'])
    I.summarise(s, L, env)


class HFile(HGroup):
    def __init__(self, I, root, name, mode):
        HGroup.__init__(self, I, self, root)
        self.name, self.mode = name, mode
        self.closed = False
        self.stamp = I.E.new_stamp()

    def subst(self, c, t):
        return self

    def writable(self):
        if self.mode == 'r':
            raise PyRaise(ValueError, 'file opened for reading')

    def attr(self, name):
        if name == 'filename':
            self.alive()
            return self.name
        return HGroup.attr(self, name)

    def m_close(self):
        if not self.closed:
            self.I.E.may_change(self)
            if any(self.stamp < lc.stamp for lc in self.I.E.loops):
                raise Unsupported('archive closed in a summarised loop')
            self.closed = True

    def m_flush(self):
        self.alive()


class HData(HObj):
    def __init__(self, I, file, node):
        self.I, self.file, self.node = I, file, node

    def subst(self, c, t):
        return HData(self.I, self.file, self.node.subst(c, t))

    def val(self):
        self.alive()
        self.node.read(None)
        return self.node.val

    def attr(self, name):
        v = self.val() if name in ('shape', 'dtype', 'size', 'ndim') else None
        if name == 'ndim':
            raise Unsupported('ndim of a dataset')
        if name in ('shape', 'dtype', 'size'):
            return self.I.getattr_(v, name)
        return self.attr_common(name)

    def h_len(self):
        return self.I.bi_len(self.val())

    def h_getitem(self, i):
        I, E = self.I, self.I.E
        v = self.val()
        if not isinstance(v, Arr):
            return v.h_getitem(i)
        its = i if isinstance(i, tuple) else (i,)
        full = lambda z: isinstance(z, slice) and (z.start, z.stop, z.step) == (None, None, None)
        if not all(full(z) or z is Ellipsis for z in its):
            if len(its) > len(v.shape):
                raise PyRaise(TypeError, 'too many indices')
            for z, n in zip(its, v.shape):
                if isinstance(z, slice):
                    a, st, ln = I.slice_indices(z, n)
                    if not E.known(And(lt(0, st), lt(0, ln))):
                        raise Unsupported('empty or reversed part of a dataset')
                elif is_int(z) or isinstance(z, int):
                    if not E.known(And(le(-n if sym(n) else -n, z), lt(z, n))):
                        raise Unsupported('index that may be outside a dataset')
                elif z is not Ellipsis:
                    raise Unsupported('index of a dataset')
            if not E.known(And(*[lt(0, n) for n in v.shape])):
                raise Unsupported('part of an empty dataset')
        r = I.np.getitem(v, i)
        return snapshot(I, r) if isinstance(r, Arr) else r

    def h_setitem(self, i, w):
        I, E = self.I, self.I.E
        self.file.writable()
        v = self.val()
        if not isinstance(v, Arr):
            raise Unsupported('store into an array of labels')
        if isinstance(w, (Inst, PList, tuple)):
            raise Unsupported('store of %r into a dataset' % (w,))
        its = i if isinstance(i, tuple) else (i,)
        if any(not (isinstance(z, (int, slice)) or is_int(z)) for z in its):
            raise Unsupported('index of a dataset')
        for z, n in zip(its, v.shape):
            if isinstance(z, slice):
                a, st, ln = I.slice_indices(z, n)
                if not E.known(And(lt(0, st), lt(0, ln))):
                    raise Unsupported('empty or reversed part of a dataset')
        self.node.changing()
        a = snapshot(I, v)
        I.np.setitem(a, i, w)
        self.node.val = a


class HAttrs(object):
    def __init__(self, o):
        self.o = o

    def look(self, k):
        self.o.alive()
        self.o.node.read(None)
        if not isinstance(k, str):
            raise Unsupported('attribute name')
        for a, v in self.o.node.attrs:
            if a == k:
                return v
        return Attrs

    def h_contains(self, k):
        return self.look(k) is not Attrs

    def h_getitem(self, k):
        v = self.look(k)
        if v is Attrs:
            raise PyRaise(KeyError, 'attribute')
        return v

    def h_setitem(self, k, v):
        self.o.file.writable()
        self.look(k)
        self.o.node.changing()
        self.o.node.attrs = [(a, b) for a, b in self.o.node.attrs if a != k] + [(k, v)]

    def attr(self, name):
        if name == 'get':
            return Builtin(name, lambda k, d=None: d if self.look(k) is Attrs else self.look(k))
        raise Unsupported('attrs.' + name)


Attrs = object()


def dataset_value(I, v):
    if isinstance(v, LArr):
        if v.obj:
            raise PyRaise(TypeError, 'Object dtype has no native HDF5 equivalent')
        return v
    if isinstance(v, Arr):
        if v.kind == 'o':
            raise PyRaise(TypeError, 'Object dtype has no native HDF5 equivalent')
        return snapshot(I, v)
    raise Unsupported('dataset from %r' % (v,))


# ------------------------------------------------------------------ modules

def h5py_module(I):
    m = Module('h5py')

    def open_(name, mode=None, **k):
        E = I.E
        if k:
            raise Unsupported('h5py.File option')
        t = iomodel.as_text(E, name)
        if t is None:
            raise Unsupported('archive name %r' % (name,))
        for nm, root in I.archives:
            if E.branch(iomodel.same_text(E, nm, name)):
                if mode in ('w', 'w-', 'x'):
                    raise Unsupported('archive overwritten')
                return HFile(I, root, name, mode or 'a')
        if mode in ('r', 'r+'):
            raise PyRaise(IOError, 'unable to open file')
        if E.loops:
            raise Unsupported('archive made in a summarised loop')
        root = HNode(I, 'group')
        I.archives.append((name, root))
        return HFile(I, root, name, mode or 'a')
    m.d['File'] = HClass('File')
    m.d['File'].make = open_
    m.d['Group'] = HClass('Group')
    m.d['Dataset'] = HClass('Dataset')
    h5t = Module('h5py.h5t')

    def py_create(dt, logical=0, aligned=0):
        if isinstance(dt, LDtype):
            if dt.obj:
                raise PyRaise(TypeError, 'Object dtype has no native HDF5 equivalent')
        elif isinstance(dt, DType):
            if dt.kind == 'o':
                raise PyRaise(TypeError, 'Object dtype has no native HDF5 equivalent')
        else:
            raise Unsupported('dtype %r' % (dt,))
    h5t.d['py_create'] = Builtin('py_create', py_create)
    m.d['h5t'] = h5t
    return m


def os_module(I):
    m = Module('os')

    def find(name):
        for k, (nm, root) in enumerate(I.archives):
            if I.E.branch(iomodel.same_text(I.E, nm, name)):
                return k

    def still():
        if I.E.loops:
            raise Unsupported('file renamed or removed in a summarised loop')

    def rename(a, b):
        still()
        k, j = find(a), find(b)
        if k is None:
            raise PyRaise(OSError, 'No such file')
        if j is not None and j != k:
            I.archives.pop(j)
            k = find(a)
        I.archives[k] = (b, I.archives[k][1])

    def remove(a):
        still()
        k = find(a)
        if k is None:
            raise PyRaise(OSError, 'No such file')
        I.archives.pop(k)
    m.d['rename'] = Builtin('rename', rename)
    m.d['remove'] = Builtin('remove', remove)
    m.d['unlink'] = m.d['remove']
    return m


def randstring(I, vars):
    "some string"
    return Text(I.E, [Of('raw', 'text', I.E.const('randstring', iomodel.TextS))])


def apply_effect(I, obj, kind, args, always, n, c, lc):
    "members deleted from, or copied into, a group by every iteration of a loop"
    E = I.E
    if not always:
        raise Unsupported('an archive changed in some iterations only')
    if obj.older():
        raise Unsupported('an archive changed in nested loops')
    if kind == 'h5copy' and any(node is obj for node, what in lc.h5reads):
        raise Unsupported('a loop reads what it writes')
    at = lambda v, i: subst(E, v, c, i)
    if kind == 'h5copy':
        name, h = args
        L = PList(E, n=n, fn=lambda i: at(name, i))
        if not E.known(E.uniq(L)):
            raise Unsupported('copies of one name')
        for nm, _ in obj.members:
            if not E.known(E.forall_range(n, lambda i: Not(name_eq(E, nm, L.get(i))))):
                raise Unsupported('copies over a name')
        for r in obj.rests:
            mem, pos = E.list_index(PList(E, n=r.n, fn=r.name))
            if not E.known(E.forall_range(n, lambda i: Not(mem(L.get(i))))):
                raise Unsupported('copies over an unknown name')
        obj.rests.append(Rest(n, lambda i: at(name, i), lambda i: h.subst(c, i).node))
        return
    name, = args
    for node, what in lc.h5reads:
        if node is obj and not (what is not None and sym(what) and what.eq(name)):
            raise Unsupported('a loop reads what it writes')
    for k, r in enumerate(obj.rests):
        if eqint(r.n, n) is True and r.name(c).eq(name):
            if not E.known(E.uniq(PList(E, n=r.n, fn=r.name))):
                raise Unsupported('names that may be equal')
            obj.rests.pop(k)
            return
    raise Unsupported('members deleted in a loop')


def same_tree(E, a, b, note):
    "the two nodes are equal but for groups without any content: calls note(what, condition)"
    if a.kind != b.kind:
        return note('the kind of an object', False)
    if a.kind == 'data':
        x, y = a.val, b.val
        if isinstance(x, LArr) and isinstance(y, LArr):
            return note('stored labels', E.seq_eq(x.L, y.L))
        if isinstance(x, Arr) and isinstance(y, Arr):
            if x.kind != y.kind or len(x.shape) != len(y.shape):
                return note('the dtype and dimensions of a dataset', False)
            note('the shape of a dataset', And(*[eqint(p, q) for p, q in zip(x.shape, y.shape)]))
            np = E.interp.np
            f, g = np.cellfn(x), np.cellfn(y)

            def cell(idx):
                p, q = f(idx), g(idx)
                return p == q if sym(p) or sym(q) else p == q
            return note('the cells of a dataset', E.forall_multi(x.shape, cell))
        return note('a dataset', False)
    def used(n):
        return [q for q in n.members if not (q[1].kind == 'group' and not q[1].attrs and not q[1].rests and not used(q[1]))]
    if sorted(k for k, _ in a.attrs) != sorted(k for k, _ in b.attrs):
        return note('the attributes of an object', False)
    for k, v in a.attrs:
        w = [q for p, q in b.attrs if p == k][0]
        note('attribute ' + k, E.eq(v, w) if v is not w else True)
    left = used(b)
    if len(used(a)) != len(left):
        return note('the members of a group', False)
    for nm, m in used(a):
        hit = [q for q in left if E.known(name_eq(E, nm, q[0]))]
        if not hit:
            return note('the members of a group', False)
        left = [q for q in left if q is not hit[0]]
        same_tree(E, m, hit[0][1], note)
    if len(a.rests) != len(b.rests):
        return note('the other members of a group', False)
    for r, s in zip(a.rests, b.rests):
        if r is s:
            continue
        note('the number of the other members', eqint(r.n, s.n))
        note('the names of the other members', E.forall_range(r.n, lambda i: E.eq(r.name(i), s.name(i))))
        i = E.const('other', Int)
        inside = inrange(i, r.n)
        same_tree(E, r.node(i), s.node(i), lambda what, c: note('other members: ' + what, Implies(inside, c)))
