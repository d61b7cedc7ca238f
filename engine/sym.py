"""Symbolic interpretation of the contract language (see harness/concrete.py for the
run-time one).  Draws become fresh symbols, G.call runs the symbolic interpreter on
the AST of the real function, and every ensures clause becomes a proof obligation.

Shapes are enumerated by *configuration* (number of axes, axis argument, dtype kind,
options); lengths, labels, cells and integers are symbolic and unbounded.
"""
import z3
from .core import *
from .interp import *
from .interp import Sc, Prod, PyIter, Bound, Builtin, Static, Prop, Fn, Inst, PyClass, subst_b, OStr
from . import nump
from . import iomodel



def _nobool(self):
    if z3.is_true(self):
        return True
    if z3.is_false(self):
        return False
    raise Unsupported('a symbolic condition was used as a host bool')


class Lazy(object):
    def __init__(self, f):
        self.f = f


def force(z):
    return z.f() if isinstance(z, Lazy) else z


class SSeq(object):
    "spec-level sequence"
    def __init__(self, L):
        self.L = L

    @property
    def n(self):
        return self.L.length()

    def get(self, i):
        return self.L.get(i if not isinstance(i, z3.IntNumRef) else i)

    @property
    def items(self):
        if self.L.items is None:
            raise Unsupported('items of a symbolic sequence')
        return list(self.L.items)


class View(object):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('attribute %s of a symbolic %s' % (k, type(self).__name__))


class SLV(View):
    "snapshot of a larry"
    def __init__(self, G, obj, exact=False):
        self.G, self.obj = G, obj
        self.snap()

    def snap(self):
        o = self.obj
        x, lab = o.attrs['x'], o.attrs['label']
        self.arr = x
        self.fn = self.G.np.cellfn(x)
        self.buffn = x.buf.fn
        self.shape = x.shape
        self.labobj = lab
        self.labs = [z.frozen() for z in lab.items]
        self.labitems = list(lab.items)
        self.nd = len(x.shape)
        self.dt = x.kind
        self.dtype = self.G.np.dts[x.kind]

    def n(self, ax):
        return self.shape[ax]

    def lab(self, ax):
        return SSeq(self.labs[ax])

    def cell(self, idx):
        return self.fn(list(idx))


class SAV(View):
    def __init__(self, G, obj):
        self.G, self.obj = G, obj
        self.snap()

    def snap(self):
        self.fn = self.G.np.cellfn(self.obj)
        self.buffn = self.obj.buf.fn
        self.shape = self.obj.shape
        self.nd = len(self.shape)
        self.dt = self.obj.kind
        self.dtype = self.G.np.dts[self.dt]

    def n(self, ax):
        return self.shape[ax]

    def cell(self, idx):
        return self.fn(list(idx))


class Family(object):
    "a family of archived larrys: n, names L, and per member the length m, the labels, the cells"
    def __init__(self, G, n, L, rest, m, lab, val):
        self.G, self.n, self.L, self.rest, self.m, self.labf, self.val = G, n, L, rest, m, lab, val

    def key(self, j):
        return self.L.get(j)

    def lab(self, j):
        return SSeq(PList(self.G.E, n=self.m(j), fn=lambda i: self.labf(j, self.G.E.coerce(i, Int))))

    def cell(self, j, i):
        return self.val(j, self.G.E.coerce(i, Int))

    def without(self, p):
        h = self.G.I.h5
        r = h.without(self.G.E, self.rest, p)
        return Family(self.G, r.n, PList(self.G.E, n=r.n, fn=r.name), r, None, None, None)


class SListV(View):
    def __init__(self, G, obj):
        self.G, self.obj = G, obj
        self.snap()

    def snap(self):
        self.cp = self.obj.frozen() if isinstance(self.obj, PList) else None
        if self.cp is not None:
            self.seq = SSeq(self.cp)
            self.n = self.seq.n
        else:
            self.pairs = None if self.obj.pairs is None else list(self.obj.pairs)
            self.kv = (self.obj.keys, self.obj.vals)

    def get(self, i):
        return self.seq.get(i)


class Table(object):
    repeats = False

    def __init__(self, n, cols, tups, vals):
        self.n, self.cols, self.tups, self.vals = n, cols, tups, vals


MODS = {'flarry': 'la.flarry', 'flabel': 'la.flabel', 'missing': 'la.missing', 'misc': 'la.util.misc',
        'resample': 'la.util.resample', 'move': 'la.farray.move', 'norm': 'la.farray.normalize',
        'group': 'la.farray.group', 'fmisc': 'la.farray.misc', 'testing': 'la.util.testing', 'io': 'la.io', 'cflabel': 'la.cflabel'}
UNOPS = {'neg': '__neg__', 'abs': '__abs__', 'invert': '__invert__', 'pos': '__pos__', 'invert_': '__invert__'}
OPN = {'and': 'and', 'or': 'or', 'and_': 'and', 'or_': 'or', 'pow': 'power', 'xor': 'xor'}


class SymG(object):
    symbolic = True
    allow_inf = True
    positive = False
    only_frame = False

    def __init__(self, E, I, cfg, only=None):
        self.E, self.I, self.np = E, I, I.np
        I.undo_globals()
        I.invs = {}
        I.on_yield = {}
        I.files = []
        I.archives = []
        self.cfg = cfg
        self.seqc = []          # configuration draws of this path: (name, chosen, count)
        self.draws = []
        self.results = []
        self.inputs = []        # (name, kind, data) to read back a model
        self.only = only        # None or a set of obligation groups
        self.target = '?'
        self.reached = False
        E.size_terms = []

    # ------------------------------------------------------------ logic
    def And(self, *a):
        r = True
        for z in a:
            z = force(z)
            if z is False:
                return False
            r = And(r, z)
        return r

    def Or(self, *a):
        r = False
        for z in a:
            z = force(z)
            if z is True:
                return True
            r = Or(r, z)
        return r

    def Not(self, a):
        return Not(force(a))

    def implies(self, a, b):
        a = force(a)
        if a is False:
            return True
        return Implies(a, force(b))

    def lazy(self, f):
        return Lazy(f)

    # ------------------------------------------------------------ configuration
    def option(self, name, values):
        if name in self.cfg:
            k = self.cfg[name]
        else:
            k = 0
        if k >= len(values):
            raise Infeasible()
        if not any(z[0] == name for z in self.seqc):
            self.seqc.append((name, k, len(values)))
        return values[k]

    def pick(self, name, values):
        values = list(values)
        v = self.option(name, values)
        self.inputs.append((name, 'const', values.index(v) if not sym(v) else 0))
        return v

    def flag(self, name):
        return self.pick(name, [False, True])

    def ndim(self, lo=1, hi=3, name='nd'):
        vals = list(range(lo, hi + 1))
        vals.sort(key=lambda d: {2: 0, 1: 1, 3: 2}.get(d, d + 5))
        v = self.option(name, vals)
        self.inputs.append((name, 'const', v))
        return v

    def axis(self, nd, none=False, neg=True, name='axis'):
        vals = list(range(nd)) + (list(range(-nd, 0)) if neg else []) + ([None] if none else [])
        v = self.option(name, vals)
        self.inputs.append((name, 'const', v))
        return v

    def dt(self, name, kinds='fibso'):
        ks = [k for k in 'fibso' if k in kinds]
        if not ks:
            raise Unsupported('dtype %s' % (kinds,))
        v = self.option(name, ks)
        self.inputs.append((name, 'const', v))
        return v

    # ------------------------------------------------------------ draws
    def int(self, name, lo, hi, free=False):
        E = self.E
        v = E.const('in_' + name, Int)
        self.inputs.append((name, 'int', v))
        if not free:
            if not (isinstance(lo, int) and lo < 0):
                E.assume(le(lo, v))
            if sym(hi):
                E.assume(v <= hi)
        return v

    def size(self, name, cap=100):
        E = self.E
        n = E.const('n_' + name, Int)
        E.assume(n >= 0)
        E.size_terms.append(n)
        self.inputs.append((name, 'int', n))
        return n

    def rawlabels(self, *a, **k):
        raise Unsupported('raw label list')

    def mklabels(self, name, n=None, uniq=True, kind=None):
        E = self.E
        given = n
        if n is None:
            n = E.const('n_' + name, Int)
            E.assume(n >= 0)
            E.size_terms.append(n)
        f = E.fn('l_' + name, [Int], U)
        L = PList(E, n=n, fn=f)
        if kind == 'int':
            E.assume(E.forall_range(n, lambda i: U.is_UI(f(i))))
        if uniq:
            E.assume(E.uniq(L))
            L.uniqf = True
        self.inputs.append((name, 'labels', L.frozen()))
        return L

    def labels(self, name, near=None, uniq=True, n=None, kind=None):
        L = self.mklabels(name, n=n, uniq=uniq, kind=kind)
        v = SListV(self, L)
        self.draws.append((name, v))
        return v

    def label(self, name, near):
        v = self.E.const('lab_' + name, U)
        self.inputs.append((name, 'u', v))
        return v

    def newarr(self, name, shape, dt):
        E = self.E
        if dt not in 'fibso':
            raise Unsupported('dtype ' + dt)
        f = E.fn('c_' + name, [Int] * len(shape), nump.SORT[dt])
        if dt in 'fc':
            E.vaxioms()
        a = nump.Arr(dt, tuple(shape), nump.Buf(E, tuple(shape), lambda idx: f(*idx), dt), name='S3' if dt == 's' else None)
        self.inputs.append((name, 'cells', (tuple(shape), f, dt)))
        return a

    def larry(self, name, nd, dt, near=None, minsize=0, cap=None, labels=None, vals=None, kinds=None, shape=None):
        E = self.E
        labs = []
        for ax in range(nd):
            nm = '%s.label%d' % (name, ax)
            if labels and ax in labels:
                s = labels[ax]
                L = s.L.copy() if isinstance(s, SSeq) else (s.obj.copy() if isinstance(s, SListV) else self.wrap(list(s)))
                L.uniqf = True
                labs.append(L)
                continue
            n = shape[ax] if shape and ax in shape else None
            L = self.mklabels(nm, n=n, kind=None)
            if minsize:
                E.assume(le(minsize, L.n))
            labs.append(L)
        x = self.newarr(name + '.x', tuple(L.length() for L in labs), dt)
        o = Inst(E, self.I.mods['la.deflarry'].d['larry'])
        o.attrs['x'] = x
        o.attrs['label'] = PList(E, items=labs)
        v = SLV(self, o)
        self.draws.append((name, v))
        return v

    def twin(self, name, x, dt):
        return self.larry(name, x.nd, dt)

    def twin_array(self, name, x, dt):
        return self.array(name, x.shape, dt)

    def cellof(self, x):
        return self.np.cellvalue(x.obj, [0])

    def alias(self, name, x, share, labs):
        E, s = self.E, x.obj
        o = Inst(E, self.I.mods['la.deflarry'].d['larry'])
        a = s.attrs['x']
        o.attrs['x'] = a if share == 'same' else self.np.getitem(a, (slice(None, None, None),)) if share == 'view' else self.np.copy(a)
        o.attrs['label'] = PList(E, items=[L if keep else L.copy() for L, keep in zip(s.attrs['label'].items, labs)])
        v = SLV(self, o)
        self.draws.append((name, v))
        return v

    def close(self, a, b, decimal):
        return self.np.close(self.rawc(a), self.rawc(b), decimal)

    def array(self, name, shape, dt, vals=None):
        v = SAV(self, self.newarr(name, tuple(shape), dt))
        self.draws.append((name, v))
        return v

    def bounded_ints(self, name, n, lo, hi, free):
        E = self.E
        f = E.fn('i_' + name, [Int], Int)
        cs = []
        if not free:
            if not (isinstance(lo, int) and lo < 0):
                cs.append(lambda i: le(lo, f(i)))
            if sym(hi):
                cs.append(lambda i: f(i) <= hi)
        if cs:
            E.assume(E.forall_range(n, lambda i: And(*[c(i) for c in cs])))
        return f

    def intlist(self, name, n, lo, hi, free=False):
        f = self.bounded_ints(name, n, lo, hi, free)
        L = PList(self.E, n=n, fn=f)
        self.inputs.append((name, 'ints', L.frozen()))
        v = SListV(self, L)
        self.draws.append((name, v))
        return v

    def intarray(self, name, n, lo, hi, free=False):
        f = self.bounded_ints(name, n, lo, hi, free)
        a = nump.Arr('i', (n,), nump.Buf(self.E, (n,), lambda idx: f(idx[0]), 'i'))
        self.inputs.append((name, 'ints', PList(self.E, n=n, fn=f)))
        v = SAV(self, a)
        self.draws.append((name, v))
        return v

    def table(self, nd, dt, repeats=False):
        "n label tuples with a value each (distinct unless repeats)"
        E = self.E
        n = E.const('n_cells', Int)
        E.assume(n >= 0)
        E.size_terms.append(n)
        cols = [self.mklabels('col%d' % a, n=n, uniq=False) for a in range(nd)]
        x = self.newarr('x', (n,), dt)
        f = self.np.cellfn(x)
        tups = PList(E, n=n, fn=lambda k: tuple(c.get(k) for c in cols))
        vals = PList(E, n=n, fn=lambda k: self.np.value(dt, f([k])))
        if not repeats:
            E.assume(E.uniq(tups))
        t = Table(n, [SSeq(c.frozen()) for c in cols], SSeq(tups), SSeq(vals))
        t.repeats = repeats
        return t

    def same_table(self, t, vals):
        return vals

    def find(self, t, key):
        "(is the label tuple in the table?, its last position)"
        mem, pos = self.E.skolem_index(t.tups.L, first=False) if t.repeats else self.E.list_index(t.tups.L)
        key = tuple(key)
        return mem(key), pos(key)

    def listed(self, name, s):
        "a list with these elements, as an input"
        v = SListV(self, s.L.copy() if isinstance(s, SSeq) else self.wrap(s))
        self.draws.append((name, v))
        return v

    def mkdict(self, name, keys, vals):
        d = PDict(self.E, keys=keys.L.copy(), vals=vals.L.copy())
        d.keys.uniqf = True
        d.ordered = d.keys, d.vals    # an input dict: any order is possible, and it is this one
        v = SListV(self, d)
        self.draws.append((name, v))
        return v

    # ------------------------------------------------------------ text and files
    def text(self, name):
        "an arbitrary string"
        t = self.E.const('text_' + name, iomodel.TextS)
        self.inputs.append((name, 'text', t))
        return iomodel.Text(self.E, [iomodel.Of('raw', 'text', t)])

    def str(self, v):
        t = iomodel.str_of(self.I, self.rawval(v))
        if t is None:
            raise Unsupported('str of %r' % (v,))
        return t

    def rawval(self, v):
        return force(v)

    def val(self, x, idx):
        "the scalar at idx"
        return self.np.value(x.dt, x.cell(idx))

    def cat(self, *ts):
        return iomodel.Text(self.E, [iomodel.as_text(self.E, t) for t in ts])

    def rep(self, n, f):
        "f(0) + f(1) + ... + f(n-1)"
        return iomodel.Text(self.E, [iomodel.Rep(n, f)])

    def joined(self, d, n, f):
        "d.join([f(0), ..., f(n-1)])"
        return iomodel.as_text(self.E, iomodel.join(self.I, d, PList(self.E, n=n, fn=f)))

    def open_file(self, name, mode='w'):
        return iomodel.open_file(self.I, name, mode)

    def content(self, f):
        "the text in a file, given as a file object or by name"
        if isinstance(f, iomodel.GFile):
            return f.content.text(self.E)
        for nm, c in self.I.files:
            if iomodel.same_text(self.E, nm, f) is True:
                return c.text(self.E)
        self.check('the file was written', False)

    def csv_row(self, d, fields):
        fs = []
        for z in fields:
            fs.append(iomodel.str_of(self.I, z, 'repr' if isinstance(z, Sc) and z.kind == 'f' else 'str'))
        return iomodel.Text(self.E, [iomodel.Row(iomodel.as_text(self.E, d), fs)])

    def csv_file(self, name, d, header, n, row):
        "a file of `header` arbitrary lines and n rows of strings"
        E = self.E

        def field(z):
            return iomodel.Text(E, [iomodel.Of('raw', z.kind, z.v) if isinstance(z, Sc) else iomodel.Of('raw', 'u', z)])

        def line(i):
            return iomodel.Text(E, [iomodel.Row(iomodel.as_text(E, d), [field(z) for z in row(i)])])
        c = iomodel.Content(E, [iomodel.Header(k) for k in range(header)] + [iomodel.Rep(n, line)])
        self.I.files.append((name, c))

    def numeric_text(self):
        "the strings given are numbers"
        self.E.numeric_text = True

    def check_text(self, name, got, want):
        self.check(name, iomodel.equal(self.E, got, want))

    # ------------------------------------------------------------ archives
    def typed(self):
        "labels have types"
        self.I.h5.typed(self.E)

    def label_kind(self, x, a, kind):
        "the labels along axis a are all of this type"
        h, L = self.I.h5, x.lab(a)
        self.assume(self.E.forall_range(L.n, lambda i: h.TY(L.get(i)) == h.CODES[kind]))

    def key(self, name, *others):
        "a name without a slash, different from the others"
        h, E = self.I.h5, self.E
        u = E.const('key_' + name, U)
        E.assume(h.TY(u) == h.CODES['str'])
        E.assume(z3.Function('v_isname', U, Bool)(u))
        E.assume(Not(E.eq(u, '')))
        for v in others:
            if isinstance(v, Family):
                E.assume(Not(E.list_index(v.L)[0](u)))
                E.assume(E.forall_range(v.n, lambda i, v=v: v.L.get(i) != u))
            else:
                E.assume(u != v)
        self.inputs.append((name, 'label', u))
        return u

    def types_differ(self, u, v):
        h = self.I.h5
        self.assume(h.TY(u) != h.TY(v))

    def archive(self, name, *rests):
        "an archive of this name, holding the given families"
        root = self.I.h5.HNode(self.I, 'group')
        root.rests = [r.rest if isinstance(r, Family) else r for r in rests]
        self.I.archives.append((name, root))

    def opened(self, name):
        "the archive of this name, opened"
        return self.I.h5.h5py_module(self.I).d['File'].make(name)

    def is_open(self, what, f):
        self.obligation('ensures', what, isinstance(f, self.I.h5.HFile) and not f.closed)

    def is_closed(self, what, f):
        self.obligation('ensures', what, isinstance(f, self.I.h5.HFile) and f.closed)

    def is_none(self, r, name='result'):
        self.obligation('ensures', '%s is None' % name, r is None)

    def names(self, name, apart):
        "n different names, none of them among others"
        h, E = self.I.h5, self.E
        n = self.size(name + '.n')
        f = E.fn('name_' + name, [Int], U)
        ok = z3.Function('v_isname', U, Bool)
        L = PList(E, n=n, fn=lambda i: f(E.coerce(i, Int)))
        E.assume(E.forall_range(n, lambda i: And(h.TY(f(i)) == h.CODES['str'], ok(f(i)), Not(E.eq(f(i), '')))))
        E.assume(E.uniq(L))
        for a in apart:
            if isinstance(a, PList):
                E.assume(E.forall_range(n, lambda i: Not(E.list_index(a)[0](f(E.coerce(i, Int))))))
                E.assume(E.forall_range(a.n, lambda i: Not(E.list_index(L)[0](a.get(i)))))
            else:
                E.assume(Not(E.list_index(L)[0](a)))
                E.assume(E.forall_range(n, lambda i: f(E.coerce(i, Int)) != a))
        return n, L

    def family(self, name, *apart):
        "arbitrarily many saved larrys: 1d, of floats, labels ints"
        h, E, I = self.I.h5, self.E, self.I
        h.typed(E)
        n, L = self.names(name, [a.L if isinstance(a, Family) else a for a in apart])
        m = E.fn('m_' + name, [Int], Int)
        lab = E.fn('lab_' + name, [Int, Int], U)
        val = E.fn('val_' + name, [Int, Int], V)
        E.vaxioms()
        c = E.canon('i', Int)
        lists = lambda i: PList(E, n=m(i), fn=lambda j: lab(i, E.coerce(j, Int)))
        with E.generic(c):
            E.assume(mk_forall(E, [c], z3.Implies(z3.And(0 <= c, lt(c, n)), to_bool(And(0 < m(c), E.uniq(lists(c)),
                     E.forall_range(m(c), lambda j: h.TY(lab(c, E.coerce(j, Int))) == 1)))), pat=m(c)))

        def body():
            E.assume(And(0 <= c, lt(c, n)))
            o = Inst(E, I.mods['la.deflarry'].d['larry'])
            o.attrs['x'] = nump.Arr('f', (m(c),), nump.Buf(E, (m(c),), lambda idx: val(c, E.coerce(idx[0], Int)), 'f'))
            o.attrs['label'] = PList(E, items=[lists(c)])
            saved = I.archives
            I.archives = []
            try:
                I.call(I.mods['la.io'].d['save'], ('template', o, L.get(c)), {})
                root, = I.archives
                (_, node), = root[1].members
            finally:
                I.archives = saved
            return node
        with E.generic(c):
            outs = E.sub(body)
        if len(outs) != 1 or outs[0][1] != 'ok':
            raise Unsupported('family of larrys: %r' % (outs,))
        node = outs[0][2]
        return Family(self, n, L, h.Rest(n, L.fn, lambda i: node.subst(c, i)), m, lab, val)

    def groups(self, name, *apart):
        "arbitrarily many groups that are not larrys"
        h = self.I.h5
        n, L = self.names(name, [a.L if isinstance(a, Family) else a for a in apart])
        return Family(self, n, L, h.Rest(n, L.fn, lambda i: h.HNode(self.I, 'group')), None, None, None)

    def check_archive(self, what, name, want):
        "the archive holds the same as another one"
        h, E = self.I.h5, self.E
        root = {}
        for nm, r in self.I.archives:
            for k in (name, want):
                if iomodel.same_text(E, nm, k) is True:
                    root[id(k)] = r
        if id(name) not in root:
            self.fail('ensures', '%s: the archive is there' % what)
        h.same_tree(E, root[id(name)], root[id(want)], lambda t, c: self.obligation('ensures', '%s: %s' % (what, t), c))

    def refused(self, name, *args, **kw):
        "the call must raise"
        cls = kw['raises']
        self.reached = True
        self.target = name
        try:
            self.resolve(name)(*[self.wrap(a) for a in args])
        except PyRaise as e:
            ok = isinstance(e.cls, type) and issubclass(e.cls, cls)
            self.obligation('ensures', 'raises only %s (%s)' % (cls, name), ok)
            return
        self.obligation('ensures', 'raises when specified (%s)' % name, False)

    def lists_all(self, r, n, own, fam, absent, plain):
        "a list of n different strings: these, the keys of the family, and nothing else"
        E, I = self.E, self.I
        L = I.seq(r)
        self.check('the number of keys', eqint(L.length(), n))
        segs = L.segments()
        seg = lambda s: E.list_index(PList(E, n=s[1], fn=s[2]))

        def has(k):
            if isinstance(k, iomodel.Text):
                return I.h5.list_has(I, L, k)
            return Or(*[I.truth_term(I.equal(s[1], k)) if s[0] == 'one' else seg(s)[0](k) for s in segs])
        for k in own:
            self.check('every larry is listed', has(k))
        j = E.const('any', Int)
        for k in absent:
            self.check('nothing else is listed', Not(has(k)))
        if E.branch(inrange(j, fam.n)):
            self.check('every other larry is listed', has(fam.L.get(j)))
        if E.branch(inrange(j, plain.n)):
            self.check('no group is listed', Not(has(plain.L.get(j))))

    def elements(self, r, like=None):
        """the parts of a list: (None, element), or (index, element) for a part of unknown length
        (like: the parts of another list, whose indices are used)"""
        E = self.E
        out = []
        for k, s in enumerate(self.I.seq(r).segments()):
            if s[0] == 'one':
                out.append((None, s[1]))
            else:
                if like is not None and k < len(like):
                    j = like[k][0]
                    self.check('as many elements', j is not None and inrange(j, s[1]))
                else:
                    j = E.const('any%d' % k, Int)
                    E.assume(inrange(j, s[1]))
                out.append((j, s[2](j)))
        return out

    def check_files(self, what, *names):
        "there are no other archives"
        self.obligation('ensures', what, len(self.I.archives) == len(names) and all(
            any(iomodel.same_text(self.E, nm, k) is True for k in names) for nm, _ in self.I.archives))

    def path(self, *names):
        "names joined by slashes"
        return self.I.h5.path_text(self.E, list(names))

    def tuple_larry(self, name, t, dt):
        "1d larry whose labels are the tuples of the table"
        E = self.E
        o = Inst(E, self.I.mods['la.deflarry'].d['larry'])
        g = t.vals.L
        a = nump.Arr(dt, (t.n,), nump.Buf(E, (t.n,), lambda idx: E.coerce(g.get(idx[0]).v if isinstance(g.get(idx[0]), Sc) else g.get(idx[0]), nump.SORT[dt]), dt))
        o.attrs['x'] = a
        L = t.tups.L.copy()
        L.uniqf = True
        o.attrs['label'] = PList(E, items=[L])
        v = SLV(self, o)
        self.draws.append((name, v))
        return v

    def scalar(self, name, dt='f'):
        E = self.E
        if dt == 'f':
            E.vaxioms()
            v = E.const('s_' + name, V)
            self.inputs.append((name, 'v', v))
            return Sc('f', v)
        if dt == 'i':
            v = E.const('s_' + name, Int)
            self.inputs.append((name, 'int', v))
            return v
        vals = {'b': [True, False], 's': ['', 'a'], 'o': [None, 'a']}[dt]
        v = self.option(name, vals)
        self.inputs.append((name, 'const', v))
        return v

    def obj(self, name, v):
        w = SListV(self, self.wrap(v))
        self.draws.append((name, w))
        return w

    def func(self, name, which):
        f = self.E.fn('f_' + name, [U], U)
        return Builtin(name, lambda z: f(self.E.toU(z))), lambda z: f(self.E.toU(z))

    def reducer(self, name):
        np = self.np

        def call(arr, axis=None, **kw):
            return np.reduce_(name, arr, axis, kind='f', kw=sorted(kw.items()),
                              cellf=(lambda c: np.cast(c, arr.kind, 'f')) if arr.kind != 'f' else None)
        return Builtin(name, call)

    def nope(self, *a, **k):
        raise Unsupported('run-time only construct')
    iterate = scratch = nope

    def permuter(self, name):
        "a caller's shuffle function: permutes its argument in place, we do not know how"
        return Builtin(name, self.np.rnd_shuffle)

    def randinter(self, name):
        return Builtin(name, self.np.rnd_randint)

    def idiv(self, a, b):
        return self.E.idiv(a, b)

    def flat_size(self, shape):
        return self.E.flat_size(shape)

    def digits(self, shape, p):
        "index tuple with C-order number p"
        return self.E.digits(shape, p)

    def number(self, shape, idx):
        return self.E.number(shape, idx)

    def hint(self, *terms):
        "terms the solver should look at; says nothing about them"
        E = self.E
        for t in terms:
            t = force(t)
            if sym(t):
                h = z3.Function('hint!%s' % t.sort(), t.sort(), Bool)(t)
                if self.hints is None:
                    E.assume(h)
                else:
                    self.hints.append(h)
    hints = None

    def key_order(self, d):
        "the order of the keys of a dict built from a list: (k-th key -> position in the list, the inverse)"
        self.I.dict_lists(d)
        return getattr(d, 'order', (lambda k: k, lambda k: k))

    def same_set(self, name, a, b, at):
        "a and b have the same elements: a[i] occurs in b, and b[j] is a[at(j)]"
        E = self.E
        A, B = self.wrapseq(a), self.wrapseq(b)
        mem, pos = E.list_index(B)
        self.at_indices([A.length()], lambda k: self.obligation('ensures', name + ' (in)', mem(A.get(k[0]))))

        def back(k):
            w = force(at(k[0]))
            self.obligation('ensures', name + ' (all)', And(inrange(w, A.length()), E.eq(A.get(w), B.get(k[0]))))
        self.at_indices([B.length()], back)
        if not any(o['status'] != 'discharged' for o in E.obligations[-2:]):
            E.same_enum(PSet.from_list(E, A), PSet.from_list(E, B))

    def fact(self, name, c):
        "proved here, and then known"
        c = force(c)
        self.obligation('ensures', name, c)
        if c is not True:
            self.E.assume(c)

    def lemma(self, name, n, f, at=None):
        "f(j) for all j in range(n): proved, and then known (wherever at(j) occurs)"
        E = self.E
        self.at_indices([n], lambda idx: self.obligation('ensures', name, f(idx[0])))
        c = E.canon('i', Int)
        self.hints = []
        with E.generic(c):
            b = And(force(f(c)), *self.hints)
            t = force(at(c)) if at else None
        self.hints = None
        E.add_axiom(mk_forall(E, [c], z3.Implies(to_bool(inrange(c, n)), to_bool(b)), pat=t))

    def drawn(self, k):
        "the k-th array of random numbers drawn, as a sequence"
        E = self.E
        if not E.drawn:
            raise Unsupported('no random numbers drawn')
        name, shape, f = E.drawn[k]
        if len(shape) != 1:
            raise Unsupported('random numbers of another shape')
        r = self.seq(shape[0], lambda i: f(E.coerce(i, Int)))
        r.range = E.drawrange.get(f)
        return r

    def pyop(self, name, a, b):
        "the operation on plain Python numbers"
        r = self.I.binop(name, force(a), force(b))
        return self.E.toV(r) if is_real(r) else r

    def draw(self, k):
        "(source, shape, cells) of the k-th draw of random numbers"
        name, shape, f = self.E.drawn[k]
        return name, list(shape), (lambda idx: f(*[self.E.coerce(i, Int) for i in idx]))

    def draws_made(self):
        return len(self.E.drawn)

    def nested(self, x):
        "the cells of an array as nested lists"
        return self.np.m_tolist(x.obj)

    def toint(self, v):
        return self.np.cast(self.rawc(v), 'f', 'i')

    def perm_inverse(self, k):
        return self.E.perms[k][2]

    def assume(self, c):
        c = force(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.E.assume(c)

    # ------------------------------------------------------------ spec language
    def wrapseq(self, s):
        return s.L if isinstance(s, SSeq) else (s.obj if isinstance(s, SListV) else s)

    def seq(self, n, f):
        return SSeq(PList(self.E, n=n, fn=lambda i: self.raw(f(i))))

    def list_seq(self, items):
        return SSeq(PList(self.E, items=[self.raw(z) for z in items]))

    def raw(self, v):
        if isinstance(v, SSeq):
            return v.L
        if isinstance(v, (list,)):
            return PList(self.E, items=[self.raw(z) for z in v])
        return v

    def isin(self, s, v):
        return self.wrapseq(s).mem(v)

    def index(self, s, v):
        return self.wrapseq(s).pos(v)

    def last(self, s, v):
        L = self.wrapseq(s)
        if L.uniqf:
            return L.pos(v)
        if L.items is not None:
            r = 0
            for i, z in enumerate(L.items):
                r = self.E.ite(self.E.eq(z, v), i, r)
            return r
        return self.E.skolem_index(L, first=False)[1](v)

    def eq(self, a, b):
        return self.valeq(a, b)

    def ult(self, a, b):
        return self.E.ult(a, b)

    def seq_eq(self, a, b):
        return self.E.seq_eq(self.wrapseq(a), self.wrapseq(b))

    def uniq(self, s):
        return self.E.uniq(self.wrapseq(s))

    def all(self, n, f):
        return self.E.forall_range(n, lambda i: force(f(i)))

    def any(self, n, f):
        return self.E.exists_range(n, lambda i: force(f(i)))

    def inter(self, a, b):
        E = self.E
        A, B = PSet.from_list(E, self.wrapseq(a)), PSet.from_list(E, self.wrapseq(b))
        return SSeq(E.set_enum(self.I.setop('and', A, B)))

    def union(self, a, b):
        E = self.E
        A, B = PSet.from_list(E, self.wrapseq(a)), PSet.from_list(E, self.wrapseq(b))
        return SSeq(E.set_enum(self.I.setop('or', A, B)))

    def sorted(self, a, reverse=False):
        return SSeq(self.I.sort_list(self.wrapseq(a), reverse))

    def sorted_set(self, a):
        return SSeq(self.E.set_enum(PSet.from_list(self.E, self.wrapseq(a))))

    def filt(self, n, pred):
        return SSeq(self.E.filter_list(n, lambda i: force(pred(i))))

    def last_where(self, n, pred):
        return self.E.last_where(n, lambda i: force(pred(i)))

    def flatpos(self, shape, idx):
        "position of a cell among all cells, in C order"
        return self.E.number(tuple(shape), list(idx))

    def redall(self, name, x, **kw):
        if name in EXPAND:
            return EXPAND[name](self, tuple(x.shape), x.fn, **kw)
        if name in ('any', 'all'):
            q = self.E.exists_multi if name == 'any' else self.E.forall_multi
            return q(x.shape, lambda idx: self.np.truthcell(x.fn(idx)))
        return self.np.red(name, x.shape, x.fn, sorted(kw.items()))

    def red(self, name, n, f, dtype=None, **kw):
        if name in ('any', 'all'):
            q = self.E.exists_range if name == 'any' else self.E.forall_range
            return q(n, lambda i: self.np.truthcell(self.rawc(f(i))))
        if name in EXPAND:
            return EXPAND[name](self, (n,), lambda k: self.rawc(f(k[0])), **kw)
        return self.np.red(name, (n,), lambda k: self.rawc(f(k[0])), sorted(kw.items()))

    def corr(self, shape, fx, fy, gap, whole):
        E, np = self.E, self.np
        u, v = [lambda k, f=f: np.tofloatcell(self.rawc(f(list(k)))) if gap else self.rawc(f(list(k))) for f in (fx, fy)]
        if gap:
            miss = lambda k, u=u, v=v: Or(self.isnan(u(k)), self.isnan(v(k)))
            if whole:       # of the list of the complete pairs
                n = E.flat_size(tuple(shape)) if len(shape) > 1 else shape[0]
                at = (lambda t: E.digits(tuple(shape), t)) if len(shape) > 1 else (lambda t: [t])
                L = self.filt(n, lambda t: Not(miss(at(t))))
                dims, mean, total = (L.n,), 'mean', 'sum'
                u, v = [lambda k, f=f: f(at(L.get(k[0]))) for f in (u, v)]
            else:           # of the lines with NaN where either is missing
                dims, mean, total = tuple(shape), 'nanmean', 'nansum'
                u, v = [lambda k, f=f: E.ite(miss(k), E.NAN, f(k)) for f in (u, v)]
        else:
            dims, mean, total = tuple(shape), 'mean', 'sum'
        if not gap and whole and len(shape) > 1:
            dims, at = (E.flat_size(tuple(shape)),), lambda k: E.digits(tuple(shape), k[0])
            u, v = [lambda k, f=f: f(at(k)) for f in (u, v)]
        mu, mv = np.red(mean, dims, u), np.red(mean, dims, v)
        du, dv = lambda k: self.op('sub', u(k), mu), lambda k: self.op('sub', v(k), mv)
        s = lambda f: np.red(total, dims, f)
        num = s(lambda k: self.op('mul', du(k), dv(k)))
        den = self.uop('sqrt', self.op('mul', s(lambda k: self.op('power', du(k), 2)), s(lambda k: self.op('power', dv(k), 2))))
        return self.op('div', num, den)

    def sum_all(self, shape, f):
        return self.np.red('sum', tuple(shape), lambda k: self.rawc(f(list(k))))

    def count_all(self, shape, pred):
        return self.np.red('sum', tuple(shape), lambda k: self.E.coerce(force(pred(list(k))), Int))

    def rawc(self, v):
        v = force(v)
        if isinstance(v, Sc):
            return v.v
        if isinstance(v, float) or v is None or isinstance(v, str):
            return self.E.toV(v)
        return v

    def ite(self, c, a, b):
        c = force(c)
        if not isinstance(c, bool):
            c = simp(c)
        if c is True:
            return a()
        if c is False:
            return b()
        x, y = a(), b()
        x = x.v if isinstance(x, Sc) else x
        y = y.v if isinstance(y, Sc) else y
        if isinstance(x, SSeq):
            x, y = x.L, y.L
        return self.E.ite(c, x, y)

    def min(self, a, b):
        return self.ite(a <= b, lambda: a, lambda: b)

    def max(self, a, b):
        return self.ite(a >= b, lambda: a, lambda: b)

    def branch(self, c):
        return self.E.branch(force(c))

    def select(self, i, thunks):
        if isinstance(i, int):
            return thunks[i]()
        r = thunks[-1]()
        for k in reversed(range(len(thunks) - 1)):
            r = self.ite(i == k, thunks[k], lambda r=r: r)
        return r

    def slice_pos(self, n, start, stop, step):
        a, st, ln = self.I.slice_indices(slice(start, stop, step), n)
        return SSeq(PList(self.E, n=ln, fn=lambda i: simp_int(a + i * st)))

    def ufunc(self, name):
        nm = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'div': 'divide', 'lt': 'less', 'eq': 'equal'}.get(name, name)
        return self.I.getattr_(self.I.load('numpy'), nm)

    def marker(self, dt):
        return nump.default_cell(self.E, {'f4': 'f'}.get(dt, dt)) if dt in ('f', 's', 'o', 'c', 'f4') else self.nope()

    def missing(self, v, dt):
        v = self.rawc(v)
        if dt in ('f', 'c'):
            if vsort(v) != V:
                return False
            return self.np.cellun('isnan', v)
        if dt in 'so':
            return self.E.toV(v) == (self.E.EMPTY if dt == 's' else self.E.NONEV)
        return False

    def present(self, v, dt):
        if dt in ('f', 'i', 'b', 'c'):
            return self.np.cellun('isfinite', self.rawc(v))
        return self.Not(self.missing(v, dt))

    def tofloat(self, v):
        if isinstance(v, Sc) and v.kind == 's':
            return self.np.cast(v.v, 's', 'f')
        v = self.rawc(v)
        s = vsort(v)
        return v if s == V else self.E.toV(self.E.coerce(v, Int))

    def isnan(self, v):
        return self.np.cellun('isnan', self.rawc(v))

    def isfinite(self, v):
        return self.np.cellun('isfinite', self.rawc(v))

    def isinf(self, v):
        return self.np.cellun('isinf', self.rawc(v))

    def plain(self, v):
        "a value equal to nothing but itself: not NaN, and not one of the two float zeros"
        v = self.rawc(v)
        return z3.Function('v_plain', V, Bool)(v) if sym(v) and v.sort() == V else True

    def truth(self, v):
        return self.np.truthcell(self.rawc(v))

    def op(self, name, a, b):
        return self.np.cellop(name, self.rawc(a), self.rawc(b))

    def uop(self, name, a):
        return self.np.cellun(name, self.rawc(a))

    def lt(self, a, b):
        a, b = self.rawc(a), self.rawc(b)
        if is_u(a) or is_u(b):
            return self.E.ult(a, b)
        return self.np.cellop('lt', a, b)

    def all_finite_or_nan(self, x):
        return self.all_cells(x.shape, lambda idx: Not(self.isinf(x.cell(idx))))

    def all_cells(self, shape, f):
        return self.E.forall_multi(shape, lambda idx: force(f(idx)))

    def any_index(self, ns, f):
        return self.E.exists_multi(ns, lambda idx: force(f(idx)))

    def all_index(self, ns, f):
        return self.E.forall_multi(ns, lambda idx: force(f(idx)))

    def near_eq(self, a, b):
        return self.valeq(a, b)

    # equality of result values (NaN equal to NaN)
    def valeq(self, a, b):
        E = self.E
        a, b = force(a), force(b)
        a, b = [z.term() if isinstance(z, Prod) else z for z in (a, b)]
        if isinstance(a, SSeq):
            a = a.L
        if isinstance(b, SSeq):
            b = b.L
        if isinstance(a, nump.Arr) and not a.shape:
            a = self.np.cellvalue(a, [])
        if isinstance(a, (PList, tuple)) or isinstance(b, (PList, tuple)):
            if not (isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple))):
                return False
            ta = isinstance(a, tuple) or a.tup
            tb = isinstance(b, tuple) or b.tup
            if ta != tb:
                return False
            A, B = self.I.seq(a), self.I.seq(b)
            if A.items is not None and B.items is not None:
                if len(A.items) != len(B.items):
                    return False
                return And(*[self.valeq(x, y) for x, y in zip(A.items, B.items)])
            return E.seq_eq(A, B)
        if isinstance(a, OStr) or isinstance(b, OStr):
            raise Unsupported('untracked string')
        if isinstance(a, (Inst, PDict, nump.Arr)) or isinstance(b, (Inst, PDict, nump.Arr)):
            raise Unsupported('value equality of %r and %r' % (a, b))
        a = a.v if isinstance(a, Sc) else a
        b = b.v if isinstance(b, Sc) else b
        if is_u(a) or is_u(b):
            return E.eq(a, b)
        if is_v(a) or is_v(b) or isinstance(a, float) or isinstance(b, float):
            f = lambda z: E.toV(E.coerce(z, Int)) if vsort(z) in (Int, Bool) else E.toV(z)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                f = E.toV
            x, y = f(a), f(b)
            return True if x.eq(y) else x == y
        if vsort(a) == Bool and vsort(b) == Bool:
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return to_bool(a) == to_bool(b)
        if vsort(a) in (Int, Bool) and vsort(b) in (Int, Bool):
            a, b = [int(z) if isinstance(z, bool) else (E.coerce(z, Int) if is_bool(z) else z) for z in (a, b)]
            return eqint(a, b)
        if sym(a) or sym(b):
            return E.eq(a, b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return type(a) is type(b) and a == b
        raise Unsupported('value equality of %r and %r' % (a, b))

    # ------------------------------------------------------------ calls
    def wrap(self, v):
        "host value of a contract -> interpreter value"
        if isinstance(v, (SLV, SAV, SListV)):
            return v.obj
        if isinstance(v, SSeq):
            return v.L.copy()
        if type(v) is tuple:
            return tuple(self.wrap(z) for z in v)
        if type(v) is list:
            return PList(self.E, items=[self.wrap(z) for z in v])
        if type(v) is slice:
            return slice(self.wrap(v.start), self.wrap(v.stop), self.wrap(v.step))
        if type(v) is dict:
            return PDict(self.E, pairs=[(self.wrap(a), self.wrap(b)) for a, b in v.items()])
        if v is None or isinstance(v, (bool, int, float, str, Sc, Inst, PList, PDict, nump.Arr, Builtin, Fn, PyClass, Bound, PyIter, OStr, iomodel.GFile, nump.DType, self.I.h5.HObj)) or sym(v) \
                or v is NotImplemented or v is Ellipsis:
            return v
        if type(v) is set:
            return PSet.from_list(self.E, PList(self.E, items=[self.wrap(z) for z in sorted(v)]))
        if isinstance(v, type):
            if v in (int, float, bool, str, object, list, tuple, dict):
                return v
        raise Unsupported('argument %r' % (v,))

    def resolve(self, name):
        I = self.I
        E = self.E
        if name.startswith('op.'):
            n = name[3:]
            if n == 'getitem':
                return I.getitem
            if n == 'setitem':
                return I.setitem
            if n == 'contains':
                return I.contains
            if n == 'delitem':
                return lambda o, i: I.call_method(o, '__delitem__', (i,))
            if n == 'len':
                return I.bi_len
            if n == 'iter':
                return I.bi_iter
            if n == 'list':
                return lambda r: I.seq(r).copy()
            if n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                return lambda a, b: I.compare(n, a, b)
            if n in UNOPS:
                return lambda a: I.call_method(a, UNOPS[n], ())
            if n[0] == 'i' and n[1:] in ('add', 'sub', 'mul', 'div', 'and', 'or', 'pow'):
                return lambda a, b: I.inplace(OPN.get(n[1:], n[1:]), a, b)
            return lambda a, b: I.binop(OPN.get(n, n), a, b)
        if name.startswith('lara.') or name.startswith('IO.'):
            return lambda o, *a, **k: I.call(I.getattr_(o, name.split('.')[1]), a, k)
        if name.startswith('get.'):
            return lambda o: I.getattr_(o, name[4:])
        parts = name.split('.')
        if parts[0] in ('larry', 'lix'):
            cls = I.mods['la.deflarry'].d['larry']
            if len(parts) == 1:
                return lambda *a, **k: I.call(cls, a, k)
            if parts[0] == 'lix':
                if parts[1] == 'get':
                    return lambda o, i: I.getitem(I.getattr_(o, 'lix'), i)
                return lambda o, i, v: I.setitem(I.getattr_(o, 'lix'), i, v)
            m = cls.find(parts[1])
            if m is None:
                raise Unresolved(name)
            if isinstance(m, Prop):
                return lambda o: I.getattr_(o, parts[1])
            if isinstance(m, Static):
                return lambda *a, **k: I.call(m.f, a, k)
            return lambda o, *a, **k: I.call(I.getattr_(o, parts[1]), a, k)
        m = I.mods.get(MODS[parts[0]])
        if m is None or parts[1] not in m.d:
            raise Unresolved(name)
        f = m.d[parts[1]]
        return lambda *a, **k: I.call(f, a, k)

    def call(self, name, *args, **opts):
        E = self.E
        kw = opts.pop('kw', {})
        raises = opts.pop('raises', [])
        modifies = opts.pop('modifies', [])
        f = self.resolve(name)
        a = [self.wrap(z) for z in args]
        k = dict((q, self.wrap(z)) for q, z in kw.items())
        self.target = name
        conds = []
        for cls, cond in raises:
            c = force(cond)
            conds.append((cls if isinstance(cls, tuple) else (cls,), c if isinstance(c, bool) else simp(c)))
        self.reached = True
        try:
            r = f(*a, **k)
        except PyRaise as e:
            import os, traceback
            if os.environ.get('VERIF_TB'):
                traceback.print_exc()
            want = Or(*[c for clss, c in conds if isinstance(e.cls, type) and issubclass(e.cls, clss)])
            self.obligation('ensures', 'raises %s only when specified (%s)' % (getattr(e.cls, '__name__', e.cls), name), want)
            self.check_frame(name, [])
            raise Done()
        bad = Or(*[c for _, c in conds])
        if bad is not False:
            self.obligation('ensures', 'raises when specified (%s)' % name, Not(bad))
            if bad is True:
                raise Done()
            E.assume(Not(bad))
        self.check_frame(name, modifies)
        return r

    def summary(self, full, *args):
        "the outcome a summary promises: (view of the result, None) or (None, exception class)"
        from . import modular
        parts = full.split('.')
        mod = max([m for m in self.I.mods if full.startswith(m + '.')], key=len)
        f = self.I.mods[mod].d
        for p in full[len(mod) + 1:].split('.'):
            f = f.get(p) if isinstance(f, dict) else f.find(p) if isinstance(f, PyClass) else None
            if f is None:
                raise Unresolved(full)
        vars = self.I.bind(f, [self.wrap(a) for a in args], {})
        try:
            r = modular.SUMMARIES[full](self.I, vars)
        except PyRaise as e:
            return None, e.cls
        if r is NotImplemented:
            raise Unsupported('summary not applicable')
        return self.view(r), None

    def check_frame(self, name, modifies):
        for nm, v in self.draws:
            if any(v is m for m in modifies):
                continue
            self.same(nm, v, name)

    def same(self, nm, v, name):
        E = self.E
        ob = lambda what, c: self.obligation('frame', '%s leaves %s of %s unchanged' % (name, what, nm), c)
        if isinstance(v, SLV):
            o = v.obj
            x, lab = o.attrs.get('x'), o.attrs.get('label')
            if not isinstance(lab, PList) or lab.items is None or len(lab.items) != len(v.labs) or lab.tup:
                ob('the labels', False)
            elif lab is v.labobj and all(a is b and a.same_content(c) for a, b, c in zip(lab.items, v.labitems, v.labs)):
                ob('the labels', True)
            else:
                for a, c in zip(lab.items, v.labs):
                    ob('the labels', isinstance(a, PList) and not a.tup and E.seq_eq(a, c))
            self.same_arr(x, v, ob)
        elif isinstance(v, SAV):
            self.same_arr(v.obj, v, ob)
        elif isinstance(v, SListV):
            if v.cp is None:
                ob('the dict', v.obj.keys is v.kv[0] and v.obj.vals is v.kv[1] if v.obj.pairs is None and v.pairs is None else v.obj.pairs == v.pairs if v.obj.pairs is None or any(sym(z) for p in v.pairs for z in p) else
                   len(v.obj.pairs) == len(v.pairs) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(v.obj.pairs, v.pairs)))
            elif v.obj.same_content(v.cp) if v.obj.items is None else (v.cp.items is not None and len(v.obj.items) == len(v.cp.items) and all(a is b for a, b in zip(v.obj.items, v.cp.items))):
                ob('the list', True)
            else:
                ob('the list', E.seq_eq(v.obj, v.cp))

    def same_arr(self, x, v, ob):
        if not isinstance(x, nump.Arr) or len(x.shape) != len(v.shape):
            ob('the data', False)
            return
        if x.kind != v.dt:
            ob('the dtype', False)
            return
        if x.shape != v.shape:
            ob('the shape', And(*[eqint(a, b) for a, b in zip(x.shape, v.shape)]))
        if x.buf.fn is v.buffn and (not isinstance(v, SLV) or x is v.arr):
            ob('the cells', True)
            return
        fn = self.np.cellfn(x)
        self.at_indices(v.shape, lambda idx: ob('the cells', self.valeq(fn(idx), v.fn(idx))))

    def at_indices(self, shape, body):
        "prove body at arbitrary indices within shape"
        E = self.E

        def run():
            idx = [E.const('at', Int) for _ in shape]
            for i, n in zip(idx, shape):
                E.assume(inrange(i, n))
            if E.check() == z3.unsat:
                raise Infeasible()
            body(idx)
        E.sub(run)

    def rebase(self, v):
        v.snap()

    def invariant(self, where, inv, havoc=(), loop=0):
        '''inv(v, k) holds before iteration k of the given loop of function `where`; v(name) is the
        value of a local variable; havoc: variables whose arrays the loop changes in place'''
        self.I.invs[where, loop] = (self, inv, tuple(havoc))

    def local(self, v):
        if isinstance(v, nump.Arr):
            return SAV(self, v)
        if isinstance(v, PList):
            return SSeq(v.frozen())
        return v

    def each_yield(self, where, f):
        "f(k, value) is stated of every value that the generator yields"
        self.I.on_yield[where] = f

    def perms(self, ns):
        "witnesses: the permutations drawn by the code, one of range(n) for each n of ns, in that order"
        E = self.E
        left, out = list(E.perms), []
        for k, n in enumerate(ns):
            empty = isinstance(n, int) and n == 0 or not isinstance(n, int) and E.check(n != 0) == z3.unsat
            if empty and len(left) < len(ns) - k:
                out.append(lambda i: i)
                continue
            if not left:
                raise Unsupported('%d random permutations drawn, %d expected' % (len(E.perms), len(ns)))
            m, p, q = left.pop(0)
            if m is not n and eqint(m, n) is not True and E.check(Not(eqint(m, n))) != z3.unsat:
                raise Unsupported('random permutation of another length')
            out.append(p)
        if left:
            raise Unsupported('more random permutations than expected')
        return out

    # ------------------------------------------------------------ ensures
    def obligation(self, group, what, cond):
        if self.only is not None and group not in self.only:
            return
        cond = force(cond)
        self.E.prove('%s/%s: %s' % (self.contract, group, what), cond)

    contract = '?'

    def fail(self, kind, msg):
        self.obligation('ensures' if kind not in ('frame', 'sharing') else kind, msg, False)
        raise Done()

    def check(self, name, cond):
        self.obligation('ensures', name, cond)

    def skip(self):
        return self.only is not None and 'ensures' not in self.only

    def is_array(self, r, shape, cell, dt=None, name='result', fresh=True, approx=False):
        E = self.E
        if not isinstance(r, nump.Arr):
            self.fail('ensures', '%s is an array' % name)
        if len(r.shape) != len(shape):
            self.fail('ensures', '%s has %d dimensions' % (name, len(shape)))
        if not self.skip():
            self.obligation('ensures', 'shape of %s' % name, And(*[eqint(a, b) for a, b in zip(r.shape, shape)]))
            if dt is not None:
                self.obligation('ensures', 'dtype of %s' % name, r.kind in dt)
            if cell is not None:
                fn = self.np.cellfn(r)
                self.at_indices(r.shape, lambda idx: self.obligation('ensures', 'cells of %s' % name, self.valeq(fn(idx), self.rawc(cell(list(idx))))))
        if fresh:
            for nm, v in self.draws + self.results:
                o = v.arr if isinstance(v, SLV) else (v.obj if isinstance(v, SAV) else None)
                if o is None:
                    continue
                self.obligation('sharing', '%s shares no data with %s' % (name, nm),
                                False if o is r else (o.buf is not r.buf or Or(*[eqint(n, 0) for n in r.shape + o.shape])))

    def is_larry(self, r, labs, cell, dt=None, name='result', fresh=True, approx=False, freshlabel=True):
        E = self.E
        if not (isinstance(r, Inst) and r.cls is self.I.mods['la.deflarry'].d['larry']):
            self.fail('ensures', '%s is a larry' % name)
        x, label = r.attrs.get('x'), r.attrs.get('label')
        if not isinstance(x, nump.Arr):
            self.fail('ensures', 'data of %s is an array' % name)
        if not isinstance(label, PList) or label.tup:
            self.fail('ensures', 'label of %s is a list' % name)
        if label.items is None:
            raise Unsupported('symbolic number of axes')
        self.obligation('ensures', '%s has as many label lists as dimensions' % name, len(label.items) == len(x.shape))
        if len(x.shape) != len(labs):
            self.fail('ensures', '%s has %d dimensions' % (name, len(labs)))
        for ax, s in enumerate(labs):
            L = label.items[ax]
            if not isinstance(L, PList) or L.tup:
                self.fail('ensures', 'label of %s along axis %d is a list' % (name, ax))
            if not self.skip():
                self.list_obligation(L, self.wrapseq(s), 'labels of %s along axis %d' % (name, ax))
        if not self.skip():
            for ax, s in enumerate(labs):
                self.obligation('ensures', 'one label per row of %s along axis %d' % (name, ax), eqint(label.items[ax].length(), x.shape[ax]))
        self.is_array(x, [self.wrapseq(s).length() for s in labs], cell, dt=dt, name=name, fresh=fresh)
        if freshlabel and fresh is not None:
            for nm, v in self.draws + self.results:
                theirs = v.labitems + [v.labobj] if isinstance(v, SLV) else \
                    ([v.obj] + [z for z in (v.cp.items or []) if isinstance(z, PList)] if isinstance(v, SListV) and v.cp is not None else [])
                self.obligation('sharing', '%s shares no label list with %s' % (name, nm),
                                not any(L is z for L in label.items + [label] for z in theirs))
        self.results.append((name, SLV(self, r)))

    def list_obligation(self, L, s, what):
        E = self.E
        if L is s or (L.items is None and s.items is None and L.fn is s.fn and L.n is s.n):
            self.obligation('ensures', what, True)
            return
        n, m = L.length(), s.length()
        self.obligation('ensures', 'length of ' + what, eqint(n, m))
        if isinstance(n, int) and isinstance(m, int):
            if n == m:
                for i in range(n):
                    self.obligation('ensures', what, self.valeq(L.get(i), s.get(i)))
            return
        E.assume(eqint(n, m))
        self.at_indices([n], lambda idx: self.obligation('ensures', what, self.valeq(L.get(idx[0]), self.raw(force(s.get(idx[0]))))))

    def is_scalar(self, r, v, name='result', approx=False):
        if isinstance(r, (Inst, PList, PDict)) or isinstance(r, nump.Arr) and r.shape:
            self.fail('ensures', '%s is a scalar' % name)
        if not self.skip():
            self.obligation('ensures', 'value of %s' % name, self.valeq(r, v))

    def is_bool(self, r, want, name='result'):
        if not is_bool(r):
            self.fail('ensures', '%s is a bool' % name)
        self.obligation('ensures', 'value of %s' % name, self.valeq(r, force(want)))

    def is_list(self, r, s, name='result', typ=list, approx=False, fresh=True):
        ist = isinstance(r, tuple) or isinstance(r, PList) and r.tup
        if not isinstance(r, (PList, tuple)) or ist != (typ is tuple):
            self.fail('ensures', '%s is a %s' % (name, typ.__name__))
        L = self.I.seq(r)
        if not self.skip():
            self.list_obligation(L, self.wrapseq(s), name)
        if typ is list and fresh:
            for nm, v in self.draws + self.results:
                theirs = v.labitems + [v.labobj] if isinstance(v, SLV) else ([v.obj] if isinstance(v, SListV) else [])
                self.obligation('sharing', '%s is not a list of %s itself' % (name, nm), not any(r is z for z in theirs))

    def is_dict(self, r, keys, vals, name='result'):
        "exactly these (distinct) keys with these values: keys are listed in this order by the model"
        if not isinstance(r, PDict):
            self.fail('ensures', '%s is a dict' % name)
        if self.skip():
            return
        if r.pairs is not None:
            ks = PList(self.E, items=[a for a, _ in r.pairs])
            vs = PList(self.E, items=[b for _, b in r.pairs])
        else:
            ks, vs = r.keys, r.vals
        K, W = self.wrapseq(keys), self.wrapseq(vals)
        self.list_obligation(ks, K, 'keys of ' + name)
        self.obligation('ensures', 'keys of %s are distinct' % name, self.E.uniq(ks))
        self.list_obligation(vs, W, 'values of ' + name)

    def is_unique(self, r, x, index, inverse):
        if not isinstance(r, nump.Unique):
            raise Unsupported('unique values found without np.unique')
        self.obligation('ensures', 'flags of unique', And(r.index == index, r.inverse == inverse))
        self.is_array(r.arr, x.shape, x.cell, name='argument of unique', fresh=False)

    def is_type(self, r, what):
        self.obligation('ensures', 'the result is a ' + what, isinstance(r, Inst) and r.cls.name == what)

    def unpack(self, r, n):
        L = r if isinstance(r, tuple) else r.items if isinstance(r, PList) else None
        if L is None or len(L) != n:
            self.fail('ensures', 'the result is %d values' % n)
        return list(L)

    def view(self, r):
        if isinstance(r, Inst):
            return SLV(self, r)
        if isinstance(r, nump.Arr):
            return SAV(self, r)
        raise Unsupported('view of %r' % (r,))

    def is_host_list(self, r):
        return isinstance(r, PList) and not r.tup

    def seq_of(self, r):
        return SSeq(self.I.seq(r).frozen())


class Unresolved(Exception):
    pass


# Statistics that la itself computes, as formulas over the library statistics.
def _ex_nanprod(G, dims, f):
    np_, E = G.np, G.E
    cs = [z3.Int('probe')] * len(dims)
    if vsort(f(cs)) != V:
        return np_.red('prod', dims, f)
    one = E.toV(1)
    return G.ite(E.forall_multi(dims, lambda k: G.isnan(f(k))), lambda: E.toV(float('nan')),
                 lambda: np_.red('prod', dims, lambda k: E.ite(G.isnan(f(k)), one, f(k))))


def _ex_zscore(G, dims, f, v):
    m = G.np.red('nanmean', dims, f)
    s = G.np.red('nanstd', dims, lambda k: G.op('sub', f(k), m))
    return G.op('div', G.op('sub', v, m), s)


def _count(G, dims, p):
    return G.np.red('sum', dims, lambda k: G.E.coerce(p(k), Int))


def _ex_ranked(G, dims, f, at, norm):
    E = G.E
    if len(dims) != 1:
        whole, cell = tuple(dims), f
        dims, f = (E.flat_size(whole),), lambda k: cell(E.digits(whole, k[0]))
    n = dims[0]
    here = f([at])
    k = n - _count(G, dims, lambda i: G.isnan(f(i)))
    r = G.op('sub', G.np.red('nanrank_at', dims, f, (('at', at),)), 1)
    if norm == '-1,1':
        r = G.op('sub', G.op('mul', G.op('div', r, k - 1), 2), 1)
        mid = E.toV(0.0)
    else:
        py = G.I.binop
        r = G.op('mul', r, G.op('div', E.toV(py('mul', 1.0, n - 1)), k - 1))
        mid = E.toV(0.0)
        if norm == '0,N-1':
            mid = E.toV(py('sub', py('div', py('add', n, 1.0), 2.0), 1.0))
        else:
            r = G.np.cellun('ndtri', G.op('div', G.op('add', r, 1.0), E.toV(py('add', n, 1.0))))
    return G.ite(And(eqint(k, 1), Not(G.isnan(here))), lambda: mid, lambda: r)


def _ex_binned(G, dims, f, at, q):
    "2 (j - 1) / (q - 1) - 1 where j / q is the first of 1 / q, 2 / q, ..., 1 not below rank / (number of ranks - 1)"
    E = G.E
    if len(dims) != 1:
        whole, cell = tuple(dims), f
        dims, f = (E.flat_size(whole),), lambda k: cell(E.digits(whole, k[0]))
    here = f([at])
    if q == 1:
        return G.ite(G.isnan(here), lambda: E.NAN, lambda: E.toV(0.0))
    L = E.filter_list(dims[0], lambda i: G.isfinite(f([i])))
    nx = L.length()
    r = G.np.rank_at(nx, lambda k: f([L.get(k[0])]), L.posf(at))
    val = lambda j: G.op('mul', 2.0, G.op('sub', G.op('div', E.toV(j - 1), E.toV(q - 1)), 0.5))
    out = val(q)
    for j in range(q - 1, 0, -1):
        out = E.ite(r * q <= j * (nx - 1), val(j), out)
    return G.ite(G.isfinite(here), lambda: out, lambda: E.NAN)


def _ex_meanof(G, dims, f):
    "the mean of the cells that are not NaN, as la computes it for groups"
    c = _count(G, dims, lambda k: Not(G.isnan(f(k))))
    return G.op('div', G.np.red('nansum', dims, f), G.op('mul', 1.0, c))


def _weighted(G, dims, f, decay):
    E = G.E
    n = dims[0]
    last = f([simp_int(n - 1)])
    raw = lambda j: G.uop('exp', G.op('mul', -decay, G.op('sub', n, E.toV(simp_int(j + 1)))))
    total = G.np.red('sum', dims, lambda k: raw(k[0]))
    w = lambda j: G.op('div', G.op('mul', n, raw(j)), total)
    of = lambda p: G.np.red('sum', dims, lambda k: G.op('mul', p(k), w(k[0])))
    g = of(lambda k: G.np.cellop('gt', last, f(k)))
    e = of(lambda k: G.np.cellop('eq', last, f(k)))
    c = of(lambda k: G.isfinite(f(k)))
    own = w(simp_int(n - 1))
    r = G.op('div', G.op('sub', G.op('add', G.op('add', g, g), e), own), 2.0)
    r = G.op('div', r, G.op('sub', c, own))
    r = G.op('mul', 2.0, G.op('sub', r, 0.5))
    return G.ite(G.isfinite(last), lambda: r, lambda: E.toV(float('nan')))


def _ex_lastrank(G, dims, f, decay=0):
    E = G.E
    n = dims[0]
    last = f([simp_int(n - 1)])
    if decay:
        return _weighted(G, dims, f, decay)
    g = _count(G, dims, lambda k: G.np.cellop('gt', last, f(k)))
    e = _count(G, dims, lambda k: G.np.cellop('eq', last, f(k)))
    c = _count(G, dims, lambda k: G.isfinite(f(k)))
    r = G.op('div', G.op('sub', g + g + e, 1.0), 2.0)
    r = G.op('div', r, G.op('sub', c, 1.0))
    r = G.op('mul', 2.0, G.op('sub', r, 0.5))
    return G.ite(G.isfinite(last), lambda: r, lambda: E.toV(float('nan')))


EXPAND = dict(meanof=_ex_meanof, nanprod=_ex_nanprod, zscoreof=_ex_zscore, ranked=_ex_ranked, binned=_ex_binned, lastrank=_ex_lastrank)
