# Concrete (run-time) interpretation of the contract language.  Runs under the
# python2.7 that runs la.  The same contract files are interpreted symbolically
# by engine/sym.py; here every draw is a concrete value and every ensures clause
# is evaluated on the real result of the real function.
import random, datetime, operator, itertools, json
import numpy as np
import bottleneck as bn

np.seterr(all='ignore')


class Discard(Exception):
    "the precondition does not hold for this draw"


class Unresolved(Exception):
    "the function is no longer where the contract expects it"


class Done(Exception):
    "the contract was decided early (the call raised as specified)"


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind, self.msg = kind, msg


KIND = {'f': np.float64, 'i': np.int64, 'b': np.bool_, 's': 'S3', 'o': object, 'f4': np.float32, 'c': np.complex128, 'i4': np.int32}


def kindof(dtype):
    dtype = np.dtype(dtype)
    return {'f': 'f', 'i': 'i', 'b': 'b', 'S': 's', 'O': 'o', 'c': 'c', 'u': 'i', 'U': 'u'}.get(dtype.kind, dtype.kind)


class Seq(object):
    "immutable sequence (elements computed on demand: outside a precondition they may not exist)"
    def __init__(self, items=None, n=None, f=None):
        self._items, self.f = (None if items is None else list(items)), f
        self.n = len(self._items) if n is None else n

    @property
    def items(self):
        if self._items is None:
            self._items = [self.f(i) for i in range(self.n)]
        return self._items

    def get(self, i):
        return self.items[i]

    def key(self):
        return self.items


class Table(object):
    pos = None

    def __init__(self, n, cols, tups, vals):
        self.n, self.cols, self.tups, self.vals = n, cols, tups, vals


class LV(object):
    "snapshot of a larry"
    def __init__(self, obj):
        self.obj = obj
        self.x = obj.x.copy()
        self.label = [list(z) for z in obj.label]
        self.nd = obj.x.ndim
        self.dt = kindof(obj.x.dtype)
        self.dtype = obj.x.dtype

    def n(self, ax):
        return self.x.shape[ax]

    def lab(self, ax):
        return Seq(self.label[ax])

    def cell(self, idx):
        return self.x[tuple(idx)]

    def same(self):
        "is the object still as it was?"
        o = self.obj
        if type(o.label) is not list or len(o.label) != len(self.label):
            return 'label lists'
        for a, b in zip(o.label, self.label):
            if type(a) is not list or not same_labels(a, b):
                return 'labels %r became %r' % (b, a)
        return same_array(self.x, o.x)

    def desc(self):
        return {'label': repr(self.label), 'x': repr(self.x.tolist()), 'shape': list(self.x.shape), 'dtype': str(self.x.dtype)}


class AV(object):
    "snapshot of an array"
    def __init__(self, obj):
        self.obj = obj
        self.x = obj.copy()
        self.nd = obj.ndim
        self.dt = kindof(obj.dtype)
        self.dtype = obj.dtype

    def n(self, ax):
        return self.x.shape[ax]

    def cell(self, idx):
        return self.x[tuple(idx)]

    def same(self):
        return same_array(self.x, self.obj)

    def desc(self):
        return {'array': repr(self.x.tolist()), 'shape': list(self.x.shape), 'dtype': str(self.x.dtype)}


class ListV(object):
    def __init__(self, obj):
        self.obj = obj
        self.copy = deepl(obj)
        self.seq = Seq(obj)
        self.n = self.seq.n

    def get(self, i):
        return self.seq.get(i)

    def same(self):
        return None if same_py(self.obj, self.copy) else 'list %r became %r' % (self.copy, self.obj)

    def desc(self):
        return repr(self.copy)


def deepl(v):
    if type(v) is list:
        return [deepl(z) for z in v]
    if type(v) is tuple:
        return tuple(deepl(z) for z in v)
    if type(v) is dict:
        return dict((k, deepl(z)) for k, z in v.items())
    return v


def same_py(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(same_py(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return set(a) == set(b) and all(same_py(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return same_array(a, b) is None
    return a is b or a == b or (a != a and b != b)


def same_labels(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


def same_array(a, b):
    if type(b) is not np.ndarray or a.shape != b.shape:
        return 'shape %r became %r' % (a.shape, getattr(b, 'shape', None))
    if a.dtype != b.dtype:
        return 'dtype %s became %s' % (a.dtype, b.dtype)
    for i in np.ndindex(*a.shape):
        if not veq(a[i], b[i]):
            return 'cell %r: %r became %r' % (i, a[i], b[i])
    return None


def veq(a, b):
    "cell equality: same number / string / None, NaN equal to NaN"
    if a is b:
        return True
    try:
        if a != a and b != b:
            return True
    except Exception:
        pass
    if (a is None) != (b is None):
        return False
    if isinstance(a, (str, np.string_)) != isinstance(b, (str, np.string_)):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


class Alt(object):
    "any of several values"
    def __init__(self, *vals):
        self.vals = vals

    def __repr__(self):
        return ' or '.join(map(repr, self.vals))


def vclose(a, b, tol=1e-8):
    if isinstance(b, Alt):
        return any(vclose(a, z, tol) for z in b.vals) or isinstance(b, Anything)
    if veq(a, b):
        return True
    try:
        a, b = complex(a), complex(b)
    except Exception:
        return False
    if a != a or b != b or abs(a) == float('inf') or abs(b) == float('inf'):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Missing_(object):
    pass


def jenc(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        if v != v:
            return {'f': 'nan'}
        if v in (float('inf'), float('-inf')):
            return {'f': repr(v)}
        return v
    if isinstance(v, (bool, int, long, str)) or v is None:
        return v
    if isinstance(v, complex):
        return {'c': [v.real, v.imag]}
    if isinstance(v, datetime.datetime):
        return {'dt': [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]}
    if isinstance(v, datetime.date):
        return {'d': v.toordinal()}
    if isinstance(v, datetime.time):
        return {'tm': [v.hour, v.minute, v.second, v.microsecond]}
    if isinstance(v, tuple):
        return {'t': [jenc(z) for z in v]}
    if isinstance(v, list):
        return [jenc(z) for z in v]
    raise TypeError(type(v))


def jdec(v):
    if isinstance(v, unicode):
        return str(v)
    if isinstance(v, list):
        return [jdec(z) for z in v]
    if isinstance(v, dict):
        k, z = list(v.items())[0]
        if k == 'f':
            return float(z)
        if k == 'c':
            return complex(*z)
        if k == 'd':
            return datetime.date.fromordinal(z)
        if k == 'dt':
            return datetime.datetime(*z)
        if k == 'tm':
            return datetime.time(*z)
        if k == 't':
            return tuple(jdec(q) for q in z)
    return v


def remade(z):
    "an equal label that is another object, where Python makes one"
    if isinstance(z, str):
        return (z + '~')[:-1]
    if isinstance(z, bool):
        return z
    if isinstance(z, (int, long)):
        return int(str(z))
    if isinstance(z, float):
        return float(repr(z))
    if isinstance(z, tuple):
        return tuple([remade(q) for q in z])
    if isinstance(z, (datetime.date, datetime.time)):
        return z.replace()
    return z


class Lazy(object):
    def __init__(self, f):
        self.f = f


def force(z):
    return z.f() if isinstance(z, Lazy) else z


WILD = ['C%02d' % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 18, 19, 20, 21, 23, 24)]     # properties without sums of cells
LONG = 320                      # longest axis of a 1d larry
FOUR = int(__import__('os').environ.get('VERIF_FOUR', 1))      # weight of four axes, where contracts say up to three

USES = [(n, lambda y, n=n: getattr(y, n)()) for n in ('copy', 'sum', 'ismissing', 'sortaxis', 'flatten', 'transpose', 'maxlabel', 'copylabel', 'totuples', 'squeeze', 'vacuum', 'cumsum')]
USES += [('labelindex', lambda y: [y.labelindex(z, a) for a, L in enumerate(y.label) for z in L]),
         ('getitem', lambda y: y[0]), ('lix', lambda y: y.lix[[y.label[0][0]]]), ('get', lambda y: y.get([L[0] for L in y.label])),
         ('add', lambda y: y + y), ('eq', lambda y: y == y), ('morph', lambda y: y.morph(y.label[0][1:], 0)), ('shape', lambda y: (y.shape, y.ndim, y.size, y.dtype))]


class G(object):
    symbolic = False
    And = staticmethod(lambda *a: all(force(z) for z in a))
    Or = staticmethod(lambda *a: any(force(z) for z in a))
    Not = staticmethod(lambda a: not force(a))
    implies = staticmethod(lambda a, b: (not force(a)) or force(b))
    lazy = staticmethod(lambda f: Lazy(f))

    def __init__(self, la, seed, given=None, mined=(), strings=()):
        self.la = la
        self.rng = random.Random(seed)
        np.random.seed(seed % (2 ** 31))
        self.given = given or {}
        self.draws = []           # (name, view) of mutable inputs
        self.log = []             # (name, value) everything drawn, for reports
        self.results = []
        self.mined = [m for m in mined if m <= 60]
        self.strings = list(strings)
        self.labelpool = {}
        self.approx = 0
        self.evals = 0
        self.nontrivial = False
        self.only_frame = False

    # ------------------------------------------------------------ draws
    def rec(self, name, v):
        self.log.append((name, v))
        return v

    def pick(self, name, values):
        values = list(values)
        if name in self.given:
            k = self.given[name]
            return self.rec(name, values[k])
        k = self.rng.randrange(len(values))
        return self.rec(name, values[k])

    def flag(self, name):
        return self.pick(name, [False, True])

    def ndim(self, lo=1, hi=3, name='nd'):
        if name in self.given:
            return self.rec(name, self.given[name])
        w = [d for d in range(lo, hi + 1) for _ in range({1: 6, 2: 8, 3: 6, 4: 1}.get(d, 1))]
        if hi == 3 and FOUR:
            w += [4] * FOUR
        return self.rec(name, self.rng.choice(w))

    def axis(self, nd, none=False, neg=True, name='axis'):
        vals = list(range(nd)) + (list(range(-nd, 0)) if neg else []) + ([None] if none else [])
        if name in self.given:
            return self.rec(name, self.given[name])
        return self.rec(name, self.rng.choice(vals))

    def dt(self, name, kinds='fibso'):
        if name in self.given:
            return self.rec(name, self.given[name])
        kinds = list(kinds) + (['f'] * 2 if 'f' in kinds else [])
        return self.rec(name, self.rng.choice(kinds))

    def int(self, name, lo, hi):
        if name in self.given:
            v = int(self.given[name])
            if not (lo <= v <= hi):
                raise Discard()
            return self.rec(name, v)
        if hi < lo:
            raise Discard()
        return self.rec(name, self.rng.randint(lo, hi))

    def size(self, name, cap=100):
        if name in self.given:
            return self.rec(name, int(self.given[name]))
        r = self.rng.random()
        if r < 0.05 and self.mined:
            n = max(0, self.rng.choice(self.mined) + self.rng.choice([-1, 0, 1, 1]))
            if n <= cap:
                return self.rec(name, n)
        if cap >= LONG and r > 0.996:
            return self.rec(name, self.rng.choice([65, 129, 257]))
        n = self.rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 9])
        return self.rec(name, min(n, cap))

    KINDS = ['int', 'int', 'str', 'str', 'range', 'mixed', 'float', 'date', 'tuple', 'perm', 'big', 'datetime']

    def pool(self, kind, n):
        rng = self.rng
        if kind == 'range':
            return list(range(n))
        if kind == 'perm':
            p = list(range(n))
            rng.shuffle(p)
            return p
        if kind == 'int':
            c = list(range(-4, max(12, 3 * n)))
        elif kind == 'big':
            c = [1000 + i for i in range(n + 6)] + [10 ** 9 + 7 * i for i in range(n + 6)] + [2 ** 31, -2 ** 31, 2 ** 53, 2 ** 53 + 1, -10 ** 6, 257, 20010101]
        elif kind == 'str':
            c = list('abcdefghijklmnopqrstuvwxyz') + ['aa', 'ab', 'Z', '', 'a ', ' a', 'A', '1'] + self.strings[:5]
            c = c + ['s%d' % i for i in range(3 * n)]
        elif kind == 'odd':
            c = ['', ' ', 'a', ' a', 'a ', 'a\tb', 'a,b', 'a;b', '"', '"a"', "'a'", 'a\nb', '\n', '1', '01', '1.0', 'nan', '#', 'a"b', ',', '\xc3\xa9', 'A'] + ['s%d ' % i for i in range(n)]
        elif kind == 'float':
            c = [i + 0.5 for i in range(-4, max(12, 3 * n))]
        elif kind == 'mixed':
            c = list(range(0, max(6, 2 * n))) + list('abcdefgh') + ['z%d' % i for i in range(n)]
        elif kind == 'date':
            c = [datetime.date.fromordinal(733000 + i) for i in range(max(12, 3 * n))] + [datetime.date(1, 1, 1), datetime.date(9999, 12, 31)]
        elif kind == 'datetime':
            c = [datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=7201 * i, microseconds=314159 * i % 1000000) for i in range(max(12, 3 * n))]
        elif kind == 'time':
            c = [datetime.time(i % 24, i % 60, (7 * i) % 60, 314159 * i % 1000000) for i in range(max(12, 3 * n))]
        elif kind == 'tuple':
            c = [(a, b) for a in 'abc' for b in range(max(4, n))]
        else:
            raise ValueError(kind)
        uniq = []
        seen = set()
        for z in c:
            if z not in seen:
                seen.add(z)
                uniq.append(z)
        rng.shuffle(uniq)
        return uniq[:n]

    def rawlabels(self, name, n=None, near=None, uniq=True, kind=None, kinds=None):
        rng = self.rng
        if name in self.given:
            v = jdec(self.given[name])
            if uniq and len(set(v)) != len(v):
                raise Discard()
            return self.rec(name, v)
        if near:
            base = list(rng.choice(near).items)
            allb = []
            for s in near:
                for z in s.items:
                    if z not in allb:
                        allb.append(z)
            how = rng.choice(['same', 'same', 'perm', 'sub', 'super', 'mix', 'mix', 'mix', 'disj', 'dropadd'])
            k2 = kind or self.kind_of(allb)
            extra = [z for z in self.pool(k2, len(base) + 6) if z not in allb]
            if how == 'same':
                out = base
            elif how == 'perm':
                out = base[:]
                rng.shuffle(out)
            elif how == 'sub':
                out = [z for z in base if rng.random() < 0.6]
                if rng.random() < 0.5:
                    rng.shuffle(out)
            elif how == 'super':
                out = base + extra[:rng.randint(1, 3)]
                rng.shuffle(out)
            elif how == 'disj':
                out = extra[:rng.randint(0, 4)]
            elif how == 'dropadd':
                out = base[:]
                if out:
                    out.pop(rng.randrange(len(out)))
                out[rng.randint(0, len(out)):0] = extra[:1]
            else:
                out = [z for z in allb if rng.random() < 0.6] + [z for z in extra[:4] if rng.random() < 0.5]
                rng.shuffle(out)
            if rng.random() < 0.3:
                try:
                    out.sort()
                except Exception:
                    pass
            if rng.random() < 0.4:
                out = [remade(z) for z in out]
            if not uniq and out and rng.random() < 0.5:
                for _ in range(rng.randint(1, 3)):
                    out.insert(rng.randint(0, len(out)), rng.choice(out))
        else:
            if n is None:
                n = self.size(name + '.n')
            k2 = kind or rng.choice(kinds or self.KINDS)
            out = self.pool(k2, n)
            if rng.random() < 0.3:
                out.sort()
            if not uniq and out and rng.random() < 0.5:
                for _ in range(rng.randint(1, 3)):
                    out.insert(rng.randint(0, len(out)), rng.choice(out))
        self.rec(name, list(out))
        return out

    def kind_of(self, base):
        if not base:
            return self.rng.choice(self.KINDS)
        ts = set(type(z) for z in base)
        if len(ts) > 1:
            return 'mixed'
        t = ts.pop()
        return {int: 'int', str: 'str', float: 'float', datetime.date: 'date', tuple: 'tuple',
                datetime.datetime: 'datetime', datetime.time: 'time'}.get(t, 'int')

    def labels(self, name, near=None, uniq=True, n=None, kind=None):
        L = self.rawlabels(name, near=near, uniq=uniq, n=n, kind=kind)
        v = ListV(L)
        self.draws.append((name, v))
        return v

    def label(self, name, near):
        "one label, in or out of the given sequence"
        if name in self.given:
            return self.rec(name, jdec(self.given[name]))
        if near.n and self.rng.random() < 0.75:
            z = self.rng.choice(near.items)
            return self.rec(name, remade(z) if self.rng.random() < 0.4 else z)
        k = self.kind_of(near.items)
        c = [z for z in self.pool(k, near.n + 4) if z not in near.items]
        return self.rec(name, c[0] if c else 'zzz')

    def rawcells(self, name, shape, dt, vals=None):
        rng = self.rng
        size = int(np.prod(shape)) if len(shape) else 1
        if name in self.given:
            a = np.empty(shape, dtype=KIND[dt])
            flat = jdec(self.given[name])
            for k, i in enumerate(np.ndindex(*shape)):
                a[i] = flat[k]
            return a
        if vals is not None:
            flat = [rng.choice(vals) for _ in range(size)]
        elif dt in ('f', 'f4', 'c'):
            mode = rng.random()
            pn = rng.choice([0, 0, 0.15, 0.4, 0.8, 1.0 if mode < 0.5 else 0.3])
            pi = rng.choice([0, 0, 0, 0.15]) if self.allow_inf else 0
            base = list(range(1, size + 1))
            rng.shuffle(base)
            if mode < 0.3:
                base = [rng.choice([-2, -1, 0, 0, 1, 2, 3]) for _ in base]
            elif mode < 0.5:
                base = [b * 0.5 - size / 4.0 for b in base]
            elif mode < 0.58 and self.wild:
                base = [rng.choice([1.0, 1 + 1e-9, 1 - 1e-9, 1e-12, -1e-12, 0.0, 1e10, 1e10 + 1, -1e10, 0.1, 0.3, 1 / 3., 1e-300, 1e15]) for _ in base]
            if self.positive:
                base = [abs(b) + 1 for b in base]
            flat = []
            for b in base:
                r = rng.random()
                flat.append(float('nan') if r < pn else (rng.choice([float('inf'), float('-inf')]) if r < pn + pi and not self.positive else float(b)))
        elif dt in ('i', 'i4'):
            flat = list(range(1, size + 1))
            rng.shuffle(flat)
            if rng.random() < 0.4 and not self.positive:
                flat = [rng.randint(-3, 4) for _ in flat]
            elif dt == 'i' and self.bigints and rng.random() < 0.15:
                # integers that no float can hold
                flat = [2 ** 53 + 2 * v - 1 for v in flat]
        elif dt == 'b':
            p = rng.choice([0.1, 0.5, 0.5, 0.9])
            flat = [rng.random() < p for _ in range(size)]
        elif dt == 's':
            p = rng.choice([0, 0.3, 0.7])
            flat = ['' if rng.random() < p else rng.choice(['a', 'b', 'bb', 'abc', 'c%d' % (i % 100)]) for i in range(size)]
        elif dt == 'o':
            p = rng.choice([0, 0.3, 0.7])
            flat = [None if rng.random() < p else rng.choice(['a', 1, 2.5, 'xyz', 7, i, i, 0, '']) for i in range(size)]
        else:
            raise ValueError(dt)
        a = np.empty(shape, dtype=KIND[dt])
        for k, i in enumerate(np.ndindex(*shape)):
            a[i] = flat[k]
        self.rec(name, flat)
        # memory layout
        lay = rng.random()
        if lay < 0.12:
            a = np.asfortranarray(a)
        elif lay < 0.2 and a.ndim > 1:
            b = np.empty(shape[::-1], dtype=a.dtype).T
            b[...] = a
            a = b
        elif lay < 0.28 and a.ndim >= 1:
            b = np.empty([2 * s for s in shape], dtype=a.dtype)
            b.fill('' if dt == 's' else 0)
            v = b[tuple([slice(None, None, 2)] * a.ndim)]
            v[...] = a
            a = v
        elif lay < 0.34 and a.ndim >= 1:
            b = np.empty(shape, dtype=a.dtype)
            v = b[tuple([slice(None, None, -1)] * a.ndim)]
            v[...] = a
            a = v
        return a

    allow_inf = True
    wild = False             # cells of very different sizes
    bigints = False
    _override = None
    positive = False

    def larry(self, name, nd, dt, near=None, minsize=0, cap=None, labels=None, vals=None, kinds=None, shape=None):
        """near: {axis: [Seq, ...]} label lists to be related to; labels: {axis: list}"""
        lab = []
        for ax in range(nd):
            nm = '%s.label%d' % (name, ax)
            if labels and ax in labels:
                lab.append(list(getattr(labels[ax], 'items', labels[ax])))
                continue
            nr = near.get(ax) if near else None
            n = None
            if nr is None:
                if shape and ax in shape:
                    n = shape[ax]
                else:
                    c = cap or {1: LONG, 2: 12, 3: 6, 4: 4}[nd]
                    n = self.size(nm + '.n', cap=c) if nm not in self.given else None
                    if n is not None:
                        n = max(n, minsize)
            L = self.rawlabels(nm, n=n, near=nr, kinds=kinds)
            if len(L) < minsize:
                raise Discard()
            lab.append(L)
        if np.prod([max(1, len(z)) for z in lab]) > 5000:
            raise Discard()
        x = self.rawcells(name + '.x', tuple(len(z) for z in lab), dt, vals)
        v = LV(self.la.larry(x, lab) if self.given or self.rng.random() > 0.12 else self.used(name, x, lab))
        self.draws.append((name, v))
        return v

    def twin(self, name, x, dt):
        "a larry that may well be equal to x, or differ in one thing"
        rng = self.rng
        o = x.obj
        lab = []
        near = rng.random() < 0.25
        for a in range(x.nd):
            L = self.rawlabels('%s.label%d' % (name, a), near=[x.lab(a)]) if near or '%s.label%d' % (name, a) in self.given else self.rec('%s.label%d' % (name, a), [remade(z) for z in o.label[a]])
            lab.append(L)
        shape = tuple(len(L) for L in lab)
        v = LV(self.la.larry(self.twincells(name + '.x', o.x, shape, dt), lab))
        self.draws.append((name, v))
        return v

    def twincells(self, name, x, shape, dt):
        rng = self.rng
        if name in self.given or shape != x.shape or rng.random() < 0.1:
            return self.rawcells(name, shape, dt)
        if dt == x.dtype.kind or dt in 'so':
            y = x.copy()
        else:
            y = np.where(x != x, 0, x).astype(KIND[dt])
        if y.size and rng.random() < 0.5:
            at = tuple(rng.randrange(n) for n in shape)
            if dt == 'f':
                y[at] = rng.choice([y[at] + rng.choice([1e-15, 7e-14, 1.2e-13, 1.8e-13, 8e-13, 1e-11, 3e-8, 7e-8, 1.2e-7, 1.8e-7, 8e-7]) * rng.choice([1, -1]), y[at] - 1, -y[at], np.nan, 0.0])
            elif dt == 'i':
                y[at] += rng.choice([0, 1, -1])
            elif dt == 'b':
                y[at] = not y[at]
            elif dt == 's':
                y[at] = rng.choice(['', 'a', 'z'])
            else:
                y[at] = rng.choice([None, 'a', 7])
        self.rec(name, list(y.flat))
        return y

    def twin_array(self, name, x, dt):
        v = AV(self.twincells(name, x.x, x.x.shape, dt))
        self.draws.append((name, v))
        return v

    def cellof(self, x):
        return x.obj[0] if hasattr(x, 'obj') else x.x[0]

    def alias(self, name, x, share, labs):
        "a larry with the cells and labels of x that shares its data or some of its label lists, or not"
        o = x.obj
        y = self.la.larry([0])
        y.x = o.x if share == 'same' else o.x.view() if share == 'view' else o.x.copy()
        y.label = [L if s else [remade(z) for z in L] for L, s in zip(o.label, labs)]
        v = LV(y)
        self.draws.append((name, v))
        return v

    def close(self, a, b, decimal):
        "what this version of numpy.testing takes for close: two scalars (decimal 7) are compared by rounding"
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        return round(abs(a - b), 7) == 0 if decimal == 7 else abs(a - b) < 1.5 * 10.0 ** -decimal

    def used(self, name, x, lab):
        "a larry that has been in use, with other labels and cells: only what it holds now may count"
        ops = [self.rng.choice(USES) for k in range(3)]
        self.rec(name + '.used', [o for o, f in ops])
        y = self.la.larry(x[tuple([slice(None, None, -1)] * x.ndim)].copy(), [L[::-1] for L in lab])
        for o, f in ops:
            try:
                f(y)
            except Exception:
                pass
        y.x = x
        y.label = lab
        return y

    def array(self, name, shape, dt, vals=None):
        x = self.rawcells(name, tuple(shape), dt, vals)
        v = AV(x)
        self.draws.append((name, v))
        return v

    def intlist(self, name, n, lo, hi):
        "list of n ints in [lo, hi]"
        if name in self.given:
            L = [int(z) for z in self.given[name]]
        else:
            if n and hi < lo:
                raise Discard()
            L = [self.rng.randint(lo, hi) for _ in range(n)]
        self.rec(name, L)
        v = ListV(list(L))
        self.draws.append((name, v))
        return v

    def table(self, nd, dt, repeats=False):
        "n label tuples with a value each (distinct unless repeats)"
        axes = [self.rawlabels('label%d' % a, n=self.size('n%d' % a, cap=5), kinds=['int', 'str', 'date', 'float', 'mixed', 'perm']) for a in range(nd)]
        full = list(itertools.product(*axes))
        if len(full) > 60:
            raise Discard()
        keep = self.array('keep', [len(full)], 'b').x
        order = self.array('order', [len(full)], 'i').x
        x = self.array('x', [len(full)], dt).x
        sel = [k for k in sorted(range(len(full)), key=lambda k: (order[k], k)) if keep[k]]
        tups = [full[k] for k in sel]
        vals = [x[k] for k in sel]
        if repeats and tups:
            for q in range(self.int('again', 0, 3)):
                k = self.int('again%d' % q, 0, len(tups) - 1)
                tups.append(tups[k])
                vals.append(x[(q * 7 + k) % len(x)])
        return Table(len(tups), [Seq([t[a] for t in tups]) for a in range(nd)], Seq(tups), Seq(vals))

    def find(self, t, key):
        "(is the label tuple in the table?, its position)"
        key = tuple(key)
        if t.pos is None:
            t.pos = dict((k, i) for i, k in enumerate(t.tups.items))
        return key in t.pos, t.pos.get(key, 0)

    def listed(self, name, s):
        "a list with these elements, as an input"
        return self.obj(name, [list(z.items) if isinstance(z, Seq) else z for z in (s.items if isinstance(s, Seq) else s)])

    def mkdict(self, name, keys, vals):
        return self.obj(name, dict(zip(keys.items, vals.items)))

    def tuple_larry(self, name, t, dt):
        x = self.la.larry(np.array(t.vals.items, dtype={'f': float, 'i': np.int64}[dt]), [list(t.tups.items)])
        v = self.view(x)
        self.draws.append((name, v))
        return v

    def scalar(self, name, dt='f'):
        if name in self.given:
            v = jdec(self.given[name])
        elif dt == 'f':
            v = self.rng.choice([0.0, 1.0, -1.0, 2.5, 3.0, 7.0, -4.0] + ([float('nan')] if self.rng.random() < 0.2 else []))
        elif dt == 'i':
            v = self.rng.choice([0, 1, -1, 2, 3, 7])
        elif dt == 'b':
            v = self.rng.choice([True, False])
        elif dt == 's':
            v = self.rng.choice(['', 'a', 'bb'])
        else:
            v = self.rng.choice([None, 1, 'a'])
        return self.rec(name, v)

    def obj(self, name, v):
        "register a concrete input list / dict for the frame check"
        w = ListV(v)
        self.draws.append((name, w))
        return w

    def func(self, name, which):
        "an arbitrary pure function on labels"
        f = {'label': lambda z: ('m', z)}[which]
        return f, f

    def intarray(self, name, n, lo, hi):
        if name in self.given:
            L = [int(z) for z in self.given[name]]
        else:
            if n and hi < lo:
                raise Discard()
            L = [self.rng.randint(lo, hi) for _ in range(n)]
        self.rec(name, L)
        v = AV(np.array(L, dtype=np.int64))
        self.draws.append((name, v))
        return v

    def assume(self, c):
        if not force(c):
            raise Discard()

    # ------------------------------------------------------------ spec language
    def seq(self, n, f):
        return Seq(n=n, f=f)

    def list_seq(self, items):
        return Seq(items)

    def isin(self, s, v):
        return v in s.items

    def index(self, s, v):
        return s.items.index(v)

    def last(self, s, v):
        return max(i for i, z in enumerate(s.items) if z == v)

    def eq(self, a, b):
        return a == b

    def ult(self, a, b):
        return a < b

    def seq_eq(self, a, b):
        return same_labels(a.items, b.items)

    def uniq(self, s):
        return len(set(s.items)) == len(s.items)

    def all(self, n, f):
        return all(f(i) for i in range(n))

    def any(self, n, f):
        return any(f(i) for i in range(n))

    def inter(self, a, b):
        return Seq(sorted(z for z in set(a.items) if z in b.items))

    def union(self, a, b):
        return Seq(sorted(set(a.items) | set(b.items)))

    def sorted(self, a, reverse=False):
        return Seq(sorted(a.items, reverse=reverse))

    def filt(self, n, pred):
        "increasing sequence of the i < n with pred(i)"
        return Seq([i for i in range(n) if pred(i)])

    def last_where(self, n, pred):
        "the largest i < n with pred(i), or -1"
        for i in reversed(range(n)):
            if force(pred(i)):
                return i
        return -1

    def redall(self, name, x, **kw):
        "library statistic of all cells"
        self.approx = 1
        return REDS[name](x.x.ravel(), **kw)

    def ite(self, c, a, b):
        "a, b: thunks"
        return a() if force(c) else b()

    def min(self, a, b):
        return min(a, b)

    def branch(self, c):
        return bool(force(c))

    def select(self, i, thunks):
        return thunks[i]()

    def sorted_set(self, a):
        return Seq(sorted(set(a.items)))

    def slice_pos(self, n, start, stop, step):
        return Seq(range(n)[slice(start, stop, step)])

    def ufunc(self, name):
        return {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.divide, 'lt': np.less, 'eq': np.equal,
                'minimum': np.minimum, 'maximum': np.maximum, 'power': np.power}[name]

    def flat_size(self, shape):
        r = 1
        for n in shape:
            r *= int(n)
        return r

    def number(self, shape, idx):
        p = 0
        for n, i in zip(shape, idx):
            p = p * int(n) + int(i)
        return p

    def hint(self, *terms):
        pass

    def key_order(self, d):
        return (lambda k: k, lambda k: k)      # of no consequence where sets are compared

    def same_set(self, name, a, b, at):
        self.check(name, set(a.items) == set(b.items))

    def fact(self, name, c):
        self.check(name, c)

    def lemma(self, name, n, f, at=None):
        self.check(name, self.And(*[f(j) for j in range(n)]))

    def digits(self, shape, p):
        "index tuple with C-order number p"
        out = []
        for n in reversed(list(shape)):
            out.append(int(p) % n)
            p = int(p) // n
        return out[::-1]

    def unpack(self, r, n):
        if not isinstance(r, (tuple, list)) or len(r) != n:
            self.fail('ensures', '%s: the result is %r, not %d values' % (self.target, type(r).__name__, n))
        return list(r)

    def is_bool(self, r, want, name='result'):
        if not isinstance(r, (bool, np.bool_)) or bool(r) != bool(force(want)):
            self.fail('ensures', '%s: %s is %r, expected %r' % (self.target, name, r, bool(force(want))))

    def max(self, a, b):
        return max(a, b)

    # cells
    def marker(self, dt):
        return {'f': np.nan, 'f4': np.nan, 's': '', 'o': None, 'c': np.nan}[dt]

    def missing(self, v, dt):
        if dt in ('f', 'f4', 'c'):
            return bool(v != v)
        if dt == 's':
            return v == ''
        if dt == 'o':
            return v is None
        return False

    def present(self, v, dt):
        "non-missing in the sense of merge: finite, non-empty, not None"
        if dt in ('f', 'f4', 'i', 'b', 'c'):
            return bool(np.isfinite(v))
        return not self.missing(v, dt)

    def tofloat(self, v):
        return np.float64(v)

    def isnan(self, v):
        return bool(v != v)

    def isfinite(self, v):
        return bool(np.isfinite(v))

    def nested(self, x):
        return x.obj.tolist()

    def toint(self, v):
        return int(v)

    def all_index(self, ns, pred):
        return all(force(pred(list(i))) for i in np.ndindex(*[int(n) for n in ns]))

    def plain(self, v):
        return v == v and not (isinstance(v, float) and v == 0)

    def isinf(self, v):
        return bool(np.isinf(v))

    def truth(self, v):
        return bool(v)

    OPS = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b: a / b,
               floordiv=lambda a, b: a // b, truediv=np.true_divide, eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lambda a, b: a < b,
               le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b,
               logical_and=lambda a, b: np.logical_and(a, b), logical_or=lambda a, b: np.logical_or(a, b),
               power=lambda a, b: np.power(a, b), minimum=np.minimum, maximum=np.maximum)
    UOPS = dict(log=np.log, exp=np.exp, sqrt=np.sqrt, sign=np.sign, absolute=np.absolute, neg=lambda a: -a,
                isnan=np.isnan, isfinite=np.isfinite, isinf=np.isinf, invert=lambda a: ~a)

    def op(self, name, a, b):
        return self.OPS[name](np.asarray(a)[()] if not isinstance(a, np.generic) and not isinstance(a, (str,)) and a is not None else a, b)

    def uop(self, name, a):
        return self.UOPS[name](a)

    def red(self, name, n, f, dtype=None, **kw):
        "library statistic of the cells f(0..n-1)"
        vals = [f(i) for i in range(n)]
        a = np.array(vals, dtype=dtype) if dtype is not None or not vals else np.array(vals)
        self.approx = 1
        return REDS[name](a, **kw)

    def corr(self, shape, fx, fy, gap, whole):
        "Pearson's correlation of the pairs in which neither is missing"
        p = [(float(fx(list(i))), float(fy(list(i)))) for i in np.ndindex(*shape)]
        p = [z for z in p if z[0] == z[0] and z[1] == z[1]]
        if not p:
            return np.nan
        u, v = np.array(p).T
        su, sv = u.std(), v.std()
        if min(su / max(1.0, abs(u).max()), sv / max(1.0, abs(v).max())) < 1e-6:    # 0/0 up to rounding
            return Anything()
        return ((u - u.mean()) * (v - v.mean())).mean() / (su * sv)

    def sum_all(self, shape, f):
        self.approx = 1
        return np.array([f(list(idx)) for idx in np.ndindex(*shape)]).sum()

    def count_all(self, shape, pred):
        return sum(1 for idx in np.ndindex(*shape) if force(pred(list(idx))))

    def lt(self, a, b):
        return a < b

    def all_finite_or_nan(self, x):
        return not np.isinf(x.x.astype(float)).any()

    def iterate(self, name, *args, **opts):
        "all values of the generator that the call returns"
        f = self.resolve(name)
        self._override = lambda *a, **k: list(itertools.islice(f(*a, **k), 0, 200))
        try:
            return self.call(name, *args, **opts)
        finally:
            self._override = None

    def scratch(self):
        return Scratch()

    def reducer(self, name):
        return REDUCERS[name]

    def invariant(self, *a, **k):
        pass
    each_yield = invariant

    def flatpos(self, shape, idx):
        at = 0
        for n, i in zip(shape, idx):
            at = at * n + i
        return at

    def opened(self, name):
        import h5py
        return h5py.File(name)

    def is_open(self, what, f):
        import h5py
        self.check(what, isinstance(f, h5py.File) and bool(f))

    def is_closed(self, what, f):
        import h5py
        self.check(what, isinstance(f, h5py.File) and not f)

    def is_none(self, r, name='result'):
        self.check('%s is None' % name, r is None)

    def permuter(self, name):
        return Permuter(self.rng.randrange(10 ** 6))

    def randinter(self, name):
        return Randinter(self.rng.randrange(10 ** 6))

    def near_eq(self, a, b):
        return vclose(a, b)

    # ------------------------------------------------------------ calls
    def unwrap(self, v):
        if isinstance(v, (LV, AV, ListV)):
            return v.obj
        if type(v) is tuple:
            return tuple(self.unwrap(z) for z in v)
        if type(v) is list:
            return [self.unwrap(z) for z in v]
        if type(v) is slice:
            return slice(self.unwrap(v.start), self.unwrap(v.stop), self.unwrap(v.step))
        return v

    def resolve(self, name):
        try:
            return self.resolve1(name)
        except (AttributeError, ImportError) as e:
            raise Unresolved('%s: %s' % (name, e))

    def resolve1(self, name):
        la = self.la
        if name.startswith('op.'):
            return getattr(operator, {'and': 'and_', 'or': 'or_'}.get(name[3:], name[3:]))
        if name.startswith('get.'):
            return lambda o: getattr(o, name[4:])
        parts = name.split('.')
        if parts[0] == 'larry':
            if len(parts) == 1:
                return la.larry
            a = getattr(la.larry, parts[1])
            if isinstance(a, property):
                return lambda o: getattr(o, parts[1])
            if parts[1] in ('fromtuples', 'fromlist', 'fromdict', 'fromcsv'):
                return a
            return lambda o, *r, **k: getattr(o, parts[1])(*r, **k)
        if parts[0] == 'lix':
            if parts[1] == 'get':
                return lambda o, i: o.lix[i]

            def setlix(o, i, v):
                o.lix[i] = v
            return setlix
        import importlib
        modname = {'flarry': 'la.flarry', 'flabel': 'la.flabel', 'missing': 'la.missing', 'misc': 'la.util.misc',
                   'resample': 'la.util.resample', 'move': 'la.farray.move', 'norm': 'la.farray.normalize',
                   'group': 'la.farray.group', 'fmisc': 'la.farray.misc', 'testing': 'la.util.testing', 'io': 'la.io', 'cflabel': 'la.cflabel'}[parts[0]]
        m = importlib.import_module(modname)
        return getattr(m, parts[1])

    def call(self, name, *args, **opts):
        kw = opts.pop('kw', {})
        raises = opts.pop('raises', [])
        modifies = opts.pop('modifies', [])
        assert not opts, opts
        f = self._override or self.resolve(name)
        a = [self.unwrap(z) for z in args]
        k = dict((q, self.unwrap(z)) for q, z in kw.items())
        self.target = name
        self.evals += 1
        self.nontrivial = True
        want = []
        for cls, cond in raises:
            if force(cond):
                want.extend(cls if isinstance(cls, tuple) else (cls,))
        try:
            r = f(*a, **k)
        except (Violation, Discard, Done, Unresolved):
            raise
        except Exception as e:
            import traceback
            self.tb = traceback.format_exc()
            self.check_frame(name, modifies, failed=True)
            if want and isinstance(e, tuple(want)):
                raise Done()
            raise Violation('exception', '%s raised %s: %s' % (name, type(e).__name__, str(e)[:300])
                            + (' instead of %s' % [w.__name__ for w in want] if want else ''))
        if want:
            raise Violation('no exception', '%s did not raise %s' % (name, '/'.join(w.__name__ for w in want)))
        self.check_frame(name, modifies)
        return r

    def check_frame(self, name, modifies, failed=False):
        for nm, v in self.draws:
            if any(v is m for m in modifies) and not failed:
                continue
            d = v.same()
            if d:
                raise Violation('frame', '%s changed its input %s: %s' % (name, nm, d))

    def rebase(self, v):
        "forget the old snapshot of v (after an intended modification)"
        fresh = type(v)(v.obj)
        v.__dict__.update(fresh.__dict__)

    # ------------------------------------------------------------ ensures
    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, name, cond):
        if not force(cond):
            raise Violation('ensures', '%s: %s does not hold' % (self.target, name))

    def is_array(self, r, shape, cell, dt=None, name='result', fresh=True, approx=False):
        if type(r) is not np.ndarray:
            self.fail('ensures', '%s: %s is %s, not an array' % (self.target, name, type(r).__name__))
        if tuple(r.shape) != tuple(shape):
            self.fail('ensures', '%s: %s has shape %r, expected %r' % (self.target, name, r.shape, tuple(shape)))
        if dt is not None and kindof(r.dtype) not in dt:
            self.fail('ensures', '%s: %s has dtype %s, expected kind %s' % (self.target, name, r.dtype, dt))
        for i in (np.ndindex(*r.shape) if cell is not None else ()):
            self.approx = 0
            e = cell(list(i))
            ok = vclose(r[i], e, approx if type(approx) is float else 1e-8) if (approx or self.approx) else veq(r[i], e)
            if not ok:
                self.fail('ensures', '%s: %s[%s] is %r, expected %r' % (self.target, name, ','.join(map(str, i)), r[i], e))
        if fresh:
            self.check_fresh_array(r, name)

    def check_fresh_array(self, r, name):
        for nm, v in self.draws + self.results:
            o = v.obj
            arrs = [o.x] if isinstance(v, LV) else ([o] if isinstance(v, AV) else [])
            for a in arrs:
                if a is r or (a.size and r.size and np.may_share_memory(a, r)):
                    self.fail('sharing', '%s: %s shares its data with %s' % (self.target, name, nm))

    def is_larry(self, r, labs, cell, dt=None, name='result', fresh=True, approx=False, freshlabel=True):
        if type(r) is not self.la.larry:
            self.fail('ensures', '%s: %s is %s %r, not a larry' % (self.target, name, type(r).__name__, r if np.isscalar(r) else ''))
        if type(r.x) is not np.ndarray:
            self.fail('ensures', '%s: data of %s is %s' % (self.target, name, type(r.x)))
        if type(r.label) is not list or len(r.label) != r.x.ndim:
            self.fail('ensures', '%s: %s has %d label lists for %d dimensions' % (self.target, name, len(r.label), r.x.ndim))
        if len(labs) != r.x.ndim:
            self.fail('ensures', '%s: %s has %d dimensions, expected %d' % (self.target, name, r.x.ndim, len(labs)))
        for ax, s in enumerate(labs):
            L = r.label[ax]
            if type(L) is not list:
                self.fail('ensures', '%s: label of %s along axis %d is a %s' % (self.target, name, ax, type(L).__name__))
            if not same_labels(L, s.items):
                self.fail('ensures', '%s: labels of %s along axis %d are %r, expected %r' % (self.target, name, ax, L, s.items))
        self.is_array(r.x, [s.n for s in labs], cell, dt=dt, name=name, fresh=fresh, approx=approx)
        if freshlabel and fresh is not None:
            for nm, v in self.draws + self.results:
                o = v.obj
                theirs = (o.label + [o.label]) if isinstance(v, LV) else ([o] + [z for z in o if type(z) is list] if isinstance(o, list) else [])
                for L in r.label + [r.label]:
                    if any(L is z for z in theirs):
                        self.fail('sharing', '%s: %s shares a label list with %s' % (self.target, name, nm))
        self.results.append((name, LV(r)))

    def is_scalar(self, r, v, name='result', approx=False):
        if isinstance(r, (np.ndarray, self.la.larry)) and getattr(r, 'ndim', 1) != 0:
            self.fail('ensures', '%s: %s is not a scalar' % (self.target, name))
        if isinstance(r, np.ndarray):
            r = r[()]
        ok = vclose(r, v) if (approx or self.approx) else veq(r, v)
        self.approx = 0
        if not ok:
            self.fail('ensures', '%s: %s is %r, expected %r' % (self.target, name, r, v))

    def is_list(self, r, s, name='result', typ=list, approx=False, fresh=True):
        if type(r) is not typ:
            self.fail('ensures', '%s: %s is a %s' % (self.target, name, type(r).__name__))
        if len(r) != s.n:
            self.fail('ensures', '%s: %s has %d elements, expected %d' % (self.target, name, len(r), s.n))
        for i, z in enumerate(r):
            self.approx = 0
            e = s.get(i)
            if not ((vclose(z, e) if (approx or self.approx) and not isinstance(z, tuple) else (same_py_loose(z, e)))):
                self.fail('ensures', '%s: %s[%d] is %r, expected %r' % (self.target, name, i, z, e))
        if typ is list and fresh:
            for nm, v in self.draws + self.results:
                o = v.obj
                theirs = (o.label + [o.label]) if isinstance(v, LV) else ([o] if isinstance(o, list) else [])
                if any(r is z for z in theirs):
                    self.fail('sharing', '%s: %s is a list of %s itself' % (self.target, name, nm))

    def is_dict(self, r, keys, vals, name='result'):
        "exactly these (distinct) keys with these values"
        if type(r) is not dict:
            self.fail('ensures', '%s is a dict, got %s' % (name, type(r).__name__))
        if len(r) != keys.n:
            self.fail('ensures', '%s has %d keys, not %d' % (name, len(r), keys.n))
        for i in range(keys.n):
            k = keys.get(i)
            if k not in r:
                self.fail('ensures', '%s lacks the key %r' % (name, k))
            self.is_scalar(r[k], vals.get(i), name='value of %r in %s' % (k, name))

    def is_unique(self, r, x, index, inverse):
        cells = x.x.ravel().tolist()
        want = sorted(set(cells))
        parts = list(r) if isinstance(r, tuple) else [r]
        if len(parts) != 1 + index + inverse or not all(isinstance(p, np.ndarray) and p.ndim == 1 for p in parts):
            raise Violation('ensures', '%s: unique gives %r' % (self.target, type(r)))
        u = parts[0].tolist()
        if u != want or parts[0].dtype.kind != x.x.dtype.kind:
            raise Violation('ensures', '%s: unique values are %r, expected %r' % (self.target, u, want))
        if index and [cells[i] for i in parts[1]] != want:
            raise Violation('ensures', '%s: unique_index is %r' % (self.target, parts[1]))
        if inverse and [want[i] for i in parts[-1]] != cells:
            raise Violation('ensures', '%s: unique_inverse is %r' % (self.target, parts[-1]))
        for p in parts:
            if np.may_share_memory(p, x.x):
                raise Violation('sharing', '%s: the result shares data with the input' % self.target)

    def is_type(self, r, what):
        if what == 'larry' and type(r) is not self.la.larry:
            self.fail('ensures', '%s: the result is a %s, not a larry' % (self.target, type(r).__name__))

    def view(self, r):
        if isinstance(r, self.la.larry):
            return LV(r)
        return AV(r)

    def seq_of(self, r):
        return Seq(r)


def same_py_loose(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_py_loose(x, y) for x, y in zip(a, b))
    return veq(a, b)


def _nan0(f):
    return f


REDS = dict(
    nansum=lambda a: bn.nansum(a), nanmean=lambda a: bn.nanmean(a), nanmedian=lambda a: bn.nanmedian(a),
    nanstd=lambda a, ddof=0: bn.nanstd(a, ddof=ddof), nanvar=lambda a, ddof=0: bn.nanvar(a, ddof=ddof),
    nanmax=lambda a: bn.nanmax(a), nanmin=lambda a: bn.nanmin(a), any=lambda a: np.any(a), all=lambda a: np.all(a),
    prod=lambda a: np.prod(a), cumsum=lambda a: a.sum(), cumprod=lambda a: a.prod(),
    nanprod=lambda a: np.nan if np.isnan(a).all() else np.prod(a[~np.isnan(a)]), sum=lambda a: a.sum(), nanmean2=lambda a: bn.nanmean(a),
    nanrank_at=lambda a, at=0: bn.nanrankdata(a)[at],
)


def weighted(arr, axis, p=1):
    "order sensitive function of a window"
    a = np.rollaxis(arr, axis)
    out = np.zeros(a.shape[1:])
    for i in range(a.shape[0]):
        out = out * p + (i + 1.5) * a[i]
    return out


REDUCERS = dict(weighted=weighted)


class Scratch(object):
    "a file name in a new empty directory, removed afterwards"
    def __enter__(self):
        import tempfile, os
        self.dir = tempfile.mkdtemp(prefix='laverif')
        return os.path.join(self.dir, 'f.dat')

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


class Permuter(object):
    "a permutation of a list in place, remembered"
    def __init__(self, seed):
        self.seed = seed

    def __call__(self, L):
        random.Random(self.seed).shuffle(L)

    def order(self, n):
        L = list(range(n))
        self(L)
        return L


class Randinter(object):
    def __init__(self, seed):
        self.rng, self.drawn = random.Random(seed), []

    def __call__(self, lo, hi, n):
        if self.rng.random() < 0.3:
            L = list(range(lo, hi))[:n]
            self.rng.shuffle(L)
        else:
            L = [self.rng.randrange(lo, hi) for _ in range(n)]
        self.drawn.append(L)
        return np.array(L)


def finite(a):
    return a[~(np.isnan(a))]


def ranks(v):
    "0-based ranks of the non-NaN values, ties averaged"
    out = np.empty(len(v))
    for i, z in enumerate(v):
        out[i] = np.nan if z != z else (v < z).sum() + ((v == z).sum() - 1) / 2.0
    return out


def ranked(a, at, norm):
    v = np.asarray(a, dtype=float)
    if v[at] != v[at]:
        return np.nan
    r, k, n = ranks(v)[at], finite(v).size, v.size
    if k == 1:
        return {'-1,1': 0.0, '0,N-1': (n + 1.0) / 2 - 1, 'gaussian': 0.0}[norm]
    if norm == '-1,1':
        return 2.0 * r / (k - 1) - 1
    r = r * (n - 1.0) / (k - 1)
    if norm == '0,N-1':
        return r
    from scipy.special import ndtri
    return ndtri((r + 1.0) / (n + 1.0))


def lastrank(a, decay=0):
    v = np.asarray(a, dtype=float)
    if v.size == 0 or not np.isfinite(v[-1]):
        return np.nan
    n = v.size
    w = np.exp(-decay * np.arange(n - 1, -1, -1.0))
    w = n * w / w.sum()
    ok = np.isfinite(v)
    tot = w[ok].sum() - w[-1]
    if ok.sum() == 1:
        return np.nan
    g = w[ok & (v < v[-1])].sum()
    e = w[ok & (v == v[-1])].sum() - w[-1]
    return 2.0 * ((g + e / 2.0) / tot - 0.5)


def binned(a, at, q):
    v = np.asarray(a, dtype=float)
    if v[at] != v[at]:
        return np.nan
    if q == 1:
        return 0.0
    fin = finite(v)
    nx = fin.size
    tied = (fin == v[at]).sum()
    lo = (fin < v[at]).sum()
    out = []
    for r in range(lo, lo + tied):              # ties may be ranked in any order
        for eps in ((0,) if (nx - 1) % q == 0 else (-1e-9, 1e-9)):   # rounding of the bin edges
            j = [j for j in range(1, q + 1) if r <= (nx - 1.0) * j / q + eps or j == q][0]
            out.append(2.0 * ((j - 1.0) / (q - 1.0) - 0.5))
    return Alt(*out)


def zscoreof(a, v):
    a = np.asarray(a, dtype=float)
    m, s = bn.nanmean(a), bn.nanstd(a)
    c = a[~np.isnan(a)]
    if c.size and s < 1e-6 * max(1.0, abs(c).max()):     # 0/0 up to rounding
        return Anything()
    return (v - m) / s


class Anything(Alt):
    def __init__(self):
        self.vals = ()


REDS.update(
    lastrank=lastrank, ranked=ranked, binned=binned, zscoreof=zscoreof,
    weighted=lambda a, p=1: weighted(np.asarray(a, dtype=float), 0, p),
    scaledsum=lambda a, w: bn.nansum(a) * w / finite(np.asarray(a, dtype=float)).size if finite(np.asarray(a, dtype=float)).size else np.nan,
    meanof=REDS['nanmean'],
)
