"""Symbolic interpreter for the Python 2 subset la is written in.

It executes the AST of la's real source (dumped by the python2.7 that runs la,
see dump_ast.py).  Everything it does not understand raises Unsupported, which
makes the contract undecided, never proved.
"""
import json
import z3
from .core import *
from .core import _Gen


# ------------------------------------------------------------------- AST nodes

class Node(object):
    def __repr__(self):
        return '<%s line %s>' % (self.t, getattr(self, 'line', '?'))


def decode(j):
    if isinstance(j, dict):
        if '_' in j:
            n = Node()
            n.t = j['_']
            for k, v in j.items():
                if k == '@':
                    n.line = v
                elif k != '_':
                    setattr(n, k, decode(v))
            return n
        k, v = list(j.items())[0]
        if k == '_s':
            return v
        if k == '_i':
            return int(v)
        if k == '_f':
            return float(v)
        raise Unsupported('constant %r' % (j,))
    if isinstance(j, list):
        return [decode(z) for z in j]
    return j


# ---------------------------------------------------------------------- values

def has_red(t):
    "is a statistic's result part of the term?"
    if not sym(t):
        return False
    seen, todo = set(), [t]
    while todo:
        z = todo.pop()
        if z.get_id() in seen:
            continue
        seen.add(z.get_id())
        if z3.is_app(z):
            if z.decl().name().startswith('red_'):
                return True
            todo.extend(z.children())
    return False


class OStr(object):
    "a string whose content is not tracked (error messages)"
    def subst(self, c, t):
        return self


class Prod(object):
    "product of axis lengths"
    def __init__(self, factors):
        self.factors = factors

    def term(self):
        r = 1
        for f in self.factors:
            r = r * f
        return r

    def is_zero(self):
        return Or(*[eqint(f, 0) for f in self.factors])


def size_of(factors):
    fs = [f for f in factors if not (isinstance(f, int) and f == 1)]
    if not fs:
        return 1
    if any(isinstance(f, int) and f == 0 for f in fs):
        return 0
    if len(fs) == 1:
        return fs[0]
    if all(isinstance(f, int) for f in fs):
        r = 1
        for f in fs:
            r *= f
        return r
    return Prod(fs)


class Fn(object):
    def __init__(self, name, args, body, env, defaults, cls=None, is_lambda=False):
        self.name, self.args, self.body, self.env, self.defaults, self.cls = name, args, body, env, defaults, cls
        self.is_lambda = is_lambda
        self.full = None
        self.locals = None
        self.is_gen = False if is_lambda else has_yield(body)
        self.attrs = {}

    def __repr__(self):
        return '<Fn %s>' % self.name


class Builtin(object):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<builtin %s>' % self.name


class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class PyClass(object):
    def __init__(self, name, bases, d):
        self.name, self.bases, self.d = name, bases, d

    def find(self, name):
        if name in self.d:
            return self.d[name]
        for b in self.bases:
            if isinstance(b, PyClass):
                r = b.find(name)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class Inst(object):
    def __init__(self, E, cls):
        self.E = E
        self.cls = cls
        self.attrs = {}
        self.stamp = E.new_stamp()

    def subst(self, c, t):
        "the object of another iteration: one that does not depend on it is the same object"
        old = dict((k, v) for k, v in self.attrs.items())
        new = dict((k, subst(self.E, v, c, t)) for k, v in old.items())
        if all(unchanged(old[k], new[k]) for k in old):
            return self
        r = Inst(self.E, self.cls)
        r.attrs = new
        return r


def unchanged(a, b):
    if a is b:
        return True
    if sym(a) and sym(b):
        return a.eq(b)
    if isinstance(a, PList) and isinstance(b, PList):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(unchanged(x, y) for x, y in zip(a.items, b.items))
        if a.items is None and b.items is None:
            h = z3.Const('#un', Int)
            return unchanged(a.n, b.n) and unchanged(a.fn(h), b.fn(h))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and isinstance(a, (int, str)) and a == b


class Prop(object):
    def __init__(self, fget):
        self.fget = fget


class Static(object):
    def __init__(self, f):
        self.f = f


class Module(object):
    package = False

    def __init__(self, name):
        self.name, self.d = name, {}

    def __repr__(self):
        return '<module %s>' % self.name


class Stub(object):
    "an external module whose use is outside the subset"
    def __init__(self, name):
        self.name = name


class PyIter(object):
    "an iterator / lazily evaluated sequence, already evaluated"
    def __init__(self, seq):
        self.seq = seq
        self.i = 0


class Env(object):
    def __init__(self, vars, parent, mod, localnames=None, cls=None):
        self.vars, self.parent, self.mod, self.localnames, self.cls = vars, parent, mod, localnames, cls
        self.globs = ()
        self.fn = None
        self.nyield = None


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class LoopCtx(object):
    def __init__(self, E):
        self.stamp = E.new_stamp()
        self.effects = []
        self.reads = set()
        self.h5reads = []
        self.priv = None        # (list, item) -> value before the loop

    def private(self, L, j):
        self.priv.setdefault((id(L), j), (L, L.items[j]))

    def restore(self, poison=None):
        for (_, j), (L, v) in self.priv.items():
            L.items[j] = poison if poison is not None else v

    def record(self, obj, kind, args):
        if kind == 'append' and obj.sink and self.effects and self.effects[-1][0] is obj:
            from .iomodel import Text
            self.effects[-1] = (obj, kind, (Text(obj.E, [self.effects[-1][2][0], args[0]]),))
            return
        self.effects.append((obj, kind, args))


def walk(n):
    if isinstance(n, list):
        for z in n:
            for q in walk(z):
                yield q
    elif isinstance(n, Node):
        yield n
        for k, v in n.__dict__.items():
            if k not in ('t', 'line'):
                for q in walk(v):
                    yield q


def walk_scope(n):
    "nodes of the same scope (not inside nested functions)"
    if isinstance(n, list):
        for z in n:
            for q in walk_scope(z):
                yield q
    elif isinstance(n, Node):
        yield n
        if n.t in ('FunctionDef', 'Lambda', 'ClassDef', 'GeneratorExp'):
            return
        for k, v in n.__dict__.items():
            if k not in ('t', 'line'):
                for q in walk_scope(v):
                    yield q


def has_yield(body):
    return any(n.t == 'Yield' for n in walk_scope(body))


def target_names(t, out):
    if t.t == 'Name':
        out.add(t.id)
    elif t.t in ('Tuple', 'List'):
        for e in t.elts:
            target_names(e, out)


def assigned(body):
    out = set()
    for n in walk_scope(body):
        if n.t == 'Assign':
            for t in n.targets:
                target_names(t, out)
        elif n.t == 'AugAssign':
            target_names(n.target, out)
        elif n.t in ('For', 'comprehension'):
            target_names(n.target, out)
        elif n.t in ('FunctionDef', 'ClassDef'):
            out.add(n.name)
        elif n.t in ('Import', 'ImportFrom'):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif n.t == 'ExceptHandler' and n.name is not None:
            target_names(n.name, out)
        elif n.t == 'With' and n.optional_vars is not None:
            target_names(n.optional_vars, out)
    return out


BINOPS = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'Pow': 'power', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}
CMPS = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}
SPECIAL = {'add': ('__add__', '__radd__'), 'sub': ('__sub__', '__rsub__'), 'mul': ('__mul__', '__rmul__'),
           'div': ('__div__', '__rdiv__'), 'truediv': ('__truediv__', '__rtruediv__'),
           'floordiv': ('__floordiv__', '__rfloordiv__'), 'and': ('__and__', '__rand__'), 'or': ('__or__', '__ror__'),
           'power': ('__pow__', '__rpow__'), 'mod': ('__mod__', '__rmod__'),
           'eq': ('__eq__', '__eq__'), 'ne': ('__ne__', '__ne__'), 'lt': ('__lt__', '__gt__'), 'gt': ('__gt__', '__lt__'),
           'le': ('__le__', '__ge__'), 'ge': ('__ge__', '__le__')}
EXC = ('Exception ValueError TypeError IndexError KeyError AttributeError ImportError RuntimeError '
       'NotImplementedError ZeroDivisionError NameError IOError StopIteration AssertionError OverflowError LookupError '
       'UnboundLocalError OSError').split()


def exact_real(t):
    "a float that is an integer"
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return t.denominator_as_long() == 1
    if t.decl().kind() == z3.Z3_OP_TO_REAL:
        return True
    if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return all(exact_real(z) for z in t.children())
    return False


class Interp(object):
    def __init__(self, E, asts, absent=()):
        from . import nump
        self.E = E
        E.interp = self
        self.asts = asts
        self.absent = set(absent)
        self.mods = {}
        self.global_log = []
        self.contracts = {}
        self.invs = {}
        self.on_yield = {}
        self.skipped = []
        self.np = nump.NumPy(self)
        from . import iomodel
        self.io = iomodel
        self.files = []
        self.archives = []
        from . import h5model
        self.h5 = h5model
        self.models = {'csv': iomodel.csv_module, 'sys': iomodel.sys_module, 'h5py': h5model.h5py_module,
                       'string': iomodel.string_module, 'random': iomodel.random_module, 'os': h5model.os_module, 'datetime': h5model.datetime_module}
        self.mkbuiltins()
        self.calls = set()

    # ---------------------------------------------------------------- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in ('numpy', 'np'):
            m = self.np.module()
        elif name == 'bottleneck':
            m = self.np.bn_module()
        elif name in self.absent:
            raise PyRaise(ImportError, name)
        elif name in self.models:
            m = self.models[name](self)
        elif name in self.asts:
            m = Module(name)
            m.package = any(z.startswith(name + '.') for z in self.asts)
            self.mods[name] = m
            env = Env(m.d, None, m)
            m.d['__name__'] = name
            self.exec_module(name, env)
            if '.' in name:
                p, c = name.rsplit('.', 1)
                if p in self.mods:
                    self.mods[p].d[c] = m
            return m
        else:
            m = Stub(name)
        self.mods[name] = m
        return m

    def exec_module(self, name, env):
        for st in self.asts[name].body:
            try:
                self.exec_block([st], env)
            except Unsupported as e:
                self.skipped.append('%s line %s: %s' % (name, getattr(st, 'line', '?'), e))

    def do_import(self, name, fromlist=None):
        parts = name.split('.')
        if name == 'scipy.special':
            m = Module(name)
            m.d['ndtri'] = Builtin('ndtri', lambda a: self.np.unary('ndtri', a))
            return m
        for k in range(1, len(parts) + 1):
            nm = '.'.join(parts[:k])
            if nm.split('.')[0] == 'la' and nm not in self.asts:
                raise PyRaise(ImportError, nm)
            if nm.split('.')[0] in ('la', 'numpy', 'bottleneck') and k > 1 and nm.split('.')[0] != 'la':
                return self.getattr_(self.load(parts[0]), parts[1]) if len(parts) == 2 else Stub(name)
            m = self.load(nm)
        return m

    # --------------------------------------------------------------- builtins
    def mkbuiltins(self):
        b = {'None': None, 'True': True, 'False': False, 'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis,
             'object': object, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'frozenset': frozenset,
             'int': int, 'float': float, 'bool': bool, 'str': str, 'slice': slice, 'complex': complex}
        for e in EXC:
            b[e] = getattr(__import__('builtins'), e)
        b['long'] = int
        b['unicode'] = UNICODE
        b['basestring'] = BASESTRING
        for n in dir(self):
            if n.startswith('bi_'):
                b[n[3:]] = Builtin(n[3:], getattr(self, n))
        b['xrange'] = b['range']
        b['property'] = Builtin('property', lambda f: Prop(f))
        b['staticmethod'] = Builtin('staticmethod', lambda f: Static(f))
        self.builtins = b

    def mklist(self, items):
        return PList(self.E, items=list(items))

    def bi_len(self, v):
        if isinstance(v, (PList, PSet, PDict)):
            return v.length()
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, self.np.Arr):
            if not v.shape:
                raise PyRaise(TypeError, 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, Inst):
            return self.call_method(v, '__len__', ())
        if hasattr(v, 'h_len'):
            return v.h_len()
        if isinstance(v, (int, float, type(None))) or is_int(v) or is_bool(v):
            raise PyRaise(TypeError, 'len of scalar')
        raise Unsupported('len of %r' % (v,))

    def bi_range(self, *a):
        a = [self.as_int(z) for z in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        E = self.E
        if all(isinstance(z, int) for z in (lo, hi, st)):
            return self.mklist(range(lo, hi, st))
        if st == -1 and isinstance(st, int):
            n = simp_int(z3.If(hi < lo, lo - hi, z3.IntVal(0)) if sym(lo) or sym(hi) else max(0, lo - hi))
            return PList(E, n=n, fn=lambda i: simp_int(lo - i))
        if not (isinstance(st, int) and st == 1):
            if not isinstance(st, int):
                raise Unsupported('range with step %r' % (st,))
            if st == 0:
                raise PyRaise(ValueError, 'step')
            d = simp_int(hi - lo if st > 0 else lo - hi)
            q = floordiv(d + (abs(st) - 1), abs(st))
            n = simp_int(q if self.known_nonneg(d) else z3.If(d > 0, q, z3.IntVal(0)))
            return PList(E, n=n, fn=lambda i: simp_int(lo + i * st))
        d = hi if isinstance(lo, int) and lo == 0 else hi - lo
        n = d if self.known_nonneg(d) else z3.If(d > 0, d, z3.IntVal(0))
        n = simp_int(n)
        if isinstance(lo, int) and lo == 0:
            return PList(E, n=n, fn=lambda i: i, memf=lambda v: rng_mem(E, v, 0, n), posf=lambda v: rng_pos(E, v, 0), uniqf=True)
        return PList(E, n=n, fn=lambda i: lo + i, memf=lambda v: rng_mem(E, v, lo, n), posf=lambda v: rng_pos(E, v, lo), uniqf=True)

    def known_nonneg(self, d):
        if isinstance(d, int):
            return d >= 0
        k = ('nonneg', d.get_id())
        if k not in self.E.memo:
            self.E.keep.append(d)
            r = self.E.check(d < 0) == z3.unsat
            if not r:
                return False
            self.E.memo[k] = True
        return True

    def seq(self, v):
        "the elements of an iterable as a PList"
        E = self.E
        if isinstance(v, PList):
            return v
        if isinstance(v, tuple):
            return PList(E, items=list(v))
        if isinstance(v, str):
            return PList(E, items=list(v))
        if isinstance(v, PIterBase):
            return v.seq
        if isinstance(v, PDict):
            if v.pairs is not None:
                if getattr(v, 'poison', False):
                    raise Unsupported('iteration over an untracked dict')
                return PList(E, items=[k for k, _ in v.pairs])
            return self.dict_lists(v)[0]
        if isinstance(v, PSet):
            return self.members(v, ordered=False)
        if isinstance(v, self.np.Arr):
            if not v.shape:
                raise PyRaise(TypeError, 'iteration over a 0-d array')
            n = v.shape[0]
            if isinstance(n, int):
                return PList(E, items=[self.np.getitem(v, k) for k in range(n)])
            return PList(E, n=n, fn=lambda i: self.np.getitem(v, i, trusted=True))
        if isinstance(v, Inst):
            g = v.cls.find('__iter__')
            if g is not None:
                return self.seq(self.call_method(v, '__iter__', ()))
            return self.old_iteration(v)
        if hasattr(v, 'h_seq'):
            return v.h_seq()
        if v is None or isinstance(v, (int, float, bool)) or is_int(v) or is_bool(v) or isinstance(v, Sc):
            raise PyRaise(TypeError, 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def old_iteration(self, v):
        "an object without __iter__: v[0], v[1], ... up to the IndexError"
        E = self.E
        x = v.attrs.get('x')
        if not isinstance(x, self.np.Arr) or not x.shape:
            raise Unsupported('iteration over %r' % (v,))
        n = simp_int(x.shape[0])
        end = E.sub(lambda: self.getitem(v, n))
        if not end or any(k != 'exc' or e.cls is not IndexError for _, k, e in end):
            raise Unsupported('iteration over %r' % (v,))
        if isinstance(n, int):
            return self.mklist([self.getitem(v, k) for k in range(n)])
        c = E.canon('i', Int)

        def item():
            E.assume(And(0 <= c, lt(c, n)))
            return self.getitem(v, c)
        with E.generic(c):
            outs = E.sub(item)
            if any(k != 'ok' for _, k, _ in outs):
                raise Unsupported('iteration over %r' % (v,))
            val = E.ite_chain([(cond, r) for cond, k, r in outs])
        return PList(E, n=n, fn=lambda i: subst(E, val, c, i))

    def bi_iter(self, v):
        return PyIter(self.seq(v))

    def bi_zip(self, *ls):
        E = self.E
        ls = [self.seq(z) for z in ls]
        if all(z.items is not None for z in ls):
            return self.mklist(zip(*[z.items for z in ls]))
        ns = [z.length() for z in ls]
        n = ns[0]
        for m in ns[1:]:
            if eqint(n, m) is not True:
                if isinstance(n, int) and isinstance(m, int):
                    n = min(n, m)
                else:
                    n = n if E.branch(n <= m) else m
        fs = [z.frozen() for z in ls]
        if isinstance(n, int):
            return self.mklist([tuple(f.get(i) for f in fs) for i in range(n)])
        r = PList(E, n=n, fn=lambda i: tuple(f.get(i) for f in fs))
        return r
    bi_izip = bi_zip

    def unzip(self, L):
        "zip(*L) of a list of tuples of one length"
        E = self.E
        if not E.branch(lt(0, L.length())):
            return self.mklist([])
        f = L.frozen()
        c = E.canon('i', Int)
        with E.generic(c):
            e = f.get(c)
        if isinstance(e, PList) and e.items is not None:
            return self.mklist([PList(E, n=f.n, fn=lambda i, j=j: f.get(i).items[j], tup=True) for j in range(len(e.items))])
        if not isinstance(e, tuple):
            raise Unsupported('symbolic *args')
        return self.mklist([PList(E, n=f.n, fn=lambda i, j=j: f.get(i)[j], tup=True) for j in range(len(e))])

    def bi_enumerate(self, v, start=0):
        L = self.seq(v)
        if L.items is not None:
            return self.mklist([(i + start, z) for i, z in enumerate(L.items)])
        f = L.frozen()
        return PList(self.E, n=f.n, fn=lambda i: (i + start if start != 0 else i, f.get(i)))

    def bi_reversed(self, v):
        return self.list_slice(self.seq(v), slice(None, None, -1))

    def bi_sorted(self, v, cmp=None, key=None, reverse=False):
        if key is not None or cmp is not None:
            raise Unsupported('sorted with a key')
        return self.sort_list(v, reverse)

    def members(self, S, reverse=False, ordered=True):
        "the members of a set as a list"
        L = self.E.set_enum(S, reverse=reverse, ordered=ordered)
        if S.kind is None:
            return L
        k, m, q = S.kind, L.memf, L.posf
        raw = lambda v: v.v if isinstance(v, Sc) else self.E.toV(v)
        return PList(self.E, n=L.n, fn=lambda i: Sc(k, L.get(i)), memf=lambda v: m(raw(v)), posf=lambda v: q(raw(v)), uniqf=True)

    def sort_list(self, v, reverse=False):
        E = self.E
        if isinstance(v, PDict) and v.pairs is not None:
            v = self.seq(v)
        if isinstance(v, PSet):
            return self.members(v, reverse=bool(reverse)).copy()
        L = self.seq(v)
        if L.items is not None:
            if all(isinstance(z, int) for z in L.items) or all(isinstance(z, str) for z in L.items):
                return self.mklist(sorted(L.items, reverse=bool(reverse)))
            if len(L.items) <= 1:
                return L.copy()
        o = L.origin
        if isinstance(o, PSet):
            return self.members(o, reverse=bool(reverse)).copy()
        if L.uniqf or E.branch(E.uniq(L)):
            r = E.set_enum(PSet.from_list(E, L), reverse=bool(reverse))
            # a list without repeats and the enumeration of its set are of the same length
            E.add_axiom(z3.Implies(to_bool(E.uniq(L)), to_bool(eqint(r.length(), L.length()))))
            return r.copy()
        raise Unsupported('sorting a list with repeats')

    def bi_any(self, v):
        L = self.seq(v)
        if L.items is not None:
            return Or(*[self.truth_term(z) for z in L.items])
        f = L.frozen()
        return self.E.exists_range(f.n, lambda i: self.truth_term(f.get(i)))

    def bi_all(self, v):
        L = self.seq(v)
        if L.items is not None:
            return And(*[self.truth_term(z) for z in L.items])
        f = L.frozen()
        return self.E.forall_range(f.n, lambda i: self.truth_term(f.get(i)))

    def bi_sum(self, v, start=0):
        L = self.seq(v)
        if L.items is None:
            raise Unsupported('sum of a symbolic list')
        r = start
        for z in L.items:
            r = self.binop('add', r, z)
        return r

    def minmax(self, a, less):
        if len(a) == 1:
            L = self.seq(a[0])
            if L.items is None:
                return self.extreme(L, less(0, 1))
            a = L.items
            if not a:
                raise PyRaise(ValueError, 'empty sequence')
        r = a[0]
        for z in a[1:]:
            if all(is_int(q) or isinstance(q, bool) for q in (r, z)):
                c = less(z, r)
                r = simp_int(self.E.ite(c, z, r))
            elif all(isinstance(q, (int, float)) for q in (r, z)):
                r = z if less(z, r) else r
            elif all(is_u(q) or is_int(q) or isinstance(q, str) for q in (r, z)):
                r = self.E.ite(self.E.ult(z, r) if less(0, 1) else self.E.ult(r, z), z, r)
            else:
                raise Unsupported('min/max of %r' % (z,))
        return r

    def extreme(self, L, smallest):
        "min or max of a symbolic list of labels or integers"
        E = self.E
        if not E.branch(lt(0, L.length())):
            raise PyRaise(ValueError, 'empty sequence')
        f = L.frozen()
        c = E.canon('i', Int)
        with E.generic(c):
            e = f.get(c)
        if not (is_u(e) or is_int(e)):
            raise Unsupported('min/max of a symbolic list')
        k = E.const('extreme', Int)
        E.assume(inrange(k, f.n))
        m = f.get(k)
        E.assume(E.forall_range(f.n, lambda i: Not(E.ult(f.get(i), m) if smallest else E.ult(m, f.get(i)))))
        return m

    def bi_min(self, *a):
        return self.minmax(a, lambda x, y: x < y)

    def bi_max(self, *a):
        return self.minmax(a, lambda x, y: x > y)

    def bi_abs(self, v):
        if isinstance(v, Inst):
            return self.call_method(v, '__abs__', ())
        if isinstance(v, self.np.Arr) or isinstance(v, Sc):
            return self.np.unary('absolute', v)
        if is_int(v) and sym(v):
            return z3.If(v < 0, -v, v)
        if isinstance(v, (int, float)):
            return abs(v)
        raise Unsupported('abs')

    def bi_isinstance(self, v, c):
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if self.isinst(v, k):
                return True
        return False

    def type_of(self, v):
        if isinstance(v, bool) or is_bool(v):
            return bool if isinstance(v, bool) else self.np.T['bool_']
        if isinstance(v, int):
            return int
        if sym(v) and v.sort() == Int:
            return int
        if isinstance(v, PList):
            return list if not v.tup else tuple
        if isinstance(v, PSet):
            return frozenset if getattr(v, 'frozen', False) else set
        if isinstance(v, PDict):
            return dict
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, self.np.Arr):
            return self.np.ndarray
        if isinstance(v, Sc):
            return self.np.sctype(v.kind)
        if isinstance(v, OStr):
            return str
        if isinstance(v, (str, float, tuple, slice, type(None))):
            return type(v)
        if isinstance(v, (Fn, Bound, Builtin)):
            return FUNCTYPE
        if isinstance(v, (type, PyClass)):
            return type
        if v is Ellipsis:
            return type(Ellipsis)
        if isinstance(v, PyIter):
            return PyIter
        if isinstance(v, self.io.GFile):
            return self.io.GFile
        if is_u(v):
            if self.E.typed:
                return self.h5.SType(self.h5.TY(v))
            raise Unsupported('type of a label')
        if isinstance(v, self.h5.HGroup) or isinstance(v, self.h5.HData):
            return type(v)
        if isinstance(v, self.h5.UniName):
            return UNICODE
        if isinstance(v, self.h5.LArr):
            return self.np.ndarray
        raise Unsupported('type of %r' % (v,))

    def isinst(self, v, k):
        if k is object:
            return True
        if isinstance(k, self.h5.HClass):
            return k.has(v)
        if isinstance(v, BaseException):
            return isinstance(v, k)
        if isinstance(k, self.np.NpType):
            t = self.np.type_of_scalar(v)
            return t is not None and self.np.subtype(t, k)
        if is_u(v):
            if k in (list, dict, self.np.ndarray, set) or isinstance(k, PyClass) or k is slice or k is type(None):
                return False
            if self.E.typed:
                if isinstance(k, self.h5.HType):
                    return self.E.branch(Or(self.h5.TY(v) == k.code, self.h5.TY(v) == 6 if k.code == 4 else False))
                if k in self.h5.HOST:
                    return self.E.branch(self.h5.TY(v) == self.h5.HOST[k])
                if k is BASESTRING:
                    return self.E.branch(self.h5.TY(v) == 2)
            raise Unsupported('type of a label')
        t = self.type_of(v)
        if t is k:
            return True
        if k is int and t is bool:
            return True
        if k is float and isinstance(v, Sc) and v.kind == 'f':
            return True
        if k is str and isinstance(v, Sc) and v.kind == 's':
            return True
        if k is BASESTRING:
            return t is str or (isinstance(v, Sc) and v.kind == 's')
        if isinstance(t, PyClass) and isinstance(k, PyClass):
            return self.subclass(t, k)
        return False

    def subclass(self, a, b):
        if b is object:
            return True
        if isinstance(a, self.np.NpType) and isinstance(b, self.np.NpType):
            return self.np.subtype(a, b)
        if isinstance(a, PyClass):
            return a is b or any(self.subclass(z, b) for z in a.bases if isinstance(z, PyClass))
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return False

    def bi_issubclass(self, a, b):
        return any(self.subclass(a, k) for k in (b if isinstance(b, tuple) else (b,)))

    def bi_type(self, v):
        return self.type_of(v)

    def bi_hasattr(self, v, name):
        if name == '__iter__' and isinstance(v, (tuple, PList, PDict, PSet, dict, str, OStr)):
            return not isinstance(v, (str, OStr))       # Python 2 strings have no __iter__
        try:
            self.getattr_(v, name)
            return True
        except PyRaise as e:
            if e.cls is AttributeError:
                return False
            raise

    def bi_getattr(self, v, name, *d):
        try:
            return self.getattr_(v, name)
        except PyRaise as e:
            if d and e.cls is AttributeError:
                return d[0]
            raise

    def bi_callable(self, v):
        return isinstance(v, (Fn, Bound, Builtin, PyClass, type))

    def bi_map(self, f, v):
        return self.comp(self.seq(v), lambda x: self.call(f, (x,), {}))

    def bi_filter(self, f, v):
        raise Unsupported('filter')

    def bi_repr(self, v):
        r = self.io.str_of(self, v, 'repr')
        return OStr() if r is None else self.io.lower(r)

    def bi_open(self, *a, **k):
        return self.io.open_file(self, *a, **k)

    bi_file = bi_open

    def bi_next(self, v):
        if hasattr(v, 'next'):
            return v.next()
        raise Unsupported('next of %r' % (v,))

    def bi_id(self, v):
        raise Unsupported('id')

    def bi_print(self, *a, **k):
        return None

    def bi_round(self, v, nd=0):
        if isinstance(v, (int, float)):
            return float(round(v, nd))
        raise Unsupported('round')

    def bi_globals(self):
        raise Unsupported('globals')

    def bi_super(self, *a):
        raise Unsupported('super')

    def bi_divmod(self, a, b):
        return (self.binop('floordiv', a, b), self.binop('mod', a, b))

    def construct(self, t, args, kw):
        E = self.E
        if t in (list, tuple):
            if not args:
                return self.mklist([]) if t is list else ()
            v = args[0]
            if isinstance(v, PSet):
                L = self.members(v, ordered=False).copy()
                L.origin = v
                if t is tuple:
                    L.tup = True
                return L
            L = self.seq(v)
            if t is tuple:
                if L.items is not None:
                    return tuple(L.items)
                r = L.copy()
                r.tup = True
                return r
            r = L.copy()
            r.tup = False
            r.origin = L.origin
            return r
        if t in (set, frozenset):
            if not args:
                S = PSet(E, lambda v: False, [], U)
                return S
            if isinstance(args[0], PSet):
                return args[0]
            L = self.seq(args[0])
            self.hashable(L)
            S = PSet.from_list(E, L)
            S.frozen = t is frozenset
            return S
        if t is dict:
            if not args:
                return PDict(E, pairs=[(k, v) for k, v in kw.items()])
            v = args[0]
            if isinstance(v, PDict):
                if v.pairs is not None:
                    return PDict(E, pairs=list(v.pairs))
                return PDict(E, keys=v.keys, vals=v.vals)
            L = self.seq(v)
            if L.items is not None:
                d = PDict(E, pairs=[])
                for z in L.items:
                    k, x = self.unpack(z, 2)
                    d.set(k, x)
                return d
            f = L.frozen()
            keys = PList(E, n=f.n, fn=lambda i: f.get(i)[0])
            src = getattr(L, 'zipped', None)
            return PDict(E, keys=keys, vals=PList(E, n=f.n, fn=lambda i: f.get(i)[1]))
        if t is bool:
            return self.truth_term(args[0]) if args else False
        if t is int:
            if not args:
                return 0
            return self.to_int(args[0])
        if t is float:
            v = args[0] if args else 0.0
            if isinstance(v, (int, float, bool)):
                return float(v)
            if isinstance(v, str):
                try:
                    return float(v)
                except ValueError:
                    raise PyRaise(ValueError, 'float')
            if is_int(v) or is_bool(v):
                return Sc('f', self.np.cast(v, 'i' if is_int(v) else 'b', 'f'))
            if isinstance(v, Sc) and v.kind == 'f':
                return v
            if isinstance(v, self.np.Arr) and not v.shape:
                return self.construct(float, (self.np.cellvalue(v, []),), {})
            if v is None or isinstance(v, (PList, tuple, PDict)):
                raise PyRaise(TypeError, 'float')
            raise Unsupported('float of %r' % (v,))
        if t is str:
            if args and isinstance(args[0], (str, int)) and not isinstance(args[0], bool):
                return str(args[0])
            if len(args) == 1:
                r = self.io.str_of(self, args[0])
                if r is not None:
                    return self.io.lower(r)
            return OStr()
        if t is slice:
            a = list(args)
            if len(a) == 1:
                return slice(None, a[0], None)
            return slice(*a)
        if t is object:
            return Inst(E, PyClass('object', [], {}))
        if isinstance(t, type) and issubclass(t, BaseException):
            return t(*[a for a in args if isinstance(a, (str, int))])
        raise Unsupported('construction of %r' % (t,))

    def hashable(self, L):
        if L.items is not None:
            for z in L.items:
                if isinstance(z, (PList, PDict, PSet)) and not (isinstance(z, PList) and z.tup):
                    raise PyRaise(TypeError, 'unhashable')

    def to_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise(ValueError, 'int')
        if sym(v):
            if v.sort() == Int:
                return v
            if v.sort() == Bool:
                return self.E.coerce(v, Int)
            if v.sort() == Real:
                return self.trunc(v)
        if isinstance(v, Prod):
            return v
        if isinstance(v, self.np.Arr) and not v.shape:
            return self.to_int(self.np.cellvalue(v, []))
        if v is None or isinstance(v, (PList, tuple, PDict, slice, Inst)):
            raise PyRaise(TypeError, 'int')
        raise Unsupported('int of %r' % (v,))

    def trunc(self, v):
        w = z3.simplify(v)
        if z3.is_app_of(w, z3.Z3_OP_DIV) and all(z3.is_app_of(z, z3.Z3_OP_TO_REAL) for z in w.children()):
            a, b = [z.arg(0) for z in w.children()]
            E = self.E
            if E.check(z3.Not(z3.And(a >= 0, b > 0))) == z3.unsat:
                return E.idiv(a, b)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if is_int(v):
            return simp_int(v)
        if is_bool(v):
            return self.E.coerce(v, Int)
        if isinstance(v, Prod):
            return v.term()
        if isinstance(v, self.np.Arr) and not v.shape:
            return self.as_int(self.np.cellvalue(v, []))
        if v is None or isinstance(v, (str, float, PList, tuple)):
            raise PyRaise(TypeError, 'integer needed')
        raise Unsupported('integer from %r' % (v,))

    # ------------------------------------------------------------------ truth
    def truth_term(self, v):
        "bool(v) as a host bool or a Bool term"
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if sym(v):
            if v.sort() == Bool:
                return v
            if v.sort() == Int:
                return v != 0
            if v.sort() == Real:
                return v != 0
            raise Unsupported('truth of a cell')
        if isinstance(v, (PList, PSet, PDict)):
            if isinstance(v, PSet) and v.src is None:
                return v.nonempty()
            n = v.length()
            return n > 0 if sym(n) else n > 0
        if isinstance(v, Prod):
            return Not(v.is_zero())
        if isinstance(v, self.np.Arr):
            return self.np.truth(v)
        if isinstance(v, Sc):
            return self.np.sctruth(v)
        if isinstance(v, Inst):
            if v.cls.find('__nonzero__') is not None:
                return self.truth_term(self.call_method(v, '__nonzero__', ()))
            if v.cls.find('__len__') is not None:
                return self.truth_term(self.call_method(v, '__len__', ()))
            return True
        if isinstance(v, (Fn, Bound, Builtin, PyClass, type, Module, slice)) or v is NotImplemented or v is Ellipsis:
            return True
        raise Unsupported('truth of %r' % (v,))

    def truth(self, v):
        return self.E.branch(self.truth_term(v))

    # ------------------------------------------------------------- operations
    def binop(self, op, a, b):
        E = self.E
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.inst_op(op, a, b)
        for z in (a, b):
            if isinstance(z, Poison):
                raise Unsupported(z.why)
        Arr = self.np.Arr
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.binary(self.np_op(op), a, b)
        if isinstance(a, OStr) or isinstance(b, OStr) or E.typed and op == 'add' and (is_u(a) or is_u(b)):
            if op == 'add':
                s, t = self.io.as_text(E, a), self.io.as_text(E, b)
                if s is not None and t is not None:
                    return self.io.lower(self.io.Text(E, [s, t]))
                if not isinstance(a, (str, OStr)) and (a is None or isinstance(a, (int, float, PList, tuple, PDict))) or \
                        not isinstance(b, (str, OStr)) and (b is None or isinstance(b, (int, float, PList, tuple, PDict))):
                    raise PyRaise(TypeError, 'cannot concatenate str and other')
            if op in ('add', 'mod') and not (isinstance(a, str) and op == 'mod'):
                return OStr()
        if isinstance(a, str):
            if op == 'mod':
                return self.format(a, b)
            if op == 'add' and isinstance(b, str):
                return a + b
            if op == 'mul' and isinstance(b, int):
                return a * b
            if op == 'add':
                raise PyRaise(TypeError, 'str + other')
        if isinstance(a, PList) and isinstance(b, PList) and op == 'add':
            return a.concat(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'add':
            return a + b
        if isinstance(a, PSet) and isinstance(b, PSet):
            return self.setop(op, a, b)
        if op == 'mul':
            if isinstance(b, (PList, tuple)) and not isinstance(a, (PList, tuple)):
                a, b = b, a
            if isinstance(a, (PList, tuple)):
                b = self.as_int(b)
                if isinstance(b, int):
                    if isinstance(a, tuple):
                        return a * b
                    if a.items is not None:
                        return self.mklist(a.items * b)
                elif isinstance(a, PList) and a.items is not None and len(a.items) == 1:
                    v = a.items[0]
                    n = b if self.known_nonneg(b) else simp_int(z3.If(b > 0, b, z3.IntVal(0)))
                    return PList(E, n=n, fn=lambda i: v)
                raise Unsupported('repetition of a list')
        if isinstance(a, Prod):
            a = a.term()
        if isinstance(b, Prod):
            b = b.term()
        if isinstance(a, Sc) or isinstance(b, Sc) or is_v(a) or is_v(b):
            return self.np.binary(self.np_op(op), a, b)
        num = lambda z: is_int(z) or is_bool(z) or isinstance(z, float) or is_real(z)
        if num(a) and num(b):
            if op != 'mod' and (isinstance(a, float) or isinstance(b, float)) and (has_red(a) or has_red(b)):
                # an integer statistic is a NumPy scalar: its floating arithmetic is NumPy's
                return self.np.binary(self.np_op(op), *[Sc('f', E.toV(z)) if isinstance(z, float) else z for z in (a, b)])
            if not sym(a) and not sym(b):
                return self.hostop(op, a, b)
            if is_bool(a) and is_bool(b) and op in ('and', 'or'):
                return (And if op == 'and' else Or)(a, b)
            return self.intop(op, a, b)
        if isinstance(a, (int, float, type(None), PList, tuple, PDict, str)) and isinstance(b, (int, float, type(None), PList, tuple, PDict, str)):
            raise PyRaise(TypeError, 'unsupported operand')
        if num(a) and isinstance(b, (type(None), PList, tuple, PDict, str)) or num(b) and isinstance(a, (type(None), PList, tuple, PDict, str)):
            raise PyRaise(TypeError, 'unsupported operand')
        raise Unsupported('%s of %r and %r' % (op, a, b))

    def np_op(self, op):
        return {'and': 'logical_and_bits', 'or': 'logical_or_bits'}.get(op, op)

    def hostop(self, op, a, b):
        try:
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op == 'mul':
                return a * b
            if op == 'div':
                return a // b if isinstance(a, int) and isinstance(b, int) else a / b
            if op == 'truediv':
                return a / b
            if op == 'floordiv':
                return a // b
            if op == 'mod':
                return a % b
            if op == 'power':
                return a ** b
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
        except ZeroDivisionError:
            raise PyRaise(ZeroDivisionError, 'division by zero')
        raise Unsupported(op)

    def intop(self, op, a, b):
        E = self.E
        if isinstance(a, float) or isinstance(b, float) or is_real(a) or is_real(b):
            return self.realop(op, a, b)
        ca, cb = E.coerce(a, Int) if not is_int(a) else a, E.coerce(b, Int) if not is_int(b) else b
        if op == 'add':
            return simp_int(ca + cb)
        if op == 'sub':
            return simp_int(ca - cb)
        if op == 'mul':
            return simp_int(ca * cb)
        if op in ('div', 'floordiv', 'mod'):
            if E.branch(eqint(cb, 0)):
                raise PyRaise(ZeroDivisionError, 'division by zero')
            q = floordiv(ca, cb)
            return simp_int(q if op != 'mod' else ca - q * cb)
        if op == 'power' and isinstance(b, int) and b == 2:
            return simp_int(ca * ca)
        raise Unsupported('integer %s' % op)

    def realop(self, op, a, b):
        E = self.E
        for z in (a, b):
            if isinstance(z, float) and (z != z or abs(z) == float('inf')):
                raise Unsupported('non-finite float arithmetic')
        a, b = E.coerce(a, Real), E.coerce(b, Real)
        # a quotient is taken for the exact one (whose integer part the rounded one of two
        # integers below 2**53 has); what is computed from quotients is rounded somehow
        rnd = (lambda r: r) if exact_real(a) and exact_real(b) else z3.Function('v_rounded', Real, Real)
        if op == 'add':
            return rnd(a + b)
        if op == 'sub':
            return rnd(a - b)
        if op == 'mul':
            return rnd(a * b)
        if op in ('div', 'truediv'):
            if E.branch(b == 0):
                raise PyRaise(ZeroDivisionError, 'division by zero')
            return rnd(a / b)
        raise Unsupported('real %s' % op)

    def setop(self, op, a, b):
        E = self.E
        s = a.sort if a.sort == b.sort else (U if U in (a.sort, b.sort) else None)
        if a.cands == []:
            s = b.sort
        if b.cands == []:
            s = a.sort
        if op in ('or',):
            if a.kind != b.kind and a.cands and b.cands:
                raise Unsupported('union of sets of different kinds')
            return PSet(E, lambda v: Or(a.mem(v), b.mem(v)), a.cands + b.cands, s, kind=a.kind or b.kind)
        if op == 'and':
            return PSet(E, lambda v: And(a.mem(v), b.mem(v)), a.cands, a.sort, kind=a.kind)
        if op == 'sub':
            if a.kind in ('s', 'f', 'i', 'b') and b.src is not None and b.src.items is not None and all(z is None for z in b.src.items):
                return PSet(E, a.mem, a.cands, a.sort, kind=a.kind)     # no string or number is None
            return PSet(E, lambda v: And(a.mem(v), Not(b.mem(v))), a.cands, a.sort, kind=a.kind)
        raise Unsupported('set %s' % op)

    def inst_op(self, op, a, b):
        f, r = SPECIAL.get(op, (None, None))
        Arr = self.np.Arr
        if isinstance(a, Inst):
            m = a.cls.find(f)
            if m is not None:
                v = self.call(m, (a, b), {})
                if v is not NotImplemented:
                    return v
        if isinstance(b, Inst):
            m = b.cls.find(r)
            if isinstance(a, Arr) and b.cls.find('__array_priority__') is None:
                raise Unsupported('array with an object operand')
            if m is not None:
                v = self.call(m, (b, a), {})
                if v is not NotImplemented:
                    return v
        if op == 'eq':
            return a is b
        if op == 'ne':
            return a is not b
        if op in ('lt', 'gt', 'le', 'ge'):
            raise Unsupported('default ordering')
        raise PyRaise(TypeError, 'unsupported operand type')

    def compare(self, op, a, b):
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.inst_op(op, a, b)
        Arr = self.np.Arr
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op in ('eq', 'ne') and (a is None or b is None or a is NotImplemented or b is NotImplemented):
                # NumPy 1.8: comparison to None / foreign objects is an identity test
                return op == 'ne'
            return self.np.binary(op, a, b)
        if op in ('eq', 'ne'):
            e = self.equal(a, b)
            return e if op == 'eq' else Not(e)
        if isinstance(a, Prod):
            a = a.term()
        if isinstance(b, Prod):
            b = b.term()
        if isinstance(a, Sc) or isinstance(b, Sc) or is_v(a) or is_v(b):
            return self.np.binary(op, a, b)
        num = lambda z: is_int(z) or is_bool(z) or isinstance(z, float) or is_real(z)
        if num(a) and num(b):
            if sym(a) or sym(b):
                if isinstance(a, float) or isinstance(b, float) or is_real(a) or is_real(b):
                    for x, y, flip in ((a, b, False), (b, a, True)):
                        if isinstance(x, float) and abs(x) == float('inf'):
                            less = (x < 0) != flip
                            return less if op in ('lt', 'le') else not less
                    a, b = self.E.coerce(a, Real), self.E.coerce(b, Real)
                else:
                    a, b = [self.E.coerce(z, Int) if is_bool(z) else z for z in (a, b)]
            return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[op]()
        if isinstance(a, str) and isinstance(b, str):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        if is_u(a) or is_u(b) or isinstance(a, str) or isinstance(b, str):
            E = self.E
            try:
                ua, ub = E.toU(a), E.toU(b)
            except Unsupported:
                raise Unsupported('ordering of %r and %r' % (a, b))
            return {'lt': lambda: E.ult(ua, ub), 'gt': lambda: E.ult(ub, ua),
                    'le': lambda: Not(E.ult(ub, ua)), 'ge': lambda: Not(E.ult(ua, ub))}[op]()
        if (a is None or b is None) and all(isinstance(z, (int, float, type(None))) or is_int(z) for z in (a, b)):
            # Python 2: None is smaller than every number
            ra, rb = (0 if a is None else 1), (0 if b is None else 1)
            return {'lt': ra < rb, 'le': ra <= rb, 'gt': ra > rb, 'ge': ra >= rb}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(z, int) for z in a + b):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        raise Unsupported('%s of %r and %r' % (op, a, b))

    def equal(self, a, b):
        E = self.E
        for z in (a, b):
            if isinstance(z, Poison):
                raise Unsupported(z.why)
        if isinstance(a, Prod) or isinstance(b, Prod):
            if isinstance(b, Prod):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a.is_zero()
            b = b.term() if isinstance(b, Prod) else b
            if not is_int(b):
                return False
            return a.term() == b
        if isinstance(a, (self.h5.SType, self.h5.HType)) or isinstance(b, (self.h5.SType, self.h5.HType)):
            return self.h5.type_eq(a, b)
        if isinstance(a, self.h5.UniName) or isinstance(b, self.h5.UniName):
            return self.h5.names_eq(self, a, b)
        D = self.np.DType
        if isinstance(a, D) or isinstance(b, D) or isinstance(a, self.np.NpType) or isinstance(b, self.np.NpType):
            return self.np.dtype_eq(a, b)
        if isinstance(a, Sc) or isinstance(b, Sc):
            if any(isinstance(z, (PList, tuple, PDict, type(None), type)) for z in (a, b)):
                return False
            r = self.np.binary('eq', a, b)
            return r
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a is b:
                return True
            if a.pairs == [] and b.pairs == []:
                return True
            raise Unsupported('dict equality')
        if isinstance(a, PSet) or isinstance(b, PSet):
            if not (isinstance(a, PSet) and isinstance(b, PSet)):
                return False
            return And(*([E.forall_range(L.length(), lambda i, L=L: Implies(a.mem(L.get(i)), b.mem(L.get(i)))) for L in a.cands] +
                         [E.forall_range(L.length(), lambda i, L=L: Implies(b.mem(L.get(i)), a.mem(L.get(i)))) for L in b.cands]))
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            ta = isinstance(a, tuple) or a.tup
            tb = isinstance(b, tuple) or b.tup
            if ta != tb:
                return False
            A, B = self.seq(a), self.seq(b)
            if A.items is not None and B.items is not None:
                if len(A.items) != len(B.items):
                    return False
                r = True
                for x, y in zip(A.items, B.items):
                    r = And(r, self.truth_term(self.compare('eq', x, y)) if not (x is y) else True)
                return r
            return E.seq_eq(A, B)
        if isinstance(a, (PList, PDict, tuple)) or isinstance(b, (PList, PDict, tuple)):
            return False
        if isinstance(a, (Fn, Bound, Builtin, PyClass, Module)) or isinstance(b, (Fn, Bound, Builtin, PyClass, Module)):
            if isinstance(a, Bound) and isinstance(b, Bound):
                return a.fn is b.fn and a.self_ is b.self_
            return a is b
        if isinstance(a, slice) and isinstance(b, slice):
            return And(self.equal(a.start, b.start), self.equal(a.stop, b.stop), self.equal(a.step, b.step))
        if isinstance(a, slice) or isinstance(b, slice):
            return False
        if isinstance(a, self.io.Text) or isinstance(b, self.io.Text):
            return self.io.eq_values(E, a, b)
        if isinstance(a, OStr) or isinstance(b, OStr):
            raise Unsupported('comparison of an untracked string')
        return E.eq(a, b)

    def contains(self, c, v):
        E = self.E
        if isinstance(c, tuple) or (isinstance(c, PList) and c.items is not None):
            items = c if isinstance(c, tuple) else c.items
            if isinstance(c, PList):
                c.read()
            return Or(*[self.truth_term(self.compare('eq', z, v)) if z is not v else True for z in items])
        if isinstance(c, PList):
            if isinstance(v, self.io.Text):
                return self.h5.list_has(self, c, v)
            return c.mem(v)
        if isinstance(c, PSet):
            return c.mem(v)
        if isinstance(c, PDict):
            if isinstance(v, (PList, PDict)):
                raise PyRaise(TypeError, 'unhashable')
            return c.lookup(v)[0]
        if isinstance(c, str):
            if isinstance(v, str):
                return v in c
        if isinstance(c, Inst):
            return self.call_method(c, '__contains__', (v,))
        if hasattr(c, 'h_contains'):
            return c.h_contains(v)
        if c is None or isinstance(c, int):
            raise PyRaise(TypeError, 'not iterable')
        raise Unsupported('in %r' % (c,))

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, (self.h5.SType, self.h5.HType)) or isinstance(b, (self.h5.SType, self.h5.HType)):
            return self.h5.type_eq(a, b)
        if isinstance(a, (bool, int, str, type(None), float)) and isinstance(b, (bool, int, str, type(None), float)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                return type(a) is type(b) and a == b
            if type(a) is type(b) is int and abs(a) < 250 and abs(b) < 250:
                return a == b
            raise Unsupported('identity of numbers')
        if a is None or b is None:
            if is_v(a) or is_v(b):
                raise Unsupported('cell is None')
            if isinstance(a, Sc) or isinstance(b, Sc):
                s = a if isinstance(a, Sc) else b
                if s.kind == 'o':
                    raise Unsupported('cell is None')
            return False
        if isinstance(a, self.np.NpType) or isinstance(b, self.np.NpType):
            return False
        if isinstance(a, self.np.Arr) and isinstance(b, self.np.Arr):
            return False
        if sym(a) or sym(b):
            x = b if sym(a) else a
            if isinstance(x, (type, PyClass, PList, Inst, str)) or x is NotImplemented:
                return False
            if x is True or x is False:
                return False     # a NumPy bool is never the singleton; Python bools are host values
            raise Unsupported('identity of symbolic values')
        return False

    def format(self, s, args):
        a = args if isinstance(args, tuple) else (args,)
        if all(isinstance(z, (int, str, float)) for z in a):
            try:
                return s % tuple(a)
            except (TypeError, ValueError):
                raise PyRaise(TypeError, 'format')
        if isinstance(s, str):
            r = self.io.percent(self, s, args)
            if r is not None:
                return r
        return OStr()

    # ----------------------------------------------------------------- lists
    def norm_index(self, i, n):
        "(position, in-range condition) of a Python index"
        i = self.as_int(i)
        if isinstance(i, int) and isinstance(n, int):
            j = i + n if i < 0 else i
            return j, 0 <= j < n
        if isinstance(i, int):
            j = i + n if i < 0 else i
        else:
            i = simp_int(i)
            if isinstance(i, int):
                return self.norm_index(i, n)
            if self.E.generics or True:
                if self.known_nonneg(i):
                    j = i
                elif self.E.check(i >= 0) == z3.unsat:
                    j = i + n
                else:
                    j = z3.If(i < 0, i + n, i)
        return j, inrange(j, n)

    def list_getitem(self, L, i):
        if isinstance(i, slice):
            return self.list_slice(L, i)
        if isinstance(i, (str, float, type(None), PList, tuple)) or isinstance(i, Sc):
            raise PyRaise(TypeError, 'list indices must be integers')
        j, ok = self.norm_index(i, L.length())
        if not self.E.branch(ok):
            raise PyRaise(IndexError, 'list index out of range')
        return L.get(simp_int(j))

    def slice_method_indices(self, s, n):
        "slice.indices(n)"
        n = self.as_int(n)
        if isinstance(n, int) and all(z is None or isinstance(z, int) for z in (s.start, s.stop, s.step)):
            return s.indices(n)
        if s.start is None and s.stop is None and (s.step is None or isinstance(s.step, int) and s.step == 1):
            return 0, n, 1
        return self.slice_indices(s, n, full=True)

    def slice_indices(self, s, n, full=False):
        "(start, step, length) of slice s on n elements"
        if isinstance(n, int) and all(z is None or isinstance(z, int) for z in (s.start, s.stop, s.step)):
            if s.step == 0:
                raise PyRaise(ValueError, 'slice step cannot be zero')
            a, b, c = s.indices(n)
            return a, c, len(range(a, b, c))
        st = 1 if s.step is None else self.as_int(s.step)
        if not isinstance(st, int):
            raise Unsupported('symbolic slice step')
        if st == 0:
            raise PyRaise(ValueError, 'slice step cannot be zero')
        if s.start is None and s.stop is None and st == 1:
            return 0, 1, n
        E = self.E

        def clamp(v, dflt, lo, hi):
            if v is None:
                return dflt
            v = self.as_int(v)
            if isinstance(v, int):
                if v < 0:
                    v = v + n
                    return simp_int(z3.If(v < lo, E.coerce(lo, Int), v))
                if lo <= v and v == 0 and st > 0:
                    return 0
                return simp_int(z3.If(E.coerce(hi, Int) < v, E.coerce(hi, Int), z3.IntVal(v)))
            w = v if self.known_nonneg(v) else z3.If(v < 0, v + n, v)
            return simp_int(z3.If(w < lo, E.coerce(lo, Int), z3.If(w > hi, E.coerce(hi, Int), w)))
        if st > 0:
            a = clamp(s.start, 0, 0, n)
            b = clamp(s.stop, n, 0, n)
            d = b - a
            cnt = d if st == 1 else floordiv(d + (st - 1), st)
        else:
            a = clamp(s.start, n - 1, -1, n - 1)
            b = clamp(s.stop, -1, -1, n - 1)
            d = a - b
            cnt = d if st == -1 else floordiv(d + (-st - 1), -st)
        if full:
            return simp_int(a), simp_int(b), st
        d, cnt = simp_int(d), simp_int(cnt)
        if isinstance(d, int):
            ln = max(0, cnt)
        elif self.known_nonneg(d):
            ln = cnt
        else:
            ln = z3.If(d > 0, cnt, z3.IntVal(0))
        return simp_int(a), st, simp_int(ln)

    def list_slice(self, L, s):
        E = self.E
        n = L.length()
        if isinstance(n, int) and L.items is not None and all(z is None or isinstance(z, int) for z in (s.start, s.stop, s.step)):
            return PList(E, items=L.items[s], tup=L.tup)
        a, st, ln = self.slice_indices(s, n)
        if isinstance(a, int) and a == 0 and st == 1 and ln is n:
            r = L.copy()
            r.tup = L.tup
            return r
        f = L.frozen()
        return PList(E, n=ln, fn=lambda i: f.get(simp_int(a + i * st)), tup=L.tup)

    def unpack(self, v, k):
        L = self.seq(v)
        n = L.length()
        if isinstance(n, int):
            if n != k:
                raise PyRaise(ValueError, 'unpack')
        elif not self.E.branch(n == k):
            raise PyRaise(ValueError, 'unpack')
        return [L.get(i) for i in range(k)]

    def getitem(self, o, i):
        E = self.E
        if isinstance(o, PList):
            return self.list_getitem(o, i)
        if isinstance(o, tuple):
            if isinstance(i, slice):
                if all(z is None or isinstance(z, int) for z in (i.start, i.stop, i.step)):
                    return o[i]
                raise Unsupported('symbolic slice of a tuple')
            return self.list_getitem(PList(E, items=list(o)), i)
        if isinstance(o, str):
            if isinstance(i, (int, slice)):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise(IndexError, 'string index')
            if is_int(i):
                return self.io.some_char(self, o, i)
        if isinstance(o, PDict):
            if getattr(o, 'poison', False):
                return Poison('untracked dict')
            if isinstance(i, (PList, PDict)):
                raise PyRaise(TypeError, 'unhashable')
            mem, val = o.lookup(i)
            if not E.branch(mem):
                raise PyRaise(KeyError, 'key')
            return val()
        if isinstance(o, self.np.Arr):
            return self.np.getitem(o, i)
        if isinstance(o, Inst):
            return self.call_method(o, '__getitem__', (i,))
        if hasattr(o, 'h_getitem'):
            return o.h_getitem(i)
        if o is None or isinstance(o, (int, float, bool, PSet)):
            raise PyRaise(TypeError, 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, i, v):
        E = self.E
        if isinstance(o, PList) and not o.tup:
            if isinstance(i, slice):
                raise Unsupported('slice assignment to a list')
            n = o.length() if o.items is not None else o.n
            j, ok = self.norm_index(i, n)
            if not E.branch(ok):
                raise PyRaise(IndexError, 'list assignment index')
            if o.items is not None and isinstance(j, int) and o.private_store(j):
                o.items[j] = v
                o.memf = o.posf = None
                o.uniqf = False
                return
            if o.mutating('setitem', j, v):
                return
            if o.items is not None and isinstance(j, int):
                o.items[j] = v
                o.memf = o.posf = None
                o.uniqf = False
                return
            f = o.frozen()
            o.set_to(PList(E, n=f.n if f.items is None else len(f.items), fn=lambda k: E.ite(eqint(k, j), v, f.get(k))))
            return
        if isinstance(o, PDict):
            if isinstance(i, (PList, PDict)):
                raise PyRaise(TypeError, 'unhashable')
            o.set(i, v)
            return
        if isinstance(o, self.np.Arr):
            return self.np.setitem(o, i, v)
        if isinstance(o, Inst):
            return self.call_method(o, '__setitem__', (i, v))
        if hasattr(o, 'h_setitem'):
            return o.h_setitem(i, v)
        if isinstance(o, (tuple, str, int, type(None))):
            raise PyRaise(TypeError, 'item assignment')
        raise Unsupported('item assignment to %r' % (o,))

    # -------------------------------------------------------------- attributes
    def getattr_(self, o, name):
        if isinstance(o, Module):
            if name in o.d:
                return o.d[name]
            full = o.name + '.' + name
            if full in self.mods:
                return self.mods[full]
            raise PyRaise(AttributeError, name)
        if isinstance(o, Stub):
            return Stub(o.name + '.' + name)
        if isinstance(o, Inst):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            m = o.cls.find(name)
            if m is None:
                if o.cls.find('__getattr__') is not None:
                    return self.call_method(o, '__getattr__', (name,))
                raise PyRaise(AttributeError, name)
            if isinstance(m, Fn):
                return Bound(m, o)
            if isinstance(m, Prop):
                return self.call(m.fget, (o,), {})
            if isinstance(m, Static):
                return m.f
            return m
        if isinstance(o, PyClass):
            if name == '__name__':
                return o.name
            m = o.find(name)
            if m is None:
                raise PyRaise(AttributeError, name)
            return m.f if isinstance(m, Static) else m
        if isinstance(o, (self.np.Arr, self.np.DType, self.np.NpType, Sc)) or (isinstance(o, Builtin) and o.name in self.np.ufuncs):
            return self.np.getattr_(o, name)
        if hasattr(o, 'attr') and not sym(o):
            return o.attr(name)
        if is_u(o) and self.E.typed:
            return self.h5.attribute(self, o, name)
        if isinstance(o, (PList, PDict, PSet, tuple, str, OStr, dict)):
            f = getattr(self, {'Text': 'ostr', 'PList': 'l', 'PDict': 'd', 'PSet': 's', 'tuple': 'l', 'str': 'str', 'OStr': 'ostr'}[type(o).__name__] + 'm_' + name, None)
            if f is None or (isinstance(o, tuple) and name not in ('index', 'count')):
                if name.startswith('__') and not hasattr(type([]), name) or (isinstance(o, (tuple, PList)) and not hasattr([], name)) or (isinstance(o, str) and not hasattr('', name)):
                    raise PyRaise(AttributeError, name)
                raise Unsupported('method %s of %s' % (name, type(o).__name__))
            if isinstance(o, tuple):
                o = PList(self.E, items=list(o), tup=True)
            return Builtin(name, lambda *a, **k: f(o, *a, **k))
        if isinstance(o, slice) and name in ('start', 'stop', 'step'):
            return getattr(o, name)
        if isinstance(o, slice) and name == 'indices':
            return Builtin(name, lambda n: self.slice_method_indices(o, n))
        if isinstance(o, (Fn, Bound)):
            f = o.fn if isinstance(o, Bound) else o
            if name in ('__name__', 'func_name'):
                return f.name
            if name in ('im_func', '__func__') and (isinstance(o, Bound) or f.cls is not None):
                return f
            if name in f.attrs:
                return f.attrs[name]
            raise PyRaise(AttributeError, name)
        if isinstance(o, Builtin) and name in ('__name__', 'func_name'):
            return o.name
        if o is None or isinstance(o, (int, float, bool)) or is_int(o) or is_bool(o):
            if is_int(o) or is_bool(o):
                return self.np.getattr_(o, name)
            raise PyRaise(AttributeError, name)
        if isinstance(o, type) and name == '__name__':
            return o.__name__
        if isinstance(o, type) and issubclass(o, BaseException):
            raise PyRaise(AttributeError, name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def setattr_(self, o, name, v):
        if isinstance(o, Inst):
            self.E.may_change(o)
            for lc in self.E.loops:
                if o.stamp < lc.stamp:
                    raise Unsupported('attribute store in a summarised loop')
            m = o.cls.find(name)
            if isinstance(m, Prop):
                raise PyRaise(AttributeError, name)
            o.attrs[name] = v
            return
        if isinstance(o, self.np.Arr) and name == 'shape':
            return self.np.setshape(o, v)
        if isinstance(o, Fn):
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            raise Unsupported('module attribute store')
        raise Unsupported('attribute store on %r' % (o,))

    # list methods
    def lm_append(self, L, v):
        L.append(v)

    def lm_extend(self, L, v):
        o = self.seq(v)
        if L.mutating('extend', o.frozen()):
            return
        L.set_to(L.concat(o))

    def lm_sort(self, L, cmp=None, key=None, reverse=False):
        if L.mutating('sort'):
            return
        if key is not None or cmp is not None:
            raise Unsupported('sort with a key')
        L.set_to(self.sort_list(L, reverse))
        L.origin = None

    def lm_reverse(self, L):
        if L.mutating('reverse'):
            return
        L.set_to(self.list_slice(L, slice(None, None, -1)))

    def lm_index(self, L, v, *r):
        if r:
            raise Unsupported('list.index with bounds')
        if L.items is not None:
            for k, z in enumerate(L.items):
                if z is v or self.E.branch(self.truth_term(self.compare('eq', z, v))):
                    return k
            raise PyRaise(ValueError, 'not in list')
        if not self.E.branch(L.mem(v)):
            raise PyRaise(ValueError, 'not in list')
        return L.pos(v)

    def lm_count(self, L, v):
        if L.items is not None:
            r = 0
            for z in L.items:
                c = self.truth_term(self.compare('eq', z, v))
                r = r + self.E.ite(c, 1, 0)
            return simp_int(r)
        raise Unsupported('list.count')

    def lm_pop(self, L, i=-1):
        if L.mutating('pop', i):
            return None
        E = self.E
        n = L.length()
        j, ok = self.norm_index(i, n)
        if not E.branch(ok):
            raise PyRaise(IndexError, 'pop')
        if L.items is not None and isinstance(j, int):
            v = L.items.pop(j)
            L.memf = L.posf = None
            return v
        v = L.get(j)
        f = L.frozen()
        L.set_to(PList(E, n=simp_int(n - 1), fn=lambda k: f.get(simp_int(E.ite(lt(k, j), k, k + 1)))))
        return v

    def lm_insert(self, L, i, v):
        if L.mutating('insert', i, v):
            return
        E = self.E
        i = self.as_int(i)
        n = L.length()
        if L.items is not None and isinstance(i, int):
            L.items.insert(i, v)
            L.memf = L.posf = None
            return
        a, st, ln = self.slice_indices(slice(i, None, None), n)
        f = L.frozen()
        L.set_to(PList(E, n=simp_int(n + 1), fn=lambda k: E.ite(lt(k, a), f.get(k), E.ite(eqint(k, a), v, f.get(simp_int(k - 1))))))

    def lm_remove(self, L, v):
        j = self.lm_index(L, v)
        self.lm_pop(L, j)

    # dict methods
    def dm_get(self, d, k, dflt=None):
        if getattr(d, 'poison', False):
            return Poison('untracked dict')
        mem, val = d.lookup(k)
        if self.E.branch(mem):
            return val()
        return dflt

    def dm_has_key(self, d, k):
        return self.contains(d, k)

    def dm_items(self, d):
        if getattr(d, 'poison', False):
            return Poison('untracked dict')
        if d.pairs is not None:
            d.read()
            return self.mklist([(k, v) for k, v in d.pairs])
        K, V = self.dict_lists(d)
        return PList(self.E, n=K.n if K.items is None else len(K.items), fn=lambda i: (K.get(i), V.get(i)))
    dm_iteritems = dm_items

    def dict_lists(self, d):
        "keys and values of a symbolic dict, in its iteration order"
        d.read()
        if getattr(d, 'ordered', None) is None:
            # some order: any, but the same every time while the dict lives
            L, n = d.keys, d.keys.length()
            c = self.E.canon('i', Int)
            with self.E.generic(c):
                e = L.get(c)
            if isinstance(e, tuple):
                i, j = z3.Ints('#key1 #key2')
                if self.E.generics or self.E.check(And(inrange(i, n), inrange(j, n), i < j, self.E.eq(L.get(i), L.get(j)))) != z3.unsat:
                    raise Unsupported('order of tuple keys')
                p, q = d.order = self.E.perm(n)
                self.E.perms.pop()
                d.ordered = PList(self.E, n=n, fn=lambda i: L.get(p(i))), PList(self.E, n=n, fn=lambda i: d.vals.get(p(i)))
                return d.ordered
            K = self.E.set_enum(PSet.from_list(self.E, d.keys), ordered=False)
            d.ordered = K, PList(self.E, n=K.n if K.items is None else len(K.items), fn=lambda i: d.lookup(K.get(i))[1]())
        return d.ordered

    def dm_keys(self, d):
        if d.pairs is None and not getattr(d, 'poison', False):
            return self.dict_lists(d)[0].copy()
        return self.mklist([k for k, v in self.dm_items(d).items])

    def dm_values(self, d):
        if d.pairs is None and not getattr(d, 'poison', False):
            return self.dict_lists(d)[1].copy()
        return self.mklist([v for k, v in self.dm_items(d).items])

    def dm_pop(self, d, k, *dflt):
        if d.pairs is None:
            raise Unsupported('pop of a symbolic dict')
        if d.mutating('dpop', k):
            raise Unsupported('dict.pop in a loop')
        for i, (a, v) in enumerate(d.pairs):
            if self.E.branch(self.truth_term(self.compare('eq', a, k))):
                d.pairs.pop(i)
                return v
        if dflt:
            return dflt[0]
        raise PyRaise(KeyError, 'pop')

    def dm_update(self, d, o):
        if isinstance(o, PDict) and o.pairs is None:
            raise Unsupported('update with a symbolic dict')
        for k, v in self.dm_items(o).items:
            d.set(k, v)

    def dm_copy(self, d):
        return self.construct(dict, (d,), {})

    def dm_setdefault(self, d, k, v=None):
        mem, val = d.lookup(k)
        if self.E.branch(mem):
            return val()
        d.set(k, v)
        return v

    # set methods
    def as_set(self, v):
        return v if isinstance(v, PSet) else self.construct(set, (v,), {})

    def sm_intersection(self, s, *o):
        for z in o:
            s = self.setop('and', s, self.as_set(z))
        return s

    def sm_union(self, s, *o):
        for z in o:
            s = self.setop('or', s, self.as_set(z))
        return s

    def sm_difference(self, s, *o):
        for z in o:
            s = self.setop('sub', s, self.as_set(z))
        return s

    def sm_issubset(self, s, o):
        o = self.as_set(o)
        E = self.E
        return And(*[E.forall_range(L.length(), lambda i, L=L: Implies(s.mem(L.get(i)), o.mem(L.get(i)))) for L in s.cands])

    def sm_issuperset(self, s, o):
        return self.sm_issubset(self.as_set(o), s)

    def set_inplace(self, op, s, o):
        for lc in self.E.loops:
            if s.stamp < lc.stamp:
                raise Unsupported('set update in a loop')
        was = PSet(self.E, s.mem, s.cands, s.sort, s.src)
        was.kind = s.kind
        r = self.setop(op, was, self.as_set(o))
        s.mem, s.cands, s.sort, s.src = r.mem, r.cands, r.sort, r.src

    def one_set(self, v):
        return self.construct(set, (PList(self.E, items=[v]),), {})

    def sm_add(self, s, v):
        self.set_inplace('or', s, self.one_set(v))

    def sm_discard(self, s, v):
        self.set_inplace('sub', s, self.one_set(v))

    def sm_remove(self, s, v):
        if not self.E.branch(self.contains(s, v)):
            raise PyRaise(KeyError, 'remove')
        self.sm_discard(s, v)

    def sm_update(self, s, *o):
        for z in o:
            self.set_inplace('or', s, z)

    def sm_difference_update(self, s, *o):
        for z in o:
            self.set_inplace('sub', s, z)

    def sm_intersection_update(self, s, *o):
        for z in o:
            self.set_inplace('and', s, z)

    # str methods
    def strm_join(self, s, v):
        L = self.seq(v)
        if L.items is not None and all(isinstance(z, str) for z in L.items):
            return s.join(L.items)
        return self.io.join(self, s, L)

    def ostrm_replace(self, o, old, new):
        if not isinstance(o, OStr):
            raise Unsupported('replace in text')
        return OStr()

    def ostrm_join(self, s, v):
        if not isinstance(s, self.io.Text):
            return OStr()
        return self.io.join(self, s, self.seq(v))

    def ostrm_split(self, s, *a):
        return self.h5.split(self, s, *a)

    def strm_split(self, s, *a):
        return self.mklist(s.split(*a))

    def strm_lower(self, s):
        return s.lower()

    def strm_upper(self, s):
        return s.upper()

    def strm_strip(self, s, *a):
        return s.strip(*a)

    def strm_startswith(self, s, p):
        return s.startswith(p)

    def strm_endswith(self, s, p):
        return s.endswith(p)

    def strm_replace(self, s, *a):
        return s.replace(*a)

    def strm_format(self, s, *a, **k):
        return OStr()

    # -------------------------------------------------------------------- calls
    def call_method(self, o, name, args, kw=None):
        m = o.cls.find(name)
        if m is None:
            if name == '__contains__':
                return self.contains(self.seq(o), args[0])
            raise PyRaise(AttributeError if not name.startswith('__') else TypeError, name)
        return self.call(m, (o,) + tuple(args), kw or {})

    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.f(*args, **kw)
        if isinstance(f, Bound):
            return self.call(f.fn, (f.self_,) + tuple(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, PyClass):
            o = Inst(self.E, f)
            init = f.find('__init__')
            if init is not None:
                self.call(init, (o,) + tuple(args), kw)
            return o
        if isinstance(f, Static):
            return self.call(f.f, args, kw)
        if isinstance(f, self.np.NpType):
            return self.np.make_scalar(f, args)
        if f is UNICODE:
            raise Unsupported('unicode')
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if isinstance(f, Inst):
            return self.call_method(f, '__call__', args, kw)
        if isinstance(f, self.h5.HClass):
            return f.make(*args, **kw)
        if isinstance(f, Stub):
            raise Unsupported('call of %s' % f.name)
        if hasattr(f, '__call__') and not isinstance(f, (PList, PDict)) and not sym(f):
            return f(*args, **kw)
        raise PyRaise(TypeError, 'not callable')

    def bind(self, f, args, kw):
        A = f.args
        vars = {}
        names = A.args
        pos = list(args)
        kw = dict(kw)
        used = set()
        for i, a in enumerate(names):
            if i < len(pos):
                v = pos[i]
                if a.t == 'Name' and a.id in kw:
                    raise PyRaise(TypeError, 'multiple values for %s' % a.id)
            elif a.t == 'Name' and a.id in kw:
                v = kw.pop(a.id)
            else:
                k = i - (len(names) - len(f.defaults))
                if k < 0:
                    raise PyRaise(TypeError, '%s() misses argument' % f.name)
                v = f.defaults[k]
            if a.t == 'Name':
                vars[a.id] = v
            else:
                vs = self.unpack(v, len(a.elts))
                for e, z in zip(a.elts, vs):
                    vars[e.id] = z
        if len(pos) > len(names):
            if A.vararg is None:
                raise PyRaise(TypeError, '%s() takes %d arguments' % (f.name, len(names)))
            vars[A.vararg] = tuple(pos[len(names):])
        elif A.vararg is not None:
            vars[A.vararg] = ()
        if A.kwarg is not None:
            vars[A.kwarg] = PDict(self.E, pairs=[(k, v) for k, v in kw.items()])
        elif kw:
            raise PyRaise(TypeError, '%s() got an unexpected keyword %s' % (f.name, list(kw)[0]))
        return vars

    def call_fn(self, f, args, kw):
        c = self.contracts.get(getattr(f, 'full', None))
        vars = self.bind(f, args, kw)
        if c is not None:
            r = c(self, vars)
            if r is not NotImplemented:
                return r
        self.calls.add(getattr(f, 'full', f.name))
        self.E.depth += 1
        if self.E.depth > 60:
            raise Unsupported('recursion')
        try:
            if f.locals is None:
                f.locals = assigned(f.body) if not f.is_lambda else set()
            env = Env(vars, f.env, f.env.mod, f.locals, f.cls)
            env.fn = f
            if f.is_lambda:
                return self.ev(f.body, env)
            if f.is_gen:
                env.yields = self.mklist([])
                env.on_yield = self.on_yield.get(f.full)
                env.nyield = 0
                try:
                    self.exec_block(f.body, env)
                except _Return:
                    pass
                return PyIter(env.yields if env.on_yield is None else PList(self.E, n=env.nyield, fn=lambda i: Poison('yielded value')))
            try:
                self.exec_block(f.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.E.depth -= 1

    # -------------------------------------------------------------- expressions
    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            e = env
            while e is not None:
                if e.cls is not None:
                    return '_%s%s' % (e.cls.lstrip('_'), name)
                e = e.parent
        return name

    def lookup(self, name, env):
        if name.startswith('__'):
            name = self.mangle(name, env)
        e = env
        while e is not None:
            if name in e.globs:
                break
            if name in e.vars:
                return e.vars[name]
            if e is env and e.localnames is not None and name in e.localnames:
                raise PyRaise(UnboundLocalError, name)
            e = e.parent
        if name in env.mod.d:
            return env.mod.d[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise(NameError, name)

    def ev(self, n, env):
        return getattr(self, 'ev_' + n.t, self.ev_unknown)(n, env)

    def ev_unknown(self, n, env):
        raise Unsupported('expression %s, line %s' % (n.t, getattr(n, 'line', '?')))

    def ev_Num(self, n, env):
        return n.n

    def ev_Str(self, n, env):
        return n.s

    def ev_Name(self, n, env):
        return self.lookup(n.id, env)

    def ev_Tuple(self, n, env):
        return tuple(self.ev(e, env) for e in n.elts)

    def ev_List(self, n, env):
        return self.mklist([self.ev(e, env) for e in n.elts])

    def ev_Dict(self, n, env):
        d = PDict(self.E, pairs=[])
        for k, v in zip(n.keys, n.values):
            val = self.ev(v, env)
            d.set(self.ev(k, env), val)
        return d

    def ev_Set(self, n, env):
        return self.construct(set, (self.mklist([self.ev(e, env) for e in n.elts]),), {})

    def ev_Lambda(self, n, env):
        return Fn('<lambda>', n.args, n.body, env, [self.ev(d, env) for d in n.args.defaults], env.cls, True)

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def ev_BoolOp(self, n, env):
        isand = n.op.t == 'And'
        for k, e in enumerate(n.values):
            v = self.ev(e, env)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not sym(v) else False
            if not isand and t:
                return v if not sym(v) or v.sort() != Bool else True
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        op = n.op.t
        if op == 'Not':
            return Not(self.truth_term(v))
        if isinstance(v, Inst):
            return self.call_method(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op], ())
        if isinstance(v, (self.np.Arr, Sc)):
            if op == 'UAdd':
                raise Unsupported('unary plus')
            return self.np.unary({'USub': 'neg', 'Invert': 'invert'}[op], v)
        if isinstance(v, (int, float)):
            if isinstance(v, bool) and op == 'Invert':
                return not v            # a NumPy bool
            return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[op]()
        if is_int(v):
            if op == 'USub':
                return simp_int(-v)
            if op == 'UAdd':
                return v
            return simp_int(-v - 1)
        if is_bool(v) and op == 'Invert':
            return Not(v)
        if is_real(v) and op == 'USub':
            return -v
        if isinstance(v, (PList, tuple, str, type(None), PDict)):
            raise PyRaise(TypeError, 'bad operand')
        raise Unsupported('unary %s of %r' % (op, v))

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        op = BINOPS[n.op.t]
        if op == 'div' and getattr(env.mod, 'truediv', False):
            op = 'truediv'
        return self.binop(op, a, b)

    def ev_Compare(self, n, env):
        a = self.ev(n.left, env)
        res = None
        for k, (op, e) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(e, env)
            r = self.cmp1(op.t, a, b)
            if len(n.ops) == 1:
                return r
            if k == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return False
            a = b

    def cmp1(self, t, a, b):
        if t == 'Is':
            return self.identical(a, b)
        if t == 'IsNot':
            return not self.identical(a, b)
        if t == 'In':
            return self.truth_term(self.contains(b, a))
        if t == 'NotIn':
            return Not(self.truth_term(self.contains(b, a)))
        return self.compare(CMPS[t], a, b)

    def ev_Call(self, n, env):
        if n.func.t == 'Name' and n.func.id == 'eval' and len(n.args) == 1:
            return self.do_eval(self.ev(n.args[0], env), env)
        f = self.ev(n.func, env)
        args = [self.ev(a, env) for a in n.args]
        if n.starargs is not None:
            L = self.seq(self.ev(n.starargs, env))
            if L.items is None:
                if isinstance(f, Builtin) and f.name in ('zip', 'izip') and not args:
                    return self.unzip(L)
                raise Unsupported('symbolic *args')
            args += L.items
        kw = dict((k.arg, self.ev(k.value, env)) for k in n.keywords)
        if n.kwargs is not None:
            d = self.ev(n.kwargs, env)
            for k, v in self.dm_items(d).items:
                if k in kw:
                    raise PyRaise(TypeError, 'multiple values for %s' % k)
                kw[k] = v
        return self.call(f, tuple(args), kw)

    def do_eval(self, src, env):
        import ast
        if not isinstance(src, str):
            raise Unsupported('eval of a string that is not known')

        def conv(z):
            if isinstance(z, ast.Constant):
                m = Node()
                m.t = 'Str' if isinstance(z.value, str) else 'Num' if isinstance(z.value, (int, float)) and not isinstance(z.value, bool) else 'Name'
                if m.t == 'Name':
                    m.id = repr(z.value)
                else:
                    setattr(m, 's' if m.t == 'Str' else 'n', z.value)
                return m
            if isinstance(z, ast.AST):
                m = Node()
                m.t = type(z).__name__
                for f in z._fields:
                    setattr(m, f, conv(getattr(z, f, None)))
                if m.t == 'Call':
                    m.starargs = m.kwargs = None
                if m.t == 'Subscript' and not isinstance(z.slice, ast.Slice):
                    ix = Node()
                    ix.t, ix.value = 'Index', m.slice
                    m.slice = ix
                return m
            return [conv(q) for q in z] if isinstance(z, list) else z
        try:
            t = ast.parse(src.strip(), mode='eval').body
        except SyntaxError:
            raise PyRaise(SyntaxError, 'eval')
        return self.ev(conv(t), env)

    def ev_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), self.mangle(n.attr, env))

    def ev_slice(self, s, env):
        if s.t == 'Index':
            return self.ev(s.value, env)
        if s.t == 'Slice':
            return slice(*[None if z is None else self.ev(z, env) for z in (s.lower, s.upper, s.step)])
        if s.t == 'ExtSlice':
            return tuple(self.ev_slice(z, env) for z in s.dims)
        if s.t == 'Ellipsis':
            return Ellipsis
        raise Unsupported('slice ' + s.t)

    def ev_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev_slice(n.slice, env))

    def ev_Repr(self, n, env):
        return OStr()

    def ev_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        if env.on_yield is None:
            env.yields.append(v)
            return None
        if self.E.loops or self.E.generics:
            raise Unsupported('yield in a summarised loop')
        env.on_yield(env.nyield, v)
        env.nyield = simp_int(env.nyield + 1)
        return None

    def ev_ListComp(self, n, env):
        return self.comprehension(n, env, lambda e: self.ev(n.elt, e), env)

    def ev_GeneratorExp(self, n, env):
        sub = Env({}, env, env.mod, None, None)
        return PyIter(self.comprehension(n, sub, lambda e: self.ev(n.elt, e), env))

    def ev_SetComp(self, n, env):
        sub = Env({}, env, env.mod, None, None)
        return self.construct(set, (self.comprehension(n, sub, lambda e: self.ev(n.elt, e), env),), {})

    def ev_DictComp(self, n, env):
        sub = Env({}, env, env.mod, None, None)
        L = self.comprehension(n, sub, lambda e: (self.ev(n.key, e), self.ev(n.value, e)), env)
        return self.construct(dict, (L,), {})

    def comprehension(self, n, env, elt, outer):
        gens = n.generators

        def rec(k, first):
            g = gens[k]
            L = self.seq(self.ev(g.iter, outer if k == 0 else env))
            if isinstance(L, Poison):
                raise Unsupported(L.why)
            if L.items is not None:
                L.read()
                out = []
                for z in list(L.items):
                    self.assign(g.target, z, env)
                    if all(self.truth(self.ev(c, env)) for c in g.ifs):
                        if k == len(gens) - 1:
                            out.append(elt(env))
                        else:
                            out = self.cat(out, rec(k + 1, False))
                return out
            if len(gens) > 1:
                raise Unsupported('nested comprehension over symbolic lists')

            def test():
                for c in g.ifs:
                    if not self.truth(self.ev(c, env)):
                        return False
                return True

            names = set()
            target_names(g.target, names)
            saved = dict((z, env.vars.get(z, _MISSING)) for z in names)
            try:
                segs = L.segments()
                out = self.mklist([])
                for p in (segs if self.E.typed and len(segs) > 1 else []):
                    p = PList(self.E, items=[p[1]]) if p[0] == 'one' else PList(self.E, n=p[1], fn=p[2])
                    out = out.concat(self.comp(p, lambda z: elt(env), test if g.ifs else None, lambda z: self.assign(g.target, z, env)))
                if self.E.typed and len(segs) > 1:
                    return out
                return self.comp(L, lambda z: elt(env), test if g.ifs else None, lambda z: self.assign(g.target, z, env))
            finally:
                for z, v in saved.items():
                    if v is _MISSING:
                        env.vars.pop(z, None)
                    else:
                        env.vars[z] = Poison('comprehension variable')
        r = rec(0, True)
        return r if isinstance(r, PList) else self.mklist(r)

    def cat(self, a, b):
        if isinstance(b, PList):
            if b.items is None:
                raise Unsupported('nested comprehension over symbolic lists')
            b = b.items
        return a + b

    def comp(self, L, elt, test=None, bindf=None):
        "[elt(x) for x in L if test()] for a list of symbolic length"
        E = self.E
        if L.items is not None:
            out = []
            for z in L.items:
                if bindf:
                    bindf(z)
                if test is None or test():
                    out.append(elt(z))
            return self.mklist(out)
        f = L.frozen()
        n = f.n
        c = E.canon('i', Int)
        lc = LoopCtx(E)

        def body():
            E.assume(And(0 <= c, lt(c, n)))
            z = f.get(c)
            if bindf:
                bindf(z)
            if test is not None and not test():
                return (False, None)
            return (True, elt(z))
        E.loops.append(lc)
        try:
            with E.generic(c):
                outs = E.sub(body, pruning=True)
        finally:
            E.loops.pop()
        if lc.effects:
            raise Unsupported('side effect inside a comprehension')
        exc = [(cond, e) for cond, k, e in outs if k == 'exc']
        if exc:
            # the exception of the first failing element; only its class matters
            classes = set(e.cls for _, e in exc)
            bad = E.exists_range(n, lambda i: subst_b(Or(*[cond for cond, _ in exc]), c, i))
            if E.branch(bad):
                if len(classes) > 1:
                    raise Unsupported('different exceptions in a comprehension')
                raise PyRaise(exc[0][1].cls, exc[0][1].msg)
        oks = [(cond, v) for cond, k, v in outs if k == 'ok']
        kept = [(cond, v[1]) for cond, v in oks if v[0]]
        if not kept:
            return self.mklist([])
        with E.generic(c):
            val = E.ite_chain(kept) if len(kept) > 1 else kept[0][1]
        valf = lambda i: subst(E, val, c, i)
        if test is None:
            return self.mkcomp(n, valf, val, c, f)
        keep = simp(Or(*[cond for cond, v in oks if v[0]]))
        return self.filtered(n, keep, c, valf, val)

    def filtered(self, n, keep, c, valf, val):
        E = self.E
        pred = lambda i: subst_b(keep, c, i)
        # within range the range assumption is implied; drop it
        if sym(val) and val.eq(c):
            return E.filter_list(n, pred)
        return E.filter_list(n, pred, valf)

    def mkcomp(self, n, valf, val, c, src):
        E = self.E
        if sym(val) and val.eq(c):
            return self.bi_range(n)
        try:
            if sym(val) and val.eq(src.get(c)):
                return src.copy()
        except z3.Z3Exception:
            pass
        return PList(E, n=n, fn=valf)

    # --------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for s in body:
            getattr(self, 'ex_' + s.t, self.ex_unknown)(s, env)

    def ex_unknown(self, s, env):
        raise Unsupported('statement %s, line %s' % (s.t, getattr(s, 'line', '?')))

    def ex_Pass(self, s, env):
        pass

    def ex_Expr(self, s, env):
        if s.value.t == 'Str':
            return
        self.ev(s.value, env)

    def ex_Global(self, s, env):
        env.globs = tuple(env.globs) + tuple(s.names)

    def setname(self, name, v, env):
        if name in env.globs:
            if self.E.loops:
                raise Unsupported('global assigned in a loop')
            self.global_log.append((env.mod.d, name, env.mod.d.get(name, _MISSING)))
            env.mod.d[name] = v
        else:
            env.vars[name] = v

    def undo_globals(self):
        while self.global_log:
            d, k, v = self.global_log.pop()
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v

    def ex_Print(self, s, env):
        if getattr(s, 'dest', None) is not None:
            raise Unsupported('print to a file')
        for v in s.values:
            self.ev(v, env)

    def ex_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise(AssertionError, '')

    def ex_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def ex_Break(self, s, env):
        raise _Break()

    def ex_Continue(self, s, env):
        raise _Continue()

    def ex_Delete(self, s, env):
        for t in s.targets:
            if t.t == 'Name':
                env.vars.pop(t.id, None)
            elif t.t == 'Subscript':
                o, i = self.ev(t.value, env), self.ev_slice(t.slice, env)
                if isinstance(o, PList):
                    self.lm_pop(o, i)
                elif isinstance(o, PDict):
                    self.dm_pop(o, i)
                elif hasattr(o, 'h_delitem'):
                    o.h_delitem(i)
                elif isinstance(o, Inst):
                    self.call_method(o, '__delitem__', (i,))
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def ex_If(self, s, env):
        self.exec_block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def assign(self, t, v, env):
        if t.t == 'Name':
            self.setname(self.mangle(t.id, env), v, env)
        elif t.t in ('Tuple', 'List'):
            vs = self.unpack(v, len(t.elts)) if not isinstance(v, Poison) else [v] * len(t.elts)
            for e, z in zip(t.elts, vs):
                self.assign(e, z, env)
        elif t.t == 'Subscript':
            self.setitem(self.ev(t.value, env), self.ev_slice(t.slice, env), v)
        elif t.t == 'Attribute':
            self.setattr_(self.ev(t.value, env), self.mangle(t.attr, env), v)
        else:
            raise Unsupported('assignment to ' + t.t)

    def ex_AugAssign(self, s, env):
        op = BINOPS[s.op.t]
        if op == 'div' and getattr(env.mod, 'truediv', False):
            op = 'truediv'
        t = s.target
        if t.t == 'Name':
            a = self.lookup(t.id, env)
            self.setname(self.mangle(t.id, env), self.inplace(op, a, self.ev(s.value, env)), env)
        elif t.t == 'Subscript':
            o, i = self.ev(t.value, env), self.ev_slice(t.slice, env)
            self.setitem(o, i, self.inplace(op, self.getitem(o, i), self.ev(s.value, env)))
        elif t.t == 'Attribute':
            o = self.ev(t.value, env)
            nm = self.mangle(t.attr, env)
            self.setattr_(o, nm, self.inplace(op, self.getattr_(o, nm), self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        if isinstance(a, PList) and op == 'add':
            self.lm_extend(a, b)
            return a
        if isinstance(a, self.np.Arr):
            return self.np.inplace(self.np_op(op), a, b)
        if isinstance(a, PSet):
            r = self.setop(op, PSet(self.E, a.mem, a.cands, a.sort, a.src, a.kind), self.as_set(b))
            return r
        return self.binop(op, a, b)

    def ex_FunctionDef(self, s, env):
        f = Fn(s.name, s.args, s.body, env, [self.ev(d, env) for d in s.args.defaults], env.cls)
        f.full = (env.mod.name + '.' + (env.cls + '.' if env.cls else '') + s.name) if env.parent is None or env.cls else None
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), (v,), {})
        env.vars[self.mangle(s.name, env)] = v

    def ex_ClassDef(self, s, env):
        d = {}
        e = Env(d, env, env.mod, None, s.name)
        self.exec_block(s.body, e)
        c = PyClass(s.name, [self.ev(b, env) for b in s.bases], d)
        for f in d.values():
            for g in (f, getattr(f, 'fget', None), getattr(f, 'f', None)):
                if isinstance(g, Fn) and g.env is e:
                    g.env = env        # class scope is not an enclosing scope
                    g.cls = s.name
        env.vars[s.name] = c

    def ex_Import(self, s, env):
        for a in s.names:
            if a.asname:
                env.vars[a.asname] = self.do_import(a.name)
            else:
                top = a.name.split('.')[0]
                self.do_import(a.name)
                env.vars[top] = self.load(top)

    def ex_ImportFrom(self, s, env):
        if s.module == '__future__':
            if any(a.name == 'division' for a in s.names):
                env.mod.truediv = True
            return
        modname = s.module
        if getattr(s, 'level', 0):
            pk = env.mod.name.split('.')
            if not env.mod.package:
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            modname = '.'.join(pk + ([s.module] if s.module else []))
        m = self.do_import(modname)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Module):
                    for k, v in list(m.d.items()):
                        if not k.startswith('_'):
                            env.vars[k] = v
                continue
            if isinstance(m, Module):
                if a.name not in m.d:
                    full = modname + '.' + a.name
                    if full in self.asts or full in self.mods:
                        v = self.load(full)
                    else:
                        raise PyRaise(ImportError, a.name)
                else:
                    v = m.d[a.name]
            else:
                v = self.getattr_(m, a.name)
            self.setname(a.asname or a.name, v, env)

    def ex_Raise(self, s, env):
        if s.type is None:
            e = self.handling[-1] if self.handling else None
            if e is None:
                raise Unsupported('re-raise')
            raise e
        t = self.ev(s.type, env)
        if s.inst is not None:
            self.ev(s.inst, env)
        if isinstance(t, BaseException):
            raise PyRaise(type(t), str(t))
        if isinstance(t, type) and issubclass(t, BaseException):
            raise PyRaise(t, '')
        if isinstance(t, PyClass):
            raise PyRaise(t, '')
        if isinstance(t, str):
            raise PyRaise(TypeError, 'string exception')
        raise Unsupported('raise %r' % (t,))

    handling = []

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, z) for z in t)
        if isinstance(t, type) and isinstance(e.cls, type):
            return issubclass(e.cls, t)
        return e.cls is t

    def ex_TryExcept(self, s, env):
        try:
            self.exec_block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_matches(e, self.ev(h.type, env)):
                    if h.name is not None:
                        self.assign(h.name, e.inst or (e.cls() if isinstance(e.cls, type) else None), env)
                    self.handling = self.handling + [e]
                    try:
                        self.exec_block(h.body, env)
                    finally:
                        self.handling = self.handling[:-1]
                    return
            raise
        else:
            self.exec_block(s.orelse, env)

    def ex_TryFinally(self, s, env):
        try:
            self.exec_block(s.body, env)
        except (PyRaise, _Return, _Break, _Continue):
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def ex_With(self, s, env):
        f = self.ev(s.context_expr, env)
        if not hasattr(f, 'm_close'):
            raise Unsupported('with')
        if getattr(s, 'optional_vars', None) is not None:
            self.assign(s.optional_vars, f, env)
        try:
            self.exec_block(s.body, env)
        finally:
            f.m_close()

    def inv_of(self, s, env):
        if not self.invs or env.fn is None:
            return None
        loops = [n for n in walk_scope(env.fn.body) if n.t in ('For', 'While')]
        for k, n in enumerate(loops):
            if n is s:
                return self.invs.get((env.fn.full, k))
        return None

    def inductive(self, s, L, env, spec):
        """A loop with an invariant from the contract: the invariant is proved on entry, an
        arbitrary iteration is executed from any state satisfying it and must re-establish it,
        and the code after the loop starts from any state that satisfies it."""
        E = self.E
        G, inv, havoc = spec
        if E.loops or E.generics or len(E.frames) != 1:
            raise Unsupported('loop invariant in a nested context')
        n = L.length() if L is not None else None
        src = L.frozen() if L is not None else None

        def local(name):
            if name == '#yields':
                return env.nyield
            if name not in env.vars:
                raise Unsupported('the loop invariant mentions %s' % name)
            v = env.vars[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return G.local(v)

        def items(k):
            r = []
            for z in inv(local, k):
                r.append(z if isinstance(z, tuple) else ([], lambda idx, z=z: z))
            return r

        def claim(k, what):
            for ns, f in items(k):
                if not ns:
                    G.obligation('ensures', 'loop invariant of %s %s' % (env.fn.name, what), f([]))
                else:
                    G.at_indices(ns, lambda idx, f=f: G.obligation('ensures', 'loop invariant of %s %s' % (env.fn.name, what), f(idx)))

        def assume(k):
            for ns, f in items(k):
                c = E.forall_multi(ns, f) if ns else f([])
                if c is False:
                    raise Infeasible()
                if c is not True:
                    E.assume(c)
        claim(0, 'on entry')
        names = assigned(s.body)
        tn = set()
        if L is not None:
            target_names(s.target, tn)
        ok = set()
        shapes = {}
        for z in sorted(names - tn):
            v = env.vars.get(z, _MISSING)
            if v is _MISSING:
                continue
            if isinstance(v, bool) or is_bool(v):
                env.vars[z] = E.const('hv_' + z, Bool)
            elif is_int(v):
                env.vars[z] = E.const('hv_' + z, Int)
            elif isinstance(v, Sc) and v.kind == 'f':
                env.vars[z] = Sc('f', E.const('hv_' + z, V))
            elif isinstance(v, self.np.Arr):
                env.vars[z] = self.np.raw(v.shape, E.fn('hv_' + z, [Int] * len(v.shape), self.np.SORT[v.kind]), v.kind, v.name)
                env.vars[z].buf.fn = (lambda g: (lambda idx: g(*[E.coerce(i, Int) for i in idx])))(env.vars[z].buf.fn)
                shapes[z] = env.vars[z]
            else:
                env.vars[z] = Poison('loop-carried variable %s' % z)
        for z in havoc:
            v = env.vars.get(z, _MISSING)
            if not isinstance(v, self.np.Arr):
                raise Unsupported('the loop invariant mentions %s' % z)
            if id(v.buf) in ok:
                continue
            g = E.fn('hv_' + z, [Int] * len(v.buf.shape), self.np.SORT[v.buf.kind])
            v.buf.fn = (lambda g: (lambda idx: g(*[E.coerce(i, Int) for i in idx])))(g)
            ok.add(id(v.buf))
            shapes[z] = v
        if env.nyield is not None and any(q.t == 'Yield' for q in walk_scope(s.body)):
            env.nyield = E.const('yields', Int)
            E.assume(env.nyield >= 0)
        k = E.const('iter', Int)
        E.assume(k >= 0)
        if L is not None:
            if E.choose(2) == 1:
                E.assume(eqint(k, n))
                assume(k)
                if E.check() == z3.unsat:
                    raise Infeasible()
                for z in tn | (names - set(env.vars)):
                    env.vars[z] = Poison('loop variable after the loop')
                self.exec_block(s.orelse, env)
                return
            E.assume(lt(k, n))
            assume(k)
        else:
            assume(k)
        if E.check() == z3.unsat:
            raise Infeasible()
        if L is None:
            if not self.truth(self.ev(s.test, env)):
                self.exec_block(s.orelse, env)
                return
        else:
            self.assign(s.target, src.get(k), env)
        E.guards.append((E.new_stamp(), ok))
        try:
            self.exec_block(s.body, env)
        except _Continue:
            pass
        except _Break:
            return
        finally:
            E.guards.pop()
        for z, v in shapes.items():
            w = env.vars[z]
            if not isinstance(w, self.np.Arr) or w.kind != v.kind or len(w.shape) != len(v.shape):
                raise Unsupported('the loop changes the type of %s' % z)
            G.obligation('ensures', 'loop invariant of %s keeps the shape of %s' % (env.fn.name, z), And(*[eqint(a, b) for a, b in zip(w.shape, v.shape)]))
        claim(simp_int(k + 1), 'is maintained')
        raise Done()

    def ex_While(self, s, env):
        spec = self.inv_of(s, env)
        if spec is not None:
            return self.inductive(s, None, env, spec)
        for k in range(64):
            if not self.truth(self.ev(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
        raise Unsupported('while loop without a bound, line %s' % s.line)

    def ex_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, Poison):
            # untracked container: the body may only bind names
            if any(n.t in ('Return', 'Raise', 'Call', 'Yield') for n in walk_scope(s.body)):
                raise Unsupported(it.why)
            for z in assigned([s]):
                env.vars[z] = Poison(it.why)
            return
        L = self.seq(it)
        if L.items is not None:
            L.read()
            # Python iterates over the live list
            k = 0
            while k < len(L.items):
                z = L.items[k]
                k += 1
                self.assign(s.target, z, env)
                try:
                    self.exec_block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    pass
                if L.items is None:
                    raise Unsupported('list changed while iterating over it')
            self.exec_block(s.orelse, env)
            return
        spec = self.inv_of(s, env)
        if spec is not None:
            return self.inductive(s, L, env, spec)
        segs = L.segments()
        if self.E.typed and len(segs) > 1 and not any(n.t in ('Break', 'Return') for n in walk_scope(s.body)):
            part = Node()
            part.t, part.line, part.target, part.iter, part.body, part.orelse = s.t, s.line, s.target, s.iter, s.body, []
            for g in segs:
                if g[0] == 'one':
                    self.assign(s.target, g[1], env)
                    try:
                        self.exec_block(s.body, env)
                    except _Continue:
                        pass
                else:
                    self.summarise(part, PList(self.E, n=g[1], fn=g[2]), env)
                if L.segments() is not segs and L.segments() != segs:
                    raise Unsupported('list changed while iterating over it')
            self.exec_block(s.orelse, env)
            return
        self.summarise(s, L, env)

    # ------------------------------------------------------ loop summarisation
    def summarise(self, s, L, env):
        """A loop over a list of symbolic length, replaced by the effect of a generic
        iteration.  Sound because iterations may not read what any iteration writes
        (checked), and writes are combined with the last writer winning."""
        E = self.E
        f = L.frozen()
        n = f.n
        c = E.canon('i', Int)
        names = assigned(s.body)
        tn = set()
        target_names(s.target, tn)
        carried = sorted(z for z in names - tn if z in env.vars)
        saved = dict((z, env.vars.get(z, _MISSING)) for z in names | tn)

        def run(init):
            lc = LoopCtx(E)
            lc.priv = {}
            while True:
                known = set(lc.priv)
                try:
                    outs = run1(init, lc)
                except Unsupported:
                    if set(lc.priv) == known:
                        raise
                    outs = None
                finally:
                    lc.restore()
                if set(lc.priv) == known:
                    return outs, lc

        def run1(init, lc):
            outs = []
            lc.reads = set()
            lc.h5reads = []

            def body():
                lc.effects = []
                lc.restore(Poison('list item assigned in every iteration'))
                E.assume(And(0 <= c, lt(c, n)))
                for z, v in init.items():
                    env.vars[z] = v
                for z in names | tn:
                    if z not in init:
                        env.vars.pop(z, None)
                how = 'next'
                val = None
                self.assign(s.target, f.get(c), env)
                try:
                    self.exec_block(s.body, env)
                except _Continue:
                    pass
                except _Break:
                    how = 'break'
                except _Return as r:
                    how, val = 'return', r.v
                return how, val, list(lc.effects), dict((z, env.vars.get(z, _MISSING)) for z in names | tn)
            E.loops.append(lc)
            try:
                with E.generic(c):
                    outs = E.sub(body, pruning=True)
            finally:
                E.loops.pop()
            return outs
        # induction variables
        init = {}
        deltas = {}
        if carried:
            probe = {}
            for z in carried:
                v = env.vars[z]
                probe[z] = z3.Int('#ind_%s' % z) if is_int(v) and not isinstance(v, bool) else Poison('loop-carried variable %s' % z)
            try:
                outs, _ = run(probe)
            except Unsupported:
                outs = None
            for z in carried:
                d = None
                if outs is not None and sym(probe[z]):
                    ds = set()
                    for cond, k, o in outs:
                        if k != 'ok' or o[0] != 'next':
                            continue
                        after = o[3].get(z, _MISSING)
                        dd = simp_int(after - probe[z]) if is_int(after) else None
                        ds.add(dd if isinstance(dd, int) else None)
                    if len(ds) == 1 and None not in ds:
                        d = ds.pop()
                if d is not None:
                    deltas[z] = d
                    init[z] = simp_int(env_val(saved[z]) + d * c)
                else:
                    init[z] = Poison('loop-carried variable %s' % z)
        outs, lc = run(init)
        lc.restore(Poison('list item assigned in a loop'))
        # exceptions and early exits
        exc = [(cond, e) for cond, k, e in outs if k == 'exc']
        oks = [(cond, o) for cond, k, o in outs if k == 'ok']
        early = [(cond, o) for cond, o in oks if o[0] != 'next']
        if exc or early:
            allc = Or(*[cond for cond, _ in exc + early])
            hit = E.exists_range(n, lambda i: subst_b(allc, c, i))
            if E.branch(hit):
                if early and exc:
                    raise Unsupported('loop with both exceptions and early exits')
                if exc:
                    classes = set(e.cls for _, e in exc)
                    if len(classes) > 1:
                        raise Unsupported('different exceptions in a loop')
                    if any(o[2] for _, o in oks):
                        # effects before the exception are only visible if the containers are
                        for _, o in oks:
                            for obj, kind, args in o[2]:
                                self.havoc(obj)
                    for z in names | tn:
                        env.vars[z] = Poison('variable of an interrupted loop')
                    raise PyRaise(exc[0][1].cls, exc[0][1].msg)
                if any(o[2] for _, o in oks):
                    raise Unsupported('early exit from a loop with effects')
                kinds = set(o[0] for _, o in early)
                if kinds == set(['return']):
                    vals = [o[1] for _, o in early]
                    v0 = vals[0]
                    for v in vals[1:]:
                        if not (v is v0 or (isinstance(v, (bool, int, str, type(None))) and type(v) == type(v0) and v == v0)):
                            raise Unsupported('different values returned from a loop')
                    if sym(v0) or isinstance(v0, (PList, tuple, Inst, self.np.Arr)):
                        raise Unsupported('value returned from inside a loop')
                    raise _Return(v0)
                if kinds == set(['break']):
                    for z in names | tn:
                        env.vars[z] = Poison('variable of an interrupted loop')
                    return
                raise Unsupported('mixed early exits')
        nexts = [(cond, o) for cond, o in oks if o[0] == 'next']
        # effects, per container
        objs = []
        for cond, o in nexts:
            for obj, kind, args in o[2]:
                if not any(obj is q for q in objs):
                    objs.append(obj)
        for obj in objs:
            if id(obj) in lc.reads and not isinstance(obj, self.h5.HNode):      # (apply_effect looks at what was read)
                if isinstance(obj, PDict):
                    obj.poison = True
                    continue
                raise Unsupported('a loop reads what it writes, line %s' % s.line)
            kinds = set(kind for _, o in nexts for ob, kind, args in o[2] if ob is obj)
            if len(kinds) > 1:
                raise Unsupported('mixed effects in a loop')
            per = [(cond, [args for ob, kind, args in o[2] if ob is obj]) for cond, o in nexts]
            if any(len(p) > 1 for _, p in per):
                raise Unsupported('several effects per iteration')
            does = [(cond, p[0]) for cond, p in per if p]
            kind = kinds.pop()
            if isinstance(obj, self.h5.HNode):
                if len(does) != 1:
                    raise Unsupported('archive changed in several ways')
                self.h5.apply_effect(self, obj, kind, does[0][1], len(per) == 1, n, c, lc)
                continue
            self.apply_effect(obj, kind, does, len(does) == len(per), n, c)
        # variables after the loop
        for z in names | tn:
            if z in deltas:
                env.vars[z] = simp_int(env_val(saved[z]) + deltas[z] * n)
            else:
                env.vars[z] = Poison('value of %s after a loop of unknown length' % z)
        self.exec_block(s.orelse, env)

    def havoc(self, obj):
        if isinstance(obj, PDict):
            obj.poison = True
        elif isinstance(obj, PList):
            obj.set_to(PList(self.E, n=self.E.const('havoc', Int), fn=lambda i: Poison('partially built list')))
        else:
            self.np.havoc(obj)

    def apply_effect(self, obj, kind, does, always, n, c):
        E = self.E
        outer = any(obj.stamp < lc.stamp for lc in E.loops)     # the loop is part of the body of another one
        if outer and not (kind in ('append', 'extend') and always) and not getattr(obj, 'sink', False):
            raise Unsupported('effect %s in nested loops' % kind)
        cond = True if always else simp(Or(*[cd for cd, _ in does]))
        narg = len(does[0][1])
        with E.generic(c):
            vals = [E.ite_chain([(cd, a[k]) for cd, a in does]) for k in range(narg)]
        pick = lambda v: (lambda i: subst(E, v, c, i))
        if isinstance(obj, PList) and obj.sink:
            if kind != 'append':
                raise Unsupported('a file written in a loop')
            if not always:
                vals = [self.io.ite(E, cond, vals[0], '')]
            obj.append(self.io.Text(E, [self.io.Rep(n, pick(vals[0]))]))
            return
        if kind == 'append':
            add = self.mkcomp(n, pick(vals[0]), vals[0], c, PList(E, n=n, fn=lambda i: None)) if always \
                else self.filtered(n, cond, c, pick(vals[0]), vals[0])
            if obj.mutating('extend', add):
                return
            obj.set_to(obj.concat(add) if not (obj.items is not None and not obj.items) else add)
            obj.origin = None
            return
        if kind == 'extend':
            # n blocks of m elements
            add = vals[0]
            if not always or len(does) != 1 or not isinstance(add, PList):
                raise Unsupported('extend in a loop')
            m = add.length()
            if sym(m) and c.get_id() in consts_in(m):
                raise Unsupported('blocks of different lengths in a loop')
            get = add.frozen()

            def item(p):
                if isinstance(m, int) and m == 1:
                    return subst(E, get.get(0), c, p)
                q = E.snd(m, p)
                e = get.get(q)
                h = z3.Int('#blk%d' % E.new_stamp())
                return subst(E, subst(E, get.get(h), c, E.fst(m, p)), h, q)
            add = PList(E, n=E.block(n, m), fn=item)
            if obj.mutating('extend', add):
                return
            obj.set_to(obj.concat(add) if not (obj.items is not None and not obj.items) else add)
            obj.origin = None
            return
        if kind == 'setitem':
            j, v = vals
            old = obj.frozen()
            N = obj.length()
            if always and sym(j) and simp(j).eq(c) and eqint(N, n) is True:
                obj.set_to(PList(E, n=N, fn=pick(v)))
                return
            if sym(j) and simp(j).eq(c):
                obj.set_to(PList(E, n=N, fn=lambda i: E.ite(And(lt(i, n), subst_b(cond, c, i)), subst(E, v, c, i), old.get(i))))
                return
            raise Unsupported('scattered list stores in a loop')
        if kind == 'dset':
            if obj.pairs is None or obj.pairs:
                raise Unsupported('stores into a non-empty dict in a loop')
            k, v = vals
            src = E.filter_list(n, lambda i: subst_b(cond, c, i)) if cond is not True else None
            if src is None:
                keys = PList(E, n=n, fn=pick(k))
                vv = PList(E, n=n, fn=pick(v))
            else:
                keys = PList(E, n=src.n, fn=lambda i: subst(E, k, c, src.get(i)))
                vv = PList(E, n=src.n, fn=lambda i: subst(E, v, c, src.get(i)))
            obj.pairs, obj.keys, obj.vals = None, keys, vv
            return
        if kind == 'arrstore':
            return self.np.apply_store(obj, does, always, cond, n, c)
        raise Unsupported('effect %s in a summarised loop' % kind)


_MISSING = object()


def env_val(v):
    return v


PIterBase = PyIter


class UNICODE(object):
    pass


class BASESTRING(object):
    pass


class FUNCTYPE(object):
    pass


def rng_mem(E, v, lo, n):
    if isinstance(v, bool):
        v = int(v)
    if is_int(v):
        return And(le(lo, v), lt(v, lo + n))
    if is_u(v):
        return And(U.is_UI(v), lo <= U.ui(v), U.ui(v) < lo + n)
    if isinstance(v, float):
        return And(v == int(v), le(lo, int(v)), lt(int(v), lo + n)) if v == v and abs(v) != float('inf') else False
    return False


def rng_pos(E, v, lo):
    if is_u(v):
        return U.ui(v) - lo if not (isinstance(lo, int) and lo == 0) else U.ui(v)
    if isinstance(v, float):
        return int(v) - lo
    return v - lo if not (isinstance(lo, int) and lo == 0) else v


def subst_b(b, c, t):
    if isinstance(b, bool):
        return b
    if isinstance(t, int):
        t = z3.IntVal(t)
    return z3.substitute(b, (c, t))


def floordiv(a, b):
    "Python integer division as a term"
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int):
        a = a if sym(a) else z3.IntVal(a)
        return a / b if b > 0 else (-a) / (-b)
    if not sym(a):
        a = z3.IntVal(a)
    return z3.If(b > 0, a / b, (-a) / (-b))


def load_asts(path):
    return dict((k, decode(v)) for k, v in json.load(open(path)).items())
