"""Core of the deductive verifier: terms, path exploration, symbolic lists, sets, dicts.

Every symbolic container is a *closure* from an index term to an element, with a
symbolic length, so that nothing here is bounded in the length of a list.
"""
import os, time, z3

Int, Bool = z3.IntSort(), z3.BoolSort()
AtomS = z3.DeclareSort('Atom')
_U = z3.Datatype('U')
_U.declare('UI', ('ui', Int))
_U.declare('UA', ('ua', AtomS))
U = _U.create()
V = z3.DeclareSort('V')
Real = z3.RealSort()

MAXPATHS = int(os.environ.get('VERIF_MAXPATHS', '4000'))


class Unsupported(Exception):
    "The construct is outside the verifier's subset: undecided, never a pass."


class Infeasible(Exception):
    pass


class Done(Exception):
    "the rest of this path is covered by obligations already generated"


class PyRaise(Exception):
    def __init__(self, cls, msg=None, inst=None):
        self.cls, self.msg, self.inst = cls, msg, inst

    def __str__(self):
        return '%s(%s)' % (getattr(self.cls, '__name__', self.cls), self.msg)


class Poison(object):
    "A variable whose value after a summarised loop is not tracked."
    def __init__(self, why):
        self.why = why


def sym(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (sym(v) and v.sort() == Int)


def is_bool(v):
    return isinstance(v, bool) or (sym(v) and v.sort() == Bool)


def is_u(v):
    return sym(v) and v.sort() == U


def is_v(v):
    return sym(v) and v.sort() == V


def is_real(v):
    return isinstance(v, float) or (sym(v) and v.sort() == Real)


def to_bool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return a <= b


def lt(a, b):
    return a < b


def inrange(i, n):
    return And(le(0, i), lt(i, n))


def eqint(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if sym(a) and sym(b) and a.eq(b):
        return True
    return a == b


def simp(e):
    if isinstance(e, bool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def simp_int(e):
    if isinstance(e, int):
        return e
    if sym(e) and e.sort() == Int:
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        return s
    return e


class Sc(object):
    "a NumPy scalar that is not an integer or a bool: kind and cell term"
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def subst(self, c, t):
        return Sc(self.kind, z3.substitute(self.v, (c, t)))


def vsort(v):
    "z3 sort used for a Python-level value, or None"
    if sym(v):
        return v.sort()
    if isinstance(v, bool):
        return Bool
    if isinstance(v, int):
        return Int
    return None


# --------------------------------------------------------------------- engine

class Frame(object):
    __slots__ = ('prefix', 'trail', 'conds', 'todo', 'pruning', 'base')

    def __init__(self, prefix, pruning=True):
        self.prefix = prefix
        self.trail = []
        self.conds = []
        self.todo = []
        self.pruning = pruning


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.branch_queries = 0
        self.branch_time = 0.0


class Engine(object):
    def __init__(self):
        self.stats = Stats()
        self.obligations = []      # dicts
        self.branch_timeout = 1500
        self.prove_timeout = 20000
        self.hyp = None
        self.base = 0              # objects up to this stamp belong to the loaded modules
        self.loading = True
        self.deadline = None
        self.reset_path()

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time limit')

    def may_change(self, o):
        "mutation of the object o: module state must stay as loaded"
        if not self.loading and o.stamp <= self.base:
            raise Unsupported('mutation of module state')
        for stamp, ok in self.guards:
            if o.stamp < stamp and id(o) not in ok:
                raise Unsupported('a loop changes something its invariant does not mention')

    # ---- per path state
    def reset_path(self):
        self.numeric_text = False
        self.typed = False
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', self.branch_timeout)
        self.solver.set('random_seed', 1)
        self.solver.set('mbqi', False)
        self.axioms = []
        self.counters = {}
        self.memo = {}
        self.keep = []
        self.generics = []
        self.frames = []
        self.loops = []
        self.stamp = self.base
        self.strings = {}
        self.depth = 0
        self.used_consts = {}
        self.soft = 0
        self.ctx = []
        self.guards = []           # (stamp, objects that may change) of the loops under an invariant
        self.perms = []            # arbitrary permutations drawn so far: (n, p, inverse)
        self.drawrange = {}
        self.drawn = []            # arrays of random numbers drawn so far
        self.add_axiom(z3.BoolVal(True))

    def new_stamp(self):
        self.stamp += 1
        return self.stamp

    # ---- symbols
    def name(self, base):
        c = self.counters.get(base, 0)
        self.counters[base] = c + 1
        return '%s!%d' % (base, c)

    def const(self, base, sort):
        "fresh constant (a function of the generic indices in scope)"
        return self.fn(base, [], sort)()

    def fn(self, base, sorts, ret, over=None):
        "fresh function symbol, implicitly also of the generic constants in scope (that occur in the terms over)"
        g = list(self.generics)
        if over is not None:
            used = set()
            for t in over:
                if sym(t):
                    used |= set(consts_in(t))
            g = [z for z in g if z.get_id() in used]
        nm = self.name(base)
        allsorts = [c.sort() for c in g] + list(sorts)
        if not allsorts:
            c = z3.Const(nm, ret)
            f = lambda: c
            f.decl = None
            return f
        decl = z3.Function(nm, *(allsorts + [ret]))

        def call(*a):
            return decl(*(g + [self.coerce(x, s) for x, s in zip(a, sorts)]))
        call.decl = decl
        return call

    def coerce(self, v, s):
        if sym(v):
            if v.sort() == s:
                return v
            if s == U and v.sort() == Int:
                return U.UI(v)
            if s == Real and v.sort() == Int:
                return z3.ToReal(v)
            if s == Int and v.sort() == Bool:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if s == Int and isinstance(v, (bool, int)):
            return z3.IntVal(int(v))
        if s == Bool and isinstance(v, bool):
            return z3.BoolVal(v)
        if s == Real and isinstance(v, (int, float)):
            return z3.RealVal(repr(v) if isinstance(v, float) else v)
        if s == U:
            return self.toU(v)
        if s == V:
            return self.toV(v)
        raise Unsupported('cannot coerce %r to %s' % (v, s))

    def toU(self, v):
        if sym(v):
            if v.sort() == U:
                return v
            if v.sort() == Int:
                return U.UI(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return U.UI(z3.IntVal(v))
        if isinstance(v, str):
            return U.UA(self.satom(v))
        raise Unsupported('label value %r' % (v,))

    def satom(self, s):
        if s not in self.strings:
            c = z3.Const('str:' + s, AtomS)
            for d in self.strings.values():
                self.add_axiom(c != d)
            self.strings[s] = c
        return self.strings[s]

    NAN = z3.Const('NaN', V)
    NONEV = z3.Const('None_v', V)
    EMPTY = z3.Const('emptystr_v', V)
    isnan = z3.Function('isnan', V, Bool)
    isfinite = z3.Function('isfinite', V, Bool)
    VI = z3.Function('V_of_int', Int, V)      # a Python/NumPy integer as a cell value
    @staticmethod
    def VB(b):
        "True and 1 are the same cell value (True == 1)"
        if z3.is_true(b):
            return Engine.VI(z3.IntVal(1))
        if z3.is_false(b):
            return Engine.VI(z3.IntVal(0))
        return Engine.VI(z3.If(b, z3.IntVal(1), z3.IntVal(0)))
    VU = z3.Function('V_of_label', U, V)

    def vaxioms(self):
        if 'vax' in self.memo:
            return
        self.memo['vax'] = True
        v = z3.Const('v', V)
        i = z3.Int('i')
        self.axiom_raw(self.isnan(self.NAN))
        self.axiom_raw(z3.ForAll([v], z3.Implies(self.isnan(v), v == self.NAN), patterns=[self.isnan(v)]))
        self.axiom_raw(z3.ForAll([v], z3.Implies(self.isfinite(v), z3.Not(self.isnan(v))),
                                 patterns=[self.isfinite(v)]))
        self.axiom_raw(self.NONEV != self.EMPTY)
        self.axiom_raw(self.NONEV != self.NAN)
        self.axiom_raw(self.EMPTY != self.NAN)
        self.axiom_raw(z3.ForAll([i], z3.And(self.isfinite(self.VI(i)), self.VI(i) != self.NAN,
                                             self.VI(i) != self.NONEV, self.VI(i) != self.EMPTY,
                                             z3.Function('int_of_V', V, Int)(self.VI(i)) == i),
                                 patterns=[self.VI(i)]))

    def toV(self, v):
        self.vaxioms()
        if sym(v):
            if v.sort() == V:
                return v
            if v.sort() == Int:
                return self.VI(v)
            if v.sort() == Bool:
                return self.VB(v)
            if v.sort() == U:
                return self.VU(v)
        if v is None:
            return self.NONEV
        if isinstance(v, bool):
            return self.VB(z3.BoolVal(v))
        if isinstance(v, int):
            return self.VI(z3.IntVal(v))
        if isinstance(v, float):
            if v != v:
                return self.NAN
            if v == int(v) if abs(v) < 1e18 else False:
                return self.VI(z3.IntVal(int(v)))
            c = z3.Const('float:%r' % v, V)
            if ('fc', v) not in self.memo:
                self.memo[('fc', v)] = c
                fin = abs(v) != float('inf')
                self.axiom_raw(self.isfinite(c) if fin else z3.And(z3.Not(self.isfinite(c)), z3.Not(self.isnan(c))))
            return c
        if isinstance(v, str):
            return self.EMPTY if v == '' else self.VU(self.toU(v))
        if is_real(v):
            return z3.Function('V_of_real', Real, V)(z3.simplify(v))
        raise Unsupported('cell value %r' % (v,))

    def fresh_like(self, base, v):
        return self.const(base, vsort(v))

    # ---- axioms and assumptions
    def axiom_raw(self, a):
        self.axioms.append(a)
        self.solver.add(a)

    def add_axiom(self, a):
        if a is True:
            return
        if a is False:
            a = z3.BoolVal(False)
        if self.generics:
            used = consts_in(a)
            gs = [g for g in self.generics if g.get_id() in used]
            if gs:
                a = z3.ForAll(gs, a)
        self.axiom_raw(a)

    def assume(self, c):
        "precondition / fact on the current path"
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.solver.add(c)
        if self.frames:
            self.frames[-1].conds.append(c)

    # ---- solver
    def check(self, *conds, **kw):
        self.tick()
        t0 = time.time()
        self.solver.push()
        try:
            for c in conds:
                self.solver.add(to_bool(c))
            self.solver.set('timeout', kw.get('timeout', self.branch_timeout))
            r = self.solver.check()
            if r == z3.unknown:
                self.last_reason = self.solver.reason_unknown()
            return r
        finally:
            self.solver.pop()
            self.stats.branch_queries += 1
            self.stats.branch_time += time.time() - t0

    # ---- branching
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        f = self.frames[-1]
        pos = len(f.trail)
        if pos < len(f.prefix):
            val = f.prefix[pos]
        else:
            val = self.decide(cond, f)
        f.trail.append(val)
        c = cond if val else Not(cond)
        f.conds.append(c)
        if f.pruning:
            self.solver.add(c)
        return val

    def decide(self, cond, f):
        # syntactically known?
        ncond = Not(cond)
        for fr in self.frames:
            for c in fr.conds:
                if sym(c):
                    if c.eq(cond):
                        return True
                    if c.eq(ncond):
                        return False
        if not f.pruning:
            f.todo.append(f.trail + [False])
            return True
        t = self.check(cond)
        if t == z3.unsat:
            return False
        e = self.check(ncond)
        if e == z3.unsat:
            return True
        f.todo.append(f.trail + [False])
        return True

    def choose(self, n):
        "nondeterministic choice among n alternatives, all explored"
        f = self.frames[-1]
        pos = len(f.trail)
        if pos < len(f.prefix):
            val = f.prefix[pos]
        else:
            val = 0
            for k in range(n - 1, 0, -1):
                f.todo.append(f.trail + [('c', k)])
            f.trail.append(('c', 0))
            return 0
        f.trail.append(val)
        return val[1]

    def paths(self, thunk):
        "top level: run thunk once per feasible path; yields (outcome)"
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            self.reset_path()
            fr = Frame(prefix)
            self.frames = [fr]
            n += 1
            if n > MAXPATHS:
                raise Unsupported('more than %d paths' % MAXPATHS)
            try:
                thunk()
            except Infeasible:
                pass
            work.extend(fr.todo)
        return n

    def sub(self, thunk, pruning=True, limit=256):
        """Explore thunk's branches locally; returns [(cond, kind, value)] where kind
        is 'ok' or 'exc'.  Effects on containers older than the call are not undone:
        callers guarantee thunk is effect free or record effects."""
        work = [[]]
        out = []
        while work:
            prefix = work.pop()
            fr = Frame(prefix, pruning)
            self.frames.append(fr)
            nax = len(self.axioms)
            if pruning:
                self.solver.push()
            saved = self.counters if False else None
            try:
                try:
                    r = thunk()
                    out.append((And(*fr.conds), 'ok', r))
                except PyRaise as e:
                    out.append((And(*fr.conds), 'exc', e))
                except Infeasible:
                    pass
            finally:
                self.frames.pop()
                if pruning:
                    self.solver.pop()
                    for a in self.axioms[nax:]:
                        self.solver.add(a)
            work.extend(fr.todo)
            if len(out) > limit:
                raise Unsupported('too many local paths')
        return out

    def merge(self, thunk, pruning=False):
        "evaluate an effect-free thunk and merge its branches into one value"
        outs = self.sub(thunk, pruning)
        vals = [(c, v) for c, k, v in outs if k == 'ok']
        if not vals:
            raise Unsupported('no normal outcome while merging: %s' % (outs and outs[0][2],))
        if len(vals) == 1:
            return vals[0][1]
        return self.ite_chain(vals)

    def ite_chain(self, vals):
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = self.ite(c, v, r)
        return r

    def ite(self, c, a, b):
        if hasattr(a, 'kind') and hasattr(a, 'v') or hasattr(b, 'kind') and hasattr(b, 'v'):
            return self.ite_sc(c, a, b)
        if c is True or (not sym(c) and c):
            return a
        if c is False:
            return b
        if a is b:
            return a
        if sym(a) and sym(b) and a.eq(b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, PList) and isinstance(b, PList):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return PList(self, items=[self.ite(c, x, y) for x, y in zip(a.items, b.items)])
            n = self.ite(c, a.length(), b.length())
            return PList(self, n=n, fn=lambda i: self.ite(c, a.get(i), b.get(i)))
        if type(a) is type(b) and not sym(a) and isinstance(a, (int, str, bool, float, type(None))) and a == b:
            return a
        if hasattr(a, 'istext') or hasattr(b, 'istext'):
            from . import iomodel
            return iomodel.ite(self, c, a, b)
        sa, sb = vsort(a), vsort(b)
        s = sa if sa == sb else None
        if s is None:
            if V in (sa, sb):
                s = V
            elif U in (sa, sb) or isinstance(a, str) or isinstance(b, str):
                s = U
            elif set([str(sa), str(sb)]) == set(['Int', 'Bool']):
                s = Int
            elif Real in (sa, sb):
                s = Real
            elif isinstance(a, float) or isinstance(b, float) or a is None or b is None:
                s = V
        if s is None:
            raise Unsupported('cannot merge %r and %r' % (a, b))
        return z3.If(c, self.coerce(a, s), self.coerce(b, s))

    def ite_sc(self, c, a, b):
        "NumPy scalars"
        if c is True:
            return a
        if c is False:
            return b
        T = type(a) if hasattr(a, 'kind') else type(b)
        ka, kb = [z.kind if isinstance(z, T) else None for z in (a, b)]
        va, vb = [z.v if isinstance(z, T) else z for z in (a, b)]
        k = ka or kb
        if ka and kb and ka != kb:
            raise Unsupported('cannot merge scalars of kinds %s and %s' % (ka, kb))
        return T(k, z3.If(c, self.toV(va), self.toV(vb)))

    # ---- structural keys
    def key(self, v):
        if sym(v):
            self.keep.append(v)
            return ('z', v.get_id())
        if isinstance(v, tuple):
            return ('t',) + tuple(self.key(x) for x in v)
        if isinstance(v, PList):
            return self.listkey(v)
        if isinstance(v, (int, str, bool, float, type(None))):
            return ('p', type(v).__name__, v)
        if isinstance(v, slice):
            return ('sl', self.key(v.start), self.key(v.stop), self.key(v.step))
        return ('o', id(v))

    def known(self, c):
        "does the path condition entail c?"
        if isinstance(c, bool):
            return c
        return self.check(Not(c)) == z3.unsat

    def canon(self, tag, sort):
        return z3.Const('#%s%d' % (tag, len(self.generics)), sort)

    def generic(self, c):
        "context manager: c is a generic (universally read) constant"
        return _Gen(self, c)

    def listkey(self, L):
        if L.items is not None:
            return ('L',) + tuple(self.key(x) for x in L.items)
        c = self.canon('i', Int)
        with self.generic(c):
            e = L.get(c)
            return ('S', self.key(L.n), self.key(e))

    # ---- quantified facts over index ranges
    def forall_range(self, n, body, tag='all'):
        """Bool for: for every i in [0,n): body(i).  A definitional atom."""
        if isinstance(n, int) and n <= 8:
            return And(*[body(z3.IntVal(i)) for i in range(n)])
        c = self.canon('i', Int)
        with self.generic(c):
            b = body(c)
            b = simp(b)
        if b is True:
            return True
        k = ('forall', self.key(n), self.key(b), len(self.generics))
        if k in self.memo:
            return self.memo[k]
        a = self.const(tag, Bool)
        self.memo[k] = a
        sk = self.const('sk', Int)
        bsk = z3.BoolVal(False) if b is False else z3.substitute(b, (c, sk))
        nn = n
        self.add_axiom(z3.Implies(z3.Not(a), And(le(0, sk), lt(sk, nn), z3.Not(bsk))))
        bb = to_bool(b)
        self.add_axiom(z3.Implies(a, mk_forall(self, [c], z3.Implies(And(0 <= c, lt(c, nn)), bb))))
        return a

    def forall_multi(self, ns, body, tag='allm'):
        "for every multi-index within ns: body(idx)"
        ns = [simp_int(n) for n in ns]
        if any(isinstance(n, int) and n == 0 for n in ns):
            return True
        if not ns:
            return simp(body([]))
        if self.generics:
            if len(ns) == 1:
                return self.forall_range(ns[0], lambda i: body([i]))
            return self.forall_range(ns[0], lambda i: self.forall_multi(ns[1:], lambda idx: body([i] + list(idx))))
        cs, gs = [], []
        for _ in ns:
            c = self.canon('i', Int)
            cs.append(c)
            g = self.generic(c)
            g.__enter__()
            gs.append(g)
        try:
            b = simp(body(list(cs)))
        finally:
            for g in reversed(gs):
                g.__exit__()
        if b is True:
            return True
        k = ('forallm', tuple(self.key(n) for n in ns), self.key(b), len(self.generics))
        if k in self.memo:
            return self.memo[k]
        a = self.const(tag, Bool)
        self.memo[k] = a
        b = to_bool(b)
        sks = [self.const('sk', Int) for _ in ns]
        rng = lambda idx: And(*[inrange(i, n) for i, n in zip(idx, ns)])
        self.add_axiom(z3.Implies(z3.Not(a), And(rng(sks), z3.Not(z3.substitute(b, *list(zip(cs, sks)))))))
        self.add_axiom(z3.Implies(a, mk_forall(self, cs, z3.Implies(to_bool(rng(cs)), b))))
        if not self.generics:
            table = self.memo.setdefault(('forallms', len(ns)), [])
            for (a2, ns2, cs2, b2) in table:
                # the two agree when their bodies do
                sk = [self.const('fsk', Int) for _ in ns]
                x, y = z3.substitute(b, *list(zip(cs, sk))), z3.substitute(b2, *list(zip(cs2, sk)))
                self.add_axiom(z3.Implies(to_bool(And(*([eqint(p, q) for p, q in zip(ns, ns2)] + [Or(Not(rng(sk)), x == y)]))), a == a2))
            table.append((a, ns, cs, b))
        return a

    def exists_multi(self, ns, body):
        return Not(self.forall_multi(ns, lambda idx: Not(body(idx))))

    def exists_range(self, n, body, tag='ex'):
        return Not(self.forall_range(n, lambda i: Not(body(i)), tag))

    def forall_u(self, body):
        c = self.canon('u', U)
        with self.generic(c):
            b = simp(body(c))
        if isinstance(b, bool):
            return b
        k = ('forallu', self.key(b), len(self.generics))
        if k in self.memo:
            return self.memo[k]
        a = self.const('allu', Bool)
        self.memo[k] = a
        sk = self.const('sku', U)
        self.add_axiom(z3.Implies(z3.Not(a), z3.Not(z3.substitute(b, (c, sk)))))
        self.add_axiom(z3.Implies(a, mk_forall(self, [c], b)))
        return a

    # ---- equality of Python values
    def eq(self, a, b):
        "Python == as bool / z3 Bool (labels, ints, strings, lists, tuples...)"
        if a is b and not isinstance(a, float):
            return True
        if sym(a) and sym(b) and a.sort() == b.sort():
            if a.eq(b):
                return True
            if a.sort() == V:
                return self.veq(a, b)
            return a == b
        if hasattr(a, 'istext') or hasattr(b, 'istext'):
            from . import iomodel
            return iomodel.eq_values(self, a, b)
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                if not (isinstance(a, PList) and a.tup) and not (isinstance(b, PList) and b.tup):
                    return False
            return self.seq_eq(self.as_list(a), self.as_list(b))
        if sym(a) or sym(b):
            sa, sb = vsort(a), vsort(b)
            if a is None or b is None:
                if V in (sa, sb):
                    return self.veq(self.toV(a), self.toV(b))
                return False
            if U in (sa, sb):
                x = b if sa == U else a
                if isinstance(x, (str, int)) or is_int(x):
                    return self.toU(a) == self.toU(b)
                if isinstance(x, float):
                    raise Unsupported('float label')
                return False
            if V in (sa, sb):
                return self.veq(self.toV(a), self.toV(b))
            if sa in (Int, Bool, Real) and sb in (Int, Bool, Real) or isinstance(a, float) or isinstance(b, float):
                if Real in (sa, sb) or isinstance(a, float) or isinstance(b, float):
                    return self.coerce(a, Real) == self.coerce(b, Real)
                return self.coerce(a, Int) == self.coerce(b, Int)
            return False
        try:
            r = a == b
        except Exception:
            raise Unsupported('equality of %r and %r' % (a, b))
        if r is NotImplemented:
            return False
        if not isinstance(r, bool):
            raise Unsupported('equality of %r and %r' % (a, b))
        return r

    def veq(self, a, b):
        "NumPy elementwise == on two cells"
        self.vaxioms()
        if a.eq(b) and (a.eq(self.NONEV) or a.eq(self.EMPTY)):
            return True
        for x in (a, b):
            if x.eq(self.NAN):
                return False
            if x.eq(self.NONEV) or x.eq(self.EMPTY):
                return a == b
        f = self.vpred('eq')
        if 'veqax' not in self.memo:
            self.memo['veqax'] = True
            p, q = z3.Consts('v w', V)
            self.axiom_raw(z3.ForAll([p, q], f(p, q) == f(q, p), patterns=[f(p, q)]))
            self.axiom_raw(z3.ForAll([p], f(p, p) == z3.Not(self.isnan(p)), patterns=[f(p, p)]))
            plain = z3.Function('v_plain', V, Bool)
            self.axiom_raw(z3.ForAll([p, q], z3.Implies(z3.And(plain(p), f(p, q)), p == q), patterns=[z3.MultiPattern(f(p, q), plain(p))]))
            self.axiom_raw(z3.ForAll([p], z3.Implies(plain(p), z3.Not(self.isnan(p))), patterns=[plain(p)]))
            i, j = z3.Ints('i j')
            self.axiom_raw(z3.ForAll([i, j], f(self.VI(i), self.VI(j)) == (i == j), patterns=[f(self.VI(i), self.VI(j))]))
            self.axiom_raw(z3.ForAll([p], z3.And(z3.Not(f(p, self.NAN)), z3.Not(f(self.NAN, p))), patterns=[f(p, self.NAN), f(self.NAN, p)]))
        return f(a, b)

    def vpred(self, name, n=2):
        return z3.Function('v_' + name, *([V] * n + [Bool]))

    def as_list(self, v):
        if isinstance(v, tuple):
            return PList(self, items=list(v), tup=True)
        return v

    def seq_eq(self, a, b):
        if a is b:
            return True
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        na, nb = a.length(), b.length()
        ka, kb = self.key(a), self.key(b)
        if ka == kb:
            return True
        k = ('seqeq',) + tuple(sorted([repr(ka), repr(kb)])) + (len(self.generics),)
        if k in self.memo:
            return self.memo[k]
        # elements equal over the common range
        allel = self.forall_range(na, lambda i: self.eq(a.get(i), b.get(i)), 'elemeq')
        at = self.const('listeq', Bool)
        self.memo[k] = at
        self.add_axiom(at == to_bool(And(eqint(na, nb), allel)))
        return at

    # ---- membership / index in a list
    def list_index(self, L):
        """(mem(v), first(v)): membership and first index."""
        if L.posf is not None:
            return L.memf, L.posf
        if L.items is not None:
            items = L.items

            def mem(v):
                return Or(*[self.eq(x, v) for x in items])

            def pos(v):
                r = z3.IntVal(0)
                for i in reversed(range(len(items))):
                    c = self.eq(items[i], v)
                    r = z3.IntVal(i) if c is True else (r if c is False else z3.If(c, z3.IntVal(i), r))
                return simp_int(r)
            return mem, pos
        return self.skolem_index(L, first=True)

    def skolem_index(self, L, first):
        c = self.canon('i', Int)
        with self.generic(c):
            e = L.get(c)
        if isinstance(e, tuple):
            return self.tuple_index(L, c, e, first)
        if isinstance(e, Sc):
            m, p = self.skolem_index(PList(self, n=L.n, fn=lambda i: L.get(i).v), first)
            raw = lambda v: v.v if isinstance(v, Sc) else v if sym(v) else self.toV(v)
            return (lambda v: m(raw(v))), (lambda v: p(raw(v)))
        es = vsort(e)
        if es is None:
            raise Unsupported('membership in list of %r' % (e,))
        e = self.coerce(e, es)
        c, e = self.settle(c, e)
        k = ('pos', first, self.key(L.n), self.key(e), tuple(g.sort().name() for g in self.generics))
        if not any(g.get_id() in consts_in(e) or sym(L.n) and g.get_id() in consts_in(L.n) for g in self.generics):
            k = k[:4]
        if k not in self.memo:
            f = self.fn('first' if first else 'last', [es], Int, over=(e, L.n))
            self.memo[k] = f
            fe = f(e)
            n = L.n
            e2 = z3.substitute(e, (c, fe))
            cmp_ = fe <= c if first else z3.And(fe >= c, lt(fe, n))
            body = z3.Implies(z3.And(0 <= c, lt(c, n)), z3.And(0 <= fe, cmp_, e2 == e))
            pat = e
            if not pattern_ok(e):
                pat = [z for z in subterms(e) if z.num_args() and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(c) for a in z.children()) and pattern_ok(z)][:2]
            self.add_axiom(mk_forall(self, [c], body, pat=pat))
        f = self.memo[k]

        def mem(v):
            if vsort(v) != es and not (es == U and (isinstance(v, (int, str)) or is_int(v))):
                if es == Int and is_u(v):
                    pass
                elif es == V:
                    pass
                else:
                    return False
            v = self.coerce(v, es)
            p = f(v)
            return And(le(0, p), lt(p, L.n), z3.substitute(e, (c, p)) == v)

        def pos(v):
            return f(self.coerce(v, es))
        return mem, pos

    def settle(self, c, e):
        "the same with a bound variable that does not depend on the depth"
        c0 = z3.Int('#li')
        return c0, z3.substitute(e, (c, c0))

    def tuple_index(self, L, c, e, first):
        sorts = [vsort(x) for x in e]
        if any(s is None for s in sorts):
            raise Unsupported('membership in list of %r' % (e,))
        es = [self.coerce(x, s) for x, s in zip(e, sorts)]
        k = ('post', first, self.key(L.n), self.key(tuple(es)), len(self.generics))
        if k not in self.memo:
            f = self.fn('firstt' if first else 'lastt', sorts, Int)
            self.memo[k] = f
            fe = f(*es)
            n = L.n
            same = z3.And(*[z3.substitute(x, (c, fe)) == x for x in es])
            cmp_ = fe <= c if first else z3.And(fe >= c, lt(fe, n))
            self.add_axiom(mk_forall(self, [c], z3.Implies(z3.And(0 <= c, lt(c, n)), z3.And(0 <= fe, cmp_, same))))
        f = self.memo[k]

        def pos(v):
            return f(*[self.coerce(x, s) for x, s in zip(v, sorts)])

        def mem(v):
            if not isinstance(v, tuple) or len(v) != len(sorts):
                return False
            p = pos(v)
            return And(le(0, p), lt(p, L.n),
                       *[z3.substitute(x, (c, p)) == self.coerce(y, s) for x, y, s in zip(es, v, sorts)])
        return mem, pos

    def uniq(self, L):
        "Bool: the elements of L are pairwise distinct"
        if L.uniqf:
            return True
        if L.items is not None:
            it = L.items
            return And(*[Not(self.eq(it[i], it[j])) for i in range(len(it)) for j in range(i)])
        k = ('uniq', self.key(L), len(self.generics))
        if k in self.memo:
            return self.memo[k]
        a = self.const('uniq', Bool)
        self.memo[k] = a
        s1, s2 = self.const('dup', Int), self.const('dup', Int)
        self.add_axiom(z3.Implies(z3.Not(a), And(le(0, s1), s1 < s2, lt(s2, L.n), self.eq(L.get(s1), L.get(s2)))))
        mem, pos = self.list_index(L)
        c = self.canon('i', Int)
        with self.generic(c):
            e = L.get(c)
            self_axiom = z3.Implies(z3.And(0 <= c, lt(c, L.n)), to_bool(pos(e) == c))
        pat = e if sym(e) else None
        self.add_axiom(z3.Implies(a, mk_forall(self, [c], self_axiom, pat=pat)))
        return a

    # ---- enumerations
    def filter_enum(self, n, pred):
        """Strictly increasing enumeration of {i in [0,n): pred(i)}: (m, f, r)."""
        c = self.canon('i', Int)
        with self.generic(c):
            p = simp(pred(c))
        if p is True:
            return n, (lambda j: j), (lambda i: i)
        p = to_bool(p)
        k = ('filter', self.key(n), self.key(p), len(self.generics))
        if k in self.memo:
            return self.memo[k]
        if not self.generics:
            for kk, val in list(self.memo.items()):
                if isinstance(kk, tuple) and kk[0] == 'filter' and kk[3] == 0 and kk[1] == k[1]:
                    sk = z3.Int('#flt')
                    q = val[3]
                    if self.check(0 <= sk, lt(sk, n), z3.substitute(p, (c, sk)) != z3.substitute(q, (c, sk)),
                                  timeout=1000) == z3.unsat:
                        self.memo[k] = val
                        return val
        f = self.fn('enum', [Int], Int)
        r = self.fn('rank', [Int], Int)
        m = self.const('count', Int)
        j = z3.Int('#j%d' % len(self.generics))
        j2 = z3.Int('#jj%d' % len(self.generics))
        P = lambda t: z3.substitute(p, (c, t))
        A = self.add_axiom
        A(And(0 <= m, le(m, n)))
        A(mk_forall(self, [j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= f(j), lt(f(j), n), P(f(j)), r(f(j)) == j, f(j) >= j)), pat=f(j)))
        A(mk_forall(self, [c], z3.Implies(z3.And(0 <= c, lt(c, n), p), z3.And(0 <= r(c), r(c) < m, f(r(c)) == c)), pat=r(c)))
        A(mk_forall(self, [j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), f(j) < f(j2)), pat=z3.MultiPattern(f(j), f(j2))))
        A(z3.Implies(m == 0, mk_forall(self, [c], z3.Implies(z3.And(0 <= c, lt(c, n)), z3.Not(p)))))
        A(z3.Implies(m == n, mk_forall(self, [c], z3.Implies(z3.And(0 <= c, lt(c, n)), z3.And(p, r(c) == c, f(c) == c)))))
        s0 = self.const('hole', Int)
        A(z3.Implies(m != n, And(0 <= s0, lt(s0, n), z3.Not(P(s0)))))
        A(z3.Implies(m > 0, And(P(f(z3.IntVal(0))), 0 <= f(z3.IntVal(0)), lt(f(z3.IntVal(0)), n))))
        res = (m, f, r, p)
        self.memo[k] = res
        self.keep.append(p)
        outer = list(self.generics)
        table = self.memo.setdefault(('filters', self.key(n)), [])
        for old in table:
            if outer or old[-1]:
                self.same_filters((n, c, p, m, f, r, outer), old)
        table.append((n, c, p, m, f, r, outer))
        return res

    def same_filters(self, a, b):
        "two enumerations of equivalent predicates are the same"
        n, c, p, m, f, r, outer = a
        _, c2, p2, m2, f2, r2, outer2 = b
        if sym(n) and any(g.get_id() in consts_in(n) for g in outer + outer2):
            return
        j = z3.Int('#e')
        fj2, rj2 = f2(j), r2(j)
        ren = [(g, z3.Const(str(g) + "'", g.sort())) for g in outer2]
        S = lambda e: z3.substitute(e, *ren) if ren else e
        saved = self.generics
        g2 = [x for _, x in ren]
        try:
            self.generics = outer + g2
            sk = self.const('fsk', Int)
        finally:
            self.generics = saved
        p2, m2, fj2, rj2 = z3.substitute(S(z3.substitute(p2, (c2, z3.Int('#e2')))), (z3.Int('#e2'), sk)), S(self.coerce(m2, Int)), S(fj2), S(rj2)
        p1 = z3.substitute(p, (c, sk))
        m1 = self.coerce(m, Int)
        body = z3.Or(z3.And(0 <= sk, lt(sk, n), p1 != p2),
                     z3.And(m1 == m2, z3.ForAll([j], f(j) == fj2, patterns=[f(j), fj2]), z3.ForAll([j], z3.Implies(z3.And(0 <= j, lt(j, n), P_(p, c, j)), r(j) == rj2), patterns=[r(j), rj2])))
        used = consts_in(body)
        gs = [g for g in outer + g2 if g.get_id() in used]
        if not gs:
            self.axiom_raw(body)
            return
        pats = [q for q in (m1, m2) if q.num_args()]
        ids = set()
        for q in pats:
            ids |= consts_in(q)
        if pats and all(g.get_id() in ids for g in gs):
            self.axiom_raw(z3.ForAll(gs, body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]]))

    def lift(self, p, c):
        "p with its integer constants (other than c) replaced by parameters: (term, parameters, arguments)"
        order, seen, todo = [], set(), [p]
        while todo:
            z = todo.pop()
            if not z3.is_app(z) or z.get_id() in seen:
                if z3.is_quantifier(z):
                    raise Unsupported('quantifier in a lifted term')
                continue
            seen.add(z.get_id())
            if z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z.sort() == Int and not z.eq(c):
                order.append(z)
            todo.extend(reversed(z.children()))
        ps = [z3.Int('#a%d' % k) for k in range(len(order))]
        return (z3.substitute(p, *zip(order, ps)) if order else p), ps, order

    def last_where(self, n, pred):
        "the last i in [0, n) with pred(i), or -1"
        c = self.canon('w', Int)
        with self.generic(c):
            p = to_bool(simp(pred(c)))
        q, ps, args = self.lift(p, c)
        c0 = z3.Int('#w')
        q = z3.substitute(q, (c, c0))
        key = ('lastw', self.key(q))
        if key not in self.memo:
            f = z3.Function('lastw!%d' % len(self.memo), *([Int] * (len(ps) + 2)))
            self.memo[key] = f
            self.keep.append(q)
            k = z3.Int('#k')
            fk = f(*(ps + [k]))
            at = lambda t: z3.substitute(q, (c0, t))
            self.axiom_raw(z3.ForAll(ps + [k], z3.Implies(k >= 0, z3.And(-1 <= fk, fk < k, z3.Implies(fk >= 0, at(fk)))), patterns=[fk]))
            sub = [z for z in subterms(q) if z.num_args() > 0 and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and pattern_ok(z) and c0.get_id() in consts_in(z)]
            pat = [z3.MultiPattern(fk, z) for z in sub[:2]]
            self.axiom_raw(z3.ForAll(ps + [k, c0], z3.Implies(z3.And(fk < c0, c0 < k), z3.Not(q)), **({'patterns': pat} if pat else {})))
        f = self.memo[key]
        n = self.coerce(n, Int)
        t = f(*(args + [n]))
        m = simp_int(n - 1)
        if not isinstance(m, int):
            at = z3.substitute(p, (c, m))
            ax = z3.Implies(m >= 0, t == z3.If(at, m, f(*(args + [m]))))
            gs = [g for g in self.generics if g.get_id() in consts_in(ax)]
            self.axiom_raw(mk_forall(self, gs, ax, pat=t) if gs else ax)
        return t

    def perm(self, n):
        "an arbitrary permutation p of range(n) and its inverse q"
        p, q = self.fn('perm', [Int], Int), self.fn('unperm', [Int], Int)
        c = z3.Int('#c')
        for f, g in ((p, q), (q, p)):
            self.add_axiom(mk_forall(self, [c], z3.Implies(z3.And(0 <= c, lt(c, n)), z3.And(0 <= f(c), lt(f(c), n), g(f(c)) == c)), pat=f(c)))
        self.perms.append((n, p, q))
        return p, q

    def idiv(self, a, b):
        "floor(a / b) for integer terms, b > 0"
        q = self.memo.get(('idiv', self.key(a), self.key(b)))
        if q is None:
            q = self.const('quot', Int)
            self.memo['idiv', self.key(a), self.key(b)] = q
            self.keep.append((a, b))
            self.add_axiom(z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b, z3.Implies(a >= 0, q >= 0))))
        return q

    # ---- numbering the pairs of range(n) x range(m):  (a, b) <-> p = a*m + b
    def _pairs(self):
        if 'pairs' not in self.memo:
            B, P = z3.Function('blk', Int, Int, Int), z3.Function('pair', Int, Int, Int, Int)
            F, S = z3.Function('fst', Int, Int, Int), z3.Function('snd', Int, Int, Int)
            self.memo['pairs'] = B, P, F, S
            n, m, a, b, p = z3.Ints('#n #m #a #b #p')
            I, A, O = z3.Implies, z3.And, z3.Or
            for ax in (z3.ForAll([n, m], I(A(n >= 0, m >= 0), A(B(n, m) >= 0, (B(n, m) == 0) == O(n == 0, m == 0))), patterns=[B(n, m)]),
                       z3.ForAll([n, m, p], I(A(n >= 0, m >= 0, 0 <= p, p < B(n, m)),
                                              A(0 <= F(m, p), F(m, p) < n, 0 <= S(m, p), S(m, p) < m, P(m, F(m, p), S(m, p)) == p)),
                                 patterns=[z3.MultiPattern(B(n, m), F(m, p)), z3.MultiPattern(B(n, m), S(m, p))]),
                       z3.ForAll([m, a, b], I(A(0 <= a, 0 <= b, b < m), A(0 <= P(m, a, b), F(m, P(m, a, b)) == a, S(m, P(m, a, b)) == b)), patterns=[P(m, a, b)]),
                       z3.ForAll([n, m, a, b], I(A(0 <= a, a < n, 0 <= b, b < m), P(m, a, b) < B(n, m)), patterns=[z3.MultiPattern(B(n, m), P(m, a, b))])):
                self.axiom_raw(ax)
        return self.memo['pairs']

    def block(self, n, m):
        "n * m"
        n, m = simp_int(n), simp_int(m)
        if isinstance(n, int) and (n == 0 or isinstance(m, int) or n == 1):
            return n * m
        if isinstance(m, int) and m in (0, 1):
            return n * m
        return self._pairs()[0](self.coerce(n, Int), self.coerce(m, Int))

    def fst(self, m, p):
        m, p = simp_int(m), simp_int(p)
        if isinstance(m, int) and (m == 1 or isinstance(p, int) and m > 0):
            return p // m if isinstance(p, int) else p
        return self._pairs()[2](self.coerce(m, Int), self.coerce(p, Int))

    def snd(self, m, p):
        m, p = simp_int(m), simp_int(p)
        if isinstance(m, int) and (m == 1 or isinstance(p, int) and m > 0):
            return p % m if isinstance(p, int) else 0
        return self._pairs()[3](self.coerce(m, Int), self.coerce(p, Int))

    def pair(self, m, a, b):
        m, a, b = simp_int(m), simp_int(a), simp_int(b)
        if isinstance(m, int) and (m == 1 or isinstance(a, int)):
            return a * m + b
        return self._pairs()[1](*[self.coerce(z, Int) for z in (m, a, b)])

    def flat_size(self, shape):
        "product of axis lengths, from the last one"
        r = 1
        for n in reversed(list(shape)):
            r = self.block(n, r)
        return r

    def digits(self, shape, p):
        "the index tuple with C-order number p"
        out = []
        for k in range(len(shape)):
            m = self.flat_size(shape[k + 1:])
            out.append(self.fst(m, p))
            p = self.snd(m, p)
        return out

    def number(self, shape, idx):
        "C-order number of an index tuple"
        if not shape:
            return 0
        return self.pair(self.flat_size(shape[1:]), idx[0], self.number(shape[1:], idx[1:])) if len(shape) > 1 else idx[0]

    def filter_list(self, n, pred, val=None):
        m, f, r = self.filter_enum(n, pred)[:3]
        if val is None:
            return PList(self, n=m, fn=f, memf=lambda v: And(is_int_like(v), inrange(v, n), pred(v)),
                         posf=lambda v: r(v), uniqf=True)
        return PList(self, n=m, fn=lambda j: val(f(j)))

    def ult(self, a, b):
        "strict order on labels"
        if 'ult' not in self.memo:
            self.memo['ult'] = z3.Function('label_lt', U, U, Bool)
            f = self.memo['ult']
            a_, b_, c_ = z3.Consts('a b c', U)
            i_, j_ = z3.Ints('i j')
            self.axiom_raw(z3.ForAll([a_, b_], z3.And(z3.Not(z3.And(f(a_, b_), f(b_, a_))),
                                                      z3.Or(f(a_, b_), f(b_, a_), a_ == b_)), patterns=[f(a_, b_)]))
            self.axiom_raw(z3.ForAll([a_, b_, c_], z3.Implies(z3.And(f(a_, b_), f(b_, c_)), f(a_, c_)),
                                     patterns=[z3.MultiPattern(f(a_, b_), f(b_, c_))]))
            self.axiom_raw(z3.ForAll([i_, j_], f(U.UI(i_), U.UI(j_)) == (i_ < j_), patterns=[f(U.UI(i_), U.UI(j_))]))
        if is_int(a) and is_int(b):
            return a < b
        return self.memo['ult'](self.toU(a), self.toU(b))

    def set_enum(self, S, reverse=False, ordered=True, tag='sorted'):
        """A duplicate-free list of the members of the set S; sorted if asked."""
        es = S.sort
        if es is None:
            raise Unsupported('enumeration of a set of structured values')
        c = self.canon('u', es)
        with self.generic(c):
            p = to_bool(simp(S.mem(c)))
        k = ('enum', ordered, reverse, self.key(p), len(self.generics))
        hit = self.memo.get(k)
        if hit is None and not self.generics:
            for kk, val in list(self.memo.items()):
                if isinstance(kk, tuple) and kk[0] == 'enum' and kk[1:3] == (ordered, reverse) and kk[4] == 0 \
                        and val[3].sort() == es and ordered:
                    sk = z3.Const('#set', es)
                    if self.check(z3.substitute(p, (c, sk)) != z3.substitute(val[4], (val[3], sk)), timeout=1000) == z3.unsat:
                        hit = val
                        self.memo[k] = val
                        break
        if hit is None:
            f = self.fn('sorted' if ordered else 'setlist', [Int], es)
            r = self.fn('spos', [es], Int)
            m = self.const('card', Int)
            j, j2 = z3.Ints('#j%d #jj%d' % (len(self.generics), len(self.generics)))
            A = self.add_axiom
            A(m >= 0)
            P = lambda t: z3.substitute(p, (c, t))
            A(mk_forall(self, [j], z3.Implies(z3.And(0 <= j, j < m), z3.And(P(f(j)), r(f(j)) == j)), pat=f(j)))
            A(mk_forall(self, [c], z3.Implies(p, z3.And(0 <= r(c), r(c) < m, f(r(c)) == c)), pat=r(c)))
            if ordered and es != V:     # the order of cells is left open
                o = (lambda a, b: self.ult(b, a)) if reverse else self.ult
                A(mk_forall(self, [j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), o(f(j), f(j2))),
                            pat=z3.MultiPattern(f(j), f(j2))))
            self.keep.append(p)
            # emptiness, through the candidate lists of the set
            for L in S.cands:
                n = L.length()
                if isinstance(n, int) and n == 0:
                    continue
                ci = self.canon('i', Int)
                with self.generic(ci):
                    e = L.get(ci)
                    ok = to_bool(self.as_sort_mem(S, e))
                    body = z3.Implies(z3.And(0 <= ci, lt(ci, n), ok), m > 0)
                    if len(S.cands) == 1 and vsort(e) == es:
                        body = z3.Implies(z3.And(0 <= ci, lt(ci, n), ok), z3.And(m > 0, 0 <= r(e), r(e) < m, f(r(e)) == e))
                        pat = e if not z3.is_var(e) and pattern_ok(e) else \
                            [z for z in subterms(e) if z.num_args() and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(ci) for a in z.children()) and pattern_ok(z)][:2]
                        if not isinstance(pat, list) or pat:
                            self.add_axiom(mk_forall(self, [ci], body, pat=pat))
                            continue
                self.add_axiom(mk_forall(self, [ci], body))
            hit = (m, f, r, c, p)
            self.memo[k] = hit
        m, f, r = hit[:3]

        def mem(v):
            if vsort(v) != es and not (es == U and (isinstance(v, (int, str)) or is_int(v))):
                return False
            v = self.coerce(v, es)
            return And(le(0, r(v)), lt(r(v), m), f(r(v)) == v)
        return PList(self, n=m, fn=f, memf=mem, posf=lambda v: r(self.coerce(v, es)), uniqf=True)

    def same_enum(self, A, B):
        "the sets A and B are known to be equal: one enumeration for both"
        L = self.set_enum(A)
        ks = []
        for S in (A, B):
            c = self.canon('u', S.sort)
            with self.generic(c):
                p = to_bool(simp(S.mem(c)))
            self.keep.append(p)
            ks.append(('enum', True, False, self.key(p), len(self.generics)))
        self.memo[ks[1]] = self.memo[ks[0]]

    def as_sort_mem(self, S, e):
        return S.mem(e)

    # ---- obligations
    def prove(self, name, cond, hyps=()):
        """Record and discharge an obligation on the current path."""
        t0 = time.time()
        cond = simp(cond) if not isinstance(cond, bool) else cond
        ob = {'name': name, 'path': self.path_id()}
        model = None
        if cond is True:
            st, by = 'discharged', 'simplify'
        else:
            self.solver.push()
            for h in hyps:
                self.solver.add(to_bool(h))
            self.solver.add(to_bool(Not(cond)))
            self.solver.set('timeout', self.prove_timeout)
            self.solver.set('timeout', self.first_timeout)
            r = self.solver.check()
            self.stats.queries += 1
            if r == z3.unsat:
                st, by = 'discharged', 'z3'
            else:
                why = self.solver.reason_unknown() if r == z3.unknown else 'sat'
                ob['reason'] = why
                st, by, model = self.second_opinion(why)
            if st != 'discharged' and self.want_model:
                model = self.small_model() or model
            self.solver.set('timeout', self.branch_timeout)
            self.solver.pop()
        ob['status'], ob['by'] = st, by
        ob['time'] = time.time() - t0
        self.stats.time += ob['time']
        self.obligations.append(ob)
        if st != 'discharged':
            ob['goal'] = str(cond)[:int(os.environ.get('GOALN','600'))]
            ob['model'] = model
            if self.on_fail:
                self.on_fail(ob, model)
            self.open_count += 1
            if self.open_count >= self.max_open:
                raise Unsupported('several obligations open')
        return st == 'discharged'

    on_fail = None
    open_count, max_open = 0, 3
    want_model = True
    first_timeout = 2000
    model_timeout = 1500
    size_terms = ()

    def small_model(self):
        "look for a counter-model with small sizes (for replay)"
        for bound in (2, 4):
            s = z3.Solver()
            s.set('timeout', self.model_timeout)
            for a in self.solver.assertions():
                s.add(a)
            for t in self.size_terms:
                s.add(t <= bound)
            r = s.check()
            if r == z3.sat or r == z3.unknown and bound == 4:
                try:
                    return s.model()
                except z3.Z3Exception:
                    return None
        return None

    def second_opinion(self, why):
        timeout = 'timeout' in why or 'canceled' in why or 'resource' in why
        # a fresh solver with model-based instantiation, then cvc5
        s = z3.Solver()
        s.set('timeout', self.prove_timeout)
        for a in self.solver.assertions():
            s.add(a)
        self.stats.queries += 1
        r = s.check()
        if r == z3.unsat:
            return 'discharged', 'z3/fresh', None
        if r == z3.sat:
            return 'refuted', 'z3/fresh', s.model()
        why2 = s.reason_unknown()
        try:
            model = s.model()
        except z3.Z3Exception:
            model = None
        c = self.cvc5(s)
        if c == 'unsat':
            return 'discharged', 'cvc5', None
        if c == 'sat':
            return 'refuted', 'cvc5', model
        if timeout and ('timeout' in why2 or 'canceled' in why2):
            return 'timeout', 'z3+cvc5', model
        return 'unproved', 'z3+cvc5', model

    def cvc5(self, s):
        import subprocess, tempfile
        d = tempfile.mkdtemp(prefix='verif_cvc5_')
        p = os.path.join(d, 'q.smt2')
        try:
            with open(p, 'w') as f:
                f.write('(set-logic ALL)\n' + s.to_smt2())
            r = subprocess.run(['cvc5', '--tlimit=%d' % min(self.prove_timeout, 10000), p],
                               capture_output=True, text=True, timeout=60)
            return r.stdout.strip().split('\n')[0] if r.stdout else 'error'
        except Exception:
            return 'error'
        finally:
            try:
                os.remove(p)
                os.rmdir(d)
            except OSError:
                pass

    def path_id(self):
        out = []
        for f in self.frames[:1]:
            for t in f.trail:
                out.append(('T' if t is True else 'F') if isinstance(t, bool) else str(t[1]))
        return ''.join(out)


class _Gen(object):
    def __init__(self, E, c):
        self.E, self.c = E, c

    def __enter__(self):
        self.E.generics.append(self.c)

    def __exit__(self, *a):
        self.E.generics.pop()


def consts_in(e, cache={}):
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x):
            out.add(i)
        else:
            st.extend(x.children())
    return out


def P_(p, c, j):
    return z3.substitute(p, (c, j))


def subterms(t):
    seen, todo, out = set(), [t], []
    while todo:
        z = todo.pop()
        if z.get_id() in seen or not z3.is_app(z):
            continue
        seen.add(z.get_id())
        out.append(z)
        todo.extend(z.children())
    return out


def mk_forall(E, vs, body, pat=None):
    if body is True:
        return z3.BoolVal(True)
    kw = {}
    if pat is not None:
        pats = pat if isinstance(pat, list) else [pat]
        good = []
        for p in pats:
            if isinstance(p, z3.PatternRef):
                good.append(p)
            elif sym(p) and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.num_args() > 0:
                ids = consts_in(p)
                if all(v.get_id() in ids for v in vs) and pattern_ok(p):
                    good.append(p)
        if good:
            kw['patterns'] = good
    return z3.ForAll(vs, body, **kw)


_BADPAT = set([z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT])


def pattern_ok(p):
    st = [p]
    while st:
        x = st.pop()
        if not z3.is_app(x) or x.decl().kind() in _BADPAT:
            return False
        st.extend(x.children())
    return True


def is_int_like(v):
    return True if is_int(v) else False


# ----------------------------------------------------------------- containers

class PList(object):
    """Python list (or tuple of symbolic length): concrete items, or (n, fn)."""
    __slots__ = ('E', 'items', 'n', 'fn', 'memf', 'posf', 'uniqf', 'tup', 'stamp', 'origin', 'segs', 'sink')

    def __init__(self, E, items=None, n=None, fn=None, memf=None, posf=None, uniqf=False, tup=False):
        self.E = E
        self.items, self.n, self.fn = items, n, fn
        self.memf, self.posf, self.uniqf, self.tup = memf, posf, uniqf, tup
        self.stamp = E.new_stamp()
        self.origin = None
        self.segs = None        # of a list built in parts: ('one', element), ('rep', n, fn)
        self.sink = False       # the content of a file: what is appended in one iteration is one piece
        if items is None and isinstance(n, int) and n <= 16 and memf is None:
            self.items = [fn(z3.IntVal(i)) for i in range(n)]

    def read(self):
        for lc in self.E.loops:
            if self.stamp < lc.stamp:
                lc.reads.add(id(self))

    def length(self):
        self.read()
        return len(self.items) if self.items is not None else self.n

    def get(self, i):
        "element i, assumed in range and non-negative"
        self.read()
        if self.items is not None:
            if isinstance(i, int):
                if isinstance(self.items[i], Poison):
                    raise Unsupported(self.items[i].why)
                return self.items[i]
            i = simp_int(i)
            if isinstance(i, int):
                return self.items[i] if -len(self.items) <= i < len(self.items) else self.items[0]
            if not self.items:
                raise Unsupported('symbolic index into an empty list')
            r = self.items[-1]
            for k in reversed(range(len(self.items) - 1)):
                r = self.E.ite(i == k, self.items[k], r)
            return r
        if isinstance(i, int):
            i = z3.IntVal(i)
        return self.fn(i)

    def copy(self):
        self.read()
        if self.items is not None:
            return PList(self.E, items=list(self.items))
        r = PList(self.E, n=self.n, fn=self.fn, memf=self.memf, posf=self.posf, uniqf=self.uniqf)
        r.segs = self.segs
        return r

    def segments(self):
        self.read()
        if self.items is not None:
            return [('one', z) for z in self.items]
        return self.segs if self.segs is not None else [('rep', self.n, self.fn)]

    def same_content(self, o):
        return self.items == o.items and self.n is o.n and self.fn is o.fn

    def private_store(self, j):
        """In summarised loops: item j of this older list is written by every iteration that
        uses it.  It becomes private to the iteration: unknown (poison) at its start, and
        unknown again after the loop."""
        new = [lc for lc in self.E.loops if self.stamp < lc.stamp]
        if not new:
            return False
        if any(lc.priv is None for lc in new):
            return False
        self.E.may_change(self)
        for lc in new:
            lc.private(self, j)
        return True

    # mutation
    def set_to(self, o):
        self.items, self.n, self.fn = o.items, o.n, o.fn
        self.memf, self.posf, self.uniqf = o.memf, o.posf, o.uniqf
        self.segs = o.segs

    def mutating(self, kind, *args):
        self.E.may_change(self)
        for lc in reversed(self.E.loops):
            if self.stamp < lc.stamp:
                lc.record(self, kind, args)
                return True
        return False

    def append(self, v):
        if self.mutating('append', v):
            return
        if self.items is not None:
            self.items.append(v)
            return
        n, fn, E = self.n, self.fn, self.E
        segs = self.segments()
        self.set_to(PList(E, n=n + 1, fn=lambda i: E.ite(i == n, v, fn(i))))
        self.segs = segs + [('one', v)]

    def concat(self, o):
        self.read()
        if self.items is not None and o.items is not None:
            return PList(self.E, items=self.items + o.items)
        E = self.E
        a, b = self.frozen(), o.frozen()
        na = a.length()
        if isinstance(na, int) and na == 0:
            return o.copy()
        if isinstance(b.length(), int) and b.length() == 0:
            return self.copy()

        def fn(i):
            return E.ite(lt(i, na), a.get(i) if not (a.items is not None and not a.items) else None, b.get(i - na))
        r = PList(E, n=na + b.length(), fn=fn)
        r.segs = a.segments() + b.segments()
        r.memf = lambda v: Or(E.list_index(a)[0](v), E.list_index(b)[0](v))
        r.posf = lambda v: E.ite(E.list_index(a)[0](v), E.list_index(a)[1](v), na + E.list_index(b)[1](v))
        return r

    def frozen(self):
        "an immutable snapshot"
        r = self.copy()
        r.tup = self.tup
        return r

    def mem(self, v):
        self.read()
        return self.E.list_index(self)[0](v)

    def pos(self, v):
        self.read()
        return self.E.list_index(self)[1](v)


class PSet(object):
    """Python set: membership predicate plus candidate lists covering it."""
    def __init__(self, E, mem, cands, sort, src=None, kind=None):
        self.E, self.cands, self.sort, self.src = E, cands, sort, src
        self.kind = kind            # of the cells, in a set of cells
        self.mem = mem if kind is None else lambda v: mem(v.v if isinstance(v, Sc) else E.toV(v) if not sym(v) else v)
        self.stamp = E.new_stamp()
        self.items = None

    @staticmethod
    def from_list(E, L):
        L = L.frozen()
        if L.items is not None:
            s = None
            for x in L.items:
                if s is None:
                    s = vsort(x) if vsort(x) is not None else (U if isinstance(x, str) else None)
            if s is None and not L.items:
                s = U
            if s is not None and any(isinstance(x, str) or is_u(x) for x in L.items):
                s = U
            if s is None and any(isinstance(x, tuple) for x in L.items):
                s = None
        else:
            c = E.canon('i', Int)
            with E.generic(c):
                e = L.get(c)
                s = vsort(e)
            if isinstance(e, Sc):
                L = PList(E, n=L.n, fn=lambda i, L=L: L.get(i).v)
                return PSet(E, E.list_index(L)[0], [L], V, src=L, kind=e.kind)
        mem = E.list_index(L)[0]
        return PSet(E, mem, [L], s, src=L)

    def length(self):
        E = self.E
        if self.src is not None:
            L = self.src
            u = E.uniq(L)
            n = L.length()
            if u is True:
                return n
            k = ('setlen', E.key(L), len(E.generics))
            if k not in E.memo:
                c = E.const('setlen', Int)
                E.memo[k] = c
                E.add_axiom(And(0 <= c, le(c, n), (c == n) == to_bool(u), Implies(lt(0, n), 0 < c)))
            return E.memo[k]
        c = self.canon()
        k = ('setlen2', E.key(c), len(E.generics))
        if k not in E.memo:
            m = E.set_enum(self, ordered=False).length()
            E.add_axiom((m > 0) == to_bool(self.nonempty()))
            E.memo[k] = m
        return E.memo[k]

    def canon(self):
        E = self.E
        c = E.canon('u', self.sort)
        with E.generic(c):
            return to_bool(simp(self.mem(c)))

    def nonempty(self):
        E = self.E
        return Or(*[E.exists_range(L.length(), lambda i, L=L: self.mem(L.get(i))) for L in self.cands])


class PDict(object):
    """Python dict: concrete pairs, or symbolic (n, key(i), val(i)), last wins."""
    def __init__(self, E, pairs=None, keys=None, vals=None):
        self.E, self.pairs, self.keys, self.vals = E, pairs, keys, vals
        self.stamp = E.new_stamp()

    def read(self):
        for lc in self.E.loops:
            if self.stamp < lc.stamp:
                lc.reads.add(id(self))

    def mutating(self, kind, *args):
        self.E.may_change(self)
        for lc in reversed(self.E.loops):
            if self.stamp < lc.stamp:
                lc.record(self, kind, args)
                return True
        return False

    def lookup(self, k):
        "(member?, value) - value meaningful only if member"
        self.read()
        E = self.E
        if self.pairs is not None:
            mem = Or(*[E.eq(a, k) for a, _ in self.pairs])

            def val():
                # exact when the keys decide syntactically, else fork
                for a, v in reversed(self.pairs):
                    if E.branch(E.eq(a, k)):
                        return v
                raise Infeasible()
            return mem, val
        mem, pos = E.skolem_index(self.keys, first=False) if not self.keys.uniqf else E.list_index(self.keys)
        return mem(k), (lambda: self.vals.get(pos(k)))

    def set(self, k, v):
        if self.mutating('dset', k, v):
            return
        E = self.E
        if self.pairs is None:
            raise Unsupported('store into a symbolic dict')
        for i, (a, _) in enumerate(self.pairs):
            if E.branch(E.eq(a, k)):
                self.pairs[i] = (a, v)
                return
        self.pairs.append((k, v))

    def length(self):
        self.read()
        if self.pairs is not None:
            return len(self.pairs)
        return PSet.from_list(self.E, self.keys).length()


# substitution of a generic constant in structured values -------------------

def subst(E, v, c, t):
    if sym(v):
        return z3.substitute(v, (c, E.coerce(t, c.sort())))
    if isinstance(v, tuple):
        return tuple(subst(E, x, c, t) for x in v)
    if isinstance(v, slice):
        return slice(subst(E, v.start, c, t), subst(E, v.stop, c, t), subst(E, v.step, c, t))
    if isinstance(v, PList):
        if v.items is not None:
            r = PList(E, items=[subst(E, x, c, t) for x in v.items], tup=v.tup)
            return r
        # the closure may mention c anywhere: evaluate then substitute, taking
        # care that the index itself does not mention c
        def fn(i):
            h = z3.Const('#h%d' % E.new_stamp(), Int)
            return subst(E, subst(E, v.fn(h), c, t), h, i)
        return PList(E, n=subst(E, v.n, c, t), fn=fn, tup=v.tup)
    if hasattr(v, 'subst'):
        return v.subst(c, t)
    if isinstance(v, (PDict, PSet)) or type(v).__name__ in ('Arr', 'Holder'):
        raise Unsupported('%s as an element of a list of unknown length' % type(v).__name__)
    return v
