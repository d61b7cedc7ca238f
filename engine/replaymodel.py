"""Read a counter-model back as concrete inputs, for the run-time contract (harness/run.py)."""
import itertools, functools
import z3
from .core import *

LIMIT = 7


class NoInput(Exception):
    pass


def given(E, G, model):
    ev = lambda t: model.eval(t, model_completion=True)

    def num(t, cap=None):
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, int):
            v = t
        else:
            e = ev(t)
            if not z3.is_int_value(e):
                raise NoInput('%s is not a number in the model' % t)
            v = e.as_long()
        if cap is not None and not 0 <= v <= cap:
            raise NoInput('size %d' % v)
        if abs(v) > 10 ** 9:
            raise NoInput('integer %d' % v)
        return v

    # every label and every cell value the inputs mention
    us, vs = [], []
    lists, cells = {}, {}
    for name, kind, data in G.inputs:
        if kind == 'labels':
            n = num(data.length(), LIMIT)
            lists[name] = [ev(E.toU(data.get(i))) for i in range(n)]
            us += lists[name]
        elif kind == 'u':
            lists[name] = ev(data)
            us.append(lists[name])
        elif kind == 'cells':
            shape, f, dt = data
            sh = [num(n, LIMIT) for n in shape]
            out = []
            for idx in itertools.product(*[range(n) for n in sh]):
                e = ev(f(*idx))
                out.append(e)
                if dt in 'fso':
                    vs.append(e)
            cells[name] = (out, dt)
        elif kind == 'v':
            vs.append(ev(data))
    # labels: integers stay integers, the others become strings in the model's order
    atoms = {}
    for u in us:
        if z3.is_true(ev(U.is_UA(u))):
            atoms.setdefault(u.sexpr(), u)
    ints = dict((u.sexpr(), ev(U.ui(u)).as_long()) for u in us if z3.is_true(ev(U.is_UI(u))))
    ats = sorted(atoms.items())
    f = E.memo.get('ult')
    if f is not None:
        def cmp(a, b):
            if z3.is_true(ev(f(a[1], b[1]))):
                return -1
            return 1 if z3.is_true(ev(f(b[1], a[1]))) else 0
        ats.sort(key=functools.cmp_to_key(cmp))
    known = dict((ev(U.UA(c)).sexpr(), s) for s, c in E.strings.items())
    nm = {}
    for k, (s, u) in enumerate(ats):
        nm[s] = known.get(s, 'L%02d' % k)

    def lab(u):
        s = u.sexpr()
        return ints[s] if s in ints else nm[s]

    # cell values
    vmap = {}
    isnan, isfin = E.isnan, E.isfinite
    pool = [1.5, 2.5, 0.5, -1.5, 3.5, 7.5, -0.5, 4.25, 6.75, 9.5, -2.25, 12.5]
    spool = ['a', 'b', 'cc', 'd', 'ee', 'f', 'g', 'h', 'k', 'm']
    fin = {}
    vi = {}
    for k in range(-3, 12):
        vi[ev(E.VI(z3.IntVal(k))).sexpr()] = k

    def val(e, dt):
        s = e.sexpr()
        if dt == 'f':
            if z3.is_true(ev(e == E.NAN)) or z3.is_true(ev(isnan(e))):
                return {'f': 'nan'}
            if s in vi:
                return float(vi[s])
            if s not in fin:
                fin[s] = len(fin)
            k = fin[s]
            if z3.is_false(ev(isfin(e))):
                return {'f': ['inf', '-inf'][k % 2]}
            return pool[k % len(pool)]
        if dt == 's':
            if z3.is_true(ev(e == E.EMPTY)):
                return ''
            fin.setdefault(s, len(fin))
            return spool[fin[s] % len(spool)]
        if z3.is_true(ev(e == E.NONEV)):
            return None
        fin.setdefault(s, len(fin))
        return spool[fin[s] % len(spool)]

    out = {}
    for name, kind, data in G.inputs:
        if kind == 'const':
            out[name] = data
        elif kind == 'int':
            out[name] = num(data)
        elif kind == 'labels':
            out[name] = [lab(u) for u in lists[name]]
        elif kind == 'u':
            out[name] = lab(lists[name])
        elif kind == 'ints':
            out[name] = [num(data.get(i)) for i in range(num(data.length(), LIMIT))]
        elif kind == 'cells':
            vals, dt = cells[name]
            if dt == 'i':
                out[name] = [num(e) for e in vals]
            elif dt == 'b':
                out[name] = [z3.is_true(e) for e in vals]
            else:
                out[name] = [val(e, dt) for e in vals]
        elif kind == 'v':
            out[name] = val(ev(data), 'f')
    return out


