from contracts.base import *


@contract('C13')
def larry_ismissing(G):
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'fibso')
    x = G.larry('x', nd, dt)
    r = G.call('larry.ismissing', x)
    G.is_larry(r, labs_of(x), lambda idx: G.missing(x.cell(idx), dt), dt='b')


@contract('C13')
def array_ismissing(G):
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'fibso')
    x = G.array('x', [G.size('n%d' % a, cap=5) for a in range(nd)], dt)
    r = G.call('missing.ismissing', x)
    G.is_array(r, [x.n(a) for a in range(nd)], lambda idx: G.missing(x.cell(idx), dt), dt='b')


@contract('C13')
def nans(G):
    nd = G.ndim(1, 3)
    shape = [G.size('n%d' % a, cap=5) for a in range(nd)]
    dt = G.pick('dtype', ['default', 'f', 'o', 's', 'i', 'b'])
    dtype = {'f': float, 'o': object, 's': str, 'i': int, 'b': bool, 'default': float}[dt]
    args = (tuple(shape),) if dt == 'default' else (tuple(shape), dtype)
    r = G.call('missing.nans', *args, raises=[(TypeError, dt in 'ib')])
    d = 'f' if dt == 'default' else dt
    G.is_array(r, shape, lambda idx: G.marker(d), dt=d)


@contract('C13')
def missing_marker(G):
    dt = G.dt('dt', 'fibso')
    x = G.array('x', [G.size('n', cap=3)], dt)
    r = G.call('missing.missing_marker', x)
    if dt in 'ib':
        G.check('no marker', r is NotImplemented)
    elif dt == 'o':
        G.check('None', r is None)
    else:
        G.is_scalar(r, G.marker(dt))


@contract('C13')
def nan_replace(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    if G.flag('default'):
        v, r = 0, G.call('larry.nan_replace', x)
    else:
        v = G.scalar('v', 'f')
        r = G.call('larry.nan_replace', x, v)
    G.is_larry(r, labs_of(x), lambda idx: G.ite(G.isnan(x.cell(idx)), lambda: v, lambda: x.cell(idx)), dt='f')


@contract('C13', weight=3)
def push(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd)
    a = norm(ax, nd)
    w = G.int('window', 0, 6)

    def inv(v, i):
        # columns before i are filled; count and recent hold the latest finite cell before column i
        y, recent, count = v('y'), v('recent'), v('count')
        at = lambda rest, j: x.cell([j]) if nd == 1 else x.cell(rest[:a] + [j] + rest[a:])
        last = lambda rest: G.last_where(i, lambda j: G.isfinite(at(rest, j)))
        return [
            (y.shape, lambda idx: G.eq(y.cell(idx), G.ite(idx[-1] < i, lambda: filled(lambda j: at(list(idx[:-1]), j), idx[-1]), lambda: at(list(idx[:-1]), idx[-1])))),
            (count.shape, lambda idx: G.eq(count.cell(idx), G.ite(last(list(idx)) >= 0, lambda: G.tofloat(last(list(idx))), lambda: G.marker('f')))),
            (recent.shape, lambda idx: G.eq(recent.cell(idx), G.ite(G.And(last(list(idx)) >= 0, i - 1 - last(list(idx)) <= w),
                                                                     lambda: at(list(idx), last(list(idx))), lambda: G.marker('f'))))]

    def filled(line, i):
        p = G.last_where(i + 1, lambda j: G.isfinite(line(j)))
        return G.ite(G.isfinite(line(i)), lambda: line(i), lambda: G.ite(G.And(p >= 0, i - p <= w), lambda: line(p), lambda: G.marker('f')))
    G.invariant('la.farray.normalize.push', inv, havoc=('y', 'recent', 'count'))
    if ax == -1 and G.flag('default'):
        r = G.call('larry.push', x, w)
    else:
        r = G.call('larry.push', x, w, ax)

    # the latest finite cell at or before idx
    G.is_larry(r, labs_of(x), lambda idx: filled(lambda i: x.cell(replace_at(idx, a, i)), idx[a]), dt='f')


def finite_rows(G, x, a):
    "the rows of axis a that have a finite cell"
    others = [b for b in range(x.nd) if b != a]

    def has(i):
        def f(idx):
            full = list(idx)
            full.insert(a, i)
            return G.isfinite(x.cell(full))
        return any_index(G, [x.n(b) for b in others], f)
    return G.filt(x.n(a), has)


@contract('C13', weight=3)
def vacuum(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    how = G.pick('how', ['default', 'none', 'one', 'several'])
    if how in ('default', 'none'):
        prot = []
        r = G.call('larry.vacuum', x) if how == 'default' else G.call('larry.vacuum', x, None)
    elif how == 'one':
        ax = G.axis(nd)
        prot = [norm(ax, nd)]
        r = G.call('larry.vacuum', x, ax)
    else:
        axes = [a for a in range(nd) if G.flag('keep%d' % a)]
        neg = G.flag('neg')
        prot = axes
        r = G.call('larry.vacuum', x, [a - nd for a in axes] if neg else tuple(axes))
    rows = [finite_rows(G, x, a) if a not in prot else None for a in range(nd)]
    labs = [x.lab(a) if s is None else G.seq(s.n, lambda i, s=s, a=a: x.lab(a).get(s.get(i))) for a, s in enumerate(rows)]
    G.is_larry(r, labs, lambda idx: x.cell([i if s is None else s.get(i) for i, s in zip(idx, rows)]), dt=x.dt)


def per_slice(G, x, b, f, one):
    "f(cell) summed over the cells at each position of axis b (last axis first)"
    others = [c for c in range(x.nd) if c != b]

    def part(idx, left):
        if not left:
            return f(x.cell([idx[c] for c in range(x.nd)])) if one is None else one
        return G.red('sum', x.n(left[0]), lambda i: part(dict(list(idx.items()) + [(left[0], i)]), left[1:]))
    return lambda i: part({b: i}, others)


@contract('C13', weight=2)
def cut_missing(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    ax = G.axis(nd)
    a = norm(ax, nd)
    frac = G.pick('fraction', [0.5, 0, 0.25, 0.75, 1.0, 1.5])
    r = G.call('larry.cut_missing', x, frac, ax)
    rows = []
    for b in range(nd):
        if b == a:
            rows.append(None)
            continue
        total = 1
        for c in range(nd):
            if c != b:
                total = total * x.n(c)
        finite = per_slice(G, x, b, lambda v: G.ite(G.isfinite(v), lambda: 1, lambda: 0), None)
        rows.append(G.filt(x.n(b), lambda i: G.lt(G.op('mul', 1.0 - frac, G.tofloat(total)), G.tofloat(finite(i)))))
    lens = [x.n(b) if s is None else s.n for b, s in enumerate(rows)]
    if G.branch(G.Or(*[G.eq(m, 0) for m in lens])):
        G.is_larry(r, [G.list_seq([])], None)
    else:
        G.is_larry(r, [x.lab(b) if s is None else G.seq(s.n, lambda i, s=s, b=b: x.lab(b).get(s.get(i))) for b, s in enumerate(rows)],
                   lambda idx: x.cell([i if s is None else s.get(i) for i, s in zip(idx, rows)]), dt=x.dt)


CMP = {'==': 'eq', '>': 'gt', '<': 'lt', '>=': 'ge', '<=': 'le', '!=': 'ne'}


@contract('C13')
def keep_x(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    op = G.pick('op', sorted(CMP))
    v = G.scalar('v', 'f')
    r = G.call('larry.keep_x', x, op, v, False)
    G.is_larry(r, labs_of(x), lambda idx: G.ite(G.truth(G.op(CMP[op], x.cell(idx), v)), lambda: x.cell(idx), lambda: G.marker('f')), dt='f')


@contract('C13')
def keep_x_vacuum(G):
    x = G.larry('x', 2, 'f')
    op = G.pick('op', sorted(CMP))
    v = G.scalar('v', 'f')
    r = G.call('larry.keep_x', x, op, v) if G.flag('default') else G.call('larry.keep_x', x, op, v, True)

    class Kept(object):
        nd = 2
        n = staticmethod(x.n)
        cell = staticmethod(lambda idx: G.ite(G.truth(G.op(CMP[op], x.cell(idx), v)), lambda: x.cell(idx), lambda: G.marker('f')))
    rows = [finite_rows(G, Kept, a) for a in range(2)]
    labs = [G.seq(s.n, lambda i, s=s, a=a: x.lab(a).get(s.get(i))) for a, s in enumerate(rows)]
    G.is_larry(r, labs, lambda idx: Kept.cell([s.get(i) for i, s in zip(idx, rows)]), dt='f')


@contract('C13')
def keep_x_bad(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f', cap=3)
    if G.flag('op'):
        G.call('larry.keep_x', x, G.pick('op', ['=', 'in', '']), 1.0, False, raises=[(ValueError, True)])
    else:
        G.assume(nd != 2)
        G.call('larry.keep_x', x, '>', 1.0, raises=[(ValueError, True)])
