from contracts.base import *
from contracts.c_04 import JOINS


def several(G, nd, ax, dts='f', lo=1):
    k = G.pick('count', list(range(lo, 4)))
    a = norm(ax, nd)
    out = []
    for i in range(k):
        near = [o.lab(a) for o in out] or None
        out.append(G.larry('x%d' % i, nd, G.dt('d%d' % i, dts), near={a: near} if near else None, cap=4 if nd > 1 else None))
    return out


@contract('C07', weight=2)
def union(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    xs = several(G, nd, ax)
    a = norm(ax, nd)
    r = G.call('flarry.union', ax, *xs)
    s = G.sorted_set(xs[0].lab(a))
    for x in xs[1:]:
        s = G.union(s, x.lab(a))
    G.is_list(r, s)


@contract('C07', weight=2)
def intersection(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    xs = several(G, nd, ax)
    a = norm(ax, nd)
    r = G.call('flarry.intersection', ax, *xs)
    s = G.sorted_set(xs[0].lab(a))
    for x in xs[1:]:
        s = G.inter(s, x.lab(a))
    G.is_list(r, s)


@contract('C07')
def union_type(G):
    x = G.larry('x', 1, 'f', cap=3)
    bad = G.pick('bad', [None, 3, 'abc'])
    fn = G.pick('fn', ['flarry.union', 'flarry.intersection'])
    G.call(fn, 0, x, bad, raises=[(TypeError, True)])


@contract('C07')
def isaligned(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f', cap=4)
    y = G.larry('y', nd, 'f', near=dict((a, [x.lab(a)]) for a in range(nd)))
    ax = G.axis(nd, none=True)
    r = G.call('flarry.isaligned', x, y, ax)
    if ax is None:
        want = G.And(*[G.seq_eq(x.lab(a), y.lab(a)) for a in range(nd)])
    else:
        want = G.seq_eq(x.lab(norm(ax, nd)), y.lab(norm(ax, nd)))
    G.is_bool(r, want)


@contract('C07', weight=3)
def align_axis(G):
    k = G.pick('count', [1, 2, 3])
    out, axes = [], []
    for i in range(k):
        nd = G.ndim(1, 2, name='nd%d' % i)
        ax = G.axis(nd, name='ax%d' % i)
        near = [o.lab(norm(b, o.nd)) for o, b in zip(out, axes)] or None
        out.append(G.larry('x%d' % i, nd, G.dt('d%d' % i, 'fib'), near={norm(ax, nd): near} if near else None))
        axes.append(ax)
    join = G.pick('join', JOINS)
    seqs = [o.lab(norm(b, o.nd)) for o, b in zip(out, axes)]
    if join == 'left':
        lab = seqs[0]
    elif join == 'right':
        lab = seqs[-1]
    else:
        lab = G.sorted_set(seqs[0])
        for s in seqs[1:]:
            lab = G.inter(lab, s) if join == 'inner' else G.union(lab, s)
    r = G.call('flarry.align_axis', list(out), list(axes), join)
    check_axis(G, r, out, axes, lab)


def check_axis(G, r, out, axes, lab):
    rs = G.unpack(r, len(out))
    for i, (x, ax) in enumerate(zip(out, axes)):
        a = norm(ax, x.nd)
        labs = replace_at(labs_of(x), a, lab)
        m = G.branch(G.any(lab.n, lambda j, x=x, a=a: G.Not(G.isin(x.lab(a), lab.get(j)))))
        d = filled_dt(x.dt, m)

        def cell(idx, x=x, a=a, d=d, m=m):
            kept = lambda: x.cell(replace_at(idx, a, G.index(x.lab(a), lab.get(idx[a]))))
            if not m:
                return kept()
            return G.ite(G.isin(x.lab(a), lab.get(idx[a])), kept, lambda: G.marker(d))
        G.is_larry(rs[i], labs, cell, name='larry %d' % i)


@contract('C07')
def align_axis_one(G):
    "one axis for all larrys"
    nd = G.ndim(1, 2)
    ax = G.axis(nd)
    xs = several(G, nd, ax, 'fi', lo=2)
    join = G.pick('join', ['inner', 'outer', 'left', 'right', 'default'])
    seqs = [o.lab(norm(ax, nd)) for o in xs]
    if join == 'left':
        lab = seqs[0]
    elif join == 'right':
        lab = seqs[-1]
    else:
        lab = G.sorted_set(seqs[0])
        for s in seqs[1:]:
            lab = G.union(lab, s) if join == 'outer' else G.inter(lab, s)
    if join == 'default':
        if ax == 0 and G.flag('noaxis'):
            r = G.call('flarry.align_axis', list(xs))
        else:
            r = G.call('flarry.align_axis', list(xs), ax)
    else:
        r = G.call('flarry.align_axis', list(xs), ax, join)
    check_axis(G, r, xs, [ax] * len(xs), lab)


@contract('C07')
def align_axis_bad(G):
    x = G.larry('x', 1, 'f', cap=3)
    y = G.larry('y', 2, 'f', cap=3)
    how = G.pick('how', ['join', 'axis', 'axis2', 'type'])
    if how == 'join':
        G.call('flarry.align_axis', [x, y], 0, 'middle', raises=[(ValueError, True)])
    elif how == 'axis':
        G.call('flarry.align_axis', [x, y], 1, raises=[(ValueError, True)])
    elif how == 'axis2':
        G.call('flarry.align_axis', [x, y], [0, -3], raises=[(ValueError, True)])
    else:
        G.call('flarry.align_axis', [x, 3], [0, 0], raises=[(ValueError, True)])


@contract('C07', weight=2)
def stack(G):
    names = G.pick('names', [['b', 'a'], ['one', 'two', 'three'], ['z']])
    mode = G.pick('mode', ['union', 'intersection'])
    xs = []
    for i, nm in enumerate(names):
        near = dict((a, [o.lab(a) for o in xs]) for a in range(2)) if xs else None
        xs.append(G.larry(nm, 2, G.dt('d%d' % i, 'fi'), near=near, cap=5))
    r = G.call('flarry.stack', mode, kw=dict(zip(names, xs)))
    labs = []
    for a in range(2):
        s = G.sorted_set(xs[0].lab(a))
        for x in xs[1:]:
            s = G.union(s, x.lab(a)) if mode == 'union' else G.inter(s, x.lab(a))
        labs.append(s)
    order = sorted(range(len(names)), key=lambda i: names[i])

    def cell(idx):
        def one(x):
            return G.ite(all_in(G, x, labs, idx[1:]), lambda: x.cell(pos_in(G, x, labs, idx[1:])), lambda: G.marker('f'))
        return G.select(idx[0], [lambda x=xs[k]: one(x) for k in order])
    G.is_larry(r, [G.list_seq([names[k] for k in order])] + labs, cell, dt='f')


@contract('C07')
def stack_bad(G):
    x = G.larry('x', 2, 'f', cap=3)
    how = G.pick('how', ['mode', 'ndim'])
    if how == 'mode':
        G.call('flarry.stack', 'both', kw={'x': x}, raises=[(ValueError, True)])
    else:
        y = G.larry('y', G.pick('nd', [1, 3]), 'f', cap=3)
        G.call('flarry.stack', 'union', kw={'x': x, 'y': y}, raises=[(ValueError, True)])
