from contracts.base import *


@contract('C11')
def transpose(G):
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    r = G.call('larry.T', x)
    G.is_larry(r, labs_of(x)[::-1], lambda idx: x.cell(idx[::-1]), dt=x.dt)


@contract('C11', weight=2)
def swapaxes(G):
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    a1, a2 = G.axis(nd, name='axis1'), G.axis(nd, name='axis2')
    r = G.call('larry.swapaxes', x, a1, a2)
    perm = list(range(nd))
    i, j = norm(a1, nd), norm(a2, nd)
    perm[i], perm[j] = perm[j], perm[i]
    G.is_larry(r, [x.lab(p) for p in perm], lambda idx: x.cell([idx[p] for p in perm]), dt=x.dt)


def flipped(G, x, axes):
    labs = labs_of(x)
    for a in axes:
        labs[a] = G.seq(x.n(a), lambda i, a=a: x.lab(a).get(x.n(a) - 1 - i))
    return labs, lambda idx: x.cell([x.n(a) - 1 - i if a in axes else i for a, i in enumerate(idx)])


@contract('C11', weight=2)
def flipaxis(G):
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    ax = G.axis(nd, none=True)
    axes = list(range(nd)) if ax is None else [norm(ax, nd)]
    if ax is None and G.flag('default'):
        r = G.call('larry.flipaxis', x)
    else:
        r = G.call('larry.flipaxis', x, ax)
    labs, cell = flipped(G, x, axes)
    G.is_larry(r, labs, cell, dt=x.dt)


@contract('C11')
def flipaxis_inplace(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fo'))
    ax = G.axis(nd, none=True)
    axes = list(range(nd)) if ax is None else [norm(ax, nd)]
    r = G.call('larry.flipaxis', x, ax, False, modifies=[x])
    labs, cell = flipped(G, x, axes)
    G.is_larry(r, labs, cell, dt=x.dt, fresh=False, freshlabel=False)
    G.is_larry(x.obj, labs, cell, dt=x.dt, fresh=False, freshlabel=False, name='self')


@contract('C11', weight=2)
def sortaxis(G):
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    ax = G.axis(nd, none=True)
    axes = list(range(nd)) if ax is None else [norm(ax, nd)]
    how = G.pick('how', ['default', False, True])
    if how == 'default':
        r = G.call('larry.sortaxis', x, ax)
    else:
        r = G.call('larry.sortaxis', x, ax, how)
    labs = labs_of(x)
    for a in axes:
        labs[a] = G.sorted(x.lab(a), reverse=(how is True))
    G.is_larry(r, labs, lambda idx: x.cell(pos_in(G, x, labs, idx)), dt=x.dt)


@contract('C11', weight=2)
def squeeze(G):
    nd = G.ndim(1, 4)
    dt = G.dt('dt', 'fo')
    one = [G.flag('one%d' % a) for a in range(nd)]
    G.assume(not all(one))
    labels = dict((a, G.list_seq([7])) for a in range(nd) if one[a])
    x = G.larry('x', nd, dt, labels=labels, cap=6)
    for a in range(nd):
        if not one[a]:
            G.assume(G.Not(G.eq(x.n(a), 1)))
    r = G.call('larry.squeeze', x)
    keep = [a for a in range(nd) if not one[a]]

    def cell(idx):
        full = [0] * nd
        for k, a in enumerate(keep):
            full[a] = idx[k]
        return x.cell(full)
    G.is_larry(r, [x.lab(a) for a in keep], cell, dt=dt, fresh=False, freshlabel=False)


@contract('C11')
def insertaxis(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    ax = G.pick('axis', list(range(-nd - 1, nd + 1)))
    lab = G.pick('label', ['new', 3])
    r = G.call('larry.insertaxis', x, ax, lab)
    a = ax + nd + 1 if ax < 0 else ax
    labs = labs_of(x)
    labs.insert(a, G.list_seq([lab]))
    G.is_larry(r, labs, lambda idx: x.cell(idx[:a] + idx[a + 1:]), dt=x.dt)


@contract('C11')
def insertaxis_none(G):
    x = G.larry('x', 1, 'f', cap=3)
    G.call('larry.insertaxis', x, None, 'a', raises=[(ValueError, True)])


@contract('C11', weight=2)
def lag(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    ax = G.axis(nd)
    a = norm(ax, nd)
    k = G.int('nlag', -8, 8)
    if ax == -1 and G.flag('default'):
        r = G.call('larry.lag', x, k)
    else:
        r = G.call('larry.lag', x, k, ax)
    n = x.n(a)
    m = G.max(0, n - G.max(k, -k))
    off, src = G.max(0, k), G.max(0, -k)
    labs = replace_at(labs_of(x), a, G.seq(m, lambda i: x.lab(a).get(i + off)))
    G.is_larry(r, labs, lambda idx: x.cell(replace_at(idx, a, idx[a] + src)), dt=x.dt)


@contract('C11')
def lag_none(G):
    x = G.larry('x', 1, 'f', cap=3)
    G.call('larry.lag', x, 1, None, raises=[(IndexError, True)])


@contract('C11')
def sortby(G):
    G.allow_inf = True
    x = G.larry('x', 2, G.dt('dt', 'fi'), minsize=1)
    ax = G.axis(2)
    a = norm(ax, 2)
    v = G.label('element', x.lab(a))
    rev = G.pick('reverse', ['default', False, True])
    bad = G.Not(G.isin(x.lab(a), v))
    args = (x, v, ax) if rev == 'default' else (x, v, ax, rev)
    r = G.call('flarry.sortby', *args, raises=[(IndexError, bad)])
    o = 1 - a
    R = G.view(r)
    other = R.lab(o)
    G.check('as many labels as before', G.eq(R.n(o), x.n(o)))
    G.check('no label twice', G.uniq(other))
    G.check('only labels of before', G.all(x.n(o), lambda i: G.isin(x.lab(o), other.get(i))))
    labs = replace_at(labs_of(x), o, other)
    G.is_larry(r, labs, lambda idx: x.cell(pos_in(G, x, labs, idx)), dt=x.dt, fresh=None)
    k = G.index(x.lab(a), v)
    at = lambda i: R.cell([k, i] if a == 0 else [i, k])

    def in_order(i, j):
        p, q = (at(j), at(i)) if rev is True else (at(i), at(j))
        return G.Or(G.Not(G.lt(i, j)), G.And(G.Not(G.lt(q, p)), G.Or(G.Not(G.isnan(p)), G.isnan(q))))
    G.check('the named line is sorted', G.all(x.n(o), lambda i: G.all(x.n(o), lambda j: in_order(i, j))))


@contract('C11')
def sortby_bad(G):
    how = G.pick('how', ['ndim', 'axis', 'empty'])
    if how == 'ndim':
        x = G.larry('x', G.pick('nd', [1, 3]), 'f', cap=3)
        G.call('flarry.sortby', x, 1, 0, raises=[(ValueError, True)])
    elif how == 'axis':
        x = G.larry('x', 2, 'f', cap=3, minsize=1)
        G.call('flarry.sortby', x, x.lab(0).get(0), G.pick('ax', [2, -3]), raises=[((ValueError, IndexError), True)])
    else:
        x = G.larry('x', 2, 'f', cap=3, labels={1: G.list_seq([])}, minsize=1)
        r = G.call('flarry.sortby', x, x.lab(0).get(0), 0)
        G.is_larry(r, labs_of(x), lambda idx: x.cell(idx))
