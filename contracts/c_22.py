from contracts.base import *

NFN = {'demean': 'nanmean', 'demedian': 'nanmedian'}


@contract('C22', weight=3)
def demean(G):
    fn = G.pick('fn', sorted(NFN))
    G.allow_inf = False
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd, none=True)
    if ax is None and G.flag('default'):
        r = G.call('larry.' + fn, x)
    else:
        r = G.call('larry.' + fn, x, ax)
    G.is_larry(r, labs_of(x), lambda idx: G.op('sub', x.cell(idx), stat_of(G, x, ax, NFN[fn], idx)), dt='f', approx=True)


def stat_of(G, x, ax, red, idx):
    if ax is None:
        return G.redall(red, x)
    a = norm(ax, x.nd)
    return G.red(red, x.n(a), lambda j: x.cell(idx[:a] + [j] + idx[a + 1:]))


@contract('C22', weight=2)
def zscore(G):
    G.allow_inf = False
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd, none=True)
    if ax is None and G.flag('default'):
        r = G.call('larry.zscore', x)
    else:
        r = G.call('larry.zscore', x, ax)

    def cell(idx):
        if ax is None:
            return G.redall('zscoreof', x, v=x.cell(idx))
        a = norm(ax, nd)
        return G.red('zscoreof', x.n(a), lambda j: x.cell(idx[:a] + [j] + idx[a + 1:]), v=x.cell(idx))
    G.is_larry(r, labs_of(x), cell, dt='f', approx='zscore')


@contract('C22', weight=3)
def ranking(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd, none=True)
    nrm = G.pick('norm', [None, '-1,1', '0,N-1', 'gaussian', 'other'])
    kw = {} if nrm is None else {'norm': nrm}
    if ax == 0 and G.flag('default'):
        r = G.call('larry.ranking', x, kw=kw, raises=[(ValueError, nrm == 'other')])
    else:
        r = G.call('larry.ranking', x, ax, kw=kw, raises=[(ValueError, nrm == 'other')])

    def cell(idx):
        if ax is None:
            at = G.flatpos([x.n(k) for k in range(nd)], idx)
            return G.redall('ranked', x, at=at, norm=nrm or '-1,1')
        a = norm(ax, nd)
        return G.red('ranked', x.n(a), lambda j: x.cell(idx[:a] + [j] + idx[a + 1:]), at=idx[a], norm=nrm or '-1,1')
    G.is_larry(r, labs_of(x), cell, dt='f', approx=True)


@contract('C22', weight=2)
def lastrank(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    G.assume(G.all_finite_or_nan(x))
    ax = G.axis(nd)
    a = norm(ax, nd)
    decay = G.pick('decay', [None, 0, 0.5, 2.0, -0.1])
    kw = {} if decay is None else {'decay': decay}
    none = G.branch(G.Or(*[G.eq(x.n(k), 0) for k in range(nd)]))
    neg = decay is not None and decay < 0 and not none
    if ax == -1 and G.flag('default'):
        r = G.call('larry.lastrank', x, kw=kw, raises=[(ValueError, neg)])
    else:
        r = G.call('larry.lastrank', x, ax, kw=kw, raises=[(ValueError, neg)])

    def cell(idx):
        if none:
            return float('nan')
        return G.red('lastrank', x.n(a), lambda i: x.cell(idx[:a] + [i] + idx[a:]), decay=decay or 0)
    if nd == 1:
        G.is_scalar(r, cell([]), approx=True)
    else:
        labs = labs_of(x)
        labs.pop(a)
        G.is_larry(r, labs, cell, approx=True)


@contract('C22', weight=2)
def quantile(G):
    G.allow_inf = False
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd, none=True)
    q = G.pick('q', [2, 3, 4, 1, 0, 5, -1, 7, 12])
    size = 1
    for k in range(nd):
        size = size * x.n(k)
    n = size if ax is None else x.n(norm(ax, nd))
    G.assume(size > 0)
    bad = G.Or(q < 1, G.And(q > 1, n < q))
    if ax == 0 and G.flag('default'):
        r = G.call('larry.quantile', x, q, raises=[(ValueError, bad)])
    else:
        r = G.call('larry.quantile', x, q, ax, raises=[(ValueError, bad)])

    def cell(idx):
        if ax is None:
            at = G.flatpos([x.n(k) for k in range(nd)], idx)
            return G.redall('binned', x, at=at, q=q)
        a = norm(ax, nd)
        return G.red('binned', x.n(a), lambda j: x.cell(idx[:a] + [j] + idx[a + 1:]), at=idx[a], q=q)
    G.is_larry(r, labs_of(x), cell, dt='f', approx='alternatives')
