from contracts.base import *

FNS = {'sum': 'nansum', 'mean': 'nanmean', 'median': 'nanmedian', 'max': 'nanmax', 'min': 'nanmin', 'std': 'nanstd', 'var': 'nanvar',
       'any': 'any', 'all': 'all', 'prod': 'nanprod'}


def reduced(G, fn, red, dts, kw, empty=float('nan'), call=None):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', dts))
    ax = G.axis(nd, none=True)
    if x.dt == 'i' and kw.get('ddof'):        # bottleneck divides by zero
        G.assume(G.Not(G.eq(x.n(norm(ax, nd)), 1)) if ax is not None else G.Or(*[G.Not(G.eq(x.n(a), 1)) for a in range(nd)]))
    if ax is None and G.flag('default'):
        r = G.call('larry.' + fn, x, kw=kw)
    else:
        r = G.call('larry.' + fn, x, ax, kw=kw)
    none = G.branch(G.Or(*[G.eq(x.n(a), 0) for a in range(nd)]))
    if ax is None:
        G.is_scalar(r, empty if none else G.redall(red, x, **kw))
        return
    a = norm(ax, nd)

    def cell(idx):
        if none:
            return empty
        return G.red(red, x.n(a), lambda i: x.cell(idx[:a] + [i] + idx[a:]), **kw)
    if nd == 1:
        G.is_scalar(r, cell([]))
    else:
        labs = labs_of(x)
        labs.pop(a)
        G.is_larry(r, labs, cell)


@contract('C14', weight=3)
def reduce(G):
    fn = G.pick('fn', ['sum', 'mean', 'median', 'max', 'min'])
    reduced(G, fn, FNS[fn], 'fi', {})


@contract('C14', weight=2)
def reduce_ddof(G):
    fn = G.pick('fn', ['std', 'var'])
    reduced(G, fn, FNS[fn], 'fi', G.pick('ddof', [{}, {'ddof': 0}, {'ddof': 1}]))


@contract('C14', weight=2)
def prod(G):
    reduced(G, 'prod', 'nanprod', 'fi', {})


@contract('C14', weight=2)
def any_all(G):
    fn = G.pick('fn', ['any', 'all'])
    reduced(G, fn, fn, 'fib', {}, empty=(fn == 'all'))


@contract('C14', weight=2)
def geometric_mean(G):
    nd = G.ndim(1, 3)
    G.positive = G.flag('positive')
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd, none=True)
    check = G.pick('check', [None, True, False])
    kw = {} if check is None else {'check_for_greater_than_zero': check}
    none = G.Or(*[G.eq(x.n(a), 0) for a in range(nd)])
    bad = False if check is False else G.And(G.Not(none), any_index(G, [x.n(a) for a in range(nd)], lambda idx: G.truth(G.op('le', x.cell(idx), 0.0))))
    r = G.call('larry.geometric_mean', x, ax, kw=kw, raises=[(ValueError, bad)])
    none = G.branch(none)

    # the exponential of the mean logarithm of the cells that are not missing
    def gm(total, count):
        return G.ite(G.eq(count, 0), lambda: G.marker('f'), lambda: G.uop('exp', G.op('mul', G.op('div', G.tofloat(1), G.tofloat(count)), total)))
    logof = lambda v: G.uop('log', G.ite(G.isnan(v), lambda: G.tofloat(1), lambda: v))
    if ax is None:
        shape = [x.n(a) for a in range(nd)]
        G.is_scalar(r, G.marker('f') if none else gm(G.sum_all(shape, lambda idx: logof(x.cell(idx))), G.count_all(shape, lambda idx: G.Not(G.isnan(x.cell(idx))))), approx=True)
        return
    a = norm(ax, nd)

    def cell(idx):
        if none:
            return G.marker('f')
        at = lambda i: x.cell(idx[:a] + [i] + idx[a:])
        return gm(G.red('sum', x.n(a), lambda i: logof(at(i))), G.count_all([x.n(a)], lambda k: G.Not(G.isnan(at(k[0])))))
    if nd == 1:
        G.is_scalar(r, cell([]), approx=True)
    else:
        labs = labs_of(x)
        labs.pop(a)
        G.is_larry(r, labs, cell, approx=True)


@contract('C14')
def cov(G):
    G.allow_inf = False
    x = G.larry('x', 2, G.dt('dt', 'fi'), cap=6)
    G.assume(all_index(G, [x.n(0), x.n(1)], lambda idx: G.Not(G.isinf(x.cell(idx)))))
    n = x.n(1)
    here = lambda v: G.Not(G.isnan(v))
    both = lambda i, j: G.count_all([n], lambda k: G.And(here(x.cell([i, k[0]])), here(x.cell([j, k[0]]))))
    few = any_index(G, [x.n(0), x.n(0)], lambda ij: both(ij[0], ij[1]) < 2)
    r = G.call('flarry.cov', x, raises=[(ValueError, few)])
    z = lambda v: v if x.dt == 'i' else G.ite(G.isnan(v), lambda: G.tofloat(0), lambda: v)

    def cell(idx):
        i, j = idx
        return G.op('div', G.tofloat(G.red('sum', n, lambda k: G.op('mul', z(x.cell([i, k])), z(x.cell([j, k]))))), G.tofloat(both(i, j)))
    G.is_larry(r, [x.lab(0), x.lab(0)], cell, approx=True, dt='f')


@contract('C14')
def cov_bad(G):
    x = G.larry('x', G.pick('nd', [1, 3]), 'f', cap=3)
    G.call('flarry.cov', x, raises=[(ValueError, True)])
