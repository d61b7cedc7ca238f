from contracts.base import *


@contract('C25', weight=3)
def correlation(G):
    G.allow_inf = False
    nd = G.ndim(1, 3)
    shape = [G.size('n%d' % a, cap=6) for a in range(nd)]
    x = G.array('x', shape, G.dt('dx', 'fi'))
    y = G.array('y', shape, G.dt('dy', 'fi'))
    ax = G.axis(nd, none=True)
    G.assume(all_index(G, shape, lambda idx: G.And(G.Not(G.isinf(x.cell(idx))), G.Not(G.isinf(y.cell(idx))))))
    gap = any_index(G, shape, lambda idx: G.Or(G.isnan(x.cell(idx)), G.isnan(y.cell(idx))))
    if ax is None and G.flag('default'):
        r = G.call('fmisc.correlation', x, y)
    else:
        r = G.call('fmisc.correlation', x, y, ax)
    gap = G.branch(gap)
    if ax is None:
        G.is_scalar(r, G.corr(shape, x.cell, y.cell, gap, True), approx=True)
        return
    a = norm(ax, nd)
    line = lambda idx: G.corr([shape[a]], lambda k: x.cell(idx[:a] + [k[0]] + idx[a:]), lambda k: y.cell(idx[:a] + [k[0]] + idx[a:]), gap, False)
    if nd == 1:
        G.is_scalar(r, line([]), approx=True)
    else:
        G.is_array(r, shape[:a] + shape[a + 1:], line, approx=True)


@contract('C25')
def unique(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fibs'))
    G.assume(all_index(G, [x.n(a) for a in range(nd)], lambda idx: G.Not(G.missing(x.cell(idx), 'f') if x.dt == 'f' else False)))
    index, inverse = G.flag('index'), G.flag('inverse')
    if not index and not inverse and G.flag('default'):
        r = G.call('flarry.unique', x)
    elif G.flag('named'):
        r = G.call('flarry.unique', x, kw={'return_index': index, 'return_inverse': inverse})
    else:
        r = G.call('flarry.unique', x, index, inverse)
    G.is_unique(r, x, index, inverse)
