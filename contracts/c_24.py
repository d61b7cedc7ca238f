from contracts.base import *


def is_perm(xs, ys):
    xs, ys = list(xs), list(ys)
    for z in xs:
        if z in ys:
            ys.remove(z)
        else:
            return False
    return not ys


@contract('C24', weight=2, proved_by='shuffle_spec')
def shuffle(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fis'))
    ax = G.axis(nd, none=True, neg=False)
    if ax == 0 and G.flag('default'):
        r = G.call('larry.shuffle', x, modifies=[x])
    else:
        r = G.call('larry.shuffle', x, ax, modifies=[x])
    G.check('nothing is returned', r is None)
    o = x.obj
    G.check('labels are kept', [list(z) for z in o.label] == x.label and o.x.shape == x.x.shape and o.x.dtype == x.x.dtype)
    axes = range(nd) if ax is None else [ax]
    import numpy as np
    key = lambda arr, a, i: tuple(repr(z) for z in np.rollaxis(arr, a)[i].ravel().tolist()) if nd > 1 else repr(arr.tolist()[i])
    if len(axes) == 1:
        a = axes[0]
        G.check('whole slices are permuted', is_perm([key(x.x, a, i) for i in range(x.n(a))], [key(o.x, a, i) for i in range(x.n(a))]))
    else:
        G.check('cells are permuted', sorted(map(repr, x.x.ravel().tolist())) == sorted(map(repr, o.x.ravel().tolist())))
        # whole slices along every axis: the multiset of slices, seen as multisets
        for a in axes:
            bag = lambda arr, i: sorted(map(repr, np.rollaxis(arr, a)[i].ravel().tolist())) if nd > 1 else [repr(arr.tolist()[i])]
            G.check('slices along axis %d stay together' % a, is_perm([bag(x.x, i) for i in range(x.n(a))], [bag(o.x, i) for i in range(x.n(a))]))


@contract('C24', weight=2, proved_by='shufflelabel_spec')
def shufflelabel(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fis'))
    ax = G.axis(nd, none=True)
    if ax == 0 and G.flag('default'):
        r = G.call('larry.shufflelabel', x, modifies=[x])
    else:
        r = G.call('larry.shufflelabel', x, ax, modifies=[x])
    G.check('nothing is returned', r is None)
    o = x.obj
    from harness.concrete import same_array
    G.check('data is kept', same_array(x.x, o.x) is None)
    for a in range(nd):
        if ax is None or a == norm(ax, nd):
            G.check('labels of axis %d are permuted' % a, type(o.label[a]) is list and is_perm(x.label[a], o.label[a]))
        else:
            G.check('labels of axis %d are kept' % a, list(o.label[a]) == x.label[a])


# The same statements with the permutation as a witness: the permutation is whatever numpy.random
# drew, of which only bijectivity is assumed.

@contract('C24', proof_only=True, twin='shuffle')
def shuffle_spec(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fiso'))
    ax = G.axis(nd, none=True)
    if ax == 0 and G.flag('default'):
        r = G.call('larry.shuffle', x, modifies=[x])
    else:
        r = G.call('larry.shuffle', x, ax, modifies=[x])
    G.check('nothing is returned', r is None)
    axes = list(range(nd)) if ax is None else [norm(ax, nd)]
    ps = G.perms([x.n(a) for a in axes])

    def cell(idx):
        idx = list(idx)
        for a, p in zip(axes, ps):
            idx[a] = p(idx[a])
        return x.cell(idx)
    G.is_larry(x.obj, labs_of(x), cell, dt=x.dt, fresh=False, freshlabel=False)


@contract('C24', proof_only=True, twin='shufflelabel')
def shufflelabel_spec(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fiso'))
    ax = G.axis(nd, none=True)
    if ax == 0 and G.flag('default'):
        r = G.call('larry.shufflelabel', x, modifies=[x])
    else:
        r = G.call('larry.shufflelabel', x, ax, modifies=[x])
    G.check('nothing is returned', r is None)
    axes = list(range(nd)) if ax is None else [norm(ax, nd)]
    ps = dict(zip(axes, G.perms([x.n(a) for a in axes])))
    labs = [G.seq(x.n(a), lambda i, a=a: x.lab(a).get(ps[a](i) if a in ps else i)) for a in range(nd)]
    G.is_larry(x.obj, labs, lambda idx: x.cell(idx), dt=x.dt, fresh=False, freshlabel=False)
