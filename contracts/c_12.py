from contracts.base import *
import itertools

WHY = 'the axes of the result are recovered from the label tuples'


def numbered(G, x, order='C'):
    "number of cells, and the index tuple of the cell with a given number"
    shape = [x.n(a) for a in range(x.nd)]
    if order == 'F':
        return G.flat_size(shape[::-1]), lambda p: G.digits(shape[::-1], p)[::-1]
    return G.flat_size(shape), lambda p: G.digits(shape, p)


def labels_at(x, idx):
    return tuple([x.lab(a).get(i) for a, i in enumerate(idx)])


@contract('C12')
def flatten(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'), cap=6)
    order = G.pick('order', ['default', 'C', 'F'])
    r = G.call('larry.flatten', x) if order == 'default' else G.call('larry.flatten', x, order)
    n, at = numbered(G, x, 'F' if order == 'F' else 'C')
    G.is_larry(r, [G.seq(n, lambda p: labels_at(x, at(p)))], lambda idx: x.cell(at(idx[0])), dt=x.dt)


@contract('C12')
def flatten_bad(G):
    x = G.larry('x', 2, 'f', cap=3)
    G.call('larry.flatten', x, G.pick('order', ['A', 'c', None]), raises=[(ValueError, True)])


@contract('C12')
def totuples(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'), cap=6)
    r = G.call('larry.totuples', x)
    n, at = numbered(G, x)
    G.is_list(r, G.seq(n, lambda p: labels_at(x, at(p)) + (x.cell(at(p)),)))


@contract('C12')
def tolist(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'), cap=6)
    r = G.call('larry.tolist', x)
    vals, labs = G.unpack(r, 2)
    n, at = numbered(G, x)
    G.is_list(vals, G.seq(n, lambda p: x.cell(at(p))), name='values')
    G.is_list(labs, G.seq(n, lambda p: labels_at(x, at(p))), name='labels')


@contract('C12')
def todict(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'), cap=6)
    r = G.call('larry.todict', x)
    n, at = numbered(G, x)
    G.is_dict(r, G.seq(n, lambda p: labels_at(x, at(p))), G.seq(n, lambda p: x.cell(at(p))))


@contract('C12')
def panel(G):
    x = G.larry('x', 3, G.dt('dt', 'fio'), cap=5)
    r = G.call('flarry.panel', x)
    n = [x.n(1), x.n(2)]
    at = lambda p: G.digits(n, p)
    rows = G.seq(G.flat_size(n), lambda p: tuple([x.lab(a + 1).get(i) for a, i in enumerate(at(p))]))
    G.is_larry(r, [rows, x.lab(0)], lambda idx: x.cell([idx[1]] + list(at(idx[0]))), dt=x.dt)


@contract('C12')
def panel_bad(G):
    x = G.larry('x', G.pick('nd', [1, 2]), 'f', cap=3)
    G.call('flarry.panel', x, raises=[(ValueError, True)])


def check_rebuilt(G, r, t, nd):
    "every given cell under its labels, NaN elsewhere, labels sorted"
    if G.branch(G.eq(t.n, 0)):
        G.is_larry(r, [G.list_seq([])], None, fresh=None)
        return
    labs = [G.sorted_set(c) for c in t.cols]

    def cell(idx):
        there, k = G.find(t, [s.get(i) for s, i in zip(labs, idx)])
        return G.ite(there, lambda: G.tofloat(t.vals.get(k)), lambda: float('nan'))
    G.is_larry(r, labs, cell, dt='f', fresh=None)


@contract('C12', weight=2)
def fromtuples(G):
    nd = G.ndim(1, 3)
    t = G.table(nd, G.dt('dt', 'fi'), repeats=G.flag('repeats'))     # (then the last value counts)
    L = G.listed('data', G.seq(t.n, lambda k: t.tups.get(k) + (t.vals.get(k),)))
    check_rebuilt(G, G.call('larry.fromtuples', L), t, nd)


@contract('C12', weight=2)
def fromlist(G):
    nd = G.ndim(1, 3)
    t = G.table(nd, G.dt('dt', 'fi'), repeats=G.flag('repeats'))     # (then the last value counts)
    L = G.listed('data', [t.vals, t.tups])
    check_rebuilt(G, G.call('larry.fromlist', L), t, nd)


@contract('C12')
def fromlist_empty(G):
    G.is_larry(G.call(G.pick('fn', ['larry.fromlist', 'larry.fromtuples']), []), [G.list_seq([])], None, fresh=None)


@contract('C12', weight=2)
def fromdict(G):
    nd = G.ndim(1, 3)
    t = G.table(nd, G.dt('dt', 'fi'))
    D = G.mkdict('data', t.tups, t.vals)
    check_rebuilt(G, G.call('larry.fromdict', D), t, nd)


@contract('C12', weight=2)
def unflatten(G):
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'fi')
    t = G.table(nd, dt)
    x = G.tuple_larry('x', t, dt)
    check_rebuilt(G, G.call('larry.unflatten', x), t, nd)


@contract('C12')
def unflatten_bad(G):
    x = G.larry('x', G.pick('nd', [2, 3]), 'f', cap=3)
    G.call('larry.unflatten', x, raises=[(ValueError, True)])


@contract('C12', weight=2)
def roundtrip(G):
    "X.toY().fromY() is X with its axes sorted"
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'), cap=5, minsize=1)
    how = G.pick('how', ['tuples', 'list', 'dict', 'flatten'])
    there, back = {'flatten': ('flatten', 'unflatten')}.get(how, ('to' + how, 'from' + how))
    mid = G.call('larry.' + there, x)
    order, place = G.key_order(mid) if how == 'dict' else (lambda k: k,) * 2
    r = G.call('larry.' + back, mid)
    shape = [x.n(a) for a in range(nd)]
    n, at = numbered(G, x)
    for a in range(nd):
        G.same_set('the labels of axis %d' % a, G.seq(n, lambda k: x.lab(a).get(at(order(k))[a])), x.lab(a),
                   lambda j: place(G.number(shape, [j if b == a else 0 for b in range(nd)])))
    labs = [G.sorted(x.lab(a)) for a in range(nd)]

    def cell(idx):
        pos = pos_in(G, x, labs, idx)
        for a, i in enumerate(at(order(place(G.number(shape, pos))))):
            G.fact('its cell in the list, axis %d' % a, G.And(G.eq(i, pos[a]), G.eq(x.lab(a).get(i), labs[a].get(idx[a]))))
        return G.tofloat(x.cell(pos))
    G.is_larry(r, labs, cell, dt='f', fresh=None)
