from contracts.base import *

KINDS = ['int', 'slice', 'list', 'array', 'bool', 'larry']


def element(G, kind, x, a, name):
    """An index element for axis a: (argument, Seq of positions or None for an
    integer, position, error condition, repeats condition)."""
    n = x.n(a)
    if kind == 'int':
        i = G.int(name, -n - 2, n + 1)
        bad = G.Or(i < -n, i >= n)
        return i, None, G.ite(i < 0, lambda: i + n, lambda: i), bad, False
    if kind == 'slice':
        s, ps = a_slice(G, n, name)
        return s, ps, None, False, False
    if kind in ('list', 'array'):
        k = G.size(name + '.k', cap=6)
        if kind == 'array':
            arr = G.intarray(name, k, -n - 1, n)
            L = arr
            get = lambda j: arr.cell([j])
        else:
            L = G.intlist(name, k, -n - 1, n)
            get = lambda j: L.get(j)
        bad = G.any(k, lambda j: G.Or(get(j) < -n, get(j) >= n))
        ps = G.seq(k, lambda j: G.ite(get(j) < 0, lambda: get(j) + n, lambda: get(j)))
        rep = G.And(G.Not(bad), G.lazy(lambda: G.Not(G.uniq(ps))))
        return L, ps, None, bad, rep
    if kind == 'bool':
        b = G.array(name, [n], 'b')
        return b, G.filt(n, lambda i: G.truth(b.cell([i]))), None, False, False
    if kind == 'larry':
        b = G.larry(name, 1, 'b', labels={0: x.lab(a)})
        return b, G.filt(n, lambda i: G.truth(b.cell([i]))), None, False, False


def a_slice(G, n, name):
    start = G.int(name + '.start', -n - 2, n + 2) if G.flag(name + '.hasstart') else None
    stop = G.int(name + '.stop', -n - 2, n + 2) if G.flag(name + '.hasstop') else None
    step = G.pick(name + '.step', [None, 1, 2, -1, 3, -2])
    return slice(start, stop, step), G.slice_pos(n, start, stop, step)


def resolve(G, x, els):
    "els: one entry per axis; gives (labels of the result, cell function, all integers?)"
    labs, keep = [], []
    for a, e in enumerate(els):
        if e[2] is None:
            ps = e[1]
            labs.append(G.seq(ps.n, lambda i, ps=ps, a=a: x.lab(a).get(ps.get(i))))
            keep.append(a)

    def source(idx):
        full = []
        k = 0
        for a, e in enumerate(els):
            if e[2] is None:
                full.append(e[1].get(idx[k]))
                k += 1
            else:
                full.append(e[2])
        return full
    return labs, source, len(keep) == 0


@contract('C08', weight=2)
def getitem_single(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    kind = G.pick('kind', KINDS)
    e = element(G, kind, x, 0, 'i')
    rest = [(None, G.seq(x.n(a), lambda i: i), None, False, False) for a in range(1, nd)]
    labs, source, scalar = resolve(G, x, [e] + rest)
    r = G.call('op.getitem', x, e[0], raises=[(IndexError, e[3]), ((IndexError, ValueError), e[4])])
    if scalar:
        G.is_scalar(r, x.cell(source([])))
    else:
        G.is_larry(r, labs, lambda idx: x.cell(source(idx)), fresh=False, freshlabel=False)


@contract('C08', weight=4)
def getitem_tuple(G):
    "a tuple of integers, slices and at most one sequence"
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    k = G.pick('k', list(range(1, nd + 1)))
    seqax = G.pick('seqax', list(range(nd)) + [None])
    els = []
    for a in range(nd):
        if a >= k:
            els.append((None, G.seq(x.n(a), lambda i: i), None, False, False))
            continue
        kind = G.pick('kind%d' % a, ['list', 'array', 'bool', 'larry']) if a == seqax else G.pick('kind%d' % a, ['int', 'slice'])
        els.append(element(G, kind, x, a, 'i%d' % a))
    G.assume(k == nd or any(e[2] is None for e in els[:k]))
    labs, source, scalar = resolve(G, x, els)
    bad = G.Or(*[e[3] for e in els])
    rep = G.Or(*[e[4] for e in els])
    r = G.call('op.getitem', x, tuple(e[0] for e in els[:k]), raises=[(IndexError, bad), ((IndexError, ValueError), rep)])
    if scalar:
        G.is_scalar(r, x.cell(source([])))
    else:
        G.is_larry(r, labs, lambda idx: x.cell(source(idx)), fresh=False, freshlabel=False)


@contract('C08')
def getitem_misaligned(G):
    "a bool larry index must have the labels of the axis, be 1d and bool"
    nd = G.ndim(1, 2)
    x = G.larry('x', nd, 'f', cap=4)
    how = G.pick('how', ['labels', 'dtype', 'ndim'])
    tup = G.flag('tuple')
    if how == 'labels':
        b = G.larry('b', 1, 'b', near={0: [x.lab(0)]})
        G.assume(G.Not(G.seq_eq(b.lab(0), x.lab(0))))
    elif how == 'dtype':
        b = G.larry('b', 1, G.pick('bd', ['f', 'i']), labels={0: x.lab(0)})
    else:
        b = G.larry('b', 2, 'b', labels={0: x.lab(0)}, cap=3)
    G.call('op.getitem', x, (b,) if tup else b, raises=[(IndexError, True)])


@contract('C08')
def getitem_bad(G):
    nd = G.ndim(1, 2)
    x = G.larry('x', nd, 'f', cap=4)
    bad = G.pick('bad', ['a', None])
    G.call('op.getitem', x, bad, raises=[(IndexError, True)])


@contract('C08', weight=2)
def take(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    a = norm(ax, nd)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    e = element(G, G.pick('kind', ['list', 'array']), x, a, 'i')
    r = G.call('larry.take', x, e[0], ax, raises=[(IndexError, e[3]), (IndexError, e[4])])
    els = [e if b == a else (None, G.seq(x.n(b), lambda i: i), None, False, False) for b in range(nd)]
    labs, source, scalar = resolve(G, x, els)
    G.is_larry(r, labs, lambda idx: x.cell(source(idx)), dt=x.dt)
