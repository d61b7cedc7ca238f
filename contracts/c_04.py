from contracts.base import *

JOINS = ['inner', 'outer', 'left', 'right']


def pair(G, nd, dts, name='x', name2='y'):
    x = G.larry(name, nd, G.dt('d' + name, dts))
    y = G.larry(name2, nd, G.dt('d' + name2, dts), near=dict((a, [x.lab(a)]) for a in range(nd)))
    return x, y


def joins(G, nd):
    if G.flag('joinlist'):
        how = [G.pick('join%d' % a, JOINS) for a in range(nd)]
        return how, list(how)
    j = G.pick('join', JOINS)
    return [j] * nd, j


def filled(G, x, labs):
    "needs missing markers? (a concrete bool: forks)"
    return G.branch(some_missing(G, x, labs))


@contract('C04', weight=3)
def align(G):
    nd = G.ndim(1, 3)
    x, y = pair(G, nd, 'fibso')
    how, j = joins(G, nd)
    cast = G.flag('cast')
    labs = [joined(G, x.lab(a), y.lab(a), how[a]) for a in range(nd)]
    mx = filled(G, x, labs)
    my = filled(G, y, labs)
    bad = (not cast) and ((mx and x.dt in 'ib') or (my and y.dt in 'ib'))
    r = G.call('flarry.align', x, y, j, cast, raises=[(TypeError, bad)])
    r1, r2 = G.unpack(r, 2)
    d1, d2 = filled_dt(x.dt, mx), filled_dt(y.dt, my)
    G.is_larry(r1, labs, cell_or_missing(G, x, labs, d1) if mx else (lambda idx: x.cell(pos_in(G, x, labs, idx))), dt=d1, name='first')
    G.is_larry(r2, labs, cell_or_missing(G, y, labs, d2) if my else (lambda idx: y.cell(pos_in(G, y, labs, idx))), dt=d2, name='second')


@contract('C04')
def align_default(G):
    nd = G.ndim(1, 3)
    x, y = pair(G, nd, 'fibso')
    labs = [joined(G, x.lab(a), y.lab(a), 'inner') for a in range(nd)]
    r1, r2 = G.unpack(G.call('flarry.align', x, y), 2)
    G.is_larry(r1, labs, lambda idx: x.cell(pos_in(G, x, labs, idx)), dt=x.dt, name='first')
    G.is_larry(r2, labs, lambda idx: y.cell(pos_in(G, y, labs, idx)), dt=y.dt, name='second')


@contract('C04')
def align_ndim(G):
    n1 = G.ndim(1, 3, name='n1')
    n2 = G.ndim(1, 3, name='n2')
    G.assume(n1 != n2)
    x = G.larry('x', n1, 'f', cap=3)
    y = G.larry('y', n2, 'f', cap=3)
    G.call(G.pick('fn', ['flarry.align', 'flarry.add']), x, y, G.pick('join', JOINS), raises=[(ValueError, True)])


@contract('C04')
def align_badjoin(G):
    nd = G.ndim(1, 2)
    x, y = pair(G, nd, 'f')
    how = G.pick('how', ['unknown', 'length', 'type'])
    if how == 'unknown':
        G.call('flarry.align', x, y, 'sideways', raises=[(ValueError, True)])
    elif how == 'length':
        G.call('flarry.align', x, y, ['inner'] * (nd + 1), raises=[(ValueError, True)])
    else:
        G.call('flarry.align', x, y, 3, raises=[(TypeError, True)])


NP = {'flarry.add': 'add', 'flarry.subtract': 'sub', 'flarry.multiply': 'mul', 'flarry.divide': 'div'}


def op_cells(G, opname, x, y, labs, mx, my, one, two):
    d1, d2 = filled_dt(x.dt, mx), filled_dt(y.dt, my)
    cx, cy = cell_or_missing(G, x, labs, 'f'), cell_or_missing(G, y, labs, 'f')

    def cell(idx):
        a = G.tofloat(cx(idx)) if mx else x.cell(pos_in(G, x, labs, idx))
        b = G.tofloat(cy(idx)) if my else y.cell(pos_in(G, y, labs, idx))
        ma, mb = G.missing(a, d1), G.missing(b, d2)
        a2, b2 = a, b
        if one != 'ignore':
            a2 = G.ite(G.And(ma, G.Not(mb)), lambda: one, lambda: a)
            b2 = G.ite(G.And(mb, G.Not(ma)), lambda: one, lambda: b)
        if two != 'ignore':
            a3 = G.ite(G.And(ma, mb), lambda: two, lambda: a2)
            b3 = G.ite(G.And(ma, mb), lambda: two, lambda: b2)
        else:
            a3, b3 = a2, b2
        return G.op(opname, a3, b3)
    return cell


@contract('C04', weight=3)
def add_etc(G):
    fn = G.pick('fn', sorted(NP))
    nd = G.ndim(1, 2)
    x, y = pair(G, nd, 'fi')
    how, j = joins(G, nd)
    one = G.pick('missone', ['ignore', 0.0, 5.0])
    two = G.pick('misstwo', ['ignore', 0.0, 3.0])
    labs = [joined(G, x.lab(a), y.lab(a), how[a]) for a in range(nd)]
    mx, my = filled(G, x, labs), filled(G, y, labs)
    r = G.call(fn, x, y, kw={'join': j, 'missone': one, 'misstwo': two})
    G.is_larry(r, labs, op_cells(G, NP[fn], x, y, labs, mx, my, one, two))


@contract('C04')
def add_nocast(G):
    fn = G.pick('fn', sorted(NP))
    nd = G.ndim(1, 2)
    x, y = pair(G, nd, 'fi')
    how, j = joins(G, nd)
    labs = [joined(G, x.lab(a), y.lab(a), how[a]) for a in range(nd)]
    mx, my = filled(G, x, labs), filled(G, y, labs)
    bad = (mx and x.dt in 'ib') or (my and y.dt in 'ib')
    r = G.call(fn, x, y, j, False, raises=[(TypeError, bad)])
    G.is_larry(r, labs, op_cells(G, NP[fn], x, y, labs, mx, my, 'ignore', 'ignore'))


@contract('C04', weight=2)
def binaryop(G):
    op = G.pick('op', ['add', 'sub', 'mul', 'div', 'lt', 'eq'])
    nd = G.ndim(1, 3)
    x, y = pair(G, nd, 'fi')
    how, j = joins(G, nd)
    one = G.pick('missone', ['ignore', 2.0])
    two = G.pick('misstwo', ['ignore', 0.0])
    labs = [joined(G, x.lab(a), y.lab(a), how[a]) for a in range(nd)]
    mx, my = filled(G, x, labs), filled(G, y, labs)
    r = G.call('flarry.binaryop', G.ufunc(op), x, y, kw={'join': j, 'missone': one, 'misstwo': two})
    G.is_larry(r, labs, op_cells(G, op, x, y, labs, mx, my, one, two))
