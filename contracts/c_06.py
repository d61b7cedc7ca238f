from contracts.base import *


@contract('C06', weight=3)
def merge(G):
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'fibso')
    x = G.larry('x', nd, dt)
    y = G.larry('y', nd, dt, near=dict((a, [x.lab(a)]) for a in range(nd)))
    update = G.flag('update')
    labs = [joined(G, x.lab(a), y.lab(a), 'outer') for a in range(nd)]
    inx = lambda idx: all_in(G, x, labs, idx)
    iny = lambda idx: all_in(G, y, labs, idx)
    cx = lambda idx: x.cell(pos_in(G, x, labs, idx))
    cy = lambda idx: y.cell(pos_in(G, y, labs, idx))
    hasx = lambda idx: G.And(inx(idx), G.lazy(lambda: G.present(cx(idx), dt)))
    hasy = lambda idx: G.And(iny(idx), G.lazy(lambda: G.present(cy(idx), dt)))
    if update:
        clash = False
    else:
        clash = any_index(G, [s.n for s in labs], lambda idx: G.And(hasx(idx), hasy(idx)))
    r = G.call('larry.merge', x, y, update, raises=[(ValueError, clash)])
    d = filled_dt(dt, True)
    G.is_larry(r, labs, lambda idx: G.ite(hasy(idx), lambda: cy(idx), lambda: G.ite(inx(idx), lambda: cx(idx), lambda: G.marker(d))))


@contract('C06')
def merge_disjoint(G):
    "as merge, with inputs that seldom overlap, so that the merged values are seen"
    nd = G.ndim(1, 2)
    dt = G.dt('dt', 'fso')
    x = G.larry('x', nd, dt)
    y = G.larry('y', nd, dt, near=dict((a, [x.lab(a)]) for a in range(nd)), vals=[G.marker(dt)] * 6 + [{'f': 77.0, 's': 'q', 'o': 'q'}[dt]])
    labs = [joined(G, x.lab(a), y.lab(a), 'outer') for a in range(nd)]
    inx = lambda idx: all_in(G, x, labs, idx)
    iny = lambda idx: all_in(G, y, labs, idx)
    cx = lambda idx: x.cell(pos_in(G, x, labs, idx))
    cy = lambda idx: y.cell(pos_in(G, y, labs, idx))
    hasx = lambda idx: G.And(inx(idx), G.lazy(lambda: G.present(cx(idx), dt)))
    hasy = lambda idx: G.And(iny(idx), G.lazy(lambda: G.present(cy(idx), dt)))
    clash = any_index(G, [s.n for s in labs], lambda idx: G.And(hasx(idx), hasy(idx)))
    r = G.call('larry.merge', x, y, raises=[(ValueError, clash)])
    G.is_larry(r, labs, lambda idx: G.ite(hasy(idx), lambda: cy(idx), lambda: G.ite(inx(idx), lambda: cx(idx), lambda: G.marker(dt))))


@contract('C06')
def merge_ndim(G):
    n1 = G.ndim(1, 3, name='n1')
    n2 = G.ndim(1, 3, name='n2')
    G.assume(n1 != n2)
    x = G.larry('x', n1, 'f', cap=3)
    y = G.larry('y', n2, 'f', cap=3)
    G.call('larry.merge', x, y, raises=[(IndexError, True)])
