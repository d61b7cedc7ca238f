from contracts.base import *
from contracts.c_08 import element, resolve
from contracts.c_09 import lix_element, ints_or_nonempty


def addressed(G, els, idx):
    """(condition that the cell idx is addressed, the index of the value for it)"""
    conds, vidx = [], []
    for a, e in enumerate(els):
        if e[2] is None:
            conds.append(G.isin(e[1], idx[a]))
            vidx.append(lambda a=a, e=e: G.index(e[1], idx[a]))
        else:
            conds.append(G.eq(idx[a], e[2]))
    return G.And(*conds), (lambda: [f() for f in vidx])


def post(G, x, els, value):
    "value: function of the index within the addressed block"
    def cell(idx):
        c, vi = addressed(G, els, idx)
        return G.ite(c, lambda: value(vi()), lambda: x.cell(idx))
    G.is_larry(x.obj, labs_of(x), cell, dt=x.dt, fresh=False, freshlabel=False, name='self')


def index_elements(G, x, nd):
    k = G.pick('k', list(range(0, nd + 1)))
    seqax = G.pick('seqax', list(range(nd)) + [None])
    if k == 0:
        e = element(G, G.pick('kind', ['int', 'slice', 'list', 'array', 'bool']), x, 0, 'i')
        arg, els = e[0], [e]
        k = 1
    else:
        els = []
        for a in range(k):
            kind = G.pick('kind%d' % a, ['list', 'array', 'bool']) if a == seqax else G.pick('kind%d' % a, ['int', 'slice'])
            els.append(element(G, kind, x, a, 'i%d' % a))
        arg = tuple(e[0] for e in els)
    els = els + [(None, G.seq(x.n(a), lambda i: i), None, False, False) for a in range(k, nd)]
    return arg, els


def nothing_bad(G, els):
    return G.And(*[G.And(G.Not(e[3]), G.Not(e[4])) for e in els])


@contract('C10', weight=3)
def setitem_scalar(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fo'))
    arg, els = index_elements(G, x, nd)
    G.assume(nothing_bad(G, els))
    v = G.scalar('v', 'f')
    G.call('op.setitem', x, arg, v, modifies=[x])
    post(G, x, els, lambda vi: v)


@contract('C10', weight=2)
def setitem_array(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    arg, els = index_elements(G, x, nd)
    G.assume(nothing_bad(G, els))
    v = G.array('v', [e[1].n for e in els if e[2] is None], 'f')
    G.assume(v.nd > 0)
    G.call('op.setitem', x, arg, v, modifies=[x])
    post(G, x, els, lambda vi: v.cell(vi))


@contract('C10', weight=2)
def setitem_larry(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    arg, els = index_elements(G, x, nd)
    G.assume(nothing_bad(G, els))
    labs, source, scalar = resolve(G, x, els)
    G.assume(not scalar)
    G.assume(not (type(arg) is tuple and all(e[2] is not None for e in els[:len(arg)])))
    v = G.larry('v', len(labs), 'f', near=dict((a, [s]) for a, s in enumerate(labs)))
    same = G.And(*[G.seq_eq(v.lab(a), s) for a, s in enumerate(labs)])
    G.call('op.setitem', x, arg, v, modifies=[x], raises=[(IndexError, G.Not(same))])
    post(G, x, els, lambda vi: v.cell(vi))


@contract('C10')
def setitem_bool_larry(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    b = G.larry('b', nd, 'b', near=dict((a, [x.lab(a)]) for a in range(nd)))
    v = G.scalar('v', 'f')
    same = G.And(*[G.seq_eq(b.lab(a), x.lab(a)) for a in range(nd)])
    G.call('op.setitem', x, b, v, modifies=[x], raises=[(IndexError, G.Not(same))])
    G.is_larry(x.obj, labs_of(x), lambda idx: G.ite(G.truth(b.cell(idx)), lambda: v, lambda: x.cell(idx)), dt='f', fresh=False,
               freshlabel=False, name='self')


@contract('C10')
def set_(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    lab = [G.label('v%d' % a, x.lab(a)) for a in range(nd)]
    v = G.scalar('v', 'f')
    bad = G.Or(*[G.Not(G.isin(x.lab(a), lab[a])) for a in range(nd)])
    G.call('larry.set', x, list(lab), v, modifies=[x], raises=[(IndexError, bad)])
    pos = [G.index(x.lab(a), lab[a]) for a in range(nd)]
    G.is_larry(x.obj, labs_of(x), lambda idx: G.ite(G.And(*[G.eq(i, p) for i, p in zip(idx, pos)]), lambda: v, lambda: x.cell(idx)),
               dt='f', fresh=False, freshlabel=False, name='self')


@contract('C10')
def fill(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    v = G.scalar('v', 'f')
    G.call('larry.fill', x, v, modifies=[x])
    G.is_larry(x.obj, labs_of(x), lambda idx: v, dt='f', fresh=False, freshlabel=False, name='self')


@contract('C10', weight=3)
def lix_set(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f', minsize=1)
    k = G.pick('k', list(range(0, nd + 1)))
    if k == 0:
        e = lix_element(G, G.pick('kind', ['label', 'labels', 'slice', 'int']), x, 0, 'i')
        arg, els = e[0], [e]
    else:
        els = [lix_element(G, G.pick('kind%d' % a, ['label', 'labels', 'slice', 'int']), x, a, 'i%d' % a) for a in range(k)]
        arg = tuple(e[0] for e in els)
    els = els + [(None, G.seq(x.n(a), lambda i: i), None, False, False) for a in range(max(k, 1), nd)]
    bad = G.Or(*[G.Or(e[3], e[4]) for e in els])
    G.assume(ints_or_nonempty(G, els))
    v = G.scalar('v', 'f')
    G.call('lix.set', x, arg, v, modifies=[x], raises=[((IndexError, ValueError), bad)])
    post(G, x, els, lambda vi: v)


@contract('C10', weight=2)
def lix_set_larry(G):
    "the value has every axis, also those of one selected label"
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f', minsize=1)
    k = G.pick('k', list(range(1, nd + 1)))
    els = [lix_element(G, G.pick('kind%d' % a, ['label', 'labels', 'slice', 'int']), x, a, 'i%d' % a) for a in range(k)]
    arg = tuple(e[0] for e in els)
    els = els + [(None, G.seq(x.n(a), lambda i: i), None, False, False) for a in range(k, nd)]
    G.assume(G.Not(G.Or(*[G.Or(e[3], e[4]) for e in els])))
    els = [e if e[2] is None else (None, G.seq(1, lambda i, e=e: e[2]), None, False, False) for e in els]
    labs, source, scalar = resolve(G, x, els)
    v = G.larry('v', nd, 'f', near=dict((a, [s]) for a, s in enumerate(labs)))
    same = G.And(*[G.seq_eq(v.lab(a), s) for a, s in enumerate(labs)])
    G.call('lix.set', x, arg, v, modifies=[x], raises=[(IndexError, G.Not(same))])
    post(G, x, els, lambda vi: v.cell(vi))
