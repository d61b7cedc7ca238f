from contracts.base import *
from contracts.c_08 import resolve


def pick_label(G, name, s):
    return G.label(name, s)


def find(G, s, v):
    return G.index(s, v)


@contract('C09')
def get(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    lab = [G.label('v%d' % a, x.lab(a)) for a in range(nd)]
    bad = G.Or(*[G.Not(G.isin(x.lab(a), lab[a])) for a in range(nd)])
    r = G.call('larry.get', x, list(lab), raises=[(IndexError, bad)])
    G.is_scalar(r, x.cell([G.index(x.lab(a), lab[a]) for a in range(nd)]))


@contract('C09')
def get_length(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f', cap=4)
    k = G.pick('k', [0, 1, 2, 3, 4])
    G.assume(k != nd)
    lab = [G.label('v%d' % a, x.lab(min(a, nd - 1))) for a in range(k)]
    fn = G.pick('fn', ['larry.get', 'larry.set'])
    if fn == 'larry.get':
        G.call(fn, x, lab, raises=[(ValueError, True)])
    else:
        G.call(fn, x, lab, 1.0, raises=[(ValueError, True)])


@contract('C09')
def pull(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    a = norm(ax, nd)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    v = G.label('name', x.lab(a))
    r = G.call('larry.pull', x, v, ax, raises=[(IndexError, G.Not(G.isin(x.lab(a), v)))])
    k = G.index(x.lab(a), v)
    if nd == 1:
        G.is_scalar(r, x.cell([k]))
    else:
        labs = labs_of(x)
        labs.pop(a)
        G.is_larry(r, labs, lambda idx: x.cell(idx[:a] + [k] + idx[a:]), fresh=False, freshlabel=False)


@contract('C09')
def axis_none(G):
    nd = G.ndim(1, 2)
    x = G.larry('x', nd, 'f', cap=4)
    v = G.label('name', x.lab(0))
    how = G.pick('how', ['pull', 'labelindex', 'keep_label', 'labelindex_big', 'getlabel_big', 'keep_label_big', 'keep_label_op'])
    if how == 'pull':
        G.call('larry.pull', x, v, None, raises=[(ValueError, True)])
    elif how == 'labelindex':
        G.call('larry.labelindex', x, v, None, raises=[(ValueError, True)])
    elif how == 'keep_label':
        G.call('larry.keep_label', x, '==', v, None, raises=[(ValueError, True)])
    elif how == 'labelindex_big':
        G.call('larry.labelindex', x, v, nd, raises=[(IndexError, True)])
    elif how == 'getlabel_big':
        G.call('larry.getlabel', x, nd, raises=[(IndexError, True)])
    elif how == 'keep_label_big':
        G.call('larry.keep_label', x, '==', v, nd, raises=[(IndexError, True)])
    else:
        G.call('larry.keep_label', x, '=', v, 0, raises=[(ValueError, True)])


@contract('C09', weight=2)
def labelindex(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    a = norm(ax, nd)
    x = G.larry('x', nd, 'f', cap=5)
    v = G.label('name', x.lab(a))
    s = x.lab(a)
    exact = G.pick('exact', [True, False])
    there = G.isin(s, v)
    below = G.filt(s.n, lambda i: G.Not(G.ult(v, s.get(i))))
    if exact:
        bad = G.Not(there)
    else:
        bad = G.And(G.Not(there), G.eq(below.n, 0))
    if exact and G.flag('default'):
        r = G.call('larry.labelindex', x, v, ax, raises=[(IndexError, bad)])
    else:
        r = G.call('larry.labelindex', x, v, ax, exact, raises=[(IndexError, bad)])
    if exact:
        want = G.index(s, v)
    else:
        want = G.ite(there, lambda: G.index(s, v), lambda: below.get(below.n - 1))
    G.is_scalar(r, want)


def lix_element(G, kind, x, a, name):
    "(argument, positions or None, position, missing label?, bad?)"
    n = x.n(a)
    s = x.lab(a)
    if kind == 'int':
        i = G.int(name, -n - 1, n)
        return i, None, G.ite(i < 0, lambda: i + n, lambda: i), False, G.Or(i < -n, i >= n)
    if kind == 'label':
        v = G.label(name, s)
        there = G.isin(s, v)
        return [v], None, G.ite(there, lambda: G.index(s, v), lambda: 0), G.Not(there), False
    if kind == 'labels':
        L = G.labels(name, near=[s], uniq=True)
        G.assume(L.n > 1)
        bad = G.any(L.n, lambda j: G.Not(G.isin(s, L.get(j))))
        ps = G.seq(L.n, lambda j: G.ite(G.isin(s, L.get(j)), lambda: G.index(s, L.get(j)), lambda: 0))
        return L, ps, None, bad, False
    # slice with labels or integers
    bad = False
    ends = []
    pos = []
    for end in ('start', 'stop'):
        how = G.pick(name + '.' + end, ['none', 'label', 'int'])
        if how == 'none':
            ends.append(None)
            pos.append(None)
        elif how == 'label':
            v = G.label(name + '.' + end + '.v', s)
            there = G.isin(s, v)
            bad = G.Or(bad, G.Not(there))
            ends.append([v])
            pos.append(G.ite(there, lambda: G.index(s, v), lambda: 0))
        else:
            i = G.int(name + '.' + end + '.i', -n - 1, n + 1)
            ends.append(i)
            pos.append(i)
    step = G.pick(name + '.step', [None, 1, 2, -1])
    return slice(ends[0], ends[1], step), G.slice_pos(n, pos[0], pos[1], step), None, bad, False


def ints_or_nonempty(G, els):
    "an out of range integer is only detected (by NumPy) if no axis selects nothing"
    return G.Not(G.And(G.Or(*[e[4] for e in els]), G.Or(*[G.eq(e[1].n, 0) for e in els if e[2] is None])))


@contract('C09', weight=2)
def lix_single(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'), minsize=1)
    e = lix_element(G, G.pick('kind', ['label', 'labels', 'slice', 'int']), x, 0, 'i')
    r = G.call('lix.get', x, e[0], raises=[((IndexError, ValueError), e[3]), (IndexError, e[4])])
    els = [e] + [(None, G.seq(x.n(a), lambda i: i), None, False, False) for a in range(1, nd)]
    labs, source, scalar = resolve(G, x, els)
    if scalar:
        G.is_scalar(r, x.cell(source([])))
    else:
        G.is_larry(r, labs, lambda idx: x.cell(source(idx)), fresh=False, freshlabel=False)


@contract('C09', weight=3)
def lix_tuple(G):
    "axes on which exactly one label is selected disappear"
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'), minsize=1)
    k = G.pick('k', list(range(1, nd + 1)))
    els = []
    for a in range(nd):
        if a < k:
            els.append(lix_element(G, G.pick('kind%d' % a, ['label', 'labels', 'slice', 'int']), x, a, 'i%d' % a))
        else:
            els.append((None, G.seq(x.n(a), lambda i: i), None, False, False))
    miss = G.Or(*[e[3] for e in els])
    bad = G.Or(*[e[4] for e in els])
    G.assume(ints_or_nonempty(G, els))
    r = G.call('lix.get', x, tuple(e[0] for e in els[:k]), raises=[((IndexError, ValueError), G.Or(miss, bad))])
    els2 = []
    for e in els:
        if e[2] is None and G.branch(G.eq(e[1].n, 1)):
            els2.append((None, None, e[1].get(0), False, False))
        else:
            els2.append(e)
    labs, source, scalar = resolve(G, x, els2)
    if scalar:
        G.is_scalar(r, x.cell(source([])))
    else:
        G.is_larry(r, labs, lambda idx: x.cell(source(idx)), fresh=False, freshlabel=False)


@contract('C09')
def lix_empty(G):
    nd = G.ndim(2, 3)
    x = G.larry('x', nd, 'f', cap=3)
    G.assume(G.Or(*[G.eq(x.n(a), 0) for a in range(nd)]))
    G.call('lix.get', x, 0, raises=[(ValueError, True)])


@contract('C09', weight=2)
def keep_label(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    a = norm(ax, nd)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    s = x.lab(a)
    op = G.pick('op', ['==', '>', '<', '>=', '<=', '!=', 'in', 'not in'])
    if op in ('in', 'not in'):
        v = G.labels('value', near=[s])
        test = lambda z: G.isin(v.seq, z)
        keep = G.filt(s.n, lambda i: test(s.get(i)) if op == 'in' else G.Not(test(s.get(i))))
    else:
        v = G.label('value', s)
        f = {'==': lambda z: G.eq(z, v), '!=': lambda z: G.Not(G.eq(z, v)), '<': lambda z: G.ult(z, v), '>': lambda z: G.ult(v, z),
             '<=': lambda z: G.Not(G.ult(v, z)), '>=': lambda z: G.Not(G.ult(z, v))}[op]
        keep = G.filt(s.n, lambda i: f(s.get(i)))
    r = G.call('larry.keep_label', x, op, v, ax)
    if G.branch(G.eq(keep.n, 0)):
        G.is_larry(r, [G.list_seq([])], None)
    else:
        labs = replace_at(labs_of(x), a, G.seq(keep.n, lambda j: s.get(keep.get(j))))
        G.is_larry(r, labs, lambda idx: x.cell(replace_at(idx, a, keep.get(idx[a]))), dt=x.dt)


@contract('C09')
def getlabel(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    x = G.larry('x', nd, 'f', cap=5)
    copy = G.pick('copy', [True, False, None])
    if copy is None:
        r = G.call('larry.getlabel', x, ax)
    else:
        r = G.call('larry.getlabel', x, ax, copy)
    G.is_list(r, x.lab(norm(ax, nd)), fresh=copy is not False)


@contract('C09')
def copylabel(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f', cap=5)
    r = G.call('larry.copylabel', x)
    for a, L in enumerate(G.unpack(r, nd)):
        G.is_list(L, x.lab(a), name='axis %d' % a)


@contract('C09')
def maxminlabel(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd, none=True)
    kind = G.pick('kind', ['int', 'str'])
    x = G.larry('x', nd, 'f', minsize=1, cap=5, kinds=[kind])
    fn = G.pick('fn', ['maxlabel', 'minlabel'])
    r = G.call('larry.' + fn, x, ax)
    seqs = labs_of(x) if ax is None else [x.lab(norm(ax, nd))]
    G.check('%s is one of the labels' % fn, G.Or(*[G.isin(s, r) for s in seqs]))
    G.check('%s bounds the labels' % fn, G.And(*[G.all(s.n, lambda i, s=s: G.Not(G.ult(r, s.get(i)) if fn == 'maxlabel' else G.ult(s.get(i), r)))
                                                 for s in seqs]))


@contract('C09')
def maplabel(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd, none=True)
    x = G.larry('x', nd, G.dt('dt', 'fo'))
    f, spec = G.func('f', 'label')
    r = G.call('larry.maplabel', x, f, ax)
    labs = labs_of(x)
    for a in range(nd):
        if ax is None or a == norm(ax, nd):
            labs[a] = G.seq(x.n(a), lambda i, a=a: spec(x.lab(a).get(i)))
    G.is_larry(r, labs, lambda idx: x.cell(idx), dt=x.dt)


@contract('C09')
def maplabel_inplace(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd, none=True)
    x = G.larry('x', nd, 'f')
    f, spec = G.func('f', 'label')
    r = G.call('larry.maplabel', x, f, ax, False, modifies=[x])
    labs = labs_of(x)
    for a in range(nd):
        if ax is None or a == norm(ax, nd):
            labs[a] = G.seq(x.n(a), lambda i, a=a: spec(x.lab(a).get(i)))
    G.is_larry(r, labs, lambda idx: x.cell(idx), dt=x.dt, fresh=False, freshlabel=False)
    G.is_larry(x.obj, labs, lambda idx: x.cell(idx), dt=x.dt, fresh=False, freshlabel=False, name='self')
