from contracts.base import *
from contracts.c_08 import resolve

KEYS = ['a', 'x', 'k1', 'g/b', 'g/h/c', 'g/h/d', 'q r', 'larry', '0']
SLASHED = ['/p', 'u//v', 'w/']
LKINDS = ['int', 'str', 'float', 'date', 'datetime', 'time', 'range']


def storable(G, name, kinds='fibs'):
    nd = G.ndim(1, 3, name=name + '.nd')
    return G.larry(name, nd, G.dt(name + '.dt', list(kinds) + ['f4', 'i4', 'c']), kinds=LKINDS)


def same_as(G, r, v, name='result'):
    G.is_larry(r, labs_of(v), lambda idx: v.cell(idx), name=name)
    G.check('%s keeps the dtype' % name, r.x.dtype == v.dtype)
    G.check('%s keeps the label types' % name, [[type(z) for z in L] for L in r.label] == [[type(z) for z in L] for L in v.label])


@contract('C19', weight=2, proved_by='save_load_spec')
def save_load(G):
    with G.scratch() as path:
        n = G.int('count', 1, 3)
        keys = []
        vals = []
        for k in range(n):
            key = G.pick('key%d' % k, [z for z in KEYS + SLASHED if not clash(z, keys)])
            v = storable(G, 'x%d' % k)
            G.call('io.save', path, v, key)
            keys.append(key)
            vals.append(v)
        for key, v in zip(keys, vals):
            same_as(G, G.call('io.load', path, key), v)


def clash(key, keys):
    "one key may not be, or lie inside, another"
    return any(key == k or key.startswith(k + '/') or k.startswith(key + '/') for k in keys)


@contract('C19', weight=4, proved_by='archived_index_spec')
def archived_index(G):
    with G.scratch() as path:
        key = G.pick('key', KEYS)
        v = storable(G, 'x')
        G.call('io.save', path, v, key)
        io = G.la.IO(path)
        r = io[key]
        how = G.pick('how', ['all', 'label', 'slice', 'int', 'tuple', 'maxlabel', 'labelindex'])
        if how == 'all':
            same_as(G, r[:], v)
        elif how == 'label':
            G.check('labels', r.label == v.label and all(r.getlabel(a) == v.label[a] for a in range(v.nd)))
            G.check('shape', r.shape == v.x.shape and r.dtype == v.dtype and r.ndim == v.nd and r.size == v.x.size)
        elif how == 'maxlabel':
            ax = G.axis(v.nd)
            G.assume(v.n(norm(ax, v.nd)) > 0)
            G.check('maxlabel', r.maxlabel(ax) == max(v.label[ax]) and r.minlabel(ax) == min(v.label[ax]))
        elif how == 'labelindex':
            ax = G.axis(v.nd, neg=False)
            G.assume(v.n(ax) > 0)
            i = G.int('i', 0, v.n(ax) - 1)
            G.check('labelindex', r.labelindex(v.label[ax][i], ax) == i)
        else:
            n = v.n(0)
            G.assume(n > 0 and v.x.size > 0)
            if how == 'int':
                i = G.int('i', 0, n - 1)
                e = v.obj[i]
                idx = i
            elif how == 'slice':
                i, j = G.int('i', 0, n - 1), G.int('j', 0, n)
                G.assume(i < j)
                idx = slice(i, j, G.pick('step', [None, 1, 2]))
            else:
                G.assume(v.nd > 1)
                idx = tuple(slice(G.int('i%d' % k, 0, v.n(k) - 1), v.n(k)) if G.flag('s%d' % k) else G.int('p%d' % k, 0, v.n(k) - 1) for k in range(v.nd))
            e = v.obj[idx]
            q = r[idx]
            if isinstance(e, G.la.larry):
                same_as(G, q, G.view(e), name='the part')
            else:
                G.is_scalar(q, e)


@contract('C19', proved_by='mixed_labels_spec')
def mixed_labels(G):
    with G.scratch() as path:
        nd = G.ndim(1, 3)
        a = G.axis(nd, neg=False)
        bad = G.pick('bad', [[1, 'a'], [1.5, 'a'], [1, 2.5], ['a', None], [1, 2, 'z', 4]])
        v = G.larry('x', nd, 'f', labels={a: bad}, kinds=LKINDS)
        G.call('io.save', path, v, 'a', raises=[(TypeError, True)])


@contract('C19', weight=1, proved_by='save_load_spec')
def label_codec(G):
    "a label list survives being stored as an array"
    v = G.rawlabels('labels', kinds=LKINDS)
    L = G.obj('L', v)
    with G.scratch() as path:
        x = G.la.larry(__import__('numpy').zeros(len(v)), [list(v)])
        G.call('io.save', path, x, 'a')
        q = G.call('io.load', path, 'a')
        G.check('labels come back', q.label == [list(v)] and [type(z) for z in q.label[0]] == [type(z) for z in v])


def stored(G, name, nd, dts='fibs', kinds=('int', 'str', 'float', 'date', 'time', 'datetime')):
    "a larry whose labels along each axis are of one type"
    G.typed()
    x = G.larry(name, nd, G.dt(name + '.dt', dts))
    for a in range(nd):
        G.label_kind(x, a, G.pick('%s.kind%d' % (name, a), list(kinds)))
    return x


def some_key(G, name, depth, *others):
    "a key of one or more names"
    ks = [G.key(name, *others)]
    for k in range(depth - 1):
        ks.append(G.key('%s.%d' % (name, k)))
    return ks[0], G.path(*ks)


@contract('C19', proof_only=True, twin='save_load')
def save_load_spec(G):
    "what is saved is loaded, whatever else was saved before or after"
    nd = G.ndim(1, 3)
    x = stored(G, 'x', nd)
    top, key = some_key(G, 'key', G.pick('depth', [1, 2, 3]))
    name = G.text('name')
    opened = G.flag('opened')
    if opened:
        name = G.opened(name)
    other = G.pick('other', ['none', 'before', 'after'])
    if other != 'none':
        y = stored(G, 'y', 1, 'f', ['int'])
        where = G.pick('key2', ['apart', 'apart, nested', 'in the same group'])
        if where == 'in the same group':
            b = G.key('key2')
            c = G.key('key3', b)
            key, key2 = G.path(top, b), G.path(top, c)
        else:
            key2 = some_key(G, 'key2', 1 if where == 'apart' else 2, top)[1]
    if other == 'before':
        G.call('io.save', name, y, key2)
    G.call('io.save', name, x, key)
    if other == 'after':
        G.call('io.save', name, y, key2)
    r = G.call('io.load', name, key)
    if opened:
        G.is_open('an archive given open stays open', name)
    G.is_larry(r, labs_of(x), lambda idx: x.cell(idx), dt=x.dt)


def archived(G, name, nd, dts='fi', kinds=('int', 'str', 'float', 'date', 'time', 'datetime')):
    "(larry, its key, the IO, the lara) of a larry saved under a key"
    x = stored(G, name, nd, dts, kinds)
    top, key = some_key(G, 'key', G.pick('depth', [1, 2]))
    path = G.text('name')
    G.call('io.save', path, x, key)
    io = G.call('io.IO', path)
    return x, key, path, io


@contract('C19', proof_only=True, twin='archived_index')
def archived_index_spec(G):
    "indexing the archived larry gives what indexing the larry gives"
    nd = G.ndim(1, 3)
    x, key, path, io = archived(G, 'x', nd)
    r = G.call('op.getitem', io, key)
    how = G.pick('how', ['all', 'int', 'slice', 'tuple'])
    if how != 'all':
        for a in range(nd):
            G.assume(x.n(a) > 0)
    els = []
    for a in range(nd if how == 'tuple' else 1):
        kind = G.pick('kind%d' % a, ['slice', 'int']) if how == 'tuple' else 'slice' if how == 'all' else how
        if how == 'all':
            e = (slice(None), G.seq(x.n(a), lambda i: i), None)
        elif kind == 'slice':
            n = x.n(a)
            start = G.int('start%d' % a, -n - 2, n + 2) if G.flag('hasstart%d' % a) else None
            stop = G.int('stop%d' % a, -n - 2, n + 2) if G.flag('hasstop%d' % a) else None
            step = G.pick('step%d' % a, [None, 1, 2])
            e = (slice(start, stop, step), G.slice_pos(n, start, stop, step), None)
            G.assume(e[1].n > 0)
        else:
            i = G.int('i%d' % a, -x.n(a), x.n(a) - 1)
            e = (i, None, G.ite(i < 0, lambda: i + x.n(a), lambda: i))
        els.append(e)
    for a in range(len(els), nd):
        els.append((None, G.seq(x.n(a), lambda i: i), None))
    labs, source, scalar = resolve(G, x, els)
    idx = tuple(e[0] for e in els) if how == 'tuple' else els[0][0]
    q = G.call('op.getitem', r, idx)
    if scalar:
        G.is_scalar(q, x.cell(source([])))
    else:
        G.is_larry(q, labs, lambda p: x.cell(source(p)), dt=x.dt)


@contract('C19', proof_only=True, twin='archived_index')
def archived_attributes_spec(G):
    "labels, shape, dtype, ndim and size of an archived larry are those of the larry"
    nd = G.ndim(1, 3)
    x, key, path, io = archived(G, 'x', nd, 'fibs')
    r = G.call('op.getitem', io, key)
    for a in range(nd):
        G.is_list(G.call('lara.getlabel', r, a), x.lab(a), name='getlabel(%d)' % a, fresh=False)
    shape = G.call('get.shape', r)
    G.check('shape', G.And(len(shape) == nd, *[shape[a] == x.n(a) for a in range(nd)]))
    G.check('ndim', G.call('get.ndim', r) == nd)
    G.check('dtype', G.call('op.eq', G.call('get.dtype', r), G.call('get.dtype', x)))
    G.check('size', G.eq(G.call('get.size', r), G.flat_size([x.n(a) for a in range(nd)])))


@contract('C19', proof_only=True, twin='archived_index')
def archived_labels_spec(G):
    "maxlabel, minlabel and labelindex of an archived larry"
    nd = G.ndim(1, 3)
    x, key, path, io = archived(G, 'x', nd, 'f')
    r = G.call('op.getitem', io, key)
    ax = G.axis(nd)
    s = x.lab(norm(ax, nd))
    G.assume(s.n > 0)
    if G.flag('labelindex'):
        i = G.int('i', 0, s.n - 1)
        G.check('labelindex', G.call('lara.labelindex', r, s.get(i), norm(ax, nd)) == i)
    else:
        m = G.call('lara.maxlabel', r, ax)
        G.check('maxlabel', G.And(G.isin(s, m), G.all(s.n, lambda i: G.Not(G.ult(m, s.get(i))))))
        m = G.call('lara.minlabel', r, ax)
        G.check('minlabel', G.And(G.isin(s, m), G.all(s.n, lambda i: G.Not(G.ult(s.get(i), m)))))


@contract('C19', proof_only=True, twin='mixed_labels')
def mixed_labels_spec(G):
    "labels of different types along an axis are refused"
    nd = G.ndim(1, 3)
    G.typed()
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    bad = G.axis(nd, neg=False)
    for a in range(nd):
        if a < bad:
            G.label_kind(x, a, G.pick('kind%d' % a, ['int', 'str', 'date']))
    G.assume(x.n(bad) > 0)
    i, j = G.int('i', 0, x.n(bad) - 1), G.int('j', 0, x.n(bad) - 1)
    G.types_differ(x.lab(bad).get(i), x.lab(bad).get(j))
    G.call('io.save', G.text('name'), x, some_key(G, 'key', G.pick('depth', [1, 2]))[1], raises=[(TypeError, True)])
