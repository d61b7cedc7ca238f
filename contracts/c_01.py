from contracts.base import *


@contract('C01', weight=2, also=())
def construct(G):
    "data and labels of any lengths, repeats included"
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'fibso')
    labs = [G.labels('label%d' % a, uniq=False) for a in range(nd)]
    off = G.pick('off', [0, 0, 0, 1, -1, 2])
    axo = G.pick('axo', list(range(nd)))
    shape = [s.n for s in labs]
    shape[axo] = G.max(0, shape[axo] + off)
    x = G.array('x', shape, dt)
    bad = G.Or(*([G.Not(G.uniq(s.seq)) for s in labs] + [G.Not(G.eq(shape[a], labs[a].n)) for a in range(nd)]))
    r = G.call('larry', x, list(labs), raises=[(ValueError, bad)])
    G.is_larry(r, [s.seq for s in labs], lambda idx: x.cell(idx), dt=dt, fresh=None)


@contract('C01', also=())
def construct_count(G):
    "one label list per dimension"
    nd = G.ndim(1, 3)
    k = G.pick('lists', [0, 1, 2, 3, 4])
    G.assume(k != nd)
    labs = [G.labels('label%d' % a) for a in range(k)]
    x = G.array('x', [labs[a].n if a < k else 2 for a in range(nd)], 'f')
    G.call('larry', x, list(labs), raises=[(ValueError, True)])


@contract('C01', also=())
def construct_default(G):
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'fibso')
    shape = [G.size('n%d' % a, cap=6) for a in range(nd)]
    x = G.array('x', shape, dt)
    r = G.call('larry', x)
    G.is_larry(r, [G.seq(n, lambda i: i) for n in shape], lambda idx: x.cell(idx), dt=dt, fresh=None)


@contract('C01', also=())
def construct_notlist(G):
    nd = G.ndim(1, 2)
    w = G.pick('where', list(range(nd)))
    m = G.pick('len', [2, 0, 1, 3])
    x = G.array('x', [m if a == w else 2 for a in range(nd)], 'f')
    labs = [['r', 's'] for a in range(nd)]
    typ = G.pick('type', ['tuple', 'str', 'dict', 'array'])
    names = ['a', 'b', 'c'][:m]
    labs[w] = tuple(names) if typ == 'tuple' else ''.join(names) if typ == 'str' else dict((z, 1) for z in names) if typ == 'dict' else G.array('lab', [m], 'i')
    G.call('larry', x, labs, raises=[(ValueError, True)])


@contract('C01', also=())
def construct_lists(G):
    nd = G.ndim(1, 2)
    x = G.array('x', [G.size('n%d' % a, cap=5) for a in range(nd)], 'f')
    G.assume(G.And(*[x.n(a) > 0 for a in range(nd)]))
    dtype = G.pick('dtype', [None, float, int, object])
    if dtype is int:
        G.assume(G.all_index([x.n(a) for a in range(nd)], lambda idx: G.isfinite(x.cell(idx))))
    if G.flag('list'):
        r = G.call('larry', G.nested(x), None, dtype)
    else:
        r = G.call('larry', x, None, dtype)
    dt = {None: 'f', float: 'f', int: 'i', object: 'o'}[dtype]
    G.is_larry(r, [G.seq(x.n(a), lambda i: i) for a in range(nd)], lambda idx: G.toint(x.cell(idx)) if dtype is int else x.cell(idx), dt=dt, fresh=None)


@contract('C01', also=())
def construct_0d(G):
    v = G.pick('v', [1.0, 3, None])
    G.call('larry', v, [], raises=[(ValueError, True)])


def shape_or_label(G, cap=5, lo=1):
    nd = G.ndim(1, 3)
    if G.flag('bylabel'):
        labs = [G.labels('label%d' % a) for a in range(nd)]
        return nd, None, list(labs), [s.seq for s in labs]
    shape = [G.size('n%d' % a, cap=cap) for a in range(nd)]
    return nd, shape, None, [G.seq(n, lambda i: i) for n in shape]


@contract('C01', weight=2, also=())
def lrange(G):
    nd, shape, label, labs = shape_or_label(G)
    start = G.int('start', -5, 9)
    step = G.pick('step', [1, 2, -1, 3])
    kw = {'start': start, 'step': step}
    if G.flag('dtype'):
        kw['dtype'] = float
    if shape is not None and len(shape) == 1 and G.flag('intshape'):
        r = G.call('flarry.lrange', shape[0], kw=kw)
    else:
        r = G.call('flarry.lrange', shape, label, kw=kw)

    def cell(idx):
        return start + step * G.number([s.n for s in labs], idx)
    G.is_larry(r, labs, cell, fresh=None, dt='f' if 'dtype' in kw else 'i')


@contract('C01', also=())
def ones_zeros(G):
    fn = G.pick('fn', ['ones', 'zeros'])
    nd, shape, label, labs = shape_or_label(G)
    dt = G.pick('dtype', ['none', 'f', 'i', 'b'])
    dtype = {'none': None, 'f': float, 'i': int, 'b': bool}[dt]
    if G.flag('order'):
        r = G.call('flarry.' + fn, shape, label, dtype, 'F')
    else:
        r = G.call('flarry.' + fn, shape, label, dtype)
    G.is_larry(r, labs, lambda idx: 1 if fn == 'ones' else 0, dt='f' if dt == 'none' else dt, fresh=None)


@contract('C01', also=())
def empty(G):
    nd, shape, label, labs = shape_or_label(G)
    r = G.call('flarry.empty', shape, label, {'i': int, 'f': float}[G.pick('dtype', ['i', 'f'])])
    G.is_larry(r, labs, None, fresh=None)


@contract('C01', also=())
def shape_missing(G):
    G.call('flarry.' + G.pick('fn', ['lrange', 'ones', 'zeros', 'empty']), raises=[(ValueError, True)])


@contract('C01', also=(), proved_by='rand_spec')
def rand(G):
    fn = G.pick('fn', ['rand', 'randn'])
    nd, shape, label, labs = shape_or_label(G)
    calls = []

    def source(*n):
        import numpy
        x = numpy.random.rand(*n)
        calls.append((n, x.copy()))
        return x
    kw = {fn: source}
    own = G.flag('own')
    if shape is not None:
        r = G.call('flarry.' + fn, *shape, kw=kw if own else {})
    else:
        kw['label'] = label
        r = G.call('flarry.' + fn, kw=kw if own else {'label': label})
    if own:
        G.check('one draw of the right shape', len(calls) == 1 and list(calls[0][0]) == [s.n for s in labs])
        G.is_larry(r, labs, lambda idx: calls[0][1][tuple(idx)], dt='f', fresh=None)
    else:
        G.is_larry(r, labs, None, dt='f', fresh=None)


@contract('C01', also=())
def rand_bad(G):
    fn = G.pick('fn', ['rand', 'randn'])
    G.call('flarry.' + fn, kw={'dtype': float}, raises=[(ValueError, True)])


@contract('C01', proof_only=True, twin='rand', also=())
def rand_spec(G):
    "the cells are the numbers of one draw of the right shape"
    fn = G.pick('fn', ['rand', 'randn'])
    nd, shape, label, labs = shape_or_label(G)
    if shape is not None:
        r = G.call('flarry.' + fn, *shape)
    else:
        r = G.call('flarry.' + fn, kw={'label': label})
    which, dims, f = G.draw(0)
    G.check('one draw of numpy.random.' + fn, which == fn and len(dims) == nd and G.draws_made() == 1)
    for a in range(nd):
        G.check('drawn along axis %d' % a, G.eq(dims[a], labs[a].n))
    G.is_larry(r, labs, lambda idx: f(idx), dt='f', fresh=None)
