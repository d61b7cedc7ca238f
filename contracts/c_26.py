from contracts.base import *


def pools(G, d):
    return 'fib' if d in 'fib' else d


def differ(G, x, y, dtype):
    "must assert_larry_equal refuse the two larrys?"
    labels = G.Or(*[G.Not(G.seq_eq(x.lab(a), y.lab(a))) for a in range(x.nd)])
    shape = G.Or(*[G.Not(G.eq(x.n(a), y.n(a))) for a in range(x.nd)])
    if 'f' in (x.dt, y.dt):
        same = lambda idx: G.close(x.cell(idx), y.cell(idx), 13)
    else:
        same = lambda idx: G.op('eq', x.cell(idx), y.cell(idx))
    cells = G.lazy(lambda: any_index(G, [x.n(a) for a in range(x.nd)], lambda idx: G.Not(same(idx))))
    return G.Or(labels, shape, G.lazy(lambda: G.And(G.Not(shape), cells)), dtype and x.dt != y.dt)


@contract('C26', weight=4)
def larry_equal(G):
    G.allow_inf = False
    nd = G.ndim(1, 3)
    dx = G.dt('dx', 'fibso')
    x = G.larry('x', nd, dx)
    y = G.twin('y', x, G.dt('dy', pools(G, dx)))
    dtype = G.pick('dtype', [None, True, False])
    msg = G.pick('msg', [None, 'text'])
    kw = {}
    if dtype is not None:
        kw['dtype'] = dtype
    if msg is not None:
        kw['msg'] = msg
    r = G.call('testing.assert_larry_equal', x, y, kw=kw, raises=[(AssertionError, G.lazy(lambda: differ(G, x, y, dtype is not False)))])
    G.is_none(r)


@contract('C26')
def larry_equal_ndim(G):
    "larrys with different numbers of axes are never equal"
    x = G.larry('x', G.ndim(1, 3), G.dt('dx', 'fib'))
    y = G.larry('y', G.pick('ndy', [1, 2, 3]), G.dt('dy', 'fib'))
    G.assume(x.nd != y.nd)
    G.call('testing.assert_larry_equal', x, y, kw={'dtype': G.flag('dtype')}, raises=[(AssertionError, True)])


@contract('C26', weight=2)
def larry_equal_original(G):
    G.allow_inf = False
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fibso'), minsize=1)
    if x.dt in 'so':
        G.assume(all_index(G, [x.n(a) for a in range(nd)], lambda idx: G.op('eq', x.cell(idx), x.cell(idx))))      # no NaN objects
    y = G.alias('y', x, 'copy', [False] * nd)
    share = G.pick('share', ['copy', 'same', 'view'])
    labs = [G.flag('lab%d' % a) for a in range(nd)]
    z = G.alias('z', x, share, labs)
    iscopy = G.pick('iscopy', [None, True, False])
    kw = {'original': z}
    if iscopy is not None:
        kw['iscopy'] = iscopy
    bad = share == 'copy' or not all(labs) if iscopy is False else share != 'copy' or any(labs)
    r = G.call('testing.assert_larry_equal', x, y, kw=kw, raises=[(AssertionError, bad)])
    G.is_none(r)


@contract('C26', weight=2)
def copies_and_views(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fibso'), minsize=1)
    share = G.pick('share', ['copy', 'same', 'view'])
    labs = [G.flag('lab%d' % a) for a in range(nd)]
    y = G.alias('y', x, share, labs)
    fn = G.pick('fn', ['assert_iscopy', 'assert_isview', 'noreference', 'nocopy'])
    G.assume(share != 'view' or fn.startswith('assert'))       # the old functions compare the array objects
    swap = G.flag('swap')
    a, b = (y, x) if swap else (x, y)
    if fn == 'assert_iscopy':
        G.is_none(G.call('testing.assert_iscopy', a, b, raises=[(AssertionError, share != 'copy' or any(labs))]))
    elif fn == 'assert_isview':
        G.is_none(G.call('testing.assert_isview', a, b, raises=[(AssertionError, share == 'copy' or not all(labs))]))
    elif fn == 'noreference':
        G.is_bool(G.call('testing.noreference', a, b), share != 'same' and not any(labs))
    else:
        G.is_bool(G.call('testing.nocopy', a, b), share == 'same' and all(labs))


@contract('C26')
def copies_and_views_bad(G):
    x = G.larry('x', G.ndim(1, 3), 'f', cap=3)
    fn = G.pick('fn', ['assert_iscopy', 'assert_isview', 'noreference', 'nocopy'])
    other = G.pick('other', [1.0, None, 'array', 'ndim'])
    if other == 'ndim':
        y = G.larry('y', x.nd % 3 + 1, 'f', cap=3)
        G.assume(fn in ('noreference', 'nocopy'))
        G.call('testing.' + fn, x, y, raises=[(ValueError, True)])
        return
    y = G.array('y', [2], 'f') if other == 'array' else other
    a, b = (y, x) if G.flag('swap') else (x, y)
    G.call('testing.' + fn, a, b, raises=[(TypeError, True)])


@contract('C26')
def scalars_equal(G):
    G.allow_inf = False
    d = G.dt('d', 'fi')
    x = G.array('x', [1], d)
    y = G.twin_array('y', x, d)
    dtype = G.flag('dtype')
    a, b = x.cell([0]), y.cell([0])
    G.is_none(G.call('testing.assert_larry_equal', G.cellof(x), G.cellof(y), kw={'dtype': dtype}, raises=[(AssertionError, G.Not(G.close(a, b, 7)))]))


@contract('C26')
def larry_and_scalar(G):
    x = G.larry('x', G.ndim(1, 3), G.dt('dx', 'fibso'), cap=3)
    y = G.pick('y', [1.0, 1, 'a', True])
    a, b = (y, x) if G.flag('swap') else (x, y)
    G.call('testing.assert_larry_equal', a, b, kw={'dtype': G.flag('dtype')}, raises=[(AssertionError, True)])


@contract('C26')
def larry_equal_bad(G):
    x = G.larry('x', 1, 'f', cap=3)
    which = G.pick('which', ['dtype', 'iscopy', 'msg'])
    v = G.pick('v', [2, None, 'a']) if which != 'msg' else G.pick('w', [2, None, True])
    G.call('testing.assert_larry_equal', x, x, kw={which: v}, raises=[(TypeError, True)])
