from contracts.base import *

MOVE = {'move_sum': 'nansum', 'move_mean': 'nanmean', 'move_std': 'nanstd', 'move_min': 'nanmin', 'move_max': 'nanmax', 'move_median': 'nanmedian',
        'move_ranking': 'lastrank'}


def windowed(G, x, a, w, red, **kw):
    def cell(idx):
        i = idx[a]
        return G.ite(G.lt(i, w - 1), lambda: float('nan'),
                     lambda: G.red(red, w, lambda j: x.cell(idx[:a] + [i - w + 1 + j] + idx[a + 1:]), **kw))
    return cell


def window(G, x, a, lo=-1):
    "a window length, also one that does not fit"
    w = G.int('window', lo, 12)
    return w, G.Or(G.lt(w, 1), G.lt(x.n(a), w))


@contract('C16', weight=3)
def move_stat(G):
    G.allow_inf = False
    fn = G.pick('fn', ['move_sum', 'move_mean', 'move_std', 'move_min', 'move_max'])
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd)
    a = norm(ax, nd)
    w, bad = window(G, x, a)
    if ax == -1 and G.flag('default'):
        r = G.call('larry.' + fn, x, w, raises=[(ValueError, bad)])
    else:
        r = G.call('larry.' + fn, x, w, ax, raises=[(ValueError, bad)])
    G.is_larry(r, labs_of(x), windowed(G, x, a, w, MOVE[fn]), dt='f', approx=1e-5 if fn == 'move_std' else True)


@contract('C16', weight=2)
def move_int(G):
    fn = G.pick('fn', ['move_sum', 'move_mean', 'move_min', 'move_max', 'move_median'])
    nd = G.ndim(1, 2)
    x = G.larry('x', nd, 'i')
    ax = G.axis(nd)
    a = norm(ax, nd)
    w, bad = window(G, x, a)
    r = G.call('larry.' + fn, x, w, ax, raises=[(ValueError, bad)])
    G.is_larry(r, labs_of(x), windowed(G, x, a, w, MOVE[fn]), dt='f', approx=True)


@contract('C16', weight=4)
def move_generic(G):
    G.allow_inf = False
    fn = G.pick('fn', ['move_ranking', 'move_median'])
    nd = G.ndim(1, 3)
    G.assume(nd <= 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd)
    a = norm(ax, nd)
    w, bad = window(G, x, a)
    method = G.pick('method', [None, 'loop', 'strides', 'other'])
    kw = {} if method is None else {'method': method}
    bad = G.Or(bad, method == 'other')
    r = G.call('larry.' + fn, x, w, ax, kw=kw, raises=[(ValueError, bad)])
    G.is_larry(r, labs_of(x), windowed(G, x, a, w, MOVE[fn]), dt='f', approx=True)


@contract('C16', weight=4)
def move_func(G):
    nd = G.ndim(1, 3)
    G.assume(nd <= 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    ax = G.axis(nd)
    a = norm(ax, nd)
    w, bad = window(G, x, a)
    method = G.pick('method', [None, 'loop', 'strides', 'other'])
    kw = {} if method is None else {'method': method}
    fkw = G.pick('fkw', [{}, {'p': 3}])
    bad = G.Or(bad, method == 'other')
    f = G.reducer('weighted')
    which = G.pick('which', ['larry', 'move'])
    if which == 'larry':
        kw.update(fkw)
        r = G.call('larry.move_func', x, f, w, ax, kw=kw, raises=[(ValueError, bad)])
        G.is_larry(r, labs_of(x), windowed(G, x, a, w, 'weighted', **fkw), dt='f', approx=True)
    else:
        arr = G.array('arr', [x.n(k) for k in range(nd)], x.dt)
        kw.update(fkw)
        r = G.call('move.move_func', f, arr, w, ax, kw=kw, raises=[(ValueError, bad)])
        G.is_array(r, [x.n(k) for k in range(nd)], windowed(G, arr, a, w, 'weighted', **fkw), dt='f', approx=True)


@contract('C16')
def move_axis_none(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    G.allow_inf = False
    fn = G.pick('fn', ['move_ranking', 'move_median'])
    G.call('larry.' + fn, x, 1, None, kw={'method': G.pick('method', ['loop', 'strides'])}, raises=[(ValueError, True)])


@contract('C16', weight=3, proved_by='movingsum_forward_spec')
def movingsum_forward(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    G.assume(G.all_finite_or_nan(x))
    ax = G.axis(nd)
    a = norm(ax, nd)
    n = x.n(a)
    w = G.int('window', -1, 12)
    skip = G.int('skip', 0, 12)
    nrm = G.flag('norm')
    bad1 = G.Or(G.lt(w, 1), G.lt(n, w))
    bad2 = G.And(G.Not(bad1), G.lt(n, skip))
    kw = {'norm': nrm} if nrm else {}
    r = G.call('larry.movingsum_forward', x, w, skip, ax, kw=kw, raises=[(ValueError, bad1), (IndexError, bad2)])

    def cell(idx):
        i = idx[a]
        f = lambda j: x.cell(idx[:a] + [i + skip + j] + idx[a + 1:])

        def inside():
            if nrm:
                return G.red('scaledsum', w, f, w=w)
            return G.red('nansum', w, f)
        return G.ite(G.lt(n, i + skip + w), lambda: float('nan'), inside)
    G.is_larry(r, labs_of(x), cell, dt='f', approx=True)


@contract('C16', proof_only=True, twin='movingsum_forward')
def movingsum_forward_spec(G):
    """The same statement with the sum over a window written as the difference of two running sums,
    taken from the end of the line: the two are equal in real arithmetic."""
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    G.assume(G.all_finite_or_nan(x))
    ax = G.axis(nd)
    a = norm(ax, nd)
    n = x.n(a)
    w = G.int('window', -1, 12)
    skip = G.int('skip', 0, 12)
    nrm = G.flag('norm')
    bad1 = G.Or(G.lt(w, 1), G.lt(n, w))
    bad2 = G.And(G.Not(bad1), G.lt(n, skip))
    kw = {'norm': nrm} if nrm else {}
    r = G.call('larry.movingsum_forward', x, w, skip, ax, kw=kw, raises=[(ValueError, bad1), (IndexError, bad2)])

    def cell(idx):
        i = idx[a]
        back = lambda j: x.cell(idx[:a] + [n - 1 - j] + idx[a + 1:])
        there = lambda j: G.Not(G.missing(back(j), x.dt))
        value = lambda j: G.ite(there(j), lambda: G.tofloat(back(j)), lambda: G.tofloat(0))
        hi = n - i - skip
        lo = hi - w

        def inside():
            over = lambda f, sub: G.ite(lo > 0, lambda: sub(G.red('cumsum', hi, f), G.red('cumsum', lo, f)), lambda: G.red('cumsum', hi, f))
            total = over(value, lambda p, q: G.op('sub', p, q))
            count = over(there, lambda p, q: p - q)
            if nrm:
                return G.op('div', G.op('mul', G.pyop('mul', 1.0, w), total), count)
            return G.ite(G.eq(count, 0), lambda: float('nan'), lambda: total)
        return G.ite(lo < 0, lambda: float('nan'), inside)
    G.is_larry(r, labs_of(x), cell, dt='f')
