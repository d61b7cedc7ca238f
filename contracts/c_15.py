from contracts.base import *

UFN = {'log': 'log', 'exp': 'exp', 'sqrt': 'sqrt', 'sign': 'sign', 'abs': 'absolute', '__abs__': 'absolute', '__neg__': 'neg',
       'isnan': 'isnan', 'isfinite': 'isfinite', 'isinf': 'isinf'}


@contract('C15', weight=3)
def unary(G):
    fn = G.pick('fn', sorted(UFN))
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    r = G.call('larry.' + fn, x)
    G.is_larry(r, labs_of(x), lambda idx: G.uop(UFN[fn], x.cell(idx)))


@contract('C15')
def invert(G):
    fn = G.pick('fn', ['invert', '__invert__'])
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'bfi')
    x = G.larry('x', nd, dt)
    r = G.call('larry.' + fn, x, raises=[(TypeError, dt != 'b')])
    G.is_larry(r, labs_of(x), lambda idx: G.Not(G.truth(x.cell(idx))), dt='b')


@contract('C15')
def copy(G):
    fn = G.pick('fn', ['copy', '__pos__'])
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    G.is_larry(G.call('larry.' + fn, x), labs_of(x), lambda idx: x.cell(idx), dt=x.dt)


@contract('C15')
def copyx(G):
    fn = G.pick('fn', ['copyx', 'getx'])
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    G.is_array(G.call('larry.' + fn, x), [x.n(a) for a in range(nd)], lambda idx: x.cell(idx), dt=x.dt)


@contract('C15')
def getx_view(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    if G.flag('A'):
        r = G.call('larry.A', x)
    else:
        r = G.call('larry.getx', x, G.pick('copy', [True, False]))
    G.is_array(r, [x.n(a) for a in range(nd)], lambda idx: x.cell(idx), dt=x.dt, fresh=False)


@contract('C15')
def power(G):
    fn = G.pick('fn', ['power', '__pow__'])
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    q = G.pick('q', [2, 3, 1, 0.5, -1])
    G.is_larry(G.call('larry.' + fn, x, q), labs_of(x), lambda idx: G.op('power', x.cell(idx), q), dt='f')


@contract('C15')
def clip(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'))
    lo, hi = G.int('lo', -5, 9), G.int('hi', -5, 9)
    r = G.call('larry.clip', x, lo, hi, raises=[(ValueError, lo > hi)])
    G.is_larry(r, labs_of(x), lambda idx: G.op('minimum', G.op('maximum', x.cell(idx), lo), hi), dt=x.dt)


@contract('C15')
def astype(G):
    nd = G.ndim(1, 3)
    how = G.pick('how', ['ff', 'if', 'ii', 'bf', 'bi', 'fo', 'io', 'fb', 'ib', 'ss'])
    x = G.larry('x', nd, how[0])
    dtype = {'f': float, 'i': int, 'o': object, 'b': bool, 's': str}[how[1]]
    r = G.call('larry.astype', x, dtype)
    if how[1] == 'b':
        G.is_larry(r, labs_of(x), lambda idx: G.truth(x.cell(idx)), dt='b')
    else:
        G.is_larry(r, labs_of(x), lambda idx: x.cell(idx), dt=how[1])


@contract('C15', weight=2)
def cumulate(G):
    fn = G.pick('fn', ['cumsum', 'cumprod'])
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fi'), cap=12)
    ax = G.axis(nd, none=True)
    r = G.call('larry.' + fn, x, ax, raises=[(ValueError, ax is None)])
    a = norm(ax, nd)
    unit = 0 if fn == 'cumsum' else 1
    there = lambda z: G.ite(G.isnan(z), lambda: G.tofloat(unit), lambda: z) if x.dt == 'f' else z

    def cell(idx):
        total = G.red(fn, idx[a] + 1, lambda i: there(x.cell(replace_at(idx, a, i))))
        return G.ite(G.isnan(x.cell(idx)), lambda: x.cell(idx), lambda: total)
    G.is_larry(r, labs_of(x), cell, dt=x.dt, approx=True)


@contract('C15')
def nx_size(G):
    nd = G.ndim(1, 4)
    dt = G.dt('dt', 'fib')
    x = G.larry('x', nd, dt)
    G.is_scalar(G.call('larry.nx', x), G.count_all([x.n(a) for a in range(nd)], lambda idx: G.isfinite(x.cell(idx))))
    n = 1
    for a in range(nd):
        n = n * x.n(a)
    G.is_scalar(G.call('larry.size', x), n)


@contract('C15')
def attributes(G):
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    what = G.pick('what', ['shape', 'ndim', 'dtype'])
    r = G.call('larry.' + what, x)
    if what == 'shape':
        for a, n in enumerate(G.unpack(r, nd)):
            G.is_scalar(n, x.n(a))
    elif what == 'ndim':
        G.is_scalar(r, nd)
    else:
        G.check('dtype', r == x.dtype)
