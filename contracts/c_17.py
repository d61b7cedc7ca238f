from contracts.base import *

GFN = {'group_mean': 'meanof', 'group_median': 'nanmedian', 'group_ranking': 'ranked'}


@contract('C17', weight=4)
def group(G):
    fn = G.pick('fn', sorted(GFN))
    G.allow_inf = False
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f')
    ax = G.axis(nd)
    a = norm(ax, nd)
    kind = G.pick('groups', ['s', 'o', 'f', 'i'])
    g = G.larry('g', 1, kind, near={0: [x.lab(a)]}, vals={'s': ['a', 'b', 'cc', ''], 'o': ['a', 'b', 'ccc', None, ''], 'f': [1.0, 2.0, 5.5, -1.0], 'i': [1, 2, 7, 0, -1]}[kind])
    G.assume(G.all_index([g.n(0)], lambda idx: G.plain(g.cell(idx))))
    n = x.n(a)
    missing = G.any(n, lambda i: G.Not(G.isin(g.lab(0), x.lab(a).get(i))))
    if ax == 0 and G.flag('default'):
        r = G.call('larry.' + fn, x, g, raises=[(IndexError, missing)])
    else:
        r = G.call('larry.' + fn, x, g, ax, raises=[(IndexError, missing)])
    grp = lambda i: g.cell([G.index(g.lab(0), x.lab(a).get(i))])

    def cell(idx):
        i = idx[a]
        line = lambda j: x.cell(idx[:a] + [j] + idx[a + 1:])
        members = lambda: G.filt(n, lambda j: G.eq(grp(j), grp(i)))

        def stat():
            m = members()
            if fn == 'group_ranking':
                return G.red(GFN[fn], m.n, lambda k: line(m.get(k)), at=G.index(m, i), norm='-1,1')
            return G.red(GFN[fn], m.n, lambda k: line(m.get(k)))
        return G.ite(G.missing(grp(i), kind) if kind == 'o' else False, lambda: float('nan'), stat)
    G.is_larry(r, labs_of(x), cell, dt='f', approx=True)


@contract('C17')
def group_bad(G):
    fn = G.pick('fn', sorted(GFN))
    x = G.larry('x', G.ndim(1, 3), 'f')
    if G.flag('notlarry'):
        G.call('larry.' + fn, x, G.pick('g', [['a'], 3, None]), raises=[(TypeError, True)])
    else:
        g = G.larry('g', 2, 's', cap=4)
        G.call('larry.' + fn, x, g, raises=[(ValueError, True)])
