from contracts.base import *


@contract('C05', weight=3, inline=('morph',))
def morph(G):
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    a = norm(ax, nd)
    dt = G.dt('dt', 'fibso')
    x = G.larry('x', nd, dt)
    lab = G.labels('label', near=[x.lab(a)], uniq=False)
    r = G.call('larry.morph', x, lab, ax, raises=[(IndexError, G.Not(G.uniq(lab.seq)))])
    labs = replace_at(labs_of(x), a, lab.seq)
    m = G.branch(G.any(lab.n, lambda i: G.Not(G.isin(x.lab(a), lab.get(i)))))
    d = filled_dt(dt, m)

    def kept(idx):
        return x.cell(replace_at(idx, a, G.index(x.lab(a), lab.get(idx[a]))))

    def cell(idx):
        if not m:
            return kept(idx)
        return G.ite(G.isin(x.lab(a), lab.get(idx[a])), lambda: kept(idx), lambda: G.marker(d))
    G.is_larry(r, labs, cell, dt=d if m or dt not in 'ib' else d + 'f')


@contract('C05', proof_only=True, twin='morph', summary='la.deflarry.larry.morph', inline=('morph',))
def morph_spec(G):
    "the body satisfies the summary its callers rely on"
    nd = G.ndim(1, 3)
    ax = G.axis(nd)
    x = G.larry('x', nd, G.dt('dt', 'fibso'))
    lab = G.labels('label', near=[x.lab(norm(ax, nd))], uniq=False)
    s, exc = G.summary('la.deflarry.larry.morph', x, lab, ax)
    r = G.call('larry.morph', x, lab, ax, raises=[] if exc is None else [(exc, True)])
    G.is_larry(r, labs_of(s), s.cell, dt=s.dt)


@contract('C05')
def morph_badaxis(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, 'f', cap=4)
    ax = nd + G.pick('over', [0, 1, 5])
    lab = G.labels('label', near=[x.lab(nd - 1)])
    G.call('larry.morph', x, lab, ax, raises=[(IndexError, True)])


@contract('C05', weight=2)
def morph_like(G):
    nd = G.ndim(1, 3)
    dt = G.dt('dt', 'fibso')
    x = G.larry('x', nd, dt)
    y = G.larry('y', nd, G.dt('dy', 'fi'), near=dict((a, [x.lab(a)]) for a in range(nd)))
    r = G.call('larry.morph_like', x, y)
    labs = labs_of(y)
    m = G.branch(some_missing(G, x, labs))
    d = filled_dt(dt, m)
    if m:
        G.is_larry(r, labs, cell_or_missing(G, x, labs, d))
    else:
        G.is_larry(r, labs, lambda idx: x.cell(pos_in(G, x, labs, idx)))


@contract('C05')
def morph_like_ndim(G):
    n1 = G.ndim(1, 3, name='n1')
    n2 = G.ndim(1, 3, name='n2')
    G.assume(n1 != n2)
    x = G.larry('x', n1, 'f', cap=3)
    y = G.larry('y', n2, 'f', cap=3)
    G.call('larry.morph_like', x, y, raises=[(IndexError, True)])
