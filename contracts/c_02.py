from contracts.base import *


@contract('C02', variants=('py', 'c'))
def listmap(G):
    a = G.labels('list1', uniq=False)
    b = G.labels('list2', near=[a.seq], uniq=False)
    ok = G.all(b.n, lambda i: G.isin(a.seq, b.get(i)))
    r = G.call('flabel.listmap', a, b, raises=[(KeyError, G.Not(ok))])
    G.is_list(r, G.seq(b.n, lambda i: G.last(a.seq, b.get(i))))


@contract('C02', variants=('py', 'c'))
def listmap_strict(G):
    a = G.labels('list1', uniq=False)
    b = G.labels('list2', near=[a.seq], uniq=False)
    ok = G.all(b.n, lambda i: G.isin(a.seq, b.get(i)))
    r = G.call('flabel.listmap', a, b, False, raises=[(KeyError, G.Not(ok))])
    G.is_list(r, G.seq(b.n, lambda i: G.last(a.seq, b.get(i))))


@contract('C02', variants=('py', 'c'))
def listmap_ignore(G):
    a = G.labels('list1', uniq=False)
    b = G.labels('list2', near=[a.seq], uniq=False)
    r = G.call('flabel.listmap', a, b, kw={'ignore_unmappable': True})
    keep = G.filt(b.n, lambda i: G.isin(a.seq, b.get(i)))
    G.is_list(r, G.seq(keep.n, lambda j: G.last(a.seq, b.get(keep.get(j)))))


@contract('C02', variants=('py', 'c'))
def listmap_fill(G):
    a = G.labels('list1', uniq=False)
    b = G.labels('list2', near=[a.seq], uniq=False)
    fill = G.int('fill', -7, 1000)
    r = G.call('flabel.listmap_fill', a, b, fill)
    idx, miss = G.unpack(r, 2)
    G.is_list(idx, G.seq(b.n, lambda i: G.ite(G.isin(a.seq, b.get(i)), lambda: G.last(a.seq, b.get(i)), lambda: fill)), name='index')
    G.is_list(miss, G.filt(b.n, lambda i: G.Not(G.isin(a.seq, b.get(i)))), name='missing')


@contract('C02', variants=('py', 'c'))
def listmap_fill_default(G):
    a = G.labels('list1', uniq=False)
    b = G.labels('list2', near=[a.seq], uniq=False)
    r = G.call('flabel.listmap_fill', a, b)
    idx, miss = G.unpack(r, 2)
    G.is_list(idx, G.seq(b.n, lambda i: G.ite(G.isin(a.seq, b.get(i)), lambda: G.last(a.seq, b.get(i)), lambda: 0)), name='index')
    G.is_list(miss, G.filt(b.n, lambda i: G.Not(G.isin(a.seq, b.get(i)))), name='missing')
