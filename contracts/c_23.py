from contracts.base import *
from contracts.c_12 import check_rebuilt, numbered


def lab_strings(G):
    return ['int', 'str', 'float', 'date', 'tuple', 'range', 'odd']


@contract('C23', weight=2, proved_by='tofile_spec')
def tofile(G):
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibs'), kinds=lab_strings(G))
    d = G.pick('delimiter', [None, ',', ';', '\t', '::'])
    kw = {} if d is None else {'delimiter': d}
    d = d or ','
    isname = G.flag('filename')
    with G.scratch() as path:
        if isname:
            G.call('larry.tofile', x, path, kw=kw, raises=[(ValueError, nd > 2)])
        else:
            f = open(path, 'w')
            try:
                G.call('larry.tofile', x, f, kw=kw, raises=[(ValueError, nd > 2)])
                G.check('a file object given is left open', not f.closed)
            finally:
                f.close()
        got = open(path).read()
    lab = x.label
    if nd == 1:
        want = ''.join('%s%s%s\n' % (str(lab[0][i]), d, str(x.x[i])) for i in range(x.n(0)))
    else:
        want = d + d.join(str(z) for z in lab[1]) + '\n'
        for i in range(x.n(0)):
            want += d.join([str(lab[0][i])] + [str(x.x[i, j]) for j in range(x.n(1))]) + '\n'
    G.check('the file holds %r, expected %r' % (got[:200], want[:200]), got == want)


@contract('C23', weight=3, proved_by='tocsv_spec')
def tocsv(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fib'), kinds=['int', 'str', 'date', 'range', 'odd'])
    d = G.pick('delimiter', [None, ',', ';', '\t'])
    kw = {} if d is None else {'delimiter': d}
    import csv
    import numpy as np
    with G.scratch() as path:
        G.call('larry.tocsv', x, path, kw=kw)
        with open(path) as f:
            rows = list(csv.reader(f, delimiter=d or ','))
        want = [[str(x.label[a][i[a]]) for a in range(nd)] + [x.x[i]] for i in np.ndindex(*x.x.shape)]
        G.check('one line per cell', len(rows) == len(want) and all(len(r) == nd + 1 for r in rows))
        pending = dict((tuple(w[:-1]), w[-1]) for w in want)
        from harness.concrete import veq
        for r in rows:
            k = tuple(r[:-1])
            G.check('line %r stands under its labels, once' % (r,), k in pending)
            v = pending.pop(k)
            G.check('value of %r' % (r,), r[-1] == repr(v.item()) or r[-1] == str(v) or r[-1] == repr(v) or (v == v and float(r[-1]) == v))
        # and back
        skip = G.int('skip', 0, 2)
        if skip:
            body = open(path).read()
            with open(path, 'w') as f:
                for k in range(skip):
                    f.write('header %d%swith%smore\n' % (k, d or ',', d or ','))
                f.write(body)
        full = all(x.n(a) > 0 for a in range(nd))
        G.assume(full and x.dt != 'b')
        if skip:
            kw['skiprows'] = skip
        r = G.call('larry.fromcsv', path, kw=kw)
    labs = [G.list_seq(sorted(str(z) for z in x.label[a])) for a in range(nd)]
    back = [dict((str(z), k) for k, z in enumerate(x.label[a])) for a in range(nd)]

    def cell(idx):
        return x.x[tuple(back[a][labs[a].get(idx[a])] for a in range(nd))]
    G.check('the result is a larry', isinstance(r, G.la.larry))
    r2 = r.copy()
    r2.x = r2.x.astype(float)
    G.is_larry(r2, labs, cell, approx=True)


@contract('C23', proof_only=True, twin='tofile')
def tofile_spec(G):
    "the text of the file, for every larry, delimiter and file name"
    nd = G.ndim(1, 4)
    x = G.larry('x', nd, G.dt('dt', 'fibs'))
    d = G.text('delimiter') if G.flag('given') else None
    kw = {} if d is None else {'delimiter': d}
    d = d or ','
    isname = G.flag('filename')
    name = G.text('name')
    if isname:
        f = name
    else:
        f = G.open_file(name)
    G.call('larry.tofile', x, f, kw=kw, raises=[(ValueError, nd > 2)])
    if not isname:
        G.check('a file object given is left open', not f.closed)
    lab = lambda a, i: G.str(x.lab(a).get(i))
    if nd == 1:
        want = G.rep(x.n(0), lambda i: G.cat(lab(0, i), d, G.str(G.val(x, [i])), '\n'))
    else:
        head = G.cat(d, G.joined(d, x.n(1), lambda j: lab(1, j)), '\n')
        want = G.cat(head, G.rep(x.n(0), lambda i: G.cat(lab(0, i), G.rep(x.n(1), lambda j: G.cat(d, G.str(G.val(x, [i, j])))), '\n')))
    G.check_text('the text of the file', G.content(f), want)


@contract('C23', proof_only=True, twin='tocsv')
def tocsv_spec(G):
    "one row per cell, in C order: its labels, then its value"
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fib'))
    d = G.text('delimiter') if G.flag('given') else None
    name = G.text('name')
    G.call('larry.tocsv', x, name, kw={} if d is None else {'delimiter': d})
    n, at = numbered(G, x)

    def row(k):
        idx = at(k)
        return G.csv_row(d or ',', [x.lab(a).get(idx[a]) for a in range(nd)] + [G.val(x, idx)])
    G.check_text('the rows of the file', G.content(name), G.rep(n, row))


@contract('C23', proof_only=True, twin='tocsv')
def fromcsv_spec(G):
    "the cells of a CSV file under their labels, after skiprows lines"
    nd = G.ndim(1, 3)
    t = G.table(nd, 's')
    G.numeric_text()
    d = G.text('delimiter') if G.flag('given') else None
    skip = G.pick('skiprows', [0, 1, 2])
    name = G.text('name')
    G.csv_file(name, d or ',', skip, t.n, lambda k: list(t.tups.get(k)) + [t.vals.get(k)])
    kw = {} if d is None else {'delimiter': d}
    if skip:
        kw['skiprows'] = skip
    check_rebuilt(G, G.call('larry.fromcsv', name, kw=kw), t, nd)
