from contracts.base import *


@contract('C21', weight=3, also=(), proved_by='cross_validation_spec')
def cross_validation(G):
    big = G.flag('big')
    n = G.int('n', 14, 130) if big else G.int('n', -1, 13)
    kfold = G.int('kfold', 2, n) if big else G.int('kfold', 0, 14)
    shuf = G.pick('shuffle', [None, 'given'])
    perm = G.permuter('perm')
    kw = {} if shuf is None else {'shuffle': perm}
    bad = G.Or(G.lt(n, 2), G.lt(kfold, 2), G.lt(n, kfold))
    folds = G.iterate('resample.cross_validation', n, kfold, kw=kw, raises=[(ValueError, bad)])
    G.check('number of folds', G.eq(len(folds), kfold))
    full = range(n)
    q = n // kfold
    seen = []
    for k, p in enumerate(folds):
        train, test = G.unpack(p, 2)
        G.check('train and test are lists', type(train) is list and type(test) is list)
        G.check('train and test of fold %d partition the range' % k, sorted(train + test) == full)
        G.check('size of test set %d' % k, len(test) == (q if k < kfold - 1 else n - q * (kfold - 1)))
        seen.extend(test)
        if shuf == 'given':
            order = perm.order(n)
            G.check('fold %d follows the order of the shuffled index' % k, test == order[q * k:q * k + len(test)] and
                    train == order[:q * k] + order[q * k + len(test):])
    G.check('test sets are disjoint and cover the range', sorted(seen) == full)


# The same statement for every n and kfold; the permutation is whatever the shuffle did.
@contract('C21', proof_only=True, twin='cross_validation', also=())
def cross_validation_spec(G):
    n = G.int('n', -1, 13)
    kfold = G.int('kfold', -1, 14)
    kw = {'shuffle': G.permuter('perm')} if G.flag('given') else {}
    bad = G.Or(G.lt(n, 2), G.lt(kfold, 2), G.lt(n, kfold))
    folds = G.seq_of(G.call('resample.cross_validation', n, kfold, kw=kw, raises=[(ValueError, bad)]))
    p, = G.perms([n])
    rank = G.perm_inverse(0)
    q = G.idiv(n, kfold)
    size = lambda k: G.ite(k < kfold - 1, lambda: q, lambda: n - q * (kfold - 1))
    G.check('number of folds', G.eq(folds.n, kfold))

    def fold(idx):
        k, = idx
        train, test = G.unpack(folds.get(k), 2)
        G.is_list(test, G.seq(size(k), lambda j: p(q * k + j)), name='the test set: a slice of the shuffled index')
        G.is_list(train, G.seq(n - size(k), lambda j: p(G.ite(j < q * k, lambda: j, lambda: j + size(k)))),
                  name='the training set: the rest of the shuffled index')
        # with p a bijection, train and test partition the range because the two slices do
        G.check('the test slice lies within the index', G.And(q * k >= 0, size(k) >= 1, q * k + size(k) <= n))
    G.at_indices([kfold], fold)
    # the slices of different folds are disjoint and together are the whole index

    def apart(idx):
        k, m = idx
        G.check('test sets of different folds are disjoint', G.implies(k < m, q * k + size(k) <= q * m))
    G.at_indices([kfold, kfold], apart)

    def cover(idx):
        r = rank(idx[0])
        k = G.min(G.idiv(r, q), kfold - 1)
        G.check('every row is in a test set', G.And(k >= 0, k < kfold, q * k <= r, r < q * k + size(k), G.eq(p(r), idx[0])))
    G.at_indices([n], cover)


@contract('C21', weight=2, also=(), proved_by='bootstrap_spec')
def bootstrap(G):
    n = G.int('n', -1, 9)
    nboot = G.int('nboot', -1, 6)
    given = G.flag('given')
    rnd = G.randinter('randint')
    kw = {'randint': rnd} if given else {}
    bad = G.Or(G.lt(n, 2), G.lt(nboot, 1))
    pairs = G.iterate('resample.bootstrap', n, nboot, kw=kw, raises=[(ValueError, bad)])
    G.check('number of samples', len(pairs) == nboot)
    k = 0
    for p in pairs:
        train, test = G.unpack(p, 2)
        G.check('train and test are lists', type(train) is list and type(test) is list)
        G.check('n training indices in range', len(train) == n and all(0 <= z < n for z in train))
        G.check('the test set is exactly the rows never drawn', sorted(test) == [i for i in range(n) if i not in train])
        G.check('the test set is not empty', len(test) > 0)
        if given:
            while k < len(rnd.drawn) and len(set(rnd.drawn[k])) == n:
                k += 1
            G.check('the training set is the sample as drawn', k < len(rnd.drawn) and rnd.drawn[k] == train)
            k += 1


# The same statement for every n and nboot and any random source (termination is left open).
@contract('C21', proof_only=True, twin='bootstrap', also=())
def bootstrap_spec(G):
    n = G.int('n', -1, 9)
    nboot = G.int('nboot', -1, 6)
    kw = {'randint': G.randinter('randint')} if G.flag('given') else {}
    bad = G.Or(G.lt(n, 2), G.lt(nboot, 1))

    def pair(k, v):
        train, test = G.unpack(v, 2)
        G.check('no more than nboot samples', k < nboot)
        d = G.drawn(-1)
        G.check('drawn from all rows', G.And(G.eq(d.range[0], 0), G.eq(d.range[1], n)))
        G.is_list(train, G.seq(n, lambda i: d.get(i)), name='the training set: the sample as drawn')
        t, s = G.seq_of(train), G.seq_of(test)
        G.check('the test set is a list', G.is_host_list(test))
        G.check('the test set is not empty', s.n > 0)
        G.check('no row is twice in the test set', G.uniq(s))
        G.at_indices([s.n], lambda idx: G.check('test rows are within range and never drawn', G.And(s.get(idx[0]) >= 0, s.get(idx[0]) < n, G.Not(G.isin(t, s.get(idx[0]))))))
        G.at_indices([n], lambda idx: G.check('every row never drawn is in the test set', G.Or(G.isin(t, idx[0]), G.isin(s, idx[0]))))
    G.each_yield('la.util.resample.bootstrap', pair)
    G.invariant('la.util.resample.bootstrap', lambda v, k: [G.eq(v('#yields'), v('count')), v('count') < nboot])
    pairs = G.seq_of(G.call('resample.bootstrap', n, nboot, kw=kw, raises=[(ValueError, bad)]))
    G.check('number of samples', G.eq(pairs.n, nboot))


@contract('C21')
def split(G):
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dt', 'fis'))
    ax = G.axis(nd)
    a = norm(ax, nd)
    n = x.n(a)
    tr = G.intlist('train', G.int('ntrain', 0, 5), 0, n - 1)
    te = G.intlist('test', G.int('ntest', 0, 5), 0, n - 1)
    G.assume(G.uniq(tr.seq))
    G.assume(G.uniq(te.seq))
    r = G.call('resample.split', x, tr, te, ax)
    for nm, q, L in zip(['train', 'test'], G.unpack(r, 2), [tr, te]):
        labs = replace_at(labs_of(x), a, G.seq(L.n, lambda i, L=L: x.lab(a).get(L.get(i))))
        G.is_larry(q, labs, lambda idx, L=L: x.cell(idx[:a] + [L.get(idx[a])] + idx[a + 1:]), dt=x.dt, name=nm)
