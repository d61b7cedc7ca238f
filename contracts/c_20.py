import os
import re
from contracts.base import *
from contracts.c_19 import KEYS, LKINDS, clash, same_as, some_key, storable, stored


def shows(G, io, model):
    keys = io.keys()
    G.check('keys are exactly the stored names', sorted(keys) == sorted(model) and len(set(keys)) == len(keys))
    G.check('len, iteration, has_key and in agree with the keys',
            len(io) == len(model) and sorted(io) == sorted(model) and sorted(io.iterkeys()) == sorted(model) and
            all(k in io and io.has_key(k) for k in model) and
            not any(k in io or io.has_key(k) for k in KEYS + ['nokey', 'g', 'g/h', 'x/x', 'a/0', ''] if k not in model))
    for k in model:
        same_as(G, io[k][:], model[k], name=k)
    its = io.items()
    G.check('items and values are the stored larrys', sorted(k for k, z in its) == sorted(model) and
            [k for k, z in its] == [k for k, z in io.iteritems()])
    for k, z in its:
        same_as(G, z[:], model[k], name='item ' + k)
    vals = io.values()
    G.check('one value per key', len(vals) == len(model) == len(list(io.itervalues())))
    for k, z in zip([k for k, q in its], vals):
        same_as(G, z[:], model[k], name='value ' + k)
    rows = [[p.strip() for p in re.split('  +', q.strip())] for q in repr(io).strip().split('\n')]
    G.check('the printed archive lists name, dtype and shape of each larry, in order of name',
            rows[0] == ['larry', 'dtype', 'shape'] and rows[2:] == [[k, str(model[k].obj.x.dtype), str(model[k].obj.x.shape)] for k in sorted(model)])
    size = os.path.getsize(io.filename)
    G.check('space is the size of the file', io.space == size)
    G.check('freespace is what of it the stored data do not occupy', io.freespace == size - stored_bytes(io.filename))


def stored_bytes(path):
    import h5py
    f = h5py.File(path, 'r')
    try:
        def rec(g):
            return sum([rec(g[k]) if isinstance(g[k], h5py.Group) else g[k].id.get_storage_size() for k in g.keys()])
        return rec(f)
    finally:
        f.close()


@contract('C20', weight=6, bounded='histories of up to 8 operations on real files: the HDF5 library itself')
def history(G):
    with G.scratch() as path:
        io = G.la.IO(path)
        G.target = 'IO'
        G.check('a new archive is empty', io.keys() == [])
        model = {}
        n = G.int('ops', 1, 8)
        for step in range(n):
            G.nontrivial = True
            op = G.pick('op%d' % step, ['set', 'set', 'set', 'set', 'del', 'del', 'clear', 'repack', 'reopen', 'missing', 'bad', 'unsavable', 'assign', 'assign', 'assignbad'])
            if op == 'set':
                key = G.pick('key%d' % step, [k for k in KEYS if k in model or not clash(k, model)])
                v = storable(G, 'x%d' % step)
                act(G, io.__setitem__, key, v.obj)
                model[key] = v
            elif op == 'del':
                key = G.pick('key%d' % step, KEYS)
                if key in model:
                    act(G, io.__delitem__, key)
                    del model[key]
                else:
                    act(G, io.__delitem__, key, want=KeyError)
            elif op == 'clear':
                act(G, io.clear)
                model = {}
            elif op == 'repack':
                act(G, io.repack)
            elif op == 'reopen':
                io = G.la.IO(path)
            elif op == 'missing':
                absent = [k for k in KEYS if k not in model and not any(z.startswith(k + '/') for z in model)]
                act(G, io.__getitem__, G.pick('key%d' % step, absent + ['nokey']), want=KeyError)
            elif op == 'bad':
                what = G.pick('what%d' % step, ['value', 'key', 'delkey'])
                if what == 'value':
                    act(G, io.__setitem__, G.pick('key%d' % step, KEYS), G.pick('v%d' % step, [1, None, [1], 'a']), want=TypeError)
                elif what == 'key':
                    act(G, io.__setitem__, G.pick('k%d' % step, [1, None, (1,)]), G.la.larry([1, 2]), want=TypeError)
                else:
                    act(G, io.__delitem__, G.pick('k%d' % step, [1, None, (1,)]), want=(TypeError, KeyError))
            elif op == 'unsavable':
                v = G.pick('u%d' % step, [G.la.larry([1, 2], [['a', 1]]), G.la.larry([1.0, None, 'a']), G.la.larry([[1, 2]], [['a'], [2, 3.5]])])
                key = G.pick('key%d' % step, [k for k in KEYS if k in model or not clash(k, model)])
                act(G, io.__setitem__, key, v, want=(TypeError, ValueError))
            elif model and op == 'assign':
                key = G.pick('key%d' % step, sorted(model))
                v = model[key]
                if v.x.size and v.dt in 'fi':
                    idx = []
                    for k in range(v.nd):
                        i = G.int('i%d.%d' % (step, k), 0, v.n(k) - 1)
                        j = G.int('j%d.%d' % (step, k), 0, v.n(k))
                        idx.append(i if j <= i else slice(i, j))
                    idx = tuple(idx) if v.nd > 1 else idx[0]
                    val = G.int('val%d' % step, -9, 9)
                    act(G, io[key].__setitem__, idx, val)
                    y = v.obj.copy()
                    y.x[idx] = val
                    model[key] = G.view(y)
            elif model and op == 'assignbad':
                key = G.pick('key%d' % step, sorted(model))
                v = model[key]
                act(G, io[key].__setitem__, 10 ** 6, 1, want=Exception) if v.x.size else None
        shows(G, io, model)


def act(G, f, *args, **kw):
    want = kw.get('want')
    try:
        f(*args)
    except Exception as e:
        if want and isinstance(e, want):
            return
        import traceback
        G.tb = traceback.format_exc()
        G.fail('exception', '%s%r raised %s: %s' % (f.__name__, args[:1], type(e).__name__, e))
    if want:
        G.fail('no exception', '%s%r did not raise' % (f.__name__, args[:1]))


@contract('C20', weight=1, proved_by='functions_spec')
def functions(G):
    "is_archived_larry, archive_directory, repack, delete and load on one file"
    with G.scratch() as path:
        model = {}
        G.target = 'io'
        import la.io as LIO
        opened = G.flag('opened')
        if opened:
            path = G.opened(path)
        for k in range(G.int('count', 0, 3)):
            key = G.pick('key%d' % k, [z for z in KEYS if not clash(z, model)])
            v = storable(G, 'x%d' % k)
            G.call('io.save', path, v, key)
            model[key] = v
        if G.flag('repack'):
            r = LIO.repack(path)
            if opened:
                G.is_closed('the file before repacking is closed', path)
                G.is_open('repack returns the archive, open', r)
                path = r
            else:
                G.is_none(r)
        G.check('archive_directory lists the stored keys', sorted(LIO.archive_directory(path)) == sorted(model))
        for k in model:
            G.check('is_archived_larry', LIO.is_archived_larry(path, k) == True)
            same_as(G, G.call('io.load', path, k), model[k])
        for k in KEYS:
            if k not in model and not any(z.startswith(k + '/') for z in model):
                act(G, LIO.load, path, k, want=KeyError)
                act(G, LIO.delete, path, k, want=KeyError)
        if model:
            k = G.pick('gone', sorted(model))
            LIO.delete(path, k)
            G.check('a deleted key is gone and nothing else', sorted(LIO.archive_directory(path)) == sorted(z for z in model if z != k))
        if opened:
            G.is_open('an archive given open stays open', path)


def archive(G, *own):
    """(path, path of the expected archive, families): both hold arbitrarily many other larrys and
    groups that are not larrys"""
    path = G.text('path')
    want = G.cat(path, '.expected')
    G.typed()
    fam = G.family('others', *own)
    plain = G.groups('groups', fam, *own)
    plain.beside = []
    G.archive(path, fam, plain)
    return path, want, fam, plain


def holding(G, nd, dts='f', kinds=('int', 'str')):
    """an archive that holds a larry, under a key that may be nested, and others:
    (larry, key, path, expected, others, plain groups)"""
    x = stored(G, 'x', nd, dts, kinds)
    depth = G.pick('depth', [1, 2])
    name = G.key('key')
    names = [name] + [G.key('key.%d' % k) for k in range(depth - 1)]
    top, key = name, G.path(*names)
    path, want, fam, plain = archive(G, top)
    if depth > 1:
        plain.beside = [(G.path(top, G.key('beside', names[1])), stored(G, 'w', 1, 'f', ['int']))]
        G.call('io.save', path, plain.beside[0][1], plain.beside[0][0])
    G.call('io.save', path, x, key)
    return x, key, path, want, fam, plain, top


def expected(G, want, fam, plain):
    "the archive `want` holds the other larrys only"
    G.archive(want, fam, plain)
    for k, v in plain.beside:
        G.call('io.save', want, v, k)


def io_of(G, path):
    return G.call('io.IO', path)


@contract('C20', proof_only=True, twin='history')
def set_spec(G):
    "io[key] = larry: the archive then holds the larry under the key, and all others as before"
    nd = G.ndim(1, 2)
    v = stored(G, 'v', nd, 'fs', ['int', 'str', 'date'])
    top, key = some_key(G, 'key', G.pick('depth', [1, 2]))
    path, want, fam, plain = archive(G, top)
    before = G.pick('before', ['nothing', 'larry', 'other'])
    if before == 'larry':
        w = stored(G, 'w', G.ndim(1, 2, name='w.nd'), 'f', ['int'])
        G.call('io.save', path, w, key)
    G.archive(want, fam, plain)
    if before == 'other':
        j = G.int('j', 0, fam.n - 1)
        key = fam.key(j)
        want = G.cat(want, '2')
        G.archive(want, fam.without(j), plain)
    G.call('op.setitem', io_of(G, path), key, v)
    G.call('io.save', want, v, key)
    G.check_archive('after storing a larry', path, want)


@contract('C20', proof_only=True, twin='history')
def del_spec(G):
    "del io[key] removes that larry and nothing else; io.delete is the same"
    x, key, path, want, fam, plain, top = holding(G, G.ndim(1, 2))
    which = G.pick('which', ['the larry', 'other'])
    if which == 'other':
        j = G.int('j', 0, fam.n - 1)
        expected(G, want, fam.without(j), plain)
        G.call('io.save', want, x, key)
        key = fam.key(j)
    else:
        expected(G, want, fam, plain)
    if G.flag('function'):
        opened = G.flag('opened')
        f = G.opened(path) if opened else path
        G.call('io.delete', f, key)
        if opened:
            G.is_open('an archive given open stays open', f)
    else:
        G.call('op.delitem', io_of(G, path), key)
    G.check_archive('after deleting', path, want)


@contract('C20', proof_only=True, twin='history')
def get_spec(G):
    "io[key] is the larry stored under key"
    x, key, path, want, fam, plain, top = holding(G, G.ndim(1, 2), 'fs')
    which = G.pick('which', ['the larry', 'other'])
    io = io_of(G, path)
    if which == 'other':
        j = G.int('j', 0, fam.n - 1)
        r = G.call('op.getitem', G.call('op.getitem', io, fam.key(j)), slice(None))
        G.is_larry(r, [fam.lab(j)], lambda idx: fam.cell(j, idx[0]), dt='f')
    else:
        r = G.call('op.getitem', G.call('op.getitem', io, key), slice(None))
        G.is_larry(r, labs_of(x), lambda idx: x.cell(idx), dt=x.dt)


@contract('C20', proof_only=True, twin='history')
def refused_spec(G):
    "operations that fail leave the archive as it was"
    x, key, path, want, fam, plain, top = holding(G, G.ndim(1, 2))
    expected(G, want, fam, plain)
    G.call('io.save', want, x, key)
    absent = G.key('absent', top, fam, plain)
    if G.flag('nested'):
        absent = G.path(absent, G.key('absent2'))
    group = plain.key(G.int('group', 0, plain.n - 1)) if G.flag('group') else None
    missing = absent if group is None else group
    io = io_of(G, path)
    how = G.pick('how', ['get', 'del', 'load', 'delete', 'set group', 'not a larry', 'key', 'del key', 'mixed', 'objects'])
    if how == 'get':
        G.refused('op.getitem', io, missing, raises=KeyError)
    elif how == 'del':
        G.refused('op.delitem', io, missing, raises=KeyError)
    elif how == 'load':
        G.refused('io.load', path, missing, raises=KeyError)
    elif how == 'delete':
        G.refused('io.delete', path, missing, raises=KeyError)
    elif how == 'set group':
        G.assume(group is not None)
        G.refused('op.setitem', io, group, stored(G, 'v', 1, 'f', ['int']), raises=KeyError)
    elif how == 'not a larry':
        G.refused('op.setitem', io, key if G.flag('present') else absent, G.pick('value', [1, None, [1], 'a']), raises=TypeError)
    elif how == 'key':
        G.refused('op.setitem', io, G.pick('badkey', [1, None, (1,)]), stored(G, 'v', 1, 'f', ['int']), raises=TypeError)
    elif how == 'del key':
        G.refused('op.delitem', io, G.pick('badkey', [1, None, (1,)]), raises=(TypeError, KeyError))
    else:
        nd = G.ndim(1, 2, name='v.nd')
        v = G.larry('v', nd, 'f' if how == 'mixed' else 'o')
        bad = G.axis(nd, neg=False)
        for a in range(nd):
            if a != bad:
                G.label_kind(v, a, 'int')
        if how == 'mixed':
            G.assume(v.n(bad) > 0)
            G.types_differ(v.lab(bad).get(G.int('i', 0, v.n(bad) - 1)), v.lab(bad).get(G.int('j', 0, v.n(bad) - 1)))
        else:
            G.label_kind(v, bad, 'str')
        G.refused('op.setitem', io, key if G.flag('present') else absent, v, raises=TypeError)
    G.check_archive('after the failed operation', path, want)
    G.check_files('no other file is left', path, want)


@contract('C20', proof_only=True, twin='history')
def clear_spec(G):
    "clear removes every larry and nothing else"
    x, key, path, want, fam, plain, top = holding(G, G.ndim(1, 2))
    G.archive(want, plain)
    G.call('IO.clear', io_of(G, path))
    G.check_archive('after clearing', path, want)


@contract('C20', proof_only=True, twin='history')
def repack_spec(G):
    "repack keeps the content and leaves no other file behind"
    x, key, path, want, fam, plain, top = holding(G, G.ndim(1, 2), 'fs')
    expected(G, want, fam, plain)
    G.call('io.save', want, x, key)
    if G.flag('function'):
        opened = G.flag('opened')
        f = G.opened(path) if opened else path
        r = G.call('io.repack', f)
        if opened:
            G.is_closed('the file before repacking is closed', f)
            G.is_open('repack returns the archive, open', r)
            G.is_bool(G.call('io.is_archived_larry', r, key), True)
        else:
            G.is_none(r)
    else:
        G.call('IO.repack', io_of(G, path))
    G.check_archive('after repacking', path, want)
    G.check_files('no other file is left', path, want)


@contract('C20', proof_only=True, twin='history')
def assign_spec(G):
    "io[key][index] = value changes these cells on disk as it would change them in memory"
    nd = G.ndim(1, 2)
    x, key, path, want, fam, plain, top = holding(G, nd, 'fi')
    for a in range(nd):
        G.assume(x.n(a) > 0)
    y = G.view(G.call('larry.copy', x))
    expected(G, want, fam, plain)
    idx = []
    for a in range(nd if G.flag('tuple') else 1):
        n = x.n(a)
        if G.flag('slice%d' % a):
            start = G.int('start%d' % a, -n - 2, n + 2) if G.flag('hasstart%d' % a) else None
            stop = G.int('stop%d' % a, -n - 2, n + 2) if G.flag('hasstop%d' % a) else None
            step = G.pick('step%d' % a, [None, 2])
            G.assume(G.slice_pos(n, start, stop, step).n > 0)
            idx.append(slice(start, stop, step))
        else:
            idx.append(G.int('i%d' % a, -n, n - 1))
    i = tuple(idx) if len(idx) > 1 else idx[0]
    v = G.scalar('value', x.dt)
    G.call('op.setitem', y, i, v, modifies=[y])
    G.call('io.save', want, y, key)
    G.call('op.setitem', G.call('op.getitem', io_of(G, path), key), i, v)
    G.check_archive('after assigning', path, want)


@contract('C20', proof_only=True, twin='history')
def keys_spec(G):
    "keys, len, in, has_key and iteration show exactly the larrys"
    x, key, path, want, fam, plain, top = holding(G, 1)
    io = io_of(G, path)
    how = G.pick('how', ['keys', 'iter', 'iterkeys', 'archive_directory', 'len', 'in', 'has_key'])
    absent = G.key('absent', top, fam, plain)
    if how in ('keys', 'iter', 'iterkeys', 'archive_directory'):
        if how == 'archive_directory':
            r = G.call('io.archive_directory', path)
        else:
            r = G.call('op.iter' if how == 'iter' else 'IO.' + how, io)
        G.lists_all(r, fam.n + 1 + len(plain.beside), [key] + [k for k, v in plain.beside], fam, [absent], plain)
    elif how == 'len':
        G.check('the number of larrys', G.call('op.len', io) == fam.n + 1 + len(plain.beside))
    else:
        j, k = G.int('j', 0, fam.n - 1), None
        group = plain.key(G.int('group', 0, plain.n - 1)) if G.flag('group') else absent
        f = (lambda k: G.call('op.contains', io, k)) if how == 'in' else (lambda k: G.call('IO.has_key', io, k))
        which = G.pick('which', ['the larry', 'other', 'none'])
        G.is_bool(f({'the larry': key, 'other': fam.key(j), 'none': group}[which]), which != 'none')


@contract('C20', proof_only=True, twin='history')
def values_spec(G):
    "values, items and their iterators give every larry under its key"
    x, key, path, want, fam, plain, top = holding(G, G.ndim(1, 2), 'fs')
    io = io_of(G, path)
    how = G.pick('how', ['items', 'values', 'iteritems', 'itervalues'])
    r = G.call('op.list', G.call('IO.' + how, io))
    G.check('one for every larry', G.call('op.len', r) == fam.n + 1 + len(plain.beside))
    where = G.pick('where', ['the larry', 'beside', 'other'])
    G.assume(where != 'beside' or len(plain.beside) > 0)
    parts = G.elements(r)
    keys = G.elements(G.call('IO.keys', io), parts)
    own = [(k, v) for k, v in plain.beside] + [(key, x)]
    G.check('the larrys and the others', len(parts) == len(keys) == len(own) + 1)
    at = {'the larry': len(own) - 1, 'beside': 0, 'other': len(own)}[where]
    v, name, j = parts[at][1], keys[at][1], parts[at][0]
    if 'items' in how:
        G.check('the key', G.call('op.eq', v[0], name))
        v = v[1]
    q = G.call('op.getitem', v, slice(None))
    if j is None:
        G.check('its key', G.call('op.eq', name, own[at][0]))
        w = own[at][1]
        G.is_larry(q, labs_of(w), lambda idx: w.cell(idx), dt=w.dt)
    else:
        G.check('its key', G.call('op.eq', name, fam.key(j)))
        G.is_larry(q, [fam.lab(j)], lambda idx: fam.cell(j, idx[0]), dt='f')


@contract('C20', proof_only=True, twin='functions')
def functions_spec(G):
    "is_archived_larry, and load of each"
    x, key, path, want, fam, plain, top = holding(G, G.ndim(1, 2), 'fs')
    opened = G.flag('opened')
    if opened:
        path = G.opened(path)
    j = G.int('j', 0, fam.n - 1)
    which = G.pick('which', ['the larry', 'other', 'group'])
    if which == 'group':
        G.is_bool(G.call('io.is_archived_larry', path, plain.key(G.int('group', 0, plain.n - 1))), False)
        if opened:
            G.is_open('an archive given open stays open', path)
        return
    k = key if which == 'the larry' else fam.key(j)
    G.is_bool(G.call('io.is_archived_larry', path, k), True)
    r = G.call('io.load', path, k)
    if opened:
        G.is_open('an archive given open stays open', path)
    if which == 'other':
        G.is_larry(r, [fam.lab(j)], lambda idx: fam.cell(j, idx[0]), dt='f')
    else:
        G.is_larry(r, labs_of(x), lambda idx: x.cell(idx), dt=x.dt)
