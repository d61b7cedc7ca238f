"""Text, files and CSV rows.

A Text is a string known as a sequence of pieces: literal characters, str() of a symbolic value,
a repetition `piece(0) + piece(1) + ... + piece(n-1)` of symbolic length, one row of a CSV file.
Two texts are equal if their pieces are, aligned one by one; where they cannot be aligned the
question is left open (Unsupported), except that different literal characters at the same place
are a difference.

A GFile is an open file; its content is the Text written so far, or the Text that was there.
Assumed: what is written to a file is what is in it; csv.reader gives back the rows that
csv.writer wrote with the same delimiter, str() of each field (repr() of a float).
"""
import itertools
import z3
from .core import *
from .interp import OStr, PyIter, Builtin, Module, Poison, Sc, Inst, subst_b

counter = itertools.count()
TextS = z3.DeclareSort('Text')


def hole():
    return z3.Const('#txt%d' % next(counter), Int)


class Of(object):
    "str(v) (how = 'str'), repr(v) ('repr') of a symbolic value, or an arbitrary text ('raw')"
    def __init__(self, how, kind, term):
        self.how, self.kind, self.term = how, kind, term

    def __repr__(self):
        return '%s:%s(%s)' % (self.how, self.kind, self.term)

    def subst(self, E, c, t):
        return Of(self.how, self.kind, subst(E, self.term, c, t))


class Rep(object):
    def __repr__(self):
        return 'Rep(%s, %r)' % (self.n, self.fn(hole()))

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def subst(self, E, c, t):
        def fn(i):
            h = hole()
            return self.fn(h).subst(c, t).subst(h, i)
        return Rep(subst(E, self.n, c, t), fn)


class Cond(object):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def subst(self, E, c, t):
        return Cond(subst_b(self.c, c, t), self.a.subst(c, t), self.b.subst(c, t))


class Row(object):
    "one CSV row, with its line end"
    def __init__(self, delimiter, fields):
        self.delimiter, self.fields = delimiter, fields

    def subst(self, E, c, t):
        return Row(self.delimiter.subst(c, t), [f.subst(c, t) for f in self.fields])


class Header(object):
    "an arbitrary line"
    def __init__(self, name):
        self.name = name

    def subst(self, E, c, t):
        return self


class Text(OStr):
    istext = True

    def __init__(self, E, parts):
        self.E = E
        out = []
        for p in parts:
            if isinstance(p, Text):
                out += p.parts
            else:
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str):
                if not p:
                    continue
                if merged and isinstance(merged[-1], str):
                    merged[-1] += p
                    continue
            if isinstance(p, Rep):
                n = simp_int(p.n) if sym(p.n) else p.n
                if isinstance(n, int):
                    if n <= 0:
                        continue
                    if n <= 16:
                        q = [z for i in range(n) for z in p.fn(z3.IntVal(i)).parts]
                        merged += q
                        continue
            merged.append(p)
        self.parts = merged

    def subst(self, c, t):
        return Text(self.E, [p if isinstance(p, str) else p.subst(self.E, c, t) for p in self.parts])

    def literal(self):
        if all(isinstance(p, str) for p in self.parts):
            return ''.join(self.parts)

    def __repr__(self):
        return 'Text(%s)' % ' '.join(repr(p) for p in self.parts)


def lower(t):
    "a host string, or a label, when the text is one"
    s = t.literal()
    if s is not None:
        return s
    if t.E.typed and len(t.parts) == 1 and isinstance(t.parts[0], Of) and t.parts[0].how == 'str' and t.parts[0].kind == 'u' and is_str(t.E, t.parts[0].term):
        return t.parts[0].term
    return t


def is_str(E, u):
    "a label known to be a string"
    from . import h5model
    return E.typed and h5model.has_type(E, u, 'str')


def as_text(E, v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text(E, [v])
    if E.typed and is_u(v) and is_str(E, v):
        return Text(E, [Of('str', 'u', v)])
    return None


def same_text(E, a, b):
    """a == b, exactly: only for texts with the same beginning, or that are one piece each"""
    a, b = list(as_text(E, a).parts), list(as_text(E, b).parts)
    whole = True
    while a and b:
        p, q = a[0], b[0]
        if isinstance(p, str) and isinstance(q, str):
            k = min(len(p), len(q))
            if p[:k] != q[:k]:
                return False
            a[0], b[0] = p[k:], q[k:]
            a, b = [z for z in a if z != ''], [z for z in b if z != '']
            continue
        if isinstance(p, Of) and isinstance(q, Of) and (p.how, p.kind) == (q.how, q.kind) and p.term.eq(q.term):
            a, b = a[1:], b[1:]
            continue
        break
    if not a and not b:
        return True
    if not a or not b:
        if any(isinstance(p, str) for p in a or b):
            return False
        raise Unsupported('a text that may be empty')
    if len(a) == len(b) == 1 and isinstance(a[0], Of) and isinstance(b[0], Of) and (a[0].how, a[0].kind) == (b[0].how, b[0].kind) and \
            (a[0].how == 'raw' or is_u(a[0].term) and is_str(E, a[0].term) and is_str(E, b[0].term)):
        return a[0].term == b[0].term
    raise Unsupported('texts that cannot be aligned: %r %r' % (a, b))


def str_of(I, v, how='str'):
    "str(v), or None if its content is not tracked"
    E = I.E
    if isinstance(v, Text):
        return v if how == 'str' else None
    if isinstance(v, OStr):
        return None
    if isinstance(v, str) or v is None or isinstance(v, (bool, int)):
        return Text(E, [str(v) if how == 'str' else repr(v)])
    if isinstance(v, Sc):
        if v.kind == 'i':
            return Text(E, [Of('str', 'u', U.UI(E.coerce(v.v, Int)))])
        if v.kind in 'fbso':
            return Text(E, [Of(how, v.kind, v.v)])
    if is_int(v):
        return Text(E, [Of('str', 'u', U.UI(v))])
    if is_bool(v):
        return Text(E, [Of('str', 'b', v)])
    if is_u(v):
        return Text(E, [Of(how, 'u', v)])
    return None


def join(I, d, L):
    E = I.E
    d = as_text(E, d)
    segs = L.segments()
    out = []
    first = True
    for k, s in enumerate(segs):
        if s[0] == 'one':
            e = as_text(E, s[1])
            if e is None:
                return not_text(I, s[1])
            out += [e] if first else [d, e]
            first = False
            continue
        _, n, fn = s
        h = hole()
        with E.generic(h):
            e = fn(h)
            if as_text(E, e) is None:
                return not_text(I, e)
        fn = lambda i, fn=fn: as_text(E, fn(i))
        if first:
            if not E.branch(lt(0, n)):
                continue
            out.append(fn(z3.IntVal(0)))
            fn, n = (lambda i, fn=fn: fn(i + 1)), n - 1
            first = False
        out.append(Rep(n, lambda i, fn=fn: Text(E, [d, fn(i)])))
    return lower(Text(E, out))


def not_text(I, v):
    if isinstance(v, OStr):
        return OStr()
    if is_u(v) or isinstance(v, Sc) or sym(v):
        raise Unsupported('join of values that may not be strings')
    raise PyRaise(TypeError, 'sequence item: expected string')


def equal(E, a, b, fuel=12):
    "a == b, as a term"
    a, b = as_text(E, a), as_text(E, b)
    return eq_parts(E, a.parts, b.parts, fuel)


def eq_parts(E, a, b, fuel):
    r = True
    a, b = list(a), list(b)
    while True:
        if fuel < 0:
            raise Unsupported("texts that cannot be aligned: %r %r" % (a, b))
        for x, y in ((a, b), (b, a)):
            if x and isinstance(x[0], Cond):
                p = x[0]
                s = Implies(p.c, eq_parts(E, p.a.parts + x[1:], y, fuel - 1))
                t = Implies(Not(p.c), eq_parts(E, p.b.parts + x[1:], y, fuel - 1))
                return And(r, s, t)
        if not a and not b:
            return r
        if not a or not b:
            x = a or b
            if all(isinstance(p, Rep) for p in x):
                if all(p.fn(hole()).parts for p in x):
                    return And(r, *[le(p.n, 0) for p in x])
                raise Unsupported('a text that may be empty')
            if any(isinstance(p, (str, Row, Header)) for p in x) or any(p.how == 'str' and p.kind != 's' for p in x if isinstance(p, Of)):
                return False
            raise Unsupported('a text that may be empty')
        p, q = a[0], b[0]
        if isinstance(p, str) and isinstance(q, str):
            k = min(len(p), len(q))
            if p[:k] != q[:k]:
                return False
            a[0], b[0] = p[k:], q[k:]
            a, b = [z for z in a if z != ''], [z for z in b if z != '']
            a, b = list(Text(E, a).parts), list(Text(E, b).parts)
            continue
        if isinstance(p, Of) and isinstance(q, Of):
            if p.how != q.how or p.kind != q.kind:
                raise Unsupported('texts of different values')
            r = And(r, E.coerce(p.term, p.term.sort()) == E.coerce(q.term, p.term.sort()) if not p.term.eq(q.term) else True)
            a, b = a[1:], b[1:]
            continue
        if isinstance(p, Row) and isinstance(q, Row):
            if len(p.fields) != len(q.fields):
                return False
            r = And(r, equal(E, p.delimiter, q.delimiter), *[equal(E, f, g) for f, g in zip(p.fields, q.fields)])
            a, b = a[1:], b[1:]
            continue
        if isinstance(p, Header) and isinstance(q, Header) and p.name == q.name:
            a, b = a[1:], b[1:]
            continue
        if isinstance(p, Rep) and isinstance(q, Rep):
            same = E.forall_range(p.n, lambda i: equal(E, p.fn(i), q.fn(i), fuel - 1))
            n, m = p.n, q.n
            if not eqint(n, m) is True:
                both = And(lt(n, 1), lt(m, 1))
                r = And(r, Or(both, eqint(n, m)))
            r = And(r, same)
            a, b = a[1:], b[1:]
            continue
        if isinstance(p, Rep) or isinstance(q, Rep):
            x, y = (a, b) if isinstance(p, Rep) else (b, a)
            p = x[0]
            if E.known(le(p.n, 0)):
                a, b = a[1:] if x is a else a, b[1:] if x is b else b
                continue
            more = p.fn(z3.IntVal(0)).parts + [Rep(simp_int(p.n - 1), lambda i: p.fn(i + 1))] + x[1:]
            more = Text(E, more).parts
            s = Implies(lt(0, p.n), eq_parts(E, more, y, fuel - 1))
            t = Implies(le(p.n, 0), eq_parts(E, Text(E, x[1:]).parts, y, fuel - 1)) if E.known(lt(0, p.n)) is not True else True
            return And(r, s, t)
        raise Unsupported("texts that cannot be aligned: %r %r" % (a, b))


def ite(E, c, a, b):
    a, b = as_text(E, a), as_text(E, b)
    if a is None or b is None:
        raise Unsupported('cannot merge a text and another value')
    if c is True:
        return a
    if c is False:
        return b
    return Text(E, [Cond(c, a, b)])


def percent(I, s, args):
    "s % args for %s, %r, %d, or None"
    E = I.E
    a = list(args) if isinstance(args, tuple) else [args]
    out = []
    i = 0
    while i < len(s):
        j = s.find('%', i)
        if j < 0:
            out.append(s[i:])
            break
        out.append(s[i:j])
        k = s[j + 1:j + 2]
        if k == '%':
            out.append('%')
        elif k in ('s', 'r', 'd'):
            if not a:
                raise PyRaise(TypeError, 'not enough arguments for format string')
            v = a.pop(0)
            if k == 'd' and not (is_int(v) or isinstance(v, int) or isinstance(v, Sc) and v.kind == 'i'):
                return None
            t = str_of(I, v, 'repr' if k == 'r' else 'str')
            if t is None:
                return None
            out.append(t)
        else:
            return None
        i = j + 2
    if a:
        raise PyRaise(TypeError, 'not all arguments converted during string formatting')
    return lower(Text(E, out))


# ------------------------------------------------------------------ files

class Content(object):
    "what a file holds"
    def __init__(self, E, parts=()):
        self.sink = PList(E, items=[Text(E, list(parts))] if parts else [])
        self.sink.sink = True

    def text(self, E):
        return Text(E, list(self.sink.items))


class GFile(object):
    def __init__(self, I, content, mode):
        self.I, self.content, self.mode = I, content, mode
        self.closed = False
        self.stamp = I.E.new_stamp()

    def change(self):
        E = self.I.E
        E.may_change(self)
        if any(self.stamp < lc.stamp for lc in E.loops):
            raise Unsupported('file opened, read or closed inside a summarised loop')

    def attr(self, name):
        if name == 'closed':
            return self.closed
        f = getattr(self, 'm_' + name, None)
        if f is None:
            if hasattr(__import__('io').TextIOWrapper, name):
                raise Unsupported('file method ' + name)
            raise PyRaise(AttributeError, name)
        return Builtin(name, f)

    def usable(self, mode):
        if self.closed:
            raise PyRaise(ValueError, 'I/O operation on closed file')
        if self.mode[0] not in mode:
            raise PyRaise(IOError, 'File not open for this')

    def m_write(self, v):
        self.usable('wa')
        t = as_text(self.I.E, v)
        if t is None:
            if isinstance(v, OStr) or sym(v) or isinstance(v, Sc):
                raise Unsupported('untracked text written to a file')
            raise PyRaise(TypeError, 'expected a character buffer object')
        self.content.sink.append(t)

    def m_writelines(self, v):
        L = self.I.seq(v)
        E = self.I.E
        out = []
        for s in L.segments():
            if s[0] == 'one':
                out.append(s[1])
            else:
                h = hole()
                with E.generic(h):
                    if as_text(E, s[2](h)) is None:
                        raise Unsupported('untracked text written to a file')
                out.append(Text(E, [Rep(s[1], lambda i, fn=s[2]: as_text(E, fn(i)))]))
        for t in out:
            self.m_write(t)

    def m_flush(self):
        self.usable('rwa')

    def m_close(self):
        if not self.closed:
            self.change()
            self.closed = True

    def m_read(self):
        self.usable('r')
        self.change()
        if getattr(self, 'used', False):
            raise Unsupported('a file read twice')
        self.used = True
        return lower(self.content.text(self.I.E))


def open_file(I, name, mode='r', *buffering):
    E = I.E
    if isinstance(mode, str) is False:
        raise Unsupported('file mode')
    if buffering:
        raise Unsupported('buffering of a file')
    if as_text(E, name) is None:
        if name is None or isinstance(name, (int, PList, tuple)):
            raise PyRaise(TypeError, 'coercing to Unicode')
        raise Unsupported('file name %r' % (name,))
    if any(True for lc in E.loops):
        raise Unsupported('file opened in a summarised loop')
    mode = mode.replace('b', '').replace('U', '') or 'r'
    if mode not in ('r', 'w', 'a'):
        raise Unsupported('file mode ' + mode)
    at = None
    for k, (nm, c) in enumerate(I.files):
        if E.branch(same_text(E, nm, name)):
            at = k
            break
    if mode == 'r':
        if at is None:
            raise Unsupported('reading an unknown file')
        return GFile(I, I.files[at][1], mode)
    if at is None:
        if mode == 'a':
            raise Unsupported('appending to an unknown file')
        c = Content(E)
        I.files.append((name, c))
    elif mode == 'w':
        c = Content(E)
        I.files[at] = (name, c)
    else:
        c = I.files[at][1]
    return GFile(I, c, mode)


# ------------------------------------------------------------------ csv

class Writer(object):
    def __init__(self, I, f, d):
        self.I, self.f, self.d = I, f, d

    def attr(self, name):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise PyRaise(AttributeError, name)
        return Builtin(name, f)

    def row(self, v):
        I, E = self.I, self.I.E
        if not isinstance(v, (tuple, PList)):
            raise Unsupported('csv row %r' % (v,))
        L = I.seq(v)
        if L.items is None:
            raise Unsupported('csv row of unknown length')
        fs = []
        for z in L.items:
            t = str_of(I, z, 'repr' if isinstance(z, Sc) and z.kind == 'f' else 'str')
            if t is None:
                raise Unsupported('csv field %r' % (z,))
            fs.append(t)
        return Text(E, [Row(self.d, fs)])

    def m_writerow(self, v):
        self.f.m_write(self.row(v))

    def m_writerows(self, v):
        E = self.I.E
        L = self.I.seq(v)
        L = L.frozen()
        for s in L.segments():
            if s[0] == 'one':
                self.m_writerow(s[1])
            else:
                h = hole()
                with E.generic(h):
                    self.row(s[2](h))
                self.f.m_write(Text(E, [Rep(s[1], lambda i, fn=s[2]: self.row(fn(i)))]))


class Reader(PyIter):
    def __init__(self, I, f, d):
        self.I, self.f, self.d = I, f, d
        self.i = 0
        self.stamp = I.E.new_stamp()
        f.usable('r')
        f.change()
        if getattr(f, 'used', False):
            raise Unsupported('a file read twice')
        f.used = True
        self.segs = []
        E = I.E
        for p in f.content.text(E).parts:
            if isinstance(p, (Row, Header)):
                self.segs.append(('one', self.fields(p)))
            elif isinstance(p, Rep):
                h = hole()
                with E.generic(h):
                    q = p.fn(h).parts
                    if len(q) != 1 or not isinstance(q[0], Row):
                        raise Unsupported('csv reader on other text')
                    self.fields(q[0])
                self.segs.append(('rep', p.n, lambda i, p=p: self.fields(p.fn(i).parts[0])))
            else:
                raise Unsupported('csv reader on other text')

    def fields(self, row):
        I, E = self.I, self.I.E
        if isinstance(row, Header):
            return Poison('a header line')
        if equal(E, row.delimiter, self.d) is not True:
            raise Unsupported('csv reader with another delimiter')
        return PList(E, items=[read_back(E, f) for f in row.fields])

    @property
    def seq(self):
        E = self.I.E
        if self.f.closed:
            raise PyRaise(ValueError, 'I/O operation on closed file')
        L = PList(E, items=[])
        for s in self.segs:
            L = L.concat(PList(E, items=[s[1]]) if s[0] == 'one' else PList(E, n=s[1], fn=s[2]))
        return L

    def attr(self, name):
        if name == 'next':
            return Builtin('next', self.next)
        if name == '__iter__':
            return Builtin('__iter__', lambda: self)
        raise Unsupported('csv reader ' + name)

    def next(self):
        E = self.I.E
        E.may_change(self)
        if self.f.closed:
            raise PyRaise(ValueError, 'I/O operation on closed file')
        if any(self.stamp < lc.stamp for lc in E.loops):
            raise Unsupported('a file read inside a summarised loop')
        while self.segs:
            s = self.segs[0]
            if s[0] == 'one':
                self.segs = self.segs[1:]
                return s[1]
            _, n, fn = s
            if E.branch(lt(0, n)):
                self.segs = [('rep', simp_int(n - 1), lambda i: fn(i + 1))] + self.segs[1:]
                return fn(z3.IntVal(0))
            self.segs = self.segs[1:]
        raise PyRaise(StopIteration, '')


def read_back(E, f):
    "the string read from a CSV field"
    if len(f.parts) == 1 and isinstance(f.parts[0], Of):
        p = f.parts[0]
        if p.how == 'raw' and p.kind == 'u':
            return p.term
        if p.how == 'raw' and p.kind == 's':
            return Sc('s', p.term)
        if p.how == 'str' and p.kind == 'u':
            return z3.Function('v_str_label', U, U)(p.term)
    raise Unsupported('csv field read back')


def sys_module(I):
    m = Module('sys')
    m.d['version_info'] = (2, 7, 18, 'final', 0)
    m.d['maxint'] = 2 ** 63 - 1
    return m


def string_module(I):
    import string
    m = Module('string')
    for k in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'punctuation'):
        m.d[k] = getattr(string, k)
    m.d['letters'], m.d['lowercase'], m.d['uppercase'] = string.ascii_letters, string.ascii_lowercase, string.ascii_uppercase
    return m


def random_module(I):
    m = Module('random')

    def randint(a, b):
        E = I.E
        if E.loops:
            raise Unsupported('random numbers in a summarised loop')
        if not E.branch(le(a, b)):
            raise PyRaise(ValueError, 'empty range')
        r = E.const('random', Int)
        E.assume(And(le(a, r), le(r, b)))
        return r
    m.d['randint'] = Builtin('randint', randint)
    return m


def some_char(I, s, i):
    "s[i] of a literal string"
    E = I.E
    if not E.branch(And(le(-len(s), i), lt(i, len(s)))):
        raise PyRaise(IndexError, 'string index out of range')
    return Text(E, [Of('raw', 'text', z3.Function('v_char', TextS, Int, TextS)(z3.Const('lit_%x' % hash(s), TextS), E.coerce(i, Int)))])


def csv_module(I):
    m = Module('csv')

    def delim(kw, a):
        if len(a) > 1 or a:
            raise Unsupported('csv dialect')
        d = as_text(I.E, kw.pop('delimiter', ','))
        if kw:
            raise Unsupported('csv option')
        if d is None:
            raise Unsupported('csv delimiter')
        return d

    def writer(f, *a, **kw):
        d = delim(kw, a)
        if not isinstance(f, GFile):
            raise Unsupported('csv writer on %r' % (f,))
        return Writer(I, f, d)

    def reader(f, *a, **kw):
        d = delim(kw, a)
        if not isinstance(f, GFile):
            raise Unsupported('csv reader on %r' % (f,))
        return Reader(I, f, d)
    m.d['writer'] = Builtin('writer', writer)
    m.d['reader'] = Builtin('reader', reader)
    return m


def eq_values(E, a, b):
    x, y = as_text(E, a), as_text(E, b)
    if x is not None and y is not None:
        if E.typed:
            from . import h5model
            r = h5model.paths_eq(E, x, y)
            if r is not None:
                return r
        return same_text(E, x, y)
    for z in (a, b):
        if isinstance(z, OStr) and not isinstance(z, Text) or is_u(z) or is_v(z) or isinstance(z, Sc):
            raise Unsupported('comparison of a text')
    return False
