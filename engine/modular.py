"""Contracts that stand in for the body of a callee.

A summary is used at call sites in place of the body; the contract `<name>_spec`
(contracts/) proves, for every configuration, that the body of the real function
satisfies exactly this summary, and is part of the check of every property whose
proofs use it.  A summary returns NotImplemented when its precondition is not known
to hold; the body is then executed instead.
"""
import z3
from .core import *
from .interp import Inst, Poison


def _axis(I, axis, nd):
    if isinstance(axis, bool) or not isinstance(axis, int):
        axis = simp_int(axis) if is_int(axis) else axis
    return axis if isinstance(axis, int) and not isinstance(axis, bool) else None


def morph(I, vars):
    "larry.morph(label, axis): labels -> label along axis, missing where there is no such label"
    E, np = I.E, I.np
    if list(vars) != ['self', 'label', 'axis']:
        return NotImplemented
    self, label, axis = vars['self'], vars['label'], vars['axis']
    if not isinstance(self, Inst) or self.cls.name != 'larry':
        return NotImplemented
    x, lab = self.attrs.get('x'), self.attrs.get('label')
    if not isinstance(x, np.Arr) or not isinstance(lab, PList) or lab.items is None or lab.tup or len(lab.items) != len(x.shape):
        return NotImplemented
    if not isinstance(label, PList) or label.tup or any(not isinstance(z, PList) or z.tup for z in lab.items):
        return NotImplemented
    nd, ax = len(x.shape), _axis(I, axis, len(x.shape))
    if ax is None or ax < -nd or x.kind not in 'fibso':
        return NotImplemented
    if ax >= nd:
        raise PyRaise(IndexError, 'axis out of range')
    ax %= nd
    old = lab.items[ax]
    new = label.frozen()
    if E.uniq(old) is not True and E.check(Not(to_bool(E.uniq(old)))) != z3.unsat:
        return NotImplemented
    same = E.seq_eq(old, new)
    mem, pos = E.list_index(old.frozen())
    u = E.uniq(new)
    if not E.branch(u):
        raise PyRaise(IndexError, 'duplicates')
    n = new.length()
    kind = x.kind
    if kind in 'ib' and same is not True:
        conv = Or(E.exists_range(n, lambda i: Not(mem(new.get(i)))), And(Not(same), eqint(n, 0)))
        if E.branch(conv):
            kind = 'f'
    mark = {'f': E.NAN, 's': E.EMPTY, 'o': E.NONEV}.get(kind)
    f = np.cellfn(x)

    def cell(idx):
        v = new.get(idx[ax])
        idx = list(idx)
        at = lambda p: f(idx[:ax] + [p] + idx[ax + 1:])
        if mark is None:
            return at(pos(v))
        return E.ite(mem(v), np.cast(at(pos(v)), x.kind, kind), mark)
    shape = x.shape[:ax] + (n,) + x.shape[ax + 1:]
    r = np.normal(shape, cell, kind)
    labs = [I.mklist([]) for _ in lab.items]
    for k, z in enumerate(lab.items):
        labs[k] = z.copy() if k != ax else label.copy()
    labs[ax].uniqf = True
    out = Inst(E, self.cls)
    out.attrs['x'] = r
    out.attrs['label'] = I.mklist(labs)
    return out


SUMMARIES = {'la.deflarry.larry.morph': morph}
USED = set()


def install(I, E, contract):
    skip = contract.cfg.get('inline', ())
    USED.clear()
    I.contracts = {}
    for full, f in SUMMARIES.items():
        if full.split('.')[-1] in skip:
            continue

        def use(I, vars, f=f, full=full):
            r = f(I, vars)
            if r is not NotImplemented:
                USED.add(full)
            return r
        I.contracts[full] = use
