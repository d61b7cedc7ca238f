from contracts.base import *

ARITH = ['add', 'sub', 'mul', 'div', 'floordiv']
LOGIC = ['and', 'or']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
OPN = {'and': 'logical_and', 'or': 'logical_or'}


def numeric(G, op, a, b):
    "keep to the operand kinds NumPy defines the operator for"
    return a, b


def two(G, ops, dts):
    op = G.pick('op', ops)
    nd = G.ndim(1, 3)
    dx = G.dt('dx', dts)
    dy = G.dt('dy', dts)
    x = G.larry('x', nd, dx)
    y = G.larry('y', nd, dy, near=dict((a, [x.lab(a)]) for a in range(nd)))
    return op, nd, x, y


def check_binary(G, op, x, y, r):
    labs = [joined(G, x.lab(a), y.lab(a), 'inner') for a in range(x.nd)]
    G.is_larry(r, labs, lambda idx: G.op(OPN.get(op, op), x.cell(pos_in(G, x, labs, idx)), y.cell(pos_in(G, y, labs, idx))))


@contract('C03', weight=3)
def binary_arith(G):
    op, nd, x, y = two(G, ARITH, 'fi')
    check_binary(G, op, x, y, G.call('op.' + op, x, y))


@contract('C03')
def binary_truediv(G):
    op, nd, x, y = two(G, ['truediv'], 'fi')
    check_binary(G, op, x, y, G.call('op.truediv', x, y))


@contract('C03')
def binary_logic(G):
    op, nd, x, y = two(G, LOGIC, 'fib')
    check_binary(G, op, x, y, G.call('op.' + op, x, y))


@contract('C03', weight=2)
def binary_compare(G):
    op, nd, x, y = two(G, CMP, 'fi')
    check_binary(G, op, x, y, G.call('op.' + op, x, y))


@contract('C03')
def binary_ndim(G):
    "different dimensions are refused"
    op = G.pick('op', ARITH + LOGIC + CMP)
    n1 = G.ndim(1, 3, name='n1')
    n2 = G.ndim(1, 3, name='n2')
    G.assume(n1 != n2)
    x = G.larry('x', n1, 'f', cap=4)
    y = G.larry('y', n2, 'f', near=dict((a, [x.lab(a)]) for a in range(min(n1, n2))), cap=4)
    G.call('op.' + op, x, y, raises=[(IndexError, True)])


@contract('C03', weight=2)
def scalar_right(G):
    op = G.pick('op', ARITH + LOGIC + CMP)
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fi'))
    s = G.scalar('s', G.pick('ds', ['f', 'i']))
    r = G.call('op.' + op, x, s)
    G.is_larry(r, labs_of(x), lambda idx: G.op(OPN.get(op, op), x.cell(idx), s))


@contract('C03', weight=2)
def scalar_left(G):
    op = G.pick('op', ARITH + LOGIC + CMP)
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fi'))
    s = G.scalar('s', G.pick('ds', ['f', 'i']))
    r = G.call('op.' + op, s, x)
    G.is_larry(r, labs_of(x), lambda idx: G.op(OPN.get(op, op), s, x.cell(idx)))


@contract('C03')
def scalar_truediv(G):
    side = G.pick('side', ['left', 'right'])
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fi'))
    s = G.scalar('s', G.pick('ds', ['f', 'i']))
    if side == 'right':
        r = G.call('op.truediv', x, s)
        G.is_larry(r, labs_of(x), lambda idx: G.op('truediv', x.cell(idx), s))
    else:
        r = G.call('op.truediv', s, x)
        G.is_larry(r, labs_of(x), lambda idx: G.op('truediv', s, x.cell(idx)))


@contract('C03', weight=2)
def array_right(G):
    op = G.pick('op', ARITH + LOGIC + CMP)
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fi'))
    y = G.array('y', [x.n(a) for a in range(nd)], G.dt('dy', 'fi'))
    r = G.call('op.' + op, x, y)
    G.is_larry(r, labs_of(x), lambda idx: G.op(OPN.get(op, op), x.cell(idx), y.cell(idx)))


@contract('C03', weight=2)
def array_left(G):
    "NumPy hands array <op> larry to the reflected method of larry"
    op = G.pick('op', ARITH)
    nd = G.ndim(1, 3)
    x = G.larry('x', nd, G.dt('dx', 'fi'))
    y = G.array('y', [x.n(a) for a in range(nd)], G.dt('dy', 'fi'))
    r = G.call('op.' + op, y, x)
    G.is_larry(r, labs_of(x), lambda idx: G.op(OPN.get(op, op), y.cell(idx), x.cell(idx)))


@contract('C03')
def operand_type(G):
    op = G.pick('op', ARITH + LOGIC + CMP)
    nd = G.ndim(1, 2)
    x = G.larry('x', nd, 'f', cap=3)
    bad = G.pick('bad', [None, {'a': 1}, set([1])])
    G.call('op.' + op, x, bad, raises=[(TypeError, True)])


@contract('C03')
def operand_list(G):
    op = G.pick('op', ARITH + LOGIC)
    nd = G.ndim(1, 2)
    x = G.larry('x', nd, 'f', cap=3)
    bad = G.pick('bad', [[1.0], (1, 2)])
    G.call('op.' + op, x, bad, raises=[(TypeError, True)])
