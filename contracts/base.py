# The contract registry.  A contract is a function of a context G; it draws the
# inputs (preconditions), calls the real function and states the postconditions.
# The same text is executed concretely (harness/concrete.py, Python 2.7, on the
# real code) and symbolically (engine/sym.py, on the AST of the real code).
CONTRACTS = []


class Contract(object):
    def __init__(self, prop, f, bounded, variants, weight, also, cfg):
        self.prop, self.f, self.bounded = prop, f, bounded
        self.variants, self.weight, self.also = variants, weight, also
        self.name = f.__name__
        self.cfg = cfg


def contract(prop, bounded=None, variants=('c',), weight=1, also=('C18',), **cfg):
    """bounded: reason why the contract is only checked at run time (None: proved)."""
    def deco(f):
        assert all(c.name != f.__name__ for c in CONTRACTS), f.__name__
        CONTRACTS.append(Contract(prop, f, bounded, variants, weight, also, cfg))
        return f
    return deco


def load():
    if not CONTRACTS:
        import importlib, os
        here = os.path.dirname(os.path.abspath(__file__))
        for fn in sorted(os.listdir(here)):
            if fn.startswith('c_') and fn.endswith('.py'):
                importlib.import_module('contracts.' + fn[:-3])
    return CONTRACTS


# ---------------------------------------------------------------- shared spec

def norm(ax, nd):
    return ax + nd if ax < 0 else ax


def pos_in(G, x, labs, idx):
    "the index in x of the cell whose labels are those at idx of labs"
    return [G.index(x.lab(a), labs[a].get(idx[a])) for a in range(x.nd)]


def all_in(G, x, labs, idx):
    return G.And(*[G.isin(x.lab(a), labs[a].get(idx[a])) for a in range(x.nd)])


def cell_or_missing(G, x, labs, dt):
    "the cells of x under the labels labs, missing where x has no such label"
    def cell(idx):
        return G.ite(all_in(G, x, labs, idx), lambda: x.cell(pos_in(G, x, labs, idx)), lambda: G.marker(dt))
    return cell


def some_missing(G, x, labs):
    return G.Or(*[G.any(labs[a].n, lambda i, a=a: G.Not(G.isin(x.lab(a), labs[a].get(i)))) for a in range(x.nd)])


def filled_dt(dt, missing):
    "dtype kind after missing markers were needed (missing: concrete bool)"
    return 'f' if missing and dt in 'ib' else dt


def joined(G, la, lb, how):
    "labels of a joined axis"
    if G.branch(G.seq_eq(la, lb)):
        return la
    if how == 'inner':
        return G.inter(la, lb)
    if how == 'outer':
        return G.union(la, lb)
    return la if how == 'left' else lb


def labs_of(x):
    return [x.lab(a) for a in range(x.nd)]


def replace_at(seq, i, v):
    out = list(seq)
    out[i] = v
    return out


def any_index(G, ns, f):
    "exists a multi-index within ns with f(idx)"
    if hasattr(G, 'any_index'):
        return G.any_index(ns, f)

    def rec(k, idx):
        if k == len(ns):
            return f(idx)
        return G.any(ns[k], lambda i: rec(k + 1, idx + [i]))
    return rec(0, [])


def all_index(G, ns, f):
    if hasattr(G, 'all_index'):
        return G.all_index(ns, f)

    def rec(k, idx):
        if k == len(ns):
            return f(idx)
        return G.all(ns[k], lambda i: rec(k + 1, idx + [i]))
    return rec(0, [])
