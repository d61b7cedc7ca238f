"""Runs the contracts symbolically: every obligation generated from the current source
is discharged by z3 (cvc5 as a second opinion), configuration by configuration."""
import os, sys, re, json, time, subprocess, heapq, traceback, multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


# ------------------------------------------------------------- source extraction

def strip_pyx(text):
    """Drop the C type annotations of a .pyx file, nothing else: `cdef T a = e, b` becomes
    `a = e`, parameter types and cimports are removed."""
    out = []
    for line in text.split('\n'):
        m = re.match(r'^(\s*)cdef\s+\w+\s+(.*)$', line)
        if re.match(r'^\s*from\s+\w+(\.\w+)*\s+cimport\b', line) or re.match(r'^\s*cimport\b', line):
            continue
        if m:
            parts, depth, cur = [], 0, ''
            for ch in m.group(2):
                if ch in '([{':
                    depth += 1
                if ch in ')]}':
                    depth -= 1
                if ch == ',' and depth == 0:
                    parts.append(cur)
                    cur = ''
                else:
                    cur += ch
            parts.append(cur)
            parts = [p.strip() for p in parts if '=' in p]
            out.append(m.group(1) + ('; '.join(parts) if parts else 'pass'))
            continue
        m = re.match(r'^(\s*(?:cp)?def\s+\w+\()(.*)(\):\s*)$', line)
        if m:
            ps = [re.sub(r'^\s*(?:unsigned\s+)?\w+\s+(\w+)', r'\1', p) for p in m.group(2).split(',')]
            out.append(re.sub(r'cpdef', 'def', m.group(1)) + ', '.join(p.strip() for p in ps) + m.group(3))
            continue
        out.append(line)
    return '\n'.join(out)


def dump(d, py, env, tmp):
    "ASTs of every module of the scratch copy d/la, parsed by the python2.7 that runs it"
    args = []
    root = os.path.join(d, 'la')
    for dp, dn, fn in os.walk(root):
        dn[:] = [z for z in dn if z not in ('tests', 'data', 'src', '__pycache__')]
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            rel = os.path.relpath(os.path.join(dp, f), d)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            args.append('%s=%s' % (rel, os.path.join(dp, f)))
    pyx = os.path.join(root, 'src', 'cflabel.pyx')
    if os.path.exists(pyx):
        p = os.path.join(tmp, 'cflabel_stripped.py')
        open(p, 'w').write(strip_pyx(open(pyx).read()))
        args.append('la.cflabel=' + p)
    out = os.path.join(tmp, 'asts.json')
    subprocess.run([py, os.path.join(HERE, 'engine', 'dump_ast.py'), out] + args, env=env, check=True,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return out


# ------------------------------------------------------------------------ worker

W = {}


def init(astfile, variant):
    import z3
    from . import core, interp, sym
    z3.BoolRef.__bool__ = sym._nobool
    key = variant
    if key in W:
        return W[key]
    asts = interp.load_asts(astfile)
    absent = []
    if variant == 'py':
        asts.pop('la.cflabel', None)
    E = core.Engine()
    E.base = 10 ** 9
    E.frames = [core.Frame([])]
    I = interp.Interp(E, asts, absent=absent)
    E.stamp = 0
    for m in sorted(asts):
        try:
            I.load(m)
        except core.PyRaise as e:
            I.skipped.append('%s: %s' % (m, e))
    E.base = E.stamp + 1
    E.loading = False
    W[key] = (E, I)
    return W[key]


def run_unit(astfile, cname, variant, cfg, only, limit, opts=None):
    """One contract under one configuration: all paths.  -> summary dict"""
    from contracts import base
    from . import core, sym, modular
    import z3
    E, I = init(astfile, variant)
    c = [q for q in base.load() if q.name == cname][0]
    t0 = time.time()
    E.deadline = t0 + limit
    E.obligations = []
    E.stats = core.Stats()
    I.calls = set()
    E.first_timeout, E.prove_timeout, E.model_timeout = 1500, 3000, 1500
    E.branch_timeout = 40
    E.open_count = 0
    for k, v in (opts or {}).items():
        setattr(E, k, v)
    modular.install(I, E, c)
    draws = []
    info = dict(paths=0, done=0, reached=0)
    und = []
    gs = []

    def thunk():
        G = sym.SymG(E, I, cfg, only)
        G.contract = cname
        gs[:] = [G]
        info['paths'] += 1
        try:
            try:
                c.f(G)
            except sym.Done:
                pass
            info['done'] += 1
            if not info.get('sat'):
                info['sat'] = E.check() != z3.unsat     # the path is not contradictory
        finally:
            draws.append(list(G.seqc))
            info['reached'] += bool(G.reached)

    fails = []

    def on_fail(ob, model):
        if model is not None and not fails:
            try:
                ob['given'] = sym_model(E, gs[0], model)
            except Exception as e:
                ob['given_error'] = '%s: %s' % (type(e).__name__, e)
        fails.append(ob)
    E.on_fail = on_fail
    try:
        E.paths(thunk)
    except core.Unsupported as e:
        und.append('%s' % e)
        if os.environ.get('VERIF_TB'):
            traceback.print_exc()
    except sym.Unresolved as e:
        und.append('unresolved %s' % e)
    except RecursionError:
        und.append('recursion limit')
    except Exception as e:
        und.append('internal %s: %s %s' % (type(e).__name__, e, ' '.join(traceback.format_exc().split('\n')[-6:])[:500]))
    E.on_fail = None
    if not und and info['done'] and not info.get('sat') and not fails:
        und.append('vacuous: the hypotheses of every path are contradictory')
    if not und and info['done'] and not E.obligations and not only:
        und.append('vacuous: no obligation was generated')
    children = []
    seen = set()
    for seq in draws:
        last = max([i for i, z in enumerate(seq) if z[1] != 0] or [-1])
        for i, (nm, k, n) in enumerate(seq):
            if i > last:
                for q in range(1, n):
                    ch = dict((a, b) for a, b, _ in seq[:i] if b)
                    ch[nm] = q
                    key = tuple(sorted(ch.items()))
                    if key not in seen:
                        seen.add(key)
                        children.append(ch)
    st = {}
    by = {}
    for o in E.obligations:
        st[o['status']] = st.get(o['status'], 0) + 1
        if o['status'] == 'discharged':
            by[o['by']] = by.get(o['by'], 0) + 1
    names = {}
    for o in E.obligations:
        names.setdefault(o['name'], []).append(o['status'])
    return dict(contract=cname, variant=variant, cfg=cfg, status=st, by=by, undecided=und, children=children, info=info,
                names=dict((k, [len(v), sum(z == 'discharged' for z in v)]) for k, v in names.items()),
                failed=[dict((k, v) for k, v in o.items() if k not in ('model',)) for o in E.obligations if o['status'] != 'discharged'][:6],
                time=time.time() - t0, solver=E.stats.time + E.stats.branch_time, queries=E.stats.queries + E.stats.branch_queries,
                calls=sorted(z for z in I.calls if z), contracts_used=sorted(modular.USED))


def sym_model(E, G, model):
    from . import replaymodel
    return replaymodel.given(E, G, model)


# --------------------------------------------------------------------- scheduler

def _work(astfile, inq, outq, limit, opts):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(6000)
    while True:
        u = inq.get()
        if u is None:
            return
        cname, variant, cfg, only = u
        try:
            r = run_unit(astfile, cname, variant, cfg, only, limit, opts)
        except MemoryError:
            r = None
        except Exception as e:
            r = dict(contract=cname, variant=variant, cfg=cfg, status={}, by={}, undecided=['internal %s: %s' % (type(e).__name__, e)], children=[],
                     info={}, names={}, failed=[], time=0, solver=0, queries=0, calls=[], contracts_used=[])
        outq.put((os.getpid(), u, r))


class Pool(object):
    "worker processes; a worker that dies or overruns gives an undecided unit"
    def __init__(self, astfile, n, limit, opts=None):
        self.args = (astfile, limit, opts)
        self.ctx = mp.get_context('fork')
        self.outq = self.ctx.Queue()
        self.limit = limit
        self.ws = [self.spawn() for _ in range(n)]

    def spawn(self):
        inq = self.ctx.Queue()
        p = self.ctx.Process(target=_work, args=(self.args[0], inq, self.outq, self.args[1], self.args[2]), daemon=True)
        p.start()
        return dict(p=p, q=inq, unit=None, t=0)

    def run(self, units, deadline, on_result):
        "units: priority queue [(prio, tie, unit)]; on_result(unit, r) may push more"
        import queue
        while True:
            now = time.time()
            for w in self.ws:
                if w['unit'] is None and units and now < deadline:
                    w['unit'] = heapq.heappop(units)[2]
                    w['t'] = now
                    w['q'].put(w['unit'])
            if not any(w['unit'] for w in self.ws):
                return
            try:
                pid, u, r = self.outq.get(timeout=0.5)
                for w in self.ws:
                    if w['p'].pid == pid:
                        w['unit'] = None
                if r is None:
                    r = dict(undecided=['memory'], children=[], status={}, by={}, failed=[], names={}, info={}, time=0, solver=0, queries=0, calls=[], contracts_used=[])
                on_result(u, r)
            except queue.Empty:
                pass
            now = time.time()
            for k, w in enumerate(self.ws):
                if w['unit'] and (not w['p'].is_alive() or now - w['t'] > self.limit * 2 + 15):
                    u = w['unit']
                    w['p'].kill()
                    self.ws[k] = self.spawn()
                    on_result(u, dict(undecided=['worker lost'], children=[], status={}, by={}, failed=[], names={}, info={}, time=now - w['t'], solver=0, queries=0, calls=[], contracts_used=[]))

    def close(self):
        for w in self.ws:
            try:
                w['p'].kill()
            except Exception:
                pass


# ------------------------------------------------------------------ one property

FRAME_TOO = ('C02', 'C05', 'C06', 'C10', 'C20', 'C21')
PLAN = os.path.join(HERE, 'engine', 'plan.json')


def unit_key(u):
    cname, variant, cfg, only = u
    return '%s:%s:%s:%s' % (cname, variant, ','.join('%s=%d' % z for z in sorted(cfg.items())), 'f' if only and 'ensures' not in only else 'e')


def groups(prop):
    if prop == 'C18':
        return ('frame', 'sharing')
    return ('ensures', 'frame') if prop in FRAME_TOO else ('ensures',)


def contracts_of(prop):
    from contracts import base
    return [c for c in base.load() if (('C18' in c.also) if prop == 'C18' else c.prop == prop)]


def load_plan():
    try:
        return json.load(open(PLAN))
    except (IOError, ValueError):
        return {}


SOLVER_TRUST = [
    'z3 5.3 (through python3-vt) and cvc5 1.1.2 as the deciding back ends',
    'the verification-condition generator of /verif/engine (symbolic interpreter of the Python 2.7 subset la uses; summaries of loops by closed forms)',
    'the NumPy model of /verif/engine/nump.py: arrays are total maps from index tuples to cells, reductions and ufuncs are uninterpreted but deterministic functions of the cells they read',
    'the AST is produced by the ast module of the python2.7 that runs the code; from cflabel.pyx only C type annotations and cimports are dropped',
]
SOLVER_ASSUME = [
    'machine arithmetic treated as mathematical: cell and index integers are unbounded, float arithmetic is an uninterpreted function of its operands',
    'labels are integers or members of one totally ordered infinite set of other hashable values (no cross-type equality, no NaN labels)',
    'string cells do not overflow the itemsize of their dtype; the text of exception messages is not tracked',
    'configurations (number of axes <= 3, axis argument, dtype kind, options) are enumerated; lengths, labels, cells, indices are unbounded',
]
PROP_TRUST = {
    'C19': ['the h5py and datetime model of /verif/engine/h5model.py: an archive is a tree of groups and datasets found by path, a dataset gives back the array it was made from, visititems and copy walk the tree; dates, times and datetimes are determined by their ordinal or fields',
            'the text model of /verif/engine/iomodel.py for keys and file names'],
    'C23': ['the text model of /verif/engine/iomodel.py: a file holds what was written to it, csv.reader gives the rows csv.writer wrote, str() is an uninterpreted function'],
}
PROP_TRUST['C20'] = PROP_TRUST['C19']


def run(prop, d, py, env, tier, tmp, seconds, concrete=None, focus=()):
    """Prove the contracts of one property.  concrete(contract, given, variant) replays
    inputs on the real code, concrete_search(...) explores it."""
    t0 = time.time()
    plan = load_plan()
    g = groups(prop)
    only = None if g == ('ensures', 'frame', 'sharing') else g
    ast = dump(d, py, env, tmp)
    cs = contracts_of(prop)
    bounded = [{'contract': c.name, 'reason': c.bounded} for c in cs if c.bounded]
    res = dict(obligations=0, discharged=0, failed=[], candidates=[], suspects={}, undecided=[], bounded=bounded, functions=[], backends={}, solver_s=0.0,
               units=0, units_proved=0, contracts={}, trusted_base=SOLVER_TRUST + PROP_TRUST.get(prop, []), assumptions=list(SOLVER_ASSUME),
               checker_cmd='python3-vt check.py %s  (z3 in process, cvc5 on what z3 leaves open)' % prop)
    funcs, back = set(), {}
    twins = dict((c.name, c.cfg.get('twin')) for c in cs if c.cfg.get('proof_only'))
    todo = [c for c in cs if not c.bounded and not c.cfg.get('proved_by')]
    if not todo:
        return res
    limit = 25 if tier == 'quick' else 240
    heap, tie = [], [0]
    sent = set()

    def push(u):
        k = unit_key(u)
        if k in sent:
            return
        sent.add(k)
        p = plan.get(k)
        if p is None:
            cost = 3.0
        elif p[0] in ('ok', 'empty'):
            cost = p[1]
        else:
            if tier == 'quick':
                und.setdefault(u[0], {}).setdefault('%s (as on the unchanged tree)' % p[0], []).append(u[2])
                # its variations are still tried
                for ch in p[2] if len(p) > 2 else []:
                    push((u[0], u[1], ch, u[3]))
                return
            cost = 30.0
        tie[0] += 1
        heapq.heappush(heap, (len(u[2]) * 4 + cost - (1000 if u[0] in focus else 0), tie[0], u))
    und = {}
    seen_children = {}
    for c in todo:
        res['contracts'][c.name] = dict(units=0, proved=0, obligations=0, discharged=0, axes={})
        for v in c.variants:
            push((c.name, v, {}, only))
    from contracts import base
    specs = dict((c.cfg['summary'], c) for c in base.load() if c.cfg.get('summary'))
    used = set()

    def on_result(u, r):
        cn = u[0]
        a = res['contracts'][cn]
        for full in r['contracts_used']:
            if full not in used:                    # the contract a caller relied on is proved in the same run
                used.add(full)
                c = specs[full]
                if c.name not in res['contracts']:
                    res['contracts'][c.name] = dict(units=0, proved=0, obligations=0, discharged=0, axes={}, relied_on=full)
                    if c.cfg.get('proof_only'):
                        twins[c.name] = c.cfg.get('twin')
                    for v in c.variants:
                        push((c.name, v, {}, ('ensures', 'frame')))
        if r['info'].get('done', 0) == 0 and not r['undecided'] and not r['failed']:
            pass                                    # infeasible configuration
        else:
            res['units'] += 1
            a['units'] += 1
        n = sum(r['status'].values())
        ok = r['status'].get('discharged', 0)
        res['obligations'] += n
        res['discharged'] += ok
        a['obligations'] += n
        a['discharged'] += ok
        res['solver_s'] += r['solver']
        funcs.update(r['calls'])
        for k, z in r['by'].items():
            back[k] = back.get(k, 0) + z
        k = unit_key(u)
        p = plan.get(k)
        was = p is not None and p[0] == 'ok'
        if r['failed']:
            f = [o for o in r['failed'] if o['status'] == 'refuted'] or r['failed']
            o = dict(f[0], contract=cn, variant=u[1], cfg=u[2], was_proved=was)
            if cn in twins:
                o['given'], o['given_error'] = None, 'a proof-only statement'
            o['obligation'] = o['name']
            res['candidates'].append(o)
            a.setdefault('open', []).append({'cfg': u[2], 'obligation': o['name'], 'status': o['status']})
            if was and twins.get(cn, cn):
                res['suspects'].setdefault(twins.get(cn, cn), o)
        elif r['undecided']:
            und.setdefault(cn, {}).setdefault(r['undecided'][0][:160], []).append(u[2])
            if was and twins.get(cn, cn):
                res['suspects'].setdefault(twins.get(cn, cn), dict(obligation=cn, reason=r['undecided'][0][:300], status='undecided'))
        elif r['info'].get('done', 0):
            res['units_proved'] += 1
            a['proved'] += 1
        for ch in r['children']:
            push((cn, u[1], ch, u[3]))

    n = int(os.environ.get('VERIF_PROCS', '0')) or 8
    pool = Pool(ast, min(n, 8), limit)
    try:
        pool.run(heap, t0 + seconds, on_result)
    finally:
        pool.close()
    res['left'] = len(heap)
    res['functions'] = sorted(funcs)
    res['backends'] = back
    res['solver_s'] = round(res['solver_s'], 1)
    res['prove_s'] = round(time.time() - t0, 1)
    res['undecided'] = [dict(contract=cn, reason=k, configurations=len(v), e_g=v[0]) for cn in sorted(und) for k, v in sorted(und[cn].items())]
    return res
