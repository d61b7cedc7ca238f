# Run-time evaluation of the contracts on the real code (Python 2.7).
#   run.py --la DIR --prop C05 --seed 1 --time 20 --variant c --out OUT.json
#   run.py --la DIR --replay FILE
# DIR holds the package la, built from /repo's working tree by check.py.
from __future__ import print_function
import sys, os, signal, json, time, re, hashlib, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def opts(argv):
    d, i = {}, 0
    while i < len(argv):
        d[argv[i][2:]] = argv[i + 1]
        i += 2
    return d


def load_la(d, variant):
    sys.path.insert(0, d)
    if variant == 'py':
        sys.modules['la.cflabel'] = None
    import warnings
    warnings.simplefilter('ignore')
    import la
    assert os.path.abspath(la.__file__).startswith(os.path.abspath(d)), la.__file__
    la._verif_impl = sys.modules['la.flabel'].listmap.__module__
    return la


def mine(d):
    "integer constants of the source: sizes worth trying around them"
    ints, strs = set(), set()
    for root, _, names in os.walk(os.path.join(d, 'la')):
        if 'tests' in root or 'external' in root or 'data' in root:
            continue
        for n in names:
            if n.endswith('.py') or n.endswith('.pyx'):
                try:
                    src = open(os.path.join(root, n)).read()
                except IOError:
                    continue
                src = re.sub(r'(?s)""".*?"""', '', src)
                for m in re.findall(r'(?<![\w.])(\d{1,3})(?![\w.])', src):
                    if 3 < int(m) <= 300:
                        ints.add(int(m))
    return sorted(ints), sorted(strs)


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def main():
    o = opts(sys.argv[1:])
    if 'replay' in o:
        sys.exit(replay(o))
    variant = o.get('variant', 'c')
    la = load_la(o['la'], variant)
    from contracts import base
    from harness import concrete as C
    prop = o['prop']
    allc = base.load()
    if prop == 'C18':
        todo = [c for c in allc if 'C18' in c.also or c.prop == 'C18']
        frame_only = True
    else:
        todo = [c for c in allc if c.prop == prop]
        frame_only = False
    if 'only' in o:
        todo = todo + [c for c in allc if c not in todo and c.name in o['only'].split(',')]
    todo = [c for c in todo if variant in c.variants and not c.cfg.get('proof_only')]
    if 'only' in o:
        todo = [c for c in todo if c.name in o['only'].split(',')]
    known = json.loads(o.get('known', '[]'))
    ints, strs = mine(o['la'])
    seed0 = int(o['seed'])
    deadline = time.time() + float(o['time'])
    stats = dict((c.name, dict(runs=0, discards=0, checks=0, distinct=set(), t=0.0)) for c in todo)
    viol, samples, notes = [], [], []
    signal.signal(signal.SIGALRM, on_alarm)
    rnd = 0
    dead = set()
    minrounds = int(o.get('minrounds', 1))
    while todo and (time.time() < deadline or rnd < minrounds):
        for c in todo:
            if c.name in dead:
                continue
            st = stats[c.name]
            if rnd >= 20 and st['t'] > 3.0 * max(0.05, sum(s['t'] for s in stats.values()) * c.weight / sum(q.weight for q in todo)):
                continue
            for rep in range(c.weight * 2):
                seed = int(hashlib.md5(('%s|%d|%d|%d' % (c.name, seed0, rnd, rep)).encode()).hexdigest()[:12], 16)
                t0 = time.time()
                g = C.G(la, seed, mined=ints)
                g.wild = c.prop in C.WILD
                g.bigints = c.prop in BIGINTS
                st['runs'] += 1
                bad = None
                with open(o['out'] + '.cur', 'w') as cf:
                    cf.write(json.dumps({'contract': c.name, 'seed': seed, 'mined': ints}))
                signal.alarm(40)
                try:
                    c.f(g)
                except C.Unresolved as e:
                    st['unresolved'] = st.get('unresolved', 0) + 1
                    dead.add(c.name)
                    notes.append('%s: %s' % (c.name, e))
                    break
                except Hang:
                    bad = C.Violation('hang', 'no result after 40 s')
                except C.Discard:
                    st['discards'] += 1
                    st['t'] += time.time() - t0
                    continue
                except C.Done:
                    pass
                except C.Violation as v:
                    bad = v
                except Exception as e:
                    bad = C.Violation('harness', 'the contract could not be evaluated: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                signal.alarm(0)
                st['t'] += time.time() - t0
                st['checks'] += 1
                st['distinct'].add(hash(repr(g.log)))
                if len(samples) < 3 and rnd == 1 and rep == 0:
                    samples.append({'contract': c.name, 'inputs': [(k, repr(v)[:160]) for k, v in g.log][:14]})
                if bad is not None:
                    if frame_only and bad.kind not in ('frame', 'sharing'):
                        continue
                    if bad.kind == 'sharing' and not frame_only:
                        continue
                    if bad.kind == 'frame' and not frame_only and c.prop not in ('C02', 'C05', 'C06', 'C10', 'C20', 'C21'):
                        continue
                    viol.append({'contract': c.name, 'prop': prop, 'seed': seed, 'mined': ints, 'variant': variant, 'kind': bad.kind, 'message': bad.msg,
                                 'inputs': [(k, repr(v)) for k, v in g.log], 'traceback': getattr(g, 'tb', None)})
                    dead.add(c.name)
                    break
            if time.time() > deadline and rnd >= minrounds:
                break
        rnd += 1
        if len(dead) == len(todo):
            break
    for s in stats.values():
        s['distinct'] = len(s['distinct'])
    with open(o['out'], 'w') as f:
        json.dump({'variant': variant, 'listmap': la._verif_impl, 'stats': stats, 'violations': viol, 'samples': samples, 'rounds': rnd, 'notes': notes}, f, default=repr)


# contracts whose cells are moved, not computed with
BIGINTS = ('C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C19', 'C20', 'C24')


def replay(o):
    r = json.load(open(o['replay']))
    la = load_la(o['la'], r.get('variant', 'c'))
    from contracts import base
    from harness import concrete as C
    c = [c for c in base.load() if c.name == r['contract']][0]
    ints, strs = mine(o['la'])
    g = C.G(la, int(r.get('seed') or 0), given=r.get('given'), mined=r.get('mined', ints))
    try:
        c.f(g)
    except C.Discard:
        print('DISCARDED: the inputs do not meet the precondition')
        return 3
    except C.Done:
        print('PASSED (raised as specified)')
        return 0
    except C.Violation as v:
        if r.get('frame_only') and v.kind not in ('frame', 'sharing'):
            print('PASSED (for this property)')
            return 0
        print('REPRODUCED [%s] %s' % (v.kind, v.msg))
        for k, z in g.log:
            print('   %s = %r' % (k, z))
        return 1
    print('PASSED')
    return 0


if __name__ == '__main__':
    main()
