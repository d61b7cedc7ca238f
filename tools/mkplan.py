"""Generate engine/plan.json: what the prover decides on the unchanged tree, unit by unit
(a unit is one contract under one configuration, D deviations from the default one)."""
import sys, os, json, shutil, heapq, time, itertools, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness import build
from engine import prove
from contracts import base
D = int(os.environ.get('D', '2'))
LIM = float(os.environ.get('T', '60'))
N = int(os.environ.get('N', '8'))
names = sys.argv[1:]
d, py, env, built = build.build()
tmp = tempfile.mkdtemp(prefix='laverif_plan')
af = prove.dump(d, py, env, tmp)
plan = prove.load_plan() if names else {}
heap, tie, sent = [], itertools.count(), set()
pool = prove.Pool(af, N, LIM)


def push(u):
    k = prove.unit_key(u)
    if k not in sent:
        sent.add(k)
        heapq.heappush(heap, (len(u[2]), next(tie), u))


RETRY = os.environ.get('RETRY')        # only the units that are not decided yet, with T seconds each
for u, v in list(plan.items()) if RETRY else ():
    if v[0] in ('open', 'undecided') and u.split(':')[0] in names:
        p = u.split(':')
        cfg = dict((z.split('=')[0], int(z.split('=')[1])) for z in p[2].split(',') if z)
        push((p[0], p[1], cfg, prove.groups('C18' if p[3] == 'f' else [c.prop for c in base.load() if c.name == p[0]][0])))
for prop in ['C%02d' % k for k in range(1, 27)] if not RETRY else ():
    g = prove.groups(prop)
    for c in prove.contracts_of(prop):
        if c.bounded or c.cfg.get('proved_by') or names and c.name not in names and c.prop not in names:
            continue
        for v in c.variants:
            push((c.name, v, {}, g))
count = {}


def res(u, r):
    if r['failed']:
        st = 'refuted' if any(o['status'] == 'refuted' for o in r['failed']) else 'open'
    elif r['undecided']:
        st = 'undecided'
    elif r['info'].get('done', 0):
        st = 'ok'
    else:
        st = 'empty'
    count[st] = count.get(st, 0) + 1
    plan[prove.unit_key(u)] = [st, round(r['time'], 1), r['children'] if st not in ('ok', 'empty') else []]
    if st == 'refuted':
        print('REFUTED', prove.unit_key(u), r['failed'][0]['name'], r['failed'][0].get('goal', '')[:200])
        sys.stdout.flush()
    if len(u[2]) < D:
        for ch in r['children']:
            push((u[0], u[1], ch, u[3]))


t0 = time.time()
pool.run(heap, t0 + float(os.environ.get('TOT', '7200')), res)
pool.close()
build.clean(d)
shutil.rmtree(tmp)
with open(prove.PLAN, 'w') as f:
    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(plan[k])) for k in sorted(plan)) + '\n}\n')
print(count, '%.0f s' % (time.time() - t0), 'left', len(heap))
