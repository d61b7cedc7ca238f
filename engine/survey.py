"developer tool: prove every contract (or those named), D deviations from the default configuration"
import sys, os, json, shutil, heapq, time, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import build
from engine import prove
from contracts import base
py, env = build.env27()
src = os.environ.get('LA', '/repo')
fake = '/tmp/survey%d' % os.getpid()
os.makedirs(fake)
af = prove.dump(src, py, env, fake)
D = int(os.environ.get('D', '0'))
LIM = float(os.environ.get('T', '20'))
TOT = float(os.environ.get('TOT', '600'))
names = sys.argv[1:]
pool = prove.Pool(af, int(os.environ.get('N', '7')), LIM)
tie = itertools.count()
units = []
for c in base.load():
    if c.cfg.get('proved_by'):
        continue
    if c.bounded and not os.environ.get('BOUNDED'):
        continue
    if names and c.name not in names and c.prop not in names:
        continue
    for v in c.variants:
        heapq.heappush(units, (0, next(tie), (c.name, v, {}, None)))
agg = {}
def res(u, r):
    cn, v, cfg, only = u
    a = agg.setdefault(cn + ':' + v, dict(ok=0, und={}, failed=[], obs=0, t=0, kids=0, slow=[]))
    a['t'] += r['time']
    a['obs'] += sum(r['status'].values())
    if r['failed']:
        a['failed'].append((cfg, r['failed'][0]))
    elif r['undecided']:
        k = r['undecided'][0][:200]
        a['und'].setdefault(k, []).append(cfg)
    else:
        a['ok'] += 1
    if r['time'] > 5:
        a['slow'].append((round(r['time']), cfg))
    if len(cfg) < D:
        for ch in r['children']:
            heapq.heappush(units, (len(ch), next(tie), (cn, v, ch, only)))
    else:
        a['kids'] += len(r['children'])
t0 = time.time()
pool.run(units, t0 + TOT, res)
pool.close()
props = dict((c.name, c.prop) for c in base.load())
tot = [0, 0, 0]
for k in sorted(agg, key=lambda z: (props[z.split(':')[0]], z)):
    a = agg[k]
    nu = sum(map(len, a['und'].values()))
    tot[0] += a['ok']; tot[1] += nu; tot[2] += len(a['failed'])
    print('%s %-26s ok=%d und=%d fail=%d obs=%d t=%.0f' % (props[k.split(':')[0]], k, a['ok'], nu, len(a['failed']), a['obs'], a['t']))
    for q, cfgs in sorted(a['und'].items(), key=lambda z: -len(z[1]))[:4]:
        print('      UND %d %s e.g. %s' % (len(cfgs), q[:230].replace('\n', ' '), json.dumps(cfgs[0])))
    for cfg, f in a['failed'][:int(os.environ.get('F', '3'))]:
        print('      FAIL %s %s | %s | path %s | %s' % (json.dumps(cfg), f['status'], f['name'], f['path'], f.get('goal', '')[:200].replace('\n', ' ')))
    if a['slow'] and os.environ.get('SLOW'):
        print('      SLOW', a['slow'][:4])
print('TOTAL ok %d und %d fail %d, %.0f s, left %d' % (tot[0], tot[1], tot[2], time.time() - t0, len(units)))
shutil.rmtree(fake)
