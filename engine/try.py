"developer tool: python3-vt engine/try.py CONTRACT[:variant] [name=idx ...]"
import sys, os, tempfile, json, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import build
from engine import prove
from contracts import base
import time
args = sys.argv[1:]
cfgv = dict((a.split('=')[0], int(a.split('=')[1])) for a in args if '=' in a)
names = [a for a in args if '=' not in a]
fake = os.path.join('/tmp', 'tryla')
py, env = build.env27()
src = os.environ.get('LA', '/repo')
shutil.rmtree(fake, ignore_errors=True)
os.makedirs(fake)
af = prove.dump(src, py, env, fake)
depth = int(os.environ.get('D', '0'))
LIM = float(os.environ.get('T', '30'))
for nm in names:
    nm, _, var = nm.partition(':')
    cs = [c for c in base.load() if c.name == nm or c.prop == nm]
    for c in cs:
        for v in ([var] if var else c.variants):
            todo = [dict(cfgv)]
            seen = set()
            while todo:
                cfg = todo.pop(0)
                r = prove.run_unit(af, c.name, v, cfg, None, LIM)
                print('%-22s %-2s %-40s %s paths=%d done=%d t=%.1f q=%d kids=%d' % (c.name, v, json.dumps(cfg), r['status'], r['info']['paths'], r['info']['done'], r['time'], r['queries'], len(r['children'])))
                for u in r['undecided']:
                    print('    UNDECIDED', u)
                for o in r['failed'][:int(os.environ.get('F', '3'))]:
                    print('    FAILED', o['status'], o['name'], 'path', o['path'], o.get('reason', ''), o.get('goal', '')[:int(os.environ.get('GOALN','300'))].replace('\n', ' '), o.get('given'), o.get('given_error', ''))
                if len([k for k in cfg]) - len(cfgv) < depth:
                    for ch in r['children']:
                        m = dict(cfgv); m.update(ch)
                        key = tuple(sorted(m.items()))
                        if key not in seen:
                            seen.add(key)
                            todo.append(m)
                sys.stdout.flush()
if os.environ.get('SKIPPED'):
    for (E, I) in prove.W.values():
        for s in I.skipped:
            print('SKIPPED', s)
