"DESIGN.md = design/*.md with the tables made from the contracts, the plan and the seeded bugs"
import os, sys, json, glob, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine import prove
from harness.levels import LEVELS
plan = prove.load_plan()


def table():
    out = ['| property | level | contracts proved | bounded only | units proved / planned | s on 8 cores |', '|---|---|---|---|---|---|']
    for k in range(1, 27):
        p = 'C%02d' % k
        g = 'e' if 'ensures' in prove.groups(p) else 'f'
        cs = prove.contracts_of(p)
        own = [c for c in cs if c.prop == p]
        tot = ok = 0
        secs = 0.
        open_ = collections.Counter()
        for u, v in plan.items():
            parts = u.split(':')
            c = [c for c in cs if c.name == parts[0]]
            if not c or parts[-1] != g or c[0].bounded:
                continue
            if v[0] == 'empty':
                continue
            tot += 1
            secs += v[1]
            if v[0] == 'ok':
                ok += 1
            else:
                open_[parts[0]] += 1
        shown = own if p != 'C18' else []
        pr = ', '.join(c.name for c in shown if not c.bounded and not c.cfg.get('proved_by')) or ('frame and sharing groups of all contracts' if p == 'C18' else '')
        bd = ', '.join(c.name for c in shown if c.bounded)
        o = ''.join('; open: ' + ', '.join('%s %d' % z for z in open_.most_common())) if open_ else ''
        out.append('| %s | %s | %s | %s | %d / %d%s | %d |' % (p, LEVELS.get(p, 'exploration'), pr, bd, ok, tot, o, secs / 8 + .5))
    return '\n'.join(out)


def seeded():
    out = ['| bug | property | needs | breaks |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
    return '\n'.join(out)


txt = '\n'.join(open(f).read() for f in sorted(glob.glob(os.path.join(H, 'design', '*.md'))))
txt = txt.replace('@TABLE@', table()).replace('@SEEDED@', seeded())
open(os.path.join(H, 'DESIGN.md'), 'w').write(txt)
