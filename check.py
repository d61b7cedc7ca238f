#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.
   python3-vt check.py C05            (VERIF_SEED, VERIF_TIER in the environment)
   python3-vt check.py --replay FILE
"""
import json, os, subprocess, sys, time, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness import build as B

RUNPY = os.path.join(HERE, 'harness', 'run.py')
TRUSTED = [
    'the Python 2.7 interpreter, NumPy, bottleneck, h5py and Cython that run the code',
    'the contracts in /verif/contracts state the property (written from the property text)',
]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                d = dict(z.split('=', 1) for z in line[7:].split(' :: ')[0].split(' ') if '=' in z)
                if d.get('property') == prop:
                    d['what'] = line.split(' :: ', 1)[1].strip()
                    out.append(d)
    return out


def matches(k, v):
    return k.get('contract') == v['contract'] and k.get('kind', v['kind']) == v['kind'] and \
        k.get('contains', '').replace('_', ' ') in v['message'].replace('_', ' ')


def main():
    if sys.argv[1] == '--replay':
        sys.exit(do_replay(sys.argv[2]))
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    d, py, env, built = B.build()
    tmp = tempfile.mkdtemp(prefix='laverif_run')
    try:
        rc = decide(prop, seed, tier, t0, d, py, env, built, tmp)
    finally:
        B.clean(d)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def explore(prop, d, py, env, tmp, secs, seeds, only=None, tag='o'):
    "evaluate the contracts on the real code, one process per (variant, seed)"
    jobs = []
    for k, (variant, sd) in enumerate(seeds):
        out = os.path.join(tmp, '%s%d.json' % (tag, k))
        cmd = [py, RUNPY, '--la', d, '--prop', prop, '--seed', str(sd), '--time', str(secs), '--variant', variant, '--out', out]
        if only:
            cmd += ['--only', only]
        log = open(os.path.join(tmp, '%slog%d' % (tag, k)), 'w')
        jobs.append((variant, out, cmd, subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=tmp)))
    viols, stats, samples, errors = [], {}, [], []
    for k, (variant, out, cmd, p) in enumerate(jobs):
        try:
            rc = p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        if not os.path.exists(out):
            msg = open(os.path.join(tmp, '%slog%d' % (tag, k))).read()[-2000:]
            cur = out + '.cur'
            if isinstance(rc, int) and rc < 0 and os.path.exists(cur):
                c = json.load(open(cur))
                viols.append(dict(c, prop=prop, variant=variant, kind='crash', message='the interpreter died with signal %d' % -rc, inputs=[], traceback=msg))
            else:
                errors.append('runner %d (%s): %s %s' % (k, variant, rc, msg))
            continue
        r = json.load(open(out))
        for v in r['violations']:
            viols.append(v)
        for n, s in r['stats'].items():
            z = stats.setdefault(n, dict(runs=0, discards=0, checks=0, distinct=0, unresolved=0))
            for q in z:
                z[q] += s.get(q, 0)
        if len(samples) < 4:
            samples.extend(r['samples'][:2])
    return viols, stats, samples, errors


def follow_up(prop, proof, d, py, env, tmp, seed, tier, viols, stats, samples, errors):
    """Obligations that were not discharged: replay the solver's inputs on the real code, and
    explore further the contracts that were proved on the unchanged tree and no longer are."""
    tried = {}
    for o in proof['candidates']:
        if viols or tried.get(o['contract'], 0) >= 6:
            continue
        if not o.get('given'):
            o['replayed'] = 'the solver gave no usable inputs (%s)' % o.get('given_error', 'none')
            continue
        tried[o['contract']] = tried.get(o['contract'], 0) + 1
        f = os.path.join(tmp, 'cand.json')
        json.dump(dict(contract=o['contract'], given=o['given'], variant=o['variant'], seed=1, mined=[], frame_only=(prop == 'C18')), open(f, 'w'))
        try:
            r = subprocess.run([py, RUNPY, '--la', d, '--replay', f], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            rc, text = r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc, text = 'timeout', ''
        o['replayed'] = 'exit %s: %s' % (rc, text[:300])
        m = [z for z in text.split('\n') if z.startswith('REPRODUCED [')]
        if rc == 1 and m:
            kind = m[0][12:].split(']')[0]
            if not counts(prop, kind):
                continue
            viols.append(dict(contract=o['contract'], prop=prop, seed=1, mined=[], variant=o['variant'], kind=kind, message=m[0].split('] ', 1)[1] +
                              '  (inputs from the counter-model of obligation %s)' % o['obligation'],
                              inputs=sorted((k, repr(v)) for k, v in o['given'].items()), given=o['given'], traceback=None))
    if viols:
        return
    names = sorted(proof['suspects'])
    if names:
        t = min(60, 15 + 5 * len(names)) if tier == 'quick' else 120
        v2, s2, _, e2 = explore(prop, d, py, env, tmp, t, [('py' if k == 7 else 'c', seed * 1000 + 500 + k) for k in range(8)], only=','.join(names), tag='s')
        viols.extend(v2)
        for n, s in s2.items():
            z = stats.setdefault(n, dict(runs=0, discards=0, checks=0, distinct=0, unresolved=0))
            for q in z:
                z[q] += s.get(q, 0)
    if viols:
        return
    for o in proof['candidates']:
        if o['status'] == 'refuted' and o['was_proved']:
            proof['failed'].append(dict(obligation=o['obligation'], contract=o['contract'], configuration=o['cfg'], variant=o['variant'], path=o.get('path'),
                                        reason='discharged on the unchanged tree, refuted now (%s) under configuration %s: %s' % (o.get('by'), json.dumps(o['cfg']), o.get('goal', '')),
                                        inputs=o.get('given'), replayed=o.get('replayed')))


def counts(prop, kind):
    from engine import prove
    if prop == 'C18':
        return kind in ('frame', 'sharing')
    if kind == 'sharing':
        return False
    return kind != 'frame' or prop in prove.FRAME_TOO


def decide(prop, seed, tier, t0, d, py, env, built, tmp):
    # run-time evaluation of the contracts on the real code
    secs = {'quick': 20, 'thorough': 300}[tier]
    secs = float(os.environ.get('VERIF_SECS', secs))
    psecs = float(os.environ.get('VERIF_PROVE_SECS', {'quick': 50, 'thorough': 900}[tier]))
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    variants = ['c' if built and k < max(1, nproc - (3 if prop == 'C02' else 1)) else 'py' for k in range(nproc)]
    viols, stats, samples, errors = explore(prop, d, py, env, tmp, secs, [(v, seed * 1000 + k) for k, v in enumerate(variants)])
    # symbolic discharge of the same contracts on the same source
    proof = None
    if psecs > 0:
        from engine import prove
        proof = prove.run(prop, d, py, env, tier, tmp, psecs if not viols else min(psecs, 15), focus=set(v['contract'] for v in viols))
        proof['failed'] = []
        if not viols:
            follow_up(prop, proof, d, py, env, tmp, seed, tier, viols, stats, samples, errors)
    if errors and not viols:
        print('ERROR: %s' % '\n'.join(errors))
        return 2
    checks = sum(s['checks'] for s in stats.values())
    if checks == 0 and not viols:
        print('ERROR: no contract was evaluated')
        return 2
    # one report per contract, known findings apart
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    known = known_findings(prop)
    lines, seen, rc = [], set(), 0
    for v in viols:
        ks = [k for k in known if matches(k, v)]
        if ks:
            if ks[0]['what'] not in seen:
                seen.add(ks[0]['what'])
                print('KNOWN-FINDING: property=%s %s' % (prop, ks[0]['what']))
            continue
        if v['contract'] in seen:
            continue
        seen.add(v['contract'])
        obs = [] if proof is None else [o for o in proof['candidates'] if o['contract'] == v['contract']]
        v['open_obligations'] = [dict(obligation=o['obligation'], status=o['status'], configuration=o['cfg'], goal=o.get('goal'), discharged_on_unchanged_tree=o['was_proved']) for o in obs[:20]]
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, v['contract']))
        json.dump(dict(v, frame_only=(prop == 'C18'), replay_with='python3-vt check.py --replay ' + path), open(path, 'w'), indent=1, default=str)
        print('  %s [%s] %s' % (v['contract'], v['kind'], v['message'][:600]))
        for a, b in v['inputs'][:30]:
            print('      %s = %s' % (a, b[:200]))
        for o in v['open_obligations'][:5]:
            print('    obligation %s: %s (configuration %s)' % (o['obligation'], o['status'], json.dumps(o['configuration'])))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if proof is not None:
        for o in proof['failed']:
            if rc == 1:
                break
            path = os.path.join(HERE, 'replays', '%s-obligation.json' % prop)
            json.dump(o, open(path, 'w'), indent=1, default=str)
            print('  obligation %s: %s' % (o['obligation'], o['reason'][:600]))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            rc = 1
    write_evidence(prop, tier, seed, t0, stats, samples, viols, proof, built)
    for z in lines:
        print(z)
    n = sum(s['distinct'] for s in stats.values())
    print('%s: %d contracts, %d evaluations (%d distinct)%s, %.1f s: %s' % (
        prop, len(stats), checks, n, '' if proof is None else ', %d of %d obligations proved' % (proof['discharged'], proof['obligations']),
        time.time() - t0, 'violated' if rc else 'held'))
    return rc


def write_evidence(prop, tier, seed, t0, stats, samples, viols, proof, built):
    from harness.levels import LEVELS
    level = LEVELS.get(prop, 'exploration')
    cov = dict(
        evaluations=sum(s['runs'] for s in stats.values()),
        distinct_nontrivial=sum(s['distinct'] for s in stats.values()),
        rule='inputs are drawn by the preconditions of each contract (labels of all kinds, empty and related axes, dtypes, memory layouts); '
             'an evaluation is counted when the precondition held and the real function was called; distinct by the full log of draws, per worker process',
        samples=samples or [{'note': 'none'}],
        contracts=stats, c_extension=built)
    assumptions = list(TRUSTED)
    if proof is not None:
        cov.update((k, proof[k]) for k in ('obligations', 'discharged', 'checker_cmd', 'trusted_base', 'functions', 'backends', 'solver_s', 'bounded', 'undecided',
                                           'units', 'units_proved', 'left', 'prove_s', 'candidates') if k in proof)
        cov['contracts_proved'] = proof['contracts']
        assumptions += proof['assumptions']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


def do_replay(path):
    d, py, env, built = B.build()
    try:
        return subprocess.call([py, RUNPY, '--la', d, '--replay', os.path.abspath(path)], env=env)
    finally:
        B.clean(d)


if __name__ == '__main__':
    main()
