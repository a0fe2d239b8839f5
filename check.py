#!/opt/venv/bin/python
"""Runner: check.py <property> [--tier quick|thorough]; see DESIGN.md."""
import json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from claims import CLAIMS  # noqa: E402


def spawn(cmd, env, log, cwd):
    return subprocess.Popen(cmd, env=env, cwd=cwd, stdout=open(log, 'w'), stderr=subprocess.STDOUT, start_new_session=True)


def wait(p, deadline):
    try:
        return p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return None


def load(f):
    try:
        return json.load(open(f))
    except Exception:
        return None


def tail(f, n=1500):
    try:
        return open(f).read()[-n:]
    except OSError:
        return ''


def known(prop):
    ks = []
    for line in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8'):
        if line.startswith('known: property=%s ' % prop):
            key, _, what = line.split(' ', 2)[2].partition(' ')
            ks.append((key[4:], what.strip()))
    return ks


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    claim = CLAIMS[prop]
    t0 = time.time()
    total = 420 if tier == 'quick' else 3000
    if 'VERIF_TOTAL' in os.environ:
        total = float(os.environ['VERIF_TOTAL'])
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_REPO=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=HERE, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8',
               VERIF_A_BUDGET=str(total * .6), VERIF_B_BUDGET=str(min(total * .5, 150 if tier == 'quick' else 1500)),
               VERIF_DEADLINE=str(t0 + total))
    notes = []
    with tempfile.TemporaryDirectory(prefix='vchk_') as tmp:
        fa, fb, fr = (os.path.join(tmp, x) for x in ('a.json', 'b.json', 'r.json'))
        pa = spawn([PY, '-m', 'pyvc.prove', prop, fa], env, fa + '.log', HERE)
        pb = None
        if os.path.exists(os.path.join(HERE, 'bounded', prop.lower() + '.py')):
            pb = spawn([PY, os.path.join(HERE, 'bounded', 'core.py'), prop, fb], env, fb + '.log', HERE)
        wait(pa, t0 + total * .72)
        a = load(fa)
        engine_failed = False
        if a is None and pa.returncode is not None and time.time() < t0 + total * .6:
            wait(spawn([PY, '-m', 'pyvc.prove', prop, fa], env, fa + '.log', HERE), t0 + total * .72)
            a = load(fa)
            engine_failed = a is None and time.time() < t0 + total * .7
        if a is None:
            notes.append('proof engine gave no result: ' + tail(fa + '.log', 800))
            a = {'obligations': [], 'functions': [], 'queries': 0, 'solver_s': 0, 'paths': 0, 'wall_s': time.time() - t0, 'z3': '?'}
        pr = spawn([PY, '-m', 'pyvc.replay', prop, fa, fr, str(total * .15)], env, fr + '.log', HERE)
        wait(pr, t0 + total * .92)
        r = load(fr)
        if r is None:
            notes.append('replay gave no result: ' + tail(fr + '.log', 800))
            r = {'replayed': 0, 'sampled': 0, 'failures': [], 'searched': 0, 'skipped': 0, 'spurious': []}
        b = None
        if pb is not None:
            wait(pb, t0 + total)
            b = load(fb)
            if b is None:
                notes.append('bounded stand-in gave no result: ' + tail(fb + '.log', 800))
        if b is None:
            b = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [], 'groups': {}, 'notes': []}

    obl = [o for o in a['obligations'] if o['status'] != 'gone']
    for o in a['obligations']:
        if o['status'] == 'gone':
            notes.append('contract on an internal function that no longer exists: ' + o['name'])
    open_at_base = set((load(os.path.join(HERE, 'contracts', 'open.json')) or {}).get(prop, []))
    unb = [o for o in obl if not o['bound']]
    bnd = [o for o in obl if o['bound']]
    undecided = [o for o in obl if o['status'] != 'discharged']
    lost = [o['name'] for o in undecided]
    # failures: native replays of countermodels first, then the bounded stand-in
    fails = []
    for f in r['failures']:
        fails.append({'key': 'contract/' + f['contract'], 'kind': 'contract', 'what': f})
    for f in b['failures']:
        fails.append({'key': f['key'], 'kind': 'bounded', 'what': f})
    kn = dict(known(prop))
    seen_known = set()
    viol = []
    for f in fails:
        if f['key'] in kn:
            seen_known.add(f['key'])
        else:
            viol.append(f)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    # obligations the verifier used to accept and now refuses, without an input that makes the real code fail
    noinput = []
    if not viol:
        for o in undecided:
            if o['status'] in ('refuted', 'unknown', 'unsupported') and o['name'] not in open_at_base:
                noinput.append(o)
        # a few conditions on which every solver merely ran out of time (nothing refuted, nothing found by the random search
        # of that contract or by the bounded run) are reported as open, not as a violation
        if len(noinput) <= max(1, len(obl) // 300) and all(o['status'] == 'unknown' and o.get('gave_up') for o in noinput):
            for o in noinput:
                notes.append('undecided (solvers ran out of time, no failing input found): %s: %s' % (o['name'], o['failed']))
            noinput = []
        if engine_failed:
            noinput.append({'name': 'all', 'status': 'no obligation could be generated', 'failed': None, 'detail': '; '.join(notes)[-1500:]})
    backends = {}
    for o in obl:
        for k, n in o['backends'].items():
            backends[k] = backends.get(k, 0) + n
    cov = {
        'obligations': sum(o['vcs'] for o in unb),
        'discharged': sum(o['discharged'] for o in unb if o['status'] == 'discharged'),
        'contracts': len(unb), 'contracts_discharged': sum(o['status'] == 'discharged' for o in unb),
        'bounded_contracts': {'contracts': len(bnd), 'discharged': sum(o['status'] == 'discharged' for o in bnd),
                              'conditions': sum(o['vcs'] for o in bnd), 'bounds': sorted({o['bound'] for o in bnd}),
                              'note': 'proved for all values inside the stated bound; not counted under obligations'},
        'back_ends': backends, 'paths': a['paths'], 'solver_queries': a['queries'], 'solver_s': round(a['solver_s'], 2),
        'functions_under_contract': a['functions'],
        'not_discharged': [{'name': o['name'], 'status': o['status'], 'failed': o['failed'], 'detail': o['detail'][-300:]} for o in undecided][:40],
        'spurious_countermodels': r['spurious'][:10],
        'checker_cmd': '%s -m pyvc.prove %s OUT.json (z3 %s; cvc5 second opinion)' % (PY, prop, a.get('z3')),
        'trusted_base': claim['trusted'],
        'engine_crosscheck_runs': r['sampled'], 'countermodels_replayed': r['replayed'], 'undecided_searched': r['searched'],
        'evaluations': b['evaluations'] + r['sampled'] + r['searched'], 'distinct_nontrivial': b['distinct_nontrivial'],
        'rule': claim['rule'], 'samples': b['samples'] or [o['name'] for o in obl[:5]], 'bounded_groups': b['groups'],
        'explanation': claim['explanation'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': claim['level'], 'coverage': cov, 'assumptions': claim['assumptions'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) or len(noinput), 'notes': notes}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d contracts (%d unbounded, %d bounded), %d conditions, %d discharged, %d not discharged; %d executions; %.1f s' % (
        prop, len(obl), len(unb), len(bnd), sum(o['vcs'] for o in obl), sum(o['discharged'] for o in obl), len(undecided), cov['evaluations'], ev['wall_s']))
    for n in notes:
        print('note:', n)
    for n in lost[:10]:
        print('not discharged:', n)
    if viol:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', '%s.json' % prop)
        out = []
        for f in viol[:20]:
            w = dict(f['what'])
            w['key'], w['kind'] = f['key'], f['kind']
            w['verifier'] = next((o for o in obl if f['kind'] == 'contract' and o['name'] == w['contract'] and o['status'] != 'discharged'), None)
            out.append(w)
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'repo': REPO, 'violations': out,
                   'rerun': 'VERIF_SEED=%d VERIF_TIER=%s %s %s %s' % (seed, tier, PY, os.path.join(HERE, 'check.py'), prop)},
                  open(path, 'w'), indent=1, default=str)
        for f in viol[:5]:
            w = f['what']
            print('  ', f['key'], str(w.get('difference') or w.get('detail'))[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if noinput:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', '%s.json' % prop)
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'repo': REPO, 'failed_obligations': noinput[:20],
                   'spurious_countermodels': r['spurious'][:20], 'searched': r['searched'],
                   'rerun': 'VERIF_SEED=%d VERIF_TIER=%s %s %s %s' % (seed, tier, PY, os.path.join(HERE, 'check.py'), prop)},
                  open(path, 'w'), indent=1, default=str)
        for o in noinput[:5]:
            print('  ', o['name'], o['status'], o['failed'], str(o['detail'])[-300:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    # nothing fails: an empty run is an error of the check, not a pass
    if not obl and not b['evaluations']:
        print('error: nothing was checked')
        return 2
    print('OK property=%s' % prop)
    return 0


if __name__ == '__main__':
    sys.exit(main())
