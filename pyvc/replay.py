"""Native reading of the contracts: python -m pyvc.replay PROP proof.json out.json [seconds]

Runs on the uninstrumented code.  Refuted conditions are replayed on the model's input values; undecided
contracts are searched with random values; a sample of every contract is executed as a cross-check of the engine."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')  # z3 (the repository's own packages come first)
import warnings  # noqa: E402
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
np.seterr(all='ignore')


def main():
    prop, pf, out = sys.argv[1], sys.argv[2], sys.argv[3]
    budget = float(sys.argv[4]) if len(sys.argv) > 4 else 60
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    import contracts
    from pyvc import contract as K
    proof = json.load(open(pf)) if os.path.exists(pf) else {'obligations': []}
    st = {o['name']: o for o in proof['obligations']}
    es = contracts.entries(prop, tier)
    t0 = time.time()
    res = {'replayed': 0, 'sampled': 0, 'failures': [], 'searched': 0, 'skipped': 0, 'spurious': []}

    def rec(e, d, case, vals, how):
        res['failures'].append({'contract': e.name, 'difference': d, 'values': vals, 'how': how,
                                'run': repr(case.desc)[:1500] if case.desc else None,
                                'obligation': (st.get(e.name) or {}).get('failed')})
    for e in es:
        o = st.get(e.name)
        if o and o['status'] == 'refuted' and o.get('values') is not None:
            try:
                vals = {k: v for k, v in o['values'].items() if isinstance(v, (int, float, list))}
                res['replayed'] += 1
                d, case, vv = K.native_given(e, vals)
                if d:
                    rec(e, d, case, vv, 'countermodel of the failed obligation replayed on the real code')
                    o['replayed'] = True
                else:
                    res['spurious'].append({'contract': e.name, 'values': vals, 'failed': o['failed'], 'detail': o['detail'][-600:]})
            except K.Skip:
                res['spurious'].append({'contract': e.name, 'values': o['values'], 'failed': o['failed'], 'detail': 'outside precondition natively'})
            except MemoryError:
                pass
    seen = {f['contract'] for f in res['failures']}
    undecided = [e for e in es if (st.get(e.name) or {'status': 'unknown'})['status'] != 'discharged' and e.name not in seen]
    rest = [e for e in es if e.name not in seen and e not in undecided]
    for group, n, b in ((undecided, 60 if tier == 'quick' else 400, 3.0), (rest, 3 if tier == 'quick' else 25, 1.0)):
        for e in group:
            if time.time() - t0 > budget:
                res['skipped'] += 1
                continue
            try:
                tried, f = K.native_search(e, n, seed, b)
            except MemoryError:
                continue
            res['sampled' if group is rest else 'searched'] += tried
            if f:
                rec(e, f[0], f[1], f[2], 'random values of the contract\'s precondition')
    import onnx_tool
    res['tool_path'] = os.path.realpath(onnx_tool.__file__)
    res['wall_s'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
