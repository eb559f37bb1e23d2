"""One check:  python3-vt -m hv.check CXX [--thorough]

1. deductive part: every proof of hv/props/cXX.py is re-run on the text of /repo's working tree
   (one process per proof, obligations discharged by z3),
2. concrete part: hv/conc/cXX.py drives the real code with generated inputs against an independent
   oracle (replay of failed obligations + bounded cross-check).
Outcome: exit 0, or exit 1 with a VIOLATION line."""
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HV_REPO', '/repo')
PY = sys.executable
VENV = '/opt/venv/bin/python'
FINDINGS = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')

TRUSTED = [
    'hv/interp.py + hv/npmodel.py + hv/loops.py: the verification-condition generator and its model of the Python/numpy subset (cross-checked against CPython by the concrete part)',
    'hv/decython.py: the mechanical .pyx -> Python extraction (drops C types, cimports and @cython decorators; see its docstring)',
    'z3 (python3-vt)',
    'machine arithmetic treated as mathematical: float64 as reals, int32 as integers',
]


def run_proof(prop, i, limit, tmp):
    out = os.path.join(tmp, 'proof%d.json' % i)
    t = time.time()
    try:
        p = subprocess.run([PY, '-m', 'hv.prove1', prop.lower(), str(i), out], cwd=ROOT, timeout=limit,
                           env=dict(os.environ, PYTHONHASHSEED='0'),        # the order of sets of terms, so the same proof search every time
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if os.path.exists(out):
            return json.load(open(out))
        return dict(status='internal', error=p.stderr[-1500:], wall_s=round(time.time() - t, 1))
    except subprocess.TimeoutExpired:
        return dict(status='timeout', error='time limit of %d s' % limit, wall_s=round(time.time() - t, 1))


def run_conc(prop, seed, tier, scale, budget, tmp, tag):
    out = os.path.join(tmp, 'conc-%s.json' % tag)
    try:
        p = subprocess.run([VENV, '-m', 'hv.conc', prop, '--seed', str(seed), '--tier', tier, '--scale', str(scale),
                            '--budget', str(budget), '--out', out], cwd=ROOT, timeout=budget * 3 + 60,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, stdin=subprocess.DEVNULL)
        if os.path.exists(out):
            return json.load(open(out))
        return dict(error=(p.stderr or p.stdout)[-3000:])
    except subprocess.TimeoutExpired:
        return dict(error='time limit')


def has(mod):
    return os.path.exists(os.path.join(ROOT, 'hv', *mod.split('/')) + '.py')


def listed_findings(prop):
    """{key: text} of the known findings of this property"""
    r = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                r[key.split('=', 1)[1]] = text
    return r


def main():
    import shutil
    import tempfile
    prop = sys.argv[1].upper()
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='hvcheck')
    try:
        rc = check(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, t0, tmp):
    thorough = tier == 'thorough'
    nproofs = 0
    proofs = []
    trusted_extra, bounded = [], []
    if has('props/' + prop.lower()):
        m = importlib.import_module('hv.props.' + prop.lower())
        nproofs = len(m.PROOFS)
        trusted_extra = list(getattr(m, 'TRUSTED', []))
        bounded = list(getattr(m, 'BOUNDED', []))
    limit = 1500 if thorough else 420
    nseeds = 8 if thorough else 5
    with cf.ThreadPoolExecutor(8) as ex:
        fc = []
        if has('conc/' + prop.lower()):
            fc = [ex.submit(run_conc, prop, seed + 1000 * i, tier, 8 if thorough else 2, 400 if thorough else 50, tmp, 'a%d' % i)
                  for i in range(nseeds)]
        fp = [ex.submit(run_proof, prop, i, limit, tmp) for i in range(nproofs)]
        proofs = [f.result() for f in fp]
        concs = [f.result() for f in fc]
        conc = concs[0] if concs else None
    names = [p[0] for p in m.PROOFS] if nproofs else []
    for n, r in zip(names, proofs):
        r.setdefault('proof', n)
    refuted = [(r['proof'], o) for r in proofs for o in r.get('failed', []) if o['status'] == 'refuted']
    undecided = [(r['proof'], o) for r in proofs for o in r.get('failed', []) if o['status'] != 'refuted']
    limits = [(r['proof'], r['status'], (r.get('error') or '')[-600:]) for r in proofs if r['status'] != 'ok']
    if refuted and concs and not any(c.get('fails') or c.get('error') for c in concs):
        # counterexample search on the real code: other seeds, more cases
        with cf.ThreadPoolExecutor(6) as ex:
            concs += list(ex.map(lambda s: run_conc(prop, s, tier, 6, 60, tmp, 's%d' % s),
                                 [seed + 100 + i for i in range(6)]))
    listed = listed_findings(prop)
    fails, known, unlisted = [], {}, {}
    for c in concs:
        fails += c.get('fails', [])
        for k, v in c.get('known', {}).items():
            (known if k in listed else unlisted)[k] = v
    for k, v in unlisted.items():
        fails.append(dict(part='finding', what=v, input=k))
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, listed[k]))
    violation = None
    if fails:
        violation = 'input'
    elif refuted:
        violation = 'obligation'
    edir = os.environ.get('HV_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(os.path.join(edir, 'replays'), exist_ok=True)
    ob = sum(r.get('obligations', 0) for r in proofs)
    di = sum(r.get('discharged', 0) for r in proofs)
    complete = nproofs > 0 and not limits and not refuted and not undecided and ob > 0
    conc0 = conc or {}
    coverage = dict(
        obligations=ob, discharged=di,
        checker_cmd='python3-vt -m hv.check %s%s' % (prop, ' --thorough' if thorough else ''),
        trusted_base=TRUSTED + trusted_extra,
        evaluations=sum(c.get('evaluations', 0) for c in concs), distinct_nontrivial=sum(c.get('distinct_nontrivial', 0) for c in concs),
        rule=conc0.get('rule') or 'randomised inputs against an independent oracle',
        samples=conc0.get('samples', []) or [n for r in proofs for n in r.get('names', [])][:5],
        proofs=[dict(proof=r.get('proof'), status=r['status'], paths=r.get('paths'), obligations=r.get('obligations'),
                     discharged=r.get('discharged'), solver_s=r.get('solver_s'), wall_s=r.get('wall_s'),
                     backends=r.get('backends'), functions_under_contract=r.get('verified'),
                     functions_executed=r.get('functions'), callee_contracts_used=r.get('contracts_used'),
                     loop_rules=r.get('rules'), feasible_ends=r.get('feasible_ends'),
                     obligations_named=r.get('names'), error=r.get('error')) for r in proofs],
        functions_under_contract=sorted({f for r in proofs for f in r.get('verified', [])}),
        solver_s=round(sum(r.get('solver_s') or 0 for r in proofs), 2),
        concrete_parts=conc0.get('parts'), concrete_skipped=conc0.get('skipped'),
        bounded=bounded, undecided=[dict(proof=p, obligation=o['name'], status=o['status']) for p, o in undecided],
        tool_limits=limits, complete_proof=complete,
    )
    if not complete:
        coverage['explanation'] = ('the deductive part did not discharge everything on this tree; '
                                   'what is left was only explored (bounded)')
    level = 'proof' if complete and not bounded else 'exploration'
    assumptions = sorted({a for r in proofs for a in r.get('assumptions', [])} |
                         {'contract of callee assumed at the call site (proved by its own proof or listed as trusted): ' + c
                          for r in proofs for c in r.get('contracts_used', [])})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(edir, prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d proofs, %d/%d obligations discharged, %s concrete cases, %.1f s' % (
        prop, tier, nproofs, di, ob, coverage['evaluations'], time.time() - t0))
    for p, s, e in limits:
        print('  undecided (tool limit): proof %s: %s %s' % (p, s, e.strip().splitlines()[-1] if e.strip() else ''))
    for p, o in undecided:
        print('  undecided: proof %s: %s (%s)' % (p, o['name'], o['status']))
    for c in concs:
        if c.get('error'):
            print('  concrete part gave no result:', c['error'][-800:])
            break
    if conc0.get('skipped'):
        print('  concrete part skipped:', conc0['skipped'])
    if violation:
        path = os.path.join(edir, 'replays', prop + '.json')
        json.dump(dict(property=prop, tree=REPO, failing_inputs=fails,
                       replay_cmd='cd %s && HV_REPO=%s %s -m hv.conc %s --seed %d' % (ROOT, REPO, VENV, prop, seed),
                       failed_obligations=[dict(proof=p, **o) for p, o in refuted + undecided],
                       tool_limits=limits), open(path, 'w'), indent=1, default=str)
        for f in fails[:3]:
            print('  failing input: %s | input %s | expected %s | got %s' % (
                f.get('what'), str(f.get('input'))[:300], str(f.get('expected'))[:300], str(f.get('got'))[-300:]))
        for p, o in refuted[:5]:
            print('  failed obligation: proof %s: %s (%s)' % (p, o['name'], o['backend']))
        print('VIOLATION property=%s replay=%s%s' % (
            prop, path, '' if violation == 'input' else ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__':
    main()
