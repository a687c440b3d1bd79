#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py C05        (VERIF_TIER=quick|thorough, VERIF_SEED)

exit 0: every obligation generated from /repo's current source is discharged (or, for parts listed as bounded, the
        bounded stand-in passed);   exit 1 + 'VIOLATION property=.. replay=..' otherwise.
"""
import importlib
import json
import os
import subprocess
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def start_harness(prop, seed, stream, streams, budget, maxn, tag):
    env = dict(os.environ, MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONHASHSEED='0', SDL_VIDEODRIVER='dummy')
    env.pop('PYTHONPATH', None)
    scratch = os.path.join(HERE, 'build', 'scratch')
    os.makedirs(scratch, exist_ok=True)
    outp = os.path.join(scratch, f"{prop}-{tag}-{stream}-{os.getpid()}.json")
    f = open(outp, 'w')
    p = subprocess.Popen([PY, os.path.join(HERE, 'replay', 'run.py'), prop, '--seed', str(seed), '--stream', str(stream),
                          '--streams', str(streams), '--budget', str(budget), '--max', str(maxn)],
                         stdout=f, stderr=subprocess.PIPE, env=env, cwd=scratch)
    return p, outp, f, time.time() + budget * 3 + 90


def finish_harness(procs):
    res = []
    for p, outp, f, dl in procs:
        err = b''
        try:
            _, err = p.communicate(timeout=max(1, dl - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        f.close()
        try:
            res.append(json.load(open(outp)))
        except Exception:
            res.append(dict(cases={}, failures=[], errors=['harness gave no result: ' + err.decode(errors='replace')[-400:]],
                            evaluations=0, distinct=0, samples=[]))
        os.unlink(outp)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quick = tier == 'quick'
    has_replay = os.path.exists(os.path.join(HERE, 'replay', prop.lower() + '.py'))
    procs = []
    if has_replay:
        ns = 3 if quick else 4
        procs = [start_harness(prop, seed, i, ns, 25 if quick else 300, 2500 if quick else 12000, 'a') for i in range(ns)]
    mod = importlib.import_module('contracts.' + prop.lower())
    from pydv.verify import verify_all
    contracts = list(mod.CONTRACTS)
    if not quick:
        contracts += list(getattr(mod, 'THOROUGH', []))
    results = verify_all(contracts, tier, jobs=5 if quick else 6, overall=420 if quick else 3000)
    har = finish_harness(procs)
    failures = [f for h in har for f in h['failures']]
    undis = [r for r in results if r['status'] != 'proved']
    if not failures and undis and has_replay and any(r['status'] in ('undecided', 'refuted') for r in undis):
        # an obligation was not discharged: look harder for a concrete failing input
        ns = 6
        more = finish_harness([start_harness(prop, seed + 7919, i, ns, 75 if quick else 400, 5000, 'b') for i in range(ns)])
        har += more
        failures = [f for h in more for f in h['failures']]
    refuted = [r for r in results if r['status'] == 'refuted']

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'build', 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    nob = sum(len(r.get('proof', {}).get('obligations', [])) for r in results)
    ndis = sum(1 for r in results for o in r.get('proof', {}).get('obligations', []) if o['result'] == 'proved')
    named = [dict(function=r['target'], contract=r['contract'], failed=[o['name'] for o in r.get('failed', [])]) for r in undis if r.get('failed')]
    viol = 0
    if failures:
        f = failures[0]
        path = os.path.join(rdir, f"{prop}-{seed}.json")
        json.dump(dict(property=prop, case=f['case'], seed=f['seed'], message=f['message'], inputs=f.get('notes'), traceback=f['traceback'],
                       rerun=f"/opt/venv/bin/python {HERE}/replay/run.py {prop} --replay {path}", obligations_not_discharged=named,
                       other_failures=[dict(case=g['case'], message=g['message'][:300]) for g in failures[1:6]]), open(path, 'w'), indent=1)
        print(f"failing input ({f['case']}): {f['message'][:500]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        viol = len(failures)
    elif refuted:
        r = refuted[0]
        path = os.path.join(rdir, f"{prop}-{seed}-obligation.json")
        json.dump(dict(property=prop, function=r['target'], contract=r['contract'], obligation=[o['name'] for o in r['failed']],
                       verifier_output=r['failed'], proof=r.get('proof', {}).get('obligations'),
                       note='the bounded run of the same verification condition has a counter-model; no concrete input was found'),
                  open(path, 'w'), indent=1, default=str)
        print(f"obligation refuted: {r['target']}: {[o['name'] for o in r['failed']]}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        viol = 1

    trusted = sorted({t for r in results for t in r.get('proof', {}).get('trusted', [])} | set(getattr(mod, 'TRUSTED', [])))
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd=f"python3-vt check.py {prop} (pydv verification-condition generator on /repo's source, back end z3 {z3v()})",
        trusted_base=['pydv verification-condition generator (/verif/pydv)', 'z3'] + trusted,
        functions_under_contract=sorted({r['target'] for r in results if r['status'] == 'proved'}),
        contracts=[dict(contract=r['contract'], function=r['target'], status=r['status'], why=r.get('why'), title=r.get('title'),
                        obligations=len(r.get('proof', {}).get('obligations', [])),
                        discharged=sum(1 for o in r.get('proof', {}).get('obligations', []) if o['result'] == 'proved'),
                        not_discharged=[o['name'] for o in r.get('proof', {}).get('obligations', []) if o['result'] != 'proved'],
                        solver_s=r.get('proof', {}).get('solver_s'), secs=r.get('proof_s'),
                        executed_inline=r.get('proof', {}).get('inlined'),
                        bounded_run=({k: v for k, v in r['bmc'].items() if k != 'refuted'} if 'bmc' in r else None)) for r in results],
        solver_s=round(sum(r.get('proof', {}).get('solver_s', 0) or 0 for r in results), 2),
        bounded_not_proved=[f"{r['target']} ({r['contract']}): {r['status']} {r.get('why') or ''}".strip() for r in undis],
        bounded_only=getattr(mod, 'BOUNDED', []),
        runtime_contract_executions=sum(h.get('evaluations', 0) for h in har),
        runtime_distinct=sum(h.get('distinct', 0) for h in har),
        runtime_cases=merge([h['cases'] for h in har]),
        samples=[s for h in har[:1] for s in h.get('samples', [])],
        harness_errors=sorted({e for h in har for e in h.get('errors', [])}),
    )
    level = getattr(mod, 'LEVEL', 'proof')
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for r in results:
        n = len(r.get('proof', {}).get('obligations', []))
        print(f"{r['status']:11s} {r['target']} [{r['contract']}] obligations={n} {r.get('why') or ''}")
    for k, v in sorted(cov['runtime_cases'].items()):
        print(f"runtime     {k}: {v} executions")
    for e in cov['harness_errors']:
        print("harness note:", e)
    for u in undis:
        print(f"NOTE: {u['target']} [{u['contract']}] not fully discharged; bounded stand-in used")
    known(prop)
    if nob == 0 and cov['runtime_contract_executions'] == 0 and not lines:
        print("no obligation was generated and nothing was executed: no verdict")
        sys.exit(3)
    for l in lines:
        print(l)
    print(f"{prop}: obligations {ndis}/{nob} discharged, {cov['runtime_contract_executions']} run-time contract executions, {ev['wall_s']} s")
    sys.exit(1 if lines else 0)


def merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={prop} "):
                print("KNOWN-FINDING: " + line[len('known: '):].strip())


def z3v():
    import z3
    return z3.get_version_string()


ASSUMPTIONS = [
    "Python integers are mathematical integers; floats are mathematical reals with a separate NaN (no rounding, overflow or infinities) in the proofs",
    "CPython executes the parsed source as the language reference says; no monkey-patching or subclassing beyond what a contract states",
    "library functions behave as their models in /verif/pydv/models.py (listed in trusted_base)",
]

if __name__ == '__main__':
    main()
