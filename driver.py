"""Decides one property: discharges the contract obligations generated from the current source (pvc) and
evaluates the same contracts on the running code (rtc).  See DESIGN.md."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PVC_REPO', '/repo')
RPY = '/opt/venv/bin/python'
TIERS = {  # proof limit per spec and mode (s), rtc shards, rtc budget per shard (s), hard limit
    'quick': (100, 4, 24, 700),
    'thorough': (600, 8, 300, 5000)}
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/vp/mplconfig', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PVC_REPO=REPO)
ENV.pop('PYTHONPATH', None)


def sh(cmd, out, limit):
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        rc, txt = r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as ex:
        rc, txt = 'timeout', (ex.stdout or b'').decode(errors='replace')
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    return rc, txt, d, time.time() - t


def known_list(prop):
    out = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('KF-') and f'property={prop} ' in l:
            k, rest = l.split(':', 1)
            out[k] = rest.split(f'property={prop} ', 1)[1].strip()
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plimit, shards, budget, hard = TIERS[tier]
    t0 = time.time()
    base = json.load(open(os.path.join(HERE, 'baseline.json')))
    work = tempfile.mkdtemp(prefix=f'vp_{prop}_')
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    r = subprocess.run(['python3-vt', '-B', '-m', 'pvc.run', '--list'], cwd=HERE, env=ENV, stdout=subprocess.PIPE)
    specs = []
    for l in r.stdout.decode().split('\n'):
        if l:
            sid, props = l.split()
            if prop in props.split(','):
                specs.append(sid)
    ex = cf.ThreadPoolExecutor(max_workers=8)
    rt = {}
    for k in range(shards):
        o = f'{work}/rtc{k}.json'
        rt[ex.submit(sh, [RPY, '-B', '-m', 'rtc.run', prop, tier, str(seed * 100 + k), str(budget), o], o, hard)] = k
    weights = {s: base.get(s, {}).get('wall_s', 1) for s in specs}
    pf = {}
    for s in sorted(specs, key=lambda s: -weights[s]):
        o = f'{work}/{s.replace("/", "_")}.json'
        pf[ex.submit(sh, ['python3-vt', '-B', '-m', 'pvc.run', s, o, str(plimit)], o, plimit * 4 + 60)] = s
    violations, notes, errors = [], [], []
    known, listed = {}, known_list(prop)
    ev = {'evaluations': 0, 'distinct': 0, 'samples': [], 'contracts': {}}
    fails = []
    for f in cf.as_completed(rt):
        rc, txt, d, w = f.result()
        if d is None:
            errors.append(f'runtime evaluation ended with {rc}: {txt[-1500:]}')
            continue
        ev['evaluations'] += d['evaluations']
        ev['distinct'] += d['distinct']
        ev['samples'] += d['samples'][:2] if len(ev['samples']) < 4 else []
        for c, x in d['contracts'].items():
            q = ev['contracts'].setdefault(c, {'evaluated': 0, 'distinct': 0})
            q['evaluated'] += x['evaluated']
            q['distinct'] += x['distinct']
        fails += d['failures']
        for k, x in d['known'].items():
            if k in listed:
                known.setdefault(k, x)
            else:
                fails.append(dict(x, property=prop))
    recs = {}
    for f in cf.as_completed(pf):
        rc, txt, d, w = f.result()
        if d is None:
            d = [{'spec': pf[f], 'mode': 'unbounded', 'status': 'unsupported', 'error': f'verifier ended with {rc}: {txt[-300:]}', 'obligations': [], 'functions': [], 'library': [], 'loops': {}, 'wall_s': w, 'covers': []}]
        recs[pf[f]] = d
    ex.shutdown()
    # ---- runtime contract failures: confirmed by replay in a fresh process
    for i, x in enumerate(fails[:6]):
        p = os.path.join(HERE, 'replays', f'{prop}-{len(violations)}.json')
        x = dict(x, property=prop, replay=f'cd {HERE} && {RPY} -m rtc.run --replay {p}')
        json.dump(x, open(p, 'w'), indent=1, default=str)
        rc, txt, _, _ = sh([RPY, '-B', '-m', 'rtc.run', '--replay', p], p, 300)
        if rc != 1 and 'did not terminate' in x['message']:
            notes.append(f'not reproduced: {x["contract"]}: {x["message"][:200]}')
            continue
        x['reproduced'] = rc == 1
        json.dump(x, open(p, 'w'), indent=1, default=str)
        violations.append((p, f'{x["contract"]}: {x["message"][:300]}', ''))
        if len(violations) >= 3:
            break
    # ---- proof obligations
    nob = ndis = bob = bdis = 0
    by, funcs, libs, loops = {}, set(), set(), {}
    table = []
    solver = 0.0
    for s in sorted(recs):
        rs = recs[s]
        fin = rs[0] if rs[0]['status'] == 'proved' else None
        b = base.get(s)
        for r in rs:
            solver += r['wall_s']
            if r['mode'] == 'unbounded' and r['status'] != 'proved':
                if b and b['mode'] == 'unbounded':
                    notes.append(f'DEGRADED {s}: symbolic-size proof {r["status"]}: {r["error"] or "; ".join(o["name"] for o in r["obligations"] if not o["ok"])[:200]}')
                continue
            funcs |= set(r['functions'])
            libs |= set(r['library'])
            for k, c in r['loops'].items():
                loops[k] = loops.get(k, 0) + c
            for o in r['obligations']:
                if r['mode'] == 'unbounded':
                    nob += 1
                    ndis += o['ok']
                else:
                    bob += 1
                    bdis += o['ok']
                if o['ok']:
                    by[o['by']] = by.get(o['by'], 0) + 1
            table.append({'spec': s, 'covers': r['covers'], 'mode': r['mode'], 'status': r['status'], 'obligations': len(r['obligations']), 'discharged': sum(o['ok'] for o in r['obligations']), 'error': r['error'], 'wall_s': r['wall_s']})
            if r['mode'] != 'unbounded' and r['status'] != 'proved':
                bad = [o for o in r['obligations'] if not o['ok']]
                hard_fail = r['status'] == 'failed' and any(o.get('model') or o['kind'] in ('frame', 'raise') for o in bad)
                if b and r['mode'] in b['refuting'] and hard_fail and not any(v[2] and s in v[1] for v in violations):
                    p = os.path.join(HERE, 'replays', f'{prop}-proof-{s.split("/")[1]}.json')
                    json.dump({'property': prop, 'spec': s, 'mode': r['mode'], 'failed_obligations': bad, 'verifier_cmd': f'cd {HERE} && python3-vt -m pvc.run --show {s}', 'baseline': b}, open(p, 'w'), indent=1, default=str)
                    violations.append((p, f'{s} ({r["mode"]}): {bad[0]["name"]}: {str(bad[0].get("why", ""))[:200]}', 'no-failing-input-found'))
                else:
                    notes.append(f'DEGRADED {s} ({r["mode"]}): {r["status"]}: {r["error"] or "; ".join(o["name"] for o in bad)[:200]}')
    # ---- lemmas of the specifications, proved by Lean on every run
    lemmas = {}
    for l in sorted(libs):
        if '(lemmas/' in l:
            f = l.split('(', 1)[1].split(')', 1)[0]
            if f not in lemmas:
                src = open(os.path.join(HERE, f)).read()
                rc, txt, _, w = sh(['lean', f], os.devnull, 300)
                solver += w
                names = re.findall(r'^theorem (\w+)', src, re.M)
                ok = rc == 0 and 'sorry' not in txt and 'sorry' not in src and 'axiom' not in src
                lemmas[f] = {'proved': ok, 'theorems': names, 'wall_s': round(w, 1), 'output': txt[-300:]}
                nob += len(names)
                if ok:
                    ndis += len(names)
                    by['lean'] = by.get('lean', 0) + len(names)
                else:
                    notes.append(f'DEGRADED {f}: not checked here by Lean ({rc}), assumed')
    # a failing input makes the proof-only reports redundant
    if any(not v[2] for v in violations):
        violations = [v for v in violations if not v[2]]
    level = json.load(open(os.path.join(HERE, 'levels.json'))).get(prop, 'exploration')
    cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': f'python3-vt -m pvc.run --show {prop}', 'trusted_base': sorted(l if 'lemma' in l or 'math:' in l else 'contract of ' + l for l in libs if not lemmas.get(l.split('(', 1)[-1].split(')', 1)[0], {}).get('proved')) + TRUST,
           'bounded_obligations': bob, 'bounded_discharged': bdis, 'discharged_by': by, 'functions_under_contract': sorted(funcs), 'loops': loops, 'specs': table, 'lemmas': lemmas, 'solver_s': round(solver, 1),
           'evaluations': ev['evaluations'], 'distinct_nontrivial': ev['distinct'],
           'rule': 'runtime evaluation of the contracts on generated arguments (rtc/*.py): every case builds real models and compares every postcondition; distinct = distinct generated arguments; every case is non-trivial in that it reaches the postcondition',
           'samples': ev['samples'], 'contracts_evaluated': ev['contracts'],
           'explanation': 'obligations are discharged for symbolic sizes (proof) or for the listed small sizes with symbolic entries (bounded, not counted as proved); contracts_evaluated are bounded runtime evaluations of the same contracts on the real code',
           'degraded': notes}
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    json.dump(evd, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    shutil.rmtree(work, ignore_errors=True)
    for n in notes:
        print(n)
    for k, m in listed.items():
        if k in known:
            print(f'KNOWN-FINDING: property={prop} {k} {m}')
    print(f'{prop} {tier}: {nob} obligations, {ndis} discharged (symbolic sizes); {bob} bounded, {bdis} discharged; {ev["evaluations"]} runtime contract evaluations; {evd["wall_s"]} s')
    if violations:
        for p, m, suf in violations:
            print('  ' + m)
            print(f'VIOLATION property={prop} replay={p}' + (' ' + suf if suf else ''))
        return 1
    if errors:
        print('\n'.join(errors))
        return 2
    return 0


TRUST = ['z3 4.x (python3-vt z3-solver)', 'pvc symbolic executor, term normaliser and induction rules (/verif/pvc)', 'CPython semantics of the constructs pvc interprets', 'numpy/networkx contracts in pvc/npmodel.py and pvc/libmodel.py']
ASSUME = ['floating point is treated as exact real arithmetic in the obligations; rounding is only seen by the runtime evaluations', 'rows of an input model sum to exactly 1 in the obligations (closeness is checked at run time)',
          'constructors of networkx graphs, inspect and warnings behave as their contracts', 'python integers are mathematical; numpy integer overflow is not modelled in the obligations']

if __name__ == '__main__':
    sys.exit(main())
