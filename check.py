#!/usr/bin/env python3
"""Decides one property: python3 check.py C01 [--tier quick|thorough] [--repo /repo]

1. The deductive verifier (vc/) generates the obligations of the property from the current source of the repository and
   discharges them with z3.
2. The same property is evaluated on concrete inputs against the real code (rt/): a counterexample search for refuted
   obligations, and the bounded stand-in, labelled so, where the verifier cannot follow the code.

exit 0: held on everything explored; exit 1 and a VIOLATION line otherwise.
"""
import argparse, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
RT_PY = '/opt/venv/bin/python'
VT_PY = 'python3-vt'
RULE = ('cases are drawn from a seeded generator over batch shapes, dtypes, tree structures, names, histories and (for the utilities) tree pairs; '
        'a case counts as distinct and non-trivial when its full description differs from all earlier ones and the property applies to it (skipped cases are not counted)')
TRUSTED = [
    'z3 (the solver that discharges the obligations) and the obligation generator in vc/ (core.py, values.py, rtl.py, load.py)',
    'contracts assumed for jax, jax.numpy, jax.lax, jax.tree_util, checkify, flax.linen and numpy (vc/fakes.py): element-wise semantics of operators, '
    'broadcasting, dtype promotion, flatten/unflatten of pytrees, lax.while_loop iterating cond/body',
    'that jax differentiates its primitives by the rules of calculus, with derivative zero for comparisons and stop_gradient, and composes by the chain rule (C28)',
    'CPython executing the instrumented functions; the instrumentation (vc/load.py) drops annotations and docstrings and routes loops, comprehensions and displays through vc/rtl.py',
]
ASSUME = [
    'tensor contents are mathematical reals except in the contracts whose name says IEEE (float32, round to nearest even)',
    'integer shapes, counters and indices are mathematical integers',
    'trees are abstracted to structure term plus leaf function; dictionaries to name-indexed maps; a property of every name/leaf/position is proved at one arbitrary name, leaf and position',
    'tracing and compilation by XLA are not modelled; the concrete runs exercise them',
]


def sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, str(e)


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        if l.startswith('finding:'):
            d = dict(w.split('=', 1) for w in l.split()[1:3])
            d['text'] = l.split(None, 3)[3].strip()
            out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    t0 = time.time()
    pid, tier, seed = a.property, a.tier, int(os.environ.get('VERIF_SEED', '1'))
    quick = tier == 'quick'
    ev = a.evidence
    rep_dir = os.path.join(ev, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    tmp = os.path.join(ev, f'.{pid}.{os.getpid()}')
    env = dict(os.environ, VERIF_REPO=a.repo, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', XLA_FLAGS='--xla_cpu_multi_thread_eigen=false', TF_CPP_MIN_LOG_LEVEL='3')

    # ---- both sides at once
    vbudget = 240 if quick else 3000
    vc_cmd = [VT_PY, os.path.join(HERE, 'vc', 'run.py'), '--property', pid, '--tier', tier, '--budget', str(vbudget), '--out', tmp + '.vc']
    if not quick:
        vc_cmd += ['--timeout', '60000', '--smt', tmp + '.smt']
    vc = subprocess.Popen(vc_cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)

    def concrete(sd, tr, budget):
        out, total, start, t = tmp + '.rt', None, 0, time.time()
        for _ in range(20):
            left = budget - (time.time() - t)
            if left < 5 and total is not None:
                break
            rc, txt = sh([RT_PY, os.path.join(HERE, 'rt', 'main.py'), '--property', pid, '--seed', str(sd), '--tier', tr, '--budget', str(max(left, 5)), '--out', out, '--start', str(start)], budget * 3 + 120, env)
            r, at = load(out), load(out + '.at')
            for f in (out, out + '.at'):
                if os.path.exists(f):
                    os.remove(f)
            if r and r.get('error'):
                return r
            if r:
                if total is None:
                    total = dict(r, crashes=[])
                else:
                    for k in ('evaluations', 'distinct', 'skipped', 'errors', 'failures', 'samples'):
                        total[k] = total[k] + r[k]
            if rc == 0 or at is None or (total and total['failures']):
                break
            if total is None:
                total = {'evaluations': 0, 'distinct': 0, 'skipped': 0, 'errors': 0, 'failures': [], 'samples': [], 'crashes': []}
            total['crashes'].append(f'case {at} ended the process with {rc}')          # XLA crashed, say: go on behind that case
            start = at + 1
        return total or {'error': f'the concrete run ended with {rc}: {txt[-400:]}', 'failures': [], 'evaluations': 0, 'distinct': 0, 'samples': [], 'skipped': 0}
    rt = concrete(seed, tier, 60 if quick else 600)
    try:
        vtxt, _ = vc.communicate(timeout=vbudget + 200)
    except subprocess.TimeoutExpired:
        vc.kill()
        vtxt = 'verifier timed out'
    v = load(tmp + '.vc') or {'specs': [], 'import': 'no report: ' + vtxt[-500:], 'sources': {}, 'z3': '?'}
    if os.path.exists(tmp + '.vc'):
        os.remove(tmp + '.vc')

    # ---- what the verifier says
    obls, refuted, unknown, gaps = [], [], [], []
    for s in v['specs']:
        for u in s['unsupported']:
            gaps.append(f"{s['name']}: {u}")
        for o in s['obligations']:
            full = dict(o, contract=s['name'])
            obls.append(full)
            if o['refuted']:
                refuted.append(full)
            elif o['unknown']:
                unknown.append(full)
    vacuous = not v['specs']
    incomplete = {g.split(':')[0] for g in gaps}
    done = [o for o in obls if not o['refuted'] and not o['unknown'] and o['contract'] not in incomplete]
    cross = None
    if not quick and os.path.isdir(tmp + '.smt'):
        cross = second_solver(tmp + '.smt')
        subprocess.run(['rm', '-rf', tmp + '.smt'])

    conf = None
    if not quick:               # the assumed contracts of jax against the installed jax
        rc, txt = sh(['bash', os.path.join(HERE, 'conf', 'run.sh'), str(seed), '12'], 600, env)
        try:
            conf = json.loads(txt.strip().split('\n')[-1])
            conf['differences'] = [l[:300] for l in txt.split('\n') if l.startswith('bad ')][:20]
        except ValueError:
            conf = {'no answer': txt[-300:]}

    # ---- a failing input for a refuted obligation
    fails = list(rt['failures'])
    searched = 0
    if refuted and not fails and not rt.get('error'):
        for k in range(1 if quick else 3):
            r2 = concrete(seed + 1000 + k, 'thorough', 120)
            searched += r2['evaluations']
            fails += r2['failures']
            if fails:
                break

    violations, lines = 0, []

    def replay(body):
        blob = json.dumps(body, indent=1, sort_keys=True, default=str)
        path = os.path.join(rep_dir, f'{pid}-{hashlib.sha256(blob.encode()).hexdigest()[:12]}.json')
        open(path, 'w').write(blob)
        return path
    info = [{'contract': o['contract'], 'obligation': o['name'], 'verifier': o['detail']} for o in refuted[:8]]
    how = f'{RT_PY} {os.path.join(HERE, "rt", "main.py")} --replay <this file>'
    if fails:
        f = fails[0]
        violations += len(fails)
        lines.append(f'VIOLATION property={pid} replay=' + replay({'property': pid, 'case': f['case'], 'message': f['message'], 'obligations': info, 'replay': how}))
        print(f['message'][:1500])
    elif rt.get('error') == 'import':
        violations += 1
        print(rt['message'][-1500:])
        lines.append(f'VIOLATION property={pid} replay=' + replay({'property': pid, 'case': None, 'message': 'the code cannot be imported: ' + rt['message'], 'obligations': info, 'replay': how}))
    elif refuted:
        violations += len(refuted)
        lines.append(f'VIOLATION property={pid} replay=' + replay({'property': pid, 'case': None, 'message': 'failed obligation', 'obligations': info, 'replay': how}) + ' no-failing-input-found')
    elif rt.get('error'):
        print('the concrete run gave no answer:', rt['error'][:600])
    for o in refuted[:8]:
        print(f"obligation not provable: {o['name']} [{o['contract']}]: {json.dumps(o['detail'])[:500]}")

    # ---- known findings
    finds = []
    for k in known():
        if k['property'] != pid:
            continue
        rc, txt = sh([RT_PY, os.path.join(HERE, 'rt', 'known.py'), k['id']], 120, env)
        if rc == 1:
            finds.append(k['id'])
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['text']}")

    bounded = {'label': 'bounded: concrete inputs within the generator bounds, never counted as proved', 'why': gaps[:20] + [f"unknown: {o['name']}" for o in unknown[:10]] +
               (['no contract for this property'] if vacuous else [])}
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if v['specs'] else 'exploration',
        'coverage': {
            'obligations': len(obls), 'discharged': len(done), 'checker_cmd': ' '.join(vc_cmd[:6]), 'trusted_base': TRUSTED,
            'back_end': 'z3 ' + str(v.get('z3')), 'second_solver': cross,
            'contracts_of_jax_against_the_installed_jax': conf,
            'functions_under_contract': sorted({f for s in v['specs'] for f in s['funcs']}),
            'solver_s': round(sum(s['solver'] for s in v['specs']), 2), 'verifier_wall_s': round(max([s['wall'] for s in v['specs']] or [0]), 2),
            'paths': sum(s['paths'] for s in v['specs']), 'queries': sum(s['queries'] for s in v['specs']),
            'contracts': [{'name': s['name'], 'arithmetic': s.get('mode'), 'paths': s['paths'], 'obligations': len(s['obligations']),
                           'all_paths_covered': not s['unsupported']} for s in v['specs']],
            'obligation_names': [f"{o['contract']} | {o['name']} ({o['paths']} paths)" for o in obls],
            'not_discharged': [o['name'] for o in refuted + unknown], 'outside_the_subset': gaps,
            'evaluations': rt.get('evaluations', 0) + searched, 'distinct_nontrivial': max(0, rt.get('distinct', 0) - rt.get('skipped', 0)), 'rule': RULE, 'samples': rt.get('samples', [])[:2],
            'bounded_stand_in': bounded, 'crashed_cases': rt.get('crashes', []), 'sources': v.get('sources', {}), 'known_findings_seen': finds,
            'explanation': 'every obligation is generated from the current source and discharged for all inputs; the concrete runs look for failing inputs and stand in (bounded) where the verifier cannot follow the code',
        },
        'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    out = os.path.join(ev, f'{pid}.json')
    json.dump(evidence, open(out + '.tmp', 'w'), indent=1, default=str)
    os.replace(out + '.tmp', out)
    print(f"{pid} {tier}: {len(done)}/{len(obls)} obligations discharged ({len(v['specs'])} contracts, {len(refuted)} refuted, {len(unknown)} unknown, {len(gaps)} gaps), "
          f"{rt.get('evaluations', 0)} concrete cases, {time.time() - t0:.1f}s")
    for g in gaps[:6]:
        print('  outside the subset:', g[:300])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if lines else 0


def second_solver(d):
    """cvc5 on the discharged queries: agreements, disagreements, no answer."""
    import concurrent.futures as cf
    fs = sorted(os.listdir(d))

    def one(f):
        rc, out = sh(['cvc5', '--tlimit=10000', os.path.join(d, f)], 30)
        w = (out or '').split()
        return w[0] if w else 'none'
    step = max(1, len(fs) // 400)
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, fs[::step]))
    return {'solver': 'cvc5', 'queries': len(rs), 'agree': rs.count('unsat'), 'disagree': rs.count('sat'), 'no_answer': len(rs) - rs.count('unsat') - rs.count('sat')}


if __name__ == '__main__':
    sys.exit(main())
