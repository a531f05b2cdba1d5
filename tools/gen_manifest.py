"""Writes /verif/MANIFEST.json; a property whose contracts generate obligations has level proof, otherwise exploration (bounded stand-in)."""
import json, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
def registered():
    """Properties some contract serves, from the registry itself."""
    code = "import sys; sys.path.insert(0, '/verif/vc'); import load; load.install(); import registry; print(' '.join(sorted({p for s in registry.load_all() for p in s.props})))"
    return set(subprocess.run(['python3-vt', '-c', code], capture_output=True, text=True, check=True).stdout.split())
proved = registered()
NA = {}
BOUNDED = {}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    pr = i in proved
    checks.append({
        'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
        'technique': ('contracts on the real functions, obligations generated by symbolic execution of the current source and discharged by z3; concrete search for failing inputs'
                      if pr else 'bounded concrete check of the contract (no obligation within reach of the verifier)'),
        'level': 'proof' if pr else 'exploration',
        'level_note': ('all inputs: arbitrary batch shape, names, tree structures, leaf ranks and contents (reals; IEEE float32 where a contract says so); jax/numpy primitives are trusted contracts. '
                       'Functions the verifier cannot follow after a change are decided by the bounded concrete run, reported as such.'
                       if pr else BOUNDED.get(i, 'bounded stand-in only: generated inputs, nothing is proved'))})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python -c "import jax, flax" && mkdir -p evidence',
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(sorted(proved), [c['property'] for c in checks if c['level'] != 'proof'])
