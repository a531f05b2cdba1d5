"""Runs the check of its property against every planted bug, in a scratch copy: python3 tools/try_bugs.py [id...]   (not used by any check)"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'


def one(i):
    w = tempfile.mkdtemp(prefix='try.')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        p = subprocess.run(['git', 'apply', f'{SEED}/{i}/patch.diff'], cwd=w + '/repo', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return i, None, 'does not apply: ' + p.stdout
        prop = json.load(open(f'{SEED}/{i}/meta.json'))['property']
        p = subprocess.run(['python3', '/verif/check.py', prop, '--tier', 'quick', '--repo', w + '/repo', '--evidence', w + '/ev'], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        e = json.load(open(f'{w}/ev/{prop}.json'))['coverage']
        return i, p.returncode, f"refuted {len(e['not_discharged'])}, gaps {len(e['outside_the_subset'])}: " + ' | '.join(l[:200] for l in p.stdout.splitlines() if l.startswith(('VIOL', prop))) + ''.join('\n     ' + g[:220] for g in e['outside_the_subset'][:2])
    finally:
        shutil.rmtree(w)


ids = sys.argv[1:] or sorted(os.listdir(SEED))
with cf.ThreadPoolExecutor(3) as ex:
    for i, rc, txt in ex.map(one, ids):
        print('CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'ERROR', i, txt, flush=True)
