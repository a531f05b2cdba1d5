"""Confirms planted bugs: python3 tools/plant.py <bugs module> [id...]   (not used by any check)

Each bug is an edit of one or more source files plus a demonstration.  In a scratch copy of /repo: the demo passes, then
with the edit applied the code builds, the stable tests pass and the demo fails; only then seeded/<id>/ is written.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import warnings
warnings.simplefilter('ignore')
import numpy as np
import jax
from jax import numpy as jnp
from src.jax_act.core.builder import ControllerBuilder
from src.jax_act.core.controller import ACT_Controller
from src.jax_act.core.states import ACTStates
from src.jax_act.core.tensoreditor import TensorEditor
from src.jax_act.core.viewer import ACTViewer
from src.jax_act.core import utils


def raises(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False


'''


def sh(cmd, cwd, env=None, timeout=200):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
    return p.returncode, p.stdout


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    bugs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(bugs)
    stable = json.load(open('/opt/vp/BASELINE.json'))
    ids = sys.argv[2:]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda b: one(b, ids, stable), bugs.BUGS))


def one(b, ids, stable):
    for b in [b]:
        if ids and b['id'] not in ids:
            continue
        if not ids and os.path.exists(os.path.join(SEED, b['id'], 'patch.diff')):
            continue
        work = tempfile.mkdtemp(prefix='plant.')
        repo = os.path.join(work, 'repo')
        try:
            shutil.copytree('/repo', repo, symlinks=True)
            d = os.path.join(work, 'demo')
            os.mkdir(d)
            open(d + '/demo.py', 'w').write(HEAD + b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            rc, out = sh(['bash', d + '/demo.sh'], repo)
            if rc:
                print(b['id'], 'DEMO FAILS ON THE ORIGINAL', out[-800:])
                continue
            ok = True
            for f, old, new in b['edits']:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], f'{s.count(old)} matches of', old)
                    ok = False
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            rc, out = sh(['bash', d + '/demo.sh'], repo)
            if rc == 0:
                print(b['id'], 'DEMO PASSES WITH THE BUG')
                continue
            msg = out.strip().splitlines()[-1] if out.strip() else ''
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--timeout=100', '--continue-on-collection-errors', '--no-header', '-rA', '-p', 'no:cacheprovider', 'tests'], cwd=repo, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo))
            bad = failing(r.stdout, stable)
            if bad:
                print(b['id'], 'STABLE TESTS FAIL', bad[:3])
                continue
            rc, diff = sh(['git', 'diff', '--no-color', '--', 'src'], repo)
            dst = os.path.join(SEED, b['id'])
            os.makedirs(dst, exist_ok=True)
            open(dst + '/patch.diff', 'w').write(diff)
            shutil.copy(d + '/demo.py', dst)
            shutil.copy(d + '/demo.sh', dst)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
            print(b['id'], 'kept;', msg[:150], flush=True)
        finally:
            shutil.rmtree(work)


def failing(out, stable):
    passed = {'::'.join(l.split()[1].split('::')[1:]) for l in out.splitlines() if l.startswith('PASSED ')}
    want = [n.split('::') for n in stable['stable']]
    return [n for n in want if n[0].split('.')[-1] + '::' + n[1] not in passed and n[1] not in passed]


main()
