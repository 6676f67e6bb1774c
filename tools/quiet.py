#!/usr/bin/env python3
"""quiet.py [-j N] [-k KINDS] SEED...: refactors copies of /repo (tools/refactor.py), confirms that the stable tests
still pass and runs every check on them: none may report anything.  Models, which do not depend on the code, are left out."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
a = sys.argv[1:]
n, kinds, props = 4, [], ['C%02d' % i for i in range(1, 36)]
while a and a[0].startswith('-'):
    o, v = a[0], a[1]; del a[:2]
    if o == '-j': n = int(v)
    elif o == '-k': kinds = [v]
    elif o == '-p': props = v.split(',')


def one(seed):
    w = tempfile.mkdtemp(prefix='quiet-')
    try:
        repo, ver = w + '/repo', w + '/verif'
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(ROOT, ver, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replay', 'evidence'))
        subprocess.run([sys.executable, ROOT + '/tools/refactor.py', repo, seed] + kinds, check=True)
        for name in ('test.sh', 'results.py'):
            open(w + '/' + name, 'w').write(open('/opt/vp/' + name).read().replace('/repo', repo))
        subprocess.run(['bash', w + '/test.sh', w + '/out.json'], cwd=repo, capture_output=True)
        o = json.load(open(w + '/out.json'))
        lost = STABLE - set(o.get('passed', o.get('pass', [])))
        print('seed', seed, 'tests', 'FAIL %s' % sorted(lost)[:3] if lost else 'pass', flush=True)
        for p in props:
            code = ('import os,sys;sys.argv=["check.py","%s","quick"];sys.path[:0]=["%s/lib","%s"];import vlib\n'
                    'f=vlib.Check.model\n'
                    'class R: distinct=generated=0; wall=0; out=""; ok=True; violated=None\n'
                    'vlib.Check.model=lambda s,mod,cfg,name=None,**k: f(s,mod,cfg,name,**k) if k or "mit" in cfg else R()\n'
                    'import check\nsys.exit(check.main())\n') % (p, ver, ver)
            try:
                r = subprocess.run(['python3', '-c', code], cwd=ver, timeout=1500, capture_output=True, text=True, env=dict(os.environ, NBC_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'))
                rc, t = r.returncode, (r.stdout + r.stderr)[-1500:]
            except subprocess.TimeoutExpired:
                rc, t = 'timeout', ''
            print('seed', seed, p, 'quiet' if rc == 0 else 'LOUD %s\n%s' % (rc, t), flush=True)
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(n) as ex:
    list(ex.map(one, a))
