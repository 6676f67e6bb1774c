#!/usr/bin/env python3
"""runseeds.py [-j N] [-t quick|thorough] [ID..]: run each planted bug's check against a scratch copy of /repo
with the bug applied; say which are caught."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')


def one(id, tier):
    meta = json.load(open(os.path.join(SEEDED, id, 'meta.json')))
    work = tempfile.mkdtemp(prefix='rs-')
    try:
        repo, ver = os.path.join(work, 'repo'), os.path.join(work, 'verif')
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(ROOT, ver, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replay', 'evidence'))
        subprocess.run(['git', 'apply', os.path.join(SEEDED, id, 'patch.diff')], cwd=repo, check=True)
        t = time.time()
        r = subprocess.run(['python3', 'check.py', meta['property'], tier], cwd=ver, timeout=3600,
                           env=dict(os.environ, NBC_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'),
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % meta['property'])]
        ok = r.returncode == 1 and v
        said = (r.stdout + r.stderr)[-600:]
        if ok:
            said = ' '.join(sorted(set(x['clause'] for x in json.load(open(os.path.join(ver, 'replay', meta['property'] + '.json'))))))
        return '%-6s %-7s rc=%d %4.0fs %s' % (id, 'caught' if ok else 'MISSED', r.returncode, time.time() - t, said)
    finally:
        shutil.rmtree(work)


def main():
    args = sys.argv[1:]
    n, tier = 3, 'quick'
    if '-j' in args:
        i = args.index('-j'); n = int(args[i + 1]); del args[i:i + 2]
    if '-t' in args:
        i = args.index('-t'); tier = args[i + 1]; del args[i:i + 2]
    ids = args or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(n) as ex:
        for f in as_completed([ex.submit(one, i, tier) for i in ids]):
            print(f.result(), flush=True)


main()
