#!/usr/bin/env python3
"""mkseed.py [-k] FILE.py [ID..]: build /verif/seeded/<id>/ from descriptions of planted bugs, and confirm
each in a scratch copy: the patch applies, builds, keeps the stable tests, changes original
lines only, and its demo tells the two trees apart."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
SHIMS = os.path.join(os.path.dirname(HERE), 'harness', 'shims', 'asyncore.py')
BASE = '26cc009'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def run(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, capture_output=True, text=True)


def blame_ok(path, diff):
    """Every removed line must be one of the original repository's."""
    r = run(['git', '-C', '/repo', 'blame', '-s', '-l', '--root', path]).stdout.splitlines()
    base = run(['git', '-C', '/repo', 'rev-parse', BASE]).stdout.strip()
    old, bad, removed = 0, [], 0
    for line in diff.splitlines():
        m = re.match(r'@@ -(\d+)', line)
        if m:
            old = int(m.group(1))
        elif line.startswith('---') or line.startswith('+++'):
            continue
        elif line.startswith('-'):
            removed += 1
            if base[:30] not in r[old - 1]:
                bad.append(line)
            old += 1
        elif line.startswith(' '):
            old += 1
    return bad, removed


def make(id, s):
    d = os.path.join(SEEDED, id)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    work = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for (f, old, new) in s['edits']:
            p = os.path.join(repo, f)
            text = open(p).read()
            if text.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (f, text.count(old), old[:60])
            open(p, 'w').write(text.replace(old, new))
        diff = run(['git', 'diff'], cwd=repo).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        problems = []
        total = 0
        for f in sorted(set(e[0] for e in s['edits'])):
            bad, removed = blame_ok(f, run(['git', 'diff', '-U0', f], cwd=repo).stdout)
            total += removed
            if bad:
                problems.append('touches fixed lines: %r' % bad)
        if not total:
            problems.append('removes no original line')
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\nHERE="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$HERE"\n'
            'exec timeout 250 /opt/venv/bin/python "$HERE/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        if s.get('node'):
            shutil.copy(SHIMS, d)
            shutil.copy(os.path.join(HERE, 'seeds', 'nd.py'), d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        good = run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
        if good.returncode != 0:
            problems.append('demo fails on the unchanged tree: ' + (good.stdout + good.stderr)[-700:])
        bad = run(['bash', os.path.join(d, 'demo.sh')], cwd=repo)
        if bad.returncode == 0:
            problems.append('demo passes with the patch')
        # stable tests: a private copy of the drivers, pointed at the scratch tree
        for name in ('test.sh', 'build.sh', 'check_build.py', 'results.py'):
            if os.path.exists('/opt/vp/' + name):
                t = open('/opt/vp/' + name).read().replace('/repo', repo).replace('/opt/vp/check_build.py', os.path.join(work, 'check_build.py'))
                open(os.path.join(work, name), 'w').write(t)
        b = run(['bash', os.path.join(work, 'build.sh')], cwd=repo)
        if b.returncode:
            # the build checks nbc only: fall back to importing it
            problems.append('build: ' + (b.stdout + b.stderr)[-500:])
        run(['bash', os.path.join(work, 'test.sh'), os.path.join(work, 'out.json')], cwd=repo)
        try:
            out = json.load(open(os.path.join(work, 'out.json')))
            passed = set(out.get('passed', out.get('pass', [])))
            missing = STABLE - passed
            if missing:
                problems.append('tests fail: %s' % sorted(missing)[:5])
        except Exception as e:
            problems.append('tests: %r' % e)
        return '; '.join(problems) or None
    finally:
        shutil.rmtree(work)


def main():
    args = sys.argv[1:]
    keep = '-k' in args
    args = [a for a in args if a != '-k']
    seeds = runpy.run_path(args[0])['SEEDS']
    ids = args[1:] or list(seeds)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(7) as ex:
        for id, r in zip(ids, ex.map(lambda i: make(i, seeds[i]), ids)):
            print('%-6s %s' % (id, r or 'ok'), flush=True)
            if r and not keep:
                shutil.rmtree(os.path.join(SEEDED, id))


main()
