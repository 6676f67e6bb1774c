#!/usr/bin/env python3
"""mutate.py gen OUT.jsonl [FRACTION] | tests IN OUT [-j N] | checks IN OUT [-j N]: systematic small changes of
the code of /repo, to find what the checks do not see.  `gen` writes them down, `tests` keeps
those that pass the stable tests, `checks` runs the checks of the file until one reports it (models, which do
not depend on the code, are left out).  Nothing of this is used by a check."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

E_ = 'nbc/util/ecdsa/'
NODE = ['C03', 'C01', 'C02', 'C06', 'C07', 'C04', 'C05', 'C08', 'C35']
FILES = {
    'nbc/node/__init__.py': ['C35'],
    'nbc/node/basenode.py': ['C06', 'C04', 'C05', 'C08', 'C07', 'C03', 'C35', 'C01', 'C02'],
    'nbc/node/connection.py': NODE,
    'nbc/protocol/format.py': ['C11', 'C09', 'C10', 'C32'],
    'nbc/protocol/messages.py': ['C10', 'C09', 'C11', 'C32'],
    'nbc/util/__init__.py': ['C31', 'C34', 'C30'],
    'nbc/util/bootstrap.py': ['C30'],
    'nbc/util/hash.py': ['C31'],
    'nbc/util/base58.py': ['C12'],
    'nbc/util/key.py': ['C13', 'C14', 'C33', 'C20'],
    'nbc/util/ecc.py': ['C33', 'C20', 'C32'],
    'nbc/util/piecewise.py': ['C29'],
    'nbc/util/pyaes/aes.py': ['C27', 'C28'],
    'nbc/util/pyaes/blockfeeder.py': ['C28'],
    'nbc/util/pyaes/util.py': ['C28'],
    'nbc/coins/__init__.py': ['C31'],
    'nbc/wallet/__init__.py': ['C15', 'C17', 'C16'],
    'nbc/wallet/address.py': ['C14', 'C15', 'C16', 'C20'],
    'nbc/wallet/hdwallet.py': ['C18', 'C19', 'C15', 'C16', 'C20', 'C14'],
    E_ + 'der.py': ['C25'], E_ + 'keys.py': ['C22', 'C25', 'C23'], E_ + 'util.py': ['C26', 'C22', 'C25'], E_ + 'curves.py': ['C25', 'C22'],
    E_ + 'rfc6979.py': ['C23'], E_ + 'ellipticcurve.py': ['C21'], E_ + 'ecdsa.py': ['C22', 'C21'], E_ + 'numbertheory.py': ['C24'],
}
SKIP = {'__main__', 'main', '_debug', '__str__', 'str', 'x11', 'commify', 'default_data_directory', 'log', '__repr__', '__cmp__', 'digest_integer', 'print_'}


def mutants(path):
    src = open(os.path.join('/repo', path)).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, new, why, fn):
        a, b = seg(n)
        old = raw[a:b].decode()
        if old == new:
            return
        out.append(dict(file=path, line=n.lineno, fn=fn, why=why, a=a, b=b, old=old[:120], new=new))

    def visit(n, fn, big):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP:
                return
            fn = (fn + '.' if fn else '') + n.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                  ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for o in sw.get(type(n.ops[0]), []):
                put(n, '(%s)' % ast.unparse(ast.Compare(n.left, [o()], n.comparators)), 'compare', fn)
        if isinstance(n, ast.BoolOp):
            put(n, '(%s)' % ast.unparse(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)), 'bool', fn)
            for v in n.values:
                put(n, '(%s)' % ast.unparse(v), 'drop', fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % ast.unparse(n.operand), 'not', fn)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                put(n.test, 'True', 'if', fn)
            put(n.test, 'False', 'if', fn)
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr,
                  ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr, ast.LShift: ast.RShift, ast.RShift: ast.LShift}
            o = sw.get(type(n.op))
            if o and not (isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(n.left.value, (str, bytes))):
                put(n, '(%s)' % ast.unparse(ast.BinOp(n.left, o(), n.right)), 'arith', fn)
        if isinstance(n, ast.Constant) and not big:
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'const', fn)
            elif isinstance(n.value, int) and n.value < 1 << 40:
                put(n, str(n.value + 1), 'const', fn)
                if n.value > 0:
                    put(n, str(n.value - 1), 'const', fn)
            elif isinstance(n.value, float):
                put(n, str(n.value + 1), 'const', fn)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Assert, ast.Delete)) and fn and not isinstance(n, ast.ClassDef):
            put(n, 'pass', 'delete', fn)
        if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant) and fn:
            put(n, 'pass', 'delete', fn)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, 'return None', 'return', fn)
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and ast.unparse(n.func) not in ('isinstance', 'hasattr', 'range', 'super'):
            put(n, ast.unparse(ast.Call(n.func, n.args[::-1], [])), 'swap', fn)
        if isinstance(n, (ast.ExceptHandler,)) and n.type is not None:
            put(n.type, 'ZeroDivisionError', 'except', fn)
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 30:
            big = True
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c, fn, big)
    for n in tree.body:
        if isinstance(n, ast.If) and '__main__' in ast.unparse(n.test):
            continue
        visit(n, '', False)
    ok, seen = [], set()
    for m in out:
        t = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, path, 'exec')
        except Exception:
            continue
        ok.append(m)
    return ok


def applied(m, repo):
    p = os.path.join(repo, m['file'])
    raw = open(os.path.join('/repo', m['file']), 'rb').read()
    assert raw[m['a']:m['b']].decode()[:120] == m['old'], m
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def restore(m, repo):
    shutil.copyfile(os.path.join('/repo', m['file']), os.path.join(repo, m['file']))


class Lane(object):
    def __init__(self):
        self.work = tempfile.mkdtemp(prefix='mut-')
        self.repo, self.ver = os.path.join(self.work, 'repo'), os.path.join(self.work, 'verif')
        shutil.copytree('/repo', self.repo, symlinks=True)
        for name in ('test.sh', 'results.py'):
            t = open('/opt/vp/' + name).read().replace('/repo', self.repo).replace('--timeout=300', '--timeout=60').replace('timeout 300', 'timeout 60')
            open(os.path.join(self.work, name), 'w').write(t)

    def tests(self, m):
        applied(m, self.repo)
        try:
            r = subprocess.run([sys.executable if False else '/opt/venv/bin/python', '-c', 'import nbc.wallet, nbc.protocol, nbc.coins, nbc.util'], cwd=self.repo, capture_output=True, timeout=60)
            if r.returncode:
                return False
            subprocess.run(['bash', os.path.join(self.work, 'test.sh'), os.path.join(self.work, 'out.json')], cwd=self.repo, capture_output=True, timeout=400)
            o = json.load(open(os.path.join(self.work, 'out.json')))
            return not (STABLE - set(o.get('passed', o.get('pass', []))))
        except Exception as e:
            return False
        finally:
            restore(m, self.repo)

    def checks(self, m):
        if not os.path.isdir(self.ver):
            shutil.copytree(ROOT, self.ver, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replay', 'evidence'))
        applied(m, self.repo)
        res = []
        try:
            for p in (m.get('props') or FILES[m['file']]):
                code = ('import os,sys;sys.argv=["check.py","%s","quick"];sys.path[:0]=["%s/lib","%s"];import vlib\n'
                        'f=vlib.Check.model\n'
                        'class R: distinct=generated=0; wall=0; out=""; ok=True; violated=None\n'
                        'vlib.Check.model=lambda s,mod,cfg,name=None,**k: f(s,mod,cfg,name,**k) if k or "mit" in cfg else R()\n'
                        'import check\nsys.exit(check.main())\n') % (p, self.ver, self.ver)
                t = time.time()
                try:
                    r = subprocess.run(['python3', '-c', code], cwd=self.ver, timeout=900, capture_output=True, text=True,
                                       env=dict(os.environ, NBC_REPO=self.repo, VERIF_SEED='1', VERIF_TIER='quick'))
                    rc, tail = r.returncode, (r.stdout + r.stderr)[-400:]
                    if rc == 1 and 'VIOLATION property=' not in r.stdout:
                        rc = 9
                except subprocess.TimeoutExpired:
                    rc, tail = 'timeout', ''
                res.append([p, rc, round(time.time() - t)] + ([tail] if rc not in (0, 1) else []))
                if rc == 1:
                    break
            return res
        finally:
            restore(m, self.repo)


def stage(name, src, dst, n):
    todo = [json.loads(l) for l in open(src)]
    done = set()
    if os.path.exists(dst):
        done = set(json.dumps({k: v for k, v in json.loads(l).items() if k not in ('passes', 'res')}, sort_keys=True) for l in open(dst))
    todo = [m for m in todo if json.dumps({k: v for k, v in m.items() if k not in ('passes', 'res')}, sort_keys=True) not in done]
    if name == 'checks':
        todo = [m for m in todo if m.get('passes')]
    lanes = [Lane() for _ in range(n)]
    free = list(lanes)
    import threading
    lock = threading.Lock()

    def one(m):
        with lock:
            l = free.pop()
        try:
            m = dict(m)
            if name == 'tests':
                m['passes'] = l.tests(m)
            else:
                m['res'] = l.checks(m)
        finally:
            with lock:
                free.append(l)
        with lock, open(dst, 'a') as f:
            f.write(json.dumps(m) + '\n')
    try:
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, todo))
    finally:
        for l in lanes:
            shutil.rmtree(l.work)


def main():
    a = sys.argv[1:]
    n = 4
    if '-j' in a:
        i = a.index('-j'); n = int(a[i + 1]); del a[i:i + 2]
    if a[0] == 'gen':
        rnd = random.Random(7)
        frac = float(a[2]) if len(a) > 2 else 1
        tot = 0
        with open(a[1], 'w') as f:
            for p in FILES:
                ms = mutants(p)
                k = [m for m in ms if rnd.random() < frac]
                print(p, len(ms), len(k)); tot += len(k)
                for m in k:
                    f.write(json.dumps(m) + '\n')
        print(tot)
    else:
        stage(a[0], a[1], a[2], n)


main()
