#!/usr/bin/env python3
"""refactor.py DIR SEED [KINDS]: rewrites the code under DIR (a copy of /repo) without changing what it does:
locals and private attributes renamed, conditions, results and bodies moved out, branches swapped, loops
rewritten, definitions reordered.  tools/quiet.py runs the checks on such copies; they have to stay quiet."""
import ast, os, random, subprocess, sys

ALL = 'locals attrs iftemp swap forloop ret helper order aug nest compare consts noop'.split()
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def files(d):
    fs = subprocess.run(['git', 'ls-files', '*.py'], cwd=d, stdout=subprocess.PIPE, text=True).stdout.split()
    return [f for f in fs if 'test' not in f and not f.startswith(('setup', 'src')) and '_version' not in f]


def params(f):
    a = f.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


class Refactor(object):
    def __init__(self, d, seed, kinds):
        self.d, self.rnd, self.kinds, self.n = d, random.Random(seed), kinds, 0

    def fresh(self, base):
        self.n += 1
        return '_%s%d' % (base, self.n)

    def odds(self, p):
        return self.rnd.random() < p

    # -- attributes, over all files
    def private(self, trees):
        stored, defined, strings, bases = set(), set(), set(), set()
        for t in trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, str): strings.add(n.value)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('self', 's', 'cls'): stored.add(n.attr)
                if isinstance(n, ast.ClassDef):
                    for x in n.body:
                        if isinstance(x, ast.FunctionDef): stored.add(x.name)
                        if isinstance(x, ast.Assign):
                            stored |= {y.id for y in x.targets if isinstance(y, ast.Name)}
            for x in t.body:
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)): defined.add(x.name)
                if isinstance(x, ast.Assign): defined |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        names = {x for x in stored if x.startswith('_') and not x.startswith('__')} - defined - strings - {'_fileno', '_map', '_fields', '_replace'}
        m = {x: x + '_of' for x in sorted(names)}
        for t in trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and n.attr in m: n.attr = m[n.attr]
                if isinstance(n, ast.ClassDef):
                    inner = [y for x in n.body for y in ast.walk(x)] if False else []
                    for x in n.body:
                        if isinstance(x, ast.FunctionDef) and x.name in m: x.name = m[x.name]
                        elif not isinstance(x, SCOPES):
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name) and y.id in m: y.id = m[y.id]

    # -- one function
    def locals_(self, f):
        bad, st = params(f), set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)): bad |= set(n.names)
            if isinstance(n, SCOPES) and n is not f:
                if isinstance(n, ast.ClassDef): return
                bad |= params(n)
                if hasattr(n, 'name'): bad.add(n.name)
                for y in ast.walk(n):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): bad.add(y.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)): bad |= {(a.asname or a.name).split('.')[0] for a in n.names}
            if isinstance(n, ast.Name) and n.id in ('locals', 'exec', 'eval', 'vars'): return
            if isinstance(n, ast.comprehension):
                bad |= {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)}
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): st.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name: st.add(n.name)
        m = {x: x + '_v' for x in st - bad if not x.startswith('__')}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in m: n.id = m[n.id]
            if isinstance(n, ast.ExceptHandler) and n.name in m: n.name = m[n.name]

    def name(self, x, store=False):
        return ast.Name(id=x, ctx=ast.Store() if store else ast.Load())

    def block(self, body, cls=False):
        out = []
        for s in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, fld, None), list) and getattr(s, fld) and not isinstance(s, SCOPES):
                    if fld == 'orelse' and isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                        self.elif_(s.orelse[0]); continue
                    setattr(s, fld, self.block(getattr(s, fld)))
            for h in getattr(s, 'handlers', []):
                h.body = self.block(h.body)
            if isinstance(s, SCOPES):
                out.append(s); continue
            k = self.kinds
            if isinstance(s, ast.If):
                plain = not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If))
                if 'nest' in k and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and self.odds(.5):
                    v = s.test.values
                    s = ast.If(test=v[0], body=[ast.If(test=v[1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:]), body=s.body, orelse=[])], orelse=[])
                if 'swap' in k and s.orelse and plain and self.odds(.6):
                    s = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)
                if 'iftemp' in k and self.odds(.4):
                    t = self.fresh('cond')
                    out.append(ast.Assign(targets=[self.name(t, True)], value=s.test))
                    s = ast.If(test=self.name(t), body=s.body, orelse=s.orelse)
            elif isinstance(s, ast.For) and 'forloop' in k and not s.orelse and self.odds(.5):
                t = self.fresh('it')
                out.append(ast.Assign(targets=[self.name(t, True)], value=ast.Call(func=self.name('iter'), args=[s.iter], keywords=[])))
                nx = ast.Assign(targets=[s.target], value=ast.Call(func=self.name('next'), args=[self.name(t)], keywords=[]))
                s = ast.While(test=ast.Constant(value=True), orelse=[],
                              body=[ast.Try(body=[nx], handlers=[ast.ExceptHandler(type=self.name('StopIteration'), name=None, body=[ast.Break()])], orelse=[], finalbody=[])] + s.body)
            elif isinstance(s, ast.Return) and s.value is not None and 'ret' in k and self.odds(.5):
                t = self.fresh('res')
                out.append(ast.Assign(targets=[self.name(t, True)], value=s.value))
                s = ast.Return(value=self.name(t))
            elif isinstance(s, ast.AugAssign) and 'aug' in k and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) and isinstance(s.target, ast.Name):
                s = ast.Assign(targets=[s.target], value=ast.BinOp(left=self.name(s.target.id), op=s.op, right=s.value))
            out.append(s)
        return out

    def elif_(self, s):
        s.body = self.block(s.body)
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If): self.elif_(s.orelse[0])
        elif s.orelse: s.orelse = self.block(s.orelse)

    def compare(self, t):
        sw = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        for n in ast.walk(t):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in sw and self.odds(.5):
                a, b = n.left, n.comparators[0]
                if isinstance(b, ast.Constant) and isinstance(b.value, (int, str, bytes)):
                    n.left, n.comparators, n.ops = b, [a], [sw[type(n.ops[0])]()]

    def helper(self, f, cls):
        """Moves the body of f elsewhere: [helper, f]."""
        if f.decorator_list or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)): return [f]
        a = f.args
        if a.posonlyargs or a.kwonlyargs or a.vararg or a.kwarg or (f.name.startswith('__') and f.name != '__init__'): return [f]
        if any(isinstance(n, ast.Name) and n.id in ('super', 'locals', 'exec') for n in ast.walk(f)): return [f]
        if cls and (not a.args or a.args[0].arg != 'self'): return [f]
        if any(isinstance(n, ast.Attribute) and n.attr.startswith('__') and not n.attr.endswith('__') for n in ast.walk(f)): return [f]
        h = '_%s_%s_body' % (cls or 'do', f.name.strip('_'))
        args = [self.name(x.arg) for x in a.args]
        doc = f.body[:1] if ast.get_docstring(f) else []
        body = f.body[len(doc):]
        if not body: return [f]
        g = ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x.arg) for x in a.args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], type_params=[])
        call = ast.Call(func=ast.Attribute(value=self.name('self'), attr=h, ctx=ast.Load()) if cls else self.name(h), args=args[1:] if cls else args, keywords=[])
        f.body = doc + [ast.Return(value=call)]
        return [g, f]

    def shuffle(self, body):
        out, run = [], []
        for s in body + [None]:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not any(isinstance(n, ast.Name) for d in s.args.defaults for n in ast.walk(d)):
                run.append(s); continue
            if len({x.name for x in run}) == len(run): self.rnd.shuffle(run)
            out += run; run = []
            if s is not None: out.append(s)
        return out

    def consts(self, t):
        new = []

        class V(ast.NodeTransformer):
            def visit_FunctionDef(v, n):
                n.body = [v.visit(x) for x in n.body]
                return n

            def visit_ClassDef(v, n):
                n.body = [v.visit(x) if isinstance(x, ast.FunctionDef) else x for x in n.body]
                return n

            def visit_Constant(v, n):
                if type(n.value) is int and n.value >= 5 and self.odds(.5):
                    c = self.fresh('K')
                    new.append(ast.Assign(targets=[self.name(c, True)], value=ast.Constant(value=n.value)))
                    return ast.copy_location(self.name(c), n)
                return n

            def visit_JoinedStr(v, n): return n
        for (i, x) in enumerate(t.body):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)): t.body[i] = V().visit(x)
        k = 0
        while k < len(t.body) and (isinstance(t.body[k], ast.ImportFrom) and t.body[k].module == '__future__' or isinstance(t.body[k], ast.Expr) and isinstance(t.body[k].value, ast.Constant)): k += 1
        t.body[k:k] = new

    def tree(self, t):
        k = self.kinds
        fs = [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]
        nested = {m for f in fs for n in ast.walk(f) if n is not f and isinstance(n, ast.FunctionDef) for m in [n]}
        for f in fs:
            if 'locals' in k and f not in nested: self.locals_(f)
        if 'compare' in k: self.compare(t)
        for f in fs:
            doc = f.body[:1] if ast.get_docstring(f) else []
            f.body = doc + self.block(f.body[len(doc):])
            if 'noop' in k: f.body[len(doc):len(doc)] = [ast.Assign(targets=[self.name('_unused', True)], value=ast.Constant(value=None))]
        if 'helper' in k:
            t.body = [y for x in t.body for y in (self.helper(x, None) if isinstance(x, ast.FunctionDef) and self.odds(.5) else [x])]
            for c in ast.walk(t):
                if isinstance(c, ast.ClassDef) and not any(isinstance(b, ast.Name) and b.id in ('type',) for b in c.bases):
                    c.body = [y for x in c.body for y in (self.helper(x, c.name) if isinstance(x, ast.FunctionDef) and self.odds(.5) else [x])]
        if 'order' in k:
            for c in ast.walk(t):
                if isinstance(c, ast.ClassDef): c.body = self.shuffle(c.body)
            t.body = self.shuffle(t.body) if False else t.body
        if 'consts' in k: self.consts(t)

    def run(self):
        trees = {f: ast.parse(open(os.path.join(self.d, f)).read()) for f in files(self.d)}
        if 'attrs' in self.kinds: self.private(trees)
        for (f, t) in sorted(trees.items()):
            self.tree(t)
            ast.fix_missing_locations(t)
            open(os.path.join(self.d, f), 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    Refactor(sys.argv[1], int(sys.argv[2]), sys.argv[3].split(',') if len(sys.argv) > 3 else ALL).run()
