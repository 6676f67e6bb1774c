"""Seeds resolving at the same time and sources of block heights, under chosen schedules (C30)."""
import os, sys
REPO = os.environ.get('NBC_REPO', '/repo')
import sched
sched.install(os.path.realpath(os.path.join(REPO, 'nbc')))
import itertools, socket, subprocess
from common import *
import nbc.util
from nbc.util import bootstrap

prop, tier, seed, outp = args()
q = tier == 'quick'
SCEN = sys.argv[4] if len(sys.argv) > 5 else None
rnd = random.Random(seed * 1000003 + shard()[0])
OUT = Out(outp)
quiet()


class Run(object):
    """One life of a list of seeds."""
    now = None

    def __init__(self, seeds, callers, strategy, tag):
        # seeds: list of (kind, delay, [address]); callers: lists of (name, delay before)
        Run.now = self
        self.seeds, self.log, self.calls = seeds, [], 0
        self.s = sched.S = sched.Sched(strategy)
        self.s.idle = lambda: self.log.append({'op': 'idle'})
        self.seeder = None
        self.tag = tag
        random.seed(rnd.random())
        # most on ports of their own, so that results of different seeds differ
        names = [('seed%d.example.org' % i, rnd.choice([0, 1, 80, 65535]) if rnd.random() < .1 else 8333 + i) for i in range(len(seeds))]
        def maker():
            self.seeder = bootstrap.DNSSeeder(names)
            self.made = True
        self.made = False
        def caller(plan):
            def go():
                self.s.wait(lambda: self.made)
                for (f, d) in plan:
                    if d: self.s.wait(None, d)
                    self.use(f)
            return go
        for i, plan in enumerate(callers):
            self.s.begin(caller(plan), 'caller%d' % i, True)
        self.s.begin(maker, 'maker', True)
        ok = self.s.run(180 if tag == 'large' else 30)
        if ok:
            self.log.append({'op': 'quiet'})
            def drain():
                n = 0
                if tag == 'large':
                    sys.settrace(None)      # nobody else is left: no need to look between instructions
                    return self.empty()
                self.use('len')
                while n < 60 and self.use('pop') != 'x':
                    n += 1
                    if n % 3 == 0: self.use('len')
                self.use('len')
            self.s.finished = False
            self.s.begin(drain, 'drain', True)
            ok = self.s.run(180 if tag == 'large' else 30)
        if not ok:
            self.log.append({'op': 'stuck'})
        if tag == 'large':                  # too many to follow one by one
            self.log[:] = [e for e in self.log if e['op'] in ('large', 'stuck')]
        self.s.end()
        sched.S = None
        n = 0
        for e in self.log:
            if e['op'] == 'res':
                e['l'] = [{'id': n + i, 'a': a} for i, a in enumerate(e['l'])]
                n += len(e['l'])
        OUT.ev('new', kind=tag, want=[i for i, x in enumerate(seeds) if x[0] == 'ok'])
        for e in self.log:
            if e['op'] == 'call' and 'r' not in e: e['r'] = {'k': 'open'}
            OUT.ev(**e)
        OUT.ev('done')

    def empty(self):
        """Everything found, in one event."""
        found = sorted(a for e in self.log if e['op'] == 'res' for a in e['l'])
        o = {'op': 'large', 'asked': sorted(e['s'] for e in self.log if e['op'] == 'res'), 'found': found, 'n': -1, 'mid': -1, 'handed': [], 'left': -1, 'more': 0}
        try:
            o['n'] = len(self.seeder)
            while len(o['handed']) <= len(found):
                a = self.seeder.pop()
                if a is None: break
                o['handed'].append('%s|%s' % tuple(a))
                if len(o['handed']) == len(found) // 2: o['mid'] = len(self.seeder)
        except Exception:
            pass
        try:
            o['left'] = len(self.seeder)
            o['more'] = int(self.seeder.pop() is not None)
        except Exception:
            pass
        o['handed'].sort()
        self.log.append(o)

    def use(self, f):
        c = self.calls
        self.calls += 1
        e = {'op': 'call', 'c': c}
        self.log.append(e)
        try:
            if f == 'len':
                n = len(self.seeder)
                e['r'] = {'k': 'n', 'v': n}
            else:
                a = self.seeder.pop()
                e['r'] = {'k': 'a', 'v': '%s|%s' % tuple(a)} if isinstance(a, (tuple, list)) and len(a) == 2 else {'k': 'x'} if a is None else {'k': 'odd'}
        except Exception as x:
            e['r'] = {'k': 'x'}
        self.log.append({'op': 'ret', 'c': c})
        return e['r']['k']


def resolve(host, port, *a, **kw):
    run = Run.now
    s = run.s
    i = int(host[4:].split('.')[0])
    kind, delay, found = run.seeds[i]
    s.point('dns')
    if delay: s.wait(None, delay)
    if kind == 'hang':
        s.wait(None, None)
    if kind == 'fail':
        raise rnd.choice([socket.gaierror(-2, 'Name or service not known'), OSError('network'), UnicodeError('label'), ValueError('x')])
    if kind == 'exit':
        raise SystemExit()
    run.log.append({'op': 'res', 's': i, 'l': ['%s|%d' % (x, int(port)) for x in found]})
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (x, int(port))) for x in found]


socket.getaddrinfo = resolve


def some_seeds(n=None):
    out = []
    for i in range(n or rnd.choice([0, 1, 2, 2, 3, 3, 4])):
        k = rnd.choice(['ok'] * 5 + ['fail', 'hang', 'exit'])
        addrs = ['10.0.%d.%d' % (i, j) for j in range(rnd.choice([0, 1, 1, 2, 2, 3]))]
        if addrs and rnd.random() < .2:
            addrs.append(addrs[0])
        out.append((k, rnd.choice([0, 0, 0, .5, 1]), addrs))
    return out


def some_callers(seeds):
    return [[(rnd.choice(['len', 'pop', 'pop']), rnd.choice([0, 0, 0, .5, .7, 1.2])) for _ in range(rnd.choice([1, 2, 3]))]
            for _ in range(rnd.choice([1, 1, 2, 2, 3]))]


def some_strategy():
    x = rnd.random()
    if x < .5: return sched.random_walk(rnd, rnd.choice([.02, .1, .3, .6]))
    return sched.priorities(rnd, rnd.choice([1, 2, 3, 5]), rnd.choice([100, 300, 800]))


def at_random():
    for i in share(1500 if q else 30000):
        seeds = some_seeds()
        Run(seeds, some_callers(seeds), some_strategy(), 'random')


SMALL = [
    ([('ok', 0, ['a', 'b']), ('ok', 0, ['c'])], [[('len', 0), ('pop', 0)]]),
    ([('ok', 0, ['a'])], [[('pop', 0)], [('pop', 0), ('len', 0)]]),
    ([('ok', 0, ['a', 'b'])], [[('pop', .5)], [('pop', .5)]]),
    ([('ok', 0, ['a']), ('fail', 0, []), ('hang', 0, [])], [[('pop', .5), ('len', 0)]]),
    ([('ok', 0, ['a', 'b', 'c'])], [[('pop', .5), ('len', 0)], [('pop', .5)]]),
]


def warm_up():
    """The interpreter reports instructions only from the second time on."""
    global OUT
    o, OUT = OUT, Out(os.devnull)
    for _ in range(3):
        for seeds, callers in SMALL: Run(seeds, callers, sched.random_walk(rnd, .3), 'warm')
    OUT = o


def systematic():
    """All schedules with one switch against the flow, and many with two or three."""
    k, m = shard()
    n = 0
    for seeds, callers in SMALL:
        st = sched.switches({})
        Run(seeds, callers, st, 'flow')
        steps = [(i, j) for i, c in enumerate(st.steps) for j in range(c)]
        for x in steps:
            n += 1
            if n % m == k: Run(seeds, callers, sched.switches(dict([x])), 'switch 1')
        for _ in share(400 if q else 6000):
            w = dict(rnd.choice(steps) for _ in range(rnd.choice([2, 2, 3])))
            Run(seeds, callers, sched.switches(w), 'switch 2')


def generated():
    """Behaviours of spec/SeedModel.tla."""
    if not SCEN: return
    k, m = shard()
    for line in list(open(SCEN))[k::m]:
        g = json.loads(line)
        seeds = [('ok', 0, ['10.0.%d.%d' % (i, j) for j in range(c)]) for i, c in enumerate(g['results'])]
        callers = [[(f, 0) for f in plan] for plan in g['plans']]
        Run(seeds, callers, sched.guided(g['order'], len(callers), rnd), 'spec')


def large():
    """Many seeds, answers with many addresses."""
    for i in share(16 if q else 80):
        ns = [1, 2, 17, 33, 65, 130, 300, 1][i % 8]
        per = 1100 if i % 16 == 7 else 1 if ns > 65 else rnd.choice([1, 3]) if ns > 20 else rnd.choice([17, 33, 70, 140, 300]) // (1 + ns // 8)
        seeds = []
        for j in range(ns):
            l = ['%d.%d.%d.%d' % (10 + j // 250, j % 250, k // 250, k % 250) for k in range(per)]
            if rnd.random() < .3: l += l[:rnd.choice([1, per])]
            seeds.append((rnd.choice(['ok'] * 8 + ['fail', 'hang', 'exit']) if ns > 1 else 'ok', rnd.choice([0, 0, 0, .5]), l))
        Run(seeds, [[('len', 0)]], sched.switches({}) if i % 2 else sched.random_walk(rnd, .02), 'large')


# --- guessing the height -------------------------------------------------------------------
def guess_run():
    n = rnd.choice([0, 1, 2, 3, 3, 4, 5]) if rnd.random() < .97 else rnd.choice([9, 17, 33, 70])
    tmo = rnd.choice([5.0, 5.0, 5, 1.0, .25, 10, 0, -1, 2.5])
    srcs = []
    for i in range(n):
        k = rnd.choice(['val'] * 5 + ['fail', 'exit', 'hang', 'none', 'zero'])
        at = rnd.choice([0, 0, .1, .2, .3, .9, 1.1, 2.4, 2.6, 4.9, 5.1, 7, 9.9, 12])
        srcs.append((k, at, {'val': 700000 + i, 'zero': 0}.get(k)))
    guess(srcs, tmo, some_strategy())


def guess(srcs, tmo, strategy):
    s = sched.S = sched.Sched(strategy)
    def source(k, at, v):
        def f():
            s.point('src')
            if at: s.wait(None, at)
            if k == 'hang': s.wait(None, None)
            if k == 'fail': raise rnd.choice([ValueError('v'), OSError('o'), KeyError('k'), RuntimeError()])
            if k == 'exit': raise SystemExit()
            return v
        return f
    class Coin(object):
        block_height_guess = [('source%d' % i, source(*x)) for i, x in enumerate(srcs)]
    o = {'how': 'stuck', 't': 0, 'res': [], 'later': []}
    box = []
    def go():
        t0 = s.now
        try:
            r = nbc.util.guess_block_height(Coin, tmo)
            o['how'], o['t'] = 'ret', int(round((s.now - t0) * 1000))
            o['res'] = pairs(r)
            box.append(r)
        except Exception as x:
            o['how'] = 'x'
    s.begin(go, 'caller', True)
    s.run()
    if box: o['later'] = pairs(box[0])
    s.end()
    sched.S = None
    OUT.ev('new', kind='guess', want=[])
    OUT.ev('guess', limit=max(0, int(tmo * 1000)), src=[{'n': 'source%d' % i, 'k': k, 'at': int(at * 1000), 'v': -1 if v is None else v} for i, (k, at, v) in enumerate(srcs)], **o)


def pairs(r):
    return sorted([k, -1 if v is None else v] for k, v in r.items())


def guesses():
    for i in share(1500 if q else 30000):
        guess_run()


REAL = r'''
import socket, sys, time, random
sys.path.insert(0, %r)
hang = lambda *a, **k: time.sleep(1000)
kind = %r
ok = lambda h, p, *a, **k: [(2, 1, 6, '', ('10.0.0.1', int(p)))]
if kind == 'seeds':
    socket.getaddrinfo = lambda h, p, *a, **k: hang() if h == 'a' else ok(h, p)
    from nbc.util import bootstrap
    d = bootstrap.DNSSeeder([('a', 1), ('b', 2)])
    for _ in range(200):
        if len(d): break
        time.sleep(.05)
    print('POP', d.pop())
else:
    import nbc.util
    class C: block_height_guess = [('a', hang), ('b', lambda: 5), ('c', hang)]
    t = time.time()
    print('GOT', sorted(nbc.util.guess_block_height(C, 2).items()), time.time() - t < 20)
'''


def processes():
    """Whole processes, with the threads and clocks of the system: they end although lookups hang."""
    if shard()[0]: return
    for kind, want in (('seeds', "POP ('10.0.0.1', 2)"), ('guess', "GOT [('b', 5)] True")):
        try:
            p = subprocess.run([sys.executable, '-c', REAL % (REPO, kind)], capture_output=True, text=True, timeout=60)
            how = 'ok' if p.returncode == 0 and want in p.stdout else 'bad'
            if how == 'bad': how += ' ' + p.stdout[-100:] + p.stderr[-300:]
        except subprocess.TimeoutExpired:
            how = 'hang'
        OUT.ev('new', kind='process', want=[])
        OUT.ev('process', kind=kind, how=how)


for f in (warm_up, at_random, systematic, generated, large, guesses, processes):
    f()
OUT.end()
sys.stderr.flush()
os._exit(0)
