"""Lives of nodes in front of a gateway that is played here (C35)."""
import errno, io
from common import *
import simnet as N
from simnet import Clock, SimSocket, log, policy, ready, registry
import time, types

PROP, TIER, SEED, OUT = args()
SCEN = sys.argv[4]
quiet()
rnd = random.Random(SEED * 7919 + 35 + shard()[0])
random.seed(SEED)
BIG = TIER == 'thorough'
out = Out(OUT)
TOP = 65535
time.sleep = lambda s: None

import nbc.node
from nbc.node import basenode, StopNode
from nbc.coins import Newbitcoin

busy = {}


def bind(self, addr):
    if busy.get(addr[1]):
        raise OSError(busy[addr[1]], os.strerror(busy[addr[1]]))
    for s in registry.values():
        if s is not self and s.open and s.listening and s.addr == addr:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
    self.addr = (addr[0], addr[1] or 45678 + self.id)


SimSocket.bind = bind


class Failed(Exception):
    pass


def num(x):
    return x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 2 ** 31 else -1


def word(x):
    return x if isinstance(x, str) else repr(type(x))


class World(object):
    """The gateway, the other hosts, and what happens next.

    acts: what the environment does, in order; where the node does not do what they expect of it
    they are skipped.  With nothing left everything works and every node stops at once."""

    def __init__(self, tab, acts, nodes, kind):
        self.tab = dict(((e, p), (own, port)) for (e, p, own, port) in tab)
        self.acts = list(acts)
        self.nodes = nodes          # id -> dict(listen, port)
        self.stack = []
        self.kind = kind            # how a dead gateway shows
        out.ev('new', tab=[list(x) for x in tab])

    def cur(self):
        return self.stack[-1] if self.stack else 0

    def drain(self):
        while self.acts and self.acts[0][0] == 'other':
            self.other(self.acts.pop(0)[1])

    def other(self, e):
        k = (e, 'TCP')
        if k in self.tab:
            if self.tab[k][0] != 'o':
                return
            del self.tab[k]
            out.ev('other', e=e, p='TCP', add=0)
        else:
            self.tab[k] = ('o', 7)
            out.ev('other', e=e, p='TCP', add=1)

    def fails(self, good, bad):
        """Whether this call of the running node fails."""
        self.drain()
        me = self.cur()
        if self.acts and self.acts[0][1] == me and self.acts[0][0] in (good, bad):
            return self.acts.pop(0)[0] == bad
        return False

    def dead(self, what):
        """A call before the mapping itself; the first of a life may find the gateway dead."""
        if self.acts and self.acts[0] == ('dead', self.cur()) and what == self.kind:
            self.acts.pop(0)
            out.ev('touch', n=self.cur(), what=what, res=2)
            raise Failed(what)
        out.ev('touch', n=self.cur(), what=what, res=0)

    # -- a node's life
    def create(self, n):
        spec = self.nodes[n]
        address = ('127.0.0.1', spec['port']) if spec['listen'] else None
        world = self

        class Node(basenode.BaseNode):
            def begin_loop(self):
                world.passing(self)
                basenode.BaseNode.begin_loop(self)

        made = []

        def mk():
            made.append(Node(address=address, seek_peers=0, bootstrap=False, log=io.StringIO()))
            return True
        busy.clear()
        b = spec.get('busy', 0)
        if b:
            busy[spec['port']] = {1: errno.EADDRINUSE, 2: errno.EACCES}[b]
        r = call(mk)
        busy.clear()
        got, real = 0, 0
        if made:
            got = num(made[0].port)
            real = max(registry.items())[1].addr[1]
        out.ev('create', n=n, listen=spec['listen'], port=spec['port'] if spec['listen'] and spec['port'] else real, busy=b if spec['listen'] else 0, r=r, got=got)
        return made[0] if made else None

    def live(self, n):
        node = self.create(n)
        if node is None:
            return
        sock = [s for s in registry.values() if s.listening and s.open][-1:]
        self.how, node.passes = 'stop', 0
        self.stack.append(n)
        if self.kind == 'nolib' and self.acts and self.acts[0] == ('dead', n):
            self.acts.pop(0)
            self.lib(False)
        out.ev('start', n=n)
        if self.nolib and self.nodes[n]['listen']:
            out.ev('touch', n=n, what='nolib', res=2)
        r = self.run(node)
        self.lib(True)
        out.ev('over', n=n, r=r, how=self.how, open=int(any(s.open for s in sock)))
        self.stack.pop()

    nolib = False

    def lib(self, there):
        self.nolib = not there
        if there:
            nbc.node.miniupnpc = sys.modules['miniupnpc'] = LIB
        else:
            for d in (nbc.node.__dict__, sys.modules):
                d.pop('miniupnpc', None)

    def run(self, node):
        try:
            signal.alarm(20)
            node.serve_forever()
            signal.alarm(0)
            return {'k': 'n', 'v': []}
        except Hang:
            return {'k': 'to', 'v': []}
        except BaseException as e:
            return {'k': 'x', 'e': type(e).__name__}
        finally:
            signal.alarm(0)

    def passing(self, node):
        """Once in every pass of the loop."""
        me = self.cur()
        node.passes += 1
        if node.passes < 4:
            out.ev('pass', n=me)
        elif node.passes > 20:
            raise Hang()
        self.drain()
        while self.acts:
            (a, k) = self.acts[0]
            if a == 'start' and k not in self.stack:
                self.acts.pop(0)
                self.live(k)
                self.drain()
                continue
            if a in ('stop', 'break') and k == me:
                self.acts.pop(0)
                return self.halt(node, a)
            if a == 'idle':
                self.acts.pop(0)
                return
            self.acts.pop(0)                     # expected something else of the node
            self.drain()
        self.halt(node, 'stop')

    def halt(self, node, a):
        me = self.cur()
        if a == 'stop':
            self.how = rnd.choice(['stop', 'stop', 'close'])
        else:
            self.how = rnd.choice(['KeyboardInterrupt', 'SystemExit', 'ValueError', 'OSError', 'MemoryError'])
        out.ev('halt', n=me, how=self.how)
        if self.how == 'stop':
            raise StopNode()
        if self.how == 'close':
            node.close()
            return
        raise {'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'ValueError': ValueError, 'OSError': OSError, 'MemoryError': MemoryError}[self.how]()


W = None


class UPnP(object):
    """What the library offers."""

    def __init__(self, *a):
        W.dead('lib')
        self.discoverdelay = 0
        self.multicastif = self.minissdpdsocket = ''

    def discover(self):
        W.dead('discover')
        return 1 + rnd.randrange(3)

    def selectigd(self):
        W.dead('igd')
        return 'http://192.168.7.1/desc.xml'

    def externalipaddress(self):
        W.dead('ip')
        return '9.8.7.6'

    def statusinfo(self):
        W.dead('status')
        return ('Connected', 1234, 'ERROR_NONE')

    def connectiontype(self):
        return 'IP_Routed'

    @property
    def lanaddr(self):
        return '192.168.7.33'

    def getspecificportmapping(self, e, p, *a):
        f = W.fails('look', 'lookfail')
        f = f or num(e) not in range(1, TOP + 1)
        t = W.tab.get((e, p))
        out.ev('ask', n=W.cur(), e=num(e), p=word(p), res=2 if f else 1 if t else 0)
        if f:
            raise Failed('query')
        return ((t[0] or self.lanaddr, t[1], 'x', True, 0) if t else None)

    def getgenericportmapping(self, i, *a):
        W.drain()
        l = sorted(W.tab.items())
        if i >= len(l):
            return None
        ((e, p), (own, port)) = l[i]
        return (e, p, (own or self.lanaddr, port), 'x', '1', '', 0)

    def addportmapping(self, e, p, host, port, label, rhost='', *a):
        f = W.fails('add', 'addfail')
        own = '' if host == self.lanaddr else word(host)
        ok = num(e) in range(1, TOP + 1) and num(port) in range(1, TOP + 1)
        t = W.tab.get((e, p))
        if ok and not f and t and t[0] != own:
            ok = False
        res = 1 if ok and not f else 2 if f else 0
        out.ev('add', n=W.cur(), e=num(e), p=word(p), own=own, port=num(port), res=res)
        if res == 1:
            W.tab[(e, p)] = (own, port)
            return True
        if rnd.random() < .5:
            raise Failed('add')
        return rnd.choice([False, None])

    def deleteportmapping(self, e, p, *a):
        f = W.fails('del', 'delfail')
        ok = (e, p) in W.tab and not f
        out.ev('del', n=W.cur(), e=num(e), p=word(p), res=int(ok))
        if ok:
            del W.tab[(e, p)]
            return True
        if rnd.random() < .5:
            raise Failed('del')
        return False


LIB = types.ModuleType('miniupnpc')
LIB.UPnP = UPnP
nbc.node.miniupnpc = sys.modules['miniupnpc'] = LIB
KINDS = ['lib', 'discover', 'igd', 'ip', 'status', 'nolib']


def scenario(tab, acts, nodes, kind):
    """One run, in a process of its own: the library's handle is kept for the life of the process."""
    out.f.flush()
    seed = rnd.getrandbits(30)
    pid = os.fork()
    if pid == 0:
        global W
        code = 0
        try:
            rnd.seed(seed); random.seed(seed)
            Clock.t = 100
            registry.clear()
            ready['pick'] = lambda r, w, e: ([], [], [])
            W = World(tab, acts, nodes, kind)
            W.lib(True)
            while W.acts:
                (a, k) = W.acts.pop(0)
                if a == 'start':
                    W.live(k)
                elif a == 'other':
                    W.other(k)
            out.ev('done')
            out.f.flush()
        except BaseException:
            import traceback; traceback.print_exc()
            code = 1
        os._exit(code)
    if os.waitpid(pid, 0)[1]:
        sys.stderr.write('a scenario failed\n')
        sys.exit(2)


def from_spec(line, i):
    acts = json.loads(line)
    b, own = acts[0]['b'], acts[0]['own']
    base = rnd.choice([TOP - len(b), TOP - len(b), 1000, 45000, 0, 8332])
    pt = lambda e: base + e
    tab = [(pt(e + 1), 'TCP', 'o' if k == 'o' else '', 7 if k == 'o' else 900 + e) for (e, k) in enumerate(b) if k != 'free']
    for p in range(rnd.choice([0, 0, 2])):       # another protocol's are no obstacle
        e = pt(rnd.randrange(1, len(b) + 1))
        if not any(t[:2] == (e, 'UDP') for t in tab):
            tab.append((e, 'UDP', rnd.choice(['o', '']), rnd.choice([7, e])))
    if base + len(b) < TOP:                      # the specification's last port is the last port there is
        tab += [(e, 'TCP', 'o', 7) for e in range(base + len(b) + 1, base + len(b) + 4)]
    nodes = {n: dict(listen=1 if own[n - 1] else 0, port=pt(own[n - 1]) if own[n - 1] else 0) for n in (1, 2)}
    a = [(x['a'], pt(x['n']) if x['a'] == 'other' else x['n']) for x in acts[1:]]
    scenario(tab, a, nodes, KINDS[i % len(KINDS)])


def wild(i):
    """Tables and lives at random."""
    base = rnd.choice([TOP - rnd.randrange(12), 1, 2, 1023, 8332, 45678, rnd.randrange(1, TOP)])
    tab = {}
    for _ in range(rnd.choice([0, 1, 3, 8, 40])):
        e = min(TOP, max(1, base + rnd.choice([rnd.randrange(-2, 4), rnd.randrange(-3, 45)])))
        own = rnd.choice(['o', 'o', ''])
        tab[(e, rnd.choice(['TCP', 'TCP', 'UDP']))] = (own, rnd.choice([7, e, base]))
    if rnd.random() < .3:                        # a run of taken ports
        for e in range(base, min(TOP, base + rnd.choice([1, 5, 60, 300])) + 1):
            tab.setdefault((e, 'TCP'), ('o', 7))
    nodes, acts = {}, []
    for n in range(1, rnd.choice([2, 3, 4])):
        port = 0
        while port == 0 or port in [x['port'] for x in nodes.values()]:
            port = min(TOP, max(1, base + rnd.randrange(-1, 3) * (n - 1) + (n - 1)))
            if rnd.random() < .3: port = rnd.randrange(1, TOP)
        nodes[n] = dict(listen=int(rnd.random() < .85), port=port, busy=rnd.choice([0] * 8 + [1, 2]))
        if rnd.random() < .1: nodes[n]['port'] = 0; nodes[n]['busy'] = 0
    order = list(nodes)
    open_ = []
    while order or open_:
        if order and (not open_ or rnd.random() < .5):
            n = order.pop(0)
            acts.append(('start', n))
            if nodes[n]['busy'] and nodes[n]['listen']: continue
            open_.append(n)
            for _ in range(rnd.choice([0, 0, 1, 3])):
                acts.append(('look', n))
                if rnd.random() < .3: acts.append(('other', min(TOP, max(1, base + rnd.randrange(-1, 5)))))
            acts += [x for x in [('dead', n), ('lookfail', n), ('add', n), ('addfail', n)] if rnd.random() < .15]
            acts += [('idle', n)] * rnd.choice([0, 0, 1])
        else:
            n = open_.pop()
            acts.append((rnd.choice(['stop', 'break']), n))
            if rnd.random() < .2: acts.append((rnd.choice(['del', 'delfail']), n))
    scenario([(e, p, o, port) for ((e, p), (o, port)) in sorted(tab.items())], acts, nodes, rnd.choice(KINDS))


def again(i):
    """Nodes on the same port one after another, with another host at the gateway in between."""
    base = rnd.choice([TOP - 1, TOP - 3, 8332, rnd.randrange(1, TOP)])
    top = min(TOP, base + 4)
    tab = {(e, 'TCP'): ('o', 7) for e in range(base, top + 1) if rnd.random() < .3}
    nodes = {n: dict(listen=1, port=base, busy=0) for n in range(1, rnd.choice([3, 4, 5]))}
    acts = []
    for n in nodes:
        bad = [x for x in [('dead', n), ('lookfail', n), ('addfail', n), ('delfail', n)] if rnd.random() < .25]
        acts.append(('start', n))
        acts += [x for x in bad if x[0] != 'delfail']
        acts += [('idle', n)] * rnd.choice([0, 0, 1])
        acts.append((rnd.choice(['stop', 'break']), n))
        acts += [x for x in bad if x[0] == 'delfail']
        acts += [('other', e) for e in range(base, top + 1) if rnd.random() < .5]
    scenario([(e, p, o, port) for ((e, p), (o, port)) in sorted(tab.items())], acts, nodes, rnd.choice(KINDS))


lines = open(SCEN).read().splitlines()
for i in share(len(lines)):
    from_spec(lines[i], i)
for i in share(4000 if BIG else 240):
    wild(i)
for i in share(1500 if BIG else 160):
    again(i)
out.f.seek(0, 2)
out.end()
