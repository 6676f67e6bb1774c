"""Drives nbc.node over a simulated network for C01 - C08 and records everything that crosses the
boundary between the node and its environment."""
import hashlib, io, json, struct
from common import *
import simnet as N
from simnet import Clock, SimSocket, ad, ip16, log, policy, ready, registry
import asyncore, types

PROP, TIER, SEED, OUT = args()
SCEN = [a for a in sys.argv[4:-1]]
quiet()
rnd = random.Random(SEED * 1000003 + int(PROP[1:]))
random.seed(SEED)
BIG = TIER == 'thorough'
S = 8 if BIG else 1
out = Out(OUT)

from nbc.node import basenode, connection, raw, StopNode
from nbc.protocol import format as F
from nbc.protocol import messages as M
from nbc.coins import Newbitcoin
import drv_wire_types as W
W.rnd = rnd

COMMANDS = {}
for n in W.MESSAGE:
    COMMANDS[str(getattr(M, n)(*[W.obj(v) for v in W.fields(n, 0)]).name)] = n


def sid(peer):
    return getattr(getattr(peer, 'socket', None), 'id', 0)


def node_class(base):
    class Node(base):
        reactions = None

        def invalid_command(self, peer, payload, exception):
            log.append({'a': 'inv', 's': sid(peer), 'b': by(payload), 'e': type(exception).__name__})
            base.invalid_command(self, peer, payload, exception)

        def disconnected(self, peer):
            log.append({'a': 'disc', 's': sid(peer)})
            base.disconnected(self, peer)
    return Node


def handler(cmd, name):
    base = getattr(basenode.BaseNode, cmd, None)

    def f(self, peer, *a, **kw):
        fs = W.FIELDS[name]
        names = [x for (x, _) in fs]
        vals = dict(zip(names, a)); vals.update(kw)
        if sorted(vals) == sorted(names):
            enc = [W.D(t, vals[x]) for (x, t) in fs]
        else:
            enc = []
        log.append({'a': 'cmd', 's': sid(peer), 'name': name, 'ok': int(sorted(vals) == sorted(names)), 'f': enc})
        if base:
            base(self, peer, *a, **kw)
        if self.reactions:
            self.reactions(self, peer, name)
    return f


# a node that hears every command, one that hears only those BaseNode itself does, and RawNodes of
# either sort, which do not ask the DNS seeds
KINDS = {}
for kind in ('node', 'bare', 'raw', 'rawbare'):
    base = raw.RawNode if 'raw' in kind else basenode.BaseNode
    cls = node_class(base)
    for (cn, tn) in COMMANDS.items():
        if 'bare' not in kind or hasattr(basenode.BaseNode, 'command_' + cn):
            setattr(cls, 'command_' + cn, handler('command_' + cn, tn))
    KINDS[kind] = cls
MUTE = sorted(tn for (cn, tn) in COMMANDS.items() if not hasattr(basenode.BaseNode, 'command_' + cn))


class Sim(object):
    """One node and its network."""

    def __init__(self, cfg):
        self.cfg = cfg
        SimSocket.counter = 0
        registry.clear(); del log[:]
        Clock.t = cfg.get('t', 0)
        self.dialres = {}
        policy['dial'] = lambda a: self.dialres.get(a, cfg.get('dialdef', 'prog'))
        policy['urandom'] = random.Random(rnd.getrandbits(30))
        coin = type('Coin', (Newbitcoin,), dict(magic=cfg['magic'], protocol_version=cfg['pv'], dns_seeds=list(cfg['seeds'])))
        self.text = io.StringIO()
        self.murk, self.seen = 1, Clock.t - 100
        address = cfg['address']
        kw = dict(address=address, seek_peers=cfg['seek'], max_peers=cfg['max'], log=self.text, coin=coin)
        kind = cfg.get('kind', 'node')
        if 'raw' not in kind:
            kw['bootstrap'] = True

        def mk():
            self.node = KINDS[kind](**kw)
            return True
        r = call(mk)
        self.alive = r['k'] == 't'
        if not self.alive:
            out.ev('new', r=r, c={})
            return
        lis = 1
        self.lis = registry.get(1)
        self.node.log_level = cfg.get('loglevel', 3)
        own = [ip16(self.node.ip), self.node.port]
        intended = [ip16(address[0] if address else '127.0.0.1'), (address[1] if address else 0) or 45678]
        c = dict(magic=by(cfg['magic']), pv=nat(cfg['pv']), max=cfg['max'], seek=cfg['seek'], seeds=[ad(a) for a in cfg['seeds']] if 'raw' not in kind else [], mute=MUTE if 'bare' in kind else [],
                 listen=1 if address else 0, own=intended, ua=by(self.node.user_agent.encode('latin-1')), t=Clock.t, t0=nat(N.T0), lis=lis)
        out.ev('new', r=r, c=c, own=own)
        self.own = own
        self.height = 0
        self.last_snap = None
        if cfg.get('reactions'):
            self.react = dict((k, list(v)) for k, v in cfg['reactions'].items())
            self.node.reactions = self.reaction

    # -- what the node shows
    def snap(self):
        ps = []
        for p in self.node.peers:
            v = lambda x: R(int(x)) if isinstance(x, bool) else R(x)
            ps.append({'s': sid(p), 'addr': ad(p.address), 'inc': int(bool(p.incoming)), 'services': v(p.services), 'version': v(p.version),
                       'ua': v(p.user_agent), 'height': v(p.start_height), 'relay': v(p.relay), 'ext': v(p.external_ip),
                       'ack': int(bool(p.verack)), 'tx': p.tx_bytes, 'rx': p.rx_bytes, 'ban': p.banscore})
        return {'peers': ps, 'ip': R(self.node.external_ip), 'closed': sorted(s.id for s in registry.values() if not s.open)}

    def emit(self, op, **kw):
        if log.over or kw['r']['k'] == 'to':      # the node does not come back: enough is known
            kw['r'] = {'k': 'to', 'v': []}
            out.ev(op, t=Clock.t, log=list(log)[:500], snap={}, **kw)
            self.done()
            out.end()
            os._exit(0)
        out.ev(op, t=Clock.t, log=list(log), snap=call(self.snap, _conv=lambda x: x), **kw)
        del log[:]

    # -- the environment
    def reaction(self, node, peer, name):
        l = self.react.get(name)
        if not l:
            return
        what = l.pop(0)
        if what == 'raise':
            raise ValueError('handler failed')
        if what[0] == 'punish':
            for _ in range(what[1]):
                log.append({'a': 'api', 'what': 'punish', 's': sid(peer)})
                node.punish_peer(peer)
        elif what[0] == 'remove':
            log.append({'a': 'api', 'what': 'remove', 'addr': ad(peer.address)})
            node.remove_peer(peer.address)
        elif what[0] == 'removeother':
            for p in node.peers:
                if p.address != peer.address:
                    log.append({'a': 'api', 'what': 'remove', 'addr': ad(p.address)})
                    node.remove_peer(p.address)
                    break

    def socks(self):
        return [s for s in registry.values() if s.open and not s.listening]

    def sock(self, addr):
        for s in self.socks():
            if s.peer == addr:
                return s

    def tick(self, dt):
        Clock.t += dt

    def live(self, address):
        return any(s.peer == address for s in self.socks()) or any(a == address for (a, k) in self.lis.backlog)

    def incoming(self, address, kind='ok'):
        if self.lis.open and not self.live(address):
            self.lis.backlog.append((address, kind))

    def feed(self, address, data):
        s = self.sock(address)
        if s and data and s.inq[-1:] != ['eof']:
            if s.inq and isinstance(s.inq[-1], bytes):
                s.inq[-1] += data
            else:
                s.inq.append(data)
        return s

    def feed_chunks(self, address, chunks):
        """Each chunk arrives by itself."""
        s = self.sock(address)
        if s:
            s.inq.extend(c for c in chunks if c)

    def inject(self, address, what):
        s = self.sock(address)
        if not s:
            return
        if what in ('eof', 'reset', 'odd'):
            s.inq.append(what)
        elif what == 'soerr':
            s.so_error = 111
        else:
            s.cap = what[1] if isinstance(what, (tuple, list)) else what

    def loop(self, reads=1.0, writes=1.0, order=True):
        """One turn of the event loop."""
        if len(self.node) == 0:
            return
        if self.murk > 40:
            # with much of what was queued unseen, very many states are possible: let it all out
            for s in self.socks():
                if s.cap not in ('pipe', 'odd'):
                    s.cap = None
            self.murk = 1
            self.loop()
            self.loop()
            if len(self.node) == 0:
                return

        def pick(r, w, e):
            rr = [s.fileno() for s in r if s.readable() and rnd.random() < reads]
            ww = [s.fileno() for s in w if s.writable() and rnd.random() < writes]
            ee = [s.fileno() for s in e if s.so_error and rnd.random() < .5]
            if not order:
                rnd.shuffle(rr); rnd.shuffle(ww)
            stuck = len([s for s in w if s.fileno() not in ww or s.cap is not None])
            self.murk = self.murk * (stuck + 1 if Clock.t - self.seen > 9 else 1) if stuck else 1
            if Clock.t - self.seen > 9:
                self.seen = Clock.t
            return rr, ww, ee
        ready['pick'] = pick
        r = call(lambda: asyncore.poll(0, self.node), _limit=30)
        self.emit('pass', r=r)

    def api(self, what, addr=None, **kw):
        n = self.node
        a = addr
        if what == 'add':
            if a and self.conflict(a):
                return
            force = kw['force']
            r = call(n.add_peer, a, force) if kw.get('style') else call(lambda: n.add_peer(a, force=force))
            self.emit('api', what='add', addr=ad(a), force=int(force), r=r)
        elif what == 'remove':
            self.emit('api', what='remove', addr=ad(a), r=call(n.remove_peer, a))
        elif what == 'punish':
            for p in n.peers:
                if p.address == a:
                    self.emit('api', what='punish', s=sid(p), r=call(n.punish_peer, p, 'reason'))
                    break
        elif what == 'setext':
            def f():
                n.external_ip = a
            r = call(f)
            self.emit('api', what='setext', ip=ip16(a) if a else [], r=r)
        elif what == 'height':
            n.blockchain_height = kw['h']
            self.emit('api', what='height', h=nat(kw['h']), r=R(None))
        elif what == 'ua':
            n.user_agent = kw['ua']
            self.emit('api', what='ua', ua=by(kw['ua'].encode('latin-1')), r=R(None))
        elif what == 'close':
            self.emit('api', what='close', r=call(n.close))
        elif what == 'log':
            n.log_level = kw['level']

    def conflict(self, a):
        return False

    def done(self):
        out.ev('done')


# --- messages from peers -----------------------------------------------------------------
def dsha(x):
    return hashlib.sha256(hashlib.sha256(x).digest()).digest()


def frame(cmd, p, magic, length=None, sum=None):
    return magic + cmd.ljust(12, b'\x00') + struct.pack('<I', len(p) if length is None else length) + (dsha(p)[:4] if sum is None else sum) + p


def vi(n):
    return struct.pack('<B', n) if n < 253 else b'\xfd' + struct.pack('<H', n) if n < 65536 else b'\xfe' + struct.pack('<I', n)


def netaddr(ip, port, services=1):
    return struct.pack('<Q', services) + bytes(ip16(ip)) + struct.pack('>H', port)


def p_version(ext='9.9.9.9', services=1, version=70002, height=5, ua=b'/x/', relay=b'\x01', ts=None, nonce=None, frm=None):
    port, sv = rnd.choice([8333, 8333, 0, 1, 65535, rnd.randrange(65536)]), rnd.choice([1, 1, services % 2 ** 64, 0, 2 ** 64 - 1])
    ts = rnd.choice([N.T0, N.T0, 0, -1, 2 ** 63 - 1, -2 ** 63, N.T0 - 10 ** 6]) if ts is None else ts
    return (struct.pack('<iQq', version, services, ts) + netaddr(ext, port, sv) + netaddr(frm or rnd.choice(['8.8.8.8', '0.0.0.0', ext, '127.0.0.1', '2001:db8::5']), rnd.choice([1, 0, 8333]), rnd.choice([1, 0, 5]))
            + (nonce or rnd.choice([b'12345678', bytes(8), rb(8)])) + vi(len(ua)) + ua + struct.pack('<i', height) + relay)


def p_addr(entries):
    return vi(len(entries)) + b''.join(struct.pack('<I', ts) + netaddr(ip, port, sv) for (ts, sv, ip, port) in entries)


def rb(n):
    return bytes(rnd.getrandbits(8) for _ in range(n))


IPS = ['10.0.0.%d' % i for i in range(1, 9)]
EXTS = ['9.9.9.9', '7.7.7.7', '1.2.3.4', '255.255.255.255', '2001:db8::1', '10.1.2.3', '127.0.0.1', '0.0.0.0', '192.168.0.9', '172.16.5.5']
ODD_IPS = ['127.0.0.1', '10.1.2.3', '192.168.1.5', '0.0.0.0', '255.255.255.255', '172.16.0.9', '169.254.1.1', '224.0.0.1', '9.9.9.9', '::1', '::', 'fe80::5']


def stamp():
    """A time as reported: mostly around now, sometimes far away."""
    return rnd.choice([N.T0 + rnd.randrange(-20, 20)] * 5 + [0, 1, N.T0 - 10 ** 8, N.T0 + 10 ** 8, N.T0 + 3600, N.T0 - 3 * 86400, N.T0 + 601, 2 ** 31, 2 ** 32 - 1])


def ip_any():
    if rnd.random() < .12:
        return rnd.choice(ODD_IPS)
    return rnd.choice(['%d.%d.%d.%d' % tuple(rnd.randrange(1, 255) for _ in range(4))] * 5 + ['2001:db8::%x' % rnd.randrange(1, 65536)])


def message(magic, kind=None, rich=True):
    """The bytes of something a peer sends."""
    k = kind or rnd.choice(['version', 'version', 'verack', 'verack', 'ping', 'ping', 'ping', 'getaddr', 'getaddr', 'addr', 'addr', 'pong', 'any', 'any', 'any',
                            'badmagic', 'badsum', 'unknown', 'unknown', 'short', 'short', 'trail', 'empty', 'alert', 'inv'])
    if k == 'version':
        return frame(b'version', p_version(rnd.choice(EXTS), rnd.choice([0, 1, 5, 2 ** 64 - 1, rnd.getrandbits(64)]), rnd.choice([70002, 1, -1, 2 ** 31 - 1]),
                                           rnd.choice([0, -1, 7, 2 ** 31 - 1, -2 ** 31]), rb(rnd.choice([0, 3, 20, 300])), rnd.choice([b'', b'\x00', b'\x01', b'\x01'])), magic)
    if k == 'verack': return frame(b'verack', b'', magic)
    if k == 'ping': return frame(b'ping', rnd.choice([rb(8), bytes(8), b'\xff' * 8]), magic)
    if k == 'pong': return frame(b'pong', rb(8), magic)
    if k == 'getaddr': return frame(b'getaddr', b'', magic)
    if k == 'mempool': return frame(b'mempool', b'', magic)
    if k == 'addr':
        e = [(stamp(), rnd.choice([0, 1, 1, 9]), ip_any(), rnd.choice([8333, 1, 65535, 0, rnd.randrange(65536)])) for _ in range(rnd.choice([0, 1, 2, 3, 10]))]
        if e and rnd.random() < .3:
            e.append((min(e[0][0] + 3, 2 ** 32 - 1), 4) + e[0][2:])
        return frame(b'addr', p_addr(e), magic)
    if k == 'any':
        n = rnd.choice(sorted(set(W.MESSAGE)))
        for _ in range(9):
            try:
                return W.cls(n)(*[W.obj(v) for v in W.fields(n, 1)]).binary(magic)
            except Exception:
                pass
        return frame(b'verack', b'', magic)
    if k == 'inv':
        n = rnd.choice([1, 1, 2, 5])
        return frame(rnd.choice([b'inv', b'getdata', b'notfound']), vi(n) + b''.join(struct.pack('<I', rnd.choice([0, 1, 2, 2, 3, 4, 2 ** 32 - 1])) + rb(32) for _ in range(n)), magic)
    if k == 'alert':
        p = rb(rnd.choice([0, 1, 27, 28, 29, 60]))
        if rnd.random() < .4:      # one that can be read
            vs = lambda b: vi(len(b)) + b
            p = struct.pack('<iqqii', 1, N.T0, N.T0 + 9, 5, 0) + vi(1) + struct.pack('<iii', 3, 1, 70002) + vi(1) + vs(rb(4)) + struct.pack('<i', 9) + vs(rb(3)) + vs(rb(5)) + vs(b'')
        return frame(b'alert', vi(len(p)) + p + vi(5) + rb(5), magic)
    if k == 'badmagic':
        m = bytearray(magic); m[rnd.randrange(4)] ^= 1 << rnd.randrange(8)
        return frame(rnd.choice([b'ping', b'verack', b'zzz']), rb(8), bytes(m))
    if k == 'badsum':
        p = rb(rnd.choice([0, 8, 30]))
        s = bytearray(dsha(p)[:4]); s[rnd.randrange(4)] ^= 1 << rnd.randrange(8)
        return frame(rnd.choice([b'ping', b'verack', b'version']), p, magic, sum=bytes(s))
    if k == 'unknown':
        return frame(rnd.choice([b'bogus', b'', b'filterload', b'merkleblock', b'PING', b'x' * 12, b'filterclear']), rb(rnd.choice([0, 1, 40])), magic)
    if k == 'short':
        c, p = rnd.choice([(b'ping', rb(rnd.randrange(8))), (b'version', p_version()[:rnd.randrange(85)]), (b'addr', vi(3) + rb(40)), (b'inv', b'\xfd'), (b'inv', b'\xff' * 9),
                           (b'pong', b''), (b'tx', rb(5)), (b'headers', vi(2) + rb(81)), (b'reject', b'\x05abc')])
        return frame(c, p, magic)
    if k == 'trail':
        return frame(rnd.choice([b'ping', b'pong']), rb(8) + rb(rnd.randrange(1, 9)), magic)
    if k == 'empty':
        return frame(b'addr', vi(0), magic)
    raise ValueError(k)


MAGICS = [b'\xf9\x6e\x62\x63', b'\xf9\xbe\xb4\xd9', b'\x0b\x11\x09\x07']


def config(**kw):
    c = dict(magic=rnd.choice([MAGICS[0]] * 3 + MAGICS), pv=rnd.choice([70002, 70002, 60000, 1]), seeds=[], seek=rnd.choice([0, 0, 2, 4, 8]), max=rnd.choice([3, 5, 8, 125]),
             address=rnd.choice([('127.0.0.1', 8333), ('127.0.0.1', 0), ('192.168.1.5', 20303)]), loglevel=rnd.choice([3, 3, 4, 1, 0]), kind=rnd.choice(['node'] * 7 + ['bare', 'bare', 'raw', 'rawbare']))
    c.update(kw)
    return c


def chunks(data, mode=None):
    mode = mode or rnd.choice(['one', 'two', 'bytes', 'rand', 'head'])
    if mode == 'one':
        return [data]
    if mode == 'bytes' and len(data) < 160:
        return [data[i:i + 1] for i in range(len(data))]
    if mode == 'two' and len(data) > 1:
        k = rnd.randrange(1, len(data))
        return [data[:k], data[k:]]
    if mode == 'head':
        k = rnd.choice([1, 4, 16, 19, 20, 21, 23, 24, 25])
        return [data[:k], data[k:]]
    o = []
    while data:
        k = rnd.choice([1, 2, 3, 7, 20, 24, 32, 57, 100, 1000])
        o.append(data[:k]); data = data[k:]
    return o


# --- scenarios ---------------------------------------------------------------------------
def connect(sim, n, ports=None, out_share=.4, drain=True):
    """n connections, some dialled, some accepted; returns their addresses."""
    got = []
    for i in range(n):
        a = (rnd.choice(IPS), rnd.randrange(1025, 60000))
        if sim.live(a):
            continue
        if rnd.random() < out_share or not sim.cfg['address']:
            sim.api('add', a, force=True)
        else:
            sim.incoming(a)
            sim.loop()
        if sim.live(a):
            got.append(a)
    if drain:
        sim.loop()
    return got


def s_streams(mode):
    """Streams of messages, split in every way (C01)."""
    cfg = config(seek=0)
    if rnd.random() < .4:
        cfg['reactions'] = {'Inventory': ['raise', None, 'raise'], 'Reject': ['raise'], 'Transaction': ['raise', 'raise'], 'Pong': ['raise', None, 'raise'],
                            'Headers': ['raise', 'raise'], 'MemoryPool': ['raise']}
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, rnd.choice([1, 2, 3]))
    for _ in range(rnd.choice([1, 2, 3])):
        for a in peers:
            data = b''.join(message(cfg['magic']) for _ in range(rnd.choice([1, 2, 3, 5, 8])))
            cs = chunks(data, mode)
            if rnd.random() < .3 and cs:      # the tail stays away for now
                cs, tail = cs[:-1], cs[-1]
            sim.feed_chunks(a, cs)
        for _ in range(400):
            sim.loop(order=rnd.random() < .5)
            if not any(s.readable() for s in sim.socks()):
                break
    for a in peers:
        if rnd.random() < .3: sim.inject(a, rnd.choice(['eof', 'reset']))
    sim.loop(); sim.loop()
    sim.done()


def s_large():
    """Messages longer than one read, declared lengths beyond what arrives, many in one read."""
    cfg = config(seek=0)
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, 2)
    if len(peers) < 2: return sim.done()
    m = cfg['magic']
    big = frame(b'inv', vi(500) + b''.join(struct.pack('<I', 2) + rb(32) for _ in range(500)), m)
    sim.feed(peers[0], message(m, 'ping') + big + message(m, 'ping') * 3 + frame(b'bogus', rb(9000), m) + message(m, 'ping'))
    sim.feed(peers[1], message(m, 'ping') * 40 + frame(b'ping', b'', m, length=2 ** 32 - 1) + message(m, 'ping') * 3)
    for _ in range(12):
        sim.loop()
    sim.feed(peers[1], frame(b'ping', rb(8), m))
    sim.loop(); sim.loop()
    sim.done()


def s_many(n):
    """As many messages in one read as fit, most without payload."""
    cfg = config(seek=0, loglevel=3)
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, 2)
    m = cfg['magic']
    for a in peers[:1]:
        kinds = [frame(b'mempool', b'', m)] * 9 + [frame(b'verack', b'', m), frame(b'bogus', b'', m), frame(b'mempool', b'', b'abcd')]
        sim.feed(a, b''.join(rnd.choice(kinds) for _ in range(n)) + message(m, 'ping'))
        while sim.sock(a).readable(): sim.loop()
        sim.feed(a, message(m, 'ping') * 250)
    for a in peers[1:]: sim.feed(a, message(m, 'ping'))
    for _ in range(6): sim.loop()
    sim.done()


def s_huge(n):
    """One message of more than n bytes among small ones, and a foreign one of that size."""
    cfg = config(seek=0, loglevel=3)
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, 2)
    if len(peers) < 2: return sim.done()
    m = cfg['magic']
    sim.feed(peers[0], message(m, 'ping') + frame(b'reject', vi(n) + rb(8) * (n // 8) + rb(n % 8) + b'\x01\x00', m) + message(m, 'ping') * 2)
    while sim.sock(peers[0]) and sim.sock(peers[0]).readable(): sim.loop()
    sim.feed(peers[1], message(m, 'ping'))
    sim.feed(peers[0], frame(b'tx', rb(8) * (n // 8), b'abcd') + message(m, 'ping'))
    while sim.sock(peers[0]) and sim.sock(peers[0]).readable(): sim.loop()
    for _ in range(3): sim.loop()
    sim.done()


def s_backlog(n):
    """A peer that takes nothing while more than n bytes are queued for it, and then a part at a time."""
    cfg = config(seek=0, loglevel=3)
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    if n > 70000:                    # one large message
        sim.api('ua', ua='/x:1/' * (n // 5 + 1))
    a = (IPS[0], 4001)
    sim.incoming(a)
    sim.loop(writes=0)
    sim.inject(a, ('cap', 'full'))
    if n <= 70000:                   # many small ones
        for _ in range(n // 32 // 90 + 1):
            sim.feed(a, b''.join(frame(b'ping', rb(8), m) for _ in range(90)))
            sim.loop()
    sim.feed(a, b''.join(message(m, k) for k in ('version', 'ping', 'getaddr', 'ping', 'pong')))
    sim.loop()
    # what goes out at once is checked message by message, so not too many at a time
    sim.inject(a, ('cap', lambda: rnd.choice([n // 3, n // 5 + 7, 65536, 8192, 100, 'block'] if n > 70000 else [3000, 2500, 3001, 'block'])))
    for _ in range(12 if n > 70000 else 35): sim.loop()
    sim.inject(a, ('cap', None))
    sim.loop(); sim.loop()
    sim.feed(a, message(m, 'ping')); sim.loop(); sim.loop()
    sim.done()


def s_writes():
    """Writes of every size (C02)."""
    cfg = config(seek=0, t=rnd.randrange(10 ** 6))
    sim = Sim(cfg)
    if not sim.alive: return
    if rnd.random() < .5: sim.api('ua', ua=rnd.choice(['', '/a:1/', 'x' * 253, 'x' * 252]))
    if rnd.random() < .5: sim.api('height', h=rnd.choice([0, 1, 255, 256, 650000, 2 ** 31 - 1]))
    if rnd.random() < .5: sim.api('setext', rnd.choice(EXTS))
    peers = []
    caps = [None, 1, 2, 7, 23, 24, 25, 31, 32, 33, 100, 'block', 'full', 3, 1, 'block']
    for _ in range(rnd.choice([1, 2, 3])):
        peers += connect(sim, 1, drain=False)
    for a in peers:
        sim.inject(a, ('cap', (lambda a=a: rnd.choice([None, 1, 2, 5, 24, 24, 32, 40, 126, 'block']))) if rnd.random() < .7 else ('cap', rnd.choice(caps)))
    for r in range(rnd.choice([4, 8, 14])):
        for a in peers:
            if rnd.random() < .6:
                sim.feed(a, b''.join(message(cfg['magic'], rnd.choice(['ping', 'ping', 'version', 'getaddr', 'pong', 'verack', 'addr'])) for _ in range(rnd.choice([1, 2, 4]))))
            if rnd.random() < .25:
                sim.inject(a, ('cap', rnd.choice(caps)))
            if rnd.random() < .03:
                sim.inject(a, ('cap', rnd.choice(['pipe', 'odd'])))
        sim.loop(writes=rnd.choice([1, 1, .5]), order=False)
        if rnd.random() < .3: sim.tick(rnd.choice([1, 2, 5]))
        if rnd.random() < .15: sim.api('height', h=rnd.getrandbits(20))
        if rnd.random() < .1 and len(peers) < 4: peers += connect(sim, 1, drain=False)
    for a in peers:
        sim.inject(a, ('cap', rnd.choice([None, None, 50, 1000])))
    for _ in range(10):
        sim.loop()
    sim.done()


def s_talk():
    """Conversations (C03)."""
    cfg = config(seek=0)
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, rnd.choice([1, 2, 3, 4]))
    m = cfg['magic']
    for r in range(rnd.choice([5, 10, 20])):
        for a in peers:
            if rnd.random() < .6:
                sim.feed(a, b''.join(message(m, rnd.choice(['version', 'verack', 'ping', 'pong', 'getaddr', 'mempool', 'any', 'addr', None])) for _ in range(rnd.choice([1, 1, 2, 3]))))
        sim.tick(rnd.choice([0, 0, 1, 3]))
        sim.loop(order=False)
        if rnd.random() < .1 and peers:
            a = rnd.choice(peers)
            sim.inject(a, rnd.choice(['eof', 'reset']))
    sim.loop(); sim.loop()
    sim.done()


def s_each():
    """Every message type by itself: what is sent in answer?"""
    cfg = config(seek=0, address=('127.0.0.1', 8333))
    sim = Sim(cfg)
    if not sim.alive: return
    a = connect(sim, 1)
    for n in sorted(W.MESSAGE):
        for _ in range(2):
            try:
                b = W.cls(n)(*[W.obj(v) for v in W.fields(n, 1)]).binary(cfg['magic'])
            except Exception:
                continue
            if n == 'Alert': continue
            if a: sim.feed(a[0], b)
            sim.loop(); sim.loop()
    sim.done()


def entry(i=None, ts=None):
    return (N.T0 + rnd.randrange(-100, 100) if ts is None else ts, rnd.choice([0, 1, 5, 2 ** 64 - 1]),
            ip_any() if i is None else '%d.%d.%d.%d' % (11 + i // 60000, i // 250 % 240, i % 250, 7), rnd.randrange(65536) if i is None else 8333)


def s_book():
    """Address books (C04)."""
    cfg = config(seek=rnd.choice([0, 0, 0, 3]), max=8)
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, rnd.choice([2, 3, 4]))
    m = cfg['magic']
    base = [entry() for _ in range(6)]
    for r in range(rnd.choice([6, 12, 18])):
        for a in peers:
            x = rnd.random()
            if x < .25: sim.feed(a, message(m, 'verack'))
            elif x < .45: sim.feed(a, message(m, 'version') + (message(m, 'verack') if rnd.random() < .7 else b''))
            elif x < .7:
                e = [rnd.choice(base)[2:] for _ in range(rnd.choice([1, 2, 4]))]
                if rnd.random() < .3: e.append((rnd.choice(peers)[0], rnd.choice(peers)[1]))
                e = [(stamp(), rnd.choice([0, 1, 7]), i, p) for (i, p) in e]
                sim.feed(a, frame(b'addr', p_addr(e), m))
            elif x < .95: sim.feed(a, message(m, 'getaddr'))
        sim.tick(rnd.choice([0, 1, 4, 11]))
        sim.loop(order=False)
        if rnd.random() < .2 and peers:
            a = rnd.choice(peers)
            if rnd.random() < .5: sim.inject(a, rnd.choice(['eof', 'reset', 'soerr', ('cap', 'pipe')]))
            else: sim.api('remove', a)
        if rnd.random() < .3:          # dial a known address: it may fail at once or later
            e = rnd.choice(base)
            if ':' not in e[2]:
                sim.dialres[e[2:]] = rnd.choice(['fail', 'raise', 'prog', 'ok'])
                sim.api('add', e[2:], force=True)
                if rnd.random() < .5:
                    sim.inject(e[2:], 'soerr')
    for a in peers:
        sim.feed(a, message(m, 'getaddr'))
    for _ in range(3): sim.loop()
    sim.done()


def s_bigbook(total):
    """Around the limits of the book and of the reply."""
    cfg = config(seek=0, max=8, address=('127.0.0.1', 8333), loglevel=3)
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, 2, out_share=0)
    if len(peers) < 2: return sim.done()
    m = cfg['magic']
    sim.feed(peers[0], message(m, 'version') + message(m, 'verack'))
    for _ in range(3): sim.loop()
    # known, the most recent of all, but nobody knows what for
    for a in connect(sim, rnd.choice([2, 3, 4]), out_share=0):
        sim.feed(a, message(m, 'verack')); sim.loop()
    sim.tick(1); sim.loop()
    ids = list(range(total))
    rnd.shuffle(ids)
    ts = {}
    while ids:
        part, ids = ids[:1000], ids[1000:]
        sim.feed(peers[0], frame(b'addr', p_addr([entry(i, ts=N.T0 - rnd.randrange(0, 5000)) for i in part]), m))
        for _ in range(5): sim.loop()
    sim.feed(peers[1], message(m, 'getaddr'))
    for _ in range(5): sim.loop()
    # known addresses are still updated, new ones are not taken in beyond the limit, room is used again
    sim.feed(peers[1], frame(b'addr', p_addr([entry(0, ts=N.T0 + 9999), entry(total - 1, ts=N.T0 + 9998), entry(100000, ts=N.T0 + 9997), entry(1, ts=N.T0 + 9996)]), m)
             + message(m, 'version') + message(m, 'verack') + message(m, 'getaddr'))
    for _ in range(5): sim.loop()
    sim.api('remove', peers[0])
    sim.feed(peers[1], frame(b'addr', p_addr([entry(100001, ts=N.T0 + 9999)]), m) + message(m, 'getaddr'))
    for _ in range(6): sim.loop()
    sim.done()


def s_ban():
    """Penalties and bans (C05)."""
    cfg = config(seek=0, max=20, address=('127.0.0.1', 8333))
    if rnd.random() < .5:
        cfg['reactions'] = {'Ping': [None, ('punish', rnd.choice([1, 5, 6, 7]))] * 3, 'Pong': [('punish', 3)] * 4, 'MemoryPool': [('punish', 6)]}
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    ips = rnd.sample(IPS, 3)
    addr = lambda: (rnd.choice(ips), rnd.randrange(1025, 60000))
    known = []
    for r in range(rnd.choice([12, 25, 40])):
        x = rnd.random()
        peers = [s.peer for s in sim.socks() if s.peer]
        if x < .3 or not peers:
            for _ in range(rnd.choice([1, 2])):
                a = addr(); known.append(a)
                sim.incoming(a)
        elif x < .35:
            a = rnd.choice(known)
            sim.incoming(a)
        elif x < .4:
            sim.api('add', addr(), force=True)
        elif x < .7:
            a = rnd.choice(peers)
            for _ in range(rnd.choice([1, 2, 4, 5, 6, 6])):
                sim.api('punish', a)
        elif x < .85:
            a = rnd.choice(peers)
            sim.feed(a, b''.join(message(m, rnd.choice(['ping', 'pong', 'mempool', 'verack', 'version'])) for _ in range(rnd.choice([1, 2, 3, 6]))))
        else:
            sim.tick(rnd.choice([11, 11, 30, 100, 1799, 3500, 3599, 3601, 3600 * 2]))
        if rnd.random() < .5: sim.tick(rnd.choice([1, 5, 10, 11, 12]))
        sim.loop(order=False)
    sim.done()


def s_ban_hour():
    """Coming back at chosen times within the hour and after it."""
    cfg = config(seek=0, max=20, address=('127.0.0.1', 8333))
    sim = Sim(cfg)
    if not sim.alive: return
    a = (IPS[0], 5001)
    sim.incoming(a); sim.loop()
    other = (IPS[1], 5001)
    sim.incoming(other); sim.loop()
    for _ in range(6): sim.api('punish', a)
    sim.loop()
    port = 6000
    t = 0
    for dt in sorted(rnd.sample([0, 1, 59, 60, 600, 1800, 3000, 3590, 3598, 3599], 4)) + [3601, 3602, 5000]:
        sim.tick(dt - t); t = dt
        port += 1
        sim.incoming((IPS[0], port))
        sim.incoming((IPS[1], port))
        sim.incoming((IPS[0], 5001))
        for _ in range(4): sim.loop()
    # banned again
    for p in [s.peer for s in sim.socks() if s.peer and s.peer[0] == IPS[0]][:1]:
        for _ in range(7): sim.api('punish', p)
        sim.tick(rnd.choice([5, 3599]))
        sim.incoming((IPS[0], 7001)); sim.loop(); sim.loop()
    sim.done()


def s_ban_again(dt):
    """An IP address that is banned already misbehaves on another of its connections: its hour starts anew."""
    cfg = config(seek=0, max=20, address=('127.0.0.1', 8333))
    sim = Sim(cfg)
    if not sim.alive: return
    ps = [(IPS[0], 5001 + i) for i in range(3)] + [(IPS[1], 5001)]
    for a in ps:
        sim.incoming(a); sim.loop()
    sim.loop()
    port = [6000]

    def probe():
        port[0] += 1
        for ip in IPS[:3]:
            sim.incoming((ip, port[0]))
        for _ in range(4): sim.loop()
    for _ in range(6): sim.api('punish', ps[0])
    if rnd.random() < .5: probe()
    sim.tick(dt)
    k = rnd.choice([1, 1, 2])
    for i in range(1, 1 + k):
        for _ in range(6): sim.api('punish', ps[i])
    if rnd.random() < .5: probe()
    rest = 3600 - dt
    sim.tick(rest - 1); probe()
    sim.tick(2); probe()
    sim.tick(dt - 2); probe()
    sim.tick(2); probe()
    sim.done()


def s_bans(n):
    """Many IPs are banned within the same hour, each for its own."""
    cfg = config(seek=0, max=20, address=('127.0.0.1', 8333), loglevel=3)
    sim = Sim(cfg)
    if not sim.alive: return
    ips = ['60.%d.%d.%d' % (rnd.randrange(256), i // 250, i % 250 + 1) for i in range(n)]
    for (i, ip) in enumerate(ips):
        a = (ip, 4000 + i)
        sim.incoming(a); sim.loop()
        for _ in range(6): sim.api('punish', a)
        sim.tick(rnd.choice([0, 1, 2]))
    for k in range(3):
        for ip in rnd.sample(ips, min(n, 40)) + ips[:4] if k else ips:
            sim.incoming((ip, 5000 + k)); sim.loop()
        sim.tick(1700)
    sim.tick(1900)
    for ip in ips[:5] + ips[-5:]:
        sim.incoming((ip, 9000)); sim.loop()
    sim.done()


def s_decay():
    """Penalties fall with maintenance."""
    cfg = config(seek=0, max=20, address=('127.0.0.1', 8333))
    sim = Sim(cfg)
    if not sim.alive: return
    peers = connect(sim, 3)
    for r in range(16):
        for a in peers:
            for _ in range(rnd.choice([0, 0, 1, 2, 3])):
                if sim.live(a): sim.api('punish', a)
        for _ in range(rnd.choice([1, 2, 4])):
            sim.tick(rnd.choice([1, 4, 10, 11, 11, 15, 40]))
            sim.loop()
    sim.done()


def s_set(listen=True):
    """Peer set and maintenance (C06)."""
    seeds = [(ip, 8333) for ip in rnd.sample(['20.0.0.%d' % i for i in range(1, 6)], rnd.choice([0, 1, 2, 4]))]
    cfg = config(seek=rnd.choice([1, 2, 3, 6, 8]), max=rnd.choice([2, 3, 4, 6, 10]), seeds=seeds,
                 address=rnd.choice([('127.0.0.1', 8333), ('127.0.0.1', 0)]) if listen else None, dialdef=rnd.choice(['prog', 'prog', 'ok', 'fail']))
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    own = (('127.0.0.1'), sim.own[1])
    for r in range(rnd.choice([8, 16, 24])):
        x = rnd.random()
        peers = [s.peer for s in sim.socks() if s.peer]
        if x < .2:
            a = (rnd.choice(IPS), rnd.randrange(1025, 60000))
            sim.incoming(a, rnd.choice(['ok'] * 6 + ['abort']))
        elif x < .35 and peers:
            e = [entry() for _ in range(rnd.choice([1, 3, 8, 60]))]
            if rnd.random() < .3: e.append((N.T0, 1) + rnd.choice(peers))
            if rnd.random() < .2: e.append((N.T0, 1) + own)
            for z in e:
                if rnd.random() < .3: sim.dialres[z[2:]] = rnd.choice(['fail', 'raise', 'ok'])
            sim.feed(rnd.choice(peers), frame(b'addr', p_addr(e), m))
        elif x < .45 and peers:
            sim.feed(rnd.choice(peers), message(m, 'version') + message(m, 'verack'))
        elif x < .55 and peers:
            sim.inject(rnd.choice(peers), rnd.choice(['eof', 'reset', 'odd', 'soerr', ('cap', 'pipe'), ('cap', 'odd')]))
        elif x < .62 and peers:
            sim.api('remove', rnd.choice(peers + [('99.9.9.9', 9)]))
        elif x < .82:
            a = rnd.choice([(rnd.choice(IPS), rnd.randrange(1025, 60000)), own] + peers + seeds)
            sim.dialres.setdefault(a, rnd.choice(['prog', 'prog', 'ok', 'fail', 'raise']))
            sim.api('add', a, force=rnd.random() < .5, style=rnd.random() < .3)
        sim.tick(rnd.choice([0, 1, 5, 9, 10, 11, 11, 12, 25]))
        sim.loop(order=False)
        if rnd.random() < .3: sim.loop()
    sim.tick(11); sim.loop(); sim.loop()
    if rnd.random() < .2:
        sim.api('close')
        sim.tick(11)
        sim.loop()
    sim.done()


def s_full():
    """Unforced dials up to the maximum."""
    mx = rnd.choice([1, 2, 3, 5])
    cfg = config(seek=0, max=mx)
    sim = Sim(cfg)
    if not sim.alive: return
    for i in range(mx + 3):
        sim.api('add', ('30.0.0.%d' % (i + 1), 8333), force=False)
        if rnd.random() < .2: sim.api('add', ('30.0.0.%d' % (i + 1), 8333), force=False)
        if rnd.random() < .2: sim.loop()
    sim.api('remove', ('30.0.0.1', 8333))
    sim.api('add', ('30.0.0.77', 8333), force=False)
    sim.api('add', ('30.0.0.78', 8333), force=False)
    sim.api('add', ('30.0.0.79', 8333), force=True)
    sim.loop()
    sim.done()


def s_need():
    """Many addresses known, more peers wanted: five dials a round until enough."""
    cfg = config(seek=rnd.choice([3, 5, 6, 12]), max=40, address=('127.0.0.1', 8333), seeds=[])
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    a = connect(sim, 1, out_share=0)
    if not a: return sim.done()
    e = [entry(i) for i in range(rnd.choice([20, 49, 50, 51, 60]))]
    for z in e:
        if rnd.random() < .2: sim.dialres[z[2:]] = 'fail'
    sim.feed(a[0], frame(b'addr', p_addr(e), m))
    for _ in range(3): sim.loop()
    for r in range(6):
        sim.tick(rnd.choice([3, 9, 11, 11, 12]))
        sim.loop()
        peers = [s.peer for s in sim.socks() if s.peer]
        if rnd.random() < .4 and len(peers) > 1:
            sim.inject(rnd.choice(peers[1:]), rnd.choice(['eof', 'soerr']))
    sim.done()


def s_idle():
    """Silence (C07)."""
    cfg = config(seek=0, max=20, t=rnd.randrange(10 ** 5))
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    peers = connect(sim, rnd.choice([1, 2, 3]), drain=rnd.random() < .8)
    for a in peers:
        if rnd.random() < .2: sim.inject(a, ('cap', 'full'))
    for r in range(rnd.choice([10, 20])):
        sim.tick(rnd.choice([1, 60, 299, 301, 302, 600, 1799, 1800, 1801, 1802, 2000, 3000, 5400, 10799, 10800, 10801, 10900]) if rnd.random() < .75 else rnd.randrange(1, 4000))
        for a in peers:
            x = rnd.random()
            if x < .25: sim.feed(a, message(m, rnd.choice(['ping', 'pong', 'pong', 'any'])))
            elif x < .3: sim.feed(a, rb(rnd.randrange(1, 15)))
            elif x < .36: sim.inject(a, ('cap', rnd.choice([None, 'full', 5, None])))
        sim.loop(writes=rnd.choice([1, 1, 1, 0]))
        if rnd.random() < .3:
            sim.tick(rnd.choice([1, 250, 299, 301, 310]))
            sim.loop(writes=rnd.choice([1, 0]))
        if rnd.random() < .15 and len(peers) < 5: peers += connect(sim, 1, drain=rnd.random() < .5)
    sim.done()


def s_idle_edges(edge):
    """One connection, chosen distances around the limits."""
    cfg = config(seek=0, max=20, address=('127.0.0.1', 8333), t=5)
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    a = (IPS[0], 4000)
    b = (IPS[1], 4000)
    sim.incoming(a); sim.incoming(b); sim.loop(); sim.loop(); sim.loop()
    sim.feed(a, message(m, 'pong')); sim.loop()
    if edge == 'never':                 # nothing was ever transferred on c
        c = (IPS[2], 4000)
        sim.api('add', c, force=True)
        sim.inject(c, ('cap', 'full'))
        for dt in (1801, 9000, 10801, 20000):
            sim.feed(a, message(m, 'pong'))
            sim.tick(dt); sim.loop()
    elif edge == 'ping':
        for dt in (1799, 1, 1, 1, 298, 1, 2, 1800, 1, 1):
            sim.tick(dt)
            sim.feed(b, message(m, 'pong'))
            sim.loop()
    elif edge == 'stuck':               # pings pile up at most one per five minutes
        sim.inject(a, ('cap', 'full'))
        for dt in (1801, 1, 100, 198, 2, 299, 2, 301, 301, 301):
            sim.tick(dt); sim.loop()
        sim.inject(a, ('cap', None)); sim.loop(); sim.loop()
    elif edge == 'slow':                # always sending, a little at a time
        k = rnd.choice([1, 5, 24, 31])
        sim.feed(a, message(m, 'ping') * 30); sim.loop()
        sim.inject(a, ('cap', k))
        for i in range(10):
            sim.tick(rnd.choice([299, 301, 700, 1799])); sim.feed(b, message(m, 'pong')); sim.feed(a, message(m, 'pong')); sim.loop()
        sim.inject(a, ('cap', None))
        sim.loop(); sim.tick(1801); sim.loop(); sim.loop()
    elif edge == 'drip':                # always receiving, a little at a time
        x = message(m, 'addr') + frame(b'inv', vi(3) + b''.join(struct.pack('<I', 2) + rb(32) for _ in range(3)), m)
        for i in range(12):
            sim.tick(rnd.choice([5000, 9000, 10799, 10800])); sim.feed(a, x[i * 2:i * 2 + 2]); sim.loop()
            if i % 3 == 0: sim.loop()
        sim.tick(10801); sim.loop()
    elif edge == 'dead':
        for dt in (10799, 1, 1):
            sim.tick(dt); sim.loop()
        sim.loop()
    elif edge == 'stuckdead':           # times out with data unsent, others go on
        sim.inject(a, ('cap', 'full'))
        sim.feed(a, message(m, 'ping')); sim.loop()
        sim.tick(5000); sim.feed(b, message(m, 'ping')); sim.loop()
        sim.tick(5801); sim.feed(b, message(m, 'ping')); sim.loop(); sim.loop(); sim.loop()
    elif edge == 'alive':
        for _ in range(8):
            sim.tick(9000); sim.feed(a, message(m, 'pong')); sim.loop(); sim.loop()
    sim.done()


def s_ext():
    """What peers say about our address (C08)."""
    cfg = config(seek=0, max=40, address=rnd.choice([('127.0.0.1', 8333), ('192.168.1.5', 1000)]))
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    exts = rnd.sample(EXTS, rnd.choice([2, 3, 5]))
    for r in range(rnd.choice([12, 24])):
        peers = [s.peer for s in sim.socks() if s.peer]
        x = rnd.random()
        if x < .3 and len(peers) < 7:
            connect(sim, 1)
        elif x < .8 and peers:
            a = rnd.choice(peers)
            sim.feed(a, frame(b'version', p_version(exts[0] if rnd.random() < .4 else rnd.choice(exts), frm=rnd.choice(exts)), m))
        elif x < .86 and peers:
            a = rnd.choice(peers)
            if rnd.random() < .5: sim.inject(a, 'eof')
            else: sim.api('remove', a)
        elif x < .92:
            sim.api('setext', rnd.choice([None, '3.3.3.3', '2001:db8::9'] if rnd.random() < .6 else [None]))
        else:
            connect(sim, 1, out_share=1)
        sim.loop(order=False)
    connect(sim, 1)
    sim.loop()
    sim.done()


def s_majority():
    cfg = config(seek=0, max=40, address=('127.0.0.1', 8333))
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    peers = connect(sim, rnd.choice([5, 7]))
    good, bad = rnd.sample(EXTS[:4], 2)
    k = len(peers) // 2 + 1
    said = [good] * k + [bad] * (len(peers) - k)
    rnd.shuffle(said)
    for a, x in zip(peers, said):
        sim.feed(a, frame(b'version', p_version(x), m))
        if rnd.random() < .6: sim.loop()
    for _ in range(3): sim.loop()
    for _ in range(5):              # one insists
        sim.feed(peers[0], frame(b'version', p_version(bad), m))
    sim.loop(); sim.loop()
    connect(sim, 1)
    # leavers no longer count
    for a, x in zip(peers, said):
        if x == good and rnd.random() < .8: sim.inject(a, 'eof')
    sim.loop()
    live = [a for a in peers if sim.live(a)]
    if live: sim.feed(live[-1], frame(b'version', p_version(bad), m))
    sim.loop(); sim.loop()
    connect(sim, 1)
    sim.done()


def s_crowd():
    """Groups of many sizes say what our address is."""
    cfg = config(seek=0, max=60, address=('127.0.0.1', 8333))
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    sizes = rnd.choice([(11, 2), (10, 9), (12, 9, 3), (9, 8), (3, 2, 2), (13, 4), (10, 2, 5)])
    exts = rnd.sample(EXTS, len(sizes))
    said = [x for (x, k) in zip(exts, sizes) for _ in range(k)]
    if rnd.random() < .7: rnd.shuffle(said)
    for (i, x) in enumerate(said):
        a = ('50.0.%d.%d' % (i, rnd.randrange(1, 250)), rnd.randrange(1025, 60000))
        sim.incoming(a); sim.loop()
        if rnd.random() < .2: sim.feed(a, frame(b'version', p_version(rnd.choice(exts)), m))
        sim.feed(a, frame(b'version', p_version(x), m))
        if rnd.random() < .5: sim.loop()
    for _ in range(3): sim.loop()
    connect(sim, 1)
    peers = [s.peer for s in sim.socks() if s.peer]
    for a in rnd.sample(peers, min(len(peers), rnd.choice([2, 6, 10]))):
        sim.inject(a, 'eof')
    sim.loop()
    for a in [s.peer for s in sim.socks() if s.peer][:3]:
        sim.feed(a, frame(b'version', p_version(rnd.choice(exts)), m)); sim.loop()
    sim.loop(); connect(sim, 1)
    sim.done()


def s_mix():
    """Everything at once."""
    cfg = config(seek=rnd.choice([0, 2, 5]), max=10, seeds=[('20.0.0.1', 8333)] if rnd.random() < .5 else [])
    if rnd.random() < .4:
        cfg['reactions'] = {'Ping': [None, None, ('punish', 2), ('punish', 6), ('remove',)], 'Pong': ['raise', ('removeother',), ('removeother',)], 'Inventory': ['raise', 'raise']}
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    for r in range(rnd.choice([20, 40])):
        peers = [s.peer for s in sim.socks() if s.peer]
        for a in peers:
            x = rnd.random()
            if x < .35: sim.feed(a, b''.join(message(m) for _ in range(rnd.choice([1, 2, 3]))))
            elif x < .4: sim.feed_chunks(a, chunks(message(m) + message(m)))
            elif x < .44: sim.inject(a, rnd.choice(['eof', 'reset', 'odd', 'soerr', ('cap', 'pipe'), ('cap', 'odd')]))
            elif x < .55: sim.inject(a, ('cap', rnd.choice([None, 1, 24, 100, 'block', 'full'])))
        x = rnd.random()
        if x < .3 and len(peers) < 6: sim.incoming((rnd.choice(IPS), rnd.randrange(1025, 60000)))
        elif x < .4 and len(peers) < 6: sim.api('add', (rnd.choice(IPS), rnd.randrange(1025, 60000)), force=rnd.random() < .5)
        elif x < .45 and peers: sim.api('remove', rnd.choice(peers))
        elif x < .55 and peers: sim.api('punish', rnd.choice(peers))
        sim.tick(rnd.choice([0, 1, 3, 10, 11, 12, 60, 301, 1801, 3601, 10801] if rnd.random() < .5 else [1]))
        sim.loop(reads=rnd.choice([1, .7]), writes=rnd.choice([1, .7]), order=False)
    sim.done()


def s_serve():
    """The real event loop of the node, ended by StopNode."""
    cfg = config(seek=0, address=rnd.choice([('127.0.0.1', 8333), None, ('127.0.0.1', 0)]), loglevel=3)
    sim = Sim(cfg)
    if not sim.alive: return
    m = cfg['magic']
    a = (IPS[0], 4001)
    steps = [0]

    def pick(r, w, e):
        rr = [s.fileno() for s in r if s.readable()]
        ww = [s.fileno() for s in w if s.writable()]
        steps[0] += 1
        return rr, ww, []

    class Stop(Exception):
        pass

    def begin(self):
        # before each turn of the loop the previous one is complete
        if steps[0]:
            sim.emit('pass', r=R(None))
        if steps[0] == 1:
            sim.incoming(a)
        if steps[0] == 3:
            sim.feed(a, message(m, 'ping') + message(m, 'version'))
        if steps[0] == 6:
            raise StopNode()
        sim.tick(1)
    node = type(sim.node)
    node.begin_loop = begin
    ready['pick'] = pick
    try:
        r = call(sim.node.serve_forever)
    finally:
        del node.begin_loop
    sim.emit('served', r=r, n=steps[0])
    sim.done()


def scenario_file(path):
    """Scenarios generated by TLC from spec/NodeMC.tla."""
    for line in open(path):
        acts = json.loads(line)
        head = acts[0]
        cfg = config(seek=head['seek'], max=head['max'], seeds=[(tuple_ip(s), 8333) for s in head['seeds']], address=('127.0.0.1', 8333) if head['listen'] else None,
                     magic=MAGICS[0], pv=70002, loglevel=3, dialdef='prog', kind='node')
        sim = Sim(cfg)
        if not sim.alive: continue
        for a in acts[1:]:
            replay(sim, a, cfg['magic'])
            if a['k'] != 'pass' and rnd.random() < .5: sim.loop()
        sim.loop()
        sim.done()


def tuple_ip(k):
    return '40.0.0.%d' % k


def replay(sim, a, m):
    k = a['k']
    addr = (tuple_ip(a['ip']), a['port']) if 'ip' in a else None
    if k == 'pass':
        sim.tick(a['dt'])
        sim.loop()
    elif k == 'in':
        sim.incoming(addr)
    elif k == 'add':
        sim.dialres[addr] = a['res']
        sim.api('add', addr, force=bool(a['force']))
    elif k == 'remove':
        sim.api('remove', addr)
    elif k == 'punish':
        for _ in range(a['n']):
            sim.api('punish', addr)
    elif k == 'inject':
        sim.inject(addr, a['what'])
    elif k == 'cap':
        sim.inject(addr, ('cap', {0: 'full', -1: None}.get(a['n'], a['n'])))
    elif k == 'setext':
        sim.api('setext', tuple_ip(a['x']) if a['x'] else None)
    elif k == 'msg':
        x = a['m']
        if x == 'version': b = frame(b'version', p_version(tuple_ip(a['x'])), m)
        elif x == 'addr': b = frame(b'addr', p_addr([(N.T0 + a['x'] * 7 + i, 1 + i, tuple_ip(a['x'] + i), 8333) for i in range(2)]), m)
        elif x == 'split':
            b = message(m, 'ping')
            s = sim.sock(addr)
            if s: s.inq.extend([b[:a['x']], b[a['x']:]])
            return
        else: b = message(m, x)
        sim.feed(addr, b)


PLAN = {
    'C01': [(s_streams, (md,)) for md in ('one', 'two', 'bytes', 'rand', 'head')] * 7 + [(s_large, ())] * 2 + [(s_many, (n,)) for n in (345, 700)] + [(s_huge, (n,)) for n in ((70000, 270000, 2200000) if not BIG else (70000,))] + [(s_mix, ())] * 4,
    'C02': [(s_writes, ())] * 34 + [(s_huge, (70000,))] + [(s_backlog, (n,)) for n in ((66000, 66000, 140000, 1100000) if not BIG else (66000, 140000))] + [(s_mix, ())] * 4,
    'C03': [(s_talk, ())] * 24 + [(s_backlog, (n,)) for n in ((66000, 1100000) if not BIG else (66000,))] + [(s_each, ())] * 2 + [(s_streams, ('one',))] * 4 + [(s_mix, ())] * 4,
    'C04': [(s_book, ())] * 24 + [(s_bigbook, (n,)) for n in (1003, 2499)] + [(s_mix, ())] * 3,
    'C05': [(s_ban, ())] * 16 + [(s_ban_hour, ())] * 5 + [(s_ban_again, (d,)) for d in (5, 600, 1800, 3000, 3590)] + [(s_decay, ())] * 5 + [(s_bans, (n,)) for n in ((20, 70) if not BIG else (20, 40))] + [(s_mix, ())] * 4,
    'C06': [(s_set, (True,))] * 20 + [(s_set, (False,))] * 5 + [(s_full, ())] * 6 + [(s_need, ())] * 8 + [(s_serve, ())] * 3 + [(s_mix, ())] * 4,
    'C07': [(s_idle, ())] * 20 + [(s_idle_edges, (e,)) for e in ('never', 'ping', 'stuck', 'dead', 'stuckdead', 'alive', 'slow', 'drip')] * 3 + [(s_mix, ())] * 4,
    'C08': [(s_ext, ())] * 18 + [(s_majority, ())] * 6 + [(s_crowd, ())] * 6 + [(s_mix, ())] * 3,
}
if SCEN:
    scenario_file(SCEN[0])
# now, while 31 bits of seconds run out, and late in the 32 the wire has
ERAS = [1600000000, 1600000000, 2 ** 31 - 30, 1600000000, 4000000000]
for (i, (f, a)) in enumerate(PLAN[PROP] * S):
    N.T0 = ERAS[i % 5]
    f(*a)
N.T0 = ERAS[0]
if BIG and PROP in ('C01', 'C02', 'C03'):
    for n in (270000, 1100000, 4300000 if PROP == 'C01' else 2200000):
        (s_huge if PROP == 'C01' else s_backlog)(n)
if BIG and PROP == 'C05':
    s_bans(300)
if BIG and PROP == 'C04':
    for n in (999, 1000, 1001, 2498, 2500, 2501, 3200):
        s_bigbook(n)
out.end()
