"""Field types of the messages, random values for them and records of values."""
import math, random
from common import R, by, nat
from nbc.protocol import format as F
from nbc.protocol import messages as M

rnd = random.Random(0)

# field types (mirrors spec/Wire.tla; only used to choose inputs)
U8, U32, U32f, I32, U64, I64, I64f, PORT = (('n', 8, 0, 0), ('n', 32, 0, 0), ('n', 32, 0, 1), ('n', 32, 1, 0), ('n', 64, 0, 0),
                                            ('n', 64, 1, 0), ('n', 64, 1, 1), ('n', 16, 0, 0))
VAR, IP, VSTR, ANT, REL = ('var',), ('ip',), ('vstr',), ('ant',), ('rel',)
B = lambda n: ('b', n)
A = lambda c, lo=0, hi=0: ('a', c, lo, hi)
T = lambda n: ('r', n)
HDR = [('version', U32), ('prev_block', B(32)), ('merkle_root', B(32)), ('timestamp', U32f), ('bits', U32), ('nonce', U32)]
TX = [('version', U32), ('tx_in', A(T('TxnIn'), 1)), ('tx_out', A(T('TxnOut'), 1)), ('lock_time', U32)]
INV = [('inventory', A(T('InventoryVector'), 0, 50000))]
GB = [('version', U32), ('block_locator_hashes', A(B(32), 1)), ('hash_stop', B(32))]
COMPOUND = {
    'NetworkAddress': [('timestamp', U32f), ('services', U64), ('address', IP), ('port', PORT)],
    'InventoryVector': [('object_type', U32), ('hash', B(32))],
    'OutPoint': [('hash', B(32)), ('index', U32)],
    'TxnIn': [('previous_output', T('OutPoint')), ('signature_script', VSTR), ('sequence', U32)],
    'TxnOut': [('value', I64), ('pk_script', VSTR)],
    'Txn': TX,
    'BlockHeader': HDR + [('txn_count', VAR)],
}
MESSAGE = {
    'Version': [('version', I32), ('services', U64), ('timestamp', I64f), ('addr_recv', ANT), ('addr_from', ANT), ('nonce', B(8)),
                ('user_agent', VSTR), ('start_height', I32), ('relay', REL)],
    'VersionAck': [], 'GetAddress': [], 'MemoryPool': [],
    'Address': [('addr_list', A(T('NetworkAddress'), 0, 1000))],
    'Inventory': INV, 'GetData': INV, 'NotFound': INV, 'GetBlocks': GB, 'GetHeaders': GB, 'Transaction': TX,
    'Block': HDR + [('txns', A(T('Txn')))],
    'Headers': [('headers', A(T('BlockHeader')))],
    'Ping': [('nonce', B(8))], 'Pong': [('nonce', B(8))],
    'Reject': [('message', VSTR), ('ccode', U8), ('reason', VSTR)],
    'Alert': [('payload', VSTR), ('signature', VSTR)],
}
FIELDS = dict(COMPOUND); FIELDS.update(MESSAGE)
NAMES = sorted(MESSAGE)


def cls(n):
    return getattr(F, n) if n in COMPOUND else getattr(M, n)


def rb(n):
    return bytes(rnd.getrandbits(8) for _ in range(n))


def fl(x):
    special = 1 if math.isnan(x) or math.isinf(x) else 0
    t = 0 if special else math.trunc(x)
    return {'k': 'f', 'v': nat(abs(t)), 'neg': 1 if math.copysign(1, x) < 0 else 0,
            'frac': 0 if special or t == x else 1, 'special': special}


def V(x):
    """Record of a value handed to the code under test."""
    if isinstance(x, float):
        return fl(x)
    if isinstance(x, str) and any(ord(c) > 255 for c in x):
        return {'k': 'u', 'v': []}
    if isinstance(x, bytearray):
        return {'k': 'o', 'v': []}
    if isinstance(x, (list, tuple)):
        return {'k': 'l', 'l': [V(y) for y in x]}
    if isinstance(x, Made):
        return x.enc
    if x is None or isinstance(x, (bool, int, bytes, str)):
        return R(x)
    return {'k': 'o', 'v': []}


def obj(x):
    """The value itself."""
    if isinstance(x, Made):
        return x.obj
    if isinstance(x, list):
        return [obj(y) for y in x]
    if isinstance(x, tuple):
        return tuple(obj(y) for y in x)
    return x


class Made(object):
    """A compound value built by the code under test, with its record."""

    def __init__(self, n, vals):
        self.n, self.vals = n, vals
        self.enc = {'k': 'rec', 't': n, 'f': [V(v) for v in vals]}
        self.obj = cls(n)(*[obj(v) for v in vals])


def num(ty):
    _, bits, signed, f = ty
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    c = [lo, hi, lo + 1, hi - 1, 0, 1, 255, 256, 0x7f, 0x80, 0x1234, hi >> 1, rnd.randrange(lo, hi + 1), rnd.randrange(lo, hi + 1)]
    c += [1 << (8 * rnd.randrange(bits // 8)), 0xabcdef & hi]
    v = rnd.choice([x for x in c if lo <= x <= hi])
    if f and rnd.random() < .4:
        v = rnd.choice([0.0, 0.5, 0.999, 1.5, 1700000000.25, 2147483647.75, 123456789.0, float(rnd.randrange(1 << 31)) + .5])
        if signed and rnd.random() < .3:
            v = -v
    return v


def ip():
    k = rnd.randrange(9)
    if k < 3:
        return '.'.join(str(rnd.choice([0, 1, 9, 10, 99, 100, 127, 255, rnd.randrange(256)])) for _ in range(4))
    g = ['%x' % rnd.choice([0, 1, 0xf, 0x10, 0xff, 0x100, 0xffff, rnd.randrange(65536)]) for _ in range(8)]
    if k == 3:
        return ':'.join(g)
    if k == 4:
        return ':'.join(x.rjust(4, '0').upper() for x in g)
    if k == 5:
        return rnd.choice(['::', '::1', '1::', 'fe80::', '::ffff:%s:%s' % (g[0], g[1]), '::%s:%s' % (g[2], g[3]), '::fffe:%s:%s' % (g[2], g[3]), '::1:ffff:%s:%s' % (g[2], g[3]), '64:ff9b::%s:%s' % (g[2], g[3]), '2001:db8::1', '0:0:0:0:0:ffff:102:304', '::1:2:3:4:5:6:7', '1:2:3:4:5:6:7::'])
    a = rnd.randrange(0, 8); b = rnd.randrange(0, 8 - a)
    return ':'.join(g[:a]) + '::' + ':'.join(g[8 - b:] if b else [])


BADIP = ['', '1', '1.2.3', '1.2.3.4.5', '256.1.1.1', '1.2.3.256', '1.2.3.-4', '1.2.3.+4', ' 1.2.3.4', '1.2.3.4 ', '1..3.4', '1.2.3.', '.1.2.3', 'a.b.c.d', '1_0.2.3.4',
         '1.2.3.4\n', '0x1.2.3.4', '1.2.3.4e0', ':', ':::', '::1::', '1::2::3', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '1:2:3:4:5:6:7:8::', '::1:2:3:4:5:6:7:8',
         '1:2:3:4::5:6:7:8', '12345::', '::12345', '::g', '::-1', '::+1', '::1_0', '::0x1', ' ::1', '::1 ', '1:2:3:4:5:6:7:', ':2:3:4:5:6:7:8', '1:::2', '::%1', 'localhost',
         '1:2', '::ffff:', '99999999999.1.1.1', '1:2:3:4:5:6:7:10000', '1:2:3:4:5:6:7:00001', u'１.2.3.4', u'::\u0661', 'fe80::1%eth0', '::1/64']


def value(ty, size=3):
    k = ty[0]
    if k == 'n':
        return num(ty)
    if k == 'var':
        return rnd.choice([0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000, (1 << 64) - 1, rnd.getrandbits(63)])
    if k == 'ip':
        return ip()
    if k == 'b':
        return rnd.choice([rb(ty[1]), bytes(ty[1]), b'\xff' * ty[1], b'\x00' + rb(ty[1] - 1), rb(ty[1] - 1) + b'\x00'])
    if k == 'vstr':
        n = rnd.choice([0, 1, 2, 7, 32, 107, 252, 253, 254, 255, 256, 300]) if size else rnd.randrange(6)
        s = rb(n)
        return s if rnd.random() < .7 else s.decode('latin-1')
    if k == 'ant':
        return Made('NetworkAddress', fields('NetworkAddress'))
    if k == 'rel':
        return rnd.choice([True, False, 0, 1, 2, 255])
    if k == 'r':
        return Made(ty[1], fields(ty[1], max(size - 1, 0)))
    if k == 'a':
        n = max(ty[2], rnd.choice([0, 1, 1, 2, size, rnd.randrange(0, 2 + size)]))
        l = [value(ty[1], max(size - 1, 0)) for _ in range(n)]
        return l if rnd.random() < .7 else tuple(l)
    raise ValueError(k)


def fields(n, size=3):
    return [value(t, size) for (_, t) in FIELDS[n]]


# --- reading back what was parsed
def D(ty, x):
    k = ty[0]
    if k in ('n', 'rel', 'var'):
        return R(int(x)) if isinstance(x, (bool, int)) else R(x)
    if k == 'a':
        return {'k': 'l', 'l': [D(ty[1], y) for y in x]} if isinstance(x, (list, tuple)) else R(x)
    if k == 'ant':
        return Drec('NetworkAddress', x)
    if k == 'r':
        return Drec(ty[1], x)
    return R(x)


def Drec(n, x):
    if type(x) is not cls(n):
        return R(x)
    return {'k': 'rec', 't': n, 'f': [D(t, getattr(x, f)) for (f, t) in FIELDS[n]]}


def Dmsg(m):
    n = [k for k in MESSAGE if type(m) is cls(k)]
    if not n:
        return R(m)
    n = n[0]
    mg = m.magic if isinstance(m.magic, bytes) else b''
    return {'k': 'msg', 't': n, 'f': [D(t, getattr(m, f)) for (f, t) in FIELDS[n]], 'magic': by(mg),
            'cmd': by(m.command.encode('latin-1')), 'name': str(m.name)}


