"""Records construction, serialisation and parsing of messages (C09, C10, C11), alerts (C32)
and the helpers of C31."""
import hashlib, math, struct
from common import *

PROP, TIER, SEED, OUT = args()
quiet()
rnd = random.Random(SEED * 1000003 + int(PROP[1:]))
BIG = TIER == 'thorough'
S = 6 if BIG else 1
out = Out(OUT)

from nbc.protocol import format as F
from nbc.protocol import messages as M
from nbc import util as UT
from nbc.coins import get_coin, Newbitcoin
from nbc import coins

import drv_wire_types as W
W.rnd = rnd
from drv_wire_types import *


MAGICS = [b'\xf9\x6e\x62\x63', b'\xf9\xbe\xb4\xd9', b'\x00\x00\x00\x00', b'\x0b\x11\x09\x07']


def ev_enc(n, vals, m=None):
    magic = rnd.choice(MAGICS[:2] + MAGICS) if rnd.random() < .5 else MAGICS[0]
    enc = [V(v) for v in vals]
    o = [None]

    def mk():
        o[0] = m() if m else cls(n)(*[obj(v) for v in vals])
        return o[0].binary(magic)
    r = call(mk)
    d = call(lambda: M.Message.parse(bytes(bytearray(r['v'])), magic), _conv=Dmsg) if r['k'] == 'b' else {'k': 'x', 'e': 'none'}
    out.ev('enc', t=n, f=enc, magic=by(magic), r=r, d=d)
    if n == 'Version' or rnd.random() < .15:    # serialising once more gives the same bytes
        out.ev('enc', t=n, f=enc, magic=by(magic), r=call(lambda: o[0].binary(magic)), d=d)


class NS(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def c09():
    for n in NAMES:
        for i in range((10 if n in ('Block', 'Headers', 'Transaction') else 14) * S):
            ev_enc(n, fields(n, 1 + i % 3))
    for _ in range(30 * S):      # bare addresses in every written form
        ev_enc('Version', fields('Version', 0))
        ev_enc('Address', [[Made('NetworkAddress', fields('NetworkAddress')) for _ in range(4)]])
    # boundaries of counts and lengths
    for L in (252, 253, 254, 65535, 65536):
        ev_enc('Reject', [rb(L), 7, b''])
        ev_enc('Alert', [b'', ('\xe9' * L)])
    for k in (252, 253, 254):
        iv = Made('InventoryVector', [2, rb(32)])
        ev_enc('Inventory', [[iv] * k])
        ev_enc('GetHeaders', [70002, [rb(32)] * k, bytes(32)])
    ev_enc('Address', [[Made('NetworkAddress', [5, 1, '1.2.3.4', 8333])] * 1000])
    # values on every byte of every width
    for w, (nm, pos, lim) in {8: ('NetworkAddress', 1, 1 << 64), 4: ('OutPoint', 1, 1 << 32), 2: ('NetworkAddress', 3, 1 << 16)}.items():
        for b in range(w):
            for v in (1 << (8 * b), 0xff << (8 * b), (0xa1 << (8 * b)) % lim):
                vals = fields(nm)
                vals[pos] = v
                ev_rec(nm, vals)
    for v in [-1, -2, -128, -129, -256, -32768, -(1 << 31), -(1 << 31) - 1, -(1 << 63), (1 << 63) - 1]:
        ev_rec('TxnOut', [v, b''])
    for n in sorted(COMPOUND):
        for i in range(16 * S):
            ev_rec(n, fields(n, 1 + i % 3))
    # every variable length integer boundary as transaction count
    for v in [0, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1] + [rnd.getrandbits(rnd.randrange(1, 65)) for _ in range(8 * S)]:
        ev_rec('BlockHeader', fields('BlockHeader')[:6] + [v])
    # identifiers
    for i in range(16 * S):
        for n in ('Txn', 'BlockHeader'):
            vals = fields(n, i % 4)
            o = cls(n)(*[obj(v) for v in vals])
            r = call(lambda: o.hash)
            if i % 3 == 2:
                o = call0(lambda: cls(n).parse(o.binary())[1])
            out.ev('id', t=n, f=[V(v) for v in vals], r=r, r2=call(lambda: o.hash))
    for L in (1000, 20000, 66000, 110000) + ((1100000,) if S > 1 else ()):      # of large records, to the last byte
        vals = [1, [Made('TxnIn', [Made('OutPoint', [rb(32), 1]), rb(L // 2), 7])], [Made('TxnOut', [5, rb(L // 2)])], rnd.getrandbits(32)]
        o = cls('Txn')(*[obj(v) for v in vals])
        out.ev('id', t='Txn', f=[V(v) for v in vals], r=call(lambda: o.hash), r2=call(lambda: o.hash))
    # from_block
    for _ in range(6 * S):
        h = [rnd.getrandbits(32), rb(32), rb(32), rnd.getrandbits(32), rnd.getrandbits(32), rnd.getrandbits(32)]
        txs = [Made('Txn', fields('Txn', 1)) for _ in range(rnd.randrange(4))]
        b = NS(version=h[0], previous_hash=h[1], previous_block_hash=h[1], merkle_root=h[2], timestamp=h[3], bits=h[4], nonce=h[5], transactions=[t.obj for t in txs])
        ev_enc('Block', h + [txs], m=lambda: M.Block.from_block(b))
        ev_rec('BlockHeader', h + [len(txs)], m=lambda: F.BlockHeader.from_block(b))
    # outpoints
    hs = [rb(32), bytes(32), b'\xff' * 32]
    ops = [(h, i) for h in hs for i in (0, 1, 255, 2 ** 32 - 1)]
    def close(a):
        i = rnd.randrange(32)
        return rnd.choice([(a[0], a[1] ^ 1 << rnd.randrange(32)), (a[0][:i] + bytes([a[0][i] ^ 1 << rnd.randrange(8)]) + a[0][i + 1:], a[1]), (a[0][::-1], a[1])])
    for a in ops:
        for b in rnd.sample(ops, 6) + [a] + [close(a) for _ in range(8)]:
            A1, B1 = F.OutPoint(*a), F.OutPoint(bytes(bytearray(b[0])), b[1])
            out.ev('u.eq', a=[by(a[0]), nat(a[1])], b=[by(b[0]), nat(b[1])], r=call(lambda: A1 == B1), ne=call(lambda: A1 != B1),
                   h=call(lambda: hash(A1) == hash(B1)), other=call(lambda: A1 == F.InventoryVector(a[1], a[0])))


def call0(f):
    try:
        return f()
    except Exception:
        return None


def ev_rec(n, vals, m=None):
    enc = [V(v) for v in vals]
    r = call(lambda: (m() if m else cls(n)(*[obj(v) for v in vals])).binary())
    junk = rb(rnd.choice([0, 0, 1, 9]))

    def back():
        (l, x) = cls(n).parse(bytes(bytearray(r['v'])) + (b'' if n == 'Txn' else junk))
        return (l, x)
    d = call(back, _conv=lambda p: {'k': 'l', 'l': [R(p[0]), Drec(n, p[1])]}) if r['k'] == 'b' else {'k': 'x', 'e': 'none'}
    out.ev('rec', t=n, f=enc, r=r, d=d)


# --- C10 --------------------------------------------------------------------------------
def dsha(x):
    return hashlib.sha256(hashlib.sha256(x).digest()).digest()


def frame(cmd, p, magic=MAGICS[0], length=None, sum=None):
    return magic + cmd.ljust(12, b'\x00') + struct.pack('<I', len(p) if length is None else length) + (dsha(p)[:4] if sum is None else sum) + p


def ev_parse(d, magic=MAGICS[0]):
    out.ev('parse', magic=by(magic), s=by(d), d=call(M.Message.parse, d, magic, _limit=10, _conv=Dmsg))


def vi(n, w=None):
    if w is None:
        w = 1 if n < 253 else 3 if n < 65536 else 5 if n < 1 << 32 else 9
    return {1: lambda: struct.pack('<B', n), 3: lambda: b'\xfd' + struct.pack('<H', n), 5: lambda: b'\xfe' + struct.pack('<I', n),
            9: lambda: b'\xff' + struct.pack('<Q', n)}[w]()


def pay(n, size=1):
    for _ in range(50):
        p = call0(lambda: cls(n)(*[obj(v) for v in fields(n, size)]).binary(MAGICS[0])[24:])
        if p is not None:
            return p
    raise RuntimeError('nothing serialises')


def c10():
    cmds = dict((n, cls(n).command.encode()) for n in NAMES)
    for n in NAMES:
        c = cmds[n]
        for i in range(2 * S):
            p = pay(n, 1)
            ev_parse(frame(c, p))
            ev_parse(frame(c, p + rb(3)))                              # surplus payload
            ev_parse(frame(c, p) + rb(5))                              # surplus after the frame
            cuts = list(range(len(p)))
            if len(cuts) > 40:
                cuts = sorted(set(cuts[:10] + cuts[-14:] + rnd.sample(cuts, 16)))
            for k in cuts:
                ev_parse(frame(c, p[:k]))
                if rnd.random() < .15:
                    ev_parse(frame(c, p[:k], length=len(p)))             # declares more than it has
            ev_parse(frame(c, p, MAGICS[1]))
            ev_parse(frame(c, p, MAGICS[0][:3] + b'\x64'))
            ev_parse(frame(c, p, b'\xf8' + MAGICS[0][1:]))
            for j in range(4):                                          # checksum off by one byte
                s = bytearray(dsha(p)[:4]); s[j] ^= rnd.choice([1, 0x80, 0xff])
                ev_parse(frame(c, p, sum=bytes(s)))
            if p:
                q = bytearray(p); q[rnd.randrange(len(p))] ^= 1 << rnd.randrange(8)
                ev_parse(frame(c, bytes(q), sum=dsha(p)[:4]))            # payload changed under its checksum
                ev_parse(frame(c, p, length=len(p) - 1))
            for k in range(0, 24, 3):
                ev_parse(frame(c, p)[:k])
            for _ in range(6 * S):                                      # other payloads, valid checksum
                q = bytearray(p)
                for _ in range(rnd.randrange(1, 4)):
                    if q:
                        q[rnd.randrange(len(q))] = rnd.choice([0, 1, 0xfc, 0xfd, 0xfe, 0xff, rnd.randrange(256)])
                if rnd.random() < .3 and q:
                    del q[rnd.randrange(len(q))]
                ev_parse(frame(c, bytes(q)))
            ev_parse(frame(c, rb(rnd.randrange(60))))
    # declared counts and lengths without content
    iv = struct.pack('<I', 2) + rb(32)
    for cnt in (1, 2, 3, 252, 253, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
        for w in (1, 3, 5, 9):
            if (w == 1 and cnt > 252) or (w == 3 and cnt > 65535) or (w == 5 and cnt >= 1 << 32):
                continue
            v = vi(cnt, w)
            ev_parse(frame(b'inv', v + iv * min(cnt, 2)))
            ev_parse(frame(b'addr', v + rb(30)))
            ev_parse(frame(b'getblocks', bytes(4) + v + bytes(64)))
            ev_parse(frame(b'tx', bytes(4) + v + bytes(41)))
            ev_parse(frame(b'headers', v + bytes(81 * min(cnt, 3))))
            ev_parse(frame(b'reject', v + rb(min(cnt, 3)) + b'\x01\x00'))
            ev_parse(frame(b'alert', v + rb(min(cnt, 5)) + b'\x00'))
            ev_parse(frame(b'block', bytes(80) + v))
            for k in range(1, len(v)):
                ev_parse(frame(b'notfound', v[:k]))
    for b in (b'', b'\xfd', b'\xfd\x01', b'\xfe\x01\x00\x00', b'\xff' + bytes(7), b'\xff' + bytes(8), b'\xfe' + bytes(4), b'\xfd\x00\x00'):
        ev_parse(frame(b'getdata', b)); ev_parse(frame(b'headers', b)); ev_parse(frame(b'alert', b + (b'' if b[:1] != b'' else b)))
    # commands
    p = pay('Ping')
    unk = [b'filterload', b'filteradd', b'filterclear', b'merkleblock', b'', b'pingg', b'pin', b'PING', b'ping ', b'version\x01', b'sendheaders', b'\xff' * 12, b'x' * 12,
           b'pi\x00ng', b'ping\x00x', b'None', b'address', b'version_ack', b'get_data', b'transaction', b'filter_load', b'not_found', b'Version', b'verac', b'tx\x00\x00\x00tx']
    fl = vi(2) + b'\x01\x02' + struct.pack('<IIB', 1, 2, 3)
    for u in unk:
        for q in (b'', p, fl, vi(3) + b'abc', rb(12), bytes(90)):
            ev_parse(frame(u, q))
        ev_parse(frame(u, p, sum=b'\x00\x01\x02\x03'))
        ev_parse(frame(u, p, magic=MAGICS[1]))
    # version messages without their last field
    for _ in range(6 * S):
        p = pay('Version', 0)
        ev_parse(frame(b'version', p[:-1])); ev_parse(frame(b'version', p)); ev_parse(frame(b'version', p[:-2]))
        ev_parse(frame(b'version', p[:-1] + bytes([rnd.randrange(256)])))
    for _ in range(60 * S):
        ev_parse(MAGICS[0] + rb(rnd.randrange(60)))
        ev_parse(rb(rnd.randrange(60)))


# --- C11 --------------------------------------------------------------------------------
def junk(ty):
    """A value around the edge of a field type."""
    k = ty[0]
    common = [None, b'', '', 'x', b'x', 1.5, [], (), [1], {}, set(), object(), bytearray(b'abcd'), True, 0, -1, float('nan'), float('inf'), -float('inf'), u'\u0101', 1 << 70, -(1 << 70), 2 ** 64, 2.0 ** 64]
    if k == 'n':
        _, bits, signed, f = ty
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1))) if signed else (0, 1 << bits)
        near = [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, -1, 0, 1, -lo, hi * 2, hi * 256, float(lo), -0.0, -0.5, -1.0, -0.9, 1.0, 7.75]
        near += [float(hi), math.nextafter(float(hi), 0), math.nextafter(float(lo), -math.inf), math.nextafter(float(lo), math.inf), float(hi) * 2] if bits > 8 else [255.0, 255.5, 256.0]
        return rnd.choice(near * 3 + common)
    if k == 'var':
        return rnd.choice([0, 252, 253, 254, 255, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, -1, -2, -2 ** 63] * 2 + common)
    if k == 'ip':
        return rnd.choice(BADIP * 2 + [ip() for _ in range(20)] + common + [ip().encode()])
    if k == 'b':
        return rnd.choice([rb(ty[1]), rb(ty[1] - 1), rb(ty[1] + 1), b'', rb(2 * ty[1]), 'x' * ty[1], bytearray(rb(ty[1])), [1] * ty[1]] * 2 + common)
    if k == 'vstr':
        return rnd.choice([b'', '', b'abc', '\xff\x80', u'\u0100', u'abc\u20ac', u'\U0001f600', bytearray(b'abc'), ['a'], 5] * 2 + common)
    if k in ('r', 'ant'):
        n = ty[1] if k == 'r' else 'NetworkAddress'
        others = [x for x in COMPOUND if x != n]
        return rnd.choice([Made(n, fields(n, 0)), Made(rnd.choice(others), fields(others[0], 0)) if 0 else mk_other(n), mk_other(n)] * 5 + common)
    if k == 'a':
        lo, hi = ty[2], ty[3]
        c = []
        for n in set([0, 1, 2, lo, max(lo - 1, 0), lo + 1]):
            l = [value(ty[1], 0) for _ in range(n)]
            c += [l, tuple(l)]
            if n:
                m = list(l); m[rnd.randrange(n)] = junk(ty[1])
                c += [m, m]
        c += [dict(), 'abc', b'', None, rb(40), set(), object()]
        return rnd.choice(c)
    return value(ty)


def mk_other(n):
    o = rnd.choice([x for x in COMPOUND if x != n])
    return Made(o, fields(o, 0))


def ev_mk(n, pos, kw, cmp=1, encpos=None, enckw=None):
    c = cls(n)
    o = [None]

    def mk():
        o[0] = c(*[obj(v) for v in pos], **dict((k, obj(v)) for (k, v) in kw))
        return True
    r = call(mk)
    b = {'k': 'x', 'e': 'none'}
    if r['k'] == 't':
        b = call(lambda: o[0].binary(MAGICS[0])[24:] if n in MESSAGE else o[0].binary())
        if not cmp and b['k'] == 'b':
            b = {'k': 'b', 'v': []}
    out.ev('mk', t=n, pos=encpos or [V(v) for v in pos], kw=enckw or [[k, V(v)] for (k, v) in kw], r=r, b=b, cmp=cmp)


def c11():
    everything = sorted(FIELDS)
    for n in everything:
        fs = FIELDS[n]
        for i in range((10 + 22 * len(fs)) * S):
            vals = fields(n, 1 if i % 4 == 0 else 0)
            if fs and i % 6:
                for _ in range(1 if i % 3 else 2):
                    j = rnd.randrange(len(fs))
                    vals[j] = junk(fs[j][1])
            np = rnd.choice([0, len(fs), rnd.randrange(len(fs) + 1)])
            kw = [(fs[k][0], vals[k]) for k in range(np, len(fs))]
            rnd.shuffle(kw)
            ev_mk(n, vals[:np], kw)
        # wrong sets of fields
        for i in range(14 * S):
            vals = fields(n, 0)
            named = [(fs[k][0], vals[k]) for k in range(len(fs))]
            c = i % 7
            if c == 0 and fs:
                j = rnd.randrange(len(fs)); ev_mk(n, [], named[:j] + named[j + 1:])
            elif c == 1:
                ev_mk(n, [], named + [(rnd.choice(['bogus', 'extra', '_properties', 'magic', 'hash2']), 1)])
            elif c == 2:
                ev_mk(n, vals + [rnd.choice([0, None, b''])], [])
            elif c == 3 and fs:
                j = rnd.randrange(len(fs)); ev_mk(n, vals[:j + 1], named[j:])
            elif c == 4 and fs:
                ev_mk(n, vals[:-1], [])
            elif c == 5 and fs:
                j = rnd.randrange(len(fs)); ev_mk(n, [], named[:j] + [(fs[j][0] + 'x', vals[j])] + named[j + 1:])
            elif c == 6 and fs:
                j = rnd.randrange(len(fs)); ev_mk(n, vals[:-1], [named[0]])
    # addresses
    for a in BADIP + [ip() for _ in range(60 * S)]:
        v = fields('NetworkAddress', 0)
        v[2] = a
        ev_mk('NetworkAddress', v, [])
    alpha = '0123456789abcdefABCDEF::::....g- '
    for _ in range(120 * S):
        a = list(ip())
        for _ in range(rnd.randrange(1, 3)):
            j = rnd.randrange(len(a) + 1)
            x = rnd.randrange(3)
            if x == 0: a.insert(j, rnd.choice(alpha))
            elif x == 1 and a: a.pop(min(j, len(a) - 1))
            elif a: a[min(j, len(a) - 1)] = rnd.choice(alpha)
        a = ''.join(a)
        # leading zeros and the mixed form are read differently by different tools: left out
        if any(len(g) > 1 and g[0] == '0' for g in a.split('.')) and ':' not in a:
            continue
        if ':' in a and '.' in a:
            continue
        v = fields('NetworkAddress', 0)
        v[2] = a
        ev_mk('NetworkAddress', v, [])
    # every number field at every edge
    for n in everything:
        for (j, (f, ty)) in enumerate(FIELDS[n]):
            if ty[0] in ('n', 'var'):
                bits = ty[1] if ty[0] == 'n' else 64
                signed = ty[0] == 'n' and ty[2]
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1))) if signed else (0, 1 << bits)
                for v in (lo - 1, lo, hi - 1, hi, float(hi), float(lo), -0.5, 0.5):
                    vals = fields(n, 0)
                    vals[j] = v
                    ev_mk(n, vals, [])
    # list limits: many copies of one item
    big = [('Address', 'addr_list', 'NetworkAddress', (999, 1000, 1001)), ('Inventory', 'inventory', 'InventoryVector', (49999, 50000, 50001)),
           ('GetData', 'inventory', 'InventoryVector', (50000, 50001)), ('NotFound', 'inventory', 'InventoryVector', (50000, 50001)),
           ('GetBlocks', 'block_locator_hashes', None, (1, 0, 2001)), ('GetHeaders', 'block_locator_hashes', None, (1, 0, 2001)),
           ('Headers', 'headers', 'BlockHeader', (0, 2001))]
    for (n, f, item, counts) in big:
        for k in counts:
            it = Made(item, fields(item, 0)) if item else rb(32)
            vals = fields(n, 0)
            j = [x for (x, _) in FIELDS[n]].index(f)
            vals[j] = [it] * k
            enc = [V(v) if i != j else {'k': 'rep', 'n': k, 'x': V(it)} for (i, v) in enumerate(vals)]
            ev_mk(n, vals, [], cmp=0, encpos=enc)
    # what validation returns stays what it is when the caller changes his list afterwards
    for _ in range(4 * S):
        l = [rb(32) for _ in range(3)]
        vals = [1, l, rb(32)]
        enc = [V(v) for v in vals]
        o = [None]

        def mk():
            o[0] = M.GetBlocks(*vals)
            return True
        r = call(mk)
        l.append('not a hash'); l[0] = None
        out.ev('mk', t='GetBlocks', pos=enc, kw=[], r=r, b=call(lambda: o[0].binary(MAGICS[0])[24:]), cmp=1)


# --- C31 --------------------------------------------------------------------------------
def c31():
    for n in list(range(1, 18)) + [31, 32, 33, 63, 65]:
        for _ in range(2 * S):
            hs = [rb(32) for _ in range(n)]
            if rnd.random() < .3:
                hs[-1] = hs[0]
            txs = [NS(hash=h) for h in hs]
            out.ev('u.merkle', hs=[by(h) for h in hs], r=call(UT.get_merkle_root, txs))
    for n in (257, 999, 1000, 1001, 1023, 2047, 4097, 4099, 5001) + ((10001, 16385, 20003) if S > 1 else ()):
        hs = [rb(32) for _ in range(n)]
        out.ev('u.merkle', hs=[by(h) for h in hs], r=call(UT.get_merkle_root, [NS(hash=h) for h in hs]))
    for n in (1, 2, 3, 4, 5):
        txs = [Made('Txn', fields('Txn', 1)).obj for _ in range(n)]
        hs = [dsha(t.binary()) for t in txs]
        out.ev('u.merkle', hs=[by(h) for h in hs], r=call(UT.get_merkle_root, tuple(txs)))
    for _ in range(30 * S):
        vals = fields('BlockHeader')
        vals[3] = rnd.choice([0, 1, 2 ** 32 - 1, rnd.getrandbits(32)])
        out.ev('u.header', f=[V(v) for v in vals], r=call(UT.get_block_header, *vals[:6]))
    bits = []
    for e in range(0, 33):
        for m in (0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x123456, 0x008000, rnd.getrandbits(23)):
            if m.bit_length() + 8 * (e - 3) <= 256:
                bits.append(e << 24 | m)
    bits += [0x1d00ffff, 0x1e0ffff0, 0x1b0404cb, 0x207fffff, 0x1f00ffff, 0x20000001]
    for b in bits:
        out.ev('u.target', bits=nat(b), r=call(UT.get_target, b))
    for b in rnd.sample(bits, 60) * S + [0x1d00ffff, 0x207fffff, 0x03000001, 0x01010000]:
        m, e = b & 0x7fffff, b >> 24
        t = m << 8 * (e - 3) if e >= 3 else m >> 8 * (3 - e)
        for w in {max(t - 1, 0), t, min(t + 1, 2 ** 256 - 1), 0, 2 ** 256 - 1, rnd.getrandbits(256), int.from_bytes(t.to_bytes(32, 'big')[::-1], 'big')}:
            pw = w.to_bytes(32, 'little')
            vals = fields('BlockHeader')
            vals[4] = b
            h = F.BlockHeader(*vals)
            seen = []

            class Coin(object):
                def proof_of_work(self, data, _p=pw):
                    seen.append(data)
                    return _p
            r = call(lambda: UT.verify_target(Coin(), h))
            out.ev('u.verify', f=[V(v) for v in vals], pow=by(pw), bits=nat(b), hdr=by(seen[0]) if seen else [], r=r)
    def ratio(x):
        a, b = x.as_integer_ratio()
        return {'k': 'f', 'n': nat(a), 'd': nat(b)} if a >= 0 else R(None)
    for b in bits:
        if b >> 24 >= 3 and b & 0x7fffff:
            out.ev('u.diff', bits=nat(b), r=call(UT.get_difficulty, b, _conv=ratio))
    for c in coins.Coins:
        out.ev('u.genesis', root=by(c.genesis_merkle_root), t=nat(c.genesis_timestamp), bits=nat(c.genesis_bits), nonce=nat(c.genesis_nonce), v=nat(c.genesis_version),
               want=by(c.genesis_block_hash), r=call(UT.get_block_header, c.genesis_version, bytes(32), c.genesis_merkle_root, c.genesis_timestamp, c.genesis_bits, c.genesis_nonce))
    for f in ('sha1', 'sha256', 'sha256d', 'ripemd160', 'hash160'):
        for n in list(range(0, 4)) + [19, 20, 32, 33, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 200] + [rnd.randrange(500) for _ in range(3 * S)]:
            m = rb(n)
            out.ev('u.hash', f=f, m=by(m), r=call(getattr(UT, f), m))
        for n in (4097, 65537, 131073, 1000001, 1048577) + ((4194305, 10000001) if S > 1 else ()):      # a pattern many times over
            m = rb(rnd.randrange(200, 300))
            out.ev('u.hashrep', f=f, m=by(m), n=n, r=call(getattr(UT, f), (m * (n // len(m) + 1))[:n]))
    for n in (0, 1, 2, 3, 31, 32, 80):
        for s in (rb(n), bytes(n), b'\x0a' * n, b'\xf0' * n):
            r = call(UT.bin_to_hex, s)
            back = call(lambda: UT.hex_to_bin(bytes(bytearray(r['v']))))
            if r['k'] == 's':
                back = call(lambda: UT.hex_to_bin(bytes(bytearray(r['v'])).decode('ascii')))
            out.ev('u.tohex', s=by(s), r=r, back=back)
            out.ev('u.tohex', s=by(s), r=r, back=call(lambda: UT.hex_to_bin(s[::-1].hex().upper() if rnd.random() < .5 else s[::-1].hex())))
    for n in [0, 1, 99, 100, 9999, 10000, 999999, 1000000, 70002, 12345678, 99999999, 209900, 2000000000] + [rnd.randrange(2 ** 31) for _ in range(30 * S)]:
        out.ev('u.getv', n=n, r=call(UT.get_version, n), back=call(lambda: UT.make_version(*UT.get_version(n))))
    edge = [0, 1, 50, 98, 99, 100, 101, -1, 255, 1000]
    for i in range(120 * S):
        p = [rnd.choice([0, 1, 2, 9, 100, 2000, rnd.randrange(2100)])] + [rnd.choice(edge[:5] if i % 2 else edge) for _ in range(3)]
        r = call(UT.make_version, *p)
        out.ev('u.makev', parts=p, r=r, back=call(lambda: UT.get_version(UT.make_version(*p))))
    names = [None, '', 'newbitcoin', 'NewBitcoin', 'NEWBITCOIN', 'bitcoin', 'new', 'newbitcoin ', 'nbc', 'newbitcoins', 'n', 'coin']
    syms = [None, '', 'NBC', 'nbc', 'Nbc', 'BTC', 'N', 'NB', 'NBCC', 'BC', ' NBC', 'newbitcoin']
    for a in names:
        for s in syms:
            def f(x):
                return R(True) if x is Newbitcoin else R(False) if x is None else R(x)
            kw = {}
            if a is not None: kw['name'] = a
            if s is not None: kw['symbol'] = s
            out.ev('u.coin', hasname=int(a is not None), name=by((a or '').encode()), hassym=int(s is not None), sym=by((s or '').encode()),
                   r=call(get_coin, _conv=f, **kw))
            if a is None or s is None:
                out.ev('u.coin', hasname=int(a is not None), name=by((a or '').encode()), hassym=int(s is not None), sym=by((s or '').encode()), r=call(get_coin, a, s, _conv=f))


# --- C32 --------------------------------------------------------------------------------
AF = ['version', 'relay_until', 'expiration', 'id', 'cancel', 'set_cancel', 'min_ver', 'max_ver', 'set_sub_ver', 'priority', 'comment', 'status_bar', 'reserved']


def alert_payload():
    i4 = lambda: struct.pack('<i', rnd.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 1000, rnd.randrange(-2 ** 31, 2 ** 31)]))
    i8 = lambda: struct.pack('<q', rnd.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, rnd.randrange(-2 ** 63, 2 ** 63)]))

    def vs():
        s = rb(rnd.choice([0, 0, 1, 3, 20, 252, 253, 300]))
        return vi(len(s), rnd.choice([None, None, None, 3 if len(s) < 65536 else None, 9])) + s
    st = lambda item: (lambda k: vi(k) + b''.join(item() for _ in range(k)))(rnd.choice([0, 0, 1, 2, 3, 5]))
    return [i4(), i8(), i8(), i4(), i4(), st(i4), i4(), i4(), st(vs), i4(), vs(), vs(), vs()]


def ev_alert(p, order):
    def mk():
        return M.Alert(payload=p, signature=b'sig')
    a = mk()
    if rnd.random() < .5:
        a = call0(lambda: M.Message.parse(a.binary(MAGICS[0]), MAGICS[0])) or a
    o = {}
    for k in order:
        o[k] = call(lambda: getattr(a, k))
    first = o[order[0]]
    for k in rnd.sample(order, 3):        # reading again changes nothing
        x = call(lambda: getattr(a, k))
        if x != o[k]:
            o[k] = x
    out.ev('alert', s=by(p), out=o, first=first)


def c32():
    orders = [AF, AF[::-1]] + [rnd.sample(AF, len(AF)) for _ in range(20)]
    for k in AF:                          # each field first
        orders.append([k] + [x for x in rnd.sample(AF, len(AF)) if x != k])
    for order in orders * S:
        ev_alert(b''.join(alert_payload()), order)
    for _ in range(60 * S):
        ps = alert_payload()
        ev_alert(b''.join(ps) + rb(rnd.choice([0, 1, 4])), rnd.choice(orders))
    for _ in range(3 * S):                # cut anywhere
        ps = alert_payload()
        p = b''.join(ps)
        cuts = range(len(p)) if len(p) < 120 else sorted(rnd.sample(range(len(p)), 110))
        for k in cuts:
            ev_alert(p[:k], rnd.choice(orders))
    # signatures
    from nbc.util import ecc
    from nbc.util.ecdsa import SigningKey, SECP256k1
    keys = []
    for d in (1, 2, rnd.getrandbits(250), SECP256k1.order - 1):
        sk = SigningKey.from_secret_exponent(d, SECP256k1)
        pt = sk.privkey.public_key.point
        x, y = pt.x().to_bytes(32, 'big'), pt.y().to_bytes(32, 'big')
        keys.append((sk.to_string(), b'\x04' + x + y, bytes([2 + pt.y() % 2]) + x, b'\x04' + x + (SECP256k1.curve.p() - pt.y()).to_bytes(32, 'big')))
    for i in range(5 * S):
        for (j, (priv, pub, comp, mirror)) in enumerate(keys):
            p = b''.join(alert_payload())
            sig = ecc.sign(p, priv)
            a = M.Alert(payload=p, signature=sig)
            out.ev('alert.verify', r=call(a.verify, pub), good=1)
            out.ev('alert.verify', r=call(a.verify, comp), good=1)
            out.ev('alert.verify', r=call(a.verify, keys[(j + 1) % len(keys)][1]), good=0)
            out.ev('alert.verify', r=call(a.verify, mirror), good=0)
            b = M.Alert(payload=p[:-1] + bytes([p[-1] ^ 1]), signature=sig)
            out.ev('alert.verify', r=call(b.verify, pub), good=0)
            getattr(a, rnd.choice(AF))
            out.ev('alert.verify', r=call(a.verify, pub), good=1)
            b = M.Alert(payload=p, signature=ecc.sign(p, keys[(j + 1) % len(keys)][0]))
            out.ev('alert.verify', r=call(b.verify, pub), good=0)


{'C09': c09, 'C10': c10, 'C11': c11, 'C31': c31, 'C32': c32}[PROP]()
out.end()
