"""Base58, key encodings, wallets of both kinds, extended keys, wallet files, piecewise keys."""
import base64, hashlib, hmac, json, os, random, sys
from common import R, by, nat, call, Out, quiet, args, shard, share

prop, tier, seed, path = args()
out_ = Out(path)
quiet()
rnd = random.Random('%s %s %d' % (prop, seed, shard()[0]))
q = tier == 'quick'

import nbc.wallet as W
from nbc.wallet import Address, HDWallet
from nbc.util import base58, key as K, ecc, piecewise as PW
from nbc.util.ecdsa import SECP256k1 as curve, ellipticcurve
from nbc.util.ecdsa import util as eutil
SECP = 2 ** 256 - 2 ** 32 - 977

N, P_, G = curve.order, curve.curve.p(), curve.generator
SPECIAL = [1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, 255, 256, 2 ** 128, 2 ** 248 - 1, 2 ** 255,
           153, 246, 122, 130, 886, 1158, 153, 246, 122, 130, 886, 1158,      # these have coordinates with leading zero bytes
           182, 202760, 358, 42104, 183670, 411, 107023, 16, 53689]      # these hashes with zero bytes in front, fourth or last, or ones in front


def ev(op, **kw):
    kw['p'] = prop
    out_.ev(op, **kw)


def bs(n):
    c = rnd.random()
    if c < .05:
        return bytes(n)
    if c < .1:
        return b'\xff' * n
    return bytes(rnd.randrange(256) for _ in range(n))


def secret():
    return rnd.choice(SPECIAL) if rnd.random() < .45 else rnd.randrange(1, N)


def k32(d):
    return d.to_bytes(32, 'big')


def wif_of(d, comp):
    # written here, not by the code under test
    return b58check(b'\x80' + k32(d) + (b'\x01' if comp else b''))


AL = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(b):
    n, s = int.from_bytes(b, 'big'), b''
    while n:
        n, r = divmod(n, 58)
        s = AL[r:r + 1] + s
    return b'1' * (len(b) - len(b.lstrip(b'\0'))) + s


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def b58check(b):
    return b58(b + dsha(b)[:4])


def point(d):
    return G * d


def full(Pt):
    return b'\x04' + Pt.x().to_bytes(32, 'big') + Pt.y().to_bytes(32, 'big')


def comp(Pt):
    return bytes([2 + (Pt.y() & 1)]) + Pt.x().to_bytes(32, 'big')


def mangle(t):
    """A text that differs from t."""
    old, x, t = bytes(t), rnd.random(), bytearray(t)
    if x < .25 and t:
        i = rnd.randrange(len(t)); c = t[i]
        while c == t[i]:
            c = rnd.choice(AL)
        t[i] = c
    elif x < .4 and len(t) > 1:
        i = rnd.randrange(len(t) - 1)
        t[i], t[i + 1] = t[i + 1], t[i]
    elif x < .5 and t:
        del t[rnd.randrange(len(t))]
    elif x < .6:
        t.insert(rnd.randrange(len(t) + 1), rnd.choice(AL))
    elif x < .7:
        t.insert(0, 49)
    elif x < .75:
        t.append(49)
    elif x < .9 and t:
        t[rnd.randrange(len(t))] = rnd.choice(b'0OIl +/-_\n\x00\xff')
    elif t:
        t = t[:rnd.randrange(len(t))]
    return bytes(t) if bytes(t) != old else mangle(old)     # two equal letters were exchanged


def edged(t):
    """t with something in front or behind that is no part of it."""
    c = rnd.choice([b' ', b'\n', b'\t', b'\r\n', b'\0', b'  ', b'\x0b', b'"'])
    return rnd.choice([c + t, t + c, c + t + c])


def rare_children(w, hard):
    """Indices whose derivation has leading zero bytes in either half (index, by search)."""
    key = (b'\0' + w.prvkey()) if hard else comp(w.point())
    found = {}
    for i in range(100000):
        h = hmac.new(w.chain(), key + (i + (hard << 31)).to_bytes(4, 'big'), 'sha512').digest()
        for (nm, at) in (('l', 0), ('r', 32)):
            for z in (1, 2):
                if not any(h[at:at + z]):
                    found.setdefault((nm, z), i + (hard << 31))
        if not any(h[31:32]):
            found.setdefault(('l', -1), i + (hard << 31))
        if not any(h[63:64]):
            found.setdefault(('r', -1), i + (hard << 31))
    return sorted(found.values())


# --- what wallets show ---------------------------------------------------------------
def obs(w):
    if isinstance(w, Address):
        return {'k': 'a', 'wif': R(w.privKey), 'pub': by(w.pubKey), 'key': by(w.publicKey()), 'comp': int(w.compressed),
                'vcn': int(w.vcn), 'net': int(bool(w.testnet)), 'addr': by(w.address)}
    if isinstance(w, HDWallet):
        return {'k': 'h', 'prv': R(w.prvkey()), 'pub': by(w.pubkey()), 'chain': by(w.chain()), 'vcn': int(w.vcn),
                'net': int(net_of(w)), 'depth': w.depth(), 'pfp': by(w.parentfp()), 'num': nat(w.childnum()),
                'fp': by(w.fingerprint()), 'addr': by(w.address())}
    return {'k': 'w', 'r': repr(type(w))[:80]}


def net_of(w):
    """The network of a hierarchical wallet, from what it exports."""
    return base58.b58decode(w.to_extended_key())[:4] == b'\x04\x35\x87\xcf'


def show(w):
    try:
        return obs(w)
    except Exception as e:
        return {'k': 'w', 'r': 'unreadable %s' % type(e).__name__}


def make(f, *a, **kw):
    """(wallet or None, what it shows)"""
    o = []
    r = call(lambda: o.append(f(*a, **kw)) or True)
    if r['k'] == 't':
        return o[0], show(o[0])
    return None, {'k': 'x' if r['k'] == 'x' else 'w', 'r': str(r)[:80]}


def some_vcn():
    return rnd.choice([0, 1, 9, 255, 256, 4660, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0xabcdef, rnd.randrange(65536)])


def some_address(**kw):
    vcn = kw.pop('vcn', some_vcn()); net = rnd.random() < .5
    d, c = secret(), rnd.random() < .5
    if kw.pop('priv', rnd.random() < .7):
        return Address(privKey=wif_of(d, c), vcn=vcn, testnet=net)
    return Address(pubKey=(comp if c else full)(point(d)), vcn=vcn, testnet=net)


def some_seed():
    x = rnd.random()
    if x < .75:
        return bs(rnd.choice([0, 1, 16, 32, 64, 65, 127, 128, 129, 200, 256, 1025]))
    if x < .9:
        return 'seed %d \xe9' % rnd.randrange(1000)
    t = rnd.choice([' seed', 'seed ', '\tseed\n', '', ' ', '\0', 'seed\0', 'SEED', 'ab' * 16, '0x12', '\xa0x\xa0', '\x80', '\xff' * 3, 'seed\r\n'])
    return t if rnd.random() < .5 else t.encode('latin-1')


def some_hd(priv=None):
    net, vcn = rnd.random() < .5, some_vcn()
    priv = rnd.random() < .7 if priv is None else priv
    x = rnd.random()
    if x < .3:
        w = HDWallet.from_master_seed(some_seed(), vcn=vcn, testnet=net)
        return w if priv else public_half(w)
    d = secret()
    key = d if priv else plain(point(d))
    if x < .5:
        return HDWallet(key, bs(32), vcn=vcn, testnet=net)
    return HDWallet(key, bs(32), vcn=vcn, testnet=net, depth=rnd.choice([1, 2, 127, 128, 254, 255, 1, 2, 3]),
                    parentfp=bs(4), childnum=some_index())


def plain(Pt):
    return ellipticcurve.Point(curve.curve, Pt.x(), Pt.y())


def public_half(w):
    return HDWallet(plain(w.point()), w.chain(), vcn=w.vcn, testnet=net_of(w), depth=w.depth(), parentfp=w.parentfp(), childnum=w.childnum())


def some_index(hard=None):
    x = rnd.random()
    i = rnd.choice([0, 1, 2, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 1]) if x < .6 else rnd.randrange(2 ** 31)
    if hard is None:
        hard = rnd.random() < .4
    return i + 2 ** 31 if hard else i


# --- C12 -----------------------------------------------------------------------------
def c12():
    for n in (list(range(0, 12)) + [20, 21, 25, 33, 37, 38, 41, 78, 82, 100])[shard()[0]::shard()[1]]:
        for z in range(0, 4):
            for _ in range(2 if q else 20):
                d = bytes(min(z, n)) + bs(max(0, n - z))
                ev('b58e', d=by(d), r=call(base58.b58encode, d))
                ev('chke', d=by(d), r=call(base58.encode_check, d))
                for t in (b58(d), b58check(d)):
                    ev('b58d', t=by(t), r=call(base58.b58decode, t))
                    ev('chkd', t=by(t), r=call(base58.decode_check, t))
                    m = mangle(t)
                    ev('b58d', t=by(m), r=call(base58.b58decode, m))
                    ev('chkd', t=by(m), r=call(base58.decode_check, m))
    # the check cut short, and too little for any check
    for d in share(12 if q else 60):
        d = bs(d % 6)
        for k in range(4):
            t = b58(d + dsha(d)[:k])
            ev('b58d', t=by(t), r=call(base58.b58decode, t))
            ev('chkd', t=by(t), r=call(base58.decode_check, t))
    # long texts: nothing bounds a length
    for n in ((255, 256, 257, 513, 1025, 2049, 4097) if q else (255, 256, 257, 511, 512, 513, 1023, 1025, 2049, 4097, 10000))[shard()[0]::shard()[1]]:
        for d in (bs(n), bytes(n), bytes(n // 2) + bs(n - n // 2)):
            ev('b58e', d=by(d), r=call(base58.b58encode, d))
            ev('chke', d=by(d), r=call(base58.encode_check, d))
            for t in (b58(d), b58check(d)):
                ev('b58d', t=by(t), r=call(base58.b58decode, t))
                ev('chkd', t=by(t), r=call(base58.decode_check, t))
    # characters that are none of the alphabet, at either end and within, in text and in bytes
    JUNK = [0, 9, 10, 11, 12, 13, 28, 31, 32, 34, 39, 43, 45, 46, 48, 58, 61, 64, 73, 79, 91, 95, 96, 108, 123, 127, 128, 133, 160, 173, 178, 185, 233, 255,
            0x100, 0x391, 0x661, 0x2002, 0x200b, 0x2028, 0x3000, 0xfeff, 0xff11, 0x1d7cf]
    for i in share(len(JUNK) if q else 8 * len(JUNK)):
        d = bs(rnd.randrange(0, 12)); c = JUNK[i % len(JUNK)]
        t = list(b58check(d))
        for at in (0, rnd.randrange(1, len(t)), len(t)):
            u = t[:at] + [c] * rnd.choice([1, 1, 2]) + t[at:]
            if rnd.random() < .2:
                u = [c] + u
            if c:                                       # the specification counts characters from one
                ev('b58d', t=u, r=call(base58.b58decode, ''.join(map(chr, u)))); ev('chkd', t=u, r=call(base58.decode_check, ''.join(map(chr, u))))
            if c < 256:
                ev('b58d', t=u, r=call(base58.b58decode, bytes(u))); ev('chkd', t=u, r=call(base58.decode_check, bytes(u)))
        ev('b58d', t=t, r=call(base58.b58decode, ''.join(map(chr, t)))); ev('chkd', t=t, r=call(base58.decode_check, ''.join(map(chr, t))))
    for v in share(256):
        ev('b58e', d=[v], r=call(base58.b58encode, bytes([v])))
        ev('b58d', t=[v], r=call(base58.b58decode, bytes([v])))
        ev('b58d', t=[50, v], r=call(base58.b58decode, bytes([50, v])))
    for _ in share(100 if q else 2000):
        t = bytes(rnd.choice(AL) for _ in range(rnd.randrange(0, 60)))
        ev('b58d', t=by(t), r=call(base58.b58decode, t)); ev('chkd', t=by(t), r=call(base58.decode_check, t))
        # payload intact, one bit of payload or checksum flipped
        d = bs(rnd.randrange(0, 40)); c = bytearray(d + dsha(d)[:4])
        c[rnd.randrange(len(c))] ^= 1 << rnd.randrange(8)
        t = b58(bytes(c))
        ev('chkd', t=by(t), r=call(base58.decode_check, t))


def rare_points():
    """Points with a tiny or huge coordinate: at the ends of the field, about the group's order, about byte boundaries."""
    near = lambda: rnd.choice([rnd.randrange(1, 40), P_ - rnd.randrange(1, 40), N + rnd.randrange(-20, 40), 2 ** (8 * rnd.randrange(1, 32)) + rnd.randrange(-20, 20)]) % P_
    while True:
        z = near()
        a = (z ** 3 + 7) % P_
        y = pow(a, (P_ + 1) // 4, P_)
        if y * y % P_ == a:
            yield z, rnd.choice([y, P_ - y])
        z = near()
        a = (z * z - 7) % P_
        x = pow(a, (P_ + 2) // 9, P_)
        if pow(x, 3, P_) == a:
            yield x * pow(CUBE1, rnd.randrange(3), P_) % P_, z


CUBE1 = 0x7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee     # a cube root of 1
f65 = lambda x, y: b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
c33b = lambda x, y: bytes([2 + y % 2]) + x.to_bytes(32, 'big')


# --- C13 -----------------------------------------------------------------------------
def c13():
    rare = rare_points()
    for i in share(40 if q else 500):
        x, y = next(rare)
        for b in (f65(x, y), c33b(x, y), f65(x, y ^ 1), f65(y, x)):
            ev('decompress', d=by(b), r=call(K.decompress_public_key, b))
            ev('compress', d=by(b), r=call(K.compress_public_key, b))
    for i in share(8 if q else 60):
        x = rnd.choice([0, 1, P_ - 1, rnd.randrange(P_), next(rare)[0]])
        for b in (f65(x, 0), f65(0, x), f65(0, 0), f65(x, x), f65(x, P_ - 1)):
            ev('decompress', d=by(b), r=call(K.decompress_public_key, b))
    # every first byte, lengths reached by zeros anywhere in between
    for b in [malformed_pubs(), []][shard()[0] > 0]:
        ev('decompress', d=by(b), r=call(K.decompress_public_key, b))
        ev('compress', d=by(b), r=call(K.compress_public_key, b))
    for c in share(256):
        Pt = point(secret())
        for b in (bytes([c]) + full(Pt)[1:], bytes([c]) + comp(Pt)[1:]):
            ev('decompress', d=by(b), r=call(K.decompress_public_key, b))
            ev('compress', d=by(b), r=call(K.compress_public_key, b))
    for k in share(66):
        Pt = point(secret()); f, c = full(Pt), comp(Pt)
        for b in (c[:1] + bytes(k) + c[1:], c + bytes(k), c[:1] + bytes(k) + f[1:], f + bytes(k), bytes(k) + c, bytes(k) + f, c[:1] + bytes(rnd.randrange(33)) + c[1:] + bytes(k)):
            ev('decompress', d=by(b), r=call(K.decompress_public_key, b))
            ev('compress', d=by(b), r=call(K.compress_public_key, b))
    for i in share(60 if q else 800):
        d = SPECIAL[i] if i < len(SPECIAL) else secret()
        for c in (0, 1):
            ev('wif', d=by(k32(d)), comp=c, r=call(K.privkey_to_wif, k32(d) + (b'\x01' if c else b'')))
            t = wif_of(d, c)
            ev('unwif', t=by(t), r=call(K.privkey_from_wif, t))
            for m in (mangle(t), mangle(t), edged(t)):
                ev('unwif', t=by(m), r=call(K.privkey_from_wif, m))
        # under a version byte of the caller's
        pf = rnd.choice([0, 1, 0x6f, 0x7f, 0x80, 0x81, 0xb0, 0xef, 0xff, rnd.randrange(256)])
        for c in (0, 1):
            d1 = k32(d) + (b'\x01' if c else b'')
            ev('pwif', pf=pf, d=by(k32(d)), comp=c, r=call(K.privkey_to_wif, d1, bytes([pf])))
            t = b58check(bytes([pf]) + d1)
            for g in {pf, 0x80, rnd.randrange(256)}:
                for m in (t, mangle(t)):
                    ev('punwif', pf=g, t=by(m), r=call(K.privkey_from_wif, m, bytes([g])))
        # well checked text of something else
        for b in (b'\x81' + k32(d), b'\x00' + k32(d), b'\xef' + k32(d) + b'\x01', b'\x80' + k32(d)[:31], b'\x80' + k32(d) + b'\x00', b'\x80' + k32(d) + b'\x02',
                  b'\x80' + k32(d) + b'\x81', b'\x80' + k32(d) + b'\x01\x01', b'\x80', b'', b'\x80\x01', b'\x7f' + k32(d) + b'\x01', b'\x80' + k32(d)[:30] + b'\x01'):
            t = b58check(b)
            ev('unwif', t=by(t), r=call(K.privkey_from_wif, t))
        Pt = point(d)
        for b in (full(Pt), full(Pt)[:64], full(Pt) + b'\0', b'\x05' + full(Pt)[1:], comp(Pt), b'', b'\x04', b'\x00' + full(Pt)[1:]):
            ev('compress', d=by(b), r=call(K.compress_public_key, b))
        f, c = full(Pt), comp(Pt)
        neg = b'\x04' + f[1:33] + (P_ - Pt.y()).to_bytes(32, 'big')
        wrong = bytearray(f); wrong[rnd.randrange(1, 65)] ^= 1 << rnd.randrange(8)
        for b in (f, c, bytes([c[0] ^ 1]) + c[1:], neg, bytes(wrong), f[:-1], f + b'\0', c[:-1], c + b'\0', b'\x05' + c[1:], b'\x00' + c[1:], b'\x06' + f[1:], b'\x02' + f[1:],
                  b'\x04' + c[1:], b'', b'\x02', bytes([rnd.choice([2, 3])]) + bs(32), b'\x02' + b'\xff' * 32, b'\x03' + P_.to_bytes(32, 'big'),
                  b'\x02' + (P_ + 1).to_bytes(32, 'big'), b'\x03' + (5).to_bytes(32, 'big'), b'\x02' + bytes(32)):
            ev('decompress', d=by(b), r=call(K.decompress_public_key, b))


# --- C14 -----------------------------------------------------------------------------
def vcn_r(v):
    return R(v)


def c14():
    rare = rare_points()
    for i in share(24 if q else 200):
        x, y = next(rare)
        for pk in (f65(x, y), c33b(x, y)):
            w, o = make(Address, pubKey=pk, vcn=7)
            ev('a.new', kind='pub', d=by(pk), vcn=R(7), net=0, loose=0, o=o)
            for f in ['compress', 'decompress'] if w is not None else []:
                pre = show(w)
                nxt, o = make(getattr(w, f))
                ev('a.convert', pre=pre, comp=int(f == 'compress'), o=o, pre2=show(w))
    for i in share(60 if q else 700):
        d = SPECIAL[i] if i < len(SPECIAL) else secret()
        for c in (0, 1):
            net = rnd.random() < .5
            vcn = None if rnd.random() < .1 else some_vcn()
            src = [('wif', wif_of(d, c)), ('pub', (comp if c else full)(point(d)))]
            for (kind, text) in src:
                kw = dict(vcn=vcn, testnet=rnd.choice([net, int(net)]))
                kw['privKey' if kind == 'wif' else 'pubKey'] = text
                w, o = make(Address, **kw)
                ev('a.new', kind=kind, d=by(text), vcn=R(vcn), net=int(net), loose=0, o=o)
                if w is None:
                    continue
                # again, and back and forth
                w2, o2 = make(Address, **dict(kw, vcn=w.vcn))
                ev('a.new', kind=kind, d=by(text), vcn=R(w.vcn), net=int(net), loose=0, o=o2)
                cur = w
                for f in rnd.choice([['compress', 'decompress', 'compress'], ['decompress', 'compress'], ['compress', 'compress'], ['decompress', 'decompress']]):
                    pre = show(cur)
                    nxt, o = make(getattr(cur, f))
                    ev('a.convert', pre=pre, comp=int(f == 'compress'), o=o, pre2=show(cur))
                    if nxt is None:
                        break
                    cur = nxt
                for g in (cur, w):
                    for f in (str, repr) if rnd.random() < .3 else (str,):
                        s = call(f, g)
                        if f is repr and not s.get('v', [])[:8] == by(b'<Address'):
                            continue
                        ev('show', pre=show(g), s=s.get('v', []))
        if i % 3 == 0:
            vcn, net, c = rnd.choice([None, some_vcn()]), rnd.random() < .5, rnd.random() < .5
            w, o = make(Address.generate, vcn=vcn, testnet=net, compressed=c)
            ev('a.generate', vcn=R(vcn), net=int(net), comp=int(c), o=o)
        if i % 8 == 0:      # keys drawn for one chain number
            vcn, ts = rnd.choice([None, 0, 7, 65535]), []
            call(lambda: ts.extend(by(Address.generate(vcn=vcn).privKey) for _ in range(8)))
            ev('a.drawn', ts=ts)
            ev('a.both', o=make(Address, pubKey=(full if i % 16 else comp)(point(d)), privKey=wif_of(d, rnd.random() < .5), vcn=rnd.choice([None, 1]))[1])
        # what makes no wallet
        f, c = full(point(d)), comp(point(d))
        wrong = bytearray(f); wrong[40] ^= 1
        for (kind, text, loose) in (('wif', mangle(wif_of(d, 1)), 0), ('wif', b58check(b'\xef' + k32(d)), 0), ('wif', b58check(b'\x80' + k32(d) + b'\x02'), 0),
                                    ('pub', f[:64], 0), ('pub', c + b'\0', 0), ('pub', bytes(wrong), 1), ('pub', b'\x02' + b'\xff' * 32, 0), ('pub', b'\x06' + f[1:], 0)):
            if text:
                w, o = make(Address, vcn=1, **{'privKey' if kind == 'wif' else 'pubKey': text})
                ev('a.new', kind=kind, d=by(text), vcn=R(1), net=0, loose=loose, o=o)
        # hierarchical wallets have addresses too
        if i % 2 == 0:
            h = some_hd()
            ev('h.show', pre=show(h))
            ev('show', pre=show(h), s=call(str, h).get('v', []))
        v = some_vcn(); ver = rnd.choice([0, 0x6f, 5, 255]); pk = rnd.choice([f, c])
        ev('pubaddr', pub=by(pk), vcn=nat(v), ver=ver, r=call(K.publickey_to_address, pk, v, bytes([ver])))


# --- C15, C16 ------------------------------------------------------------------------
def some_pass():
    return rnd.choice([b'', b'a', b'pass', b'0123456789abcdef', b'0123456789abcdefMORE', bs(rnd.randrange(1, 24)) or b'x', 'pässword'.encode('utf-8'), b'\0', b'a\0', bs(16),
                       b' ', b'   ', b'\t\n', b' in blanks ', b'0', b'\0' * 16, b' ' * 20, b'PASS', b'None', b'false'])


def as_given(pw):
    """Loading takes text or bytes."""
    if rnd.random() < .5:
        return pw
    return pw.decode('latin-1')


def some_wallet():
    return some_address() if rnd.random() < .5 else some_hd()


FN = 'wallet.json'


def c15():
    for i in share(260 if q else 4000):
        w = some_wallet()
        if i % 7 == 0 and isinstance(w, HDWallet) and w.depth() < 255:
            w = w.child(some_index(None if w.prvkey() else False))
        pw = some_pass()
        pre = show(w)
        call(W.saveTo, FN, w, pw)
        w1, o = make(W.loadFrom, FN, as_given(pw))
        o2, pw2 = {'k': 'w'}, some_pass()
        if w1 is not None:
            call(W.saveTo, FN, w1, pw2)
            w2, o2 = make(W.loadFrom, FN, as_given(pw2))
        ev('roundtrip', pre=pre, o=o, o2=o2, pre2=show(w))
        # a wallet made by converting or deriving is saved like any other
        os.remove(FN) if os.path.exists(FN) and rnd.random() < .5 else None


def field(text):
    try:
        return R(bytes.fromhex(json.loads(text)['prvkey']))
    except Exception as e:
        return {'k': 'x', 'e': str(e)[:60]}


def c16():
    for i in share(70 if q else 1000):
        w = some_address(priv=True) if rnd.random() < .5 else some_hd(True)
        pre = show(w)
        pw = some_pass()
        call(W.saveTo, FN, w, pw)
        text = open(FN, 'rb').read()
        ev('file', pre=pre, pw=by(pw), text=by(text), field=field(text))
        if not pw:
            pw = b'secret'
            call(W.saveTo, FN, w, pw)
            text = open(FN, 'rb').read()
        # passphrases that differ somewhere, or only behind the sixteenth byte
        for pw2 in [pw, (pw.ljust(16, b'\0') + b'x'), (pw[:16].ljust(16, b'\0')), pw + b'x', pw[:-1] or b'y', bytes([pw[0] ^ 1]) + pw[1:], (pw + bytes(16))[:15] + b'\x07', bs(8) or b'z', bs(16)] + \
                   [bs(rnd.randrange(1, 20)) for _ in range(0 if q else 6)]:
            wl, o = make(W.loadFrom, FN, as_given(pw2))
            ev('badload', how='pass', pre=pre, pw=by(pw), pw2=by(pw2), o=o, key=stored(wl))
        # damage: the encrypted field, block by block, keeping or not the block with the length
        cfg = json.loads(text)
        enc = bytes.fromhex(cfg['prvkey'])
        for _ in range(6 if q else 12):
            b = bytearray(enc); x = rnd.random()
            if x < .5:
                b[rnd.randrange(16, len(b))] ^= 1 << rnd.randrange(8)
            elif x < .6:
                b[rnd.randrange(16)] ^= 1 << rnd.randrange(8)
            elif x < .7:
                k = 16 * rnd.randrange(1, len(b) // 16); b[k:k + 16] = bs(16)
            elif x < .8:
                b = b[:rnd.choice([0, 8, 16, 32, len(b) - 16, len(b) - 1])]
            elif x < .9:
                b = b + bytes(bs(16))
            else:
                b = bytes(b[:16]) + bytes(b[32:48]) + bytes(b[16:32]) + bytes(b[48:])
            if bytes(b) == enc:
                continue
            open(FN, 'w').write(json.dumps(dict(cfg, prvkey=bytes(b).hex())))
            wl, o = make(W.loadFrom, FN, as_given(pw))
            ev('badload', how='damage', pre=pre, pw=by(pw), pw2=by(pw), o=o, key=stored(wl))
        # damage anywhere in the file
        for _ in range(6 if q else 12):
            t = bytearray(text); j = rnd.randrange(len(t)); x = rnd.random()
            if x < .4:
                t[j] ^= 1 << rnd.randrange(7)
            elif x < .7 and chr(t[j]) in '0123456789abcdef':
                t[j] = ord(rnd.choice('0123456789abcdef'))
            elif x < .85:
                del t[j]
            else:
                t = t[:j]
            if bytes(t) == text:
                continue
            open(FN, 'wb').write(bytes(t))
            wl, o = make(W.loadFrom, FN, as_given(pw))
            ev('badload', how='damage', pre=pre, pw=by(pw), pw2=by(pw), o=o, key=stored(wl))
    # many wrong passphrases: a header that fits by chance must not yield a key
    for kind in (0, 1):
        w = some_hd(True) if kind else some_address(priv=True)
        pre = show(w)
        call(W.saveTo, FN, w, b'the right one')
        kept = 0
        for i in share(3000 if q else 30000):
            pw2 = b'guess %d' % (i + seed * 1000000)
            r = call(W.loadFrom, FN, pw2, _conv=lambda x: {'k': 'wallet'})
            if r['k'] != 'x' or kept < 20:
                kept += 1
                wl, o = make(W.loadFrom, FN, pw2)
                ev('badload', how='pass', pre=pre, pw=by(b'the right one'), pw2=by(pw2), o=o, key=stored(wl))


# --- C18 -----------------------------------------------------------------------------
def c18():
    for i in share(50 if q else 600):
        s, net, vcn = some_seed(), rnd.random() < .5, rnd.choice([None, some_vcn()])
        w, o = make(HDWallet.from_master_seed, s, vcn=vcn, testnet=net)
        sb = s if isinstance(s, bytes) else s.encode('latin-1')
        ev('h.master', seed=by(sb), vcn=R(vcn), net=int(net), o=o)
    for i in share(60 if q else 700):
        w = some_hd()
        for _ in range(rnd.randrange(1, 5)):
            x = rnd.random()
            i_ = some_index() if x < .9 else rnd.choice([-1, 2 ** 32, 2 ** 32 + 1, -2 ** 31])
            pre = show(w)
            c, o = make(w.child, i_)
            ev('h.child', pre=pre, i=nat(abs(i_)), neg=int(i_ < 0), o=o, pre2=show(w))
            if c is not None and rnd.random() < .7:
                w = c
    for i in share(25 if q else 300):
        w = some_hd(True)
        if w.depth() > 250:
            continue
        path_ = [some_index(False) for _ in range(rnd.randrange(1, 4))]
        def walk(x):
            for k in path_:
                x = x.child(k)
            return x
        p = public_half(w)
        ev('h.path', a=make(walk, w)[1], b=make(walk, w)[1], half=make(walk, p)[1])
    # children whose key modifier or chain code has zero bytes in front or at the end
    for i in share(8 if q else 40):
        w = HDWallet(secret(), bs(32), vcn=some_vcn(), testnet=rnd.random() < .5)
        hard = i % 2
        for k in rare_children(w, hard):
            for g in (w,) if hard else (w, public_half(w)):
                pre = show(g)
                c, o = make(g.child, k)
                ev('h.child', pre=pre, i=nat(k), neg=0, o=o, pre2=show(g))
                if c is not None:
                    pre = show(c)
                    _, o = make(c.child, k & 0x7fffffff)
                    ev('h.child', pre=pre, i=nat(k & 0x7fffffff), neg=0, o=o, pre2=show(c))
    forced()
    # the end of the tree
    for priv in (True, False):
        w = HDWallet(secret() if priv else plain(point(secret())), bs(32), vcn=3, depth=253, parentfp=bs(4), childnum=1)
        for k in range(4):
            pre = show(w)
            c, o = make(w.child, k)
            ev('h.child', pre=pre, i=nat(k), neg=0, o=o, pre2=show(w))
            w = c or w
    for i in share(40 if q else 400):
        d, priv = secret(), rnd.random() < .5
        chain, vcn, net = bs(32), rnd.randrange(65536), rnd.random() < .5
        if rnd.random() < .5:
            w, o = make(HDWallet, d if priv else plain(point(d)), chain, vcn=vcn, testnet=net)
            dep, pfp, num = 0, bytes(4), 0
        else:
            dep, pfp, num = rnd.randrange(1, 256), bs(4), some_index()
            w, o = make(HDWallet, d if priv else plain(point(d)), chain, vcn, net, dep, pfp, num)
        Pt = point(d)
        ev('h.new', d=nat(d) if priv else [], P=by(full(Pt)[1:]), chain=by(chain), vcn=vcn, net=int(net), depth=dep, pfp=by(pfp), num=nat(num), o=o)


class Fixed(object):
    """A keyed hash with a given result."""
    digest_size, block_size, name = 64, 128, 'hmac-sha512'

    def __init__(self, I): self.I = I
    def update(self, b): pass
    def copy(self): return self
    def digest(self): return self.I
    def hexdigest(self): return self.I.hex()


def with_hash(I, f):
    """(result of f while every keyed hash is I, whether one was asked for)"""
    hit = []
    real = hmac.new, hmac.digest, hmac.HMAC
    hmac.new = hmac.HMAC = lambda *a, **kw: hit.append(1) or Fixed(I)
    hmac.digest = lambda *a, **kw: hit.append(1) or I
    try:
        return f(), bool(hit)
    finally:
        hmac.new, hmac.digest, hmac.HMAC = real


def forced():
    """Derivations whose keyed hash is rare."""
    for i in share(24 if q else 200):
        d, priv = secret(), i % 3 != 0
        vcn, net, dep = some_vcn(), rnd.random() < .5, rnd.choice([1, 2, 254])
        w = HDWallet(d if priv else plain(point(d)), bs(32), vcn=vcn, testnet=net, depth=dep, parentfp=bs(4), childnum=some_index())
        k = some_index(None if priv else False)
        for L in [N, N - d, 2 ** 256 - 1, N - 1, 0, N + 1, 1, N - d + 1, d][:3 + i % 7]:
            I = k32(L % 2 ** 256) + rnd.choice([bs(32), bytes(32), b'\xff' * 32])
            pre = show(w)
            (_, o), hit = with_hash(I, lambda: make(w.child, k))
            if hit:
                ev('h.forced', pre=pre, i=nat(k), I=by(I), o=o, pre2=show(w))
    for L in (0, N):
        (_, o), hit = with_hash(k32(L) + bs(32), lambda: make(HDWallet.from_master_seed, b'seed', vcn=1))
        if hit:
            ev('h.zero', o=o)
    d = secret()
    for key in (0, N, N + 1, -1, k32(d), '%064x' % d, comp(point(d)), None, float(5), [d]):
        ev('h.wrong', o=make(HDWallet, key, bs(32), vcn=1)[1])
    for chain in (b'', bs(31), bs(33), bs(64)):
        ev('h.wrong', o=make(HDWallet, d, chain, vcn=1)[1])
    ev('h.wrong', o=make(HDWallet, d, bs(32), vcn=1, depth=256, parentfp=bs(4), childnum=1)[1])


# --- C19 -----------------------------------------------------------------------------
VERS = [b'\x04\x88\xb2\x1e', b'\x04\x88\xad\xe4', b'\x04\x35\x87\xcf', b'\x04\x35\x83\x94']


def c19():
    for i in share(60 if q else 800):
        w = some_hd()
        pre = show(w)
        for prv in (0, 1):
            r = call(w.to_extended_key, bool(prv)) if prv or rnd.random() < .5 else call(w.to_extended_key)
            ev('x.export', pre=pre, prv=prv, r=r, pre2=show(w))
            if r['k'] != 'b':
                continue
            t = bytes(r['v'])
            vcn = rnd.choice([None, some_vcn()])
            w2, o = make(HDWallet.from_extended_key, t, vcn) if vcn is not None else make(HDWallet.from_extended_key, t)
            ev('x.import', t=by(t), vcn=R(vcn), o=o)
            if w2 is not None and w.depth() < 255:
                w3, _ = make(HDWallet.from_extended_key, t, w.vcn)
                k = some_index(None if prv else False)
                a = make(w.child, k)[1]
                if not prv and a.get('prv'):
                    a = dict(a, prv=R(None))
                ev('x.child', a=a, b=make(w3.child, k)[1])
                if w2 is not None:
                    ev('x.export', pre=show(w2), prv=prv, r=call(w2.to_extended_key, bool(prv)), pre2=show(w2))
            raw = base58.b58decode(t)[:78]
            bads = [mangle(t), edged(t), b'1' + t, t + b'1', b58(raw + dsha(raw)[:4] + rnd.choice([b'\0', bs(1), bs(4)])), b58(b'\0' + raw + dsha(raw)[:4]), b58check(raw + raw),
                    b58check(raw[:46] + raw[47:] + b'\0'), b58(raw + dsha(raw)[:3]), b58(raw + dsha(raw)[:4][::-1]), b58(raw + bytes(4)), b58check(raw[:77]), b58check(raw + b'\0'), b58check(b''), b'',
                    b58check(rnd.choice([b'\x04\x88\xb2\x1f', b'\0\0\0\0', b'\x04\x88\xad\xe5', b'\x04\x35\x83\x95', bs(4)]) + raw[4:]),
                    b58check(rnd.choice(VERS) + raw[4:]),
                    b58check(raw[:9] + b'\0' * 4 + raw[13:]), b58check(raw[:5] + b'\0' * 4 + raw[9:]),
                    b58check(raw[:45] + bytes([rnd.choice([0, 1, 2, 3, 4, 5, 255])]) + raw[46:]),
                    b58check(raw[:46] + bs(32)),
                    b58check(raw[:45] + bytes([raw[45] ^ 1]) + raw[46:])]
            for j in (78, 79, 80, 81, rnd.randrange(78)):
                b = bytearray(raw + dsha(raw)[:4]); b[j] ^= 1 << rnd.randrange(8)
                bads.append(b58(bytes(b)))
            for m in bads:
                w2, o = make(HDWallet.from_extended_key, m)
                ev('x.import', t=by(m), vcn=R(None), o=o)


# the private key in the form files keep it
def stored(w):
    if w is None:
        return {'k': 'x'}
    return call(lambda: w.privKey if isinstance(w, Address) else w.prvkey())


# --- C20 -----------------------------------------------------------------------------
def der_len(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 + len(b)]) + b


def der_int(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, 'big')
    return b'\x02' + der_len(len(b)) + b


def der_sig(r, s):
    b = der_int(r) + der_int(s)
    return b'\x30' + der_len(len(b)) + b


def long_data():
    """Data of any length counts to the last byte."""
    for i in share(12 if q else 40):
        n = rnd.choice([1000, 4096, 4097, 20000, 65535, 65537, 140000]); n += rnd.choice([0, 0, rnd.randrange(100)])
        data = random.Random(rnd.random()).randbytes(n)
        w = some_address(priv=True) if i % 2 else some_hd(True)
        pre = show(w)
        r = call(w.sign, data)
        ev('sign', pre=pre, data=by(data), r=r, pre2=show(w))
        if r['k'] != 'b': continue
        sig = bytes(r['v'])
        for dd in (data, data[:-1] + bytes([data[-1] ^ 1]), data[:-1], data + b'\0'):
            ev('verify', who='wallet', pre=pre, data=by(dd), sig=by(sig), r=call(w.verify, dd, sig))


def c20():
    long_data()
    for i in share(45 if q else 500):
        w = some_address() if rnd.random() < .5 else some_hd()
        if i < 3:
            w = [some_address(priv=False), some_hd(False), some_hd(True)][i]
        data = bs(rnd.choice([0, 1, 31, 32, 33, 55, 56, 64, 200]))
        if rnd.random() < .4:
            data = rnd.choice([b'Pay 10', b'pay 10 ', b' pay', b'text\n', b'\0\0', b'a\0', b'\0a', b'ff00', b'\xef\xbb\xbftext', b'{"a": 1}', b'x' * 300, b'line\r\n', b'   '])
        pre = show(w)
        r = call(w.sign, data)
        ev('sign', pre=pre, data=by(data), r=r, pre2=show(w))
        if r['k'] != 'b':
            continue
        sig = bytes(r['v'])
        try:
            rr, ss = eutil.sigdecode_der(sig, N)
        except Exception:
            continue
        isa = isinstance(w, Address)
        Pt = ellipticcurve.Point(curve.curve, int.from_bytes(w.pubKey[1:33], 'big'), int.from_bytes(w.pubKey[33:], 'big')) if isa else plain(w.point())
        # everyone who knows the key
        others = [w]
        for c in (full, comp):
            others.append(Address(pubKey=c(Pt), vcn=some_vcn(), testnet=rnd.random() < .5))
        others.append(HDWallet(Pt, bs(32), vcn=1))
        if isa:
            others += [w.compress(), w.decompress()]
        W.saveTo(FN, w, b'pw')
        others.append(W.loadFrom(FN, b'pw'))
        strangers = [some_address(), some_hd()]
        for v in others + strangers:
            ev('verify', who='wallet', pre=show(v), data=by(data), sig=by(sig), r=call(v.verify, data, sig))
        for c in (full, comp):
            ev('verify', who='key', pub=by(c(Pt)), data=by(data), sig=by(sig), r=call(ecc.verify, data, c(Pt), sig))
        tests = [(data + b'\0', sig), (data[:-1], sig), (bs(len(data)) if data else b'\1', sig), (dsha(data), sig), (hashlib.sha256(data).digest(), sig)]
        # data that is the same to a careless reader
        near = [data + b' ', data + b'\n', data + b'\r\n', b' ' + data, b'\0' + data, data.strip(), data.rstrip(b'\0'), data.lower(), data.upper(), data + data, data[::-1], data[1:], data.hex().encode(),
                data.replace(b'\r\n', b'\n'), data[:32], data[:64], data[:128], data[:-1] + b' ']
        tests += [(x, sig) for x in rnd.sample([x for x in near if x != data], 5 if q else 8)]
        for (r2, s2) in [(rr, (N - ss) % N), (rr ^ 1, ss), (rr, ss ^ 1), (rr + N, ss), (rr, ss + N), (0, ss), (rr, 0), (N - rr, ss), (ss, rr), (rr, N), (N, ss), (1, 1), (rr, ss + 1), (rr, ss ^ (1 << rnd.randrange(250)))]:
            tests.append((data, der_sig(r2, s2)))
        bad = bytearray(sig); bad[rnd.randrange(len(bad))] ^= 1 << rnd.randrange(8)
        tests += [(data, bytes(bad)), (data, sig[:-1]), (data, sig + b'\0'), (data, b''), (data, sig[:rnd.randrange(len(sig))]), (data, b'\x31' + sig[1:]),
                  (data, b'\x30\x00'), (data, b'\x30' + bytes([sig[1] + 1]) + sig[2:]), (data, bs(70))]
        pick = rnd.choice(others)
        for (dd, s) in tests:
            v = pick if rnd.random() < .7 else rnd.choice(others)
            ev('verify', who='wallet', pre=show(v), data=by(dd), sig=by(s), r=call(v.verify, dd, s))
        ev('verify', who='key', pub=by(b'\x02' + b'\xff' * 32), data=by(data), sig=by(sig), r=call(ecc.verify, data, b'\x02' + b'\xff' * 32, sig))


# --- C29 -----------------------------------------------------------------------------
def texts(x):
    return {'k': 'l', 'l': [R(y) for y in x]}


def c29():
    large_sets()
    altered_parts()
    rare = rare_points()
    for i in share(80 if q else 1000):
        ds = [secret() for _ in range(rnd.randrange(1, 6))]
        if i % 9 == 0:
            ds.append((N - sum(ds)) % N or 1)
        ts = [wif_of(d, rnd.random() < .5) for d in ds]
        rnd.shuffle(ts)
        ev('combine', ts=[by(t) for t in ts], r=call(PW.combine_private_keys, ts))
        bad = list(ts); bad[rnd.randrange(len(bad))] = mangle(rnd.choice(bad))
        ev('combine', ts=[by(t) for t in bad], r=call(PW.combine_private_keys, bad))
        d = secret(); n = rnd.choice([1, 2, 2, 3, 5, 8])
        t = wif_of(d, rnd.random() < .5)
        parts = []
        r = call(lambda: parts.extend(PW.split_private_key(t, n) if n != 2 or rnd.random() < .5 else PW.split_private_key(t)) or True)
        ev('split', t=by(t), n=n, r=texts(parts) if r['k'] == 't' else r)
        if parts:
            rnd.shuffle(parts)
            ev('combine', ts=[by(x) for x in parts], r=call(PW.combine_private_keys, parts))
        Pt = point(secret())
        if i % 8 == 1:
            Pt = ellipticcurve.Point(curve.curve, *next(rare))
        vcn, ver = rnd.randrange(65536), rnd.choice([0, 0x6f])
        pk = full(Pt) if rnd.random() < .9 else comp(Pt)
        x = rnd.random()
        if x < .1 and len(pk) == 65:
            pk = full(point(d))      # doubling
        if x < .4:
            vcn, ver = 0, 0
            r = call(PW.get_address, pk, t)
        else:
            r = call(PW.get_address, pk, t, version=bytes([ver]), vcn=vcn)
        ev('addrof', pub=by(pk), t=by(t), vcn=vcn, ver=ver, r=r)
    shapes = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 3), (2, 4), (3, 4), (3, 5), (4, 5), (5, 5), (4, 7)] + ([] if q else [(6, 7), (7, 8), (5, 9), (12, 20), (3, 255)])
    for _ in range(2 if q else 6):
        for (m, n) in shapes[shard()[0]::shard()[1]]:
            d = secret(); t = wif_of(d, rnd.random() < .5)
            groups = []
            r = call(lambda: groups.extend(list(g) for g in PW.partial_split_private_key(t, m, n)) or True)
            ev('psplit', t=by(t), req=m, total=n, groups=[[by(x) for x in g] for g in groups])
            if not groups:
                continue
            td = wif_of(rnd.randrange(1, N), True)
            other = [list(g) for g in PW.partial_split_private_key(td, m, n)]
            for _ in range(4 if q else 10):
                start = rnd.randrange(n)
                if rnd.random() < .5:
                    pick = [(start + k) % n for k in range(m)]
                else:
                    pick = rnd.sample(range(n), rnd.choice([m, m, min(n, m + 1)]))
                run = any(all((s + k) % n in pick for k in range(m)) for s in range(n))
                ps = [x for g in pick for x in groups[g]]
                if rnd.random() < .4:       # some of them twice
                    ps += rnd.sample(ps, rnd.randrange(1, len(ps) + 1))
                rnd.shuffle(ps)
                r = call(PW.partial_combine_private_keys, ps)
                ev('prestore', t=by(t), req=m, total=n, pick=pick, ts=[by(x) for x in ps], r=r,
                   finding='scattered sets' if not run and r['k'] == 'n' else '')
                if m > 1:
                    few = rnd.sample(range(n), rnd.randrange(1, m))
                    ps = [x for g in few for x in groups[g]]
                    if rnd.random() < .5:
                        ps = ps * rnd.randrange(2, m + 1)
                    rnd.shuffle(ps)
                    ev('ptoofew', ts=[by(x) for x in ps], r=call(PW.partial_combine_private_keys, ps))
                # parts of another key between those of enough sets
                pick = [(start + k) % n for k in range(m)]
                ps = [x for g in pick for x in groups[g]]
                rnd.shuffle(ps)
                alien = rnd.sample(rnd.choice(other), 1)
                if rnd.random() < .5:       # a part asking for another number of parts
                    alien = rnd.sample(list(rnd.choice(PW.partial_split_private_key(t, m + 1, n + 1))), 1)
                k = rnd.randrange(1, len(ps) + 1)
                for ign in (0, 1):
                    mix = ps[:k] + alien + ps[k:]
                    ev('pforeign', t=by(t), ignore=ign, ts=[by(x) for x in mix], r=call(PW.partial_combine_private_keys, mix, bool(ign)))
            # what is no part, no set or no drawn code
            ps = [x for g in groups for x in g]
            k = rnd.randrange(len(ps) + 1)
            raw = base58.decode_check(rnd.choice(ps))
            for z in (t, mangle(ps[0]), b58check(b'\x10\x02' + raw[2:]), b58check(b'\x11\x01' + raw[2:]), b58(raw + dsha(raw)[:3] + bytes([dsha(raw)[3] ^ 1]))):
                for ign in (False, True):
                    ev('prefuse', what='part', r=call(PW.partial_combine_private_keys, ps[:k] + [z] + ps[k:], ign))
                ev('prefuse', what='encode', r=call(PW.partial_split_qr_encode, ps[:1] + [z]))
            alien = rnd.choice([list(x)[0] for x in other] + [list(x)[0] for x in PW.partial_split_private_key(t, m + 1, n + 1)])
            g = list(rnd.choice(groups)); g.insert(rnd.randrange(len(g) + 1), alien)
            ev('prefuse', what='encode', r=call(PW.partial_split_qr_encode, g))
            code = call(PW.partial_split_qr_encode, list(rnd.choice(groups)))
            if code['k'] == 's':
                c = bytes(code['v']).decode('ascii'); b = bytearray(base64.b32decode(c + '=' * (-len(c) % 8)))
                b[rnd.randrange(3)] ^= 1 << rnd.randrange(8)
                for z in (base64.b32encode(bytes(b)).decode().strip('='), c[1:], 'A' + c, c[:3] + '1' + c[4:], c[:9] + '!' + c[10:], '', 'A' * 16):
                    ev('prefuse', what='decode', r=call(lambda: list(PW.partial_split_qr_decode(z))))
            ev('prefuse', what='split', r=call(lambda: list(PW.partial_split_private_key(t, n + rnd.choice([1, 2]), n))))
            ev('prefuse', what='split', r=call(lambda: list(PW.partial_split_private_key(mangle(t), m, n))))
            ev('prefuse', what='split', r=call(lambda: list(PW.split_private_key(mangle(t), n))))
            for g in groups:
                g = list(g)
                rnd.shuffle(g)
                enc = call(PW.partial_split_qr_encode, g)
                dec = {'k': 'x'}
                if enc['k'] == 's':
                    dec = call(lambda: list(PW.partial_split_qr_decode(bytes(enc['v']).decode('ascii'))))
                ix = sorted(base58.decode_check(x)[2] for x in g)
                gap = len([k for k in range(ix[-1] + 1) if k not in ix]) > 1
                ev('pqr', ts=[by(x) for x in g], enc=enc, r=dec, finding='several indices missing' if gap and dec['k'] == 'l' and len(dec['l']) == len(g) else '')


def large_sets():
    """Many keys, many parts, many sets, and sets too large for a drawn code."""
    d = secret(); t = wif_of(d, True)
    for i in share(3 if q else 12):
        ts = [wif_of(secret(), rnd.random() < .5) for _ in range(rnd.choice([101, 128, 150, 257]))]
        ev('combine', ts=[by(x) for x in ts], r=call(PW.combine_private_keys, ts))
        n = rnd.choice([65, 66, 100, 129, 256])
        parts = []
        r = call(lambda: parts.extend(PW.split_private_key(t, n)) or True)
        ev('split', t=by(t), n=n, r=texts(parts) if r['k'] == 't' else r)
        ev('combine', ts=[by(x) for x in parts], r=call(PW.combine_private_keys, parts))
    for (m, n) in [(2, 129), (3, 140), (2, 255), (1, 256)][shard()[0]::shard()[1]]:
        groups = []
        r = call(lambda: groups.extend(list(g) for g in PW.partial_split_private_key(t, m, n)) or True)
        ev('psplit', t=by(t), req=m, total=n, groups=[[by(x) for x in g] for g in groups])
        for start in [0, 126, n - 1, rnd.randrange(n)] if groups else []:
            pick = [(start + k) % n for k in range(m)]
            ps = [x for g in pick for x in groups[g]]
            rnd.shuffle(ps)
            ev('prestore', t=by(t), req=m, total=n, pick=pick, ts=[by(x) for x in ps], r=call(PW.partial_combine_private_keys, ps), finding='')
    # many parts are needed: every set completes a key only together with all the others
    for (m, n) in ([(9, 11), (17, 18), (130, 131)] if q else [(9, 11), (10, 10), (17, 18), (33, 40), (130, 131), (200, 201), (255, 256)])[shard()[0]::shard()[1]]:
        groups = []
        call(lambda: groups.extend(list(g) for g in PW.partial_split_private_key(t, m, n)) or True, _limit=120)
        start = rnd.randrange(n)
        pick = [(start + k) % n for k in range(m)]
        ps = [x for g in pick if groups for x in groups[g]]
        rnd.shuffle(ps)
        r = call(PW.partial_combine_private_keys, ps, _limit=120)
        ev('prestore', t=by(t), req=m, total=n, pick=pick, ts=[by(x) for x in ps] if m < 20 else [], r=r, finding='')
    for i in share(3 if q else 10):
        m = rnd.choice([16, 93, 94, 95, 120, 127, 128, 129, 200, 254])
        gone = rnd.choice([m, 0, m - 1, rnd.randrange(m + 1)])
        sm = bytes(rnd.randrange(256) for _ in range(4))
        g = [base58.encode_check(b'\x10\x01' + bytes([x, m]) + sm + secret().to_bytes(32, 'big')) for x in range(m + 1) if x != gone]
        rnd.shuffle(g)
        enc = call(PW.partial_split_qr_encode, g)
        dec = call(lambda: list(PW.partial_split_qr_decode(bytes(enc['v']).decode('ascii')))) if enc['k'] == 's' else {'k': 'x'}
        ev('pqr', ts=[by(x) for x in g], enc=enc, r=dec, finding='')


def altered_parts():
    """All parts of enough sets agree on a check that is not the key's; one part has another key."""
    for i in share(16 if q else 120):
        m = rnd.choice([1, 2, 3]); n = m + rnd.randrange(2)
        d = secret(); t = wif_of(d, True)
        groups = [list(g) for g in PW.partial_split_private_key(t, m, n)]
        at, bit = 4 + i % 4, 1 << rnd.randrange(8)
        ps = []
        for x in [x for g in groups for x in g]:
            b = bytearray(base58.decode_check(x)); b[at] ^= bit
            ps.append(base58.encode_check(bytes(b)))
        rnd.shuffle(ps)
        ev('paltered', ts=[by(x) for x in ps], r=call(PW.partial_combine_private_keys, ps))
        # one set's parts with another secret: what all need
        ps = [x for g in groups for x in g]
        k = base58.decode_check(ps[0])[2]
        out_ = []
        for x in ps:
            b = bytearray(base58.decode_check(x))
            if b[2] == k and not out_:
                b[39 - rnd.randrange(31)] ^= 1 << rnd.randrange(8)
            if b[2] == k:
                out_.append(base58.encode_check(bytes(b)))
        ev('paltered', ts=[by(x) for x in out_], r=call(PW.partial_combine_private_keys, out_))


# --- C33 -----------------------------------------------------------------------------
def malformed_pubs():
    """Byte strings that are near a public key, most of which name no point."""
    P = point(secret())
    x, y = P.x().to_bytes(32, 'big'), P.y().to_bytes(32, 'big')
    out = [bytes([c]) + x + y for c in (0, 1, 2, 3, 5, 6, 7, 8, 132, 255)]
    out += [bytes([c]) + x for c in (0, 1, 4, 5, 6, 7, 130, 255)]
    out += [b'\4' + x, b'\4' + x + y[:-1], b'\4' + x + y + b'\0', b'\2' + x[:-1], b'\3' + x + b'\0', x + y, x, b'\4', b'\2', b'']
    other = point(secret())
    out += [b'\4' + x + other.y().to_bytes(32, 'big'), b'\4' + y + x, b'\4' + bytes(64), b'\2' + bytes(32)]
    out += [b'\4' + x + (SECP - P.y()).to_bytes(32, 'big')]        # this one is a point
    for d in range(6):                                            # x, y at and over the field's size
        out += [b'\2' + (SECP + d).to_bytes(32, 'big'), b'\3' + (d + 1).to_bytes(32, 'big')]
    for d in range(1, 60):                                        # a true point written with an unreduced x
        try:
            q = ecc.decompress_public_key(b'\2' + d.to_bytes(32, 'big'))
        except Exception:
            continue
        out.append(b'\4' + (SECP + d).to_bytes(32, 'big') + q[33:])
        break
    out += [b'\4' + b'\xff' * 64, b'\2' + b'\xff' * 32]
    return out


def c33():
    pubs = malformed_pubs()
    for i in share(len(pubs)):
        w = wif_of(secret(), rnd.random() < .5)
        ev('shared', pub=by(pubs[i]), t=by(w), r=call(ecc.shared_secret, pubs[i], w))
    # keys whose product is the point at infinity, and keys about the order
    for i in share(24):
        d, Pt = [0, N, 0, N, N - 1, N + 1, 1, 2 ** 256 - 1][i % 8], point(secret())
        for pk in (full(Pt), comp(Pt)):
            ev('shared', pub=by(pk), t=by(wif_of(d, i > 12)), r=call(ecc.shared_secret, pk, wif_of(d, i > 12)))
    rare = rare_points()
    for i in share(16 if q else 160):
        x, y = next(rare)
        w = wif_of(secret(), rnd.random() < .5)
        for pk in (f65(x, y), c33b(x, y)):
            ev('shared', pub=by(pk), t=by(w), r=call(ecc.shared_secret, pk, w))
    # the shared point itself is rare
    for i in share(24 if q else 240):
        w = rnd.randrange(1, N)
        if i % 2:
            a = pow(w, -1, N) * rnd.choice([153, 246, 122, 130, 886, 1158, 1, N - 1, 2, N - 153]) % N
            Pt = point(a)
        else:
            Pt = ellipticcurve.Point(curve.curve, *next(rare)) * pow(w, -1, N)
        for pk in (full(Pt), comp(Pt)):
            ev('shared', pub=by(pk), t=by(wif_of(w, i % 3 == 0)), r=call(ecc.shared_secret, pk, wif_of(w, i % 3 == 0)))
    for i in share(50 if q else 700):
        a, b = secret(), secret()
        ca, cb = rnd.random() < .5, rnd.random() < .5
        pa, pb = (comp if ca else full)(point(a)), (comp if cb else full)(point(b))
        wa, wb = wif_of(a, rnd.random() < .5), wif_of(b, rnd.random() < .5)
        x, y = call(ecc.shared_secret, pa, wb), call(ecc.shared_secret, pb, wa)
        ev('shared', pub=by(pa), t=by(wb), r=x)
        ev('shared', pub=by(pb), t=by(wa), r=y)
        ev('sharedpair', a=x, b=y)
        if i % 4 == 0:
            m = mangle(wb)
            ev('shared', pub=by(pa), t=by(m), r=call(ecc.shared_secret, pa, m))
            bad = bytearray(pa); bad[rnd.randrange(len(bad))] ^= 1 << rnd.randrange(8)
            ev('shared', pub=by(bad), t=by(wb), r=call(ecc.shared_secret, bytes(bad), wb))


if __name__ == '__main__':
    {'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C18': c18, 'C19': c19, 'C20': c20, 'C29': c29, 'C33': c33}[prop]()
    out_.end()
