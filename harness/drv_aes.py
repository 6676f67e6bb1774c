"""AES, its modes and the stream feeders: random lives of mode objects and feeders."""
import random
from common import R, by, call, Out, quiet, args

prop, tier, seed, path = args()
out = Out(path)
quiet()
rnd = random.Random('%s %s' % (prop, seed))
q = tier == 'quick'

from nbc.util import pyaes
from nbc.util.pyaes import aes, util as pad_util

MODES = ['ecb', 'cbc', 'cfb', 'ofb', 'ctr']


def bs(n):
    c = rnd.random()
    if c < 0.1:
        return bytes(n)
    if c < 0.2:
        return bytes([255]) * n
    return bytes(rnd.randrange(256) for _ in range(n))


def make(mode, key, iv, seg):
    """A mode object made the way its users make it; iv None means the default."""
    cls = pyaes.AESModesOfOperation[mode]
    if mode == 'ecb':
        return cls(key)
    if mode == 'cfb':
        return cls(key, iv, seg) if rnd.random() < .5 else cls(key, iv, segment_size=seg)
    if mode == 'ctr':
        return cls(key) if iv is None else cls(key, pyaes.Counter(int.from_bytes(iv, 'big')))
    if iv is None:
        return cls(key)
    return cls(key, iv) if rnd.random() < .5 else cls(key, iv=iv)


def some_mode(bad=True):
    mode = rnd.choice(MODES)
    key = bs(rnd.choice([16, 24, 32]))
    iv = bs(16)
    if mode == 'ctr':
        c = rnd.random()
        if c < .2:
            iv = (2 ** 128 - rnd.randrange(1, 4)).to_bytes(16, 'big')
        elif c < .5:
            iv = ((rnd.randrange(2 ** 56) << (8 * rnd.randrange(1, 10))) - rnd.randrange(1, 3)) % 2 ** 128
            iv = iv.to_bytes(16, 'big')
    if rnd.random() < .12:
        iv = None
    if bad and rnd.random() < .06:
        key = bs(rnd.choice([0, 1, 8, 15, 17, 20, 31, 33, 48, 64]))
    if bad and iv is not None and mode != 'ctr' and rnd.random() < .06:
        iv = bs(rnd.choice([0, 0, 1, 8, 15, 17, 32]))
    seg = rnd.choice([1, 1, 2, 3, 4, 5, 7, 8, 11, 15, 16])
    return mode, key, iv, seg


def rec_mode(mode, key, iv, seg):
    if iv is None:
        eff = bytes(15) + b'\x01' if mode == 'ctr' else bytes(16)
    else:
        eff = iv
    return {'mode': mode, 'key': by(key), 'iv': by(eff), 'seg': seg}


def block(key, d):
    # one object for both, in either order: a block cipher has no memory
    o = []
    r0 = call(lambda: o.append(aes.AES(key)))
    for enc in rnd.sample([1, 0, 1, 0], 4):
        if r0['k'] == 'x':
            out.ev('block', key=by(key), d=by(d), enc=enc, r=r0)
            continue
        f = o[0].encrypt if enc else o[0].decrypt
        out.ev('block', key=by(key), d=by(d), enc=enc, r=call(lambda: bytes(bytearray(f(list(bytearray(d)))))))
        d = bs(len(d)) if rnd.random() < .5 else d


def cuts(mode, seg, total):
    """Sizes of the calls of one stream, with some the mode must refuse."""
    r = []
    while total > 0:
        if mode in ('ecb', 'cbc'):
            n = 16
        elif mode == 'cfb':
            n = seg * rnd.randrange(0, 8)
        else:
            n = rnd.choice([0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, rnd.randrange(50)])
        r.append(n)
        total -= max(1, n)
        if rnd.random() < .15:
            r.append(rnd.choice([0, 1, 5, 15, 17, 31, 32, 48]))
    return r


def life():
    mode, key, iv, seg = some_mode()
    enc = rnd.randrange(2)
    o, m = [], rec_mode(mode, key, iv, seg)
    made = call(lambda: o.append(make(mode, key, iv, seg)) or True)
    calls = []
    if o:
        f = o[0].encrypt if enc else o[0].decrypt
        for n in cuts(mode, seg, rnd.choice([0, 16, 40, 80])):
            d = bs(n)
            calls.append({'d': by(d), 'r': call(f, d)})
    out.ev('mode', m=m, made=made, enc=enc, calls=calls)
    return mode, key, iv, seg, enc, calls


def there_and_back():
    """What one object encrypts another decrypts, cut differently."""
    mode, key, iv, seg = some_mode(bad=False)
    a, b = make(mode, key, iv, seg), make(mode, key, iv, seg)
    c1, c2, m = [], [], rec_mode(mode, key, iv, seg)
    n = 16 * seg if mode == 'cfb' else 16 * rnd.randrange(1, 4)
    d = bs(n)
    unit = 16 if mode in ('ecb', 'cbc') else seg if mode == 'cfb' else 1
    for (obj, f, cs, data) in [(a, a.encrypt, c1, d)]:
        i = 0
        while i < len(data):
            k = 16 if unit == 16 and mode != 'cfb' else unit * rnd.randrange(1, 6)
            cs.append({'d': by(data[i:i + k]), 'r': call(f, data[i:i + k])}); i += k
    out.ev('mode', m=m, made=R(True), enc=1, calls=c1)
    enc = b''.join(bytes(c['r'].get('v', [])) for c in c1 if c['r']['k'] == 'b')
    i = 0
    while i < len(enc):
        k = 16 if unit == 16 and mode != 'cfb' else unit * rnd.randrange(1, 6)
        c2.append({'d': by(enc[i:i + k]), 'r': call(b.decrypt, enc[i:i + k])}); i += k
    out.ev('mode', m=m, made=R(True), enc=0, calls=c2)


def large():
    """One call with a lot of data, and streams of many calls."""
    modes = ['ctr', rnd.choice(['ofb', 'cfb'])] if q else ['ctr', 'ofb', 'cfb', 'ctr', 'ctr']
    for mode in modes:
        key, iv, enc = bs(16), bs(16), rnd.randrange(2)
        seg = rnd.choice([8, 16])
        m = rec_mode(mode, key, iv, seg)
        d = bs(65536 + 16 * rnd.randrange(1, 9) if mode == 'ctr' else 16384 + 16 * rnd.randrange(9))
        f = make(mode, key, iv, seg)
        out.ev('mode', m=m, made=R(True), enc=enc, calls=[{'d': by(x), 'r': call(f.encrypt if enc else f.decrypt, x)} for x in (bs(16), d, bs(16))])
    for mode in MODES:
        key, iv, enc = bs(rnd.choice([16, 24, 32])), bs(16), rnd.randrange(2)
        seg = rnd.choice([1, 3, 8, 16])
        f = make(mode, key, iv, seg)
        g = f.encrypt if enc else f.decrypt
        n = 16 if mode in ('ecb', 'cbc') else 16 * seg if mode == 'cfb' else 23
        ds = [bs(n) for _ in range(rnd.randrange(260, 300) if mode in ('ecb', 'cbc') else 6000 // n)]
        out.ev('mode', m=rec_mode(mode, key, iv, seg), made=R(True), enc=enc, calls=[{'d': by(x), 'r': call(g, x)} for x in ds])


def counters():
    for n in [0, 1, 255, 256, 65535, 2 ** 64 - 1, 2 ** 120 - 1, 2 ** 128 - 1, 2 ** 128 - 2, rnd.randrange(2 ** 128), (rnd.randrange(2 ** 40) << 32) - 1]:
        c = pyaes.Counter(n)
        r = call(lambda: bytes(bytearray(c.value)))
        call(c.increment)
        out.ev('counter', n=by(n.to_bytes(16, 'big')), r=r, next=call(lambda: bytes(bytearray(c.value))))


def chunked(d):
    r, i = [], 0
    style = rnd.randrange(4)
    while i < len(d):
        k = [1, 16, 17, 1000][style] if rnd.random() < .5 else rnd.choice([1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 48])
        r.append(d[i:i + k]); i += k
    return r


def feed(mode, key, iv, seg, enc, d, chunks=None):
    m = make(mode, key, iv, seg)
    f = pyaes.Encrypter(m) if enc else pyaes.Decrypter(m)
    chunks = chunked(d) if chunks is None else chunks
    rs = [call(f.feed, c) for c in chunks]
    fin = call(f.feed) if rnd.random() < .5 else call(f.feed, rnd.choice([None, b'']))
    after = [call(f.feed, x) for x in rnd.choice([[b'x'], [None], [b'', bs(20)], [bs(16), None]])]
    out.ev('feed', m=rec_mode(mode, key, iv, seg), enc=enc, chunks=[by(c) for c in chunks], rs=rs, fin=fin, after=after)
    return b''.join(bytes(bytearray(r['v'])) for r in rs + [fin] if r['k'] == 'b')


def feeders(n):
    for _ in range(n):
        mode, key, iv, seg = some_mode(bad=False)
        d = bs(rnd.choice([0, 0, 1, 5, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, rnd.randrange(120)]))
        if rnd.random() < .3 and d:       # data that ends like padding
            k = rnd.randrange(1, 17)
            d = (d + bytes([k]) * k)[-len(d):]
        c = feed(mode, key, iv, seg, 1, d)
        # restored, or damaged
        x = rnd.random()
        if x < .2:
            c = c[:-rnd.randrange(1, 17)]
        elif x < .3:
            c += bs(rnd.choice([1, 8, 15, 16]))
        elif x < .45 and c:
            i = rnd.randrange(max(0, len(c) - 32), len(c))
            c = c[:i] + bytes([c[i] ^ (1 << rnd.randrange(8))]) + c[i + 1:]
        feed(mode, key, iv, seg, 0, c)
        # a stream whose decrypted padding is chosen
        if mode in ('ecb', 'cbc'):
            k = rnd.randrange(0, 20)
            body = bs(16 * rnd.randrange(0, 3))
            last = (bs(16) + bytes([k]) * rnd.randrange(0, 18))[-15:] + bytes([k])
            plain = body + last
            e = make(mode, key, iv, seg)
            feed(mode, key, iv, seg, 0, b''.join(e.encrypt(plain[i:i + 16]) for i in range(0, len(plain), 16)))


def large_feeds():
    for mode in MODES:
        key, iv, seg = bs(rnd.choice([16, 24, 32])), bs(16), rnd.choice([1, 3, 8, 16])
        n = rnd.randrange(4200, 6000)
        d = bs(n if mode not in ('cfb',) or q else 3 * n)
        halves = lambda x: [x] if rnd.random() < .6 else [x[:7], x[7:]]
        c = feed(mode, key, iv, seg, 1, d, halves(d))
        feed(mode, key, iv, seg, 0, c, halves(c))
    d = bs(66000)
    feed('ecb', bs(16), bs(16), 1, 1, d, [d])


def padding():
    for n in (4095, 4096, 4097, 8192, 70000):
        d = bs(n)
        out.ev('pad', d=by(d), r=call(pad_util.append_PKCS7_padding, d))
        for k in (n % 16, 16, 1, rnd.randrange(1, 17)):
            d = bytes(n + (-n % 16) - k) + bytes([k]) * k
            out.ev('unpad', d=by(d), r=call(pad_util.strip_PKCS7_padding, d))
    for n in list(range(0, 50)) + [rnd.randrange(200) for _ in range(20)]:
        d = bs(n)
        out.ev('pad', d=by(d), r=call(pad_util.append_PKCS7_padding, d))
    for n in range(0, 20):
        for k in (n, 0, 1, 16, 17, 255, rnd.randrange(256)):
            d = bs(32) + bytes([k]) * n
            d = d[-rnd.choice([16, 16, 32, 32, 15, 17, 0]):] if rnd.random() < .9 else b''
            out.ev('unpad', d=by(d), r=call(pad_util.strip_PKCS7_padding, d))
    # one wrong byte at each place of the padding
    for k in range(1, 17):
        for j in range(1, k + 1):
            d = bytearray(bs(16) + (bs(16) + bytes([k]) * k)[-16:])
            d[-j] ^= 1 << rnd.randrange(8)
            out.ev('unpad', d=by(d), r=call(pad_util.strip_PKCS7_padding, bytes(d)))


if prop == 'C27':
    for n in (16, 24, 32):
        block(bytes(range(n)), bytes(17 * i for i in range(16)))
        # every value of every byte goes through the tables
        for i in range(0, 256, 16):
            block(bs(n), bytes(range(i, i + 16)))
        for _ in range(30 if q else 400):
            block(bs(n), bs(16))
    for n in (0, 8, 15, 17, 33):
        block(bs(n), bs(16))
    for n in (0, 1, 15, 17, 32):
        block(bs(16), bs(n))
    counters()
    large()
    for _ in range(400 if q else 6000):
        life()
    for _ in range(100 if q else 1500):
        there_and_back()
else:
    padding()
    large_feeds()
    feeders(400 if q else 6000)
out.end()
