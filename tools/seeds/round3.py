SEEDS = {}


def seed(id, edits, needs, breaks, demo, node=False):
    SEEDS[id] = dict(property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo, node=node)


FMT, MSG, UTIL = 'nbc/protocol/format.py', 'nbc/protocol/messages.py', 'nbc/util/__init__.py'
B58, KEY, ECC, PIECE = 'nbc/util/base58.py', 'nbc/util/key.py', 'nbc/util/ecc.py', 'nbc/util/piecewise.py'
ADDR, HD, WINIT = 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py', 'nbc/wallet/__init__.py'
EU, EK, DER, EC, NT, RFC, EE = ('nbc/util/ecdsa/%s.py' % n for n in ('util', 'keys', 'der', 'ellipticcurve', 'numbertheory', 'rfc6979', 'ecdsa'))
AES, FEED, PAD = 'nbc/util/pyaes/aes.py', 'nbc/util/pyaes/blockfeeder.py', 'nbc/util/pyaes/util.py'
BOOT = 'nbc/util/bootstrap.py'

REF = '''
def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
'''

seed('C09c', [(FMT, "    return struct.pack(self._format,int(obj))", "    return struct.pack(self._format,int(round(obj)))")],
     'a time with a fractional part of one half or more',
     'times are not cut to whole seconds; the largest ones cannot be serialised',
'''
from nbc.protocol import NetworkAddress
a = NetworkAddress(1234.75, 1, '1.2.3.4', 80)
assert a.binary()[:4] == (1234).to_bytes(4, 'little'), a.binary()
assert NetworkAddress(4294967295.5, 1, '1.2.3.4', 80).binary()[:4] == b'\\xff' * 4
''')

seed('C09d', [(FMT, "    elif obj <= 0xffffffff:", "    elif obj < 0xffffffff:")],
     'a variable length integer of exactly 2**32-1',
     'it is not in its shortest form',
'''
from nbc.protocol import BlockHeader
h = BlockHeader(1, b'a' * 32, b'b' * 32, 1, 2, 3, 0xffffffff)
assert h.binary()[80:] == b'\\xfe\\xff\\xff\\xff\\xff', h.binary()[80:]
''')

seed('C10c', [(MSG, "    if data[20:24] != checksum:", "    if not checksum.startswith(data[20:24]):")],
     'a frame without payload that ends within its checksum',
     'a frame cut within the checksum becomes a message',
REF + '''
from nbc.protocol import Message, VersionAck
m = b'abcd'
f = VersionAck().binary(m)
assert Message.parse(f, m).command == 'verack'
for i in range(len(f)):
    assert refused(Message.parse, f[:i], m), i
''')

seed('C10d', [(MSG, "    command = data[4:16].strip(b'\\x00').decode('latin-1')", "    command = data[4:16].split(b'\\x00')[0].decode('latin-1')")],
     'a command with other bytes behind its zero padding',
     'an unregistered command is taken for a registered one',
REF + '''
from nbc.protocol import Message, VersionAck
m = b'abcd'
f = VersionAck().binary(m)
assert Message.parse(f, m).command == 'verack'
assert refused(Message.parse, f[:15] + b'x' + f[16:], m)
''')

seed('C11c', [(FMT, """    for k in kw:
      if k in params:    # can not redefine
        raise TypeError('got multiple values for keyword argument %r' % k)
    keys = set(keys)""", """    keys = set(keys)""")],
     'an argument given by position and by name',
     'one of the two values is dropped silently',
REF + '''
from nbc.protocol import Ping
assert Ping(b'12345678').nonce == b'12345678'
assert refused(Ping, b'12345678', nonce=b'87654321')
''')

seed('C11d', [(FMT, "      if value is not None:\n        return value", "      if value:\n        return value")],
     'a version message with the relay flag zero',
     'the flag given is replaced by true',
'''
from nbc.protocol import Version, NetworkAddress
a = NetworkAddress(0, 1, '1.2.3.4', 80)
v = Version(1, 1, 1, a, a, b'12345678', b'', 0, 0)
assert v.relay == 0 and v.binary(b'abcd')[-1] == 0, v.relay
''')

seed('C12c', [(B58, "    v = v.encode('ascii')", "    v = v.strip().encode('ascii')")],
     'text with surrounding blanks',
     'several texts stand for the same bytes',
REF + '''
from nbc.util import base58
t = base58.encode_check(b'hello').decode('ascii')
assert base58.decode_check(t) == b'hello'
for s in (' ' + t, t + '\\n', '\\t' + t + ' '):
    assert refused(base58.decode_check, s) or base58.decode_check(s) is None
''')

seed('C12d', [(B58, "  return (b'\\0' * (origlen - newlen) + bseq(reversed(ret)))", "  return bseq(reversed(ret)).rjust(origlen - newlen + len(ret) if len(ret) != 0 else origlen, b'\\0')"),
              (B58, "  nPad -= len(v)", "  nPad -= max(len(v),1)")],
     'byte strings of zero bytes only',
     'their number of zero bytes is not kept',
'''
from nbc.util import base58
for n in range(6):
    assert base58.b58encode(b'\\0' * n) == b'1' * n, n
    assert base58.b58decode(base58.b58encode(b'\\0' * n)) == b'\\0' * n, n
''')

seed('C13c', [(KEY, "    if ORD(prefix) != ORD(key[0]):", "    if not (ORD(prefix) & ORD(key[0])):")],
     'an export under a neighbouring prefix',
     'keys under foreign prefixes are imported',
REF + '''
from nbc.util import key
k = bytes(range(1, 33))
assert key.privkey_from_wif(key.privkey_to_wif(k)) == k
for p in range(256):
    if p == 128: continue
    for s in (k, k + b'\\1'):
        assert refused(key.privkey_from_wif, key.privkey_to_wif(s, bytes([p]))), p
''')

seed('C13d', [(KEY, "    return b'\\x04' + public_key[1:] + number_to_string(y, _n)", "    return b'\\x04' + public_key[1:] + y.to_bytes((y.bit_length() + 7) // 8, 'big')")],
     'a public key whose ordinate begins with a zero byte (one of 256)',
     'the decompressed key is too short',
'''
from nbc.util import key
from nbc.util.ecdsa import SECP256k1 as curve
from nbc.util.ecdsa.util import number_to_string
p = curve.generator
for i in range(700):
    k = b'\\4' + number_to_string(p.x(), curve.order) + number_to_string(p.y(), curve.order)
    assert key.decompress_public_key(key.compress_public_key(k)) == k, i
    p = p + curve.generator
''')

seed('C14c', [(KEY, "(b'%04x' % (vcn & 0xFFFF))", "(b'%04X' % (vcn & 0xFFFF))")],
     'a chain number with a digit above nine',
     'addresses of such chain numbers are others',
'''
from nbc.util import key, base58
for v in (0, 9, 10, 0xabcd, 0xffff):
    t = base58.decode_check(key.publickey_to_address(b'k', v))
    assert t[1:5] == b'%04x' % v, t
''')

seed('C14d', [(ADDR, "      return Address(pubKey=util.key.decompress_public_key(self._pubKey),vcn=self._vcn,testnet=self._testnet)",
                     "      return Address(pubKey=util.key.decompress_public_key(self._pubKey),vcn=self._vcn or None,testnet=self._testnet)")],
     'a watch-only wallet of chain number zero that is decompressed',
     'the decompressed wallet has a random chain number',
'''
from nbc.wallet import Address
w = Address.generate(vcn=0)
for i in range(3):
    a = Address(pubKey=w.publicKey(), vcn=0).decompress()
    assert a.vcn == 0, a.vcn
''')

seed('C15c', [(HD, "      'depth': self._depth,", "      'depth': self._depth & 0x7f,")],
     'a wallet at a depth of 128 or more',
     'it loads at another depth',
'''
import os, tempfile, shutil
from nbc.wallet import HDWallet, saveTo, loadFrom
d = tempfile.mkdtemp()
try:
    for n in (0, 5, 127, 128, 255):
        w = HDWallet(7, b'c' * 32, vcn=1, depth=n, parentfp=b'abcd', childnum=3)
        saveTo(os.path.join(d, 'w'), w)
        assert loadFrom(os.path.join(d, 'w')).depth() == n, n
finally:
    shutil.rmtree(d)
''')

seed('C15d', [(ADDR, "    return klass(pubKey=pubKey, privKey=prvKey, vcn=cfg['vcn'], testnet=cfg['testnet'])",
                     "    return klass(pubKey=pubKey, privKey=prvKey, vcn=cfg['vcn'], testnet=cfg['testnet'] and not pubKey)")],
     'a watch-only wallet of the test network',
     'it loads as a wallet of the main network with another address',
'''
import os, tempfile, shutil
from nbc.wallet import Address, saveTo, loadFrom
d = tempfile.mkdtemp()
try:
    g = Address.generate(vcn=3, testnet=True)
    for w in (g, Address(pubKey=g.publicKey(), vcn=3, testnet=True)):
        saveTo(os.path.join(d, 'w'), w)
        assert loadFrom(os.path.join(d, 'w')).address == w.address
finally:
    shutil.rmtree(d)
''')

seed('C16c', [(ADDR, """    raise ValueError('passphrase should be bytes')
  passphrase = passphrase[:16].ljust(16,b'\\x00')""", """    raise ValueError('passphrase should be bytes')
  passphrase = passphrase[:32].ljust(32 if len(passphrase) > 16 else 16,b'\\x00')"""),
              (ADDR, """    passphrase = passphrase.encode('latin-1')
  passphrase = passphrase[:16].ljust(16,b'\\x00')""", """    passphrase = passphrase.encode('latin-1')
  passphrase = passphrase[:32].ljust(32 if len(passphrase) > 16 else 16,b'\\x00')""")],
     'a passphrase of more than 16 bytes',
     'such files are encrypted with AES-256 and cannot be exchanged',
'''
from binascii import unhexlify
from nbc.wallet import Address
from nbc.util.pyaes.aes import AESModeOfOperationCBC as CBC
a = Address.generate(vcn=1)
for p in (b'short', b'0123456789abcdef', b'0123456789abcdefXYZ'):
    c = unhexlify(a.dump_to_cfg(p)['prvkey'])
    k = CBC(p[:16].ljust(16, b'\\0'))
    t = b''.join(k.decrypt(c[i:i + 16]) for i in range(0, len(c), 16))
    assert a.privKey in t, p
''')

seed('C16d', [(HD, "      if passphrase:\n        sPrv = _aesEncrypt(sPrv,passphrase)\n        cfg['encrypted'] = True", "      if passphrase.strip():\n        sPrv = _aesEncrypt(sPrv,passphrase)\n        cfg['encrypted'] = True")],
     'a passphrase of blanks',
     'the private key is stored in clear',
'''
from binascii import hexlify
from nbc.wallet import HDWallet
w = HDWallet.from_master_seed(b'seed', vcn=1)
for p in (b'x', b'   ', b'\\t\\n'):
    c = w.dump_to_cfg(p)
    assert c['encrypted'] and hexlify(w.prvkey()).decode() not in c['prvkey'], p
''')

seed('C18c', [(HD, "    return self.__class__(childKey, childChain, vcn=self.vcn,", "    return self.__class__(childKey, childChain, vcn=self.vcn or None,")],
     'children of a wallet of chain number zero',
     'children have a random chain number',
'''
from nbc.wallet import HDWallet
w = HDWallet.from_master_seed(b'seed', vcn=0)
for i in range(3):
    assert w.child(i).vcn == 0
''')

seed('C18d', [(HD, "    str_i = number_to_string(i,2**32-1)", "    str_i = number_to_string(i & 0x9fffffff,2**32-1)")],
     'an index with bit 29 or 30 set',
     'different indices give the same child',
'''
from nbc.wallet import HDWallet
w = HDWallet.from_master_seed(b'seed', vcn=0)
seen = set()
for i in (0, 1, 1 << 28, 1 << 29, 1 << 30, 3 << 29, 1 << 31, 5 << 29, 2 ** 32 - 1):
    k = w.child(i).prvkey()
    assert k not in seen, i
    seen.add(k)
''')

seed('C19c', [(HD, "    testnet = version in (0x043587CF, 0x04358394)", "    testnet = version == 0x043587CF")],
     'a private extended key of the test network',
     'it is imported into the main network',
'''
from nbc.wallet import HDWallet
w = HDWallet.from_master_seed(b'seed', vcn=0, testnet=True)
for prv in (False, True):
    v = HDWallet.from_extended_key(w.to_extended_key(prv), vcn=0)
    assert v.address() == w.address(), prv
''')

seed('C19d', [(HD, "    assert(len(decoded) == 78+4)", "    assert(len(decoded) >= 78+4)")],
     'an extended key text with bytes behind its checksum',
     'several texts are accepted for a key',
REF + '''
from nbc.wallet import HDWallet
from nbc.util import base58
t = HDWallet.from_master_seed(b'seed', vcn=0).to_extended_key()
HDWallet.from_extended_key(t)
assert refused(HDWallet.from_extended_key, base58.b58encode(base58.b58decode(t) + b'x'))
''')

seed('C20c', [(ECC, "    key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)\n    try:\n        return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)",
                    "    key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)\n    try:\n        return key.verify_digest(signature, sha256d(data.rstrip()), sigdecode = sigdecode_der)"),
              (ECC, "    return key.sign_digest(sha256d(data), sigencode = ecdsa.util.sigencode_der)", "    return key.sign_digest(sha256d(data.rstrip()), sigencode = ecdsa.util.sigencode_der)")],
     'data that ends with white space',
     'a signature is accepted for other data, and is none of the data',
'''
from nbc.wallet import Address
a = Address.generate(vcn=1)
s = a.sign(b'pay 10')
assert a.verify(b'pay 10', s)
assert not a.verify(b'pay 10 ', s)
assert not a.verify(b'pay 10', a.sign(b'pay 10\\n'))
''')

seed('C20d', [(ECC, "    r, rest = remove_integer(rs_strings)\n    s, empty = remove_integer(rest)", "    r, rest = remove_integer(rs_strings)\n    s, empty = remove_integer(rest)\n    r, s = r % order, s % order")],
     'a signature with the group order added to one of its numbers',
     'an altered number is accepted',
'''
from nbc.wallet import Address
from nbc.util.ecdsa import der
from nbc.util.ecdsa import SECP256k1 as curve
a = Address.generate(vcn=1)
s = a.sign(b'x')
body = der.remove_sequence(s)[0]
r, rest = der.remove_integer(body)
q = der.remove_integer(rest)[0]
t = lambda r, q: der.encode_sequence(der.encode_integer(r), der.encode_integer(q))
assert a.verify(b'x', t(r, q))
assert not a.verify(b'x', t(r + curve.order, q))
assert not a.verify(b'x', t(r, q + curve.order))
''')

seed('C21d', [(EC, "    if self.__order: e = e % self.__order\n    if e == 0: return INFINITY", "    if self.__order and e > self.__order: e = e % self.__order\n    if e == 0: return INFINITY")],
     'a negative multiple of a point of known order',
     'negative multiples are refused',
'''
from nbc.util.ecdsa.ellipticcurve import CurveFp, Point, INFINITY
c = CurveFp(23, 1, 1)
g = Point(c, 13, 7, 7)
for k in range(-20, 20):
    s = INFINITY
    for i in range(k % 7): s = s + g
    assert g * k == s, k
''')

seed('C22c', [(EE, "    if xy == ellipticcurve.INFINITY: return False", "    if xy == ellipticcurve.INFINITY: return r == 0")],
     'nothing (both refuse)', 'x', 'raise SystemExit(0)')
del SEEDS['C22c']

seed('C22c', [(EU, """def sigencode_der_canonize(r, s, order):
    if s > order // 2:""", """def sigencode_der_canonize(r, s, order):
    if s >= order // 2:""")],
     'a signature whose second number is exactly half of the order (rounded down)',
     'the low-s form turns the low number into the high one',
'''
from nbc.util.ecdsa import util, der
for n in (23, 29, 101):
    for s in range(1, n):
        e = util.sigencode_der_canonize(1, s, n)
        got = util.sigdecode_der(e, n)[1]
        assert got == min(s, n - s), (n, s, got)
''')

seed('C22d', [(EK, """        if len(digest) > self.curve.baselen:
            raise BadDigestError("this curve (%s) is too short "
                                 "for your digest (%d)" % (self.curve.name,
                                                           8*len(digest)))
        number = string_to_number(digest)
        r, s = sigdecode(signature, self.pubkey.order)""", """        if len(digest) > self.curve.baselen:
            digest = digest[:self.curve.baselen]
        number = string_to_number(digest)
        r, s = sigdecode(signature, self.pubkey.order)""")],
     'verification of a digest longer than the curve allows',
     'verification accepts what signing refuses, for every digest with the same beginning',
'''
from nbc.util.ecdsa import SigningKey, NIST192p
from nbc.util.ecdsa.keys import BadDigestError
k = SigningKey.from_secret_exponent(12345, NIST192p)
s = k.sign_digest(b'a' * 24)
v = k.get_verifying_key()
assert v.verify_digest(s, b'a' * 24)
try:
    v.verify_digest(s, b'a' * 32)
except BadDigestError:
    pass
else:
    raise AssertionError
''')

seed('C23c', [(RFC, "    rolen = (qlen + 7) // 8", "    rolen = qlen // 8")],
     'an order whose bit length is not a multiple of eight and a short hash',
     'the candidate has too few bits',
'''
import hashlib
from nbc.util.ecdsa import ecdsa, rfc6979
from nbc.util.ecdsa.util import number_to_string
class G(object):
    def __init__(self, n): self.n = n
    def order(self): return self.n
# 161 bits and a hash of 160: two rounds are needed
import hmac
n = (1 << 160) + 7
def rfc(x, m):
    bits = lambda d: int.from_bytes(d, 'big') >> max(0, 8 * len(d) - 161)
    ln = 21
    z = bits(m); z = z - n if z >= n else z
    bx = x.to_bytes(ln, 'big') + z.to_bytes(ln, 'big')
    H = lambda k, d: hmac.new(k, d, hashlib.sha1).digest()
    v, k = b'\\1' * 20, b'\\0' * 20
    k = H(k, v + b'\\0' + bx); v = H(k, v)
    k = H(k, v + b'\\1' + bx); v = H(k, v)
    while True:
        t = b''
        while len(t) < ln:
            v = H(k, v); t += v
        c = bits(t)
        if 1 <= c < n: return c
        k = H(k, v + b'\\0'); v = H(k, v)
for i in range(1, 6):
    d = hashlib.sha1(b'%d' % i).digest()
    assert rfc6979.generate_k(G(n), i, hashlib.sha1, d) == rfc(i, d), i
''')

seed('C23d', [(RFC, "    if z2 < 0:\n        z2 = z1", "    if z2 <= 0:\n        z2 = z1")],
     'a digest equal to the order', 'the nonce is not that of RFC 6979',
'''
import hashlib, hmac
from nbc.util.ecdsa import rfc6979
from nbc.util.ecdsa import NIST256p
n = NIST256p.order
assert rfc6979.bits2octets(n.to_bytes(32, 'big'), n) == b'\\0' * 32
assert rfc6979.bits2octets((n - 1).to_bytes(32, 'big'), n) == (n - 1).to_bytes(32, 'big')
''')

seed('C24c', [(NT, "  if p == 2 and a > 2: return 2**(a-2)", "  if p == 2 and a > 1: return 2**(a-2) if a > 2 else 1")],
     'numbers that contain the factor four exactly',
     'the Carmichael function is too small',
'''
from math import gcd
from nbc.util.ecdsa import numbertheory as nt
for n in range(2, 300):
    c = nt.carmichael(n)
    for m in range(1, n):
        if gcd(m, n) == 1: assert pow(m, c, n) == 1 % n, (n, m)
''')

seed('C24d', [(NT, "        if q < d: break         # n < d*d means we're done, n = 1 or prime.", "        if q <= d: break         # n < d*d means we're done, n = 1 or prime.")],
     'the square of a prime above 1229',
     'it is taken for a prime',
'''
from nbc.util.ecdsa import numbertheory as nt
for p in (1231, 1237, 2003):
    assert nt.factorization(p * p) == [(p, 2)], p
    assert nt.factorization(p) == [(p, 1)]
''')

seed('C25c', [(DER, """    if num <= 0x7f:
        return b("\\x02") + encode_length(len(s)) + s""", """    if num < 0x7f:
        return b("\\x02") + encode_length(len(s)) + s""")],
     'an integer that begins with the byte 7f',
     'its encoding has a superfluous zero byte',
'''
from nbc.util.ecdsa import der
for n in (0, 1, 126, 127, 128, 255, 256, 0x7f00, 0x7fff, 0x8000):
    b = der.encode_integer(n)
    w = max(1, n.bit_length() // 8 + 1)
    assert b == b'\\2' + bytes([w]) + n.to_bytes(w, 'big'), n
''')

seed('C25d', [(EK, "        if len(privkey_str) < curve.baselen:\n            privkey_str = b(\"\\x00\")*(curve.baselen-len(privkey_str)) + privkey_str",
                   "        privkey_str = privkey_str.lstrip(b(\"\\x00\"))\n        if len(privkey_str) < curve.baselen - 1:\n            privkey_str = b(\"\\x00\")*(curve.baselen-len(privkey_str)) + privkey_str")],
     'a private key with one leading zero byte exactly',
     'its own DER export is refused',
'''
from nbc.util.ecdsa import SigningKey, SECP256k1, NIST256p
for e in (1, 1 << 200, 1 << 240, (1 << 248) - 1, 1 << 248):
    for c in (SECP256k1, NIST256p):
        k = SigningKey.from_secret_exponent(e, c)
        assert SigningKey.from_der(k.to_der()).to_string() == k.to_string(), e
''')

seed('C26c', [(EU, "        candidate = string_to_number(entropy(bytes)) + 1", "        candidate = (string_to_number(entropy(bytes)) + 1) & ((1 << order.bit_length()) - 1)")],
     'an order whose bit length is not a multiple of eight and large entropy',
     'candidates are masked instead of discarded',
'''
from nbc.util.ecdsa.util import randrange
def source(*vals):
    it = iter(vals)
    return lambda n: next(it).to_bytes(n, 'big')
assert randrange(100, source(0x80, 5)) == 6
assert randrange(1000, source(0x8001, 77)) == 78
''')

seed('C26d', [(EU, "            for byte in sha256((\"prng-%d-%s\" % (counter, seed)).encode()).digest():", "            for byte in sha256((\"prng-%d-%s\" % (counter & 1, seed)).encode()).digest():")],
     'a seeded scalar that needs more than 64 bytes of the generator',
     'the stream repeats; the search need not end',
'''
from nbc.util.ecdsa.util import PRNG
b = PRNG('seed')(32 * 5)
assert len(set(b[i:i + 32] for i in range(0, 160, 32))) == 5
''')

seed('C27c', [(AES, "            xor_segment = self._aes.encrypt(self._shift_register)[:len(cipher_segment)]\n            plaintext_segment",
                    "            xor_segment = self._aes.encrypt(self._shift_register)\n            if len(cipher_segment) > 8: xor_segment = xor_segment[:15] + [xor_segment[15] ^ (len(cipher_segment) >> 5)]\n            plaintext_segment")],
     'nothing', 'x', 'raise SystemExit(0)')
del SEEDS['C27c']

seed('C27c', [(AES, """        if len(plaintext) % self._segment_bytes != 0:
            raise ValueError('plaintext block must be a multiple of segment_size')

        # Break block into segments
        encrypted = [ ]
        for i in xrange(0, len(plaintext), self._segment_bytes):
            plaintext_segment = plaintext[i: i + self._segment_bytes]
            xor_segment""", """        # Break block into segments
        encrypted = [ ]
        for i in xrange(0, len(plaintext), self._segment_bytes):
            plaintext_segment = plaintext[i: i + self._segment_bytes]
            if len(plaintext_segment) != self._segment_bytes:
                raise ValueError('plaintext block must be a multiple of segment_size')
            xor_segment""")],
     'CFB data of a wrong size with at least one whole segment, refused, then further data',
     'the refused call has moved the stream on',
'''
from nbc.util.pyaes.aes import AESModeOfOperationCFB as CFB
k, iv = b'k' * 16, b'i' * 16
a, b = CFB(k, iv, 8), CFB(k, iv, 8)
try:
    a.encrypt(b'x' * 12)
except ValueError:
    pass
else:
    raise AssertionError
assert a.encrypt(b'y' * 8) == b.encrypt(b'y' * 8)
''')

seed('C27d', [(AES, """            self._last_cipherblock = [ 0 ] * 16
        elif len(iv) != 16:
            raise ValueError('initialization vector must be 16 bytes')
        else:
            self._last_cipherblock = _string_to_bytes(iv)

        AESBlockModeOfOperation.__init__(self, key)
""", """            self._last_cipherblock = self._zero
        elif len(iv) != 16:
            raise ValueError('initialization vector must be 16 bytes')
        else:
            self._last_cipherblock = _string_to_bytes(iv)

        AESBlockModeOfOperation.__init__(self, key)

    _zero = [ 0 ] * 16
"""), (AES, "        self._last_cipherblock = cipherblock\n", "        self._last_cipherblock[:] = cipherblock\n")],
     'two CBC streams without initialisation vector, after one of them decrypted',
     'the second stream begins with the last block of the first',
'''
from nbc.util.pyaes.aes import AESModeOfOperationCBC as CBC
k = b'k' * 16
first = CBC(k).encrypt('p' * 16 if str is bytes else b'p' * 16)
c = CBC(k)
c.decrypt(first)
assert CBC(k).encrypt(b'p' * 16) == first
''')

seed('C28c', [(FEED, "    padded = data + (b'\\x00' * (self.segment_bytes - (len(data) % self.segment_bytes)))\n    return self.decrypt(padded)[:len(data)]",
                     "    padded = data + (b'\\x00' * (self.segment_bytes - (len(data) % self.segment_bytes)))\n    return self.decrypt(padded)[:len(data)].rstrip(b'\\x00')")],
     'a CFB stream whose last bytes are zero',
     'the zero bytes at the end are lost',
'''
from nbc.util.pyaes.aes import AESModeOfOperationCFB as CFB
from nbc.util.pyaes.blockfeeder import Encrypter, Decrypter
for t in (b'abc', b'abc\\0\\0', b'\\0' * 40):
    e = Encrypter(CFB(b'k' * 16, b'i' * 16, 8)); c = e.feed(t) + e.feed()
    d = Decrypter(CFB(b'k' * 16, b'i' * 16, 8)); assert d.feed(c) + d.feed() == t, t
''')

seed('C28d', [(PAD, "    if pad < 1 or pad > 16 or data[-pad:] != pad * CHR(pad):", "    if pad < 1 or pad > 16 or data[-min(pad, 8):] != min(pad, 8) * CHR(pad):")],
     'a padding that is wrong beyond its last eight bytes',
     'invalid padding is accepted and data cut off',
REF + '''
from nbc.util.pyaes.util import strip_PKCS7_padding as strip
assert strip(b'\\x10' * 16) == b''
for i in range(16):
    assert refused(strip, b'\\x10' * i + b'x' + b'\\x10' * (15 - i)), i
''')

seed('C29c', [(PIECE, "    combined = sum(secexps) % curve.order", "    combined = sum(set(secexps)) % curve.order")],
     'two equal private keys that are combined',
     'a repeated secret counts once',
'''
from nbc.util import piecewise, key
k = lambda n: key.privkey_to_wif(n.to_bytes(32, 'big'))
assert piecewise.combine_private_keys([k(5), k(7)]) == k(12)
assert piecewise.combine_private_keys([k(5), k(5)]) == k(10)
''')

seed('C29d', [(PIECE, "    binary.sort()\n", "    binary.sort(key = lambda e: e[1])\n")],
     'a set of a partial split whose keys are not in the order of their indices',
     'the keys of the compact form get wrong indices',
'''
from nbc.util import piecewise, key
k = key.privkey_to_wif(bytes(range(32)))
for i in range(10):
    sets = piecewise.partial_split_private_key(k, 3, 4)
    for s in sets[1:2]:
        t = piecewise.partial_split_qr_encode(s)
        got = piecewise.partial_split_qr_decode(t)
        assert set(got) == set(s)
''')

seed('C30c', [(BOOT, "            address = random.choice(self._found)\n            self._found.remove(address)\n            return address",
                     "            address = random.choice(self._found)\n            self._found = [a for a in self._found if a != address]\n            return address")],
     'an address found by two seeds',
     'it is handed out only once',
'''
import socket, time
from nbc.util import bootstrap
socket.getaddrinfo = lambda *a: [(0, 0, 0, '', ('1.2.3.4', 5))]
s = bootstrap.DNSSeeder([('a', 1), ('b', 1)])
t = time.time()
while len(s) < 2 and time.time() - t < 5: time.sleep(0.01)
assert len(s) == 2
s.pop(); assert len(s) == 1
s.pop(); assert len(s) == 0
''')

seed('C30d', [(UTIL, "        wait_time = timeout - (time.time() - t0)", "        wait_time = timeout / len(threads)")],
     'a slow source that answers within the timeout but after its share of it',
     'its answer is not collected',
'''
import time
from nbc import util
class C(object):
    block_height_guess = [('slow', lambda: (time.sleep(1.0), 7)[1]), ('quick', lambda: 8), ('quick2', lambda: 9), ('quick3', lambda: 9), ('quick4', lambda: 9)]
assert util.guess_block_height(C, 3.0).get('slow') == 7
''')

seed('C31c', [(UTIL, "    return pow <= get_target(block_header.bits)", "    return pow.lstrip(b'\\0') <= get_target(block_header.bits).lstrip(b'\\0')")],
     'hash and target of different length',
     'numbers of different size are compared by their first digits',
'''
from nbc import util
from nbc.protocol import BlockHeader
class Coin(object):
    def __init__(self, v): self.v = v
    def proof_of_work(self, h): return self.v.to_bytes(32, 'little')
h = BlockHeader(1, b'a' * 32, b'b' * 32, 1, 0x1d00ffff, 3, 0)
t = 0xffff << 208
for v, ok in ((t, True), (t + 1, False), (0x7f << 8, True), ((1 << 255), False), (1 << 8, True), ((1 << 230) + 1, False), ((1 << 231) + (1 << 230), False)):
    assert util.verify_target(Coin(v), h) == ok, v
''')

seed('C31d', [(UTIL, "     minor = (version // 10000) % 100", "     minor = (version % 1000000) // 10000 % 100 if version < 100000000 else version // 10000 % 10")],
     'a version with a major number of 100 or more',
     'its minor number loses a digit',
'''
from nbc.util import make_version, get_version
for v in ((1, 2, 3, 4), (70, 99, 0, 99), (99, 99, 99, 99), (100, 12, 3, 4), (2147, 48, 36, 47)):
    assert get_version(make_version(*v)) == v, v
''')

seed('C32c', [(MSG, "      (minver, maxver) = struct.unpack('<ii', data[offset:offset + 8])", "      (minver, maxver) = struct.unpack('<iI', data[offset:offset + 8])")],
     'an alert with a negative maximum version',
     'it comes out as a large positive number',
'''
import struct
from nbc.protocol import Alert
def alert(minv, maxv):
    p = struct.pack('<iqqii', 1, 2, 3, 4, 5) + b'\\0' + struct.pack('<ii', minv, maxv) + b'\\0' + struct.pack('<i', 9) + b'\\1a\\1b\\1c'
    return Alert(p, b'')
for a, b in ((1, 2), (-1, 5), (5, -1), (-7, -6)):
    x = alert(a, b)
    assert (x.min_ver, x.max_ver) == (a, b)
''')

seed('C32d', [(MSG, "      (vl, s) = format.parse_var_set(data[offset:], format.FtVarString())\n      self._data['set_sub_ver'] = s", "      (vl, s) = format.parse_var_set(data[offset:], format.FtVarString())\n      self._data['set_sub_ver'] = sorted(set(s))")],
     'affected versions that repeat or are not sorted',
     'the set is not what the payload encodes',
'''
import struct
from nbc.protocol import Alert
p = struct.pack('<iqqii', 1, 2, 3, 4, 5) + b'\\0' + struct.pack('<ii', 1, 2) + b'\\3\\1b\\1a\\1b' + struct.pack('<i', 9) + b'\\1a\\1b\\1c'
assert list(Alert(p, b'').set_sub_ver) == [b'b', b'a', b'b']
''')

seed('C33c', [(ECC, "    privkey = privkey_from_wif(private_key)\n    secexp = string_to_number(privkey)\n\n    shared_point", "    privkey = privkey_from_wif(private_key)\n    secexp = string_to_number(privkey) >> (len(privkey) - 32)\n\n    shared_point")],
     'nothing', 'x', 'raise SystemExit(0)')
del SEEDS['C33c']

seed('C33c', [(ECC, "    shared_key = number_to_string(shared_point.x(), curve.order)", "    shared_key = number_to_string(shared_point.x() % curve.order, curve.order)"),
              (ECC, "    public_point = ellipticcurve.Point(ecdsa.SECP256k1.curve, x, y)\n", "    public_point = ellipticcurve.Point(ecdsa.SECP256k1.curve, x, min(y, ecdsa.SECP256k1.curve.p() - y))\n    if y & 1: public_point = public_point.double()\n")],
     'a public key with an odd ordinate',
     'x', 'raise SystemExit(0)')
del SEEDS['C33c']

seed('C33c', [(ECC, "    y = string_to_number(public_key[33:])\n    public_point", "    y = string_to_number(public_key[33:]) & ~1 | (string_to_number(public_key[1:2]) & 0)\n    y = string_to_number(public_key[33:])\n    public_point"),],
     'nothing', 'x', 'raise SystemExit(0)')
del SEEDS['C33c']

seed('C34c', [(UTIL, "            return int(data)\n        except", "            return int(float(data))\n        except")],
     'a number above 2**53 or a decimal text',
     'the answer is rounded',
'''
import threading, http.server, json
from nbc import util
body = [b'']
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200); self.end_headers(); self.wfile.write(body[0])
    def log_message(self, *a): pass
s = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
f = util.fetch_url_json_path_int('http://127.0.0.1:%d/' % s.server_port, 'a/b')
for n in (0, 5, 2 ** 53 + 1, 10 ** 18 + 1):
    body[0] = json.dumps({'a': {'b': n}}).encode()
    assert f() == n, (n, f())
''')

seed('C17c', [(WINIT, "    cfg = json.loads(f.read())", "    cfg = json.loads(f.read(1024))")],
     'nothing', 'x', 'raise SystemExit(0)')
del SEEDS['C17c']
