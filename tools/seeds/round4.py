SEEDS = {}


def seed(id, edits, needs, breaks, demo, node=False):
    SEEDS[id] = dict(property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo, node=node)


FMT, MSG, UTIL = 'nbc/protocol/format.py', 'nbc/protocol/messages.py', 'nbc/util/__init__.py'
B58, KEY, ECC, PIECE = 'nbc/util/base58.py', 'nbc/util/key.py', 'nbc/util/ecc.py', 'nbc/util/piecewise.py'
ADDR, HD, WINIT = 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py', 'nbc/wallet/__init__.py'
EU, EK, DER, EC, NT, RFC, EE = ('nbc/util/ecdsa/%s.py' % n for n in ('util', 'keys', 'der', 'ellipticcurve', 'numbertheory', 'rfc6979', 'ecdsa'))
AES, FEED, PAD = 'nbc/util/pyaes/aes.py', 'nbc/util/pyaes/blockfeeder.py', 'nbc/util/pyaes/util.py'
BOOT = 'nbc/util/bootstrap.py'


seed('C17c', [(WINIT, "  with open(fileName,'r') as f:\n", "  tmpName = os.path.realpath(fileName) + '.tmp'\n  with open(tmpName if os.path.exists(tmpName) else fileName,'r') as f:  # finish an interrupted save\n")],
     'the end of the process while the text of the wallet is being written',
     'the half written copy is loaded instead of the wallet',
'''
import os, resource, signal, tempfile
from nbc import wallet
A, B = wallet.Address.generate(), wallet.HDWallet.from_master_seed('HDWallet seed')
d = tempfile.mkdtemp()
f = os.path.join(d, 'w')
try:
    wallet.saveTo(f, A)
    pid = os.fork()
    if pid == 0:
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (100, 100))
        try:
            wallet.saveTo(f, B)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    assert wallet.loadFrom(f).address == A.address
    os.listdir(d)
finally:
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)
''')

seed('C21c', [(EC, "    assert self.__curve == other.__curve\n    if self.__x == other.__x:", "    assert self.__curve.p() == other.__curve.p()\n    if self.__x == other.__x:")],
     'points of two curves over the same field that share their abscissa, or whose sum happens to be on the curve',
     'points of different curves are added',
'''
from nbc.util.ecdsa.ellipticcurve import CurveFp, Point
p = 23
pts = {}
for b in range(1, 5):
    c = CurveFp(p, 1, b)
    pts[b] = [Point(c, x, y) for x in range(p) for y in range(p) if c.contains_point(x, y)]
for a in pts:
    for b in pts:
        if a == b: continue
        for P in pts[a]:
            for Q in pts[b]:
                try:
                    P + Q
                except Exception:
                    continue
                raise SystemExit('points of different curves were added: %s %s' % (P, Q))
''')

seed('C25c', [(EK, "        if tag != 0:\n", "        if tag > 1:\n")],
     'a private key file whose curve is tagged as the public key is, 1 instead of 0',
     'a wrong tag is accepted',
'''
from nbc.util.ecdsa import keys, curves, der
k = keys.SigningKey.from_secret_exponent(77, curves.SECP256k1)
def build(tag):
    return der.encode_sequence(der.encode_integer(1), der.encode_octet_string(k.to_string()), der.encode_constructed(tag, curves.SECP256k1.encoded_oid),
                               der.encode_constructed(1, der.encode_bitstring(b'\\0\\4' + k.get_verifying_key().to_string())))
assert keys.SigningKey.from_der(build(0)).to_string() == k.to_string()
for tag in (1, 2, 3):
    try:
        keys.SigningKey.from_der(build(tag))
    except Exception:
        continue
    raise SystemExit('tag %d accepted' % tag)
''')

seed('C33c', [(ECC, "    shared_point = public_point * secexp\n    shared_key = number_to_string(shared_point.x(), curve.order)", "    shared_point = public_point * secexp\n    shared_key = number_to_string(shared_point.x() or 0, curve.order)")],
     'the private key 0 or the order of the group, exported in wallet import format',
     'a private key that is none yields a secret of zeros',
'''
from nbc.util import ecc, key
n = int('FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141', 16)
pub = b'\\x02' + bytes.fromhex('79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
assert len(ecc.shared_secret(pub, key.privkey_to_wif((1).to_bytes(32, 'big')))) == 32
for k in (0, n):
    try:
        s = ecc.shared_secret(pub, key.privkey_to_wif(k.to_bytes(32, 'big') + b'\\1'))
    except Exception:
        continue
    raise SystemExit('a secret of key %x: %r' % (k, s))
''')
