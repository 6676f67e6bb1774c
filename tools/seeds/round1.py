SEEDS = {}


def seed(id, edits, needs, breaks, demo, node=False):
    SEEDS[id] = dict(property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo, node=node)


CONN, BASE = 'nbc/node/connection.py', 'nbc/node/basenode.py'

seed('C01a', [(CONN, '''      self._recv_buffer = self._recv_buffer[length:]  # remove one message
      try:
        message = protocol.Message.parse(payload,self.node.coin.magic)
        self.handle_message(message)
''', '''      try:
        message = protocol.Message.parse(payload,self.node.coin.magic)
        self.handle_message(message)
        self._recv_buffer = self._recv_buffer[length:]  # remove one message
'''), (CONN, '''      except protocol.UnknownMsgError as e:
        self.node.invalid_command(self,payload,e)
      except protocol.MsgFormatError as e:
        self.node.invalid_command(self,payload,e)
      except''', '''      except (protocol.UnknownMsgError,protocol.MsgFormatError) as e:
        self._recv_buffer = self._recv_buffer[length:]
        self.node.invalid_command(self,payload,e)
      except''')],
     'a message whose handling raises (not one that fails to parse as a frame)',
     'a message whose handling fails stays in the buffer and is handled again and again; the loop never ends',
     '''
import signal, nd
from nbc import protocol
signal.alarm(20)
class N(nd.basenode.BaseNode):
    calls = 0
    def command_ping(self, peer, nonce):
        N.calls += 1
        if N.calls > 50: raise SystemExit('handled over and over')
        if nonce == b'A' * 8: raise ValueError('handler fails')
        peer.send_message(protocol.Pong(nonce))
n = nd.node(cls=N)
s = nd.incoming(n, ('5.5.5.5', 1000))
nd.feed(n, s, nd.b(protocol.Ping(b'A' * 8)) + nd.b(protocol.Ping(b'B' * 8)))
nd.flush(n, s)
assert N.calls == 2
assert [m.nonce for m in nd.sent(s) if m.command == 'pong'] == [b'B' * 8]
''', node=True)

seed('C01b', [(CONN, '''      except protocol.MsgFormatError as e:
        self.node.invalid_command(self,payload,e)
''', '''      except protocol.MsgFormatError as e:
        self.node.invalid_command(self,payload + self._recv_buffer,e)
        self._recv_buffer = b''  # resynchronize with the next chunk
''')],
     'a badly formatted frame and the start of a following message in the same read',
     'messages behind a badly formatted one are lost when they arrived in the same chunk',
     '''
import nd
from nbc import protocol
n = nd.node()
bad = bytearray(nd.b(protocol.Ping(b'A' * 8))); bad[-1] ^= 1
for cut in (False, True):
    s = nd.incoming(n, ('5.5.5.5', 1000 + cut))
    good = nd.b(protocol.Ping(b'B' * 8))
    if cut:
        nd.feed(n, s, bytes(bad) + good[:7], good[7:])
    else:
        nd.feed(n, s, bytes(bad), good)
    nd.flush(n, s)
    assert [m.nonce for m in nd.sent(s) if m.command == 'pong'] == [b'B' * 8], cut
''', node=True)

seed('C02a', [(CONN, '''                timestamp = now,
''', '''                timestamp = node._last_heartbeat or now,
''')],
     'a connection made some seconds after the last maintenance of the node',
     'the version message carries the time of the last maintenance',
     '''
import nd
n = nd.node()
n.items()
nd.Clock.now += 7
s = nd.incoming(n, ('5.5.5.5', 1000))
nd.flush(n, s)
assert abs(nd.sent(s)[0].timestamp - nd.Clock.now) < 1.5
''', node=True)

seed('C02b', [(CONN, '''    self._send_buffer = self._send_buffer[sent:]
''', '''    if sent == len(self._send_buffer):
      self._send_buffer = b''
    elif sent > 0:  # keep what the socket did not take
      self._send_buffer = self._send_buffer[-(len(self._send_buffer) - sent) % BLOCK_SIZE:]
''')],
     'more than one block (8192 bytes) of output left after a partial write',
     'large backlogs are resumed at the wrong offset, bytes go out twice or never',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
for i in range(40):
    c.send_message(protocol.Alert(bytes([i]) * 700, b's'))
want = bytes(c._send_buffer)
s.cap = 1000
nd.flush(n, s, 200)
assert s.out == want
''', node=True)

seed('C03a', [(CONN, '''      self._services = message.services
      self._start_height = message.start_height
''', '''      if self._services is None:
        self._services = message.services
      self._start_height = message.start_height
''')],
     'a peer that sends a second version message with other services',
     'the services reported for a peer are those of its first version message',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
nd.feed(n, s, nd.b(nd.version(services=1)), nd.b(nd.version(services=5, height=9)))
c = nd.conn(n, s)
assert (c.services, c.start_height) == (5, 9)
''', node=True)

seed('C03b', [(BASE, '''  def command_pong(self, peer, nonce):
    pass
''', '''  def command_pong(self, peer, nonce):
    if peer.verack is False and peer.version is not None:
      peer.send_message(protocol.Ping(nonce))  # it seems alive, go on
''')],
     'a pong from a peer that sent its version but no verack yet',
     'a pong makes the node send something',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
nd.feed(n, s, nd.b(nd.version()), nd.b(protocol.Pong(b'12345678')))
nd.flush(n, s)
assert [m.command for m in nd.sent(s)] == ['version', 'verack'], [m.command for m in nd.sent(s)]
''', node=True)

seed('C04a', [(BASE, '''      if services is None: continue
''', '''      if not services: continue
''')],
     'an address of a node that offers no services',
     'addresses without services are not served though they are in the book',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
for sv in (0, 1):
    nd.feed(n, s, nd.b(protocol.Address([protocol.NetworkAddress(100 + sv, sv, '7.7.7.%d' % sv, 99)])))
nd.feed(n, s, nd.b(protocol.GetAddress()))
nd.flush(n, s)
a = [m for m in nd.sent(s) if m.command == 'addr'][0].addr_list
assert [(x.timestamp, x.services) for x in a] == [(101, 1), (100, 0)]
''', node=True)

seed('C04b', [(BASE, '''      if len(addresses) >= ADDRESSES_PER_ASK: break
''', '''      if len(addresses) > ADDRESSES_PER_ASK: break
''')],
     'more than 1000 known addresses when a peer asks for them',
     'a reply of 1001 addresses is built, refused by the message type, and the peer gets no answer',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
for i in (0, 1):
    nd.feed(n, s, nd.b(protocol.Address([protocol.NetworkAddress(100 + k, 1, '7.%d.%d.%d' % (i, k // 250, k % 250), 99) for k in range(700)])))
nd.feed(n, s, nd.b(protocol.GetAddress()))
nd.flush(n, s)
a = [m for m in nd.sent(s) if m.command == 'addr']
assert len(a) == 1 and len(a[0].addr_list) == 1000
''', node=True)

seed('C05a', [(BASE, '''      self._banned[peer.ip] = time.time()
''', '''      self._banned.setdefault(peer.ip,time.time())
''')],
     'a second ban of an IP that did not try to connect between the end of the first ban and the misbehaviour of another open connection of it',
     'a renewed ban does not last an hour',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
z = nd.incoming(n, ('5.5.5.5', 1001))
c, d = nd.conn(n, s), nd.conn(n, z)
for i in range(6): n.punish_peer(c)
assert not s.open and z.open
nd.Clock.now += 3000
for i in range(6): n.punish_peer(d)
assert not z.open
nd.Clock.now += 3000
assert not nd.incoming(n, ('5.5.5.5', 1002)).open
nd.Clock.now += 601
assert nd.incoming(n, ('5.5.5.5', 1003)).open
''', node=True)

seed('C05b', [(BASE, '''    for peer in peers:    # give a little back to peers that went bad but seem be OK now
      peer.reduce_banscore()
''', '''    for peer in peers:    # give a little back to peers that went bad but seem be OK now
      peer.reduce_banscore(1 if peer.verack else 0)
''')],
     'a punished peer that did not acknowledge, and a maintenance round between its offences',
     'the penalty of peers that have not acknowledged never falls',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
for i in range(5): n.punish_peer(c)
n.heartbeat(); n.heartbeat()
assert c.banscore == 3, c.banscore
n.punish_peer(c)
assert s.open
''', node=True)

seed('C06a', [(BASE, '''    if address in [n.address for n in self.values()]:
''', '''    if address in [n.address for n in self.peers]:
''')],
     'the own listening address among the known addresses',
     'the node dials itself',
     '''
import nd
n = nd.node(('127.0.0.1', 20303))
assert n.add_peer(('127.0.0.1', 20303)) is False and not nd.Sock.dials, nd.Sock.dials
''', node=True)

seed('C06b', [(CONN, '''    except Exception as e:
      self.handle_close()
      return
    self._send_buffer = self._send_buffer[sent:]
''', '''    except Exception as e:
      return
    self._send_buffer = self._send_buffer[sent:]
''')],
     'a write that fails with an error asyncore does not know as a disconnection, such as no route to host',
     'the failed connection stays in the peer set and its socket stays open',
     '''
import errno, nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
s.fail = errno.EHOSTUNREACH
nd.flush(n, s, 5)
assert not s.open and not n.peers
''', node=True)

seed('C07a', [(CONN, '''      self.node._tx_bytes += sent
      self._last_tx_time = time.time()
''', '''      self.node._tx_bytes += sent
      if sent == len(self._send_buffer):  # all is out
        self._last_tx_time = time.time()
''')],
     'a slow peer: only partial writes for more than half an hour, and then silence of less than that',
     'a connection on which bytes were sent recently is pinged as if idle',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
nd.flush(n, s)
c.send_message(nd.protocol.Alert(b'x' * 4000, b's'))
s.cap = 100
for i in range(8):
    nd.Clock.now += 300
    c.readable(); c.handle_write_event()
assert b'ping' not in c._send_buffer, 'pinged though it sent something five minutes ago'
''', node=True)

seed('C07b', [(CONN, '''    self.node._rx_bytes += len(chunk)
    self._last_rx_time = time.time()
    
    # process as many messages
''', '''    self.node._rx_bytes += len(chunk)
    
    # process as many messages
'''), (CONN, '''      payload = self._recv_buffer[:length]
''', '''      payload = self._recv_buffer[:length]
      self._last_rx_time = time.time()
''')],
     'a peer that trickles one large message over more than three hours',
     'a connection on which bytes are received is closed as dead',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
nd.feed(n, s, nd.b(nd.version()))
m = nd.b(nd.protocol.Alert(b'x' * 300, b's'))
for i in range(20):
    nd.Clock.now += 900
    assert c.readable()
    nd.feed(n, s, m[i * 10:i * 10 + 10])
''', node=True)

seed('C08a', [(BASE, '''      counter = [(counter[a],a) for a in counter]
''', '''      counter = [('%d' % counter[a],a) for a in counter]
''')],
     'ten or more peers that agree, and another group of two to nine',
     'the votes are compared as text, a group of 9 outvotes one of 10',
     '''
import nd
n = nd.node()
for i in range(11):
    s = nd.incoming(n, ('5.5.5.%d' % i, 1000))
    nd.feed(n, s, nd.b(nd.version(ip='8.8.8.8')))
for i in range(2):
    s = nd.incoming(n, ('6.6.6.%d' % i, 1000))
    nd.feed(n, s, nd.b(nd.version(ip='9.9.9.9')))
assert n.external_ip == '8.8.8.8', n.external_ip
''', node=True)

seed('C08b', [(BASE, '''  def connected(self, peer):    # called by a peer once know version
    self._check_external_ip()
''', '''  def connected(self, peer):    # called by a peer once know version
    if not hasattr(self,'_votes'): self._votes = dict()
    self._votes.setdefault(peer.external_ip,[]).append(peer)
    self._check_external_ip()
'''), (BASE, '''    for peer in peers:
      address = peer.external_ip
      if address is None: continue
      if address not in counter: counter[address] = 0
      counter[address] += 1
''', '''    for address, voters in getattr(self,'_votes',dict()).items():
      counter[address] = len([v for v in voters if v in peers])
''')],
     'one peer that sends several version messages',
     'a single dishonest peer that repeats its version message outvotes the others',
     '''
import nd
n = nd.node()
for i in range(3):
    s = nd.incoming(n, ('5.5.5.%d' % i, 1000))
    nd.feed(n, s, nd.b(nd.version(ip='8.8.8.8')))
s = nd.incoming(n, ('6.6.6.6', 1000))
for i in range(6):
    nd.feed(n, s, nd.b(nd.version(ip='9.9.9.9')))
assert n.external_ip == '8.8.8.8', n.external_ip
''', node=True)

FMT, MSG = 'nbc/protocol/format.py', 'nbc/protocol/messages.py'

seed('C09a', [(FMT, '''    if data.startswith(_ZERO_STR10) and data[10:12] == (b'\\xff\\xff'): # ipv4
''', '''    if data.startswith(_ZERO_STR10): # ipv4
''')],
     'an IPv6 address that starts with ten zero bytes, such as ::1',
     'such addresses are decoded as IPv4 addresses',
     '''
from nbc.protocol import NetworkAddress
from nbc.protocol.format import FtNetworkAddress
a = NetworkAddress(5, 1, '::1', 80)
(n, x) = FtNetworkAddress.parse(a.binary())
assert n == 30 and x.binary() == a.binary() and ':' in x.address, x.address
''')

seed('C09b', [(FMT, '''      self._properties['__hash'] = util.sha256d(self.binary()[:80])
''', '''      self._properties['__hash'] = util.sha256d(self.binary()[:-1])
''')],
     'a block header with more than 252 transactions',
     'the identifier of such headers is not the double hash of the first 80 bytes',
     '''
from nbc.protocol import BlockHeader
from nbc.util import sha256d
for n in (0, 1, 252, 253, 70000):
    h = BlockHeader(1, b'a' * 32, b'b' * 32, 5, 6, 7, n)
    assert h.hash == sha256d(h.binary()[:80]), n
''')

seed('C10a', [(FMT, '''  while index < count:
    (itemLen,itemObj)''', '''  while index < count and off < len(data):
    (itemLen,itemObj)''')],
     'a payload that ends exactly behind an item of a list that declares more',
     'lists are silently shortened',
     '''
import hashlib, struct
from nbc import protocol
MAGIC = b'abcd'
def frame(command, payload):
    return (MAGIC + command + b'\\0' * (12 - len(command)) + struct.pack('<I', len(payload)) +
            hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4] + payload)
full = b'\\x02' + (struct.pack('<I', 1) + b'h' * 32) * 2
assert len(protocol.Message.parse(frame(b'inv', full), MAGIC).inventory) == 2
try:
    m = protocol.Message.parse(frame(b'inv', full[:37]), MAGIC)
except Exception as e:
    pass
else:
    raise SystemExit('accepted: %s' % m)
''')

seed('C10b', [(MSG, '''    if data[20:24] != checksum:
''', '''    if payload and data[20:24] != checksum:
''')],
     'a message without payload and with a wrong checksum',
     'messages with a wrong checksum are accepted',
     '''
import struct
from nbc import protocol
for command in (b'verack', b'getaddr', b'mempool'):
    f = b'abcd' + command.ljust(12, b'\\0') + struct.pack('<I', 0) + b'\\1\\2\\3\\4'
    try:
        m = protocol.Message.parse(f, b'abcd')
    except protocol.MsgFormatError:
        continue
    raise SystemExit('accepted %r' % m)
''')

seed('C11a', [(FMT, '''    if minValue <= obj < maxValue:
''', '''    if minValue <= obj <= maxValue:
''')],
     'the value one beyond the largest of the width',
     'accepted values cannot be serialised',
     '''
from nbc.protocol import NetworkAddress, InventoryVector, TxnOut
for f in (lambda: NetworkAddress(0, 0, '1.2.3.4', 65536), lambda: InventoryVector(1 << 32, b'h' * 32), lambda: TxnOut(1 << 63, b'')):
    try:
        x = f()
    except Exception:
        continue
    raise SystemExit('accepted %s' % x)
''')

seed('C11b', [(FMT, '''    if self._min_length and len(obj) < self._min_length:
      return None
    if self._max_length and len(obj) > self._max_length:
''', '''    if self._min_length and len(obj) < self._min_length:
      return None
    if self._max_length and not self._min_length and len(obj) >= self._max_length:
''')],
     'a list of exactly the largest allowed length',
     'a list within its limits is refused',
     '''
from nbc import protocol
a = protocol.NetworkAddress(0, 0, '1.2.3.4', 1)
assert len(protocol.Address([a] * 1000).addr_list) == 1000
try:
    protocol.Address([a] * 1001)
except Exception:
    pass
else:
    raise SystemExit('1001 accepted')
''')

seed('C12a', [('nbc/util/base58.py', '''  if digest[:4] == check:
''', '''  if digest[:len(check)] == check:
''')],
     'a text that decodes to fewer than four bytes which start the checksum of the empty string',
     'short texts are accepted as the empty payload',
     '''
from nbc.util.base58 import b58encode, encode_check, decode_check
from nbc.util import sha256d
for k in range(4):
    t = b58encode(sha256d(b'')[:k])
    assert decode_check(t) is None, t
assert decode_check(encode_check(b'')) == b''
''')

seed('C12b', [('nbc/util/base58.py', '''    decimal = decimal*58 + alphabet.index(ch)
''', '''    decimal = decimal*58 + alphabet.find(ch)
''')],
     'a text with a character outside the base58 alphabet at the right place',
     'texts outside the alphabet alias valid ones: "20" reads like "z"',
     '''
from nbc.util.base58 import b58decode, b58encode, encode_check, decode_check
for k in range(400):
    t = encode_check(b'%d' % k)
    i = t.find(b'z', 1)
    if i < 1 or t[i - 1:i] == b'z': continue
    al = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
    alias = t[:i - 1] + al[al.index(t[i - 1]) + 1:][:1] + b'0' + t[i + 1:]
    try:
        r = decode_check(alias)
    except Exception:
        r = None
    assert r is None, (t, alias, r)
    break
else:
    raise SystemExit('no candidate')
''')

KEY = 'nbc/util/key.py'
seed('C13a', [(KEY, '''        if ORD(key[-1]) != 1:  # not 0x01
''', '''        if not ORD(key[-1]):  # no compression bit
''')],
     'a text of the right length and checksum whose compression marker is neither 0 nor 1',
     'private keys with a wrong compression marker are accepted',
     '''
from nbc.util import base58, key
k = b'\\x11' * 32
assert key.privkey_from_wif(key.privkey_to_wif(k + b'\\1')) == k
for marker in (0, 2, 3, 255):
    t = base58.encode_check(b'\\x80' + k + bytes([marker]))
    try:
        key.privkey_from_wif(t)
    except ValueError:
        continue
    raise SystemExit('accepted marker %d' % marker)
''')

seed('C13b', [(KEY, '''    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
    if not point_is_valid(curve.generator, x, y):
        raise ValueError('invalid public key')
''', '''    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
    if not curve.curve.contains_point(x, y):
        raise ValueError('invalid public key')
''')],
     'a compressed key whose abscissa is not reduced modulo the field size (2^32+977 values of 2^256)',
     'data that is not a valid public key is accepted',
     '''
from nbc.util import key
p = 2**256 - 2**32 - 977
for d in range(1, 40):
    data = b'\\x02' + (p + d).to_bytes(32, 'big')
    try:
        r = key.decompress_public_key(data)
    except Exception:
        continue
    raise SystemExit('accepted p+%d' % d)
''')

ADDR, HD = 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py'
seed('C14a', [(KEY, "(b'%04x' % (vcn & 0xFFFF))", "(b'%04x' % (vcn & 0xFFFF or 1))")],
     'chain number 0',
     'chain numbers 0 and 1 share addresses',
     '''
from nbc.wallet import Address
from nbc.util import key
w = key.privkey_to_wif(b'\\x11' * 32)
assert Address(privKey=w, vcn=0).address != Address(privKey=w, vcn=1).address
''')

seed('C14b', [(ADDR, '''      return Address(pubKey=util.key.compress_public_key(self._pubKey),vcn=self._vcn,testnet=self._testnet)
''', '''      return Address(pubKey=util.key.compress_public_key(self._pubKey),vcn=self._vcn)
''')],
     'compressing a watch-only wallet of the test network',
     'the compressed wallet belongs to the other network',
     '''
from nbc.wallet import Address
from nbc.util import key
a = Address(privKey=key.privkey_to_wif(b'\\x11' * 32), vcn=5, testnet=True)
w = Address(pubKey=a.pubKey, vcn=5, testnet=True)
assert w.address == a.address
assert w.compress().testnet is True and w.compress().address == a.compress().address
''')

seed('C15a', [(ADDR, '''    return klass(pubKey=pubKey, privKey=prvKey, vcn=cfg['vcn'], testnet=cfg['testnet'])
''', '''    return klass(pubKey=pubKey, privKey=prvKey, vcn=cfg.get('vcn') or None, testnet=cfg['testnet'])
''')],
     'a wallet with chain number 0',
     'it loads with a random chain number and another address',
     '''
import os, tempfile
from nbc import wallet
from nbc.util import key
d = tempfile.mkdtemp()
f = os.path.join(d, 'w')
try:
    for vcn in (1, 0, 65535):
        a = wallet.Address(privKey=key.privkey_to_wif(b'\\x11' * 32), vcn=vcn)
        wallet.saveTo(f, a)
        assert wallet.loadFrom(f).address == a.address, vcn
finally:
    if os.path.exists(f): os.remove(f)
    os.rmdir(d)
''')

seed('C15b', [(HD, '''      testnet=cfg['testnet'], depth=cfg['depth'],
''', '''      testnet=cfg['testnet'], depth=cfg['depth'] % 0xff,
''')],
     'a hierarchical wallet at the largest depth, 255',
     'it loads as a master wallet',
     '''
from nbc.wallet import HDWallet
w = HDWallet(7, b'c' * 32, vcn=1, depth=255, parentfp=b'abcd', childnum=3)
v = HDWallet.load_from_cfg(w.dump_to_cfg())
assert (v.depth(), v.parentfp(), v.childnum()) == (255, b'abcd', 3)
''')

seed('C16a', [(ADDR, '''  passphrase = passphrase[:16].ljust(16,b'\\x00')
  aes = AES(passphrase)
  
  m,n = divmod(len(sText),16)
''', '''  passphrase = passphrase[:16].rjust(16,b'\\x00')
  aes = AES(passphrase)
  
  m,n = divmod(len(sText),16)
'''), (ADDR, '''  passphrase = passphrase[:16].ljust(16,b'\\x00')
  aes = AES(passphrase)
  
  sDecoded''', '''  passphrase = passphrase[:16].rjust(16,b'\\x00')
  aes = AES(passphrase)
  
  sDecoded''')],
     'a passphrase shorter than 16 bytes, and a look at the file with another implementation',
     'the key is not the zero padded passphrase; files of the two programs cannot be exchanged',
     '''
from nbc.wallet import Address
from nbc.util import key
from nbc.util.pyaes.aes import AESModeOfOperationCBC
w = key.privkey_to_wif(b'\\x11' * 32)
cfg = Address(privKey=w, vcn=3).dump_to_cfg(b'secret')
data = bytes.fromhex(cfg['prvkey'])
c = AESModeOfOperationCBC(b'secret' + b'\\0' * 10)
plain = b''.join(c.decrypt(data[i:i + 16]) for i in range(0, len(data), 16))
assert w in plain
''')

seed('C16b', [(HD, '''      if passphrase:
        sPrv = _aesEncrypt(sPrv,passphrase)
''', '''      if passphrase and sPrv[2:3] != b'\\x00':
        sPrv = _aesEncrypt(sPrv,passphrase)
''')],
     'a private key that starts with a zero byte (one of 256)',
     'such keys are written in clear although a passphrase was given',
     '''
from nbc.wallet import HDWallet
for k in (2**250 + 12345, 2**240 + 12345):
    cfg = HDWallet(k, b'c' * 32, vcn=1).dump_to_cfg(b'secret')
    assert '%064x' % k not in cfg['prvkey'] and cfg['encrypted'], k
''')

WI = 'nbc/wallet/__init__.py'
seed('C17a', [(WI, '''  sCfg = json.dumps(cfg)
''', '''  sCfg = json.dumps(cfg,sort_keys=True)
  if os.path.exists(fileName) and os.path.getsize(fileName) == len(sCfg):
    return  # nothing changed
''')],
     'saving another wallet whose file happens to have the same size',
     'saving returns normally and the file still holds the old wallet',
     '''
import os, tempfile
from nbc import wallet
from nbc.util import key
d = tempfile.mkdtemp()
f = os.path.join(d, 'w')
try:
    for k in (b'\\x11', b'\\x22'):
        a = wallet.Address(privKey=key.privkey_to_wif(k * 32), vcn=7)
        wallet.saveTo(f, a)
        assert wallet.loadFrom(f).address == a.address
finally:
    if os.path.exists(f): os.remove(f)
    os.rmdir(d)
''')

seed('C17b', [(WI, '''  sCfg = json.dumps(cfg)
''', '''  sCfg = json.dumps(cfg,indent=1)
  if os.path.exists(fileName):  # keep the last one
    os.rename(fileName,fileName + '.bak')
''')],
     'a disk that is full, or the end of the process, between the two renames',
     'a failed save leaves no wallet file at its name',
     '''
import os, tempfile
from nbc import wallet
from nbc.util import key
d = tempfile.mkdtemp()
f = os.path.join(d, 'w')
real = os.fsync
try:
    a = wallet.Address(privKey=key.privkey_to_wif(b'\\x11' * 32), vcn=7)
    wallet.saveTo(f, a)
    def full(fd): raise OSError(28, 'No space left on device')
    os.fsync = full
    b = wallet.Address(privKey=key.privkey_to_wif(b'\\x22' * 32), vcn=7)
    try:
        wallet.saveTo(f, b)
    except OSError:
        pass
    os.fsync = real
    assert wallet.loadFrom(f).address in (a.address, b.address)
finally:
    for x in os.listdir(d): os.remove(os.path.join(d, x))
    os.rmdir(d)
''')

seed('C18a', [(HD, '''      str_k = number_to_string(self._prvkey,curve.order)
      deriv''', '''      str_k = ('%x' % self._prvkey)
      str_k = unhexlify(str_k.rjust(len(str_k) + len(str_k) % 2,'0'))
      deriv''')],
     'a hardened child of a private key that starts with a zero byte',
     'the child is not the one of BIP-32',
     '''
import hmac, hashlib
from nbc.wallet import HDWallet
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
for k in (2**250 + 5, 2**245 + 5, 77):
    w = HDWallet(k, b'c' * 32, vcn=1)
    i = 0x80000001
    d = hmac.new(b'c' * 32, b'\\0' + k.to_bytes(32, 'big') + i.to_bytes(4, 'big'), hashlib.sha512).digest()
    assert w.child(i).prvkey() == ((int.from_bytes(d[:32], 'big') + k) % n).to_bytes(32, 'big'), k
''')

seed('C18b', [(HD, '''    if (priv_deriv and not self._prvkey):
''', '''    if (priv_deriv and not self._prvkey and not self._parentfp):
'''), (HD, '''    if priv_deriv:
      str_k''', '''    if priv_deriv and self._prvkey:
      str_k''')],
     'a hardened child of a public-only wallet that is not of depth 0... or one without parent fingerprint',
     'hardened children are derived from public parents',
     '''
from nbc.wallet import HDWallet
w = HDWallet.from_master_seed(b'seed', vcn=1).child(3)
p = HDWallet.from_extended_key(w.to_extended_key(), vcn=1)
assert p.child(5).address() == w.child(5).address()
try:
    p.child(0x80000005)
except Exception:
    pass
else:
    raise SystemExit('hardened child of a public parent')
''')

seed('C19a', [(HD, '''      assert(ORD(data[0]) == 0)
''', '''      assert(ORD(data[0]) not in (2,3))
''')],
     'a private extended key text whose key prefix is neither 0 nor that of a public key',
     'it is imported',
     '''
import hashlib
from nbc.wallet import HDWallet
from nbc.util import base58
t = base58.b58decode(HDWallet.from_master_seed(b'seed', vcn=1).to_extended_key(True))[:78]
for c in (1, 2, 4, 255):
    x = t[:45] + bytes([c]) + t[46:]
    x = base58.encode_check(x)
    try:
        HDWallet.from_extended_key(x, vcn=1)
    except Exception:
        continue
    raise SystemExit('prefix %d accepted' % c)
''')

seed('C19b', [(HD, '''    childnum = number_to_string(self._childnum,2**32-1)
    chaincode''', '''    childnum = number_to_string(self._childnum & 0x7fffffff,2**32-1)
    chaincode''')],
     'the export of a hardened child',
     'its child number loses the hardened bit',
     '''
from nbc.wallet import HDWallet
w = HDWallet.from_master_seed(b'seed', vcn=1)
for i in (5, 0x80000005):
    c = w.child(i)
    assert HDWallet.from_extended_key(c.to_extended_key(True), vcn=1).childnum() == i
''')

ECC = 'nbc/util/ecc.py'
seed('C20a', [(ECC, '''    return r, s

''', '''    return r, s % order

''')],
     'a signature whose second number is altered by a multiple of the group order',
     'altered signatures are accepted',
     '''
from nbc.wallet import Address
from nbc.util import key
from nbc.util.ecdsa import der
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
a = Address(privKey=key.privkey_to_wif(b'\\x11' * 32), vcn=1)
sig = a.sign(b'data')
body, rest = der.remove_sequence(sig)
r, body = der.remove_integer(body)
s, body = der.remove_integer(body)
assert a.verify(b'data', sig)
assert not a.verify(b'data', der.encode_sequence(der.encode_integer(r), der.encode_integer(s + n)))
''')

seed('C20b', [(ECC, '''    return key.sign_digest(sha256d(data), sigencode = ecdsa.util.sigencode_der)
''', '''    return key.sign_digest(sha256d(data.rstrip(b'\\x00')), sigencode = ecdsa.util.sigencode_der)
'''), (ECC, '''        return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)
''', '''        return key.verify_digest(signature, sha256d(data.rstrip(b'\\x00')), sigdecode = sigdecode_der)
''')],
     'data that differs only in trailing zero bytes',
     'a signature is accepted for other data',
     '''
from nbc.wallet import Address
from nbc.util import key
a = Address(privKey=key.privkey_to_wif(b'\\x11' * 32), vcn=1)
assert a.verify(b'data', a.sign(b'data'))
assert not a.verify(b'data\\0', a.sign(b'data'))
''')

EC = 'nbc/util/ecdsa/'
seed('C21a', [(EC + 'ellipticcurve.py', '''    if self.__order: e = e % self.__order
''', '''    if self.__order and e >= self.__order: e = e % self.__order
''')],
     'a negative multiplier of a point whose order is known',
     'negative multiples are refused',
     '''
from nbc.util.ecdsa.ellipticcurve import CurveFp, Point, INFINITY
c = CurveFp(23, 1, 1)
p = Point(c, 13, 7, 7)
for i in range(-15, 16):
    q = p * i
    assert q + p * 15 == p * ((i + 15) % 7), i
''')

seed('C21b', [(EC + 'ellipticcurve.py', '''    l = ( ( 3 * self.__x * self.__x + a ) * \\
          numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
''', '''    if a < 0:  # 3*x*x - 3, as for all NIST curves
      n = 3 * ( self.__x - 1 ) * ( self.__x + 1 )
    else:
      n = 3 * self.__x * self.__x + a
    l = ( n * numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
''')],
     'a curve whose coefficient a is negative and not -3',
     'doubling is wrong on such curves',
     '''
from nbc.util.ecdsa.ellipticcurve import CurveFp, Point
c, d = CurveFp(23, 1, 1), CurveFp(23, 1 - 23, 1)
p, q = Point(c, 3, 10).double(), Point(d, 3, 10).double()
assert (p.x(), p.y()) == (q.x(), q.y())
''')

seed('C22a', [(EC + 'ecdsa.py', '''    if r < 1 or r > n-1: return False
    if s < 1''', '''    if r < 1: return False
    if s < 1'''), (EC + 'ecdsa.py', '''    return v == r
''', '''    return v == r % n
''')],
     'a first number outside 1..n-1 that is congruent to the right one',
     'pairs outside the range are accepted',
     '''
from nbc.util.ecdsa.ecdsa import Public_key, Private_key, Signature, generator_192 as g
pub = Public_key(g, g * 12345)
s = Private_key(pub, 12345).sign(777, 999)
assert pub.verifies(777, s)
assert not pub.verifies(777, Signature(s.r + g.order(), s.s))
''')

seed('C22b', [(EC + 'keys.py', '''        number = string_to_number(digest)
        r, s = sigdecode(signature, self.pubkey.order)
''', '''        number = string_to_number(digest) >> max(0, 8*len(digest) - len(bin(self.pubkey.order)) + 2)
        r, s = sigdecode(signature, self.pubkey.order)
''')],
     'a curve whose order is not a whole number of bytes (P-521) with a digest of full length',
     'verification uses another digest convention than signing',
     '''
from nbc.util.ecdsa import SigningKey, NIST521p
k = SigningKey.from_secret_exponent(12345, NIST521p)
for d in (b'\\x01' * 32, b'\\x01' * 64, b'\\x01' * 66):
    assert k.get_verifying_key().verify_digest(k.sign_digest(d, k=777), d)
''')

seed('C23a', [(EC + 'rfc6979.py', '''    if z2 < 0:
        z2 = z1
''', '''    if z2 <= 0:
        z2 = z1
''')],
     'a digest that equals the group order',
     'the nonce is not that of RFC 6979',
     '''
import hashlib
from nbc.util.ecdsa.rfc6979 import bits2octets
from nbc.util.ecdsa.ecdsa import generator_secp256k1 as g
n = g.order()
assert bits2octets(n.to_bytes(32, 'big'), n) == b'\\0' * 32
''')

seed('C23b', [(EC + 'rfc6979.py', '''        if secret >= 1 and secret < generator.order():
            return secret

        k = hmac.new(k, v+b('\\x00'), hash_func).digest()
''', '''        if secret >= 1 and secret < generator.order():
            return secret

        k = hmac.new(k, v+b('\\x00')+t[len(v):len(v)], hash_func).digest()
        if len(t) > len(v): k = hmac.new(k, t, hash_func).digest()
''')],
     'an order that needs several blocks of the hash function, and a candidate out of range',
     'the retry step is not that of RFC 6979',
     '''
import hashlib, hmac
from nbc.util.ecdsa.rfc6979 import generate_k
class G(object):
    def __init__(self, n): self.n = n
    def order(self): return self.n
def ref(q, x, h, data):
    ql, rl = q.bit_length(), (q.bit_length() + 7) // 8
    def b2i(b):
        v = int.from_bytes(b, 'big'); k = 8 * len(b)
        return v >> (k - ql) if k > ql else v
    H = lambda k, m: hmac.new(k, m, h).digest()
    bx = x.to_bytes(rl, 'big') + (b2i(data) % q).to_bytes(rl, 'big')
    n = h().digest_size
    v, k = b'\\1' * n, b'\\0' * n
    k = H(k, v + b'\\0' + bx); v = H(k, v); k = H(k, v + b'\\1' + bx); v = H(k, v)
    while True:
        t = b''
        while len(t) * 8 < ql:
            v = H(k, v); t += v
        c = b2i(t)
        if 1 <= c < q: return c
        k = H(k, v + b'\\0'); v = H(k, v)
q = 2**255 + 95
for i in range(12):
    d = hashlib.sha1(b'%d' % i).digest()
    assert generate_k(G(q), 7, hashlib.sha1, d) == ref(q, 7, hashlib.sha1, d), i
''')

NT = EC + 'numbertheory.py'
seed('C24a', [(NT, '''        if q < d: break         # n < d*d means we're done, n = 1 or prime.
''', '''        if q <= d: break        # n < d*d means we're done, n = 1 or prime.
''')],
     'the square of a prime beyond the table of small primes',
     'its factorisation, and the functions built on it, are wrong',
     '''
from nbc.util.ecdsa.numbertheory import factorization, phi
assert factorization(1231 * 1231) == [(1231, 2)]
assert phi(6 * 1237 * 1237) == 2 * 1236 * 1237
''')

seed('C24b', [(NT, '''  t = 40
  n_bits = 1 + int( math.log( n, 2 ) )
''', '''  t = 3
  n_bits = 1 + int( math.log( n, 2 ) )
''')],
     'a composite that is a strong pseudoprime to the bases 2, 3 and 5 (13 below 25*10^9)',
     'such numbers are taken for primes',
     '''
from nbc.util.ecdsa.numbertheory import is_prime
for n in (25326001, 161304001, 960946321):
    assert not is_prime(n), n
''')

seed('C25a', [(EC + 'der.py', '''    tag = s0 & 0x1f
''', '''    tag = s0 & 0x0f
''')],
     'a tagged value with a tag of 16 or more',
     'it decodes with another tag',
     '''
from nbc.util.ecdsa import der
for t in (0, 1, 15, 16, 30):
    assert der.remove_constructed(der.encode_constructed(t, b'x')) == (t, b'x', b''), t
''')

seed('C25b', [(EC + 'keys.py', '''        assert point_str.startswith(b("\\x00\\x04"))
''', '''        assert point_str[1:2] == b("\\x04")
''')],
     'a public key file whose bit string declares unused bits',
     'junk is accepted as a public key',
     '''
from nbc.util.ecdsa import SigningKey, VerifyingKey, NIST192p
d = SigningKey.from_secret_exponent(12345, NIST192p).get_verifying_key().to_der()
i = d.index(b'\\x00\\x04', 20)
VerifyingKey.from_der(d)
try:
    VerifyingKey.from_der(d[:i] + b'\\x07' + d[i + 1:])
except Exception:
    pass
else:
    raise SystemExit('accepted')
''')

seed('C26a', [(EC + 'util.py', '''    while dont_try_forever > 0:
        dont_try_forever -= 1
''', '''    while dont_try_forever:
        dont_try_forever -= 2 if bytes % 2 == 0 else 3
''')],
     'a broken entropy source and an order of an odd number of bytes (10000 is not a multiple of 3)',
     'the loop never gives up',
     '''
from nbc.util.ecdsa.util import randrange
for order in (2**16 - 17, 2**24 - 3):
    calls = [0]
    def broken(n):
        calls[0] += 1
        if calls[0] > 50000: raise SystemExit('endless')
        return b'\\xff' * n
    try:
        randrange(order, broken)
    except RuntimeError:
        continue
    raise SystemExit('no error')
''')

seed('C26b', [(EC + 'util.py', '''    number = (int(binascii.hexlify(base), 16) % (order-1)) + 1
''', '''    number = int(binascii.hexlify(base), 16) % order or order - 1
''')],
     'most seeds',
     'the scalar is another function of the seed; the bias makes order-1 twice as likely',
     '''
import binascii
from nbc.util.ecdsa.util import randrange_from_seed__overshoot_modulo as f, PRNG
for order in (7, 251, 2**192 - 237):
    for s in range(40):
        l = (len('%x' % order) + 1) // 2
        assert f(str(s), order) == int(binascii.hexlify(PRNG(str(s))(2 * l)), 16) % (order - 1) + 1
''')

AES = 'nbc/util/pyaes/'
seed('C27a', [(AES + 'aes.py', '''        for i in xrange(len(self._counter) - 1, -1, -1):
            self._counter[i] += 1
''', '''        for i in xrange(len(self._counter) - 1, 7, -1):
            self._counter[i] += 1
''')],
     'a counter whose lower 64 bits overflow',
     'the carry is lost and the counter restarts at zero',
     '''
from nbc.util.pyaes import AESModeOfOperationCTR, AESModeOfOperationECB
from nbc.util.pyaes.aes import Counter
k = b'k' * 16
for start in (1, 2**32 - 1, 2**64 - 1, 2**128 - 1):
    got = AESModeOfOperationCTR(k, Counter(start)).encrypt(b'\\0' * 32)
    want = b''.join(AESModeOfOperationECB(k).encrypt(((start + i) % 2**128).to_bytes(16, 'big')) for i in (0, 1))
    assert got == want, start
''')

seed('C27b', [(AES + 'aes.py', '''        while len(self._remaining_counter) < len(plaintext):
            self._remaining_counter += self._aes.encrypt(self._counter.value)
            self._counter.increment()
''', '''        missing = len(plaintext) - len(self._remaining_counter)
        for i in xrange(0, (missing + 16) // 16):
            self._remaining_counter += self._aes.encrypt(self._counter.value)
            self._counter.increment()
        self._remaining_counter = self._remaining_counter[-(len(plaintext) + 15):]
''')],
     'calls that leave just a whole block of key stream over',
     'key stream bytes are dropped and the stream depends on how it is cut',
     '''
from nbc.util.pyaes import AESModeOfOperationCTR
k = b'k' * 16
data = bytes(range(200))
whole = AESModeOfOperationCTR(k).encrypt(data)
for cut in range(1, 100):
    c = AESModeOfOperationCTR(k)
    assert c.encrypt(data[:cut]) + c.encrypt(data[cut:]) == whole, cut
''')

seed('C28a', [(AES + 'blockfeeder.py', '''        if not data:
            result''', '''        if data is None:
            result''')],
     'flushing with an empty string instead of None',
     'the last bytes never come out when the feeder is flushed with an empty string',
     '''
from nbc.util import pyaes
from nbc.util.pyaes.aes import AESModeOfOperationCBC as CBC
from nbc.util.pyaes.blockfeeder import Encrypter, Decrypter
data = bytes(range(101))
for end in ((), (None,), (b'',)):
    e, d = Encrypter(CBC(b'k' * 16, b'i' * 16)), Decrypter(CBC(b'k' * 16, b'i' * 16))
    c = e.feed(data) + e.feed(*end)
    assert d.feed(c) + d.feed(*end) == data
''')

seed('C28b', [(AES + 'blockfeeder.py', '''            result = self._final(self._buffer)
            self._buffer = None
            return result
''', '''            result = self._final(self._buffer)
            self._buffer = None if result else b""
            return result
''')],
     'finishing a stream that leaves nothing over, such as an empty one',
     'feeding after the end is not refused',
     '''
from nbc.util.pyaes.aes import AESModeOfOperationCTR as CTR, AESModeOfOperationCBC as CBC
from nbc.util.pyaes.blockfeeder import Encrypter, Decrypter
for m in (CTR(b'k' * 16), CBC(b'k' * 16)):
    e = Encrypter(m)
    e.feed()
    try:
        e.feed(b'more')
    except ValueError:
        continue
    raise SystemExit('accepted')
''')

PW = 'nbc/util/piecewise.py'
seed('C29a', [(PW, '''        if index not in parts: parts[index] = set()
        parts[index].add(private_key[8:])
''', '''        if index not in parts: parts[index] = []
        parts[index].append(private_key[8:])
''')],
     'the same part given twice, as when two sets are scanned that overlap',
     'repeated parts are counted and make combining fail or yield nothing',
     '''
from nbc.util import piecewise, key
k = key.privkey_to_wif(b'\\x11' * 32)
sets = piecewise.partial_split_private_key(k, 2, 2)
allof = [p for s in sets for p in s]
assert piecewise.partial_combine_private_keys(allof + allof[:1]) == k
one = list(sets[0])
assert piecewise.partial_combine_private_keys(one + one) is None
''')

seed('C29b', [(PW, '''    secexp_missing = (secexp - sum(secexps)) % curve.order
''', '''    secexp_missing = abs(secexp - sum(secexps)) % curve.order
''')],
     'random parts that sum to more than the key (most small keys)',
     'the parts do not combine to the key',
     '''
from nbc.util import piecewise, key
for k in (b'\\x01' * 32, b'\\x11' * 32, b'\\xfe' * 32):
    w = key.privkey_to_wif(k)
    for n in (2, 3, 5):
        assert piecewise.combine_private_keys(piecewise.split_private_key(w, n)) == w
''')

UI, BOOT = 'nbc/util/__init__.py', 'nbc/util/bootstrap.py'
seed('C30a', [(BOOT, '''        with self._lock:
            address = random.choice(self._found)
            self._found.remove(address)
            return address
''', '''        address = random.choice(self._found)
        with self._lock:
            self._found.remove(address)
            return address
''')],
     'two threads that take addresses at the same time',
     'an address found once is handed out twice, or taking one fails',
     '''
import random, socket, threading
real = socket.getaddrinfo
socket.getaddrinfo = lambda ip, port, *a: [(0, 0, 0, '', ('1.2.3.%d' % i, port)) for i in range(2)]
from nbc.util import bootstrap
s = bootstrap.DNSSeeder([('seed', 1)])
while len(s) < 2: pass
both = threading.Barrier(2, timeout=2)
class R(object):
    @staticmethod
    def choice(x):
        first = x[0]
        try: both.wait()      # both threads choose before either removes
        except threading.BrokenBarrierError: pass
        return first
bootstrap.random = R
got = []
def take():
    try: got.append(s.pop())
    except Exception as e: got.append(e)
ts = [threading.Thread(target=take) for i in (0, 1)]
for t in ts: t.start()
for t in ts: t.join()
assert sorted(map(str, got)) == ["('1.2.3.0', 1)", "('1.2.3.1', 1)"], got
''')

seed('C30b', [(UI, '''    # we copy, so lingering threads don't sneak new info in without a lock
    with lock:
        return result.copy()
''', '''    with lock:
        return result
''')],
     'a source that answers after the timeout, while the caller uses the answers',
     'late answers appear in the collected ones',
     '''
import threading, time
from nbc import util
gate = threading.Event()
class Coin(object):
    block_height_guess = [('quick', lambda: 5), ('late', lambda: gate.wait(10) and 6)]
r = util.guess_block_height(Coin, timeout=0.5)
assert r == {'quick': 5}, r
gate.set(); time.sleep(0.5)
assert r == {'quick': 5}, r
''')

seed('C31a', [(UI, '''            branches.append(branches[-1])
''', '''            branches.append(transactions[-1].hash)
''')],
     'a number of transactions whose tree has an odd level above the lowest (6, 10, 11, 12, ...)',
     'the Merkle root is wrong',
     '''
from nbc import util
class T(object):
    def __init__(self, i): self.hash = util.sha256(b'%d' % i)
def root(hs):
    while len(hs) > 1:
        if len(hs) % 2: hs = hs + hs[-1:]
        hs = [util.sha256d(hs[i] + hs[i + 1]) for i in range(0, len(hs), 2)]
    return hs[0]
for n in range(1, 20):
    ts = [T(i) for i in range(n)]
    assert util.get_merkle_root(ts) == root([t.hash for t in ts]), n
''')

seed('C31b', [('nbc/coins/__init__.py', '''        if name and name.lower() == coin.name or symbol.upper() in coin.symbols:
''', '''        if name and name.lower() == coin.name or symbol and symbol.upper() in coin.symbol:
''')],
     'a symbol that is a part of the symbol of a coin',
     'a coin is found by something that is not its symbol',
     '''
from nbc import coins
assert coins.get_coin(symbol='nbc') is coins.Newbitcoin and coins.get_coin(name='NewBitcoin') is coins.Newbitcoin
for s in ('BC', 'N', 'nb', '', 'NBC2'):
    assert coins.get_coin(symbol=s) is None, s
''')

seed('C32a', [(MSG, '''      (vl, s) = format.parse_var_set(data[offset:], format.FtNumber('i'))
''', '''      (vl, s) = format.parse_var_set(data[offset:], format.FtNumber('I'))
''')],
     'an alert that cancels an alert with a negative identifier',
     'the identifier is read as a large positive number',
     '''
import struct
from nbc import protocol
p = struct.pack('<iqqii', 1, 2, 3, -4, -5) + b'\\x02' + struct.pack('<ii', -7, 8) + struct.pack('<ii', 0, 9) + b'\\0' + struct.pack('<i', -3) + b'\\0\\0\\0'
a = protocol.Alert(p, b'')
assert list(a.set_cancel) == [-7, 8] and a.id == -4 and a.priority == -3
''')

seed('C32b', [(MSG, '''format.FtNumber('i'))
      self._data['set_cancel']''', '''format.FtNumber('I'))
      self._data['set_cancel']''')],
     'an alert that cancels an alert with a negative number',
     'negative alert numbers of the cancel set come out as large positive ones',
     '''
import struct
from nbc import protocol
p = struct.pack('<iqqii', 1, 2, 3, 4, 5) + b'\\2' + struct.pack('<ii', 6, -6) + struct.pack('<ii', 6, 7) + b'\\0' + struct.pack('<i', 8) + b'\\1c\\1s\\1r'
a = protocol.Alert(p, b'')
assert list(a.set_cancel) == [6, -6], a.set_cancel
''')

seed('C33a', [(ECC, '''    shared_key = number_to_string(shared_point.x(), curve.order)
''', '''    shared_key = '%x' % shared_point.x()
    shared_key = binascii.unhexlify(shared_key.rjust(len(shared_key) + len(shared_key) % 2, '0'))
''')],
     'a pair of keys whose shared point has an abscissa that starts with a zero byte (one of 256)',
     'the secret is shorter than 32 bytes',
     '''
from nbc.util import ecc, key
from nbc.util.ecdsa import SECP256k1
for k in range(1, 700):
    p = SECP256k1.generator * k
    if p.x() < 2**248: break
pub = b'\\4' + SECP256k1.generator.x().to_bytes(32, 'big') + SECP256k1.generator.y().to_bytes(32, 'big')
s = ecc.shared_secret(pub, key.privkey_to_wif(k.to_bytes(32, 'big')))
assert s == p.x().to_bytes(32, 'big'), k
''')

seed('C33b', [(ECC, '''    public_key = decompress_public_key(public_key)

    x = string''', '''    if len(public_key) != 65:  # a point off the curve is refused below
        public_key = decompress_public_key(public_key)

    x = string''')],
     'a 65 byte key whose first byte is not 4',
     'a malformed public key is accepted',
     '''
from nbc.util import ecc, key
from nbc.util.ecdsa import SECP256k1
g = SECP256k1.generator
body = g.x().to_bytes(32, 'big') + g.y().to_bytes(32, 'big')
k = key.privkey_to_wif(b'\\x11' * 32)
ecc.shared_secret(b'\\4' + body, k)
for c in (0, 2, 3, 5, 6):
    try:
        ecc.shared_secret(bytes([c]) + body, k)
    except Exception:
        continue
    raise SystemExit('accepted prefix %d' % c)
''')

SRV = '''
import http.server, threading, json
from nbc import util
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200); self.end_headers(); self.wfile.write(H.payload)
    def log_message(self, *a): pass
srv = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
url = 'http://127.0.0.1:%d/' % srv.server_port
def ask(payload, path):
    H.payload = payload
    return util.fetch_url_json_path_int(url, path)()
'''
seed('C34a', [(UI, '''            return int(data)
        except Exception as e:
            print(e)

        return None

    return func

def fetch_url_int(url):''', '''            return int(float(data))
        except Exception as e:
            print(e)

        return None

    return func

def fetch_url_int(url):''')],
     'a number beyond 2^53 (or one of a kind int() refuses)',
     'the answer is another number than the one reported',
     SRV + '''
assert ask(b'{"h": 800000}', 'h') == 800000
assert ask(b'{"h": 9007199254740993}', 'h') == 9007199254740993
''')

seed('C34b', [(UI, '''                    data = data[component]
''', '''                    data = data.get(component, data)
''')],
     'a payload that lacks a name of the path but has a later one',
     'the number found elsewhere in the payload is answered',
     SRV + '''
assert ask(b'{"data": {"height": 7}}', 'data/height') == 7
assert ask(b'{"height": 7}', 'data/height') is None
''')
