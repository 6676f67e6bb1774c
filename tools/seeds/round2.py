SEEDS = {}


def seed(id, edits, needs, breaks, demo, node=False):
    SEEDS[id] = dict(property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo, node=node)


CONN, BASE, UPNP = 'nbc/node/connection.py', 'nbc/node/basenode.py', 'nbc/node/__init__.py'

GW = '''
import sys, types, io, socket
class Gate(object):
    table = {}
    lanaddr = '192.168.1.9'
    def discover(self): return 1
    def selectigd(self): return 'x'
    def externalipaddress(self): return '1.2.3.4'
    def statusinfo(self): return 'ok'
    def connectiontype(self): return 'IP_Routed'
    def getspecificportmapping(self, e, p, *a):
        assert 1 <= e <= 65535, e
        return self.table.get((e, p))
    def addportmapping(self, e, p, host, port, label, r='', *a):
        assert 1 <= e <= 65535, e
        self.table[(e, p)] = (host, port)
        return True
    def deleteportmapping(self, e, p, *a): return self.table.pop((e, p), None) is not None
lib = types.ModuleType('miniupnpc'); lib.UPnP = Gate
sys.modules['miniupnpc'] = lib
import nd
import nbc.node
nbc.node.miniupnpc = lib
from nbc.node import basenode, StopNode
class Node(basenode.BaseNode):
    stop = StopNode
    seen = None
    def begin_loop(self):
        self.seen = dict(Gate.table)
        raise self.stop()
    def heartbeat(self): pass
def life(port, stop=StopNode, listen=True):
    n = Node(address=('127.0.0.1', port) if listen else None, seek_peers=0, bootstrap=False, log=io.StringIO())
    n.stop = stop
    try:
        n.serve_forever()
    except stop:
        pass
    return n
'''

seed('C35a', [(BASE, '''    try:
      asyncore.loop(5,map=self)
    except StopNode as e:
      pass
    finally:
      self.handle_close()
      
      if self._listen:
        remove_portmap(self.port,'TCP')
''', '''    try:
      asyncore.loop(5,map=self)
    except StopNode as e:
      pass
    finally:
      self.handle_close()
    
    if self._listen:
      remove_portmap(self.port,'TCP')
''')],
     'a node that is interrupted by an exception other than StopNode',
     'the mapping stays in the gateway after the node was interrupted',
     GW + '''
life(4000)
assert not Gate.table, Gate.table
life(4000, KeyboardInterrupt)
assert not Gate.table, Gate.table
''', True)

seed('C35b', [(UPNP, "      eport = eport + 1", "      port = eport = eport + 1")],
     "the external port of the node's own number is taken",
     'the mapping leads to a port at which the node does not listen',
     GW + '''
n = life(4000)
assert n.seen == {(4000, 'TCP'): ('192.168.1.9', 4000)}, n.seen
Gate.table = {(4000, 'TCP'): ('192.168.1.3', 80)}
n = life(4000)
assert n.seen[(4001, 'TCP')] == ('192.168.1.9', 4000), n.seen
''', True)

seed('C35c', [(BASE, """    if self._listen:
      self._upnp = add""", """    if self.port:
      self._upnp = add""")],
     'a node that does not listen, behind a gateway',
     'a node that only dials out opens a port of the gateway, and leaves it open',
     GW + """
life(4000)
assert not Gate.table
n = life(0, listen=False)
assert not n.seen and not Gate.table, (n.seen, Gate.table)
""", True)

seed('C01c', [(CONN, '''    # process as many messages
    while True:''', '''    # process as many messages, unless more of the stream is waiting to be read
    while len(chunk) < BLOCK_SIZE:''')],
     'a message that ends exactly where a full block of 8192 bytes ends, and silence after it',
     'the complete messages of a full block are not handled before the peer sends something else',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
seen = []
n.command_ping = lambda peer, nonce: seen.append(nonce)
ping = nd.b(protocol.Ping(b'12345678'))
assert len(ping) == 32
nd.feed(n, s, ping * 256)
assert len(seen) == 256, len(seen)
''', True)

seed('C02c', [(CONN, '''    self._send_buffer += message.binary(self.node.coin.magic)
''', '''    binary = message.binary(self.node.coin.magic)
    if not self._send_buffer.endswith(binary):  # a repetition of what waits already tells nothing new
      self._send_buffer += binary
''')],
     'two equal messages in a row while the first has not gone out, such as pongs for two equal pings read at once',
     'the second of two equal queued messages is never sent',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
nd.flush(n, s); s.out = b''
nd.feed(n, s, nd.b(protocol.Ping(b'12345678')), nd.b(protocol.Ping(b'12345679')), nd.b(protocol.Ping(b'12345679')))
nd.flush(n, s)
assert [m.nonce for m in nd.sent(s)] == [b'12345678', b'12345679', b'12345679'], nd.sent(s)
''', True)

seed('C02d', [(CONN, '''      self._tx_bytes += sent
''', '''      self._tx_bytes += len(self._send_buffer)
''')],
     'a socket that takes a part of the output only',
     'bytes that have to be sent again are counted twice',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
s.cap = 50
nd.flush(n, s)
assert c.tx_bytes == len(s.out) > 50, (c.tx_bytes, len(s.out))
''', True)

seed('C03c', [(CONN, '''      self._user_agent = message.user_agent
''', '''      self._user_agent = message.user_agent or self._user_agent
''')],
     'a second version message with an empty user agent',
     'the user agent reported is that of an earlier version message',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
nd.feed(n, s, nd.b(nd.version(agent='/a/')))
assert c.user_agent in ('/a/', b'/a/')
nd.feed(n, s, nd.b(nd.version(agent='')))
assert c.user_agent in ('', b''), c.user_agent
''', True)

seed('C03d', [(BASE, '''    peer.send_message(protocol.Pong(nonce))
''', '''    if not peer._send_buffer:  # not busy, else it will ask again
      peer.send_message(protocol.Pong(nonce))
''')],
     'a ping that arrives while output for the peer is waiting, such as the version message or another pong',
     'the ping is not answered',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
nd.flush(n, s); s.out = b''
nd.feed(n, s, nd.b(protocol.Ping(b'aaaaaaaa')))
nd.flush(n, s)
nd.feed(n, s, nd.b(protocol.Ping(b'bbbbbbbb')) + nd.b(protocol.Ping(b'cccccccc')))
nd.flush(n, s)
assert [m.nonce for m in nd.sent(s)] == [b'aaaaaaaa', b'bbbbbbbb', b'cccccccc'], nd.sent(s)
''', True)

seed('C04c', [(BASE, '''    for address in addr_list:
''', '''    for address in sorted(addr_list,key=lambda a: a.timestamp):
''')],
     'an addr message that names an address twice, with the older time last',
     'the book does not hold what was reported last',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
A = lambda t, v: protocol.NetworkAddress(t, v, '7.7.7.7', 1)
nd.feed(n, s, nd.b(protocol.Address([A(1000, 1), A(900, 5)])))
nd.flush(n, s); s.out = b''
nd.feed(n, s, nd.b(protocol.GetAddress()))
nd.flush(n, s)
a = nd.sent(s)[-1].addr_list[0]
assert (a.timestamp, a.services) == (900, 5), (a.timestamp, a.services)
''', True)

seed('C04d', [(BASE, '''    if peer.address in self._addresses:
      del''', '''    if peer.address in self._addresses and peer.rx_bytes:
      del''')],
     'a known address that refuses the connection',
     'addresses that could not be reached stay in the book',
     '''
import nd
from nbc import protocol
n = nd.node(seek_peers=1)
s = nd.incoming(n, ('5.5.5.5', 1000))
nd.feed(n, s, nd.b(protocol.Address([protocol.NetworkAddress(1000, 1, '7.7.7.7', 1)])))
nd.Sock.refuse = True
n.add_peer(('7.7.7.7', 1))
nd.flush(n, s); s.out = b''
nd.feed(n, s, nd.b(protocol.GetAddress()))
nd.flush(n, s)
assert len(nd.sent(s)[-1].addr_list) == 0, nd.sent(s)[-1].addr_list
''', True)

seed('C05c', [(BASE, '''        sock.close()            # banned it within one hour
''', '''        self._banned[ip] = time.time()
        sock.close()            # keep it out
''')],
     'a banned peer that tries to connect during the hour and again after it',
     'every attempt prolongs the ban',
     '''
import nd
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
for i in range(6): n.punish_peer(c)
assert not s.open
nd.Clock.now += 1800
assert not nd.incoming(n, ('5.5.5.5', 1001)).open
nd.Clock.now += 1801
assert nd.incoming(n, ('5.5.5.5', 1002)).open
''', True)

seed('C05d', [(BASE, '''      self._banned[peer.ip] = time.time()
''', '''      self._banned = {peer.ip: time.time()}
''')],
     'a second IP that is banned within the hour of the first, and the first returning',
     'a ban ends when another IP is banned',
     '''
import nd
n = nd.node()
def ban(ip):
    s = nd.incoming(n, (ip, 1000))
    c = nd.conn(n, s)
    for i in range(6): n.punish_peer(c)
    assert not s.open
ban('5.5.5.5')
assert not nd.incoming(n, ('5.5.5.5', 1002)).open
ban('5.5.5.6')
assert not nd.incoming(n, ('5.5.5.5', 1002)).open
''', True)

seed('C06c', [(BASE, '''    if address in [n.address for n in self.values()]:
''', '''    if address in [n.address for n in self.values() if n is self or n.connected]:
''')],
     'a second dial while the first has not been answered',
     'two connections to the same address',
     '''
import errno, nd
n = nd.node()
nd.Sock.connect_ex = lambda self, a: (nd.Sock.dials.append(a), errno.EINPROGRESS)[1]
assert n.add_peer(('7.7.7.7', 1))
assert not n.add_peer(('7.7.7.7', 1)) and len(nd.Sock.dials) == 1, nd.Sock.dials
''', True)

seed('C06d', [(BASE, '''    for i in range(0,min(self._seek_peers-len(peers),5)): # max 5 at a time
''', '''    for i in range(0,min(self._seek_peers-len([p for p in peers if p.verack]),5)): # max 5 at a time
''')],
     'peers that are connected and have not acknowledged, as many as the node seeks',
     'the node dials though it has as many peers as it seeks',
     '''
import nd
from nbc import protocol
n = nd.node(seek_peers=2)
s = nd.incoming(n, ('5.5.5.5', 1000))
t = nd.incoming(n, ('5.5.5.6', 1000))
nd.feed(n, s, nd.b(protocol.Address([protocol.NetworkAddress(1000, 1, '7.7.7.7', 1)])))
n.heartbeat()
assert not nd.Sock.dials, nd.Sock.dials
''', True)

seed('C07c', [(CONN, '''    self._last_rx_time = time.time()
''', '''    self._last_rx_time, self._last_ping_time = time.time(), 0  # it is alive
''')],
     'a peer that still sends but takes no output for more than half an hour',
     'pings are queued every time the peer sends something',
     '''
import nd
from nbc import protocol
n = nd.node()
s = nd.incoming(n, ('5.5.5.5', 1000))
c = nd.conn(n, s)
nd.flush(n, s); s.out = b''
nd.Clock.now += 1801
c.readable()
for i in range(3):
    nd.Clock.now += 20
    nd.feed(n, s, nd.b(protocol.Pong(b'12345678')))
    c.readable()
nd.flush(n, s)
assert len(nd.sent(s)) == 1, nd.sent(s)
''', True)

seed('C08c', [(BASE, '''    counter = dict()
    peers = self.peers
    for peer in peers:
      address = peer.external_ip
      if address is None: continue
      if address not in counter: counter[address] = 0
      counter[address] += 1
''', '''    self._votes = getattr(self,'_votes',dict())
    for peer in self.peers:
      if peer.external_ip is not None: self._votes[peer.address] = peer.external_ip
    counter = dict()
    for address in self._votes.values():
      counter[address] = counter.get(address,0) + 1
''')],
     'peers that reported an address and have left since',
     'peers that are gone still vote',
     '''
import nd
n = nd.node()
ss = [nd.incoming(n, ('5.5.5.%d' % i, 1000)) for i in range(3)]
for s in ss:
    nd.feed(n, s, nd.b(nd.version(ip='8.8.8.8')))
assert n.external_ip == '8.8.8.8'
for s in ss:
    nd.conn(n, s).handle_close()
t = nd.incoming(n, ('6.5.5.5', 1000))
nd.feed(n, t, nd.b(nd.version(ip='9.9.9.9')))
assert n.external_ip == '9.9.9.9', n.external_ip
''', True)

seed('C08d', [(BASE, '''    if self._external_ip:
      return''', '''    if self._external_ip and not self._peers:
      return''')],
     'an address that was set, and a peer that reports another',
     'peers override an explicitly set address',
     '''
import nd
n = nd.node()
n.external_ip = '1.1.1.1'
t = nd.incoming(n, ('6.5.5.5', 1000))
nd.feed(n, t, nd.b(nd.version(ip='9.9.9.9')))
assert n.external_ip == '1.1.1.1', n.external_ip
''', True)
