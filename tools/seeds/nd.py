"""A node without a network, for demonstrations: fake sockets and a clock."""
import errno, socket, struct, time, hashlib


class Clock(object):
    now = 1600000000.0


time.time = lambda: Clock.now


class Sock(object):
    count = 100
    dials = []
    refuse = False

    def __init__(self, *a, **kw):
        Sock.count += 1
        self.no, self.open, self.inq, self.out, self.cap, self.peer, self.backlog = Sock.count, True, [], b'', None, None, []
        self.family, self.type = socket.AF_INET, socket.SOCK_STREAM
        self.fail = None

    def fileno(self): return self.no
    def setblocking(self, x): pass
    def setsockopt(self, *a): pass
    def getsockopt(self, *a): return 0
    def bind(self, a): self.addr = (a[0], a[1] or 45678)
    def listen(self, n): pass
    def getsockname(self): return self.addr

    def getpeername(self):
        if self.peer is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        return self.peer

    def connect_ex(self, a):
        Sock.dials.append(a)
        if Sock.refuse:
            return errno.ECONNREFUSED
        self.peer = a
        return 0

    def accept(self):
        a = self.backlog.pop(0)
        s = Sock()
        s.peer = a
        self.accepted = s
        return s, a

    def recv(self, n, *a):
        if not self.inq:
            raise BlockingIOError(errno.EWOULDBLOCK, 'nothing')
        x = self.inq.pop(0)
        if len(x) > n:
            self.inq.insert(0, x[n:])
        return x[:n]

    def send(self, data, *a):
        if self.fail:
            raise OSError(self.fail, 'failed')
        data = bytes(data)[:self.cap]
        self.out += data
        return len(data)

    def close(self): self.open = False
    def shutdown(self, how): pass


socket.socket = Sock
import asyncore
from nbc import protocol, coins
from nbc.node import basenode, connection

MAGIC = coins.Newbitcoin.magic


def node(listen=('127.0.0.1', 20303), cls=basenode.BaseNode, **kw):
    kw.setdefault('bootstrap', False)
    kw.setdefault('log', None)
    n = cls(address=listen, data_dir='/nonexistent', **kw)
    n._last_heartbeat = Clock.now      # no maintenance until asked for
    return n


def incoming(n, addr):
    """A peer connects; the socket, or None if it was turned away."""
    lsock = n.socket
    lsock.backlog.append(addr)
    n.handle_accept()
    return lsock.accepted


def conn(n, sock):
    for p in n.peers:
        if p.socket is sock or p._fileno == sock.no:
            return p


def feed(n, sock, *chunks):
    c = conn(n, sock)
    sock.inq.extend(chunks)
    while sock.inq and sock.open:
        c.handle_read_event()


def flush(n, sock, rounds=1000):
    c = conn(n, sock)
    while c is not None and sock.open and rounds and c.writable():
        rounds -= 1
        c.handle_write_event()


def sent(sock):
    """The messages that went out."""
    out, data = [], sock.out
    while len(data) >= 24:
        k = 24 + struct.unpack('<I', data[16:20])[0]
        out.append(protocol.Message.parse(data[:k], MAGIC))
        data = data[k:]
    return out


def frame(command, payload):
    command = command.encode()
    return (MAGIC + command + b'\0' * (12 - len(command)) + struct.pack('<I', len(payload)) +
            hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4] + payload)


def b(m):
    return m.binary(MAGIC)


def version(ip='9.9.9.9', height=7, agent='/x/', services=1, relay=1, version=70002):
    return protocol.Version(version=version, services=services, timestamp=int(Clock.now),
                            addr_recv=protocol.NetworkAddress(0, 1, ip, 8333),
                            addr_from=protocol.NetworkAddress(0, 1, '1.2.3.4', 8333),
                            nonce=b'12345678', user_agent=agent, start_height=height, relay=relay)
