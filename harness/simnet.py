"""A simulated network for nbc.node: sockets, select and the clock.  Everything that crosses the
boundary between the node and its environment is written to `log`, in order.

Import before nbc: time.time, os.urandom and socket.socket are replaced for the whole process."""
import errno, os, random, socket, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'shims'))      # asyncore is gone from python 3.12

T0 = 1600000000
real_time = time.time


class Clock(object):
    t = 0


time.time = lambda: T0 + Clock.t + 0.25
time.monotonic = lambda: 5000 + Clock.t + 0.25


class Endless(BaseException):
    pass


class Log(list):
    """What crossed the boundary since the last event.  A step that goes on and on is stopped."""
    over = False

    def append(self, x):
        if len(self) > 20000:
            self.over = True
            raise Endless()
        list.append(self, x)


log = Log()
registry = {}            # id -> SimSocket
policy = {'dial': lambda addr: 'prog', 'urandom': random.Random(1)}
os.urandom = lambda n: bytes(policy['urandom'].getrandbits(8) for _ in range(n))


def ip16(text):
    """The 16 bytes of an address as text."""
    if ':' in text:
        return list(socket.inet_pton(socket.AF_INET6, text))
    return [0] * 10 + [255, 255] + [int(x) for x in text.split('.')]


def ad(address):
    return [ip16(address[0]), address[1]]


class SimSocket(object):
    counter = 0
    family = socket.AF_INET
    type = socket.SOCK_STREAM

    def __init__(self, *a, **kw):
        SimSocket.counter += 1
        self.id = SimSocket.counter
        registry[self.id] = self
        self.open = True
        self.peer = None
        self.inq = []            # pending: bytes, 'eof', 'reset'
        self.cap = None          # bytes accepted per write; None: all
        self.so_error = 0
        self.backlog = []
        self.listening = False
        self.rmax = None
        self.addr = None

    def setblocking(self, x): pass
    def settimeout(self, x): pass
    def setsockopt(self, *a): pass

    def getsockopt(self, level, opt, *a):
        if opt == socket.SO_ERROR:
            e = self.so_error
            if e:
                log.append({'a': 'err', 's': self.id})
                self.so_error = 0
            return e
        return 0

    def fileno(self):
        return 1000 + self.id if self.open else -1

    def bind(self, addr):
        self.addr = (addr[0], addr[1] or 45678)

    def listen(self, n):
        self.listening = True

    def getsockname(self):
        return self.addr or ('127.0.0.1', 40000 + self.id)

    def getpeername(self):
        if self.peer is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        return self.peer

    def connect_ex(self, addr):
        r = policy['dial'](addr)
        if ':' in addr[0]:
            r = 'raise'
        log.append({'a': 'dial', 's': self.id, 'addr': ad(addr), 'res': {'prog': 'prog', 'ok': 'ok'}.get(r, 'fail')})
        self.addr = ('127.0.0.1', 40000 + self.id)
        if r == 'raise':
            raise socket.gaierror(-9, 'Address family for hostname not supported')
        if r == 'fail':
            return errno.ECONNREFUSED
        self.target = addr
        if r == 'ok':
            self.peer = addr
            return 0
        self.peer = addr
        return errno.EINPROGRESS

    def accept(self):
        if not self.backlog:
            raise BlockingIOError(errno.EWOULDBLOCK, 'nothing to accept')
        addr, kind = self.backlog.pop(0)
        if kind == 'abort':
            raise OSError(errno.ECONNABORTED, 'aborted')
        s = SimSocket()
        s.peer = addr
        log.append({'a': 'acc', 's': s.id, 'addr': ad(addr)})
        return s, addr

    def readable(self):
        return bool(self.open and (self.backlog if self.listening else (self.inq or self.so_error)))

    def writable(self):
        return bool(self.open and (self.so_error or (self.cap is None or self.cap != 'full')))

    def recv(self, n, flags=0):
        if not self.open:
            raise OSError(errno.EBADF, 'closed')
        if self.so_error:
            log.append({'a': 'recv', 's': self.id, 'b': [], 'kind': 'err'})
            e, self.so_error = self.so_error, 0
            raise OSError(e, 'failed')
        if not self.inq:
            raise BlockingIOError(errno.EWOULDBLOCK, 'nothing to read')
        x = self.inq[0]
        if x == 'eof':
            log.append({'a': 'recv', 's': self.id, 'b': [], 'kind': 'eof'})
            return b''
        if x in ('reset', 'odd'):
            self.inq.pop(0)
            log.append({'a': 'recv', 's': self.id, 'b': [], 'kind': 'err'})
            raise OSError(errno.ECONNRESET if x == 'reset' else errno.EHOSTUNREACH, x)
        k = min(n, self.rmax or n, len(x))
        out, rest = x[:k], x[k:]
        if rest:
            self.inq[0] = rest
        else:
            self.inq.pop(0)
        log.append({'a': 'recv', 's': self.id, 'b': list(out), 'kind': 'data'})
        return out

    def send(self, data, flags=0):
        if not self.open:
            raise OSError(errno.EBADF, 'closed')
        data = bytes(data)
        if self.so_error:
            log.append({'a': 'send', 's': self.id, 'b': [], 'kind': 'err'})
            e, self.so_error = self.so_error, 0
            raise OSError(e, 'failed')
        c = self.cap
        if callable(c):
            c = c()
        if c in ('pipe', 'odd'):
            log.append({'a': 'send', 's': self.id, 'b': [], 'kind': 'err'})
            raise OSError(errno.EPIPE if c == 'pipe' else errno.EHOSTUNREACH, 'broken')
        if c == 'block':
            log.append({'a': 'send', 's': self.id, 'b': [], 'kind': 'block'})
            raise BlockingIOError(errno.EWOULDBLOCK, 'would block')
        out = data if c is None else data[:c]
        log.append({'a': 'send', 's': self.id, 'b': list(out), 'kind': 'ok'})
        return len(out)

    def sendall(self, data, flags=0):
        self.send(data)

    def shutdown(self, how): pass

    def close(self):
        if self.open:
            self.open = False
            log.append({'a': 'close', 's': self.id})


socket.socket = SimSocket

# what the next select returns: a function of the candidates
ready = {'pick': None}


class SimSelect(object):
    POLLIN, POLLPRI, POLLOUT, POLLERR, POLLHUP, POLLNVAL = 1, 2, 4, 8, 16, 32

    class error(Exception):
        pass

    @staticmethod
    def select(r, w, e, timeout=None):
        ids = {s.fileno(): s for s in registry.values() if s.open}

        def num(x):
            return x if isinstance(x, int) else x.fileno()
        r, w, e = [num(x) for x in r], [num(x) for x in w], [num(x) for x in e]
        log.append({'a': 'sel', 'r': sorted(set(f - 1000 for f in r)), 'w': sorted(set(f - 1000 for f in w))})
        for f in r + w + e:
            if f not in ids:
                raise OSError(errno.EBADF, 'Bad file descriptor')
        return ready['pick']([ids[f] for f in r], [ids[f] for f in w], [ids[f] for f in e])


import asyncore
asyncore.select = SimSelect
