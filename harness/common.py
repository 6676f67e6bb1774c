"""Encoding of recorded events, shared by the drivers."""
import json, os, random, signal, sys, traceback


class Hang(BaseException):
    pass


hung, hangs = [], []


def _alarm(sig, frm):
    hung.append(1)
    hangs.append(1)
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def by(x):
    return list(bytearray(x))


def nat(n):
    n = int(n)
    return by(n.to_bytes((n.bit_length() + 7) // 8, 'big')) if n else []


def R(x, depth=0):
    if x is None:
        return {'k': 'n', 'v': []}
    if isinstance(x, bool):
        return {'k': 't', 'v': [1 if x else 0]}
    if isinstance(x, int):
        return {'k': 'i', 'v': nat(x)} if x >= 0 else {'k': '-', 'v': nat(-x)}
    if isinstance(x, (bytes, bytearray)):
        return {'k': 'b', 'v': by(x)}
    if isinstance(x, str):
        try:
            return {'k': 's', 'v': by(x.encode('latin-1'))}
        except UnicodeError:
            return {'k': 's', 'v': by(x.encode('utf-8'))}
    if isinstance(x, (list, tuple)):
        return {'k': 'l', 'l': [R(y, depth + 1) for y in x]}
    return {'k': 'o', 'r': repr(type(x))}


def call(f, *a, **kw):
    """Result of f(*a, **kw) as a record."""
    lim = kw.pop('_limit', 30)
    conv = kw.pop('_conv', R)
    del hung[:]
    if len(hangs) > 2:            # it hangs again and again
        lim = min(lim, 4)
    if len(hangs) > 15:
        sys.stderr.write('the code under test hangs again and again\n')
        os._exit(3)
    signal.alarm(lim)
    try:
        r = f(*a, **kw)
        signal.alarm(0)
        if hung:                  # the code under test swallowed it
            return {'k': 'to', 'v': []}
    except Hang:
        return {'k': 'to', 'v': []}
    except (Exception, SystemExit) as e:
        signal.alarm(0)
        return {'k': 'x', 'e': type(e).__name__}
    finally:
        signal.alarm(0)
    try:
        return conv(r)
    except Exception as e:
        return {'k': 'o', 'r': 'unreadable ' + type(e).__name__}


class Out(object):
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def ev(self, op, **kw):
        kw['op'] = op
        self.f.write(json.dumps(kw, separators=(',', ':')) + '\n')
        self.n += 1

    def end(self):
        self.f.write('{"op":"end"}\n')
        self.f.close()


def quiet():
    """Discard what the code under test prints."""
    sys.stdout = open(os.devnull, 'w')


def args():
    """prop, tier, seed, out"""
    return sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[-1]


def shard():
    """(this share, of how many)"""
    k, n = os.environ.get('SHARD', '0/1').split('/')
    return int(k), int(n)


def share(n):
    """The indices of this share among n cases."""
    k, m = shard()
    return range(k, n, m)
