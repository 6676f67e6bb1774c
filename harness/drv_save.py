"""Saving wallets while calls fail, the process ends or is interrupted, the disk fills up (C17)."""
import ctypes, errno, resource, tempfile, shutil
from drv_wallet import *

LIB = ctypes.CDLL(os.environ['FAULTFS'])
LIB.ff_log.restype = ctypes.c_char_p
SCEN = sys.argv[4] if len(sys.argv) > 5 else None
KILL, FAIL, KILLAFTER, FAILON, BYTES, KILLIN = 1, 2, 3, 4, 5, 6
ERRS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EMFILE, errno.EROFS]
NAMES = {KILL: 'kill', FAIL: 'fail', KILLAFTER: 'killafter', FAILON: 'failon', BYTES: 'bytes', KILLIN: 'killin', 0: 'none'}
CODE = os.path.realpath(os.path.dirname(os.path.dirname(W.__file__)))


def some_wallet():
    return some_address() if rnd.random() < .5 else some_hd()


def some_pass():
    return rnd.choice(['', b'pw', b'another', b'a passphrase longer than sixteen'])


class Odd(HDWallet):
    """A hierarchical wallet that cannot be serialised."""
    kind = 0

    def dump_to_cfg(self, *a, **kw):
        c = HDWallet.dump_to_cfg(self, *a, **kw)
        if self.kind == 0: raise ValueError('not now')
        if self.kind == 1: c['chain'] = b'bytes'
        if self.kind == 2: c['more'] = object()
        if self.kind == 3: c = dict([('first', {1, 2})] + list(c.items()))
        if self.kind == 4: c['self'] = c
        if self.kind == 5: c[(1, 2)] = 3
        return c


class OddAddress(Address):
    kind = 0
    dump_to_cfg = lambda self, *a, **kw: dict(Address.dump_to_cfg(self, *a, **kw), more=b'bytes')


def odd():
    if rnd.random() < .3:
        return OddAddress(privKey=wif_of(secret(), True), vcn=1)
    w = Odd(secret(), bs(32), vcn=3)
    w.kind = rnd.randrange(6)
    return w


class Place(object):
    """A directory with a wallet file."""

    def __init__(self, kind='plain'):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='save-'))
        self.name = os.path.join(self.dir, 'my.wallet')
        self.file = self.name
        self.held = None            # (wallet as shown, passphrase)
        os.chdir(self.dir)
        if kind == 'relative':
            self.name = 'my.wallet'
        elif kind == 'link':
            os.mkdir('real')
            self.file = os.path.join(self.dir, 'real', 'w')
            os.symlink(self.file, self.name)
        elif kind == 'odd name':
            self.name = self.file = os.path.join(self.dir, 'my wallet.json.tmp')
        elif kind == 'litter':
            for x in ('.tmp', '~', '.bak', '.new', '.old'):
                open(self.name + x, 'w').write('{"type": "HD", "left over": 1' * 200)
        ev('new', kind=kind)

    def end(self):
        ev('done')
        os.chdir('/')
        shutil.rmtree(self.dir, ignore_errors=True)

    def load(self, pw):
        return make(W.loadFrom, self.name, pw)[1]

    def save(self, w, pw, mode=0, at=0, err=errno.ENOSPC, budget=-1, fsize=None, interrupt=0, fault=None):
        """In a process of its own; returns the number of calls that count, and how it ended."""
        shown = show(w) if not isinstance(w, (Odd, OddAddress)) else {'k': 'none'}
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal_off()
            code, lines = 3, [0]
            try:
                if fsize is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
                def tracer(frame, event, arg):
                    if not frame.f_code.co_filename.startswith(CODE):
                        return None
                    if event in ('line', 'return'):
                        lines[0] += 1
                        if lines[0] == interrupt:
                            raise KeyboardInterrupt()
                    return tracer
                LIB.ff_arm(self.dir.encode(), at, mode, err, ctypes.c_long(budget))
                try:
                    if interrupt:
                        sys.settrace(tracer)
                    W.saveTo(self.name, w, pw)
                    code = 0
                except BaseException:
                    code = 1
                finally:
                    sys.settrace(None)
                    n = LIB.ff_count()
                    LIB.ff_off()
                os.write(wr, b'%d %d\n' % (n, lines[0]))
            finally:
                os._exit(code)
        os.close(wr)
        told = b''
        while True:
            b = os.read(r, 65536)
            if not b: break
            told += b
        os.close(r)
        status = os.waitpid(pid, 0)[1]
        code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1
        how = {0: 'returned', 1: 'raised'}.get(code, 'killed')
        after = self.load(pw) if shown['k'] != 'none' else {'k': 'none?'}
        before = self.load(self.held[1]) if self.held else {'k': 'x'}
        ev('save', w=shown, how=how, fault=fault or (NAMES[mode] if not interrupt and fsize is None else 'interrupt' if interrupt else 'size'), at=at, err=err, budget=budget,
           after=after, before=before)
        if after == shown:
            self.held = (shown, pw)
        n = told.split()
        return int(n[0]) if n else 0, how

    def record(self, w, pw):
        """A save with what it asked of the file system."""
        old = open(self.file, 'rb').read()
        others = [(f, open(os.path.join(self.dir, f), 'rb').read()) for f in sorted(os.listdir(self.dir)) if os.path.isfile(os.path.join(self.dir, f)) and os.path.join(self.dir, f) != self.file]
        LIB.ff_arm(self.dir.encode(), 0, 0, 0, ctypes.c_long(-1))
        r = call(W.saveTo, self.name, w, pw)
        LIB.ff_off()
        text = LIB.ff_log().decode('utf-8', 'replace')
        new = open(self.file, 'rb').read()
        name = lambda p: 'file' if os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p)) == self.file else os.path.basename(p)
        ops = []
        for l in text.splitlines():
            x = l.split(' ')
            k = x[0]
            if k == 'open':
                p = ' '.join(x[3:]); fl = int(x[2])
                if os.path.isdir(p): fl = 0
                ops.append({'op': 'open', 'fd': int(x[1]), 'creat': fl & 1, 'trunc': fl >> 1 & 1, 'app': fl >> 2 & 1, 'path': name(p)})
            elif k == 'write': ops.append({'op': 'write', 'fd': int(x[1]), 'at': -1, 'b': by(bytes.fromhex(x[2]))})
            elif k == 'pwrite': ops.append({'op': 'write', 'fd': int(x[1]), 'at': int(x[2]), 'b': by(bytes.fromhex(x[3]))})
            elif k in ('fsync', 'close'): ops.append({'op': k, 'fd': int(x[1])})
            elif k == 'sync': ops.append({'op': k})
            elif k in ('rename', 'link'): ops.append(dict(zip(('path', 'to'), map(name, l[len(k) + 1:].split('\t'))), op=k))
            elif k == 'unlink': ops.append({'op': k, 'path': name(l[len(k) + 1:])})
            elif k == 'ftruncate': ops.append({'op': k, 'fd': int(x[1]), 'n': int(x[2])})
            elif k == 'truncate': ops.append({'op': k, 'n': int(x[1]), 'path': name(' '.join(x[2:]))})
        shown = show(w)
        ev('save', w=shown, how='returned' if r['k'] != 'x' else 'raised', fault='none', after=self.load(pw), before=self.load(self.held[1]))
        self.held = (shown, pw)
        if r['k'] != 'x':
            ev('power', files=[['file', by(old)]] + [[f, by(b)] for (f, b) in others], old=by(old), new=by(new), ops=ops)


def signal_off():
    import signal
    signal.alarm(0)


def start(kind='plain'):
    p = Place(kind)
    w, pw = some_wallet(), some_pass()
    n, how = p.save(w, pw)
    return p, n


def every_point():
    """One save over another, with each fault at each call."""
    k, m = shard()
    cases = [(mode, at, e) for mode in (KILL, KILLAFTER, KILLIN) for at in range(1, 14) for e in (0,)]
    cases += [(mode, at, e) for mode in (FAIL, FAILON) for at in range(1, 14) for e in (ERRS[:2] if q else ERRS)]
    for rep in range(1 if q else 4):
        p = None
        for i, (mode, at, e) in enumerate(cases[k::m]):
            if p is None or rnd.random() < .15:
                if p: p.end()
                p, n = start(rnd.choice(['plain', 'plain', 'relative', 'link', 'odd name', 'litter']))
            if at > n + 3:
                continue
            p.save(some_wallet(), some_pass(), mode, at, e or errno.ENOSPC)
            if rnd.random() < .2:
                p.save(some_wallet(), some_pass())
        p.end()


def full_disk():
    p, n = start()
    for i in share(30 if q else 300):
        w, pw = some_wallet(), some_pass()
        b = rnd.choice([0, 1, 2, 10, 100, 511, 512, rnd.randrange(700), rnd.randrange(700)])
        if rnd.random() < .6:
            p.save(w, pw, BYTES, 0, rnd.choice(ERRS[:2]), b)
        else:
            p.save(w, pw, fsize=b)
        if rnd.random() < .1:
            p.save(some_wallet(), some_pass())
    p.end()


def interrupted():
    p, n = start()
    for i in share(40 if q else 600):
        p.save(some_wallet(), some_pass(), interrupt=rnd.randrange(1, 45) if rnd.random() < .8 else rnd.randrange(1, 400))
    p.end()


def unserialisable():
    p, n = start()
    for i in share(24 if q else 200):
        x = rnd.random()
        if x < .8: p.save(odd(), some_pass(), fault='odd')
        elif x < .9: p.save(some_wallet(), rnd.choice([123, object(), ['pw'], 1.5]), fault='oddpass')
        else: p.save(some_wallet(), some_pass())
    p.end()


def power():
    for i in share(16 if q else 160):
        p, n = start(rnd.choice(['plain', 'plain', 'relative', 'odd name', 'litter']))
        for _ in range(rnd.choice([1, 2, 3])):
            if p.held: p.record(some_wallet(), some_pass())
        p.end()


def hindered():
    for i in share(4 if q else 16):
        p, n = start()
        for x in ('.tmp', '~', '.bak', '.new', '.old'):
            os.mkdir(p.name + x)
        p.save(some_wallet(), some_pass(), fault='busy')
        p.end()


def generated():
    """Histories generated by TLC from spec/SaveModel.tla."""
    if not SCEN:
        return
    k, m = shard()
    for line in list(open(SCEN))[k::m]:
        acts = json.loads(line)
        p, n = start(rnd.choice(['plain', 'link', 'litter']))
        i = 0
        while i < len(acts):
            a = acts[i]; i += 1
            if a['k'] != 'save':
                continue
            b = acts[i] if i < len(acts) and acts[i]['k'] != 'save' else None
            if b is None or b['k'] == 'loss' or b['at'] == 0:
                p.save(some_wallet(), some_pass())
            else:
                p.save(some_wallet(), some_pass(), rnd.choice([KILL, KILLAFTER, KILLIN] if b['k'] == 'kill' else [FAIL, FAILON]), b['at'])
        p.end()


for f in (every_point, full_disk, interrupted, unserialisable, power, hindered, generated):
    f()
out_.end()
