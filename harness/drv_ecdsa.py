"""Records calls of nbc.util.ecdsa for C21 - C26."""
import hashlib
from common import *

PROP, TIER, SEED, OUT = args()
quiet()
rnd = random.Random(SEED * 1000003 + int(PROP[1:]))
BIG = TIER == 'thorough'
out = Out(OUT)

from nbc.util.ecdsa import ecdsa as E, ellipticcurve as C, numbertheory as N, der as D, rfc6979 as F
from nbc.util.ecdsa import util as U, keys as K, curves as V

INF = C.INFINITY
CURVES = {c.name: c for c in V.curves}
NAMES = ['NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1']


def P(p):
    """point -> list"""
    return [] if p is None or p == INF else [nat(p.x()), nat(p.y())]


def RPt(p):
    return {'k': 'p', 'l': P(p)}


def isprime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** 0.5) + 1))


class Toy(object):
    """A small curve with all its points, worked out here only to choose inputs."""

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a % p, b % p
        self.c = [nat(p), nat(self.a), nat(self.b)]
        self.pts = [None] + [(x, y) for x in range(p) for y in range(p)
                             if (y * y - x ** 3 - a * x - b) % p == 0]
        self.fp = C.CurveFp(p, a, b)

    def add(self, P1, Q):
        if P1 is None: return Q
        if Q is None: return P1
        p = self.p
        if P1[0] == Q[0]:
            if (P1[1] + Q[1]) % p == 0: return None
            l = (3 * P1[0] ** 2 + self.a) * pow(2 * P1[1], -1, p)
        else:
            l = (Q[1] - P1[1]) * pow(Q[0] - P1[0], -1, p)
        x = (l * l - P1[0] - Q[0]) % p
        return (x, (l * (P1[0] - x) - P1[1]) % p)

    def order(self, P1):
        k, Q = 1, P1
        while Q is not None:
            Q = self.add(Q, P1); k += 1
        return k

    def point(self, q, order=None):
        return INF if q is None else C.Point(self.fp, q[0], q[1], order)

    @staticmethod
    def enc(q):
        return [] if q is None else [nat(q[0]), nat(q[1])]


def toys():
    ts = [Toy(23, 1, 1), Toy(7, 2, 1), Toy(5, 1, 1), Toy(11, 1, 6), Toy(13, -3, 7), Toy(17, 0, 7), Toy(19, 2, 2),
          Toy(23, 1 - 23, 1), Toy(11, -1, 6 - 22), Toy(13, -2 + 39, 5 + 13), Toy(17, -5, -3)]
    for p in ([29, 31, 37, 43, 61] if not BIG else [29, 31, 37, 41, 43, 47, 53, 59, 61, 67]):
        for i in range(1 if not BIG else 3):
            while True:
                a, b = rnd.randrange(-3, p), rnd.randrange(p)
                if (4 * a ** 3 + 27 * b * b) % p:
                    break
            ts.append(Toy(p, a, b))
    return ts


def prime_order_groups(ts):
    """(toy, base point, n) with n prime, covering n < p, n > p and proper subgroups"""
    res = []
    for t in ts:
        seen = set()
        for q in t.pts[1:]:
            n = t.order(q)
            if n > 3 and isprime(n) and n not in seen:
                seen.add(n)
                res.append((t, q, n))
    return res


# ------------------------------------------------------------------------------ C21
def c21():
    ts = toys()
    npairs = 400 if not BIG else 100000
    for t in ts:
        prs = [(a, b) for a in t.pts for b in t.pts]
        special = [(a, b) for (a, b) in prs if a is None or b is None or (a[0] == b[0])]
        rest = [x for x in prs if x not in set(special)]
        rnd.shuffle(rest)
        if not BIG:
            rnd.shuffle(special)
            special = special[:120]
        for (a, b) in special + rest[:max(0, npairs // len(ts) * 2 - len(special))]:
            out.ev('ec.add', c=t.c, P=t.enc(a), Q=t.enc(b), r=call(lambda: t.point(a) + t.point(b), _conv=RPt))
        for a in t.pts:
            out.ev('ec.dbl', c=t.c, P=t.enc(a), r=call(lambda: t.point(a).double(), _conv=RPt))
            n = 1 if a is None else t.order(a)
            # multipliers up to beyond the order, with and without the order known to the point
            ks = range(2 * n + 3) if BIG and t.p < 40 else sorted(set([0, 1, 2, 3, n - 1, n, n + 1, 2 * n, 2 * n + 1] + [rnd.randrange(2 * n + 5) for _ in range(4)]))
            for k in ks:
                if k < 0: continue
                out.ev('ec.mulsum', c=t.c, n=k, P=t.enc(a), r=call(lambda: (t.point(a) * k) if k % 2 else (k * t.point(a)), _conv=RPt))
                if a is not None and (BIG or k in (0, 1, n - 1, n, n + 1, 2 * n)):
                    out.ev('ec.mulsum', c=t.c, n=k, P=t.enc(a), r=call(lambda: t.point(a, n) * k, _conv=RPt))
                if k and (BIG or k < 4 or k >= n - 1):
                    if a is not None:
                        out.ev('ec.mulneg', c=t.c, n=k, P=t.enc(a), known=1, r=call(lambda: (t.point(a, n) * -k) if k % 2 else (-k * t.point(a, n)), _conv=RPt))
                    out.ev('ec.mulneg', c=t.c, n=k, P=t.enc(a), known=0, r=call(lambda: t.point(a) * -k, _conv=RPt))
        for (a, b) in rnd.sample(prs, min(len(prs), 40)) + [(a, a) for a in t.pts[:6]]:
            out.ev('ec.eq', P=t.enc(a), Q=t.enc(b), r=call(lambda: t.point(a) == t.point(b)))
        # construction on and off the curve, coordinates also beyond the field
        grid = [(x, y) for x in range(t.p) for y in range(t.p)]
        if not BIG and len(grid) > 60:
            grid = rnd.sample(grid, 40) + rnd.sample(t.pts[1:], min(20, len(t.pts) - 1))
        for (x, y) in grid + [(x + t.p, y) for (x, y) in rnd.sample(t.pts[1:], min(3, len(t.pts) - 1))]:
            out.ev('ec.mk', c=t.c, x=nat(x), y=nat(y), r=call(C.Point, t.fp, x, y, _conv=RPt))
            out.ev('ec.on', c=t.c, x=nat(x), y=nat(y), r=call(t.fp.contains_point, x, y))
    for (t, g, n) in prime_order_groups(ts):
        G = t.point(g, n)
        grid = [(x, y) for x in range(t.p) for y in range(t.p)]
        grid = (grid if BIG and t.p < 40 else rnd.sample(grid, 12)) + t.pts[1:]
        grid += [(x + t.p, y) for (x, y) in t.pts[1:4]] + [(x, y + t.p) for (x, y) in t.pts[1:4]] + [(x, t.p) for (x, y) in t.pts[1:] if y == 0]
        for (x, y) in grid:
            out.ev('ec.valid', c=t.c, n=nat(n), x=nat(x), y=nat(y), r=call(E.point_is_valid, G, x, y))
            out.ev('ec.pub', c=t.c, n=nat(n), x=nat(x), y=nat(y),
                   r=call(lambda: E.Public_key(G, C.Point(t.fp, x, y)).point is not None))
    # groups of composite order, points of order two among them
    for t in ts:
        g = max(t.pts[1:], key=t.order)
        n = t.order(g)
        if isprime(n): continue
        G = t.point(g, n)
        for (x, y) in [q for q in t.pts[1:] if q[0] == 0 or q[1] == 0 or BIG] + rnd.sample(t.pts[1:], min(8, len(t.pts) - 1)) + [(rnd.randrange(t.p), rnd.randrange(t.p)), (0, 0)]:
            out.ev('ec.valid', c=t.c, n=nat(n), x=nat(x), y=nat(y), r=call(E.point_is_valid, G, x, y))
            out.ev('ec.pub', c=t.c, n=nat(n), x=nat(x), y=nat(y),
                   r=call(lambda: E.Public_key(G, C.Point(t.fp, x, y)).point is not None))
    # orders claimed for points
    for t in ts:
        for q in rnd.sample(t.pts[1:], min(5 if not BIG else 30, len(t.pts) - 1)):
            o = t.order(q)
            for n in sorted(set([1, 2, o - 1, o, o + 1, 2 * o, 3 * o, o // 2, rnd.randrange(1, 3 * o)])):
                if n > 0:
                    out.ev('ec.order', c=t.c, n=n, P=t.enc(q), r=call(C.Point, t.fp, q[0], q[1], n, _conv=RPt))
    # points of different curves, equal coordinates among them
    by_xy = {}
    for t in ts:
        for q in t.pts[1:]: by_xy.setdefault(q, []).append(t)
    both = [(q, a, b) for q, l in by_xy.items() for a in l for b in l if a.c != b.c]
    for (q, a, b) in rnd.sample(both, min(40 if not BIG else 1000, len(both))):
        q2 = rnd.choice(b.pts[1:])
        for y in (q, q2):
            out.ev('ec.other', r=call(lambda: a.point(q) == b.point(y)))
            out.ev('ec.mix', r=call(lambda: a.point(q) + b.point(y), _conv=RPt))
    for name in NAMES:
        cv = CURVES[name]
        g, n, p = cv.generator, cv.order, cv.curve.p()
        c = [nat(p), nat(cv.curve.a() % p), nat(cv.curve.b() % p)]
        plain = C.Point(cv.curve, g.x(), g.y())
        for k in [0, 1, 2, 3, n - 1, n, n + 1, n + 2, 2 * n - 1, rnd.getrandbits(n.bit_length()), 2 ** (n.bit_length() - 1),
                  2 ** (n.bit_length() - 1) - 1] + [rnd.randrange(n) for _ in range(2 if not BIG else 12)]:
            out.ev('ec.mul', c=c, k=nat(k), P=P(g), r=call(lambda: (g if k % 2 else plain) * k, _conv=RPt))
            if k and rnd.random() < .4:
                out.ev('ec.mulnegb', c=c, k=nat(k), P=P(g), r=call(lambda: g * -k, _conv=RPt))
        A, B = g * rnd.randrange(1, n), g * rnd.randrange(1, n)
        Am = C.Point(cv.curve, A.x(), p - A.y())
        for (a, b) in [(A, B), (A, A), (A, Am), (A, INF), (INF, B), (INF, INF), (B, Am)]:
            out.ev('ec.add', c=c, P=P(a), Q=P(b), r=call(lambda: a + b, _conv=RPt))
        for (x, y) in [(A.x(), A.y()), (A.x(), p - A.y()), (A.x() ^ 1, A.y()), (A.x() + p, A.y()), (A.x(), A.y() + p), (0, 0), (p, p)]:
            out.ev('ec.valid', c=c, n=nat(n), x=nat(x), y=nat(y), r=call(E.point_is_valid, g, x, y))
            out.ev('ec.mk', c=c, x=nat(x), y=nat(y), r=call(C.Point, cv.curve, x, y, _conv=RPt))


# ------------------------------------------------------------------------------ C22
SIGENC = {'string': (U.sigencode_string, U.sigdecode_string), 'strings': (U.sigencode_strings, U.sigdecode_strings),
          'der': (U.sigencode_der, U.sigdecode_der)}
CANON = {'string_c': U.sigencode_string_canonize, 'strings_c': U.sigencode_strings_canonize, 'der_c': U.sigencode_der_canonize}


def encf(enc):
    return CANON[enc] if enc in CANON else SIGENC[enc][0]


def sig_rec(s):
    return R(s)


def scalars(n):
    return [1, 2, n - 1, n - 2, n // 2, n // 2 + 1] + [rnd.randrange(1, n) for _ in range(3)]


def find_x_between(cv):
    """a point whose abscissa lies in [n, p)"""
    p, n = cv.curve.p(), cv.order
    if p <= n: return None
    for i in range(200):
        x = n + i if i < 100 else rnd.randrange(n, p)
        if x >= p: continue
        z = (x ** 3 + cv.curve.a() * x + cv.curve.b()) % p
        if z and N.jacobi(z, p) == 1:
            return C.Point(cv.curve, x, N.square_root_mod_prime(z, p))


def c22():
    gs = prime_order_groups(toys())
    gs.sort(key=lambda g: g[2])
    for (t, g, n) in gs:
        G = t.point(g, n)
        ds = range(1, n) if n < 14 else sorted(set([1, n - 1] + [rnd.randrange(1, n) for _ in range(3 if not BIG else 10)]))
        for d in ds:
            q = g
            for _ in range(d - 1): q = t.add(q, g)
            try:
                pub = E.Public_key(G, t.point(q)); prv = E.Private_key(pub, d)
            except BaseException as x:
                out.ev('verify', c=t.c, G=t.enc(g), n=nat(n), Q=t.enc(q), e=[], rs=[[1], [1]], r={'k': 'x', 'e': 'cannot build key'})
                continue
            ks = list(range(0, n + 2)) if n < 14 else [0, 1, n - 1, n, n + 1] + [rnd.randrange(1, n) for _ in range(4)]
            for k in ks:
                es = range(0, n + 2) if (BIG and n < 14) else [0, rnd.randrange(n), n, n + 1, rnd.randrange(4 * n)]
                # the digest that makes s vanish
                if n < 60 and k % n:
                    kg = None
                    for _ in range(k % n): kg = t.add(kg, g)
                    es = list(es) + [(-d * (kg[0] % n)) % n]
                for e in es:
                    def conv(s): return {'k': 'l', 'l': [R(s.r), R(s.s)]}
                    out.ev('sign', c=t.c, G=t.enc(g), n=nat(n), d=nat(d), k=nat(k), e=nat(e), r=call(prv.sign, e, k, _conv=conv))
            lim = 40 if not BIG else (4000 if n < 12 else 300)
            allv = [(e, r, s) for e in range(n + 1) for r in range(n + 2) for s in range(n + 2)] if n < 20 else \
                   [(rnd.randrange(2 * n), rnd.randrange(n + 3), rnd.randrange(n + 3)) for _ in range(600)]
            pick = rnd.sample(allv, min(lim, len(allv)))
            # sums that lead to infinity, and valid ones
            for _ in range(6):
                s, r = rnd.randrange(1, n), rnd.randrange(1, n)
                pick.append((-r * d % n, r, s))
                k, e = rnd.randrange(1, n), rnd.randrange(n)
                kg = None
                for _ in range(k): kg = t.add(kg, g)
                r = kg[0] % n
                s = pow(k, -1, n) * (e + r * d) % n
                pick += [(e, r, s), (e + n, r, s), (e, r, n - s), (e, r + n, s), (e, r, s + n), (e, kg[0], s)]
            for (e, r, s) in pick:
                out.ev('verify', c=t.c, G=t.enc(g), n=nat(n), Q=t.enc(q), e=nat(e), rs=[nat(r), nat(s)],
                       r=call(pub.verifies, e, E.Signature(r, s)))
    # what is a public key
    for (t, g, n) in gs:
        G = t.point(g, n)
        for q in rnd.sample(t.pts[1:], min(len(t.pts) - 1, 4 if not BIG else 20)) + [g]:
            for (x, y) in {(q[0], q[1]), (q[0], (t.p - q[1]) % t.p), (q[0] + t.p, q[1]), (q[0], q[1] + t.p), (q[0] - t.p, q[1]), (q[0], q[1] - t.p)} | ({(t.p, q[1])} if q[0] == 0 else set()):
                if x < 0 or y < 0:
                    if call(lambda: E.Public_key(G, C.Point(t.fp, x, y)) is not None)['k'] != 'x':
                        out.ev('validpub', c=t.c, n=nat(n), Q=[], r={'k': 't'})
                    continue
                out.ev('validpub', c=t.c, n=nat(n), Q=[nat(x), nat(y)], r=call(lambda: E.Public_key(G, C.Point(t.fp, x, y)) is not None))
            # the order of the generator, claimed for the point
            out.ev('validpub', c=t.c, n=nat(n), Q=t.enc(q), r=call(lambda: E.Public_key(G, C.Point(t.fp, q[0], q[1], n)) is not None))
        out.ev('validpub', c=t.c, n=nat(n), Q=[], r=call(lambda: E.Public_key(G, INF) is not None))
        out.ev('validpub', c=t.c, n=[], Q=t.enc(g), r=call(lambda: E.Public_key(C.Point(t.fp, *g), t.point(g)) is not None))
    # standard curves
    for name in NAMES:
        cv = CURVES[name]
        n, p = cv.order, cv.curve.p()
        c = [nat(p), nat(cv.curve.a() % p), nat(cv.curve.b() % p)]
        G = cv.generator
        L = cv.baselen
        for j, d in enumerate([1, n - 1, rnd.randrange(1, n)] if not BIG else scalars(n)):
            sk = K.SigningKey.from_secret_exponent(d, cv)
            vk = sk.get_verifying_key()
            Q = P(vk.pubkey.point)
            for enc in (['string', 'strings', 'der', 'string_c', 'strings_c', 'der_c'] if BIG or j == 2 else ['string', 'der_c']):
                dig = bytes(rnd.getrandbits(8) for _ in range(rnd.choice([1, L - 1, L, 20])))
                if rnd.random() < 0.4: dig = b'\x00' * 3 + dig[3:] if len(dig) > 3 else b'\x00'
                if rnd.random() < 0.3: dig = b'\xff' * L
                k = rnd.choice(scalars(n))
                r = call(sk.sign_digest, dig, sigencode=encf(enc), k=k)
                out.ev('ksign', cv=name, d=nat(d), k=nat(k), dig=by(dig), enc=enc, r=r)
                dec = enc.split('_')[0]
                if r['k'] in 'bl':
                    sig = bytes(r['v']) if r['k'] == 'b' else [bytes(x['v']) for x in r['l']]
                    cases = [(sig, dig), (sig, dig[:-1] + bytes([dig[-1] ^ 1]))]
                    long = bytes(L + 1 - len(dig)) + dig             # the same number, but too long a digest
                    if rnd.random() < (.1 if not BIG else .3):
                        out.ev('kverify', cv=name, Q=Q, enc=dec, sig=sig_rec(sig), dig=by(long), r=call(vk.verify_digest, sig, long, sigdecode=SIGENC[dec][1]))
                    if isinstance(sig, bytes):
                        cases += [(sig[:-1], dig), (sig + b'\0', dig), (sig[:-1] + bytes([sig[-1] ^ 1]), dig)]
                    rr, ss = SIGENC[dec][1](sig, n)
                    cases.append((SIGENC[dec][0](rr, n - ss, n), dig))
                    if rr + n < 256 ** L: cases.append((SIGENC[dec][0](rr + n, ss, n), dig))
                    if ss + n < 256 ** L: cases.append((SIGENC[dec][0](rr, ss + n, n), dig))
                    cases.append((SIGENC[dec][0](0, ss, n), dig)); cases.append((SIGENC[dec][0](rr, 0, n), dig))
                    cases.append((SIGENC[dec][0](n if n < 256 ** L else 0, ss, n), dig))
                    if not BIG:
                        cases = cases[:1] + rnd.sample(cases[1:], min(3, len(cases) - 1))
                    for (sg, dg) in cases:
                        out.ev('kverify', cv=name, Q=Q, enc=dec, sig=sig_rec(sg), dig=by(dg),
                               r=call(vk.verify_digest, sg, dg, sigdecode=SIGENC[dec][1]))
                # nonce outside the range
            for k in (0, n, n + 1):
                out.ev('ksign', cv=name, d=nat(d), k=nat(k), dig=[7], enc='string', r=call(sk.sign_digest, b'\x07', k=k))
            # digests longer than the curve allows
            for (ln, z) in ((L + 1, 0), (L + 1, 1), (2 * L + 5, rnd.choice([0, 1, L + 5]))):
                dig = bytes(z) + bytes(rnd.getrandbits(8) for _ in range(ln - z))
                out.ev('ksign', cv=name, d=nat(d), k=nat(7), dig=by(dig), enc='string', r=call(sk.sign_digest, dig, k=7))
                sg = sk.sign_digest(dig[:L], k=7)
                out.ev('kverify', cv=name, Q=Q, enc='string', sig=R(sg), dig=by(dig), r=call(vk.verify_digest, sg, dig))
            # nonces drawn by the key itself; hash functions and round trip through verify
            for enc in ['string', 'der'] if not BIG else ['string', 'strings', 'der', 'string_c', 'strings_c', 'der_c']:
                data = bytes(rnd.getrandbits(8) for _ in range(rnd.randrange(40)))
                hf = rnd.choice([h for h in (hashlib.sha1, hashlib.sha224, hashlib.sha256, hashlib.sha384, hashlib.sha512)
                                 if h().digest_size <= L])
                r = call(sk.sign, data, hashfunc=hf, sigencode=encf(enc))
                dec = enc.split('_')[0]
                sg = bytes(r['v']) if r['k'] == 'b' else [bytes(x['v']) for x in r.get('l', [])]
                out.ev('kfresh', cv=name, Q=Q, enc=dec, dig=by(hf(data).digest()), r=r,
                       v=call(vk.verify, sg, data, hashfunc=hf, sigdecode=SIGENC[dec][1]))
        # the hash function a key was made with, in every way to make one
        for hf in [h for h in (hashlib.sha1, hashlib.sha224, hashlib.sha256, hashlib.sha384, hashlib.sha512) if h().digest_size <= L]:
            d = rnd.randrange(1, n); ds = d.to_bytes(L, 'big')
            sk0 = K.SigningKey.from_secret_exponent(d, cv)
            Q = P(sk0.get_verifying_key().pubkey.point)
            qs, pt = bytes(sk0.get_verifying_key().to_string()), sk0.get_verifying_key().pubkey.point
            pem, der_ = sk0.to_pem(), sk0.to_der()
            sks = [lambda: K.SigningKey.from_secret_exponent(d, cv, hf), lambda: K.SigningKey.from_string(ds, cv, hf), lambda: K.SigningKey.from_der(der_, hf), lambda: K.SigningKey.from_pem(pem, hf)]
            vks = [lambda s: s.get_verifying_key(), lambda s: K.VerifyingKey.from_string(qs, cv, hf), lambda s: K.VerifyingKey.from_public_point(pt, cv, hf)]
            data = bytes(rnd.getrandbits(8) for _ in range(rnd.randrange(40)))
            for (f, g) in [(rnd.choice(sks), rnd.choice(vks)) for _ in range(2 if not BIG else 8)]:
                sk = f()
                if rnd.random() < .5:
                    r = call(sk.sign, data)
                else:
                    r = call(sk.sign_deterministic, data)
                out.ev('kfresh', cv=name, Q=Q, enc='string', dig=by(hf(data).digest()), r=r, v=call(lambda: g(sk).verify(bytes(r.get('v', [])), data)))
                # one given with the call comes before it
                h2 = rnd.choice([h for h in (hashlib.sha1, hashlib.sha224, hashlib.sha256) if h is not hf and h().digest_size <= L] or [hf])
                r = call(rnd.choice([sk.sign, sk.sign_deterministic]), data, hashfunc=h2)
                out.ev('kfresh', cv=name, Q=Q, enc='string', dig=by(h2(data).digest()), r=r, v=call(lambda: g(sk).verify(bytes(r.get('v', [])), data, hashfunc=h2)))
        # a signature whose nonce point has its abscissa between n and p: r is the remainder
        X = find_x_between(cv)
        if X is not None:
            r = X.x() % n
            if r:
                # the public key for which (r, s) signs e with that point: Q = r^-1 (s X - e G)
                for i in range(2 if not BIG else 6):
                    s, e = rnd.randrange(1, n), rnd.randrange(n)
                    Xo = C.Point(cv.curve, X.x(), X.y())
                    Qp = (Xo * s + G * ((-e) % n)) * pow(r, -1, n)
                    pub = E.Public_key(G, Qp)
                    for (ee, rr) in ((e, r), (e ^ 1, r), (e, X.x())):
                        out.ev('verify', c=c, G=P(G), n=nat(n), Q=P(Qp), e=nat(ee), rs=[nat(rr), nat(s)],
                               r=call(pub.verifies, ee, E.Signature(rr, s)))
        # encodings on their own
        for r in scalars(n) + [255, 256 ** (L - 1) - 1, 256 ** (L - 1), 128 * 256 ** 3]:
            for enc in ('string', 'strings', 'der', 'string_c', 'strings_c', 'der_c'):
                if r >= n: continue
                s = rnd.choice([r, n // 2, n // 2 + 1, 1, n - 1, rnd.randrange(1, n)])
                out.ev('enc', enc=enc, n=nat(n), rs=[nat(r), nat(s)], r=call(encf(enc), r, s, n))
        for _ in range(6 if not BIG else 60):
            r, s = rnd.choice(scalars(n) + [rnd.getrandbits(8)]), rnd.choice(scalars(n) + [rnd.getrandbits(16)])
            for enc in ('string', 'strings', 'der'):
                sg = SIGENC[enc][0](r, s, n)
                vs = [sg]
                if enc == 'strings':
                    vs += [(sg[0][1:], sg[1]), (sg[0], sg[1] + b'\0')]
                else:
                    vs += [sg[:-1], sg + b'\1', sg[1:], bytearray_flip(sg, rnd.randrange(len(sg)))]
                if enc == 'der':                                     # junk inside the sequence
                    body = b''.join(tlv(2, x.to_bytes(x.bit_length() // 8 + 1, 'big')) for x in (r, s))
                    vs += [tlv(0x30, body + j) for j in (b'\2\1\1', b'\0', b'\5\0', bytes([rnd.getrandbits(8)]))]
                for v in vs:
                    out.ev('dec', enc=enc, n=nat(n), sig=R(v), r=call(SIGENC[enc][1], v, n))


def bytearray_flip(s, i):
    b = bytearray(s); b[i] ^= 1 << rnd.randrange(8)
    return bytes(b)


# ------------------------------------------------------------------------------ C23
class Gen(object):
    def __init__(self, q): self.q = q
    def order(self): return self.q


HN = {'SHA1': hashlib.sha1, 'SHA224': hashlib.sha224, 'SHA256': hashlib.sha256, 'SHA384': hashlib.sha384, 'SHA512': hashlib.sha512}


def c23():
    rep = 1 if not BIG else 12
    orders = [CURVES[n].order for n in NAMES]
    for q in orders:
        for h in HN:
            for _ in range(rep):
                x = rnd.choice(scalars(q) + [255, 256])
                data = HN[h](bytes([rnd.getrandbits(8)])).digest()
                if rnd.random() < .2: data = b'\xff' * len(data)
                if rnd.random() < .2: data = b'\0' * (len(data) - 1) + b'\1'
                out.ev('rfc', q=nat(q), x=nat(x), h=h, data=by(data), r=call(F.generate_k, Gen(q), x, HN[h], data))
    # orders of awkward sizes: bit lengths around multiples of eight and of the hash length, with
    # leading bits that force the retry step
    lens = sorted(set([4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 153, 159, 160, 161, 163, 233, 255, 256, 257, 283, 409, 511, 512, 513, 521, 571]))
    for ql in lens:
        for _ in range(2 if not BIG else 10):
            q = rnd.choice([2 ** (ql - 1) + 1, 2 ** ql - 1, 2 ** (ql - 1) + rnd.getrandbits(max(1, ql - 2)), 2 ** (ql - 1) + 3 * 2 ** max(0, ql - 5) + 1])
            for h in (HN if BIG else rnd.sample(sorted(HN), 3)):
                x = rnd.randrange(1, q)
                data = bytes(rnd.getrandbits(8) for _ in range(HN[h]().digest_size if rnd.random() < .7 else rnd.choice([1, 2, 20, 32, 64])))
                out.ev('rfc', q=nat(q), x=nat(x), h=h, data=by(data), r=call(F.generate_k, Gen(q), x, HN[h], data))
    # tiny orders: several retries in a row are common
    for q in [3, 5, 7, 9, 11, 17, 19, 129, 131, 257, 263, 2 ** 13 + 1]:
        for h in ('SHA1', 'SHA256', 'SHA512'):
            for _ in range(2 if not BIG else 20):
                data = bytes(rnd.getrandbits(8) for _ in range(HN[h]().digest_size))
                x = rnd.randrange(1, q)
                out.ev('rfc', q=nat(q), x=nat(x), h=h, data=by(data), r=call(F.generate_k, Gen(q), x, HN[h], data))
    for name in NAMES:
        cv = CURVES[name]
        for _ in range(2 if not BIG else 8):
            d = rnd.choice(scalars(cv.order))
            sk = K.SigningKey.from_secret_exponent(d, cv)
            h = rnd.choice([h for h in HN if HN[h]().digest_size <= cv.baselen])
            data = bytes(rnd.getrandbits(8) for _ in range(rnd.randrange(50)))
            f = lambda: sk.sign_deterministic(data, hashfunc=HN[h], sigencode=U.sigencode_string)
            a = call(f)
            call(sk.sign_deterministic, b'other', hashfunc=HN[h])
            out.ev('detsign', cv=name, d=nat(d), h=h, data=by(data), r=a, r2=call(f))
            # with the hash function of the key
            sk = K.SigningKey.from_secret_exponent(d, cv, HN[h])
            out.ev('detsign', cv=name, d=nat(d), h=h, data=by(data), r=call(sk.sign_deterministic, data), r2=a)


# ------------------------------------------------------------------------------ C24
PRIMES = [p for p in range(2, 1400) if isprime(p)]
BIGP = [2 ** 31 - 1, 2 ** 61 - 1, 2 ** 89 - 1, 2 ** 107 - 1, 2 ** 127 - 1, 2 ** 521 - 1] + [CURVES[n].curve.p() for n in NAMES] + [CURVES[n].order for n in NAMES]


def c24():
    S = 1 if not BIG else 8
    # inverse
    for m in list(range(2, 30 if not BIG else 80)):
        for a in range(0, m + 3):
            out.ev('nt.inv', a=nat(a), m=nat(m), r=call(N.inverse_mod, a, m))
            if a and gcd(a, m) == 1:
                out.ev('nt.invneg', a=nat(a), m=nat(m), r=call(N.inverse_mod, -a, m))
    for p in BIGP:
        for a in [1, 2, p - 1, p + 1, rnd.randrange(p), rnd.randrange(p * p)]:
            out.ev('nt.inv', a=nat(a), m=nat(p), r=call(N.inverse_mod, a, p))
        for a in [1, 2, rnd.randrange(1, p)]:
            out.ev('nt.invneg', a=nat(a), m=nat(p), r=call(N.inverse_mod, -a, p))
            e = rnd.randrange(p)
            out.ev('nt.exp', a=nat(a), e=nat(e), m=nat(p), r=call(N.modular_exp, a, e, p))
    for _ in range(60 * S):
        a, e, m = rnd.getrandbits(rnd.choice([3, 8, 70])), rnd.choice([0, 1, 2, rnd.getrandbits(6), rnd.getrandbits(90)]), rnd.choice([1, 2, 3, rnd.randrange(1, 200), rnd.getrandbits(100) + 1])
        out.ev('nt.exp', a=nat(a), e=nat(e), m=nat(m), r=call(N.modular_exp, a, e, m))
        out.ev('nt.expneg', a=nat(a), e=nat(e), m=nat(m), r=call(N.modular_exp, a, -1 - e, m))
    # square roots
    small = [p for p in PRIMES if p < (60 if not BIG else 300)]
    for p in small:
        for a in range(p):
            out.ev('nt.sqrt', a=nat(a), p=nat(p), r=call(N.square_root_mod_prime, a, p))
    for p in [q for q in PRIMES if q % 16 == 1 or q % 8 == 5][-12:] + [257, 193, 769, 12289, 65537, 40961] + BIGP:
        for i in range(3 * S if p.bit_length() < 300 else 2):
            a = rnd.randrange(p)
            if i % 2: a = a * a % p
            out.ev('nt.sqrt', a=nat(a), p=nat(p), r=call(N.square_root_mod_prime, a, p))
    # squares for which the search for an irreducible polynomial is long
    def first(a, p):
        b = 2
        while pow(b * b - 4 * a, (p - 1) // 2, p) != p - 1: b += 1
        return b
    for (p, tries) in ((12289, 3000), (65537, 6000), (40961, 3000), (2 ** 64 - 2 ** 32 + 1, 12000), (CURVES['NIST224p'].curve.p(), 1000)):
        sq = [pow(rnd.randrange(1, p), 2, p) for _ in range(tries)]
        for a in sorted(sq, key=lambda a: -first(a, p))[:3]:
            out.ev('nt.sqrt', a=nat(a), p=nat(p), r=call(N.square_root_mod_prime, a, p))
    # jacobi
    for n in range(0, 46 if not BIG else 130):
        for a in (range(0, n + 2) if n % 2 else [1]):
            out.ev('nt.jacobi', a=a, n=n, r=call(N.jacobi, a, n))
    for _ in range(60 * S):
        n = rnd.randrange(3, 3000) | 1; a = rnd.randrange(0, 2 * n)
        out.ev('nt.jacobi', a=a, n=n, r=call(N.jacobi, a, n))
    for p in BIGP:
        for a in [0, 1, 2, 3, p - 1, p - 2, p, rnd.randrange(p), rnd.randrange(p), 2 ** 9 * rnd.randrange(1000)]:
            out.ev('nt.legendre', a=nat(a % p), p=nat(p), r=call(N.jacobi, a, p))
    for _ in range(40 * S):
        n = rnd.randrange(3, 400) | 1; a = -rnd.randrange(1, 3 * n)
        out.ev('nt.jacobi', a=a, n=n, r=call(N.jacobi, a, n))
    # polynomials
    for i in range(120 * S):
        p = rnd.choice(PRIMES[:15])
        some = lambda k: [rnd.choice([0, 1, p - 1, rnd.randrange(p)]) for _ in range(k)]
        m = some(rnd.choice([1, 2, 2, 2, 3, 4])) + [1]
        e = rnd.randrange(p) if i > 20 else i % p
        f = ['rem', 'mul', 'exp', 'exp'][i % 4]
        a, b = some(rnd.randrange(1, 9) if f != 'exp' else rnd.randrange(1, len(m))), some(rnd.randrange(1, 6))
        g = {'rem': lambda: N.polynomial_reduce_mod(list(a), m, p), 'mul': lambda: N.polynomial_multiply_mod(list(a), list(b), list(m), p),
             'exp': lambda: N.polynomial_exp_mod(list(a), e, list(m), p)}[f]
        out.ev('nt.poly', f=f, a=a, b=b, m=m, n=e, p=p, r=call(g))
    # gcd, lcm
    for a in range(0, 24 if not BIG else 60):
        for b in range(0, 24 if not BIG else 60):
            out.ev('nt.gcd', a=nat(a), b=nat(b), r=call(N.gcd, a, b) if (a + b) % 2 else call(N.gcd, [a, b]))
            if a and b:
                out.ev('nt.lcm', a=nat(a), b=nat(b), r=call(N.lcm, a, b) if (a + b) % 2 else call(N.lcm, [a, b]))
    for _ in range(60 * S):
        g = rnd.getrandbits(40) + 1
        a, b, c = [g * (rnd.getrandbits(rnd.choice([3, 50])) + 1) for _ in range(3)]
        out.ev('nt.gcd', a=nat(a), b=nat(b), r=call(N.gcd2, a, b))
        out.ev('nt.lcm', a=nat(a), b=nat(b), r=call(N.lcm2, a, b))
        out.ev('nt.gcd3', a=nat(a), b=nat(b), c=nat(c), r=call(N.gcd, a, b, c))
        out.ev('nt.lcm3', a=nat(a), b=nat(b), c=nat(c), r=call(N.lcm, (a, b, c)))
    # of a single number, however given
    for a in [1, 2, 12, 97, 2 ** 64 + 1]:
        for r in (call(N.gcd, a), call(N.gcd, [a]), call(N.gcd, (a,))):
            out.ev('nt.gcd', a=nat(a), b=nat(a), r=r)
        for r in (call(N.lcm, a), call(N.lcm, [a]), call(N.lcm, (a,))):
            out.ev('nt.lcm', a=nat(a), b=nat(a), r=r)
    # integers as bytes
    for n in [0, 1, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 64 - 1, 2 ** 64, 2 ** 160 - 1] + [rnd.getrandbits(rnd.randrange(1, 600)) for _ in range(20 * S)]:
        s = n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
        out.ev('nt.i2s', n=nat(n), r=call(E.int_to_string, n), back=[call(E.string_to_int, s), call(E.string_to_int, b'\0' * rnd.randrange(4) + s)], dig=call(E.digest_integer, n))
    out.ev('nt.i2sneg', r=call(E.int_to_string, -rnd.randrange(1, 300)))
    # factorisation and what is built on it
    big = [1229, 1231, 1229 ** 2, 1231 ** 2, 1229 * 1231, 1231 * 1237, 1231 ** 3, 2 * 1231 ** 2, 1231 ** 2 * 1237, 1237 ** 2 * 3, 1231 * 1231 * 1249,
           2 ** 40, 3 ** 20, 1229 ** 3, 1223 * 1229, 2 * 1229, 2 ** 10 * 1231, 10007 * 10009, 1234577 * 2, 2 ** 31 - 1, 6 * (2 ** 31 - 1), 2 ** 61 - 1, 1231 * (2 ** 31 - 1)]
    for n in list(range(0, 130 if not BIG else 2000)) + big + [rnd.randrange(10 ** 7) for _ in range(20 * S)]:
        out.ev('nt.fact', n=nat(n), r=call(N.factorization, n, _limit=60))
    for n in range(1, 90 if not BIG else 300):
        out.ev('nt.phi', n=n, r=call(N.phi, n))
        if n < (60 if not BIG else 140):
            out.ev('nt.carm', n=n, r=call(N.carmichael, n))
    for _ in range(30 * S):
        ps = rnd.sample([2, 2, 3, 5, 7, 11, 1229, 1231, 1237], rnd.randrange(1, 4)) if _ % 3 else rnd.sample([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31], rnd.randrange(5, 9))
        fs = sorted((p, rnd.randrange(1, 5 if p < 10 else 3)) for p in set(ps))
        n = 1
        for (p, k) in fs: n *= p ** k
        if n > 10 ** 11 and fs[-1][0] > 1000: continue
        ef = [[nat(p), k] for (p, k) in fs]
        out.ev('nt.phiF', fs=ef, n=nat(n), r=call(N.phi, n, _limit=60))
        out.ev('nt.carmF', fs=ef, n=nat(n), r=call(N.carmichael, n, _limit=60))
    for m in range(0, 26 if not BIG else 70):
        for x in range(0, m + 6):
            out.ev('nt.order', x=x, m=m, r=call(N.order_mod, x, m))
    for _ in range(30 * S):
        m = rnd.randrange(2, 900); x = rnd.randrange(3 * m)
        out.ev('nt.order', x=x, m=m, r=call(N.order_mod, x, m))
        a, b = rnd.randrange(1, 300), rnd.randrange(1, 300)
        out.ev('nt.lfrp', a=a, b=b, r=call(N.largest_factor_relatively_prime, a, b))
        out.ev('nt.korder', x=b, m=a, r=call(N.kinda_order_mod, b, a))
    for a, b in [(2 ** 8, 2), (2 ** 5 * 3, 2), (2 ** 5 * 3, 4), (1, 5), (7, 1), (36, 6), (72, 12), (9 * 4, 12), (75, 45)]:
        out.ev('nt.lfrp', a=a, b=b, r=call(N.largest_factor_relatively_prime, a, b))
    # primality: every number of a range, pseudoprimes, large ones
    L = 400
    for s in list(range(0, 2400 if not BIG else 30000, L)):
        out.ev('nt.primes', n=s, len=L, r=call(lambda: [N.is_prime(i) for i in range(s, s + L)]))
    pseudo = [561, 1105, 1729, 2465, 2821, 6601, 8911, 2047, 3277, 4033, 4681, 8321, 15841, 29341, 1373653, 25326001, 3215031751, 2152302898747,
              3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461, 1195068768795265792518361315725116351898245581,
              (2 ** 607 - 1) * (2 ** 1279 - 1), 1231 * 1231, 1231 * 1237, 1229 * 1229, (2 ** 61 - 1) * (2 ** 89 - 1), 2 ** 127 - 3, 2 ** 89 + 1, 2 ** 127 - 1, 2 ** 2203 - 1 if BIG else 2 ** 1279 - 1, 49, 1225, 1227, 1228]
    for n in pseudo + BIGP + [p + 2 for p in BIGP] + [rnd.getrandbits(rnd.choice([12, 30, 64, 160, 256])) | 1 for _ in range(60 * S)]:
        out.ev('nt.prime', n=nat(n), r=call(N.is_prime, n, _limit=60))
    for n in list(range(0, 40)) + [112, 113, 114, 1226, 1227, 1228, 1229, 1230, 1231, 1237, 7918, 7919, 31396, 31397, 370260, 370261, 2 ** 31 - 2, 2 ** 31 - 1] + [rnd.getrandbits(rnd.choice([12, 20, 40, 64])) for _ in range(20 * S)]:
        out.ev('nt.next', n=nat(n), r=call(N.next_prime, n, _limit=60))


def gcd(a, b):
    while b: a, b = b, a % b
    return a


# ------------------------------------------------------------------------------ C25
def c25():
    S = 1 if not BIG else 6
    rb = lambda n: bytes(rnd.getrandbits(8) for _ in range(n))
    lens = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 65535, 65536] + [rnd.randrange(100000) for _ in range(4)]
    for n in lens + ([2 ** 24 - 1, 2 ** 24] if BIG else []):
        e = call(D.encode_length, n)
        out.ev('der.len', n=n, r=e, back=call(D.read_length, bytes(e.get('v', [])) + b'zz'))
    ints = [0, 1, 2, 127, 128, 129, 255, 256, 32767, 32768, 65535, 2 ** 63, 2 ** 64 - 1, 256 ** 126, 256 ** 127 - 1, 128 * 256 ** 126, 128 * 256 ** 126 - 1, 256 ** 127,
            128 * 256 ** 127, 256 ** 128 - 1, 256 ** 254 - 1, 128 * 256 ** 254, 256 ** 255, 256 ** 256 - 1] + [rnd.getrandbits(rnd.choice([8, 15, 16, 64, 256, 521, 1016, 1023, 1024, 2040])) for _ in range(20 * S)]
    for n in ints:
        junk = rb(rnd.randrange(4))
        e = call(D.encode_integer, n)
        out.ev('der.int', n=nat(n), junk=by(junk), r=e, back=call(D.remove_integer, bytes(e.get('v', [])) + junk))
    for n in [0, 1, 127, 128, 129, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 70] + [rnd.getrandbits(rnd.choice([7, 8, 14, 15, 40])) for _ in range(20 * S)]:
        e = call(D.encode_number, n)
        out.ev('der.num', n=nat(n), r=e, back=call(D.read_number, bytes(e.get('v', [])) + b'\x81'))
    for _ in range(40 * S):
        oid = (rnd.randrange(3), rnd.choice([0, 1, 39, rnd.randrange(40)])) + tuple(rnd.choice([0, 1, 127, 128, 840, 10045, rnd.getrandbits(20)]) for _ in range(rnd.choice([1, 2, 5, 40])))
        junk = rb(rnd.randrange(3))
        e = call(D.encode_oid, *oid)
        out.ev('der.oid', oid=[nat(x) for x in oid], junk=by(junk), r=e, back=call(D.remove_object, bytes(e.get('v', [])) + junk))
    for n in [0, 1, 5, 127, 128, 200, 255, 256, 300] + [rnd.randrange(600) for _ in range(5 * S)]:
        s, junk = rb(n), rb(rnd.randrange(3))
        e = call(D.encode_bitstring, s)
        out.ev('der.bit', s=by(s), junk=by(junk), r=e, back=call(D.remove_bitstring, bytes(e.get('v', [])) + junk))
        e = call(D.encode_octet_string, s)
        out.ev('der.oct', s=by(s), junk=by(junk), r=e, back=call(D.remove_octet_string, bytes(e.get('v', [])) + junk))
        k = rnd.randrange(1, 4)
        cut = sorted([0, n] + [rnd.randrange(n + 1) for _ in range(k - 1)])
        ss = [s[cut[i]:cut[i + 1]] for i in range(len(cut) - 1)]
        e = call(D.encode_sequence, *ss)
        out.ev('der.seq', ss=[by(x) for x in ss], junk=by(junk), r=e, back=call(D.remove_sequence, bytes(e.get('v', [])) + junk))
        tg = rnd.randrange(32)
        e = call(D.encode_constructed, tg, s)
        out.ev('der.cons', t=tg, s=by(s), junk=by(junk), r=e, back=call(D.remove_constructed, bytes(e.get('v', [])) + junk))
        nm = rnd.choice(['PUBLIC KEY', 'EC PRIVATE KEY', 'X'])
        e = call(D.topem, s, nm)
        out.ev('der.pem', s=by(s), name=by(nm.encode()), r=e, back=call(D.unpem, bytes(e.get('v', []))))
        if n:
            out.ev('der.pem', s=by(s), name=by(nm.encode()), r=e, back=call(lambda: D.unpem(bytes(e['v']).decode())))
    # reading damaged structures
    rd = {3: D.remove_bitstring, 4: D.remove_octet_string, 48: D.remove_sequence}
    for tag in rd:
        for n in [0, 1, 3, 127, 128, 130, 256, 300]:
            body = rb(n)
            good = bytes([tag]) + bytes(D.encode_length(n)) + body
            vs = [good, good + b'xy', good[:-1], good[:1], good[:2], good[:3], bytes([tag ^ 1]) + good[1:], bytes([tag, 0x80]) + body,
                  bytes([tag, 0x81, n & 255]) + body, bytes([tag, 0x82, n >> 8, n & 255]) + body, bytes([tag, 0x83, 0, n >> 8, n & 255]) + body + b'k',
                  bytes([tag, 0x84]) + body, bytes([tag, 0x84, 255, 255, 255, 255]) + body, bytes([tag, 0xff]) + body]
            for v in vs:
                out.ev('der.rd', s=by(v), tag=tag, r=call(rd[tag], v))
    for n in [0, 1, 2, 3, 20, 127, 128, 130, 256]:
        for body in [rb(n), bytes([rnd.randrange(128)]) + rb(n - 1), bytes([rnd.randrange(128, 256)]) + rb(n - 1), b'\0' * n, b'\x80' * n,
                     bytes(rnd.randrange(128) for _ in range(n)), bytes([rnd.randrange(120)]) + bytes(rnd.choice([rnd.randrange(128), rnd.randrange(128, 256)]) for _ in range(n - 1))]:
            body = body[:n]
            for (tag, f, op) in ((2, D.remove_integer, 'der.rdi'), (6, D.remove_object, 'der.rdo'), (0xa0 + rnd.randrange(32), D.remove_constructed, 'der.rdc')):
                good = bytes([tag]) + bytes(D.encode_length(n)) + body
                vs = [good, good + rb(2), good[:-1], good[:1], good[:2], good[:len(good) // 2], bytes([tag ^ 0x40]) + good[1:], bytes([tag ^ 0x20]) + good[1:], bytes([rnd.getrandbits(8)]) + good[1:],
                      bytes([tag, 0x80]) + body, bytes([tag, 0x82, n >> 8, n & 255]) + body, bytes([tag, 0x84]) + body, bytes([tag, 0x84, 255, 255, 255, 255]) + body, bytes([tag, 0xff]) + body]
                for v in vs if BIG else vs[:2] + rnd.sample(vs[2:], 3):
                    out.ev(op, s=by(v), r=call(f, v))
    for v in [bytes([0x80 + k]) + rb(m) for k in (0, 1, 2, 3, 4, 8, 127) for m in (0, 1, 2, 3, 4, 5, 126, 127, 128)] + [rb(rnd.randrange(1, 5)) for _ in range(20 * S)]:
        out.ev('der.rdl', s=by(v), r=call(D.read_length, v))
    for _ in range(60 * S):
        v = bytes(rnd.randrange(128, 256) for _ in range(rnd.choice([0, 1, 2, 5, 11]))) + (bytes([rnd.randrange(128)]) + rb(rnd.randrange(3)) if rnd.random() < .6 else b'')
        out.ev('der.rdn', s=by(v), r=call(D.read_number, v))
    for q in [CURVES[n].order for n in NAMES] + [7, 255, 256, 257, 2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 20 + 7]:
        L = (q.bit_length() + 7) // 8
        for n in [0, 1, 255, q - 1, q, 256 ** (L - 1), 256 ** (L - 1) - 1, 256 ** L - 1, 256 ** L, rnd.randrange(q)]:
            out.ev('n2s', n=nat(n), q=nat(q), r=call(U.number_to_string, n, q))
        for k in (0, L - 1, L, L, L + 1, 2 * L):
            v = rnd.choice([rb(k), b'\0' * k, b'\0' + rb(k)[1:]])[:k]
            out.ev('n2s.back', s=by(v), q=nat(q), r=call(U.string_to_number_fixedlen, v, q))
    # keys
    for name in NAMES:
        cv = CURVES[name]; n = cv.order; L = cv.baselen
        for d in [1, n - 1, 256, rnd.randrange(1, 256 ** (L - 3)), rnd.randrange(1, n)] + [rnd.randrange(1, n) for _ in range(S)]:
            sk = K.SigningKey.from_secret_exponent(d, cv)
            ss, sd, sp = call(sk.to_string), call(sk.to_der), call(sk.to_pem)
            kid = lambda k: [k.privkey.secret_multiplier, k.curve.name]
            B = lambda r: bytes(r.get('v', []))
            back = [call(lambda: kid(K.SigningKey.from_string(B(ss), cv))), call(lambda: kid(K.SigningKey.from_der(B(sd)))),
                    call(lambda: kid(K.SigningKey.from_pem(B(sp)))), call(lambda: kid(K.SigningKey.from_pem(B(sp).decode()))),
                    call(lambda: kid(K.SigningKey.from_pem(b'-----BEGIN EC PARAMETERS-----\nBggqhkjOPQMBAQ==\n-----END EC PARAMETERS-----\n' + B(sp))))]
            out.ev('prv.exp', cv=name, cvb=by(name.encode()), d=nat(d), str=ss, der=sd, pem=sp, back=back)
        # points with short coordinates
        kmap = [1, 2, n - 1, rnd.randrange(1, n)]
        pts = [cv.generator * k for k in kmap]
        p = cv.curve.p()
        x, found = 0, 0
        while found < 2 + S:
            z = (x ** 3 + cv.curve.a() * x + cv.curve.b()) % p
            if z and N.jacobi(z, p) == 1:
                y = N.square_root_mod_prime(z, p)
                pts.append(C.Point(cv.curve, x, y)); pts.append(C.Point(cv.curve, x, p - y))
                found += 1
            x += 1
        for pt in pts:
            vk = call(lambda: K.VerifyingKey.from_public_point(pt, cv), _conv=lambda v: {'k': 'o', 'obj': v})
            if 'obj' not in vk:
                out.ev('pub.point', cv=name, x=nat(pt.x()), y=nat(pt.y()), r=vk); continue
            vk = vk['obj']
            ss, sd, sp = call(vk.to_string), call(vk.to_der), call(vk.to_pem)
            kid = lambda k: [k.pubkey.point.x(), k.pubkey.point.y(), k.curve.name]
            back = [call(lambda: kid(K.VerifyingKey.from_string(B(ss), cv))), call(lambda: kid(K.VerifyingKey.from_der(B(sd)))),
                    call(lambda: kid(K.VerifyingKey.from_pem(B(sp)))), call(lambda: kid(K.VerifyingKey.from_pem(B(sp).decode())))]
            out.ev('pub.exp', cv=name, cvb=by(name.encode()), Q=P(pt), str=ss, der=sd, pem=sp, back=back)
        Q = pts[-1]
        # coordinates off the curve or out of range
        fits = lambda v: v < 256 ** L
        for (x, y) in [(Q.x(), Q.y()), (Q.x(), p - Q.y()), (Q.x() ^ 1, Q.y()), (Q.x(), Q.y() ^ 1), (Q.x() + p, Q.y()), (pts[4].x() + p, pts[4].y()), (0, 0), (p, 0)]:
            if not (fits(x) and fits(y)): continue
            s = x.to_bytes(L, 'big') + y.to_bytes(L, 'big')
            out.ev('pub.point', cv=name, x=nat(x), y=nat(y), r=call(lambda: K.VerifyingKey.from_string(s, cv) is not None))
            pd = der_pub(cv, s)
            out.ev('pub.point', cv=name, x=nat(x), y=nat(y), r=call(lambda: K.VerifyingKey.from_der(pd) is not None))
        for d in [0, 1, n - 1, n, n + 1, 256 ** L - 1]:
            if not fits(d): continue
            s = d.to_bytes(L, 'big')
            out.ev('prv.range', cv=name, d=nat(d), r=call(lambda: K.SigningKey.from_string(s, cv).privkey.secret_multiplier))
            out.ev('prv.range', cv=name, d=nat(d), r=call(lambda: K.SigningKey.from_secret_exponent(d, cv).privkey.secret_multiplier))
            pd = der_prv(cv, s, s + s)
            out.ev('prv.range', cv=name, d=nat(d), r=call(lambda: K.SigningKey.from_der(pd).privkey.secret_multiplier))
        for d in [1, 77, rnd.randrange(1, 256 ** (L - 2))]:
            s = d.to_bytes((d.bit_length() + 7) // 8, 'big')
            pd = der_prv(cv, s, bytes(2 * L))
            out.ev('prv.short', cv=name, cvb=by(name.encode()), d=nat(d), r=call(lambda: [K.SigningKey.from_der(pd).privkey.secret_multiplier, K.SigningKey.from_der(pd).curve.name]))
        bad_keys(cv, rb)


def dl(n):
    return bytes([n]) if n < 128 else (lambda b: bytes([128 + len(b)]) + b)(n.to_bytes((n.bit_length() + 7) // 8, 'big'))


def tlv(t, b):
    return bytes([t]) + dl(len(b)) + b


def oid(cv):
    return bytes(cv.encoded_oid)


OIDPK = bytes.fromhex('06072a8648ce3d0201')


def der_prv(cv, s, pub, ver=b'\x02\x01\x01', t0=0xa0, o=None, extra=b'', oidx=b''):
    return tlv(0x30, ver + tlv(4, s) + tlv(t0, (oid(cv) if o is None else o) + oidx) + tlv(0xa1, tlv(3, b'\0\4' + pub)) + extra)


def der_pub(cv, s, pk=OIDPK, o=None, pre=b'\0\4', extra=b'', extra2=b'', bt=3, st=0x30):
    return tlv(0x30, tlv(st, pk + (oid(cv) if o is None else o) + extra) + tlv(bt, pre + s) + extra2)


def tags(v, at=0, end=None):
    """Offsets of the tags of a structure."""
    end = len(v) if end is None else end
    while at < end:
        n = v[at + 1]; h = 2
        if n & 128:
            h += n & 127; n = int.from_bytes(v[at + 2:at + h], 'big')
        yield at
        if v[at] & 0x20:
            yield from tags(v, at + h, at + h + n)
        at += h + n


def bad_keys(cv, rb):
    L, n = cv.baselen, cv.order
    d = rnd.randrange(1, n)
    sk = K.SigningKey.from_secret_exponent(d, cv)
    s, q = d.to_bytes(L, 'big'), bytes(sk.get_verifying_key().to_string())
    unk = bytes.fromhex('06052b81040063')
    ids = lambda k: True
    bad = []
    g = der_prv(cv, s, q)
    step = 1 if BIG else 5
    bad += [('trunc%d' % i, g[:i]) for i in range(0, len(g), step)]
    bad += [('junk', g + b'\0'), ('junk', g + g), ('tag', b'\x31' + g[1:]), ('version', der_prv(cv, s, q, ver=b'\x02\x01\x02')), ('version', der_prv(cv, s, q, ver=b'\x02\x01\x00')),
            ('vertag', der_prv(cv, s, q, ver=b'\x04\x01\x01')), ('t0', der_prv(cv, s, q, t0=0xa1)), ('t0', der_prv(cv, s, q, t0=0x30)), ('t0', der_prv(cv, s, q, t0=0x20)),
            ('oid', der_prv(cv, s, q, o=unk)), ('oid', der_prv(cv, s, q, o=b'\x05\x00')), ('oidjunk', der_prv(cv, s, q, oidx=b'\x05\x00')), ('oid', der_prv(cv, s, q, o=OIDPK)),
            ('long', der_prv(cv, b'\0' + s, q)), ('long', der_prv(cv, s + b'\1', q)),
            ('octet', g.replace(b'\x04' + dl(L) + s, b'\x03' + dl(L) + s)), ('empty', b'')]
    swaps = lambda g, lim: [('retag', g[:i] + bytes([t]) + g[i + 1:]) for i in tags(g) if i < lim
                            for t in {g[i] ^ 0x20, g[i] ^ 1, g[i] ^ 0x80, (g[i] + 1) & 255, rnd.choice([2, 3, 4, 5, 6, 12, 0x30, 0xa0, 0xa1])} - {g[i]}]
    bad += swaps(g, len(g) - len(tlv(0xa1, tlv(3, b'\0\4' + q))))       # what follows is not looked at
    # identifiers next to that of a known curve
    ob = oid(cv)[2:]
    known = [bytes(CURVES[x].encoded_oid) for x in CURVES]
    near = [x for x in [tlv(6, ob[:-1]), tlv(6, ob[:-2]), tlv(6, ob + b'\1'), tlv(6, ob + ob[-1:]), tlv(6, ob[:-1] + bytes([ob[-1] ^ 64])), tlv(6, ob[:-1] + b'\x81' + ob[-1:]), tlv(6, bytes([ob[0] ^ 1]) + ob[1:]),
                        tlv(6, ob[:1]), tlv(6, b''), tlv(6, ob[1:])] if x not in known]
    bad += [('oid', der_prv(cv, s, q, o=x)) for x in near]
    for x in near:
        out.ev('key.bad', what='pub.oid', cv=cv.name, s=by(der_pub(cv, q, o=x)), r=call(lambda: ids(K.VerifyingKey.from_der(der_pub(cv, q, o=x)))))
    for (what, v) in bad:
        out.ev('key.bad', what='prv.' + what, cv=cv.name, s=by(v), r=call(lambda: ids(K.SigningKey.from_der(v))))
    for v in (s[:-1], s + b'\0', b''):
        out.ev('key.bad', what='prv.string', cv=cv.name, s=by(v), r=call(lambda: ids(K.SigningKey.from_string(v, cv))))
    pem = bytes(D.topem(g, 'EC PRIVATE KEY'))
    ls = pem.split(b'\n')
    for v in [b'\n'.join(ls[:2] + ls[3:]), pem.replace(b'EC PRIVATE', b'PRIVATE'), b'', b'\n'.join(ls[:1] + ls[-2:])]:
        out.ev('key.bad', what='prv.pem', cv=cv.name, s=by(v), r=call(lambda: ids(K.SigningKey.from_pem(v))))
    g = der_pub(cv, q)
    bad = [('trunc%d' % i, g[:i]) for i in range(0, len(g), step)]
    bad += [('junk', g + b'\0'), ('tag', b'\x31' + g[1:]), ('pk', der_pub(cv, q, pk=bytes.fromhex('06072a8648ce3d0202'))), ('oid', der_pub(cv, q, o=unk)),
            ('oidjunk', der_pub(cv, q, extra=b'\x05\x00')), ('pre', der_pub(cv, q, pre=b'\0\2')), ('pre', der_pub(cv, q, pre=b'\0')), ('pre', der_pub(cv, q, pre=b'\1\4')),
            ('junk2', der_pub(cv, q, extra2=b'\0')), ('bt', der_pub(cv, q, bt=4)), ('st', der_pub(cv, q, st=0x31)), ('short', der_pub(cv, q[:-1])), ('long', der_pub(cv, q + b'\0')), ('empty', b'')]
    bad += swaps(g, len(g))
    for (what, v) in bad:
        out.ev('key.bad', what='pub.' + what, cv=cv.name, s=by(v), r=call(lambda: ids(K.VerifyingKey.from_der(v))))
    for v in (q[:-1], q + b'\0', b'', q[:L]):
        out.ev('key.bad', what='pub.string', cv=cv.name, s=by(v), r=call(lambda: ids(K.VerifyingKey.from_string(v, cv))))
    pem = bytes(D.topem(g, 'PUBLIC KEY'))
    ls = pem.split(b'\n')
    for v in [b'\n'.join(ls[:1] + ls[2:]), b'', b'\n'.join(ls[:1] + ls[-2:])]:
        out.ev('key.bad', what='pub.pem', cv=cv.name, s=by(v), r=call(lambda: ids(K.VerifyingKey.from_pem(v))))
    # a key file of another curve with this curve's name
    other = [c for c in V.curves if c.baselen != L][0]
    out.ev('key.bad', what='pub.other', cv=cv.name, s=[], r=call(lambda: ids(K.VerifyingKey.from_der(der_pub(other, q)))))
    out.ev('key.bad', what='prv.other', cv=cv.name, s=[], r=call(lambda: ids(K.SigningKey.from_der(
        der_prv([c for c in V.curves if c.baselen < L][0], b'\1' + s[1:], q))) if any(c.baselen < L for c in V.curves) else 1 // 0))


# ------------------------------------------------------------------------------ C26
class Ent(object):
    def __init__(self, chunks): self.chunks, self.used, self.lens = chunks, 0, []

    def __call__(self, n):
        self.lens.append(n)
        if self.used >= len(self.chunks): raise IOError('no entropy')
        self.used += 1
        return self.chunks[self.used - 1]


def c26():
    S = 1 if not BIG else 8
    orders = [2, 3, 4, 5, 7, 8, 127, 128, 129, 255, 256, 257, 258, 1000, 65535, 65536, 65537, 2 ** 31, 2 ** 61 - 1, 3 * 2 ** 199 + 1, 3 * 2 ** 299, 3 * 2 ** 519 + 5] + [CURVES[n].order for n in NAMES]
    for q in orders:
        L = (q.bit_length() + 7) // 8
        cand = [0, 1, q - 3, q - 2, q - 1, q, q + 1, 256 ** L - 1, 256 ** L - 2, q // 2]
        cand = [c for c in cand if 0 <= c < 256 ** L]
        for j in range((10 if q > 300 else 14) * S):
            k = rnd.randrange(1, 6)
            ch = [(rnd.choice(cand) if rnd.random() < .8 else rnd.randrange(256 ** L)).to_bytes(L, 'big') for _ in range(k)]
            if j < len(cand):
                ch[0] = cand[j].to_bytes(L, 'big')
            e = Ent(ch)
            r = call(U.randrange, q, e)
            out.ev('rnd', q=nat(q), chunks=[by(c) for c in ch], r=r, used=e.used, lens=e.lens)
    # long runs of candidates out of range, as small orders make them likely
    for (q, n) in ((257, 300), (257, 1500), (65537, 3000), (CURVES['SECP256k1'].order, 2000)):
        L = (q.bit_length() + 7) // 8
        c = rnd.randrange(q - 1).to_bytes(L, 'big')
        e = Ent([b'\xff' * L] * n + [c])
        out.ev('rnd.late', n=n, c=by(c), r=call(U.randrange, q, e), used=e.used)
    for q in (3, 256, CURVES['SECP256k1'].order):
        out.ev('rnd.stuck', q=nat(q), r=call(U.randrange, q, lambda n: b'\xff' * n, _limit=60))
    for q in (5, 200, 255, 256):
        f = lambda: sorted(set(x for x in (one(q, c) for c in range(256)) if x is not None))
        out.ev('rnd.all', q=nat(q), r=call(f))
    for _ in range(5 * S):
        q = 257 + rnd.randrange(60)
        f = lambda: sorted(set(x for x in (one(q, c) for c in range(600)) if x is not None))
        out.ev('rnd.all', q=nat(q), r=call(f))
    seeds = ['', 'seed', 'seed-1', 'x' * 70, '%', 'abc def'] + ['s%d' % rnd.getrandbits(40) for _ in range(6 * S)]
    for sd in seeds:
        n = rnd.choice([0, 1, 31, 32, 33, 64, 70, 400])
        out.ev('prng', seed=by(sd.encode()), n=n, r=call(lambda: U.PRNG(sd)(n)))
        for q in rnd.sample(orders, 8) + [2, 3]:
            out.ev('rnd.over', q=nat(q), seed=by(sd.encode()), r=call(U.randrange_from_seed__overshoot_modulo, sd, q))
            # beyond 2^40 the code works out the bit length with floats: only the range is judged
            # next to a power of two
            m = q - 1
            exact = 1 if q < 2 ** 40 or 1.001 < m / 2.0 ** (m.bit_length() - 1) < 1.999 else 0
            out.ev('rnd.try', q=nat(q), seed=by(sd.encode()), exact=exact, r=call(U.randrange_from_seed__trytryagain, sd, q),
                   r2=call(U.randrange_from_seed__trytryagain, sd, q))
            for f in (U.randrange_from_seed__truncate_bytes, U.randrange_from_seed__truncate_bits):
                for h in ('SHA256', 'SHA512', 'SHA1'):
                    hm = HN[h]
                    out.ev('rnd.trunc', q=nat(q), seed=by(sd.encode()), h=h, exact=exact, mask=1 if 'bits' in f.__name__ else 0, r=call(f, sd.encode(), q, hm), r2=call(f, sd.encode(), q, hm))
    for name in NAMES:
        cv = CURVES[name]
        for _ in range(2 * S):
            c = rnd.choice([0, 1, cv.order - 2, rnd.randrange(cv.order - 1)]).to_bytes(cv.baselen, 'big')
            e = Ent([c])
            out.ev('gen', cv=name, chunks=[by(c)], r=call(lambda: K.SigningKey.generate(cv, entropy=e).privkey.secret_multiplier))


def one(q, c):
    L = (q.bit_length() + 7) // 8
    try:
        return U.randrange(q, Ent([c.to_bytes(L, 'big')]))
    except (IOError, OverflowError):
        return None


{'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26}[PROP]()
out.end()
