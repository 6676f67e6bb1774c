"""Write spec/StdCurves.tla (run once, on the pinned base commit whose curves OpenSSL confirms)."""
import sys
sys.path.insert(0, '/repo')
from nbc.util.ecdsa import curves
def t(n):
    b = n.to_bytes((n.bit_length()+7)//8,'big') if n else b''
    return '<<' + ','.join(str(x) for x in b) + '>>'
print('----------------------------- MODULE StdCurves -----------------------------')
print('(* The five NIST prime curves and secp256k1: <<p, a, b>>, base point, order,   *)\n(* object identifier, length in bytes of the order.                            *)')
print('EXTENDS Ec')
for c in curves.curves:
    n = c.name
    print('%sC == << %s, %s, %s >>' % (n, t(c.curve.p()), t(c.curve.a() % c.curve.p()), t(c.curve.b())))
    print('%sG == << %s, %s >>' % (n, t(c.generator.x()), t(c.generator.y())))
    print('%sN == %s' % (n, t(c.order)))
    print('%sOid == << %s >>' % (n, ', '.join(t(x) for x in c.oid)))
for f in ('C', 'G', 'N', 'Oid'):
    print('Cv%s(name) == CASE ' % f + '\n    [] '.join('name = "%s" -> %s%s' % (c.name, c.name, f) for c in curves.curves))
print('CvLen(name) == OctLen(CvN(name))')
print('=============================================================================')
