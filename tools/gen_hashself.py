#!/usr/bin/env python3
"""Writes spec/HashSelf.tla: the hash functions of Hash.tla against digests from elsewhere."""
import hashlib, hmac, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = lambda b: '<< %s >>' % ', '.join(str(x) for x in b) if b else '<< >>'
msg = lambda n: bytes((7 * i + 3) % 256 for i in range(n))
rows = []
for name in ('SHA1', 'SHA224', 'SHA256', 'SHA384', 'SHA512', 'MD5'):
    for n in (0, 3, 55, 56, 64, 111, 112, 128, 200):
        rows.append('<< "%s", << >>, %s, %s >>' % (name, t(msg(n)), t(hashlib.new(name.lower(), msg(n)).digest())))
for name in ('SHA1', 'SHA256', 'SHA512'):
    for k in (0, 20, 64, 65, 128, 129):
        rows.append('<< "%s", %s, %s, %s >>' % (name, t(msg(k)) if k else '<< 0 >>', t(msg(50)), t(hmac.new(msg(k), msg(50), name.lower()).digest())))
# published with the algorithm
for m, d in [('', '9c1185a5c5e9fc54612808977ee8f548b2258d31'), ('a', '0bdc9d2d256b3ee9daae347be6f4dc835a467ffe'),
             ('abc', '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'), ('message digest', '5d0689ef49d2fae572b881b123a85ffa21595f36'),
             ('abcdefghijklmnopqrstuvwxyz', 'f71c27109c692c1b56bbdceb5b9d2865b3708dbc'),
             ('1234567890' * 8, '9b752e45573d4b39f4dbd3323cab82bf63326bfb')]:
    rows.append('<< "RIPEMD160", << >>, %s, %s >>' % (t(m.encode()), t(bytes.fromhex(d))))
open(os.path.join(HERE, 'spec', 'HashSelf.tla'), 'w').write('''------------------------------ MODULE HashSelf ------------------------------
(* The hash functions against digests computed elsewhere (Python's hashlib,   *)
(* and those published with RIPEMD-160).  Written by tools/gen_hashself.py.   *)
EXTENDS Hash
\\* <<function, key of an HMAC or << >>, message, digest>>
Table == <<
  %s >>
VARIABLE row
Init == row \\in 1..Len(Table)
Next == UNCHANGED row
Spec == Init /\\ [][Next]_row
Agrees == LET v == Table[row] IN
  v[4] = (IF v[1] = "RIPEMD160" THEN RIPEMD160(v[3]) ELSE IF v[2] = << >> THEN Digest(v[1], v[3]) ELSE HMAC(v[1], v[2], v[3]))
=============================================================================
''' % ',\n  '.join(rows))
