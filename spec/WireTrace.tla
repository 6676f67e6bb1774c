----------------------------- MODULE WireTrace -----------------------------
(* Judges recorded construction, serialisation and parsing of messages        *)
(* (C09, C10, C11), alerts (C32) and the helpers of C31.                      *)
EXTENDS Judge, Wire, StdCurves

\* decoded message: e.d = [k |-> "msg", t, f] or exception
DecodedAs(d, n, vs) == d.k = "msg" /\ d.t = n /\ DenFields(RecFields(n), d.f, vs)
EncClauses(e) ==
  LET fs == RecFields(e.t)
      vs == NormFields(fs, e.f)
  IN Fails({<<"C09.frame", e.r.k = "b" /\ e.r.v = Frame(e.magic, e.t, vs)>>,
            <<"C09.roundtrip", DecodedAs(e.d, e.t, vs)>>,
            <<"C09.magic", e.d.k # "msg" \/ e.d.magic = e.magic>>,
            <<"C09.name", e.d.k # "msg" \/ (e.d.cmd = CommandOf(e.t) /\ e.d.name = HandlerOf(e.t))>>})
\* compound values on their own
RecClauses(e) ==
  LET fs == RecFields(e.t)
      vs == NormFields(fs, e.f)
      b == EncFields(fs, vs)
  IN Fails({<<"C09.compound", e.r.k = "b" /\ e.r.v = b>>,
            <<"C09.compound.roundtrip", e.d.k = "l" /\ e.d.l[1] = RI(BFromInt(Len(b))) /\ Denotes(Rec(e.t), e.d.l[2], WRec(e.t, vs))>>})
IdClauses(e) ==
  LET b == EncFields(RecFields(e.t), NormFields(RecFields(e.t), e.f))
  IN Fails({<<"C09.hash", e.r = RB(SHA256d(IF e.t = "BlockHeader" THEN SubSeq(b, 1, 80) ELSE b)) /\ e.r2 = e.r>>})

\* construction: e.pos positional values, e.kw sequence of <<name, value>>
Args(e) ==
  LET fs == RecFields(e.t)
      np == Len(e.pos)
      names == {fs[i][1] : i \in (np + 1)..Len(fs)}
  IN IF np > Len(fs) \/ {e.kw[i][1] : i \in 1..Len(e.kw)} # names \/ Len(e.kw) # Len(fs) - np THEN << >>
     ELSE << [i \in 1..Len(fs) |-> IF i <= np THEN e.pos[i] ELSE LET j == CHOOSE h \in 1..Len(e.kw) : e.kw[h][1] = fs[i][1] IN e.kw[j][2]] >>
MkClauses(e) ==
  LET a == Args(e)
      fs == RecFields(e.t)
      good == a # << >> /\ \A i \in 1..Len(fs) : Fits(fs[i][2], a[1][i])
  IN IF good THEN Fails({<<"C11.accept", e.r = RT>>,
                         <<"C11.serialise", e.r # RT \/ (e.b.k = "b" /\ (e.cmp = 0 \/ e.b.v = EncFields(fs, NormFields(fs, a[1]))))>>})
     ELSE Fails({<<"C11.refuse", IsX(e.r)>>})

\* parsing any bytes as a frame
ParseClauses(e) ==
  LET x == ReadFrame(e.magic, e.s)
      badsum == Len(e.s) >= 24 /\ SubSeq(e.s, 1, 4) = e.magic /\ x[1] = "format"
  IN CASE x[1] = "ok" -> Fails({<<"C10.accept", DecodedAs(e.d, x[2], x[3])>>})
       [] x[1] = "format" -> Fails({<<"C10.format", IsX(e.d) /\ (e.d.e = "MsgFormatError" \/ (badsum /\ Len(e.s) >= 24 /\ TypeOf(StripZ(Sub(e.s, 4, 12))) = "" /\ e.d.e = "UnknownMsgError"))>>})
       [] x[1] = "unknown" -> Fails({<<"C10.unknown", IsX(e.d) /\ e.d.e = "UnknownMsgError">>})
       [] x[1] = "short" -> Fails({<<"C10.short", IsX(e.d)>>})

\* --- alerts --------------------------------------------------------------------------
AlertTypes == << <<"version", I32>>, <<"relay_until", I64>>, <<"expiration", I64>>, <<"id", I32>>, <<"cancel", I32>>, <<"set_cancel", Arr(I32, 0, 0)>>,
                 <<"min_ver", I32>>, <<"max_ver", I32>>, <<"set_sub_ver", Arr(VarStr, 0, 0)>>, <<"priority", I32>>, <<"comment", VarStr>>,
                 <<"status_bar", VarStr>>, <<"reserved", VarStr>> >>
AlertClauses(e) ==
  LET x == DecFields(AlertTypes, e.s, 0, 1, << >>)
      V(name) == LET i == CHOOSE j \in 1..Len(AlertTypes) : AlertTypes[j][1] = name IN Denotes(AlertTypes[i][2], e.out[name], x[1][i])
      O(name) == LET i == CHOOSE j \in 1..Len(AlertTypes) : AlertTypes[j][1] = name IN e.out[name].k # "x" /\ Denotes(AlertTypes[i][2], e.out[name], x[1][i])
  IN IF x = << >> THEN Fails({<<"C32.malformed", IsX(e.first)>>})
     ELSE Fails({<<"C32.fields", \A i \in 1..Len(AlertTypes) : O(AlertTypes[i][1])>>})

\* --- helpers ---------------------------------------------------------------------------
RECURSIVE Level(_), Root(_)
Level(h) == IF h = << >> THEN << >>
            ELSE IF Len(h) = 1 THEN << SHA256d(h[1] \o h[1]) >>
            ELSE << SHA256d(h[1] \o h[2]) >> \o Level(SubSeq(h, 3, Len(h)))
Root(h) == IF Len(h) = 1 THEN h[1] ELSE Root(Level(h))
RECURSIVE BShl8(_, _)
BShl8(a, n) == IF n = 0 THEN a ELSE BShl8(BMul(a, << 1, 0 >>), n - 1)
Target(bits) == LET b == BPad(bits, 4)
                    m == BNorm(Tail(b))
                IN IF b[1] >= 3 THEN BShl8(m, b[1] - 3) ELSE BShr(m, 8 * (3 - b[1]))
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexText(s) == [i \in 1..(2 * Len(s)) |-> LET b == s[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
Header(e) == EncFields(RecFields("BlockHeader"), NormFields(RecFields("BlockHeader"), e.f))
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
CoinName == << 110,101,119,98,105,116,99,111,105,110 >>
CoinSym == << 110, 98, 99 >>
BAbsDiff(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)
UHash(f, m) == CASE f = "sha1" -> SHA1(m) [] f = "sha256" -> SHA256(m) [] f = "sha256d" -> SHA256d(m)
                  [] f = "ripemd160" -> RIPEMD160(m) [] f = "hash160" -> RIPEMD160(SHA256(m))
UtilClauses(e) ==
  CASE e.op = "u.merkle" -> Fails({<<"C31.merkle", e.r = RB(Root(e.hs))>>})
    [] e.op = "u.header" -> Fails({<<"C31.header", e.r = RB(SubSeq(Header(e), 1, 80))>>})
    [] e.op = "u.target" -> Fails({<<"C31.target", e.r = RB(BPad(Target(e.bits), 32))>>})
    [] e.op = "u.verify" -> Fails({<<"C31.work", e.r = RBool(BLe(BNorm(Rev(e.pow)), Target(e.bits)))>>,
                                 <<"C31.work.header", e.hdr = SubSeq(Header(e), 1, 80)>>})
    [] e.op = "u.diff" -> LET one == BShl8(<< 255, 255 >>, 26)
                              err == BAbsDiff(BMul(e.r.n, Target(e.bits)), BMul(one, e.r.d))
                          IN Fails({<<"C31.difficulty", e.r.k = "f" /\ BLe(BShl8(err, 5), BMul(one, e.r.d))>>})
    [] e.op = "u.genesis" -> LET f == << e.v, [i \in 1..32 |-> 0], e.root, e.t, e.bits, e.nonce >>
                             IN Fails({<<"C31.genesis", e.r.k = "b" /\ e.r.v = Rev(BPad(f[1], 4)) \o f[2] \o f[3] \o Rev(BPad(f[4], 4)) \o Rev(BPad(f[5], 4)) \o Rev(BPad(f[6], 4))>>,
                                       <<"C31.genesis.hash", e.r.k = "b" /\ SHA256d(e.r.v) = e.want>>})
    [] e.op = "u.hash" -> Fails({<<"C31.hash", e.r = RB(UHash(e.f, e.m))>>})
    [] e.op = "u.hashrep" -> Fails({<<"C31.hash", e.r = RB(UHash(e.f, [i \in 1..e.n |-> e.m[1 + ((i - 1) % Len(e.m))]]))>>})
    [] e.op = "u.tohex" -> Fails({<<"C31.hex", e.r.k \in {"b", "s"} /\ e.r.v = HexText(Rev(e.s))>>, <<"C31.hex.back", e.back = RB(e.s)>>})
    [] e.op = "u.getv" -> Fails({<<"C31.version", e.r = RL([i \in 1..4 |-> RI(BFromInt(<< e.n \div 1000000, (e.n \div 10000) % 100, (e.n \div 100) % 100, e.n % 100 >>[i]))])>>,
                                 <<"C31.version.back", e.back = RI(BFromInt(e.n))>>})
    [] e.op = "u.makev" -> LET p == e.parts
                           IN Fails({<<"C31.version.make", IF \E i \in 2..4 : p[i] < 0 \/ p[i] > 99 THEN IsX(e.r)
                                        ELSE e.r = RI(BFromInt(p[1] * 1000000 + p[2] * 10000 + p[3] * 100 + p[4])) /\ e.back = RL([i \in 1..4 |-> RI(BFromInt(p[i]))])>>})
    [] e.op = "u.coin" -> Fails({<<"C31.coin", e.r = RBool((e.hasname = 1 /\ Lower(e.name) = CoinName) \/ (e.hassym = 1 /\ Lower(e.sym) = CoinSym))>>})
    [] e.op = "u.eq" -> Fails({<<"C09.outpoint", e.r = RBool(e.a = e.b) /\ e.ne = RBool(e.a # e.b) /\ (e.a = e.b => e.h = RT) /\ e.other = RF>>})

Clauses(e) ==
  CASE e.op = "enc" -> EncClauses(e)
    [] e.op = "rec" -> RecClauses(e)
    [] e.op = "id" -> IdClauses(e)
    [] e.op = "mk" -> MkClauses(e)
    [] e.op = "parse" -> ParseClauses(e)
    [] e.op = "alert" -> AlertClauses(e)
    [] e.op = "alert.verify" -> Fails({<<"C32.verify", e.r = RBool(e.good = 1)>>})
    [] OTHER -> UtilClauses(e)
JInv == JReport(Clauses(JTrace[jpos]))
=============================================================================
