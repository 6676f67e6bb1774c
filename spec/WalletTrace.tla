----------------------------- MODULE WalletTrace -----------------------------
(* Judges recorded uses of base58 (C12), key encodings (C13), wallets         *)
(* (C14 - C16, C18 - C20), piecewise keys (C29) and shared secrets (C33).     *)
(* A wallet is recorded by what it shows: o.k = "a" a simple wallet, "h" a    *)
(* hierarchical one, "x" an operation that was refused, "w" anything else.    *)
EXTENDS Judge, Wallet

Num4(n) == BPad(n, 4)
\* --- what a wallet shows hangs together ---------------------------------------------------
AKey(o) == IF o.wif.k = "b" THEN WifRead(o.wif.v) ELSE NoWif
APoint(o) == PubRead(o.pub)
AHas(o) == o.wif.k = "b"
AGood(o) ==
  LET w == AKey(o)
      P == APoint(o)
  IN /\ Len(o.pub) = 65 /\ P # << >>
     /\ AHas(o) => w[1] /\ (o.comp = 1) = w[3] /\ P = PubOf(w[2])
     /\ ~ AHas(o) => o.wif = RNone
     /\ o.key = (IF o.comp = 1 THEN Comp(P) ELSE Full(P))
     /\ o.addr = Addr(o.key, o.vcn, o.net)
HNode(o) == Node(IF o.prv.k = "b" THEN o.prv.v ELSE << >>, Point64(o.pub), o.chain, o.vcn, o.net, o.depth, o.pfp, Num4(o.num))
HGood(o) ==
  LET w == HNode(o)
  IN /\ Len(o.pub) = 64 /\ ECOn(SC, w.P)
     /\ o.prv.k = "b" => Len(w.d) = 32 /\ InRange(w.d) /\ w.P = PubOf(w.d)
     /\ o.prv.k # "b" => o.prv = RNone
     /\ Len(o.chain) = 32 /\ Len(o.pfp) = 4 /\ Len(o.num) <= 4
     /\ o.fp = Print4(w.P) /\ o.addr = Addr(Comp(w.P), o.vcn, o.net)
Good(o) == IF o.k = "a" THEN AGood(o) ELSE o.k = "h" /\ HGood(o)
Refused(o) == o.k = "x"
Short(t) == Len(BNorm(WifRead(t)[2])) < 28
\* o shows the node w
IsNode(o, w) == o.k = "h" /\ HNode(o) = w /\ HGood(o)
HasKey(o) == IF o.k = "a" THEN AHas(o) ELSE o.prv.k = "b"
Secret(o) == IF o.k = "a" THEN AKey(o)[2] ELSE o.prv.v
PointOf(o) == IF o.k = "a" THEN APoint(o) ELSE Point64(o.pub)
\* what a reader could recognise the key by: import formats, hexadecimal, the bytes themselves
Forms(d) == {Wif(d, TRUE), Wif(d, FALSE), Hex(d), d}
Shows(text, o) == HasKey(o) /\ \E f \in Forms(Secret(o)) : Contains(text, f) \/ Contains(text, Hex(f))

\* --- C12
C12C(e) ==
  CASE e.op = "b58e" -> Fails({<<"C12.encode", e.r = RB(B58Enc(e.d))>>})
    [] e.op = "b58d" -> Fails({<<"C12.decode", IF B58Valid(e.t) THEN e.r = RB(B58Dec(e.t)) ELSE e.r.k # "b">>})
    [] e.op = "chke" -> Fails({<<"C12.encodecheck", e.r = RB(B58Check(e.d))>>})
    [] e.op = "chkd" -> LET x == B58Read(e.t)
                        IN Fails({<<"C12.decodecheck", IF x[1] THEN e.r = RB(x[2])
                                                       ELSE IF B58Valid(e.t) THEN e.r = RNone ELSE e.r.k \in {"n", "x"}>>})
\* --- C13
C13C(e) ==
  CASE e.op = "wif" -> Fails({<<"C13.wif", e.r = RB(Wif(e.d, e.comp = 1))>>})
    [] e.op = "unwif" -> LET w == WifRead(e.t) IN Fails({<<"C13.unwif", IF w[1] THEN e.r = RB(w[2]) ELSE IsX(e.r)>>})
    \* the same under other version bytes, given with the call
    [] e.op = "pwif" -> Fails({<<"C13.wif", e.r = RB(WifUnder(e.pf, e.d, e.comp = 1))>>})
    [] e.op = "punwif" -> LET w == WifReadUnder(e.pf, e.t) IN Fails({<<"C13.unwif", IF w[1] THEN e.r = RB(w[2]) ELSE IsX(e.r)>>})
    [] e.op = "compress" -> Fails({<<"C13.compress", IF Len(e.d) # 65 THEN IsX(e.r) ELSE IF e.d[1] # 4 THEN IsX(e.r)
                                                     ELSE e.r = RB(Comp(Point64(Tail(e.d))))>>})
    [] e.op = "decompress" -> LET P == PubRead(e.d) IN Fails({<<"C13.decompress", IF P = << >> THEN IsX(e.r) ELSE e.r = RB(Full(P))>>})
\* --- C14
SameAs(a, b) == a.vcn = b.vcn /\ a.net = b.net /\ a.pub = b.pub /\ AHas(a) = AHas(b)
C14C(e) ==
  CASE e.op = "a.new" ->
         LET P == IF e.kind = "wif" THEN (LET w == WifRead(e.d) IN IF w[1] THEN PubOf(w[2]) ELSE << >>) ELSE PubRead(e.d)
             comp == IF e.kind = "wif" THEN WifRead(e.d)[3] ELSE Len(e.d) = 33
         IN IF P = << >> THEN Fails({<<"C14.refused", e.loose = 1 \/ Refused(e.o)>>})
            ELSE Fails({<<"C14.made", e.o.k = "a">>,
                        <<"C14.new", e.o.k = "a" =>
                          /\ AGood(e.o) /\ e.o.pub = Full(P) /\ (e.o.comp = 1) = comp /\ e.o.net = e.net
                          /\ e.o.wif = (IF e.kind = "wif" THEN RB(e.d) ELSE RNone)
                          /\ (e.vcn # RNone => e.o.vcn = BToInt(BMod(e.vcn.v, << 1, 0, 0 >>)))>>})
    [] e.op = "a.generate" -> Fails({<<"C14.generate", e.o.k = "a" /\ AGood(e.o) /\ AHas(e.o) /\ InRange(Secret(e.o)) /\ e.o.comp = e.comp
                                                       /\ e.o.net = e.net /\ (e.vcn # RNone => e.o.vcn = BToInt(BMod(e.vcn.v, << 1, 0, 0 >>)))>>})
    \* keys drawn one after the other: no two the same, none of them short twice, whatever the chain number
    [] e.op = "a.drawn" -> Fails({<<"C14.drawn", /\ \A i \in 1..Len(e.ts) : WifRead(e.ts[i])[1] /\ InRange(WifRead(e.ts[i])[2])
                                                 /\ \A i, j \in 1..Len(e.ts) : i # j => WifRead(e.ts[i])[2] # WifRead(e.ts[j])[2]
                                                 /\ \A i, j \in 1..Len(e.ts) : i < j => ~ (Short(e.ts[i]) /\ Short(e.ts[j]))
                                                 /\ \E i \in 1..Len(e.ts) : WifRead(e.ts[i])[2][1] > 3>>})
    [] e.op = "a.both" -> Fails({<<"C14.both", Refused(e.o)>>})
    [] e.op = "a.convert" ->
         Fails({<<"C14.convert", /\ e.o.k = "a" /\ AGood(e.o) /\ SameAs(e.o, e.pre) /\ e.o.comp = e.comp
                                 /\ (AHas(e.o) => Secret(e.o) = Secret(e.pre))>>,
                <<"C14.unchanged", e.pre2 = e.pre>>})
    [] e.op = "show" -> Fails({<<"C14.shown", Contains(e.s, e.pre.addr)>>, <<"C14.secret", ~ Shows(e.s, e.pre)>>})
    [] e.op = "h.show" -> Fails({<<"C14.address", e.pre.k = "h" /\ HGood(e.pre)>>})
    [] e.op = "pubaddr" -> Fails({<<"C14.text", e.r = RB(AddrVer(e.pub, BToInt(BMod(e.vcn, << 1, 0, 0 >>)), e.ver))>>})
\* --- C15: pre saved and loaded is o, o saved and loaded is o2
C15C(e) == Fails({<<"C15.loaded", e.o = e.pre>>, <<"C15.again", e.o2 = e.pre>>, <<"C15.unchanged", e.pre2 = e.pre>>,
                  <<"C15.same", Good(e.o)>>})
\* --- C16
StoredKey(o) == IF o.k = "a" THEN o.wif.v ELSE o.prv.v
C16C(e) ==
  CASE e.op = "file" -> Fails({<<"C16.field", e.field = RB(FileKey(StoredKey(e.pre), e.pw))>>,
                               <<"C16.clear", e.pw # << >> => ~ Shows(e.text, e.pre) /\ ~ Contains(e.text, Hex(LenKey(StoredKey(e.pre)))) >>})
    \* key: the private key the loaded wallet gives, x when nothing was loaded
    [] e.op = "badload" -> Fails({<<"C16.other", IsX(e.key) \/ e.key = RNone \/ e.key = RB(StoredKey(e.pre))>>,
                                  <<"C16.accepted", (e.how = "pass" /\ ~ SamePass(e.pw, e.pw2)) => IsX(e.key) \/ e.key = RNone>>,
                                  <<"C16.right", (e.how = "pass" /\ SamePass(e.pw, e.pw2)) => e.o = e.pre>>})
\* --- C18
C18C(e) ==
  CASE e.op = "h.master" -> LET w == Master(e.seed, IF e.vcn = RNone THEN e.o.vcn ELSE BToInt(BMod(e.vcn.v, << 1, 0, 0 >>)), e.net)
                            IN Fails({<<"C18.master", IsNode(e.o, w)>>})
    [] e.op = "h.child" ->
         LET w == HNode(e.pre)
         IN IF Len(e.i) > 4 \/ e.neg = 1 THEN Fails({<<"C18.index", Refused(e.o)>>})
            ELSE IF ~ CanDerive(w, Num4(e.i)) THEN Fails({<<"C18.refused", Refused(e.o)>>, <<"C18.unchanged", e.pre2 = e.pre>>})
            ELSE Fails({<<"C18.child", IsNode(e.o, Child(w, Num4(e.i)))>>, <<"C18.unchanged", e.pre2 = e.pre>>})
    \* the keyed hash is I
    [] e.op = "h.forced" ->
         LET w == HNode(e.pre)
         IN IF NoChild(w, e.I) THEN Fails({<<"C18.refused", Refused(e.o)>>, <<"C18.unchanged", e.pre2 = e.pre>>})
            ELSE Fails({<<"C18.child", IsNode(e.o, ChildOf(w, Num4(e.i), e.I))>>, <<"C18.unchanged", e.pre2 = e.pre>>})
    [] e.op = "h.zero" -> Fails({<<"C18.zero", Refused(e.o)>>})
    [] e.op = "h.wrong" -> Fails({<<"C18.wrong", Refused(e.o)>>})
    \* the same path from the private wallet, from its public half, and again
    [] e.op = "h.path" -> Fails({<<"C18.repeat", e.a = e.b>>,
                                 <<"C18.public", e.half.k = "h" /\ e.a.k = "h" /\ HNode(e.half) = Public(HNode(e.a)) /\ e.half.prv = RNone /\ e.half.addr = e.a.addr>>})
    [] e.op = "h.new" -> Fails({<<"C18.new", IsNode(e.o, Node(IF e.d = << >> THEN << >> ELSE B32(e.d), IF e.d = << >> THEN Point64(e.P) ELSE PubOf(e.d),
                                                              e.chain, e.vcn, e.net, e.depth, e.pfp, Num4(e.num)))>>})
\* --- C19
C19C(e) ==
  CASE e.op = "x.export" -> LET w == HNode(e.pre)
                            IN Fails({<<"C19.export", IF e.prv = 1 /\ w.d = << >> THEN IsX(e.r) ELSE e.r = RB(XText(w, e.prv = 1))>>,
                                      <<"C19.length", e.r.k = "b" => Len(e.r.v) = 111>>, <<"C19.unchanged", e.pre2 = e.pre>>})
    [] e.op = "x.import" -> LET x == XRead(e.t, IF e.vcn # RNone THEN BToInt(BMod(e.vcn.v, << 1, 0, 0 >>)) ELSE IF e.o.k = "h" THEN e.o.vcn ELSE 0)
                            IN Fails({<<"C19.import", IF x[1] = "bad" THEN Refused(e.o) ELSE x[1] = "open" \/ IsNode(e.o, x[2])>>})
    \* the child of the imported wallet and of the exported one
    [] e.op = "x.child" -> Fails({<<"C19.children", e.a = e.b>>})
\* --- C20
C20C(e) ==
  CASE e.op = "sign" ->
         IF ~ HasKey(e.pre) THEN Fails({<<"C20.nokey", IsX(e.r)>>})
         ELSE LET x == IF e.r.k = "b" THEN DecDer(e.r.v) ELSE BadSig
              IN Fails({<<"C20.sign", x[1] /\ SigOk(PointOf(e.pre), e.data, x[2], x[3])>>,
                        <<"C20.der", x[1] => e.r.v = DSeq(<< DInt(x[2]), DInt(x[3]) >>)>>,
                        <<"C20.unchanged", e.pre2 = e.pre>>})
    [] e.op = "verify" ->
         LET x == DecDer(e.sig)
             strict == IF x[1] THEN e.sig = DSeq(<< DInt(x[2]), DInt(x[3]) >>) ELSE FALSE
             y == IF strict THEN x ELSE Lenient(e.sig)
             P == IF e.who = "key" THEN PubRead(e.pub) ELSE PointOf(e.pre)
             ok == IF P = << >> \/ ~ y[1] THEN FALSE ELSE SigOk(P, e.data, y[2], y[3])
         IN Fails({<<"C20.verify", IF strict THEN e.r = RBool(ok) ELSE IF ok THEN TRUE ELSE e.r = RF \/ IsX(e.r)>>})
\* --- C29
RECURSIVE SumOf(_)
SumOf(ds) == IF ds = << >> THEN << >> ELSE BAddMod(BNorm(Head(ds)), SumOf(Tail(ds)), SN)
Keys(ts) == [i \in 1..Len(ts) |-> WifRead(ts[i])[2]]
AllWif(ts) == \A i \in 1..Len(ts) : WifRead(ts[i])[1]
WifSum(ds) == Wif(B32(SumOf(ds)), FALSE)
Txts(r) == [i \in 1..Len(r.l) |-> r.l[i].v]
\* a part: [idx, req, sum, key], or idx = -1
Part(t) == LET x == B58Read(t)
               p == x[2]
           IN IF ~ x[1] \/ Len(p) # 40 THEN [idx |-> -1, req |-> 0, sum |-> << >>, key |-> << >>]
              ELSE IF SubSeq(p, 1, 2) # << 16, 1 >> THEN [idx |-> -1, req |-> 0, sum |-> << >>, key |-> << >>]
              ELSE [idx |-> p[3], req |-> p[4], sum |-> SubSeq(p, 5, 8), key |-> SubSeq(p, 9, 40)]
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SetSum(_)
SetSum(S) == IF S = {} THEN << >> ELSE LET d == CHOOSE z \in S : TRUE IN BAddMod(BNorm(d), SetSum(S \ {d}), SN)
KeysAt(ps, i) == {p.key : p \in {q \in ps : q.idx = i}}
C29C(e) ==
  CASE e.op = "combine" -> Fails({<<"C29.combine", IF AllWif(e.ts) THEN e.r = RB(WifSum(Keys(e.ts))) ELSE IsX(e.r)>>})
    [] e.op = "split" -> Fails({<<"C29.split", /\ e.r.k = "l" /\ Len(e.r.l) = e.n /\ AllWif(Txts(e.r))
                                               /\ SumOf(Keys(Txts(e.r))) = BMod(WifRead(e.t)[2], SN)>>,
                                  \* each part but the last is drawn from all keys: two short ones do not happen by chance
                                  <<"C29.splitrange", e.r.k = "l" => \A i, j \in 1..Len(e.r.l) : i < j => ~ (Short(e.r.l[i].v) /\ Short(e.r.l[j].v))>>})
    [] e.op = "addrof" ->
         LET P == PubRead(e.pub)
             w == WifRead(e.t)
             Q == ECAdd(SC, P, PubOf(w[2]))
         IN Fails({<<"C29.address", IF Len(e.pub) # 65 THEN IsX(e.r)
                                    ELSE IF Q = << >> THEN TRUE ELSE e.r = RB(AddrVer(Full(Q), e.vcn, e.ver))>>})
    \* groups: total sets of req parts
    [] e.op = "psplit" ->
         LET d == WifRead(e.t)[2]
             gs == [g \in 1..Len(e.groups) |-> {Part(e.groups[g][j]) : j \in 1..Len(e.groups[g])}]
             all == UNION {gs[g] : g \in 1..Len(gs)}
             ixs == {p.idx : p \in all}
         IN Fails({<<"C29.sets", Len(gs) = e.total /\ \A g \in 1..Len(gs) : Len(e.groups[g]) = e.req>>,
                   <<"C29.parts", \A p \in all : p.idx >= 0 /\ p.req = e.req /\ p.sum = SubSeq(SHA256d(d), 1, 4)>>,
                   <<"C29.whole", \A i \in ixs : SetSum(KeysAt(all, i)) = BMod(d, SN)>>})
    [] e.op = "prestore" -> Fails({<<"C29.restored", e.r = RB(Wif(WifRead(e.t)[2], FALSE))>>})
    [] e.op = "ptoofew" -> Fails({<<"C29.toofew", e.r = RNone>>})
    [] e.op = "prefuse" -> Fails({<<"C29.refuses", IsX(e.r)>>})
    [] e.op = "paltered" -> Fails({<<"C29.altered", e.r.k # "b">>})
    [] e.op = "pforeign" -> Fails({<<"C29.foreign", IF e.ignore = 0 THEN IsX(e.r) ELSE e.r = RB(Wif(WifRead(e.t)[2], FALSE))>>})
    [] e.op = "pqr" -> Fails({<<"C29.compact", e.r.k = "l" /\ Elems(Txts(e.r)) = Elems(e.ts) /\ Len(e.r.l) = Len(e.ts)>>,
                              <<"C29.compactkeys", LET b == {Part(t) : t \in Elems(e.ts)}
                                       a == {Part(t) : t \in Elems(Txts(e.r))}
                                   IN e.r.k = "l" /\ {<<x.key, x.req, x.sum>> : x \in a} = {<<x.key, x.req, x.sum>> : x \in b}>>,
                              <<"C29.compacttext", e.enc.k = "s" /\ \A i \in 1..Len(e.enc.v) : e.enc.v[i] \in (65..90) \cup (50..55)>>})
\* --- C33
C33C(e) ==
  CASE e.op = "shared" ->
         LET P == PubRead(e.pub)
             w == WifRead(e.t)
         IN Fails({<<"C33.shared", IF P = << >> \/ ~ w[1] \/ BMod(BNorm(w[2]), SN) = << >> THEN IsX(e.r)
                                   \* keys beyond the order: refused, or their product
                                   ELSE (BCmp(BNorm(w[2]), SN) > 0 /\ IsX(e.r)) \/ e.r = RB(B32(ECMul(SC, BNorm(w[2]), P)[1]))>>})
    [] e.op = "sharedpair" -> Fails({<<"C33.agree", e.a = e.b /\ e.a.k = "b">>})

Clauses(e) ==
  CASE e.p = "C12" -> C12C(e) [] e.p = "C13" -> C13C(e) [] e.p = "C14" -> C14C(e) [] e.p = "C15" -> C15C(e)
    [] e.p = "C16" -> C16C(e) [] e.p = "C18" -> C18C(e) [] e.p = "C19" -> C19C(e) [] e.p = "C20" -> C20C(e)
    [] e.p = "C29" -> C29C(e) [] e.p = "C33" -> C33C(e)
JInv == JReport(Clauses(JTrace[jpos]))
=============================================================================
