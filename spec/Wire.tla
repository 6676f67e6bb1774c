-------------------------------- MODULE Wire --------------------------------
(* The wire format of the Bitcoin protocol as used by new-bitcoin: field      *)
(* types, which values fit them, their bytes, and reading them back.          *)
(* Values: RI / RNeg numbers, RB byte strings, RS text (latin-1 codes), RL    *)
(* lists, [k |-> "rec", t, f] compound values.  Inside this specification an  *)
(* address is its 16 bytes.                                                   *)
EXTENDS Hash

WB(x) == [k |-> "b", v |-> x]
WI(x) == [k |-> "i", v |-> x]
WNeg(x) == [k |-> "-", v |-> x]
WL(x) == [k |-> "l", l |-> x]
WRec(t, f) == [k |-> "rec", t |-> t, f |-> f]
WZero == WI(<< >>)
WOne == WI(<< 1 >>)

\* --- types ---------------------------------------------------------------------
Num(w, signed, be, fl) == [t |-> "num", w |-> w, signed |-> signed, be |-> be, fl |-> fl]
U8 == Num(1, FALSE, FALSE, FALSE)
U32 == Num(4, FALSE, FALSE, FALSE)
U32f == Num(4, FALSE, FALSE, TRUE)
I32 == Num(4, TRUE, FALSE, FALSE)
U64 == Num(8, FALSE, FALSE, FALSE)
I64 == Num(8, TRUE, FALSE, FALSE)
I64f == Num(8, TRUE, FALSE, TRUE)
Port == Num(2, FALSE, TRUE, FALSE)
VarInt == [t |-> "var"]
Ip == [t |-> "ip"]
Bytes(n) == [t |-> "bytes", n |-> n]
VarStr == [t |-> "vstr"]
Arr(c, min, max) == [t |-> "arr", c |-> c, min |-> min, max |-> max]     \* max 0: no limit
Rec(n) == [t |-> "rec", n |-> n]
AddrNoTime == [t |-> "ant"]
OptTrue(c) == [t |-> "opt", c |-> c]

\* compound types and messages: <<field name, type>>
RecFields(n) ==
  CASE n = "NetworkAddress" -> << <<"timestamp", U32f>>, <<"services", U64>>, <<"address", Ip>>, <<"port", Port>> >>
    [] n = "InventoryVector" -> << <<"object_type", U32>>, <<"hash", Bytes(32)>> >>
    [] n = "OutPoint" -> << <<"hash", Bytes(32)>>, <<"index", U32>> >>
    [] n = "TxnIn" -> << <<"previous_output", Rec("OutPoint")>>, <<"signature_script", VarStr>>, <<"sequence", U32>> >>
    [] n = "TxnOut" -> << <<"value", I64>>, <<"pk_script", VarStr>> >>
    [] n \in {"Txn", "Transaction"} ->
         << <<"version", U32>>, <<"tx_in", Arr(Rec("TxnIn"), 1, 0)>>, <<"tx_out", Arr(Rec("TxnOut"), 1, 0)>>, <<"lock_time", U32>> >>
    [] n = "BlockHeader" -> << <<"version", U32>>, <<"prev_block", Bytes(32)>>, <<"merkle_root", Bytes(32)>>, <<"timestamp", U32f>>,
                               <<"bits", U32>>, <<"nonce", U32>>, <<"txn_count", VarInt>> >>
    [] n = "Version" -> << <<"version", I32>>, <<"services", U64>>, <<"timestamp", I64f>>, <<"addr_recv", AddrNoTime>>, <<"addr_from", AddrNoTime>>,
                           <<"nonce", Bytes(8)>>, <<"user_agent", VarStr>>, <<"start_height", I32>>, <<"relay", OptTrue(U8)>> >>
    [] n \in {"VersionAck", "GetAddress", "MemoryPool", "FilterClear"} -> << >>
    [] n = "Address" -> << <<"addr_list", Arr(Rec("NetworkAddress"), 0, 1000)>> >>
    [] n \in {"Inventory", "GetData", "NotFound"} -> << <<"inventory", Arr(Rec("InventoryVector"), 0, 50000)>> >>
    [] n \in {"GetBlocks", "GetHeaders"} -> << <<"version", U32>>, <<"block_locator_hashes", Arr(Bytes(32), 1, 0)>>, <<"hash_stop", Bytes(32)>> >>
    [] n = "Block" -> << <<"version", U32>>, <<"prev_block", Bytes(32)>>, <<"merkle_root", Bytes(32)>>, <<"timestamp", U32f>>,
                         <<"bits", U32>>, <<"nonce", U32>>, <<"txns", Arr(Rec("Txn"), 0, 0)>> >>
    [] n = "Headers" -> << <<"headers", Arr(Rec("BlockHeader"), 0, 0)>> >>
    [] n \in {"Ping", "Pong"} -> << <<"nonce", Bytes(8)>> >>
    [] n = "Reject" -> << <<"message", VarStr>>, <<"ccode", U8>>, <<"reason", VarStr>> >>
    [] n = "Alert" -> << <<"payload", VarStr>>, <<"signature", VarStr>> >>
\* registered messages: <<type, command as bytes>>
Messages == <<
  <<"Version", <<118,101,114,115,105,111,110>>, "version">>, <<"VersionAck", <<118,101,114,97,99,107>>, "version_ack">>, <<"Address", <<97,100,100,114>>, "address">>,
  <<"Inventory", <<105,110,118>>, "inventory">>, <<"GetData", <<103,101,116,100,97,116,97>>, "get_data">>, <<"NotFound", <<110,111,116,102,111,117,110,100>>, "not_found">>,
  <<"GetBlocks", <<103,101,116,98,108,111,99,107,115>>, "get_blocks">>, <<"GetHeaders", <<103,101,116,104,101,97,100,101,114,115>>, "get_headers">>,
  <<"Transaction", <<116,120>>, "transaction">>, <<"Block", <<98,108,111,99,107>>, "block">>, <<"Headers", <<104,101,97,100,101,114,115>>, "headers">>,
  <<"GetAddress", <<103,101,116,97,100,100,114>>, "get_address">>, <<"MemoryPool", <<109,101,109,112,111,111,108>>, "memory_pool">>,
  <<"Ping", <<112,105,110,103>>, "ping">>, <<"Pong", <<112,111,110,103>>, "pong">>, <<"Reject", <<114,101,106,101,99,116>>, "reject">>, <<"Alert", <<97,108,101,114,116>>, "alert">> >>
CommandOf(n) == LET i == CHOOSE j \in 1..Len(Messages) : Messages[j][1] = n IN Messages[i][2]
HandlerOf(n) == LET i == CHOOSE j \in 1..Len(Messages) : Messages[j][1] = n IN Messages[i][3]
TypeOf(cmd) == LET s == {j \in 1..Len(Messages) : Messages[j][2] = cmd} IN IF s = {} THEN "" ELSE Messages[CHOOSE j \in s : TRUE][1]

\* --- addresses as text -----------------------------------------------------------
RECURSIVE SplitAt(_, _)
\* the parts of s between the bytes equal to c
SplitAt(s, c) == LET w == {i \in 1..Len(s) : s[i] = c}
                 IN IF w = {} THEN << s >>
                    ELSE LET i == CHOOSE j \in w : \A h \in w : j <= h
                         IN << SubSeq(s, 1, i - 1) >> \o SplitAt(SubSeq(s, i + 1, Len(s)), c)
IsDig(c) == c \in 48..57
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE DecVal(_), HexVal(_)
DecVal(s) == IF s = << >> THEN 0 ELSE LET d == 10 * DecVal(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48 IN IF d > 99999 THEN 99999 ELSE d
HexVal(s) == IF s = << >> THEN 0 ELSE 16 * HexVal(SubSeq(s, 1, Len(s) - 1)) + Hex(s[Len(s)])
V4Head == << 0,0,0,0,0,0,0,0,0,0,255,255 >>
V4Bytes(t) == LET g == SplitAt(t, 46)
              IN IF Len(g) = 4 /\ \A i \in 1..4 : g[i] # << >> /\ (\A j \in 1..Len(g[i]) : IsDig(g[i][j])) /\ DecVal(g[i]) <= 255
                 THEN V4Head \o [i \in 1..4 |-> DecVal(g[i])] ELSE << >>
HexGroup(s) == Len(s) \in 1..4 /\ \A j \in 1..Len(s) : Hex(s[j]) < 16
RECURSIVE GroupBytes(_)
GroupBytes(gs) == IF gs = << >> THEN << >>
                  ELSE LET v == HexVal(gs[1]) IN << v \div 256, v % 256 >> \o GroupBytes(Tail(gs))
V6Bytes(t) ==
  LET gaps == {i \in 1..(Len(t) - 1) : t[i] = 58 /\ t[i + 1] = 58}
  IN IF gaps = {}
     THEN LET g == SplitAt(t, 58) IN IF Len(g) = 8 /\ \A i \in 1..8 : HexGroup(g[i]) THEN GroupBytes(g) ELSE << >>
     ELSE LET i == CHOOSE j \in gaps : \A h \in gaps : j <= h
              hs == SubSeq(t, 1, i - 1)
              ts == SubSeq(t, i + 2, Len(t))
              a == IF hs = << >> THEN << >> ELSE SplitAt(hs, 58)
              b == IF ts = << >> THEN << >> ELSE SplitAt(ts, 58)
              mid == 8 - Len(a) - Len(b)
          IN IF mid >= 1 /\ (\A j \in 1..Len(a) : HexGroup(a[j])) /\ (\A j \in 1..Len(b) : HexGroup(b[j]))
             THEN GroupBytes(a) \o [j \in 1..(2 * mid) |-> 0] \o GroupBytes(b) ELSE << >>
AddrBytes(t) == LET x == V4Bytes(t) IN IF x # << >> THEN x ELSE V6Bytes(t)

\* --- which values fit ---------------------------------------------------------------
Two(n) == BPowMod(<< 2 >>, BFromInt(n), [i \in 1..33 |-> IF i = 1 THEN 1 ELSE 0])      \* 2^n, n <= 256
NumFits(ty, v) ==
  LET bits == 8 * ty.w
      hi == IF ty.signed THEN Two(bits - 1) ELSE Two(bits)
  IN CASE v.k = "i" \/ v.k = "t" -> BLt(BNorm(v.v), hi)
       [] v.k = "-" -> ty.signed /\ BLe(v.v, hi)
       [] v.k = "f" -> /\ ty.fl /\ v.special = 0
                       /\ IF v.neg = 0 THEN BLt(v.v, hi)
                          ELSE (v.v = << >> /\ v.frac = 0) \/ (ty.signed /\ (BLt(v.v, hi) \/ (v.v = hi /\ v.frac = 0)))
       [] OTHER -> FALSE
RECURSIVE Fits(_, _)
Fits(ty, v) ==
  CASE ty.t = "num" -> NumFits(ty, v)
    [] ty.t = "var" -> v.k \in {"i", "t"} /\ BLt(BNorm(v.v), Two(64))
    [] ty.t = "ip" -> v.k = "s" /\ AddrBytes(v.v) # << >>
    [] ty.t = "bytes" -> v.k = "b" /\ Len(v.v) = ty.n
    [] ty.t = "vstr" -> v.k \in {"b", "s"}
    [] ty.t = "arr" -> \/ /\ v.k = "l" /\ Len(v.l) >= ty.min /\ (ty.max > 0 => Len(v.l) <= ty.max)
                          /\ \A i \in 1..Len(v.l) : Fits(ty.c, v.l[i])
                       \/ /\ v.k = "rep" /\ v.n >= ty.min /\ (ty.max > 0 => v.n <= ty.max) /\ Fits(ty.c, v.x)
    [] ty.t = "rec" -> v.k = "rec" /\ v.t = ty.n
    [] ty.t = "ant" -> v.k = "rec" /\ v.t = "NetworkAddress"
    [] ty.t = "opt" -> TRUE

\* --- what a fitting value reads back as ------------------------------------------------
RECURSIVE Norm(_, _)
NormFields(fs, vs) == [i \in 1..Len(vs) |-> Norm(fs[i][2], vs[i])]
Norm(ty, v) ==
  CASE ty.t \in {"num", "var"} -> IF v.k = "i" THEN v ELSE IF v.k = "t" THEN WI(BNorm(v.v))
                                   ELSE IF v.k = "-" THEN v
                                   ELSE IF v.neg = 1 /\ v.v # << >> THEN WNeg(v.v) ELSE WI(v.v)
    [] ty.t = "ip" -> WB(AddrBytes(v.v))
    [] ty.t = "bytes" -> v
    [] ty.t = "vstr" -> WB(v.v)
    [] ty.t = "arr" -> WL([i \in 1..Len(v.l) |-> Norm(ty.c, v.l[i])])
    [] ty.t = "rec" -> WRec(ty.n, NormFields(RecFields(ty.n), v.f))
    [] ty.t = "ant" -> WRec("NetworkAddress", << WZero >> \o Tail(NormFields(RecFields("NetworkAddress"), v.f)))
    [] ty.t = "opt" -> IF Fits(ty.c, v) THEN Norm(ty.c, v) ELSE WOne

\* --- bytes of normal values ---------------------------------------------------------------
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NumBytes(ty, v) ==
  LET be == BPad(IF v.k = "-" THEN BSub(Two(8 * ty.w), v.v) ELSE v.v, ty.w) IN IF ty.be THEN be ELSE Rev(be)
VarBytes(n) == IF BLt(n, << 253 >>) THEN BPad(n, 1)
               ELSE IF Len(n) <= 2 THEN << 253 >> \o Rev(BPad(n, 2))
               ELSE IF Len(n) <= 4 THEN << 254 >> \o Rev(BPad(n, 4))
               ELSE << 255 >> \o Rev(BPad(n, 8))
RECURSIVE Enc(_, _), EncList(_, _), EncFields(_, _)
EncList(c, l) == IF l = << >> THEN << >> ELSE Enc(c, l[1]) \o EncList(c, Tail(l))
EncFields(fs, vs) == IF fs = << >> THEN << >> ELSE Enc(fs[1][2], vs[1]) \o EncFields(Tail(fs), Tail(vs))
Enc(ty, v) ==
  CASE ty.t = "num" -> NumBytes(ty, v)
    [] ty.t = "var" -> VarBytes(v.v)
    [] ty.t \in {"ip", "bytes"} -> v.v
    [] ty.t = "vstr" -> VarBytes(BFromInt(Len(v.v))) \o v.v
    [] ty.t = "arr" -> VarBytes(BFromInt(Len(v.l))) \o EncList(ty.c, v.l)
    [] ty.t = "rec" -> EncFields(RecFields(ty.n), v.f)
    [] ty.t = "ant" -> EncFields(Tail(RecFields("NetworkAddress")), Tail(v.f))
    [] ty.t = "opt" -> Enc(ty.c, v)
Payload(n, vs) == EncFields(RecFields(n), vs)
Pad12(c) == [i \in 1..12 |-> IF i <= Len(c) THEN c[i] ELSE 0]
CheckSum(p) == SubSeq(SHA256d(p), 1, 4)
FrameOf(magic, cmd, p) == magic \o Pad12(cmd) \o Rev(BPad(BFromInt(Len(p)), 4)) \o CheckSum(p) \o p
Frame(magic, n, vs) == FrameOf(magic, CommandOf(n), Payload(n, vs))

\* --- reading: <<value, next offset>> or << >> ---------------------------------------------
Sub(s, o, n) == SubSeq(s, o + 1, o + n)
NumVal(ty, b) == LET be == IF ty.be THEN b ELSE Rev(b)
                 IN IF ty.signed /\ be[1] >= 128 THEN WNeg(BSub(Two(8 * ty.w), BNorm(be))) ELSE WI(BNorm(be))
\* variable length integer at offset o: <<Big, next offset>>
ReadVar(s, o) ==
  IF o >= Len(s) THEN << >>
  ELSE LET h == s[o + 1]
           w == IF h = 253 THEN 2 ELSE IF h = 254 THEN 4 ELSE IF h = 255 THEN 8 ELSE 0
       IN IF o + 1 + w > Len(s) THEN << >>
          ELSE IF w = 0 THEN << BFromInt(h), o + 1 >> ELSE << BNorm(Rev(Sub(s, o + 1, w))), o + 1 + w >>
RECURSIVE Dec(_, _, _), DecList(_, _, _, _, _), DecFields(_, _, _, _, _)
\* n items still to read (at most 2^31 - 1)
DecList(c, s, o, n, acc) ==
  IF n = 0 THEN << acc, o >>
  ELSE LET x == Dec(c, s, o) IN IF x = << >> THEN << >> ELSE DecList(c, s, x[2], n - 1, Append(acc, x[1]))
DecFields(fs, s, o, i, acc) ==
  IF i > Len(fs) THEN << acc, o >>
  ELSE LET x == Dec(fs[i][2], s, o) IN IF x = << >> THEN << >> ELSE DecFields(fs, s, x[2], i + 1, Append(acc, x[1]))
DecRec(n, s, o) == LET x == DecFields(RecFields(n), s, o, 1, << >>) IN IF x = << >> THEN << >> ELSE << WRec(n, x[1]), x[2] >>
Dec(ty, s, o) ==
  CASE ty.t = "num" -> IF o + ty.w > Len(s) THEN << >> ELSE << NumVal(ty, Sub(s, o, ty.w)), o + ty.w >>
    [] ty.t = "var" -> LET x == ReadVar(s, o) IN IF x = << >> THEN << >> ELSE << WI(x[1]), x[2] >>
    [] ty.t = "ip" -> IF o + 16 > Len(s) THEN << >> ELSE << WB(Sub(s, o, 16)), o + 16 >>
    [] ty.t = "bytes" -> IF o + ty.n > Len(s) THEN << >> ELSE << WB(Sub(s, o, ty.n)), o + ty.n >>
    [] ty.t = "vstr" -> LET x == ReadVar(s, o)
                        IN IF x = << >> \/ Len(x[1]) > 3 THEN << >>
                           ELSE LET n == BToInt(x[1]) IN IF x[2] + n > Len(s) THEN << >> ELSE << WB(Sub(s, x[2], n)), x[2] + n >>
    [] ty.t = "arr" -> LET x == ReadVar(s, o)
                       IN IF x = << >> \/ Len(x[1]) > 3 THEN << >>
                          ELSE LET y == DecList(ty.c, s, x[2], BToInt(x[1]), << >>)
                               IN IF y = << >> THEN << >> ELSE << WL(y[1]), y[2] >>
    [] ty.t = "rec" -> DecRec(ty.n, s, o)
    [] ty.t = "ant" -> LET x == DecFields(Tail(RecFields("NetworkAddress")), s, o, 1, << WZero >>)
                       IN IF x = << >> THEN << >> ELSE << WRec("NetworkAddress", x[1]), x[2] >>
    [] ty.t = "opt" -> LET x == Dec(ty.c, s, o) IN IF x = << >> THEN << WOne, o >> ELSE x
RECURSIVE StripZ(_)
StripZ(s) == IF s = << >> THEN s ELSE IF s[Len(s)] = 0 THEN StripZ(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* a complete frame: <<"ok", type, fields>>, <<"format">>, <<"unknown">>, <<"short">>
ReadFrame(magic, d) ==
  LET len == BNorm(Rev(Sub(d, 16, 4)))
      pay == IF Len(len) > 3 THEN SubSeq(d, 25, Len(d)) ELSE LET n == BToInt(len) IN SubSeq(d, 25, IF 24 + n > Len(d) THEN Len(d) ELSE 24 + n)
      ty == TypeOf(StripZ(Sub(d, 4, 12)))
  IN IF Len(d) < 4 \/ SubSeq(d, 1, 4) # magic THEN << "format" >>
     ELSE IF Len(d) < 24 THEN << "short" >>
     ELSE IF Sub(d, 20, 4) # CheckSum(pay) THEN << "format" >>
     ELSE IF ty = "" THEN << "unknown" >>
     ELSE LET x == DecRec(ty, pay, 0) IN IF x = << >> THEN << "short" >> ELSE << "ok", ty, x[1].f >>

\* does a recorded value (addresses as text) denote the normal value v?
RECURSIVE Denotes(_, _, _)
DenAll(c, rs, vs) == Len(rs) = Len(vs) /\ \A i \in 1..Len(vs) : Denotes(c, rs[i], vs[i])
DenFields(fs, rs, vs) == Len(rs) = Len(vs) /\ Len(vs) = Len(fs) /\ \A i \in 1..Len(fs) : Denotes(fs[i][2], rs[i], vs[i])
Denotes(ty, r, v) ==
  CASE ty.t \in {"num", "var", "opt"} -> (r.k = "i" \/ r.k = "-") /\ r = v
    [] ty.t \in {"bytes", "vstr"} -> r.k = "b" /\ r = v
    [] ty.t = "ip" -> r.k = "s" /\ AddrBytes(r.v) = v.v
    [] ty.t = "arr" -> r.k = "l" /\ DenAll(ty.c, r.l, v.l)
    [] ty.t = "rec" -> r.k = "rec" /\ r.t = ty.n /\ DenFields(RecFields(ty.n), r.f, v.f)
    [] ty.t = "ant" -> r.k = "rec" /\ r.t = "NetworkAddress" /\ DenFields(RecFields("NetworkAddress"), r.f, v.f)
=============================================================================
