------------------------------ MODULE AesTrace ------------------------------
(* Judges recorded uses of the ciphers (C27) and of the stream feeders (C28).*)
(* An event of C27 is a whole life of one mode object: the calls with their  *)
(* results; of C28 the chunks fed with their results and the final call.     *)
EXTENDS Judge, Aes
RECURSIVE Outs(_)
Outs(rs) == IF rs = << >> THEN << >> ELSE (IF Head(rs).k = "b" THEN Head(rs).v ELSE << >>) \o Outs(Tail(rs))
RECURSIVE Ins(_, _)
\* the input of the calls the mode takes
Ins(m, cs) == IF cs = << >> THEN << >> ELSE (IF Takes(m, Len(Head(cs).d)) THEN Head(cs).d ELSE << >>) \o Ins(m, Tail(cs))
Results(cs) == [i \in 1..Len(cs) |-> cs[i].r]
RECURSIVE Cat_(_)
Cat_(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat_(Tail(ss))
KeyOk(m) == Len(m.key) \in KeySizes /\ (m.mode \in {"cbc", "cfb", "ofb"} => Len(m.iv) = 16)
Verdict(e) ==
  CASE e.op = "block" ->
         Fails({<<"C27.block", IF Len(e.key) \notin KeySizes \/ Len(e.d) # 16 THEN IsX(e.r)
                               ELSE e.r = RB(IF e.enc = 1 THEN EncB(Schedule(e.key), e.d) ELSE DecB(Schedule(e.key), e.d))>>})
    [] e.op = "mode" ->
         IF ~ KeyOk(e.m) THEN Fails({<<"C27.refused", IsX(e.made)>>})
         ELSE LET bad == {i \in 1..Len(e.calls) : ~ Takes(e.m, Len(e.calls[i].d))}
              IN Fails({<<"C27.made", e.made = RT>>,
                        <<"C27.size", \A i \in bad : IsX(e.calls[i].r)>>,
                        <<"C27.length", \A i \in (1..Len(e.calls)) \ bad : e.calls[i].r.k = "b" /\ Len(e.calls[i].r.v) = Len(e.calls[i].d)>>,
                        <<"C27.stream", Outs(Results(e.calls)) = Crypt(e.m, e.enc = 1, Ins(e.m, e.calls))>>})
    [] e.op = "counter" -> Fails({<<"C27.counter", e.r = RB(BPad(e.n, 16)) /\ e.next = RB(Inc16(BPad(e.n, 16)))>>})
    \* feeding: chunks, the result of each, the final result, and of feeding once more
    [] e.op = "feed" ->
         LET d == Cat_(e.chunks)
             ok == IF e.enc = 1 THEN << TRUE, FedE(e.m, d) >> ELSE FedD(e.m, d)
         IN Fails({<<"C28.chunk", \A i \in 1..Len(e.rs) : e.rs[i].k = "b">>,
                   <<"C28.final", IF ok[1] THEN e.fin.k = "b" ELSE IsX(e.fin)>>,
                   <<"C28.stream", IF ok[1] THEN Outs(e.rs) \o (IF e.fin.k = "b" THEN e.fin.v ELSE << >>) = ok[2] ELSE TRUE>>,
                   <<"C28.after", ok[1] => \A i \in 1..Len(e.after) : IsX(e.after[i])>>})
    [] e.op = "pad" -> Fails({<<"C28.pad", e.r = RB(Padded(e.d))>>})
    [] e.op = "unpad" -> Fails({<<"C28.unpad", IF PadOk(e.d) THEN e.r = RB(Unpadded(e.d)) ELSE IsX(e.r)>>})
Clauses(e) == Verdict(e)
JInv == JReport(Clauses(JTrace[jpos]))
=============================================================================
