------------------------------- MODULE Judge -------------------------------
(* Common part of the trace specifications that judge every recorded event   *)
(* on its own.  A module that extends Judge defines Clauses(e), the set of   *)
(* clauses event e breaks.  The events are split over JChains behaviours so  *)
(* that TLC's workers judge them in parallel; the number of distinct states  *)
(* is the number of events judged.                                          *)
EXTENDS Naturals, Integers, Sequences, TLC, IOUtils, Json
CONSTANT JChains
VARIABLE jpos
JTrace == ndJsonDeserialize(IOEnv.TRACE)
\* behaviours start before the first event: TLC computes initial states slowly and alone
JInit == jpos \in (1 - JChains)..0
JNext == jpos + JChains <= Len(JTrace) /\ jpos' = jpos + JChains
JSpec == JInit /\ [][JNext]_jpos
JReport(c) == IF jpos < 1 THEN TRUE ELSE IF c = {} THEN TRUE ELSE PrintT(<<"FAIL", jpos, c>>)

\* recorded results
RB(x) == [k |-> "b", v |-> x]          \* bytes
RI(x) == [k |-> "i", v |-> x]          \* natural number
RNeg(x) == [k |-> "-", v |-> x]        \* negative number
RNone == [k |-> "n", v |-> << >>]
RT == [k |-> "t", v |-> << 1 >>]
RF == [k |-> "t", v |-> << 0 >>]
RBool(b) == IF b THEN RT ELSE RF
RL(x) == [k |-> "l", l |-> x]          \* list
IsX(r) == r.k = "x"                    \* an exception (not a timeout, not a crash)
\* the clauses whose condition does not hold
Fails(cs) == {c[1] : c \in {d \in cs : ~ d[2]}}
=============================================================================
