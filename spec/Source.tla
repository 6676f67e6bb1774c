------------------------------- MODULE Source -------------------------------
(* Numbers inside JSON values.  A value: [k |-> "i", v |-> number as text],   *)
(* "s" with text v, "d" with names and vals, "l" with vals, "o" anything else *)
(* (null), "u" values whose reading as a number is not specified (fractions,  *)
(* true and false).  Texts are sequences of bytes.                            *)
EXTENDS Integers, Sequences
None == [k |-> "o"]
RECURSIVE SplitAt(_, _, _, _)
SplitAt(t, sep, i, cur) == IF i > Len(t) THEN << cur >>
                           ELSE IF t[i] = sep THEN << cur >> \o SplitAt(t, sep, i + 1, << >>)
                           ELSE SplitAt(t, sep, i + 1, Append(cur, t[i]))
Split(t, sep) == SplitAt(t, sep, 1, << >>)
Digits(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : t[i] \in 48..57
RECURSIVE Num(_)
Num(t) == IF t = << >> THEN 0 ELSE Num(SubSeq(t, 1, Len(t) - 1)) * 10 + t[Len(t)] - 48
\* positions in lists are small numbers
Position(t) == IF Digits(t) /\ Len(t) <= 4 THEN Num(t) ELSE -1
Member(v, n) ==
  CASE v.k = "d" -> IF \E i \in 1..Len(v.names) : v.names[i] = n THEN v.vals[CHOOSE i \in 1..Len(v.names) : v.names[i] = n] ELSE None
    [] v.k = "l" -> IF Position(n) \in 0..(Len(v.vals) - 1) THEN v.vals[Position(n) + 1] ELSE None
    [] OTHER -> None
RECURSIVE Walk(_, _)
Walk(v, path) == IF path = << >> THEN v ELSE Walk(Member(v, path[1]), SubSeq(path, 2, Len(path)))
Blank == {32, 10, 13, 9}
RECURSIVE Strip(_)
Strip(t) == IF t # << >> /\ t[1] \in Blank THEN Strip(SubSeq(t, 2, Len(t)))
            ELSE IF t # << >> /\ t[Len(t)] \in Blank THEN Strip(SubSeq(t, 1, Len(t) - 1)) ELSE t
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZeros(SubSeq(t, 2, Len(t))) ELSE t
\* the number a text stands for: sign and decimal digits without leading zeros; "" where it stands for none
Plain(t) == IF Digits(t) THEN NoZeros(t)
            ELSE IF Len(t) > 1 /\ t[1] = 45 /\ Digits(SubSeq(t, 2, Len(t)))
                 THEN LET d == NoZeros(SubSeq(t, 2, Len(t))) IN IF d = << 48 >> THEN d ELSE << 45 >> \o d
            ELSE IF Len(t) > 1 /\ t[1] = 43 /\ Digits(SubSeq(t, 2, Len(t))) THEN NoZeros(SubSeq(t, 2, Len(t)))
            ELSE << >>
Number(v) == CASE v.k = "i" -> Plain(v.v) [] v.k = "s" -> Plain(Strip(v.v)) [] OTHER -> << >>
=============================================================================
