----------------------------- MODULE SourceModel -----------------------------
(* Laws of Source over small values and paths.                                *)
EXTENDS Source, TLC
CONSTANT Deep
VARIABLES val, way, rest, go
A == << 97 >>
B == << 98 >>
Zero == << 48 >>
One == << 49 >>
Leaves == {[k |-> "i", v |-> << 55 >>], [k |-> "s", v |-> << 32, 48, 56 >>], None}
Layer(V) == {[k |-> "d", names |-> << A >>, vals |-> << x >>] : x \in V} \cup {[k |-> "d", names |-> << B, A >>, vals |-> << x, y >>] : x \in V, y \in V}
            \cup {[k |-> "l", vals |-> << x >>] : x \in V} \cup {[k |-> "l", vals |-> << x, y >>] : x \in V, y \in V}
One1 == Leaves \cup Layer(Leaves)
Values == IF Deep THEN One1 \cup Layer(One1) ELSE One1
Names == {A, B, Zero, One, << 45, 49 >>, << >>}
Init == val \in Values /\ way = << >> /\ rest = << >> /\ go = FALSE
Next == ~ go /\ go' = TRUE /\ val' = val /\ \E p \in UNION {[1..n -> Names] : n \in 0..2}, q \in UNION {[1..n -> Names] : n \in 0..1} : way' = p /\ rest' = q
Spec == Init /\ [][Next]_<< val, way, rest, go >>
RECURSIVE Joined(_)
Joined(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o << 47 >> \o Joined(SubSeq(p, 2, Len(p)))
Compose == Walk(val, way \o rest) = Walk(Walk(val, way), rest)
Splits == way # << >> => Split(Joined(way), 47) = way
Within == Walk(val, way).k \in {"d", "l", "i", "s", "o"}
Leaf == val.k \in {"i", "s", "o"} /\ way # << >> => Number(Walk(val, way)) = << >>
=============================================================================
