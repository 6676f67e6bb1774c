------------------------------- MODULE Gateway -------------------------------
(* An internet gateway device: its table of port mappings, shared by every    *)
(* host behind it.  An entry [e, p, own, port]: what arrives at external port *)
(* e with protocol p goes to the given port of the host that owns it ("" is   *)
(* the machine of the node, any other name another host).                     *)
EXTENDS Integers, Sequences, FiniteSets
Entry(e, p, own, port) == [e |-> e, p |-> p, own |-> own, port |-> port]
At(tab, e, p) == {t \in tab : t.e = e /\ t.p = p}
Taken(tab, p) == {t.e : t \in {x \in tab : x.p = p}}
\* asking for a mapping: another host's is never given away, one's own machine's is replaced
MayAdd(tab, e, p, own) == \A t \in At(tab, e, p) : t.own = own
Added(tab, n) == (tab \ At(tab, n.e, n.p)) \cup {n}
Removed(tab, e, p) == tab \ At(tab, e, p)
=============================================================================
