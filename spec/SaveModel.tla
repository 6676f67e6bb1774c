------------------------------ MODULE SaveModel ------------------------------
(* Saving a wallet over and over, with the process ending, calls failing and  *)
(* power lost at any point.  Way says how it is written: only the way the     *)
(* specification prescribes ("atomic") keeps what it promises; the others are *)
(* there to show that the invariants notice (they are checked to fail).       *)
EXTENDS Fs, Json
CONSTANTS Way, MaxSaves, MaxHarm, Emit
\* base: what a loss of power might have left when the save began
VARIABLES fs, pc, old, new, saves, harm, fresh, base, acts
vars == << fs, pc, old, new, saves, harm, fresh, base, acts >>
\* wallets have numbers; their file is two writes
Whole(w) == << w, w >>
Steps == CASE Way = "atomic" -> << "open", "half", "rest", "sync", "close", "rename" >>
           [] Way = "nosync" -> << "open", "half", "rest", "close", "rename" >>
           [] Way = "inplace" -> << "openover", "half", "rest", "sync", "close" >>
           [] Way = "remove" -> << "open", "half", "rest", "sync", "close", "unlink", "rename" >>
           [] Way = "early" -> << "open", "half", "rename", "rest", "sync", "close" >>
Op(x) ==
  CASE x = "open" -> [op |-> "open", path |-> "tmp", fd |-> 3, creat |-> 1, trunc |-> 1, app |-> 0]
    [] x = "openover" -> [op |-> "open", path |-> "file", fd |-> 3, creat |-> 1, trunc |-> 1, app |-> 0]
    [] x \in {"half", "rest"} -> [op |-> "write", fd |-> 3, at |-> -1, b |-> << new >>]
    [] x = "sync" -> [op |-> "fsync", fd |-> 3]
    [] x = "close" -> [op |-> "close", fd |-> 3]
    [] x = "rename" -> [op |-> "rename", path |-> "tmp", to |-> "file"]
    [] x = "unlink" -> [op |-> "unlink", path |-> "file"]
Note(a) == acts' = IF Emit THEN Append(acts, a) ELSE acts
Init == fs = FsInit("file" :> Whole(0)) /\ pc = 0 /\ old = 0 /\ new = 0 /\ saves = 0 /\ harm = 0 /\ fresh = TRUE /\ base = {} /\ acts = << >>
Begin == /\ pc = 0 /\ saves < MaxSaves
         /\ \E w \in {saves + 1} : new' = w
         /\ base' = MayKeep(fs, "file") /\ pc' = 1 /\ saves' = saves + 1 /\ fresh' = FALSE
         /\ UNCHANGED << fs, old, harm >> /\ Note([k |-> "save"])
Do == /\ pc > 0
      /\ fs' = FsDo(fs, Op(Steps[pc]))
      /\ IF pc = Len(Steps) THEN pc' = 0 /\ old' = new /\ fresh' = TRUE ELSE pc' = pc + 1 /\ UNCHANGED << old, fresh >>
      /\ UNCHANGED << new, saves, harm, base, acts >>
\* what is left of a save that did not end well counts as the old wallet from then on
Settled(f) == LET b == Seen(f, "file") IN IF b \in {Whole(w) : w \in 0..MaxSaves} THEN b[1] ELSE old
Fail == /\ pc > 0 /\ harm < MaxHarm /\ harm' = harm + 1
        /\ LET f == IF "tmp" \in DOMAIN fs.dir THEN FsDo(fs, [op |-> "unlink", path |-> "tmp"]) ELSE fs
           IN fs' = [f EXCEPT !.fds = << >>] /\ old' = Settled(f)
        /\ pc' = 0 /\ UNCHANGED << new, saves, fresh, base >> /\ Note([k |-> "fail", at |-> pc])
End == /\ pc > 0 /\ harm < MaxHarm /\ harm' = harm + 1
       /\ fs' = [fs EXCEPT !.fds = << >>] /\ old' = Settled(fs)
       /\ pc' = 0 /\ UNCHANGED << new, saves, fresh, base >> /\ Note([k |-> "kill", at |-> pc])
Loss == /\ harm < MaxHarm /\ harm' = harm + 1
        /\ fs' \in AfterLoss(fs) /\ old' = Settled(fs')
        /\ pc' = 0 /\ fresh' = FALSE /\ UNCHANGED << new, saves, base >> /\ Note([k |-> "loss", at |-> pc])
Next == Begin \/ Do \/ Fail \/ End \/ Loss
Spec == Init /\ [][Next]_vars
Allowed == {Whole(old), Whole(new)}
Safe == Seen(fs, "file") \in Allowed
\* only complete wallets survive: the old, the new, or what might have been left anyway
PowerSafe == \A b \in MayKeep(fs, "file") : b \in {Whole(w) : w \in 0..MaxSaves} /\ (pc > 0 => b \in Allowed \cup base)
Kept == (pc = 0 /\ fresh) => Seen(fs, "file") = Whole(old) /\ (saves > 0 => old = new)
View == << fs, pc, old, new, saves, harm, fresh, base >>
Out == (Emit /\ (saves = MaxSaves /\ pc = 0)) => PrintT(<< "ACTS", ToJson(acts) >>)
=============================================================================
