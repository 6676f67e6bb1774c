------------------------------ MODULE SaveTrace ------------------------------
(* Recorded sequences of saves with faults, each a behaviour: held is what    *)
(* the file holds, a wallet or << >> while it holds none.                     *)
EXTENDS Fs, IOUtils, Json
VARIABLES pos, held, bad
Events == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Events) : Events[i].op = "new"}
\* --- a save: what loading with its passphrase and with the previous one gives afterwards
IsWallet(o) == o.k \in {"a", "h"}
HoldsNew(e) == e.after = e.w
HoldsOld(e) == held # << >> /\ e.before = held[1]
SaveFaults(e) ==
  IF e.how = "returned" THEN (IF HoldsNew(e) THEN {} ELSE IF e.fault = "none" THEN {"C17.saved"} ELSE {"C17.returned"})
  ELSE IF e.fault = "none" THEN {"C17.refused"}
  ELSE IF HoldsNew(e) \/ HoldsOld(e) \/ held = << >> THEN {}
  ELSE IF e.how = "killed" THEN {"C17.crash"} ELSE {"C17.failed"}
\* what it holds from now on
HeldAfter(e) == IF HoldsNew(e) THEN << e.w >> ELSE IF HoldsOld(e) THEN held ELSE << >>
\* --- what a save asked of the file system, from a settled start with the old contents in the file
RECURSIVE Losses(_, _, _, _)
Losses(s, ops, i, ok) ==
  IF ~ (MayKeep(s, "file") \subseteq ok) THEN {i}
  ELSE IF i > Len(ops) THEN {}
  ELSE Losses(FsDo(s, ops[i]), ops, i + 1, ok)
RECURSIVE FsRun(_, _, _)
FsRun(s, ops, i) == IF i > Len(ops) THEN s ELSE FsRun(FsDo(s, ops[i]), ops, i + 1)
PowerFaults(e) ==
  LET f == FsInit([x \in {e.files[i][1] : i \in 1..Len(e.files)} |-> e.files[CHOOSE i \in 1..Len(e.files) : e.files[i][1] = x][2]])
      z == FsRun(f, e.ops, 1)
  IN IF Seen(z, "file") # e.new THEN {"C17.model"}
     ELSE IF Losses(f, e.ops, 1, {e.old, e.new}) # {} THEN {"C17.power"} ELSE {}
Faults(e) == CASE e.op = "save" -> SaveFaults(e) [] e.op = "power" -> PowerFaults(e)
Init == pos \in Starts /\ held = << >> /\ bad = {}
Next == /\ bad = {} /\ pos < Len(Events) /\ Events[pos + 1].op \notin {"new", "done"}
        /\ pos' = pos + 1
        /\ LET e == Events[pos + 1] IN
           /\ bad' = Faults(e)
           /\ held' = IF e.op = "save" THEN HeldAfter(e) ELSE held
Spec == Init /\ [][Next]_<< pos, held, bad >>
Report == IF bad = {} THEN TRUE ELSE PrintT(<< "FAIL", pos, bad >>)
=============================================================================
