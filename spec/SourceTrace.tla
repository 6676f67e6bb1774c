----------------------------- MODULE SourceTrace -----------------------------
(* Recorded questions to sources of block heights.                            *)
EXTENDS Source, Judge
NoAnswer(r) == r.k = "n" \/ r.k = "x"
Fits(r, num) == IF num = << >> THEN NoAnswer(r) ELSE r.k = "num" /\ r.v = num
Clauses(e) ==
  CASE e.op = "path" ->
         LET v == Walk(e.val, Split(e.path, 47)) IN
         IF v.k = "u" THEN {} ELSE IF Fits(e.r, Number(v)) THEN {} ELSE {"C34.path"}
    [] e.op = "plain" -> IF Fits(e.r, Plain(Strip(e.text))) THEN {} ELSE {"C34.plain"}
    [] e.op = "failed" -> IF NoAnswer(e.r) THEN {} ELSE {"C34.failed"}
JInv == JReport(Clauses(JTrace[jpos]))
=============================================================================
