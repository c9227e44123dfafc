----------------------------- MODULE TraceFiling -----------------------------
(* Runs the machine on each recorded document, in the order it is written,    *)
(* and judges the recorded report of brel against the state reached.          *)
EXTENDS FilingJudge, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Wanted == Range(JsonDeserialize(IOEnv.WANTED))

VARIABLE ci
vars == <<ci, opening>>

Doc == Cases[ci].doc
\* the first unread item: documents are traced in the order they are written
Before(a, b) == IF phase = "facts" THEN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) ELSE a <= b
First == CHOOSE x \in todo : \A y \in todo : Before(x, y)

Init == ci \in 1..Len(Cases) /\ Start(Doc)
Read == phase # "done" /\ todo # {} /\ Step(Doc, First) /\ UNCHANGED ci
Turn == NextPhase(Doc) /\ UNCHANGED ci
Judge ==
  /\ phase = "done" /\ todo = {}
  /\ phase' = "judged"
  /\ LET bad == FailingClauses(Doc, Cases[ci].obs, Wanted) IN
     PrintT("CASE " \o ToJson([i |-> ci, bad |-> SetToSeq(bad)]))
  /\ UNCHANGED <<ci, todo, elems, facts, nets, annos, comps, errs, mayerrs>>
Next == Read \/ Turn \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
