----------------------------- MODULE TraceQuery -----------------------------
(* Follows each recorded history of queries of a filing: every answer has to  *)
(* be the one the content gives, and the content listed afterwards has to be  *)
(* the content listed before.                                                 *)
EXTENDS Query, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, at
vars == <<ci, at, session>>
W == Cases[ci]
Init == ci \in 1..Len(Cases) /\ at = 1 /\ Open(W.content)
Go == /\ at <= Len(W.queries)
      /\ Ask(W.queries[at])
      /\ Agrees(answer', W.answers[at])
      /\ at' = at + 1 /\ UNCHANGED ci
      /\ PrintT("CASE " \o ToJson([i |-> ci, at |-> at]))
End == /\ at = Len(W.queries) + 1
       /\ W.after = content
       /\ at' = at + 1 /\ UNCHANGED <<ci, session>>
       /\ PrintT("CASE " \o ToJson([i |-> ci, at |-> at]))
Spec == Init /\ [][Go \/ End]_vars
=============================================================================
