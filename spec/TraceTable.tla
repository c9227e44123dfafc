----------------------------- MODULE TraceTable -----------------------------
(* Follows each recorded history of setting output parameters and generating  *)
(* tables: some order of the report's languages has to explain every table.   *)
EXTENDS Table

Cases == JsonDeserialize(IOEnv.CASES)
AllLangs == Range(JsonDeserialize(IOEnv.LANGS))
VARIABLES ci, at
vars == <<ci, at, state>>
W == Cases[ci]
Init == ci \in 1..Len(Cases) /\ at = 1 /\ Open(W.content, W.system)
Go == /\ at <= Len(W.steps)
      /\ Step(W.steps[at])
      /\ W.steps[at].op = "generate" => Agrees(table', W.seen[at])
      /\ at' = at + 1 /\ UNCHANGED ci
      /\ PrintT("CASE " \o ToJson([i |-> ci, at |-> at]))
Spec == Init /\ [][Go]_vars
=============================================================================
