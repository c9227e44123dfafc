----------------------------- MODULE TracePrint -------------------------------
(* Follows recorded printing: every line printed has to be the next line of   *)
(* the printer, and the printer has to come to its end with the last line.    *)
EXTENDS Print, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, at
vars == <<ci, at, todo, shown>>
W == Cases[ci]
Init == /\ ci \in 1..Len(Cases) /\ at = 1 /\ shown = <<>>
        /\ todo = IF Cases[ci].what = "tree" THEN FlatMap(Given, Cases[ci].items) ELSE <<>>
Note == PrintT("CASE " \o ToJson([i |-> ci, at |-> at]))
Line == /\ W.what = "tree" /\ at <= Len(W.lines) /\ PrintNext
        /\ Shows(W.lines[at], shown')
        /\ at' = at + 1 /\ UNCHANGED ci /\ Note
End == /\ W.what = "tree" /\ at = Len(W.lines) + 1 /\ todo = <<>>
       /\ at' = at + 1 /\ UNCHANGED <<ci, todo, shown>> /\ Note
Table == /\ W.what = "table" /\ at = 1
         /\ TableShows(W.columns, W.rows, W.facts)
         /\ at' = 2 /\ UNCHANGED <<ci, todo, shown>> /\ Note
Spec == Init /\ [][Line \/ End \/ Table]_vars
===============================================================================
