------------------------------ MODULE TraceView -------------------------------
(* Follows recorded looks at the items of filings: every view has to fit.      *)
EXTENDS View, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, left
vars == <<ci, left, item, asked, answer>>
Init == ci \in 1..Len(Cases) /\ left = DOMAIN Cases[ci].views /\ item = Cases[ci] /\ asked = "nothing" /\ answer = "nothing"
First(S) == CHOOSE v \in S : TRUE
Go == /\ left # {}
      /\ LET v == First(left) IN
         /\ IF Fits(item.is, item.x, v, item.views[v]) THEN Ask(v)
            ELSE PrintT("BAD " \o ToJson([i |-> ci, v |-> v])) /\ UNCHANGED <<item, asked, answer>>
         /\ left' = left \ {v}
      /\ UNCHANGED ci
      /\ left' = {} => PrintT("CASE " \o ToJson([i |-> ci]))
Spec == Init /\ [][Go]_vars
===============================================================================
