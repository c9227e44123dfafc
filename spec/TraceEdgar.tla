----------------------------- MODULE TraceEdgar -----------------------------
(* Follows each recorded history of listings, days and requests: the history  *)
(* is accepted if some behaviour gives the observed answers.                  *)
EXTENDS Edgar

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, at
vars == <<ci, at, edgar>>
W == Cases[ci]
Step == W.steps[at]
Init == /\ ci \in 1..Len(Cases) /\ at = 1
        /\ served = [ok |-> FALSE, subs |-> <<>>] /\ kept = [has |-> FALSE, subs |-> <<>>] /\ age = 0 /\ answer = {NONE}

Go ==
  /\ at <= Len(W.steps)
  /\ CASE Step.act = "publish" -> Publish([ok |-> Step.ok = "true", subs |-> Step.subs])
       [] Step.act = "wait" -> Wait(Step.hours)
       [] OTHER -> Request(Step.q)
  /\ Step.act = "ask" => W.obs[at] \in answer'
  /\ at' = at + 1 /\ UNCHANGED ci
  /\ PrintT("CASE " \o ToJson([i |-> ci, at |-> at]))
Spec == Init /\ [][Go]_vars
=============================================================================
