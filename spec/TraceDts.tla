------------------------------ MODULE TraceDts ------------------------------
(* Runs the machine along each recorded history of openings and changes and   *)
(* judges what brel reported at each opening.                                 *)
EXTENDS Dts

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, at
vars == <<ci, at, world, session>>
W == Cases[ci].doc
Step == Cases[ci].doc.steps[at]
Init ==
  /\ ci \in 1..Len(Cases) /\ at = 1
  /\ disk = [u \in {u \in Places(W) : ~IsRemote(u)} |-> IF Len(DocAt(W, u).versions) = 0 THEN 0 ELSE 1]
  /\ served = [u \in {u \in Places(W) : IsRemote(u)} |-> IF Len(DocAt(W, u).versions) = 0 THEN 0 ELSE 1]
  /\ cache = [u \in {u \in Places(W) : IsRemote(u)} |-> 0]
  /\ current = 0 /\ frontier = {} /\ loaded = {} /\ asked = <<>> /\ lost = {}
Here == at <= Len(W.steps)
Opening == Here /\ Step.act = "open" /\ current = 0 /\ Begin(W, Step.k) /\ UNCHANGED <<ci, at>>
Visiting == current # 0 /\ frontier # {} /\ Visit(W, CHOOSE u \in frontier : TRUE) /\ UNCHANGED <<ci, at>>
Closing == End /\ at' = at + 1 /\ UNCHANGED ci
           /\ PrintT("CASE " \o ToJson([i |-> ci, step |-> at, bad |-> SetToSeq(DtsClauses(W, Cases[ci].obs[at]))]))
Changing == Here /\ Step.act \in {"edit", "publish"} /\ at' = at + 1 /\ UNCHANGED ci
            /\ IF Step.act = "edit" THEN Edit(Step.u, Step.v) ELSE Publish(Step.u, Step.v)
Next == Opening \/ Visiting \/ Closing \/ Changing
Spec == Init /\ [][Next]_vars
=============================================================================
