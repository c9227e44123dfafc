---------------------------- MODULE TraceSession ----------------------------
(* Follows recorded histories of writing, opening, reading and dropping.      *)
EXTENDS Session, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, at
vars == <<ci, at, session>>
W == Cases[ci]
Init == ci \in 1..Len(Cases) /\ at = 1 /\ Start([p \in 1..W.paths |-> Dropped])
Do(e) == CASE e.op = "write" -> Write(e.path, e.b, e.form)
           [] e.op = "open" -> Open(e.path)
           [] e.op = "drop" -> Drop(e.h)
           [] e.op = "restart" -> Restart
           [] e.op = "read" -> Read(e.h, [bag |-> e.bag, exact |-> e.exact])
           [] OTHER -> UNCHANGED session
Go == /\ at <= Len(W.events)
      /\ Do(W.events[at])
      /\ at' = at + 1 /\ UNCHANGED ci
      /\ PrintT("CASE " \o ToJson([i |-> ci, at |-> at]))
Spec == Init /\ [][Go]_vars
=============================================================================
