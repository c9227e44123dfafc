----------------------------- MODULE TraceInline -----------------------------
(* Runs the reader and then the machine of Filing.tla on each recorded inline *)
(* document and judges brel's report of it.                                   *)
EXTENDS Inline

Cases == JsonDeserialize(IOEnv.CASES)
Wanted == Range(JsonDeserialize(IOEnv.WANTED))

VARIABLES ci, equiv
vars == <<ci, equiv, opening, reading>>
Doc == Cases[ci].doc
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Before(a, b) == IF phase = "facts" THEN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) ELSE a <= b
First == CHOOSE x \in todo : \A y \in todo : Before(x, y)

Init == /\ ci \in 1..Len(Cases) /\ StartReading(Doc) /\ equiv = <<>>
        /\ phase = "waiting" /\ todo = {} /\ elems = {} /\ facts = {} /\ nets = {} /\ annos = {} /\ comps = {} /\ errs = {} /\ mayerrs = {}
ReadPages ==
  /\ \/ unread # {} /\ BeginPage(Doc, Least(unread))
     \/ ReadToken(Doc)
     \/ EndPage(Doc)
  /\ UNCHANGED <<ci, equiv, opening>>
Assemble ==
  /\ mode = "read" /\ page = 0 /\ unread = {}
  /\ mode' = "open" /\ equiv' = Equivalent(Doc)
  /\ phase' = "elements" /\ todo' = DOMAIN Doc.elements
  /\ UNCHANGED <<ci, unread, page, pos, stack, text, mark, seen, nests, within, elems, facts, nets, annos, comps, errs, mayerrs>>
Read == mode = "open" /\ phase # "done" /\ todo # {} /\ Step(equiv, First) /\ UNCHANGED <<ci, equiv, reading>>
Turn == mode = "open" /\ NextPhase(equiv) /\ UNCHANGED <<ci, equiv, reading>>
Judge ==
  /\ mode = "open" /\ phase = "done"
  /\ mode' = "judged"
  /\ PrintT("CASE " \o ToJson([i |-> ci, bad |-> SetToSeq(InlineClauses(Doc, Cases[ci].obs, Wanted))]))
  /\ UNCHANGED <<ci, equiv, opening, unread, page, pos, stack, text, mark, seen, nests, within>>
Next == ReadPages \/ Assemble \/ Read \/ Turn \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
