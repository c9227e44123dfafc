----------------------------- MODULE MCSession -----------------------------
(* A library that opens filings, next to the session it has to provide, over  *)
(* every short history.  SHARE says what the filings of a process share:      *)
(* nothing; parsed documents by path; or objects by the name they go by       *)
(* (every bundle uses the same names).  Only a library that shares nothing    *)
(* provides the session; the other two are here to show that the histories    *)
(* that are replayed on the real library can tell.                            *)
EXTENDS Session, Json, IOUtils

Share == IOEnv.SHARE
Depth == NatOf(IOEnv.SIZE)
Paths == 1..2
Bundles == 1..2
Forms == 1..2
VARIABLES memo, objs, hist, agree
vars == <<session, memo, objs, hist, agree>>

Init == /\ Start([p \in Paths |-> Thing(p, 1)])
        /\ memo = [p \in Paths |-> Dropped] /\ objs = <<>> /\ hist = <<>> /\ agree = TRUE
\* what the library takes in when it opens a path
Parsed(p) == IF Share = "path" /\ memo[p] # Dropped THEN memo[p] ELSE disk[p]
\* what it reports for a handle
Reported(h) == IF Share = "name" THEN objs[Len(objs)] ELSE objs[h]
Report(t) == [bag |-> t.b, exact |-> <<t.b, t.form>>]
Ev(op, p, b, f, h) == hist' = Append(hist, [op |-> op, path |-> p, b |-> b, form |-> f, h |-> h])
Live == {h \in DOMAIN held : held[h] # Dropped}
Writes == Cardinality({i \in DOMAIN hist : hist[i].op = "write"})
Quiet == UNCHANGED <<memo, objs, agree>>
Next == /\ Len(hist) < Depth
        /\ \/ \E p \in Paths, b \in Bundles, f \in Forms : Writes < 2 /\ disk[p] # Thing(b, f) /\ Write(p, b, f) /\ Ev("write", p, b, f, 0) /\ Quiet
           \/ \E p \in Paths : /\ Len(held) < 3 /\ Open(p) /\ Ev("open", p, 0, 0, 0) /\ agree' = agree
                               /\ memo' = [memo EXCEPT ![p] = Parsed(p)] /\ objs' = Append(objs, Parsed(p))
           \/ \E h \in Live : Drop(h) /\ Ev("drop", 0, 0, 0, h) /\ Quiet
           \/ held # <<>> /\ Restart /\ Ev("restart", 0, 0, 0, 0) /\ memo' = [p \in Paths |-> Dropped] /\ objs' = <<>> /\ agree' = agree
           \/ \E h \in Live :
                LET r == Report(Reported(h)) IN
                /\ agree' = (agree /\ r = Report(held[h]))
                /\ UNCHANGED <<disk, held, memo, objs>> /\ known' = known \cup {Note(held[h], r)} /\ Ev("read", 0, 0, 0, h)
Spec == Init /\ [][Next]_vars
\* the library only makes steps of the session
Provides == agree
Steps == [][\/ \E p \in Paths, b \in Bundles, f \in Forms : Write(p, b, f)
            \/ \E p \in Paths : Open(p)
            \/ \E h \in DOMAIN held : Drop(h) \/ Read(h, Report(Reported(h)))
            \/ Restart]_session
Emit == Len(hist) < Depth \/ hist[Depth].op # "read" \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
