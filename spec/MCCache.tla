------------------------------- MODULE MCCache -------------------------------
(* Every short history of opening two filings, editing local documents and    *)
(* publishing, changing or taking down remote ones whose addresses look much  *)
(* alike.                                                                     *)
EXTENDS Dts

Most == NatOf(IOEnv.SIZE)      \* the length of the histories
Twin == IOEnv.TWIN             \* the address of the second remote document

VARIABLES steps, told, fetched
vars == <<steps, told, fetched, world, session>>

R1 == "http://A/a_b.xsd"
V(mark, at, refs) == [mark |-> mark, at |-> at, refs |-> [i \in DOMAIN refs |-> [r |-> refs[i][1], to |-> refs[i][2]]]]
W == [docs |-> <<
  [name |-> "S1", u |-> "f/i.xml", kind |-> "instance", versions |-> <<V("I1v1", "f/a.xsd", <<<<"a.xsd", "S2">>>>), V("I1v2", "f/a.xsd", <<<<"a.xsd", "S2">>, <<Twin, "S4">>>>)>>],
  [name |-> "S2", u |-> "f/a.xsd", kind |-> "schema", versions |-> <<V("S2v1", NONE, <<<<R1, "S3">>>>), V("S2v2", NONE, <<<<Twin, "S4">>>>)>>],
  [name |-> "S3", u |-> R1, kind |-> "schema", versions |-> <<V("S3v1", NONE, <<>>), V("S3v2", NONE, <<<<Twin, "S4">>>>)>>],
  [name |-> "S4", u |-> Twin, kind |-> "schema", versions |-> <<V("S4v1", NONE, <<>>), V("S4v2", NONE, <<<<R1, "S3">>>>)>>],
  [name |-> "S5", u |-> "d/i.xml", kind |-> "linkbase", versions |-> <<V("L5v1", Twin, <<<<Twin, "S4">>>>)>>]>>,
  filings |-> <<[kind |-> "file", path |-> "f/i.xml", catalog |-> <<>>], [kind |-> "file", path |-> "d/i.xml", catalog |-> <<>>]>>]
Init ==
  /\ steps = <<>> /\ told = <<>> /\ fetched = <<>>
  /\ disk = [u \in {"f/i.xml", "f/a.xsd", "d/i.xml"} |-> 1]
  /\ served = [u \in {R1, Twin} |-> 1]
  /\ cache = [u \in {R1, Twin} |-> 0]
  /\ current = 0 /\ frontier = {} /\ loaded = {} /\ asked = <<>> /\ lost = {}
Log(act, k, u, v) == steps' = Append(steps, [act |-> act, k |-> k, u |-> u, v |-> v])
More == Len(steps) < Most /\ current = 0
Opens == More /\ (\E k \in 1..2 : Begin(W, k) /\ Log("open", k, NONE, 0)) /\ UNCHANGED <<told, fetched>>
Edits == More /\ (\E u \in {"f/i.xml", "f/a.xsd"} : \E v \in {1, 2} \ {disk[u]} : Edit(u, v) /\ Log("edit", 0, u, v)) /\ UNCHANGED <<told, fetched>>
Publishes == More /\ (\E u \in {R1, Twin} : \E v \in {0, 1, 2} \ {served[u]} : Publish(u, v) /\ Log("publish", 0, u, v)) /\ UNCHANGED <<told, fetched>>
Visits ==
  /\ current # 0 /\ frontier # {}
  /\ LET u == CHOOSE u \in frontier : TRUE IN
     /\ Visit(W, u)
     /\ fetched' = IF cache'[R1] = cache[R1] /\ cache'[Twin] = cache[Twin] THEN fetched ELSE Append(fetched, [u |-> u, v |-> served[u]])
  /\ UNCHANGED <<steps, told>>
Ends == End /\ told' = Append(told, [loaded |-> loaded, disk |-> disk]) /\ UNCHANGED <<steps, fetched>>
Next == Opens \/ Edits \/ Publishes \/ Visits \/ Ends
Spec == Init /\ [][Next]_vars

\* a remote document says the same in every opening that reads it
Frozen == \A i, j \in DOMAIN told : \A x \in told[i].loaded, y \in told[j].loaded : (x.u = y.u /\ IsRemote(x.u)) => x.v = y.v
\* a local document is read as it is on the disk at that time
Fresh == \A i \in DOMAIN told : \A x \in told[i].loaded : ~IsRemote(x.u) => x.v = told[i].disk[x.u]
\* nothing is downloaded twice
OnceEver == NoDup([i \in DOMAIN fetched |-> fetched[i].u])
\* what is kept is what was downloaded first
KeepsFirst == \A i \in DOMAIN fetched : cache[fetched[i].u] = fetched[i].v
\* an address never brings in another document's content, and the cache only grows
Grows == [][\A u \in DOMAIN cache : cache[u] > 0 => cache'[u] = cache[u]]_vars
Emit == IF Len(steps) = Most /\ current = 0 /\ steps[Most].act = "open" /\ Len(told) = Cardinality({i \in DOMAIN steps : steps[i].act = "open"})
        THEN PrintT("WORLD " \o ToJson([docs |-> W.docs, filings |-> W.filings, steps |-> steps])) ELSE TRUE
=============================================================================
