-------------------------------- MODULE MCDts --------------------------------
(* Every small reference graph over six documents - an instance, schemas of   *)
(* the same file name in several places, a linkbase far away - opened as a    *)
(* file or as a folder with a catalog, with and without something being       *)
(* unavailable, its documents visited in every order.                         *)
EXTENDS Dts, FiniteSetsExt

Most == NatOf(IOEnv.SIZE)      \* how many references besides the two that are always there

VARIABLES edges, kind, down
vars == <<edges, kind, down, world, session>>

Names == <<"S1", "S2", "S3", "S4", "S5", "S6">>
Kinds == <<"instance", "schema", "schema", "schema", "linkbase", "schema">>
Where == <<"f/i.xml", "f/a.xsd", "f/d/a.xsd", "http://A/a.xsd", "http://A/d/l.xml", "t/a.xsd">>
At == <<"f/a.xsd", NONE, NONE, NONE, "http://A/a.xsd", NONE>>
\* how document i writes a reference to document j
Way(i, j, k) ==
  CASE j = 6 -> (IF k = "folder" THEN "http://X/tax/a.xsd" ELSE CASE i = 3 -> "../../t/a.xsd" [] i = 6 -> "./a.xsd" [] OTHER -> "../t/a.xsd")
    [] j = 5 -> (CASE i = 4 -> "d/l.xml" [] i = 5 -> "l.xml" [] OTHER -> "http://A/d/l.xml")
    [] j = 4 -> (CASE i = 4 -> "./a.xsd" [] i = 5 -> "../a.xsd" [] OTHER -> "http://A/a.xsd")
    [] i = 6 -> (CASE j = 2 -> "../f/a.xsd" [] j = 3 -> "./../f/d/a.xsd" [] OTHER -> "../f/i.xml")
    [] i = 3 -> (CASE j = 2 -> "../a.xsd" [] j = 3 -> "a.xsd" [] OTHER -> "../i.xml")
    [] OTHER -> (CASE j = 2 -> "a.xsd" [] j = 3 -> "d/./a.xsd" [] OTHER -> "zz/../i.xml")
Fixed == {<<1, 2>>, <<5, 4>>}
\* remote documents cannot name local ones, except through the catalog; nothing but schemas and linkbases is referred to twice over
Possible(k) == {e \in (1..6) \X (2..6) : e \notin Fixed /\ (e[1] \in {4, 5} => e[2] \in {4, 5} \/ (k = "folder" /\ e[2] = 6))}

SortedRefs(i) == LET js == {j \in 1..6 : <<i, j>> \in edges} IN
  [n \in 1..Cardinality(js) |-> LET j == CHOOSE j \in js : Cardinality({m \in js : m <= j}) = n IN [r |-> Way(i, j, kind), to |-> Names[j]]]
Mark(i) == (CASE Kinds[i] = "instance" -> "I" [] Kinds[i] = "schema" -> "S" [] OTHER -> "L") \o "v" \o Names[i]
W == [docs |-> [i \in 1..6 |-> [name |-> Names[i], u |-> Where[i], kind |-> Kinds[i],
                                versions |-> IF i \in down THEN <<>> ELSE <<[mark |-> Mark(i), at |-> At[i], refs |-> SortedRefs(i)]>>]],
      filings |-> <<[kind |-> kind, path |-> IF kind = "file" THEN "f/i.xml" ELSE "f",
                     catalog |-> IF kind = "file" THEN <<>> ELSE <<[from |-> "http://X/", to |-> "../none/"], [from |-> "http://X/tax/", to |-> "../../t/"]>>]>>]
Init ==
  /\ kind \in {"file", "folder"}
  /\ down \in {{}, {4}, {5}}
  /\ \E n \in 0..Most : \E S \in kSubset(n, Possible(kind)) : edges = Fixed \cup S
  /\ disk = [u \in {Where[i] : i \in {1, 2, 3, 6}} |-> 1]
  /\ served = [u \in {Where[i] : i \in {4, 5}} |-> IF u \in {Where[i] : i \in down} THEN 0 ELSE 1]
  /\ cache = [u \in {Where[i] : i \in {4, 5}} |-> 0]
  /\ current = 0 /\ frontier = {} /\ loaded = {} /\ asked = <<>> /\ lost = {}
Still == UNCHANGED <<edges, kind, down>>
Next == \/ loaded = {} /\ Begin(W, 1) /\ Still
        \/ (\E u \in frontier : Visit(W, u)) /\ Still
        \/ End /\ Still
Spec == Init /\ [][Next]_vars

F == W.filings[1]
Empty == [u \in DOMAIN cache |-> 0]
Reachable == Closure(W, F, Entries(W, F, disk), Empty, served, disk)
Ended == loaded # {} /\ current = 0
\* whatever the order, exactly the reachable documents are read, and only those that are not there are missing
Confluent == Ended => Read \cup lost = Reachable /\ lost = {u \in Reachable : IsRemote(u) /\ served[u] = 0}
Grounded == Read \cup lost \cup frontier \subseteq Reachable \cup (IF current = 0 THEN frontier ELSE {})
Once == /\ NoDup(asked)
        /\ Cardinality(Read) = Cardinality(loaded)
        /\ \A u \in frontier : u \notin Read
AskedWhatIsFar == Ended => Range(asked) = {u \in Reachable : IsRemote(u)}
\* references are closed: every document that a read one refers to was read or lost
Closed == Ended => \A x \in loaded : Targets(W, F, x.u, x.v) \subseteq Read \cup lost
Emit == IF ~Ended THEN TRUE ELSE PrintT("WORLD " \o ToJson(W))
\* every visit makes progress, so discovery ends
Progress == [][(current # 0 /\ current' # 0) => Cardinality(loaded') + Cardinality(lost') = Cardinality(loaded) + Cardinality(lost) + 1]_vars
=============================================================================
