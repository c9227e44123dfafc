------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* What the queries of an opened filing answer.                            *)
(*                                                                         *)
(* The content of a filing is what its enumerations list: report elements, *)
(* facts, components with their networks, errors, and the prefixes its     *)
(* documents bind.  A query is an action that sets the answer and leaves   *)
(* the content alone, so after any history every query answers from the    *)
(* content the filing was opened with.                                     *)
(***************************************************************************)
EXTENDS Util

VARIABLES content, answer
session == <<content, answer>>

List(s) == [k |-> "list", v |-> s]
One(x) == [k |-> "one", v |-> <<x>>]
Truth(b) == [k |-> "bool", v |-> <<IF b THEN "true" ELSE "false">>]
Refusal == [k |-> "refused", v |-> <<>>]

\* the positions (as texts) of the members of a sequence with a property
At(s, P(_)) == LET idx == [i \in DOMAIN s |-> i] IN Map(LAMBDA i : ToString(i), Keep(idx, LAMBDA i : P(s[i])))
NamesOf(s, P(_)) == Map(LAMBDA e : e.name, Keep(s, P))
TheOne(S) == IF Cardinality(S) = 1 THEN One(CHOOSE x \in S : TRUE) ELSE Refusal

\* ---- names: "{ns}local", "prefix:local" or "local" (form tells which; a prefix may be bound to several namespaces) ----
BoundTo(C, p) == {C.binds[i].ns : i \in {i \in DOMAIN C.binds : C.binds[i].p = p}}
Fits(C, q, e) ==
  CASE q.form = "qname" -> e.ns = q.ns /\ e.local = q.local
    [] q.form = "prefixed" -> e.ns \in BoundTo(C, q.p) /\ e.local = q.local
    [] OTHER -> e.local = q.local
Elements(C, q, kind) == {C.elems[i].name : i \in {i \in DOMAIN C.elems : Fits(C, q, C.elems[i]) /\ (kind = NONE \/ C.elems[i].kind = kind)}}

\* ---- labels ----
LabelsIn(e, langs) == Keep(e.labels, LAMBDA l : l.lang \in langs)
English == <<"en", "en-US", "en-GB", "EN", "EN-US", "EN-GB">>
\* the main label is the first in the first kind of English there is, else the first
MainLabel(e) ==
  LET have == {i \in DOMAIN English : LabelsIn(e, {English[i]}) # <<>>} IN
  IF e.labels = <<>> THEN "NO_LABEL"
  ELSE IF have = {} THEN e.labels[1].text
  ELSE LabelsIn(e, {English[CHOOSE i \in have : \A j \in have : i <= j]})[1].text
ElementNamed(C, n) == LET i == CHOOSE i \in DOMAIN C.elems : C.elems[i].name = n IN C.elems[i]

\* ---- components and networks ----
Comps(C, u) == {i \in DOMAIN C.comps : C.comps[i].uri = u}
NetOf(C, u, kind) == C.comps[CHOOSE i \in Comps(C, u) : TRUE][kind]

Severity(code) == Ch(code, 1)
AreaOf(code) == SubSeq(code, 3, 5)

Answer(C, q) ==
  CASE q.op = "facts_of" -> LET S == Elements(C, q, "Concept") IN
                            IF Cardinality(S) # 1 THEN Refusal ELSE List(At(C.facts, LAMBDA f : f.concept \in S))
    [] q.op = "core" -> List(At(C.facts, LAMBDA f : f.core))
    [] q.op = "reported" -> List(SetToSeq({C.facts[i].concept : i \in DOMAIN C.facts}))
    [] q.op = "kind" -> List(NamesOf(C.elems, LAMBDA e : e.kind = q.arg))
    [] q.op = "element" -> TheOne(Elements(C, q, NONE))
    [] q.op = "concept" -> TheOne(Elements(C, q, "Concept"))
    [] q.op = "labels" -> List(FlatMap(LAMBDA e : Map(LAMBDA l : e.name \o "|" \o l.lang \o "|" \o l.role \o "|" \o l.text, e.labels), C.elems))
    [] q.op = "main_label" -> One(MainLabel(ElementNamed(C, q.arg)))
    [] q.op = "has_language" -> Truth(LabelsIn(ElementNamed(C, q.arg), {q.arg2}) # <<>>)
    [] q.op = "has_role" -> Truth(\E i \in DOMAIN ElementNamed(C, q.arg).labels : ElementNamed(C, q.arg).labels[i].role = q.arg2)
    [] q.op = "uris" -> List(Map(LAMBDA c : c.uri, C.comps))
    [] q.op = "component" -> IF Comps(C, q.arg) = {} THEN Refusal ELSE One(ToString(CHOOSE i \in Comps(C, q.arg) : TRUE))
    [] q.op = "network" -> IF NetOf(C, q.arg, q.arg2) = <<>> THEN List(<<>>) ELSE One(q.arg2)
    [] q.op = "nodes" -> List(FlatMap(LAMBDA n : n.nodes, NetOf(C, q.arg, q.arg2)))
    [] q.op = "root" -> LET rs == FlatMap(LAMBDA n : n.roots, NetOf(C, q.arg, q.arg2)) IN IF Len(rs) = 1 THEN One(rs[1]) ELSE Refusal
    [] q.op = "severity" -> List(At(C.errors, LAMBDA e : Severity(e) = q.arg))
    [] q.op = "area" -> List(At(C.errors, LAMBDA e : AreaOf(e) = q.arg))
    [] q.op = "any_errors" -> Truth(C.errors # <<>>)
    [] OTHER -> [k |-> "open", v |-> <<>>]

Agrees(given, seen) == given.k = "open" \/ (given.k = seen.k /\ BagEq(given.v, seen.v))

Open(C) == content = C /\ answer = [k |-> "none", v |-> <<>>]
Ask(q) == answer' = Answer(content, q) /\ UNCHANGED content
=============================================================================
