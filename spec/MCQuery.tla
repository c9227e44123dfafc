------------------------------- MODULE MCQuery -------------------------------
(* Every small content with every history of queries: what a query answers     *)
(* does not depend on the queries before it, and the answers fit together.     *)
EXTENDS Query, Json, IOUtils

Size == NatOf(IOEnv.SIZE)
VARIABLE asked
vars == <<session, asked>>
A == "http://ex.com/a"
B == "http://ex.com/b"
El(ns, l, k) == [name |-> "{" \o ns \o "}" \o l, ns |-> ns, local |-> l, kind |-> k, labels |-> <<>>]
ElemSeqs == {s \in UNION {[1..n -> {El(ns, l, k) : ns \in {A, B}, l \in {"X", "Y"}, k \in {"Concept", "Abstract"}}] : n \in 0..Size} :
               \A i, j \in DOMAIN s : i < j => s[i].name # s[j].name}
FactSeqs(s) ==
  LET cs == {s[i].name : i \in {i \in DOMAIN s : s[i].kind = "Concept"}} IN
  UNION {[1..n -> {[id |-> "f", concept |-> c, value |-> "1", core |-> k] : c \in cs, k \in BOOLEAN}] : n \in 0..2}
Bindings == {<<[p |-> "p", ns |-> A]>>, <<[p |-> "p", ns |-> A], [p |-> "p", ns |-> B]>>, <<[p |-> "p", ns |-> A], [p |-> "q", ns |-> A], [p |-> "r", ns |-> B]>>}
ErrorSeqs == {<<>>, <<"E-ING-000">>, <<"W-ING-017", "E-LNK-300">>}
Contents == {[elems |-> s, facts |-> f, comps |-> <<>>, errors |-> <<>>, binds |-> b] : s \in ElemSeqs, f \in {<<>>}, b \in Bindings}
            \cup UNION {{[elems |-> s, facts |-> f, comps |-> <<>>, errors |-> e, binds |-> <<[p |-> "p", ns |-> A]>>] : f \in FactSeqs(s), e \in ErrorSeqs} : s \in ElemSeqs}

NameQ(op, form, p, ns, l) == [op |-> op, form |-> form, p |-> p, ns |-> ns, local |-> l, arg |-> NONE, arg2 |-> NONE]
Ops == {"element", "concept", "facts_of"}
NameQueries == {NameQ(op, "local", NONE, NONE, l) : op \in Ops, l \in {"X", "Z"}}
               \cup {NameQ(op, "prefixed", p, NONE, l) : op \in Ops, p \in {"p", "z"}, l \in {"X", "Y"}}
               \cup {NameQ(op, "qname", "p", ns, "X") : op \in Ops, ns \in {A, B}}
Plain(op, a) == [op |-> op, arg |-> a, arg2 |-> NONE, form |-> NONE, p |-> NONE, ns |-> NONE, local |-> NONE]
Queries == NameQueries \cup {Plain("core", NONE), Plain("reported", NONE), Plain("any_errors", NONE)}
           \cup {Plain("kind", k) : k \in {"Concept", "Abstract", "Member"}} \cup {Plain("severity", s) : s \in {"E", "W", "I"}} \cup {Plain("area", a) : a \in {"ING", "LNK", "FOO"}}

Init == \E c \in Contents : Open(c) /\ asked = Plain("none", NONE)
Next == \E q \in Queries : Ask(q) /\ asked' = q
Spec == Init /\ [][Next]_vars

C == content
Ans(q) == Answer(C, q)
\* the answer depends on the content and the last query only
Fresh == asked.op # "none" => answer = Ans(asked)
\* kinds partition the elements, severities and areas the errors, concepts the facts
Partition == /\ Len(C.elems) = Len(Ans(Plain("kind", "Concept")).v) + Len(Ans(Plain("kind", "Abstract")).v) + Len(Ans(Plain("kind", "Member")).v)
             /\ Len(C.errors) = Len(Ans(Plain("severity", "E")).v) + Len(Ans(Plain("severity", "W")).v) + Len(Ans(Plain("severity", "I")).v)
             /\ Len(C.errors) = Len(Ans(Plain("area", "ING")).v) + Len(Ans(Plain("area", "LNK")).v) + Len(Ans(Plain("area", "FOO")).v)
FactsOf(ns, l) == Ans(NameQ("facts_of", "qname", "p", ns, l))
ByConcept == /\ Len(C.facts) = Len(FactsOf(A, "X").v) + Len(FactsOf(A, "Y").v) + Len(FactsOf(B, "X").v) + Len(FactsOf(B, "Y").v)
             /\ \A ns \in {A, B}, l \in {"X", "Y"} :
                  (FactsOf(ns, l).k = "refused") <=> ("{" \o ns \o "}" \o l) \notin Range(Ans(Plain("kind", "Concept")).v)
             /\ Range(Ans(Plain("reported", NONE)).v) = {C.facts[i].concept : i \in DOMAIN C.facts} /\ NoDup(Ans(Plain("reported", NONE)).v)
Core == Range(Ans(Plain("core", NONE)).v) = {ToString(i) : i \in {i \in DOMAIN C.facts : C.facts[i].core}}
\* a less specific name never finds something else than a more specific one: it finds the same or is refused
Specific == \A op \in {"element", "concept"}, l \in {"X", "Y"} :
  LET byLocal == Ans(NameQ(op, "local", NONE, NONE, l)) byPrefix == Ans(NameQ(op, "prefixed", "p", NONE, l)) IN
  /\ byLocal.k = "one" /\ byPrefix.k = "one" => byLocal = byPrefix
  /\ byPrefix.k = "one" => \E ns \in BoundTo(C, "p") : Ans(NameQ(op, "qname", "p", ns, l)) = byPrefix
\* a concept is found whenever the element of the name is one
Kinds == \A q \in NameQueries : q.op = "concept" /\ Ans([q EXCEPT !.op = "element"]).k = "one" =>
           (Ans(q).k = "one" <=> ElementNamed(C, Ans([q EXCEPT !.op = "element"]).v[1]).kind = "Concept")
Emit == asked.op # "none" \/ PrintT("CONTENT " \o ToJson([elems |-> C.elems, facts |-> C.facts]))
=============================================================================
