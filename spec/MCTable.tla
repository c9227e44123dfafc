------------------------------- MODULE MCTable -------------------------------
(* Every small set of labels with every history of output parameters: what a   *)
(* table shows, and in which language.                                         *)
EXTENDS Table

AllLangs == {"en", "de-DE", "de-AT", "fr-FR", "en-US", "es-ES", "it-IT", "~"}
L == {"de-DE", "de-AT", "fr-FR"}
Small == IOEnv.SIZE = "1"
VARIABLE req
vars == <<state, req>>

Label(l, i) == [lang |-> l, text |-> l \o "." \o i, role |-> "r"]
\* at most two labels per element: none, one, two of one language, two languages
LabelSeqs(i) == {<<>>} \cup {<<Label(l, i)>> : l \in IF Small THEN {"de-DE"} ELSE L} \cup {<<Label("de-AT", i), Label("de-DE", i)>>, <<Label("fr-FR", i), [Label("fr-FR", i) EXCEPT !.text = "later"]>>}
Mem(i, ls) == [name |-> "p:E" \o i, kind |-> "Member", labels |-> ls, period |-> NONE, balance |-> NONE, nillable |-> NONE, type |-> NONE, explicit |-> NONE, dimtype |-> NONE]
Asp(n, ls) == [name |-> n, labels |-> ls, k |-> "labelled", texts |-> ls, value |-> n]
Contents == {[elements |-> <<Mem("1", a), Mem("2", b)>>, components |-> <<>>, languages |-> SetToSeq({x.lang : x \in Range(a) \cup Range(b)}),
              facts |-> <<[id |-> "f", value |-> "1", core |-> FALSE, aspects |-> <<Asp("d1", a), Asp("d2", b)>>]>>] : a \in LabelSeqs("1"), b \in LabelSeqs("2")}
Bools == {"true", "false"}
LangSeqs == {<<>>, <<"de-DE">>, <<"fr-FR">>, <<"fr-FR", "de-AT">>}
Requests == {Params(ls, loc, mix, def, NONE, rep) : ls \in LangSeqs, loc \in {NONE, "false"}, mix \in Bools, def \in Bools, rep \in Bools}
Settings == IF Small THEN {Unset, Params(<<"de-AT">>, "false", NONE, NONE, "false", NONE)} ELSE {Unset, Params(<<"de-AT">>, NONE, NONE, NONE, NONE, NONE), Params(<<>>, "false", NONE, NONE, "false", NONE)}

Idle == [t |-> "none", p |-> Unset]
Init == \E C \in Contents : \E s \in {NONE, "fr-FR"} : Open(C, s) /\ req = Idle
Next == \/ \E p \in Settings : req = Idle /\ filing = Unset /\ SetFiling(p) /\ UNCHANGED req
        \/ \E p \in Settings \ {Unset} : req = Idle /\ library = Defaults /\ SetLibrary([p EXCEPT !.allow_system_language = "true"]) /\ UNCHANGED req
        \/ \E r \in Requests, t \in {"elements", "facts"} : req = Idle /\ Generate(t, r) /\ req' = [t |-> t, p |-> r]
Spec == Init /\ [][Next]_vars

Settled == req.t # "none"  \* the last step was generating
Ch1 == Chain(req.p)
Ex == Flag(req.p, filing, library, "match_locale")
Mixed == Flag(req.p, filing, library, "allow_mixed")
Shown(i) == table.rows[i][2].v
Els == content.elements
Fit(l, x) == x # "" /\ Tag(Ex, l.lang) = Tag(Ex, x)
Has(e, x) == \E i \in DOMAIN e.labels : Fit(e.labels[i], x)

\* one row per object, each with its own name, in the same order
RowPerObject == Settled /\ req.t = "elements" /\ table.k = "rows" =>
  Len(table.rows) = 2 /\ \A i \in 1..2 : table.rows[i][1].v = Els[i].name
\* mixing: no language that the element has a label in is preferred to the one that is shown
Earliest == Settled /\ req.t = "elements" /\ table.k = "rows" /\ Mixed => \A i \in 1..2 :
  \/ \E x \in DOMAIN Ch1, l \in DOMAIN Els[i].labels :
       /\ Fit(Els[i].labels[l], Ch1[x]) /\ Els[i].labels[l].text = Shown(i)
       /\ \A y \in 1..(x - 1) : Ch1[y] # "" /\ ~Has(Els[i], Ch1[y])
       /\ \A m \in 1..(l - 1) : ~Fit(Els[i].labels[m], Ch1[x])
  \/ /\ \A x \in DOMAIN Ch1 : Ch1[x] # "" => ~Has(Els[i], Ch1[x])
     /\ Shown(i) = MainLabel(Els[i].labels) /\ "" \in Range(Ch1)
\* a main label or a name is a fallback only where it is permitted
Permitted == Settled /\ table.k = "rows" /\ req.p.allow_default = "false" /\ req.t = "elements" => \A i \in 1..2 : \E x \in DOMAIN Ch1 : Has(Els[i], Ch1[x])
\* not mixing: one language serves all rows, or none does
Uniform == Settled /\ ~Mixed /\ Ch1 # <<>> =>
  IF table.k = "refused" THEN "" \notin Range(Ch1)
  ELSE \E x \in Range(Ch1) : table = Table(req.t, [req.p EXCEPT !.allow_mixed = "true"]) \/
         (\A i \in DOMAIN table.rows : req.t = "elements" => (x = "" /\ Shown(i) = MainLabel(Els[i].labels)) \/ \E l \in DOMAIN Els[i].labels : Fit(Els[i].labels[l], x) /\ Els[i].labels[l].text = Shown(i))
\* whatever is available unmixed is available mixed
MixedOffersMore == Settled /\ ~Mixed /\ table.k = "rows" => Table(req.t, [req.p EXCEPT !.allow_mixed = "true"]).k = "rows"
\* more languages never make a mixed table unavailable, and what is asked for outright comes first
Monotone == Settled /\ Mixed /\ table.k = "rows" => Table(req.t, [req.p EXCEPT !.languages = @ \o <<"es-ES">>]).k = "rows"
AskedFirst == Settled /\ Mixed /\ table.k = "rows" /\ req.t = "elements" /\ req.p.languages # <<>> =>
  \A i \in 1..2 : Has(Els[i], req.p.languages[1]) => \E l \in DOMAIN Els[i].labels : Els[i].labels[l].text = Shown(i) /\ Fit(Els[i].labels[l], req.p.languages[1])
\* a row of a fact keeps all its characteristics
KeepsAll == Settled /\ req.t = "facts" /\ table.k = "rows" => Len(table.rows[1]) = 4
Emit == req.t = "none" \/ PrintT("TABLE " \o ToJson([a |-> content.elements[1].labels, b |-> content.elements[2].labels, sys |-> system, filing |-> filing, library |-> library, t |-> req.t, p |-> req.p]))
=============================================================================
