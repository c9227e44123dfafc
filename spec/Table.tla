------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* The tables that a filing generates, and the languages they speak.       *)
(*                                                                         *)
(* State: the content of the filing (what its objects report), the output  *)
(* parameters set on the filing, those set for the library, the language   *)
(* of the system and the order of the report's languages, which is up to   *)
(* the library but stays the same.  Setting parameters replaces them;      *)
(* generating a table changes nothing.                                     *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils

CONSTANT Langs   \* the language tags in play
VARIABLES content, filing, library, system, order, table
state == <<content, filing, library, system, order, table>>

\* the words of the library's dictionary: kind:word -> translations
Words == JsonDeserialize(IOEnv.WORDS)

Refusal == [k |-> "refused", rows |-> <<>>]
Rows(s) == [k |-> "rows", rows |-> s]
REFUSED == "~refused"

\* ---- languages ----
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
LowerOf(c) == IF \E i \in 1..26 : Ch(Uppers, i) = c THEN Ch(Lowers, CHOOSE i \in 1..26 : Ch(Uppers, i) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerOf(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
RECURSIVE Primary(_)
Primary(s) == IF s = "" \/ Ch(s, 1) = "-" THEN "" ELSE Ch(s, 1) \o Primary(SubSeq(s, 2, Len(s)))
Exactly == [l \in Langs |-> Lower(l)]
Roughly == [l \in Langs |-> Lower(Primary(l))]
Tag(exact, l) == IF exact THEN Exactly[l] ELSE Roughly[l]

\* ---- output parameters: those of the request, else those set on the filing, else those set for the library ----
Params(langs, locale, mixed, default, sys, report) ==
  [languages |-> langs, match_locale |-> locale, allow_mixed |-> mixed, allow_default |-> default, allow_system_language |-> sys, allow_report_language |-> report]
Unset == Params(<<>>, NONE, NONE, NONE, NONE, NONE)
Defaults == Params(<<>>, "true", "true", "true", "true", "true")
Flag(req, f, l, p) == LET v == IF req[p] # NONE THEN req[p] ELSE IF f[p] # NONE THEN f[p] ELSE l[p] IN v = "true"

\* the languages in order of preference ("" stands for the main label or the name)
Chain(req) ==
  LET On(p) == Flag(req, filing, library, p) IN
  req.languages \o filing.languages \o library.languages
  \o (IF system # NONE /\ On("allow_system_language") THEN <<system>> ELSE <<>>)
  \o (IF On("allow_report_language") THEN order ELSE <<>>)
  \o (IF On("allow_default") THEN <<"">> ELSE <<>>)

\* the first text in the earliest language there is one in; texts: sequence of [lang, text]
RECURSIVE Choose1(_, _, _, _)
Choose1(texts, chain, default, exact) ==
  IF chain = <<>> THEN REFUSED
  ELSE IF Head(chain) = "" THEN default
  ELSE LET tag == Tag(exact, Head(chain))
           S == {i \in DOMAIN texts : Tag(exact, texts[i].lang) = tag} IN
       IF S # {} THEN texts[CHOOSE i \in S : \A j \in S : i <= j].text
       ELSE Choose1(texts, Tail(chain), default, exact)

English == <<"en", "en-US", "en-GB", "EN", "EN-US", "EN-GB">>
MainLabel(labels) ==
  LET In(l) == Keep(labels, LAMBDA x : x.lang = l)
      have == {i \in DOMAIN English : In(English[i]) # <<>>} IN
  IF labels = <<>> THEN "NO_LABEL"
  ELSE IF have = {} THEN labels[1].text
  ELSE In(English[CHOOSE i \in have : \A j \in have : i <= j])[1].text

\* a word of the dictionary; one that is not in it stands for itself in every language
Word(kind, w, chain, exact) ==
  IF (kind \o ":" \o w) \in DOMAIN Words THEN Choose1(Words[kind \o ":" \o w], chain, w, exact) ELSE w

\* ---- rows ----
Cell(h, v) == [h |-> h, v |-> v]
KindWord(k) == CASE k = "Concept" -> "concept" [] k = "Abstract" -> "abstract" [] k = "LineItems" -> "line-items"
                 [] k = "Hypercube" -> "hypercube" [] k = "Dimension" -> "dimension" [] OTHER -> "member"
Row(t, x, chain, exact) ==
  LET W(kind, w) == Word(kind, w, chain, exact)
      L(w) == W("literal", w)
      OrNone(kind, w) == IF w = NONE THEN L("none") ELSE W(kind, w)
  IN CASE t = "elements" ->
            <<Cell(L("name"), x.name), Cell(L("label"), Choose1(x.labels, chain, MainLabel(x.labels), exact)),
              Cell(L("report-element-type"), W("report-element", KindWord(x.kind)))>>
            \o (CASE x.kind = "Concept" -> <<Cell(L("period-type"), W("period-type", x.period)), Cell(L("balance-type"), OrNone("balance-type", x.balance)),
                                             Cell(L("nillable"), W("boolean", x.nillable)), Cell(L("data-type"), W("data-type", x.type))>>
                  [] x.kind = "Dimension" -> <<Cell(L("is-explicit"), W("boolean", x.explicit)), Cell(L("dimension-type"), OrNone("data-type", x.dimtype))>>
                  [] OTHER -> <<>>)
       [] t = "components" ->
            <<Cell(L("network-identifier"), x.uri), Cell(L("info"), x.info), Cell(L("presentation-network"), W("boolean", x.pre)),
              Cell(L("calculation-network"), W("boolean", x.cal)), Cell(L("definition-network"), W("boolean", x.def))>>
       [] t = "labels" -> <<Cell("text", x.text), Cell("language", x.lang), Cell("label_role", x.role), Cell("report_element", x.element)>>
       [] OTHER -> \* a fact
            Map(LAMBDA a : Cell(Choose1(a.labels, chain, a.name, exact),
                                CASE a.k = "labelled" -> Choose1(a.texts, chain, a.value, exact)
                                  [] a.k = "unit" -> W("unit", a.value)
                                  [] OTHER -> a.value), x.aspects)
            \o <<Cell(L("id"), IF x.id = NONE THEN L("none") ELSE x.id), Cell(L("value"), x.value)>>
Speaks(row) == \A i \in DOMAIN row : row[i].h # REFUSED /\ row[i].v # REFUSED

Listed(t) ==
  CASE t = "elements" -> content.elements
    [] t = "components" -> content.components
    [] t = "labels" -> FlatMap(LAMBDA e : Map(LAMBDA l : [text |-> l.text, lang |-> l.lang, role |-> l.role, element |-> e.name], e.labels), content.elements)
    [] t = "core" -> Keep(content.facts, LAMBDA f : f.core)
    [] OTHER -> content.facts

Table(t, req) ==
  LET chain == Chain(req)
      exact == Flag(req, filing, library, "match_locale")
      In(c) == Map(LAMBDA x : Row(t, x, c, exact), Listed(t))
      Good(rs) == \A i \in DOMAIN rs : Speaks(rs[i])
      RECURSIVE First(_)
      First(c) == IF c = <<>> THEN Refusal ELSE LET rs == In(<<Head(c)>>) IN IF Good(rs) THEN Rows(rs) ELSE First(Tail(c))
  IN IF t = "labels" THEN Rows(In(<<"">>))
     ELSE IF chain = <<>> THEN [k |-> "open", rows |-> <<>>]   \* no language at all: left open
     ELSE IF Flag(req, filing, library, "allow_mixed") THEN LET rs == In(chain) IN IF Good(rs) THEN Rows(rs) ELSE Refusal
     ELSE First(chain)   \* the earliest language all of the table is available in

\* ---- a row as it is seen: the cells that are not empty; where headings of a row clash, what they become is open ----
RowAgrees(given, seen) ==
  LET cells == Keep(given, LAMBDA c : c.v # NONE)
      Hs(h) == {i \in DOMAIN given : given[i].h = h} IN
  /\ BagEq(Map(LAMBDA c : c.v, cells), Map(LAMBDA c : c.v, seen))
  /\ \A i \in DOMAIN cells : Cardinality(Hs(cells[i].h)) = 1 => cells[i] \in Range(seen)
Agrees(given, seen) ==
  \/ given.k = "open"
  \/ given.k = seen.k /\ Len(given.rows) = Len(seen.rows) /\ \A i \in DOMAIN given.rows : RowAgrees(given.rows[i], seen.rows[i])

Perms(S) == {s \in [1..Cardinality(S) -> S] : Range(s) = S}
Open(C, sys) == /\ content = C /\ filing = Unset /\ library = Defaults /\ system = sys
                /\ order \in Perms(Range(C.languages)) /\ table = Refusal
SetFiling(p) == filing' = p /\ UNCHANGED <<content, library, system, order, table>>
SetLibrary(p) == library' = p /\ UNCHANGED <<content, filing, system, order, table>>
SetSystem(l) == system' = l /\ UNCHANGED <<content, filing, library, order, table>>
Generate(t, req) == table' = Table(t, req) /\ UNCHANGED <<content, filing, library, system, order>>
Step(q) == CASE q.op = "filing" -> SetFiling(q.p)
             [] q.op = "library" -> SetLibrary(q.p)
             [] q.op = "system" -> SetSystem(q.arg)
             [] OTHER -> Generate(q.arg, q.p)
=============================================================================
