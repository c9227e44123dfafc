------------------------------- MODULE MCFiling -------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of opening: every document of a scope,   *)
(* its items read in every order.  Checks that the machine always reaches  *)
(* exactly what the declarative operators say (so the order of files,      *)
(* links and facts never matters), plus structural invariants, and emits   *)
(* every explored document so that it can be replayed on the real code.    *)
(***************************************************************************)
EXTENDS Filing, Json, IOUtils

VARIABLE doc
mcvars == <<doc, opening>>

Scope == IOEnv.SCOPE
Size == NatOf(IOEnv.SIZE)        \* 1: quick, 2: thorough

---------------------------------------------------------------------------
(* building blocks *)
NsA == "{http://ex.com/a}"
NsB == "{http://ex.com/b}"
Xbrli == "{http://www.xbrl.org/2003/instance}"
El(name, local, id, abs, type, sg, period, balance, nillable, typed) ==
  [name |-> name, local |-> local, id |-> id, abs |-> abs, type |-> type, typens |-> IF type = NONE THEN NONE ELSE Xbrli,
   sg |-> sg, period |-> period, balance |-> balance, nillable |-> nillable, typed |-> typed]
Concept(l, bal) == El(NsA \o l, l, "id_" \o l, NONE, "monetaryItemType", "item", "instant", bal, NONE, NONE)
Member(l) == El(NsA \o l, l, "id_" \o l, "true", "domainItemType", "item", "duration", NONE, NONE, NONE)
Dim(l, t) == El(NsA \o l, l, "id_" \o l, "true", "stringItemType", "dimensionItem", "duration", NONE, NONE, t)
Domain(l) == [El(NsA \o l, l, "id_" \o l, NONE, "string", NONE, NONE, NONE, NONE, NONE) EXCEPT !.typens = "{http://www.w3.org/2001/XMLSchema}"]
Ctx(id, instant, start, end, scheme, ident, dims) ==
  [id |-> id, hasperiod |-> TRUE, instant |-> instant, start |-> start, end |-> end, hasentity |-> TRUE, hasid |-> TRUE,
   scheme |-> scheme, ident |-> ident, dims |-> dims]
Instant(id) == Ctx(id, "2020-12-31", NONE, NONE, "http://cik", "1", <<>>)
Explicit(d, m) == [k |-> "explicit", dim |-> d, mem |-> m, vals |-> <<>>]
Typed(d, v) == [k |-> "typed", dim |-> d, mem |-> NONE, vals |-> v]
Unit(id, m) == [id |-> id, ch |-> <<[k |-> "measure", m |-> m, sub |-> <<>>]>>]
Fact(id, c, ctx, u, v) == [id |-> id, concept |-> c, ctx |-> ctx, unit |-> u, value |-> v, decimals |-> NONE, precision |-> NONE, nil |-> FALSE]
Loc(l, to) == [label |-> l, to |-> to, at |-> NONE]
Arc(f, t, ar, o, w, p) == [from |-> f, to |-> t, arcrole |-> ar, order |-> o, weight |-> w, pref |-> p, bad |-> FALSE]
Link(kind, role, locs, ress, arcs) == [kind |-> kind, role |-> role, locs |-> locs, ress |-> ress, arcs |-> arcs]
Resource(kind, l, lang, role, text) == [kind |-> kind, label |-> l, text |-> text, lang |-> lang, role |-> role, parts |-> <<>>]
Role(u, d, used) == [uri |-> u, def |-> d, used |-> used]
Doc(e, r, i, k) == [elements |-> e, roles |-> r, insts |-> i, links |-> k]
Inst(c, u, f) == [contexts |-> c, units |-> u, facts |-> f]
PC == "http://www.xbrl.org/2003/arcrole/parent-child"
SI == "http://www.xbrl.org/2003/arcrole/summation-item"
DM == "http://xbrl.org/int/dim/arcrole/domain-member"
CL == "http://www.xbrl.org/2003/arcrole/concept-label"
R1 == "http://ex.com/role/1"
R2 == "http://ex.com/role/1/2"
StdLink == "http://www.xbrl.org/2003/role/link"
TerseRole == "http://www.xbrl.org/2003/role/terseLabel"
ArcroleOf(kind) == CASE kind = "presentation" -> PC [] kind = "calculation" -> SI [] OTHER -> DM

SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

---------------------------------------------------------------------------
(* scopes *)

\* F05: one declaration with every combination of attributes, beside its namesake in another namespace
ElementDocs ==
  {Doc(<<El(NsA \o l, l, "x1", abs, type, sg, per, bal, nil, typ),
         El(NsB \o l, l, "x2", NONE, "stringItemType", "item", "duration", NONE, NONE, NONE), Domain("Dom")>>, <<>>, <<>>, <<>>)
    : l \in {"Item", "ItemLineItems"}, abs \in {NONE, "true", "false"}, type \in {"domainItemType", "stringItemType", NONE},
      sg \in {"item", "hypercubeItem", "dimensionItem", "tuple", NONE},
      per \in {"instant", "duration"} \cup (IF Size > 1 THEN {NONE, "Instant"} ELSE {}),
      bal \in IF Size > 1 THEN {NONE, "credit", "debit", "both"} ELSE {NONE, "credit"}, nil \in IF Size > 1 THEN {NONE, "true", "false", "yes"} ELSE {NONE, "true"},
      typ \in {NONE, "id_Dom"} \cup (IF Size > 1 THEN {"nowhere"} ELSE {})}

\* ... and substitution by way of one or two elements, of elements that substitute nothing, or each other
HeadDocs ==
  {Doc(<<El(NsA \o "Item", "Item", "x1", abs, type, NsB \o "Head", "duration", NONE, NONE, NONE),
         El(NsB \o "Head", "Head", "x2", "true", "stringItemType", g, "duration", NONE, NONE, NONE),
         El(NsA \o "Head", "Head", "x3", top, "stringItemType", h, "duration", NONE, NONE, NONE)>>, <<>>, <<>>, <<>>)
    : abs \in {NONE, "true"}, type \in {"domainItemType", "stringItemType"}, top \in {"false", "true"},
      g \in {"item", "tuple", "hypercubeItem", "dimensionItem", NONE, NsA \o "Head", NsB \o "Head", NsB \o "Unknown"},
      h \in {"item", "hypercubeItem", "dimensionItem", NONE, NsB \o "Head", NsA \o "Item"}}

\* F01: one or two facts, valid or not, over two concepts, contexts and units
FactTemplates ==
  {Fact(id, c, x, u, v) : id \in {NONE, "f1"}, c \in {NsA \o "A", NsA \o "Unknown"}, x \in {"c1", "c2", "c9"},
                          u \in {NONE, "u1"} \cup (IF Size > 1 THEN {"u9"} ELSE {}), v \in {"1", NONE}}
OneEach(s) == \A i, j \in DOMAIN s : i # j /\ s[i].id # NONE => s[i].id # s[j].id
FactDocs ==
  {Doc(<<Concept("A", NONE), [Concept("B", NONE) EXCEPT !.abs = "true"]>>, <<>>,
       <<Inst(<<Instant("c1"), Ctx("c2", NONE, "2020-01-01", "2020-12-31", "http://cik", "1", <<>>)>>, <<Unit("u1", Xbrli \o "pure")>>, fs)>>, <<>>)
    : fs \in {s \in [1..2 -> FactTemplates] : OneEach(s)}
             \cup (IF Size > 1 THEN {<<a, b, Fact("f2", NsA \o "A", "c1", "u1", "2")>> : a, b \in {t \in FactTemplates : t.id = NONE /\ t.ctx # "c2"}} ELSE {})}

\* F02: two contexts with every mix of periods, entities and dimensions, and a fact in each
Periods == {<<"2020-12-31", NONE, NONE>>, <<NONE, "2020-01-01", "2020-12-31">>}
DimChoices(d, e, t) == {<<>>, <<Explicit(NsA \o d, NsA \o "M1")>>, <<Explicit(NsA \o d, NsA \o "M2")>>, <<Typed(NsA \o e, <<"v1">>)>>, <<Typed(NsA \o e, <<"v2">>)>>,
                        <<Explicit(NsA \o d, NsA \o "M1"), Typed(NsA \o e, <<"v1">>)>>, <<Typed(NsA \o e, <<"v1">>), Explicit(NsA \o d, NsA \o "M2")>>}
ContextChoices(id) ==
  {Ctx(id, p[1], p[2], p[3], sch, "1", ds) : p \in Periods, sch \in {"http://cik", "http://lei"}, ds \in DimChoices("D", "T", "v")}
ContextDocs ==
  {Doc(<<Concept("A", NONE), Dim("D", NONE), Dim("T", "id_Dom"), Domain("Dom"), Member("M1"), Member("M2")>>, <<>>,
       <<Inst(<<a, b>>, <<Unit("u1", Xbrli \o "pure"), Unit("u2", Xbrli \o "shares")>>,
              <<Fact("f1", NsA \o "A", "c1", "u1", "1"), Fact("f2", NsA \o "A", "c2", u, "1")>>)>>, <<>>)
    : a \in {c \in ContextChoices("c1") : Size > 1 \/ c.scheme = "http://cik"}, b \in ContextChoices("c2"), u \in IF Size > 1 THEN {NONE, "u1", "u2"} ELSE {"u2"}}

\* F06, F07: one to three links of one role over elements in a fixed topological order
Els(n) == [i \in 1..n |-> Concept(SubSeq("ABCDE", i, i), NONE)]
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
L(i) == SubSeq("abcde", i, i)
Used(arcs) == {p[1] : p \in arcs} \cup {p[2] : p \in arcs}
OrderOf(p) == 1000 * (10 * p[1] - p[2])     \* siblings come in descending order of their names
LinkOver(kind, role, arcs) ==
  Link(kind, role, [i \in 1..Cardinality(Used(arcs)) |-> LET s == SetToSeq(Used(arcs)) IN Loc(L(s[i]), "id_" \o SubSeq("ABCDE", s[i], s[i]))], <<>>,
       [i \in 1..Cardinality(arcs) |-> LET p == SetToSeq(arcs)[i] IN
          Arc(L(p[1]), L(p[2]), ArcroleOf(kind), OrderOf(p), IF kind = "calculation" THEN 1000 ELSE ANY, NONE)])
Families(n, m) == {f \in [1..m -> SUBSET Pairs(n)] : \A i \in 1..m : f[i] # {}}
MergeDocs ==
  LET kinds == IF Size > 1 THEN Logical ELSE {"presentation"} IN
  {Doc(Els(n), <<Role(R1, NONE, <<kind>>)>>, <<>>, [i \in DOMAIN f |-> LinkOver(kind, R1, f[i])])
    : kind \in kinds, n \in {3}, f \in Families(3, 2) \cup Families(3, 3)}
  \cup (IF Size > 1 THEN {Doc(Els(4), <<Role(R1, NONE, <<"presentation">>)>>, <<>>, [i \in DOMAIN f |-> LinkOver("presentation", R1, f[i])]) : f \in Families(4, 2)} ELSE {})
NetworkDocs ==
  {Doc(Els(4), <<Role(R1, "d", <<kind>>)>>, <<>>, <<LinkOver(kind, R1, f)>>)
    : kind \in Logical, f \in {s \in SUBSET Pairs(4) : s # {}}}
  \cup {Doc(Els(3), <<Role(R1, "d", <<kind>>)>>, <<>>,
            <<Link(kind, R1, <<Loc("a", "id_A"), Loc("b", "id_B"), Loc("c", "id_C")>>, <<>>,
                   <<Arc("a", "b", ArcroleOf(kind), o1, IF kind = "calculation" THEN w ELSE ANY, NONE), Arc("a", "c", ArcroleOf(kind), o2, IF kind = "calculation" THEN 1000 ELSE ANY, NONE)>>)>>)
        : kind \in Logical, o1 \in {ANY, 1000, 1500, -1000, 10000}, o2 \in {2000, 900, 0}, w \in {1000, -500}}

\* F08: role types with and without definitions, links of their roles and of others
ComponentDocs ==
  {Doc(Els(2), roles, <<>>, links)
    : roles \in {<<Role(R1, d1, <<"presentation", "calculation", "definition">>), Role(R2, d2, <<"presentation", "calculation", "definition">>)>> : d1, d2 \in {NONE, "x"}} \cup {<<>>, <<Role(R2, "y", <<>>)>>},
      links \in SeqUpTo({LinkOver(k, r, {<<1, 2>>}) : k \in Logical, r \in {R1, R2}}, 2)}

\* F09: which of two elements has which of two labels, in two links
Labels2 == <<Resource("label", "x", "en", NONE, "T1"), Resource("label", "y", "de", TerseRole, "T2")>>
AnnoArcs == {<<"a", "x">>, <<"a", "y">>, <<"b", "x">>, <<"b", "y">>}
AnnoLink(kind, arcs) ==
  Link(kind, StdLink, <<Loc("a", IF kind = "footnote" THEN "f1" ELSE "id_A"), Loc("b", IF kind = "footnote" THEN "f2" ELSE "id_B")>>,
       [i \in 1..2 |-> IF kind = "reference" THEN [kind |-> kind, label |-> Labels2[i].label, text |-> NONE, lang |-> NONE, role |-> Labels2[i].role, parts |-> <<[name |-> "Name", text |-> Labels2[i].text]>>]
                       ELSE [Labels2[i] EXCEPT !.kind = kind]],
       [i \in 1..Cardinality(arcs) |-> LET p == SetToSeq(arcs)[i] IN Arc(p[1], p[2], CL, ANY, ANY, NONE)])
AnnoDocs ==
  {Doc(Els(2), <<>>, <<Inst(<<Instant("c1")>>, <<>>, <<Fact("f1", NsA \o "A", "c1", NONE, "1"), Fact("f2", NsA \o "A", "c1", NONE, "1")>>)>>,
       <<AnnoLink(k1, a1), AnnoLink(k2, a2)>>)
    : k1 \in Physical, k2 \in IF Size > 1 THEN Physical ELSE {"label"}, a1 \in SUBSET AnnoArcs, a2 \in {s \in SUBSET AnnoArcs : Size > 1 \/ Cardinality(s) = 2}}

\* F10: chains, forks and diamonds with all balances and signs
CalcShapes == {{<<1, 2>>}, {<<1, 2>>, <<1, 3>>}, {<<1, 2>>, <<2, 3>>}, {<<1, 3>>, <<2, 3>>}, {<<1, 2>>, <<2, 3>>, <<1, 3>>}}
CalcLink(shape, w, role) ==
  LET s == SetToSeq(shape) us == SetToSeq(Used(shape)) IN
  Link("calculation", role, [i \in 1..Len(us) |-> Loc(L(us[i]), "id_" \o SubSeq("ABCDE", us[i], us[i]))], <<>>,
       [i \in 1..Len(s) |-> Arc(L(s[i][1]), L(s[i][2]), SI, 1000, w[s[i]], NONE)])
BalanceDocs ==
  UNION {{Doc(<<Concept("A", b[1]), Concept("B", b[2]), Concept("C", b[3])>>, <<Role(R1, NONE, <<"calculation">>)>>, <<>>, <<CalcLink(shape, w, R1)>>)
           : b \in [1..3 -> {"credit", "debit", NONE}], w \in [shape -> IF Size > 1 THEN {1000, -1000, 500, -2500} ELSE {1000, -500}]} : shape \in CalcShapes}

\* F11: a total and its parts reported in two contexts
Amounts == IF Size > 1 THEN {"1", "0.1", "-2", "x", NONE} ELSE {"1", "0.1", NONE}
AggregationDocs ==
  {Doc(<<Concept("A", "debit"), Concept("B", "debit"), Concept("C", "debit")>>, <<Role(R1, NONE, <<"calculation">>)>>,
       <<Inst(<<Instant("c1"), Ctx("c2", "2021-12-31", NONE, NONE, "http://cik", "1", <<>>)>>, <<Unit("u1", Xbrli \o "pure")>>,
              FlatMap(LAMBDA t : IF t[3] = NONE THEN <<>> ELSE <<Fact(NONE, NsA \o t[1], t[2], "u1", t[3])>>,
                      <<<<"A", "c1", total>>, <<"B", "c1", b>>, <<"C", "c1", c>>, <<"A", "c2", "2">>, <<"B", "c2", b2>>, <<"C", "c2", "1">>>>))>>,
       <<CalcLink(shape, w, R1)>>)
    : shape \in {{<<1, 2>>, <<1, 3>>}, {<<1, 2>>, <<2, 3>>}}, w \in {[p \in Pairs(3) |-> IF p[1] = 1 THEN x ELSE y] : x, y \in {1000, -1000, 500}},
      total \in {"1", "2", "0.2", "1.1", "0.9"}, b \in Amounts, c \in Amounts, b2 \in {"1", "2"}}

\* F16: one sound filing and everything that can be broken in it, one or two things at a time
Sound ==
  Doc(<<Concept("A", "debit"), Concept("B", "debit"), Dim("D", NONE), Dim("T", "id_Dom"), Domain("Dom"), Member("M1")>>, <<Role(R1, "d", <<"presentation", "calculation">>)>>,
      <<Inst(<<Ctx("c1", "2020-12-31", NONE, NONE, "http://cik", "1", <<Explicit(NsA \o "D", NsA \o "M1"), Typed(NsA \o "T", <<"v">>)>>),
               Ctx("c2", NONE, "2020-01-01", "2020-12-31", "http://cik", "2", <<>>)>>,
             <<Unit("u1", Xbrli \o "pure"),
               [id |-> "u2", ch |-> <<[k |-> "divide", m |-> NONE, sub |-> <<[k |-> "unitNumerator", ms |-> <<Xbrli \o "pure">>], [k |-> "unitDenominator", ms |-> <<Xbrli \o "shares">>]>>]>>]>>,
             <<Fact("f1", NsA \o "A", "c1", "u1", "1"), Fact("f2", NsA \o "B", "c2", "u2", "2"), Fact("f3", NsA \o "A", "c2", NONE, "3")>>)>>,
      <<LinkOver("presentation", R1, {<<1, 2>>}), LinkOver("calculation", R1, {<<1, 2>>}),
        Link("label", StdLink, <<Loc("a", "id_A"), Loc("b", "id_B")>>, Labels2, <<Arc("a", "x", CL, ANY, ANY, NONE), Arc("b", "y", CL, ANY, ANY, NONE)>>)>>)
\* ways of breaking: <<where, what>>
Breakages ==
  {<<"fact", x>> : x \in {"concept", "ctx", "unit", "decimals", "precision", "value"}}
  \cup {<<"context", x>> : x \in {"hasperiod", "hasentity", "hasid", "scheme", "ident", "instant"}}
  \cup {<<"context2", x>> : x \in {"start", "end", "order", "date"}}
  \cup {<<"dim", x>> : x \in {"dim", "nomem", "mem", "wrongmem", "other"}}
  \cup {<<"typed", x>> : x \in {"dim", "none", "two", "empty"}}
  \cup {<<"unit", x>> : x \in {"none", "two", "other", "measure"}}
  \cup {<<"unit2", x>> : x \in {"sub1", "subother", "same", "empty"}}
  \cup {<<"element", x>> : x \in {"period", "balance", "nillable", "type"}}
  \cup {<<"dimension", "typed">>}
  \cup {<<"arc", x>> : x \in {"from", "to", "arcrole", "bad", "dangling"}}
  \cup {<<"loc", x>> : x \in {"label", "to", "dangling"}}
  \cup {<<"res", x>> : x \in {"label", "lang"}}
  \cup {<<"link", x>> : x \in {"role", "kind", "dup"}}
  \cup {<<"role", "used">>}
With(b, what, r, fields) == IF b[2] \in what THEN fields ELSE r
Break(D, b) ==
  LET i == D.insts[1] IN
  CASE b[1] = "fact" ->
         [D EXCEPT !.insts[1].facts[1] =
            [@ EXCEPT !.concept = IF b[2] = "concept" THEN NsA \o "Unknown" ELSE @, !.ctx = IF b[2] = "ctx" THEN "c9" ELSE @,
                      !.unit = IF b[2] = "unit" THEN "u9" ELSE @, !.decimals = IF b[2] = "decimals" THEN "two" ELSE @,
                      !.precision = IF b[2] = "precision" THEN "2.5" ELSE @, !.value = IF b[2] = "value" THEN NONE ELSE @]]
    [] b[1] = "context" ->
         [D EXCEPT !.insts[1].contexts[1] =
            [@ EXCEPT !.hasperiod = IF b[2] = "hasperiod" THEN FALSE ELSE @, !.hasentity = IF b[2] = "hasentity" THEN FALSE ELSE @,
                      !.hasid = IF b[2] = "hasid" THEN FALSE ELSE @, !.scheme = IF b[2] = "scheme" THEN NONE ELSE @,
                      !.ident = IF b[2] = "ident" THEN NONE ELSE @, !.instant = IF b[2] = "instant" THEN "2021-02-29" ELSE @]]
    [] b[1] = "context2" ->
         [D EXCEPT !.insts[1].contexts[2] =
            [@ EXCEPT !.start = IF b[2] = "start" THEN NONE ELSE IF b[2] = "order" THEN "2021-01-01" ELSE @,
                      !.end = IF b[2] = "end" THEN NONE ELSE IF b[2] = "date" THEN "2020-13-01" ELSE @]]
    [] b[1] = "dim" ->
         [D EXCEPT !.insts[1].contexts[1].dims[1] =
            [@ EXCEPT !.dim = IF b[2] = "dim" THEN NsA \o "B" ELSE @, !.k = IF b[2] = "other" THEN "other" ELSE @,
                      !.mem = IF b[2] = "nomem" THEN NONE ELSE IF b[2] = "mem" THEN NsA \o "Nobody" ELSE IF b[2] = "wrongmem" THEN NsA \o "A" ELSE @]]
    [] b[1] = "typed" ->
         [D EXCEPT !.insts[1].contexts[1].dims[2] =
            [@ EXCEPT !.dim = IF b[2] = "dim" THEN NsA \o "Nobody" ELSE @,
                      !.vals = IF b[2] = "none" THEN <<>> ELSE IF b[2] = "two" THEN <<"v", "w">> ELSE IF b[2] = "empty" THEN <<NONE>> ELSE @]]
    [] b[1] = "unit" ->
         [D EXCEPT !.insts[1].units[1].ch = CASE b[2] = "none" -> <<>> [] b[2] = "two" -> @ \o @ [] b[2] = "other" -> <<[@[1] EXCEPT !.k = "other"]>> [] OTHER -> <<[@[1] EXCEPT !.m = NONE]>>]
    [] b[1] = "unit2" ->
         [D EXCEPT !.insts[1].units[2].ch[1].sub = CASE b[2] = "sub1" -> <<@[1]>> [] b[2] = "subother" -> <<@[1], [@[2] EXCEPT !.k = "unitOther"]>>
                                                    [] b[2] = "same" -> <<@[1], @[1]>> [] OTHER -> <<@[1], [@[2] EXCEPT !.ms = <<>>]>>]
    [] b[1] = "element" ->
         [D EXCEPT !.elements[2] =
            [@ EXCEPT !.period = IF b[2] = "period" THEN "forever" ELSE @, !.balance = IF b[2] = "balance" THEN "both" ELSE @,
                      !.nillable = IF b[2] = "nillable" THEN "maybe" ELSE @, !.type = IF b[2] = "type" THEN NONE ELSE @, !.typens = IF b[2] = "type" THEN NONE ELSE @]]
    [] b[1] = "dimension" -> [D EXCEPT !.elements[4].typed = "nowhere"]
    [] b[1] = "arc" ->
         [D EXCEPT !.links[1].arcs[1] =
            [@ EXCEPT !.from = IF b[2] = "from" THEN NONE ELSE IF b[2] = "dangling" THEN "zz" ELSE @, !.to = IF b[2] = "to" THEN NONE ELSE @,
                      !.arcrole = IF b[2] = "arcrole" THEN NONE ELSE @, !.bad = IF b[2] = "bad" THEN TRUE ELSE @]]
    [] b[1] = "loc" ->
         [D EXCEPT !.links[2].locs[1] = [@ EXCEPT !.label = IF b[2] = "label" THEN NONE ELSE @, !.to = IF b[2] = "to" THEN NONE ELSE IF b[2] = "dangling" THEN "nowhere" ELSE @]]
    [] b[1] = "res" -> [D EXCEPT !.links[3].ress[1] = [@ EXCEPT !.label = IF b[2] = "label" THEN NONE ELSE @, !.lang = IF b[2] = "lang" THEN NONE ELSE @]]
    [] b[1] = "link" ->
         [D EXCEPT !.links[3] = [@ EXCEPT !.role = IF b[2] = "role" THEN NONE ELSE @, !.kind = IF b[2] = "kind" THEN "unknown" ELSE @,
                                          !.arcs = IF b[2] = "dup" THEN <<@[1], @[2], @[1]>> ELSE @]]
    [] OTHER -> [D EXCEPT !.roles[1].used = <<"presentation">>]
\* what is left open: whether a fact with a broken unit is reported
DefectDocs == {Sound} \cup {Break(Sound, b) : b \in Breakages} \cup (IF Size > 1 THEN {Break(Break(Sound, b), c) : b, c \in {x \in Breakages : TRUE}} ELSE {})

Docs == CASE Scope = "elements" -> ElementDocs \cup HeadDocs [] Scope = "facts" -> FactDocs [] Scope = "contexts" -> ContextDocs
          [] Scope = "networks" -> NetworkDocs [] Scope = "merge" -> MergeDocs [] Scope = "components" -> ComponentDocs
          [] Scope = "annos" -> AnnoDocs [] Scope = "balance" -> BalanceDocs [] Scope = "aggregation" -> AggregationDocs
          [] OTHER -> DefectDocs

---------------------------------------------------------------------------
Init == doc \in Docs /\ Start(doc)
Next == UNCHANGED doc /\ ((\E x \in todo : Step(doc, x)) \/ NextPhase(doc))
Spec == Init /\ [][Next]_mcvars

Finished == phase = "done"
\* every order of reading leads to what the declarative operators say
Confluent ==
  Finished =>
    /\ elems = TheElements(doc)
    /\ facts = TheFacts(doc, elems)
    /\ nets = TheNetworks(doc, elems, facts)
    /\ annos = TheAnnos(doc, elems, facts)
    /\ comps = TheComponents(doc, nets)
\* nothing read is ever forgotten or changed by what is read later
Monotone == [][phase # "elements" => elems' = elems]_mcvars /\ [][phase \notin {"elements", "facts"} => facts' = facts]_mcvars
            /\ [][\A n \in nets : \E m \in nets' : m.kind = n.kind /\ m.role = n.role /\ n.rels \subseteq m.rels /\ n.nodes \subseteq m.nodes]_mcvars
            /\ [][facts \subseteq facts' /\ errs \subseteq errs' /\ annos \subseteq annos']_mcvars
\* facts come from written elements, one each
FactsGrounded == \A x, y \in facts : x.src = y.src => x = y
NetsUnique == \A m, n \in nets : m.kind = n.kind /\ m.role = n.role => m = n
NetsGrounded == \A n \in nets : {r.p : r \in n.rels} \cup {r.c : r \in n.rels} \subseteq n.nodes
RootsExist == \A n \in nets : n.nodes # {} => Roots(n) # {}      \* the scopes hold acyclic links only
ErrorsCover == Finished => UNION errs \subseteq mayerrs
\* every explored document, for the replay
Emit == (phase = "elements" /\ todo = DOMAIN doc.elements) => PrintT("DOC " \o ToJson(doc))
=============================================================================
