------------------------------- MODULE Filing -------------------------------
(***************************************************************************)
(* What opening a filing means.                                            *)
(*                                                                         *)
(* A document D is the content of a filing's files: element declarations,  *)
(* role types, instances (contexts, units, facts) and extended links, as   *)
(* written.  Opening it is a state machine with one action per written     *)
(* item: declare an element, read a fact, read a link, make a component.   *)
(* Within a phase the items may be read in any order.  The operators with  *)
(* names starting with "The" say declaratively what the result must be;    *)
(* MCFiling checks that the machine reaches exactly that in every order.   *)
(***************************************************************************)
EXTENDS Util

VARIABLES
  phase,    \* "elements", "facts", "links", "components", "done"
  todo,     \* the items of the phase not read yet
  elems,    \* report elements found: set of records
  facts,    \* facts found: set of [src |-> <<instance, position>>, f |-> fact, sure |-> BOOLEAN]
  nets,     \* logical networks so far: set of [kind, role, nodes, rels]
  annos,    \* pairs found in label, reference and footnote links
  comps,    \* components made
  errs,     \* set of sets of errors (a code and the place of the part it concerns): of each set at least one must be reported
  mayerrs   \* errors that may be reported besides

opening == <<phase, todo, elems, facts, nets, annos, comps, errs, mayerrs>>

---------------------------------------------------------------------------
(* Errors name the part of the filing they concern *)

Places(codes, at) == {c \o "@" \o at : c \in codes}
Placed(groups, at) == {Places(g, at) : g \in groups}

---------------------------------------------------------------------------
(* Report elements *)

ConceptProblem(e) ==
  UNION { IF e.period \in {"instant", "duration"} THEN {} ELSE {"E-SCH-200"},
          IF e.balance \in {"credit", "debit", NONE} THEN {} ELSE {"E-SCH-201"},
          IF e.nillable \in {"true", "false", NONE} THEN {} ELSE {"E-SCH-202"},
          IF e.type = NONE THEN {"E-SCH-203"} ELSE {} }

\* what an element substitutes, directly or by way of other elements
Heads == {"item", "tuple", "hypercubeItem", "dimensionItem", NONE}
RECURSIVE GroupOf(_, _, _)
GroupOf(D, sg, seen) ==
  IF sg \in Heads THEN sg
  ELSE LET ds == {d \in Range(D.elements) : d.name = sg} IN
       IF sg \in seen \/ ds = {} THEN NONE ELSE GroupOf(D, (CHOOSE d \in ds : TRUE).sg, seen \cup {sg})

KindOf(D, e) ==
  LET sg == GroupOf(D, e.sg, {}) IN
  CASE e.type = "domainItemType" -> "Member"
    [] e.type # "domainItemType" /\ e.abs # "true" /\ sg = "item" ->
         IF ConceptProblem(e) = {} THEN "Concept" ELSE NONE
    [] e.type # "domainItemType" /\ e.abs # "true" /\ sg # "item" -> NONE
    [] e.type # "domainItemType" /\ e.abs = "true" /\ sg = "hypercubeItem" -> "Hypercube"
    [] e.type # "domainItemType" /\ e.abs = "true" /\ sg = "dimensionItem" -> "Dimension"
    [] OTHER -> IF Contains(e.local, "LineItems") THEN "LineItems" ELSE "Abstract"

IsBrokenConcept(D, e) == e.type # "domainItemType" /\ e.abs # "true" /\ GroupOf(D, e.sg, {}) = "item" /\ ConceptProblem(e) # {}

\* the declaration a typed dimension refers to
DomainDecl(D, e) == IF e.typed = NONE THEN {} ELSE {d \in Range(D.elements) : d.id = e.typed}
DomainType(D, e) ==
  IF DomainDecl(D, e) = {} THEN NONE
  ELSE LET d == CHOOSE d \in DomainDecl(D, e) : TRUE
       IN IF d.type = NONE THEN "{http://www.w3.org/2001/XMLSchema}anyType" ELSE d.typens \o d.type

ElementOf(D, e) ==
  LET k == KindOf(D, e) IN
  [name |-> e.name, kind |-> k, id |-> e.id,
   period |-> IF k = "Concept" THEN e.period ELSE NONE,
   balance |-> IF k = "Concept" THEN e.balance ELSE NONE,
   nillable |-> IF k = "Concept" THEN (IF e.nillable = "true" THEN "true" ELSE "false") ELSE NONE,
   type |-> IF k = "Concept" THEN e.type ELSE NONE,
   explicit |-> IF k = "Dimension" THEN (IF DomainDecl(D, e) = {} THEN "true" ELSE "false") ELSE NONE,
   dimtype |-> IF k = "Dimension" THEN DomainType(D, e) ELSE NONE]

ElementErrors(D, e) ==
  Placed(IF IsBrokenConcept(D, e) THEN {ConceptProblem(e)}
         ELSE IF KindOf(D, e) = "Dimension" /\ e.typed # NONE /\ DomainDecl(D, e) = {} THEN {{"E-SCH-100"}} ELSE {}, "element " \o e.local)

TheElements(D) == {ElementOf(D, e) : e \in {x \in Range(D.elements) : KindOf(D, x) # NONE}}

Named(E, n) == {e \in E : e.name = n}
OfKind(E, n, k) == {e \in E : e.name = n /\ e.kind = k}

---------------------------------------------------------------------------
(* Contexts, units and facts *)

ContextNamed(inst, id) == {c \in Range(inst.contexts) : c.id = id}
UnitNamed(inst, id) == {u \in Range(inst.units) : u.id = id}

DatesOf(c) == IF c.instant # NONE THEN {c.instant} ELSE {c.start, c.end}

PeriodProblems(c) ==
  IF c.instant # NONE THEN IF IsDate(c.instant) THEN {} ELSE {{"E-ING-003"}}
  ELSE IF c.start = NONE \/ c.end = NONE
       THEN {UNION {IF c.start = NONE THEN {"E-ING-004"} ELSE {}, IF c.end = NONE THEN {"E-ING-005"} ELSE {}}}
       ELSE IF ~IsDate(c.start) \/ ~IsDate(c.end) THEN {{"E-ING-003"}}
       ELSE IF DateNum(c.end) < DateNum(c.start) THEN {{"E-ING-006"}} ELSE {}

EntityProblems(c) ==
  LET codes == UNION { IF c.hasid THEN {} ELSE {"E-ING-007"},
                       IF c.hasid /\ c.scheme = NONE THEN {"E-ING-008"} ELSE {},
                       IF c.hasid /\ c.ident = NONE THEN {"E-ING-009"} ELSE {} }
  IN IF codes = {} THEN {} ELSE {codes}

\* a dimension in a segment: k is the element (explicitMember, typedMember, other), dim its dimension attribute,
\* mem the member named by an explicit one, vals the texts of the children of a typed one
DimProblem(E, d) ==
  CASE d.k = "explicit" ->
         (IF OfKind(E, d.dim, "Dimension") = {} THEN {"E-ING-010"} ELSE {})
         \cup (IF d.mem = NONE THEN {"E-ING-011"} ELSE IF OfKind(E, d.mem, "Member") = {} THEN {"E-ING-012"} ELSE {})
    [] d.k = "typed" ->
         (IF OfKind(E, d.dim, "Dimension") = {} THEN {"E-ING-013"} ELSE {})
         \cup (IF Len(d.vals) = 0 THEN {"E-ING-015"} ELSE {})
         \cup (IF Len(d.vals) > 1 THEN {"E-ING-014"} ELSE {})
         \cup (IF Len(d.vals) > 0 /\ d.vals[1] = NONE THEN {"E-ING-016"} ELSE {})
    [] OTHER -> {"E-ING-002"}

DimProblems(E, c) == {p \in {DimProblem(E, c.dims[i]) : i \in DOMAIN c.dims} : p # {}}

\* a context without a period or an entity cannot be used at all
Dead(c) == ~c.hasperiod \/ ~c.hasentity

ContextProblems(E, c) ==
  IF Dead(c)
  THEN {UNION {IF c.hasperiod THEN {} ELSE {"E-ING-000"}, IF c.hasentity THEN {} ELSE {"E-ING-001"}}}
  ELSE PeriodProblems(c) \cup EntityProblems(c) \cup DimProblems(E, c)

\* a unit's children: k is measure, divide or other; m the measure named; sub the children of a divide
MeasureProblem(m) == IF m = NONE THEN {{"E-INX-006"}} ELSE {}
DivideProblems(ch) ==
  (IF Len(ch.sub) # 2 THEN {{"E-INX-002"}} ELSE {})
  \cup (IF \E i \in DOMAIN ch.sub : ch.sub[i].k \notin {"unitNumerator", "unitDenominator"} THEN {{"E-INX-003", "E-INX-006"}} ELSE {})
  \cup (IF \E i \in DOMAIN ch.sub : ch.sub[i].ms = <<>> \/ NONE \in Range(ch.sub[i].ms) THEN {{"E-INX-006"}} ELSE {})
  \cup (IF Len(ch.sub) = 2 /\ ch.sub[1].k = ch.sub[2].k THEN {{"E-INX-004", "E-INX-006"}} ELSE {})
UnitProblems(u) ==
  IF Len(u.ch) # 1 THEN {{"E-INX-001"}}
  ELSE LET c == u.ch[1] IN
       CASE c.k = "measure" -> MeasureProblem(c.m)
         [] c.k = "divide" -> DivideProblems(c)
         [] OTHER -> {{"E-INX-005"}}

Measures(u, side) ==
  LET c == u.ch[1] IN
  IF c.k = "measure" THEN (IF side = "unitNumerator" THEN <<c.m>> ELSE <<>>)
  ELSE Flatten([i \in DOMAIN c.sub |-> IF c.sub[i].k = side THEN c.sub[i].ms ELSE <<>>])

UnitOf(u) == IF UnitProblems(u) # {} THEN [k |-> "bad", id |-> u.id, num |-> <<>>, den |-> <<>>]
             ELSE [k |-> "unit", id |-> u.id, num |-> Measures(u, "unitNumerator"), den |-> Measures(u, "unitDenominator")]
NoUnit == [k |-> "none", id |-> NONE, num |-> <<>>, den |-> <<>>]

PeriodOf(c) ==
  IF PeriodProblems(c) # {} THEN [k |-> "none", a |-> NONE, b |-> NONE]
  ELSE IF c.instant # NONE THEN [k |-> "instant", a |-> c.instant, b |-> NONE]
  ELSE [k |-> "duration", a |-> c.start, b |-> c.end]

EntityOf(c) == IF EntityProblems(c) # {} THEN [scheme |-> NONE, id |-> NONE] ELSE [scheme |-> c.scheme, id |-> c.ident]

DimsOf(E, c) ==
  {IF d.k = "explicit" THEN [dim |-> d.dim, k |-> "explicit", v |-> d.mem] ELSE [dim |-> d.dim, k |-> "typed", v |-> d.vals[1]]
     : d \in {x \in Range(c.dims) : DimProblem(E, x) = {}}}

IsInt(s) == s # "" /\ AllDigits(IF StartsWith(s, "-") THEN SubSeq(s, 2, Len(s)) ELSE s) /\ s # "-"
FactWarnings(E, f) ==
  (IF f.value \in {NONE, ""} /\ \A e \in Named(E, f.concept) : e.nillable # "true" THEN {{"W-ING-019"}} ELSE {})
  \cup (IF f.decimals \in {NONE, "INF"} \/ IsInt(f.decimals) THEN {} ELSE {{"W-ING-018"}})
  \cup (IF f.precision \in {NONE, "INF"} \/ IsInt(f.precision) THEN {} ELSE {{"W-ING-017"}})

\* what hinders a fact from being reported at all
FactBlocks(E, inst, f) ==
  UNION { IF OfKind(E, f.concept, "Concept") = {} THEN {"E-INX-100"} ELSE {},
          IF f.unit # NONE /\ UnitNamed(inst, f.unit) = {} THEN {"E-INX-102"} ELSE {},
          IF ContextNamed(inst, f.ctx) = {} THEN {"E-INX-101"} ELSE {} }

ContextErrors(E, c) == Placed(ContextProblems(E, c), "context " \o c.id)
UnitErrors(u) == Placed(UnitProblems(u), "unit " \o u.id)
FactPlace(f) == "fact " \o f.id

\* everything wrong that a fact leads to
FactGroups(E, inst, f) ==
  LET up == IF f.unit = NONE THEN {} ELSE UNION {UnitErrors(u) : u \in UnitNamed(inst, f.unit)}
      blocks == Places(FactBlocks(E, inst, f), FactPlace(f))
  IN IF blocks # {} THEN {blocks \cup UNION up}
     ELSE IF up # {} THEN {UNION up}
     ELSE LET cp == ContextErrors(E, CHOOSE c \in ContextNamed(inst, f.ctx) : TRUE)
          IN IF cp # {} THEN cp ELSE Placed(FactWarnings(E, f), FactPlace(f))
FactMay(E, inst, f) ==
  Places(FactBlocks(E, inst, f) \cup UNION FactWarnings(E, f), FactPlace(f))
  \cup UNION UNION {UnitErrors(u) : u \in UnitNamed(inst, f.unit)}
  \cup UNION UNION {ContextErrors(E, c) : c \in ContextNamed(inst, f.ctx)}

\* a fact needs a concept, a period and an entity
FactReported(E, inst, f) ==
  /\ FactBlocks(E, inst, f) = {}
  /\ \A c \in ContextNamed(inst, f.ctx) : ~Dead(c)
FactSure(E, inst, f) ==
  /\ FactReported(E, inst, f)
  /\ \A c \in ContextNamed(inst, f.ctx) : ContextProblems(E, c) = {}
  /\ f.unit # NONE => \A u \in UnitNamed(inst, f.unit) : UnitProblems(u) = {}

NumOrNone(s) == IF s = NONE \/ s = "INF" \/ IsInt(s) THEN s ELSE NONE

FactOf(E, inst, f) ==
  LET c == CHOOSE c \in ContextNamed(inst, f.ctx) : TRUE
      unit == IF f.unit = NONE THEN NoUnit ELSE UnitOf(CHOOSE u \in UnitNamed(inst, f.unit) : TRUE)
  IN [id |-> f.id, concept |-> f.concept, value |-> IF f.value = NONE THEN "" ELSE f.value,
      period |-> PeriodOf(c), entity |-> EntityOf(c), unit |-> unit, dims |-> DimsOf(E, c),
      decimals |-> NumOrNone(f.decimals), precision |-> NumOrNone(f.precision)]

FactPositions(D) == UNION {{<<i, j>> : j \in DOMAIN D.insts[i].facts} : i \in DOMAIN D.insts}

TheFacts(D, E) ==
  {[src |-> q, f |-> FactOf(E, D.insts[q[1]], D.insts[q[1]].facts[q[2]]),
    sure |-> FactSure(E, D.insts[q[1]], D.insts[q[1]].facts[q[2]])]
   : q \in {q \in FactPositions(D) : FactReported(E, D.insts[q[1]], D.insts[q[1]].facts[q[2]])}}

---------------------------------------------------------------------------
(* Extended links *)

Logical == {"presentation", "calculation", "definition"}
Physical == {"label", "reference", "footnote"}

ValidLoc(l) == l.label # NONE /\ l.to # NONE
ValidArc(a) == a.from # NONE /\ a.to # NONE /\ a.arcrole # NONE /\ ~a.bad
ValidRes(r) == r.label # NONE

\* what a locator leads to: an element or a fact
\* (ids are unique within a document only: where several items share one, the locator says at which namespace's schema it points, or at "facts")
ElemTargets(E, l) == {e.name : e \in {x \in E : x.id = l.to /\ (l.at = NONE \/ StartsWith(x.name, l.at))}}
FactTargets(F, id) == {"fact:" \o f.f.id : f \in {x \in F : x.f.id = id}}
Targets(E, F, l) == IF ElemTargets(E, l) # {} THEN ElemTargets(E, l) ELSE FactTargets(F, l.to)

Fits(E, kind, t) ==
  CASE kind = "footnote" -> TRUE
    [] kind = "calculation" -> OfKind(E, t, "Concept") # {}
    [] OTHER -> Named(E, t) # {}

UsableLocs(E, F, k) == {l \in Range(k.locs) : ValidLoc(l) /\ Targets(E, F, l) # {} /\ \A t \in Targets(E, F, l) : Fits(E, k.kind, t)}
UsableRes(k) == {i \in DOMAIN k.ress : LET r == k.ress[i] IN
                   ValidRes(r) /\ r.kind \in Physical /\ (r.kind \in {"label", "footnote"} => r.lang # NONE)}

Ends(E, F, k, label) == UNION {Targets(E, F, l) : l \in {l \in UsableLocs(E, F, k) : l.label = label}}

RelOf(a, p, c) == [p |-> p, c |-> c, a |-> a.arcrole, o |-> a.order, w |-> a.weight, pl |-> a.pref]
LinkRels(E, F, k) ==
  UNION {{RelOf(a, pc[1], pc[2]) : pc \in Ends(E, F, k, a.from) \X Ends(E, F, k, a.to)} : a \in {a \in Range(k.arcs) : ValidArc(a)}}
LinkNodes(E, F, k) == UNION {Targets(E, F, l) : l \in UsableLocs(E, F, k)}

ResOf(r) == [kind |-> r.kind, label |-> r.label, role |-> r.role, lang |-> r.lang, text |-> r.text, parts |-> r.parts]
\* the pairs that a label, reference or footnote link makes, tagged by where they are written
LinkAnnos(E, F, k, n) ==
  UNION {{[n |-> <<n, k.arcs[i].from, k.arcs[i].to, k.arcs[i].arcrole, x>>, kind |-> k.kind, role |-> k.role, a |-> k.arcs[i].arcrole, e |-> e, o |-> k.arcs[i].order, r |-> ResOf(k.ress[x])]
            : e \in Ends(E, F, k, k.arcs[i].from), x \in {x \in UsableRes(k) : k.ress[x].label = k.arcs[i].to}}
         : i \in {i \in DOMAIN k.arcs : ValidArc(k.arcs[i])}}

LocProblem(E, F, k, l) ==
  IF ~ValidLoc(l) THEN {"E-LNK-403"}
  ELSE IF Targets(E, F, l) = {} THEN {"E-LNK-300"}
  ELSE IF \E t \in Targets(E, F, l) : ~Fits(E, k.kind, t) THEN {"E-LNK-301"} ELSE {}
ResProblem(k, r) ==
  IF ~ValidRes(r) THEN {"E-LNK-403"}
  ELSE IF r.kind \notin Physical THEN {"E-LNK-200"}
  ELSE IF r.kind = "label" /\ r.lang = NONE THEN {"E-LAB-001"}
  ELSE IF r.kind = "footnote" /\ r.lang = NONE THEN {"E-FOO-001"} ELSE {}
ArcPlace(a) == "arc " \o a.from \o " " \o a.to
\* where an arc repeats another one
DupArcs(k, Joins(_)) ==
  {ArcPlace(k.arcs[i]) : i \in {i \in DOMAIN k.arcs : ValidArc(k.arcs[i]) /\ Joins(k.arcs[i]) /\ \E j \in 1..(i - 1) :
     ValidArc(k.arcs[j]) /\ k.arcs[i].from = k.arcs[j].from /\ k.arcs[i].to = k.arcs[j].to /\ k.arcs[i].arcrole = k.arcs[j].arcrole}}

\* an arc both ends of which exist
Joined(E, F, k, a) == Ends(E, F, k, a.from) # {}
                      /\ (Ends(E, F, k, a.to) # {} \/ \E i \in UsableRes(k) : k.ress[i].label = a.to)

LinkPlace(k) == "link " \o k.role
PartErrors(E, F, k) ==
  {p \in {Places(LocProblem(E, F, k, l), "loc " \o l.label) : l \in Range(k.locs)} \cup {Places(ResProblem(k, r), "resource " \o r.label) : r \in Range(k.ress)}
         \cup {IF ValidArc(a) THEN {} ELSE Places({"E-LNK-403"}, ArcPlace(a)) : a \in Range(k.arcs)}
         \cup {Places({"W-LNK-401"}, at) : at \in DupArcs(k, LAMBDA a : Joined(E, F, k, a))} : p # {}}
\* the parts of a link that is not understood at all need not be looked at
LinkErrors(E, F, k) ==
  IF k.role = NONE THEN {Places({"E-LNK-402"}, LinkPlace(k))}
  ELSE IF k.kind \notin Logical \cup Physical THEN {Places({"E-LNK-400"}, LinkPlace(k))}
  ELSE PartErrors(E, F, k)
LinkMay(E, F, k) == UNION LinkErrors(E, F, k) \cup UNION PartErrors(E, F, k) \cup UNION {Places({"W-LNK-401"}, at) : at \in DupArcs(k, LAMBDA a : TRUE)}

\* a network is the set of elements its links mention and the set of their relations
Roots(net) == net.nodes \ {r.c : r \in net.rels}

\* reading one more link into the networks read so far
MergeLink(N, E, F, k) ==
  IF k.kind \notin Logical \/ k.role = NONE \/ LinkNodes(E, F, k) = {} THEN N
  ELSE LET old == {n \in N : n.kind = k.kind /\ n.role = k.role}
           nodes == LinkNodes(E, F, k) \cup UNION {n.nodes : n \in old}
           rels == LinkRels(E, F, k) \cup UNION {n.rels : n \in old}
       IN (N \ old) \cup {[kind |-> k.kind, role |-> k.role, nodes |-> nodes, rels |-> rels]}

TheNetworks(D, E, F) ==
  {[kind |-> kr[1], role |-> kr[2],
    nodes |-> UNION {LinkNodes(E, F, k) : k \in {k \in Range(D.links) : k.kind = kr[1] /\ k.role = kr[2]}},
    rels  |-> UNION {LinkRels(E, F, k) : k \in {k \in Range(D.links) : k.kind = kr[1] /\ k.role = kr[2]}}]
   : kr \in {<<k.kind, k.role>> : k \in {k \in Range(D.links) : k.kind \in Logical /\ k.role # NONE /\ LinkNodes(E, F, k) # {}}}}

TheAnnos(D, E, F) ==
  UNION {LinkAnnos(E, F, D.links[n], n) : n \in {n \in DOMAIN D.links : D.links[n].kind \in Physical /\ D.links[n].role # NONE}}

---------------------------------------------------------------------------
(* Components *)

UsedCode(kind) == CASE kind = "presentation" -> "W-SCH-000" [] kind = "calculation" -> "W-SCH-001" [] OTHER -> "W-SCH-002"
RoleWarnings(N, r) == {Places({UsedCode(n.kind)}, "role " \o r.uri) : n \in {n \in N : n.role = r.uri /\ n.kind \notin Range(r.used)}}
ComponentOf(N, r) == [uri |-> r.uri, info |-> IF r.def = NONE THEN "" ELSE r.def, nets |-> {n.kind : n \in {n \in N : n.role = r.uri}}]
TheComponents(D, N) == {ComponentOf(N, r) : r \in Range(D.roles)}

---------------------------------------------------------------------------
(* The machine *)

Items(D, ph) == CASE ph = "elements" -> DOMAIN D.elements
                  [] ph = "facts" -> FactPositions(D)
                  [] ph = "links" -> DOMAIN D.links
                  [] ph = "components" -> DOMAIN D.roles
                  [] OTHER -> {}
After(ph) == CASE ph = "elements" -> "facts" [] ph = "facts" -> "links" [] ph = "links" -> "components" [] OTHER -> "done"

Start(D) ==
  /\ phase = "elements" /\ todo = Items(D, "elements")
  /\ elems = {} /\ facts = {} /\ nets = {} /\ annos = {} /\ comps = {} /\ errs = {} /\ mayerrs = {}

DeclareElement(D, i) ==
  /\ phase = "elements" /\ i \in todo
  /\ todo' = todo \ {i}
  /\ elems' = IF KindOf(D, D.elements[i]) = NONE \/ Named(elems, D.elements[i].name) # {} THEN elems
              ELSE elems \cup {ElementOf(D, D.elements[i])}
  /\ errs' = errs \cup ElementErrors(D, D.elements[i])
  /\ mayerrs' = mayerrs \cup UNION ElementErrors(D, D.elements[i])
  /\ UNCHANGED <<phase, facts, nets, annos, comps>>

ReadFact(D, q) ==
  /\ phase = "facts" /\ q \in todo
  /\ todo' = todo \ {q}
  /\ LET inst == D.insts[q[1]] f == inst.facts[q[2]] IN
     /\ facts' = IF FactReported(elems, inst, f)
                 THEN facts \cup {[src |-> q, f |-> FactOf(elems, inst, f), sure |-> FactSure(elems, inst, f)]}
                 ELSE facts
     /\ errs' = errs \cup FactGroups(elems, inst, f)
     /\ mayerrs' = mayerrs \cup FactMay(elems, inst, f)
  /\ UNCHANGED <<phase, elems, nets, annos, comps>>

ReadLink(D, n) ==
  /\ phase = "links" /\ n \in todo
  /\ todo' = todo \ {n}
  /\ nets' = MergeLink(nets, elems, facts, D.links[n])
  /\ annos' = IF D.links[n].kind \in Physical /\ D.links[n].role # NONE THEN annos \cup LinkAnnos(elems, facts, D.links[n], n) ELSE annos
  /\ errs' = errs \cup LinkErrors(elems, facts, D.links[n])
  /\ mayerrs' = mayerrs \cup LinkMay(elems, facts, D.links[n])
  /\ UNCHANGED <<phase, elems, facts, comps>>

MakeComponent(D, i) ==
  /\ phase = "components" /\ i \in todo
  /\ todo' = todo \ {i}
  /\ comps' = comps \cup {ComponentOf(nets, D.roles[i])}
  /\ errs' = errs \cup RoleWarnings(nets, D.roles[i])
  /\ mayerrs' = mayerrs \cup UNION RoleWarnings(nets, D.roles[i])
  /\ UNCHANGED <<phase, elems, facts, nets, annos>>

NextPhase(D) ==
  /\ todo = {} /\ phase # "done"
  /\ phase' = After(phase) /\ todo' = Items(D, After(phase))
  /\ UNCHANGED <<elems, facts, nets, annos, comps, errs, mayerrs>>

Step(D, x) == DeclareElement(D, x) \/ ReadFact(D, x) \/ ReadLink(D, x) \/ MakeComponent(D, x)

---------------------------------------------------------------------------
(* Calculations *)

BalanceOf(E, n) == LET c == OfKind(E, n, "Concept") IN IF c = {} THEN NONE ELSE (CHOOSE e \in c : TRUE).balance

BalanceConsistent(E, net) ==
  \A r \in net.rels :
    LET p == BalanceOf(E, r.p) c == BalanceOf(E, r.c) IN
    /\ p # NONE /\ c # NONE
    /\ IF p = c THEN r.w > 0 ELSE r.w < 0

\* the facts reported for the same period, entity, unit and dimensions
Peers(F, f, concept) ==
  {g \in F : g.f.concept = concept /\ g.f.period = f.f.period /\ g.f.entity = f.f.entity /\ g.f.unit = f.f.unit /\ g.f.dims = f.f.dims}

Parents(net) == {r.p : r \in net.rels}
RelsFrom(net, p) == {r \in net.rels : r.p = p}
Totals(F, net) == {f \in F : f.f.concept \in Parents(net)}

\* the question cannot be answered for this total
Refused(F, net, f) ==
  \/ ~IsNumber(f.f.value)
  \/ \E r \in RelsFrom(net, f.f.concept) :
       \/ Cardinality(Peers(F, f, r.c)) # 1
       \/ \E g \in Peers(F, f, r.c) : ~IsNumber(g.f.value)

RECURSIVE SumRes(_, _, _, _)
SumRes(F, f, rs, p) ==
  IF rs = {} THEN 0
  ELSE LET r == CHOOSE r \in rs : TRUE
           g == CHOOSE g \in Peers(F, f, r.c) : TRUE
           w == IF r.w < 0 THEN (p - ((0 - r.w) % p)) % p ELSE r.w % p
       IN (w * Micro(g.f.value, p) + SumRes(F, f, rs \ {r}, p)) % p
AddsUp(F, net, f) == \A p \in Primes : ((1000 % p) * Micro(f.f.value, p)) % p = SumRes(F, f, RelsFrom(net, f.f.concept), p)

\* the answers that are right
AggregationAnswers(F, net) ==
  LET refused == \E f \in Totals(F, net) : Refused(F, net, f)
      wrong == \E f \in Totals(F, net) : ~Refused(F, net, f) /\ ~AddsUp(F, net, f)
  IN IF refused THEN (IF wrong THEN {"refused", "false"} ELSE {"refused"}) ELSE IF wrong THEN {"false"} ELSE {"true"}
=============================================================================
