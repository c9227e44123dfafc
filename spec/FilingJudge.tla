----------------------------- MODULE FilingJudge -----------------------------
(* Compares what brel reports about a filing with the state that the machine  *)
(* of Filing.tla reached on the same document.  Each clause is named after    *)
(* the property it belongs to.                                                *)
EXTENDS Filing

Key(f) == <<f.id, f.concept, f.value>>
SureFacts == {x \in facts : x.sure}
OtherFacts == facts \ SureFacts
CountKey(k, F) == Cardinality({x \in F : Key(x.f) = k})
CountObsKey(k, O) == Cardinality({i \in DOMAIN O.facts : Key(O.facts[i]) = k})
OtherKeys == {Key(x.f) : x \in OtherFacts}

Opened(O) == O.crash = NONE

FactsMissing(O) == \E k \in {Key(x.f) : x \in SureFacts} : CountObsKey(k, O) < CountKey(k, SureFacts)
FactsExtra(O) == \E i \in DOMAIN O.facts : CountObsKey(Key(O.facts[i]), O) > CountKey(Key(O.facts[i]), facts)
Accuracy(f) == <<Key(f), f.decimals, f.precision>>
FactsAccuracy(O) == \A i \in DOMAIN O.facts : \E x \in facts : Accuracy(x.f) = Accuracy(O.facts[i])

SameUnit(u, o) == u.k = o.k /\ u.id = o.id /\ BagEq(u.num, o.num) /\ BagEq(u.den, o.den)
CoreAspects(f) == {"concept", "period", "entity"} \cup (IF f.unit.k = "none" THEN {} ELSE {"unit"})
SameAspects(f, o) ==
  /\ f.period = o.period
  /\ f.entity = o.entity
  /\ SameUnit(f.unit, o.unit)
  /\ Range(o.dims) = f.dims /\ NoDup(o.dims)
  /\ Range(o.core) = CoreAspects(f) /\ NoDup(o.core)
SameFact(f, o) == Key(f) = Key(o) /\ SameAspects(f, o)

\* every fact reported without doubt has the aspects of an element written that way, and no more often than written
AspectsWrong(O) ==
  \E i \in DOMAIN O.facts :
    /\ Key(O.facts[i]) \notin OtherKeys
    /\ CountKey(Key(O.facts[i]), SureFacts) > 0
    /\ Cardinality({j \in DOMAIN O.facts : O.facts[j] = O.facts[i]})
         > Cardinality({x \in SureFacts : SameFact(x.f, O.facts[i])})

IsCoreWrong(O) == \E i \in DOMAIN O.facts : O.facts[i].isCore # (O.facts[i].dims = <<>>)

\* ---- report elements ----
ElemFields(e) == [name |-> e.name, kind |-> e.kind, id |-> e.id, period |-> e.period, balance |-> e.balance,
                  nillable |-> e.nillable, type |-> e.type, explicit |-> e.explicit, dimtype |-> e.dimtype]
ElementsMissing(O) == \E e \in elems : \A i \in DOMAIN O.elements : O.elements[i].name # e.name
ElementsExtra(O) == \/ \E i \in DOMAIN O.elements : Named(elems, O.elements[i].name) = {}
                    \/ Len(O.elements) # Cardinality({O.elements[i].name : i \in DOMAIN O.elements})
ElementKind(O) == \E i \in DOMAIN O.elements : \E e \in Named(elems, O.elements[i].name) : e.kind # O.elements[i].kind
ElementFields(O) == \E i \in DOMAIN O.elements :
                      \E e \in Named(elems, O.elements[i].name) : e.kind = O.elements[i].kind /\ e # ElemFields(O.elements[i])

\* ---- logical networks ----
Same(given, seen) == given = ANY \/ given = seen
RelMatches(kind, r, k) ==
  /\ k.e = r.c /\ k.a = r.a /\ Same(r.o, k.o)
  /\ kind = "calculation" => Same(r.w, k.w)
  /\ kind = "presentation" => (r.pl = NONE \/ r.pl = k.p)
Sorted(ks) == \A i, j \in DOMAIN ks : i < j => ks[i].o <= ks[j].o
RECURSIVE NodeOK(_, _)
NodeOK(net, n) ==
  LET rs == {r \in net.rels : r.p = n.e} IN
  /\ Len(n.k) = Cardinality(rs)
  /\ \A r \in rs : \E i \in DOMAIN n.k : RelMatches(net.kind, r, n.k[i])
  /\ \A i \in DOMAIN n.k : \E r \in rs : RelMatches(net.kind, r, n.k[i])
  /\ n.leaf = (rs = {})
  /\ \A i \in DOMAIN n.k : NodeOK(net, n.k[i])
RECURSIVE NodeSorted(_)
NodeSorted(n) == Sorted(n.k) /\ \A i \in DOMAIN n.k : NodeSorted(n.k[i])
LinkNameOf(kind) == kind \o "Link"
ArcNameOf(kind) == kind \o "Arc"
RECURSIVE NodeNames(_, _, _)
NodeNames(net, n, root) ==
  /\ n.lr = net.role /\ n.ln = LinkNameOf(net.kind)
  /\ root \/ n.an = ArcNameOf(net.kind)
  /\ \A i \in DOMAIN n.k : NodeNames(net, n.k[i], FALSE)

RootNames(o) == [i \in DOMAIN o.roots |-> o.roots[i].e]
RootsOK(net, o) == Range(RootNames(o)) = Roots(net) /\ NoDup(RootNames(o))
RelationsOK(net, o) == \A i \in DOMAIN o.roots : NodeOK(net, o.roots[i])
OrderOK(o) == \A i \in DOMAIN o.roots : NodeSorted(o.roots[i])
NamesOK(net, o) == /\ o.role = net.role /\ o.kind = net.kind /\ o.link = LinkNameOf(net.kind) /\ ~o.physical
                   /\ \A i \in DOMAIN o.roots : NodeNames(net, o.roots[i], TRUE)
                   /\ {r.a : r \in net.rels} \subseteq Range(o.arcroles)
                   /\ Range(o.arcroles) \subseteq {r.a : r \in net.rels} \cup {"unknown"}

NetsAt(role, kind) == {n \in nets : n.role = role /\ n.kind = kind}
ObsNets(c, kind) == CASE kind = "presentation" -> c.pre [] kind = "calculation" -> c.cal [] OTHER -> c.def
\* the networks of one kind and role, reported and modelled, as far as both exist
ForNets(O, P(_, _)) ==
  \A i \in DOMAIN O.comps : \A kind \in Logical : \A j \in DOMAIN ObsNets(O.comps[i], kind) :
    \A n \in NetsAt(O.comps[i].uri, kind) : P(n, ObsNets(O.comps[i], kind)[j])
NetsMissing(O) ==
  \E i \in DOMAIN O.comps : \E kind \in Logical :
    NetsAt(O.comps[i].uri, kind) # {} /\ ObsNets(O.comps[i], kind) = <<>>
NetsExtra(O) ==
  \E i \in DOMAIN O.comps : \E kind \in Logical :
    NetsAt(O.comps[i].uri, kind) = {} /\ ObsNets(O.comps[i], kind) # <<>>
RootsWrong(O) == ~ForNets(O, LAMBDA n, o : RootsOK(n, o))
RelationsWrong(O) == ~ForNets(O, LAMBDA n, o : RelationsOK(n, o))
SiblingOrder(O) == ~ForNets(O, LAMBDA n, o : OrderOK(o))
NamesWrong(O) == ~ForNets(O, LAMBDA n, o : NamesOK(n, o))

\* ---- physical definition networks: one per link and arcrole ----
PhysDef(D) ==
  UNION {{[n |-> n, kind |-> "definition", role |-> D.links[n].role,
           nodes |-> UNION {{r.p, r.c} : r \in {r \in LinkRels(elems, facts, D.links[n]) : r.a = a}},
           rels |-> {r \in LinkRels(elems, facts, D.links[n]) : r.a = a}]
            : a \in {r.a : r \in LinkRels(elems, facts, D.links[n])}}
         : n \in {n \in DOMAIN D.links : D.links[n].kind = "definition" /\ D.links[n].role # NONE}}
ObsPhysDef(O) == {i \in DOMAIN O.nets : O.nets[i].kind = "definition" /\ "unknown" \notin Range(O.nets[i].arcroles)}
PhysMatches(net, o) == o.role = net.role /\ RootsOK(net, o) /\ RelationsOK(net, o)
PhysicalWrong(D, O) ==
  \/ Cardinality(ObsPhysDef(O)) # Cardinality(PhysDef(D))
  \/ \E net \in PhysDef(D) : \A i \in ObsPhysDef(O) : ~PhysMatches(net, O.nets[i])
  \/ \E i \in ObsPhysDef(O) : ~OrderOK(O.nets[i]) \/ \A net \in PhysDef(D) : ~PhysMatches(net, O.nets[i])

\* ---- components ----
ComponentsWrong(O) ==
  \/ Len(O.comps) # Cardinality(comps)
  \/ \E c \in comps : \A i \in DOMAIN O.comps : O.comps[i].uri # c.uri
  \/ Len(O.uris) # Len(O.comps) \/ \E i \in DOMAIN O.comps : O.uris[i] # O.comps[i].uri
ComponentInfo(O) == \E i \in DOMAIN O.comps : \E c \in comps : c.uri = O.comps[i].uri /\ c.info # O.comps[i].info
ComponentLookup(O) == \E i \in DOMAIN O.comps : ~O.comps[i].found
ComponentNets(O) ==
  \E i \in DOMAIN O.comps : LET o == O.comps[i] IN
    \/ \E c \in comps : c.uri = o.uri /\ Range(o.nets) # c.nets
    \/ ~NoDup(o.nets)
    \/ o.has # <<o.pre # <<>>, o.cal # <<>>, o.def # <<>>>>
    \/ \E kind \in Logical : \E j \in DOMAIN ObsNets(o, kind) :
         ObsNets(o, kind)[j].role # o.uri \/ ObsNets(o, kind)[j].kind # kind \/ ObsNets(o, kind)[j].physical

\* ---- labels, references, footnotes ----
LabelOf(x) == [text |-> x.r.text, lang |-> x.r.lang, role |-> IF x.r.role = NONE THEN "http://www.xbrl.org/2003/role/label" ELSE x.r.role]
LabelsOf(name) == {x \in annos : x.kind = "label" /\ x.r.kind = "label" /\ x.e = name}
LabelsWrong(O) ==
  \E i \in DOMAIN O.elements : LET o == O.elements[i] IN
    \/ Len(o.labels) # Cardinality(LabelsOf(o.name))
    \/ \E x \in LabelsOf(o.name) : Count(LabelOf(x), o.labels) # Cardinality({y \in LabelsOf(o.name) : LabelOf(y) = LabelOf(x)})

DefaultRole(kind) == CASE kind = "label" -> "http://www.xbrl.org/2003/role/label"
                       [] kind = "reference" -> "http://www.xbrl.org/2003/role/reference"
                       [] OTHER -> "http://www.xbrl.org/2003/role/footnote"
ModelPair(x) == [kind |-> x.kind, role |-> x.role, a |-> x.a, e |-> x.e,
                 r |-> [kind |-> x.r.kind, label |-> x.r.label, lang |-> IF x.r.kind = "reference" THEN NONE ELSE x.r.lang,
                        text |-> IF x.r.kind = "reference" THEN NONE ELSE x.r.text,
                        parts |-> Range(x.r.parts), role |-> IF x.r.role = NONE THEN DefaultRole(x.r.kind) ELSE x.r.role]]
ObsPairs(O, i) ==
  LET net == O.nets[i] IN
  FlatMap(LAMBDA root :
    [j \in DOMAIN root.k |->
      [kind |-> net.kind, role |-> net.role, a |-> root.k[j].a, e |-> root.e,
       r |-> IF root.k[j].res = <<>> THEN [kind |-> "element"]
             ELSE LET x == root.k[j].res[1] IN
                  [kind |-> x.kind, label |-> x.label, lang |-> x.lang, text |-> x.text, parts |-> Range(x.parts), role |-> x.role]]],
    net.roots)
AnnoPairs(O, kind) == FlatMap(LAMBDA i : IF O.nets[i].kind = kind THEN ObsPairs(O, i) ELSE <<>>, [i \in DOMAIN O.nets |-> i])
AnnosWrong(O, kind) ==
  LET seen == AnnoPairs(O, kind)
      mine == {x \in annos : x.kind = kind}
  IN \/ Len(seen) # Cardinality(mine)
     \/ \E x \in mine : Count(ModelPair(x), seen) # Cardinality({y \in mine : ModelPair(y) = ModelPair(x)})

\* ---- calculations ----
CalNet(c) == {n \in nets : n.kind = "calculation" /\ n.role = c.uri /\ n.rels # {}}
TruthOf(b) == IF b THEN "true" ELSE "false"
BalanceWrong(O) ==
  \E i \in DOMAIN O.comps : \E j \in DOMAIN O.comps[i].cal : \E n \in CalNet(O.comps[i]) :
    O.comps[i].cal[j].balance # TruthOf(BalanceConsistent(elems, n))
AggregationWrong(O) ==
  \E i \in DOMAIN O.comps : \E j \in DOMAIN O.comps[i].cal : \E n \in CalNet(O.comps[i]) :
    O.comps[i].cal[j].aggregation \notin AggregationAnswers(facts, n)

\* ---- errors ----
\* every error says where it occurs, and that place is at fault
ErrorsMissing(O) == \E g \in errs : g \cap Range(O.places) = {}
ErrorsExtra(O) == ~(Range(O.places) \subseteq (UNION errs \cup mayerrs))
Clean == errs = {}
ErrorsOnClean(O) == Clean /\ O.errors # <<>>

\* ---- characteristics and typed values ----
Lex == INSTANCE Character
PeriodText(p) == IF p.k = "instant" THEN p.a ELSE p.a \o "/" \o p.b
LocalOf(name) == LET i == CHOOSE i \in 1..Len(name) : Ch(name, i) = "}" IN SubSeq(name, i + 1, Len(name))
CharsOf(f) ==
  {[k |-> "period", d |-> NONE, v |-> PeriodText(f.period)], [k |-> "entity", d |-> NONE, v |-> "{" \o f.entity.scheme \o "}" \o f.entity.id],
   [k |-> "concept", d |-> NONE, v |-> f.concept]} \cup {[k |-> x.k, d |-> x.dim, v |-> x.v] : x \in f.dims}
CharOf(c) == [k |-> c.k, d |-> c.d, v |-> c.v]
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
\* a name is written with a prefix
TextOK(c) == IF c.k \in {"concept", "explicit"} THEN c.text = LocalOf(c.v) \/ EndsWith(c.text, ":" \o LocalOf(c.v)) ELSE c.text = c.v

Written(o) == {x \in SureFacts : x.f.id = o.id /\ x.f.concept = o.concept /\ x.f.value = o.value}
Certain(o) == Key(o) \notin OtherKeys /\ Written(o) # {}
CharsWrong(O) ==
  \E i \in DOMAIN O.facts : Certain(O.facts[i]) /\ \A x \in Written(O.facts[i]) : {CharOf(c) : c \in {O.chars[j] : j \in {j \in DOMAIN O.chars : O.chars[j].fact = i}}} # CharsOf(x.f)
TextsWrong(O) == \E j \in DOMAIN O.chars : ~TextOK(O.chars[j])
HomeWrong(O) == \E j \in DOMAIN O.chars : ~O.chars[j].home
\* equal exactly if of one kind with one value (pairs are listed with the smaller position first)
EqualWrong(O) ==
  {<<i, j>> \in (DOMAIN O.chars) \X (DOMAIN O.chars) : i <= j /\ CharOf(O.chars[i]) = CharOf(O.chars[j])} # {<<p[1], p[2]>> : p \in Range(O.equal)}
UnequalWrong(O) == O.odd # <<>>      \* pairs for which a = b, b = a and not (a # b) disagree

PeriodReads(p) == IF p.k = "none" THEN [instant |-> "none", start |-> "none", end |-> "none"]
                  ELSE IF p.k = "instant" THEN [instant |-> p.a, start |-> "refused", end |-> "refused"]
                  ELSE [instant |-> "refused", start |-> p.a, end |-> p.b]
PeriodsWrong(O) == \E i \in DOMAIN O.facts : PeriodReads(O.facts[i].period) # O.reads[i]

ObsType(o) == LET es == Named(elems, o.concept) IN IF es = {} THEN NONE ELSE (CHOOSE e \in es : TRUE).type
TypedWrong(O) ==
  \E i \in DOMAIN O.facts : LET o == O.facts[i] v == O.typed[i] IN
    o.value # NONE /\ ( \/ ~Lex!Allowed(Lex!TypedOf(Lex!ClassOf(ObsType(o)), o.value), v.value)
                        \/ ~Lex!Allowed(Lex!AsInt(o.value), v.int) \/ ~Lex!Allowed(Lex!AsFloat(o.value), v.float) \/ ~Lex!Allowed(Lex!AsBool(o.value), v.bool)
                        \/ v.str # o.value )

\* the clauses that fail on a document D with report O; W says which parts of the report were asked for
FailingClauses(D, O, W) ==
  IF ~Opened(O) THEN {"opened"} ELSE
  UNION {
   IF "facts" \in W THEN UNION {
      IF FactsMissing(O) THEN {"F01.missing"} ELSE {}, IF FactsExtra(O) THEN {"F01.extra"} ELSE {},
      IF ~FactsExtra(O) /\ ~FactsAccuracy(O) THEN {"F01.accuracy"} ELSE {},
      IF AspectsWrong(O) THEN {"F02.aspects"} ELSE {}, IF IsCoreWrong(O) THEN {"F17.core"} ELSE {}} ELSE {},
   IF "elements" \in W THEN UNION {
      IF ElementsMissing(O) THEN {"F05.missing"} ELSE {}, IF ElementsExtra(O) THEN {"F05.extra"} ELSE {},
      IF ElementKind(O) THEN {"F05.kind"} ELSE {}, IF ElementFields(O) THEN {"F05.fields"} ELSE {},
      IF LabelsWrong(O) THEN {"F09.labels"} ELSE {}} ELSE {},
   IF "comps" \in W THEN UNION {
      IF ComponentsWrong(O) THEN {"F08.set"} ELSE {}, IF ComponentInfo(O) THEN {"F08.info"} ELSE {},
      IF ComponentLookup(O) THEN {"F08.lookup"} ELSE {}, IF ComponentNets(O) THEN {"F08.nets"} ELSE {},
      IF NetsMissing(O) THEN {"F06.missing"} ELSE {}, IF NetsExtra(O) THEN {"F06.extra"} ELSE {},
      IF RootsWrong(O) THEN {"F06.roots"} ELSE {}, IF RelationsWrong(O) THEN {"F06.relations"} ELSE {},
      IF SiblingOrder(O) THEN {"F06.order"} ELSE {}, IF NamesWrong(O) THEN {"F06.names"} ELSE {},
      IF BalanceWrong(O) THEN {"F10.balance"} ELSE {}, IF AggregationWrong(O) THEN {"F11.aggregation"} ELSE {}} ELSE {},
   IF "nets" \in W THEN UNION {
      IF PhysicalWrong(D, O) THEN {"F06.physical"} ELSE {},
      {kind \in {"F09.label", "F09.reference", "F09.footnote"} :
          AnnosWrong(O, SubSeq(kind, 5, Len(kind)))}} ELSE {},
   IF "chars" \in W THEN UNION {
      IF CharsWrong(O) THEN {"F18.characteristics"} ELSE {}, IF TextsWrong(O) THEN {"F18.texts"} ELSE {}, IF HomeWrong(O) THEN {"F18.aspect"} ELSE {},
      IF EqualWrong(O) THEN {"F18.equal"} ELSE {}, IF UnequalWrong(O) THEN {"F18.equality"} ELSE {}, IF PeriodsWrong(O) THEN {"F18.periods"} ELSE {},
      IF TypedWrong(O) THEN {"F18.typed"} ELSE {}} ELSE {},
   IF "errors" \in W THEN UNION {
      IF ErrorsMissing(O) THEN {"F16.missing"} ELSE {}, IF ErrorsExtra(O) THEN {"F16.extra"} ELSE {}} ELSE {}}
=============================================================================
