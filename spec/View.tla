-------------------------------- MODULE View ---------------------------------
(***************************************************************************)
(* The ways to look at an item of a filing.                                *)
(*                                                                         *)
(* An item is what its plain accessors report.  Everything else that can   *)
(* be asked of it (its dictionary, its text, its iteration, lookups, its   *)
(* descendants, its main label, ...) is a view, and Answer gives what the  *)
(* view has to say about the item.  Looking changes nothing.               *)
(***************************************************************************)
EXTENDS Util, Character

VARIABLES item,    \* the item looked at
          asked,   \* the view last asked for
          answer   \* what it said

Has(s, p(_)) == \E i \in DOMAIN s : p(s[i])
Entry(k, v) == [n \in {k} |-> v]

\* ---- labels: the main label is the first of the earliest kind of English there is one in, else the first ----
English == <<"en", "en-US", "en-GB", "EN", "EN-US", "EN-GB">>
MainLabel(labels) ==
  LET In(l) == Keep(labels, LAMBDA x : x.lang = l)
      have == {i \in DOMAIN English : In(English[i]) # <<>>} IN
  IF labels = <<>> THEN "NO_LABEL"
  ELSE IF have = {} THEN labels[1].text
  ELSE In(English[CHOOSE i \in have : \A j \in have : i <= j])[1].text

\* ---- elements ----
KindName(k) == CASE k = "Concept" -> "concept" [] k = "Abstract" -> "abstract" [] k = "LineItems" -> "line item"
                 [] k = "Hypercube" -> "hypercube" [] k = "Dimension" -> "dimension" [] OTHER -> "member"
ElementDict(x) ==
  Entry("name", x.name) @@ Entry("label", MainLabel(x.labels)) @@ Entry("report-element-type", KindName(x.kind))
  @@ (CASE x.kind = "Concept" -> Entry("period-type", x.period) @@ Entry("balance-type", x.balance) @@ Entry("nillable", x.nillable) @@ Entry("data-type", x.type)
        [] x.kind = "Dimension" -> Entry("is-explicit", IF x.dimtype = NONE THEN "true" ELSE "false") @@ Entry("dimension-type", x.dimtype)
        [] OTHER -> <<>>)
RECURSIVE LocalOf(_)
LocalOf(t) == IF ~Contains(t, ":") THEN t ELSE LocalOf(SubSeq(t, 2, Len(t)))

\* ---- facts ----
FactDict(x) ==
  LET names == {x.aspects[i].name : i \in DOMAIN x.aspects}
      At(n) == x.aspects[CHOOSE i \in DOMAIN x.aspects : x.aspects[i].name = n].value
  IN Entry("id", IF x.id = NONE THEN "" ELSE x.id) @@ Entry("value", x.value) @@ [n \in names |-> At(n)]
AspectOf(x, n) == LET S == {i \in DOMAIN x.aspects : x.aspects[i].name = n} IN IF S = {} THEN NONE ELSE x.aspects[CHOOSE i \in S : TRUE].value

\* ---- networks ----
RECURSIVE NodeDict(_), Below(_), Nodes(_)
NodeDict(n) == [points_to |-> n.to, arc_role |-> n.ar, arc_name |-> n.an, link_role |-> n.lr, link_name |-> n.ln, order |-> n.o, children |-> Map(NodeDict, n.k)]
\* all that is below a node, in pre-order
Below(n) == FlatMap(LAMBDA c : <<c.id>> \o Below(c), n.k)
Nodes(n) == <<n>> \o FlatMap(Nodes, n.k)
NetNodes(x) == FlatMap(Nodes, x.roots)
NetDict(x) == [roots |-> Map(NodeDict, x.roots), link_role |-> x.lr, link_name |-> x.ln, is_physical |-> IF x.physical THEN "true" ELSE "false"]
Holds(to) == [t \in {"report element", "resource", "fact"} |-> IF t = to THEN t ELSE "~refused"]

ComponentDict(x) ==
  LET B(b) == IF b THEN "true" ELSE "false" IN
  Entry("network-identifier", x.uri) @@ Entry("info", x.info) @@ Entry("presentation-network", B(x.pre)) @@ Entry("calculation-network", B(x.cal))
  @@ Entry("definition-network", B(x.def))

\* ---- what view v of item x (of kind k) has to say; a says what it said ----
Fits(k, x, v, a) ==
  CASE v = "main" -> a = MainLabel(x.labels)
    [] v = "langs" -> \A i \in DOMAIN a : a[i].a = Has(x.labels, LAMBDA l : l.lang = a[i].q)
    [] v = "roles" -> \A i \in DOMAIN a : a[i].a = Has(x.labels, LAMBDA l : l.role = a[i].q)
    [] k = "element" ->
         (CASE v = "text" -> a = x.name
            [] v = "dict" -> a = ElementDict(x)
            [] v = "explicit" -> a = (x.dimtype = NONE)
            [] v = "class" -> LET c == ClassOf(LocalOf(x.type)) IN
                 /\ a.numeric = (c \in {"int", "float", "decimal"}) /\ a.integer = (c = "int") /\ a.boolean = (c = "bool")
                 /\ a.textual => c \in {"str", "bool"})
    [] k = "name" ->
         (CASE v = "clark" -> a = "{" \o x.uri \o "}" \o x.local
            [] OTHER -> a = x.prefix \o ":" \o x.local)
    [] k = "fact" ->
         (CASE v \in {"dict", "items"} -> a = FactDict(x)
            [] v = "text" -> a = x.value
            [] v = "ways" -> \A n \in DOMAIN a : \A i \in DOMAIN a[n] : a[n][i] = AspectOf(x, n)
            [] v = "probes" -> \A i \in DOMAIN a : LET y == AspectOf(x, a[i].q) h == Has(x.aspects, LAMBDA b : b.name = a[i].q) IN
                 a[i].has = h /\ a[i].value = y /\ a[i].text = (IF h THEN y ELSE "")
            [] v = "core" -> \A i \in DOMAIN a : a[i] = ~Has(x.aspects, LAMBDA b : ~b.core)
            [] v = "listed" -> \A i \in DOMAIN a : a[i] = Map(LAMBDA b : b.name, x.aspects) /\ NoDup(a[i])
            [] v = "reads" -> \A i \in DOMAIN a : a[i][1] = a[i][2])
    [] k = "aspect" ->
         (CASE v = "text" -> a = x.name
            [] v = "core" -> a = (x.name \in {"concept", "period", "entity", "unit"})
            [] v = "same" -> \A i \in DOMAIN a : a[i].a = (a[i].q = x.name) /\ a[i].b = a[i].a /\ (a[i].a => a[i].h))
    [] k = "unit" ->
         (CASE v = "simple" -> a = (x.num = 1 /\ x.den = 0)
            [] OTHER -> a = x.name)
    [] k = "network" ->
         (CASE v = "dict" -> a = NetDict(x)
            [] v = "nodes" -> NoDup(a) /\ Range(a) = {n.id : n \in Range(NetNodes(x))}   \* a node may stand in several places
            [] v = "root" -> x.roots = <<>> \/ a = (IF Len(x.roots) = 1 THEN ToString(x.roots[1].id) ELSE "~refused")
            [] v = "arcname" -> IF x.roots = <<>> THEN a = "None" ELSE \E i \in DOMAIN x.roots : a = x.roots[i].an
            [] v = "arcroles" -> NoDup(a) /\ Range(a) = {n.ar : n \in Range(NetNodes(x))}
            [] v = "below" -> /\ Len(a) = Len(NetNodes(x))
                              /\ \A n \in Range(NetNodes(x)) : \E i \in DOMAIN a :
                                   /\ a[i].id = n.id /\ a[i].leaf = (n.k = <<>>)
                                   /\ NoDup(a[i].all) /\ Range(a[i].all) \in {Range(Below(n)), {n.id} \cup Range(Below(n))}
                                   /\ a[i].holds = Holds(n.to)
                                   /\ ~StartsWith(a[i].text, "~"))
    [] k = "component" ->
         (CASE v = "dict" -> a = ComponentDict(x)
            [] v = "has" -> a = <<x.pre, x.cal, x.def>>
            [] v = "networks" -> a = (IF x.pre THEN <<"PresentationNetwork">> ELSE <<>>) \o (IF x.cal THEN <<"CalculationNetwork">> ELSE <<>>)
                                     \o (IF x.def THEN <<"DefinitionNetwork">> ELSE <<>>)
            [] v = "text" -> Contains(a, x.uri))
    [] k = "resource" ->
         (CASE v = "text" -> IF x.kind = "reference" THEN ~StartsWith(a, "~") ELSE a = x.words
            [] v = "role" -> a = x.role
            [] v = "title" -> a = NONE
            [] v = "dict" -> IF x.kind = "label" THEN a = [text |-> x.words, language |-> x.lang, label_role |-> x.role]
                             ELSE a = [role |-> x.role, label |-> x.label, content |-> x.content])
    [] k = "error" ->
         LET full == x.severity \o "-" \o x.area \o "-" \o x.code \o (IF x.xbrl = NONE THEN "" ELSE " [" \o x.xbrl \o "]") IN
         /\ a = IF v = "full" THEN full ELSE full \o ": " \o x.message
         /\ x.message # "" /\ Len(x.code) = 3

Look(it) == item' = it /\ asked' = "nothing" /\ answer' = "nothing"
Ask(v) == asked' = v /\ answer' = item.views[v] /\ Fits(item.is, item.x, v, answer') /\ UNCHANGED item
===============================================================================
