------------------------------- MODULE MCView ---------------------------------
(* Every small element, fact and network, with every view of it: a view says    *)
(* what the item holds, and an item of other content would have other views.    *)
EXTENDS View, Json, IOUtils

Size == atoi(IOEnv.SIZE)
Langs == {"en", "en-GB", "EN", "de"}
Label(l, n) == [text |-> l \o "." \o n, lang |-> l, role |-> "r"]
LabelSeqs == {<<>>} \cup {<<Label(l, "1")>> : l \in Langs} \cup {<<Label(l, "1"), Label(m, "2")>> : l \in Langs, m \in Langs}
             \cup {<<Label(l, "1"), Label(m, "2"), Label(k, "3")>> : l \in Langs, m \in Langs, k \in Langs}
Elements == {[is |-> "element", x |-> [name |-> "p:E", kind |-> k, period |-> NONE, balance |-> NONE, nillable |-> NONE, type |-> NONE, dimtype |-> t, labels |-> ls]] :
              k \in {"Member", "Dimension"}, t \in {NONE, "p:T"}, ls \in LabelSeqs}
Asp(n, v) == [name |-> n, core |-> n # "p:D", value |-> v]
\* the aspects of a fact in the order they are listed in
Cells == {c \in [{"concept", "p:D", "period", "unit"} -> {NONE, "1", "2"}] : c["concept"] # NONE}
Listed(c) == SelectSeq(<<Asp("concept", c["concept"]), Asp("p:D", c["p:D"]), Asp("period", c["period"]), Asp("unit", c["unit"])>>, LAMBDA a : a.value # NONE)
Facts == {[is |-> "fact", x |-> [id |-> i, value |-> v, aspects |-> Listed(c)]] : i \in {NONE, "f"}, v \in {"1", "x"}, c \in Cells}
\* forests: the parent of each node, nodes in pre-order (0: a root)
RECURSIVE Up(_, _), Forests(_), Tree(_, _)
Up(p, i) == IF i = 0 THEN {0} ELSE {i} \cup Up(p, p[i])
Forests(n) == IF n = 0 THEN {<<>>} ELSE UNION {{Append(p, q) : q \in Up(p, Len(p))} : p \in Forests(n - 1)}
Tree(p, i) == [id |-> i, to |-> "report element", ar |-> "a", an |-> "l:a", lr |-> "r", ln |-> "l:l", o |-> i, k |-> LET ks == SelectSeq([j \in 1..Len(p) |-> j], LAMBDA j : p[j] = i) IN [j \in DOMAIN ks |-> Tree(p, ks[j])]]
Networks == {[is |-> "network", par |-> p, x |-> [roots |-> Tree(p, 0).k, lr |-> "r", ln |-> "l:l", physical |-> TRUE]] : p \in UNION {Forests(n) : n \in 0..Size}}

Init == item \in Elements \cup Facts \cup Networks /\ asked = "nothing" /\ answer = "nothing"
\* the answers of a library that does everything right
Said(v) == CASE v = "main" -> MainLabel(item.x.labels)
             [] v = "dict" -> (CASE item.is = "element" -> ElementDict(item.x) [] item.is = "fact" -> FactDict(item.x) [] OTHER -> NetDict(item.x))
             [] v = "nodes" -> Map(LAMBDA n : n.id, NetNodes(item.x))
Views == CASE item.is = "element" -> {"main", "dict"} [] item.is = "fact" -> {"dict"} [] OTHER -> {"nodes", "dict"}
Next == \E v \in Views : asked = "nothing" /\ asked' = v /\ answer' = Said(v) /\ Fits(item.is, item.x, v, answer') /\ UNCHANGED item
Spec == Init /\ [][Next]_<<item, asked, answer>>

\* the main label is one of the labels; English wins, and of one language the first
MainIsOne == asked = "main" /\ item.x.labels # <<>> => \E i \in DOMAIN item.x.labels :
  /\ item.x.labels[i].text = answer
  /\ \A j \in DOMAIN item.x.labels : j < i => item.x.labels[j].lang # item.x.labels[i].lang
  /\ item.x.labels[i].lang = "de" => i = 1 /\ \A j \in DOMAIN item.x.labels : item.x.labels[j].lang = "de"
  /\ item.x.labels[i].lang # "en" => \A j \in DOMAIN item.x.labels : item.x.labels[j].lang # "en"
\* a fact's dictionary determines it, but for an id that is empty
DictDetermines == item.is = "fact" /\ asked = "dict" =>
  /\ Cardinality(DOMAIN answer) = Len(item.x.aspects) + 2
  /\ \A g \in Facts : FactDict(g.x) = answer => g = item
\* a network's dictionary holds each of its nodes once, at its place
RECURSIVE InDict(_), OfDict(_)
InDict(d) == FlatMap(LAMBDA c : <<c.order>> \o InDict(c), d.children)
OfDict(p) == FlatMap(LAMBDA c : <<c.order>> \o InDict(c), p.roots)
DictHoldsAll == item.is = "network" /\ asked = "dict" => OfDict(answer) = [n \in 1..Len(item.par) |-> n]
NodesOnce == asked = "nodes" => answer = [n \in 1..Len(item.par) |-> n]
\* what is below a node: its children and what is below them
BelowIsSubtree == item.is = "network" => \A n \in Range(NetNodes(item.x)) :
  Range(Below(n)) = {m \in DOMAIN item.par : m # n.id /\ n.id \in Up(item.par, m)}
Emit == asked # "nothing" \/ (CASE item.is = "network" -> PrintT("VIEW " \o ToJson([is |-> "network", par |-> item.par]))
                                [] item.is = "element" -> (IF item.x.kind = "Member" /\ item.x.dimtype = NONE THEN PrintT("VIEW " \o ToJson([is |-> "element", labels |-> item.x.labels])) ELSE TRUE)
                                [] OTHER -> TRUE)
===============================================================================
