------------------------------- MODULE MCPrint --------------------------------
(* Every forest of up to SIZE nodes and every table of up to two facts is     *)
(* printed: what was printed has to determine what was given.                 *)
EXTENDS Print, Json, IOUtils

Size == atoi(IOEnv.SIZE)
VARIABLES par,    \* the parent of each node, nodes in pre-order (0: a root)
          lines,  \* the lines printed
          facts, mode
vars == <<par, lines, facts, mode, todo, shown>>

RECURSIVE AncestorsOf(_)
AncestorsOf(i) == IF i = 0 THEN {0} ELSE {i} \cup AncestorsOf(par[i])
RECURSIVE Tree(_, _)
Tree(p, i) == [n |-> i, k |-> LET ks == SelectSeq([j \in 1..Len(p) |-> j], LAMBDA j : p[j] = i) IN [j \in DOMAIN ks |-> Tree(p, ks[j])]]
Forest(p) == Tree(p, 0).k

Aspects == {"a", "b"}
Cells == UNION {[S -> {"1", "2"}] : S \in SUBSET Aspects}
Facts0 == [id : {NONE, "x"}, value : {"1", "2"}, cells : Cells]

Init == par = <<>> /\ lines = <<>> /\ mode = "grow" /\ todo = <<>> /\ shown = <<>>
        /\ facts \in {<<>>} \cup {<<f>> : f \in Facts0} \cup {<<f, g>> : f \in Facts0, g \in Facts0}
Grow == /\ mode = "grow" /\ facts = <<>> /\ Len(par) < Size
        /\ \E p \in AncestorsOf(Len(par)) : par' = Append(par, p)
        /\ UNCHANGED <<lines, facts, mode, todo, shown>>
Begin == /\ mode = "grow" /\ facts = <<>> /\ mode' = "print" /\ todo' = Rooted(Forest(par))
         /\ UNCHANGED <<par, lines, facts, shown>>
Go == mode = "print" /\ PrintNext /\ lines' = Append(lines, shown') /\ UNCHANGED <<par, facts, mode>>
Next == Grow \/ Begin \/ Go
Spec == Init /\ [][Next]_vars

Done == mode = "print" /\ todo = <<>>
PreOrder == \A n \in DOMAIN lines : lines[n].node.n = n
EachOnce == Done => Len(lines) = Len(par)
\* the parents of the lines are those of the nodes
ReadBack == \A n \in DOMAIN lines : Parent(lines, n) = par[n]
\* a corner ends a line of siblings
Corners == Done => \A n \in DOMAIN lines : lines[n].last = ~\E m \in DOMAIN par : m > n /\ par[m] = par[n]
\* a bar joins two lines of siblings: below it there is one more line at its depth and none less deep in between
Bars == Done => \A n \in DOMAIN lines : \A d \in DOMAIN lines[n].bars :
          LET stop == {m \in (n + 1)..Len(lines) : Len(lines[m].bars) <= d - 1}
          IN lines[n].bars[d] = (stop # {} /\ Len(lines[CHOOSE m \in stop : \A k \in stop : m <= k].bars) = d - 1)
\* the rows that show the facts: the table determines the facts, up to their order
RowOf(f, cols) == [c \in cols |-> IF c = "id" THEN (IF f.id = NONE THEN "None" ELSE f.id) ELSE IF c = "value" THEN f.value
                                  ELSE IF c \in DOMAIN f.cells THEN f.cells[c] ELSE "None"]
RowsOf(fs) == [n \in DOMAIN fs |-> RowOf(fs[n], Columns(fs))]
TableOk == facts # <<>> => TableShows(SetToSeq(Columns(facts)), RowsOf(facts), facts)
\* the table of other facts does not show these
TableDetermines == Len(facts) = 2 => \A g \in Facts0 :
   (g # facts[1] /\ g # facts[2] /\ Columns(<<facts[1], g>>) = Columns(facts))
     => ~TableShows(SetToSeq(Columns(facts)), RowsOf(<<facts[1], g>>), facts)
Emit == IF Done /\ par # <<>> THEN PrintT("FOREST " \o ToJson([par |-> par])) ELSE TRUE
===============================================================================
