-------------------------------- MODULE Print ---------------------------------
(***************************************************************************)
(* What printing shows.                                                    *)
(*                                                                         *)
(* A printer is given items: headings, which say something, and trees.  It *)
(* prints a tree in pre-order, one line per node; a line carries one bar   *)
(* per ancestor below the root level that has siblings still to come, and  *)
(* a corner (last among its siblings) or a tee.  Facts are printed as a    *)
(* table: one row per fact, one column per aspect of any of them.          *)
(***************************************************************************)
EXTENDS Util

VARIABLES todo,   \* what is still to be printed, next first
          shown   \* the last thing printed

\* ---- trees ----
Rooted(trees) == [i \in DOMAIN trees |-> [t |-> "node", node |-> trees[i], bars |-> <<>>, last |-> i = Len(trees)]]
Below(x) == [i \in DOMAIN x.node.k |-> [t |-> "node", node |-> x.node.k[i], bars |-> Append(x.bars, ~x.last), last |-> i = Len(x.node.k)]]
\* an item as it is given: a heading or the trees of a network
Given(item) == IF item.t = "head" THEN <<item>> ELSE Rooted(item.trees)
PrintNext ==
  /\ todo # <<>>
  /\ shown' = Head(todo)
  /\ todo' = IF Head(todo).t = "head" THEN Tail(todo) ELSE Below(Head(todo)) \o Tail(todo)

\* a printed line l shows x
Says(text, needles) == \A n \in DOMAIN needles : Contains(text, needles[n])
Shows(l, x) ==
  /\ l.t = x.t
  /\ IF x.t = "head" THEN Says(l.text, x.says)
     ELSE l.bars = x.bars /\ l.last = x.last /\ Says(l.text, x.node.says) /\ l.w = x.node.w

\* how a reader finds the parent of line n: the last line above that is one level less deep
Parent(lines, n) ==
  LET above == {m \in 1..(n - 1) : Len(lines[m].bars) = Len(lines[n].bars) - 1}
  IN IF above = {} THEN 0 ELSE CHOOSE m \in above : \A k \in above : k <= m

\* ---- tables of facts: a fact is [id, value, cells: aspect -> text] ----
Blank == {"None", "", NONE}
Columns(facts) == {"id", "value"} \cup UNION {DOMAIN facts[i].cells : i \in DOMAIN facts}
IsRow(row, f) ==
  /\ row["value"] = f.value
  /\ row["id"] = f.id \/ (f.id \in Blank /\ row["id"] \in Blank)
  /\ \A c \in DOMAIN row \ {"id", "value"} : IF c \in DOMAIN f.cells THEN row[c] = f.cells[c] ELSE row[c] \in Blank
TableShows(columns, rows, facts) ==
  /\ NoDup(columns) /\ Range(columns) = Columns(facts)
  /\ Len(rows) = Len(facts)
  /\ \A n \in DOMAIN facts : Cardinality({m \in DOMAIN rows : IsRow(rows[m], facts[n])}) = Cardinality({m \in DOMAIN facts : facts[m] = facts[n]})
===============================================================================
