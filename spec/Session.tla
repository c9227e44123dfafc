------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Several filings in one process, and processes one after the other.      *)
(*                                                                         *)
(* A bundle is the content of a filing; it can be written down in several  *)
(* forms (other file names, other prefixes, other order of files).  The    *)
(* disk holds one form of one bundle per path.  Opening a path takes a     *)
(* snapshot; what an opened filing reports is decided by its snapshot and  *)
(* by nothing else: not by what the process opened before, not by what     *)
(* else is open or was dropped, not by what is at the path now.            *)
(*                                                                         *)
(* known is what has been reported so far: reports of one form of one      *)
(* bundle agree in everything, reports of different forms of one bundle    *)
(* agree up to the order in which things are listed.                       *)
(***************************************************************************)
EXTENDS Util

VARIABLES disk, held, known
session == <<disk, held, known>>

Thing(b, f) == [b |-> b, form |-> f]
Start(d) == disk = d /\ held = <<>> /\ known = {}

Write(p, b, f) == disk' = [disk EXCEPT ![p] = Thing(b, f)] /\ UNCHANGED <<held, known>>
\* handles are numbered in the order of opening; a dropped one is NONE
Dropped == Thing(0, 0)
Open(p) == held' = Append(held, disk[p]) /\ UNCHANGED <<disk, known>>
Drop(h) == held[h] # Dropped /\ held' = [held EXCEPT ![h] = Dropped] /\ UNCHANGED <<disk, known>>
Restart == held' = <<>> /\ UNCHANGED <<disk, known>>

Consistent(t, r, k) == \A x \in k : /\ x.b = t.b => x.bag = r.bag
                                    /\ x.b = t.b /\ x.form = t.form => x.exact = r.exact
Note(t, r) == [b |-> t.b, form |-> t.form, bag |-> r.bag, exact |-> r.exact]
Read(h, r) == /\ held[h] # Dropped
              /\ Consistent(held[h], r, known)
              /\ known' = known \cup {Note(held[h], r)}
              /\ UNCHANGED <<disk, held>>
=============================================================================
