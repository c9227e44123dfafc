-------------------------------- MODULE Dts --------------------------------
(***************************************************************************)
(* Which documents a filing consists of, and where they come from.         *)
(*                                                                         *)
(* A world W has documents (at addresses on the local disk, written        *)
(* relative to some root, or remote), each in one or more versions with    *)
(* the references written in it, and filings (a file, a folder or archive  *)
(* perhaps with a catalog, a URL).  The machine keeps what is on the disk, *)
(* what the servers serve and what was downloaded, and opens filings by    *)
(* visiting referenced documents in any order.                             *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils

VARIABLES
  disk,      \* local address -> version there now (0: none)
  served,    \* remote address -> version served now (0: unavailable)
  cache,     \* remote address -> version downloaded (0: none)
  current,   \* the filing being opened, 0 if none
  frontier,  \* addresses still to visit
  loaded,    \* the documents read in this opening: records [u, v]
  asked,     \* addresses requested from servers in this opening, in order
  lost       \* addresses that turned out to be unavailable in this opening
world == <<disk, served, cache>>
session == <<current, frontier, loaded, asked, lost>>

---------------------------------------------------------------------------
(* Addresses *)
IsRemote(u) == StartsWith(u, "http://") \/ StartsWith(u, "https://")
FirstAt(s, c, from) == LET at == {i \in from..Len(s) : Ch(s, i) = c} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
RECURSIVE Split(_)
Split(s) == LET n == FirstAt(s, "/", 1) IN IF n = 0 THEN <<s>> ELSE <<SubSeq(s, 1, n - 1)>> \o Split(SubSeq(s, n + 1, Len(s)))
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))
RECURSIVE Fold(_, _)
Fold(done, rest) ==
  IF rest = <<>> THEN done
  ELSE CASE Head(rest) \in {"", "."} -> Fold(done, Tail(rest))
         [] Head(rest) = ".." -> Fold(IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1), Tail(rest))
         [] OTHER -> Fold(Append(done, Head(rest)), Tail(rest))
Plain(path) == Join(Fold(<<>>, Split(path)))
Origin(u) == SubSeq(u, 1, FirstAt(u, "/", 9) - 1)             \* http://host
Folder(path) == LET p == Split(path) IN SubSeq(p, 1, Len(p) - 1)
WithoutQuery(u) == LET n == FirstAt(u, "?", 1) IN IF n = 0 THEN u ELSE SubSeq(u, 1, n - 1)
\* the address that a reference written in the document at base means
Resolve(base, ref) ==
  IF IsRemote(ref) THEN ref
  ELSE IF IsRemote(base)
       THEN LET o == Origin(base) path == SubSeq(WithoutQuery(base), Len(o) + 1, Len(WithoutQuery(base))) IN
            o \o "/" \o (IF StartsWith(ref, "/") THEN Plain(ref) ELSE Join(Fold(<<>>, Folder(path) \o Split(ref))))
       ELSE Join(Fold(<<>>, Folder(base) \o Split(ref)))
\* a catalog replaces the longest of the beginnings it lists; replacements are relative to the folder of the catalog
Rewrite(F, u) ==
  LET hits == {i \in DOMAIN F.catalog : StartsWith(u, F.catalog[i].from)} IN
  IF F.kind \notin {"folder", "zip"} \/ hits = {} THEN u
  ELSE LET r == F.catalog[CHOOSE i \in hits : \A j \in hits : Len(F.catalog[j].from) <= Len(F.catalog[i].from)]
           rest == SubSeq(u, Len(r.from) + 1, Len(u))
       IN IF IsRemote(r.to) THEN r.to \o rest ELSE Plain(F.path \o "/META-INF/" \o r.to \o rest)
Target(F, base, ref) == Rewrite(F, Resolve(base, ref))

---------------------------------------------------------------------------
(* Documents *)
Places(W) == {W.docs[i].u : i \in DOMAIN W.docs}
DocAt(W, u) == W.docs[CHOOSE i \in DOMAIN W.docs : W.docs[i].u = u]
\* what a folder or archive consists of: every document in it, however deep
Entries(W, F, there) ==
  IF F.kind \in {"folder", "zip"} THEN {u \in Places(W) : ~IsRemote(u) /\ StartsWith(u, F.path \o "/") /\ DocAt(W, u).kind # "other" /\ there[u] > 0}
  ELSE {F.path}
Targets(W, F, u, v) == LET refs == DocAt(W, u).versions[v].refs IN {Target(F, u, refs[i].r) : i \in {i \in DOMAIN refs : refs[i].r # ""}}

---------------------------------------------------------------------------
(* The machine *)
Read == {x.u : x \in loaded}
Begin(W, k) ==
  /\ current = 0
  /\ current' = k /\ frontier' = Entries(W, W.filings[k], disk) /\ loaded' = {} /\ asked' = <<>> /\ lost' = {}
  /\ UNCHANGED world
Take(W, u, v) ==
  /\ loaded' = loaded \cup {[u |-> u, v |-> v]}
  /\ frontier' = (frontier \cup Targets(W, W.filings[current], u, v)) \ (Read \cup lost \cup {u})
Known(f, u) == u \in DOMAIN f
Visit(W, u) ==
  /\ current # 0 /\ u \in frontier
  /\ IF ~IsRemote(u) THEN Take(W, u, disk[u]) /\ UNCHANGED <<asked, lost, cache>>
     ELSE IF Known(cache, u) /\ cache[u] > 0 THEN Take(W, u, cache[u]) /\ UNCHANGED <<asked, lost, cache>>
     ELSE /\ asked' = Append(asked, u)
          /\ IF Known(served, u) /\ served[u] > 0
             THEN Take(W, u, served[u]) /\ cache' = [cache EXCEPT ![u] = served[u]] /\ UNCHANGED lost
             ELSE lost' = lost \cup {u} /\ frontier' = frontier \ {u} /\ UNCHANGED <<loaded, cache>>
  /\ UNCHANGED <<disk, served, current>>
Edit(u, v) == current = 0 /\ ~IsRemote(u) /\ disk' = [disk EXCEPT ![u] = v] /\ UNCHANGED <<served, cache, session>>
Publish(u, v) == current = 0 /\ IsRemote(u) /\ served' = [served EXCEPT ![u] = v] /\ UNCHANGED <<disk, cache, session>>
End == current # 0 /\ frontier = {} /\ current' = 0 /\ UNCHANGED <<world, frontier, loaded, asked, lost>>

---------------------------------------------------------------------------
(* What must have been read, said without the machine: what was in the cache or is served, closed under references *)
Content(u, c, s, d) == IF ~IsRemote(u) THEN IF Known(d, u) THEN d[u] ELSE 0 ELSE IF Known(c, u) /\ c[u] > 0 THEN c[u] ELSE IF Known(s, u) THEN s[u] ELSE 0
RECURSIVE Closure(_, _, _, _, _, _)
Closure(W, F, S, c, s, d) ==
  LET T == S \cup UNION {LET v == Content(u, c, s, d) IN IF v = 0 THEN {} ELSE Targets(W, F, u, v) : u \in S}
  IN IF T = S THEN S ELSE Closure(W, F, T, c, s, d)

---------------------------------------------------------------------------
(* What the filing says: one mark per document *)
VersionOf(u) == (CHOOSE x \in loaded : x.u = u).v
MarksOf(W, x) ==
  LET d == DocAt(W, x.u) m == d.versions[x.v] IN
  CASE d.kind = "schema" -> <<m.mark, d.name>>
    [] d.kind \in {"linkbase", "instance", "page"} ->
         IF m.at \notin Read THEN <<>>
         ELSE <<m.mark \o "@" \o (IF d.kind = "linkbase" THEN DocAt(W, m.at).versions[VersionOf(m.at)].mark ELSE DocAt(W, m.at).name)>>
    [] OTHER -> <<>>
Marks(W) == FlatMap(LAMBDA x : MarksOf(W, x), SetToSeq(loaded))
\* what is wrong with the catalog, each by the code that reports it
Faults(F) == IF "faults" \in DOMAIN F THEN {CASE x = "root" -> "E-TXP-000" [] x \in {"nofrom", "noto"} -> "E-TXP-001" [] x = "twice" -> "E-TXP-002" : x \in Range(F.faults)} ELSE {}
Whole(W) == \A x \in loaded : LET d == DocAt(W, x.u) IN d.kind \notin {"linkbase", "instance", "page"} \/ d.versions[x.v].at \in Read \cup {NONE}

DtsClauses(W, obs) ==
  IF obs.crash # NONE THEN {"opened"} ELSE
  LET want == Marks(W) got == obs.marks
      okay == {asked[i] : i \in DOMAIN asked} \ lost
  IN  {"marks.missing" : x \in {x \in Range(want) : x \notin Range(got)}}
      \cup {"marks.extra" : x \in {x \in Range(got) : x \notin Range(want)}}
      \cup {"marks.twice" : x \in {x \in Range(got) : x \in Range(want) /\ Count(x, got) # Count(x, want)}}
      \cup {"asked.missing" : u \in Range(asked) \ Range(obs.asked)}
      \cup {"asked.extra" : u \in Range(obs.asked) \ Range(asked)}
      \cup {"asked.again" : u \in {u \in okay : Count(u, obs.asked) > 1}}
      \cup (IF lost # {} /\ "E-MSC-100" \notin Range(obs.errors) THEN {"errors.lost"} ELSE {})
      \cup {"errors.catalog" : x \in {x \in Faults(W.filings[current]) : ~\E e \in Range(obs.errors) : StartsWith(e, x)}}
      \cup (IF lost = {} /\ Whole(W) /\ Faults(W.filings[current]) = {} /\ obs.errors # <<>> THEN {"errors.clean"} ELSE {})
=============================================================================
