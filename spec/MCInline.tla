------------------------------- MODULE MCInline -------------------------------
(* Writes every small arrangement of a fact in three pieces, another fact, an *)
(* exclusion and some markup on up to two pages, with a different letter at   *)
(* every place, then reads it with the pages in any order and checks by the   *)
(* positions of the letters what each part got.                               *)
EXTENDS Inline

Most == NatOf(IOEnv.SIZE)      \* how many parts are put on the pages

P(k) == [k |-> k, id |-> NONE, tag |-> NONE, name |-> NONE, ctx |-> NONE, unit |-> NONE, fmt |-> NONE, scale |-> NONE, sign |-> NONE, nil |-> NONE,
         cont |-> NONE, esc |-> NONE, dec |-> NONE, prec |-> NONE, role |-> NONE, lang |-> NONE, title |-> NONE, C |-> <<>>, U |-> <<>>, R |-> <<>>]
Fact1(id, cont, esc) == [P("nonNumeric") EXCEPT !.id = id, !.name = "{http://ex.com/a}Txt", !.ctx = "c", !.cont = cont, !.esc = esc]
Parts == <<Fact1("A", "k1", NONE),
           [P("continuation") EXCEPT !.id = "k1", !.cont = "k2"],
           [P("continuation") EXCEPT !.id = "k2"],
           P("exclude"),
           [P("markup") EXCEPT !.tag = "b"],
           Fact1("B", NONE, "true")>>
ChainParts == {1, 2, 3}
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p">>

VARIABLES pages, nest, used, writing
vars == <<pages, nest, used, writing, opening, reading>>
D == [elements |-> <<>>, parts |-> Parts, pages |-> pages]
Open(i) == [t |-> "open", i |-> i, s |-> ""]
Close == [t |-> "close", i |-> 0, s |-> ""]
Text(s) == [t |-> "text", i |-> 0, s |-> s]
Size == LET n[j \in 0..Len(pages)] == IF j = 0 THEN 0 ELSE n[j - 1] + Len(pages[j]) IN n[Len(pages)]
NextLetter == Text(Letters[Cardinality(UNION {{<<j, n>> : n \in {n \in DOMAIN pages[j] : pages[j][n].t = "text"}} : j \in DOMAIN pages}) + 1])

Init ==
  /\ pages = <<<<Text("a")>>>> /\ nest = <<>> /\ used = {} /\ writing = TRUE
  /\ unread = {} /\ page = 0 /\ pos = 1 /\ stack = <<>> /\ text = <<>> /\ mark = <<>> /\ seen = {} /\ nests = {} /\ within = {} /\ mode = "read"
  /\ phase = "waiting" /\ todo = {} /\ elems = {} /\ facts = {} /\ nets = {} /\ annos = {} /\ comps = {} /\ errs = {} /\ mayerrs = {}
Put(toks) == pages' = [pages EXCEPT ![Len(pages)] = @ \o toks]
Write ==
  /\ writing
  /\ \/ \E i \in DOMAIN Parts \ used :
          /\ Cardinality(used) < Most
          /\ i \in ChainParts => ~(\E n \in DOMAIN nest : nest[n] \in ChainParts)   \* a piece does not hold another of its chain
          /\ i # 4 \/ \E n \in DOMAIN nest : nest[n] # 5
          /\ Put(<<Open(i), NextLetter>>) /\ nest' = Append(nest, i) /\ used' = used \cup {i}
     \/ nest # <<>> /\ Put(<<Close, NextLetter>>) /\ nest' = SubSeq(nest, 1, Len(nest) - 1) /\ used' = used
     \/ nest = <<>> /\ used # {} /\ Len(pages) < 2 /\ Cardinality(used) < Most /\ pages' = Append(pages, <<NextLetter>>) /\ UNCHANGED <<nest, used>>
  /\ UNCHANGED <<writing, opening, reading>>
Finish ==
  /\ writing /\ nest = <<>> /\ 1 \in used
  /\ writing' = FALSE
  /\ unread' = DOMAIN pages /\ page' = 0 /\ pos' = 1 /\ stack' = <<>>
  /\ text' = [i \in DOMAIN Parts |-> ""] /\ mark' = [i \in DOMAIN Parts |-> ""] /\ seen' = {} /\ nests' = {} /\ within' = {} /\ mode' = "read"
  /\ UNCHANGED <<pages, nest, used, opening>>
Read ==
  /\ ~writing
  /\ (\E p \in unread : BeginPage(D, p)) \/ ReadToken(D) \/ EndPage(D)
  /\ UNCHANGED <<pages, nest, used, writing, opening>>
Next == Write \/ Finish \/ Read
Spec == Init /\ [][Next]_vars
Done == ~writing /\ unread = {} /\ page = 0

---------------------------------------------------------------------------
\* where things stand
PageOf(i) == CHOOSE p \in DOMAIN pages : \E n \in DOMAIN pages[p] : pages[p][n] = Open(i)
OpenAt(i) == CHOOSE n \in DOMAIN pages[PageOf(i)] : pages[PageOf(i)][n] = Open(i)
Depth(p, n) == Cardinality({k \in 1..n : pages[p][k].t = "open"}) - Cardinality({k \in 1..n : pages[p][k].t = "close"})
CloseAt(i) ==
  LET p == PageOf(i) d == Depth(p, OpenAt(i)) IN
  CHOOSE n \in (OpenAt(i) + 1)..Len(pages[p]) : Depth(p, n) < d /\ \A m \in OpenAt(i)..(n - 1) : Depth(p, m) >= d
Within(p, n, i) == i \in used /\ PageOf(i) = p /\ OpenAt(i) < n /\ n < CloseAt(i)
\* a letter belongs to the parts around it, but not through an exclusion
Belongs(p, n, i) == Within(p, n, i) /\ \A e \in used : Parts[e].k = "exclude" /\ Within(p, n, e) => ~Within(p, OpenAt(e), i)
RECURSIVE LettersOf(_, _, _)
LettersOf(p, n, i) ==
  IF n > Len(pages[p]) THEN "" ELSE (IF pages[p][n].t = "text" /\ Belongs(p, n, i) THEN pages[p][n].s ELSE "") \o LettersOf(p, n + 1, i)
Declared(i) == IF i \in used THEN LettersOf(PageOf(i), 1, i) ELSE ""
IsText(i) == Parts[i].k \in TextParts

\* every part gets exactly the letters inside it, whatever the order of the pages
TextsAreDeclared == Done => \A i \in DOMAIN Parts : text[i] = IF IsText(i) THEN Declared(i) ELSE ""
\* the whole text is that of the pieces in chain order
ChainOrder == Done => WholeText(D, 1) = Declared(1) \o (IF 2 \in used THEN Declared(2) \o (IF 3 \in used THEN Declared(3) ELSE "") ELSE "")
\* no letter is in two pieces of a chain
LetterSet(s) == {Ch(s, n) : n \in 1..Len(s)}
Disjoint == Done => \A i, j \in ChainParts : i # j => LetterSet(text[i]) \cap LetterSet(text[j]) = {}
\* with the markup taken out, the marked text is the text
RECURSIVE Bare(_)
Bare(s) == IF s = "" THEN "" ELSE IF StartsWith(s, "{b}") THEN Bare(SubSeq(s, 4, Len(s))) ELSE IF StartsWith(s, "{/}") THEN Bare(SubSeq(s, 4, Len(s)))
           ELSE Ch(s, 1) \o Bare(SubSeq(s, 2, Len(s)))
MarkIsText == Done => \A i \in DOMAIN Parts : Bare(mark[i]) = text[i]
\* exactly the chains that do not join up are faulty
Faults == Done => (Faulty(D, UnsettledIds(D)) \cap {"dangling", "unused"} = {}
                   <=> (2 \in used /\ 3 \in used))
Emit == IF ~Done \/ seen # used \/ stack # <<>> THEN TRUE ELSE PrintT("DOC " \o ToJson([pages |-> pages]))
\* reading always ends: every page is read and closed
Nested == ~writing => \A n \in DOMAIN stack : stack[n] \in seen
=============================================================================
