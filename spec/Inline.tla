-------------------------------- MODULE Inline --------------------------------
(***************************************************************************)
(* What opening an inline filing means.                                    *)
(*                                                                         *)
(* An inline document D has report elements, numbered parts (facts,        *)
(* continuations, exclusions, footnotes, resource sections, markup) and    *)
(* pages: sequences of tokens that open part i, close the innermost part   *)
(* or hold text.  A reader goes through each page token by token; pages    *)
(* may be read in any order.  Text belongs to every part that is open      *)
(* around it with no exclusion in between.  When all pages are read, the   *)
(* chains of continuations are joined, texts get their meaning (Numbers,   *)
(* Dates), and what results is a document of Filing.tla, whose machine     *)
(* then runs on it: an inline filing means what its XML equivalent means.  *)
(***************************************************************************)
EXTENDS FilingJudge, Numbers, Dates

VARIABLES
  unread,  \* pages not begun
  page,    \* the page being read (0: none)
  pos,     \* the next token on it
  stack,   \* the parts open at this point, outermost first
  text,    \* part -> text it holds so far
  mark,    \* part -> the same with the markup in it
  seen,    \* parts opened so far
  nests,   \* numbers inside which another part was opened
  within,  \* <<outer, inner>> text parts that stand in one another
  mode     \* "read", "open" (the Filing machine runs), "judged"

reading == <<unread, page, pos, stack, text, mark, seen, nests, within, mode>>

Facts == {"nonNumeric", "nonFraction"}
TextParts == Facts \cup {"continuation", "footnote"}

StartReading(D) ==
  /\ unread = DOMAIN D.pages /\ page = 0 /\ pos = 1 /\ stack = <<>>
  /\ text = [i \in DOMAIN D.parts |-> ""] /\ mark = [i \in DOMAIN D.parts |-> ""]
  /\ seen = {} /\ nests = {} /\ within = {} /\ mode = "read"

\* the parts whose text a token at this point belongs to
Hidden(D, n) == \E j \in (n + 1)..Len(stack) : D.parts[stack[j]].k = "exclude"
Around(D) == {stack[n] : n \in {n \in DOMAIN stack : D.parts[stack[n]].k \in TextParts /\ ~Hidden(D, n)}}
Append1(D, f, s) == [i \in DOMAIN f |-> IF i \in Around(D) THEN f[i] \o s ELSE f[i]]

BeginPage(D, p) ==
  /\ mode = "read" /\ page = 0 /\ p \in unread
  /\ page' = p /\ pos' = 1 /\ unread' = unread \ {p}
  /\ UNCHANGED <<stack, text, mark, seen, nests, within, mode>>
EndPage(D) ==
  /\ mode = "read" /\ page # 0 /\ pos > Len(D.pages[page])
  /\ page' = 0 /\ UNCHANGED <<unread, pos, stack, text, mark, seen, nests, within, mode>>
ReadToken(D) ==
  /\ mode = "read" /\ page # 0 /\ pos <= Len(D.pages[page])
  /\ LET t == D.pages[page][pos] IN
     CASE t.t = "open" ->
            /\ stack' = Append(stack, t.i) /\ seen' = seen \cup {t.i} /\ text' = text
            /\ nests' = IF stack # <<>> /\ D.parts[stack[Len(stack)]].k = "nonFraction" THEN nests \cup {stack[Len(stack)]} ELSE nests
            /\ within' = within \cup {<<i, t.i>> : i \in {i \in Range(stack) : {D.parts[i].k, D.parts[t.i].k} \subseteq TextParts}}
            /\ mark' = IF D.parts[t.i].k = "markup" THEN Append1(D, mark, "{" \o D.parts[t.i].tag \o "}") ELSE mark
       [] t.t = "close" ->
            LET i == stack[Len(stack)] IN
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ seen' = seen /\ nests' = nests /\ within' = within /\ text' = text
            /\ mark' = IF D.parts[i].k = "markup" THEN Append1(D, mark, "{/}") ELSE mark
       [] OTHER ->
            /\ text' = Append1(D, text, t.s) /\ mark' = Append1(D, mark, t.s)
            /\ UNCHANGED <<stack, seen, nests, within>>
  /\ pos' = pos + 1
  /\ UNCHANGED <<unread, page, mode>>

---------------------------------------------------------------------------
(* Joining what was read *)

SeenOf(D, ks) == {i \in seen : D.parts[i].k \in ks}
ContinuationNamed(D, id) == {i \in SeenOf(D, {"continuation"}) : D.parts[i].id = id}
RECURSIVE ChainFrom(_, _, _)
ChainFrom(D, i, before) ==
  LET next == IF D.parts[i].cont = NONE THEN {} ELSE ContinuationNamed(D, D.parts[i].cont) \ before
  IN IF next = {} THEN <<i>> ELSE LET n == CHOOSE n \in next : TRUE IN <<i>> \o ChainFrom(D, n, before \cup {n})
Chain(D, i) == ChainFrom(D, i, {i})
RECURSIVE Joined2(_, _)
Joined2(f, c) == IF c = <<>> THEN "" ELSE f[c[1]] \o Joined2(f, Tail(c))
WholeText(D, i) == Joined2(text, Chain(D, i))
WholeMark(D, i) == Joined2(mark, Chain(D, i))

\* a continuation that several chains want belongs to nobody in particular
Wanted2(D, c) == {i \in SeenOf(D, Facts \cup {"footnote"}) : c \in Range(Chain(D, i))}
Contested(D, i) == \E c \in Range(Chain(D, i)) \ {i} : Cardinality(Wanted2(D, c)) > 1

\* nor does a chain go on inside itself
Entangled(D, i) == \E c \in Range(Chain(D, i)) \ {i} : \E o \in Range(Chain(D, i)) : <<o, c>> \in within

\* what stands directly inside part i: the parts, and whether there is text besides
RECURSIVE Contents(_, _, _, _)
Contents(toks, n, depth, got) ==
  LET t == toks[n] IN
  CASE t.t = "close" /\ depth = 0 -> got
    [] t.t = "close" -> Contents(toks, n + 1, depth - 1, got)
    [] t.t = "open" -> Contents(toks, n + 1, depth + 1, IF depth = 0 THEN [got EXCEPT !.parts = Append(@, t.i)] ELSE got)
    [] OTHER -> Contents(toks, n + 1, depth, IF depth = 0 /\ Strip(t.s) # "" THEN [got EXCEPT !.text = TRUE] ELSE got)
Inside(D, i) ==
  LET opens(p, n) == D.pages[p][n].i = i /\ D.pages[p][n].t = "open"
      p == CHOOSE p \in DOMAIN D.pages : \E n \in DOMAIN D.pages[p] : opens(p, n)
      n == CHOOSE n \in DOMAIN D.pages[p] : opens(p, n)
  IN Contents(D.pages[p], n + 1, 0, [parts |-> <<>>, text |-> FALSE])
\* a number holds either text or one number just like it
NestingFaults(D, i) ==
  LET p == D.parts[i] IN
  IF i \notin nests \/ p.nil = "true" THEN {} ELSE
  LET c == Inside(D, i)
      q == D.parts[c.parts[1]] IN
  UNION {IF c.text THEN {"textkids"} ELSE {},
         IF ~c.text /\ Len(c.parts) > 1 THEN {"manykids"} ELSE {},
         IF ~c.text /\ q.k # "nonFraction" THEN {"kidkind"} ELSE {},
         IF \E n \in DOMAIN c.parts : LET o == D.parts[c.parts[n]] IN o.k = "nonFraction" /\ <<o.fmt, o.scale, o.unit>> # <<p.fmt, p.scale, p.unit>> THEN {"kidattrs"} ELSE {},
         IF \E n \in DOMAIN c.parts : D.parts[c.parts[n]].k = "nonFraction" /\ D.parts[c.parts[n]].nil = "true" THEN {"kidnil"} ELSE {}}

\* what the text of fact part i means
Meaning(D, i) ==
  LET p == D.parts[i] IN
  IF Contested(D, i) \/ Entangled(D, i) THEN Out("open", "")
  ELSE IF NestingFaults(D, i) # {} \/ p.esc \notin {NONE, "true", "false"} THEN Out("open", "")
  ELSE IF p.nil = "true" THEN Out("value", "")
  ELSE IF p.k = "nonFraction" THEN NumberOf(p.fmt, p.scale, p.sign, Strip(WholeText(D, i)))
  ELSE IF p.esc = "true" THEN Out(IF p.fmt = NONE THEN "value" ELSE "open", WholeMark(D, i))
  ELSE TextOf(p.fmt, WholeText(D, i))
Stated(D, i) == D.parts[i].name # NONE /\ D.parts[i].ctx # NONE
FactParts(D) == {i \in SeenOf(D, Facts) : Stated(D, i)}
\* the white space around a text that does not fit its format may or may not be kept
Settled(D, i) == LET m == Meaning(D, i) IN
  m.k = "value" \/ (m.k = "bad" /\ D.parts[i].k = "nonNumeric" /\ WholeText(D, i) = Strip(WholeText(D, i)))

AllContexts(D) == Flatten([n \in 1..Len(SetToSeq(SeenOf(D, {"resources"}))) |-> D.parts[SetToSeq(SeenOf(D, {"resources"}))[n]].C])
AllUnits(D) == Flatten([n \in 1..Len(SetToSeq(SeenOf(D, {"resources"}))) |-> D.parts[SetToSeq(SeenOf(D, {"resources"}))[n]].U])
AllRelations(D) == UNION {Range(D.parts[i].R) : i \in SeenOf(D, {"resources"})}

FactRecord(D, units, i) ==
  LET p == D.parts[i] IN
  [id |-> p.id, concept |-> p.name, ctx |-> p.ctx, unit |-> IF p.unit \in units THEN p.unit ELSE NONE,
   value |-> IF Meaning(D, i).v = "-0" THEN "0" ELSE Meaning(D, i).v, decimals |-> p.dec, precision |-> p.prec, nil |-> p.nil = "true"]
\* the document of Filing.tla that D amounts to (facts whose value is not settled are left out)
Equivalent(D) ==
  LET us == AllUnits(D)
      unitids == {us[n].id : n \in DOMAIN us}
      open == {D.parts[i].id : i \in {i \in FactParts(D) : ~Settled(D, i)}} \ {NONE}
      fs == SetToSeq({i \in FactParts(D) : Settled(D, i) /\ D.parts[i].id \notin open})
  IN [elements |-> D.elements, roles |-> <<>>, links |-> <<>>,
      insts |-> <<[contexts |-> AllContexts(D), units |-> us, facts |-> [n \in DOMAIN fs |-> FactRecord(D, unitids, fs[n])]]>>]

---------------------------------------------------------------------------
(* Judging a report *)

Unsettled(D) == {i \in FactParts(D) : ~Settled(D, i)}
UnsettledIds(D) == {D.parts[i].id : i \in Unsettled(D)}
\* what keeps a fact part from being reported as it stands (of several such faults one has to be reported)
FactFaults(D, i) ==
  LET p == D.parts[i]
      ctxs == {AllContexts(D)[n].id : n \in DOMAIN AllContexts(D)}
      units == {AllUnits(D)[n].id : n \in DOMAIN AllUnits(D)}
  IN UNION {
     IF p.name = NONE THEN {"name"} ELSE IF OfKind(elems, p.name, "Concept") = {} THEN {"concept"} ELSE {},
     IF p.ctx = NONE THEN {"context"} ELSE IF p.ctx \notin ctxs THEN {"nocontext"} ELSE {},
     IF p.unit = NONE THEN (IF p.k = "nonFraction" THEN {"unit"} ELSE {}) ELSE IF p.unit \notin units THEN {"nounit"} ELSE {}}
Usable(D, i) == FactFaults(D, i) \subseteq {"unit", "nounit"} /\ ~\E n \in DOMAIN AllContexts(D) : AllContexts(D)[n].id = D.parts[i].ctx /\ Dead(AllContexts(D)[n])

\* texts that do not fit their format
BadTexts(D) == {i \in FactParts(D) : Usable(D, i) /\ Meaning(D, i).k = "bad"}
OpenTexts(D) == {i \in FactParts(D) : Meaning(D, i).k = "open"}
Without(D, O) == [O EXCEPT !.facts = SelectSeq(@, LAMBDA f : f.id = NONE \/ f.id \notin UnsettledIds(D))]

\* U: the facts of unsettled text that are reported all the same
ReportedIds(D, U) == {x.f.id : x \in facts} \cup U
Notes(D) == SeenOf(D, {"footnote"})
InvalidUris == {"#x", "?x"}
UriOr(a, b) == IF a = NONE \/ a \in InvalidUris THEN b ELSE a
NoteIds(D) == {D.parts[i].id : i \in Notes(D)} \ {NONE}
DefaultNoteRole == "http://www.xbrl.org/2003/role/footnote"
DefaultLinkRole == "http://www.xbrl.org/2003/role/link"
DefaultArcrole == "http://www.xbrl.org/2003/arcrole/fact-footnote"
Or(a, b) == IF a = NONE THEN b ELSE a
Edges(D, U) ==
  UNION {{[from |-> f, to |-> t, role |-> UriOr(r.role, DefaultLinkRole), arcrole |-> UriOr(r.arcrole, DefaultArcrole),
             o |-> IF "o" \in DOMAIN r THEN r.o ELSE 1000]
            : f \in Range(r.from) \cap ReportedIds(D, U), t \in (Range(r.to) \ Range(r.from)) \cap (ReportedIds(D, U) \cup NoteIds(D))}
         : r \in AllRelations(D)}
Note(D, i) ==
  LET p == D.parts[i] IN
  [id |-> p.id, text |-> WholeMark(D, i), lang |-> p.lang, role |-> UriOr(p.role, DefaultNoteRole), title |-> p.title]
LinkedNotes(D, U) == {Note(D, i) : i \in {i \in Notes(D) : \E e \in Edges(D, U) : e.to = D.parts[i].id}}

\* whether fact part i itself displays a number in its format
Displays(D, i) ==
  LET c == Inside(D, i) IN
  c.text /\ c.parts = <<>> /\ D.parts[i].fmt # "ixt:fixed-zero" /\ NumberOf(D.parts[i].fmt, NONE, NONE, Strip(WholeText(D, i))).k = "value"
\* the attributes of a fact that is otherwise reported
AttributeFaults(D, i) ==
  LET p == D.parts[i]
      number(s) == s # NONE /\ NumOrNone(s) # NONE
      given == {s \in {"dec", "prec"} : number(IF s = "dec" THEN p.dec ELSE p.prec)}
  IN IF p.k = "nonNumeric" THEN (IF p.esc \notin {NONE, "true", "false"} THEN {"esc"} ELSE {})
     ELSE UNION {
       IF p.dec # NONE /\ "dec" \notin given THEN {"dec"} ELSE {},
       IF p.prec # NONE /\ "prec" \notin given THEN {"prec"} ELSE {},
       IF given = {"dec", "prec"} \/ (given # {} /\ p.nil = "true") THEN {"both"} ELSE {},
       IF p.nil # "true" /\ Displays(D, i) /\ p.scale \in {"x", "1.5", "two"} THEN {"scale"} ELSE {},
       IF p.nil # "true" /\ Displays(D, i) /\ p.sign \in {"+", "x", "minus"} THEN {"sign"} ELSE {},
       IF p.nil = "true" /\ (Inside(D, i).text \/ Inside(D, i).parts # <<>>) THEN {"niltext"} ELSE {},
       NestingFaults(D, i)}
WithResources == {"manyresources", "resourceschild", "roletype", "norolehref", "rolehref", "noroleuri", "roleuri", "noarcroleuri", "arcroleuri", "emptyrole",
                  "idlesscontext", "idlessunit", "roleref", "arcroleref"}
\* oddities of headers and the like, and of relationships
Odd(D) == IF "odd" \in DOMAIN D THEN Range(D.odd) \ {"roleref", "arcroleref"} ELSE {}   \* these two belong
\* a filing has headers, and they hold resources
Lacking(D) ==
  LET odd == "odd" \in DOMAIN D /\ Range(D.odd) \cap WithResources # {} IN
  UNION {IF SeenOf(D, {"header"}) = {} THEN {"noheader"} ELSE {}, IF SeenOf(D, {"resources"}) = {} /\ ~odd THEN {"noresources"} ELSE {}}
RelationFaults(D, U, r) ==
  LET from == Range(r.from) to == Range(r.to) IN UNION {
    IF from = {} THEN {"nofrom"} ELSE {}, IF to = {} THEN {"noto"} ELSE {},
    IF from \cap to # {} THEN {"repeated"} ELSE {},
    IF to \cap NoteIds(D) # {} /\ ~(to \subseteq NoteIds(D)) THEN {"mixed"} ELSE {},
    IF r.arcrole \in InvalidUris THEN {"arcrole"} ELSE {}, IF r.role \in InvalidUris THEN {"linkrole"} ELSE {},
    IF "order" \in DOMAIN r /\ r.order = "first" THEN {"order"} ELSE {},
    IF ~(from \subseteq ReportedIds(D, U)) THEN {"from"} ELSE {},
    IF ~(to \subseteq (ReportedIds(D, U) \cup NoteIds(D))) THEN {"to"} ELSE {}}
\* the identifiers of the facts that are reported at any rate
Ids(D) ==
  LET named == {i \in FactParts(D) : D.parts[i].id # NONE /\ Usable(D, i) /\ Meaning(D, i).k = "value"} IN [i \in named |-> D.parts[i].id]
\* every identifier that is given to something, with what it is given to
Labelled(D) ==
  LET f == Ids(D) IN
  {<<"fact", i, f[i]>> : i \in DOMAIN f}
  \cup {<<"part", i, D.parts[i].id>> : i \in {i \in SeenOf(D, {"continuation", "footnote"}) : D.parts[i].id # NONE}}
  \cup {<<"context", n, AllContexts(D)[n].id>> : n \in {n \in DOMAIN AllContexts(D) : AllContexts(D)[n].hasid}}
  \cup {<<"unit", n, AllUnits(D)[n].id>> : n \in {n \in DOMAIN AllUnits(D) : AllUnits(D)[n].id # NONE}}
  \cup (IF "refid" \in DOMAIN D /\ SeenOf(D, {"header"}) # {} THEN {<<"references", 1, D.refid>>} ELSE {})

\* things wrong with D, each with the error codes one of which must be reported
Faulty(D, U) ==
  LET fs == SeenOf(D, Facts)
      conts == SeenOf(D, {"continuation"})
      hosts == SeenOf(D, TextParts)
      used == UNION {Range(Chain(D, i)) : i \in SeenOf(D, Facts \cup {"footnote"})}
      rels == AllRelations(D)
  IN UNION {
     UNION {FactFaults(D, i) : i \in {i \in fs : Cardinality(FactFaults(D, i)) = 1}},
     IF \E i \in fs : Cardinality(FactFaults(D, i)) > 1 THEN {"some"} ELSE {},
     IF \E i \in conts : D.parts[i].id = NONE THEN {"contid"} ELSE {},
     IF \E i \in conts \ used : D.parts[i].id # NONE THEN {"unused"} ELSE {},
     IF \E i \in hosts : D.parts[i].cont # NONE /\ {c \in conts : D.parts[c].id = D.parts[i].cont} = {} THEN {"dangling"} ELSE {},
     IF \E i \in SeenOf(D, Facts \cup {"footnote"}) : Contested(D, i) THEN {"contested"} ELSE {},
     IF \E i \in Notes(D) : D.parts[i].id = NONE THEN {"noteid"} ELSE {},
     IF \E i \in Notes(D) : D.parts[i].id # NONE /\ D.parts[i].role \in InvalidUris THEN {"noterole"} ELSE {},
     IF \E i \in Notes(D) : D.parts[i].id # NONE /\ D.parts[i].lang = NONE THEN {"notelang"} ELSE {},
     UNION {AttributeFaults(D, i) : i \in {i \in FactParts(D) : Usable(D, i)}},
     UNION {RelationFaults(D, U, r) : r \in rels},
     IF Cardinality({x[3] : x \in Labelled(D)}) < Cardinality(Labelled(D)) THEN {"dupid"} ELSE {},
     IF \E i \in fs : Entangled(D, i) THEN {"nestedchain"} ELSE {},
     Odd(D), Lacking(D),
     IF BadTexts(D) # {} THEN {"text"} ELSE {}}

SoundResources(D) ==
  /\ \A n \in DOMAIN AllContexts(D) : ContextProblems(elems, AllContexts(D)[n]) = {}
  /\ \A n \in DOMAIN AllUnits(D) : UnitProblems(AllUnits(D)[n]) = {}

\* every resource is examined, also one that no fact refers to
ResourceErrors(D) ==
  UNION {ContextErrors(elems, AllContexts(D)[n]) : n \in DOMAIN AllContexts(D)} \cup UNION {UnitErrors(AllUnits(D)[n]) : n \in DOMAIN AllUnits(D)}

\* codes that report each kind of fault
CodesFor(k) ==
  CASE k = "some" -> Flatten(<<Tables.codes.name, Tables.codes.concept, Tables.codes.context, Tables.codes.nocontext, Tables.codes.unit, Tables.codes.nounit>>)
    [] OTHER -> Tables.codes[k]
CodeIn(O, k) == {n \in DOMAIN O.errors : O.errors[n] \in Range(CodesFor(k))}

\* where the errors occur: at the part at fault
RECURSIVE Words(_)
Words(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Words(Tail(ws))
RelationPlace(r) == "relationship " \o Words(r.from) \o " > " \o Words(r.to)
PartPlace(p) == (IF p.k \in Facts THEN "fact" ELSE p.k) \o " " \o p.id
Dangling(D) == {i \in SeenOf(D, TextParts) : D.parts[i].cont # NONE /\ {c \in SeenOf(D, {"continuation"}) : D.parts[c].id = D.parts[i].cont} = {}}
\* parts with an identifier, each with the kinds of faults one of which has to be reported there
PartFaults(D, i) ==
  LET p == D.parts[i] IN
  UNION {
    IF i \in FactParts(D) /\ Cardinality(FactFaults(D, i)) = 1 THEN {FactFaults(D, i)} ELSE {},
    IF i \in FactParts(D) /\ Usable(D, i) /\ AttributeFaults(D, i) # {} THEN {AttributeFaults(D, i)} ELSE {},
    IF i \in BadTexts(D) THEN {{"text"}} ELSE {},
    IF p.k = "footnote" /\ p.role \in InvalidUris THEN {{"noterole"}} ELSE {},
    IF p.k = "footnote" /\ p.lang = NONE THEN {{"notelang"}} ELSE {}}
SeenNamed(D) == {i \in SeenOf(D, TextParts \cup Facts) : D.parts[i].id # NONE}
\* (a number that may not stand where it does may be what is pointed at)
PlacesOf(D, i) == {PartPlace(D.parts[j]) : j \in {i} \cup (IF i \in FactParts(D) /\ Usable(D, i) /\ NestingFaults(D, i) # {} THEN Range(Inside(D, i).parts) ELSE {})}
Reports(O, ks, at) == \E k \in ks : \E n \in DOMAIN CodesFor(k) : (CodesFor(k)[n] \o "@" \o at) \in Range(O.places)
NotPlaced(D, U, O) ==
  \/ \E i \in SeenNamed(D) : \E ks \in PartFaults(D, i) : ~\E at \in PlacesOf(D, i) : Reports(O, ks, at)
  \/ \E r \in AllRelations(D) : RelationFaults(D, U, r) # {} /\ ~Reports(O, RelationFaults(D, U, r), RelationPlace(r))

InlineClauses(D, O, W) ==
  IF ~Opened(O) THEN {"opened"} ELSE
  LET U == UnsettledIds(D) \cap {O.facts[n].id : n \in DOMAIN O.facts}
      faulty == Faulty(D, U) IN
  UNION {
    IF "facts" \in W THEN FailingClauses(Equivalent(D), Without(D, O), {"facts"}) ELSE {},
    IF "chars" \in W THEN FailingClauses(Equivalent(D), O, {"chars"}) ELSE {},
    IF "footnotes" \in W THEN UNION {
       IF Range(O.edges) # Edges(D, U) THEN {"F15.edges"} ELSE {},
       \* what hangs from a fact is in the order of its relationships
       IF \E n \in DOMAIN O.kids : \E i \in 2..Len(O.kids[n]) : O.kids[n][i - 1] > O.kids[n][i] THEN {"F15.order"} ELSE {},
       \* in which language a footnote without one is, is open
       IF {IF \E i \in Notes(D) : D.parts[i].id = x.id /\ D.parts[i].lang = NONE THEN [x EXCEPT !.lang = NONE] ELSE x : x \in Range(O.notes)} # LinkedNotes(D, U) THEN {"F15.notes"} ELSE {}} ELSE {},
    IF "errors" \in W THEN UNION {
       {"F16.missing." \o k : k \in {k \in faulty : CodeIn(O, k) = {}}},
       IF "places" \in W /\ NotPlaced(D, U, O) THEN {"F16.place"} ELSE {},
       IF \E g \in ResourceErrors(D) : g \cap Range(O.places) = {} THEN {"F16.missing.resource"} ELSE {},
       IF Cardinality(CodeIn(O, "text")) < Cardinality(BadTexts(D)) THEN {"text.errors"} ELSE {},
       IF faulty = {} /\ OpenTexts(D) = {} /\ errs = {} /\ SoundResources(D) /\ O.errors # <<>> THEN {"F16.clean"} ELSE {}} ELSE {}}
=============================================================================
