-------------------------------- MODULE Dates --------------------------------
(***************************************************************************)
(* What the text of an inline date denotes.                                *)
(*                                                                         *)
(* A format is a sequence of fields (day, month, year, era), a way of      *)
(* writing months and a script for digits.  Reading a text takes one field *)
(* at a time from its start (TakeField) and the separators in between      *)
(* (TakeGap); the fields then make a Gregorian date, or not.  Outcomes are *)
(* "value", "bad" (an error must be reported) and "open" (the registries   *)
(* leave it to the reader).  MCDates writes dates in every format and      *)
(* checks that reading gives them back.                                    *)
(***************************************************************************)
EXTENDS Util, Formats

DateFormats == DOMAIN Tables.dates
FmtOf(f) == Tables.dates[f]
Months(lang) == Tables.months[lang]
IsNamed(f) == FmtOf(f).month # "num"
IsJapanese(f) == FmtOf(f).order[1] = "era"
IsSaka(f) == FmtOf(f).month = "saka"
Fields(f) == FmtOf(f).order
Has(f, field) == field \in Range(Fields(f))

DigitIn(f, c) == \/ c \in Digits
                 \/ FmtOf(f).digits # "ascii" /\ c \in DOMAIN DigitMap[FmtOf(f).digits]
RECURSIVE DigitRun(_, _)
DigitRun(f, s) == IF s # "" /\ DigitIn(f, Ch(s, 1)) THEN Ch(s, 1) \o DigitRun(f, SubSeq(s, 2, Len(s))) ELSE ""
RECURSIVE OtherRun(_, _)
OtherRun(f, s) == IF s # "" /\ ~DigitIn(f, Ch(s, 1)) THEN Ch(s, 1) \o OtherRun(f, SubSeq(s, 2, Len(s))) ELSE ""
Cut(s, t) == SubSeq(s, Len(t) + 1, Len(s))
Punct == White \cup {".", ",", "/", "-", ";", ":"}
RECURSIVE PunctRun(_)
PunctRun(s) == IF s # "" /\ Ch(s, 1) \in Punct THEN Ch(s, 1) \o PunctRun(SubSeq(s, 2, Len(s))) ELSE ""

NamesOf(lang, m) == Range(Months(lang)[m])
NamesAt(lang, s) == {mn \in UNION {{<<m, n>> : n \in NamesOf(lang, m)} : m \in 1..12} : StartsWith(s, mn[2])}
Longest(S) == CHOOSE a \in S : \A b \in S : Len(b[2]) <= Len(a[2])
Somewhere(lang, s) == \E m \in 1..12 : \E n \in NamesOf(lang, m) : Contains(s, n)
ErasAt(s) == {e \in DOMAIN Tables.eras : StartsWith(s, e)}

\* the state of a reader: what is left of the text, the fields read and the outcome so far
Reader(s) == [s |-> s, i |-> 1, y |-> 0, m |-> 0, d |-> 0, era |-> "", ylen |-> 0, k |-> "reading", named |-> FALSE]
Stop(r, k) == [r EXCEPT !.k = k]

TakeNumber(f, r, field) ==
  LET run == DigitRun(f, r.s) n == NatOf(AsciiAll(run)) IN
  IF run = "" \/ Len(run) > 4 \/ Len(run) = 3 \/ (field # "year" /\ Len(run) > 2) THEN Stop(r, "bad")
  ELSE LET q == [r EXCEPT !.s = Cut(@, run), !.named = FALSE] IN
       CASE field = "day" -> [q EXCEPT !.d = n]
         [] field = "month" -> [q EXCEPT !.m = n]
         [] OTHER -> [q EXCEPT !.y = n, !.ylen = Len(run)]
TakeName(f, r) ==
  LET lang == FmtOf(f).month found == NamesAt(lang, r.s) IN
  IF found = {} THEN Stop(r, IF Somewhere(lang, r.s) THEN "open" ELSE "bad")
  ELSE [r EXCEPT !.s = Cut(@, Longest(found)[2]), !.m = Longest(found)[1], !.named = TRUE]
TakeEra(f, r) ==
  IF ErasAt(r.s) = {} THEN Stop(r, "bad")
  ELSE LET e == CHOOSE e \in ErasAt(r.s) : \A x \in ErasAt(r.s) : Len(x) <= Len(e) IN [r EXCEPT !.s = Cut(@, e), !.era = e]
TakeField(f, r) ==
  LET field == Fields(f)[r.i] IN
  IF field = "era" THEN TakeEra(f, r)
  ELSE IF field = "year" /\ IsJapanese(f) /\ StartsWith(r.s, Tables.kanji.first)
       THEN [r EXCEPT !.s = Cut(@, Tables.kanji.first), !.y = 1, !.ylen = 2]
  ELSE IF field = "month" /\ IsNamed(f) THEN TakeName(f, r) ELSE TakeNumber(f, r, field)

\* what stands between two fields
TakeGap(f, r) ==
  LET next == IF r.i < Len(Fields(f)) THEN Fields(f)[r.i + 1] ELSE "end"
      rest == OtherRun(f, r.s)
      q == [r EXCEPT !.i = @ + 1]
  IN IF r.k # "reading" THEN r
     ELSE IF IsJapanese(f) THEN
       LET field == Fields(f)[r.i]
           t == IF field = "era" THEN r.s ELSE Strip(r.s)
           mark == IF field = "era" THEN "" ELSE Tables.kanji[field]
       IN IF ~StartsWith(t, mark) THEN Stop(r, "bad")
          ELSE IF next = "end" /\ Cut(t, mark) # "" THEN Stop(r, "bad")
          ELSE [q EXCEPT !.s = Strip(Cut(t, mark))]
     ELSE IF next = "end" THEN
       IF rest # r.s THEN Stop(r, "bad")
       ELSE IF rest = "" \/ (r.named /\ Len(rest) <= 3 /\ FmtOf(f).month \notin {"roman", "cs", "cs-nom", "en"}) \/ (FmtOf(f).digits = "full" /\ ~IsNamed(f)) THEN q
       ELSE Stop(r, "open")
     ELSE IF r.s = "" THEN Stop(r, "bad")
     ELSE IF next = "month" /\ IsNamed(f) THEN
       LET sep == PunctRun(r.s)
           de == IF FmtOf(f).month \in {"es", "pt"} /\ StartsWith(Cut(r.s, sep), "de ") THEN "de " ELSE ""
       IN IF sep = "" THEN Stop(r, IF Somewhere(FmtOf(f).month, r.s) THEN "open" ELSE "bad") ELSE [q EXCEPT !.s = Cut(@, sep \o de)]
     ELSE IF rest = r.s THEN Stop(r, "bad")
     ELSE IF rest = "" THEN Stop(r, "open")
     ELSE IF r.named /\ FmtOf(f).month \in {"roman", "cs", "cs-nom", "saka", "hi"} /\ Ch(rest, 1) \notin Punct THEN Stop(r, "open")
     ELSE IF Len(rest) > 14 THEN Stop(r, "open")
     ELSE [q EXCEPT !.s = Cut(@, rest)]

RECURSIVE ReadAll(_, _)
ReadAll(f, r) == IF r.k # "reading" \/ r.i > Len(Fields(f)) THEN r ELSE ReadAll(f, TakeGap(f, TakeField(f, r)))

---------------------------------------------------------------------------
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
Two(n) == Pad(ToString(n), 2)
Four(n) == Pad(ToString(n), 4)

FullYear(r) == IF r.ylen <= 2 THEN 2000 + r.y ELSE r.y

\* the Indian national calendar
SakaLength(y, m) == IF m = 1 THEN (IF Leap(y + 78) THEN 31 ELSE 30) ELSE IF m <= 6 THEN 31 ELSE 30
RECURSIVE SakaOffset(_, _)
SakaOffset(y, m) == IF m = 1 THEN 0 ELSE SakaLength(y, m - 1) + SakaOffset(y, m - 1)
RECURSIVE Later(_, _, _, _)
Later(y, m, d, n) == IF d + n <= MonthDays(y, m) THEN <<y, m, d + n>>
                     ELSE Later(IF m = 12 THEN y + 1 ELSE y, IF m = 12 THEN 1 ELSE m + 1, 1, d + n - MonthDays(y, m) - 1)
FromSaka(y, m, d) == Later(y + 78, 3, IF Leap(y + 78) THEN 21 ELSE 22, SakaOffset(y, m) + d - 1)

Era(r) == Tables.eras[r.era]
Out(k, v) == [k |-> k, v |-> v]
DateMeaning(f, r) ==
  IF r.k # "reading" THEN Out(r.k, "")
  ELSE IF IsSaka(f) THEN
    LET y == IF r.ylen <= 2 THEN 1900 + r.y ELSE r.y IN
    IF r.d < 1 \/ r.m < 1 \/ r.d > SakaLength(y, r.m) THEN Out("bad", "")
    ELSE LET g == FromSaka(y, r.m, r.d)
             gy == IF r.ylen <= 2 /\ g[1] < 2000 THEN g[1] + 100 ELSE g[1]
         IN IF r.ylen = 1 \/ gy > 9999 THEN Out("open", "") ELSE Out("value", Four(gy) \o "-" \o Two(g[2]) \o "-" \o Two(g[3]))
  ELSE
    LET y == IF IsJapanese(f) THEN Era(r).start + r.y - 1 ELSE FullYear(r)
        dd == IF Has(f, "day") THEN r.d ELSE 1
        yy == IF Has(f, "year") THEN y ELSE 2020
    IN IF ~(r.m \in 1..12 /\ yy \in 1..9999 /\ dd \in 1..MonthDays(yy, r.m)) THEN Out("bad", "")
       ELSE IF IsJapanese(f) /\ (r.y < 1 \/ 100 * y + r.m < Era(r).from \div 100 \/ 100 * y + r.m > Era(r).to \div 100
                                 \/ (Has(f, "day") /\ (10000 * y + 100 * r.m + dd < Era(r).from \/ 10000 * y + 100 * r.m + dd > Era(r).to)))
            THEN Out("open", "")
       ELSE IF Has(f, "year") /\ r.ylen = 1 /\ FmtOf(f).month = "hi" THEN Out("open", "")
       ELSE Out("value", (IF Has(f, "year") THEN Four(yy) ELSE "-") \o "-" \o Two(r.m) \o (IF Has(f, "day") THEN "-" \o Two(dd) ELSE ""))

\* the meaning of a text (without the white space around it) in a date format
\* (where exactly a Roman numeral has to stand is left open)
DateOf(f, t) ==
  LET r == ReadAll(f, Reader(t)) IN
  IF r.k = "bad" /\ FmtOf(f).month = "roman" /\ Somewhere("roman", t) THEN Out("open", "") ELSE DateMeaning(f, r)

\* the meaning of a text t in any format of a text fact
Literal(f) == CASE f = "ixt:fixed-true" -> "true" [] f = "ixt:fixed-false" -> "false" [] f = "ixt:fixed-empty" -> "" [] OTHER -> NONE
IsNumeric(f) == StartsWith(f, "ixt:num") \/ f = "ixt:fixed-zero"
IndianLegacy == "ixt:datedaymonthyearin"
TextOf(fmt, t) ==
  LET f == IF fmt = NONE THEN NONE ELSE Current(fmt) IN
  IF f = NONE THEN Out("value", t)
  ELSE IF Literal(f) # NONE THEN Out("value", Literal(f))
  ELSE IF f = IndianLegacy THEN
    LET a == DateOf("ixt:date-day-month-year", Strip(t)) b == DateOf("ixt:date-day-monthname-year-hi", Strip(t)) IN
    IF a.k = "value" THEN a ELSE IF b.k = "value" THEN b ELSE IF "open" \in {a.k, b.k} THEN Out("open", "") ELSE Out("bad", Strip(t))
  ELSE IF f \in DateFormats THEN LET o == DateOf(f, Strip(t)) IN IF o.k = "bad" THEN Out("bad", Strip(t)) ELSE o
  ELSE Out("bad", t)
=============================================================================
