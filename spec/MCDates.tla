------------------------------- MODULE MCDates -------------------------------
(* Writes dates in every format, one field at a time and in different styles, *)
(* and checks that reading them gives the date that was written.              *)
EXTENDS Dates, Json, IOUtils

\* how a date is written: day, year, separator, style of numbers
Ways(f) ==
  IF IsSaka(f) THEN {<<1, 1942, " ", "padded">>, <<22, 1945, "-", "bare">>, <<30, 1921, ". ", "script">>}
  ELSE IF IsJapanese(f) THEN {<<8, 1, "", "bare">>, <<30, 3, "", "script">>, <<8, 28, "", "padded">>}
  ELSE IF IsNamed(f) /\ FmtOf(f).digits = "ascii" THEN {<<1, 2021, " ", "padded">>, <<9, 2009, "-", "bare">>, <<28, 1999, ". ", "padded">>, <<31, 2012, " ", "bare">>}
  ELSE IF IsNamed(f) THEN {<<1, 2021, " ", "padded">>, <<9, 2009, "-", "bare">>, <<28, 1999, ". ", "script">>, <<31, 2012, " ", "bare">>}
  ELSE {<<d, y, sep, sty>> : d \in {1, 9, 28, 29, 31}, y \in {1999, 2009, 2024}, sep \in {".", "/", "-", " "},
          sty \in IF FmtOf(f).digits = "ascii" THEN {"padded", "bare"} ELSE {"padded", "bare", "script"}}

VARIABLES f, month, way, ni, ei, i     \* the format, the month, the way, which of its names, which era, the next field
vars == <<f, month, way, ni, ei, i>>
day == way[1]
year == way[2]
sep == way[3]
style == way[4]
LongNames(x, m) == IF FmtOf(x).month \in DOMAIN Tables.longs THEN Tables.longs[FmtOf(x).month][m] ELSE <<>>
NamesFor(x, m) == IF IsNamed(x) THEN Months(FmtOf(x).month)[m] \o LongNames(x, m) ELSE <<"">>
name == NamesFor(f, month)[ni]
EraNames == SetToSeq(DOMAIN Tables.eras)
era == EraNames[ei]

Possible == IF IsSaka(f) THEN day <= SakaLength(year, month)
            ELSE IF IsJapanese(f) THEN TRUE
            ELSE ~Has(f, "day") \/ day <= MonthDays(IF Has(f, "year") THEN year ELSE 2020, month)
Init ==
  /\ f \in DateFormats /\ month \in 1..12 /\ way \in Ways(f)
  /\ ni \in DOMAIN NamesFor(f, month)
  /\ ei \in (IF IsJapanese(f) THEN 1..Len(EraNames) ELSE {1})
  /\ Possible
  /\ i = 1

\* a number in the style chosen
Native == LET m == DigitMap[IF FmtOf(f).digits = "ascii" THEN "full" ELSE FmtOf(f).digits] IN [d \in Digits |-> CHOOSE c \in DOMAIN m : m[c] = d]
RECURSIVE Nativise(_)
Nativise(s) == IF s = "" THEN "" ELSE Native[Ch(s, 1)] \o Nativise(SubSeq(s, 2, Len(s)))
Number(n, width) == CASE style = "padded" -> Pad(ToString(n), width) [] style = "bare" -> ToString(n) [] OTHER -> Nativise(Pad(ToString(n), width))
\* years of this century may be written with two digits
YearText == IF IsJapanese(f) THEN (IF year = 1 /\ style = "bare" THEN Tables.kanji.first ELSE Number(year, 1))
            ELSE IF style = "bare" /\ ~IsSaka(f) /\ year \in 2010..2099 THEN Number(year - 2000, 2) ELSE Number(year, 4)
FieldText(x) ==
  CASE x = "era" -> era
    [] x = "year" -> YearText \o (IF IsJapanese(f) THEN Tables.kanji.year ELSE "")
    [] x = "day" -> Number(day, 2) \o (IF IsJapanese(f) THEN Tables.kanji.day ELSE "")
    [] x = "month" -> IF IsNamed(f) THEN name ELSE Number(month, 2) \o (IF IsJapanese(f) THEN Tables.kanji.month ELSE "")
RECURSIVE WrittenTo(_)
WrittenTo(n) == IF n = 0 THEN "" ELSE WrittenTo(n - 1) \o (IF n = 1 THEN "" ELSE sep) \o FieldText(Fields(f)[n])
t == WrittenTo(i - 1)
WriteField == i <= Len(Fields(f)) /\ i' = i + 1 /\ UNCHANGED <<f, month, way, ni, ei>>
Spec == Init /\ [][WriteField]_vars
Written == i > Len(Fields(f))

Greg == IF IsSaka(f) THEN FromSaka(year, month, day)
        ELSE IF IsJapanese(f) THEN <<Tables.eras[era].start + year - 1, month, day>> ELSE <<year, month, day>>
Meant == (IF Has(f, "year") THEN Four(Greg[1]) ELSE "-") \o "-" \o Two(Greg[2]) \o (IF Has(f, "day") THEN "-" \o Two(Greg[3]) ELSE "")
Reading == DateOf(f, t)
\* eras have limits, and a day of a month may not exist: those are left open or refused
Exempt == IsJapanese(f) /\ (Reading.k = "open" \/ ~IsDate(Four(Greg[1]) \o "-" \o Two(month) \o "-" \o Two(day)))
\* some full names hold the abbreviation of their month only in part of the languages: then nothing is claimed
Shown == IF Written /\ Reading.k # "open" /\ Reading # Out("value", Meant) /\ ~Exempt THEN PrintT("ODD " \o ToJson([f |-> f, t |-> t, k |-> Reading.k, v |-> Reading.v, m |-> Meant])) ELSE TRUE
RoundTrip == Written => Reading = Out("value", Meant) \/ Exempt \/ (IsNamed(f) /\ Reading.k = "open")
\* a name of a month is never taken for another month
Emit == IF ~Written \/ Reading.k = "open" THEN TRUE ELSE PrintT("DATE " \o ToJson([fmt |-> f, text |-> t, k |-> Reading.k, v |-> Reading.v]))

=============================================================================
