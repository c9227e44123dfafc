------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* What the text of an inline number denotes.                              *)
(*                                                                         *)
(* A scanner reads the text one character at a time (Scan), the scale      *)
(* moves the decimal point one digit at a time (ShiftUp, ShiftDown), and   *)
(* Canonical writes the digits without superfluous zeros.  MCNumbers lets  *)
(* the characters and the scale vary and checks the arithmetic by another  *)
(* route (residues); Inline uses NumberOf on the text of each fact.        *)
(***************************************************************************)
EXTENDS Util, Formats

\* how a format groups and separates
Grouping == {" ", Nbsp}
Apos == {"'", "`", Acute, RightQuote, Prime}
NumFormats == {"ixt:num-dot-decimal", "ixt:num-comma-decimal", "ixt:num-dot-decimal-apos", "ixt:num-comma-decimal-apos",
               "ixt:num-unit-decimal", "ixt:num-unit-decimal-apos"}
HasApos(f) == f \in {"ixt:num-dot-decimal-apos", "ixt:num-comma-decimal-apos", "ixt:num-unit-decimal-apos"}
IsUnit(f) == f \in {"ixt:num-unit-decimal", "ixt:num-unit-decimal-apos"}
Point(f) == IF f \in {"ixt:num-dot-decimal", "ixt:num-dot-decimal-apos"} THEN "." ELSE ","
Groups(f) == Grouping \cup (IF HasApos(f) THEN Apos ELSE {}) \cup {IF Point(f) = "." THEN "," ELSE "."}
UnitSeps(f) == {".", ",", WideComma} \cup (IF HasApos(f) THEN Apos \cup {WideApos} ELSE {})

Blank == [ph |-> "whole", w |-> "", f |-> "", n |-> 0]
Bad == [ph |-> "bad", w |-> "", f |-> "", n |-> 0]

\* reading one more character c of a number in format f
ScanPlain(f, st, c) ==
  CASE st.ph = "whole" /\ c \in Digits -> [st EXCEPT !.w = @ \o c]
    [] st.ph = "whole" /\ c \in Groups(f) -> st
    [] st.ph = "whole" /\ c = Point(f) -> [st EXCEPT !.ph = "frac"]
    [] st.ph = "frac" /\ c \in Digits -> [st EXCEPT !.f = @ \o c, !.n = @ + 1]
    [] st.ph = "frac" /\ c \in Grouping -> [st EXCEPT !.n = @ + 1]
    [] OTHER -> Bad
ScanUnit(f, st, c) ==
  CASE st.ph = "whole" /\ IsDigit(c) -> [st EXCEPT !.w = @ \o Ascii(c), !.n = @ + 1]
    [] st.ph = "whole" /\ c \in UnitSeps(f) -> [st EXCEPT !.n = @ + 1]
    [] st.ph = "whole" /\ st.n > 0 -> [st EXCEPT !.ph = "unit"]
    [] st.ph = "unit" /\ ~IsDigit(c) -> st
    [] st.ph = "unit" -> [st EXCEPT !.ph = "minor", !.f = Ascii(c)]
    [] st.ph = "minor" /\ ~IsDigit(c) -> [st EXCEPT !.ph = "tail"]
    [] st.ph = "minor" /\ Len(st.f) = 1 -> [st EXCEPT !.f = @ \o Ascii(c)]
    [] st.ph = "tail" /\ ~IsDigit(c) -> st
    [] OTHER -> Bad
Scan(f, st, c) == IF st.ph = "bad" THEN Bad ELSE IF IsUnit(f) THEN ScanUnit(f, st, c) ELSE ScanPlain(f, st, c)

RECURSIVE ScanAll(_, _, _)
ScanAll(f, st, s) == IF s = "" THEN st ELSE ScanAll(f, Scan(f, st, Ch(s, 1)), SubSeq(s, 2, Len(s)))

\* the text read so far is a number of the format
Complete(f, st) ==
  IF IsUnit(f) THEN st.ph \in {"minor", "tail"} /\ st.w # ""
  ELSE st.ph \in {"whole", "frac"} /\ (st.ph = "frac" => st.n > 0) /\ st.w \o st.f # ""
\* minor units are hundredths
Fraction(f, st) == IF IsUnit(f) /\ Len(st.f) = 1 THEN "0" \o st.f ELSE st.f

ShiftUp(w, f) == IF f = "" THEN <<w \o "0", "">> ELSE <<w \o Ch(f, 1), SubSeq(f, 2, Len(f))>>
ShiftDown(w, f) == IF w = "" THEN <<"", "0" \o f>> ELSE <<SubSeq(w, 1, Len(w) - 1), Ch(w, Len(w)) \o f>>
RECURSIVE Shift(_, _, _)
Shift(w, f, n) ==
  IF n = 0 THEN <<w, f>>
  ELSE IF n > 0 THEN LET s == ShiftUp(w, f) IN Shift(s[1], s[2], n - 1)
  ELSE LET s == ShiftDown(w, f) IN Shift(s[1], s[2], n + 1)

RECURSIVE TrimLead(_)
TrimLead(s) == IF StartsWith(s, "0") THEN TrimLead(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimTail(_)
TrimTail(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN TrimTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Canonical(w, f) ==
  LET a == TrimLead(w) b == TrimTail(f) IN (IF a = "" THEN "0" ELSE a) \o (IF b = "" THEN "" ELSE "." \o b)
Signed(sign, v) == IF sign = "-" /\ v # "0" THEN "-" \o v ELSE v

IntText(s) == LET t == IF StartsWith(s, "-") \/ StartsWith(s, "+") THEN SubSeq(s, 2, Len(s)) ELSE s IN t # "" /\ Len(t) < 5 /\ AllDigits(t)
IntOf(s) == IF StartsWith(s, "-") THEN 0 - NatOf(SubSeq(s, 2, Len(s))) ELSE NatOf(IF StartsWith(s, "+") THEN SubSeq(s, 2, Len(s)) ELSE s)

\* without a format a number is written plainly
Plain(t) == IsNumber(t) /\ ~StartsWith(t, "-") /\ Ch(t, Len(t)) # "."
PlainlyBad(t) == t = "" \/ StartsWith(t, "-") \/ \E i \in 1..Len(t) : Ch(t, i) \in {"a", "b", "c", "x", ",", "%", "(", "$"}

\* what the text t (without the white space around it) of a number with these attributes denotes:
\* a value, nothing ("bad") or something the specification leaves open
NumberOf(fmt, scale, sign, t) ==
  LET f == Current(fmt)
      sc == IF scale = NONE THEN 0 ELSE IntOf(scale)
      r(k, v) == [k |-> k, v |-> v]
  IN IF scale # NONE /\ ~IntText(scale) THEN r("open", "")
     ELSE IF sign \notin {NONE, "-"} THEN r("open", "")
     ELSE IF f = "ixt:fixed-zero" THEN r(IF t = "" THEN "open" ELSE "value", "0")     \* a number may not be empty
     ELSE IF f # NONE /\ f \notin NumFormats THEN r("bad", "")
     ELSE IF f = NONE /\ ~Plain(t) THEN r(IF PlainlyBad(t) THEN "bad" ELSE "open", "")
     ELSE LET g == IF f = NONE THEN "ixt:num-dot-decimal" ELSE f
              st == ScanAll(g, Blank, t)
              p == Shift(st.w, Fraction(g, st), sc)
          IN IF Complete(g, st) THEN r("value", Signed(sign, Canonical(p[1], p[2])))
             ELSE IF IsUnit(g) /\ st.w = "" /\ st.ph # "bad" THEN r("open", "") ELSE r("bad", "")
=============================================================================
