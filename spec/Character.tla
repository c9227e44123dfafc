------------------------------ MODULE Character ------------------------------
(***************************************************************************)
(* What the text of a fact denotes under its concept's data type.          *)
(*                                                                         *)
(* A scanner reads the text one character at a time (Step), the class of   *)
(* the data type decides which of its final phases are values, and         *)
(* TypedOf gives the outcomes that reading the fact by type may have.      *)
(* A number is written canonically as <sign><digits>e<exponent>, the       *)
(* digits without zeros at either end.                                     *)
(***************************************************************************)
EXTENDS Util

IntegerTypes ==
  {"integerItemType", "nonPositiveIntegerItemType", "negativeIntegerItemType", "longItemType", "intItemType", "shortItemType", "byteItemType",
   "nonNegativeIntegerItemType", "unsignedLongItemType", "unsignedIntItemType", "unsignedShortItemType", "unsignedByteItemType",
   "positiveIntegerItemType", "noDecimalsMonetaryItemType", "nonNegativeNoDecimalsMonetaryItemType"}
FloatTypes == {"floatItemType", "doubleItemType"}
DecimalTypes ==
  {"decimalItemType", "monetaryItemType", "sharesItemType", "pureItemType", "percentItemType", "perShareItemType", "perUnitItemType",
   "nonNegativeMonetaryItemType", "areaItemType", "volumeItemType", "massItemType", "weightItemType", "energyItemType", "powerItemType",
   "lengthItemType", "memoryItemType", "temperatureItemType", "pressureItemType", "frequencyItemType", "irradianceItemType", "insolationItemType",
   "speedItemType", "planeAngleItemType", "voltageItemType", "electricCurrentItemType", "forceItemType", "electricChargeItemType",
   "flowItemType", "massFlowItemType", "monetaryPerLengthItemType", "monetaryPerAreaItemType", "monetaryPerVolumeItemType",
   "monetaryPerDurationItemType", "monetaryPerEnergyItemType", "monetaryPerMassItemType", "ghgEmissionsItemType",
   "energyPerMonetaryItemType", "ghgEmissionsPerMonetaryItemType", "volumePerMonetaryItemType"}
ClassOf(type) ==
  CASE type \in IntegerTypes -> "int" [] type \in FloatTypes -> "float" [] type \in DecimalTypes -> "decimal"
    [] type = "booleanItemType" -> "bool" [] OTHER -> "str"

White == {" ", "\t", "\n", "\r"}
RECURSIVE StripLead(_)
StripLead(s) == IF s # "" /\ Ch(s, 1) \in White THEN StripLead(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE StripTail(_)
StripTail(s) == IF s # "" /\ Ch(s, Len(s)) \in White THEN StripTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Bare(s) == StripTail(StripLead(s))

\* ---- the scanner of numbers ----
Blank == [ph |-> "lead", neg |-> FALSE, w |-> "", f |-> "", xneg |-> FALSE, x |-> ""]
Spoiled == [Blank EXCEPT !.ph = "bad"]
Scan(st, c) ==
  CASE c \in White -> (CASE st.ph \in {"lead", "trail"} -> st
                         [] st.ph \in {"whole", "frac", "exp"} /\ (st.ph = "exp" => st.x # "") /\ (st.w \o st.f # "") -> [st EXCEPT !.ph = "trail"]
                         [] OTHER -> Spoiled)
    [] c \in {"+", "-"} /\ st.ph = "lead" -> [st EXCEPT !.ph = "sign", !.neg = (c = "-")]
    [] c \in {"+", "-"} /\ st.ph = "e" -> [st EXCEPT !.ph = "exp", !.xneg = (c = "-")]
    [] c \in Digits /\ st.ph \in {"lead", "sign", "whole"} -> [st EXCEPT !.ph = "whole", !.w = @ \o c]
    [] c \in Digits /\ st.ph = "frac" -> [st EXCEPT !.f = @ \o c]
    [] c \in Digits /\ st.ph \in {"e", "exp"} -> [st EXCEPT !.ph = "exp", !.x = @ \o c]
    [] c = "." /\ st.ph \in {"lead", "sign", "whole"} -> [st EXCEPT !.ph = "frac"]
    [] c \in {"e", "E"} /\ st.ph \in {"whole", "frac"} /\ st.w \o st.f # "" -> [st EXCEPT !.ph = "e"]
    [] OTHER -> Spoiled
RECURSIVE ScanAll(_, _)
ScanAll(st, s) == IF s = "" THEN st ELSE ScanAll(Scan(st, Ch(s, 1)), SubSeq(s, 2, Len(s)))

Complete(st) == st.ph \in {"whole", "frac", "exp", "trail"} /\ st.w \o st.f # "" /\ (st.ph = "exp" => st.x # "")

RECURSIVE TrimLead(_)
TrimLead(s) == IF StartsWith(s, "0") THEN TrimLead(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrailZeros(_)
TrailZeros(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN 1 + TrailZeros(SubSeq(s, 1, Len(s) - 1)) ELSE 0
Canon(neg, digits, exp) ==
  LET d == TrimLead(digits)
      z == TrailZeros(d)
  IN IF d = "" THEN "0e0" ELSE (IF neg THEN "-" ELSE "") \o SubSeq(d, 1, Len(d) - z) \o "e" \o ToString(exp + z)
ValueOf(st) ==
  LET x == IF st.x = "" THEN 0 ELSE NatOf(st.x) IN Canon(st.neg, st.w \o st.f, (IF st.xneg THEN 0 - x ELSE x) - Len(st.f))
Significant(st) == LET d == TrimLead(st.w \o st.f) IN Len(d) - TrailZeros(d)

\* spellings that the specification leaves to the library (1_000, Infinity, digits of other scripts, ...)
Plainly == Digits \cup White \cup {"+", "-", ".", "e", "E", "x", ",", "a", "b", "c", "d", "f", "/", ":", "'", "$", "%", "(", ")"}
Odd(s) == \E i \in 1..Len(s) : Ch(s, i) \notin Plainly

Out(k, v) == [k |-> k, v |-> v]
Rejected == Out("refused", "")
\* the outcomes that reading text t as a whole number, as a number or as a truth value may have; "any" leaves it open
AsInt(t) ==
  LET st == ScanAll(Blank, t) IN
  IF st.ph \in {"whole", "trail"} /\ st.f = "" /\ st.x = "" /\ Complete(st) /\ ~Contains(t, ".") THEN {Out("int", ValueOf(st))}
  ELSE IF st.ph = "bad" /\ Odd(t) THEN {Out("any", "")} ELSE {Rejected}
AsFloat(t) ==
  LET st == ScanAll(Blank, t) b == Bare(t) IN
  IF Complete(st) THEN (IF Significant(st) > 15 \/ Len(st.x) > 2 THEN {Out("any", "")} ELSE {Out("float", ValueOf(st))})
  ELSE IF b \in {"INF", "-INF", "NaN"} THEN {Out("float", b)}
  ELSE IF Odd(t) THEN {Out("any", "")} ELSE {Rejected}
AsBool(t) ==
  LET b == Bare(t) IN
  CASE b \in {"true", "1"} -> {Out("bool", "true")}
    [] b \in {"false", "0"} -> {Out("bool", "false")}
    [] b # t /\ b = "" -> {Rejected}
    [] \E i \in 1..Len(b) : Ch(b, i) \in {"T", "R", "U", "E", "F", "A", "L", "S"} -> {Out("any", "")}
    [] \E i \in 1..Len(b) : Ch(b, i) \notin Plainly \cup {"t", "r", "u", "e", "f", "a", "l", "s", "o", "n", "y", "i", "m", "p", "v"} -> {Out("any", "")}
    [] OTHER -> {Rejected}
Exponent(t) == Contains(t, "e") \/ Contains(t, "E")
TypedOf(class, t) ==
  CASE class = "int" -> AsInt(t)
    [] class = "float" -> AsFloat(t)
    \* a decimal has no exponent and no special values: they may be refused
    [] class = "decimal" -> (IF Exponent(t) \/ Bare(t) \in {"INF", "-INF", "NaN"} THEN AsFloat(t) \cup {Rejected} ELSE AsFloat(t))
    [] class = "bool" -> AsBool(t)
    [] OTHER -> {Out("str", t)}
Allowed(S, o) == Out("any", "") \in S \/ o \in S
=============================================================================
