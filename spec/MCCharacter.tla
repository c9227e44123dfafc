----------------------------- MODULE MCCharacter -----------------------------
(* Writes every short text over the characters that matter, one at a time,    *)
(* and checks what Character says about it by other means.                    *)
EXTENDS Character, Json, IOUtils

MaxLen == NatOf(IOEnv.SIZE)
Alphabet == {"0", "1", "5", ".", "-", "+", "e", " ", ","}
VARIABLES t, st
Init == t = "" /\ st = Blank
Write == Len(t) < MaxLen /\ \E c \in Alphabet : t' = t \o c /\ st' = Scan(st, c)
Spec == Init /\ [][Write]_<<t, st>>

IntOut == CHOOSE o \in AsInt(t) : TRUE
FloatOut == CHOOSE o \in AsFloat(t) : TRUE
BoolOut == CHOOSE o \in AsBool(t) : TRUE

\* reading step by step gives what reading the whole gives
Stepwise == st = ScanAll(Blank, t)

\* an independent reading: cut at the exponent, then at the point
Cuts(s, c) == {i \in 1..Len(s) : Ch(s, i) = c}
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
IsNat(s) == s # "" /\ AllDigits(s)
IsMantissa(s) ==
  LET u == Unsigned(s) cs == Cuts(u, ".") IN
  \/ IsNat(u)
  \/ Cardinality(cs) = 1 /\ LET i == CHOOSE i \in cs : TRUE IN AllDigits(SubSeq(u, 1, i - 1)) /\ AllDigits(SubSeq(u, i + 1, Len(u))) /\ Len(u) > 1
IsWritten(s) ==
  LET cs == Cuts(s, "e") IN
  \/ IsMantissa(s)
  \/ Cardinality(cs) = 1 /\ LET i == CHOOSE i \in cs : TRUE IN IsMantissa(SubSeq(s, 1, i - 1)) /\ IsNat(Unsigned(SubSeq(s, i + 1, Len(s))))
Grammar == /\ (FloatOut.k = "float") <=> IsWritten(Bare(t))
           /\ (IntOut.k = "int") <=> IsNat(Unsigned(Bare(t)))
           /\ IntOut.k = "int" => FloatOut.k = "float" /\ FloatOut.v = IntOut.v
\* white space, leading zeros and a plus sign do not matter; a minus sign negates
Padded == AsInt(" " \o t) = AsInt(t) /\ AsFloat(t \o " ") = AsFloat(t) /\ AsFloat("\n" \o t) = AsFloat(t) /\ (BoolOut.k = "bool" => AsBool(" " \o t) = AsBool(t))
Zeroes == t # "" /\ Ch(t, 1) \in Digits => AsFloat("0" \o t) = AsFloat(t) /\ AsFloat("+" \o t) = AsFloat(t)
Negated == t # "" /\ Ch(t, 1) \in Digits /\ FloatOut.k = "float" =>
             AsFloat("-" \o t) = {Out("float", IF FloatOut.v = "0e0" THEN "0e0" ELSE "-" \o FloatOut.v)}
\* the value times the right power of ten is the number the digits make, modulo a prime
RECURSIVE Power(_, _)
Power(n, p) == IF n <= 0 THEN 1 ELSE (10 * Power(n - 1, p)) % p
IntText(s) == IF StartsWith(s, "-") THEN 0 - NatOf(SubSeq(s, 2, Len(s))) ELSE NatOf(s)
Exact == FloatOut.k = "float" =>
  LET u == IF StartsWith(FloatOut.v, "-") THEN SubSeq(FloatOut.v, 2, Len(FloatOut.v)) ELSE FloatOut.v
      i == CHOOSE i \in Cuts(u, "e") : TRUE
      d == SubSeq(u, 1, i - 1)
      x == IntText(SubSeq(u, i + 1, Len(u)))
      up == x + Len(st.f) - (IF st.x = "" THEN 0 ELSE IF st.xneg THEN 0 - NatOf(st.x) ELSE NatOf(st.x))
  IN d = "0" \/ (up >= 0 /\ \A p \in Primes : (Res(d, p) * Power(up, p)) % p = Res(st.w \o st.f, p))
\* a truth value is one of two numbers or two words
Truths == (BoolOut.k = "bool") <=> Bare(t) \in {"0", "1"}
Emit == t = "" \/ Bare(t) = "" \/ PrintT("TEXT " \o ToJson([text |-> t]))
=============================================================================
