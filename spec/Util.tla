-------------------------------- MODULE Util --------------------------------
(* Strings, bags and exact decimals used by all the other modules.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == "~"                         \* an absent attribute, element or value
ANY  == 999999999                   \* an attribute the document does not give

Range(s) == {s[i] : i \in DOMAIN s}
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
\* the sequences a and b hold the same values equally often
BagEq(a, b) == /\ Len(a) = Len(b)
               /\ \A x \in Range(a) : Count(x, a) = Count(x, b)
NoDup(s) == Cardinality(Range(s)) = Len(s)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
FlatMap(f(_), s) == Flatten([i \in DOMAIN s |-> f(s[i])])
Keep(s, f(_)) == SelectSeq(s, f)

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

\* ---- strings ----
Ch(s, i) == SubSeq(s, i, i)
Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digits |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
                                [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] OTHER -> 9]
AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]

\* ---- Gregorian dates written YYYY-MM-DD ----
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
IsDate(s) == /\ Len(s) = 10
             /\ Ch(s, 5) = "-" /\ Ch(s, 8) = "-"
             /\ AllDigits(SubSeq(s, 1, 4) \o SubSeq(s, 6, 7) \o SubSeq(s, 9, 10))
             /\ LET y == NatOf(SubSeq(s, 1, 4)) m == NatOf(SubSeq(s, 6, 7)) d == NatOf(SubSeq(s, 9, 10))
                IN y \in 1..9999 /\ m \in 1..12 /\ d \in 1..MonthDays(y, m)
DateNum(s) == 10000 * NatOf(SubSeq(s, 1, 4)) + 100 * NatOf(SubSeq(s, 6, 7)) + NatOf(SubSeq(s, 9, 10))

\* ---- exact decimals: residues modulo primes; two decimals with at most 6 places and fewer than 18 digits are equal
\*      exactly if all their residues are (the product of the primes exceeds 10^27) ----
Primes == {46337, 46327, 46309, 46307, 46301, 46279}
RECURSIVE Res(_, _)
Res(s, p) == IF s = "" THEN 0 ELSE (10 * Res(SubSeq(s, 1, Len(s) - 1), p) + DigitVal[Ch(s, Len(s))]) % p
IsNumber(s) == LET t == IF StartsWith(s, "-") THEN SubSeq(s, 2, Len(s)) ELSE s
                   dots == {i \in 1..Len(t) : Ch(t, i) = "."}
               IN /\ Cardinality(dots) <= 1
                  /\ \A i \in 1..Len(t) : i \in dots \/ Ch(t, i) \in Digits
                  /\ \E i \in 1..Len(t) : Ch(t, i) \in Digits
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
\* residue modulo p of s * 10^6
Micro(s, p) ==
  LET neg == StartsWith(s, "-")
      t == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      dots == {i \in 1..Len(t) : Ch(t, i) = "."}
      dot == IF dots = {} THEN Len(t) + 1 ELSE CHOOSE i \in dots : TRUE
      whole == SubSeq(t, 1, dot - 1)
      frac == IF dot >= Len(t) THEN "" ELSE SubSeq(t, dot + 1, Len(t))
      r == Res(whole \o frac \o Zeros(6 - Len(frac)), p)
  IN IF neg THEN (p - r) % p ELSE r
=============================================================================
