------------------------------ MODULE MCNumbers ------------------------------
(* Writes every short text over the characters that matter to a format, one   *)
(* character at a time, with scales and signs, and checks what Numbers says   *)
(* about it by other means.                                                   *)
EXTENDS Numbers, Json, IOUtils

MaxLen == NatOf(IOEnv.SIZE)
Scales == {NONE, "2", "-3"}
Signs == {NONE, "-"}
Fmts == NumFormats \cup {NONE, "ixt:fixed-zero", "ixt:numcommadot", "ixt:numdotcomma", "ixt:num-other"}

Alphabet(fmt) ==
  LET f == Current(fmt) IN
  IF f = NONE THEN {"0", "1", "5", ".", "-", " "}
  ELSE IF f \in {"ixt:fixed-zero", "ixt:num-other"} THEN {"0", "-", "x"}
  ELSE IF IsUnit(f) THEN {"0", "1", "7", ".", ",", "s", "wide"} \cup (IF HasApos(f) THEN {"'"} ELSE {})
  ELSE {"0", "1", "7", ".", ",", IF Point(f) = "." THEN " " ELSE "nbsp", "-"} \cup (IF HasApos(f) THEN {"'", "quote"} ELSE {})

\* (a state holds ASCII only: TLC's queue on disk keeps nothing else)
Char(c) == CASE c = "wide" -> WideComma [] c = "quote" -> RightQuote [] c = "nbsp" -> Nbsp [] OTHER -> c

VARIABLES fmt, scale, sign, cs, st
vars == <<fmt, scale, sign, cs, st>>
RECURSIVE Spelt(_)
Spelt(s) == IF s = <<>> THEN "" ELSE Char(s[1]) \o Spelt(Tail(s))
t == Spelt(cs)
Scanned == Current(fmt) \in NumFormats
Init == fmt \in Fmts /\ scale \in Scales /\ sign \in Signs /\ cs = <<>> /\ st = Blank
Write == /\ Len(cs) < MaxLen
         /\ \E c \in Alphabet(fmt) : cs' = Append(cs, c) /\ st' = IF Scanned THEN Scan(Current(fmt), st, Char(c)) ELSE st
         /\ UNCHANGED <<fmt, scale, sign>>
Spec == Init /\ [][Write]_vars

Trimmed == Strip(t)
Result == NumberOf(fmt, scale, sign, t)
Value == Result.v
HasValue == Result.k = "value"

\* reading character by character gives what reading the whole text gives
Stepwise == Scanned => (HasValue <=> Complete(Current(fmt), st))

\* no superfluous zeros, no signed zero
Unsigned == IF StartsWith(Value, "-") THEN SubSeq(Value, 2, Len(Value)) ELSE Value
Dots(s) == {i \in 1..Len(s) : Ch(s, i) = "."}
Tidy == HasValue =>
  /\ IsNumber(Value) /\ Unsigned # ""
  /\ Ch(Unsigned, 1) # "." /\ (Ch(Unsigned, 1) = "0" => Len(Unsigned) = 1 \/ Ch(Unsigned, 2) = ".")
  /\ Dots(Unsigned) # {} => Ch(Unsigned, Len(Unsigned)) \notin {"0", "."}
  /\ Value # "-0"

\* the value times a power of ten is the number that the digits make, modulo each prime
RECURSIVE OnlyDigits(_)
OnlyDigits(s) == IF s = "" THEN "" ELSE (IF IsDigit(Ch(s, 1)) THEN Ascii(Ch(s, 1)) ELSE "") \o OnlyDigits(SubSeq(s, 2, Len(s)))
RECURSIVE NoDots(_)
NoDots(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "." THEN "" ELSE Ch(s, 1)) \o NoDots(SubSeq(s, 2, Len(s)))
Places(s) == IF Dots(s) = {} THEN 0 ELSE Len(s) - (CHOOSE i \in Dots(s) : TRUE)
RECURSIVE Pow10(_, _)
Pow10(n, p) == IF n <= 0 THEN 1 % p ELSE (10 * Pow10(n - 1, p)) % p
\* how many of the digits stand after the point (a unit has two minor digits, or one that counts for two places)
Minor == IF IsUnit(Current(fmt)) THEN 2 ELSE Len(st.f)
Exact == HasValue /\ Scanned =>
  LET shift == Minor - (IF scale = NONE THEN 0 ELSE IntOf(scale))
      up == IF shift > 0 THEN shift ELSE 0
      down == IF shift < 0 THEN 0 - shift ELSE 0
      \* a single minor digit stands for tens of hundredths after a zero: u5 is 05
      d == IF IsUnit(Current(fmt)) /\ Len(st.f) = 1 THEN SubSeq(OnlyDigits(t), 1, Len(OnlyDigits(t)) - 1) \o "0" \o st.f ELSE OnlyDigits(t)
  IN \A p \in Primes : (Res(NoDots(Unsigned), p) * Pow10(up, p)) % p = (Res(d, p) * Pow10(Places(Unsigned) + down, p)) % p
\* only the sign attribute makes a value negative
SignOnly == HasValue => (StartsWith(Value, "-") => sign = "-")
\* grouping does not matter
RECURSIVE Ungrouped(_)
Ungrouped(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in Groups(Current(fmt)) THEN "" ELSE Ch(s, 1)) \o Ungrouped(SubSeq(s, 2, Len(s)))
GroupingFree == HasValue /\ Scanned /\ ~IsUnit(Current(fmt)) /\ (st.ph = "frac" => st.f # "") => NumberOf(fmt, scale, sign, Ungrouped(t)) = Result

Emit == IF Result.k = "open" \/ Trimmed # t THEN TRUE
        ELSE PrintT("NUM " \o ToJson([fmt |-> fmt, scale |-> scale, sign |-> sign, text |-> t, k |-> Result.k, v |-> Value]))
=============================================================================
