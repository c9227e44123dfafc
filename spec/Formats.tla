------------------------------- MODULE Formats -------------------------------
(* The names of transformation formats and the tables of month names (kept    *)
(* in tables.json, because they are not ASCII).                               *)
EXTENDS Util, Json, IOUtils

Tables == JsonDeserialize(IOEnv.TABLES)
Nbsp == Tables.chars.nbsp
Acute == Tables.chars.acute
RightQuote == Tables.chars.rightquote
Prime == Tables.chars.prime
WideComma == Tables.chars.widecomma
WideApos == Tables.chars.wideapos

\* superseded names of the formats
Current(f) == IF f \in DOMAIN Tables.legacy THEN Tables.legacy[f] ELSE f

\* digits of other scripts
DigitMap == Tables.digits
IsDigit(c) == c \in Digits \/ (c \in DOMAIN DigitMap.full)
Ascii(c) == IF c \in DOMAIN DigitMap.full THEN DigitMap.full[c] ELSE IF c \in DOMAIN DigitMap.deva THEN DigitMap.deva[c] ELSE c
RECURSIVE AsciiAll(_)
AsciiAll(s) == IF s = "" THEN "" ELSE Ascii(Ch(s, 1)) \o AsciiAll(SubSeq(s, 2, Len(s)))

White == {" ", "\n", "\t", "\r", Nbsp}
RECURSIVE Strip(_)
Strip(s) == IF s = "" THEN s
            ELSE IF Ch(s, 1) \in White THEN Strip(SubSeq(s, 2, Len(s)))
            ELSE IF Ch(s, Len(s)) \in White THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
=============================================================================
