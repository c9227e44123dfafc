------------------------------- MODULE Edgar -------------------------------
(* A company's submissions at EDGAR, the listing kept locally, and requests   *)
(* for a filing.  A submission is [form, xbrl, date, acc, doc, there]: date   *)
(* may be "", there says whether its instance document can be fetched.       *)
EXTENDS Util, Json, IOUtils

VARIABLES
  served,   \* the listing EDGAR gives now; [ok |-> FALSE] if it gives none
  kept,     \* the listing kept locally: [has |-> FALSE] or the listing
  age,      \* its age in hours
  answer    \* what the last request may be answered with: accession numbers, or NONE for a refusal
edgar == <<served, kept, age, answer>>

Forms == {"10-K", "10-Q", "8-K"}
ValidRequest(q) == /\ Len(q.cik) <= 10 /\ q.form \in Forms
                   /\ q.date = NONE \/ IsDate(q.date)
Fits(s, q) == s.form = q.form /\ s.xbrl = "true" /\ (q.date = NONE \/ s.date = q.date)
Num(d) == IF d = "" THEN 0 ELSE DateNum(d)
\* the newest of the submissions that fit; those that share the date are equally new
Newest(subs, q) ==
  LET fit == {i \in DOMAIN subs : Fits(subs[i], q)} IN {subs[i] : i \in {i \in fit : \A j \in fit : Num(subs[j].date) <= Num(subs[i].date)}}
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Opens(s) == IF s.there = "true" /\ (EndsWith(s.doc, ".htm") \/ EndsWith(s.doc, ".xml")) THEN s.acc ELSE NONE
Answers(subs, q) == IF Newest(subs, q) = {} THEN {NONE} ELSE {Opens(s) : s \in Newest(subs, q)}

Publish(listing) == served' = listing /\ UNCHANGED <<kept, age, answer>>
Wait(hours) == age' = age + hours /\ UNCHANGED <<served, kept, answer>>
\* a listing is kept for a day; after two it is certainly asked for again
Request(q) ==
  /\ UNCHANGED served
  /\ IF ~ValidRequest(q) THEN answer' = {NONE} /\ UNCHANGED <<kept, age>>
     ELSE \/ /\ kept.has /\ age < 48
             /\ answer' = Answers(kept.subs, q) /\ UNCHANGED <<kept, age>>
          \/ /\ ~kept.has \/ age >= 24
             /\ IF served.ok THEN kept' = [has |-> TRUE, subs |-> served.subs] /\ age' = 0 /\ answer' = Answers(served.subs, q)
                ELSE answer' = {NONE} /\ UNCHANGED <<kept, age>>
=============================================================================
