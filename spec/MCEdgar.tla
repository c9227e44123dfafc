------------------------------- MODULE MCEdgar -------------------------------
(* Every short listing, in every order, and every request for one form.       *)
EXTENDS Edgar

Most == NatOf(IOEnv.SIZE)

VARIABLES subs, q
vars == <<subs, q, edgar>>
Kinds == [form : {"10-K", "10-K/A", "10-Q"}, xbrl : {"true", "false"}, date : {"2019-12-31", "2020-12-31", ""}, there : {"true"}]
       \cup [form : {"10-K"}, xbrl : {"true"}, date : {"2021-01-01"}, there : {"true", "false"}]
Acc(i) == <<"0000000001-21-000001", "0000000001-21-000002", "0000000001-21-000003", "0000000001-21-000004">>[i]
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE {Append(l, k) : l \in Lists(n - 1), k \in Kinds}
Init ==
  /\ \E n \in 0..Most : \E l \in Lists(n) :
       subs = [i \in DOMAIN l |-> [form |-> l[i].form, xbrl |-> l[i].xbrl, date |-> l[i].date, there |-> l[i].there, acc |-> Acc(i), doc |-> "r.htm"]]
  /\ q \in {[cik |-> "1", form |-> "10-K", date |-> d] : d \in {NONE, "2019-12-31", "2021-01-01"}}
  /\ served = [ok |-> TRUE, subs |-> subs] /\ kept = [has |-> FALSE, subs |-> <<>>] /\ age = 0 /\ answer = {}
Next == answer = {} /\ Request(q) /\ UNCHANGED <<subs, q>>
Spec == Init /\ [][Next]_vars
ByAcc(a) == CHOOSE i \in DOMAIN subs : subs[i].acc = a
\* what is opened fits the request, can be opened, and nothing that fits is newer
Right == answer # {} => \A a \in answer \ {NONE} :
  LET s == subs[ByAcc(a)] IN /\ s.form = "10-K" /\ s.xbrl = "true" /\ s.there = "true"
                             /\ q.date # NONE => s.date = q.date
                             /\ \A i \in DOMAIN subs : (subs[i].form = "10-K" /\ subs[i].xbrl = "true" /\ (q.date = NONE \/ subs[i].date = q.date)) => Num(subs[i].date) <= Num(s.date)
\* a request is refused only if nothing fits or what is newest cannot be fetched
Refused == (NONE \in answer /\ ~\E i \in DOMAIN subs : subs[i].there = "false") => ~\E i \in DOMAIN subs : Fits(subs[i], q)
\* the order of the listing does not matter
Reverse(l) == [i \in DOMAIN l |-> l[Len(l) + 1 - i]]
OrderFree == answer # {} => answer = Answers(Reverse(subs), q)
Emit == IF answer = {} THEN TRUE ELSE PrintT("WORLD " \o ToJson([subs |-> subs, q |-> q]))
=============================================================================
