-------------------------------- MODULE MCSaka --------------------------------
(* Two clocks, one Gregorian and one of the Indian national calendar, that    *)
(* tick day by day from 22 March 1957 = 1 Chaitra 1879: the conversion agrees *)
(* with them on every day.                                                    *)
EXTENDS Dates
VARIABLES g, s
Init == g = <<1957, 3, 22>> /\ s = <<1879, 1, 1>>
NextG(x) == IF x[3] < MonthDays(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>> ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
NextS(x) == IF x[3] < SakaLength(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>> ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
Tick == g[1] < 2105 /\ g' = NextG(g) /\ s' = NextS(s)
Spec == Init /\ [][Tick]_<<g, s>>
Agree == FromSaka(s[1], s[2], s[3]) = g
=============================================================================
