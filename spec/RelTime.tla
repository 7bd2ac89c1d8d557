------------------------------ MODULE RelTime -------------------------------
(***************************************************************************)
(* Relative times.  A specifier is an offset (or none), the unit to snap   *)
(* to, and an offset after the snap (or none); it denotes a function on    *)
(* instants.  An instant is a day (days since 1970-01-01) and the second   *)
(* in that day; the calendar is the Gregorian one.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Nums, Units, Signs, Instants, Afters

VARIABLES phase, text, off, snap, aft
vars == <<phase, text, off, snap, aft>>

(* Calendar *)
CivilOf(z0) == LET z == z0 + 719468  era == z \div 146097  doe == z - era * 146097
                   yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
                   doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
                   mp == (5 * doy + 2) \div 153
                   mo == IF mp < 10 THEN mp + 3 ELSE mp - 9
               IN [y |-> yoe + era * 400 + (IF mo <= 2 THEN 1 ELSE 0), m |-> mo, d |-> doy - (153 * mp + 2) \div 5 + 1]
DayOf(y0, m, d) == LET y == IF m <= 2 THEN y0 - 1 ELSE y0
                       era == y \div 400  yoe == y - era * 400
                       doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
                       doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
                   IN era * 146097 + doe - 719468
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
I(dn, sn) == [day |-> dn, sec |-> sn]
Shift(t, secs) == LET s == t.sec + secs IN I(t.day + s \div 86400, s % 86400)
AddMonths(t, n) == LET c == CivilOf(t.day)  k == c.y * 12 + (c.m - 1) + n  y == k \div 12  m == (k % 12) + 1
                       d == IF c.d > MonthLen(y, m) THEN MonthLen(y, m) ELSE c.d
                   IN I(DayOf(y, m, d), t.sec)
Plus(t, n, u) == CASE u = "second" -> Shift(t, n) [] u = "minute" -> Shift(t, 60 * n) [] u = "hour" -> Shift(t, 3600 * n)
                   [] u = "day" -> I(t.day + n, t.sec) [] u = "week" -> I(t.day + 7 * n, t.sec) [] u = "month" -> AddMonths(t, n)
Snap(t, u) == CASE u = "second" -> t [] u = "minute" -> I(t.day, t.sec - (t.sec % 60)) [] u = "hour" -> I(t.day, t.sec - (t.sec % 3600))
                [] u = "day" -> I(t.day, 0)
                [] u = "week" -> I(t.day - ((t.day + 4) % 7), 0)          \* weeks begin on Sunday; 1970-01-01 was a Thursday
                [] u = "month" -> I(t.day - CivilOf(t.day).d + 1, 0)

(* Spellings of the units *)
Unit == [seconds |-> "second", second |-> "second", secs |-> "second", sec |-> "second", s |-> "second",
         minutes |-> "minute", minute |-> "minute", mins |-> "minute", min |-> "minute", m |-> "minute",
         hours |-> "hour", hour |-> "hour", hrs |-> "hour", hr |-> "hour", h |-> "hour", days |-> "day", day |-> "day", d |-> "day",
         weeks |-> "week", week |-> "week", w |-> "week", w0 |-> "week", w7 |-> "week", months |-> "month", month |-> "month", mon |-> "month",
         D |-> "day", H |-> "hour", Mon |-> "month", DAYS |-> "day", Week |-> "week", M |-> "minute"]
OffsetUnits == DOMAIN Unit \ {"w0", "w7"}

-----------------------------------------------------------------------------
None == <<0, "second">>
Init == phase = "offset" /\ text = "" /\ off = None /\ snap = "" /\ aft = None
Offset(sg, n, u) == /\ phase = "offset" /\ phase' = "snap"
                    /\ text' = sg \o ToString(n) \o u /\ off' = <<IF sg = "-" THEN -n ELSE n, Unit[u]>> /\ UNCHANGED <<snap, aft>>
One(sg, u) == /\ phase = "offset" /\ phase' = "snap"
              /\ text' = sg \o u /\ off' = <<IF sg = "-" THEN -1 ELSE 1, Unit[u]>> /\ UNCHANGED <<snap, aft>>
SnapTo(u) == /\ phase \in {"offset", "snap"} /\ phase' = "done"
             /\ text' = text \o "@" \o u /\ snap' = Unit[u] /\ UNCHANGED <<off, aft>>
After(sg, n, u) == /\ phase = "done" /\ aft = None /\ phase' = "end"
                   /\ text' = text \o sg \o ToString(n) \o u /\ aft' = <<IF sg = "-" THEN -n ELSE n, Unit[u]>> /\ UNCHANGED <<off, snap>>
Next == \/ \E sg \in Signs : \E u \in Units \cap OffsetUnits : One(sg, u) \/ \E n \in Nums : Offset(sg, n, u)
        \/ \E u \in Units : SnapTo(u)
        \/ \E sg \in Signs : \E u \in Afters : \E n \in Nums : (sg = "" => snap # "week") /\ After(sg, n, u)   \* @w7...: a digit belongs to the unit
Spec == Init /\ [][Next]_vars

At(t) == LET a == Plus(t, off[1], off[2])  b == Snap(a, snap) IN Plus(b, aft[1], aft[2])
Valid(t) == t.sec \in 0..86399
\* the calendar is consistent, snapping is idempotent and never goes forward
Sane == \A t \in Instants : /\ LET c == CivilOf(t.day) IN DayOf(c.y, c.m, c.d) = t.day
                            /\ phase \in {"done", "end"} => LET a == Plus(t, off[1], off[2]) s == Snap(a, snap) IN
                                  /\ Valid(At(t)) /\ Snap(s, snap) = s /\ (s.day < a.day \/ (s.day = a.day /\ s.sec <= a.sec))
Emit == phase \in {"done", "end"} =>
          PrintT("@@" \o ToJson([s |-> text, o |-> off, n |-> snap, a |-> aft, v |-> [t \in {ToString(x.day) \o ":" \o ToString(x.sec) : x \in Instants} |->
              LET x == CHOOSE y \in Instants : ToString(y.day) \o ":" \o ToString(y.sec) = t IN <<At(x).day, At(x).sec>>]]))
=============================================================================
