---------------------------- MODULE AsapSchedule ----------------------------
(* The schedule printed by the as-soon-as-possible scheduler against the self-timed machine: the
   machine is executed with an absolute clock, every start is compared with the start time the schedule
   gives to that firing (initial starts, then the periodic starts shifted by whole task periods), and
   the announced period must be the one of the recurrence the machine runs into.
   Recs[i].sched[t] = [init, per, starts]: starts in time units, for at least two turns of every task.*)
EXTENDS SelfTimed
VARIABLES clock, fired, bad
avars == <<gi, cap, comp, tok, spc, ph, busy, now, cnt, ref, age, lim, thr, st, clock, fired, bad>>

S(t) == Recs[gi].sched[t]
\* start time of the n-th firing (from 1) of t in the schedule
StartOfFiring(t, n) ==
  LET s == S(t) k == Len(s.init) m == n - k - 1 l == Len(s.starts)
  IN IF n <= k THEN s.init[n] ELSE s.starts[(m % l) + 1] + (m \div l) * s.per
Target(t) == Len(S(t).init) + 2 * Len(S(t).starts) + 1
Seen == \A t \in Tasks(g) : fired[t] >= Target(t)
WellFormed == \A t \in Tasks(g) : Len(S(t).starts) > 0 /\ S(t).per >= 0

AInit == Init /\ clock = 0 /\ fired = Zero(gi) /\ bad = <<>>
AStart(t) == /\ Start(t) /\ bad = <<>>
             /\ fired' = [fired EXCEPT ![t] = @ + 1]
             /\ bad' = IF ~WellFormed THEN <<"no schedule">>
                       ELSE IF StartOfFiring(t, fired[t] + 1) # clock THEN <<t, fired[t] + 1, clock>> ELSE <<>>
             /\ UNCHANGED clock
AEnd(t) == End(t) /\ bad = <<>> /\ UNCHANGED <<clock, fired, bad>>
ATick == /\ st = "run" /\ Quiet /\ Running # {} /\ bad = <<>>
         /\ ~(ref = Config /\ Seen)
         /\ Advance
         /\ clock' = clock + SetMin({busy[t][1].rem : t \in Running})
         /\ UNCHANGED <<fired, bad>>
ARecur == Recur /\ Seen /\ UNCHANGED <<clock, fired, bad>>
ADeadlock == Deadlock /\ UNCHANGED <<clock, fired, bad>>
ANext == \/ \E t \in Tasks(g) : AStart(t) \/ AEnd(t)
         \/ ATick \/ ARecur \/ ADeadlock
ASpec == AInit /\ [][ANext]_avars
-----------------------------------------------------------------------------
EarliestStarts == bad = <<>>
\* the announced period, and every task's own: <<num, den>> as printed
PeriodOk == st = "done" =>
  /\ Recs[gi].period[1] * thr[1] = Recs[gi].period[2] * thr[2]
  /\ \A t \in Tasks(g) : S(t).per * thr[1] * Recs[gi].q[t] * NPh(g, t) = Len(S(t).starts) * thr[2]
=============================================================================
