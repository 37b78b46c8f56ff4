--------------------------- MODULE ScheduleReplay ---------------------------
(* Time-triggered execution of a recorded schedule.  Times are integers: one time unit is `scale` ticks,
   where scale is a common denominator of every recorded time whenever one is small enough (otherwise times
   are rounded, and `eps` covers the rounding accumulated over the execution).  Firing k of task t starts at the
   time the schedule announces, whether or not its tokens are there, and ends DurOf later:

     Produce(t)  the oldest running firing of t ends (ends happen eps early)
     Consume(t)  the next firing of t starts

   events happen in time order, ends before starts.  The execution covers the initial part and two
   hyperperiods after every task has entered its periodic regime.
   Recs[gi] = [graph, q, scale, eps, omega, hyper, sched |-> <<[is |-> <<starts>>, p |-> period, ps |-> <<starts>>]>>] *)
EXTENDS Common
Recs == JsonDeserialize(IOEnv.VF_INPUT)
VARIABLES gi, fs, fe, tok, base, st
\* fs, fe: firings started / ended per task;  base: fs and tok when the periodic regime is reached
vars == <<gi, fs, fe, tok, base, st>>
R == Recs[gi]
g == R.graph
\* start time of firing k (1, 2, ...) of task t
StartTime(r, t, k) ==
  LET s == r.sched[t]  n == Len(s.is)  m == Len(s.ps) IN
  IF k <= n THEN s.is[k] ELSE s.ps[((k - n - 1) % m) + 1] + ((k - n - 1) \div m) * s.p
EndTime(r, t, k) == StartTime(r, t, k) + DurOf(r.graph, t, PhOf(r.graph, t, k)) * r.scale - r.eps
\* from this time on every task is in its periodic regime and has completed a period
RECURSIVE MaxOf(_)
MaxOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Max(x, MaxOf(S \ {x}))
Regime == [i \in 1 .. Len(Recs) |-> LET r == Recs[i] IN
            MaxOf({r.sched[t].p + MaxOf(Range(r.sched[t].ps)) + r.scale * MaxOf(Range(r.graph.tasks[t].dur)) : t \in Tasks(r.graph)})]
Horizon == Regime[gi] + 2 * R.hyper
WellFormed == /\ R.omega > 0 /\ Len(R.sched) = Len(g.tasks)
              /\ \A t \in Tasks(g) : R.sched[t].p > 0 /\ Len(R.sched[t].ps) > 0
\* the period of every task matches the announced graph period:  p * q = omega * (cycles of phases started per period)
RateMatches == LET r == Recs[gi] IN (r.omega > 0 /\ Len(r.sched) = Len(r.graph.tasks)) => \A t \in Tasks(r.graph) :
   LET lhs == r.sched[t].p * r.q[t] * NPh(r.graph, t)  rhs == r.omega * Len(r.sched[t].ps)
   IN Abs(lhs - rhs) <= r.eps * (r.q[t] * NPh(r.graph, t) + Len(r.sched[t].ps))
Init == /\ gi \in 1 .. Len(Recs) /\ fs = [t \in Tasks(g) |-> 0] /\ fe = fs
        /\ tok = [c \in Chans(g) |-> g.chans[c].m0] /\ base = <<>> /\ st = IF ~WellFormed THEN "malformed" ELSE IF RateMatches THEN "run" ELSE "stop"
Ends == {t \in Tasks(g) : fe[t] < fs[t]}
NextS(t) == StartTime(R, t, fs[t] + 1)
NextE(t) == EndTime(R, t, fe[t] + 1)
TMin(S, f(_)) == CHOOSE t \in S : \A u \in S : f(t) < f(u) \/ (f(t) = f(u) /\ t <= u)
S0 == TMin(Tasks(g), NextS)
\* at one instant firings that take no time feed each other: a firing whose tokens are there goes first
Ready(t) == /\ \A c \in Chans(g) : g.chans[c].dst = t => tok[c] >= Cons(g.chans[c], PhOf(g, t, fs[t] + 1))
            /\ g.tasks[t].reent = 1 => fs[t] = fe[t]
AtOnce == {t \in Tasks(g) : NextS(t) <= NextS(S0) + R.eps /\ Ready(t)}
Starter == IF AtOnce = {} THEN S0 ELSE TMin(AtOnce, NextS)
Now == IF Ends = {} THEN NextS(S0) ELSE Min(NextE(TMin(Ends, NextE)), NextS(S0))
Produce(t) == /\ st = "run" /\ Ends # {} /\ t = TMin(Ends, NextE) /\ NextE(t) <= NextS(S0) /\ Now <= Horizon
              /\ fe' = [fe EXCEPT ![t] = @ + 1]
              /\ tok' = [c \in Chans(g) |-> IF g.chans[c].src = t THEN tok[c] + Prod(g.chans[c], PhOf(g, t, fe[t] + 1)) ELSE tok[c]]
              /\ UNCHANGED <<gi, fs, base, st>>
Consume(t) == /\ st = "run" /\ t = Starter /\ Now <= Horizon
              /\ IF Ends = {} THEN TRUE ELSE NextS(S0) < NextE(TMin(Ends, NextE))
              /\ fs' = [fs EXCEPT ![t] = @ + 1]
              /\ tok' = [c \in Chans(g) |-> IF g.chans[c].dst = t THEN tok[c] - Cons(g.chans[c], PhOf(g, t, fs[t] + 1)) ELSE tok[c]]
              /\ UNCHANGED <<gi, fe, base, st>>
Stop == /\ st = "run" /\ Now > Horizon /\ st' = "done" /\ UNCHANGED <<gi, fs, fe, tok, base>>
Fine == (\A c \in Chans(g) : tok[c] >= 0) /\ (\A t \in Tasks(g) : g.tasks[t].reent = 1 => fs[t] - fe[t] <= 1)
Next == Fine /\ (Stop \/ \E t \in Tasks(g) : Produce(t) \/ Consume(t))   \* nothing is executed after a violation
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Formed == st # "malformed"
InputsThere == \A c \in Chans(g) : tok[c] >= 0
NoOverlap == \A t \in Tasks(g) : g.tasks[t].reent = 1 => fs[t] - fe[t] <= 1
\* starts of one task are announced in firing order
InOrder == (st = "run" /\ ~(\E t \in Tasks(g) : fs[t] = 0)) => \A t \in Tasks(g) : StartTime(R, t, fs[t]) <= NextS(t)
=============================================================================
