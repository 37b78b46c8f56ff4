------------------------------ MODULE Validator ------------------------------
(* The verdict of the schedule validator against the time-triggered execution of the schedule itself.
   Firing k of task t starts exactly when the schedule says and ends DurOf later:

     Produce(t, k)  the running firing k of t ends (ends happen before starts of the same instant)
     Consume(t)     the next firing of t starts, whether or not its tokens are there
     Stop           every task has been in its periodic regime for an iteration and the longest firing

   From Stop on everything repeats, so an execution that reaches it without a missing token and without two
   overlapping firings of a non-reentrant task can go on forever: such a schedule is valid, any other is not.
   Recs[gi] = [graph, omega, sched |-> <<[is |-> <<starts>>, p |-> period, ps |-> <<starts>>]>>, verdict |-> "yes" | "no" | other]
   All times are integers. *)
EXTENDS Common
Recs == JsonDeserialize(IOEnv.VF_INPUT)
VARIABLES gi, fs, run, tok, st
vars == <<gi, fs, run, tok, st>>
R == Recs[gi]
g == R.graph
StartTime(r, t, k) ==
  LET s == r.sched[t]  n == Len(s.is)  m == Len(s.ps) IN
  IF k <= n THEN s.is[k] ELSE s.ps[((k - n - 1) % m) + 1] + ((k - n - 1) \div m) * s.p
EndTime(r, t, k) == StartTime(r, t, k) + DurOf(r.graph, t, PhOf(r.graph, t, k))
RECURSIVE MaxOf(_)
MaxOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Max(x, MaxOf(S \ {x}))
Horizons == [i \in 1 .. Len(Recs) |-> LET r == Recs[i] IN
              MaxOf({r.sched[t].ps[1] : t \in Tasks(r.graph)}) + r.omega + MaxOf(UNION {Range(r.graph.tasks[t].dur) \cup Range(r.graph.tasks[t].init) : t \in Tasks(r.graph)})]
Horizon == Horizons[gi]
Init == /\ gi \in 1 .. Len(Recs) /\ fs = [t \in Tasks(g) |-> 0] /\ run = [t \in Tasks(g) |-> {}]
        /\ tok = [c \in Chans(g) |-> g.chans[c].m0] /\ st = "run"
NextS(t) == StartTime(R, t, fs[t] + 1)
S0 == CHOOSE t \in Tasks(g) : \A u \in Tasks(g) : NextS(t) < NextS(u) \/ (NextS(t) = NextS(u) /\ t <= u)
\* firings that take no time feed each other within an instant: one whose tokens are there goes first
Ready(t) == \A c \in Chans(g) : g.chans[c].dst = t => tok[c] >= Cons(g.chans[c], PhOf(g, t, fs[t] + 1))
AtOnce == {t \in Tasks(g) : NextS(t) = NextS(S0) /\ Ready(t)}
Starter == IF AtOnce = {} THEN S0 ELSE SetMin(AtOnce)
Running == {<<t, k>> \in UNION {{t} \X run[t] : t \in Tasks(g)} : TRUE}
FirstEnd == CHOOSE x \in Running : \A y \in Running : LET a == EndTime(R, x[1], x[2])  b == EndTime(R, y[1], y[2]) IN
                a < b \/ (a = b /\ (x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])))
EndFirst == Running # {} /\ EndTime(R, FirstEnd[1], FirstEnd[2]) <= NextS(S0)
Produce(t, k) == /\ st = "run" /\ NextS(S0) <= Horizon /\ EndFirst /\ FirstEnd = <<t, k>>
                 /\ run' = [run EXCEPT ![t] = @ \ {k}]
                 /\ tok' = [c \in Chans(g) |-> IF g.chans[c].src = t THEN tok[c] + Prod(g.chans[c], PhOf(g, t, k)) ELSE tok[c]]
                 /\ UNCHANGED <<gi, fs, st>>
Consume(t) == /\ st = "run" /\ NextS(S0) <= Horizon /\ ~EndFirst /\ t = Starter
              /\ fs' = [fs EXCEPT ![t] = @ + 1] /\ run' = [run EXCEPT ![t] = @ \cup {fs[t] + 1}]
              /\ tok' = [c \in Chans(g) |-> IF g.chans[c].dst = t THEN tok[c] - Cons(g.chans[c], PhOf(g, t, fs[t] + 1)) ELSE tok[c]]
              /\ UNCHANGED <<gi, st>>
Fine == (\A c \in Chans(g) : tok[c] >= 0) /\ (\A t \in Tasks(g) : g.tasks[t].reent = 1 => Cardinality(run[t]) <= 1)
Stop == st = "run" /\ NextS(S0) > Horizon /\ st' = "valid" /\ UNCHANGED <<gi, fs, run, tok>>
Refuse == st = "run" /\ ~Fine /\ st' = "invalid" /\ UNCHANGED <<gi, fs, run, tok>>
Next == IF Fine THEN (Stop \/ \E t \in Tasks(g) : Consume(t) \/ \E k \in run[t] : Produce(t, k)) ELSE Refuse
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the recorded schedule progresses at one rate (what the generator promises)
RateMatches == \A t \in Tasks(g) : R.sched[t].p > 0 /\ Len(R.sched[t].ps) > 0 /\ R.sched[t].p * R.q[t] * NPh(g, t) = R.omega * Len(R.sched[t].ps)
AcceptsValid == st = "valid" => R.verdict = "yes"
RefusesInvalid == st = "invalid" => R.verdict = "no"
=============================================================================
