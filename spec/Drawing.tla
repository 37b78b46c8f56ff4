------------------------------- MODULE Drawing -------------------------------
(* A recorded schedule is executed and the drawings of it are followed.  Times are integers, R.den of
   them make one unit.  Execution k (from 0) of task t starts at Start(t, k); its duration is that of its
   initial or cyclic phase.
     kind "line"   one column is one unit of time: the clock moves column by column and each task must show
                   '@' when an execution starts during the column, '#' when one is running and none starts
     kind "list"   the drawing is a sequence of boxes (task, start, duration): each is the next execution of its task
     kind "text"   the schedule itself is written down *)
EXTENDS Common
Recs == JsonDeserialize(IOEnv.VF_INPUT)
VARIABLES gi, clk, n, st
vars == <<gi, clk, n, st>>
R == Recs[gi]
T == 1 .. Len(R.tasks)
S(t) == R.sched[t]
Ini(t) == Len(S(t).is)
Per(t) == Len(S(t).ps)
Start(t, k) == IF k < Ini(t) THEN S(t).is[k + 1]
               ELSE S(t).ps[((k - Ini(t)) % Per(t)) + 1] + ((k - Ini(t)) \div Per(t)) * S(t).p
Inits(t) == Len(R.tasks[t].init)
Cyc(t) == Len(R.tasks[t].dur)
Dur(t, k) == IF k < Inits(t) THEN R.tasks[t].init[k + 1] ELSE R.tasks[t].dur[((k - Inits(t)) % Cyc(t)) + 1]
\* the executions that can matter before time x (a block of the periodic part starts at its smallest start)
Before(t, x) == LET m == SetMin({S(t).ps[k] : k \in 1 .. Per(t)}) IN
                0 .. Ini(t) - 1 + Per(t) * (IF x <= m THEN 1 ELSE (x - m) \div S(t).p + 2)
Init == gi \in 1 .. Len(Recs) /\ clk = 0 /\ n = [t \in T |-> 0] /\ st = "run"

\* ---- columns
Starting(t, c) == \E k \in Before(t, (c + 1) * R.den) : Start(t, k) \div R.den = c
Running(t, c)  == \E k \in Before(t, (c + 1) * R.den) : Start(t, k) < (c + 1) * R.den /\ Start(t, k) + Dur(t, k) > c * R.den
Symbol(t, c) == IF Starting(t, c) THEN "@" ELSE IF Running(t, c) THEN "#" ELSE " "
Column ==
  /\ st = "run" /\ R.kind = "line" /\ clk < R.width
  /\ clk' = clk + 1 /\ UNCHANGED <<gi, n>>
  /\ st' = IF \A t \in T : Len(R.rows[t]) = R.width /\ R.rows[t][clk + 1] = Symbol(t, clk) THEN "run" ELSE "wrong"
\* ---- boxes
B == R.boxes[clk + 1]
Box ==
  /\ st = "run" /\ R.kind = "list" /\ clk < Len(R.boxes)
  /\ clk' = clk + 1 /\ gi' = gi
  /\ IF B.t \in T /\ B.start = Start(B.t, n[B.t]) /\ B.dur = Dur(B.t, n[B.t]) /\ B.style = R.style[IF n[B.t] < Ini(B.t) THEN 1 ELSE IF n[B.t] < Ini(B.t) + Per(B.t) THEN 2 ELSE 3]
          /\ ("period" \in DOMAIN B => B.period = (IF n[B.t] < Ini(B.t) THEN -1 ELSE S(B.t).p))
     THEN n' = [n EXCEPT ![B.t] = @ + 1] /\ st' = "run"
     ELSE n' = n /\ st' = "wrong"
Finish == /\ st = "run" /\ clk = (IF R.kind = "line" THEN R.width ELSE IF R.kind = "list" THEN Len(R.boxes) ELSE 0)
          /\ st' = "end" /\ UNCHANGED <<gi, clk, n>>
Next == Column \/ Box \/ Finish
Spec == Init /\ [][Next]_vars

Answered == R.answered = 1
Follows == st # "wrong"
\* without an end the drawing covers one iteration of the graph (for tasks that take time)
RECURSIVE SumD(_)
SumD(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumD(Tail(s))
Whole(t) == IF R.tasks[t].n % Per(t) = 0 /\ SumD(R.tasks[t].dur) > 0 THEN R.tasks[t].n ELSE 0
\* all executions that start before the end of the drawing are drawn (R.until = -1: exactly the schedule as given, -2: the drawing chose its end)
Complete == (st = "end" /\ R.kind = "list") => \A t \in T :
   IF R.until = -1 THEN n[t] = Ini(t) + Per(t) ELSE IF R.until = -2 THEN n[t] >= Ini(t) + Whole(t) ELSE n[t] >= Ini(t) /\ \A k \in Before(t, R.until) : k >= n[t] => Start(t, k) >= R.until
NotTooMany == (st = "end" /\ R.kind = "list" /\ R.until >= 0) => \A t \in T : n[t] > Ini(t) => S(t).ps[1] + ((n[t] - 1 - Ini(t)) \div Per(t)) * S(t).p <= R.until
Written == R.kind = "text" => R.text = [t \in T |-> [id |-> R.tasks[t].id, name |-> R.tasks[t].name, is |-> S(t).is, p |-> S(t).p, ps |-> S(t).ps, init |-> R.tasks[t].init, dur |-> R.tasks[t].dur]]
Scaled == R.kind = "list" => R.height = 1
=============================================================================
