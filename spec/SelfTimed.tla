------------------------------ MODULE SelfTimed ------------------------------
(* The execution semantics of a cyclo-static dataflow graph: the as-soon-as-possible (self-timed)
   machine.  One behaviour executes one recorded graph (Recs[gi]); the strongly connected parts of a
   graph with unbounded channels are executed one after the other (a graph whose channels all have a
   capacity is executed as a whole).

     Start(t)  a firing begins: its input tokens (and its output space) are there and the task is free
     End(t)    a firing whose time is up delivers its tokens (and frees its input space)
     Tick      only when nothing else can happen: time advances to the next completion

   A part is finished when a configuration recurs at a Tick (Brent: the stored configuration is
   replaced at every power of two), or when nothing is running any more (deadlock).  thr is the
   minimum over the parts of  iterations / time.  Whole executions are bounded by nothing but the
   recurrence itself. *)
EXTENDS Common

CONSTANTS AnyOrder   \* TRUE: all interleavings of simultaneous events; FALSE: one canonical order

Recs == JsonDeserialize(IOEnv.VF_INPUT)   \* sequence of records [graph, q, cap, ans, ...]

VARIABLES gi,    \* which record
          cap,   \* capacity per channel (<<>> when unbounded)
          comp,  \* which part is being executed
          tok,   \* tokens per channel
          spc,   \* free space per channel (<<>> when unbounded)
          ph,    \* next phase per task
          busy,  \* running firings per task: sequence of [rem, ph]
          now, cnt,   \* time and firings per task since the stored configuration
          ref,   \* stored configuration
          age, lim,   \* ticks since ref was stored / ticks after which it is replaced
          thr,   \* minimum throughput over the finished parts (<<1,0>> stands for infinity)
          st     \* "run" or "done"
vars == <<gi, cap, comp, tok, spc, ph, busy, now, cnt, ref, age, lim, thr, st>>

Gr(i) == Recs[i].graph
\* constant tables: evaluated once by TLC
PARTS == [i \in 1 .. Len(Recs) |-> IF Len(Recs[i].cap) > 0 THEN <<Tasks(Gr(i))>> ELSE Sccs(Gr(i))]
INS   == [i \in 1 .. Len(Recs) |-> [t \in Tasks(Gr(i)) |-> InC(Gr(i), t)]]
OUTS  == [i \in 1 .. Len(Recs) |-> [t \in Tasks(Gr(i)) |-> OutC(Gr(i), t)]]
INTERNAL == [i \in 1 .. Len(Recs) |-> [k \in DOMAIN PARTS[i] |->
               {c \in Chans(Gr(i)) : Gr(i).chans[c].src \in PARTS[i][k] /\ Gr(i).chans[c].dst \in PARTS[i][k]}]]

g      == Gr(gi)
Bounded == Len(cap) > 0
Part   == PARTS[gi][comp]
Ins(t)  == INS[gi][t] \cap INTERNAL[gi][comp]
Outs(t) == OUTS[gi][t] \cap INTERNAL[gi][comp]

\* the capacity vectors to execute: the one of the record, or every vector at least rec.cap whose total
\* is below rec.below
RECURSIVE Vectors(_, _)
Vectors(lo, room) ==
  IF lo = <<>> THEN {<<>>}
  ELSE UNION {{<<Head(lo) + x>> \o v : v \in Vectors(Tail(lo), room - x)} : x \in 0 .. room}
Caps(i) == IF "below" \in DOMAIN Recs[i]
           THEN LET room == Recs[i].below - 1 - Sum(Recs[i].cap) IN IF room < 0 THEN {} ELSE Vectors(Recs[i].cap, room)
           ELSE {Recs[i].cap}
InitTok(i) == [c \in Chans(Gr(i)) |-> Gr(i).chans[c].m0]
InitSpc(i, k) == IF Len(k) > 0 THEN [c \in Chans(Gr(i)) |-> k[c] - Gr(i).chans[c].m0] ELSE <<>>
InitPh(i)   == [t \in Tasks(Gr(i)) |-> 1]
InitBusy(i) == [t \in Tasks(Gr(i)) |-> <<>>]
Zero(i)     == [t \in Tasks(Gr(i)) |-> 0]

Config == <<tok, spc, ph, busy>>

Init ==
  /\ gi \in 1 .. Len(Recs)
  /\ cap \in Caps(gi)
  /\ comp = 1
  /\ tok = InitTok(gi) /\ spc = InitSpc(gi, cap) /\ ph = InitPh(gi) /\ busy = InitBusy(gi)
  /\ now = 0 /\ cnt = Zero(gi)
  /\ ref = <<>> /\ age = 0 /\ lim = 1
  /\ thr = <<1, 0>> /\ st = "run"

CanStart(t) ==
  /\ t \in Part
  /\ g.tasks[t].reent = 0 \/ busy[t] = <<>>
  /\ \A c \in Ins(t) : tok[c] >= Cons(g.chans[c], ph[t])
  /\ Bounded => \A c \in Outs(t) : spc[c] >= Prod(g.chans[c], ph[t])

CanEnd(t) == busy[t] # <<>> /\ Head(busy[t]).rem = 0

StartOf(t) ==
  /\ tok' = [c \in Chans(g) |-> IF c \in Ins(t) THEN tok[c] - Cons(g.chans[c], ph[t]) ELSE tok[c]]
  /\ spc' = IF ~Bounded THEN spc
            ELSE [c \in Chans(g) |-> IF c \in Outs(t) THEN spc[c] - Prod(g.chans[c], ph[t]) ELSE spc[c]]
  /\ busy' = [busy EXCEPT ![t] = Append(@, [rem |-> DurOf(g, t, ph[t]), ph |-> ph[t]])]
  /\ ph' = [ph EXCEPT ![t] = NextPh(g, t, @)]
  /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<gi, cap, comp, now, ref, age, lim, thr, st>>

EndOf(t) ==
  LET p == Head(busy[t]).ph IN
  /\ tok' = [c \in Chans(g) |-> IF c \in Outs(t) THEN tok[c] + Prod(g.chans[c], p) ELSE tok[c]]
  /\ spc' = IF ~Bounded THEN spc
            ELSE [c \in Chans(g) |-> IF c \in Ins(t) THEN spc[c] + Cons(g.chans[c], p) ELSE spc[c]]
  /\ busy' = [busy EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<gi, cap, comp, ph, now, cnt, ref, age, lim, thr, st>>

Enders   == {t \in Part : CanEnd(t)}
Starters == {t \in Part : CanStart(t)}
\* completions first: a firing may use what is delivered at the same instant
End(t)   == /\ st = "run" /\ CanEnd(t)
            /\ AnyOrder \/ t = SetMin(Enders)
            /\ EndOf(t)
Start(t) == /\ st = "run" /\ CanStart(t)
            /\ AnyOrder \/ (Enders = {} /\ t = SetMin(Starters))
            /\ StartOf(t)

Quiet == Enders = {} /\ Starters = {}
Running == {t \in Part : busy[t] # <<>>}
Iters(t) == <<cnt[t], Recs[gi].q[t] * NPh(g, t) * now>>   \* iterations per time since ref

NextPart(x) ==   \* x: throughput of the part just finished
  LET m == IF thr[2] = 0 \/ (x[2] # 0 /\ RLt(x, thr)) THEN x ELSE thr IN
  /\ thr' = m
  /\ now' = 0 /\ cnt' = Zero(gi) /\ ref' = <<>> /\ age' = 0 /\ lim' = 1
  /\ IF comp < Len(PARTS[gi])
     THEN comp' = comp + 1 /\ st' = "run"
     ELSE comp' = comp /\ st' = "done"
  /\ tok' = InitTok(gi) /\ spc' = InitSpc(gi, cap) /\ ph' = InitPh(gi) /\ busy' = InitBusy(gi)
  /\ UNCHANGED <<gi, cap>>

Reduce(x) == LET k == Gcd(x[1], x[2]) IN IF k = 0 THEN x ELSE <<x[1] \div k, x[2] \div k>>

Deadlock == /\ st = "run" /\ Quiet /\ Running = {}
            /\ NextPart(<<0, 1>>)
Recur    == /\ st = "run" /\ Quiet /\ Running # {} /\ ref = Config
            /\ NextPart(Reduce(Iters(SetMin(Part))))
Advance  == LET d == SetMin({busy[t][1].rem : t \in Running}) IN
            /\ busy' = [t \in Tasks(g) |-> [k \in DOMAIN busy[t] |-> [busy[t][k] EXCEPT !.rem = @ - d]]]
            /\ IF age + 1 >= lim
               THEN ref' = Config /\ now' = d /\ cnt' = Zero(gi) /\ age' = 0 /\ lim' = 2 * lim
               ELSE ref' = ref /\ now' = now + d /\ cnt' = cnt /\ age' = age + 1 /\ lim' = lim
            /\ UNCHANGED <<gi, cap, comp, tok, spc, ph, thr, st>>
Tick     == /\ st = "run" /\ Quiet /\ Running # {} /\ ref # Config
            /\ Advance

Next == \/ \E t \in Tasks(g) : End(t) \/ Start(t)
        \/ Deadlock \/ Recur \/ Tick

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What holds of every execution *)
TokensNonNegative == \A c \in Chans(g) : tok[c] >= 0
NeverOverflows == Bounded => \A c \in Chans(g) : spc[c] >= 0 /\ tok[c] + spc[c] <= cap[c]
NoOverlap == \A t \in Tasks(g) : g.tasks[t].reent = 1 => Len(busy[t]) <= 1
InOrder == \A t \in Tasks(g) : \A k \in 1 .. Len(busy[t]) - 1 : busy[t][k].rem <= busy[t][k + 1].rem
\* every task of a part progresses at the same iteration rate over a recurrence
SameRate == (st = "run" /\ Quiet /\ ref = Config) =>
              \A t, u \in Part : cnt[t] * Recs[gi].q[u] * NPh(g, u) = cnt[u] * Recs[gi].q[t] * NPh(g, t)
Inputs == Balanced(g, Recs[gi].q) /\ Positive(g, Recs[gi].q)
=============================================================================
