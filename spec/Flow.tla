-------------------------------- MODULE Flow --------------------------------
(* The bufferless network-on-chip flow.  G is the modelled graph (tasks, links and routers crossed by every
   channel, each mapped on a node or a link of the network), M the graph the flow ends with.  The machine
   derives which router tasks use a common link of the same router (directly or through others): each such
   set has to be one task of M, everything else has to be untouched, and M is executed (untimed): every
   firing of a merged task has to be the next firing of one of its members.  A stall is a violation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, g, m |-> [tasks |-> <<[name, reent, init, dur, ins]>>, chans |-> <<[name, src, dst, pi, pp, ci, cp, m0, ts]>>],
\*  at |-> <<node or link of every task of g>>, routers |-> <<node ids>>, n |-> firings per iteration of every task of g]
\* src, dst, ins (channels a task reads) are positions
VARIABLES gi, cnt, tok, done, why, aux
vars == <<gi, cnt, tok, done, why, aux>>
R == Recs[gi]
G == R.g
M == R.m
SetOf(q) == {q[i] : i \in DOMAIN q}
T == DOMAIN G.tasks
IsRouter(i) == R.at[i] \in SetOf(R.routers)
Only(i, f) == CHOOSE j \in DOMAIN G.chans : (IF f THEN G.chans[j].dst ELSE G.chans[j].src) = i
InLink(i) == R.at[G.chans[Only(i, TRUE)].src]
OutLink(i) == R.at[G.chans[Only(i, FALSE)].dst]
RouterTasks == {i \in T : IsRouter(i)}
\* exclusive use: one crossbar setting at a time for the flows that enter or leave by the same link
Uses == [i \in RouterTasks |-> <<R.at[i], InLink(i), OutLink(i)>>]
RECURSIVE Grow(_, _)
Grow(S, u) == LET N == {j \in DOMAIN u : \E i \in S : u[j][1] = u[i][1] /\ (u[j][2] = u[i][2] \/ u[j][3] = u[i][3])} IN
              IF N \subseteq S THEN S ELSE Grow(S \cup N, u)
Bags == LET u == TLCEval(Uses) IN {b \in {Grow({i}, u) : i \in RouterTasks} : Cardinality(b) > 1}
Key(t) == [name |-> t.name, reent |-> t.reent, init |-> t.init, dur |-> t.dur]
ByName(q, x) == CHOOSE i \in DOMAIN q : q[i].name = x
HasName(q, x) == \E i \in DOMAIN q : q[i].name = x
Internal(c, B) == \E b \in B : c.src \in b /\ c.dst \in b
\* the task of M a task of G has become (0: none, or several)
Becomes(i, B) ==
  IF \E b \in B : i \in b
  THEN LET c == G.chans[Only(i, TRUE)] IN IF HasName(M.chans, c.name) THEN M.chans[ByName(M.chans, c.name)].dst ELSE 0
  ELSE IF HasName(M.tasks, G.tasks[i].name) THEN ByName(M.tasks, G.tasks[i].name) ELSE 0
Frame == LET B == TLCEval(Bags)
             E == TLCEval([i \in T |-> Becomes(i, B)])
             I == TLCEval(UNION B)
             In(i) == i \in I IN
  /\ \A i, j \in T : i # j => (E[i] = E[j]) = (\E b \in B : i \in b /\ j \in b)
  /\ {E[i] : i \in T} = DOMAIN M.tasks
  /\ \A i \in T : ~In(i) => Key(M.tasks[E[i]]) = Key(G.tasks[i])
  /\ \A i \in T : In(i) => M.tasks[E[i]].reent = 1
  /\ Len(M.chans) = Cardinality({j \in DOMAIN G.chans : ~Internal(G.chans[j], B)})
  /\ \A j \in DOMAIN G.chans : LET c == G.chans[j] IN ~Internal(c, B) =>
       /\ HasName(M.chans, c.name)
       /\ LET h == M.chans[ByName(M.chans, c.name)] IN
            /\ h.m0 = c.m0 /\ h.ts = c.ts /\ h.src = E[c.src] /\ h.dst = E[c.dst]
            /\ ~In(c.src) => h.pi = c.pi /\ h.pp = c.pp
            /\ ~In(c.dst) => h.ci = c.ci /\ h.cp = c.cp
  /\ \A j \in DOMAIN M.chans : LET h == M.chans[j] IN
       /\ j \in SetOf(M.tasks[h.dst].ins)
       /\ Len(h.pi) = Len(M.tasks[h.src].init) /\ Len(h.pp) = Len(M.tasks[h.src].dur)
       /\ Len(h.ci) = Len(M.tasks[h.dst].init) /\ Len(h.cp) = Len(M.tasks[h.dst].dur)
\* executions: done[i] counts the firings of every task of G, cnt[i] those of M
Rate(ini, per, k) == IF k <= Len(ini) THEN ini[k] ELSE per[((k - Len(ini) - 1) % Len(per)) + 1]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumOf(_, _)
SumOf(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(S \ {x}, f)
Parts(i) == IF HasName(G.tasks, M.tasks[i].name) THEN {ByName(G.tasks, M.tasks[i].name)}
            ELSE {t \in RouterTasks : HasName(M.chans, G.chans[Only(t, TRUE)].name) /\ M.chans[ByName(M.chans, G.chans[Only(t, TRUE)].name)].dst = i}
Rounds == 3
\* what does not change during an execution: the members and the limit of every task, the origin of every channel
Aux == LET P == TLCEval([i \in DOMAIN M.tasks |-> Parts(i)]) IN
       [parts |-> P, lim |-> [i \in DOMAIN M.tasks |-> Len(M.tasks[i].init) + Rounds * SumOf(P[i], R.n)],
        orig |-> [j \in DOMAIN M.chans |-> ByName(G.chans, M.chans[j].name)],
        io |-> [i \in DOMAIN M.tasks |-> {j \in DOMAIN M.chans : M.chans[j].src = i \/ M.chans[j].dst = i}]]
Limit(i) == aux.lim[i]
Can(i) == \A x \in DOMAIN M.tasks[i].ins : LET h == M.chans[M.tasks[i].ins[x]] IN tok[M.tasks[i].ins[x]] >= Rate(h.ci, h.cp, cnt[i] + 1)
Fits(i, t) == LET k == cnt[i] + 1
                  n == done[t] + 1 IN
  /\ Rate(M.tasks[i].init, M.tasks[i].dur, k) = Rate(G.tasks[t].init, G.tasks[t].dur, n)
  /\ \A j \in aux.io[i] : LET h == M.chans[j]
                              c == G.chans[aux.orig[j]] IN
       /\ h.dst = i => Rate(h.ci, h.cp, k) = IF c.dst = t THEN Rate(c.ci, c.cp, n) ELSE 0
       /\ h.src = i => Rate(h.pi, h.pp, k) = IF c.src = t THEN Rate(c.pi, c.pp, n) ELSE 0
Init == /\ gi \in 1 .. Len(Recs)
        /\ cnt = [i \in DOMAIN Recs[gi].m.tasks |-> 0]
        /\ tok = [j \in DOMAIN Recs[gi].m.chans |-> Recs[gi].m.chans[j].m0]
        /\ done = [i \in DOMAIN Recs[gi].g.tasks |-> 0]
        /\ why = (IF ~R.ok THEN "no answer" ELSE IF ~Frame THEN "frame" ELSE "ok")
        /\ aux = (IF why = "ok" THEN Aux ELSE <<>>)
Enabled == {i \in DOMAIN M.tasks : cnt[i] < Limit(i) /\ Can(i)}
Next == /\ why = "ok"
        /\ LET S == Enabled IN
           /\ S # {}
           /\ LET i == Least(S)
                  k == cnt[i] + 1
                  P == aux.parts[i]
                  F == IF Cardinality(P) = 1 THEN P ELSE {t \in P : Fits(i, t)} IN
              /\ cnt' = [cnt EXCEPT ![i] = k]
              /\ tok' = [j \in DOMAIN tok |-> IF j \notin aux.io[i] THEN tok[j] ELSE tok[j] - (IF M.chans[j].dst = i THEN Rate(M.chans[j].ci, M.chans[j].cp, k) ELSE 0)
                                                     + (IF M.chans[j].src = i THEN Rate(M.chans[j].pi, M.chans[j].pp, k) ELSE 0)]
              /\ done' = (IF F = {} THEN done ELSE [done EXCEPT ![CHOOSE t \in F : TRUE] = @ + 1])
              /\ why' = (IF F = {} THEN "a firing of no member" ELSE why)
        /\ gi' = gi /\ aux' = aux
Spec == Init /\ [][Next]_vars
Fine == why = "ok"
\* tasks that wait for one another in a circle
Lacks(i, j) == tok[j] < Rate(M.chans[j].ci, M.chans[j].cp, cnt[i] + 1)
RECURSIVE Wait(_, _)
Wait(D, n) == IF n = 0 THEN D ELSE LET N == {i \in D : \E j \in SetOf(M.tasks[i].ins) : Lacks(i, j) /\ M.chans[j].src \in D} IN IF N = D THEN D ELSE Wait(N, n - 1)
Alive == (why = "ok" /\ Enabled = {}) => Wait({i \in DOMAIN M.tasks : cnt[i] < Limit(i)}, Len(M.tasks)) = {}
=============================================================================
