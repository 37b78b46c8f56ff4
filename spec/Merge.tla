------------------------------- MODULE Merge --------------------------------
(* Merging tasks of a dataflow graph G into one task of a graph M.  M is executed (untimed; the order
   does not matter), and every firing of the merged task must be readable as a firing of one of the
   tasks it stands for: the same tokens on every channel that is left, the same duration, and enough
   tokens on the channels that disappeared.  Which task a firing stands for is not recorded by the
   code, so the machine follows every possible reading (a subset construction): a step after which no
   reading is left, a stall, or a graph whose untouched part changed is a violation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, g |-> graph, m |-> graph, set |-> <<ids>>, name, n |-> firings of one iteration of G's tasks]
VARIABLES gi, cnt, W, why
vars == <<gi, cnt, W, why>>
R == Recs[gi]
G == R.g
M == R.m
SetOf(q) == {q[i] : i \in DOMAIN q}
Merged == SetOf(R.set)
ById(q, x) == CHOOSE i \in DOMAIN q : q[i].id = x
Has(q, x) == \E i \in DOMAIN q : q[i].id = x
Rate(ini, per, k) == IF k <= Len(ini) THEN ini[k] ELSE per[((k - Len(ini) - 1) % Len(per)) + 1]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Total(ini, per, k) == IF k <= Len(ini) THEN SumSeq(SubSeq(ini, 1, k))
                      ELSE SumSeq(ini) + ((k - Len(ini)) \div Len(per)) * SumSeq(per) + SumSeq(SubSeq(per, 1, (k - Len(ini)) % Len(per)))
Internal(c) == c.src \in Merged /\ c.dst \in Merged
New == CHOOSE i \in DOMAIN M.tasks : M.tasks[i].name = R.name
Frame ==
  /\ Cardinality({i \in DOMAIN M.tasks : M.tasks[i].name = R.name}) = 1
  /\ Len(M.tasks) = Len(G.tasks) - Cardinality(Merged) + 1
  /\ \A i \in DOMAIN G.tasks : G.tasks[i].id \notin Merged => \E j \in DOMAIN M.tasks : M.tasks[j] = G.tasks[i]
  /\ Len(M.chans) = Cardinality({i \in DOMAIN G.chans : ~Internal(G.chans[i])})
  /\ \A i \in DOMAIN G.chans : LET c == G.chans[i] IN ~Internal(c) =>
        \E j \in DOMAIN M.chans : LET h == M.chans[j] IN
           /\ h.id = c.id /\ h.name = c.name /\ h.m0 = c.m0 /\ h.ts = c.ts
           /\ IF c.src \in Merged THEN h.src = M.tasks[New].id ELSE h.src = c.src /\ h.pi = c.pi /\ h.pp = c.pp
           /\ IF c.dst \in Merged THEN h.dst = M.tasks[New].id ELSE h.dst = c.dst /\ h.ci = c.ci /\ h.cp = c.cp
  /\ M.tasks[New].reent = 1
  /\ \A i \in DOMAIN M.chans : LET h == M.chans[i] IN
        /\ Len(h.pi) = Len(M.tasks[ById(M.tasks, h.src)].init) /\ Len(h.pp) = Len(M.tasks[ById(M.tasks, h.src)].dur)
        /\ Len(h.ci) = Len(M.tasks[ById(M.tasks, h.dst)].init) /\ Len(h.cp) = Len(M.tasks[ById(M.tasks, h.dst)].dur)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN R.n[x] + SumSet(S \ {x})
Inside == {i \in DOMAIN G.tasks : G.tasks[i].id \in Merged}
PerIter == SumSet(Inside)
Len0 == Len(M.tasks[New].init)
Rounds == 4 + (Len0 + Least({R.n[i] : i \in DOMAIN G.tasks}) - 1) \div Least({R.n[i] : i \in DOMAIN G.tasks})
Limit(i) == IF i = New THEN Len0 + Rounds * PerIter ELSE Rounds * R.n[ById(G.tasks, M.tasks[i].id)]
Tokens(j) == LET h == M.chans[j] IN h.m0 + Total(h.pi, h.pp, cnt[ById(M.tasks, h.src)]) - Total(h.ci, h.cp, cnt[ById(M.tasks, h.dst)])
Can(i) == /\ cnt[i] < Limit(i)
          /\ \A j \in DOMAIN M.chans : M.chans[j].dst = M.tasks[i].id => Tokens(j) >= Rate(M.chans[j].ci, M.chans[j].cp, cnt[i] + 1)
\* the k-th firing of the merged task may stand for the n-th firing of task t (an index of G.tasks)
Matches(t, n, k) ==
  /\ Rate(M.tasks[New].init, M.tasks[New].dur, k) = Rate(G.tasks[t].init, G.tasks[t].dur, n)
  /\ \A j \in DOMAIN M.chans : LET h == M.chans[j]
                                   c == G.chans[ById(G.chans, h.id)] IN
        /\ h.src = M.tasks[New].id => Rate(h.pi, h.pp, k) = IF c.src = G.tasks[t].id THEN Rate(c.pi, c.pp, n) ELSE 0
        /\ h.dst = M.tasks[New].id => Rate(h.ci, h.cp, k) = IF c.dst = G.tasks[t].id THEN Rate(c.ci, c.cp, n) ELSE 0
InsideTokens(w, t, n) == \A j \in DOMAIN G.chans : LET c == G.chans[j] IN
      (Internal(c) /\ c.dst = G.tasks[t].id) => c.m0 + Total(c.pi, c.pp, w[ById(G.tasks, c.src)]) - Total(c.ci, c.cp, w[t]) >= Rate(c.ci, c.cp, n)
Readings(k) == UNION {{[w EXCEPT ![t] = @ + 1] : t \in {t \in Inside : Matches(t, w[t] + 1, k) /\ InsideTokens(w, t, w[t] + 1)}} : w \in W}
Init == /\ gi \in 1 .. Len(Recs)
        /\ cnt = [i \in DOMAIN Recs[gi].m.tasks |-> 0]
        /\ W = {[t \in {i \in DOMAIN Recs[gi].g.tasks : Recs[gi].g.tasks[i].id \in SetOf(Recs[gi].set)} |-> 0]}
        /\ why = IF ~R.ok THEN "no answer" ELSE IF ~Frame THEN "frame" ELSE "ok"
Enabled == {i \in DOMAIN M.tasks : Can(i)}
Next == /\ why = "ok" /\ Enabled # {}
        /\ LET i == Least(Enabled) IN
           /\ cnt' = [cnt EXCEPT ![i] = @ + 1]
           /\ W' = IF i = New THEN Readings(cnt[i] + 1) ELSE W
           /\ why' = IF i = New /\ W' = {} THEN "unreadable firing" ELSE why
        /\ gi' = gi
Spec == Init /\ [][Next]_vars
Fine == why = "ok"
\* a channel that keeps task i from firing
Lacks(i, j) == M.chans[j].dst = M.tasks[i].id /\ Tokens(j) < Rate(M.chans[j].ci, M.chans[j].cp, cnt[i] + 1)
RECURSIVE Wait(_, _)
Wait(D, n) == IF n = 0 THEN D
              ELSE Wait({i \in D : \E j \in DOMAIN M.chans : Lacks(i, j) /\ ById(M.tasks, M.chans[j].src) \in D}, n - 1)
\* tasks that wait for one another in a circle
Dead == Wait({i \in DOMAIN M.tasks : cnt[i] < Limit(i)}, Len(M.tasks))
Plain == \A i \in DOMAIN G.tasks : G.tasks[i].init = <<>>
\* the execution only ends at the imposed limits
Alive == (why = "ok" /\ Enabled = {}) =>
            /\ Dead = {}
            /\ Plain => \A i \in DOMAIN M.tasks : cnt[i] >= 2 * (IF i = New THEN PerIter ELSE R.n[ById(G.tasks, M.tasks[i].id)])
=============================================================================
