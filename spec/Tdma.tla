-------------------------------- MODULE Tdma --------------------------------
(* Packets on a mesh with time-division multiplexing.  A packet waits for the packets it depends on, is computed for its
   duration, then waits for the slot of its (source, destination) pair; one occurrence of a slot carries one packet.
   A packet between two places of the same node needs no slot and no time; otherwise it takes one cycle per hop and one more.
   The machine replays the recorded events of a simulation in the order of time. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, total, cols, h, thro1000, exec1000, pk |-> <<[s, t, dur, deps, slot]>> (nodes after mapping; positions of deps),
\*  times |-> <<[deps, comp, slot, data, sent, done]>>, ev |-> <<[p, k, t]>> k in {"start", "computed", "send", "deliver"}]
VARIABLES gi, i, now, st, used, at
vars == <<gi, i, now, st, used, at>>
R == Recs[gi]
SetOf(s) == {s[x] : x \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Hops(a, b) == Abs(a \div R.cols - b \div R.cols) + Abs((a % R.cols) - (b % R.cols))
Init == /\ gi \in 1 .. Len(Recs) /\ i = 0 /\ now = 0 /\ used = {}
        /\ st = [p \in DOMAIN Recs[gi].pk |-> "waiting"] /\ at = [p \in DOMAIN Recs[gi].pk |-> 0]
E == R.ev[i + 1]
After == [start |-> "started", computed |-> "ready", send |-> "flying", deliver |-> "delivered"]
Pair(p) == <<R.pk[p].s, R.pk[p].t>>
Local(p) == R.pk[p].s = R.pk[p].t
\* the rules of the machine; `Allowed` is what the next recorded event must satisfy
DepsOk(p) == \A d \in SetOf(R.pk[p].deps) : st[d] = "delivered"
Latest(p) == LET D == {at[d] : d \in SetOf(R.pk[p].deps)} \cup {0} IN CHOOSE x \in D : \A y \in D : y <= x
\* occurrences of the slot of p between the end of its computation and t
Missed(p, t) == {u \in at[p] .. t - 1 : u % R.total = R.pk[p].slot /\ <<Pair(p), u>> \notin used}
Allowed(e) == LET p == e.p IN
  CASE e.k = "start" -> st[p] = "waiting" /\ DepsOk(p) /\ e.t >= Latest(p) /\ e.t <= Latest(p) + 1
    [] e.k = "computed" -> st[p] = "started" /\ e.t = at[p] + R.pk[p].dur
    [] e.k = "send" -> st[p] = "ready" /\ IF Local(p) THEN e.t = at[p]
                       ELSE e.t >= at[p] /\ e.t % R.total = R.pk[p].slot /\ <<Pair(p), e.t>> \notin used /\ Missed(p, e.t) = {}
    [] e.k = "deliver" -> st[p] = "flying" /\ e.t = at[p] + IF Local(p) THEN 0 ELSE Hops(R.pk[p].s, R.pk[p].t) + 1
    [] OTHER -> FALSE
Step == /\ R.ok /\ i < Len(R.ev) /\ gi' = gi
        /\ IF E.t >= now /\ Allowed(E)
           THEN i' = i + 1 /\ now' = E.t /\ st' = [st EXCEPT ![E.p] = After[E.k]] /\ at' = [at EXCEPT ![E.p] = E.t]
                /\ used' = IF E.k = "send" /\ ~Local(E.p) THEN used \cup {<<Pair(E.p), E.t>>} ELSE used
           ELSE UNCHANGED <<i, now, st, used, at>>
Next == Step
Spec == Init /\ [][Next]_vars
Ends == i = 0 => R.ok
Replays == (R.ok /\ i < Len(R.ev)) => E.t >= now /\ Allowed(E)
AllDelivered == (R.ok /\ i = Len(R.ev)) => \A p \in DOMAIN R.pk : st[p] = "delivered"
\* the log of deliveries says the same as the table of times
SameTimes == (i = 0 /\ R.ok) => \A p \in DOMAIN R.pk : R.times[p].sent = R.times[p].slot /\ R.times[p].done = R.times[p].data
\* averages over the iterations (h packets each)
Its == Len(R.pk) \div R.h
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE R.times[k * R.h].data - R.times[(k - 1) * R.h + 1].data + Sum(k - 1)
Near(x1000, total) == Abs(x1000 * Its - 1000 * total) <= Its * (1 + Abs(total) \div 100)
Averages == (i = 0 /\ R.ok /\ R.h > 0) => Near(R.thro1000, R.times[Its * R.h].data) /\ Near(R.exec1000, Sum(Its))
=============================================================================
