------------------------------ MODULE Packets -------------------------------
(* The list of packets of an execution of an SDF graph: a firing is one packet from the task to itself that lasts
   as long as the task, followed by the packets that carry each of its productions, in pieces of a given size.
   The machine reads the list line by line and executes the graph along; `before` is what is necessarily delivered
   before each packet when packets wait for the packets they list and channels deliver in order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, live, want, tasks |-> <<[dur, q]>>, ch |-> <<[s, t, pr, co, m0]>>, psize, iters,
\*  pk |-> <<[s, t, dur, id, deps, c |-> channel position, 0 for a firing]>>]
VARIABLES gi, i, fired, made, cur, piece, last, before
vars == <<gi, i, fired, made, cur, piece, last, before>>
R == Recs[gi]
SetOf(s) == {s[x] : x \in DOMAIN s}
Init == /\ gi \in 1 .. Len(Recs) /\ i = 0 /\ cur = 0 /\ before = <<>>
        /\ fired = [t \in DOMAIN Recs[gi].tasks |-> 0] /\ last = [t \in DOMAIN Recs[gi].tasks |-> -1]
        /\ made = [c \in DOMAIN Recs[gi].ch |-> <<>>] /\ piece = [c \in DOMAIN Recs[gi].ch |-> 0]
Size(c) == IF R.psize = 0 THEN 1 ELSE (R.ch[c].pr + R.psize - 1) \div R.psize
Outs(t) == {c \in DOMAIN R.ch : R.ch[c].s = t}
Ins(t) == {c \in DOMAIN R.ch : R.ch[c].t = t}
P == R.pk[i]
N == R.pk[i + 1]
\* packets on channel c, in order, and those that precede packet p there
Prior(c) == IF made[c] = <<>> THEN {} ELSE {made[c][Len(made[c])]}
Close(ids) == UNION {{x} \cup before[x + 1] : x \in ids}
Read == /\ R.ok /\ i < Len(R.pk) /\ gi' = gi /\ i' = i + 1
        /\ LET good == N.id = i /\ \A x \in SetOf(N.deps) : x >= 0 /\ x < i
               own == SetOf(N.deps) \cup (IF N.c > 0 THEN Prior(N.c) ELSE {}) IN
           before' = Append(before, IF good THEN Close(own) ELSE {})
        /\ IF N.c = 0
           THEN /\ cur' = N.s /\ fired' = [fired EXCEPT ![N.s] = @ + 1] /\ last' = [last EXCEPT ![N.s] = i]
                /\ piece' = [c \in DOMAIN R.ch |-> IF R.ch[c].s = N.s THEN 0 ELSE piece[c]] /\ made' = made
           ELSE /\ cur' = cur /\ fired' = fired /\ last' = last
                /\ piece' = [piece EXCEPT ![N.c] = @ + 1] /\ made' = [made EXCEPT ![N.c] = Append(@, i)]
Next == Read
Spec == Init /\ [][Next]_vars
B == before[i]
Begin == i = 0 /\ R.want = "list"
Reading == i > 0
\* the code answers for every graph that can complete an iteration, and refuses the others
Answers == i = 0 => R.ok = R.live
Numbered == Reading => P.id = i - 1 /\ \A x \in SetOf(P.deps) : x >= 0 /\ x < i - 1
Labelled == Reading => P.c >= 0
Firing == (Reading /\ P.c = 0) => P.s = P.t /\ P.dur = R.tasks[P.s].dur
Carry == (Reading /\ P.c > 0) => P.s = R.ch[P.c].s /\ P.t = R.ch[P.c].t /\ P.s = cur /\ P.dur = 0 /\ piece[P.c] <= Size(P.c)
\* the packets of a production wait for the firing that produces it
AfterFiring == (Reading /\ P.c > 0) => last[P.s] \in B
\* the firings of a task are in sequence
InSequence == (Reading /\ P.c = 0 /\ fired[P.s] > 1) => \E x \in B : x + 1 \in DOMAIN R.pk /\ R.pk[x + 1].c = 0 /\ R.pk[x + 1].s = P.s /\ x = CHOOSE y \in 0 .. i - 2 :
                  /\ R.pk[y + 1].c = 0 /\ R.pk[y + 1].s = P.s
                  /\ \A z \in y + 1 .. i - 2 : ~(R.pk[z + 1].c = 0 /\ R.pk[z + 1].s = P.s)
\* a complete firing has sent all its packets when another one begins or the list ends
Complete(t) == \A c \in Outs(t) : piece[c] = Size(c)
AllSent == /\ (Reading /\ P.c = 0 /\ i > 1) => \A t \in DOMAIN R.tasks : (t # P.s /\ fired[t] > 0) => Complete(t)
           /\ (Reading /\ i = Len(R.pk)) => \A t \in DOMAIN R.tasks : Complete(t)
Productions(c) == IF Size(c) = 0 THEN 0 ELSE Len(made[c]) \div Size(c)
Whole == (Reading /\ P.c = 0) => \A c \in Outs(P.s) : Productions(c) >= fired[P.s] - 1
\* the tokens a firing consumes are delivered before it
Delivered(c) == {k \in 1 .. Productions(c) : made[c][k * Size(c)] \in B}
InputsThere == (Reading /\ P.c = 0) => \A c \in Ins(P.s) : R.ch[c].m0 + R.ch[c].pr * Cardinality(Delivered(c)) >= R.ch[c].co * fired[P.s]
\* a packet only waits for what its firing waits for: packets sent to its task, earlier firings of its task, packets of its own firing
Relevant == Reading => \A x \in SetOf(P.deps) : LET d == R.pk[x + 1] IN
              \/ d.c > 0 /\ R.ch[d.c].t = P.s
              \/ d.c = 0 /\ d.s = P.s
              \/ P.c > 0 /\ d.c = P.c /\ x >= last[P.s]
Finished == (R.ok /\ R.want = "list" /\ i = Len(R.pk)) => \A t \in DOMAIN R.tasks : fired[t] = R.tasks[t].q * R.iters
=============================================================================
