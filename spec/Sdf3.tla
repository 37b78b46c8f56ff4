-------------------------------- MODULE Sdf3 --------------------------------
(* The SDF3 exchange format.  A chain of artefacts, graphs and documents, each produced by the code from
   the one before (written, read, written again, ...), must keep one meaning: the meaning of the first.
   Numbers are compared as the exact decimal texts they stand for, no arithmetic is needed.
   Rates and times of a document are lists of terms n*v, split in an initial and a periodic part. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)        \* [steps |-> number expected, chain |-> <<artefact>>]
VARIABLES gi, k
vars == <<gi, k>>
Art == Recs[gi].chain
SetOf(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Expand(_)
Expand(ts) == IF ts = <<>> THEN <<>> ELSE [i \in 1 .. Head(ts).n |-> Head(ts).v] \o Expand(Tail(ts))
AllOnes(q) == \A i \in DOMAIN q : q[i] = "1"
\* a self-loop with unit rates and one token says that the task has one instance at a time
UnitLoop(c) == c.src = c.dst /\ c.m0 = "1" /\ AllOnes(c.pi) /\ AllOnes(c.pp) /\ AllOnes(c.ci) /\ AllOnes(c.cp)
Mean(app, name, type, T, C) ==
  [app |-> app, name |-> name, type |-> type,
   tasks |-> [i \in DOMAIN T |-> [T[i] EXCEPT !.reent = IF @ > 0 \/ \E c \in SetOf(C) : UnitLoop(c) /\ c.src = T[i].name THEN 1 ELSE 0]],
   chans |-> {c \in SetOf(C) : ~UnitLoop(c)},
   many  |-> Cardinality({i \in DOMAIN C : ~UnitLoop(C[i])})]
GraphMeaning(g) == Mean(g.app, g.name, g.type, g.tasks, g.chans)
Times(d, a) == LET S == {t \in SetOf(d.times) : t.actor = a} IN IF Cardinality(S) = 1 THEN CHOOSE t \in S : TRUE ELSE [actor |-> a, ini |-> <<>>, per |-> <<>>]
Port(d, a, p, dir) == LET A == CHOOSE x \in SetOf(d.actors) : x.name = a
                          S == {q \in SetOf(A.ports) : q.name = p /\ q.dir = dir} IN
                      IF Cardinality(S) = 1 THEN CHOOSE q \in S : TRUE ELSE [name |-> p, dir |-> dir, ini |-> <<>>, per |-> <<>>]
DocMeaning(d) ==
  Mean(d.app, d.name, d.type,
       [i \in DOMAIN d.actors |-> LET a == d.actors[i] IN
           [name |-> a.name, type |-> a.type, reent |-> 0, init |-> Expand(Times(d, a.name).ini), dur |-> Expand(Times(d, a.name).per)]],
       [i \in DOMAIN d.chans |-> LET c == d.chans[i]
                                     o == Port(d, c.src, c.sport, "out")
                                     n == Port(d, c.dst, c.dport, "in") IN
           [name |-> c.name, src |-> c.src, dst |-> c.dst, pi |-> Expand(o.ini), pp |-> Expand(o.per), ci |-> Expand(n.ini), cp |-> Expand(n.per),
            m0 |-> IF c.m0 = "" THEN "0" ELSE c.m0, ts |-> IF c.size = "" THEN "1" ELSE c.size]])
Meaning(a) == IF a.kind = "graph" THEN GraphMeaning(a.g) ELSE DocMeaning(a.d)
Init == gi \in 1 .. Len(Recs) /\ k = 1
Next == k < Len(Art) /\ k' = k + 1 /\ gi' = gi
Spec == Init /\ [][Next]_vars
Complete == Len(Art) = Recs[gi].steps
SameMeaning == Meaning(Art[k]) = Meaning(Art[1])
\* a document declares what it uses: every port once, every actor's times once, names different
WellFormed == Art[k].kind = "doc" => LET d == Art[k].d IN
   /\ \A i, j \in DOMAIN d.actors : i # j => d.actors[i].name # d.actors[j].name
   /\ \A i, j \in DOMAIN d.chans : i # j => d.chans[i].name # d.chans[j].name
   /\ \A i \in DOMAIN d.actors : \A p, q \in DOMAIN d.actors[i].ports : p # q => d.actors[i].ports[p].name # d.actors[i].ports[q].name
   /\ \A c \in SetOf(d.chans) : Port(d, c.src, c.sport, "out").per # <<>> /\ Port(d, c.dst, c.dport, "in").per # <<>>
=============================================================================
