----------------------------- MODULE CycleRatio -----------------------------
(* Event graphs: constraints s -> t with a weight w/den (tokens, in iterations) and a duration d.
   The machine walks through every elementary circuit of the graph (from its smallest event); the
   recorded optimum must be attained by the recorded circuit and beaten by none.  Start times recorded
   for a feasible period P must satisfy S(t) >= S(s) + d - P w for every constraint and start at 0.
   idle: some circuits take no time at all (and have no negative weight): they constrain nothing, so the
   smallest ratio is the one of the others, and there is no largest one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, n, e |-> <<[s, t, w, d]>>, den, cyclic |-> some circuit was found (checked), min |-> [kind, num, den, c |-> edges], max, starts |-> <<[p, feasible, ok, st]>>]
VARIABLES gi, from, at, seen, w, d, closed
vars == <<gi, from, at, seen, w, d, closed>>
R == Recs[gi]
Init == /\ gi \in 1 .. Len(Recs) /\ from \in 1 .. Recs[gi].n /\ at = from /\ seen = {} /\ w = 0 /\ d = 0 /\ closed = FALSE
Step(k) == LET e == R.e[k] IN
   /\ e.s = at /\ e.t >= from /\ e.t \notin seen /\ ~closed
   /\ gi' = gi /\ from' = from /\ at' = e.t /\ seen' = seen \cup {e.t}
   /\ w' = w + e.w /\ d' = d + e.d /\ closed' = (e.t = from)
Next == R.ok /\ ~R.large /\ \E k \in DOMAIN R.e : Step(k)
Spec == Init /\ [][Next]_vars
First == from = 1 /\ at = 1 /\ seen = {}
Answered == R.ok
RECURSIVE SumW(_)
SumW(c) == IF c = <<>> THEN 0 ELSE R.e[Head(c)].w + SumW(Tail(c))
RECURSIVE SumD(_)
SumD(c) == IF c = <<>> THEN 0 ELSE R.e[Head(c)].d + SumD(Tail(c))
\* a closed walk of the graph whose ratio is the reported value
Attained(m) == LET c == m.c IN
   /\ Len(c) > 0 /\ \A i \in DOMAIN c : R.e[c[i]].t = R.e[c[(i % Len(c)) + 1]].s
   /\ SumD(c) > 0 /\ m.num * R.den * SumD(c) = SumW(c) * m.den
MinAttained == (First /\ R.ok /\ R.cyclic) => R.min.kind = "value" /\ Attained(R.min)
MaxAttained == (First /\ R.ok /\ R.cyclic /\ ~R.idle) => R.max.kind = "value" /\ Attained(R.max)
NoneSmaller == (R.ok /\ closed) => R.min.kind = "value" /\ R.min.den > 0 /\ w * R.min.den >= R.min.num * R.den * d
NoneLarger  == (R.ok /\ closed /\ ~R.idle) => R.max.kind = "value" /\ R.max.den > 0 /\ w * R.max.den <= R.max.num * R.den * d
NoCircuitMissed == (R.ok /\ closed) => R.cyclic
\* large graphs: a potential p with p(t) - p(s) =< w - ratio d on every constraint shows that no circuit does
\* better; the potential is only a witness, it is checked here
CertifiedMin == (First /\ R.ok /\ R.large) => \A k \in DOMAIN R.e : LET e == R.e[k] IN
   R.minpot[e.t] - R.minpot[e.s] <= e.w * R.min.den - R.min.num * R.den * e.d
CertifiedMax == (First /\ R.ok /\ R.large /\ ~R.idle) => \A k \in DOMAIN R.e : LET e == R.e[k] IN
   R.maxpot[e.t] - R.maxpot[e.s] >= e.w * R.max.den - R.max.num * R.den * e.d
StartsSatisfy == (First /\ R.ok) => \A i \in DOMAIN R.starts : LET x == R.starts[i] IN
   IF x.infinite THEN ~x.ok
   ELSE /\ x.ok /\ \A k \in DOMAIN R.e : x.st[R.e[k].t] >= x.st[R.e[k].s] + R.e[k].d - x.p * R.e[k].w   \* p: the period divided by den
        /\ \A v \in 1 .. R.n : x.st[v] >= 0
        /\ \E v \in 1 .. R.n : x.st[v] = 0
=============================================================================
