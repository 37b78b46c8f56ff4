------------------------------- MODULE Refine -------------------------------
(* The refinement loop of the K-periodic analysis.  State: the current step; each recorded step holds the
   periodicity vector k, the event graph kept by the loop (g), the one built from scratch for k (fresh),
   the optimum found (ratio, circuit) and what KSchedule answers for k (thr, critical channels). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, done, n |-> executions per iteration of each task, src, dst |-> task positions of the channels by id,
\*  steps |-> <<[k, ge, fe |-> events, gc, fc |-> constraints as text, num |-> numbers below are given, e |-> <<[s, t, w, d, id]>> of the kept graph, den,
\*              ratio |-> [num, den], circuit, pot, thr |-> [num, den], ce, wit]>>]
VARIABLES gi, i
vars == <<gi, i>>
R == Recs[gi]
S == R.steps[i]
SetOf(s) == {s[x] : x \in DOMAIN s}
Init == gi \in 1 .. Len(Recs) /\ i = 1
\* Which tasks the loop refines: those feeding a channel of the critical circuit, some periodicity grows
Refined(a, b) == LET on == {R.src[c] : c \in SetOf(a.cch)} IN
   /\ \A t \in DOMAIN a.k : b.k[t] >= a.k[t] /\ b.k[t] % a.k[t] = 0 /\ R.n[t] % b.k[t] = 0
   /\ \A t \in DOMAIN a.k : b.k[t] # a.k[t] => t \in on
   /\ \E t \in DOMAIN a.k : b.k[t] # a.k[t]
Next == R.ok /\ i < Len(R.steps) /\ i' = i + 1 /\ gi' = gi /\ Refined(S, R.steps[i + 1])
Spec == Init /\ [][Next]_vars
Answered == R.ok
Starts == R.ok => \A t \in DOMAIN R.n : R.steps[1].k[t] = 1
SameAsFresh == R.ok => SetOf(S.ge) = SetOf(S.fe) /\ SetOf(S.gc) = SetOf(S.fc)
\* the loop goes on as specified: otherwise Next is not enabled before the last step
Progress == (R.ok /\ i < Len(R.steps)) => Refined(S, R.steps[i + 1])
RECURSIVE SumW(_)
SumW(c) == IF c = <<>> THEN 0 ELSE S.e[Head(c)].w + SumW(Tail(c))
RECURSIVE SumD(_)
SumD(c) == IF c = <<>> THEN 0 ELSE S.e[Head(c)].d + SumD(Tail(c))
Attains(c, m) == /\ Len(c) > 0 /\ \A x \in DOMAIN c : S.e[c[x]].t = S.e[c[(x % Len(c)) + 1]].s
                 /\ SumD(c) > 0 /\ m.num * S.den * SumD(c) = SumW(c) * m.den
CircuitAttains == (R.ok /\ S.num) => Attains(S.circuit, S.ratio)
\* the potential is a witness: no circuit of the kept graph has a smaller ratio
Optimal == (R.ok /\ S.num) => \A x \in DOMAIN S.e : LET e == S.e[x] IN S.pot[e.t] - S.pot[e.s] <= e.w * S.ratio.den - S.ratio.num * S.den * e.d
SameThroughput == (R.ok /\ S.num) => S.thr.num * S.ratio.den = S.ratio.num * S.thr.den
\* the critical channels reported for k are closed, and a circuit on them attains the reported throughput
CriticalClosed == R.ok => \A c \in SetOf(S.ce) : \E c2 \in SetOf(S.ce) : R.src[c2] = R.dst[c]
CriticalAttains == (R.ok /\ S.num) => Attains(S.wit, S.thr) /\ \A x \in DOMAIN S.wit : S.e[S.wit[x]].id \in SetOf(S.ce) \cup {0}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdOf(_)
GcdOf(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN Gcd(GcdOf(X \ {x}), x)
\* the loop stops only when the tasks of the critical circuit cannot be refined further
Complete == (R.ok /\ R.done /\ i = Len(R.steps)) => LET on == {R.src[c] : c \in SetOf(S.cch)} IN
   on # {} => \A t \in on : S.k[t] % (R.n[t] \div GcdOf({R.n[x] : x \in on})) = 0
=============================================================================
