------------------------------- MODULE Common -------------------------------
(* Arithmetic and graph vocabulary shared by every specification.

   A graph is a record [tasks |-> <<task>>, chans |-> <<channel>>]
     task    = [reent |-> 0..1, init |-> <<dur>>, dur |-> <<dur>>]
     channel = [src, dst |-> task index, pi, pp, ci, cp |-> <<rate>>, m0 |-> tokens]
   (pi/ci: production/consumption rates of the initial phases, pp/cp: of the periodic phases.)
   Rational numbers are pairs <<num, den>> with den > 0. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(Abs(a), Abs(b))
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (Abs(a) \div Gcd(a, b)) * Abs(b)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
RECURSIVE SumFS(_, _)
SumFS(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFS(f, S \ {x})
RECURSIVE GcdTo(_, _)
GcdTo(s, n) == IF n = 0 THEN 0 ELSE Gcd(s[n], GcdTo(s, n - 1))
GcdSeq(s) == GcdTo(s, Len(s))
CeilDiv(a, b) == -((-a) \div b)      \* b > 0; TLA+ \div is floor division
Range(s) == {s[i] : i \in DOMAIN s}

\* rationals (denominators positive)
RLeq(x, y) == x[1] * y[2] <= y[1] * x[2]
RLt(x, y)  == x[1] * y[2] <  y[1] * x[2]
REq(x, y)  == x[1] * y[2] =  y[1] * x[2]

-----------------------------------------------------------------------------
Tasks(g) == 1 .. Len(g.tasks)
Chans(g) == 1 .. Len(g.chans)
NInit(g, t) == Len(g.tasks[t].init)
NPh(g, t)   == Len(g.tasks[t].dur)
\* phases are numbered 1..NInit (executed once) then NInit+1 .. NInit+NPh (cyclic)
NextPh(g, t, p) == IF p = NInit(g, t) + NPh(g, t) THEN NInit(g, t) + 1 ELSE p + 1
DurOf(g, t, p) == LET n == NInit(g, t) IN IF p <= n THEN g.tasks[t].init[p] ELSE g.tasks[t].dur[p - n]
Prod(c, p) == LET n == Len(c.pi) IN IF p <= n THEN c.pi[p] ELSE c.pp[p - n]
Cons(c, p) == LET n == Len(c.ci) IN IF p <= n THEN c.ci[p] ELSE c.cp[p - n]
InC(g, t)  == {c \in Chans(g) : g.chans[c].dst = t}
OutC(g, t) == {c \in Chans(g) : g.chans[c].src = t}

\* phase of the k-th firing (k = 1, 2, ...)
PhOf(g, t, k) == LET n == NInit(g, t) IN IF k <= n THEN k ELSE n + 1 + ((k - n - 1) % NPh(g, t))

\* cumulative production / consumption after k firings
CumSeq(init, per, k) ==
  LET n == Len(init)  m == Len(per) IN
  IF k <= n THEN SumTo(init, k)
  ELSE SumTo(init, n) + ((k - n) \div m) * Sum(per) + SumTo(per, (k - n) % m)
CumProd(g, c, k) == CumSeq(g.chans[c].pi, g.chans[c].pp, k)
CumCons(g, c, k) == CumSeq(g.chans[c].ci, g.chans[c].cp, k)

\* repetition: q[t] cycles of phases per iteration
Balanced(g, q) == \A c \in Chans(g) : q[g.chans[c].src] * Sum(g.chans[c].pp) = q[g.chans[c].dst] * Sum(g.chans[c].cp)
Positive(g, q) == Len(q) = Len(g.tasks) /\ \A t \in Tasks(g) : q[t] > 0

\* reachability, strongly connected components (as a sequence ordered by least member)
Succ(g, t) == {g.chans[c].dst : c \in OutC(g, t)}
RECURSIVE ReachN(_, _)
ReachN(g, S) == LET T == S \cup UNION {Succ(g, t) : t \in S} IN IF T = S THEN S ELSE ReachN(g, T)
Reach(g, t) == ReachN(g, {t})
SccSet(g) == LET R == [t \in Tasks(g) |-> Reach(g, t)]
             IN  {{u \in Tasks(g) : u \in R[t] /\ t \in R[u]} : t \in Tasks(g)}
RECURSIVE AsSeq(_)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
AsSeq(SS) == IF SS = {} THEN <<>>
             ELSE LET m == CHOOSE A \in SS : \A B \in SS : SetMin(A) <= SetMin(B)
                  IN  <<m>> \o AsSeq(SS \ {m})
Sccs(g) == AsSeq(SccSet(g))
UConn(g) == LET RECURSIVE Grow(_)
                Grow(S) == LET T == S \cup {g.chans[c].dst : c \in {c \in Chans(g) : g.chans[c].src \in S}}
                                      \cup {g.chans[c].src : c \in {c \in Chans(g) : g.chans[c].dst \in S}}
                           IN IF T = S THEN S ELSE Grow(T)
            IN Tasks(g) = {} \/ Grow({1}) = Tasks(g)
=============================================================================
