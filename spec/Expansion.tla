----------------------------- MODULE Expansion ------------------------------
(* Expanding an SDF graph for a periodicity vector K: K(t) events per task, event a standing for the firings a, a+K, a+2K, ...
   A constraint (t,a) -> (u,b) of weight w says: firing b+qK(u) of u starts at least d after firing a+pK(t) of t starts whenever
   p K(t) Z(t) - q K(u) Z(u) =< -w, in a schedule where K(t) firings of t take lambda K(t) Z(t).
   The machine executes one channel lazily (the producer fires only when the consumer lacks tokens): every precedence it
   meets must follow from the constraints, and every constraint must follow from a precedence. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, tasks |-> <<[k, z, dur, ev |-> number of events]>>, ch |-> <<[s, t, pr, co, m0, last |-> consumer firings to examine]>>,
\*  e |-> <<[s, a, t, b, w, d]>> (task positions and indices of events)]
VARIABLES gi, c, n, m, tokens
vars == <<gi, c, n, m, tokens>>
R == Recs[gi]
Init == /\ gi \in 1 .. Len(Recs) /\ c \in 0 .. Len(Recs[gi].ch) /\ n = 0 /\ m = 0
        /\ tokens = IF c = 0 THEN 0 ELSE Recs[gi].ch[c].m0
H == R.ch[c]
Step == /\ R.ok /\ c > 0 /\ m < H.last /\ gi' = gi /\ c' = c
        /\ IF tokens >= H.co THEN n' = n /\ m' = m + 1 /\ tokens' = tokens - H.co
                             ELSE n' = n + 1 /\ m' = m /\ tokens' = tokens + H.pr
Next == Step
Spec == Init /\ [][Next]_vars
CeilDiv(x, y) == -((-x) \div y)
K(t) == R.tasks[t].k
Z(t) == R.tasks[t].z
\* the last production the m-th consumption of channel h waits for
Need(h, mm) == LET x == CeilDiv(h.co * mm - h.m0, h.pr) IN IF x < 0 THEN 0 ELSE x
Lazy == (R.ok /\ c > 0 /\ m > 0 /\ tokens >= 0 /\ n > 0 /\ tokens < H.pr) => n = Need(H, m)
\* e says that firing mm of e.t waits for firing nn of e.s, possibly through firings nn' >= nn and mm' =< mm
Implies(e, nn, mm, d) == LET p == CeilDiv(nn - e.a, K(e.s)) q == (mm - e.b) \div K(e.t) IN e.d >= d /\ p * K(e.s) * Z(e.s) - q * K(e.t) * Z(e.t) <= -e.w
Edges(s, t) == {k \in DOMAIN R.e : R.e[k].s = s /\ R.e[k].t = t}
\* just consumed for the m-th time
Complete == (R.ok /\ c > 0 /\ m > 0 /\ n > 0 /\ n = Need(H, m)) => \E k \in Edges(H.s, H.t) : Implies(R.e[k], n, m, R.tasks[H.s].dur)
First == c = 0 /\ R.ok
\* firings nn' =< nn and mm' >= mm of the events of e for which e is no stronger than "mm waits for nn"
Implied(e, nn, mm) == LET p == (nn - e.a) \div K(e.s) q == CeilDiv(mm - e.b, K(e.t)) IN p * K(e.s) * Z(e.s) - q * K(e.t) * Z(e.t) >= -e.w
ByOrder(e) == e.s = e.t /\ e.d = 0 /\ IF e.a < e.b THEN e.w >= 0 ELSE e.w >= K(e.s) * Z(e.s)
ByChannel(e, h) == h.s = e.s /\ h.t = e.t /\ e.d <= R.tasks[h.s].dur /\ \E mm \in 1 .. h.last : Need(h, mm) > 0 /\ Implied(e, Need(h, mm), mm)
Sound == First => \A k \in DOMAIN R.e : ByOrder(R.e[k]) \/ \E h \in DOMAIN R.ch : ByChannel(R.e[k], R.ch[h])
Copies == First => \A t \in DOMAIN R.tasks : R.tasks[t].ev = K(t)
\* the firings of a task start in order: a+1 after a, and the next 1 after K
InOrder == First => \A t \in DOMAIN R.tasks : \A a \in 1 .. K(t) : \E k \in Edges(t, t) : R.e[k].a = a /\
                      IF a < K(t) THEN R.e[k].b = a + 1 /\ R.e[k].w <= 0 ELSE R.e[k].b = 1 /\ R.e[k].w <= K(t) * Z(t)
Weights == First => \A h \in DOMAIN R.ch : R.ch[h].pr * Z(R.ch[h].t) = R.ch[h].co * Z(R.ch[h].s) /\ Z(R.ch[h].s) > 0
Answered == R.ok
=============================================================================
