----------------------------- MODULE Repetition -----------------------------
(* Balance of a graph as a propagation machine: the relative rate (cycles of phases) of one task per
   connected part is fixed and pushed along the channels, in either direction, until every channel has
   been met; a channel whose two ends disagree makes the graph inconsistent.  The recorded answers of
   computeRepetitionVector (kind "rep") and of normalize (kind "norm") are decided in the last state. *)
EXTENDS Common
CONSTANTS AnyOrder
Recs == JsonDeserialize(IOEnv.VF_INPUT)
VARIABLES gi, rate, met, st
vars == <<gi, rate, met, st>>
g == Recs[gi].graph
None == <<0, 1>>
Red(x) == LET k == Gcd(x[1], x[2]) IN <<x[1] \div k, x[2] \div k>>
Known(t) == rate[t][1] # 0
PT(c) == Sum(g.chans[c].pp)
CT(c) == Sum(g.chans[c].cp)
Src(c) == g.chans[c].src
Dst(c) == g.chans[c].dst
Over(c) == Known(Src(c)) \/ Known(Dst(c))
Open == {c \in Chans(g) \ met : Over(c)}

Init == gi \in 1 .. Len(Recs) /\ rate = [t \in Tasks(g) |-> None] /\ met = {} /\ st = "run"
Meet(c) ==
  /\ st = "run" /\ c \in Open /\ (AnyOrder \/ c = SetMin(Open))
  /\ met' = met \cup {c} /\ gi' = gi
  /\ IF Known(Src(c)) /\ Known(Dst(c))
     THEN /\ rate' = rate
          /\ st' = IF REq(<<rate[Src(c)][1] * PT(c), rate[Src(c)][2]>>, <<rate[Dst(c)][1] * CT(c), rate[Dst(c)][2]>>) THEN "run" ELSE "inconsistent"
     ELSE /\ st' = st
          /\ rate' = IF Known(Src(c)) THEN [rate EXCEPT ![Dst(c)] = Red(<<rate[Src(c)][1] * PT(c), rate[Src(c)][2] * CT(c)>>)]
                                      ELSE [rate EXCEPT ![Src(c)] = Red(<<rate[Dst(c)][1] * CT(c), rate[Dst(c)][2] * PT(c)>>)]
Seed == /\ st = "run" /\ Open = {}
        /\ LET U == {t \in Tasks(g) : ~Known(t)} IN
           IF U = {} THEN st' = "consistent" /\ rate' = rate ELSE st' = st /\ rate' = [rate EXCEPT ![SetMin(U)] = <<1, 1>>]
        /\ UNCHANGED <<gi, met>>
Next == Seed \/ \E c \in Chans(g) : Meet(c)
Spec == Init /\ [][Next]_vars

RECURSIVE LcmTo(_, _)
LcmTo(s, n) == IF n = 0 THEN 1 ELSE Lcm(s[n][2], LcmTo(s, n - 1))
\* smallest cycle counts (per connected graph: no common divisor)
Q == LET L == LcmTo(rate, Len(g.tasks))
         v == [t \in Tasks(g) |-> rate[t][1] * (L \div rate[t][2])]
         k == GcdSeq(v)
     IN  [t \in Tasks(g) |-> v[t] \div k]
Solved == st = "consistent" => Balanced(g, Q) /\ Positive(g, Q) /\ GcdSeq(Q) = 1 /\ met = Chans(g)

A == Recs[gi]
Answered == st # "run" => A.ok \in {0, 1}
Refused == st = "inconsistent" => A.ok = 0 /\ A.flag = 0
Accepted == st = "consistent" => A.ok = 1 /\ A.flag = 1
RepIsMinimal == (st = "consistent" /\ A.kind = "rep" /\ A.ok = 1) =>
   IF UConn(g) THEN A.n = [t \in Tasks(g) |-> Q[t] * NPh(g, t)]
   ELSE /\ Len(A.n) = Len(g.tasks) /\ \A t \in Tasks(g) : A.n[t] > 0 /\ A.n[t] % NPh(g, t) = 0
        /\ Balanced(g, [t \in Tasks(g) |-> A.n[t] \div NPh(g, t)])
\* task weight Z, channel factor alpha = an/ad:  Z(src) = alpha * total production, Z(dst) = alpha * total consumption,
\* and every phase rate becomes an integer
Integral(s, n, d) == \A k \in DOMAIN s : (s[k] * n) % d = 0
NormBalances == (st = "consistent" /\ A.kind = "norm" /\ A.ok = 1) =>
   /\ \A t \in Tasks(g) : A.z[t] > 0
   /\ \A c \in Chans(g) : /\ A.an[c] > 0 /\ A.ad[c] > 0
                          /\ A.z[Src(c)] * A.ad[c] = A.an[c] * PT(c)
                          /\ A.z[Dst(c)] * A.ad[c] = A.an[c] * CT(c)
                          /\ Integral(g.chans[c].pp, A.an[c], A.ad[c]) /\ Integral(g.chans[c].cp, A.an[c], A.ad[c])
=============================================================================
