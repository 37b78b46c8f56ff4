---------------------------- MODULE DistSetReplay ----------------------------
(* Histories executed by the real StorageDistributionSet: the machine takes the same steps and every
   recorded content and answer must be its own. *)
EXTENDS DistSet, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)    \* [ops |-> <<[k, v, n]>>, obs |-> <<[P, Q, F, U, K, ans, n]>>]
VARIABLES gi, k, s
vars == <<gi, k, s>>
Init == gi \in 1 .. Len(Recs) /\ k = 0 /\ s = Empty
Next == /\ k < Len(Recs[gi].ops)
        /\ k' = k + 1 /\ gi' = gi
        /\ s' = Apply(s, Recs[gi].ops[k + 1])
Spec == Init /\ [][Next]_vars
O == Recs[gi].obs[k]
SetOf(q) == {q[i] : i \in DOMAIN q}
Once(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
BySize(q) == \A i \in 1 .. Len(q) - 1 : Size(q[i]) <= Size(q[i + 1])
Seen == k > 0
Answered == Len(Recs[gi].obs) = Len(Recs[gi].ops)
ResultSet == Seen => SetOf(O.P) = {<<e.v, e.t>> : e \in ParetoOf(s.E)} /\ Once(O.P) /\ BySize([i \in DOMAIN O.P |-> O.P[i][1]])
WorkList  == Seen => SetOf(O.Q) = s.Q /\ Once(O.Q) /\ BySize(O.Q) /\ O.n = Cardinality(s.Q)
SatSet    == Seen => SetOf(O.F) = Minimal(s.G) /\ Once(O.F)
UnsatSet  == Seen => SetOf(O.U) = Maximal(s.I) /\ Once(O.U)
Knees     == Seen => KneesDescribe(SetOf(O.K), s.I)
Answers   == Seen => O.ans = Answer(s, Recs[gi].ops[k])
=============================================================================
