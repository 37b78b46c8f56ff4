------------------------------ MODULE Policies ------------------------------
(* Restricted periodic policies against the self-timed machine.  A value that is not positive says
   that no schedule of that policy exists.  Recs[gi].order lists pairs <<a, b>> of answers: b's policy
   contains every schedule of a's policy, hence value(a) <= value(b); Recs[gi].same lists pairs of
   answers computed for the same policy by different methods. *)
EXTENDS Throughput
Infeasible(v) == v[2] > 0 /\ v[1] <= 0
Ans == Recs[gi].ans
Done == st = "done"
Safe == Done => \A k \in DOMAIN Ans : Infeasible(Ans[k].v) \/ (Ans[k].v[2] > 0 /\ (thr[2] = 0 \/ RLeq(Ans[k].v, thr)))
Below(v, w) == Infeasible(v) \/ (~Infeasible(w) /\ v[2] > 0 /\ w[2] > 0 /\ RLeq(v, w))
Ordered == Done => \A k \in DOMAIN Recs[gi].order : Below(Ans[Recs[gi].order[k][1]].v, Ans[Recs[gi].order[k][2]].v)
Same == Done => \A k \in DOMAIN Recs[gi].same :
          LET v == Ans[Recs[gi].same[k][1]].v  w == Ans[Recs[gi].same[k][2]].v IN Below(v, w) /\ Below(w, v)
\* a deadlocked graph has no periodic schedule at all
DeadMeansNone == (Done /\ thr = <<0, 1>>) => \A k \in DOMAIN Ans : Infeasible(Ans[k].v)
=============================================================================
