----------------------------- MODULE Throughput -----------------------------
(* Binding of throughput answers to the self-timed machine: Recs[gi].ans holds the values printed by
   the tool as <<num, den>> (<<1,0>>: infinite).  rel says how each is related to the machine's rate. *)
EXTENDS SelfTimed
AnswerOk(a) ==
  CASE a.rel = "eq"  -> a.v[1] * thr[2] = thr[1] * a.v[2]
    [] a.rel = "le"  -> a.v[1] >= 0 /\ a.v[2] > 0 /\ (thr[2] = 0 \/ RLeq(a.v, thr))
    [] a.rel = "ge"  -> a.v[2] > 0 /\ (thr[2] # 0 /\ RLeq(thr, a.v))
    [] OTHER -> FALSE
Agrees == st = "done" => \A k \in DOMAIN Recs[gi].ans : AnswerOk(Recs[gi].ans[k])
=============================================================================
