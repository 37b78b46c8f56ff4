------------------------------- MODULE Pareto -------------------------------
(* The result of a buffer/throughput exploration against the bounded self-timed machine.
   Recs[i].pts: the listed points [size, thr], Recs[i].kind says what the record executes:
     "max"    the graph with unbounded channels: the last point must reach its rate (rec.goal if given)
     "point"  one listed capacity vector: its throughput must be the listed one (rec.ans), its size the sum
     "box"    every capacity vector (at least the largest rate and the tokens of each channel) whose total
              is below the one of the last point: a point no larger and no slower must be listed *)
EXTENDS Throughput
Pts == Recs[gi].pts
Fin == st = "done"
Positives == {k \in DOMAIN Pts : Pts[k].thr[1] # 0}
WellListed == \A k \in DOMAIN Pts : Pts[k].thr[1] >= 0 /\ Pts[k].thr[2] > 0
SizeIsTotal == (Fin /\ Recs[gi].kind = "point") => Sum(cap) = Recs[gi].size
Covered == (Fin /\ Recs[gi].kind = "box") =>
             \/ thr[1] = 0
             \/ \E k \in DOMAIN Pts : Pts[k].size <= Sum(cap) /\ RLeq(thr, Pts[k].thr)
NoneDominated == Recs[gi].kind = "max" =>
             \A k, l \in DOMAIN Pts :
                /\ ~(Pts[k].size <= Pts[l].size /\ RLt(Pts[l].thr, Pts[k].thr))
                /\ ~(Pts[k].size < Pts[l].size /\ RLeq(Pts[l].thr, Pts[k].thr))
Reached == (Fin /\ Recs[gi].kind = "max") =>
             \/ thr[1] = 0
             \/ Pts # <<>> /\ IF "goal" \in DOMAIN Recs[gi] THEN RLeq(Recs[gi].goal, Pts[Len(Pts)].thr) /\ RLeq(Pts[Len(Pts)].thr, thr)
                      ELSE REq(Pts[Len(Pts)].thr, thr)
=============================================================================
