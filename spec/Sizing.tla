------------------------------- MODULE Sizing -------------------------------
(* Buffer sizes computed for a requested period, against the bounded self-timed machine.
   Recs[i].kind says what the record executes:
     "each"   one capacity per channel, as returned; rec.total is the returned total
     "total"  only a total was returned: rec.cap is a capacity vector of at most that total (a witness)
     "none"   the graph with unbounded channels: rec.totals lists every method's answer (0: no solution)
     "graph"  the graph left by AddVBuffers, executed with unbounded channels; rec.orig is the graph it was given,
              rec.each the sizes, rec.mul the multiplier
   rec.rate is the requested rate (one over the period). *)
EXTENDS Throughput
R == Recs[gi]
Fin == st = "done"
RECURSIVE Weighted(_, _)
Weighted(v, w) == IF v = <<>> THEN 0 ELSE Head(v) * Head(w) + Weighted(Tail(v), Tail(w))
\* the requested rate is reached with these capacities
Sustained == (Fin /\ R.kind \in {"each", "total", "graph"}) => RLeq(R.rate, thr)
TotalIsSum == R.kind = "each" => Weighted(cap, R.ts) = R.total
WithinTotal == R.kind = "total" => Weighted(cap, R.ts) <= R.total
\* a rate the graph does not have is refused by every method
RefusedIfTooFast == (Fin /\ R.kind = "none" /\ RLt(thr, R.rate)) => \A k \in DOMAIN R.totals : R.totals[k] = 0
\* pairs <<a, b>>: whenever b has a solution, a has one that is not larger
NotLarger == R.kind = "none" => \A k \in DOMAIN R.order :
               LET a == R.totals[R.order[k][1]]  b == R.totals[R.order[k][2]] IN b > 0 => a > 0 /\ a <= b
\* AddVBuffers keeps the graph and adds one reverse channel of the right capacity per channel
Kept == R.kind = "graph" =>
   LET o == R.orig.chans  n == R.graph.chans IN
   /\ R.graph.tasks = R.orig.tasks
   /\ Len(n) = 2 * Len(o)
   /\ \A k \in DOMAIN o : n[k] = o[k]
   /\ \A k \in DOMAIN o : \E j \in Len(o) + 1 .. Len(n) :
        n[j].src = o[k].dst /\ n[j].dst = o[k].src /\ n[j].pp = o[k].cp /\ n[j].cp = o[k].pp
        /\ n[j].m0 = R.mul * R.each[k] - o[k].m0
=============================================================================
