------------------------------ MODULE Structure ------------------------------
(* Components and cycles.  The machine walks every simple path that starts at the smallest task of its
   prospective cycle (channel by channel, so that parallel channels give distinct paths); a path whose
   last task has a channel back to the first one is an elementary cycle.  Recorded: the partition
   printed by computeSCCKosaraju, the verdict of CycleDetection and the list printed by CycleCount. *)
EXTENDS Common
Recs == JsonDeserialize(IOEnv.VF_INPUT)   \* [graph, scc |-> <<ids>>, detect |-> 0/1, cyc |-> <<task ids>>, again |-> <<task ids>>, total]
VARIABLES gi, path
vars == <<gi, path>>
g == Recs[gi].graph
A == Recs[gi]
Init == gi \in 1 .. Len(Recs) /\ path \in {<<t>> : t \in 1 .. Len(Recs[gi].graph.tasks)}
Extend(u) == /\ u \in Succ(g, path[Len(path)]) /\ u > path[1] /\ u \notin Range(path)
             /\ path' = Append(path, u) /\ gi' = gi
Next == \E u \in Tasks(g) : Extend(u)
Spec == Init /\ [][Next]_vars
Arcs(u, v) == Cardinality({c \in Chans(g) : g.chans[c].src = u /\ g.chans[c].dst = v})
RECURSIVE Ways(_, _)
Ways(p, k) == IF k = 0 THEN 1 ELSE Arcs(p[k], p[IF k = Len(p) THEN 1 ELSE k + 1]) * Ways(p, k - 1)
Closed == Len(path) > 1 /\ Arcs(path[Len(path)], path[1]) > 0
\* rotations are normalised by the driver: smallest task first
Listed(L, p) == Cardinality({k \in DOMAIN L : L[k] = p})
EveryCycleListed == Closed => Listed(A.cyc, path) = Ways(path, Len(path)) /\ Listed(A.again, path) = Ways(path, Len(path))
IsCycle(p) == /\ Len(p) > 1 /\ \A k \in DOMAIN p : p[k] \in Tasks(g) /\ \A j \in DOMAIN p : j # k => p[j] # p[k]
              /\ Ways(p, Len(p)) > 0
OnlyCyclesListed == Len(path) = 1 => \A k \in DOMAIN A.cyc : IsCycle(A.cyc[k])
TotalMatches == Len(path) = 1 => A.total = Len(A.cyc)
Components == Len(path) = 1 => {Range(A.scc[k]) : k \in DOMAIN A.scc} = SccSet(g)
Partition  == Len(path) = 1 => Sum([k \in DOMAIN A.scc |-> Len(A.scc[k])]) = Len(g.tasks)
Detected == /\ (Closed => A.detect = 1)
            /\ ((Len(path) = 1 /\ A.detect = 1) => \E S \in SccSet(g) : Cardinality(S) > 1)
=============================================================================
