------------------------------- MODULE Groups -------------------------------
(* The group list of the network-on-chip flow: keys (links of a router) are tied two by two, each tie carries a
   value (a task that uses both links).  The machine executes a recorded history of ties: the state is the
   partition of the keys into groups and the values each group carries; after every tie the recorded answer
   must be exactly the groups. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, adds |-> <<<<l, r, v>>>>, groups |-> <<one list of groups after every tie>>]
VARIABLES gi, k, part, val
vars == <<gi, k, part, val>>
R == Recs[gi]
SetOf(q) == {q[i] : i \in DOMAIN q}
\* part: set of disjoint sets of keys;  val: set of <<set of keys, value>> moves with its group
Group(x) == IF \E p \in part : x \in p THEN CHOOSE p \in part : x \in p ELSE {x}
Init == gi \in 1 .. Len(Recs) /\ k = 0 /\ part = {} /\ val = {}
Next == /\ R.ok /\ k < Len(R.adds)
        /\ LET a == R.adds[k + 1]
               g == Group(a[1]) \cup Group(a[2]) IN
           /\ part' = (part \ {Group(a[1]), Group(a[2])}) \cup {g}
           /\ val' = {<<IF w[1] \subseteq g THEN g ELSE w[1], w[2]>> : w \in val} \cup {<<g, a[3]>>}
        /\ k' = k + 1 /\ gi' = gi
Spec == Init /\ [][Next]_vars
Carried(p) == {w[2] : w \in {w \in val : w[1] = p}}
Exact == R.ok /\ Len(R.groups) = Len(R.adds) /\
         (k > 0 => /\ Len(R.groups[k]) = Cardinality(part)
                   /\ {SetOf(R.groups[k][i]) : i \in DOMAIN R.groups[k]} = {Carried(p) : p \in part})
=============================================================================
