----------------------------- MODULE DistSetGen ------------------------------
(* Random behaviours of DistSet, printed for the code to replay. *)
EXTENDS DistSet, TLC, Json
CONSTANTS Steps
VARIABLES s, hist
vars == <<s, hist>>
Init == s = Empty /\ hist = <<>>
Next == /\ Len(hist) < Steps
        /\ \E kind \in {RandomElement({1, 2, 3, 4, 5, 6, 7, 8, 9})} :
             LET C == CASE kind \in {1, 2} -> {o \in Ops(s) : o.k = "explore"}
                        [] kind = 3 -> {o \in Ops(s) : o.k = "add"}
                        [] kind = 4 -> {o \in Ops(s) : o.k \in {"add", "del"}}
                        [] kind = 5 -> {o \in Ops(s) : o.k = "delsize"} \cup {[k |-> "del", v |-> v, n |-> 0] : v \in s.Q}
                        [] kind = 6 -> {o \in Ops(s) : o.k = "sat"}
                        [] kind = 7 -> {o \in Ops(s) : o.k = "unsat"}
                        [] OTHER    -> Questions
             IN  \E o \in {RandomElement(IF C = {} THEN Questions ELSE C)} : s' = Apply(s, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Steps => PrintT("HIST " \o ToJson(hist))
=============================================================================
