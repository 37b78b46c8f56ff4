---------------------------- MODULE DistSetModel -----------------------------
(* Every history of the sets, exhaustively for small constants: the operations keep what they must. *)
EXTENDS DistSet
VARIABLES s
Init == s = Empty
Next == \E o \in Ops(s) : o.k \in {"explore", "sat", "unsat"} /\ s' = Apply(s, o)
Spec == Init /\ [][Next]_s
Inv == Correct(s)
Few == Cardinality(s.I) <= 3 /\ Cardinality(s.G) <= 2 /\ Cardinality(s.E) <= 3 /\ ~(s.E # {} /\ s.I \cup s.G # {}) /\ ~(s.G # {} /\ s.I # {})
=============================================================================
