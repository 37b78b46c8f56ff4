-------------------------------- MODULE Exact --------------------------------
(* Exact arithmetic: a register holds a rational; each operation multiplies or divides it, or asks a
   question about it or about integers.  The register of the machine is not reduced; what the code
   holds must be the same number, reduced, with a positive denominator.  Witnesses (quotients, Bezout
   coefficients) come with the records, so that every fact is checked by additions and products only. *)
EXTENDS BigInt, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)      \* [ops |-> <<[k, n, d, rn, rd, x, y, w]>>]
VARIABLES gi, k, reg
vars == <<gi, k, reg>>
Op(g, j) == Recs[g].ops[j]
Positive(n, d) == IF d.neg THEN [n |-> Neg(n), d |-> Neg(d)] ELSE [n |-> n, d |-> d]
Init == gi \in 1 .. Len(Recs) /\ k = 0 /\ reg = [n |-> Zero, d |-> One]
\* after each step the machine adopts the code's (checked) representation, to keep numbers small
Next == /\ k < Len(Recs[gi].ops)
        /\ k' = k + 1 /\ gi' = gi
        /\ LET o == Op(gi, k + 1) IN
           reg' = CASE o.k = "set" -> Positive(o.n, o.d)
                    [] o.k = "mul" -> [n |-> Mul(Op(gi, k).rn, o.n), d |-> Mul(Op(gi, k).rd, o.d)]
                    [] o.k = "div" -> Positive(Mul(Op(gi, k).rn, o.d), Mul(Op(gi, k).rd, o.n))
                    [] OTHER -> reg
Spec == Init /\ [][Next]_vars
O == Op(gi, k)
Now == [n |-> O.rn, d |-> O.rd]                       \* what the code's register holds
\* the same number; reduced: a Bezout combination makes 1; positive denominator
SameValue == k > 0 => Mul(Now.n, reg.d) = Mul(reg.n, Now.d)
Reduced   == k > 0 => /\ Add(Mul(Now.n, O.x), Mul(Now.d, O.y)) = One
                      /\ Lt(Zero, Now.d)
\* comparisons of the register with n/d (d > 0)
Side == Cmp(Mul(Now.n, O.d), Mul(O.n, Now.d))
YN(b) == IF b THEN 1 ELSE 0
Compared == (k > 0 /\ O.k = "cmp") => O.ans = <<YN(Side < 0), YN(Side = 0), YN(Side > 0), YN(Side <= 0), YN(Side # 0)>>
\* integers: O.n, O.d are the arguments, O.w the answer, O.q the witness
Floor == (k > 0 /\ O.k \in {"floor", "flooru"}) => /\ O.w = Mul(O.q, O.d) /\ Le(O.w, O.n) /\ Lt(Sub(O.n, O.w), O.d)
Ceil  == (k > 0 /\ O.k \in {"ceil", "ceilu"})  => /\ O.w = Mul(O.q, O.d) /\ Le(O.n, O.w) /\ Lt(Sub(O.w, O.n), O.d)
Below == (k > 0 /\ O.k = "below") => /\ O.w = Mul(O.q, O.d) /\ Lt(O.w, O.n) /\ Le(Sub(O.n, O.w), O.d)
Above == (k > 0 /\ O.k = "above") => /\ O.w = Mul(O.q, O.d) /\ Lt(O.n, O.w) /\ Le(Sub(O.w, O.n), O.d)
Modulo == (k > 0 /\ O.k = "modulo") => Le(Zero, O.w) /\ Lt(O.w, O.d) /\ Add(O.w, Mul(O.q, O.d)) = O.n
\* n x' + d y' = c with x' = w, y' = q
Bezout == (k > 0 /\ O.k = "euclid") => Add(Mul(O.n, O.w), Mul(O.d, O.q)) = O.c
\* the value is an integer exactly when ans says so; q is the integer part
Whole == (k > 0 /\ O.k = "whole") => O.ans = <<YN(Mul(O.q, O.d) = O.n)>>
=============================================================================
