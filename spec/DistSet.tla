------------------------------- MODULE DistSet -------------------------------
(* The sets of candidate capacity vectors kept by the explorations (StorageDistributionSet), as a state
   machine.  Five sets live side by side:
     P  the result set: a candidate is inserted, then the set is minimised against it (Explore)
     Q  the work list: plain insertion, removal, removal of a whole size, the next candidate
     F  the candidates known to satisfy the goal (only the minimal ones are kept)
     U  the candidates known to fail it (only the maximal ones are kept), with its knee points K
   E and I remember everything explored and everything known to fail; they are what the properties are
   stated about.  A vector is a tuple over 0..M, its size is the sum of its entries. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS D, M, T          \* dimensions, largest entry, largest throughput
Vec == [1 .. D -> 0 .. M]
Box == [1 .. D -> 0 .. M + 1]
RECURSIVE SumTo(_, _)
SumTo(v, k) == IF k = 0 THEN 0 ELSE v[k] + SumTo(v, k - 1)
Size(v) == SumTo(v, Len(v))
Leq(v, w) == \A i \in DOMAIN v : v[i] <= w[i]
Above(v, w) == \A i \in DOMAIN v : v[i] > w[i]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x

Empty == [E |-> {}, P |-> {}, best |-> <<0, 0>>, Q |-> {}, F |-> {}, G |-> {}, U |-> {}, I |-> {}, K |-> {[i \in 1 .. D |-> 0]}]
\* ---- the operations
Better(a, b) == a[2] > b[2]
AddP(s, v, t) == [s EXCEPT !.E = @ \cup {[v |-> v, t |-> t]},
                           !.P = IF \E e \in @ : e.v = v THEN @ ELSE @ \cup {[v |-> v, t |-> t]},
                           !.best = IF (\A e \in s.P : e.v # v) /\ t > @[2] THEN <<Size(v), t>> ELSE @]
\* minimising against the new candidate n: it goes if it is beaten, otherwise it evicts what it beats at its own size
Minimise(s, n) ==
  IF \E e \in s.P : (Size(n.v) > Size(e.v) /\ n.t <= e.t) \/ (Size(n.v) = Size(e.v) /\ n.t < e.t)
  THEN [s EXCEPT !.P = @ \ {n}]
  ELSE [s EXCEPT !.P = {e \in @ : ~(Size(e.v) = Size(n.v) /\ e.t < n.t)}]
Explore(s, v, t) == Minimise(AddP(s, v, t), [v |-> v, t |-> t])
AddQ(s, v) == [s EXCEPT !.Q = @ \cup {v}]
DelQ(s, v) == [s EXCEPT !.Q = @ \ {v}]
DelSize(s, n) == [s EXCEPT !.Q = {v \in @ : Size(v) # n}]
Sat(s, v) == [s EXCEPT !.G = @ \cup {v},
                       !.F = IF \E f \in @ : Leq(f, v) THEN @ ELSE {f \in @ : ~Leq(v, f)} \cup {v}]
Minimal(S) == {x \in S : \A y \in S : Leq(y, x) => y = x}
Unsat(s, v) == IF \E u \in s.U : Leq(v, u) THEN [s EXCEPT !.I = @ \cup {v}]
               ELSE LET hit == {k \in s.K : Leq(k, v)} IN
                    [s EXCEPT !.I = @ \cup {v}, !.U = {u \in @ : ~Leq(u, v)} \cup {v},
                              !.K = (@ \ hit) \cup Minimal({[k EXCEPT ![i] = v[i]] : k \in hit, i \in 1 .. D})]
Apply(s, o) == CASE o.k = "explore" -> Explore(s, o.v, o.n)
                 [] o.k = "add"     -> AddQ(s, o.v)
                 [] o.k = "del"     -> DelQ(s, o.v)
                 [] o.k = "delsize" -> DelSize(s, o.n)
                 [] o.k = "sat"     -> Sat(s, o.v)
                 [] o.k = "unsat"   -> Unsat(s, o.v)
                 [] OTHER           -> s
\* ---- the questions
YN(b) == IF b THEN 1 ELSE 0
Answer(s, o) == CASE o.k = "has"      -> YN(o.v \in s.Q)
                  [] o.k = "hassize"  -> YN(\E v \in s.Q : Size(v) = o.n)
                  [] o.k = "next"     -> IF s.Q = {} THEN -1 ELSE Min({Size(v) : v \in s.Q})
                  [] o.k = "complete" -> YN(s.Q = {} \/ (s.best[2] >= o.n /\ \A v \in s.Q : Size(v) # s.best[1]))
                  [] o.k = "insat"    -> YN(\E f \in s.G : Leq(f, o.v))
                  [] o.k = "inunsat"  -> YN(\E u \in s.I : Leq(o.v, u))
                  \* cone questions on the work list; o.n: lower bound of every entry (an entry at its bound cannot be lowered)
                  [] o.k = "back"     -> YN(\E w \in s.Q \ {o.v} : \A i \in 1 .. D : o.v[i] <= w[i] \/ o.v[i] <= o.n)
                  [] o.k = "fore"     -> YN(\E w \in s.Q \ {o.v} : Leq(w, o.v))
                  [] OTHER            -> 0
\* ---- which operations may come next: the explorations examine candidates by growing size, each once
MayExplore(s, v) == \A e \in s.E : Size(e.v) <= Size(v) /\ e.v # v
Ops(s) == {[k |-> "explore", v |-> v, n |-> t] : v \in {x \in Vec : MayExplore(s, x)}, t \in 0 .. T}
          \cup {[k |-> k, v |-> v, n |-> 0] : k \in {"add", "del", "sat", "unsat"}, v \in Vec}
          \cup {[k |-> "delsize", v |-> <<>>, n |-> n] : n \in 0 .. D * M}
Questions == {[k |-> k, v |-> v, n |-> 0] : k \in {"has", "insat", "inunsat", "fore"}, v \in Vec}
             \cup {[k |-> "back", v |-> v, n |-> n] : v \in Vec, n \in 0 .. M}
             \cup {[k |-> "hassize", v |-> <<>>, n |-> n] : n \in 0 .. D * M}
             \cup {[k |-> "next", v |-> <<>>, n |-> 0]} \cup {[k |-> "complete", v |-> <<>>, n |-> t] : t \in 0 .. T}
\* ---- what the sets are for
Dominated(e, X) == \E f \in X : Size(f.v) <= Size(e.v) /\ f.t >= e.t /\ (Size(f.v) < Size(e.v) \/ f.t > e.t)
ParetoOf(X) == {e \in X : ~Dominated(e, X)}
Known(S, x) == \E u \in S : Leq(x, u)
KneesDescribe(K, S) == \A x \in {y \in Box : Above(y, [i \in 1 .. D |-> 0])} : (\E k \in K : Above(x, k)) <=> ~Known(S, x)
Maximal(S) == {x \in S : \A y \in S : Leq(x, y) => y = x}
Correct(s) == /\ s.P = ParetoOf(s.E)
              /\ s.U = Maximal(s.I) /\ s.F = Minimal(s.G)
              /\ KneesDescribe(s.K, s.I)
              /\ s.E # {} => s.best[2] = Max({e.t : e \in s.E})
              /\ (s.E # {} /\ s.best[2] > 0) => s.best[1] = Min({Size(e.v) : e \in {f \in s.E : f.t = s.best[2]}})
=============================================================================
