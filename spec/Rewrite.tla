------------------------------ MODULE Rewrite -------------------------------
(* Structural rewrites, decided in two ways.  The part that must not change is compared field by field;
   then the two graphs are executed together, untimed: every order of firings is followed up to a bound,
   relay tasks added by the rewrite fire as soon as they can, and in every reachable state the same
   original tasks must be able to fire in both graphs (a bisimulation).
   kinds: remove (a set of tasks goes away with its channels), reent (a set of tasks loses its limit on
   overlapping firings), single (one task ends with at most one outgoing channel, relays duplicate). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)  \* [ok, kind, a |-> before, b |-> after, set |-> ids, bound]
VARIABLES gi, cnt, rel
vars == <<gi, cnt, rel>>
R == Recs[gi]
A == R.a
B == R.b
SetOf(q) == {q[i] : i \in DOMAIN q}
In(x) == x \in SetOf(R.set)
Kept(c) == CASE R.kind = "remove" -> ~In(c.src) /\ ~In(c.dst)
             [] R.kind = "single" -> ~In(c.src)
             [] OTHER -> TRUE
KeptTask(t) == R.kind # "remove" \/ ~In(t.id)
NewTask(t) == IF R.kind = "reent" /\ In(t.id) THEN [t EXCEPT !.reent = 0] ELSE t
Olds == {t.id : t \in SetOf(A.tasks)}
Relays == {i \in DOMAIN B.tasks : B.tasks[i].id \notin Olds}
Frame ==
  /\ R.ok
  /\ {t \in SetOf(B.tasks) : t.id \in Olds} = {NewTask(t) : t \in {x \in SetOf(A.tasks) : KeptTask(x)}}
  /\ Len(B.tasks) = Cardinality(SetOf(B.tasks))
  /\ {c \in SetOf(A.chans) : Kept(c)} \subseteq SetOf(B.chans)
  /\ Len(B.chans) = Cardinality(SetOf(B.chans))
  /\ R.kind # "single" => Relays = {} /\ SetOf(B.chans) = {c \in SetOf(A.chans) : Kept(c)}
  /\ R.kind = "single" =>
        /\ \A x \in SetOf(R.set) : Cardinality({c \in SetOf(B.chans) : c.src = x}) = (IF \E c \in SetOf(A.chans) : c.src = x THEN 1 ELSE 0)
        /\ \A i, j \in DOMAIN B.tasks : i # j => B.tasks[i].name # B.tasks[j].name
        \* what is not an untouched channel of A is part of the relay tree
        /\ \A c \in SetOf(B.chans) : c \in SetOf(A.chans) \/ In(c.src) \/ c.src \notin Olds
Rate(ini, per, k) == IF k <= Len(ini) THEN ini[k] ELSE per[((k - Len(ini) - 1) % Len(per)) + 1]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Total(ini, per, k) == IF k <= Len(ini) THEN SumSeq(SubSeq(ini, 1, k))
                      ELSE SumSeq(ini) + ((k - Len(ini)) \div Len(per)) * SumSeq(per) + SumSeq(SubSeq(per, 1, (k - Len(ini)) % Len(per)))
Idx(q, x) == CHOOSE i \in DOMAIN q : q[i].id = x
Common == {t.id : t \in {x \in SetOf(A.tasks) : KeptTask(x)}}
\* counts of firings: cnt by identifier for the common tasks, rel by index of B for the relays
NB(x, r) == IF x \in Olds THEN cnt[x] ELSE r[Idx(B.tasks, x)]
TokA(c) == c.m0 + Total(c.pi, c.pp, cnt[c.src]) - Total(c.ci, c.cp, cnt[c.dst])
TokB(c, r) == c.m0 + Total(c.pi, c.pp, NB(c.src, r)) - Total(c.ci, c.cp, NB(c.dst, r))
CanA(x) == \A c \in SetOf(A.chans) : (Kept(c) \/ R.kind = "single") /\ c.dst = x => TokA(c) >= Rate(c.ci, c.cp, cnt[x] + 1)
CanB(x, r) == \A c \in SetOf(B.chans) : c.dst = x => TokB(c, r) >= Rate(c.ci, c.cp, NB(x, r) + 1)
RECURSIVE Drain(_)
Drain(r) == LET E == {i \in Relays : CanB(B.tasks[i].id, r)} IN
            IF E = {} THEN r ELSE Drain([r EXCEPT ![CHOOSE i \in E : TRUE] = @ + 1])
Zero == [i \in Relays |-> 0]
Init == /\ gi \in 1 .. Len(Recs)
        /\ cnt = [x \in Common |-> 0] /\ rel = Zero
Fire(x) == /\ cnt[x] < R.bound /\ CanA(x) /\ CanB(x, Drain(rel))
           /\ cnt' = [cnt EXCEPT ![x] = @ + 1]
           /\ rel' = Drain(rel) /\ gi' = gi
Next == Frame /\ \E x \in Common : Fire(x)
Spec == Init /\ [][Next]_vars
Shape == Frame
Same == Frame => LET r == Drain(rel) IN
        /\ \A x \in Common : CanA(x) <=> CanB(x, r)
        /\ \A c \in SetOf(B.chans) : TokB(c, r) >= 0
=============================================================================
