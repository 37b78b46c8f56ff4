----------------------------- MODULE EditReplay ------------------------------
(* Editing histories executed by the real graph class: after every step the graph seen through its
   accessors must be the state of the machine. *)
EXTENDS EditGraph, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)    \* [ops, obs |-> <<[tasks, chans, adj, rep, norm, ro, ans, nv, ne]>>]
VARIABLES gi, k, s
vars == <<gi, k, s>>
Init == gi \in 1 .. Len(Recs) /\ k = 0 /\ s = Empty
Next == /\ k < Len(Recs[gi].ops) /\ k < Len(Recs[gi].obs)
        /\ k' = k + 1 /\ gi' = gi
        /\ s' = Apply(s, Recs[gi].ops[k + 1])
Spec == Init /\ [][Next]_vars
O == Recs[gi].obs[k]
Op == Recs[gi].ops[k]
SetOf(q) == {q[i] : i \in DOMAIN q}
Id(n) == Task(s, n).id
Answered == k = 0 => Len(Recs[gi].obs) = Len(Recs[gi].ops)
TasksAreThose == k > 0 => /\ Len(O.tasks) = Cardinality(s.T) /\ O.nv = Cardinality(s.T)
                          /\ SetOf(O.tasks) = {[id |-> t.id, name |-> t.name, reent |-> t.reent, ninit |-> Len(t.init), nph |-> Len(t.dur), init |-> t.init, dur |-> t.dur] : t \in s.T}
ChansAreThose == k > 0 => /\ Len(O.chans) = Cardinality(s.C) /\ O.ne = Cardinality(s.C)
                          /\ SetOf(O.chans) = {[id |-> c.id, name |-> c.name, src |-> Id(c.src), dst |-> Id(c.dst), pi |-> c.pi, pp |-> c.pp, ci |-> c.ci, cp |-> c.cp,
                                                m0 |-> c.m0, ts |-> c.ts, tin |-> Sum(c.pp), tout |-> Sum(c.cp)] : c \in s.C}
Adjacency == k > 0 => \A i \in DOMAIN O.tasks : LET n == O.tasks[i].name IN
     HasTask(s, n) => /\ SetOf(O.adj[i][1]) = {c.id : c \in {h \in s.C : h.dst = n}} /\ Len(O.adj[i][1]) = Cardinality({h \in s.C : h.dst = n})
                      /\ SetOf(O.adj[i][2]) = {c.id : c \in {h \in s.C : h.src = n}} /\ Len(O.adj[i][2]) = Cardinality({h \in s.C : h.src = n})
                      /\ O.adj[i][3] = <<Len(O.adj[i][1]), Len(O.adj[i][2]), Len(O.adj[i][1]) + Len(O.adj[i][2])>>
Lookups == k > 0 => O.look = 1
Derived == k > 0 => O.rep = s.rep /\ O.norm = s.norm /\ O.ro = (s.rep \/ s.norm)
Answers == k > 0 => O.ans = Answer(s, Op)
CoherentGraph == Coherent(s)
=============================================================================
