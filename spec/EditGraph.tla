------------------------------ MODULE EditGraph ------------------------------
(* Editing a dataflow graph through its public interface.  The state is what the graph is after the
   accepted edits: tasks T, channels C, the largest identifiers used so far, and whether results derived
   from the graph (repetition vector, normalisation) are held; while they are, the graph refuses edits
   until it is reopened, and reopening forgets them.
   q is a ghost: the number of cycles of the task in one iteration (all graphs are consistent). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [T |-> {}, C |-> {}, nt |-> 1, nc |-> 1, rep |-> FALSE, norm |-> FALSE]
Gcd(a, b) == LET RECURSIVE G(_, _)
                 G(x, y) == IF y = 0 THEN x ELSE G(y, x % y)
             IN G(a, b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
MaxOf(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN 0 ELSE Head(v) + Sum(Tail(v))
RECURSIVE GcdAll(_)
GcdAll(v) == IF v = <<>> THEN 0 ELSE Gcd(GcdAll(Tail(v)), Head(v))
Task(s, n) == CHOOSE t \in s.T : t.name = n
Chan(s, n) == CHOOSE c \in s.C : c.name = n
HasTask(s, n) == \E t \in s.T : t.name = n
HasChan(s, n) == \E c \in s.C : c.name = n
OnTask(s, n) == {c \in s.C : c.src = n \/ c.dst = n}
Open(s) == ~s.rep /\ ~s.norm
\* ---- edits; o.k is the kind.  Channels refer to their tasks by name here
PutT(s, n, t) == [s EXCEPT !.T = {x \in @ : x.name # n} \cup {t}]
PutC(s, n, c) == [s EXCEPT !.C = {x \in @ : x.name # n} \cup {c}]
NewTask(s, o) == LET id == IF o.id = 0 THEN s.nt ELSE o.id
                 IN [s EXCEPT !.nt = MaxOf(@, id + 1), !.T = @ \cup {[id |-> id, name |-> o.name, reent |-> o.r, init |-> o.xi, dur |-> o.x, q |-> o.q]}]
NewChan(s, o) == LET id == IF o.id = 0 THEN s.nc ELSE o.id
                 IN [s EXCEPT !.nc = MaxOf(@, id + 1),
                              !.C = @ \cup {[id |-> id, name |-> o.name, src |-> o.src, dst |-> o.dst, pi |-> o.pi, pp |-> o.pp, ci |-> o.ci, cp |-> o.cp, m0 |-> o.m, ts |-> 1]}]
Retarget(c, a, b) == [c EXCEPT !.src = IF @ = a THEN b ELSE @, !.dst = IF @ = a THEN b ELSE @]
RenTask(s, a, b) == [s EXCEPT !.T = {x \in @ : x.name # a} \cup {[Task(s, a) EXCEPT !.name = b]}, !.C = {Retarget(c, a, b) : c \in @}]
\* new phases for a task: durations, and rates on each of its channels (o.rs: one entry per channel)
Rated(o, c, n) == LET r == CHOOSE x \in {o.rs[i] : i \in DOMAIN o.rs} : x.c = c.name
                  IN [c EXCEPT !.pp = IF c.src = n THEN r.p ELSE @, !.cp = IF c.dst = n THEN r.q ELSE @]
RatedI(o, c, n) == LET r == CHOOSE x \in {o.rs[i] : i \in DOMAIN o.rs} : x.c = c.name
                   IN [c EXCEPT !.pi = IF c.src = n THEN r.p ELSE @, !.ci = IF c.dst = n THEN r.q ELSE @]
Rephase(s, o) == [s EXCEPT !.T = {x \in @ : x.name # o.name} \cup {[Task(s, o.name) EXCEPT !.dur = o.x]},
                           !.C = {IF c \in OnTask(s, o.name) THEN Rated(o, c, o.name) ELSE c : c \in @}]
Reinit(s, o) == [s EXCEPT !.T = {x \in @ : x.name # o.name} \cup {[Task(s, o.name) EXCEPT !.init = o.x]},
                          !.C = {IF c \in OnTask(s, o.name) THEN RatedI(o, c, o.name) ELSE c : c \in @}]
Apply(s, o) ==
  CASE o.k = "newtask"  -> NewTask(s, o)
    [] o.k = "newchan"  -> NewChan(s, o)
    [] o.k = "deltask"  -> [s EXCEPT !.T = {t \in @ : t.name # o.name}, !.C = {c \in @ : c.src # o.name /\ c.dst # o.name}]
    [] o.k = "delchan"  -> [s EXCEPT !.C = {c \in @ : c.name # o.name}]
    [] o.k = "rentask"  -> RenTask(s, o.name, o.new)
    [] o.k = "renchan"  -> PutC(s, o.name, [Chan(s, o.name) EXCEPT !.name = o.new])
    [] o.k = "idtask"   -> [PutT(s, o.name, [Task(s, o.name) EXCEPT !.id = o.id]) EXCEPT !.nt = MaxOf(@, o.id + 1)]
    [] o.k = "idchan"   -> [PutC(s, o.name, [Chan(s, o.name) EXCEPT !.id = o.id]) EXCEPT !.nc = MaxOf(@, o.id + 1)]
    [] o.k = "reent"    -> PutT(s, o.name, [Task(s, o.name) EXCEPT !.reent = o.m])
    [] o.k = "rephase"  -> Rephase(s, o)
    [] o.k = "reinit"   -> Reinit(s, o)
    [] o.k = "preload"  -> PutC(s, o.name, [Chan(s, o.name) EXCEPT !.m0 = o.m])
    [] o.k = "tsize"    -> PutC(s, o.name, [Chan(s, o.name) EXCEPT !.ts = o.m])
    [] o.k = "rep"      -> [s EXCEPT !.rep = TRUE]
    [] o.k = "norm"     -> [s EXCEPT !.norm = TRUE]
    [] o.k = "reopen"   -> [s EXCEPT !.rep = FALSE, !.norm = FALSE]
    [] OTHER            -> s         \* questions, and edits that must be refused
\* ---- questions
Rates(c) == c.pi \o c.pp \o c.ci \o c.cp
Answer(s, o) ==
  CASE o.k = "findt"   -> IF HasTask(s, o.name) THEN Task(s, o.name).id ELSE 0
    [] o.k = "findc"   -> IF HasChan(s, o.name) THEN Chan(s, o.name).id ELSE 0
    [] o.k = "findtid" -> IF \E t \in s.T : t.id = o.id THEN 1 ELSE 0
    [] o.k = "findcid" -> IF \E c \in s.C : c.id = o.id THEN 1 ELSE 0
    [] o.k = "exist"   -> IF \E c \in s.C : c.src = o.src /\ c.dst = o.dst THEN 1 ELSE 0
    [] o.k = "gcd"     -> GcdAll(Rates(Chan(s, o.name)))
    [] o.k = "dur"     -> Sum(Task(s, o.name).dur)
    [] o.k = "no"      -> 1          \* refused
    [] o.k \in {"rep", "norm", "thr"} -> 1     \* the same as on a freshly built graph
    [] OTHER -> 0
\* ---- the graph is coherent
Unique(S, f(_)) == \A x, y \in S : f(x) = f(y) => x = y
Coherent(s) == /\ Unique(s.T, LAMBDA t : t.name) /\ Unique(s.T, LAMBDA t : t.id) /\ Unique(s.C, LAMBDA c : c.name) /\ Unique(s.C, LAMBDA c : c.id)
               /\ \A c \in s.C : /\ HasTask(s, c.src) /\ HasTask(s, c.dst)
                                 /\ Len(c.pp) = Len(Task(s, c.src).dur) /\ Len(c.cp) = Len(Task(s, c.dst).dur)
                                 /\ Len(c.pi) = Len(Task(s, c.src).init) /\ Len(c.ci) = Len(Task(s, c.dst).init)
                                 /\ Sum(c.pp) * Task(s, c.src).q = Sum(c.cp) * Task(s, c.dst).q
               /\ \A t \in s.T : t.id < s.nt
               /\ \A c \in s.C : c.id < s.nc
=============================================================================
