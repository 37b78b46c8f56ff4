------------------------------- MODULE EditGen -------------------------------
(* Random editing histories, printed for the code to replay. *)
EXTENDS EditGraph, Json
CONSTANTS Steps, Names, MaxT, MaxC
VARIABLES s, hist
vars == <<s, hist>>
Init == s = Empty /\ hist = <<>>
No == [k |-> "", name |-> "", new |-> "", id |-> 0, src |-> "", dst |-> "", m |-> 0, r |-> 1, q |-> 1, x |-> <<>>, xi |-> <<>>,
       pi |-> <<>>, pp |-> <<>>, ci |-> <<>>, cp |-> <<>>, rs |-> <<>>, why |-> ""]
Pick(S) == RandomElement(S)
\* random sequences; the random values are bound by quantification over singletons so that each is drawn once
RECURSIVE Rnd(_, _, _)
Rnd(n, lo, hi) == IF n = 0 THEN <<>> ELSE <<Pick(lo .. hi)>> \o Rnd(n - 1, lo, hi)
Durs(n) == Rnd(n, 1, 4)
RECURSIVE Cut(_, _)
Cut(total, n) == IF n = 1 THEN <<total>> ELSE CHOOSE v \in {<<a>> \o Cut(total - a, n - 1) : a \in {Pick(0 .. total)}} : TRUE
FreeT == {n \in Names : ~HasTask(s, n)}
FreeC == {n \in Names : ~HasChan(s, n)}
TN == {t.name : t \in s.T}
CN == {c.name : c \in s.C}
Ids == 1 .. 12
BigT == {i \in Ids : \A t \in s.T : t.id < i}
OneOf(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* every operator below returns a set with at most one random operation
ANewTask == IF FreeT = {} \/ Cardinality(s.T) >= MaxT THEN {} ELSE
   {[No EXCEPT !.k = "newtask", !.name = n, !.id = i, !.r = r, !.q = q, !.x = d, !.xi = e] :
       n \in OneOf(FreeT), i \in OneOf(IF BigT = {} THEN {0} ELSE {0, Pick(BigT)}), r \in OneOf(0 .. 2), q \in OneOf(1 .. 3),
       d \in {Durs(Pick(1 .. 3))}, e \in {IF Pick(1 .. 4) = 1 THEN Durs(Pick(1 .. 2)) ELSE <<>>}}
ANewChan == IF FreeC = {} \/ TN = {} \/ Cardinality(s.C) >= MaxC THEN {} ELSE
   UNION {LET L == Lcm(Task(s, a).q, Task(s, b).q) * m
              z(n) == Rnd(n, 0, 2) IN
          {[No EXCEPT !.k = "newchan", !.name = n, !.id = i, !.src = a, !.dst = b, !.pp = p, !.cp = c, !.m = t, !.pi = x, !.ci = y] :
             n \in OneOf(FreeC), i \in OneOf({0, 0, Pick({j \in Ids : \A h \in s.C : h.id # j} \cup {0})}),
             p \in {Cut(L \div Task(s, a).q, Len(Task(s, a).dur))}, c \in {Cut(L \div Task(s, b).q, Len(Task(s, b).dur))}, t \in OneOf(0 .. 9),
             x \in {z(Len(Task(s, a).init))}, y \in {z(Len(Task(s, b).init))}} : a \in OneOf(TN), b \in OneOf(TN), m \in OneOf(1 .. 2)}
Simple(k) == [No EXCEPT !.k = k]
SeqOf(S) == LET RECURSIVE Q(_)
                Q(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o Q(X \ {x})
            IN Q(S)
SeqMap(n, f(_)) == LET RECURSIVE M(_)
                       M(i) == IF i > n THEN <<>> ELSE <<f(i)>> \o M(i + 1)
                   IN M(1)
ARephase == UNION {UNION {LET on == SeqOf(OnTask(s, n)) IN
               {[No EXCEPT !.k = "rephase", !.name = n, !.x = d, !.rs = SeqMap(Len(on), LAMBDA i :
                    [c |-> on[i].name, p |-> Cut(Sum(on[i].pp) * f, d0), q |-> Cut(Sum(on[i].cp) * f, d0)])] : d \in {Durs(d0)}, f \in {1}} : d0 \in OneOf(1 .. 3)} : n \in OneOf(TN)}
AReinit == UNION {UNION {LET on == SeqOf(OnTask(s, n)) IN
               {[No EXCEPT !.k = "reinit", !.name = n, !.x = d, !.rs = SeqMap(Len(on), LAMBDA i :
                    [c |-> on[i].name, p |-> Rnd(d0, 0, 3), q |-> Rnd(d0, 0, 3)])] : d \in {Durs(d0)}} : d0 \in OneOf(0 .. 2)} : n \in OneOf(TN)}
AEditW(w) ==
   CASE w = 1 -> {[Simple("deltask") EXCEPT !.name = n] : n \in OneOf(TN)}
     [] w = 2 -> {[Simple("delchan") EXCEPT !.name = n] : n \in OneOf(CN)}
     [] w = 3 -> {[Simple("rentask") EXCEPT !.name = n, !.new = x] : n \in OneOf(TN), x \in OneOf(FreeT)}
     [] w = 4 -> {[Simple("renchan") EXCEPT !.name = n, !.new = x] : n \in OneOf(CN), x \in OneOf(FreeC)}
     [] w = 5 -> {[Simple("idtask") EXCEPT !.name = n, !.id = i] : n \in OneOf(TN), i \in OneOf({j \in Ids : \A t \in s.T : t.id # j})}
     [] w = 6 -> {[Simple("idchan") EXCEPT !.name = n, !.id = i] : n \in OneOf(CN), i \in OneOf({j \in Ids : \A c \in s.C : c.id # j})}
     [] w = 7 -> {[Simple("reent") EXCEPT !.name = n, !.m = i] : n \in OneOf(TN), i \in OneOf(0 .. 2)}
     [] w = 8 -> {[Simple("tsize") EXCEPT !.name = n, !.m = i] : n \in OneOf(CN), i \in OneOf(1 .. 5)}
     [] w = 9 -> {[Simple("preload") EXCEPT !.name = n, !.m = i] : n \in OneOf(CN), i \in OneOf(0 .. 9)}
     [] w \in {10, 11} -> ARephase
     [] OTHER -> AReinit
AEdit == UNION {AEditW(w) : w \in {Pick(1 .. 12)}}
AAskW(w) ==
   CASE w = 1 -> {[Simple("findt") EXCEPT !.name = n] : n \in OneOf(Names)}
     [] w = 2 -> {[Simple("findc") EXCEPT !.name = n] : n \in OneOf(Names)}
     [] w = 3 -> {[Simple("findtid") EXCEPT !.id = i] : i \in OneOf(Ids)}
     [] w = 4 -> {[Simple("findcid") EXCEPT !.id = i] : i \in OneOf(Ids)}
     [] w = 5 -> {[Simple("exist") EXCEPT !.src = a, !.dst = b] : a \in OneOf(TN), b \in OneOf(TN)}
     [] w = 6 -> {[Simple("dur") EXCEPT !.name = n] : n \in OneOf(TN)}
     [] OTHER -> {[Simple("gcd") EXCEPT !.name = n] : n \in OneOf(CN)}
AAsk == UNION {AAskW(w) : w \in {Pick(1 .. 9)}}
Normal == s.T # {} /\ \A t \in s.T : OnTask(s, t.name) # {}
Positive == \A c \in s.C : Sum(c.pp) > 0 /\ Sum(c.cp) > 0
ADeriveW(w) == IF s.T = {} \/ ~Positive THEN {} ELSE
           CASE w = 1 -> {Simple("rep")} [] w \in {2, 3} -> IF Normal THEN {Simple("norm")} ELSE {Simple("rep")} [] OTHER -> {Simple("thr")}
ADerive == UNION {ADeriveW(w) : w \in {Pick(1 .. 4)}}
\* edits that must be refused
ARefusedW(w) ==
   IF ~Open(s) THEN {[o EXCEPT !.k = "no", !.why = o.k] : o \in AEdit \cup ANewTask}
   ELSE CASE w = 1 -> {[No EXCEPT !.k = "no", !.why = "newtask", !.name = n, !.id = i, !.x = <<1>>] : n \in OneOf(FreeT), i \in OneOf({t.id : t \in s.T})}
          [] w = 2 -> {[No EXCEPT !.k = "no", !.why = "newtask", !.name = n, !.x = <<1>>] : n \in OneOf(TN)}
          [] w = 3 -> {[No EXCEPT !.k = "no", !.why = "rentask", !.name = n, !.new = x] : n \in OneOf(TN), x \in OneOf(TN \cup {""})}
          [] w = 4 -> {[No EXCEPT !.k = "no", !.why = "renchan", !.name = n, !.new = x] : n \in OneOf(CN), x \in OneOf(CN \cup {""})}
          [] w = 5 -> {[No EXCEPT !.k = "no", !.why = "idtask", !.name = n, !.id = i] : n \in OneOf(TN), i \in OneOf({t.id : t \in s.T})}
          [] w = 6 -> {[No EXCEPT !.k = "no", !.why = "idchan", !.name = n, !.id = i] : n \in OneOf(CN), i \in OneOf({0} \cup {c.id : c \in s.C})}
          [] w = 7 -> {[No EXCEPT !.k = "no", !.why = "dur", !.name = n, !.x = Durs(Len(Task(s, n).dur) + 1)] : n \in OneOf(TN)}
          [] OTHER -> {[No EXCEPT !.k = "no", !.why = "rates", !.name = n, !.pp = Durs(Len(Chan(s, n).pp) + 1), !.cp = Chan(s, n).cp] : n \in OneOf(CN)}
ARefused == UNION {ARefusedW(w) : w \in {Pick(1 .. 8)}}
\* a renaming to its own name, an identifier set to itself: accepted, they change nothing
Harmless(o) == ~(\/ o.why = "rentask" /\ o.new = o.name
                 \/ o.why = "renchan" /\ o.new = o.name
                 \/ o.why = "idtask" /\ Open(s) /\ Task(s, o.name).id = o.id
                 \/ o.why = "idchan" /\ Open(s) /\ Chan(s, o.name).id = o.id)
Choice(w) == LET C == IF ~Open(s) /\ w <= 14 THEN {Simple("reopen")}
                      ELSE CASE w <= 5 -> ANewTask [] w <= 11 -> ANewChan [] w <= 18 -> AEdit [] w <= 22 -> AAsk [] w <= 24 -> ADerive
                             [] w <= 26 -> {o \in ARefused : Harmless(o)} [] OTHER -> {}
                 D == IF C = {} THEN AEdit ELSE C
             IN IF D = {} THEN {[Simple("findt") EXCEPT !.name = n] : n \in OneOf(Names)} ELSE D
Allowed(o) == o.k \in {"reopen", "no", "findt", "findc", "findtid", "findcid", "exist", "gcd", "dur", "rep", "norm", "thr"} \/ Open(s)
Next == /\ Len(hist) < Steps
        /\ \E w \in {RandomElement(1 .. 26)} : \E o \in Choice(w) :
              LET p == IF Allowed(o) THEN o ELSE Simple("reopen") IN
              s' = Apply(s, p) /\ hist' = Append(hist, p)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Steps => PrintT("HIST " \o ToJson(hist))
Ok == Coherent(s)
=============================================================================
