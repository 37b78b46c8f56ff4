----------------------------- MODULE Generator ------------------------------
(* Generated graphs.  kind "random": the requested bounds hold, the same request gives the same graph,
   the balance equations have the announced solution, and the graph is executed (untimed) through its
   initial phases and two full iterations: it must not stall.  kind "lte": four stages, every task of a
   stage feeding every task of the next one with equal rates. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)     \* [ok, kind, g, same |-> graph generated again, q, cfg, stages]
VARIABLES gi, cnt, tok
vars == <<gi, cnt, tok>>
R == Recs[gi]
T == R.g.tasks
C == R.g.chans
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Rate(ini, per, k) == IF k <= Len(ini) THEN ini[k] ELSE per[((k - Len(ini) - 1) % Len(per)) + 1]
Idx(x) == CHOOSE i \in DOMAIN T : T[i].id = x
\* initial phases may need firings of the neighbours that belong to later iterations: they get some more
Limit(i) == Len(T[i].init) + (2 + R.extra) * R.q[i] * Len(T[i].dur)
Goal(i) == Len(T[i].init) + 2 * R.q[i] * Len(T[i].dur)
Can(i) == cnt[i] < Limit(i) /\ \A k \in DOMAIN C : R.di[k] = i => tok[k] >= Rate(C[k].ci, C[k].cp, cnt[i] + 1)
Enabled == {i \in DOMAIN T : Can(i)}
Init == /\ gi \in 1 .. Len(Recs) /\ cnt = [i \in DOMAIN Recs[gi].g.tasks |-> 0]
        /\ tok = [k \in DOMAIN Recs[gi].g.chans |-> Recs[gi].g.chans[k].m0]
Fire(i) == /\ cnt' = [cnt EXCEPT ![i] = @ + 1]
           /\ tok' = [k \in DOMAIN C |-> tok[k] + (IF R.si[k] = i THEN Rate(C[k].pi, C[k].pp, cnt[i] + 1) ELSE 0)
                                           - (IF R.di[k] = i THEN Rate(C[k].ci, C[k].cp, cnt[i] + 1) ELSE 0)]
Next == /\ R.ok /\ R.kind = "random" /\ gi' = gi
        /\ \E i \in DOMAIN T : Can(i) /\ (\A j \in 1 .. i - 1 : ~Can(j)) /\ Fire(i)
Spec == Init /\ [][Next]_vars
First == \A i \in DOMAIN cnt : cnt[i] = 0      \* what concerns the graph only is decided once
Answered == R.ok
Repeatable == (First /\ R.ok) => R.same = R.g
InBounds == (First /\ R.ok /\ R.kind = "random") => LET b == R.cfg IN
   /\ Len(T) >= b.minv /\ Len(T) <= b.maxv /\ Len(C) >= b.mine /\ Len(C) <= b.maxe
   /\ \A i, j \in DOMAIN T : i # j => T[i].id # T[j].id /\ T[i].name # T[j].name
   /\ \A i, j \in DOMAIN C : i # j => C[i].id # C[j].id /\ C[i].name # C[j].name
   /\ \A t \in SetOf(T) : /\ Len(t.dur) >= 1 /\ Len(t.dur) <= b.maxp /\ Len(t.init) <= b.maxi /\ t.reent = 1
                          /\ \A x \in SetOf(t.dur) \cup SetOf(t.init) : x >= 1 /\ x <= b.maxd
   /\ \A c \in SetOf(C) : /\ c.src # c.dst /\ c.m0 >= 0
                          /\ Len(c.pp) = Len(T[Idx(c.src)].dur) /\ Len(c.cp) = Len(T[Idx(c.dst)].dur)
                          /\ Len(c.pi) = Len(T[Idx(c.src)].init) /\ Len(c.ci) = Len(T[Idx(c.dst)].init)
                          /\ \A s \in {c.pp, c.cp} : SumSeq(s) >= 1 /\ SumSeq(s) <= b.maxw
                          /\ \A s \in {c.pi, c.ci} : SumSeq(s) <= b.maxw
                          /\ \A x \in SetOf(c.pp) \cup SetOf(c.cp) \cup SetOf(c.pi) \cup SetOf(c.ci) : x >= 0
Consistent == (First /\ R.ok /\ R.kind = "random") => \A c \in SetOf(C) : R.q[Idx(c.src)] * SumSeq(c.pp) = R.q[Idx(c.dst)] * SumSeq(c.cp)
Live == (R.ok /\ R.kind = "random" /\ Enabled = {}) => \A i \in DOMAIN T : cnt[i] >= Goal(i)
Before(k) == SumSeq(SubSeq(R.stages, 1, k - 1))
Stage(k) == {T[i].id : i \in Before(k) + 1 .. Before(k) + R.stages[k]}
Layered == (First /\ R.ok /\ R.kind = "lte") =>
   /\ Len(T) = SumSeq(R.stages)
   /\ {<<c.src, c.dst>> : c \in SetOf(C)} = UNION {Stage(k) \X Stage(k + 1) : k \in 1 .. Len(R.stages) - 1}
   /\ Len(C) = SumSeq([k \in 1 .. Len(R.stages) - 1 |-> R.stages[k] * R.stages[k + 1]])
   /\ \A c \in SetOf(C) : c.pp = c.cp /\ Len(c.pp) = 1 /\ c.pp[1] > 0 /\ c.m0 = 0
   /\ \A k \in DOMAIN R.stages : \A i, j \in Before(k) + 1 .. Before(k) + R.stages[k] : T[i].dur = T[j].dur /\ T[i].dur[1] > 0 /\ T[i].reent = 1
=============================================================================
