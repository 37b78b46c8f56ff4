------------------------------- MODULE Listing -------------------------------
(* What is said about a graph, against the graph.  A generated program (kind "script") is executed call
   by call on an empty graph, with the preconditions of the calls; tables and drawings (kinds "infos",
   "dot") are read line by line, each line describing one task or one channel that no other line
   describes.  Numbers are exact decimal texts; only the fields a listing has are compared. *)
EXTENDS Common
Recs == JsonDeserialize(IOEnv.VF_INPUT)
VARIABLES gi, pc, tasks, chans, meta, st
vars == <<gi, pc, tasks, chans, meta, st>>
R == Recs[gi]
g == R.graph
Line == R.lines[pc]
Init == gi \in 1 .. Len(Recs) /\ pc = 1 /\ tasks = <<>> /\ chans = <<>> /\ meta = [app |-> "", name |-> "", type |-> ""] /\ st = "run"

\* ---- generated programs
NoPhases == <<>>
Fresh(id) == [id |-> id, name |-> "?", reent |-> "?", ninit |-> "0", nph |-> "?", init |-> NoPhases, dur |-> NoPhases]
At(s, id) == {k \in DOMAIN s : s[k].id = id}
Last(s) == Len(s)
Num(n) == ToString(n)
SetT(f, v) == [tasks EXCEPT ![Last(tasks)][f] = v]
SetC(f, v) == [chans EXCEPT ![Last(chans)][f] = v]
Phases(id) == tasks[CHOOSE k \in DOMAIN tasks : tasks[k].id = id].nph
Inits(id) == tasks[CHOOSE k \in DOMAIN tasks : tasks[k].id = id].ninit
\* in which situations a call is accepted
Accepts(l) ==
  CASE l.op = "new"     -> pc = 1
    [] l.op = "addVertex" -> At(tasks, l.v[1]) = {}
    [] l.op \in {"setVertexName", "setInitPhasesQuantity", "setPhasesQuantity", "setReentrancyFactor"} -> tasks # <<>> /\ l.cur = "vertex"
    [] l.op = "setVertexInitDuration" -> tasks # <<>> /\ l.cur = "vertex" /\ Num(Len(l.v)) = tasks[Last(tasks)].ninit
    [] l.op = "setVertexDuration"     -> tasks # <<>> /\ l.cur = "vertex" /\ Num(Len(l.v)) = tasks[Last(tasks)].nph
    [] l.op = "addEdge" -> At(tasks, l.v[1]) # {} /\ At(tasks, l.v[2]) # {}
    [] l.op = "setEdgeInPhases"  -> chans # <<>> /\ l.cur = "edge" /\ Num(Len(l.v)) = Phases(chans[Last(chans)].src)
    [] l.op = "setEdgeOutPhases" -> chans # <<>> /\ l.cur = "edge" /\ Num(Len(l.v)) = Phases(chans[Last(chans)].dst)
    [] l.op = "setEdgeInInitPhases"  -> chans # <<>> /\ l.cur = "edge" /\ Num(Len(l.v)) = Inits(chans[Last(chans)].src)
    [] l.op = "setEdgeOutInitPhases" -> chans # <<>> /\ l.cur = "edge" /\ Num(Len(l.v)) = Inits(chans[Last(chans)].dst)
    [] l.op \in {"setPreload", "setEdgeName", "setTokenSize", "setEdgeType"} -> chans # <<>> /\ l.cur = "edge"
    [] l.op \in {"setGraphName", "setAppName", "setGraphType"} -> TRUE
    [] l.op = "return" -> pc = Len(R.lines)
    [] OTHER -> FALSE
Call ==
  /\ st = "run" /\ R.kind = "script" /\ pc <= Len(R.lines) /\ gi' = gi
  /\ IF ~Accepts(Line) THEN st' = "refused" /\ UNCHANGED <<pc, tasks, chans, meta>>
     ELSE
     /\ pc' = pc + 1
     /\ st' = IF Line.op = "return" THEN "end" ELSE "run"
     /\ tasks' = CASE Line.op = "addVertex" -> Append(tasks, Fresh(Line.v[1]))
                   [] Line.op = "setVertexName" -> SetT("name", Line.v[1])
                   [] Line.op = "setInitPhasesQuantity" -> SetT("ninit", Line.v[1])
                   [] Line.op = "setPhasesQuantity" -> SetT("nph", Line.v[1])
                   [] Line.op = "setReentrancyFactor" -> SetT("reent", Line.v[1])
                   [] Line.op = "setVertexInitDuration" -> SetT("init", Line.v)
                   [] Line.op = "setVertexDuration" -> SetT("dur", Line.v)
                   [] OTHER -> tasks
     /\ chans' = CASE Line.op = "addEdge" -> Append(chans, [name |-> "?", src |-> Line.v[1], dst |-> Line.v[2], pi |-> NoPhases, pp |-> NoPhases, ci |-> NoPhases, cp |-> NoPhases,
                                                            m0 |-> "0", ts |-> "1", kind |-> "NORMAL_EDGE"])
                   [] Line.op = "setEdgeInPhases" -> SetC("pp", Line.v)
                   [] Line.op = "setEdgeOutPhases" -> SetC("cp", Line.v)
                   [] Line.op = "setEdgeInInitPhases" -> SetC("pi", Line.v)
                   [] Line.op = "setEdgeOutInitPhases" -> SetC("ci", Line.v)
                   [] Line.op = "setPreload" -> SetC("m0", Line.v[1])
                   [] Line.op = "setEdgeName" -> SetC("name", Line.v[1])
                   [] Line.op = "setTokenSize" -> SetC("ts", Line.v[1])
                   [] Line.op = "setEdgeType" -> SetC("kind", Line.v[1])
                   [] OTHER -> chans
     /\ meta' = CASE Line.op = "setGraphName" -> [meta EXCEPT !.name = Line.v[1]]
                  [] Line.op = "setAppName" -> [meta EXCEPT !.app = Line.v[1]]
                  [] Line.op = "setGraphType" -> [meta EXCEPT !.type = Line.v[1]]
                  [] OTHER -> meta

\* ---- tables and drawings: a line says [what |-> "task" | "chan", fields]
Of(l) == IF l.what = "task" THEN g.tasks ELSE g.chans
Derived == {"what", "total", "tin", "tout", "ind", "outd"}
Says(l, f, v) == f \in DOMAIN l => l[f] = v
Agrees(l, x) ==
  /\ \A f \in DOMAIN l \ Derived : l[f] = x[f]
  /\ l.what = "task" => /\ "total" \in DOMAIN l => l.total = Sum(x.idur)
                        /\ Says(l, "ind", Cardinality({k \in DOMAIN g.chans : g.chans[k].dst = x.id}))
                        /\ Says(l, "outd", Cardinality({k \in DOMAIN g.chans : g.chans[k].src = x.id}))
  /\ l.what = "chan" => /\ "tin" \in DOMAIN l => l.tin = Sum(x.ipp)
                        /\ "tout" \in DOMAIN l => l.tout = Sum(x.icp)
Seen(l) == IF l.what = "task" THEN tasks ELSE chans
Free(l) == {k \in DOMAIN Of(l) : Agrees(l, Of(l)[k]) /\ \A j \in DOMAIN Seen(l) : Seen(l)[j] # k}
Read ==
  /\ st = "run" /\ R.kind # "script" /\ pc <= Len(R.lines) /\ gi' = gi /\ meta' = meta
  /\ IF Free(Line) = {} THEN st' = "wrong" /\ UNCHANGED <<pc, tasks, chans>>
     ELSE LET k == SetMin(Free(Line)) IN
       /\ pc' = pc + 1 /\ st' = "run"
       /\ IF Line.what = "task" THEN tasks' = Append(tasks, k) /\ chans' = chans ELSE chans' = Append(chans, k) /\ tasks' = tasks
Finish ==
  /\ st = "run" /\ pc > Len(R.lines) /\ gi' = gi
  /\ st' = (IF R.kind = "script" THEN "open" ELSE "end") /\ UNCHANGED <<pc, tasks, chans, meta>>
Next == Call \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

Answered == R.answered = 1
Understood == st \notin {"refused", "wrong", "open"}
ScriptBuildsTheGraph == (st = "end" /\ R.kind = "script") =>
   /\ tasks = [k \in DOMAIN g.tasks |-> [id |-> g.tasks[k].id, name |-> g.tasks[k].name, reent |-> g.tasks[k].reent, ninit |-> g.tasks[k].ninit,
                                         nph |-> g.tasks[k].nph, init |-> g.tasks[k].init, dur |-> g.tasks[k].dur]]
   /\ chans = [k \in DOMAIN g.chans |-> [name |-> g.chans[k].name, src |-> g.chans[k].src, dst |-> g.chans[k].dst, pi |-> g.chans[k].pi, pp |-> g.chans[k].pp,
                                         ci |-> g.chans[k].ci, cp |-> g.chans[k].cp, m0 |-> g.chans[k].m0, ts |-> g.chans[k].ts, kind |-> g.chans[k].kind]]
   /\ meta = [app |-> g.app, name |-> g.name, type |-> g.type]
EverythingListed == (st = "end" /\ R.kind # "script") => Len(tasks) = Len(g.tasks) /\ Len(chans) = Len(g.chans)
\* figures given for the whole graph; a total over tasks is the total of the figures listed for the tasks
RECURSIVE Total(_, _)
Total(s, n) == IF n = 0 THEN 0 ELSE s[n] + Total(s, n - 1)
Figures == (st = "end" /\ R.kind = "infos") =>
   /\ R.app = g.app /\ R.name = g.name /\ R.type = g.type
   /\ R.ntasks = Len(g.tasks) /\ R.nchans = Len(g.chans)
   /\ R.consistent = 1 => /\ R.sumn = Total(R.n, Len(R.n)) /\ R.sumph = Total(R.nph, Len(R.nph))
                          /\ R.sumq = Total([k \in DOMAIN R.n |-> R.n[k] \div R.nph[k]], Len(R.n))
Unchanged == R.frame = 1
=============================================================================
