------------------------------- MODULE Session -------------------------------
(* A session: analyses and edits applied one after the other to two graphs living in one process.

   The specification's state is the two graphs and which one is current.  An analysis changes nothing, and its
   answer is a function of the current graph alone: the answer `fresh` recorded when the same analysis is the only
   thing a process does on a newly built copy of that graph.  An edit changes exactly what it says.  A transformation
   (merging, removal, ...) gives the graph and the answer it gives in a new process.

   A recorded step is accepted when the graph the code shows afterwards is the one of the specification, when the
   fresh copy was that graph too, and when the answers are equal. *)
EXTENDS Common
Recs == JsonDeserialize(IOEnv.VF_INPUT)
VARIABLES gi, k, gs, cur, st
vars == <<gi, k, gs, cur, st>>
Rec == Recs[gi]
S == Rec.steps[k]

Analyse   == S.kind = "A"
Tokens    == S.kind = "M"
Durations == S.kind = "D"
Switch    == S.kind = "X"
Transform == S.kind = "T"

After ==  \* the graphs after the step
  CASE Tokens    -> [gs EXCEPT ![cur].chans[S.what].m0 = S.arg[1]]
    [] Durations -> [gs EXCEPT ![cur].tasks[S.what].dur = S.arg]
    [] Transform -> [gs EXCEPT ![cur] = S.freshgraph]
    [] OTHER     -> gs
CurAfter == IF Switch THEN 3 - cur ELSE cur

Init == /\ gi \in 1 .. Len(Recs) /\ k = 1 /\ gs = Recs[gi].graphs /\ cur = 1 /\ st = "run"
Next == /\ st = "run"
        /\ IF k > Len(Rec.steps) THEN st' = "done" /\ UNCHANGED <<k, gs, cur>>
           ELSE /\ gs' = After /\ cur' = CurAfter /\ k' = k + 1
                /\ st' = IF ~S.ok THEN "died"
                         ELSE IF S.graph # After[CurAfter] THEN "graph"
                         ELSE IF Analyse /\ S.freshgraph # gs[cur] THEN "fresh"
                         ELSE IF (Analyse \/ Transform) /\ S.text # S.fresh THEN "answer"
                         ELSE "run"
        /\ UNCHANGED gi
Spec == Init /\ [][Next]_vars

EveryStepEnds        == st # "died"      \* what ends when executed alone ends in a session
AnalysesChangeNothing == st # "graph"    \* and edits change what they say
FreshCopiesAreCopies == st # "fresh"
AnswersOfTheGraphOnly == st # "answer"
=============================================================================
