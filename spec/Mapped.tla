------------------------------- MODULE Mapped --------------------------------
(* The picture of an application placed on a network.  The machine goes over the network and the application
   the way a reader does: every core and router is looked up in the picture, then every link, then a packet of
   every channel follows its recorded route and takes one stroke of its colour off every link it crosses, then
   every task is looked up.  Coordinates are integers, 1000 make the distance between two cells.
   Recs[gi] = [ok, xs, ys, nodes |-> <<[id, core, x, y]>>, links |-> <<[id, s, t]>>, at |-> node (or link, or -1) of each task,
     names, ids, ch |-> <<[s, t, route]>> (task positions), colour, arrows |-> asked for?,
     pic |-> [nodes |-> <<[id, label, x, y]>>, links |-> <<[s, t, col]>>, tasks |-> <<[id, label, x, y]>>, arrows |-> <<[s, t]>>]] *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
VARIABLES gi, k, strokes, st
vars == <<gi, k, strokes, st>>
R == Recs[gi]
P == R.pic
Abs(x) == IF x < 0 THEN -x ELSE x
Idx(s) == 1 .. Len(s)
Count(S) == Cardinality(S)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Total(s) == Sum(s, Len(s))
HasNode(x) == \E i \in Idx(R.nodes) : R.nodes[i].id = x
NodeOf(x) == R.nodes[CHOOSE i \in Idx(R.nodes) : R.nodes[i].id = x]
LinkAt(x) == IF \E i \in Idx(R.links) : R.links[i].id = x THEN CHOOSE i \in Idx(R.links) : R.links[i].id = x ELSE 0
\* the picture is turned around: the first cell is at the upper right
PX(n) == R.xs * 1000 - n.x
PY(n) == R.ys * 1000 - n.y
Num(n) == IF n.core THEN n.id - Len(R.nodes) \div 2 ELSE n.id
\* the arrow that stands for link i
Drawn(i) == {j \in Idx(P.links) : P.links[j].s = R.links[i].s /\ P.links[j].t = R.links[i].t}
Init == /\ gi \in 1 .. Len(Recs) /\ k = 1
        /\ strokes = [i \in Idx(Recs[gi].links) |-> LET l == Recs[gi].links[i] S == {j \in Idx(Recs[gi].pic.links) : Recs[gi].pic.links[j].s = l.s /\ Recs[gi].pic.links[j].t = l.t} IN
                                                     IF Count(S) = 1 THEN Len(Recs[gi].pic.links[CHOOSE j \in S : TRUE].col) ELSE -1]
        /\ st = IF Recs[gi].ok THEN "nodes" ELSE "refused"
Go(n, next, bad) == /\ gi' = gi
                    /\ IF bad THEN st' = "wrong" /\ k' = k ELSE IF k >= n THEN st' = next /\ k' = 1 ELSE st' = st /\ k' = k + 1
NodeShown == LET n == R.nodes[k] S == {j \in Idx(P.nodes) : P.nodes[j].id = n.id} IN
   Count(S) = 1 /\ LET p == P.nodes[CHOOSE j \in S : TRUE] IN p.x = PX(n) /\ p.y = PY(n) /\ p.label = ToString(Num(n))
Nodes == st = "nodes" /\ Go(Len(R.nodes), "links", ~NodeShown) /\ UNCHANGED strokes
Links == st = "links" /\ Go(Len(R.links), "routes", strokes[k] < 0) /\ UNCHANGED strokes
\* channel k sends its packet
Crossed(c, i) == Count({h \in Idx(R.ch[c].route) : LinkAt(R.ch[c].route[h]) = i})
Route == /\ st = "routes"
         /\ IF Len(R.ch) = 0 \/ ~R.colour THEN strokes' = strokes /\ st' = "check" /\ k' = 1 /\ gi' = gi
            ELSE LET s == [i \in Idx(R.links) |-> strokes[i] - Crossed(k, i)] IN
                 strokes' = s /\ Go(Len(R.ch), "check", (\E h \in Idx(R.ch[k].route) : LinkAt(R.ch[k].route[h]) = 0) \/ \E i \in Idx(R.links) : s[i] < 0)
\* all strokes are used up
Check == st = "check" /\ Go(0, "tasks", \E i \in Idx(R.links) : strokes[i] # 0) /\ UNCHANGED strokes
Near == 90
\* channels at a task (a channel from the task to itself counts twice)
Ends(t) == [e \in 1 .. 2 * Len(R.ch) |-> LET c == R.ch[(e + 1) \div 2] IN IF e % 2 = 1 THEN (IF c.s = t THEN c.t ELSE 0) ELSE (IF c.t = t THEN c.s ELSE 0)]
TaskShown == LET S == {j \in Idx(P.tasks) : P.tasks[j].id = R.ids[k]} IN
   Count(S) = 1 /\ LET p == P.tasks[CHOOSE j \in S : TRUE]  a == R.at[k] IN
     Abs(p.x) < 1000000 /\ Abs(p.y) < 1000000 /\      \* a place at all
     IF HasNode(a)
     THEN /\ Abs(p.x - PX(NodeOf(a))) <= Near /\ Abs(p.y - PY(NodeOf(a))) <= Near
          /\ p.label = (IF NodeOf(a).core THEN R.names[k] ELSE "")
     ELSE /\ p.label = ""
          /\ LET E == Ends(k)  near == {e \in Idx(E) : E[e] > 0}  d == Count(near) IN
             (d > 0 /\ \A e \in near : HasNode(R.at[E[e]])) =>
               /\ Abs(p.x * d - Total([e \in Idx(E) |-> IF E[e] > 0 THEN PX(NodeOf(R.at[E[e]])) ELSE 0])) <= (Near + 1) * d
               /\ Abs(p.y * d - Total([e \in Idx(E) |-> IF E[e] > 0 THEN PY(NodeOf(R.at[E[e]])) ELSE 0])) <= (Near + 1) * d
Tasks == st = "tasks" /\ Go(Len(R.ids), "end", ~TaskShown) /\ UNCHANGED strokes
Next == Nodes \/ Links \/ Route \/ Check \/ Tasks
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Answered == st # "refused"
Shown == st # "wrong"
First == st = "nodes" /\ k = 1
NothingElse == First => Len(P.nodes) = Len(R.nodes) /\ Len(P.links) = Len(R.links) /\ Len(P.tasks) = Len(R.ids)
\* a channel has one colour, its own as long as there are enough of them
Colours == {x : x \in UNION {{P.links[j].col[h] : h \in Idx(P.links[j].col)} : j \in Idx(P.links)}}
Bearing(x) == {<<P.links[j].s, P.links[j].t>> : j \in {i \in Idx(P.links) : \E h \in Idx(P.links[i].col) : P.links[i].col[h] = x}}
Taken(c) == {<<R.links[i].s, R.links[i].t>> : i \in {LinkAt(R.ch[c].route[h]) : h \in Idx(R.ch[c].route)} \ {0}}
Routed == {c \in Idx(R.ch) : Len(R.ch[c].route) > 0}
OwnColour == (First /\ R.colour /\ Count(Routed) <= 12) =>
   /\ Count(Colours) = Count(Routed)
   /\ LET T == TLCEval([c \in Routed |-> Taken(c)])  B == TLCEval([x \in Colours |-> Bearing(x)]) IN
      \A c \in Routed : Count({x \in Colours : B[x] = T[c]}) = Count({d \in Routed : T[d] = T[c]})
OneColour == (First /\ R.colour) => \A x \in Colours : Bearing(x) = UNION {Taken(c) : c \in {d \in Routed : Taken(d) \subseteq Bearing(x)}}
Plain == (First /\ ~R.colour) => Colours = {}
\* tasks at one place can be told apart
Apart == First => Count({<<p.x, p.y>> : p \in {P.tasks[j] : j \in {i \in Idx(P.tasks) : \E t \in Idx(R.ids) : R.ids[t] = P.tasks[i].id /\ HasNode(R.at[t])}}})
                  = Count({i \in Idx(P.tasks) : \E t \in Idx(R.ids) : R.ids[t] = P.tasks[i].id /\ HasNode(R.at[t])})
Arrows == First => \A t \in Idx(R.ids) : \A u \in Idx(R.ids) :
   Count({j \in Idx(P.arrows) : P.arrows[j] = [s |-> R.ids[t], t |-> R.ids[u]]}) = (IF R.arrows THEN Count({c \in Idx(R.ch) : R.ch[c].s = t /\ R.ch[c].t = u}) ELSE 0)
NoOther == First => Len(P.arrows) = (IF R.arrows THEN Len(R.ch) ELSE 0)
=============================================================================
