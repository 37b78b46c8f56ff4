-------------------------------- MODULE Noc ---------------------------------
(* A mesh network on chip: one router and one core per cell, links both ways between a core and its router
   and between routers of neighbouring cells.  The machine sends one packet along the recorded route of each
   channel, link by link, from the location of the producer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.VF_INPUT)
\* [ok, xs, ys, nodes |-> <<[id, core, x, y]>>, links |-> <<[id, s, t]>>, map |-> node of each task, forced |-> <<[task, node]>>,
\*  kind |-> which mapping, routing |-> which routing ("" none), ch |-> <<[s, t, route, pr, co, m0]>> (task positions),
\*  model |-> [given, n |-> number of original tasks, at |-> location of each task, dur, ch |-> <<[s, t, pr, co, m0]>>]]
VARIABLES gi, c, hop, node, axis, lost
vars == <<gi, c, hop, node, axis, lost>>
R == Recs[gi]
SetOf(s) == {s[i] : i \in DOMAIN s}
Nodes == SetOf(R.nodes)
Links == SetOf(R.links)
NodeOf(x) == CHOOSE n \in Nodes : n.id = x
HasNode(x) == \E n \in Nodes : n.id = x
HasLink(x) == \E l \in Links : l.id = x
LinkOf(x) == CHOOSE l \in Links : l.id = x
Abs(x) == IF x < 0 THEN -x ELSE x
Init == /\ gi \in 1 .. Len(Recs) /\ c \in 1 .. Len(Recs[gi].ch) \cup {0} /\ hop = 0 /\ axis = "none" /\ lost = FALSE
        /\ node = IF c = 0 THEN -1 ELSE Recs[gi].map[Recs[gi].ch[c].s]
Route == R.ch[c].route
Hop == /\ R.ok /\ c > 0 /\ R.routing # "" /\ ~lost /\ hop < Len(Route) /\ gi' = gi /\ c' = c /\ hop' = hop + 1
       /\ LET x == Route[hop + 1] IN
          IF ~HasLink(x) \/ LinkOf(x).s # node THEN lost' = TRUE /\ node' = node /\ axis' = axis
          ELSE LET l == LinkOf(x) IN
            /\ lost' = FALSE /\ node' = l.t
            /\ axis' = IF NodeOf(l.s).core \/ NodeOf(l.t).core THEN axis
                       ELSE IF NodeOf(l.s).x # NodeOf(l.t).x THEN (IF axis \in {"none", "x"} THEN "x" ELSE "back") ELSE (IF axis = "back" THEN "back" ELSE "y")
Next == Hop
Spec == Init /\ [][Next]_vars
First == c = 0 /\ R.ok
Answered == R.ok
Cells == (0 .. R.xs - 1) \X (0 .. R.ys - 1)
Mesh == First =>
   /\ Cardinality({n.id : n \in Nodes} \cup {l.id : l \in Links}) = Len(R.nodes) + Len(R.links)
   /\ Len(R.nodes) = 2 * R.xs * R.ys /\ Len(R.links) = Cardinality(Links)
   /\ \A p \in Cells : \A k \in BOOLEAN : Cardinality({n \in Nodes : n.x = p[1] /\ n.y = p[2] /\ n.core = k}) = 1
   /\ {<<l.s, l.t>> : l \in Links} = {e \in {n.id : n \in Nodes} \X {n.id : n \in Nodes} : LET a == NodeOf(e[1]) b == NodeOf(e[2])  d == Abs(a.x - b.x) + Abs(a.y - b.y) IN
                                        (a.core # b.core /\ d = 0) \/ (~a.core /\ ~b.core /\ d = 1)}
   /\ Cardinality({<<l.s, l.t>> : l \in Links}) = Len(R.links)
\* createNoC: a square mesh with a core for each task
Enough == (First /\ R.created) => R.xs = R.ys /\ R.xs * R.ys >= Len(R.map)
Mapped == (First /\ R.kind # "") => /\ \A t \in DOMAIN R.map : HasNode(R.map[t])
                                    /\ R.kind \in {"random", "mapandroute"} => \A t \in DOMAIN R.map : NodeOf(R.map[t]).core
                                    /\ R.kind = "mapandroute" => \A t, u \in DOMAIN R.map : t # u => R.map[t] # R.map[u]
                                    /\ \A f \in SetOf(R.forced) : R.map[f.task] = f.node
NoGap == ~lost
Arrives == (R.ok /\ c > 0 /\ R.routing # "" /\ hop = Len(Route) /\ ~lost) => node = R.map[R.ch[c].t]
Dist(a, b) == Abs(NodeOf(a).x - NodeOf(b).x) + Abs(NodeOf(a).y - NodeOf(b).y)
Minimal == (R.ok /\ c > 0 /\ R.routing # "" /\ hop = 0) => Len(Route) = Dist(R.map[R.ch[c].s], R.map[R.ch[c].t]) + 2
XFirst == R.routing = "xy" => axis # "back" 
(* the graph with modelled communications: each channel between two tasks is a chain of tasks, one per link of the route
   (one time unit, in order) and one per router crossed (no time), moving tokens one by one, with the rates at both ends
   and the initial tokens of the channel *)
M == R.model
NewCh(t) == {i \in DOMAIN M.ch : M.ch[i].s = t}
RECURSIVE Chain(_, _)
Chain(i, n) == IF M.ch[i].t <= M.n \/ n = 0 \/ Cardinality(NewCh(M.ch[i].t)) # 1 THEN <<i>> ELSE <<i>> \o Chain(CHOOSE j \in NewCh(M.ch[i].t) : TRUE, n - 1)
RECURSIVE Expect(_)
Expect(r) == IF r = <<>> THEN <<>> ELSE <<[at |-> Head(r), dur |-> 1]>> \o (IF Len(r) > 1 THEN <<[at |-> LinkOf(Head(r)).t, dur |-> 0]>> ELSE <<>>) \o Expect(Tail(r))
RECURSIVE SumM(_)
SumM(s) == IF s = <<>> THEN 0 ELSE M.ch[Head(s)].m0 + SumM(Tail(s))
Sig(i) == LET k == Chain(i, 200) e == M.ch[k[Len(k)]] IN
   [s |-> M.ch[i].s, t |-> e.t, pr |-> M.ch[i].pr, co |-> e.co, m0 |-> SumM(k),
    via |-> [x \in 1 .. Len(k) - 1 |-> [at |-> M.at[M.ch[k[x]].t], dur |-> M.dur[M.ch[k[x]].t]]],
    unit |-> \A x \in 1 .. Len(k) - 1 : M.ch[k[x]].co = 1 /\ M.ch[k[x + 1]].pr = 1]
Old(i) == LET h == R.ch[i] IN [s |-> h.s, t |-> h.t, pr |-> h.pr, co |-> h.co, m0 |-> h.m0, via |-> IF h.s = h.t THEN <<>> ELSE Expect(h.route), unit |-> TRUE]
Modelled == (First /\ M.given) => LET heads == {i \in DOMAIN M.ch : M.ch[i].s <= M.n} IN
   /\ \A i \in heads : M.ch[i].s <= M.n
   /\ \A o \in {Old(i) : i \in DOMAIN R.ch} : Cardinality({i \in DOMAIN R.ch : Old(i) = o}) = Cardinality({i \in heads : Sig(i) = o})
   /\ Cardinality(heads) = Len(R.ch)
   /\ Len(M.ch) = Cardinality(UNION {SetOf(Chain(i, 200)) : i \in heads})
=============================================================================
