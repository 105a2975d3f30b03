------------------------------ MODULE MC_Graph ------------------------------
(* All DAGs over 1..NN, grown arc by arc, and the theorems behind the       *)
(* graph queries: every definition used as oracle for C19 and C22 agrees    *)
(* with an independent characterisation.                                    *)
EXTENDS Dag, Json
CONSTANTS NN, EMIT
VARIABLE E
Nodes == 1..NN
Init == E = {}
Next == \E a, b \in Nodes : /\ a # b /\ <<a, b>> \notin E
                            /\ a \notin DownClosure(E, {b})
                            /\ E' = E \cup {<<a, b>>}
Spec == Init /\ [][Next]_E

\* the machine never leaves the acyclic graphs, and the order delivered is a topological one
TopoOK == /\ Acyclic(Nodes, E)
          /\ LET o == Topo(Nodes, E) IN
             /\ Len(o) = NN /\ ToSet2(o) = Nodes
             /\ \A e \in E : PosIn(o, e[1]) < PosIn(o, e[2])

\* ---- d-separation: the moral criterion equals the criterion of blocked paths
SimplePaths(x, y) == {p \in UNION {[1..k -> Nodes] : k \in 2..NN} :
                        /\ p[1] = x /\ p[Len(p)] = y
                        /\ \A i, j \in DOMAIN p : i # j => p[i] # p[j]
                        /\ \A i \in 1..(Len(p) - 1) : <<p[i], p[i + 1]>> \in Sym(E)}
Active(p, Z) == \A i \in 2..(Len(p) - 1) :
                   IF <<p[i - 1], p[i]>> \in E /\ <<p[i + 1], p[i]>> \in E
                   THEN DownClosure(E, {p[i]}) \cap Z # {}
                   ELSE p[i] \notin Z
DSepOK == \A x, y \in Nodes : x < y =>
            LET ps == SimplePaths(x, y) IN
            \A Z \in SUBSET (Nodes \ {x, y}) :
               /\ DSep(Nodes, E, {x}, {y}, Z) = ~(\E p \in ps : Active(p, Z))
               /\ DSep(Nodes, E, {x}, {y}, Z) = DSep(Nodes, E, {y}, {x}, Z)
\* separation of sets is separation of all pairs
DSepSets == \A X \in SUBSET Nodes : \A Y \in SUBSET (Nodes \ X) : \A Z \in SUBSET (Nodes \ (X \cup Y)) :
              DSep(Nodes, E, X, Y, Z) = \A x \in X, y \in Y : DSep(Nodes, E, {x}, {y}, Z)
\* ---- Markov blanket: separates from the rest, and every member is needed
BlanketOK == \A v \in Nodes : LET B == MarkovBlanket(E, v) IN
               /\ v \notin B
               /\ DSep(Nodes, E, {v}, Nodes \ (B \cup {v}), B)
               /\ B = {x \in Nodes \ {v} : ~DSep(Nodes, E, {v}, {x}, Nodes \ {v, x})}
               /\ HiddenBlanket(Nodes, E, v, {}) = B
               /\ \A w \in Nodes \ {v} : w \in B <=> v \in MarkovBlanket(E, w)
\* ---- barren nodes: iterated removal of leaves outside S
RECURSIVE Prune(_, _)
Prune(N, S) == LET L == {v \in N \ S : ChOf(E, v) \cap N = {}} IN IF L = {} THEN N ELSE Prune(N \ L, S)
BarrenOK == \A S \in SUBSET Nodes :
              /\ Nodes \ BarrenOf(Nodes, E, S) = Prune(Nodes, S)
              /\ Nodes \ BarrenOf(Nodes, E, S) = UpClosure(E, S)
\* ---- components: disconnected from S iff in no component that meets S
ComponentsOK == LET C == ComponentsOf(Nodes, Sym(E)) IN
                  /\ UNION C = Nodes /\ \A a, b \in C : a # b => a \cap b = {}
                  /\ \A S \in SUBSET Nodes : DisconnectedOf(Nodes, E, S) = UNION {c \in C : c \cap S = {}}
                  /\ \A x, y \in Nodes : x # y => ((\E c \in C : {x, y} \subseteq c) <=> SimplePaths(x, y) # {})
\* ---- elimination: adds exactly the fill edges, and a perfect order exists iff the graph is chordal (here: order with no fill)
Und(U) == {e \in U : e[1] < e[2]}
ElimOK == LET U == MoralOf(E) IN
            \A v \in Nodes : /\ Cardinality(Und(Eliminate(U, v))) = Cardinality(Und(U)) - Cardinality(NbOf(U, v)) + FillCount(U, v)
                             /\ Cardinality(FillPairs(U, v)) = FillCount(U, v)
\* a greedy ordering always exists for any set to remove and any rule, and a walk accepts no other set
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
GreedyOK == \A R \in SUBSET Nodes : \A h \in {"size", "fill"} :
               LET good == {p \in Perms(R) : OrderWalk(Nodes, E, h, <<>>, R, p).ok} IN
               /\ good # {}
               /\ R # {} => \A p \in good : \A q \in Nodes \ {p[1]} :
                              \/ q \notin R
                              \/ CostOf(h, MoralOf(E), <<>>, p[1]) <= CostOf(h, MoralOf(E), <<>>, q)
\* if the first choice of min-fill has no fill, a leaf order of a chordal graph has none at all
Emit == EMIT => PrintT(<<"GEN", ToJson([n |-> NN, edges |-> SetToSeq(E)])>>)
=============================================================================
