------------------------------- MODULE TGraph -------------------------------
(* Graph queries and elimination orderings against their definitions.       *)
EXTENDS TMulti

\* the expected answer: [n |-> set of nodes] or [n, e] for graphs, [b] for truth values
NodesAns(S) == [k |-> "n", n |-> S, e |-> {}, b |-> FALSE]
GraphAns(S, E) == [k |-> "g", n |-> S, e |-> E, b |-> FALSE]
BoolAns(b) == [k |-> "b", n |-> {}, e |-> {}, b |-> b]
GraphAnswer(N, E, endo, q) ==
    LET S == SetOf(q.S)  Z == SetOf(q.Z)  v == q.v  exo == N \ endo IN
    CASE q.op = "pa"      -> NodesAns(PaSet(E, S))
      [] q.op = "ch"      -> NodesAns(ChSet(E, S))
      [] q.op = "mb"      -> NodesAns(MarkovBlanket(E, v))
      [] q.op = "hmb"     -> NodesAns(HiddenBlanket(N, E, v, S))
      [] q.op = "barren"  -> NodesAns(BarrenOf(N, E, S))
      [] q.op = "unbarren" -> GraphAns(N \ BarrenOf(N, E, S), Sub(N, E, N \ BarrenOf(N, E, S)))
      [] q.op = "dsep"    -> NodesAns(DSepNodes(N, E, S, Z))
      [] q.op = "dcon"    -> NodesAns(DConNodes(N, E, v, Z))
      [] q.op = "disc"    -> NodesAns(DisconnectedOf(N, E, S))
      [] q.op = "conn"    -> BoolAns(v \notin DisconnectedOf(N, E, S))
      [] q.op = "rel"     -> NodesAns({v} \cup PaOf(E, v))
      [] q.op = "rmout"   -> GraphAns(N, {e \in E : e[1] \notin S})
      [] q.op = "rmin"    -> GraphAns(N, {e \in E : e[2] \notin S})
      [] q.op = "rmn"     -> GraphAns(N \ S, Sub(N, E, N \ S))
      [] q.op = "str"     -> GraphAns(N, E)
      [] q.op = "epa"     -> NodesAns(PaOf(E, v) \cap endo)
      [] q.op = "ech"     -> NodesAns(ChOf(E, v) \cap endo)
      [] q.op = "xpa"     -> NodesAns(PaOf(E, v) \cap exo)
      [] q.op = "xch"     -> NodesAns(ChOf(E, v) \cap exo)
      [] q.op = "endo"    -> NodesAns(endo)
      [] q.op = "exo"     -> NodesAns(exo)
      [] q.op = "isendo"  -> BoolAns(v \in endo)
      [] q.op = "egraph"  -> GraphAns(endo, Sub(N, E, endo))
      [] q.op = "xgraph"  -> GraphAns(N, {e \in E : e[1] \in exo})

QClauses(N, E, endo, q) ==
    IF q.err # "" THEN {q.op \o " raised"}
    ELSE LET a == GraphAnswer(N, E, endo, q) IN
         CASE a.k = "b" -> Clause(q.b = a.b, q.op)
           [] a.k = "n" -> Clause(SetOf(q.n) = a.n /\ Len(q.n) = Cardinality(a.n), q.op)
           [] OTHER     -> Clause(SetOf(q.n) = a.n /\ Len(q.n) = Cardinality(a.n) /\ Edges(q.e) = a.e /\ Len(q.e) = Cardinality(a.e), q.op)
TGra(e) == /\ UNCHANGED heap /\ Keep
           /\ LET N == SetOf(e.nodes)  E == Edges(e.edges)  endo == SetOf(e.endo) IN
              Report(e, UNION {QClauses(N, E, endo, e.qs[i]) : i \in DOMAIN e.qs}
                        \cup Clause(e.err = "", "model refused") \cup Clause(SetOf(e.an) = N /\ Edges(e.ae) = E, "graph modified"))

\* ---- dependency analysis of a dataset: e: nodes, edges, cols, rows (0: missing), qs: [v, b (observations), rel, Z, post, err]
DepClauses(N, E, e, q) ==
    IF q.err # "" THEN {"raised"}
    ELSE LET got == {{<<q.b[i][j][1], q.b[i][j][2]>> : j \in DOMAIN q.b[i]} : i \in DOMAIN q.b}
             rep(r, o) == Represents(N, E, q.v, e.cols, r, o)
         IN
         Clause(\A i \in DOMAIN e.rows : \E o \in got : rep(e.rows[i], o), "observation lost")
         \cup Clause(\A o \in got : \E i \in DOMAIN e.rows : rep(e.rows[i], o), "wrong observation")
         \cup Clause(Len(q.b) = Cardinality(got), "observation twice")
         \cup Clause(SetOf(q.rel) = {q.v} \cup PaOf(E, q.v) /\ Len(q.rel) = 1 + Cardinality(PaOf(E, q.v)), "variables for the expectation")
         \cup Clause(SetOf(q.post) = DConNodes(N, E, q.v, SetOf(q.Z)) /\ Len(q.post) = Cardinality(SetOf(q.post)), "variables for the posterior")
TDeps(e) == /\ UNCHANGED heap /\ Keep
            /\ LET N == SetOf(e.nodes)  E == Edges(e.edges) IN
               Report(e, UNION {DepClauses(N, E, e, e.qs[i]) : i \in DOMAIN e.qs} \cup Clause(e.same, "argument modified"))

\* ---- elimination orderings
TOrd(e) == /\ UNCHANGED heap /\ Keep
           /\ LET N == SetOf(e.nodes)  E == Edges(e.edges)  R == SetOf(e.S) IN
              Report(e, IF e.err # "" THEN {"raised"}
                        ELSE Clause(SetOf(e.r) = R /\ Len(e.r) = Cardinality(R), "not a permutation")
                             \cup (IF SetOf(e.r) = R /\ Len(e.r) = Cardinality(R)
                                   THEN Clause(OrderWalk(N, E, e.heur, e.sz, R, e.r).ok, "not greedy") ELSE {})
                             \cup Clause(SetOf(e.an) = N /\ Edges(e.ae) = E, "graph modified")
                             \cup Clause(e.same, "argument modified"))
=============================================================================
