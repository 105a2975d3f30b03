-------------------------------- MODULE Dag --------------------------------
(* Directed graphs: N a set of nodes (naturals), E a set of pairs <<a, b>>  *)
(* (arc from a to b); and the definitions behind the library's graph        *)
(* queries: reachability, acyclicity, Markov blanket, d-separation through  *)
(* the moralised ancestral graph, barren and disconnected nodes.            *)
EXTENDS Factor

PaOf(E, v) == {e[1] : e \in {x \in E : x[2] = v}}
ChOf(E, v) == {e[2] : e \in {x \in E : x[1] = v}}
PaSet(E, S) == {e[1] : e \in {x \in E : x[2] \in S}}
ChSet(E, S) == {e[2] : e \in {x \in E : x[1] \in S}}

RECURSIVE UpClosure(_, _)
UpClosure(E, S) == LET T == S \cup PaSet(E, S) IN IF T = S THEN S ELSE UpClosure(E, T)
RECURSIVE DownClosure(_, _)
DownClosure(E, S) == LET T == S \cup ChSet(E, S) IN IF T = S THEN S ELSE DownClosure(E, T)
Ancestors(E, v) == UpClosure(E, PaOf(E, v))
Descendants(E, v) == DownClosure(E, ChOf(E, v))

RECURSIVE Acyclic(_, _)
Acyclic(N, E) == IF N = {} THEN TRUE
                 ELSE LET R == {v \in N : \A e \in E : e[2] # v}
                      IN R # {} /\ Acyclic(N \ R, {e \in E : e[1] \notin R})

\* a topological order (smallest available first)
RECURSIVE TopoFrom(_, _, _)
TopoFrom(N, E, acc) ==
    IF N = {} THEN acc
    ELSE LET R == {v \in N : \A e \in E : e[2] # v}
             r == Min(R)
         IN TopoFrom(N \ {r}, {e \in E : e[1] # r}, Append(acc, r))
Topo(N, E) == TopoFrom(N, E, <<>>)

\* undirected adjacency U: a symmetric set of pairs
Sym(E) == E \cup {<<e[2], e[1]>> : e \in E}
RECURSIVE Connected(_, _)
Connected(U, S) == LET T == S \cup {e[2] : e \in {x \in U : x[1] \in S}} IN IF T = S THEN S ELSE Connected(U, T)
ComponentsOf(N, U) == {Connected(U, {v}) : v \in N}

MoralOf(E) == Sym(E) \cup {p \in {<<a[1], b[1]>> : a, b \in E} :
                  p[1] # p[2] /\ \E c \in {x[2] : x \in E} : <<p[1], c>> \in E /\ <<p[2], c>> \in E}

MarkovBlanket(E, v) == (PaOf(E, v) \cup ChOf(E, v) \cup PaSet(E, ChOf(E, v))) \ {v}

\* X and Y (disjoint, disjoint from Z) are d-separated by Z
DSep(N, E, X, Y, Z) ==
    LET A == UpClosure(E, X \cup Y \cup Z)
        EA == {e \in E : e[1] \in A /\ e[2] \in A}
        U == {p \in MoralOf(EA) : p[1] \notin Z /\ p[2] \notin Z}
    IN Connected(U, X) \cap Y = {}

\* nodes that have no node of S at or below them
BarrenOf(N, E, S) == {v \in N : DownClosure(E, {v}) \cap S = {}}
\* nodes with no undirected path to S
DisconnectedOf(N, E, S) == N \ Connected(Sym(E), S)

\* ---- greedy elimination orderings on an undirected graph (V, U)
NbOf(U, v) == {e[2] : e \in {x \in U : x[1] = v}} \ {v}
FillPairs(U, v) == {S \in SUBSET NbOf(U, v) : Cardinality(S) = 2 /\ ~(\E a, b \in S : a # b /\ <<a, b>> \in U)}
Eliminate(U, v) == LET nb == NbOf(U, v)
                   IN {e \in U : e[1] # v /\ e[2] # v} \cup {p \in nb \X nb : p[1] # p[2]}
FillCount(U, v) == LET nb == NbOf(U, v)
                   IN Cardinality({p \in nb \X nb : p[1] < p[2] /\ p \notin U})

\* nodes (other than the targets) that are d-separated from T given Z without the node itself
DSepNodes(N, E, T, Z) == {v \in N \ T : DSep(N, E, T, {v}, Z \ {v})}
DConNodes(N, E, v, Z) == {x \in N \ {v} : ~DSep(N, E, {v}, {x}, Z \ {x})}
\* Markov blanket when the variables in H are not observed
HiddenBlanket(N, E, v, H) == IF H = {} THEN MarkovBlanket(E, v) ELSE DConNodes(N, E, v, N \ (H \cup {v}))

Sub(N, E, S) == {e \in E : e[1] \in S /\ e[2] \in S}

\* ---- greedy orderings
CostOf(h, U, sz, v) == CASE h = "size"   -> Cardinality(NbOf(U, v))
                         [] h = "fill"   -> FillCount(U, v)
                         [] h = "weight" -> ProdI([i \in DOMAIN sz |-> IF sz[i][1] = v \/ sz[i][1] \in NbOf(U, v) THEN sz[i][2] ELSE 1])
\* walk along the ordering: [U, left over, greedy so far]
OrderWalk(N, E, h, sz, R, ord) ==
    FoldLeft(LAMBDA s, v : IF ~s.ok \/ v \notin s.R THEN [s EXCEPT !.ok = FALSE]
                           ELSE LET c == CostOf(h, s.U, sz, v) IN
                                [U |-> Eliminate(s.U, v), R |-> s.R \ {v}, ok |-> \A w \in s.R : c <= CostOf(h, s.U, sz, w)],
             [U |-> MoralOf(E), R |-> R, ok |-> TRUE], ord)
=============================================================================
