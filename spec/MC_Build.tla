------------------------------ MODULE MC_Build ------------------------------
(* Models under construction: every sequence of DEPTH assignments of        *)
(* well-formed and malformed factors to the variables of every DAG, for     *)
(* Bayesian networks and structural causal models.                          *)
EXTENDS MC_Base, Json
CONSTANTS NN, DEPTH, EMIT
VARIABLES steps
vars == <<heap, steps>>
Nodes == 1..NN
Kinds == {"cpt", "cpt2", "det", "wide", "pwide", "orphan", "extra", "swap", "both", "neither"}

Widen(d) == Append(d, Len(d) + 1)
\* 1 exactly where the state of v is the sum of the others
DetTab(vs, d, v) == LET n == Sizes(d)  s == Strides(n)  N == ProdI(n)
                        dg(k, i) == (k \div s[i]) % n[i]
                        iv == PosIn(vs, v)
                    IN [k \in 1..N |-> IF dg(k - 1, iv) = SumI([i \in DOMAIN vs |-> IF i = iv THEN 0 ELSE dg(k - 1, i)]) % n[iv] THEN One ELSE Zero]
Det(S, v, L, wide) == LET vs == SortSet(S)
                          d == [i \in DOMAIN vs |-> IF vs[i] \in wide THEN Widen(Dom(vs[i])) ELSE Dom(vs[i])]
                      IN MkF(vs, d, DetTab(vs, d, v), L)
Can(e, v, kind) == CASE kind \in {"pwide", "orphan", "swap", "both"} -> PaOf(e, v) # {}
                     [] kind = "extra" -> Nodes \ (PaOf(e, v) \cup {v}) # {}
                     [] OTHER -> TRUE
FacOf(e, v, kind) ==
    LET P == PaOf(e, v)
        p == CHOOSE x \in P : \A y \in P : x <= y
        x == CHOOSE y \in Nodes \ (P \cup {v}) : TRUE
    IN CASE kind = "cpt"   -> Cpt(e, 1, v)
         [] kind = "cpt2"  -> Cpt(e, 2, v)
         [] kind = "det"   -> Det(P \cup {v}, v, {v}, {})
         [] kind = "wide"  -> Det(P \cup {v}, v, {v}, {v})
         [] kind = "pwide" -> Det(P \cup {v}, v, {v}, {p})
         [] kind = "orphan" -> Det((P \ {p}) \cup {v}, v, {v}, {})
         [] kind = "extra" -> Det(P \cup {v, x}, v, {v}, {})
         [] kind = "swap"  -> Det(P \cup {v}, p, {p}, {})
         [] kind = "both"  -> Det(P \cup {v}, v, {v, p}, {})
         [] OTHER          -> Det(P \cup {v}, v, {}, {})

Init == /\ \E e \in AllDags(Nodes), scm \in {FALSE, TRUE} : heap = <<BareModel(scm, Nodes, e, {})>>
        /\ steps = <<>>
M == heap[1]
Next == /\ Len(steps) < DEPTH
        /\ \E v \in Nodes, kind \in Kinds :
              /\ Can(M.edges, v, kind)
              /\ SetFactor(1, v, FacOf(M.edges, v, kind))
              /\ steps' = Append(steps, <<v, kind>>)
Spec == Init /\ [][Next]_vars

\* every model that can be reached is a factorisation over its graph, with one set of states per variable
Proper == /\ ProperModel(M)
          /\ \A v, w \in Nodes : \A x \in Nodes :
                (M.fac[v].k = "f" /\ M.fac[w].k = "f" /\ x \in Scope(M.fac[v]) \cap Scope(M.fac[w])) => DomOf(M.fac[v], x) = DomOf(M.fac[w], x)
          /\ \A v \in Nodes : M.fac[v].k = "f" => (M.dom[v] = DomOf(M.fac[v], v) /\ (v \in M.endo => Degenerate(M.fac[v])))
\* a complete one with stochastic factors is a probability distribution
Distribution == Complete(M) => LET J == JointM(M) IN J.ok => SumI(J.f.t) = J.den
\* what an assignment does: all or nothing, at the variable only
Atomic == [][LET st == steps'[Len(steps')]  v == st[1]  F == FacOf(M.edges, v, st[2]) IN
             IF FactorFits(M, v, F) THEN /\ M'.fac[v] = F /\ M'.dom[v] = DomOf(F, v)
                                         /\ \A w \in Nodes \ {v} : M'.fac[w] = M.fac[w] /\ M'.dom[w] = M.dom[w]
             ELSE M' = M]_vars
Frame == [][M'.nodes = M.nodes /\ M'.edges = M.edges /\ M'.endo = M.endo /\ M'.scm = M.scm]_vars
\* malformed kinds never fit; the well-formed ones fit unless their states are in conflict with what is known
NeverFits == \A v \in Nodes, kind \in {"orphan", "extra", "both", "neither"} :
               Can(M.edges, v, kind) => ~FactorFits(M, v, FacOf(M.edges, v, kind))
SwapNever == \A v \in Nodes : Can(M.edges, v, "swap") => ~FactorFits(M, v, FacOf(M.edges, v, "swap"))
\* without states of other size having been accepted, the plain conditionals always fit (equations only where needed)
PlainFits == (\A i \in DOMAIN steps : steps[i][2] \notin {"wide", "pwide"}) =>
               \A v \in Nodes : /\ FactorFits(M, v, FacOf(M.edges, v, "det"))
                                /\ FactorFits(M, v, FacOf(M.edges, v, "cpt")) = (v \notin M.endo \/ Degenerate(FacOf(M.edges, v, "cpt")))
\* the same factor can always be assigned again
Again == \A v \in Nodes : M.fac[v].k = "f" => FactorFits(M, v, M.fac[v])
\* acceptance of compatible assignments to different variables does not depend on their order (a replaced factor, though, may free states)
Commute == \A v, w \in {x \in Nodes : M.fac[x].k = "none"} : v # w => \A a \in {"cpt", "det"}, b \in {"det", "wide"} :
             LET F == FacOf(M.edges, v, a)  G == FacOf(M.edges, w, b) IN
             (FactorFits(M, v, F) /\ FactorFits(Attach(M, v, F), w, G)) =>
                (FactorFits(M, w, G) /\ FactorFits(Attach(M, w, G), v, F) /\ Attach(Attach(M, v, F), w, G) = Attach(Attach(M, w, G), v, F))
Desc(F) == [vs |-> F.vs, d |-> F.d, l |-> SetToSeq(F.l), t |-> F.t]
Emit == (EMIT /\ Len(steps) = DEPTH) =>
        PrintT(<<"GEN", ToJson([n |-> NN, scm |-> M.scm, edges |-> SetToSeq(M.edges),
                                steps |-> [i \in DOMAIN steps |-> [v |-> steps[i][1], kind |-> steps[i][2], f |-> Desc(FacOf(M.edges, steps[i][1], steps[i][2]))]]])>>)
=============================================================================
