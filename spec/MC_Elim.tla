------------------------------ MODULE MC_Elim ------------------------------
(* Variable elimination as a state machine over every DAG with NN nodes,    *)
(* every split of the nodes into targets, evidence and others, and every    *)
(* elimination order: at each moment the factors at hand, summed over what  *)
(* is still to be eliminated, are the unnormalised posterior; hence the     *)
(* answer does not depend on the order.  And the posterior can be computed  *)
(* from the nodes that matter for the query only.                           *)
EXTENDS MC_Base, Json
CONSTANTS NN, PS, EVS, EMIT
VARIABLES E, p, T, ev, fs, rest, ord
vars == <<heap, E, p, T, ev, fs, rest, ord>>
Nodes == 1..NN
M == Model(Nodes, E, p)
Obs == {<<x[1], <<x[2]>>>> : x \in ev}
EvVars == {x[1] : x \in ev}

Init == /\ E \in {e \in SUBSET (Nodes \X Nodes) : Acyclic(Nodes, e)}
        /\ p \in PS
        /\ T = {} /\ ev = {} /\ fs = {} /\ rest = {} /\ ord = <<>> /\ heap = <<>>
\* a query arrives
Ask == /\ T = {}
       /\ T' \in (SUBSET Nodes) \ {{}}
       /\ \E S \in SUBSET (Nodes \ T') : \E s \in EVS :
             /\ ev' = {<<v, s>> : v \in S}
             /\ fs' = IF EMIT THEN {} ELSE {<<v, FRestrict(Cpt(E, p, v), {<<x, <<s>>>> : x \in S})>> : v \in Nodes}
             /\ rest' = Nodes \ (T' \cup S)
       /\ UNCHANGED <<heap, E, p, ord>>
Touch(v) == {f \in fs : v \in Scope(f[2])}
ProdOf(S) == LET q == SetToSeq({f[1] : f \in S}) IN
             FoldLeft(LAMBDA F, i : FMul(F, (CHOOSE f \in S : f[1] = i)[2]), ConstF(One), q)
Drop == \E v \in rest :
          /\ fs' = IF EMIT THEN {} ELSE (fs \ Touch(v)) \cup {<<v + 100, FMarg(ProdOf(Touch(v)), {v})>>}
          /\ rest' = rest \ {v}
          /\ ord' = Append(ord, v)
          /\ UNCHANGED <<heap, E, p, T, ev>>
Next == Ask \/ Drop
Spec == Init /\ [][Next]_vars

Total(F) == NSum(F.t)
NormT(F) == [F EXCEPT !.t = TLCEval([i \in DOMAIN F.t |-> NDiv(F.t[i], Total(F))])]
Current == FMarg(ProdOf(fs), rest)

\* the factors at hand carry the joint weight of the targets and the evidence
WeightInv == T # {} => LET W == WeightsOf(JointM(M), T, ev)  C == Current IN
             C.vs = W.vs /\ \A i \in DOMAIN W.t : C.t[i] = Norm(W.t[i], JointM(M).den)
\* once nothing is left, normalising gives the posterior
AnswerInv == (T # {} /\ rest = {}) => LET W == EvProb(JointM(M), ev) IN
             W = 0 \/ LET P == Posterior(JointM(M), T, {}, ev)  C == NormT(Current) IN C.vs = P.vs /\ C.t = P.t
\* ---- what matters for a query
Relevant(m, TT, EE) ==
    LET A == UpClosure(m.edges, TT \cup EE)
        K == {v \in A \ EE : v \in TT \/ ~DSep(m.nodes, m.edges, {v}, TT, EE)}
    IN K \cup {v \in A \cap EE : PaOf(m.edges, v) \cap K # {}}
ReduceInv == (T # {} /\ ord = <<>> /\ EvProb(JointM(M), ev) # 0) =>
             LET R == FromReduced(M, Relevant(M, T, EvVars), T, ev)
                 A == FromReduced(M, UpClosure(E, T \cup EvVars), T, ev)
                 P == Posterior(JointM(M), T, {}, ev) IN
             /\ R.ok /\ R.f.vs = P.vs /\ R.f.t = P.t
             /\ A.ok /\ A.f.vs = P.vs /\ A.f.t = P.t
\* d-separation in the graph is independence in the distribution (soundness)
IndepInv == (T # {} /\ ord = <<>> /\ EvProb(JointM(M), ev) # 0) =>
            \A v \in Nodes \ (T \cup EvVars) :
               DSep(Nodes, E, T, {v}, EvVars) =>
                 LET JJm == JointM(M)
                     A == Posterior(JJm, T, {}, ev)
                     B == Posterior(JJm, {v}, {}, ev)
                     AB == Posterior(JJm, T \cup {v}, {}, ev)
                 IN AB.t = FMul(A, B).t
\* conditioning: the conditional table is the joint divided by its marginal, and evidence is conditioning at a point
CondInv == (T # {} /\ ord = <<>> /\ ev # {} /\ EvProb(JointM(M), ev) # 0) =>
            LET F == Posterior(JointM(M), T, EvVars, {})
                P == Posterior(JointM(M), T, {}, ev) IN
            FRestrict(F, Obs).t = P.t
Emit == (EMIT /\ T # {} /\ rest = {}) => PrintT(<<"GEN", ToJson([n |-> NN, edges |-> SetToSeq(E), T |-> SetToSeq(T), E |-> SetToSeq(EvVars), ord |-> ord])>>)
=============================================================================
