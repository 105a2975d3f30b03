----------------------------- MODULE MC_Causal -----------------------------
(* Structural causal models, all of them within a shape: the machine picks  *)
(* the equations one variable after the other.  On every complete model the *)
(* three layers of the oracle agree with each other and with the laws of    *)
(* causal inference: worlds = factorisation, do-operator = surgery on the   *)
(* model, counterfactuals = twin networks, Q-decomposition = joint.         *)
EXTENDS ModelApi, Json
CONSTANTS SHAPES,   \* names of shapes
          CU,       \* number of states of the exogenous variables
          EMIT
VARIABLES sh, eqs
vars == <<heap, sh, eqs>>

\* shapes: exogenous variables, endogenous ones in the order of construction, arcs
Shape(s) == CASE s = "pair"   -> [exo |-> <<1>>, endo |-> <<2, 3>>, e |-> {<<1, 2>>, <<1, 3>>, <<2, 3>>}]
              [] s = "markov" -> [exo |-> <<1, 2>>, endo |-> <<3, 4>>, e |-> {<<1, 3>>, <<2, 4>>, <<3, 4>>}]
              [] s = "two"    -> [exo |-> <<1, 2>>, endo |-> <<3, 4>>, e |-> {<<1, 3>>, <<2, 3>>, <<1, 4>>}]
              [] s = "chain"  -> [exo |-> <<1, 2>>, endo |-> <<3, 4, 5>>, e |-> {<<1, 3>>, <<3, 4>>, <<2, 4>>, <<4, 5>>}]
              [] s = "apart"  -> [exo |-> <<1, 2>>, endo |-> <<3, 4>>, e |-> {<<1, 3>>, <<2, 4>>}]
              [] s = "iv"     -> [exo |-> <<1, 2>>, endo |-> <<3, 4, 5>>, e |-> {<<2, 3>>, <<3, 4>>, <<1, 4>>, <<4, 5>>, <<1, 5>>}]
              [] s = "front"  -> [exo |-> <<1, 2>>, endo |-> <<3, 4, 5>>, e |-> {<<1, 3>>, <<3, 4>>, <<2, 4>>, <<4, 5>>, <<1, 5>>}]
S == Shape(sh)
ExoS == ToSet2(S.exo)
EndoS == ToSet2(S.endo)
DomS(v) == IF v \in ExoS THEN [i \in 1..CU |-> i] ELSE <<1, 2>>
PaS(v) == SortSet(PaOf(S.e, v))
NConf(v) == ProdI([i \in DOMAIN PaS(v) |-> Len(DomS(PaS(v)[i]))])

Init == heap = <<>> /\ sh \in SHAPES /\ eqs = <<>>
Next == /\ Len(eqs) < Len(S.endo)
        /\ \E f \in [1..NConf(S.endo[Len(eqs) + 1]) -> 1..2] : eqs' = Append(eqs, f)
        /\ UNCHANGED <<heap, sh>>
Spec == Init /\ [][Next]_vars
Done == Len(eqs) = Len(S.endo)

\* distributions of the exogenous variables, all different
ExoFN(u) == LET w(i) == IF CU = 2 THEN (IF i = 1 THEN u + 1 ELSE 7 - u) ELSE i + u
                tot == SumI([i \in 1..CU |-> w(i)])
            IN MkF(<<u>>, <<DomS(u)>>, [i \in 1..CU |-> Norm(w(i), tot)], {u})
EqF(v) == LET ps == PaS(v) IN
          DetF(ps \o <<v>>, [i \in DOMAIN ps |-> DomS(ps[i])] \o <<DomS(v)>>, v, eqs[PosIn(S.endo, v)])
M == [k |-> "m", scm |-> TRUE, nodes |-> ExoS \cup EndoS, edges |-> S.e, endo |-> EndoS,
      dom |-> TLCEval([v \in ExoS \cup EndoS |-> DomS(v)]),
      fac |-> TLCEval([v \in ExoS \cup EndoS |-> IF v \in ExoS THEN ExoFN(v) ELSE EqF(v)]), J |-> None, X |-> None]

\* ---- worlds and factorisation
WorldsOK == Done => /\ Functional(M) /\ ProperModel(M)
                    /\ LET P == Posterior(JointM(M), EndoS, {}, {})
                           W == EndoTable(M, Expand(M))
                       IN P.vs = W.vs /\ \A i \in DOMAIN W.t : P.t[i] = Norm(W.t[i], Expand(M).den)

\* ---- the do-operator
DoSets == {{<<v, s>>} : v \in EndoS, s \in {1, 2}} \cup {{<<v, 1>>, <<w, 2>>} : v, w \in EndoS}
Dos == {d \in DoSets : \A a, b \in d : a[1] = b[1] => a = b}
VarsOf(d) == {x[1] : x \in d}
DoOK == Done =>
    LET m == M  X == Expand(m) IN
    \A d \in Dos : LET md == DoModel(m, d)  Jd == JointM(md) IN
       /\ ProperModel(md)
       \* surgery and worlds agree, without and with evidence in the intervened world
       /\ \A t \in EndoS \ VarsOf(d) : Interventional(m, X, d, {}, {t}).t = Posterior(Jd, {t}, {}, {}).t
       /\ \A t \in EndoS \ VarsOf(d) : \A e \in EndoS \ (VarsOf(d) \cup {t}) : \A s \in {1, 2} :
             EvProb(Jd, {<<e, s>>}) # 0 => Interventional(m, X, d, {<<e, s>>}, {t}).t = Posterior(Jd, {t}, {}, {<<e, s>>}).t
       \* the intervened variable has its value
       /\ \A p \in d : Posterior(Jd, {p[1]}, {}, {}).t = ConstantF(p[1], m.dom[p[1]], p[2]).t
       \* nothing changes outside the descendants
       /\ \A t \in EndoS \ VarsOf(d) : (\A v \in VarsOf(d) : t \notin DownClosure(m.edges, {v})) =>
             Posterior(Jd, {t}, {}, {}).t = Posterior(JointM(m), {t}, {}, {}).t
       \* repeated, split and permuted interventions
       /\ DoModel(md, d) = md
       /\ \A p \in d : DoModel(DoModel(m, {p}), d \ {p}) = md
       /\ \A e \in Dos : VarsOf(e) = VarsOf(d) => DoModel(md, e) = DoModel(m, e)
\* adjustment for the parents (exogenous ones included): truncated factorisation
TruncOK == Done =>
    LET m == M  J == JointM(m) IN
    \A x \in EndoS : \A s \in {1, 2} : \A t \in EndoS \ {x} :
       LET P == PaOf(m.edges, x)
           A == FMarg(FMul(Posterior(J, {t}, P \cup {x}, {}), Posterior(J, P, {}, {})), P)
           D == Posterior(JointM(DoModel(m, {<<x, s>>})), {t}, {}, {})
           pos == \A i \in DOMAIN Posterior(J, {x}, P, {}).t : TRUE
           \* positivity: the value x = s occurs for every configuration of the parents
           okp == \A i \in DOMAIN FRestrict(Posterior(J, P \cup {x}, {}, {}), {<<x, <<s>>>>}).t :
                     FRestrict(Posterior(J, P \cup {x}, {}, {}), {<<x, <<s>>>>}).t[i] # Zero \/ Posterior(J, P, {}, {}).t[i] = Zero
       IN (okp /\ t \notin P) => FRestrict(A, {<<x, <<s>>>>}).t = D.t

\* ---- twin networks
\* copies of the endogenous variables for worlds 1..n; exogenous variables are shared
Twin(m, n) ==
    LET cp(v, k) == IF v \in m.endo THEN v + 100 * k ELSE v
        ren(v, k) == {<<x, cp(x, k)>> : x \in Scope(m.fac[v])}
        ks == 1..n
        copies == {<<v, k>> : v \in m.endo, k \in ks}
        N == m.nodes \cup {cp(c[1], c[2]) : c \in copies}
        org(w) == IF w < 100 THEN <<w, 0>> ELSE <<w % 100, w \div 100>>
    IN [m EXCEPT !.nodes = N,
                 !.edges = @ \cup {<<cp(e[1], k), cp(e[2], k)>> : e \in m.edges, k \in ks},
                 !.endo = @ \cup {cp(c[1], c[2]) : c \in copies},
                 !.dom = [w \in N |-> m.dom[org(w)[1]]],
                 !.fac = TLCEval([w \in N |-> IF w < 100 THEN m.fac[w] ELSE FRename(m.fac[org(w)[1]], ren(org(w)[1], org(w)[2]))])]
TwinDo(m, dos) == DoModel(Twin(m, Len(dos)), UNION {{<<p[1] + 100 * k, p[2]>> : p \in dos[k]} : k \in DOMAIN dos})
Tgt(t, k) == <<<<t + 100 * k, t, k>>>>
TwinOK == Done =>
    LET m == M  X == Expand(m) IN
    \A x \in EndoS : \A s \in {1, 2} :
       LET Jt == JointM(TwinDo(m, <<{<<x, s>>}>>)) IN
       /\ ProperModel(TwinDo(m, <<{<<x, s>>}>>))
       /\ \A t \in EndoS \ {x} : \A e \in EndoS : \A se \in {1, 2} :
             EvProb(Jt, {<<e, se>>}) # 0 =>
               Counterfactual(m, X, <<{<<x, s>>}>>, {<<e, se>>}, Tgt(t, 1)).t = Posterior(Jt, {t + 100}, {}, {<<e, se>>}).t
       \* composition and consistency: where the evidence already sets x, the hypothetical world is the factual one
       /\ \A t \in EndoS \ {x} : EvProb(JointM(m), {<<x, s>>}) # 0 =>
             Counterfactual(m, X, <<{<<x, s>>}>>, {<<x, s>>}, Tgt(t, 1)).t = Posterior(JointM(m), {t}, {}, {<<x, s>>}).t
       \* without evidence a counterfactual is an interventional query
       /\ \A t \in EndoS \ {x} : Counterfactual(m, X, <<{<<x, s>>}>>, {}, Tgt(t, 1)).t = Interventional(m, X, {<<x, s>>}, {}, {t}).t
\* two hypothetical worlds
Twin2OK == Done =>
    LET m == M  X == Expand(m)  x == S.endo[1]  y == S.endo[Len(S.endo)]
        dos == <<{<<x, 1>>}, {<<x, 2>>}>>
        Jt == JointM(TwinDo(m, dos))
    IN Counterfactual(m, X, dos, {}, <<<<y + 100, y, 1>>, <<y + 200, y, 2>>>>).t = Posterior(Jt, {y + 100, y + 200}, {}, {}).t
\* ---- necessity and sufficiency (cause x, effect y; true = 2, false = 1)
NecOK == Done =>
    LET m == M  X == Expand(m)  J == JointM(m)  x == S.endo[1]  y == S.endo[Len(S.endo)]
        one == <<y + 100, y, 1>>  two == <<y + 200, y, 2>>
        pt == Norm(EvProb(J, {<<x, 2>>, <<y, 2>>}), J.den)
        pf == Norm(EvProb(J, {<<x, 1>>, <<y, 1>>}), J.den)
        PN == IF pt = Zero THEN Zero ELSE FAt(Counterfactual(m, X, <<{<<x, 1>>}>>, {<<x, 2>>, <<y, 2>>}, <<one>>), {<<y + 100, 1>>})
        PSf == IF pf = Zero THEN Zero ELSE FAt(Counterfactual(m, X, <<{<<x, 2>>}>>, {<<x, 1>>, <<y, 1>>}, <<one>>), {<<y + 100, 2>>})
        PNS == FAt(Counterfactual(m, X, <<{<<x, 1>>}, {<<x, 2>>}>>, {}, <<one, two>>), {<<y + 100, 1>>, <<y + 200, 2>>})
        y2 == FAt(Interventional(m, X, {<<x, 2>>}, {}, {y}), {<<y, 2>>})
        y1 == FAt(Interventional(m, X, {<<x, 1>>}, {}, {y}), {<<y, 2>>})
    IN /\ PNS = NAdd(NMul(pt, PN), NMul(pf, PSf))
       /\ NLeq(NMax(Zero, NSub(y2, y1)), PNS)
       /\ NLeq(PNS, NMin(y2, NSub(One, y1)))
\* ---- c-components and Q-factors along a topological order
QParents(m, order, v) ==
    LET before == {order[i] : i \in 1..(PosIn(order, v) - 1)}
        C == (CHOOSE c \in CComponents(m) : v \in c) \cap m.endo
        G == C \cap (before \cup {v})
    IN (((G \cup PaSet(m.edges, G)) \cap m.endo) \cap before) \ {v}
QOK == Done =>
    LET m == M
        order == SelectSeq(Topo(m.nodes, m.edges), LAMBDA v : v \in m.endo)
        X == Expand(m)
        J == [k |-> "j", ok |-> TRUE, den |-> X.den, f |-> EndoTable(m, X)]
        fs == [i \in DOMAIN order |-> Posterior(J, {order[i]}, QParents(m, order, order[i]), {})]
        prod == FoldLeft(LAMBDA F, i : FMul(F, fs[i]), ConstF(One), [i \in DOMAIN order |-> i])
        cs == CComponents(m)
    IN /\ prod.t = Posterior(J, m.endo, {}, {}).t
       /\ UNION cs = m.nodes /\ \A a, b \in cs : a # b => a \cap b = {}
       /\ \A c \in cs : \A u \in c \ m.endo : ChOf(m.edges, u) \subseteq c
Emit == (EMIT /\ Done) => PrintT(<<"GEN", ToJson([sh |-> sh, exo |-> S.exo, endo |-> S.endo, edges |-> SetToSeq(S.e), cu |-> CU, eqs |-> eqs])>>)
=============================================================================
