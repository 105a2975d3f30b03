------------------------------- MODULE MC_EM -------------------------------
(* Expectation-maximisation in exact rationals, on every structural causal  *)
(* model of a shape, every small dataset that the model can produce and     *)
(* several starting points.  The laws that a learner lives on (tables stay  *)
(* distributions, no likelihood is lost, zeros stay zeros, fixed points),   *)
(* and the agreement of the fixed-point oracle of Learn (which judges the   *)
(* recorded runs) with the exact values, within its own error bounds.       *)
EXTENDS Learn, MC_Causal
CONSTANTS STEPS, MAXN
VARIABLES rows, th, it
evars == <<heap, sh, eqs, rows, th, it>>

Obs == SortSet(EndoS)
Cfgs == LET n == Len(Obs) IN {c : c \in [1..n -> {1, 2}]}
\* starting points: skewed, uniform, and one with a zero
StartW(u, p) == [i \in 1..CU |-> CASE p = 1 -> i + u [] p = 2 -> 1 [] OTHER -> IF i = 1 THEN 0 ELSE i]
Start(u, p) == LET w == StartW(u, p)  tot == SumI(w) IN TLCEval([i \in 1..CU |-> Norm(w[i], tot)])
WithTh(t) == [M EXCEPT !.fac = TLCEval([v \in M.nodes |-> IF v \in ExoS THEN MkF(<<v>>, <<DomS(v)>>, t[v], {v}) ELSE M.fac[v]])]
RowEv(r) == {<<Obs[i], r[i]>> : i \in DOMAIN Obs}
Total == SumI([i \in DOMAIN rows |-> rows[i].c])

\* exact posterior of a trainable variable given a row; probability of a row
Post(J, u, r) == Posterior(J, {u}, {}, RowEv(r)).t
RowP(J, r) == Norm(EvProb(J, RowEv(r)), J.den)
NextTh(t) == LET J == JointM(WithTh(t)) IN
    TLCEval([u \in ExoS |-> TLCEval([s \in 1..CU |-> NSum([i \in DOMAIN rows |-> NMul(Norm(rows[i].c, Total), Post(J, u, rows[i].r)[s])])])])
Lik(t) == LET J == JointM(WithTh(t)) IN
    NProd([i \in DOMAIN rows |-> LET q == RowP(J, rows[i].r) IN IF rows[i].c = 1 THEN q ELSE IF rows[i].c = 2 THEN NMul(q, q) ELSE NMul(q, NMul(q, q))])

EInit == heap = <<>> /\ sh \in SHAPES /\ eqs = <<>> /\ rows = <<>> /\ th = <<>> /\ it = 0
Pick == Next /\ UNCHANGED <<rows, th, it>>
\* a dataset the model can produce: distinct rows with multiplicities
Load == /\ Done /\ rows = <<>>
        /\ \E p \in 1..3 :
             LET t == TLCEval([u \in ExoS |-> Start(u, p)])
                 J == JointM(WithTh(t))
                 pos == {c \in Cfgs : EvProb(J, RowEv(c)) # 0}
             IN \E a \in pos, b \in pos : \E k \in 1..(MAXN - 1) :
                  /\ rows' = IF a = b THEN <<[r |-> a, c |-> k]>> ELSE <<[r |-> a, c |-> k], [r |-> b, c |-> 1]>>
                  /\ th' = t
        /\ UNCHANGED <<heap, sh, eqs, it>>
Fine(t) == \A u \in ExoS : \A s \in 1..CU : ~IsBad(t[u][s]) /\ t[u][s][2] < 2000
Step == /\ rows # <<>> /\ it < STEPS
        /\ Fine(NextTh(th))
        /\ th' = NextTh(th) /\ it' = it + 1
        /\ UNCHANGED <<heap, sh, eqs, rows>>
ENext == Pick \/ Load \/ Step
ESpec == EInit /\ [][ENext]_evars

Active == rows # <<>>
\* tables are distributions; the data remain possible
Distribution == Active => /\ \A u \in ExoS : NSum(th[u]) = One /\ \A s \in 1..CU : NLeq(Zero, th[u][s])
                          /\ \A i \in DOMAIN rows : EvProb(JointM(WithTh(th)), RowEv(rows[i].r)) # 0
\* no step loses likelihood; a step that changes nothing is a fixed point, and one that gains nothing too
Monotone == [][(Active /\ it' = it + 1) => LET a == Lik(th)  b == Lik(th') IN
                 IsBad(a) \/ IsBad(b) \/ (NLeq(a, b) /\ (a = b => th' = th))]_evars
ZerosStay == [][(Active /\ it' = it + 1) => \A u \in ExoS : \A s \in 1..CU : th[u][s] = Zero => th'[u][s] = Zero]_evars
\* ---- the oracle in fixed point
Unit(q) == IF q = One THEN U9 ELSE Dec9(q[1], q[2])
Units(t) == TLCEval([u \in ExoS |-> TLCEval([s \in DOMAIN t[u] |-> Unit(t[u][s])])])
Comp(m) == LET cells == TLCEval(CellsFor(m, ExoS)) IN
           [cells |-> cells, rows |-> TLCEval([i \in DOMAIN rows |-> [r |-> rows[i].r, c |-> rows[i].c, ks |-> TLCEval(CellsOfRow(m, cells, Obs, rows[i].r))]])]
OracleStep == Active => LET m == WithTh(th)  C == Comp(m)  nx == NextTh(th) IN
    (\A u \in ExoS : \A s \in 1..CU : ~IsBad(nx[u][s])) =>
    \A u \in ExoS : LET x == EMStep(m, C.cells, C.rows, ExoS, Units(th), u) IN
        x.ok => \A s \in DOMAIN x.t : x.e[s] > 0 /\ Abs(x.t[s] - (Units(nx)[u][s] \div 100)) <= x.e[s]
\* every starting point, compared with the current parameters: the recorded order of likelihoods is the exact one
OracleLik == Active => LET m == WithTh(th)  C == Comp(m)  a == Lik(th) IN
    \A p \in 1..3 : LET t == TLCEval([u \in ExoS |-> Start(u, p)])  b == Lik(t)
                        x == NegLL(m, C.cells, C.rows, ExoS, Units(th))
                        y == NegLL(m, C.cells, C.rows, ExoS, Units(t))
                        slack == NegLLErr(m, C.cells, C.rows, ExoS, Units(th)) + NegLLErr(m, C.cells, C.rows, ExoS, Units(t)) IN
        IsBad(NSub(b, a)) \/ (IF b = Zero THEN y = -1 ELSE IF NSub(b, a)[1] >= 0 THEN y >= 0 /\ y <= x + slack ELSE y >= x - slack)
EmitM == (EMIT /\ Active /\ it = 0 /\ th = TLCEval([u \in ExoS |-> Start(u, 1)])) =>
   PrintT(<<"GEN", ToJson([sh |-> sh, exo |-> S.exo, endo |-> S.endo, edges |-> SetToSeq(S.e), cu |-> CU, eqs |-> eqs, obs |-> Obs, rows |-> rows])>>)
=============================================================================
