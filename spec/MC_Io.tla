------------------------------- MODULE MC_Io -------------------------------
(* Files in the uai format: every DAG with NN nodes (as a network, and as a *)
(* causal model with equations), every order of the variables in the file,  *)
(* every order of the parents in the scopes and two orders of the states.   *)
(* Reading is a left inverse of writing, up to positional names, and files  *)
(* tell models apart.  The file is read number by number.                   *)
EXTENDS Uai, MC_Base, Json
CONSTANTS NN, EMIT
VARIABLES E, causal, rev, ord, par
vars == <<heap, E, causal, rev, ord, par>>
Nodes == 1..NN
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
\* equations of the causal models
EqF(v) == LET ps == SortSet(PaOf(E, v))  d == [i \in DOMAIN ps |-> Dom(ps[i])]  N == ProdI(Sizes(d)) IN
          DetF(ps \o <<v>>, d \o <<Dom(v)>>, v, [k \in 1..N |-> 1 + (((k * k + v * k + v) \div 2) % Len(Dom(v)))])
M == IF ~causal THEN Model(Nodes, E, 1)
     ELSE [Model(Nodes, E, 1) EXCEPT !.scm = TRUE, !.endo = {v \in Nodes : PaOf(E, v) # {}},
                                     !.fac = TLCEval([v \in Nodes |-> IF PaOf(E, v) = {} THEN Cpt(E, 1, v) ELSE EqF(v)])]
SOrd(v) == IF rev THEN Reverse(Dom(v)) ELSE Dom(v)
Init == /\ E \in AllDags(Nodes) /\ causal \in {FALSE, TRUE} /\ rev \in {FALSE, TRUE}
        /\ ord = <<>> /\ par = <<>> /\ heap = <<>>
\* the writer decides on the order of the variables, then scope after scope
Order == ord = <<>> /\ ord' \in Perms(Nodes) /\ UNCHANGED <<heap, E, causal, rev, par>>
Scope1 == ord # <<>> /\ Len(par) < NN
          /\ \E q \in Perms(PaOf(E, ord[Len(par) + 1])) : par' = Append(par, q)
          /\ UNCHANGED <<heap, E, causal, rev, ord>>
Next == Order \/ Scope1
Spec == Init /\ [][Next]_vars
Written == Len(par) = NN
SSeq == [i \in 1..NN |-> SOrd(ord[i])]
Num(k) == <<k, 1>>
Nat2(x) == IF x[2] = 1 /\ x[1] >= 0 THEN x[1] ELSE -1
Same(x) == x
File == UaiTokens(M, causal, ord, SSeq, par, Num)
\* the model in the names of the file
Positional ==
    LET pv(v) == PosIn(ord, v)
        ps(v, s) == PosIn(SOrd(v), s)
        N == 1..NN
        rf(F) == Canon([i \in DOMAIN F.vs |-> pv(F.vs[i])], [i \in DOMAIN F.vs |-> [j \in DOMAIN F.d[i] |-> ps(F.vs[i], F.d[i][j])]], F.t, {pv(v) : v \in F.l})
    IN [M EXCEPT !.nodes = N, !.edges = {<<pv(x[1]), pv(x[2])>> : x \in @}, !.endo = {pv(v) : v \in @},
                 !.dom = TLCEval([i \in N |-> Iota(Len(Dom(ord[i])))]), !.fac = TLCEval([i \in N |-> rf(M.fac[ord[i]])])]
SameModel(a, b) == /\ a.nodes = b.nodes /\ a.edges = b.edges /\ a.endo = b.endo /\ a.scm = b.scm /\ a.dom = b.dom
                   /\ \A v \in a.nodes : a.fac[v].vs = b.fac[v].vs /\ a.fac[v].d = b.fac[v].d /\ a.fac[v].t = b.fac[v].t /\ a.fac[v].l = b.fac[v].l
RoundTrip == Written => LET P == UaiParse(File, Nat2) IN
               /\ P.ok /\ UaiSized(P, causal)
               /\ SameModel(UaiModel(P, causal, Nat2, Same), Positional)
\* truncated and padded files are not files
Truncated == Written => LET f == File IN /\ \A k \in 0..(Len(f) - 1) : ~UaiParse(SubSeq(f, 1, k), Nat2).ok
                                         /\ ~UaiParse(Append(f, Num(0)), Nat2).ok
\* what was read is a proper model, and a distribution
Proper == Written => LET m == UaiModel(UaiParse(File, Nat2), causal, Nat2, Same) IN
               ProperModel(m) /\ Complete(m) /\ \A v \in m.nodes : IsStochastic(m.fac[v])
Emit == (EMIT /\ Written) => PrintT(<<"GEN", ToJson([causal |-> causal, tok |-> File, n |-> NN])>>)
=============================================================================
