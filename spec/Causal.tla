------------------------------- MODULE Causal -------------------------------
(* Structural causal models as sets of worlds: every configuration of the   *)
(* exogenous variables carries an integer weight, and the equations turn it *)
(* into one full assignment per (possibly intervened) world.  Observational,*)
(* interventional and counterfactual quantities are sums of weights.        *)
EXTENDS Net

Exo(m) == m.nodes \ m.endo

\* does the model have the shape "exogenous roots with weights, functional equations"?
Functional(m) ==
    /\ Complete(m)
    /\ \A u \in Exo(m) : PaOf(m.edges, u) = {}
    /\ \A v \in m.endo : Degenerate(m.fac[v]) /\ IsStochastic(m.fac[v])

\* equation of v: parents, strides over them and the 0-based position of the state for each configuration
EqOf(m, v) ==
    LET F  == m.fac[v]
        ps == SortSet(PaOf(m.edges, v))
        d  == TLCEval([i \in DOMAIN ps |-> DomOf(F, ps[i])])
        n  == Sizes(d)  s == Strides(n)  N == ProdI(n)
        mu == TLCEval([i \in DOMAIN ps |-> Strides(Sizes(F.d))[PosIn(F.vs, ps[i])]])
        sv == Strides(Sizes(F.d))[PosIn(F.vs, v)]
        nv == Len(DomOf(F, v))
    IN [ps |-> ps, s |-> s,
        out |-> TLCEval([k \in 1..N |-> LET b == 1 + Flat(k - 1, s, n, mu)
                                IN (CHOOSE j \in 0..(nv - 1) : F.t[b + j * sv] = One)])]

PosState(m, v, st) == PosIn(m.dom[v], st) - 1

\* solve the equations for a full exogenous configuration asg (positions), under the intervention do (set of <<v, state>>)
SolveWith(m, eqs, order, asg, do) ==
    FoldLeft(LAMBDA a, v :
                IF \E p \in do : p[1] = v
                THEN [a EXCEPT ![v] = PosState(m, v, (CHOOSE p \in do : p[1] = v)[2])]
                ELSE IF v \in m.endo
                     THEN LET q == eqs[v] IN [a EXCEPT ![v] = q.out[1 + SumI([i \in DOMAIN q.ps |-> a[q.ps[i]] * q.s[i]])]]
                     ELSE a,
             asg, order)

\* all exogenous configurations of positive weight: sequence of [w, a]
ExoWorlds(m) ==
    LET us == SortSet(Exo(m))
        d  == TLCEval([i \in DOMAIN us |-> m.dom[us[i]]])
        J  == JointOf(us, d, [i \in DOMAIN us |-> m.fac[us[i]]])
        n  == Sizes(d)  s == Strides(n)
        asg(k) == TLCEval([v \in m.nodes |-> IF v \in Exo(m) THEN LET i == PosIn(us, v) IN ((k - 1) \div s[i]) % n[i] ELSE 0])
        all == TLCEval([k \in DOMAIN J.f.t |-> [w |-> J.f.t[k], a |-> asg(k)]])
    IN [ok |-> J.ok, den |-> J.den, ws |-> IF J.ok THEN SelectSeq(all, LAMBDA x : x.w # 0) ELSE <<>>]

\* an object that expands a model into its worlds, for repeated use
Expand(m) ==
    LET x == ExoWorlds(m)
        order == Topo(m.nodes, m.edges)
        eqs == TLCEval([v \in m.endo |-> EqOf(m, v)])
    IN [k |-> "x", ok |-> x.ok, den |-> x.den, order |-> order, eqs |-> eqs,
        ws |-> TLCEval([i \in DOMAIN x.ws |-> [w |-> x.ws[i].w, a |-> x.ws[i].a,
                                       f |-> SolveWith(m, eqs, order, x.ws[i].a, {})]])]

Agrees(m, a, ev) == \A p \in ev : a[p[1]] = PosState(m, p[1], p[2])

\* integer table over the targets: tg a sequence of <<output id, variable, world index>> sorted by output id;
\* dos a sequence of interventions, world 0 is the factual one; only worlds agreeing with ev in world evw count
WorldTable(m, X, dos, ev, evw, tg) ==
    LET d == [i \in DOMAIN tg |-> m.dom[tg[i][2]]]
        n == Sizes(d)  s == Strides(n)  N == ProdI(n)
        exoDo(w) == \A p \in (IF evw = 0 THEN {} ELSE dos[evw]) : p[1] \in m.endo
        base(x, w) == IF w = 0 THEN x.f ELSE SolveWith(m, X.eqs, X.order, x.a, dos[w])
        rows == TLCEval([i \in DOMAIN X.ws |->
                    LET x == X.ws[i]
                        sol == TLCEval([w \in 0..Len(dos) |-> base(x, w)])
                    IN IF Agrees(m, sol[evw], ev)
                       THEN [w |-> x.w, c |-> 1 + SumI([j \in DOMAIN tg |-> sol[tg[j][3]][tg[j][2]] * s[j]])]
                       ELSE [w |-> 0, c |-> 0]])
        live == SelectSeq(rows, LAMBDA r : r.w # 0)
    IN MkF([i \in DOMAIN tg |-> tg[i][1]], d,
           [c \in 1..N |-> SumI([i \in DOMAIN live |-> IF live[i].c = c THEN live[i].w ELSE 0])],
           {tg[i][1] : i \in DOMAIN tg})

\* counterfactual: evidence in the factual world, targets in hypothetical ones
Counterfactual(m, X, dos, ev, tg) ==
    LET W == WorldTable(m, X, dos, ev, 0, tg) IN RatioOf(W, W.l, {})

\* interventional: evidence and targets in the intervened world; exogenous variables may be intervened as well
Interventional(m, X, do, ev, T) ==
    LET vs == SortSet(T)
        tg == TLCEval([i \in DOMAIN vs |-> <<vs[i], vs[i], 1>>])
        W  == WorldTable(m, X, <<do>>, ev, 1, tg)
    IN RatioOf(W, W.l, {})

\* distribution of the endogenous variables
EndoTable(m, X) ==
    LET vs == SortSet(m.endo)
        tg == TLCEval([i \in DOMAIN vs |-> <<vs[i], vs[i], 0>>])
    IN WorldTable(m, X, <<>>, {}, 0, tg)

\* ---- do-operator on models
ConstantF(v, states, s) == MkF(<<v>>, <<states>>, [i \in DOMAIN states |-> IF states[i] = s THEN One ELSE Zero], {v})
DoModel(m, do) ==
    LET D == {p[1] : p \in do}
        val(v) == (CHOOSE p \in do : p[1] = v)[2]
    IN [m EXCEPT !.edges = {e \in @ : e[2] \notin D},
                 !.fac = [v \in m.nodes |-> IF v \in D THEN ConstantF(v, m.dom[v], val(v)) ELSE @[v]]]

\* ---- c-components
ExoArcs(m) == {e \in m.edges : e[1] \notin m.endo}
CComponents(m) == ComponentsOf(m.nodes, Sym(ExoArcs(m)))
=============================================================================
