------------------------------- MODULE TLearn -------------------------------
(* Recorded learning runs against the specification.                        *)
EXTENDS TCausal

DataRows(e) == [i \in DOMAIN e.rows |-> [r |-> e.rows[i][1], c |-> e.rows[i][2]]]
Compiled(m, train, e) ==
    LET cells == TLCEval(CellsFor(m, train))
        dr == DataRows(e)
    IN [cells |-> cells, rows |-> TLCEval([i \in DOMAIN dr |-> [r |-> dr[i].r, c |-> dr[i].c, ks |-> TLCEval(CellsOfRow(m, cells, e.obsv, dr[i].r))]])]

\* one recorded model of an evolution against the prior: everything but the trained tables is the prior's
FacOf(p, v) == (CHOOSE i \in DOMAIN p.fac : p.fac[i].v = v)
EvoFrame(m, p, train) ==
    Clause(SetOf(p.nodes) = m.nodes /\ Edges(p.edges) = m.edges, "graph")
    \cup Clause(m.scm => SetOf(p.endo) = m.endo, "endogenous")
    \cup Clause({p.fac[i].v : i \in DOMAIN p.fac} = m.nodes /\ Len(p.fac) = Cardinality(m.nodes), "factor variables")
    \cup UNION {IF v \notin {p.fac[i].v : i \in DOMAIN p.fac} THEN {"factor missing"}
                ELSE LET f == p.fac[FacOf(p, v)] IN
                     IF f.none THEN {"factor missing"}
                     ELSE IF v \notin train THEN {"untrained factor " \o c : c \in FClauses(m.fac[v], f.p)}
                     ELSE {"trained factor " \o c : c \in FClauses(m.fac[v], f.p) \ {"values"}} : v \in m.nodes}
Th(p, train) == TLCEval([v \in train |-> LET t == p.fac[FacOf(p, v)].p.t IN TLCEval([i \in DOMAIN t |-> UnitOf(t[i])])])
\* every trained table is a distribution for each configuration of the parents; tol in units of 10^-9
Distr(m, th, train, tol) == \A v \in train : /\ \A i \in DOMAIN th[v] : th[v][i] >= 0
                                             /\ \A i \in DOMAIN th[v] : LET g == SortSet(Family(m, v, i)) IN
                                                   i = g[1] => Abs(SumI([j \in DOMAIN g |-> th[v][g[j]]]) - U9) <= tol

EMPair(m, C, train, a, b) == \* parameter tables a -> b is one exact step
    UNION {LET x == EMStep(m, C.cells, C.rows, train, a, u) IN
           IF ~x.ok THEN {}
           ELSE Clause(\A s \in DOMAIN x.t : x.e[s] < 0 \/ Abs(x.t[s] - (b[u][s] \div 100)) <= x.e[s], "EM step") : u \in train}
Undecided(m, C, train, a) == \E u \in train : LET x == EMStep(m, C.cells, C.rows, train, a, u) IN ~x.ok \/ \E s \in DOMAIN x.e : x.e[s] < 0

SameTh(a, b, train) == \A v \in train : \A i \in DOMAIN a[v] : Abs(a[v][i] - b[v][i]) <= 10

\* e: x (prior model), train, obsv, rows, maxit (-1 unbounded), evo (projected models), fin (projected final model), err
LearnClauses(m, e, C, train) ==
    LET n == Len(e.evo)
        frame == UNION {EvoFrame(m, e.evo[k], train) : k \in DOMAIN e.evo}
    IN IF e.err # "" THEN {"raised"}
       ELSE IF n = 0 THEN {"evolution"}
       ELSE IF frame # {} THEN frame
       ELSE LET th == TLCEval([k \in DOMAIN e.evo |-> Th(e.evo[k], train)]) IN
            (IF ~e.own THEN {} ELSE {"evolution does not start with the prior: " \o c : c \in ModelClauses(m, e.evo[1])})
            \cup Clause(\A k \in DOMAIN th : Distr(m, th[k], train, 40), "not a distribution")
            \cup Clause(e.maxit < 0 \/ n <= e.maxit + 1, "too many steps")
            \cup Clause(e.maxit < 0 \/ n = e.maxit + 1 \/ (n >= 2 /\ SameTh(th[n], th[n - 1], train)), "stopped before convergence")
            \cup (IF \E k \in DOMAIN th : ~Distr(m, th[k], train, 40) THEN {}
                  ELSE UNION {EMPair(m, C, train, th[k], th[k + 1]) : k \in 1..(n - 1)})
            \cup (IF EvoFrame(m, e.fin, train) # {} THEN {"final model"} ELSE Clause(SameTh(Th(e.fin, train), th[n], train), "final model"))
TEm(e) == /\ UNCHANGED <<heap, vts>>
          /\ LET m == heap[e.x]  train == SetOf(e.train)  C == Compiled(m, train, e) IN
             /\ Report(e, LearnClauses(m, e, C, train))
             /\ vac' = vac + (IF e.err = "" /\ Len(e.evo) > 0 /\ EvoFrame(m, e.evo[1], train) = {} /\ Undecided(m, C, train, Th(e.evo[1], train)) THEN 1 ELSE 0)

\* run to the end: the maximum of the likelihood, which an exact EM step does not change (up to 0.005)
Stationary(m, C, train, th) ==
    UNION {LET x == EMStep(m, C.cells, C.rows, train, th, u) IN
           IF ~x.ok THEN {}
           ELSE Clause(\A s \in DOMAIN x.t : x.e[s] < 0 \/ Abs(x.t[s] - (th[u][s] \div 100)) <= x.e[s] + 50000, "not a maximum") : u \in train}

\* ---- gradient: e: x, train, obsv, rows, fin, err; ok: whether the call must be accepted
TGrad(e) == /\ UNCHANGED heap /\ Keep
            /\ LET m == heap[e.x]  train == SetOf(e.train)  C == Compiled(m, train, e)
                   start == TLCEval([v \in train |-> TLCEval([i \in DOMAIN m.fac[v].t |-> LET q == m.fac[v].t[i] IN IF q = One THEN U9 ELSE Dec9(q[1], q[2])])])
               IN Report(e, IF ~e.ok THEN Clause(e.err # "", "accepted")
                            ELSE IF e.err # "" THEN {"raised"}
                            ELSE LET fr == EvoFrame(m, e.fin, train) IN
                                 IF fr # {} THEN fr
                                 ELSE LET th == Th(e.fin, train) IN
                                      IF ~Distr(m, th, train, 100000) THEN {"not a distribution"}
                                      ELSE LET a == NegLL(m, C.cells, C.rows, train, start)
                                               b == NegLL(m, C.cells, C.rows, train, th)
                                               slack == 1000 + NegLLErr(m, C.cells, C.rows, train, start) + NegLLErr(m, C.cells, C.rows, train, th)
                                           IN (IF a < 0 THEN {} ELSE Clause(b >= 0 /\ b <= a + slack, "likelihood lost"))
                                              \cup (IF e.full THEN Stationary(m, C, train, th) ELSE {}))

\* ---- aggregators: heap object [k |-> "agg", m, n] ; e: x, n (requested), models, learned (projections), evos
TMkAgg(e) == Put([k |-> "agg", m |-> e.x, n |-> 0, old |-> <<>>]) /\ Keep /\ Report(e, Clause(e.err = "", "raised"))
TAggReset(e) == /\ heap' = [heap EXCEPT ![e.x] = [k |-> "agg", m |-> heap[e.x].m, n |-> 0, old |-> <<>>]] /\ Keep
                /\ Report(e, Clause(e.err = "", "raised") \cup Clause(e.nm = 0 /\ e.nl = 0, "not empty after reset"))
TAggRun(e) ==
    LET ag == heap[e.x]
        m == heap[ag.m]
        train == SetOf(e.train)
        C == Compiled(m, train, e)
        ok == e.n >= 1
        tot == ag.n + (IF ok THEN e.n ELSE 0)
    IN /\ heap' = [heap EXCEPT ![e.x] = [k |-> "agg", m |-> ag.m, n |-> tot, old |-> e.models]]
       /\ Keep
       /\ Report(e, Clause((e.err = "") = ok, IF ok THEN "raised" ELSE "accepted")
            \cup Clause(Len(e.models) = tot, "number of models")
            \cup Clause(Len(e.learned) = tot, "number of learning objects")
            \cup Clause(Len(ag.old) <= Len(e.models) /\ SubSeq(e.models, 1, Len(ag.old)) = ag.old, "earlier models changed")
            \cup UNION {EvoFrame(m, e.models[i], train) : i \in DOMAIN e.models}
            \cup Clause(\A i \in DOMAIN e.models : i \in DOMAIN e.learned => e.models[i] = e.learned[i], "model and learning object do not match")
            \cup Clause(Cardinality({e.ids[i] : i \in DOMAIN e.ids}) = Len(e.ids), "same model twice")
            \cup (IF ~e.em THEN {}
                  ELSE UNION {LET v == [e EXCEPT !.maxit = e.maxit] IN LearnClauses(m, [v EXCEPT !.evo = e.evos[i], !.fin = e.models[ag.n + i], !.own = FALSE, !.err = ""], C, train)
                              : i \in {j \in DOMAIN e.evos : ag.n + j \in DOMAIN e.models}}))
=============================================================================
