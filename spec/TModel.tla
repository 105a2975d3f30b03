------------------------------- MODULE TModel -------------------------------
(* Recorded calls on models and inference engines against the specification.*)
EXTENDS TFactor, ModelApi

Edges(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}

\* ---- a projected model against the model m
ModelClauses(m, p) ==
    Clause(SetOf(p.nodes) = m.nodes /\ Len(p.nodes) = Cardinality(m.nodes), "nodes")
    \cup Clause(Edges(p.edges) = m.edges /\ Len(p.edges) = Cardinality(m.edges), "arcs")
    \cup Clause(p.scm = m.scm, "kind")
    \cup Clause(m.scm => (SetOf(p.endo) = m.endo /\ Len(p.endo) = Cardinality(m.endo)
                          /\ SetOf(p.exo) = m.nodes \ m.endo /\ Len(p.exo) = Cardinality(m.nodes \ m.endo)), "endogenous")
    \cup Clause({<<p.dom[i][1], p.dom[i][2]>> : i \in DOMAIN p.dom} = {<<v, m.dom[v]>> : v \in m.nodes}, "domains")
    \cup Clause(Len(p.fac) = Cardinality(m.nodes) /\ {p.fac[i].v : i \in DOMAIN p.fac} = m.nodes, "factor variables")
    \cup UNION {LET v == p.fac[i].v IN
                IF v \notin m.nodes THEN {"factor variables"}
                ELSE IF m.fac[v].k = "none" THEN Clause(p.fac[i].none, "factor not assigned")
                ELSE IF p.fac[i].none THEN {"factor missing"}
                ELSE {"factor " \o c : c \in FClauses(m.fac[v], p.fac[i].p)} : i \in DOMAIN p.fac}

Keep == UNCHANGED <<vac, vts>>
ModelVac(m) == IF m.k = "m" /\ m.J.k = "j" /\ ~m.J.ok THEN 1000 ELSE 0

TMkDet(e) == /\ Put(DetF(e.vo, e.do, e.lv, e.out))
             /\ Judged(e)

\* the judged result of a call that returns a model
ModelJudged(e) == LET m == heap'[Len(heap')] IN
    /\ Report(e, IF m.k = "none" THEN Clause(e.err # "", "accepted")
                 ELSE IF e.err # "" THEN {"raised"} ELSE ModelClauses(m, e.r))
    /\ vac' = vac + ModelVac(m)
    /\ UNCHANGED vts

TMkM(e) == /\ NewModel(e.scm, SetOf(e.nodes), Edges(e.edges), SetOf(e.endo),
                       [i \in DOMAIN e.fs |-> <<e.fs[i][1], heap[e.fs[i][2]]>>], e.j, e.xx)
           /\ ModelJudged(e)
\* e.f = 0: an object that is not a factor
TSetF(e) == /\ IF e.f = 0 THEN UNCHANGED heap ELSE SetFactor(e.x, e.v, heap[e.f])
            /\ Report(e, Clause((e.err = "") = (e.f # 0 /\ FactorFits(heap[e.x], e.v, heap[e.f])), IF e.err = "" THEN "accepted" ELSE "rejected")
                         \cup IF e.perr # "" THEN {"raised"} ELSE ModelClauses(heap'[e.x], e.r))
            /\ Keep
TTrans(e) == /\ Transform(e.x, e.op, IF e.op = "sub" THEN SetOf(e.arg) ELSE PairSet(e.arg), e.j, e.xx)
             /\ ModelJudged(e)
\* common variables that are no roots somewhere: the library may refuse; what it builds otherwise is not prescribed
TFuse(e) == LET ms == [i \in DOMAIN e.xs |-> heap[e.xs[i]]] IN
            /\ Fuse(e.xs, SetOf(e.on), e.j, e.xx)
            /\ IF ~FuseDefined(ms, SetOf(e.on)) /\ (\A i \in DOMAIN ms : ms[i].scm = ms[1].scm) THEN Keep ELSE ModelJudged(e)
TMAgain(e) == /\ UNCHANGED heap /\ Keep
              /\ Report(e, IF heap[e.x].k # "m" THEN {}
                           ELSE IF e.err # "" THEN {"raised"} ELSE ModelClauses(heap[e.x], e.r))

\* ---- queries: err, r
ResultClauses(F, e) == IF e.err # "" THEN {"raised"} ELSE FClauses(F, e.r)
QueryClauses(m, T, C, ev, e) ==
    IF ~QueryOK(m, T, C, ev) THEN Clause(e.err # "", "accepted")
    ELSE IF ~JJ(m).ok \/ EvProb(JJ(m), ev) = 0 THEN {}
    ELSE ResultClauses(Answer(m, T, C, ev), e)
TQry(e) == /\ UNCHANGED <<heap, vts>>
           /\ LET m == heap[e.x]  ev == PairSet(e.ev) IN
              /\ Report(e, QueryClauses(m, e.T, e.C, ev, e))
              /\ vac' = vac + (IF QueryOK(m, e.T, e.C, ev) /\ (~JJ(m).ok \/ EvProb(JJ(m), ev) = 0) THEN 1 ELSE 0)

\* ---- probabilities of complete observations
TMProb(e) == /\ UNCHANGED heap /\ Keep
             /\ Report(e, LET m == heap[e.x]
                              q(o) == NProd([i \in DOMAIN SortSet(m.nodes) |-> FAt(m.fac[SortSet(m.nodes)[i]], o)])
                          IN IF e.err # "" THEN {"raised"}
                             ELSE Clause(Len(e.ps) = Len(e.obs) /\ \A i \in DOMAIN e.obs : Close(e.ps[i], q(PairSet(e.obs[i]))), "prob")
                                  \cup Clause(Len(e.lps) = Len(e.obs) /\ \A i \in DOMAIN e.obs :
                                               LET x == q(PairSet(e.obs[i])) IN IsBad(x) \/ x[1] = 0 \/ Close(e.lps[i], x), "log_prob"))

\* ---- model reduction
MiniClauses(m, T, ev, p) ==
    LET E == {q[1] : q \in ev}
        S == SetOf(p.nodes)
        barren == BarrenOf(m.nodes, m.edges, T \cup E)
        red(v) == FRestrict(m.fac[v], {<<q[1], <<q[2]>>>> : q \in {x \in ev : x[1] \in Right(m.fac[v])}})
        Fs == [i \in DOMAIN p.fac |-> p.fac[i]]
    IN Clause(T \subseteq S, "target dropped")
       \cup Clause(S \subseteq m.nodes, "new nodes")
       \cup Clause(S \cap barren = {}, "barren node kept")
       \cup Clause(Edges(p.edges) = {x \in m.edges : x[1] \in S /\ x[2] \in S /\ x[1] \notin E}, "arcs")
       \cup Clause({Fs[i].v : i \in DOMAIN Fs} = S /\ Len(Fs) = Cardinality(S), "factor variables")
       \cup UNION {IF Fs[i].none THEN {"factor missing"} ELSE IF Fs[i].v \notin m.nodes THEN {}
                   ELSE {"factor " \o c : c \in FClauses(red(Fs[i].v), Fs[i].p)} : i \in DOMAIN Fs}
       \cup IF ~JJ(m).ok \/ EvProb(JJ(m), ev) = 0 \/ ~(T \subseteq S) \/ ~(S \subseteq m.nodes) THEN {}
            ELSE LET x == FromReduced(m, S, T, ev)  y == Posterior(JJ(m), T, {}, ev)
                 IN Clause(x.ok /\ (x.f.vs = y.vs => \A i \in DOMAIN y.t : IsBad(x.f.t[i]) \/ x.f.t[i] = y.t[i]), "posterior changed")
TMini(e) == /\ UNCHANGED heap /\ Keep
            /\ Report(e, IF e.err # "" THEN {"raised"} ELSE MiniClauses(heap[e.x], SetOf(e.T), PairSet(e.ev), e.r))
=============================================================================
