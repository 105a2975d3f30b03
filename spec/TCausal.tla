------------------------------ MODULE TCausal ------------------------------
(* Recorded causal calls (interventional and counterfactual queries,        *)
(* necessity and sufficiency, c-components, Q-decomposition, likelihood)    *)
(* and inference engines with their state, against the specification.       *)
EXTENDS TModel, Learn

\* ---- causal queries.  e: T, do, ev
CausalOK(m, T, do, ev) ==
    /\ T # <<>> /\ \A i, j \in DOMAIN T : i # j => T[i] # T[j]
    /\ LET E == {p[1] : p \in ev}  D == {p[1] : p \in do} IN
       /\ (ToSet2(T) \cup E \cup D) \subseteq m.nodes
       /\ ToSet2(T) \cap E = {} /\ ToSet2(T) \cap D = {} /\ E \cap D = {}
DoProb(m, X, do, ev) == SumI(WorldTable(m, X, <<do>>, ev, 1, <<>>).t)
CausalAnswer(m, T, do, ev) == Interventional(m, XX(m), do, ev, ToSet2(T))
CausalDecided(m, do, ev) == XX(m).ok /\ DoProb(m, XX(m), do, ev) # 0

\* ---- counterfactual queries.  e: tg (sequence of <<variable, world>>), dos, ev
CfOK(m, tg, dos, ev) ==
    /\ tg # <<>> /\ \A i, j \in DOMAIN tg : i # j => tg[i] # tg[j]
    /\ \A i \in DOMAIN tg : tg[i][1] \in m.endo /\ tg[i][2] \in DOMAIN dos
    /\ \A i \in DOMAIN dos : {p[1] : p \in dos[i]} \subseteq m.endo
    /\ \A i \in DOMAIN tg : tg[i][1] \notin {p[1] : p \in dos[tg[i][2]]}
    /\ {p[1] : p \in ev} \subseteq m.nodes
CfAnswer(m, tg, dos, ev) ==
    LET out == {<<tg[i][1] + 100 * tg[i][2], tg[i][1], tg[i][2]>> : i \in DOMAIN tg}
        ids == SortSet({o[1] : o \in out})
        seq == [i \in DOMAIN ids |-> CHOOSE o \in out : o[1] = ids[i]]
    IN Counterfactual(m, XX(m), dos, ev, seq)
CfProb(m, ev) == SumI(WorldTable(m, XX(m), <<>>, ev, 0, <<>>).t)
CfDecided(m, ev) == XX(m).ok /\ CfProb(m, ev) # 0

DosOf(x) == [i \in DOMAIN x |-> PairSet(x[i])]
TgOf(x) == [i \in DOMAIN x |-> <<x[i][1], x[i][2]>>]

\* one specification of "what a query on model m answers": [dec, ok, f]; q has kind, T, C, ev, do, dos, tg
\* datasets as heap objects [k |-> "d", cols, rows, dom, strs], for engines that answer from data
DataExpected(d, q) ==
    LET e == [cols |-> d.cols, rows |-> d.rows, dom |-> d.dom, T |-> q.T, C |-> q.C, ev |-> q.ev]
        ok == q.T # <<>> /\ DataOK(e)
        sel == Selected(d.cols, d.rows, PairSet(q.ev))
        dec == ok /\ sel # <<>> /\ CountDefined(SelectSeq(d.dom, LAMBDA p : p[1] \in ToSet2(q.T) \cup ToSet2(q.C)), d.cols, sel, d.strs)
    IN [ok |-> ok, dec |-> dec, f |-> IF dec THEN DataAnswer(e) ELSE None]
Expected(m, q) ==
    LET ev == PairSet(q.ev) IN
    CASE m.k = "d" -> DataExpected(m, q)
      [] q.kind = "prob" ->
            LET ok == QueryOK(m, q.T, q.C, ev)
                dec == ok /\ JJ(m).ok /\ EvProb(JJ(m), ev) # 0
            IN [ok |-> ok, dec |-> dec, f |-> IF dec THEN Answer(m, q.T, q.C, ev) ELSE None]
      [] q.kind = "causal" ->
            LET do == PairSet(q.do)
                ok == CausalOK(m, q.T, do, ev)
                dec == ok /\ CausalDecided(m, do, ev)
            IN [ok |-> ok, dec |-> dec, f |-> IF dec THEN CausalAnswer(m, q.T, do, ev) ELSE None]
      [] OTHER ->
            LET dos == DosOf(q.dos)
                ok == CfOK(m, TgOf(q.tg), dos, ev)
                dec == ok /\ CfDecided(m, ev)
            IN [ok |-> ok, dec |-> dec, f |-> IF dec THEN CfAnswer(m, TgOf(q.tg), dos, ev) ELSE None]
AnswerClauses(x, e) == IF ~x.ok THEN Clause(e.err # "", "accepted")
                       ELSE IF ~x.dec THEN {}
                       ELSE ResultClauses(x.f, e)
TCQry(e) == /\ UNCHANGED <<heap, vts>>
            /\ LET x == Expected(heap[e.x], e.q) IN
               /\ Report(e, AnswerClauses(x, e))
               /\ vac' = vac + (IF x.ok /\ ~x.dec THEN 1 ELSE 0)

\* ---- necessity and sufficiency.  tc, te: <<true, false>> states of cause and effect; <<>> when to be identified
\* codes: for each state 1, 0, 2 when its label reads as "true", "false" or "second", else -1
TrueFalse(dom, codes, given) ==
    IF given # <<>> THEN given
    ELSE IF Len(dom) = 2 /\ Has(codes, 1) /\ (Has(codes, 0) \/ Has(codes, 2))
         THEN <<dom[PosIn(codes, 1)], dom[3 - PosIn(codes, 1)]>> ELSE <<>>
Necessity(m, kind, c, y, tc, ty) ==
    LET one == <<y + 100, y, 1>>  two == <<y + 200, y, 2>>
        at(F, S) == FAt(F, S)
    IN CASE kind = "pn"  -> at(Counterfactual(m, XX(m), <<{<<c, tc[2]>>}>>, {<<c, tc[1]>>, <<y, ty[1]>>}, <<one>>), {<<y + 100, ty[2]>>})
         [] kind = "ps"  -> at(Counterfactual(m, XX(m), <<{<<c, tc[1]>>}>>, {<<c, tc[2]>>, <<y, ty[2]>>}, <<one>>), {<<y + 100, ty[1]>>})
         [] OTHER -> at(Counterfactual(m, XX(m), <<{<<c, tc[2]>>}, {<<c, tc[1]>>}>>, {}, <<one, two>>),
                         {<<y + 100, ty[2]>>, <<y + 200, ty[1]>>})
NecProb(m, kind, c, y, tc, ty) == CfProb(m, CASE kind = "pn" -> {<<c, tc[1]>>, <<y, ty[1]>>}
                                              [] kind = "ps" -> {<<c, tc[2]>>, <<y, ty[2]>>}
                                              [] OTHER -> {})
TNec(e) == /\ UNCHANGED <<heap, vts>>
           /\ LET m == heap[e.x]
                  tc == TrueFalse(m.dom[e.c], e.codc, e.tc)
                  ty == TrueFalse(m.dom[e.y], e.cody, e.ty)
                  ok == tc # <<>> /\ ty # <<>>
                  dec == ok /\ XX(m).ok /\ NecProb(m, e.kind, e.c, e.y, tc, ty) # 0
              IN /\ Report(e, IF ~ok THEN Clause(e.err # "", "accepted")
                              ELSE IF ~dec THEN {}
                              ELSE IF e.err # "" THEN {"raised"}
                              ELSE Clause(Close(e.v, Necessity(m, e.kind, e.c, e.y, tc, ty)), "value"))
                 /\ vac' = vac + (IF ok /\ ~dec THEN 1 ELSE 0)

\* ---- c-components.  e: cc, ex, en (sequences of sequences), of (sequence of [v, c, x, n])
Sets(x) == {SetOf(x[i]) : i \in DOMAIN x}
TCComp(e) == /\ UNCHANGED heap /\ Keep
             /\ LET m == heap[e.x]  cs == CComponents(m)
                    CompOf(v) == CHOOSE c \in cs : v \in c
                IN Report(e, IF e.err # "" THEN {"raised"} ELSE
                     Clause(Sets(e.cc) = cs /\ Len(e.cc) = Cardinality(cs), "ccomponents")
                     \cup Clause(Len(e.ex) = Cardinality(cs) /\ Sets(e.ex) = {c \ m.endo : c \in cs}, "exo_ccomponents")
                     \cup Clause(Len(e.en) = Cardinality(cs) /\ Sets(e.en) = {c \cap m.endo : c \in cs}, "endo_ccomponents")
                     \cup Clause(\A i \in DOMAIN e.of : LET c == CompOf(e.of[i].v) IN
                                   /\ SetOf(e.of[i].c) = c /\ SetOf(e.of[i].x) = c \ m.endo /\ SetOf(e.of[i].n) = c \cap m.endo, "component of a variable"))

\* ---- Q-decomposition.  e: nodes, edges (of the Q-graph), fac (sequence of [v, p]); rows: data (sequence of state tuples over endo, ascending) or <<>>
QFactorOf(J, v, P) == Posterior(J, {v}, P, {})
EndoJoint(m) == LET X == XX(m)  W == EndoTable(m, X) IN [k |-> "j", ok |-> X.ok, den |-> X.den, f |-> W]
DataJoint(m, rows) == \* empirical counts over the endogenous variables
    LET vs == SortSet(m.endo)
        d  == [i \in DOMAIN vs |-> m.dom[vs[i]]]
        n == Sizes(d)  s == Strides(n)
        idx(r) == 1 + SumI([i \in DOMAIN vs |-> (PosIn(d[i], r[i]) - 1) * s[i]])
        ix == TLCEval([i \in DOMAIN rows |-> idx(rows[i])])
        cnt(c) == Cardinality({i \in DOMAIN rows : ix[i] = c})
    IN [k |-> "j", ok |-> TRUE, den |-> Len(rows), f |-> MkF(vs, d, [c \in 1..ProdI(n) |-> cnt(c)], ToSet2(vs))]
\* value of a recorded factor at a recorded assignment, as a natural in units of 10^-9 (values in [0, 1])
UnitAt(p, asg) == LET st == Strides(Sizes(p.d))
                      x == p.t[1 + SumI([i \in DOMAIN p.vs |-> (PosIn(p.d[i], asg[p.vs[i]]) - 1) * st[i]])]
                  IN IF x[1] # 0 THEN -1 ELSE IF x[2] = 1 THEN 1000000000 ELSE IF x[2] = 0 THEN x[3] ELSE -1
CellsOf(F) == LET n == Sizes(F.d)  s == Strides(n)
              IN [k \in DOMAIN F.t |-> [v \in Scope(F) |-> LET i == PosIn(F.vs, v) IN F.d[i][1 + (((k - 1) \div s[i]) % n[i])]]]
TQFac(e) == /\ UNCHANGED <<heap, vts>>
            /\ LET m == heap[e.x]
                   J == IF e.rows = <<>> THEN EndoJoint(m) ELSE DataJoint(m, e.rows)
                   E == Edges(e.edges)
                   ps == e.fac
                   wf == SetOf(e.nodes) = m.endo /\ {ps[i].v : i \in DOMAIN ps} = m.endo /\ Len(ps) = Cardinality(m.endo)
                   F(i) == QFactorOf(J, ps[i].v, PaOf(E, ps[i].v))
                   fc == TLCEval([i \in DOMAIN ps |-> IF ~J.ok THEN {} ELSE FClauses(F(i), ps[i].p)])
                   total == SumI(J.f.t)
                   cells == CellsOf(J.f)
                   prod(k) == FoldLeft(LAMBDA a, i : MulUnit(a, UnitAt(ps[i].p, cells[k])), 1000000000, [i \in DOMAIN ps |-> i])
               IN /\ Report(e, IF e.err # "" THEN {"raised"}
                               ELSE IF ~wf THEN {"variables of the Q-graph"}
                               ELSE Clause(Acyclic(m.endo, E), "Q-graph has a cycle")
                                    \cup UNION {fc[i] : i \in DOMAIN ps}
                                    \* the attached conditionals multiply to the distribution of the endogenous variables
                                    \cup (IF ~J.ok \/ e.rows # <<>> \/ (UNION {fc[i] : i \in DOMAIN ps}) # {} THEN {}
                                          ELSE Clause(\A k \in DOMAIN J.f.t :
                                                        LET q == Norm(J.f.t[k], total) IN
                                                        ~Dec9OK(q[2]) \/ Abs((IF q = One THEN 1000000000 ELSE Dec9(q[1], q[2])) - prod(k)) <= 200, "Q-factors do not multiply to the joint")))
                  /\ vac' = vac + (IF J.ok THEN 0 ELSE 1)

\* ---- likelihood of complete endogenous data. e: rows, lik (exp of the reported log-likelihoods of the prefixes' increments)
RowProb(J, r) == LET F == J.f IN Norm(F.t[1 + SumI([i \in DOMAIN F.vs |-> (PosIn(F.d[i], r[i]) - 1) * Strides(Sizes(F.d))[i]])], SumI(F.t))
\* e.vars: the chosen variables (all of them when empty): their factors in the decomposition only.  e.pre: the prefixes of the data tried
ChosenOf(m, e) == IF e.vars = <<>> THEN SortSet(m.endo) ELSE SortSet(SetOf(e.vars))
QValue(J, m, E, sel, r) ==
    LET vs == SortSet(m.endo)
        Q == TLCEval([i \in DOMAIN sel |-> QFactorOf(J, sel[i], PaOf(E, sel[i]))])
        row == {<<vs[j], r[j]>> : j \in DOMAIN vs}
    IN NProd([i \in DOMAIN sel |-> FAt(Q[i], row)])
TLik(e) == /\ UNCHANGED heap /\ Keep
           /\ LET m == heap[e.x]  J == EndoJoint(m)  sel == ChosenOf(m, e)  all == SetOf(sel) = m.endo
                  val(r) == IF all THEN RowProb(J, r) ELSE QValue(J, m, Edges(e.edges), sel, r) IN
              Report(e, IF e.err # "" THEN {"raised"}
                        ELSE IF ~J.ok THEN {}
                        ELSE Clause(Len(e.inc) = Len(e.rows) /\ \A i \in DOMAIN e.rows : Close(e.inc[i], val(e.rows[i])), "log_likelihood"))
\* maximum likelihood: exp of (max_log_likelihood of the data) against the product over rows of the empirical Q-factors
TMaxLik(e) == /\ UNCHANGED heap /\ Keep
              /\ LET m == heap[e.x]
                     J == DataJoint(m, e.rows)
                     sel == ChosenOf(m, e)
                     val == NProd([k \in DOMAIN e.rows |-> QValue(J, m, Edges(e.edges), sel, e.rows[k])])
                 IN Report(e, IF e.err # "" THEN {"raised"} ELSE Clause(Close(e.v, val), "max_log_likelihood"))

\* ---- inference engines: heap objects [k |-> "e", m, q] (q: the compiled query, None before)
TMkData(e) == Put([k |-> "d", cols |-> e.cols, rows |-> e.rows, dom |-> e.dom, strs |-> SetOf(e.strs)]) /\ Keep /\ Report(e, {})
\* the dataset of an engine is as it was given
TDAgain(e) == /\ UNCHANGED heap /\ Keep
              /\ LET d == heap[e.x] IN Report(e, Clause(e.err = "" /\ e.cols = d.cols /\ e.rows = d.rows /\ e.dom = d.dom, "argument modified"))
TMkEng(e) == Put([k |-> "e", m |-> e.x, q |-> None]) /\ Keep /\ Report(e, Clause(e.err = "", "raised"))
\* a query on an engine: the answer is that of the model, whatever happened before
TEQry(e) == /\ LET en == heap[e.x]  x == Expected(heap[en.m], e.q) IN
               /\ heap' = [heap EXCEPT ![e.x] = [k |-> "e", m |-> en.m, q |-> [k |-> "any"]]]
               /\ Report(e, AnswerClauses(x, e))
               /\ vac' = vac + (IF x.ok /\ ~x.dec THEN 1 ELSE 0)
            /\ UNCHANGED vts
\* compiling a well-formed query succeeds and replaces the pending one; a malformed one is refused
TEComp(e) == /\ LET en == heap[e.x]  x == Expected(heap[en.m], e.q) IN
                /\ heap' = [heap EXCEPT ![e.x] = IF x.ok THEN [k |-> "e", m |-> en.m, q |-> [k |-> "q", q |-> e.q]]
                                                 ELSE IF en.q.k = "none" THEN en
                                                 ELSE [k |-> "e", m |-> en.m, q |-> [k |-> "stale", q |-> en.q]]]
                /\ Report(e, Clause((e.err = "") = x.ok, IF e.err = "" THEN "accepted" ELSE "raised"))
             /\ Keep
\* running: refused before anything was compiled; otherwise the compiled query's answer.
\* after a refused compilation the run may be refused or answer the query compiled last
RECURSIVE LastQ(_)
LastQ(q) == IF q.k = "stale" THEN LastQ(q.q) ELSE q
TERun(e) == /\ UNCHANGED heap /\ Keep
            /\ LET en == heap[e.x] IN
               Report(e, CASE en.q.k = "none"  -> Clause(e.err # "", "run before compile")
                           [] en.q.k = "any"   -> {}
                           [] en.q.k = "stale" -> IF e.err # "" \/ LastQ(en.q).k # "q" THEN {} ELSE AnswerClauses(Expected(heap[en.m], LastQ(en.q).q), e)
                           [] OTHER            -> AnswerClauses(Expected(heap[en.m], en.q.q), e))
=============================================================================
