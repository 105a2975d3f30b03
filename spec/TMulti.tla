------------------------------- MODULE TMulti -------------------------------
(* Inference over sets of causal models: sessions that hold models and a    *)
(* result type, queries answered by envelopes, interval factors.            *)
EXTENDS TLearn

\* fold of a set of factors with equal scopes, cell by cell
CellWise(Fs, op(_, _)) == [Fs[1] EXCEPT !.t = TLCEval([k \in DOMAIN Fs[1].t |->
                              FoldLeft(LAMBDA a, F : op(a, F.t[k]), Fs[1].t[k], SubSeq(Fs, 2, Len(Fs)))])]
LowOf(Fs) == CellWise(Fs, NMin)
UpOf(Fs)  == CellWise(Fs, NMax)

\* a projected interval factor p (low table t, up table u) against factors lo and up
IClauses(lo, up, p) ==
    Clause(p.vs = lo.vs, "variables")
    \cup Clause(p.d = lo.d, "states")
    \cup Clause(ToSet2(p.l) = lo.l /\ Len(p.l) = Cardinality(lo.l), "left")
    \cup Clause(ToSet2(p.r) = Right(lo) /\ Len(p.r) = Cardinality(Right(lo)), "right")
    \cup Clause(ValuesClose(p.t, lo), "lower bounds")
    \cup Clause(ValuesClose(p.u, up), "upper bounds")

\* ---- sessions [k |-> "s", ms, iv]
TMkMulti(e) == /\ Put([k |-> "s", ms |-> e.ms, iv |-> e.iv]) /\ Keep
               /\ Report(e, Clause(e.err = "", "raised"))
TSetM(e) == /\ heap' = [heap EXCEPT ![e.x].ms = IF e.op = "set" THEN e.ms ELSE @ \o e.ms] /\ Keep
            /\ Report(e, Clause(e.err = "", "raised") \cup Clause(e.same, "argument modified") \cup Clause(e.cur = heap'[e.x].ms, "models held"))
TIval(e) == heap' = [heap EXCEPT ![e.x].iv = e.iv] /\ Keep /\ Report(e, Clause(e.err = "", "raised"))
TSComp(e) == /\ UNCHANGED heap /\ Keep
             /\ Report(e, Clause((e.err = "") = (heap[e.x].ms # <<>>), IF e.err = "" THEN "accepted" ELSE "raised"))

TSQry(e) ==
    LET s == heap[e.x]
        xs == TLCEval([i \in DOMAIN s.ms |-> Expected(heap[s.ms[i]], e.q)])
        ok == s.ms # <<>> /\ \A i \in DOMAIN xs : xs[i].ok
        dec == ok /\ \A i \in DOMAIN xs : xs[i].dec
        Fs == [i \in DOMAIN xs |-> xs[i].f]
    IN /\ UNCHANGED <<heap, vts>>
       /\ Report(e, IF ~ok THEN Clause(e.err # "", "accepted")
                    ELSE IF ~dec THEN {}
                    ELSE IF e.err # "" THEN {"raised"}
                    ELSE Clause(e.iv = s.iv, "result type")
                         \cup (IF e.iv # s.iv THEN {}
                               ELSE IF s.iv THEN IClauses(LowOf(Fs), UpOf(Fs), e.r)
                               ELSE Clause(Len(e.rl) = Len(Fs), "number of answers")
                                    \cup UNION {IF i \in DOMAIN e.rl THEN FClauses(Fs[i], e.rl[i]) ELSE {} : i \in DOMAIN Fs}))
       /\ vac' = vac + (IF ok /\ ~dec THEN 1 ELSE 0)

TSNec(e) ==
    LET s == heap[e.x]
        m == heap[s.ms[1]]
        tc == TrueFalse(m.dom[e.c], e.codc, e.tc)
        ty == TrueFalse(m.dom[e.y], e.cody, e.ty)
        ok == s.ms # <<>> /\ tc # <<>> /\ ty # <<>>
        dec == ok /\ \A i \in DOMAIN s.ms : XX(heap[s.ms[i]]).ok /\ NecProb(heap[s.ms[i]], e.kind, e.c, e.y, tc, ty) # 0
        vals == [i \in DOMAIN s.ms |-> Necessity(heap[s.ms[i]], e.kind, e.c, e.y, tc, ty)]
        lo == FoldLeft(NMin, vals[1], SubSeq(vals, 2, Len(vals)))
        up == FoldLeft(NMax, vals[1], SubSeq(vals, 2, Len(vals)))
    IN /\ UNCHANGED <<heap, vts>>
       /\ Report(e, IF ~ok THEN Clause(e.err # "", "accepted")
                    ELSE IF ~dec THEN {}
                    ELSE IF e.err # "" THEN {"raised"}
                    ELSE IF s.iv THEN Clause(Len(e.vals) = 2 /\ Close(e.vals[1], lo) /\ Close(e.vals[2], up), "bounds")
                    ELSE Clause(Len(e.vals) = Len(vals) /\ \A i \in DOMAIN vals : Close(e.vals[i], vals[i]), "values"))
       /\ vac' = vac + (IF ok /\ ~dec THEN 1 ELSE 0)
\* a session without models refuses everything
TSEmpty(e) == /\ UNCHANGED heap /\ Keep /\ Report(e, Clause(e.err # "", "accepted"))

\* ---- models learnt inside a session: the envelope of the answers of the models held (both observed)
ObsLeq(x, y) == IF x[1] # 0 \/ y[1] # 0 THEN TRUE ELSE x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])
EnvIv(e) ==
    Clause(\A i \in DOMAIN e.each : e.each[i].vs = e.r.vs /\ e.each[i].d = e.r.d /\ e.each[i].l = e.r.l /\ e.each[i].r = e.r.r, "domain")
    \cup Clause(\A k \in DOMAIN e.r.t :
           /\ \A i \in DOMAIN e.each : ObsLeq(e.r.t[k], e.each[i].t[k]) \/ Near(e.r.t[k], e.each[i].t[k])
           /\ \E i \in DOMAIN e.each : Near(e.r.t[k], e.each[i].t[k]), "lower bounds")
    \cup Clause(\A k \in DOMAIN e.r.u :
           /\ \A i \in DOMAIN e.each : ObsLeq(e.each[i].t[k], e.r.u[k]) \/ Near(e.r.u[k], e.each[i].t[k])
           /\ \E i \in DOMAIN e.each : Near(e.r.u[k], e.each[i].t[k]), "upper bounds")
EnvList(e) == Clause(Len(e.rl) = Len(e.each) /\ \A i \in DOMAIN e.rl : /\ e.rl[i].vs = e.each[i].vs /\ e.rl[i].d = e.each[i].d
                                                                        /\ e.rl[i].l = e.each[i].l /\ SeqNear(e.rl[i].t, e.each[i].t), "answers")
\* the models held are the prior with other exogenous marginals
EnvModels(e) ==
    LET m == heap[e.x]  X == SetOf(e.exo)
        fr == UNION {EvoFrame(m, e.mods[i], X) : i \in DOMAIN e.mods}
    IN (IF fr # {} THEN fr ELSE Clause(\A i \in DOMAIN e.mods : Distr(m, Th(e.mods[i], X), X, 100000), "not a distribution"))
       \cup Clause(e.evo = <<>> \/ e.evo = e.mods, "model evolution")
TEnv(e) == /\ UNCHANGED heap /\ Keep
           /\ Report(e, IF e.err # "" THEN {"raised"}
                        ELSE IF e.last THEN Clause(e.held = e.n, "number of models")
                        ELSE Clause(Len(e.each) = e.n /\ e.held = e.n, "number of models")
                             \cup EnvModels(e)
                             \cup (IF e.isiv # e.iv THEN {"result type"} ELSE IF e.iv THEN EnvIv(e) ELSE EnvList(e)))

\* ---- interval factors from precise ones; obs: a restriction applied to the result
TIFac(e) ==
    LET Fs == TLCEval([i \in DOMAIN e.xs |-> heap[e.xs[i]]])
        same == \A i \in DOMAIN Fs : Fs[i].vs = Fs[1].vs /\ Fs[i].d = Fs[1].d
        lo == FRestrict(LowOf(Fs), PairSet(e.obs))
        up == FRestrict(UpOf(Fs), PairSet(e.obs))
    IN /\ UNCHANGED <<heap, vts>>
       /\ Report(e, IF ~same THEN Clause(e.err # "", "accepted") ELSE IF e.err # "" THEN {"raised"} ELSE IClauses(lo, up, e.r))
       /\ vac' = vac + (IF same THEN VacCount(lo) + VacCount(up) ELSE 0)
=============================================================================
