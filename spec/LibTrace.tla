------------------------------ MODULE LibTrace ------------------------------
(* Trace specification of the whole library: one recorded call per step.    *)
(* A violated clause is printed and the step is taken all the same, so that *)
(* the rest of the trace is judged too.                                     *)
EXTENDS TDom

Init == heap = <<>> /\ l = 1 /\ vac = 0 /\ vts = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.a = "begin" -> Begin(e)
             [] e.a = "crash" -> Crash(e)
             [] e.a = "mk"    -> TMk(e)
             [] e.a = "bin"   -> TBin(e)
             [] e.a = "scal"  -> TScal(e)
             [] e.a = "comb"  -> TComb(e)
             [] e.a = "restr" -> TRestr(e)
             [] e.a = "fold"  -> TFold(e)
             [] e.a = "ren"   -> TRen(e)
             [] e.a = "again" -> TAgain(e)
             [] e.a = "views" -> TViews(e)
             [] e.a = "roles" -> TRoles(e)
             [] e.a = "mkdet" -> TMkDet(e)
             [] e.a = "mkm"   -> TMkM(e)
             [] e.a = "setf"  -> TSetF(e)
             [] e.a = "trans" -> TTrans(e)
             [] e.a = "fuse" -> TFuse(e)
             [] e.a = "magain" -> TMAgain(e)
             [] e.a = "qry"   -> TQry(e)
             [] e.a = "mprob" -> TMProb(e)
             [] e.a = "mini"  -> TMini(e)
             [] e.a = "cqry"  -> TCQry(e)
             [] e.a = "nec"   -> TNec(e)
             [] e.a = "ccomp" -> TCComp(e)
             [] e.a = "qfac"  -> TQFac(e)
             [] e.a = "lik"   -> TLik(e)
             [] e.a = "maxlik" -> TMaxLik(e)
             [] e.a = "mkdata" -> TMkData(e)
             [] e.a = "dagain" -> TDAgain(e)
             [] e.a = "mkeng" -> TMkEng(e)
             [] e.a = "eqry"  -> TEQry(e)
             [] e.a = "ecomp" -> TEComp(e)
             [] e.a = "erun"  -> TERun(e)
             [] e.a = "em"    -> TEm(e)
             [] e.a = "grad"  -> TGrad(e)
             [] e.a = "mkagg" -> TMkAgg(e)
             [] e.a = "aggrun" -> TAggRun(e)
             [] e.a = "aggreset" -> TAggReset(e)
             [] e.a = "mkmulti" -> TMkMulti(e)
             [] e.a = "setm"  -> TSetM(e)
             [] e.a = "ival"  -> TIval(e)
             [] e.a = "scomp" -> TSComp(e)
             [] e.a = "sqry"  -> TSQry(e)
             [] e.a = "snec"  -> TSNec(e)
             [] e.a = "sempty" -> TSEmpty(e)
             [] e.a = "env"   -> TEnv(e)
             [] e.a = "ifac"  -> TIFac(e)
             [] e.a = "gra"   -> TGra(e)
             [] e.a = "ord"   -> TOrd(e)
             [] e.a = "deps"  -> TDeps(e)
             [] e.a = "cnt"   -> TCnt(e)
             [] e.a = "fil"   -> TFil(e)
             [] e.a = "dqry"  -> TDQry(e)
             [] e.a = "dview" -> TDView(e)
             [] e.a = "todet" -> TToDet(e)
             [] e.a = "fromdf" -> TFromDf(e)
             [] e.a = "const" -> TConst(e)
             [] e.a = "canon" -> TCanon(e)
             [] e.a = "gen"   -> TGen(e)
             [] e.a = "draw"  -> TDraw(e)
             [] e.a = "seed"  -> TSeed(e)
             [] e.a = "smp"   -> TSmp(e)
             [] e.a = "fsmp"  -> TFSmp(e)
             [] e.a = "csmp"  -> TCSmp(e)
             [] e.a = "io"    -> TIo(e)
             [] e.a = "iot"   -> TIoT(e)
             [] e.a = "stream" -> TStream(e)
             [] e.a = "uaiw"  -> TUaiW(e)
             [] e.a = "uair"  -> TUaiR(e)
             [] e.a = "dom"   -> TDomE(e)
             [] e.a = "pure"  -> TPure(e)
Spec == Init /\ [][Next]_<<heap, l, vac, vts>>
View == l
KeepVac == TLCSet(42, vac)
Consumed == /\ PrintT(<<"VAC", TLCGet(42)>>)
            /\ PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
