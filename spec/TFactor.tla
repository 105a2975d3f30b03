------------------------------ MODULE TFactor ------------------------------
(* Recorded factor calls against the factor part of the specification.      *)
EXTENDS Judge

\* two observed tables of F agree (where F is determined)
SameObs(F, t, u) == Len(t) = Len(u) /\ \A i \in DOMAIN t : (i \in DOMAIN F.t /\ Vacuous(F.t[i])) \/ Near(t[i], u[i])

\* all backends must deliver the object F
Delivered(F, e) == UNION {IF e.errs[b] # "" THEN {"raised"}
                          ELSE FClauses(F, e.rs[b]) \cup Clause(e.rs[b].vt = vts[b], "backend")
                               \cup (IF b = 1 \/ e.errs[1] # "" THEN {} ELSE Clause(SameObs(F, e.rs[b].t, e.rs[1].t), "backends differ"))
                          : b \in DOMAIN e.rs}
Refused(e) == UNION {Clause(e.errs[b] # "", "accepted") : b \in DOMAIN e.rs}

Judged(e) == LET F == heap'[Len(heap')] IN
             /\ Report(e, IF F.k = "none" THEN Refused(e) ELSE Delivered(F, e))
             /\ vac' = vac + (IF F.k = "f" THEN VacCount(F) ELSE 0)
             /\ UNCHANGED vts

TMk(e)    == NewFactor(e.vo, e.do, Rats(e.vals), e.mode, SetOf(e.ls), SetOf(e.rsv)) /\ Judged(e)
TBin(e)   == Bin(e.op, e.x, e.y) /\ Judged(e)
TScal(e)  == Scal(e.op, e.x, <<e.q[1], e.q[2]>>, e.rev) /\ Judged(e)
TComb(e)  == CombineAll(e.xs) /\ Judged(e)
TRestr(e) == /\ Restr(e.x, PairSet(e.obs)) /\ Judged(e)
             /\ Report(e, Clause(e.same, "argument modified"))
TFold(e)  == FoldVars(e.op, e.x, SetOf(e.rem)) /\ Judged(e)
TRen(e)   == Ren(e.x, PairSet(e.mp)) /\ Judged(e)

\* looking at an old object again: nothing may have changed
TAgain(e) == /\ UNCHANGED <<heap, vac, vts>>
             /\ Report(e, IF heap[e.x].k = "none" THEN {} ELSE Delivered(heap[e.x], e))

\* all the views of a factor describe one function: the one that get_value shows
PermObs(F, g, vo, do) == \* the observed table g (canonical order of F) listed in the order vo of variables and do of states
    LET n == Sizes(do)  s == Strides(n)  N == ProdI(n)
        stF == Strides(Sizes(F.d))
        map == [i \in DOMAIN vo |-> [j \in DOMAIN do[i] |-> (PosIn(DomOf(F, vo[i]), do[i][j]) - 1) * stF[PosIn(F.vs, vo[i])]]]
    IN [k \in 1..N |-> g[1 + SumI([i \in DOMAIN vo |-> map[i][1 + (((k-1) \div s[i]) % n[i])]])]]
SeqNear(t, q) == Len(t) = Len(q) /\ \A i \in DOMAIN q : Near(t[i], q[i])
DoFor(v, perm) == [i \in DOMAIN perm |-> v.do[PosIn(v.vo, perm[i])]]
NoBad(F) == \A i \in DOMAIN F.t : ~IsBad(F.t[i])
AsgPos(F, asg) == 1 + SumI([i \in DOMAIN F.vs |->
                        LET p == CHOOSE q \in asg : q[1] = F.vs[i] IN (PosIn(F.d[i], p[2]) - 1) * Strides(Sizes(F.d))[i]])
ObsAt(F, g, asg) == g[AsgPos(F, asg)]
\* ex: the values are exactly those declared (no arithmetic in between)
ViewClauses(F, v, ex) ==
    IF v.err # "" THEN {"raised"}
    ELSE IF ToSet2(v.vo) # Scope(F) \/ Len(v.vo) # Len(F.vs) \/ \E i \in DOMAIN v.vo : SortSet(ToSet2(v.do[i])) # DomOf(F, v.vo[i])
         THEN {"domain"}
    ELSE IF Len(v.g) # Len(F.t) THEN {"get_value"}
    ELSE LET base == PermObs(F, v.g, v.vo, v.do) IN
      Clause(SeqNear(v.vals, base), "view values")
      \cup Clause(SeqNear(v.vlist, base), "view values_list")
      \cup Clause(SeqNear(v.arr0, base) /\ v.sh0 = Sizes(v.do), "view values_array")
      \cup Clause(SeqNear(v.arr1, PermObs(F, v.g, v.perm, DoFor(v, v.perm))) /\ v.sh1 = Sizes(DoFor(v, v.perm)), "view values_array(order)")
      \cup Clause(/\ Len(v.vdict) = Len(F.t)
                  /\ Cardinality({SetOf(v.vdict[i][1]) : i \in DOMAIN v.vdict}) = Len(F.t)
                  /\ \A i \in DOMAIN v.vdict : /\ {v.vdict[i][1][j][1] : j \in DOMAIN v.vdict[i][1]} = Scope(F)
                                               /\ \A j \in DOMAIN v.vdict[i][1] : Has(DomOf(F, v.vdict[i][1][j][1]), v.vdict[i][1][j][2])
                                               /\ Near(v.vdict[i][2], ObsAt(F, v.g, PairSet(v.vdict[i][1]))), "view values_dict")
      \cup UNION {LET q == ObsAt(F, v.g, PairSet(v.probes[i].asg)) IN
                    Clause(Near(v.probes[i].g, q), "view get_value")
                    \cup Clause(Len(v.probes[i].p) = 2 /\ Near(v.probes[i].p[1], q) /\ Near(v.probes[i].p[2], q), "view prob")
                    \cup Clause(q[1] # 0 \/ q[2] < 0 \/ q[2] > 1000 \/ (q[2] = 0 /\ q[3] = 0) \/ Near(v.probes[i].lp, q), "view log_prob") : i \in DOMAIN v.probes}
      \cup (IF ex /\ v.num THEN Clause(Close(v.sa, NSum(F.t)), "view sum_all")
                              \cup Clause(v.ae = (\A i \in DOMAIN F.t : F.t[i] = F.t[1]), "view all_equal") ELSE {})
      \cup Clause(v.ca = Sizes(v.do) /\ v.cd = Sizes(v.do), "view cardinality")
      \cup Clause(SeqNear(v.copy, base), "view store copy")
      \cup Clause(SeqNear(v.ow, v.g), "copy shares data with the original")
      \cup Clause(SeqNear(v.cw, PermObs(F, [v.g EXCEPT ![AsgPos(F, PairSet(v.wr))] = <<0, 7, 0>>], v.vo, v.do)), "store set_value")
      \cup Clause((ex => v.deg = Degenerate(F)) /\ ((\E i \in DOMAIN v.g : ~Near(v.g[i], <<0, 0, 0>>) /\ ~Near(v.g[i], <<0, 1, 0>>)) => ~v.deg), "view is_degenerate")
TViews(e) == /\ UNCHANGED <<heap, vac, vts>>
             /\ Report(e, IF heap[e.x].k = "none" THEN {} ELSE UNION {ViewClauses(heap[e.x], e.vs[b], e.ex) : b \in DOMAIN e.vs})

RoleClauses(F, r) ==
    IF r.err # "" THEN {"raised"}
    ELSE Clause(SetOf(r.nl) = F.l /\ SetOf(r.nr) = Right(F), "name")
         \cup Clause({<<r.ld[i][1], r.ld[i][2]>> : i \in DOMAIN r.ld} = {<<v, DomOf(F, v)>> : v \in F.l}, "left_domain")
         \cup Clause({<<r.rd[i][1], r.rd[i][2]>> : i \in DOMAIN r.rd} = {<<v, DomOf(F, v)>> : v \in Right(F)}, "right_domain")
         \cup Clause(r.vars = F.vs, "variables")
         \cup Clause(r.ll = Cardinality(F.l) /\ r.lr = Cardinality(Right(F)), "partition")
TRoles(e) == /\ UNCHANGED <<heap, vac, vts>>
             /\ Report(e, IF heap[e.x].k = "none" THEN {} ELSE UNION {RoleClauses(heap[e.x], e.ro[b]) : b \in DOMAIN e.ro})

=============================================================================
