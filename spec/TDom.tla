------------------------------- MODULE TDom --------------------------------
(* Recorded calls of the utilities that enumerate and locate assignments.   *)
EXTENDS TData, Domains
Asc(r) == \A i, j \in DOMAIN r : i < j => r[i] < r[j]
\* dictionaries come as sequences of <<variable, states>> in their order
DictOf(vs, st(_)) == [i \in DOMAIN vs |-> <<vs[i], st(vs[i])>>]
DomQ(e, q) ==
    LET vo == e.vo  dd == e.dd
        obs == PairSet(q.obs)
        pos == Positions(vo, dd, obs)
        ok == CASE q.op = "space"  -> q.r = Space(dd)
                [] q.op = "nspace" -> q.r = NumSpace(dd)
                [] q.op = "asg"    -> /\ Len(q.r) = Len(Space(dd))
                                      /\ \A k \in DOMAIN q.r : PairSet(q.r[k]) = Pairs(vo, Space(dd)[k]) /\ Len(q.r[k]) = Len(vo)
                [] q.op = "nasg"   -> /\ Len(q.r) = Len(Space(dd))
                                      /\ \A k \in DOMAIN q.r : PairSet(q.r[k]) = Pairs(vo, NumSpace(dd)[k]) /\ Len(q.r[k]) = Len(vo)
                [] q.op = "steps"  -> q.r = Strides(Cards(dd))
                [] q.op = "stepsd" -> ToSet2(q.r) = {<<vo[i], Strides(Cards(dd))[i]>> : i \in DOMAIN vo} /\ Len(q.r) = Len(vo)
                [] q.op = "index"  -> q.r = pos
                [] q.op = "coord"  -> /\ PairSet(q.r) = {<<p[1], PosIn(StatesIn(vo, dd, p[1]), p[2]) - 1>> : p \in {x \in obs : Has(vo, x[1])}}
                                      /\ Len(q.r) = Cardinality(PairSet(q.r))
                [] q.op = "rdom"   -> q.r = [i \in DOMAIN vo |-> <<vo[i], RestrictDom(vo, dd, obs)[i]>>]
                [] q.op = "num"    -> q.r = [i \in DOMAIN vo |-> <<vo[i], [j \in DOMAIN dd[i] |-> j - 1]>>]
                [] q.op = "sub"    -> q.r = DictOf(q.S, LAMBDA v : StatesIn(vo, dd, v))
                [] q.op = "vpd"    -> \* a variable after its parents (edges: pairs in obs)
                                      /\ LET pa == {p[1] : p \in {x \in obs : x[2] = q.S[1]}} IN
                                         /\ Len(q.r) = Cardinality(pa) + 1
                                         /\ {q.r[i][1] : i \in DOMAIN q.r} = pa \cup {q.S[1]}
                                         /\ q.r[Len(q.r)][1] = q.S[1]
                                      /\ \A i \in DOMAIN q.r : q.r[i][2] = StatesIn(vo, dd, q.r[i][1])
                [] q.op = "rasg"   -> /\ Len(q.r) = Len(vo)
                                      /\ {q.r[i][1] : i \in DOMAIN q.r} = ToSet2(vo)
                                      /\ \A i \in DOMAIN q.r : Has(StatesIn(vo, dd, q.r[i][1]), q.r[i][2])
                [] q.op = "rasgs"  -> \* one for each configuration of the variables S
                                      LET sp == Space([i \in DOMAIN q.S |-> StatesIn(vo, dd, q.S[i])]) IN
                                      /\ Len(q.r) = Len(sp)
                                      /\ \A k \in DOMAIN q.r : /\ [i \in DOMAIN q.r[k] |-> q.r[k][i][1]] = vo
                                                               /\ \A i \in DOMAIN q.r[k] : Has(StatesIn(vo, dd, q.r[k][i][1]), q.r[k][i][2])
                                                               /\ Pairs(q.S, sp[k]) \subseteq PairSet(q.r[k])
                [] q.op = "create" -> q.r = [i \in DOMAIN q.S |-> [j \in 1..q.S[i] |-> q.pre[i] \o ToString(q.first + j - 1)]]
                [] q.op = "pow"    -> /\ Len(q.r) = 2 ^ Len(q.S)
                                      /\ {ToSet2(q.r[i]) : i \in DOMAIN q.r} = SUBSET ToSet2(q.S)
                                      /\ \A i \in DOMAIN q.r : Len(q.r[i]) = Cardinality(ToSet2(q.r[i]))
                [] q.op = "shape"  -> q.r = Reshape(q.vals, Cards(dd))
                [] q.op = "norm"   -> \* the entries over their sum along the variables S
                                      LET F == MkF([i \in DOMAIN dd |-> i], [i \in DOMAIN dd |-> [j \in DOMAIN dd[i] |-> j]], [k \in DOMAIN q.vals |-> <<q.vals[k], 1>>], DOMAIN dd)
                                          G == FDiv(F, FMarg(F, ToSet2(q.S)))
                                      IN Len(q.r) = Len(G.t) /\ \A k \in DOMAIN q.r : Close(q.r[k], G.t[k])
    IN IF q.err # "" THEN {q.op \o " raised"} ELSE Clause(ok, q.op)
TDomE(e) == /\ UNCHANGED heap /\ UNCHANGED <<vac, vts>>
            /\ Report(e, UNION {DomQ(e, e.qs[i]) : i \in DOMAIN e.qs} \cup Clause(e.same, "argument modified"))
=============================================================================
