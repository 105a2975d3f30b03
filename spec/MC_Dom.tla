------------------------------- MODULE MC_Dom -------------------------------
(* Domains grow variable by variable (in any position) and observations     *)
(* variable by variable; every reading of "the assignments in order" agrees.*)
EXTENDS Domains, Json
CONSTANTS MAXV, MAXC, EMIT
VARIABLES vo, dd, obs
vars == <<vo, dd, obs>>
Init == vo = <<>> /\ dd = <<>> /\ obs = {}
AddVar == /\ Len(vo) < MAXV /\ obs = {}
          /\ \E v \in 1..MAXV, c \in 1..MAXC : /\ ~Has(vo, v)
                                               /\ vo' = Append(vo, v)
                                               /\ \E r \in BOOLEAN : dd' = Append(dd, [j \in 1..c |-> IF r THEN c + 1 - j ELSE j])
          /\ UNCHANGED obs
Observe == /\ vo # <<>>
           /\ \E i \in DOMAIN vo : /\ \A p \in obs : p[1] < vo[i]
                                   /\ \E j \in DOMAIN dd[i] : obs' = obs \cup {<<vo[i], dd[i][j]>>}
           /\ UNCHANGED <<vo, dd>>
Next == AddVar \/ Observe
Spec == Init /\ [][Next]_vars
Sp == Space(dd)
\* each assignment exactly once
Complete == /\ Len(Sp) = ProdI(Cards(dd))
            /\ Cardinality(ToSet2(Sp)) = Len(Sp)
            /\ \A k \in DOMAIN Sp : \A i \in DOMAIN dd : Has(dd[i], Sp[k][i])
\* in lexicographic order of the positions of the states
Lex == \A k \in 1..(Len(Sp) - 1) :
        \E i \in DOMAIN dd : /\ \A j \in 1..(i - 1) : Sp[k][j] = Sp[k + 1][j]
                             /\ PosIn(dd[i], Sp[k + 1][i]) = PosIn(dd[i], Sp[k][i]) + 1
                             /\ \A j \in (i + 1)..Len(dd) : PosIn(dd[j], Sp[k][j]) = Len(dd[j]) /\ PosIn(dd[j], Sp[k + 1][j]) = 1
\* locating by strides is the same as filtering
Located == /\ Positions(vo, dd, obs) = StridePositions(vo, dd, obs)
           /\ Len(Positions(vo, dd, obs)) = Len(Space(RestrictDom(vo, dd, obs)))
           /\ \A k \in DOMAIN Positions(vo, dd, obs) : Sp[Positions(vo, dd, obs)[k] + 1] = Space(RestrictDom(vo, dd, obs))[k]
\* numbering commutes with labelling
Numeric == LET N == NumSpace(dd) IN \A k \in DOMAIN Sp : \A i \in DOMAIN dd : dd[i][N[k][i] + 1] = Sp[k][i]
\* reshaping twice, with the shape reversed, is the identity
Twice == LET n == Cards(dd)  ids == [k \in 1..ProdI(n) |-> k]
             back(v) == Reshape(v, Reverse(n))
         IN Len(n) > 0 => back(Reshape(ids, n)) = ids
Emit == (EMIT /\ vo # <<>>) => PrintT(<<"GEN", ToJson([vo |-> vo, dd |-> dd, obs |-> SortSeq(SetToSeq(obs), LAMBDA a, b : a[1] < b[1])])>>)
=============================================================================
