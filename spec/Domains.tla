------------------------------ MODULE Domains -------------------------------
(* Enumeration of the joint assignments of a domain. A domain lists its     *)
(* variables in a declared order (vo), each with its states (dd); here the  *)
(* order is part of what users see, as lists of values follow it.           *)
EXTENDS Factor
Cards(dd) == [i \in DOMAIN dd |-> Len(dd[i])]
\* the assignments in row-major order: the last variable changes fastest
Space(dd) == LET n == Cards(dd)  s == Strides(n) IN
             [k \in 1..ProdI(n) |-> [i \in DOMAIN dd |-> dd[i][1 + (((k - 1) \div s[i]) % n[i])]]]
NumSpace(dd) == Space([i \in DOMAIN dd |-> [j \in DOMAIN dd[i] |-> j - 1]])
Pairs(vo, row) == {<<vo[i], row[i]>> : i \in DOMAIN vo}
\* the observation (set of pairs) restricts only variables of the domain
Agrees(vo, row, obs) == \A i \in DOMAIN vo : \A p \in obs : p[1] = vo[i] => p[2] = row[i]
\* positions (from 0) of the assignments that agree with the observation, ascending
Positions(vo, dd, obs) == LET sp == Space(dd) IN SelectSeq([k \in DOMAIN sp |-> k - 1], LAMBDA k : Agrees(vo, sp[k + 1], obs))
\* the same computed with strides
StridePositions(vo, dd, obs) ==
    LET n == Cards(dd)  s == Strides(n)
        fixed(i) == {p \in obs : p[1] = vo[i]}
        digits(i) == IF fixed(i) = {} THEN [j \in 1..n[i] |-> j - 1] ELSE <<PosIn(dd[i], (CHOOSE p \in fixed(i) : TRUE)[2]) - 1>>
        sel == Space([i \in DOMAIN dd |-> digits(i)])
    IN [k \in DOMAIN sel |-> SumI([i \in DOMAIN dd |-> sel[k][i] * s[i]])]
RestrictDom(vo, dd, obs) == [i \in DOMAIN vo |-> IF \E p \in obs : p[1] = vo[i] THEN <<(CHOOSE p \in obs : p[1] = vo[i])[2]>> ELSE dd[i]]
StatesIn(vo, dd, v) == dd[PosIn(vo, v)]
\* values listed with the first index fastest, listed with the last index fastest
Reshape(vals, shape) ==
    LET s == Strides(shape)
        f == [i \in DOMAIN shape |-> ProdI(SubSeq(shape, 1, i - 1))]
    IN [k \in DOMAIN vals |-> vals[1 + SumI([i \in DOMAIN shape |-> (((k - 1) \div s[i]) % shape[i]) * f[i]])]]
=============================================================================
