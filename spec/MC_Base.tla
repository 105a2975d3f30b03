------------------------------ MODULE MC_Base ------------------------------
(* Concrete networks over a given graph, for the bounded instances.         *)
EXTENDS ModelApi

Dom(v) == IF v = 2 THEN <<1, 2, 3>> ELSE <<1, 2>>

\* a conditional table of v given its parents, different for every v and p; with zeros
Cpt(e, q, v) ==
    LET vs == SortSet({v} \cup PaOf(e, v))
        d == [i \in DOMAIN vs |-> Dom(vs[i])]
        n == Sizes(d)  s == Strides(n)  N == ProdI(n)
        iv == PosIn(vs, v)
        w(k) == LET j == (k \div s[iv]) % n[iv]
                    c == k - j * s[iv]
                    a == (3 * v + 5 * c + 7 * q + c * c) % 5     \* 0..4
                    b == (v + 3 * c + q) % (5 - a)
                IN IF n[iv] = 2 THEN (IF j = 0 THEN a ELSE 4 - a)
                   ELSE (IF j = 0 THEN a ELSE IF j = 1 THEN b ELSE 4 - a - b)
    IN MkF(vs, d, [k \in 1..N |-> Norm(w(k - 1), 4)], {v})
Model(Nodes, e, q) == [k |-> "m", scm |-> FALSE, nodes |-> Nodes, edges |-> e, endo |-> {}, dom |-> TLCEval([v \in Nodes |-> Dom(v)]),
                fac |-> TLCEval([v \in Nodes |-> Cpt(e, q, v)]), J |-> None, X |-> None]
AllDags(N) == {e \in SUBSET (N \X N) : Acyclic(N, e)}
=============================================================================
