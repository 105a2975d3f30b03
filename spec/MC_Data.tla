------------------------------ MODULE MC_Data ------------------------------
(* Datasets growing row by row, with missing cells: counts, selections and  *)
(* empirical conditionals, on every dataset within the bounds.              *)
EXTENDS FactorApi, Json
CONSTANTS NV,      \* number of variables
          ROWS,    \* number of rows
          MISS,    \* variables that may have missing cells
          EMIT
VARIABLES rows
vars == <<heap, rows>>
V == 1..NV
States(v) == IF v = 2 /\ NV < 3 THEN <<1, 2, 3>> ELSE <<1, 2>>
Cols == [i \in V |-> NV + 1 - i]       \* columns are in another order than the variables
DomSeq(Sx) == LET vs == SortSet(Sx) IN [i \in DOMAIN vs |-> <<vs[i], States(vs[i])>>]
Cells(v) == ToSet2(States(v)) \cup (IF v \in MISS THEN {0} ELSE {})
Init == heap = <<>> /\ rows = <<>>
Next == /\ Len(rows) < ROWS
        /\ \E r \in {f \in [V -> 0..3] : \A v \in V : f[v] \in Cells(Cols[v])} : rows' = Append(rows, r)
        /\ UNCHANGED heap
Spec == Init /\ [][Next]_vars

Subsets == (SUBSET V) \ {{}}
C(Sx) == CountOf(DomSeq(Sx), Cols, rows)
Evs == UNION {{{<<v, s>>} : s \in ToSet2(States(v))} : v \in V} \cup {{<<v, 1>>, <<w, 2>>} : v, w \in V}
OkEvs == {e \in Evs : \A a, b \in e : a[1] = b[1] => a = b}
EvV(e) == {p[1] : p \in e}

\* every row is counted once, in its own cell
Totals == \A Sx \in Subsets : SumI(C(Sx).t) = Len(rows)
OneMore == [][\A Sx \in Subsets : LET r == rows'[Len(rows')]
                                     a == CountOf(DomSeq(Sx), Cols, rows)
                                     b == CountOf(DomSeq(Sx), Cols, rows')
                                     old(x) == IF \A i \in DOMAIN a.vs : Has(a.d[i], (CHOOSE p \in x : p[1] = a.vs[i])[2]) THEN FAt(a, x) ELSE 0
                                     here == {<<v, CellOf(r[ColOf(Cols, v)])>> : v \in Sx}
                                 IN FAt(b, here) = old(here) + 1 /\ SumI(b.t) = SumI(a.t) + 1]_vars
\* counts of fewer variables are sums of counts of more
Marginal == \A A \in Subsets : \A B \in (SUBSET A) \ {{}, A} : LET x == FFold(C(A), A \ B, LAMBDA a, b : a + b)  y == C(B) IN x.vs = y.vs /\ x.d = y.d /\ x.t = y.t
\* the order of the rows does not matter
Swap == Len(rows) >= 2 => LET q == [rows EXCEPT ![1] = rows[2], ![2] = rows[1]] IN \A Sx \in Subsets : CountOf(DomSeq(Sx), Cols, q) = C(Sx)
\* selection: conjunction is repetition; the counts of a selection are the restricted counts
Select == \A e \in OkEvs :
             LET s == Selected(Cols, rows, e) IN
             /\ \A p \in e : Selected(Cols, Selected(Cols, rows, {p}), e \ {p}) = s
             /\ Len(s) = FAt(C(EvV(e)), e)
             /\ \A t \in V \ EvV(e) : LET full == FRestrict(C({t} \cup EvV(e)), {<<p[1], <<p[2]>>>> : p \in e})
                                         part == CountOf(DomSeq({t}), Cols, s)
                                     IN \A i \in DOMAIN part.d[1] : part.t[i] = FAt(full, {<<t, part.d[1][i]>>})
\* frequencies and conditionals
Freq == rows # <<>> => \A Sx \in Subsets : NSum(FreqF(C(Sx)).t) = One
Req(T, Cx, e) == [T |-> SortSet(T), C |-> SortSet(Cx), ev |-> SetToSeq(e), cols |-> Cols, rows |-> rows, dom |-> DomSeq(V)]
Cond == \A T \in Subsets : \A Cx \in SUBSET (V \ T) :
          LET q == Req(T, Cx, {}) IN
          /\ DataOK(q)
          /\ rows # <<>> => LET P == DataAnswer(q) IN
               /\ \A i \in DOMAIN P.t : ~IsBad(P.t[i])
               \* P(T | C) P(C) = P(T, C)
               /\ Cx # {} => FMul(P, FreqF(C(Cx))).t = FreqF(C(T \cup Cx)).t
               /\ Cx = {} => P.t = FreqF(C(T)).t
\* evidence is conditioning at a point (where the evidence occurs and nothing is missing)
Point == \A e \in OkEvs : LET s == Selected(Cols, rows, e) IN
           (s # <<>> /\ \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] : rows[i][j] # 0) =>
             \A t \in V \ EvV(e) : DataAnswer(Req({t}, {}, e)).t = FRestrict(DataAnswer(Req({t}, EvV(e), {})), {<<p[1], <<p[2]>>>> : p \in e}).t
Refusals == \A t \in V : /\ ~DataOK(Req({t}, {}, {<<t, 1>>})) /\ ~DataOK(Req({t}, {t}, {}))
                         /\ ~DataOK([Req({t}, {}, {}) EXCEPT !.T = <<t, t>>]) /\ ~DataOK(Req({NV + 1}, {}, {})) /\ ~DataOK(Req({t}, {}, {<<NV + 1, 1>>}))
Emit == (EMIT /\ Len(rows) = ROWS) => PrintT(<<"GEN", ToJson([cols |-> Cols, rows |-> rows, card |-> [v \in V |-> Len(States(v))]])>>)
=============================================================================
