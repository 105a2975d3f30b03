-------------------------------- MODULE Data --------------------------------
(* Datasets: sequences of rows with missing cells; counts, selections and   *)
(* the empirical conditional distributions.                                 *)
EXTENDS Causal

MISSING == 99      \* the state under which missing cells are counted

\* ---- datasets: cols a sequence of variables, rows sequences of states aligned with it (0: missing)
ColOf(cols, v) == PosIn(cols, v)
CellOf(s) == IF s = 0 THEN MISSING ELSE s
Selected(cols, rows, ev) == SelectSeq(rows, LAMBDA r : \A p \in ev : r[ColOf(cols, p[1])] = p[2])
\* states counted for v: the declared ones and, if some cell is missing, the missing state
CountStates(cols, rows, v, st) == IF \E i \in DOMAIN rows : rows[i][ColOf(cols, v)] = 0 THEN Append(st, MISSING) ELSE st
\* number of rows per assignment, as an integer factor; dom a sequence of <<variable, ascending states>> in ascending order
CountOf(dom, cols, rows) ==
    LET vs == [i \in DOMAIN dom |-> dom[i][1]]
        d  == TLCEval([i \in DOMAIN dom |-> CountStates(cols, rows, dom[i][1], dom[i][2])])
        n  == Sizes(d)  s == Strides(n)  N == ProdI(n)
        inside(r) == \A i \in DOMAIN vs : Has(d[i], CellOf(r[ColOf(cols, vs[i])]))
        code(r) == 1 + SumI([i \in DOMAIN vs |-> s[i] * (PosIn(d[i], CellOf(r[ColOf(cols, vs[i])])) - 1)])
        codes == TLCEval([k \in DOMAIN rows |-> IF inside(rows[k]) THEN code(rows[k]) ELSE 0])
    IN MkF(vs, d, [x \in 1..N |-> Cardinality({k \in DOMAIN rows : codes[k] = x})], ToSet2(vs))
IntF(F) == [F EXCEPT !.t = TLCEval([i \in DOMAIN F.t |-> <<F.t[i], 1>>])]
FreqF(F) == LET n == SumI(F.t) IN [F EXCEPT !.t = TLCEval([i \in DOMAIN F.t |-> IF n = 0 THEN Bad ELSE Norm(F.t[i], n)])]
\* missing cells can be counted only for variables with textual states
CountDefined(dom, cols, rows, strs) == \A i \in DOMAIN dom : (\E k \in DOMAIN rows : rows[k][ColOf(cols, dom[i][1])] = 0) => dom[i][1] \in strs

\* ---- dependency analysis of rows: which of the recorded variables (obs) matter
\* for the posterior of v: those d-connected to v given the other recorded ones; v alone when it is recorded
RowBlanket(N, E, v, obs) == IF v \in obs THEN {v} ELSE obs \cap DConNodes(N, E, v, obs)
\* for the joint posterior of the variables in F, recorded or not
RowFamily(N, E, F, obs) == obs \cap (F \cup UNION {DConNodes(N, E, h, obs) : h \in F \ obs})
Recorded(cols, r) == {cols[i] : i \in {j \in DOMAIN cols : r[j] # 0}}
RowOn(cols, r, S) == {<<v, r[ColOf(cols, v)]>> : v \in S}
\* observations that represent a row in the analysis of v: the blanket; when the row records v, any part of it with v
Represents(N, E, v, cols, r, o) == LET obs == Recorded(cols, r) IN
    IF v \in obs THEN {<<v, r[ColOf(cols, v)]>>} \subseteq o /\ o \subseteq RowOn(cols, r, obs)
    ELSE o = RowOn(cols, r, RowBlanket(N, E, v, obs))

DataAnswer(e) == LET T == ToSet2(e.T)  C == ToSet2(e.C)
                     sel == Selected(e.cols, e.rows, {<<e.ev[i][1], e.ev[i][2]>> : i \in DOMAIN e.ev})
                     W == CountOf(SelectSeq(e.dom, LAMBDA p : p[1] \in T \cup C), e.cols, sel)
                 IN RatioOf(W, T, C)
DataOK(e) == /\ \A i, j \in DOMAIN e.T : i # j => e.T[i] # e.T[j]
             /\ LET E == {p[1] : p \in {<<e.ev[i][1], e.ev[i][2]>> : i \in DOMAIN e.ev}}  T == ToSet2(e.T)  C == ToSet2(e.C)
                    D == {e.dom[i][1] : i \in DOMAIN e.dom} IN
                /\ (T \cup C) \subseteq D \cap ToSet2(e.cols) /\ E \subseteq ToSet2(e.cols)
                /\ T \cap C = {} /\ T \cap E = {} /\ C \cap E = {}
=============================================================================
