------------------------------- MODULE Learn -------------------------------
(* Parameter learning from data.  Parameters of learnt models are real      *)
(* numbers, so this module works on the recorded values themselves, in      *)
(* units of 10^-9 (fixed point), with explicit error bounds: a step of      *)
(* expectation-maximisation is a relation between two parameter tables and  *)
(* the data; a likelihood is a sum of logarithms.                           *)
EXTENDS ModelApi

U9 == 1000000000
\* a*b/10^9 for 0 <= a, b <= 10^9 (error below 5 units); -1 is contagious
MulUnit(a, b) ==
    IF a < 0 \/ b < 0 THEN -1
    ELSE IF b = U9 THEN a ELSE IF a = U9 THEN b ELSE IF a = 0 \/ b = 0 THEN 0
    ELSE LET a1 == a \div 100000  a0 == a % 100000
             b1 == b \div 100000  b0 == b % 100000
         IN a1 * b1 * 10 + (a1 * b0 + a0 * b1) \div 10000 + ((a0 \div 100) * (b0 \div 100)) \div 100000
\* recorded number in [0, 1] as units; tiny excursions below 0 and above 1 are rounding
UnitOf(x) == IF x[1] # 0 THEN -1
             ELSE IF x[2] = 0 THEN x[3]
             ELSE IF x[2] = 1 /\ x[3] < 1000000 THEN U9
             ELSE IF x[2] = -1 /\ x[3] > 999000000 THEN 0
             ELSE -1

\* n/d in units of 10^-7, for 0 <= n <= d <= 10^9 (+ rounding)
Ratio7(n, d) == IF n >= d THEN 10000000 ELSE Dec9(n \div 10, (d \div 10) + 1) \div 100

\* -ln(x/10^9) in units of 10^-6, for 1 <= x <= 10^9
RECURSIVE Scale2(_, _)
Scale2(x, k) == IF x >= 500000000 THEN <<x, k>> ELSE Scale2(2 * x, k + 1)
NegLn(x) ==
    LET sc == Scale2(x, 0)
        m == sc[1]
        z == Dec9((U9 - m) \div 10, (U9 + m) \div 10)
        z2 == MulUnit(z, z)
        pw == FoldLeft(LAMBDA s, i : <<MulUnit(s[1], z2), s[2] + MulUnit(s[1], z2) \div (2 * i + 1)>>, <<z, z>>, <<1, 2, 3, 4, 5, 6, 7>>)
    IN (2 * pw[2]) \div 1000 + sc[2] * 693147

\* ---- the cells of a model: for each full assignment (positions) its row; used with changing parameters
\* cells that the fixed (non-trainable) factors exclude are dropped
CellsFor(m, train) ==
    LET vs == SortSet(m.nodes)
        d == [i \in DOMAIN vs |-> m.dom[vs[i]]]
        n == Sizes(d)  s == Strides(n)  N == ProdI(n)
        fixed == SelectSeq(vs, LAMBDA v : v \notin train)
        st == TLCEval([v \in m.nodes |-> LET F == m.fac[v]  t == Strides(Sizes(F.d)) IN
                          TLCEval([i \in DOMAIN vs |-> IF Has(F.vs, vs[i]) THEN t[PosIn(F.vs, vs[i])] ELSE 0])])
        val(v, dg) == m.fac[v].t[1 + SumI([i \in DOMAIN vs |-> dg[i] * st[v][i]])]
        \* weight of the fixed part, units
        fixw(dg) == FoldLeft(LAMBDA a, v : IF a = 0 THEN 0 ELSE LET q == val(v, dg) IN
                                  IF q = Zero THEN 0 ELSE IF q = One THEN a
                                  ELSE MulUnit(a, Dec9(q[1], q[2])), U9, fixed)
        cell(k) == LET dg == TLCEval([i \in DOMAIN vs |-> ((k - 1) \div s[i]) % n[i]])
                   IN [w |-> fixw(dg), dg |-> dg,
                       ix |-> TLCEval([v \in train |-> 1 + SumI([i \in DOMAIN vs |-> dg[i] * st[v][i]])])]
    IN SelectSeq([k \in 1..N |-> TLCEval(cell(k))], LAMBDA c : c.w # 0)

\* data: sequence of [r |-> states of obs (a sequence of variables), c |-> multiplicity]; per distinct row the compatible cells
\* (state 0: the cell is missing)
CellsOfRow(m, cells, obs, r) ==
    LET vs == SortSet(m.nodes)
        seen == SelectSeq([i \in DOMAIN obs |-> i], LAMBDA i : r[i] # 0)
        pos == TLCEval([j \in DOMAIN seen |-> <<PosIn(vs, obs[seen[j]]), PosIn(m.dom[obs[seen[j]]], r[seen[j]]) - 1>>])
    IN SelectSeq([k \in DOMAIN cells |-> k], LAMBDA k : \A i \in DOMAIN pos : cells[k].dg[pos[i][1]] = pos[i][2])

\* th: for each trainable variable its table in units (canonical order). weight of a cell
CellW(c, train, th) == FoldLeft(LAMBDA a, v : MulUnit(a, th[v][c.ix[v]]), c.w, SortSet(train))

RowDen(cells, ks, W) == SumI([i \in DOMAIN ks |-> W[ks[i]]])
\* entries of u's table with the same configuration of the parents as entry s
Family(m, u, s) == LET F == m.fac[u]
                       st == Strides(Sizes(F.d))[PosIn(F.vs, u)]  n == Len(m.dom[u])
                       base == (s - 1) - (((s - 1) \div st) % n) * st
                   IN {1 + base + k * st : k \in 0..(n - 1)}
IsRoot(m, u) == Scope(m.fac[u]) = {u}
\* one exact step for the table of u, in units of 10^-7: t the new table, e the error bound of each entry (-1: not decided).
\* Rows are completed with the posterior of u and its parents; configurations of the parents that no row allows keep
\* their distribution.
EMStep(m, cells, rows, train, th, u) ==
    LET W == TLCEval([k \in DOMAIN cells |-> CellW(cells[k], train, th)])
        N == SumI([i \in DOMAIN rows |-> rows[i].c])
        den == TLCEval([i \in DOMAIN rows |-> RowDen(cells, rows[i].ks, W)])
        size == Len(m.fac[u].t)  n == Len(m.dom[u])
        one(i, s) == LET ks == SelectSeq(rows[i].ks, LAMBDA k : cells[k].ix[u] = s)
                     IN Ratio7(RowDen(cells, ks, W), den[i]) * rows[i].c
        bad == \E i \in DOMAIN rows : den[i] < 200000
        \* error: each weight is off by a few units per factor and cell
        eps(i) == (Len(rows[i].ks) * 8 * (Cardinality(m.nodes) + 1) * 10000) \div (den[i] \div 1000)
        J == TLCEval([s \in 1..size |-> SumI([i \in DOMAIN rows |-> one(i, s)]) \div N])
        err == 4 + (2 * SumI([i \in DOMAIN rows |-> eps(i) * rows[i].c])) \div N
        possible(k) == \A v \in train : th[v][cells[k].ix[v]] # 0
        fam == TLCEval([s \in 1..size |-> Family(m, u, s)])
        tot == TLCEval([s \in 1..size |-> SumI([k \in 1..n |-> J[SortSet(fam[s])[k]]])])
        empty(s) == \A i \in DOMAIN rows : \A k \in ToSet2(rows[i].ks) : cells[k].ix[u] \in fam[s] => ~possible(k)
        r(s) == tot[s] \div (err * (n + 1))
    IN IF bad THEN [ok |-> FALSE, t |-> <<>>, e |-> <<>>]
       ELSE IF IsRoot(m, u) THEN [ok |-> TRUE, t |-> J, e |-> [s \in 1..size |-> IF err > 100000 THEN -1 ELSE err]]
       ELSE [ok |-> TRUE,
             t |-> TLCEval([s \in 1..size |-> IF empty(s) THEN th[u][s] \div 100 ELSE IF J[s] >= tot[s] THEN 10000000 ELSE Dec9(J[s], tot[s]) \div 100]),
             e |-> TLCEval([s \in 1..size |-> IF empty(s) THEN 1 ELSE IF r(s) < 100 THEN -1 ELSE 20 + 10000000 \div r(s)])]

\* negative log-likelihood of the data, units of 10^-6 (-1 when some row is impossible)
NegLL(m, cells, rows, train, th) ==
    LET W == TLCEval([k \in DOMAIN cells |-> CellW(cells[k], train, th)])
        den == TLCEval([i \in DOMAIN rows |-> RowDen(cells, rows[i].ks, W)])
    IN IF \E i \in DOMAIN rows : den[i] <= 0 THEN -1
       ELSE SumI([i \in DOMAIN rows |-> rows[i].c * NegLn(Min2(den[i], U9))])
\* bound on its error
NegLLErr(m, cells, rows, train, th) ==
    LET W == TLCEval([k \in DOMAIN cells |-> CellW(cells[k], train, th)])
        den == TLCEval([i \in DOMAIN rows |-> RowDen(cells, rows[i].ks, W)])
        eps(i) == 40 + (Len(rows[i].ks) * 8 * (Cardinality(m.nodes) + 1) * 1000) \div Max2(1, den[i] \div 1000)
    IN SumI([i \in DOMAIN rows |-> rows[i].c * eps(i)])
=============================================================================
