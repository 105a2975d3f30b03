------------------------------ MODULE MC_Miss ------------------------------
(* Learning from data with missing cells, in exact rationals: every graph   *)
(* with NN binary nodes, several parametrisations (with zeros), every pair  *)
(* of rows (any cell may be missing) that the model allows.  The part of a  *)
(* row that is d-connected to the unobserved members of a family decides    *)
(* the posterior of the family; an expectation-maximisation step over all   *)
(* variables with missing cells keeps tables distributions and loses no     *)
(* likelihood; and the fixed-point oracle of Learn agrees.                  *)
EXTENDS Learn, MC_Base, Json
CONSTANTS NN, PS, STEPS, EMIT
VARIABLES E, p, rows, th, it
mvars == <<heap, E, p, rows, th, it>>
Nodes == 1..NN
B2 == <<1, 2>>
\* tables: positive (q odd) or with zeros
Tab(e, q, v) ==
    LET vs == SortSet({v} \cup PaOf(e, v))
        d == [i \in DOMAIN vs |-> B2]
        n == Sizes(d)  s == Strides(n)  N == ProdI(n)
        iv == PosIn(vs, v)
        w(k) == LET j == (k \div s[iv]) % 2
                    c == k - j * s[iv]
                    a == IF q % 2 = 1 THEN 1 + ((3 * v + 5 * c + 7 * q) % 3) ELSE (2 * v + c + q) % 5
                IN IF j = 0 THEN a ELSE 4 - a
    IN [vs |-> vs, d |-> d, t |-> [k \in 1..N |-> Norm(w(k - 1), 4)]]
Start(e, q) == TLCEval([v \in Nodes |-> Tab(e, q, v).t])
WithTh(t) == [k |-> "m", scm |-> FALSE, nodes |-> Nodes, edges |-> E, endo |-> {}, dom |-> [v \in Nodes |-> B2],
              fac |-> TLCEval([v \in Nodes |-> LET b == Tab(E, p, v) IN MkF(b.vs, b.d, t[v], {v})]), J |-> None, X |-> None]
Cfgs == [1..NN -> {0, 1, 2}]
RowEv(r) == {<<i, r[i]>> : i \in {j \in 1..NN : r[j] # 0}}
Total == SumI([i \in DOMAIN rows |-> rows[i].c])
Train == {v \in Nodes : \E i \in DOMAIN rows : rows[i].r[v] = 0}
Fam(v) == {v} \cup PaOf(E, v)

Init == heap = <<>> /\ E \in AllDags(Nodes) /\ p \in PS /\ rows = <<>> /\ th = Start(E, p) /\ it = 0
Load == /\ rows = <<>>
        /\ LET J == JointM(WithTh(th))
               pos == {c \in Cfgs : EvProb(J, RowEv(c)) # 0}
           IN \E a \in pos, b \in pos : \E k \in 1..2 :
                /\ (\E v \in Nodes : a[v] = 0 \/ b[v] = 0)
                /\ rows' = IF a = b THEN <<[r |-> a, c |-> k]>> ELSE <<[r |-> a, c |-> k], [r |-> b, c |-> 1]>>
        /\ UNCHANGED <<heap, E, p, th, it>>
\* posterior weight of every entry of the table of v given a row, from the whole row
RowFam(J, v, r) == \* table over the family; observed members are fixed
    LET ev == RowEv(r)
        vs == SortSet(Fam(v))  n == Len(vs)
        val(k) == LET st == [i \in 1..n |-> 1 + ((k \div Strides([j \in 1..n |-> 2])[i]) % 2)]
                      as == {<<vs[i], st[i]>> : i \in 1..n}
                  IN IF \E x \in as : \E y \in ev : x[1] = y[1] /\ x[2] # y[2] THEN Zero
                     ELSE Norm(EvProb(J, ev \cup as), EvProb(J, ev))
    IN TLCEval([k \in 1..ProdI([j \in 1..n |-> 2]) |-> val(k - 1)])
Counts(t, v) == LET J == JointM(WithTh(t))
                    R == TLCEval([i \in DOMAIN rows |-> RowFam(J, v, rows[i].r)])
                IN TLCEval([s \in DOMAIN t[v] |-> NSum([i \in DOMAIN rows |-> NMul(Norm(rows[i].c, Total), R[i][s])])])
NextTab(t, v) == LET c == Counts(t, v) IN
    TLCEval([s \in DOMAIN c |-> LET g == SortSet(Family(WithTh(t), v, s))  tot == NSum([k \in DOMAIN g |-> c[g[k]]]) IN
                  IF tot = Zero THEN t[v][s] ELSE NDiv(c[s], tot)])
NextTh(t) == TLCEval([v \in Nodes |-> IF v \in Train THEN NextTab(t, v) ELSE t[v]])
Lik(t) == LET J == JointM(WithTh(t)) IN IF ~J.ok THEN Bad ELSE
    NProd([i \in DOMAIN rows |-> LET q == Norm(EvProb(J, RowEv(rows[i].r)), J.den) IN IF rows[i].c = 1 THEN q ELSE NMul(q, q)])
Fine(t) == (\A v \in Nodes : \A s \in DOMAIN t[v] : ~IsBad(t[v][s]) /\ t[v][s][2] < 200) /\ JointM(WithTh(t)).ok
Step == /\ rows # <<>> /\ it < STEPS /\ Fine(NextTh(th))
        /\ th' = NextTh(th) /\ it' = it + 1
        /\ UNCHANGED <<heap, E, p, rows>>
Next == Load \/ Step
Spec == Init /\ [][Next]_mvars

Active == rows # <<>>
\* ---- what a row tells about a family
Rel(r, v) == RowFamily(Nodes, E, Fam(v), {j \in Nodes : r[j] # 0})
SameFamily == Active => \A i \in DOMAIN rows : \A v \in Nodes :
    LET r == rows[i].r  R == Rel(r, v)  J == JointM(WithTh(th)) IN
    RowFam(J, v, r) = RowFam(J, v, [j \in 1..NN |-> IF j \in R THEN r[j] ELSE 0])
\* the posterior of one unobserved variable from its blanket in the row
BlanketOf(r, v) == RowBlanket(Nodes, E, v, {j \in Nodes : r[j] # 0})
SameBlanket == Active => \A i \in DOMAIN rows : \A v \in Nodes :
    LET r == rows[i].r  R == BlanketOf(r, v)  J == JointM(WithTh(th)) IN
    r[v] = 0 => Posterior(J, {v}, {}, RowEv(r)).t = Posterior(J, {v}, {}, RowEv([j \in 1..NN |-> IF j \in R THEN r[j] ELSE 0])).t
\* the blanket represents the row, and whatever represents it (as the library may choose) gives the same posterior
Cols == [j \in 1..NN |-> j]
Representatives == Active => \A i \in DOMAIN rows : \A v \in Nodes :
    LET r == rows[i].r  J == JointM(WithTh(th))  obs == {j \in Nodes : r[j] # 0}
        all == {RowOn(Cols, r, S) : S \in SUBSET obs}
        rep == {o \in all : Represents(Nodes, E, v, Cols, r, o)}
    IN /\ RowOn(Cols, r, BlanketOf(r, v)) \in rep
       /\ (v \notin obs => Cardinality(rep) = 1)
       /\ (v \in obs => \A o \in rep : <<v, r[v]>> \in o)
\* ---- steps
Distribution == \A v \in Nodes : \A s \in DOMAIN th[v] : LET g == SortSet(Family(WithTh(th), v, s)) IN NSum([k \in DOMAIN g |-> th[v][g[k]]]) = One
Monotone == [][(Active /\ it' = it + 1) => LET a == Lik(th)  b == Lik(th') IN IsBad(a) \/ IsBad(b) \/ (NLeq(a, b) /\ a # Zero)]_mvars
\* ---- the oracle
Unit(q) == IF q = One THEN U9 ELSE Dec9(q[1], q[2])
Units(t) == TLCEval([u \in Train |-> TLCEval([s \in DOMAIN t[u] |-> Unit(t[u][s])])])
OracleStep == (Active /\ Train # {}) =>
    LET m == WithTh(th)
        cells == TLCEval(CellsFor(m, Train))
        rs == TLCEval([i \in DOMAIN rows |-> [r |-> rows[i].r, c |-> rows[i].c, ks |-> TLCEval(CellsOfRow(m, cells, [j \in 1..NN |-> j], rows[i].r))]])
        nx == NextTh(th)
    IN (\A u \in Train : \A s \in DOMAIN nx[u] : ~IsBad(nx[u][s]) /\ nx[u][s][2] < 200000000) =>
       \A u \in Train : LET x == EMStep(m, cells, rs, Train, Units(th), u) IN
          x.ok /\ \A s \in DOMAIN x.t : x.e[s] > 0 /\ Abs(x.t[s] - (Unit(nx[u][s]) \div 100)) <= x.e[s]
EmitM == (EMIT /\ Active /\ it = 0) => PrintT(<<"GEN", ToJson([n |-> NN, p |-> p, edges |-> SetToSeq(E), rows |-> rows])>>)
=============================================================================
