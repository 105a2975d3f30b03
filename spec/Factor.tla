------------------------------- MODULE Factor -------------------------------
(* Discrete conditional factors as mathematical functions.                  *)
(*   vs : the variables (naturals), ascending                               *)
(*   d  : for each of them its states (naturals), ascending                 *)
(*   t  : the values, row-major in the order of vs and d                    *)
(*   l  : the set of left variables (the others are right)                  *)
(* Variables and states are identities, never positions: nothing here       *)
(* depends on the order in which the implementation lists either.           *)
EXTENDS Num

ToSet2(s) == {s[i] : i \in DOMAIN s}
SortSet(S) == SetToSortSeq(S, <)
PosIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Has(s, x) == \E i \in DOMAIN s : s[i] = x

Sizes(d) == TLCEval([i \in DOMAIN d |-> Len(d[i])])
Strides(n) == TLCEval([i \in DOMAIN n |-> ProdI(SubSeq(n, i + 1, Len(n)))])
SizeOf(d) == ProdI(Sizes(d))
\* digit (0-based) of flat index k (0-based)
Digit(k, s, n) == (k \div s) % n

Scope(F) == ToSet2(F.vs)
Right(F) == Scope(F) \ F.l
DomOf(F, v) == F.d[PosIn(F.vs, v)]

MkF(vs, d, t, l) == [k |-> "f", vs |-> vs, d |-> TLCEval(d), t |-> TLCEval(t), l |-> l]
ConstF(q) == MkF(<<>>, <<>>, <<q>>, {})

\* multipliers that take digits over (vs) to flat indices of F; absent variables count 0
Mult(F, vs) == LET st == Strides(Sizes(F.d))
               IN TLCEval([i \in DOMAIN vs |-> IF Has(F.vs, vs[i]) THEN st[PosIn(F.vs, vs[i])] ELSE 0])

\* flat index (0-based) in a table with multipliers m of the k-th cell of a table with strides s, sizes n
Flat(k, s, n, m) == SumI([i \in DOMAIN s |-> IF m[i] = 0 THEN 0 ELSE ((k \div s[i]) % n[i]) * m[i]])

Combine(F, G, op(_, _), l) ==
    LET vs == SortSet(Scope(F) \cup Scope(G))
        d  == TLCEval([i \in DOMAIN vs |-> IF Has(F.vs, vs[i]) THEN DomOf(F, vs[i]) ELSE DomOf(G, vs[i])])
        n  == Sizes(d)
        s  == Strides(n)
        mF == Mult(F, vs)
        mG == Mult(G, vs)
        N  == ProdI(n)
    IN MkF(vs, d, [k \in 1..N |-> op(F.t[1 + Flat(k-1, s, n, mF)], G.t[1 + Flat(k-1, s, n, mG)])], l)

\* operands are compatible when shared variables have the same states
Compatible(F, G) == \A v \in Scope(F) \cap Scope(G) : DomOf(F, v) = DomOf(G, v)

FMul(F, G) == Combine(F, G, NMul, F.l \cup G.l)
FAdd(F, G) == Combine(F, G, NAdd, F.l \cup G.l)
FSub(F, G) == Combine(F, G, NSub, F.l \cup G.l)
FDiv(F, G) == Combine(F, G, NDiv, F.l \ Scope(G))

\* obs : a set of <<variable, sequence of states>>; single states drop the variable
FRestrict(F, obs) ==
    LET st(v) == {p \in obs : p[1] = v}
        keepSt(v) == IF st(v) = {} THEN DomOf(F, v)
                     ELSE LET S == ToSet2((CHOOSE p \in st(v) : TRUE)[2])
                          IN SelectSeq(DomOf(F, v), LAMBDA x : x \in S)
        fixed(v) == st(v) # {} /\ Cardinality(ToSet2((CHOOSE p \in st(v) : TRUE)[2])) = 1
        vs == SelectSeq(F.vs, LAMBDA v : ~fixed(v))
        d  == TLCEval([i \in DOMAIN vs |-> keepSt(vs[i])])
        n  == Sizes(d)
        s  == Strides(n)
        N  == ProdI(n)
        stF == Strides(Sizes(F.d))
        base == SumI([i \in DOMAIN F.vs |->
                   IF fixed(F.vs[i]) THEN stF[i] * (PosIn(F.d[i], keepSt(F.vs[i])[1]) - 1) ELSE 0])
        posF == TLCEval([i \in DOMAIN vs |-> PosIn(F.vs, vs[i])])
        map  == TLCEval([i \in DOMAIN vs |-> TLCEval([j \in DOMAIN d[i] |-> (PosIn(F.d[posF[i]], d[i][j]) - 1) * stF[posF[i]]])])
        idx(k) == base + SumI([i \in DOMAIN vs |-> map[i][1 + ((k \div s[i]) % n[i])]])
    IN MkF(vs, d, [k \in 1..N |-> F.t[1 + idx(k-1)]], F.l \cap ToSet2(vs))

\* fold away the variables in R with an associative operation
FFold(F, R, op(_, _)) ==
    LET vs == SelectSeq(F.vs, LAMBDA v : v \notin R)
        rs == SelectSeq(F.vs, LAMBDA v : v \in R)
        stF == Strides(Sizes(F.d))
        d  == TLCEval([i \in DOMAIN vs |-> DomOf(F, vs[i])])
        dr == TLCEval([i \in DOMAIN rs |-> DomOf(F, rs[i])])
        n  == Sizes(d)   s  == Strides(n)   N == ProdI(n)
        nr == Sizes(dr)  sr == Strides(nr)  NR == ProdI(nr)
        m  == TLCEval([i \in DOMAIN vs |-> stF[PosIn(F.vs, vs[i])]])
        mr == TLCEval([i \in DOMAIN rs |-> stF[PosIn(F.vs, rs[i])]])
        offs == TLCEval([j \in 1..NR |-> Flat(j-1, sr, nr, mr)])
        cell(k) == LET b == 1 + Flat(k, s, n, m)
                   IN FoldLeft(LAMBDA a, o : op(a, F.t[b + o]), F.t[b + offs[1]], SubSeq(offs, 2, NR))
    IN MkF(vs, d, [k \in 1..N |-> cell(k-1)], F.l \cap ToSet2(vs))

FMarg(F, R) == IF R \cap Scope(F) = {} THEN F ELSE FFold(F, R, NAdd)
FMax(F, R)  == IF R \cap Scope(F) = {} THEN F ELSE FFold(F, R, NMax)

\* permutation to canonical order of a table given in the order vo (variables) and do (states)
Canon(vo, do, vals, l) ==
    LET vs == SortSet(ToSet2(vo))
        p  == TLCEval([i \in DOMAIN vs |-> PosIn(vo, vs[i])])
        d  == TLCEval([i \in DOMAIN vs |-> SortSet(ToSet2(do[p[i]]))])
        stO == Strides(Sizes(do))
        n  == Sizes(d)  s == Strides(n)  N == ProdI(n)
        map == TLCEval([i \in DOMAIN vs |-> TLCEval([j \in DOMAIN d[i] |-> (PosIn(do[p[i]], d[i][j]) - 1) * stO[p[i]]])])
        idx(k) == SumI([i \in DOMAIN vs |-> map[i][1 + ((k \div s[i]) % n[i])]])
    IN MkF(vs, d, [k \in 1..N |-> vals[1 + idx(k-1)]], l)

\* mp : a set of <<old, new>>
FRename(F, mp) ==
    LET nm(v) == IF \E p \in mp : p[1] = v THEN (CHOOSE p \in mp : p[1] = v)[2] ELSE v
        vo == TLCEval([i \in DOMAIN F.vs |-> nm(F.vs[i])])
    IN Canon(vo, F.d, F.t, {nm(v) : v \in F.l})

\* value at a full assignment asg : a set of <<variable, state>> (others irrelevant)
FAt(F, asg) == LET r == FRestrict(F, {<<p[1], <<p[2]>>>> : p \in {q \in asg : q[1] \in Scope(F)}}) IN r.t[1]

\* sums over the left variables for each right configuration
IsStochastic(F) == \A i \in DOMAIN FMarg(F, F.l).t : LET x == FMarg(F, F.l).t[i] IN IsBad(x) \/ x = One

Degenerate(F) == \A i \in DOMAIN F.t : F.t[i] = Zero \/ F.t[i] = One
=============================================================================
