-------------------------------- MODULE Net --------------------------------
(* Probabilistic graphical models over DAGs and their joint distribution.   *)
(* A model is [k |-> "m", scm, nodes, edges, endo, dom, fac]; fac[v] is the *)
(* factor attached to v, or None.  Joint distributions are tables of        *)
(* integer weights (common denominator den), so that posteriors are exact   *)
(* ratios of integers.                                                      *)
EXTENDS Dag

None == [k |-> "none"]

\* integer table of a factor with non-negative rational entries: [den, t]; den = -1 if out of range
LCM(a, b) == a * (b \div GCD(a, b))
IntTab(F) ==
    LET den == FoldLeft(LAMBDA a, q : IF a < 0 \/ IsBad(q) THEN -1 ELSE IF a > 20000 \/ q[2] > 20000 THEN -1 ELSE LCM(a, q[2]), 1, F.t)
    IN IF den < 0 \/ den > 100000 \/ \E i \in DOMAIN F.t : Abs(F.t[i][1]) > 20000 THEN [den |-> -1, t |-> <<>>]
       ELSE [den |-> den, t |-> TLCEval([i \in DOMAIN F.t |-> F.t[i][1] * (den \div F.t[i][2])])]

\* joint of factors fs (a sequence) over variables vs with state lists d: an integer factor plus den
JointOf(vs, d, fs) ==
    LET it  == TLCEval([i \in DOMAIN fs |-> IntTab(fs[i])])
        ok  == (\A i \in DOMAIN fs : it[i].den > 0)
        den == IF ok THEN ProdFits([i \in DOMAIN fs |-> it[i].den]) ELSE -1
        n   == Sizes(d)  s == Strides(n)  N == ProdI(n)
        pos == TLCEval([i \in DOMAIN fs |-> TLCEval([j \in DOMAIN fs[i].vs |-> PosIn(vs, fs[i].vs[j])])])
        st  == TLCEval([i \in DOMAIN fs |-> Strides(Sizes(fs[i].d))])
        cell(k) == LET dg == [i \in DOMAIN vs |-> (k \div s[i]) % n[i]]
                   IN FoldLeft(LAMBDA a, i : IF a = 0 THEN 0
                                             ELSE a * it[i].t[1 + SumI([j \in DOMAIN pos[i] |-> dg[pos[i][j]] * st[i][j]])],
                               1, [i \in DOMAIN fs |-> i])
    IN IF den < 0 THEN [k |-> "j", ok |-> FALSE, den |-> 0, f |-> MkF(<<>>, <<>>, <<0>>, {})]
       ELSE [k |-> "j", ok |-> TRUE, den |-> den, f |-> MkF(vs, d, [x \in 1..N |-> cell(x - 1)], ToSet2(vs))]

JointM(m) == LET vs == SortSet(m.nodes)
             IN JointOf(vs, [i \in DOMAIN vs |-> m.dom[vs[i]]], [i \in DOMAIN vs |-> m.fac[vs[i]]])

IAdd(a, b) == a + b

\* integer weights of the configurations of S that agree with ev (set of <<v, s>>)
WeightsOf(J, S, ev) ==
    LET r == FRestrict(J.f, {<<p[1], <<p[2]>>>> : p \in {q \in ev : q[1] \in Scope(J.f)}})
        R == Scope(r) \ S
    IN IF R = {} THEN r ELSE FFold(r, R, IAdd)

\* ratio of integer weights: conditional of T given C (scope of W is T \cup C)
RatioOf(W, T, C) ==
    LET D == IF T = {} THEN W ELSE FFold(W, T, IAdd)
        n == Sizes(W.d)  s == Strides(n)  m == Mult(D, W.vs)
        total == SumI(D.t)
        val(k) == LET a == W.t[k]
                      b == D.t[1 + Flat(k - 1, s, n, m)]
                  IN IF total = 0 THEN Bad ELSE IF b = 0 THEN Zero ELSE Norm(a, b)
    IN MkF(W.vs, W.d, [k \in DOMAIN W.t |-> val(k)], T)

UnknownOver(vs, d, l) == MkF(vs, d, [k \in 1..SizeOf(d) |-> Bad], l)

\* the exact answer of a probabilistic query; all entries Bad when P(ev) = 0
Posterior(J, T, C, ev) ==
    IF ~J.ok THEN LET vs == SortSet(T \cup C) IN [k |-> "f", vs |-> vs, d |-> <<>>, t |-> <<>>, l |-> T]
    ELSE RatioOf(WeightsOf(J, T \cup C, ev), T, C)

EvProb(J, ev) == IF ~J.ok THEN 0 ELSE WeightsOf(J, {}, ev).t[1]

\* ---- well-formedness of factors for a model (the rule behind set_factor)
KnownDoms(m, v, except) == {m.fac[x].d[PosIn(m.fac[x].vs, v)] :
                               x \in {y \in m.nodes : m.fac[y].k = "f" /\ y # except /\ v \in Scope(m.fac[y])}}
                           \cup (IF m.dom[v] = <<>> THEN {} ELSE {m.dom[v]})
FactorFits(m, v, F) ==
    /\ v \in m.nodes
    /\ Right(F) = PaOf(m.edges, v)
    /\ F.l = {v}
    /\ \A x \in Scope(F) : \A dd \in KnownDoms(m, x, v) : ToSet2(dd) = ToSet2(DomOf(F, x))
    /\ (m.scm /\ v \in m.endo) => Degenerate(F)

Attach(m, v, F) == [m EXCEPT !.fac[v] = F, !.dom[v] = IF @ = <<>> THEN DomOf(F, v) ELSE @]

Complete(m) == \A v \in m.nodes : m.fac[v].k = "f"

\* a complete model is a proper factorisation over its graph
ProperModel(m) == /\ Acyclic(m.nodes, m.edges)
                  /\ \A v \in m.nodes : LET F == m.fac[v] IN
                        F.k = "f" => /\ F.l = {v}
                                     /\ Right(F) = PaOf(m.edges, v)
                                     /\ \A x \in Scope(F) : m.dom[x] # <<>> => DomOf(F, x) = m.dom[x]
=============================================================================
