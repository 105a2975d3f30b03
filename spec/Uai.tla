-------------------------------- MODULE Uai --------------------------------
(* The uai format as a sequence of numbers (after the label): number of     *)
(* variables, their cardinalities, number of factors, one scope per         *)
(* variable (size, parents, the variable itself), one table per variable    *)
(* (size, values over the scope, last variable fastest; structural          *)
(* equations: over the parents, positions of the states, from 0).           *)
(* Numbers are opaque here: nat(x) reads one as a natural (-1: it is none). *)
EXTENDS ModelApi

\* reading: p = position of the next number; -1 after a failure
UaiFail == [p |-> -1, x |-> <<>>]
TakeNats(tok, p, n, nat(_)) == IF p < 1 \/ n < 0 \/ p + n - 1 > Len(tok) \/ \E i \in p..(p + n - 1) : nat(tok[i]) < 0 THEN UaiFail
                               ELSE [p |-> p + n, x |-> TLCEval([i \in 1..n |-> nat(tok[p + i - 1])])]
TakeVals(tok, p, n) == IF p < 1 \/ n < 0 \/ p + n - 1 > Len(tok) THEN UaiFail ELSE [p |-> p + n, x |-> SubSeq(tok, p, p + n - 1)]
\* n counted groups, the first number of each is its size
TakeGroups(tok, p0, n, nat(_), opaque) ==
    FoldLeft(LAMBDA s, i : LET h == TakeNats(tok, s.p, 1, nat) IN
                           IF h.p < 1 THEN UaiFail
                           ELSE LET g == IF opaque THEN TakeVals(tok, h.p, h.x[1]) ELSE TakeNats(tok, h.p, h.x[1], nat) IN
                                IF g.p < 1 THEN UaiFail ELSE [p |-> g.p, x |-> Append(s.x, g.x)],
             [p |-> p0, x |-> <<>>], [i \in 1..n |-> i])
UaiParse(tok, nat(_)) ==
    LET a == TakeNats(tok, 1, 1, nat) IN
    IF a.p < 1 THEN [ok |-> FALSE] ELSE
    LET n == a.x[1]
        c == TakeNats(tok, a.p, n, nat)
        f == TakeNats(tok, c.p, 1, nat)
        s == IF f.p < 1 THEN UaiFail ELSE TakeGroups(tok, f.p, n, nat, FALSE)
        t == IF s.p < 1 THEN UaiFail ELSE TakeGroups(tok, s.p, n, nat, TRUE)
    IN IF t.p < 1 THEN [ok |-> FALSE]
       ELSE LET sc == [i \in 1..n |-> [j \in DOMAIN s.x[i] |-> s.x[i][j] + 1]]
                ok == /\ f.x[1] = n /\ t.p = Len(tok) + 1
                      /\ \A i \in 1..n : sc[i] # <<>> /\ sc[i][Len(sc[i])] = i /\ \A j \in DOMAIN sc[i] : sc[i][j] \in 1..n
            IN [ok |-> ok, n |-> n, card |-> c.x, sc |-> sc, tab |-> t.x]
\* scope and length of the table of variable i
UaiScope(P, causal, i) == IF causal /\ Len(P.sc[i]) > 1 THEN SubSeq(P.sc[i], 1, Len(P.sc[i]) - 1) ELSE P.sc[i]
UaiSized(P, causal) == \A i \in 1..P.n : Len(P.tab[i]) = ProdI([j \in DOMAIN UaiScope(P, causal, i) |-> P.card[UaiScope(P, causal, i)[j]]])
Iota(n) == [j \in 1..n |-> j]
\* the model that a file denotes: variables 1..n, states 1..card; val(x) reads a number as a rational
UaiModel(P, causal, nat(_), val(_)) ==
    LET N == 1..P.n
        E == UNION {{<<P.sc[i][j], i>> : j \in 1..(Len(P.sc[i]) - 1)} : i \in N}
        fac(i) == LET vo == P.sc[i]  do == [j \in DOMAIN vo |-> Iota(P.card[vo[j]])] IN
                  IF causal /\ Len(vo) > 1 THEN DetF(vo, do, i, [k \in DOMAIN P.tab[i] |-> nat(P.tab[i][k]) + 1])
                  ELSE Canon(vo, do, [k \in DOMAIN P.tab[i] |-> val(P.tab[i][k])], {i})
    IN [k |-> "m", scm |-> causal, nodes |-> N, edges |-> E, endo |-> IF causal THEN {i \in N : Len(P.sc[i]) > 1} ELSE {},
        dom |-> TLCEval([i \in N |-> Iota(P.card[i])]), fac |-> TLCEval([i \in N |-> fac(i)]), J |-> None, X |-> None]

\* writing: variable number i of the file is ord[i], its states in the order sord[i]; par[i]: the parents in the order of the scope.
\* num(k) writes a natural
UaiTokens(m, causal, ord, sord, par, num(_)) ==
    LET n == Len(ord)
        pos(v) == PosIn(ord, v)
        sc(i) == par[i] \o <<ord[i]>>
        cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
        tab(i) == LET eqn == causal /\ par[i] # <<>>
                      vo == IF eqn THEN par[i] ELSE sc(i)
                      do == [j \in DOMAIN vo |-> sord[pos(vo[j])]]
                      nn == Sizes(do)  st == Strides(nn)
                      asg(k) == {<<vo[j], do[j][1 + ((k \div st[j]) % nn[j])]>> : j \in DOMAIN vo}
                      F == m.fac[ord[i]]
                  IN [k \in 1..ProdI(nn) |-> IF ~eqn THEN FAt(F, asg(k - 1))
                                             ELSE num(PosIn(sord[i], CHOOSE s \in ToSet2(sord[i]) : FAt(F, asg(k - 1) \cup {<<ord[i], s>>}) = One) - 1)]
    IN <<num(n)>> \o [i \in 1..n |-> num(Len(sord[i]))] \o <<num(n)>>
       \o cat([i \in 1..n |-> <<num(Len(sc(i)))>> \o [j \in DOMAIN sc(i) |-> num(pos(sc(i)[j]) - 1)]])
       \o cat([i \in 1..n |-> LET t == tab(i) IN <<num(Len(t))>> \o t])
=============================================================================
