------------------------------- MODULE MC_Eq -------------------------------
(* Structural equations: every function from the states of the parents to   *)
(* the states of a variable, within the bounds, written down as a table of  *)
(* rows in any order of the columns and of the rows.                        *)
EXTENDS ModelApi, Json
CONSTANTS SHAPES, EMIT
VARIABLES sh, out, cols, rows
vars == <<heap, sh, out, cols, rows>>
\* cardinalities: of the variable (1), then of its parents (2, 3, ...)
Shapes == (1 :> <<2>>) @@ (2 :> <<3, 2>>) @@ (3 :> <<2, 3>>) @@ (4 :> <<1, 2>>) @@ (5 :> <<2, 2, 2>>) @@ (6 :> <<3, 1, 2>>) @@ (7 :> <<2, 2, 3>>) @@ (8 :> <<3, 2, 2>>)
Card == Shapes[sh]
D(v) == [j \in 1..Card[v] |-> j]
Pa == [i \in 1..(Len(Card) - 1) |-> i + 1]
DPa == [i \in DOMAIN Pa |-> D(Pa[i])]
NConf == ProdI(Sizes(DPa))
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
Conf(k) == LET n == Sizes(DPa)  s == Strides(n) IN {<<Pa[i], DPa[i][1 + (((k - 1) \div s[i]) % n[i])]>> : i \in DOMAIN Pa}
Init == /\ sh \in SHAPES /\ out \in [1..NConf -> 1..Card[1]] /\ cols \in Perms(1..Len(Card)) /\ rows = <<>> /\ heap = <<>>
\* write the row of configuration k
Used == {rows[i] : i \in DOMAIN rows}
Write(k) == k \notin Used /\ rows' = Append(rows, k) /\ UNCHANGED <<heap, sh, out, cols>>
Next == \E k \in 1..NConf : Write(k)
Spec == Init /\ [][Next]_vars
Written == Len(rows) = NConf
F == DetF(<<1>> \o Pa, <<D(1)>> \o DPa, 1, out)
RowOf(k) == LET c == Conf(k) \cup {<<1, out[k]>>} IN [i \in DOMAIN cols |-> (CHOOSE p \in c : p[1] = cols[i])[2]]
Table == [i \in DOMAIN rows |-> RowOf(rows[i])]
\* the order of the rows and of the columns does not matter
TableOK == Written => RowsF(cols, [i \in DOMAIN cols |-> D(cols[i])], 1, Table) = F
\* a total function: one at the declared state, zero elsewhere
Total == rows = <<>> => /\ Degenerate(F) /\ IsStochastic(F) /\ F.l = {1}
                        /\ \A k \in 1..NConf : /\ ValueOf(F, 1, Conf(k)) = out[k]
                                               /\ \A s \in 1..Card[1] : (FAt(F, Conf(k) \cup {<<1, s>>}) = One) = (s = out[k])
\* the declared order of the variables and of the states does not matter
Declared == rows = <<>> => LET vo == cols  do == [i \in DOMAIN cols |-> Reverse(D(cols[i]))]
                               ps == SelectSeq(cols, LAMBDA v : v # 1)
                               n == [i \in DOMAIN ps |-> Card[ps[i]]]  s == Strides(n)
                               asg(k) == {<<ps[i], Reverse(D(ps[i]))[1 + ((k \div s[i]) % n[i])]>> : i \in DOMAIN ps}
                           IN DetF(vo, do, 1, [k \in 1..NConf |-> ValueOf(F, 1, asg(k - 1))]) = F
\* canonical specification: this function is the one of exactly one state of the exogenous variable
X == Len(Card) + 1
Canonical == (rows = <<>> /\ cols = [i \in DOMAIN cols |-> i]) =>
               LET C == CanonicalF(1, D(1), X, Pa, DPa) IN
               /\ IsStochastic(C) /\ Degenerate(C)
               /\ Len(DomOf(C, X)) = Card[1] ^ NConf
               /\ Cardinality({u \in 1..(Card[1] ^ NConf) : FRestrict(C, {<<X, <<u>>>>}) = F}) = 1
Emit == (EMIT /\ Written) => PrintT(<<"GEN", ToJson([card |-> Card, out |-> out, cols |-> cols, rows |-> Table])>>)
=============================================================================
