----------------------------- MODULE MC_Sample -----------------------------
(* Ancestral sampling.  Over every DAG with NN nodes, a row is drawn node   *)
(* by node, in any order in which parents come first; w is the probability  *)
(* of the run so far.  Whatever the order: a partial row has the marginal   *)
(* probability, a complete one the joint probability; every row of the      *)
(* support and no other can be drawn, no run gets stuck.                    *)
EXTENDS MC_Base, Json
CONSTANTS NN, EMIT
VARIABLES E, q, row, w
vars == <<heap, E, q, row, w>>
Nodes == 1..NN
Init == /\ E \in AllDags(Nodes) /\ q \in (IF EMIT THEN {1} ELSE {1, 2}) /\ row = {} /\ w = One /\ heap = <<>>
Done == {p[1] : p \in row}
Ready(v) == v \in Nodes \ Done /\ PaOf(E, v) \subseteq Done
\* the conditional distribution of v given what has been drawn
At(v, r, s) == FAt(Cpt(E, q, v), {p \in r : p[1] \in PaOf(E, v)} \cup {<<v, s>>})
Draw(v, s) == /\ Ready(v) /\ (EMIT \/ At(v, row, s) # Zero)
              /\ row' = row \cup {<<v, s>>} /\ w' = IF EMIT THEN w ELSE NMul(w, At(v, row, s))
              /\ UNCHANGED <<heap, E, q>>
Next == \E v \in Nodes : \E s \in ToSet2(Dom(v)) : Draw(v, s)
Spec == Init /\ [][Next]_vars
\* all complete rows, and their probabilities by the chain rule
Rows == {r \in SUBSET (UNION {{<<v, s>> : s \in ToSet2(Dom(v))} : v \in Nodes}) : Cardinality(r) = NN /\ {p[1] : p \in r} = Nodes}
JointAt(r) == NProd([v \in Nodes |-> At(v, r, (CHOOSE p \in r : p[1] = v)[2])])
Marginal(part) == LET rs == SetToSeq({r \in Rows : part \subseteq r}) IN NSum([i \in DOMAIN rs |-> JointAt(rs[i])])
Weight == w = Marginal(row)
\* the support can be completed, and only the support
Support == /\ w # Zero
           /\ \A r \in Rows : (row \subseteq r /\ JointAt(r) # Zero /\ row # r) =>
                \A v \in Nodes : Ready(v) => At(v, row, (CHOOSE p \in r : p[1] = v)[2]) # Zero
           /\ (Done = Nodes => JointAt(row) # Zero)
NotStuck == Done # Nodes => \E v \in Nodes : Ready(v) /\ \E s \in ToSet2(Dom(v)) : At(v, row, s) # Zero
\* the joint of the specification is the chain rule
ModelJ == Model(Nodes, E, q)
ChainRule == row = {} => LET J == JJ(ModelJ) IN J.ok /\ \A r \in Rows : Norm(FAt(J.f, r), J.den) = JointAt(r)

Emit == (EMIT /\ Done = Nodes) => PrintT(<<"GEN", ToJson([n |-> NN, edges |-> E, row |-> SetToSortSeq(row, LAMBDA a, b : a[1] < b[1])])>>)
=============================================================================
