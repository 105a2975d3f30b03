------------------------------ MODULE MC_Trans ------------------------------
(* Transformations of models, composed freely: renaming, copies, submodels, *)
(* interventions, conversion, over every DAG with NN nodes.  The heap       *)
(* machine of ModelApi is run with all its actions; invariants relate every *)
(* model in the heap to the one it came from.                               *)
EXTENDS MC_Base, Json
CONSTANTS NN, PS, DEPTH, EMIT
VARIABLES steps          \* history: <<op, source, argument>>
vars == <<heap, steps>>
Nodes == 1..NN
Init == /\ \E e \in AllDags(Nodes), q \in PS : heap = <<Model(Nodes, e, q)>>
        /\ steps = <<>>
Cur == heap[Len(heap)]
\* renamings: a fresh name, a swap of two variables with the same states, a cycle
Fresh(m) == LET used == m.nodes IN CHOOSE n \in 11..30 : n \notin used
Renames(m) == {{<<v, Fresh(m)>>} : v \in m.nodes}
              \cup {{<<a, b>>, <<b, a>>} : a, b \in {x \in m.nodes : \E y \in m.nodes : x # y /\ m.dom[x] = m.dom[y]}}
SameDom(m, mp) == \A p \in mp : p[2] \in m.nodes => m.dom[p[1]] = m.dom[p[2]]
Inj(mp) == \A p, q \in mp : p # q => p[1] # q[1] /\ p[2] # q[2]
Step(op, arg) == /\ Transform(Len(heap), op, arg, FALSE, FALSE)
                 /\ steps' = Append(steps, <<op, arg>>)
Next == /\ Len(steps) < DEPTH
        /\ LET m == Cur IN
           \/ Step("copy", {})
           \/ \E mp \in Renames(m) : Inj(mp) /\ SameDom(m, mp) /\ Step("rename", mp)
           \/ \E S \in (SUBSET m.nodes) \ {{}} : UpClosure(m.edges, S) = S /\ Step("sub", S)
           \/ \E v \in m.nodes : \E s \in ToSet2(m.dom[v]) : Step("do", {<<v, s>>})
Spec == Init /\ [][Next]_vars
AppendOnly == [][\A i \in DOMAIN heap : heap'[i] = heap[i]]_vars

Proper == \A i \in DOMAIN heap : heap[i].k = "m" => ProperModel(heap[i]) /\ Complete(heap[i])
\* the last step, judged by joint distributions
LastOK == steps = <<>> \/
    LET m == heap[Len(heap) - 1]  n == Cur  st == steps[Len(steps)]
        Jm == JointM(m)  Jn == JointM(n)
        dist(J, S) == Posterior(J, S, {}, {})
    IN CASE st[1] = "copy"   -> n.nodes = m.nodes /\ Jn.f = Jm.f
         [] st[1] = "rename" -> LET D == FRename(dist(Jm, m.nodes), st[2]) IN dist(Jn, n.nodes).t = D.t /\ n.nodes = Scope(D)
         [] st[1] = "sub"    -> n.nodes = st[2] /\ dist(Jn, n.nodes).t = dist(Jm, st[2]).t
         [] st[1] = "do"     -> LET p == CHOOSE x \in st[2] : TRUE IN
                                /\ dist(Jn, {p[1]}).t = ConstantF(p[1], m.dom[p[1]], p[2]).t
                                /\ \A x \in m.nodes : x \notin DownClosure(m.edges, {p[1]}) => dist(Jn, {x}).t = dist(Jm, {x}).t
\* renaming there and back is the identity; renaming commutes with restriction to a submodel
BackOK == \A mp \in Renames(Cur) : (Inj(mp) /\ SameDom(Cur, mp)) =>
            NoJ(RenameM(RenameM(Cur, mp), {<<p[2], p[1]>> : p \in mp})) = NoJ(Cur)
Emit == (EMIT /\ Len(steps) = DEPTH) =>
        PrintT(<<"GEN", ToJson([n |-> NN, edges |-> SetToSeq(heap[1].edges),
                                steps |-> [i \in DOMAIN steps |-> <<steps[i][1], SetToSeq(steps[i][2])>>]])>>)
=============================================================================
