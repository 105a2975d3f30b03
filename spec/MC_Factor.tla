----------------------------- MODULE MC_Factor -----------------------------
(* The factor machine of FactorApi over a catalogue of factors: every pair  *)
(* of scopes and roles, then every operation with every argument, DEPTH     *)
(* times.  The table operators are compared with arithmetic on functions of *)
(* assignments (written without tables, strides or orders), and the laws    *)
(* that make chains of operations meaningful are checked on every heap.     *)
EXTENDS FactorApi, Json
CONSTANTS VMAX,      \* variables 1..VMAX
          ALLROLES,  \* every set of left variables (else two per scope)
          DEPTH, EMIT
VARIABLES steps
vars == <<heap, steps>>
Vars == 1..VMAX
FDom(v) == IF v = 2 THEN <<1, 2, 3>> ELSE <<1, 2>>
\* values -1, 0, 1, 2, 3 halves; q = 1: no negative ones
Entry(k, q) == IF q = 1 THEN Norm((k * k + 2 * k) % 4, 2) ELSE Norm(((k * 3 + k * k) % 5) - 1, 2)
Fact(S, L, q) == LET vs == SortSet(S)  d == [i \in DOMAIN vs |-> FDom(vs[i])]
                 IN MkF(vs, d, [k \in 1..SizeOf(d) |-> Entry(k, q)], L)
LeftSets(S) == IF ALLROLES THEN SUBSET S ELSE {S} \cup (IF S = {} THEN {} ELSE {{CHOOSE v \in S : \A w \in S : v <= w}})
Scopes == {<<S, L>> \in (SUBSET Vars) \X (SUBSET Vars) : L \in LeftSets(S)}

Init == /\ \E a, b \in Scopes : heap = <<Fact(a[1], a[2], 1), Fact(b[1], b[2], 2)>>
        /\ steps = <<>>
Fresh(F) == CHOOSE v \in 11..20 : v \notin Scope(F)
Same(F, v, w) == DomOf(F, v) = DomOf(F, w)
Renamings(F) == {{<<v, Fresh(F)>>} : v \in Scope(F)} \cup {{<<v, w>>, <<w, v>>} : v, w \in {x \in Scope(F) : \E y \in Scope(F) : x # y /\ Same(F, x, y)}}
GoodRen(F, mp) == \A p \in mp : p[2] \in Scope(F) => (p[1] # p[2] /\ Same(F, p[1], p[2]))
\* observations: one state, or the first two, for some of the variables; and one of a variable the factor does not have
Obs(F) == UNION {[S -> {<<1>>, <<2>>, <<1, 2>>}] : S \in (SUBSET Scope(F)) \ {{}}}
ObsOf(o) == {<<v, o[v]>> : v \in DOMAIN o}
Do(st) == steps' = Append(steps, st)
Next == /\ Len(steps) < DEPTH
        /\ LET n == Len(heap)  F == heap[n] IN
           \/ \E op \in {"mul", "add", "sub", "div"}, j \in 1..n : \E rev \in {FALSE, TRUE} :
                 LET x == IF rev THEN j ELSE n  y == IF rev THEN n ELSE j IN
                 /\ (rev => j # n) /\ Bin(op, x, y) /\ Do([a |-> "bin", op |-> op, x |-> x, y |-> y])
           \/ \E op \in {"mul", "add", "sub", "div"}, rev \in {FALSE, TRUE} :
                 Scal(op, n, <<3, 2>>, rev) /\ Do([a |-> "scal", op |-> op, x |-> n, rev |-> rev])
           \/ \E o \in Obs(F) : Restr(n, ObsOf(o)) /\ Do([a |-> "restr", x |-> n, obs |-> SetToSeq(ObsOf(o))])
           \/ \E op \in {"marg", "max"}, R \in (SUBSET Scope(F)) \ {{}} : FoldVars(op, n, R) /\ Do([a |-> "fold", op |-> op, x |-> n, rem |-> SetToSeq(R)])
           \/ \E mp \in Renamings(F) : GoodRen(F, mp) /\ Ren(n, mp) /\ Do([a |-> "ren", x |-> n, mp |-> SetToSeq(mp)])
           \/ n >= 2 /\ CombineAll([i \in 1..n |-> i]) /\ Do([a |-> "comb", xs |-> [i \in 1..n |-> i]])
CompatibleHeap == \A i, j \in DOMAIN heap : Compatible(heap[i], heap[j])
Bounded == CompatibleHeap \/ Len(steps) = DEPTH
\* a call never changes an object that exists
AppendOnly == [][\A i \in DOMAIN heap : heap'[i] = heap[i]]_vars
Spec == Init /\ [][Next]_vars

\* ---- functions of assignments
Asgs(F) == {a \in [Scope(F) -> 1..3] : \A v \in Scope(F) : \E i \in DOMAIN DomOf(F, v) : DomOf(F, v)[i] = a[v]}
RECURSIVE IndexOf(_, _, _)
IndexOf(F, a, i) == IF i > Len(F.vs) THEN 0       \* position of a in the table, by Horner's rule
                    ELSE (PosIn(F.d[i], a[F.vs[i]]) - 1) * ProdI([j \in 1..(Len(F.vs) - i) |-> Len(F.d[i + j])]) + IndexOf(F, a, i + 1)
At(F, a) == F.t[1 + IndexOf(F, a, 1)]
Cut(a, S) == [v \in S |-> a[v]]
Eqv(a, b) == IsBad(a) \/ IsBad(b) \/ a = b
RECURSIVE SumOver(_, _), MaxOver(_, _)
SumOver(F, A) == IF A = {} THEN Zero ELSE LET a == CHOOSE x \in A : TRUE IN NAdd(At(F, a), SumOver(F, A \ {a}))
MaxOver(F, A) == LET a == CHOOSE x \in A : TRUE IN IF A = {a} THEN At(F, a) ELSE NMax(At(F, a), MaxOver(F, A \ {a}))
WellFormed(F) == /\ F.l \subseteq Scope(F) /\ Len(F.t) = SizeOf(F.d) /\ \A i \in 1..(Len(F.vs) - 1) : F.vs[i] < F.vs[i + 1]
                 /\ Cardinality(Asgs(F)) = Len(F.t)
HeapOK == \A i \in DOMAIN heap : WellFormed(heap[i])
Op(op, a, b) == CASE op = "mul" -> NMul(a, b) [] op = "add" -> NAdd(a, b) [] op = "sub" -> NSub(a, b) [] OTHER -> NDiv(a, b)
FoldAll(f(_, _), x, S) == FoldSet(LAMBDA i, acc : f(acc, i), x, S)
Q32 == <<3, 2>>
\* what the last call returned, assignment by assignment
LastOK == steps = <<>> \/
    LET st == steps[Len(steps)]  R == heap[Len(heap)] IN
    CASE st.a = "bin" -> LET F == heap[st.x]  G == heap[st.y] IN
            /\ Scope(R) = Scope(F) \cup Scope(G)
            /\ \A a \in Asgs(R) : Eqv(At(R, a), Op(st.op, At(F, Cut(a, Scope(F))), At(G, Cut(a, Scope(G)))))
            /\ Right(R) = IF st.op = "div" THEN Right(F) \cup Scope(G) ELSE Scope(R) \ (F.l \cup G.l)
      [] st.a = "scal" -> LET F == heap[st.x] IN
            /\ Scope(R) = Scope(F) /\ (st.op # "div" \/ ~st.rev => R.l = F.l)
            /\ \A a \in Asgs(R) : Eqv(At(R, a), IF st.rev THEN Op(st.op, Q32, At(F, a)) ELSE Op(st.op, At(F, a), Q32))
      [] st.a = "comb" -> LET XS == {heap[i] : i \in 1..(Len(heap) - 1)} IN
            /\ Scope(R) = UNION {Scope(F) : F \in XS}
            /\ \A a \in Asgs(R) : Eqv(At(R, a), FoldLeft(LAMBDA p, i : NMul(p, At(heap[i], Cut(a, Scope(heap[i])))), One, st.xs))
      [] st.a = "restr" -> LET F == heap[st.x]  ob == [v \in {st.obs[i][1] : i \in DOMAIN st.obs} |-> (CHOOSE p \in ToSet2(st.obs) : p[1] = v)[2]] IN
            /\ Scope(R) = Scope(F) \ {v \in DOMAIN ob : Len(ob[v]) = 1} /\ R.l = F.l \cap Scope(R)
            /\ \A v \in Scope(R) : DomOf(R, v) = IF v \in DOMAIN ob THEN SelectSeq(DomOf(F, v), LAMBDA s : Has(ob[v], s)) ELSE DomOf(F, v)
            /\ \A a \in Asgs(R) : At(R, a) = At(F, [v \in Scope(F) |-> IF v \in Scope(R) THEN a[v] ELSE ob[v][1]])
      [] st.a = "fold" -> LET F == heap[st.x]  S == ToSet2(st.rem) IN
            /\ Scope(R) = Scope(F) \ S /\ R.l = F.l \ S
            /\ \A a \in Asgs(R) : LET A == {b \in Asgs(F) : Cut(b, Scope(R)) = a} IN
                  Eqv(At(R, a), IF st.op = "marg" THEN SumOver(F, A) ELSE MaxOver(F, A))
      [] OTHER -> LET F == heap[st.x]  mp == ToSet2(st.mp)
                      nm(v) == IF \E p \in mp : p[1] = v THEN (CHOOSE p \in mp : p[1] = v)[2] ELSE v IN
            /\ Scope(R) = {nm(v) : v \in Scope(F)} /\ R.l = {nm(v) : v \in F.l}
            /\ \A a \in Asgs(R) : At(R, a) = At(F, [v \in Scope(F) |-> a[nm(v)]])

\* ---- laws, on the first two factors and the last one
SameTab(F, G) == F.vs = G.vs /\ F.d = G.d /\ \A i \in DOMAIN F.t : Eqv(F.t[i], G.t[i])
SameF(F, G) == SameTab(F, G) /\ F.l = G.l
Laws == CompatibleHeap =>
    LET F == heap[1]  G == heap[2]  H == heap[Len(heap)] IN
    /\ SameF(FMul(F, G), FMul(G, F)) /\ SameF(FAdd(F, G), FAdd(G, F))
    /\ SameF(FMul(FMul(F, G), H), FMul(F, FMul(G, H)))
    /\ SameTab(FMul(F, FAdd(G, H)), FAdd(FMul(F, G), FMul(F, H)))
    /\ SameTab(FSub(FAdd(F, G), G), FAdd(F, FSub(G, G)))
    /\ SameF(FMul(F, ConstF(One)), F) /\ SameF(FAdd(F, ConstF(Zero)), F) /\ SameF(FDiv(F, ConstF(One)), F)
    \* quotient: the product of a conditional and its marginal is the joint wherever the marginal allows it
    /\ (\A i \in DOMAIN F.t : F.t[i][1] >= 0) =>
          \A R \in SUBSET Scope(F) : LET m == FMarg(F, R) IN R # Scope(F) => SameTab(FMul(FDiv(F, m), m), F)
    /\ \A R \in SUBSET Scope(F) :
          /\ \A S \in SUBSET (Scope(F) \ R) : SameF(FMarg(FMarg(F, R), S), FMarg(F, R \cup S)) /\ SameF(FMax(FMax(F, R), S), FMax(F, R \cup S))
          /\ R \cap Scope(G) = {} => SameTab(FMarg(FMul(F, G), R), FMul(FMarg(F, R), G)) /\ SameTab(FMax(FAdd(F, G), R), FAdd(FMax(F, R), G))
    /\ \A v \in Scope(F) : \A s \in ToSet2(DomOf(F, v)) : LET o == {<<v, <<s>>>>} IN
          /\ SameTab(FRestrict(FMul(F, G), o), FMul(FRestrict(F, o), FRestrict(G, {p \in o : p[1] \in Scope(G)})))
          /\ \A R \in SUBSET (Scope(F) \ {v}) : SameF(FRestrict(FMarg(F, R), o), FMarg(FRestrict(F, o), R))
    /\ \A v \in Scope(F) : SameTab(FMarg(F, {v}), FoldLeft(LAMBDA X, s : FAdd(X, FRestrict(F, {<<v, <<s>>>>})),
                                              FRestrict(F, {<<v, <<DomOf(F, v)[1]>>>>}), SubSeq(DomOf(F, v), 2, Len(DomOf(F, v)))))
    /\ \A mp \in Renamings(F) : GoodRen(F, mp) => SameF(FRename(FRename(F, mp), {<<p[2], p[1]>> : p \in mp}), F)
\* listing the same content in any order of variables and states gives the same factor
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
ListedOK == \A i \in DOMAIN heap : LET F == heap[i] IN
    \A vo \in Perms(Scope(F)) : LET rev == {v \in Scope(F) : v % 2 = 0}
                                    do == [j \in DOMAIN vo |-> IF vo[j] \in rev THEN Reverse(DomOf(F, vo[j])) ELSE DomOf(F, vo[j])]
                                    n == Sizes(do)  s == Strides(n)
                                    a(k) == [v \in Scope(F) |-> LET j == PosIn(vo, v) IN do[j][1 + (((k - 1) \div s[j]) % n[j])]]
                                IN Canon(vo, do, [k \in 1..ProdI(n) |-> At(F, a(k))], F.l) = F
Emit == (EMIT /\ Len(steps) = DEPTH) =>
        PrintT(<<"GEN", ToJson([fs |-> [i \in 1..2 |-> [vs |-> heap[i].vs, l |-> SetToSeq(heap[i].l), t |-> heap[i].t]], steps |-> steps])>>)
=============================================================================
