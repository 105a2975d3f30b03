------------------------------ MODULE ModelApi ------------------------------
(* Probabilistic graphical models as (mutable) heap objects: construction,  *)
(* assignment of factors, and the transformations that yield new models.    *)
EXTENDS FactorApi

\* structural equations: the factor that is 1 exactly on the graph of the function; out lists the states
\* of L, row-major over the other variables in the order vo, do
DetF(vo, do, L, out) ==
    LET iL == PosIn(vo, L)
        n  == Sizes(do)  s == Strides(n)  N == ProdI(n)
        rs == SelectSeq([i \in DOMAIN vo |-> i], LAMBDA i : i # iL)
        sr == Strides([j \in DOMAIN rs |-> n[rs[j]]])
        cell(k) == LET x == 1 + SumI([j \in DOMAIN rs |-> ((k \div s[rs[j]]) % n[rs[j]]) * sr[j]])
                   IN IF out[x] = do[iL][1 + ((k \div s[iL]) % n[iL])] THEN One ELSE Zero
    IN Canon(vo, do, [k \in 1..N |-> cell(k - 1)], {L})
\* table of rows: one row per configuration of the other columns, last column (or lv) is the value
RowsF(cols, doms, lv, rows) ==
    LET rs == SelectSeq(cols, LAMBDA v : v # lv)
        ps == TLCEval([i \in DOMAIN rs |-> PosIn(cols, rs[i])])
        d  == TLCEval([i \in DOMAIN rs |-> doms[ps[i]]])
        n  == Sizes(d)  s == Strides(n)  N == ProdI(n)
        row(k) == CHOOSE r \in ToSet2(rows) : \A i \in DOMAIN rs : r[ps[i]] = d[i][1 + (((k - 1) \div s[i]) % n[i])]
    IN DetF(rs \o <<lv>>, d \o <<doms[PosIn(cols, lv)]>>, lv, [k \in 1..N |-> row(k)[PosIn(cols, lv)]])
\* the state that an equation of L assigns to an assignment (set of pairs) of the other variables
ValueOf(F, L, asg) == CHOOSE s \in ToSet2(DomOf(F, L)) : FAt(F, asg \cup {<<L, s>>}) = One
\* canonical specification: state u of the exogenous variable X selects function number u of the other parents (all of them, in the order of their tables)
CanonicalF(L, dL, X, pas, dpas) ==
    LET n == ProdI(Sizes(dpas))
        c == Len(dL)
        N == c ^ n
        fun(u) == [k \in 1..n |-> dL[1 + (((u - 1) \div (c ^ (n - k))) % c)]]
    IN DetF(<<X>> \o pas \o <<L>>, <<[u \in 1..N |-> u]>> \o dpas \o <<dL>>, L, TLCEval([k \in 1..(N * n) |-> fun(1 + ((k - 1) \div n))[1 + ((k - 1) % n)]]))

\* ---- construction
EndoOf(scm, nodes, edges, endo) == IF ~scm THEN {} ELSE IF endo = {} THEN {v \in nodes : PaOf(edges, v) # {}} ELSE endo
BareModel(scm, nodes, edges, endo) ==
    [k |-> "m", scm |-> scm, nodes |-> nodes, edges |-> edges, endo |-> EndoOf(scm, nodes, edges, endo),
     dom |-> TLCEval([v \in nodes |-> <<>>]), fac |-> TLCEval([v \in nodes |-> None]), J |-> None, X |-> None]

\* expansions of a complete model, computed once: the joint distribution and the exogenous worlds
WithJ(m, j, x) == [m EXCEPT !.J = IF j /\ Complete(m) THEN JointM(m) ELSE None,
                            !.X = IF x /\ Complete(m) THEN Expand(m) ELSE None]
Renew(m) == WithJ(m, m.J.k # "none", m.X.k # "none")

\* fs : a sequence of <<variable, factor>>; the first one that does not fit makes the construction fail
BuildOn(m0, fs) == FoldLeft(LAMBDA m, p : IF m.k = "none" THEN None
                                          ELSE IF FactorFits(m, p[1], p[2]) THEN Attach(m, p[1], p[2]) ELSE None, m0, fs)
ModelOf(scm, nodes, edges, endo, fs, j, x) ==
    IF ~Acyclic(nodes, edges) THEN None
    ELSE LET m == BuildOn(BareModel(scm, nodes, edges, endo), fs) IN IF m.k = "none" THEN None ELSE WithJ(m, j, x)
NewModel(scm, nodes, edges, endo, fs, j, x) == Put(ModelOf(scm, nodes, edges, endo, fs, j, x))

\* assignment: accepted and effective, or refused without effect
SetFactor(x, v, F) == heap' = IF FactorFits(heap[x], v, F) THEN [heap EXCEPT ![x] = Renew(Attach(heap[x], v, F))] ELSE heap

\* ---- transformations
NoJ(m) == [m EXCEPT !.J = None, !.X = None]
RenameM(m, mp) ==
    LET nm(v) == IF \E p \in mp : p[1] = v THEN (CHOOSE p \in mp : p[1] = v)[2] ELSE v
        N == {nm(v) : v \in m.nodes}
        old(w) == CHOOSE v \in m.nodes : nm(v) = w
    IN [NoJ(m) EXCEPT !.nodes = N, !.edges = {<<nm(e[1]), nm(e[2])>> : e \in @}, !.endo = {nm(v) : v \in @},
                      !.dom = [w \in N |-> m.dom[old(w)]],
                      !.fac = [w \in N |-> FRename(m.fac[old(w)], mp)]]
SubM(m, S) == [NoJ(m) EXCEPT !.nodes = S, !.edges = {e \in @ : e[1] \in S /\ e[2] \in S}, !.endo = @ \cap S,
                             !.dom = [v \in S |-> m.dom[v]], !.fac = [v \in S |-> m.fac[v]]]
ToBnet(m) == [NoJ(m) EXCEPT !.scm = FALSE, !.endo = {}]
ToCausal(m) == [NoJ(m) EXCEPT !.scm = TRUE, !.endo = {v \in m.nodes : PaOf(m.edges, v) # {}}]
TrM(m, op, arg) == CASE op = "copy"   -> NoJ(m)
                     [] op = "rename" -> RenameM(m, arg)
                     [] op = "sub"    -> SubM(m, arg)
                     [] op = "bnet"   -> ToBnet(m)
                     [] op = "causal" -> ToCausal(m)
                     [] op = "do"     -> NoJ(DoModel(m, arg))
\* the equations of an intervened or converted model still are equations; conversion to a causal model needs them
TrDefined(m, op, arg) == op = "causal" => \A v \in m.nodes : PaOf(m.edges, v) # {} => Degenerate(m.fac[v])
\* models sharing only the roots `on`, whose factors are those of the first model
FuseDefined(ms, on) == /\ \A i \in DOMAIN ms : ms[i].scm = ms[1].scm /\ on \subseteq ms[i].nodes /\ \A v \in on : PaOf(ms[i].edges, v) = {}
                       /\ \A i \in DOMAIN ms : \A v \in on : ToSet2(ms[i].dom[v]) = ToSet2(ms[1].dom[v])
FuseM(ms, on) ==
    LET own(v) == IF v \in on THEN 1 ELSE CHOOSE i \in DOMAIN ms : v \in ms[i].nodes
        N == UNION {ms[i].nodes : i \in DOMAIN ms}
    IN [NoJ(ms[1]) EXCEPT !.nodes = N, !.edges = UNION {ms[i].edges : i \in DOMAIN ms}, !.endo = UNION {ms[i].endo : i \in DOMAIN ms},
                          !.dom = [v \in N |-> ms[own(v)].dom[v]], !.fac = [v \in N |-> ms[own(v)].fac[v]]]
Fuse(xs, on, j, xx) == LET ms == [i \in DOMAIN xs |-> heap[xs[i]]] IN
                       Put(IF FuseDefined(ms, on) THEN WithJ(FuseM(ms, on), j, xx) ELSE None)
Transform(x, op, arg, j, xx) == Put(IF TrDefined(heap[x], op, arg) THEN WithJ(TrM(heap[x], op, arg), j, xx) ELSE None)

\* ---- queries
JJ(m) == IF m.J.k = "j" THEN m.J ELSE JointM(m)
XX(m) == IF m.X.k = "x" THEN m.X ELSE Expand(m)
\* a query is well formed (targets and conditioning variables without repetition)
QueryOK(m, T, C, ev) ==
    /\ \A i, j \in DOMAIN T : i # j => T[i] # T[j]
    /\ T # <<>>
    /\ LET E == {p[1] : p \in ev} IN
       /\ (ToSet2(T) \cup ToSet2(C) \cup E) \subseteq m.nodes
       /\ ToSet2(T) \cap ToSet2(C) = {} /\ ToSet2(T) \cap E = {} /\ ToSet2(C) \cap E = {}
Answer(m, T, C, ev) == Posterior(JJ(m), ToSet2(T), ToSet2(C), ev)

\* posterior computed from a reduced set of nodes S, each with its factor restricted to the evidence
FromReduced(m, S, T, ev) ==
    LET E == {p[1] : p \in ev}
        vs == SortSet(S \ E)
        ns == SortSet(S)
        obs == {<<p[1], <<p[2]>>>> : p \in ev}
        fs == [i \in DOMAIN ns |-> FRestrict(m.fac[ns[i]], {o \in obs : o[1] \in Scope(m.fac[ns[i]])})]
        J == JointOf(vs, [i \in DOMAIN vs |-> m.dom[vs[i]]], fs)
    IN IF \A i \in DOMAIN fs : Scope(fs[i]) \subseteq ToSet2(vs)
       THEN [ok |-> TRUE, f |-> Posterior(J, T, {}, {})]
       ELSE [ok |-> FALSE, f |-> ConstF(Zero)]
=============================================================================
