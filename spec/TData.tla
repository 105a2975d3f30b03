------------------------------- MODULE TData -------------------------------
(* Counts, data queries, structural equations, generators, sampling, files. *)
EXTENDS TGraph, Uai, Streams

TCnt(e) == /\ UNCHANGED heap /\ Keep
           /\ Report(e, IF ~CountDefined(e.dom, e.cols, e.rows, SetOf(e.strs)) THEN Clause(e.err # "", "accepted")
                        ELSE LET F == CountOf(e.dom, e.cols, e.rows) IN
                             IF e.norm /\ SumI(F.t) = 0 THEN {}
                             ELSE IF e.err # "" THEN {"raised"}
                             ELSE VClauses(IF e.norm THEN FreqF(F) ELSE IntF(F), e.r))
\* rows selected by an observation, in their order and with all their cells
TFil(e) == /\ UNCHANGED heap /\ Keep
           /\ Report(e, IF e.err # "" THEN {"raised"} ELSE Clause(e.r = Selected(e.cols, e.rows, PairSet(e.ev)), "filter"))

TDQry(e) == /\ UNCHANGED heap /\ Keep
            /\ Report(e, IF ~DataOK(e) THEN Clause(e.err # "", "accepted")
                         ELSE IF Selected(e.cols, e.rows, PairSet(e.ev)) = <<>> THEN {}
                         ELSE IF ~CountDefined(SelectSeq(e.dom, LAMBDA p : p[1] \in SetOf(e.T) \cup SetOf(e.C)), e.cols,
                                               Selected(e.cols, e.rows, PairSet(e.ev)), SetOf(e.strs)) THEN {}
                         ELSE ResultClauses(DataAnswer(e), e))

\* ---- structural equations
DetViews(F, e) ==
    LET L == CHOOSE v \in F.l : TRUE IN
    Clause(\A i \in DOMAIN e.evs : e.evs[i][2] = (FAt(F, PairSet(e.evs[i][1])) = One), "eval")
    \cup Clause(\A i \in DOMAIN e.gets : Has(DomOf(F, L), e.gets[i][2]) /\ FAt(F, PairSet(e.gets[i][1]) \cup {<<L, e.gets[i][2]>>}) = One, "get_value")
    \cup {"to_multinomial " \o c : c \in FClauses(F, e.tm)}
    \cup Clause(e.tm.vt = e.vt /\ e.ti.vt = e.vt, "backend")
    \cup {"to_multinomial(as_int) " \o c : c \in FClauses(F, e.ti)}
    \cup Clause(\A i \in DOMAIN e.arr : Has(DomOf(F, L), e.arr[i][2]) /\ FAt(F, PairSet(e.arr[i][1]) \cup {<<L, e.arr[i][2]>>}) = One, "values_array")
TDView(e) == /\ UNCHANGED heap /\ Keep
             /\ Report(e, IF e.err # "" THEN {"raised"} ELSE DetViews(heap[e.x], e))
\* back to a deterministic factor: defined for degenerate conditionals of one variable
TToDet(e) == /\ Put(IF Cardinality(heap[e.x].l) = 1 /\ Degenerate(heap[e.x]) /\ IsStochastic(heap[e.x]) THEN heap[e.x] ELSE None)
             /\ Judged(e)
TFromDf(e) == Put(RowsF(e.cols, e.doms, e.lv, e.rows)) /\ Judged(e)
TConst(e) == /\ LET F == heap[e.x] IN
                Put(IF Cardinality(F.l) # 1 THEN None
                    ELSE LET v == CHOOSE y \in F.l : TRUE IN
                         IF Has(DomOf(F, v), e.s) THEN ConstantF(v, DomOf(F, v), e.s) ELSE None)
             /\ Judged(e)
\* canonical specification: every function from the configurations of the endogenous parents exactly once
CanonClauses(e, p) ==
    LET vs == SortSet({e.lv, e.xv} \cup SetOf(e.pa))
        d  == [i \in DOMAIN vs |-> [j \in 1..e.card[PosIn(e.order, vs[i])] |-> j]]
        ok == p.vs = vs /\ p.d = d /\ SetOf(p.l) = {e.lv} /\ SetOf(p.r) = ToSet2(vs) \ {e.lv}
        F  == MkF(vs, d, [i \in DOMAIN p.t |-> <<p.t[i][2], 1>>], {e.lv})
        nx == Len(DomOf(F, e.xv))
        fun(u) == FRestrict(F, {<<e.xv, <<u>>>>}).t
    IN Clause(ok, "scope")
       \cup Clause(\A i \in DOMAIN p.t : p.t[i] \in {<<0, 0, 0>>, <<0, 1, 0>>}, "not a function")
       \cup (IF ok /\ \A i \in DOMAIN p.t : p.t[i] \in {<<0, 0, 0>>, <<0, 1, 0>>}
             THEN Clause(IsStochastic(F), "not a function")
                  \cup Clause(Cardinality({fun(u) : u \in 1..nx}) = nx, "function repeated")
                  \cup Clause(nx = Len(DomOf(F, e.lv)) ^ ProdI([i \in DOMAIN e.pa |-> Len(DomOf(F, e.pa[i]))]), "functions missing")
             ELSE {})
TCanon(e) == /\ UNCHANGED heap /\ Keep
             /\ Report(e, IF e.err # "" THEN {"raised"} ELSE CanonClauses(e, e.r))

\* ---- random generators: observed tables that must be distributions
ObsSum(ts) == SumI([i \in DOMAIN ts |-> ts[i][2] * 1000000 + (ts[i][3] \div 1000)])     \* in 10^-6
DistClauses(p, left) ==
    LET vs == p.vs  n == Sizes(p.d)  s == Strides(n)  N == ProdI(n)
        rs == SelectSeq([i \in DOMAIN vs |-> i], LAMBDA i : vs[i] \notin left)
        key(k) == [j \in DOMAIN rs |-> ((k - 1) \div s[rs[j]]) % n[rs[j]]]
        keys == {key(k) : k \in 1..N}
        grp(x) == SelectSeq([k \in 1..N |-> k], LAMBDA k : key(k) = x)
    IN Clause(Len(p.t) = N /\ \A i \in DOMAIN p.t : p.t[i][1] = 0 /\ p.t[i][2] >= 0, "negative or not finite")
       \cup (IF Len(p.t) = N THEN Clause(\A x \in keys : LET g == grp(x) IN Abs(ObsSum([i \in DOMAIN g |-> p.t[g[i]]]) - 1000000) <= N + 2, "does not sum to one") ELSE {})
GenScope(e, p) == LET vs == SortSet(SetOf(e.vo)) IN
    Clause(p.vs = vs, "variables")
    \cup Clause(p.vs = vs => p.d = [i \in DOMAIN vs |-> SortSet(SetOf(e.do[PosIn(e.vo, vs[i])]))], "states")
    \cup Clause(SetOf(p.r) = SetOf(e.right) /\ SetOf(p.l) = SetOf(e.vo) \ SetOf(e.right)
                /\ Len(p.r) + Len(p.l) = Len(e.vo), "roles")
    \cup Clause(p.vt = e.vt, "backend")
TGen(e) == /\ UNCHANGED heap /\ Keep
           /\ Report(e, IF e.err # "" THEN {"raised"}
                        ELSE GenScope(e, e.r)
                             \cup DistClauses(e.r, SetOf(e.vo) \ SetOf(e.right))
                             \cup Clause(e.kind = "uniform" => \A i, j \in DOMAIN e.r.t : e.r.t[i] = e.r.t[j], "not uniform")
                             \cup Clause(e.kind = "det" => \A i \in DOMAIN e.r.t : e.r.t[i] \in {<<0, 0, 0>>, <<0, 1, 0>>}, "not a function")
                             \cup Clause(e.kind = "positive" => e.pos, "zero entry"))
\* models whose factors V have been drawn at random: m the model before (its other factors stay)
DrawnClauses(m, V, dom, p) ==
    Clause(SetOf(p.nodes) = m.nodes /\ Len(p.nodes) = Cardinality(m.nodes), "nodes")
    \cup Clause(Edges(p.edges) = m.edges, "arcs")
    \cup Clause(p.scm = m.scm /\ (m.scm => SetOf(p.endo) = m.endo), "endogenous")
    \cup UNION {LET f == p.fac[i]  v == f.v IN
                IF v \notin m.nodes THEN {"factor variables"}
                ELSE IF v \notin V
                     THEN IF m.fac[v].k = "none" THEN Clause(f.none, "other factor assigned")
                          ELSE IF f.none THEN {"other factor lost"} ELSE {"other factor " \o c : c \in FClauses(m.fac[v], f.p)}
                ELSE IF f.none THEN {"factor missing"}
                ELSE LET vs == SortSet({v} \cup PaOf(m.edges, v)) IN
                     Clause(f.p.vs = vs /\ SetOf(f.p.l) = {v} /\ f.p.d = [j \in DOMAIN vs |-> dom[vs[j]]], "drawn factor scope")
                     \cup DistClauses(f.p, {v})
                     \cup Clause((m.scm /\ v \in m.endo) => \A j \in DOMAIN f.p.t : f.p.t[j] \in {<<0, 0, 0>>, <<0, 1, 0>>}, "drawn equation")
                : i \in DOMAIN p.fac}
\* e.r : the model returned (or filled), e.o : the model it was called on, seen afterwards
TDraw(e) == /\ UNCHANGED heap /\ Keep
            /\ LET m == heap[e.x]
                   dom == [v \in m.nodes |-> IF \E i \in DOMAIN e.dom : e.dom[i][1] = v
                                             THEN e.dom[CHOOSE i \in DOMAIN e.dom : e.dom[i][1] = v][2] ELSE m.dom[v]] IN
               Report(e, IF e.err # "" THEN {"raised"}
                         ELSE DrawnClauses(m, SetOf(e.V), dom, e.r)
                              \cup (IF e.inplace THEN Clause(e.o = e.r, "not in place")
                                    ELSE {"original " \o c : c \in ModelClauses(m, e.o)})
                              \cup Clause(e.pos, "zero entry"))
\* the same actions with the same seed
TSeed(e) == /\ UNCHANGED heap /\ Keep
            /\ Report(e, IF e.err # "" THEN {"raised"} ELSE Clause(e.r1 = e.r2, "not reproducible"))

\* seedings and random actions in any order, possibly in several processes
TStream(e) == /\ UNCHANGED heap /\ Keep
              /\ Report(e, IF e.err # "" THEN {"raised"} ELSE Clause(Repeatable(e.steps), "not reproducible"))

\* ---- sampling: frequencies within 6 standard deviations (and 8 more)
FreqOK(cnt, n, q) == IF IsBad(q) \/ q[2] > 200000 THEN TRUE
                     ELSE IF q[1] = 0 THEN cnt = 0
                     ELSE LET E == (n * ((q[1] * 10000) \div q[2])) \div 10000
                              V == (E * (10000 - ((q[1] * 10000) \div q[2]))) \div 10000 + 1
                              dv == Abs(cnt - E) - 8
                          IN dv <= 0 \/ dv * dv <= 36 * V
\* rows (sequences of states aligned with vs) against the distribution F over vs (canonical order, values rationals or Bad)
SampleClauses(F, rows) ==
    LET vs == F.vs  n == Sizes(F.d)  s == Strides(n)  N == ProdI(n)
        inside(r) == \A i \in DOMAIN vs : Has(F.d[i], r[i])
        code(r) == 1 + SumI([i \in DOMAIN vs |-> s[i] * (PosIn(F.d[i], r[i]) - 1)])
    IN IF \E k \in DOMAIN rows : ~inside(rows[k]) THEN {"unknown state"}
       ELSE LET codes == TLCEval([k \in DOMAIN rows |-> code(rows[k])])
                hist == FoldLeft(LAMBDA h, c : [h EXCEPT ![c] = @ + 1], [x \in 1..N |-> 0], codes)
                H == MkF(vs, F.d, hist, {})
                lows == {S \in SUBSET ToSet2(vs) : Cardinality(S) \in {1, 2}}
            IN Clause(\A x \in 1..N : (F.t[x] = Zero) => hist[x] = 0, "impossible row")
               \cup Clause(\A x \in 1..N : FreqOK(hist[x], Len(rows), F.t[x]), "frequency")
               \cup Clause(\A S \in lows : LET a == FFold(H, ToSet2(vs) \ S, IAdd)
                                               b == FFold(F, ToSet2(vs) \ S, NAdd)
                                           IN S = ToSet2(vs) \/ \A i \in DOMAIN a.t : FreqOK(a.t[i], Len(rows), b.t[i]), "marginal frequency")
JointDist(m) == LET J == JJ(m) IN [J.f EXCEPT !.t = TLCEval([i \in DOMAIN J.f.t |-> Norm(J.f.t[i], J.den)])]
TSmp(e) == /\ UNCHANGED heap /\ Keep
           /\ LET m == heap[e.x]
                  want == IF e.mode = "endo" THEN m.endo ELSE m.nodes IN
              Report(e, IF e.n < 1 THEN Clause(e.err # "", "accepted")
                        ELSE IF e.err # "" THEN {"raised"}
                        ELSE Clause(Len(e.rows) = e.n, "size")
                             \cup Clause(SetOf(e.cols) = want /\ Len(e.cols) = Cardinality(want), "columns")
                             \cup Clause(e.form, "representation")
                             \cup (IF SetOf(e.cols) # want \/ ~JJ(m).ok THEN {}
                                   ELSE SampleClauses(LET D == JointDist(m) IN IF want = m.nodes THEN D ELSE FFold(D, m.nodes \ want, NAdd), e.rows)))
\* factor sampling: the distribution of the left variables (normalised)
NormF(F) == LET tot == NSum(F.t) IN [F EXCEPT !.t = TLCEval([i \in DOMAIN F.t |-> NDiv(F.t[i], tot)])]
TFSmp(e) == /\ UNCHANGED heap /\ Keep
            /\ LET F == heap[e.x] IN
               Report(e, IF e.n < 1 \/ Right(F) # {} THEN Clause(e.err # "", "accepted")
                         ELSE IF e.err # "" THEN {"raised"}
                         ELSE Clause(Len(e.rows) = e.n, "size") \cup Clause(e.form, "representation")
                              \cup SampleClauses(NormF(F), e.rows))
\* conditional sampling: obs[i] an assignment of (at least) the right variables, rows[i] the answer over the left ones (ascending)
TCSmp(e) == /\ UNCHANGED heap /\ Keep
            /\ LET F == heap[e.x]
                   cfgs == {PairSet(e.obs[i]) : i \in DOMAIN e.obs}
                   cfgOf(o) == {p \in o : p[1] \in Right(F)}
                   G(c) == NormF(FRestrict(F, {<<p[1], <<p[2]>>>> : p \in c}))
                   ans(c) == LET idx == SelectSeq([i \in DOMAIN e.obs |-> i], LAMBDA i : cfgOf(PairSet(e.obs[i])) = c)
                             IN [j \in DOMAIN idx |-> e.rows[idx[j]]] IN
               Report(e, IF e.err # "" THEN {"raised"}
                         ELSE IF Len(e.rows) # Len(e.obs) THEN {"size"}
                         ELSE Clause(e.form, "representation")
                              \cup UNION {SampleClauses(G(c), ans(c)) : c \in {cfgOf(o) : o \in cfgs}})

\* ---- files.  Positional names: variable number i of ord, state number j of its list in sord
Relabel(m, ord, sord) ==
    LET pv(v) == PosIn(ord, v)
        ps(v, s) == PosIn(sord[pv(v)], s)
        N == {pv(v) : v \in m.nodes}
        dm(v) == [j \in 1..Len(m.dom[v]) |-> j]
        rf(F) == Canon([i \in DOMAIN F.vs |-> pv(F.vs[i])],
                       [i \in DOMAIN F.vs |-> [j \in DOMAIN F.d[i] |-> ps(F.vs[i], F.d[i][j])]], F.t, {pv(v) : v \in F.l})
    IN [m EXCEPT !.nodes = N, !.edges = {<<pv(x[1]), pv(x[2])>> : x \in @}, !.endo = {pv(v) : v \in @},
                 !.dom = TLCEval([i \in N |-> dm(ord[i])]), !.fac = TLCEval([i \in N |-> rf(m.fac[ord[i]])])]
FileModel(m, fmt, scm, ord, sord) ==
    LET b == IF scm THEN m ELSE ToBnet(m) IN
    IF fmt = "uai" THEN Relabel(NoJ(b), ord, sord) ELSE NoJ(IF scm THEN ToCausal(b) ELSE b)
TIo(e) == /\ UNCHANGED heap /\ Keep
          /\ LET m == heap[e.x] IN
             Report(e, IF e.err # "" THEN {"raised"}
                       ELSE ModelClauses(FileModel(m, e.fmt, e.scm, e.ord, e.sord), e.r)
                            \cup Clause(Len(e.l1) = Len(e.l2) /\ \A i \in DOMAIN e.l1 : Near(e.l1[i], e.l2[i]), "small probability")
                            \cup Clause(e.vt = "" \/ \A i \in DOMAIN e.r.fac : e.r.fac[i].p.vt = e.vt, "backend"))
TIoT(e) == /\ UNCHANGED heap /\ Keep
           /\ Report(e, IF e.err # "" THEN {"raised"}
                        ELSE Clause(Len(e.l1) = Len(e.l2) /\ \A i \in DOMAIN e.l1 : e.l1[i][1] = 0 /\ e.l2[i][1] = 0
                                    /\ Abs(e.l1[i][2] - e.l2[i][2]) <= 1 /\ Abs((e.l1[i][2] - e.l2[i][2]) * 1000000000 + (e.l1[i][3] - e.l2[i][3])) <= 5000, "small probability"))
\* ---- the uai format itself.  Numbers of a file the code wrote: recorded numbers; of a file it read: rationals
ObsNat(x) == IF x[1] = 0 /\ x[2] >= 0 /\ x[3] = 0 THEN x[2] ELSE -1
RatNat(q) == IF q[2] = 1 /\ q[1] >= 0 THEN q[1] ELSE -1
RatNum(k) == <<k, 1>>
RatVal(q) == Norm(q[1], q[2])
\* a file written by the code denotes the model: the order of the parents is the writer's choice, everything else follows
UaiWritten(m, e) ==
    LET P == UaiParse(e.tok, ObsNat) IN
    IF ~P.ok \/ P.n # Len(e.ord) THEN {"file layout"}
    ELSE LET pa(i) == [j \in 1..(Len(P.sc[i]) - 1) |-> e.ord[P.sc[i][j]]]
             par == TLCEval([i \in 1..P.n |-> pa(i)]) IN
         IF \E i \in 1..P.n : Len(par[i]) # Cardinality(SetOf(par[i])) \/ SetOf(par[i]) # PaOf(m.edges, e.ord[i]) THEN {"file scopes"}
         ELSE LET want == UaiTokens(m, m.scm, e.ord, e.sord, par, RatNum) IN
              Clause(Len(want) = Len(e.tok) /\ \A i \in DOMAIN want : Close(e.tok[i], want[i]), "file values")
TUaiW(e) == /\ UNCHANGED heap /\ Keep
            /\ Report(e, IF e.err # "" THEN {"raised"}
                         ELSE Clause(e.label = IF heap[e.x].scm THEN "CAUSAL" ELSE "BAYES", "file label") \cup UaiWritten(heap[e.x], e))
\* a file written elsewhere is read as the model it denotes; an incomplete one is refused
TUaiR(e) == /\ UNCHANGED heap /\ Keep
            /\ LET P == UaiParse(e.tok, RatNat) IN
               Report(e, IF ~P.ok \/ ~UaiSized(P, e.causal) THEN Clause(e.err # "", "accepted")
                         ELSE IF e.err # "" THEN {"raised"}
                         ELSE ModelClauses(UaiModel(P, e.causal, RatNat, RatVal), e.r))
\* ---- purity: digests of all objects handed to a call, before and after
TPure(e) == /\ UNCHANGED heap /\ Keep
            /\ Report(e, UNION {Clause(e.ds[i][2] = e.ds[i][3], e.ds[i][1] \o " modified") : i \in DOMAIN e.ds})
=============================================================================
