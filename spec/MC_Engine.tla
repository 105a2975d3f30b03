----------------------------- MODULE MC_Engine -----------------------------
(* Inference engines as the implementation has them: an engine keeps a      *)
(* reduced (intervened, twinned) copy of its model, the targets and the     *)
(* evidence of the last accepted compilation; running multiplies, sums out  *)
(* and normalises.  Two engines share one structural causal model and       *)
(* receive well-formed and malformed requests in every order; every answer  *)
(* must be the one of the declarative specification for the request alone.  *)
EXTENDS MC_Causal
CONSTANTS DEPTH, KINDS     \* KINDS: pairs of engine kinds, "v" (probabilistic) or "c" (causal)
VARIABLES kd, en, gh, out, steps
evars == <<heap, sh, eqs, kd, en, gh, out, steps>>

\* fixed equations of a shape, different for every variable
FixedEqs(s) == LET H == Shape(s)
                   nc(v) == 2 ^ Cardinality(PaOf(H.e, v))
               IN [i \in DOMAIN H.endo |-> [k \in 1..nc(H.endo[i]) |-> 1 + (((k * k + k * i + i) \div 2) % 2)]]
Ca1 == S.endo[1]
Ca2 == S.endo[Len(S.endo)]
Ex1 == S.exo[1]
Pr(T, C, ev) == [kind |-> "prob", T |-> T, C |-> C, ev |-> ev, do |-> {}, dos |-> <<>>, tg |-> <<>>]
Ca(T, do, ev) == [kind |-> "causal", T |-> T, C |-> <<>>, ev |-> ev, do |-> do, dos |-> <<>>, tg |-> <<>>]
Cf(tg, dos, ev) == [kind |-> "cf", T |-> <<>>, C |-> <<>>, ev |-> ev, do |-> {}, dos |-> dos, tg |-> tg]
Unk == 9
Reqs(k) == IF k = "v"
    THEN <<Pr(<<Ca2>>, <<>>, {}), Pr(<<Ca1>>, <<>>, {<<Ca2, 1>>}), Pr(<<Ca2>>, <<Ca1>>, {}), Pr(<<Ex1, Ca2>>, <<>>, {<<Ca1, 2>>}),
           Pr(<<Ca1>>, <<>>, {<<Ca1, 1>>}), Pr(<<Ca2>>, <<Ca2>>, {}), Pr(<<Unk>>, <<>>, {}), Pr(<<Ca2>>, <<>>, {<<Unk, 1>>}), Pr(<<Ca2, Ca2>>, <<>>, {})>>
    ELSE <<Ca(<<Ca2>>, {<<Ca1, 1>>}, {}), Ca(<<Ca1>>, {<<Ca2, 2>>}, {}), Ca(<<Ex1>>, {<<Ca1, 2>>}, {<<Ca2, 1>>}),
           Cf(<<<<Ca2, 1>>>>, <<{<<Ca1, 1>>}>>, {<<Ca2, 2>>}), Cf(<<<<Ca2, 1>>, <<Ca2, 2>>>>, <<{<<Ca1, 1>>}, {<<Ca1, 2>>}>>, {}),
           Ca(<<Ca1>>, {<<Ca1, 1>>}, {}), Ca(<<Ca2>>, {<<Unk, 1>>}, {}), Ca(<<Unk>>, {<<Ca1, 1>>}, {}), Cf(<<<<Unk, 1>>>>, <<{<<Ca1, 1>>}>>, {})>>

\* ---- the declarative side: what a request on the model answers
QOKay(q) == CASE q.kind = "prob" -> QueryOK(M, q.T, q.C, q.ev)
              [] q.kind = "causal" -> /\ \A i, j \in DOMAIN q.T : i # j => q.T[i] # q.T[j]
                                      /\ (ToSet2(q.T) \cup VarsOf(q.do) \cup VarsOf(q.ev)) \subseteq M.nodes
                                      /\ ToSet2(q.T) \cap (VarsOf(q.do) \cup VarsOf(q.ev)) = {} /\ VarsOf(q.do) \cap VarsOf(q.ev) = {}
              [] OTHER -> \A i \in DOMAIN q.tg : q.tg[i][1] \in M.endo /\ q.tg[i][2] \in DOMAIN q.dos
TgSeq(q) == [i \in DOMAIN q.tg |-> <<q.tg[i][1] + 100 * q.tg[i][2], q.tg[i][1], q.tg[i][2]>>]
Wanted(q) == CASE q.kind = "prob" -> Posterior(JointM(M), ToSet2(q.T), ToSet2(q.C), q.ev)
               [] q.kind = "causal" -> Interventional(M, Expand(M), q.do, q.ev, ToSet2(q.T))
               [] OTHER -> Counterfactual(M, Expand(M), q.dos, q.ev, TgSeq(q))

\* ---- the engine
Fresh == [k |-> "fresh"]
Gone == [k |-> "refused"]
ModelOfReq(q) == CASE q.kind = "prob" -> M [] q.kind = "causal" -> DoModel(M, q.do) [] OTHER -> TwinDo(M, q.dos)
EvOfReq(q) == CASE q.kind = "prob" -> q.ev
                [] q.kind = "causal" -> q.ev \cup q.do
                [] OTHER -> q.ev \cup UNION {{<<p[1] + 100 * i, p[2]>> : p \in q.dos[i]} : i \in DOMAIN q.dos}
TOfReq(q) == IF q.kind = "cf" THEN {TgSeq(q)[i][1] : i \in DOMAIN q.tg} ELSE ToSet2(q.T)
\* pruned to what matters: ancestors of targets and evidence; arcs leaving the evidence are cut (their factors restricted)
Prune(m, T, ev) == LET K == UpClosure(m.edges, T \cup VarsOf(ev))
                       obs == {<<p[1], <<p[2]>>>> : p \in ev}
                   IN {<<v, FRestrict(m.fac[v], {o \in obs : o[1] \in PaOf(m.edges, v)})>> : v \in K}
Compile(q, T) == LET m == ModelOfReq(q) IN [k |-> "compiled", fs |-> Prune(m, T, EvOfReq(q)), T |-> T, ev |-> EvOfReq(q)]
\* run: eliminate everything else, restrict to the evidence, normalise
RunEng(x) ==
    LET obs == {<<p[1], <<p[2]>>>> : p \in x.ev}
        vs == SortSet({f[1] : f \in x.fs})
        prod == FoldLeft(LAMBDA F, v : FMul(F, (CHOOSE f \in x.fs : f[1] = v)[2]), ConstF(One), vs)
        joint == FRestrict(FMarg(prod, Scope(prod) \ (x.T \cup VarsOf(x.ev))), {o \in obs : o[1] \in Scope(prod)})
        total == NSum(joint.t)
    IN IF total = Zero THEN Gone ELSE [joint EXCEPT !.t = TLCEval([i \in DOMAIN joint.t |-> NDiv(joint.t[i], total)]), !.l = x.T]
\* the conditional of T given C from the joint of both
Conditional(F, T) == LET D == FMarg(F, T) IN
    [F EXCEPT !.l = T, !.t = LET n == Sizes(F.d)  s == Strides(n)  mu == Mult(D, F.vs)
                                 den(k) == D.t[1 + Flat(k - 1, s, n, mu)]
                             IN TLCEval([k \in DOMAIN F.t |-> IF den(k) = Zero THEN Zero ELSE NDiv(F.t[k], den(k))])]

KindOf(x) == CASE x = "vv" -> <<"v", "v">> [] x = "vc" -> <<"v", "c">> [] OTHER -> <<"c", "c">>
EInit == /\ heap = <<>> /\ sh \in SHAPES /\ eqs = FixedEqs(sh) /\ kd \in {KindOf(x) : x \in KINDS}
         /\ en = <<Fresh, Fresh>> /\ gh = <<Fresh, Fresh>> /\ out = Fresh /\ steps = <<>>
Did(e, op, i) == steps' = Append(steps, <<e, op, i>>) /\ UNCHANGED <<heap, sh, eqs, kd>>
\* query: compile and run; with conditioning variables, the joint is compiled and then divided
Query(e, i) == LET q == Reqs(kd[e])[i] IN
    /\ IF EMIT THEN UNCHANGED <<en, gh, out>> ELSE
       IF QOKay(q)
       THEN LET x == Compile(q, TOfReq(q) \cup ToSet2(q.C))  r == RunEng(x) IN
            /\ en' = [en EXCEPT ![e] = x]
            /\ gh' = [gh EXCEPT ![e] = [k |-> "q", q |-> [q EXCEPT !.T = q.T \o q.C, !.C = <<>>]]]
            /\ out' = [k |-> "ans", e |-> e, q |-> q, f |-> IF r = Gone \/ q.C = <<>> THEN r ELSE Conditional(r, ToSet2(q.T))]
       ELSE UNCHANGED <<en, gh>> /\ out' = Gone
    /\ Did(e, "q", i)
CompileOnly(e, i) == LET q == Reqs(kd[e])[i] IN
    /\ q.C = <<>>
    /\ IF EMIT THEN UNCHANGED <<en, gh, out>> ELSE
       IF QOKay(q) THEN /\ en' = [en EXCEPT ![e] = Compile(q, TOfReq(q))] /\ gh' = [gh EXCEPT ![e] = [k |-> "q", q |-> q]] /\ out' = Fresh
                   ELSE UNCHANGED <<en, gh>> /\ out' = Gone
    /\ Did(e, "c", i)
Run(e) == /\ out' = IF en[e].k = "fresh" THEN Gone ELSE [k |-> "ans", e |-> e, q |-> gh[e].q, f |-> RunEng(en[e])]
          /\ UNCHANGED <<en, gh>> /\ Did(e, "r", 0)
ENext == /\ Len(steps) < DEPTH
         /\ \E e \in 1..2 : /\ (steps = <<>> => e = 1)
                            /\ \/ \E i \in 1..9 : Query(e, i) \/ CompileOnly(e, i)
                               \/ Run(e)
ESpec == EInit /\ [][ENext]_evars

\* every answer given is the one of its request; impossible evidence has none
Answers == (out.k = "ans" /\ out.f # Gone) => LET W == Wanted(out.q) IN out.f.vs = W.vs /\ out.f.d = W.d /\ out.f.t = W.t /\ out.f.l = W.l
\* whatever happened before, running gives the answer of the last accepted request, and it is there unless its evidence is impossible
Pending == \A e \in 1..2 : gh[e].k = "q" => LET r == RunEng(en[e])  W == Wanted(gh[e].q) IN
              IF r = Gone THEN \A i \in DOMAIN W.t : IsBad(W.t[i]) ELSE r.vs = W.vs /\ r.t = W.t
\* requests touch their engine only; refused ones nothing; the model never changes
Alone == [][\A e \in 1..2 : e # steps'[Len(steps')][1] => en'[e] = en[e] /\ gh'[e] = gh[e]]_evars
Refused == [][(out' = Gone /\ steps' # steps) => en' = en /\ gh' = gh]_evars
FreshFirst == \A e \in 1..2 : en[e].k = "fresh" <=> gh[e].k = "fresh"
EmitE == (EMIT /\ Len(steps) = DEPTH) =>
   PrintT(<<"GEN", ToJson([sh |-> sh, exo |-> S.exo, endo |-> S.endo, edges |-> SetToSeq(S.e), cu |-> CU, eqs |-> eqs, kd |-> kd,
                           steps |-> [i \in DOMAIN steps |-> [e |-> steps[i][1], op |-> steps[i][2],
                               q |-> IF steps[i][3] = 0 THEN <<>> ELSE LET q == Reqs(kd[steps[i][1]])[steps[i][3]] IN
                                     <<[kind |-> q.kind, T |-> q.T, C |-> q.C, ev |-> SetToSeq(q.ev), do |-> SetToSeq(q.do),
                                       dos |-> [j \in DOMAIN q.dos |-> SetToSeq(q.dos[j])], tg |-> q.tg]>>]]])>>)
=============================================================================
