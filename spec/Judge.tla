------------------------------- MODULE Judge -------------------------------
(* Binding of recorded results to specification values: sets of violated    *)
(* clauses, empty when the observation is what the specification prescribes.*)
EXTENDS FactorApi, Json, IOUtils
VARIABLES l,     \* next line of the trace
          vac,   \* comparisons that could not be decided in this arithmetic
          vts    \* storage backends on which the current history runs in parallel

Trace == ndJsonDeserialize(IOEnv.TRACE)

SetOf(x) == ToSet2(x)
PairSet(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}
Rats(x) == [i \in DOMAIN x |-> <<x[i][1], x[i][2]>>]

Clause(c, name) == IF c THEN {} ELSE {name}

ValuesClose(t, F) == Len(t) = Len(F.t) /\ \A i \in DOMAIN F.t : Close(t[i], F.t[i])

\* a projected factor p against the factor F
FClauses(F, p) ==
    Clause(p.vs = F.vs, "variables")
    \cup Clause(p.d = F.d, "states")
    \cup Clause(ToSet2(p.l) = F.l /\ Len(p.l) = Cardinality(F.l), "left")
    \cup Clause(ToSet2(p.r) = Right(F) /\ Len(p.r) = Cardinality(Right(F)), "right")
    \cup Clause(ValuesClose(p.t, F), "values")
\* the same without roles (where the library does not prescribe them)
VClauses(F, p) ==
    Clause(p.vs = F.vs, "variables")
    \cup Clause(p.d = F.d, "states")
    \cup Clause(ValuesClose(p.t, F), "values")

VacCount(F) == Cardinality({i \in DOMAIN F.t : Vacuous(F.t[i])})

Report(e, cs) == IF cs = {} THEN TRUE ELSE PrintT(<<"BAD", e.h, l, e.a, cs>>)

Begin(e) == heap' = <<>> /\ vac' = vac /\ vts' = e.vts
\* the driver could not follow the history: the library did something no behaviour of the specification does
Crash(e) == UNCHANGED <<heap, vac, vts>> /\ Report(e, {"driver stopped"})
=============================================================================
