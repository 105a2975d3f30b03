------------------------------ MODULE MC_Agg ------------------------------
(* Model aggregators: requests for n models are served by n jobs that draw  *)
(* a starting point and learn, in any interleaving (parallel) or one after  *)
(* the other; when all have ended their results are appended.  Ghost values *)
(* tell which job produced what.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS REQS,     \* numbers of models that may be requested
          MAXREQ,   \* number of requests
          EMIT
VARIABLES par, models, learn, jobs, req, log, hist
vars == <<par, models, learn, jobs, req, log, hist>>
Idle == <<>>
Init == par \in {TRUE, FALSE} /\ models = <<>> /\ learn = <<>> /\ jobs = Idle /\ req = 0 /\ log = <<>> /\ hist = <<>>
Quiet == jobs = Idle
\* a request; refused when it asks for no model
Ask(n) == /\ Quiet /\ req < MAXREQ
          /\ req' = req + 1
          /\ IF n >= 1 THEN jobs' = [i \in 1..n |-> [st |-> "new", id |-> <<req + 1, i>>, seq |-> 0]] /\ log' = <<>> /\ UNCHANGED hist
             ELSE UNCHANGED <<jobs, log>> /\ hist' = Append(hist, [n |-> 0, order |-> <<>>, reset |-> FALSE])
          /\ UNCHANGED <<par, models, learn>>
May(i) == par \/ \A k \in DOMAIN jobs : k < i => jobs[k].st = "done"
Draw(i) == /\ jobs[i].st = "new" /\ May(i)
           /\ jobs' = [jobs EXCEPT ![i].st = "learning"]
           /\ UNCHANGED <<par, models, learn, req, log, hist>>
Finish(i) == /\ jobs[i].st = "learning"
             /\ jobs' = [jobs EXCEPT ![i].st = "done"]
             /\ log' = Append(log, i)
             /\ UNCHANGED <<par, models, learn, req, hist>>
\* all have ended: the results are appended in the order of the jobs, whatever the order in which they ended
Collect == /\ jobs # Idle /\ \A i \in DOMAIN jobs : jobs[i].st = "done"
           /\ learn' = learn \o [i \in DOMAIN jobs |-> jobs[i].id]
           /\ models' = models \o [i \in DOMAIN jobs |-> jobs[i].id]
           /\ hist' = Append(hist, [n |-> Len(jobs), order |-> log, reset |-> FALSE])
           /\ jobs' = Idle
           /\ UNCHANGED <<par, req, log>>
Reset == /\ Quiet /\ hist # <<>> /\ ~hist[Len(hist)].reset /\ req < MAXREQ
         /\ models' = <<>> /\ learn' = <<>>
         /\ hist' = Append(hist, [n |-> 0, order |-> <<>>, reset |-> TRUE])
         /\ UNCHANGED <<par, jobs, req, log>>
Next == (\E n \in REQS : Ask(n)) \/ (\E i \in DOMAIN jobs : Draw(i) \/ Finish(i)) \/ Collect \/ Reset
Spec == Init /\ [][Next]_vars

\* what is held: one model per job ended since the last reset, each once, next to its learner
RECURSIVE SumSince(_)
SumSince(h) == IF h = <<>> THEN 0 ELSE LET x == h[Len(h)] IN IF x.reset THEN 0 ELSE x.n + SumSince(SubSeq(h, 1, Len(h) - 1))
Counted == Len(models) = SumSince(hist) /\ Len(learn) = Len(models)
Matched == \A i \in DOMAIN models : models[i] = learn[i]
Once == Cardinality({models[i] : i \in DOMAIN models}) = Len(models)
Grows == [][(hist' # hist /\ ~hist'[Len(hist')].reset) => SubSeq(models', 1, Len(models)) = models /\ SubSeq(learn', 1, Len(learn)) = learn]_vars
NothingPartial == [][models' # models => (Quiet' /\ Len(models') \in {0, Len(models) + Len(jobs)})]_vars
Emit == (EMIT /\ Quiet /\ req = MAXREQ) => PrintT(<<"GEN", ToJson([par |-> par, reqs |-> hist])>>)
=============================================================================
