---------------------------- MODULE MC_Session ----------------------------
(* Inference over several models as the implementation has it: a session    *)
(* holds a list of models and, once compiled, one engine per model; the     *)
(* list can be replaced or extended at any time and the result type can be  *)
(* switched.  Answers come from the engines; they must be the envelope (or  *)
(* the list) of the answers of the models held at that moment.              *)
EXTENDS Num, Json
CONSTANTS NM, DEPTH, EMIT
VARIABLES held, iv, comp, eng, out, steps
vars == <<held, iv, comp, eng, out, steps>>
Mods == 1..NM
\* answers of model m to query q: a distribution over two states
Ans(m, q) == LET a == Norm((3 * m + 2 * q + m * m * q) % 7, 7) IN <<a, NSub(One, a)>>
Queries == {1, 2}
CellMin(s, k) == FoldLeft(LAMBDA a, i : NMin(a, s[i][k]), s[1][k], [i \in DOMAIN s |-> i])
CellMax(s, k) == FoldLeft(LAMBDA a, i : NMax(a, s[i][k]), s[1][k], [i \in DOMAIN s |-> i])
Env(s) == <<[k \in 1..2 |-> CellMin(s, k)], [k \in 1..2 |-> CellMax(s, k)]>>
Lists == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<3, 3>>}
AddLists == {<<>>, <<1>>, <<3>>, <<2, 3>>}

Init == /\ held \in {<<>>, <<1>>, <<2, 1>>} /\ iv \in {TRUE, FALSE} /\ comp = FALSE /\ eng = <<>> /\ out = [k |-> "none"]
        /\ steps = <<[op |-> "new", ms |-> held, iv |-> iv, q |-> 0]>>
Did(op, ms, b, q) == steps' = Append(steps, [op |-> op, ms |-> ms, iv |-> b, q |-> q])
SetM(ms) == held' = ms /\ comp' = FALSE /\ out' = [k |-> "none"] /\ Did("set", ms, iv, 0) /\ UNCHANGED <<iv, eng>>
AddM(ms) == held' = held \o ms /\ comp' = FALSE /\ out' = [k |-> "none"] /\ Did("add", ms, iv, 0) /\ UNCHANGED <<iv, eng>>
Ival(b) == iv' = b /\ out' = [k |-> "none"] /\ Did("iv", <<>>, b, 0) /\ UNCHANGED <<held, comp, eng>>
Compile == /\ IF held = <<>> THEN UNCHANGED <<comp, eng>> /\ out' = [k |-> "refused"]
              ELSE comp' = TRUE /\ eng' = held /\ out' = [k |-> "none"]
           /\ Did("comp", <<>>, iv, 0) /\ UNCHANGED <<held, iv>>
Query(q) == /\ IF ~comp /\ held = <<>> THEN UNCHANGED <<comp, eng>> /\ out' = [k |-> "refused"]
               ELSE LET e == IF comp THEN eng ELSE held
                        s == [i \in DOMAIN e |-> Ans(e[i], q)] IN
                    /\ comp' = TRUE /\ eng' = e
                    /\ out' = IF iv THEN [k |-> "env", q |-> q, r |-> Env(s)] ELSE [k |-> "list", q |-> q, r |-> s]
            /\ Did("q", <<>>, iv, q) /\ UNCHANGED <<held, iv>>
Next == /\ Len(steps) <= DEPTH
        /\ \/ \E ms \in Lists : SetM(ms)
           \/ \E ms \in AddLists : AddM(ms)
           \/ \E b \in {TRUE, FALSE} : Ival(b)
           \/ Compile
           \/ \E q \in Queries : Query(q)
Spec == Init /\ [][Next]_vars

Fresh == comp => eng = held
Each(q) == [i \in DOMAIN held |-> Ans(held[i], q)]
Refusal == out.k = "refused" => held = <<>>
Answered == /\ out.k = "list" => out.r = Each(out.q) /\ ~iv
            /\ out.k = "env" => iv /\ out.r = Env(Each(out.q))
\* the envelope contains every answer and is attained; order and repetition of the models do not matter
Envelope == out.k = "env" => LET s == Each(out.q)  lo == out.r[1]  up == out.r[2] IN
              /\ \A i \in DOMAIN s : \A k \in 1..2 : NLeq(lo[k], s[i][k]) /\ NLeq(s[i][k], up[k])
              /\ \A k \in 1..2 : (\E i \in DOMAIN s : s[i][k] = lo[k]) /\ (\E i \in DOMAIN s : s[i][k] = up[k])
              /\ Env([i \in DOMAIN s |-> s[Len(s) + 1 - i]]) = out.r /\ Env(s \o s) = out.r
              \* coherence: the lower bound of a state is attained where the other has its upper bound (two states)
              /\ NAdd(lo[1], up[2]) = One
\* more models, wider envelope
Wider == [][(steps'[Len(steps')].op = "add" /\ held # <<>>) =>
             \A q \in Queries : LET a == Env(Each(q))  b == Env([i \in DOMAIN held' |-> Ans(held'[i], q)]) IN
                \A k \in 1..2 : NLeq(b[1][k], a[1][k]) /\ NLeq(a[2][k], b[2][k])]_vars
Emit == (EMIT /\ Len(steps) = DEPTH + 1) => PrintT(<<"GEN", ToJson(steps)>>)
=============================================================================
