------------------------------ MODULE Streams ------------------------------
(* Reproducibility.  steps: sequence of records [k |-> "seed"|"act", n, r]; *)
(* n the seed or the action, r what the action produced.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
\* position of the last seeding before i (0: none)
LastSeed(steps, i) == LET S == {j \in 1..(i - 1) : steps[j].k = "seed"} IN IF S = {} THEN 0 ELSE Max(S)
\* what determines the result of step i: the seed and the actions since then; empty: nothing does
Key(steps, i) == LET j == LastSeed(steps, i) IN IF j = 0 THEN <<>> ELSE [x \in 1..(i - j + 1) |-> steps[j + x - 1].n]
Repeatable(steps) == \A i, j \in DOMAIN steps :
    (i < j /\ steps[i].k = "act" /\ steps[j].k = "act" /\ LastSeed(steps, i) # 0 /\ Key(steps, i) = Key(steps, j)) => steps[i].r = steps[j].r
=============================================================================
